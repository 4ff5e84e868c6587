#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the one place where both are edited)."""
import json, os, subprocess

V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe, hook=False, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, hook=hook, na=na, note=note))


CMD = "component/server/src/cmd/"
DCT = "component/dict/src/cmd/"
DB = "component/db/src/"
FR = "component/common/src/connection/parse/frame.rs"
PA = "component/common/src/connection/parse/mod.rs"

prop("C01", "RESP frames survive encoding and decoding, at every split of the bytes",
     "Encoding a reply or request frame and decoding the bytes gives back the same frame and consumes exactly those bytes, whatever follows them. Every proper prefix of an encoded frame is reported as incomplete, never as an error and never as a different frame.",
     ["inputs"], "every frame built from nulls, 64-bit integers, strings with arbitrary bytes, errors and nested arrays, within the stated sizes; every prefix length",
     "the unit tests decode a few hand-written lines; they never combine payload bytes such as CR, LF or a type byte with every split position",
     [FR, PA], [("decoder", FR + ": Frame::parse"), ("encoder", FR + ": Frame write / From<&Frame> for Vec<u8>"), ("line and integer readers", PA + ": Parse")],
     ["decode cursor"], ["bytes written for a frame", "frame parsed from bytes and the number of bytes consumed"])
prop("C02", "The request decoder is total: any bytes are a frame, incomplete, or refused",
     "For any bytes a peer sends, decoding ends, without a crash, as a complete frame, as incomplete, or as a protocol error, reads nothing outside the buffer, and never consumes more bytes than are there. A longer input that starts with a complete frame decodes to that same frame.",
     ["inputs"], "every byte string up to the stated length, and every declared length or element count in templates of each frame type",
     "tests feed well-formed requests only; hostile lengths, counts and nesting are not tried",
     [FR, PA], [("decoder", FR + ": Frame::parse, Frame::parse_depth"), ("cursor", PA + ": Parse::{line,integer,bulk}")],
     ["decode cursor"], ["result of decoding", "bytes consumed"])
prop("C03", "Every reply is one well-formed frame that carries its data unchanged",
     "Whatever the stored values, arguments and error texts contain, each executed request is answered by exactly one complete protocol frame. Bulk data comes back byte for byte, including CR, LF and NUL, and an error text never splits a reply in two.",
     ["inputs"], "every command with arguments of arbitrary bytes, within the stated sizes",
     "tests read replies back through a client with printable data only",
     [FR, CMD], [("reply encoder", FR), ("replies", CMD + "*/: apply -> Frame")], ["reply frame"], ["bytes of the reply"])
prop("C04", "Pipelined requests are answered in order however the bytes arrive",
     "A connection answers every complete request exactly once and in the order sent, and the replies do not depend on how the bytes were cut into segments. An incomplete request is kept until the rest arrives, and end of stream or a protocol error ends only this connection.",
     ["inputs", "schedules"], "every split of pipelined request streams into segments, within the stated sizes",
     "the tests use one request per round trip; a segment boundary inside a frame never happens on loopback",
     ["component/common/src/connection/mod.rs", "component/server/src/lib.rs", FR],
     [("read loop", "component/common/src/connection/mod.rs: Connection::read_frame"), ("handler", "component/server/src/lib.rs: Handler::run")],
     ["connection read buffer"], ["bytes the server writes to the socket"], hook=True)
prop("C05", "No client input crashes the server",
     "No request, whatever its command name, arguments and stored data, makes the server panic, overflow or loop for ever; it is answered or refused. Later requests are served as if nothing had happened.",
     ["inputs", "histories"], "every command with arbitrary 64-bit integers, curated extreme texts and short arbitrary bytes as arguments, on keys of each type",
     "tests use small valid arguments; overflow is hidden by release builds",
     [CMD, DCT, "component/macros/src/parse_frames.rs"], [("argument parsing", "component/macros/src/parse_frames.rs"), ("commands", DCT)],
     ["stored values"], ["reply or panic"])
prop("C06", "Requests are parsed strictly: names in any case, options, arity, numbers",
     "Command and option names are recognised in any letter case, and nothing else is recognised as them. A request with missing, surplus or malformed arguments is refused with an error or by closing the connection and changes no data; a well-formed one means exactly what its arguments say.",
     ["inputs"], "every command with each argument count, every case mix of names and options, arbitrary bytes in place of numbers",
     "tests use one spelling of each command",
     [CMD + "mod.rs", "component/macros/src/parse_frames.rs", PA], [("dispatch", CMD + "mod.rs: Command::from_frame"), ("argument parsing", "component/macros/src/parse_frames.rs"), ("options", "component/common/src/options/")],
     ["stored values"], ["reply", "stored values"])
prop("C07", "A command that fails changes nothing, and types never mix",
     "A command on a key holding another type of value is answered with an error starting with WRONGTYPE (or another error), and every command answered with an error leaves the key's value, type and deadline as they were. Commands that only read change no value and no deadline.",
     ["inputs", "histories"], "every keyed command on a value of each of the six kinds and on an absent key, with and without deadline",
     "tests try a handful of wrong-type pairs and do not compare the state afterwards",
     [DCT], [("type checks", DCT + "*: Read::apply / Write::apply")], ["value, type and deadline of the key"], ["reply", "value and deadline"], hook=True)
prop("C08", "SET and GET: the last stored value is read back; options do what they say",
     "GET returns exactly the bytes (or the integer) most recently stored, or nil when there is none. SET with NX stores only when the key is absent, with XX only when it is present, replying nil and changing nothing otherwise; GET returns the previous value; KEEPTTL keeps the deadline and a plain SET removes it.",
     ["inputs", "histories"], "arbitrary keys and values, every combination of options, with a previous value of each kind, live, expired or absent",
     "tests cover a few option combinations on printable values",
     [DCT + "simple/set.rs", DCT + "simple/get.rs", CMD + "base/set.rs"], [("write", DCT + "simple/set.rs: Req::apply"), ("read", DCT + "simple/get.rs"), ("options", CMD + "base/set.rs")],
     ["value and deadline"], ["replies of SET, GET, SETEX, PSETEX, EXISTS, TTL"], hook=True)
prop("C09", "Counters compute exact 64-bit sums or refuse",
     "INCR, DECR, INCRBY, DECRBY and HINCRBY reply the exact sum of the stored integer and the operand and store it, an absent counter counting as 0. When the sum does not fit a signed 64-bit integer, or the stored value is not an integer, they reply an error and change nothing; the deadline is never changed.",
     ["inputs"], "every stored value and every operand over all 64-bit integers",
     "tests increment small numbers; the boundary of 2^63 is not reached",
     [DCT + "simple/incr.rs", DCT + "kvp/incr.rs", CMD + "base/decrby.rs"], [("increment", DCT + "simple/incr.rs"), ("hash increment", DCT + "kvp/incr.rs")],
     ["counter value"], ["reply", "GET / HGET"], hook=True)
prop("C10", "An expired key is as good as absent for every command",
     "Once a key's deadline is not in the future, every command behaves, in its reply and in the state it leaves, exactly as if the key had never been stored, whether or not the server has already reclaimed it. Before the deadline the key is fully visible.",
     ["inputs", "histories"], "every keyed command, every kind of value, every relation of deadline and clock",
     "tests sleep past one deadline for a few commands; no command is tried on an expired key that has not been reclaimed",
     ["component/dict/src/lib.rs", DCT], [("visibility", "component/dict/src/lib.rs: Dict::get / exists"), ("commands", DCT)], ["value and deadline"], ["reply and visible state"], hook=True)
prop("C11", "EXPIRE family and TTL: deadlines are set exactly, or not at all",
     "EXPIRE, PEXPIRE, EXPIREAT, PEXPIREAT, SETEX, PSETEX and SET EX/PX/EXAT/PXAT set exactly the deadline asked for, NX, XX, GT and LT apply it only under their condition, and out-of-range arguments are refused or clamped, never wrapped. A deadline in the past deletes the key; TTL and PTTL report the remaining time, -1 without a deadline, -2 without a key.",
     ["inputs"], "every 64-bit argument, every previous deadline, every option",
     "tests use a few small positive numbers",
     [DCT + "simple/expire.rs", DCT + "simple/ttl.rs", CMD + "base/", "component/common/src/lib.rs"], [("deadline arithmetic", CMD + "base/{expire,pexpire,expireat,pexpireat,setex,psetex,set}.rs"), ("conditions", DCT + "simple/expire.rs"), ("remaining time", DCT + "simple/ttl.rs")],
     ["deadline"], ["reply", "deadline"], hook=True)
prop("C12", "Active expiry reclaims exactly the expired keys, each in time",
     "Once a key's deadline has passed, the server reclaims its memory without being asked, within a bounded delay. A key whose deadline was moved, removed or not reached is never reclaimed, and the value under a reused name is not removed by an older deadline.",
     ["inputs", "histories", "schedules"], "deadlines in any order, changed before they come due; a running clock",
     "tests cannot see whether an expired key is still held, nor choose the order in which deadlines come due",
     ["component/db/src/expire.rs", "component/db/src/slot.rs"], [("purge task", "component/db/src/expire.rs"), ("notification", "component/db/src/slot.rs")], ["queue of deadlines", "stored values"], ["number of values held"], hook=True)
prop("C13", "Lists behave as sequences",
     "Pushes, pops, lengths and ranges behave as on a sequence: LPUSH and RPUSH add at their end in argument order, LPOP and RPOP remove and return from their end, the X variants only touch existing lists, LRANGE and LLEN report exactly the current elements. Indexes may be any 64-bit integers, counted from the end when negative, and a list that becomes empty no longer exists.",
     ["inputs", "histories"], "arbitrary elements, every 64-bit index and count, short histories of commands",
     "tests check fixed lists with a few indexes",
     [DCT + "deque/", CMD + "list/"], [("list commands", DCT + "deque/"), ("indexes", DCT + "deque/range.rs")], ["list"], ["replies"], hook=True)
prop("C14", "Hashes behave as maps",
     "HSET, HSETNX, HDEL and HINCRBY on a hash, and HGET, HMGET, HGETALL, HEXISTS, behave as on a map from fields to values: the last write of a field wins, HSETNX never overwrites, replies count exactly the fields added or removed, unaffected fields keep their values. A hash without fields does not exist.",
     ["inputs", "histories"], "arbitrary fields and values, repeated fields in one command, short histories of commands",
     "tests use distinct printable fields",
     [DCT + "kvp/", CMD + "hash/"], [("hash commands", DCT + "kvp/")], ["hash"], ["replies"], hook=True)
prop("C15", "Sets behave as sets",
     "SADD, SREM, SISMEMBER, SMISMEMBER and SMEMBERS behave as on a mathematical set: replies count exactly the members added or removed, repeated members count once, and membership is exact. A set without members does not exist.",
     ["inputs", "histories"], "arbitrary members, repeated members in one command, short histories of commands",
     "tests use distinct printable members",
     [DCT + "set/", CMD + "set/"], [("set commands", DCT + "set/")], ["set"], ["replies"], hook=True)
prop("C16", "A sorted set keeps one score per member in every view, through any updates",
     "After any sequence of additions, increments and removals, each member has exactly one score, and lookups by member and listings in order agree. NX, XX, GT, LT, CH and INCR affect exactly the members their conditions select and the reply counts exactly the added (CH: changed) members; a score that is not a number is refused.",
     ["inputs", "histories"], "every 64-bit floating-point score, every combination of options, repeated members, short histories of commands",
     "tests use small integer scores and one option at a time",
     [DCT + "sorted_set/", "component/dict/src/data_type/sorted_set.rs"], [("update", DCT + "sorted_set/add.rs"), ("two indexes", "component/dict/src/data_type/sorted_set.rs")], ["member index", "order index"], ["replies", "both indexes"], hook=True)
prop("C17", "Sorted-set ranges select exactly the members within their bounds, in order",
     "ZRANGE, ZREVRANGE, ZRANGEBYSCORE, ZREVRANGEBYSCORE, ZRANGEBYLEX, ZREVRANGEBYLEX, ZRANK and ZREVRANK report exactly the members their bounds select, ordered by score and then by member bytes, or reversed. Inclusive, exclusive and infinite bounds, negative ranks, and LIMIT with any offset and count are honoured exactly; an empty range gives an empty reply.",
     ["inputs"], "every score and bound, every 64-bit rank, offset and count",
     "tests use one small set with few bounds",
     [DCT + "sorted_set/range_by_score.rs", DCT + "sorted_set/range_by_rank.rs", DCT + "sorted_set/range_by_lex.rs", DCT + "sorted_set/mod.rs", "component/common/src/options/range_cmd_order.rs"],
     [("ranges", DCT + "sorted_set/"), ("bounds", "component/common/src/options/range_cmd_order.rs")], ["order index"], ["replies"], hook=True)
prop("C18", "Sorted-set range removals remove exactly the selected members",
     "ZREM, ZREMRANGEBYRANK, ZREMRANGEBYSCORE and ZREMRANGEBYLEX remove exactly the members they select, from every view, reply their number and leave all others with their scores. A sorted set without members does not exist.",
     ["inputs"], "every score and bound, every 64-bit rank", "tests remove one fixed range per command",
     [DCT + "sorted_set/"], [("removals", DCT + "sorted_set/remove*.rs")], ["member index", "order index"], ["replies", "both indexes"], hook=True)
prop("C19", "Keys are independent; commands on several keys treat each key once",
     "A command changes only the keys it names: every other key keeps its value and deadline, whether or not it shares a slot. DEL and EXISTS with several keys reply the sum over the keys given.",
     ["inputs", "histories"], "every keyed command next to another key with arbitrary name, value kind and deadline",
     "tests look at the key they wrote",
     ["component/db/src/lib.rs", "component/dict/src/lib.rs"], [("multi-key fan-out", CMD + "base/del.rs, exists.rs"), ("slots", "component/db/src/lib.rs")], ["all values"], ["values of other keys"], hook=True)
prop("C20", "Every key has one slot: CRC16 of the key or of its hash tag, modulo 16384",
     "A key's slot is the XMODEM CRC16 of the key, or of the part between the first { and the next } when that part is not empty, modulo the number of slots, and it is always a valid slot. Keys with equal hash tags share a slot, and every command looks for a key in the same slot.",
     ["inputs"], "every key up to the stated length", "tests use few keys and cannot see slots",
     ["component/db/src/lib.rs"], [("slot of a key", "component/db/src/lib.rs: get_slot")], [], ["slot index of a key"], hook=True)
prop("C21", "RESTORE of a DUMP recreates the value",
     "Restoring a dumped value under another key gives a value equal in type and content, for every type, with the deadline the TTL argument asks for. RESTORE refuses an existing key unless told to replace it, and a payload from which no whole, well-formed value can be decoded is refused without a crash and without a change.",
     ["inputs"], "values of every kind with arbitrary content, every TTL, every truncation and every change of bytes within the stated sizes",
     "tests restore one value",
     [DCT + "server/dump.rs", DCT + "server/restore.rs", CMD + "others/restore.rs", "component/dict/src/data_type/"], [("dump", DCT + "server/dump.rs"), ("restore", DCT + "server/restore.rs")], ["value and deadline"], ["replies", "value"], hook=True)
prop("C22", "A slot snapshot carries the slot's whole state",
     "A follower that loads a leader's snapshot of a slot holds exactly the leader's keys with their values and deadlines at that moment, nothing else, and continues at exactly the leader's write position. Expired or past deadlines in it are honoured, and a snapshot that is cut short is not taken for a whole one.",
     ["inputs", "histories", "fault_sequences"], "slots with values of every kind; every truncation of the snapshot",
     "tests have no follower",
     ["component/server/src/cmd/syncsnapshot.rs", "component/db/src/slot.rs", "component/dict/src/lib.rs", "component/db/src/pd_handle/replica.rs"],
     [("writer", "component/server/src/cmd/syncsnapshot.rs"), ("loader", "component/db/src/pd_handle/replica.rs"), ("install", "component/db/src/slot.rs: replace_dict")], ["slot state", "write id"], ["values of the follower's slot"], hook=True)
prop("C23", "A follower that applies the leader's messages holds the leader's state",
     "For every write a client makes, applying the messages the leader sends for it, in order, leaves the follower with the same values and deadlines as the leader. A write that failed or changed nothing leaves both alike as well.",
     ["inputs", "histories"], "every write command on every kind of value, with arbitrary arguments; short histories",
     "tests have no follower; which commands are forwarded is never looked at",
     ["component/db/src/slot.rs", "component/db/src/slot/replica_update.rs", DCT + "mod.rs", "component/db/src/forward/message.rs"],
     [("forwarding", "component/db/src/slot.rs: Slot::call_write"), ("replay", "component/db/src/slot/replica_update.rs")], ["leader and follower state"], ["values and deadlines on both sides"], hook=True)
prop("C24", "Replication messages apply once and in order; gaps are reported",
     "A follower applies a message only if it is the next one of its slot: repeated and older messages are ignored, and a message that skips ahead is reported as a gap and changes nothing. After any sequence of deliveries the follower's state is the leader's state after the writes it acknowledges.",
     ["schedules", "fault_sequences", "histories"], "every order of deliveries, repetitions and losses of a few messages, arbitrary message ids",
     "tests have no follower",
     ["component/db/src/slot.rs", "component/db/src/slot/replica_update.rs"], [("id check", "component/db/src/slot/replica_update.rs"), ("write ids", "component/db/src/slot.rs")], ["next write id", "follower state"], ["result of applying a message", "follower state"], hook=True)
prop("C25", "FLUSHALL empties everything and nothing comes back",
     "After FLUSHALL, with or without SYNC, no key exists in any slot, on the leader or on a follower that applies its messages, and later writes work as on a fresh database. Deadlines of flushed keys affect nothing stored later, and replication continues without a gap.",
     ["inputs", "histories"], "values of every kind in arbitrary slots, with and without deadlines, followed by further writes",
     "tests flush a few keys on a leader",
     ["component/db/src/slot.rs", "component/db/src/lib.rs", CMD + "others/flushall.rs"], [("flush", "component/db/src/slot.rs: flush")], ["all slots", "write ids"], ["EXISTS, values, follower state"], hook=True)
prop("C26", "The placement driver assigns each server one place, and never two leaders",
     "Across any sequence of joins and heartbeats each group has at most one leader, every server is told the group and role the placement driver holds for it, and ids are never reused for different servers. A heartbeat of an unknown or superseded server is not taken for another server's.",
     ["histories", "fault_sequences"], "every sequence of joins and heartbeats with arbitrary ids and addresses within the stated number of steps",
     "the placement driver has no tests",
     ["component/pd/src/status.rs", "component/pd/src/lib.rs", "component/common/src/pd_message.rs"], [("membership", "component/pd/src/status.rs")], ["groups and servers"], ["answers to joins and heartbeats"], hook=True)
prop("C27", "OBJECT reports how long a key was idle and how often it was used",
     "OBJECT FREQ counts, and OBJECT IDLETIME dates, exactly the visits of the recent past the server remembers, whatever the clock does, including the wrap of the minute counter. Both, and every visit, work without a crash at every time.",
     ["inputs", "histories"], "every visit time and every clock reading, forwards and backwards, within the stated number of visits",
     "tests run within one minute of wall-clock time",
     ["component/dict/src/lib.rs", DCT + "simple/get_visit_times.rs", DCT + "simple/get_last_visit_time.rs"], [("visit log", "component/dict/src/lib.rs: Value::update_visit_log")], ["visit log"], ["OBJECT replies"], hook=True)
prop("C28", "Concurrent commands on a key are atomic",
     "Commands on a key executed at the same time by several threads give replies and a final state that some one-after-another order of them gives (a command over several keys takes each key in its turn), the expiry task included, which knows the deadline the key ends up with, and the write positions sent to followers number the writes in exactly the order in which they took effect. No interleaving deadlocks or crashes.",
     ["schedules"], "every interleaving of two threads' commands at the granularity of shared-memory operations, within the stated number of preemptions",
     "the tests are sequential",
     ["component/db/src/slot.rs", "component/db/src/lib.rs"], [("slot lock", "component/db/src/slot.rs: Slot::call_write, call_read"), ("write ids", "component/db/src/slot.rs")], ["slot state", "write id"], ["replies and final state"], hook=True)
prop("C29", "The connection limit bounds the connections being served, and permits return",
     "Never more connections are served at once than configured, a finished or failed connection gives its place back exactly once, and a waiting connection gets a place that becomes free.",
     ["histories", "schedules"], "every sequence of connections opening and ending within the stated number",
     "tests open few connections",
     ["component/server/src/lib.rs", "component/server/src/limit.rs"], [("permits", "component/server/src/limit.rs: Limit::acquire, drop"), ("accept loop", "component/server/src/lib.rs: Listener::run")], ["available permits"], ["available permits, progress of waiting connections"], hook=True)

prop("C30", "A server follows the leader it is told to follow, and only that one",
     "A server takes the role the placement driver answers with: told to follow a leader, it comes to hold what that leader holds and then each of its writes, also when that leader's connections failed for a time; told to lead, it keeps what it holds and executes writes, and nothing of a former leader reaches it afterwards. Its heartbeats carry its ids, its role and its leader.",
     ["histories", "fault_sequences"], "every sequence of answers of the placement driver and every place at which the leader's connections fail, within the stated number",
     "the tests have neither placement driver nor second server",
     [DB + "pd_handle/mod.rs", DB + "pd_handle/replica.rs"], [("role changes", DB + "pd_handle/mod.rs: PdHandle::update_status"), ("replication task", DB + "pd_handle/replica.rs: Inner")], ["role, leader, slots"], ["data held after every answer, heartbeats sent"], hook=True)
prop("C31", "Every connected follower gets every write, in order",
     "Each follower connected for messages gets exactly the writes done from then on, each once, in their order and undamaged, whatever other followers do, however slowly it takes them; its pings are answered, and when it leaves its connection is let go without a loss for the others.",
     ["histories", "schedules"], "every sequence of followers coming, going and pinging among writes, within the stated number, and every write command",
     "the tests have no followers",
     [DB + "forward/mod.rs", DB + "forward/connection.rs", DB + "forward/message.rs"], [("fan-out", DB + "forward/connection.rs: ForwardConnections::push_all"), ("connection task", DB + "forward/connection.rs: run_connect_task")], ["connections"], ["bytes sent to each follower"], hook=True)

TECH = "symbolic execution of the compiled code (LLVM IR of /repo's crates) with z3: every path within the bounds, each assertion decided for all values of its path; counterexamples replayed natively"
# properties with a check
CLAIMED = os.environ.get("CLAIMED", "").split() or None


def main():
    jobs = {}
    for l in subprocess.run([V + "/build/rp/debug/replay", "--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        _, _, p, deep, name, b = l.split("\t", 5)
        jobs.setdefault(p, []).append((name, b))
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": n, "meaning": "what the property is about", "where": p["files"][0]} for n in p["state"]],
                            "observe_at": p["observe"],
                            "hook_needed": "cfg(rudis_verif): access to private items of server and db" if p["hook"] else None},
            }, ensure_ascii=False) + "\n")
    m = {
        "version": 1, "setup_cmd": "python3 check.py --setup",
        "hooks": {"guard": "--cfg rudis_verif", "enable": "RUSTFLAGS=--cfg rudis_verif (set by harness/build.sh and check.py)", "source_commits": ["6aa1d19ed2d14de5d140730b2f381c35105022d6", "d37092862264eed9ef01159fb4cc1f43bafaa85c", "bce217bd695bbc42cb95539f6eef3de5d58003fe", "edb8341fa0fe3b13f02012066eb6ee1b25e24c63", "aa95df1f4e2db12abada34cb1ede07da9dd4e538"]},
        "checks": [], "not_applicable": [],
    }
    for p in P:
        if p["id"] in jobs and not p["na"]:
            m["checks"].append({
                "property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                "technique": TECH, "level": "model_checking",
                "level_note": "bounded: every value within the bounds of each job; bounds per job in the evidence. Jobs: " + ", ".join(n for n, _ in jobs[p["id"]]) + (". " + p["note"] if p["note"] else ""),
                "evidence_file": f"evidence/{p['id']}.json"})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check yet"})
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
