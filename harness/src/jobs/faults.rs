//! Requests that fail, are malformed, or are meant to hurt.
use crate::{c, job, r::*, table::*, vs, Job, NOW0};
use common::connection::parse::frame::Frame;
use db::Db;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C07", "wrong_type", Db wrong_type, "67 commands x 6 kinds of value they do not work on, any 64-bit deadline ahead or none: an error, nothing changed"),
    job!("C07", "reads", Db reads, "22 reading commands x 6 kinds of value or an absent key, any deadline: nothing changed"),
    job!("C07", "failing", Db failing, "67 commands with one argument replaced by 0..2 (sorted sets: 1, thorough 2) arbitrary bytes, on 6 kinds of value: an error reply leaves value and deadline"),
    job!("C07", "failing_int", Db failing_int, "67 commands with one argument replaced by any 64-bit integer (where none is expected: 7 or the least), on 6 kinds of value: an error reply leaves value and deadline"),
    job!("C07", "late_failure", Db late_failure, "commands with several elements of which a later one cannot be taken: nothing of them is done"),
    job!("C05", "any_int", Db any_int, "67 commands with one or two arguments replaced by any 64-bit integers (where none is expected: 7 or the least), on 6 kinds of value or none: an answer, and the next request is served"),
    job!("C05", "extreme", Db extreme, "67 commands with one argument replaced by one of 24 extreme texts, on the kind of value they work on or none"),
    job!("C05", "odd_frames", Db odd_frames, "67 commands with one element replaced by null, an integer, an error, nested or empty arrays"),
    job!("C05", "odd_requests", Plain odd_requests, "requests that are no array of texts: 9 frames at top level and as the only or first element"),
    job!("C05", "side_commands", Db side_commands, "OBJECT, DEBUG, CONFIG, INFO, PING and unknown commands with subcommands of 0..2 arbitrary bytes, 0..2 arguments, at any clock reading"),
    job!("C05", "binary_args", Db binary_args, "67 commands with a key of 0..3 arbitrary bytes after a hash tag, or one argument of 0..2 (thorough 3; sorted sets 1, thorough 2) arbitrary bytes"),
    job!("C06", "case_of_names", Db case_of_names, "67 commands, each letter of the name in either case: same reply and state as in capitals"),
    job!("C06", "case_of_options", Db case_of_options, "27 requests with options, each letter in either case: same reply and state as in capitals"),
    job!("C06", "short_names", Db short_names, "every command name of 0..3 (thorough 4) arbitrary bytes: GET, SET, DEL, TTL (PING) in any case, or unknown"),
    job!("C06", "near_names", Db near_names, "each command name with one byte replaced by any other, one dropped or one added: never that command"),
    job!("C06", "too_few", Db too_few, "67 commands with every smaller number of arguments: refused, nothing changed"),
    job!("C06", "surplus", Db surplus, "67 commands with 1..2 surplus arguments of 0..2 arbitrary bytes: refused, nothing changed"),
    job!("C06", "numbers", Db numbers, "22 numeric arguments, each as text of 0..2 (thorough 3) arbitrary bytes: taken as exactly the integer written, or refused with nothing changed"),
    job!("C06", "bad_scores", Db bad_scores, "texts that are no number where a score or score bound is expected: refused, nothing changed"),
    job!("C06", "options_bytes", Db options_bytes, "SET, EXPIRE, ZADD, ZRANGE and RESTORE with an option of 0..3 arbitrary bytes: one of the known ones, or refused with nothing changed"),
];

const K: &[u8] = b"{t}k";
fn alive(db: &Arc<Db>) {
    vs::check(c!(db, "SET", "{t}probe", "ok").is_ok(), "later requests are served");
    vs::check(c!(db, "GET", "{t}probe").is(b"ok"), "later requests are served");
}
/// With a deadline ahead of the clock, or without.
fn maybe_dated(db: &Arc<Db>, k: &[u8]) {
    if vs::flag("dated") {
        let d = vs::any_i64("deadline");
        vs::assume(d > NOW0 as i64);
        c!(db, "PEXPIREAT", k, d);
    }
}
fn args_of<'a>(o: &'a Op, k: &'a [u8]) -> Vec<A<'a>> {
    let mut a: Vec<A> = vec![o.name.into(), k.into()];
    a.extend(o.args.iter().map(|x| A::from(*x)));
    a
}
fn wrong_type(db: &Arc<Db>) {
    let kind = any_kind();
    let o = any_op();
    if o.needs.accepts(kind) {
        return;
    }
    make(db, K, kind);
    maybe_dated(db, K);
    let before = raw(db, K);
    let r = apply(db, o, K);
    let what = format!("{} on a {}", o.name, KIND[kind]);
    if kind == STRING && o.needs == Needs::Counter {
        vs::check(r.is_err(), &format!("{what} is refused"));
    } else {
        vs::check(r.is_wrongtype(), &format!("{what} replies WRONGTYPE"));
    }
    vs::check(raw(db, K) == before, &format!("{what} changes nothing"));
    vs::reach("end");
}
fn reads(db: &Arc<Db>) {
    let kind = vs::choice("kind", KINDS + 1);
    if kind < KINDS {
        make(db, K, kind);
        if vs::flag("dated") {
            let d = vs::any_i64("deadline");
            vs::assume(d > 0);
            c!(db, "PEXPIREAT", K, d);
        }
    }
    let before = raw(db, K);
    let n = held(db, K);
    let o = any_op();
    if o.write {
        return;
    }
    apply(db, o, K);
    vs::check(raw(db, K) == before, &format!("{} changes nothing", o.name));
    vs::check(held(db, K) == n, &format!("{} makes no key", o.name));
    vs::reach("end");
}
fn fails_cleanly(db: &Arc<Db>, a: &[A], name: &str) {
    let before = raw(db, K);
    let n = held(db, K);
    let r = cmd(db, a);
    if r.is_err() {
        vs::check(raw(db, K) == before, &format!("{name} replied an error and changed something"));
        vs::check(held(db, K) == n, &format!("{name} replied an error and made or removed a key"));
        vs::reach("failed");
    }
}
fn failing(db: &Arc<Db>) {
    let o = any_op();
    if o.args.is_empty() {
        return;
    }
    make(db, K, any_kind());
    c!(db, "PEXPIREAT", K, 1_800_000_000_000);
    let mut a = args_of(o, K);
    let i = 2 + vs::choice("which", o.args.len());
    let n = if o.needs == Needs::Zset { vs::bound(1, 2) } else { 2 };
    let b = vs::blob("arg", 0, n);
    a[i] = (&b).into();
    fails_cleanly(db, &a, o.name);
}
/// Any integer where one is expected, else one of two (they end up in texts).
fn any_number(o: &Op, i: usize, name: &str) -> i64 {
    let text = o.name.starts_with('Z') && o.name != "ZREMRANGEBYRANK";
    if !text && o.args[i - 2].parse::<i64>().is_ok() {
        vs::any_i64(name)
    } else {
        [7, i64::MIN][vs::choice(name, 2)]
    }
}
fn failing_int(db: &Arc<Db>) {
    let o = any_op();
    if o.args.is_empty() {
        return;
    }
    make(db, K, any_kind());
    c!(db, "PEXPIREAT", K, 1_800_000_000_000);
    let mut a = args_of(o, K);
    let i = 2 + vs::choice("which", o.args.len());
    a[i] = any_number(o, i, "arg").into();
    fails_cleanly(db, &a, o.name);
}
fn late_failure(db: &Arc<Db>) {
    let kind = any_kind();
    make(db, K, kind);
    c!(db, "PEXPIREAT", K, 1_800_000_000_000);
    let x = vs::bytes("x", 1);
    let all: [&[A]; 10] = [
        &["ZADD".into(), K.into(), "7".into(), (&x).into(), "nan".into(), "n".into()],
        &["ZADD".into(), K.into(), "7".into(), (&x).into(), "8".into()],
        &["ZADD".into(), K.into(), "INCR".into(), "7".into(), (&x).into(), "8".into(), "n".into()],
        &["HSET".into(), K.into(), (&x).into(), "1".into(), "g".into()],
        &["HINCRBY".into(), K.into(), "f".into(), "1".into()],
        &["SET".into(), K.into(), (&x).into(), "EX".into()],
        &["SET".into(), K.into(), (&x).into(), "EX".into(), "0".into()],
        &["SETEX".into(), K.into(), "-1".into(), (&x).into()],
        &["RESTORE".into(), K.into(), "0".into(), (&x).into(), "REPLACE".into()],
        &["EXPIRE".into(), K.into(), 1_i64.wrapping_shl(62).into()],
    ];
    let a = all[vs::choice("request", all.len())];
    let before = raw(db, K);
    let r = cmd(db, a);
    if r.is_err() {
        vs::check(raw(db, K) == before, "a request that fails on a later element has done nothing");
        vs::reach("failed");
    } else {
        // ZADD INCR with one score per pair is for a single pair only
        vs::check(false, "a malformed request is refused");
    }
}

/// The value an operation works on, or one it does not, or none.
fn some_value(db: &Arc<Db>, o: &Op) {
    match vs::choice("value", 3) {
        0 => {}
        1 => make(db, K, (0..KINDS).find(|k| o.needs.accepts(*k)).unwrap()),
        _ => make(db, K, any_kind()),
    }
}
fn any_int(db: &Arc<Db>) {
    let o = any_op();
    if o.args.is_empty() {
        return;
    }
    some_value(db, o);
    let mut a = args_of(o, K);
    let i = 2 + vs::choice("which", o.args.len());
    a[i] = any_number(o, i, "arg").into();
    if o.args.len() > 1 && vs::flag("two") {
        let j = if i + 1 < a.len() { i + 1 } else { 2 };
        a[j] = any_number(o, j, "other").into();
    }
    cmd(db, &a);
    alive(db);
    vs::reach("end");
}
const EXTREME: &[&str] = &[
    "", "0", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809",
    "18446744073709551616", "99999999999999999999999999", "+1", "-", "+", "(", "[", "(-", "nan", "-inf", "inf", "1e400", "-0",
    "1e-400", "\r\n", "\u{212a}\u{130}", "((1",
];
fn extreme(db: &Arc<Db>) {
    let o = any_op();
    if o.args.is_empty() {
        return;
    }
    if vs::flag("present") {
        make(db, K, (0..KINDS).find(|k| o.needs.accepts(*k)).unwrap());
    }
    let mut a = args_of(o, K);
    let i = 2 + vs::choice("which", o.args.len());
    a[i] = EXTREME[vs::choice("text", EXTREME.len())].into();
    cmd(db, &a);
    alive(db);
    vs::reach("end");
}
fn binary_args(db: &Arc<Db>) {
    let o = any_op();
    let i = 1 + vs::choice("which", 1 + o.args.len());
    let b = if i == 1 {
        let mut b = b"{t}".to_vec();
        b.extend(vs::blob("key", 0, 3));
        b
    } else {
        let n = if o.needs == Needs::Zset { vs::bound(1, 2) } else { vs::bound(2, 3) };
        vs::blob("arg", 0, n)
    };
    let mut a = args_of(o, K);
    if vs::flag("present") {
        make(db, if i == 1 { &b } else { K }, (0..KINDS).find(|k| o.needs.accepts(*k)).unwrap());
    }
    a[i] = (&b).into();
    cmd(db, &a);
    alive(db);
    vs::reach("end");
}
fn odd<'a>(i: usize) -> Frame<'a> {
    match i {
        0 => Frame::Null,
        1 => Frame::Integer([7, i64::MIN][vs::choice("integer", 2)]),
        2 => Frame::Error(b"ERR x"),
        3 => Frame::Array(vec![]),
        4 => Frame::Array(vec![Frame::Bulk(b"GET"), Frame::Array(vec![Frame::Null])]),
        5 => Frame::Ping,
        6 => Frame::Simple(b"GET"),
        7 => Frame::Simple(b"\xff\xfe"),
        _ => Frame::Bulk(b""),
    }
}
const ODD: usize = 9;
fn odd_frames(db: &Arc<Db>) {
    let o = any_op();
    if vs::flag("present") {
        make(db, K, (0..KINDS).find(|k| o.needs.accepts(*k)).unwrap());
    }
    let n = 2 + o.args.len();
    let at = vs::choice("at", n + 1);
    let which = vs::choice("frame", ODD);
    let mut f: Vec<Frame> = vec![Frame::Bulk(o.name.as_bytes()), Frame::Bulk(K)];
    f.extend(o.args.iter().map(|x| Frame::Bulk(x.as_bytes())));
    if at < n {
        f[at] = odd(which);
    } else {
        f.push(odd(which));
    }
    with_frame(db, Frame::Array(f), |f| {
        let _ = f.map(rep);
    });
    alive(db);
    vs::reach("end");
}
fn odd_requests() {
    use server::verif::Command;
    let f = match vs::choice("shape", 4) {
        0 => odd(vs::choice("frame", ODD)),
        1 => Frame::Array(vec![odd(vs::choice("frame", ODD))]),
        2 => Frame::Array(vec![odd(vs::choice("frame", ODD)), odd(vs::choice("second", ODD))]),
        _ => Frame::Array(vec![Frame::Array(vec![odd(vs::choice("frame", ODD))])]),
    };
    match Command::from_frame(f) {
        Ok(Command::Unknown(c)) => {
            let r = c.apply();
            vs::check(matches!(r, Frame::OwnedError(_)), "an unknown command is answered with an error");
            vs::reach("unknown");
        }
        Ok(c) => {
            std::mem::forget(c);
            vs::reach("known");
        }
        Err(e) => {
            std::mem::forget(e);
            vs::reach("refused");
        }
    }
}
fn side_commands(db: &Arc<Db>) {
    let now = vs::any_u64("now");
    vs::assume(now < 1 << 48);
    make(db, K, any_kind());
    vs::set_now(now);
    let sub = match vs::choice("sub", 5) {
        0 => b"IDLETIME".to_vec(),
        1 => b"freq".to_vec(),
        2 => b"object".to_vec(),
        3 => b"Get".to_vec(),
        _ => vs::blob("subcommand", 0, 2),
    };
    let name = ["OBJECT", "DEBUG", "CONFIG", "INFO", "PING", "NOSUCH", "flushall"][vs::choice("cmd", 6)];
    let mut a: Vec<A> = vec![name.into()];
    let n = vs::choice("args", 4);
    if n > 0 {
        a.push((&sub).into());
    }
    if n > 1 {
        a.push(K.into());
    }
    if n > 2 {
        a.push("missing".into());
    }
    cmd(db, &a);
    vs::set_now(NOW0);
    alive(db);
    vs::reach("end");
}

/// A text with every letter in either case.
fn any_case(s: &str) -> Vec<u8> {
    let bits = vs::bytes("case", s.len());
    s.bytes().zip(bits).map(|(c, b)| if c.is_ascii_alphabetic() { c ^ (b & 0x20) } else { c }).collect()
}
/// Two equal keys in one slot.
fn twins(db: &Arc<Db>, kind: usize) {
    make(db, b"{t}a", kind);
    make(db, b"{t}b", kind);
}
fn both_alike(db: &Arc<Db>, what: &str) {
    vs::check(raw(db, b"{t}a") == raw(db, b"{t}b"), what);
}
fn sorted(name: &str, mut r: Rep) -> Rep {
    if name == "SMEMBERS" || name == "HGETALL" {
        if let Rep::Arr(v) = &mut r {
            v.sort();
        }
    }
    r
}
fn case_of_names(db: &Arc<Db>) {
    let o = any_op();
    if o.name == "DUMP" {
        return; // contains the time of the last visit
    }
    twins(db, (0..KINDS).find(|k| o.needs.accepts(*k)).unwrap());
    let name = any_case(o.name);
    let a = apply(db, o, b"{t}a");
    let mut v = args_of(o, b"{t}b");
    v[0] = (&name).into();
    let b = sorted(o.name, cmd(db, &v));
    vs::check(a == b, &format!("{} in any case is the same command", o.name));
    both_alike(db, &format!("{} in any case is the same command", o.name));
    vs::reach("end");
}
const WITH_OPTIONS: &[(usize, &str, &[&str])] = &[
    (STRING, "SET", &["v", "*NX"]),
    (STRING, "SET", &["v", "*XX"]),
    (STRING, "SET", &["v", "*GET"]),
    (STRING, "SET", &["v", "*KEEPTTL"]),
    (STRING, "SET", &["v", "*EX", "10"]),
    (STRING, "SET", &["v", "*PX", "10"]),
    (STRING, "SET", &["v", "*EXAT", "1900000000"]),
    (STRING, "SET", &["v", "*PXAT", "1900000000000"]),
    (STRING, "EXPIRE", &["10", "*NX"]),
    (STRING, "PEXPIRE", &["10", "*XX"]),
    (STRING, "EXPIREAT", &["1900000000", "*GT"]),
    (STRING, "PEXPIREAT", &["1900000000000", "*LT"]),
    (ZSET, "ZADD", &["*NX", "9", "m", "9", "q"]),
    (ZSET, "ZADD", &["*XX", "9", "m", "9", "q"]),
    (ZSET, "ZADD", &["*GT", "*CH", "9", "m", "0", "n"]),
    (ZSET, "ZADD", &["*LT", "9", "m", "0", "n"]),
    (ZSET, "ZADD", &["*INCR", "9", "m"]),
    (ZSET, "ZRANGE", &["0", "1", "*WITHSCORES"]),
    (ZSET, "ZRANGE", &["(1", "5", "*BYSCORE", "*LIMIT", "0", "1"]),
    (ZSET, "ZRANGE", &["(n", "+", "*BYLEX"]),
    (ZSET, "ZRANGE", &["0", "1", "*REV"]),
    (ZSET, "ZRANGEBYSCORE", &["0", "5", "*WITHSCORES", "*LIMIT", "1", "1"]),
    (ZSET, "ZREVRANGEBYSCORE", &["5", "0", "*LIMIT", "1", "1"]),
    (ZSET, "ZRANGEBYLEX", &["-", "+", "*LIMIT", "1", "1"]),
    (ZSET, "ZREVRANGEBYLEX", &["+", "-", "*LIMIT", "1", "1"]),
    (ZSET, "ZREVRANGE", &["0", "1", "*WITHSCORES"]),
    (LIST, "OBJECT", &["*FREQ"]),
];
fn case_of_options(db: &Arc<Db>) {
    let (kind, name, args) = WITH_OPTIONS[vs::choice("request", WITH_OPTIONS.len())];
    twins(db, kind);
    if vs::flag("dated") {
        c!(db, "PEXPIREAT", "{t}a", 1_800_000_000_000);
        c!(db, "PEXPIREAT", "{t}b", 1_800_000_000_000);
    }
    let upper: Vec<Vec<u8>> = args.iter().map(|x| x.trim_start_matches('*').as_bytes().to_vec()).collect();
    let mixed: Vec<Vec<u8>> = args.iter().map(|x| if let Some(x) = x.strip_prefix('*') { any_case(x) } else { x.as_bytes().to_vec() }).collect();
    let run = |k: &[u8], args: &[Vec<u8>]| {
        let mut a: Vec<A> = vec![name.into()];
        if name != "OBJECT" {
            a.push(k.into());
        }
        a.extend(args.iter().map(A::from));
        if name == "OBJECT" {
            a.push(k.into());
        }
        cmd(db, &a)
    };
    let x = run(b"{t}a", &upper);
    let y = run(b"{t}b", &mixed);
    vs::check(!x.is_err(), &format!("{name} with options in capitals is taken"));
    vs::check(x == y, &format!("{name}: options in any case mean the same"));
    both_alike(db, &format!("{name}: options in any case mean the same"));
    vs::reach("end");
}
/// Every name the server knows.
const NAMES: &[&str] = &[
    "PING", "TTL", "PTTL", "ZRANGEBYLEX", "ZRANGEBYSCORE", "ZRANK", "ZREM", "ZREMRANGEBYLEX", "ZREMRANGEBYRANK", "ZREMRANGEBYSCORE",
    "ZREVRANGE", "ZREVRANGEBYLEX", "ZREVRANGEBYSCORE", "ZREVRANK", "ZRANGE", "ZADD", "SADD", "SISMEMBER", "SMISMEMBER", "SMEMBERS",
    "SREM", "HINCRBY", "HEXISTS", "HDEL", "HSETNX", "HGET", "HMGET", "HSET", "HGETALL", "LLEN", "RPOP", "LPOP", "LRANGE", "LPUSH",
    "RPUSH", "LPUSHX", "RPUSHX", "INCRBY", "INCR", "DECRBY", "DECR", "GET", "SET", "DEL", "EXISTS", "PSETEX", "SETEX", "PEXPIREAT",
    "EXPIREAT", "EXPIRE", "PEXPIRE", "SYNCSNAPSHOT", "FLUSHALL", "INFO", "DUMP", "RESTORE", "DEBUG", "CONFIG", "OBJECT",
];
fn folded(a: &[u8], b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for (x, y) in a.iter().zip(b.bytes()) {
        r = vs::and(r, vs::or(*x == y, *x == y.to_ascii_lowercase()));
    }
    r
}
fn short_names(db: &Arc<Db>) {
    let name = vs::blob("name", 0, vs::bound(3, 4));
    make(db, K, STRING);
    let before = raw(db, K);
    let known: Vec<bool> = NAMES.iter().map(|n| folded(&name, n)).collect();
    let a: Vec<A> = vec![(&name).into(), K.into()];
    let r = cmd(db, &a);
    if r.is_err() {
        vs::check(raw(db, K) == before, "a request that is refused changes nothing");
        let get = NAMES.iter().position(|n| *n == "GET").unwrap();
        let del = NAMES.iter().position(|n| *n == "DEL").unwrap();
        vs::check(!vs::or(known[get], known[del]), "GET and DEL are recognised in any case");
        vs::reach("refused");
        return;
    }
    let mut any = false;
    for k in known {
        any = vs::or(any, k);
    }
    vs::check(any, "nothing but a command name is executed");
    vs::reach("executed");
}
fn near_names(db: &Arc<Db>) {
    let o = any_op();
    make(db, K, (0..KINDS).find(|k| o.needs.accepts(*k)).unwrap());
    let before = raw(db, K);
    let mut name = o.name.as_bytes().to_vec();
    let at = vs::choice("at", name.len() + 1);
    match vs::choice("how", 3) {
        0 if at < name.len() => name[at] = vs::any_u8("byte"),
        1 if at < name.len() => {
            name.remove(at);
        }
        2 => name.insert(at, vs::any_u8("byte")),
        _ => return,
    }
    for n in NAMES {
        vs::assume(!folded(&name, n));
    }
    let mut v = args_of(o, K);
    v[0] = (&name).into();
    let r = cmd(db, &v);
    vs::check(r.is_err(), &format!("a name that is not quite {} is refused", o.name));
    vs::check(raw(db, K) == before, &format!("a name that is not quite {} does nothing", o.name));
    vs::reach("end");
}

/// Fewest arguments after the name, and whether there may be any number of them.
fn arity(name: &str) -> (usize, bool) {
    match name {
        "GET" | "TTL" | "PTTL" | "LLEN" | "HGETALL" | "SMEMBERS" | "DUMP" | "INCR" | "DECR" => (1, false),
        "EXISTS" | "DEL" => (1, true),
        "LPOP" | "RPOP" => (1, false),
        "HGET" | "HEXISTS" | "SISMEMBER" | "ZRANK" | "ZREVRANK" | "INCRBY" | "DECRBY" => (2, false),
        "SET" | "EXPIRE" | "PEXPIRE" | "EXPIREAT" | "PEXPIREAT" => (2, false),
        "HMGET" | "SMISMEMBER" | "LPUSH" | "RPUSH" | "LPUSHX" | "RPUSHX" | "HDEL" | "SADD" | "SREM" | "ZREM" => (2, true),
        "LRANGE" | "SETEX" | "PSETEX" | "HSETNX" | "HINCRBY" | "ZREMRANGEBYRANK" | "ZREMRANGEBYSCORE" | "ZREMRANGEBYLEX" => (3, false),
        "ZRANGE" | "ZREVRANGE" | "ZRANGEBYSCORE" | "ZREVRANGEBYSCORE" | "ZRANGEBYLEX" | "ZREVRANGEBYLEX" => (3, false),
        "HSET" | "ZADD" => (3, true),
        _ => unreachable!(),
    }
}
fn too_few(db: &Arc<Db>) {
    let o = any_op();
    make(db, K, (0..KINDS).find(|k| o.needs.accepts(*k)).unwrap());
    let before = raw(db, K);
    let mut a = args_of(o, K);
    let n = vs::choice("kept", a.len() - 1);
    // options come after (ZADD: before) the required arguments
    if n >= arity(o.name).0 {
        let odd = (o.name == "HSET" && n % 2 == 0) || (o.name == "ZADD" && o.args.len() % 2 == n % 2);
        let cut = o.name == "SET" && n == 3 && o.args.len() > 2;
        if !odd && !cut {
            return;
        }
    }
    a.truncate(n + 1);
    let r = cmd(db, &a);
    vs::check(r.is_err(), &format!("{} with too few arguments is refused", o.name));
    vs::check(raw(db, K) == before && held(db, K) == 1, &format!("{} with too few arguments changes nothing", o.name));
    vs::reach("end");
}
fn surplus(db: &Arc<Db>) {
    let o = any_op();
    if arity(o.name).1 || (o.args.is_empty() && matches!(o.name, "LPOP" | "RPOP")) {
        return;
    }
    make(db, K, (0..KINDS).find(|k| o.needs.accepts(*k)).unwrap());
    let before = raw(db, K);
    let mut a = args_of(o, K);
    let b = vs::blob("surplus", 0, 2);
    for n in ["NX", "XX", "GT", "LT"] {
        vs::assume(!folded(&b, n));
    }
    a.push((&b).into());
    if vs::flag("two") {
        a.push("x".into());
    }
    let r = cmd(db, &a);
    vs::check(r.is_err(), &format!("{} with surplus arguments is refused", o.name));
    vs::check(raw(db, K) == before, &format!("{} with surplus arguments changes nothing", o.name));
    vs::reach("end");
}
/// Requests with a number at `#`.
const NUMERIC: &[(usize, &[&str])] = &[
    (INTEGER, &["INCRBY", "*", "#"]),
    (INTEGER, &["DECRBY", "*", "#"]),
    (HASH, &["HINCRBY", "*", "n", "#"]),
    (STRING, &["EXPIRE", "*", "#"]),
    (STRING, &["PEXPIRE", "*", "#"]),
    (STRING, &["EXPIREAT", "*", "#"]),
    (STRING, &["PEXPIREAT", "*", "#"]),
    (STRING, &["SETEX", "*", "#", "v"]),
    (STRING, &["PSETEX", "*", "#", "v"]),
    (STRING, &["SET", "*", "v", "EX", "#"]),
    (STRING, &["SET", "*", "v", "PX", "#"]),
    (STRING, &["SET", "*", "v", "EXAT", "#"]),
    (STRING, &["SET", "*", "v", "PXAT", "#"]),
    (LIST, &["LPOP", "*", "#"]),
    (LIST, &["RPOP", "*", "#"]),
    (LIST, &["LRANGE", "*", "#", "-1"]),
    (LIST, &["LRANGE", "*", "0", "#"]),
    (ZSET, &["ZREMRANGEBYRANK", "*", "#", "1"]),
    (ZSET, &["ZREMRANGEBYRANK", "*", "0", "#"]),
    (ZSET, &["ZRANGEBYSCORE", "*", "0", "9", "LIMIT", "#", "2"]),
    (ZSET, &["ZRANGEBYLEX", "*", "-", "+", "LIMIT", "0", "#"]),
    (ZSET, &["ZREVRANGEBYSCORE", "*", "9", "0", "LIMIT", "1", "#"]),
];
/// The integer a text is, by the book; forks.
fn integer(t: &[u8]) -> Option<i64> {
    let (neg, d) = match t {
        [m, d @ ..] if vs::same(&[*m], b"-") => (true, d),
        _ => (false, t),
    };
    let mut ok = !d.is_empty();
    let mut x = 0i64;
    for c in d {
        ok = vs::and(ok, vs::and(*c >= b'0', *c <= b'9'));
        x = x.wrapping_mul(10).wrapping_add(i64::from(c.wrapping_sub(b'0')));
    }
    if std::hint::black_box(ok) {
        Some(if neg { -x } else { x })
    } else {
        None
    }
}
fn numbers(db: &Arc<Db>) {
    let (kind, t) = NUMERIC[vs::choice("request", NUMERIC.len())];
    let text = vs::blob("number", 0, vs::bound(2, 3));
    // a plus sign may be taken or refused
    vs::assume(text.first().map_or(true, |c| *c != b'+'));
    twins(db, kind);
    let before = raw(db, b"{t}a");
    let run = |k: &'static str, n: A| {
        let a: Vec<A> = t.iter().map(|x| match *x {
            "*" => k.into(),
            "#" => n,
            x => x.into(),
        }).collect();
        cmd(db, &a)
    };
    let r = run("{t}a", (&text).into());
    match integer(&text) {
        Some(n) => {
            let s = run("{t}b", n.into());
            vs::check(r == s || (r.is_err() && s.is_err()), &format!("{} takes a number as it is written", t[0]));
            both_alike(db, &format!("{} takes a number as it is written", t[0]));
            vs::reach("number");
        }
        None => {
            vs::check(r.is_err(), &format!("{} refuses what is no number", t[0]));
            vs::check(raw(db, b"{t}a") == before, &format!("{} with a malformed number changes nothing", t[0]));
            vs::reach("no number");
        }
    }
}
fn bad_scores(db: &Arc<Db>) {
    const BAD: &[&str] = &["nan", "NaN", "-nan", "+nan", "", "x", "1e", "1 ", " 1", "1,5", "--1", "1_0", "e1", "1\n", "\u{661}"];
    const AT: &[&[&str]] = &[
        &["ZADD", "*", "#", "m"],
        &["ZADD", "*", "1", "q", "#", "m"],
        &["ZADD", "*", "INCR", "#", "m"],
        &["ZRANGEBYSCORE", "*", "#", "5"],
        &["ZRANGEBYSCORE", "*", "0", "(#"],
        &["ZREVRANGEBYSCORE", "*", "#", "0"],
        &["ZREMRANGEBYSCORE", "*", "#", "5"],
        &["ZREMRANGEBYSCORE", "*", "(0", "(#"],
        &["ZRANGE", "*", "#", "5", "BYSCORE"],
    ];
    make(db, K, ZSET);
    let before = raw(db, K);
    let t = AT[vs::choice("request", AT.len())];
    let bad = BAD[vs::choice("text", BAD.len())];
    let args: Vec<String> = t.iter().map(|x| x.replace('*', "{t}k").replace('#', bad)).collect();
    let a: Vec<A> = args.iter().map(|x| A::from(&x[..])).collect();
    let r = cmd(db, &a);
    vs::check(r.is_err(), &format!("{} refuses {bad:?} as a score", t[0]));
    vs::check(raw(db, K) == before, &format!("{} with a malformed score changes nothing", t[0]));
    vs::reach("end");
}
fn options_bytes(db: &Arc<Db>) {
    let (kind, head, known): (usize, &[&str], &[&str]) = match vs::choice("cmd", 5) {
        0 => (STRING, &["SET", "{t}k", "v"], &["NX", "XX", "GET"]),
        1 => (STRING, &["EXPIRE", "{t}k", "100"], &["NX", "XX", "GT", "LT"]),
        2 => (ZSET, &["ZRANGE", "{t}k", "0", "-1"], &["REV"]),
        3 => (ZSET, &["ZRANGEBYSCORE", "{t}k", "0", "9"], &[]),
        _ => (STRING, &["FLUSHALL"], &[]),
    };
    make(db, K, kind);
    let before = raw(db, K);
    let b = vs::blob("option", 0, 3);
    let mut ok = false;
    for n in known {
        ok = vs::or(ok, folded(&b, n));
    }
    let mut a: Vec<A> = head.iter().map(|x| A::from(*x)).collect();
    a.push((&b).into());
    let r = cmd(db, &a);
    vs::check(r.is_err() != ok, &format!("{} takes exactly the options it knows", head[0]));
    if r.is_err() {
        vs::check(raw(db, K) == before, &format!("{} with an unknown option changes nothing", head[0]));
        vs::reach("refused");
    } else {
        vs::reach("taken");
    }
}
