//! DUMP and RESTORE.
use crate::{c, job, r::*, table::*, vs, Job, NOW0};
use db::Db;
use dict::data_type::DataType;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C21", "restore_copy", Db restore_copy, "6 kinds of value with arbitrary content of 0..2 bytes (any integer, any score), source deadline or none: the copy is equal and dated by the TTL argument"),
    job!("C21", "restore_ttl", Db restore_ttl, "any 64-bit TTL, ABSTTL, REPLACE, target absent, of another kind (dated or not) or expired: dated exactly, or refused with nothing changed"),
    job!("C21", "restored_behaves", Db restored_behaves, "6 kinds of value x 67 commands: the copy behaves as the original"),
    job!("C21", "truncated", Db truncated, "a dump of each of 6 kinds cut at every byte: refused without a change, or restored whole"),
    job!("C21", "changed_byte", Db changed_byte, "a dump of each of 6 kinds with any byte of any position changed: refused without a change, or a well-formed value"),
    job!("C21", "arbitrary_payload", Db arbitrary_payload, "a type tag of 0..255 and 0..12 (thorough 20) arbitrary bytes: refused without a change, or a well-formed value"),
    job!("C21", "crafted", Db crafted, "payloads of every type with two elements taken from texts, extreme numbers, NaN and nested collections, equal or different members, and any score"),
    job!("C05", "crafted_restore", Db crafted, "RESTORE of payloads of every type with two elements taken from texts, extreme numbers, NaN and nested collections, equal or different members, and any score"),
];

fn payload(db: &Arc<Db>, k: &str) -> Vec<u8> {
    match c!(db, "DUMP", k) {
        Rep::Str(p) => p,
        _ => {
            vs::check(false, "DUMP of a value replies a payload");
            vec![]
        }
    }
}
/// A value of any kind with arbitrary content.
fn any_value(db: &Arc<Db>, k: &str) {
    let r = match any_kind() {
        STRING => {
            let v = vs::blob("value", 0, 2);
            c!(db, "SET", k, &v)
        }
        INTEGER => c!(db, "SET", k, vs::any_i64("value")),
        LIST => {
            let v = vs::blob("value", 0, 2);
            let w = vs::bytes("second", 1);
            c!(db, "RPUSH", k, &v, &w, "x")
        }
        HASH => {
            let v = vs::blob("value", 0, 2);
            let w = vs::bytes("field", 1);
            c!(db, "HSET", k, &w, &v);
            c!(db, "HINCRBY", k, "nn", vs::any_i64("count"))
        }
        SET => {
            let v = vs::blob("value", 0, 2);
            c!(db, "SADD", k, &v, "xyz")
        }
        _ => {
            let v = vs::bytes("value", 1);
            c!(db, "ZADD", k, "1", "x");
            let s = vs::any_f64("score");
            vs::assume(s == s);
            use dict::cmd::sorted_set::add::Req;
            let r = db.sorted_set_add(Req {
                key: k.as_bytes().into(),
                nodes: vec![dict::data_type::sorted_set::Node::new(v.into(), s)],
                nx_xx: common::options::NxXx::None,
                gt_lt: common::options::GtLt::None,
                incr: false,
            });
            vs::check(r.is_ok(), "ZADD succeeds");
            Rep::Int(0)
        }
    };
    vs::check(!r.is_err(), "creating a value succeeds");
}
fn restore_copy(db: &Arc<Db>) {
    any_value(db, "{t}a");
    let dated = vs::flag("dated");
    if dated {
        let d = vs::any_i64("deadline");
        vs::assume(d > NOW0 as i64);
        c!(db, "PEXPIREAT", "{t}a", d);
    }
    let before = raw(db, b"{t}a").unwrap();
    let p = payload(db, "{t}a");
    let r = c!(db, "RESTORE", "b", 0, &p);
    vs::check(r.is_ok(), "RESTORE of a dump replies OK");
    vs::check(raw(db, b"{t}a").unwrap() == before, "the source is left alone");
    match raw(db, b"b") {
        Some((v, d)) => {
            vs::check(v == before.0, "the copy is equal");
            vs::check(d == 0, "TTL 0 means no deadline");
        }
        None => vs::check(false, "the copy exists"),
    }
    vs::reach("end");
}
fn restore_ttl(db: &Arc<Db>) {
    let kind = vs::choice("kind", 2) * LIST;
    make(db, b"{t}a", kind);
    let p = payload(db, "{t}a");
    let data = raw(db, b"{t}a").unwrap().0;
    let now = NOW0 + 1_000_000;
    let target = vs::choice("target", 4);
    if target > 0 {
        make(db, b"b", HASH);
        if target > 1 {
            let d = vs::any_i64("old deadline");
            vs::assume(d > 0 && (d as u64 > now) == (target == 2));
            c!(db, "PEXPIREAT", "b", d);
        }
    }
    vs::set_now(now);
    let before = state(db, b"b", now);
    let ttl = vs::any_i64("ttl");
    let (replace, abs) = (vs::flag("replace"), vs::flag("absttl"));
    let mut a: Vec<A> = vec!["RESTORE".into(), "b".into(), ttl.into(), (&p).into()];
    if replace {
        a.push("REPLACE".into());
    }
    if abs {
        a.push("ABSTTL".into());
    }
    let r = cmd(db, &a);
    let deadline = if ttl == 0 {
        Some(0)
    } else if ttl < 0 {
        None
    } else if abs {
        Some(ttl)
    } else {
        ttl.checked_add(now as i64)
    };
    let after = state(db, b"b", now);
    if before.is_some() && !replace {
        vs::check(r.is_err(), "RESTORE of an existing key without REPLACE is refused");
        vs::check(after == before, "a refused RESTORE changes nothing");
        vs::reach("busy");
    } else if let Some(d) = deadline {
        vs::check(r.is_ok(), "RESTORE replies OK");
        if d == 0 || d > now as i64 {
            vs::check(after == Some((data, d as u64)), "RESTORE stores the value with exactly the deadline asked for");
            vs::reach("stored");
        } else {
            vs::check(after.is_none(), "a deadline that has passed leaves no key");
            vs::check(c!(db, "EXISTS", "b").is_int(0), "a deadline that has passed leaves no key");
            vs::reach("past");
        }
    } else {
        vs::check(r.is_err(), "a TTL without meaning is refused");
        vs::check(after == before, "a refused RESTORE changes nothing");
        vs::reach("bad ttl");
    }
}
fn restored_behaves(db: &Arc<Db>) {
    let kind = any_kind();
    make(db, b"{t}a", kind);
    let p = payload(db, "{t}a");
    vs::check(c!(db, "RESTORE", "{t}b", 0, &p).is_ok(), "RESTORE of a dump replies OK");
    let o = any_op();
    let a = apply(db, o, b"{t}a");
    let b = apply(db, o, b"{t}b");
    vs::check(a == b || o.name == "DUMP", &format!("{} on a restored value replies as on the original", o.name));
    let (a, b) = (raw(db, b"{t}a"), raw(db, b"{t}b"));
    vs::check(a == b, &format!("{} on a restored value leaves the same value", o.name));
    vs::reach("end");
}

/// Some value a client could have made.
fn well_formed(v: &DataType) -> bool {
    let flat = |v: &DataType| matches!(v, DataType::String(_) | DataType::Bytes(_) | DataType::Integer(_) | DataType::Float(_) | DataType::Null);
    match v {
        DataType::Null => false,
        DataType::String(_) | DataType::Bytes(_) | DataType::Integer(_) => true,
        DataType::Float(f) => !f.0.is_nan(),
        DataType::Kvp(k) => !k.is_empty() && k.values().all(flat),
        DataType::Deque(d) => !d.is_empty() && d.iter().all(flat),
        DataType::Set(s) => !s.is_empty(),
        DataType::SortedSet(s) => {
            !s.value.is_empty()
                && s.value.len() == s.hash.len()
                && s.value.iter().all(|n| !n.score.0.is_nan() && s.hash.get(&n.key).map_or(false, |m| m == n))
        }
    }
}
/// RESTORE the payload over a present or absent key; it is refused without a change, or stored whole.
fn try_restore(db: &Arc<Db>, p: &[u8]) -> Option<DataType> {
    let over = vs::flag("over");
    if over {
        make(db, b"b", SET);
    }
    let before = raw(db, b"b");
    let r = c!(db, "RESTORE", "b", 0, p, "REPLACE");
    let after = raw(db, b"b");
    if r.is_err() {
        vs::check(before == after, "a refused RESTORE changes nothing");
        vs::reach("refused");
        return None;
    }
    vs::check(r.is_ok(), "RESTORE replies OK or an error");
    vs::check(after.as_ref().map_or(false, |a| well_formed(&a.0)), "RESTORE stores only well-formed values");
    vs::reach("restored");
    // and it can be used
    let key: &[u8] = b"b";
    c!(db, "DUMP", key);
    match after.as_ref().map(|a| &a.0) {
        // the text of a symbolic number is out of reach, `crafted` has elements of every type
        Some(DataType::Float(_)) => {}
        Some(DataType::Integer(_)) => {}
        _ => {
            c!(db, "GET", key);
        }
    }
    c!(db, "LLEN", key);
    c!(db, "LPOP", key);
    c!(db, "HGET", key, "a");
    c!(db, "HEXISTS", key, "a");
    c!(db, "SMEMBERS", key);
    c!(db, "ZRANGE", key, "0", "-1");
    c!(db, "ZRANGEBYSCORE", key, "(1", "+inf");
    c!(db, "ZRANK", key, "a");
    c!(db, "ZADD", key, "3", "mm");
    after.map(|a| a.0)
}
/// A value whose dump does not depend on the order of a hash table.
fn make_one(db: &Arc<Db>, kind: usize) {
    let k = "{t}a";
    match kind {
        HASH => c!(db, "HSET", k, "field", "v"),
        SET => c!(db, "SADD", k, "member"),
        ZSET => c!(db, "ZADD", k, "1.5", "member"),
        _ => return make(db, k.as_bytes(), kind),
    };
}
fn truncated(db: &Arc<Db>) {
    make_one(db, any_kind());
    let mut p = payload(db, "{t}a");
    let data = raw(db, b"{t}a").unwrap().0;
    let n = vs::choice("kept", p.len());
    p.truncate(n);
    if let Some(v) = try_restore(db, &p) {
        vs::check(v == data, "a dump cut short is refused or restored whole");
    }
}
fn changed_byte(db: &Arc<Db>) {
    make_one(db, any_kind());
    let mut p = payload(db, "{t}a");
    // the deadline and visit log at the end are not part of the value
    let at = vs::choice("at", p.len() - 16);
    p[at] = vs::any_u8("byte");
    try_restore(db, &p);
}
fn arbitrary_payload(db: &Arc<Db>) {
    let mut p = vec![vs::any_u8("tag"), 0, 0, 0];
    p.extend(vs::blob("rest", 0, vs::bound(12, 20)));
    try_restore(db, &p);
}
fn int(p: &mut Vec<u8>, x: u64) {
    p.extend(x.to_le_bytes());
}
fn text(p: &mut Vec<u8>, b: &[u8]) {
    int(p, b.len() as u64);
    p.extend(b);
}
fn crafted(db: &Arc<Db>) {
    let mut p = vec![];
    match vs::choice("type", 4) {
        0 => {
            p.extend(6u32.to_le_bytes());
            int(&mut p, 2);
            for _ in 0..2 {
                element(&mut p);
            }
        }
        1 => {
            p.extend(5u32.to_le_bytes());
            int(&mut p, 2);
            for _ in 0..2 {
                text(&mut p, if vs::flag("same") { b"a" } else { b"bc" });
                element(&mut p);
            }
        }
        2 => {
            p.extend(7u32.to_le_bytes());
            int(&mut p, 2);
            for _ in 0..2 {
                text(&mut p, &vs::bytes("member", 1));
            }
        }
        _ => {
            p.extend(8u32.to_le_bytes());
            let name = [b"a", b"b"];
            let n = vs::choice("members", 3);
            int(&mut p, n as u64);
            for i in 0..n {
                text(&mut p, name[i]);
                p.extend(score(i).to_le_bytes());
                text(&mut p, name[if vs::flag("other") { 1 - i } else { i }]);
            }
            let n = vs::choice("nodes", 3);
            int(&mut p, n as u64);
            for i in 0..n {
                p.extend(score(i).to_le_bytes());
                text(&mut p, name[if vs::flag("other") { 1 - i } else { i }]);
            }
        }
    }
    try_restore(db, &p);
}
fn score(i: usize) -> u64 {
    if i == 0 {
        vs::any_u64("score")
    } else {
        1f64.to_bits()
    }
}
fn element(p: &mut Vec<u8>) {
    let t = vs::choice("element", 7);
    p.extend((t as u32).to_le_bytes());
    match t {
        0 => {}
        1 | 2 => text(p, b"xyz"),
        3 => int(p, [7, 1 << 63][vs::choice("integer", 2)]),
        4 => int(p, [1.5f64, f64::NAN, f64::NEG_INFINITY][vs::choice("float", 3)].to_bits()),
        _ => {
            int(p, 1);
            if t == 5 {
                text(p, b"f");
            }
            p.extend(3u32.to_le_bytes());
            int(p, 7);
        }
    }
}
