//! Which slot a key is in, and what commands do to other keys.
use crate::{c, job, r::*, table::*, vs, Job, NOW0};
use db::Db;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C20", "slot_of_key", Db slot_of_key, "every key of 0..3 (thorough 5) bytes: the slot by definition"),
    job!("C20", "slot_of_tagged", Db slot_of_tagged, "keys of 1..5 (thorough 7) bytes out of {, }, a and one other arbitrary byte: the slot by definition"),
    job!("C20", "slot_everywhere", Db slot_everywhere, "67 commands on a key of 6 kinds with hash tag: found in, and stored in, the slot of the tag"),
    job!("C20", "slot_vectors", Db slot_vectors, "known slots, and long keys with an arbitrary byte after the tag"),
    job!("C19", "others_untouched", Db others_untouched, "67 commands on 6 kinds of value next to another key (same or other slot, 6 kinds, any 64-bit deadline or none)"),
    job!("C19", "other_name", Db other_name, "two keys of 0..2 arbitrary bytes in one slot, 8 commands: different names are different keys, equal names one"),
    job!("C19", "multi_del_exists", Db multi_del_exists, "DEL and EXISTS of three keys out of three (repeats included), each absent, live or with any 64-bit deadline"),
    job!("C19", "two_keys_history", Db two_keys_history, "3 (thorough 4) commands on either of two keys: each behaves as if alone"),
];

/// CRC16/XMODEM, bit by bit.
fn crc16(b: &[u8]) -> u16 {
    let mut r: u16 = 0;
    for c in b {
        r ^= u16::from(*c) << 8;
        for _ in 0..8 {
            let top = 0u16.wrapping_sub(r >> 15);
            r = (r << 1) ^ (0x1021 & top);
        }
    }
    r
}
/// The part of a key that decides its slot; forks on the positions of braces.
fn tag(k: &[u8]) -> &[u8] {
    for (i, c) in k.iter().enumerate() {
        if vs::same(&[*c], b"{") {
            for (j, d) in k[i + 1..].iter().enumerate() {
                if vs::same(&[*d], b"}") {
                    return if j == 0 { k } else { &k[i + 1..i + 1 + j] };
                }
            }
            return k;
        }
    }
    k
}
fn slot(k: &[u8]) -> usize {
    usize::from(crc16(tag(k)) % 16384)
}
fn slot_of_key(db: &Arc<Db>) {
    let k = vs::blob("key", 0, vs::bound(3, 5));
    let s = db::verif::slot(db, &k);
    vs::check(std::ptr::eq(s, &db.slots[slot(&k)]), "the slot of a key is the CRC16 of the key or its hash tag modulo 16384");
    vs::reach("end");
}
fn slot_of_tagged(db: &Arc<Db>) {
    let l = vs::bytes("letter", 1);
    let n = 1 + vs::choice("len", vs::bound(5, 7));
    let k: Vec<u8> = (0..n).map(|_| match vs::choice("byte", 4) {
        0 => b'{',
        1 => b'}',
        2 => l[0],
        _ => b'a',
    }).collect();
    vs::assume(vs::and(l[0] != b'{', l[0] != b'}'));
    let s = db::verif::slot(db, &k);
    vs::check(std::ptr::eq(s, &db.slots[slot(&k)]), "the slot of a key is the CRC16 of the key or its hash tag modulo 16384");
    vs::reach("end");
}
fn slot_vectors(db: &Arc<Db>) {
    // from the Redis cluster specification and its reference implementation
    let known: [(&[u8], usize); 5] = [(b"123456789", 12739), (b"foo", 12182), (b"bar", 5061), (b"", 0), (b"{user1000}.following", 3443)];
    for (k, s) in known {
        vs::check(db::verif::slot_of(db, k) == s, "known slot");
    }
    let x = vs::any_u8("x");
    let mut a = b"a long prefix {tag}".to_vec();
    a.push(x);
    let mut b = vec![b'y'];
    b.extend_from_slice(b"{tag}{other}");
    b.push(x);
    let (s, t) = (db::verif::slot_of(db, &a), db::verif::slot_of(db, &b));
    vs::check(s == t && s == usize::from(crc16(b"tag") % 16384), "equal hash tags share a slot");
    let mut k = vec![b'x'; 300];
    k.push(x);
    vs::check(db::verif::slot_of(db, &k) == usize::from(crc16(&k) % 16384) || x == b'{', "the slot of a long key");
    vs::reach("end");
}
/// Number of values a slot holds.
fn held_in(db: &Arc<Db>, s: usize) -> usize {
    use dict::Dict;
    db.slots[s].share_status.lock().as_ref().unwrap().dict.len()
}
fn slot_everywhere(db: &Arc<Db>) {
    use dict::Dict;
    let k: &[u8] = b"x{t}y";
    let home = usize::from(crc16(b"t") % 16384);
    let kind = vs::choice("kind", KINDS + 1);
    if kind < KINDS {
        // made elsewhere and moved there by hand
        make(db, b"other", kind);
        let v = db.slots[db::verif::slot_of(db, b"other")].share_status.lock().as_mut().unwrap().dict.remove(b"other").unwrap();
        db.slots[home].share_status.lock().as_mut().unwrap().dict.insert(k.into(), v);
        make(db, b"twin", kind);
    }
    let o = any_op();
    let a = apply(db, o, k);
    let b = apply(db, o, b"twin");
    vs::check(a == b, &format!("{} looks in the slot of the key", o.name));
    let n = held_in(db, home);
    let there = raw(db, b"twin").is_some();
    vs::check(there == (n == 1) && n < 2, &format!("{} stores in the slot of the key", o.name));
    let total: usize = [b"x{t}y".as_slice(), b"y", b"x", b"{t}", b"xty"].iter().map(|x| held_in(db, usize::from(crc16(x) % 16384))).sum();
    vs::check(total == 0 || home == usize::from(crc16(b"{t}") % 16384), &format!("{} stores nowhere else", o.name));
    vs::reach("end");
}

fn others_untouched(db: &Arc<Db>) {
    let kind = any_kind();
    make(db, b"{t}a", kind);
    let other: &[u8] = if vs::flag("same slot") { b"{t}b" } else { b"b" };
    let ok = any_kind();
    make(db, other, ok);
    let dated = vs::flag("deadline");
    let mut d = 0;
    if dated {
        d = vs::any_i64("deadline");
        vs::assume(d > NOW0 as i64);
        c!(db, "PEXPIREAT", other, d);
    }
    let before = raw(db, other);
    let o = any_op();
    apply(db, o, b"{t}a");
    let after = raw(db, other);
    vs::check(before == after, &format!("{} leaves other keys alone", o.name));
    vs::check(after.map_or(false, |x| x.1 == d as u64), "the other key keeps its deadline");
    vs::reach("end");
}
fn other_name(db: &Arc<Db>) {
    let mut a = b"{t}".to_vec();
    let mut b = a.clone();
    a.extend(vs::blob("a", 0, 2));
    b.extend(vs::blob("b", 0, 2));
    c!(db, "SET", &a, "one");
    let equal = vs::same(&a, &b);
    let expect = |db: &Arc<Db>, v: &[u8]| {
        let g = c!(db, "GET", &a);
        vs::check(g.is(v), "a key holds what was stored under its name");
    };
    match vs::choice("cmd", 8) {
        0 => {
            c!(db, "SET", &b, "two");
            expect(db, if equal { b"two" } else { b"one" });
        }
        1 => {
            let r = c!(db, "DEL", &b);
            vs::check(r.is_int(equal.into()), "DEL removes exactly the named key");
            vs::check(c!(db, "EXISTS", &a).is_int((!equal).into()), "DEL removes exactly the named key");
        }
        2 => {
            let r = c!(db, "RPUSH", &b, "x");
            vs::check(r.is_wrongtype() == equal, "RPUSH looks at exactly the named key");
            expect(db, b"one");
        }
        3 => {
            let r = c!(db, "EXPIRE", &b, 100);
            vs::check(r.is_int(equal.into()), "EXPIRE applies to exactly the named key");
            vs::check(c!(db, "TTL", &a).is_int(if equal { 100 } else { -1 }), "EXPIRE applies to exactly the named key");
        }
        4 => {
            let r = c!(db, "EXISTS", &b);
            vs::check(r.is_int(equal.into()), "EXISTS looks at exactly the named key");
        }
        5 => {
            let r = c!(db, "GET", &b);
            vs::check(r.is_nil() != equal, "GET looks at exactly the named key");
        }
        6 => {
            let r = c!(db, "EXISTS", &a, &b);
            vs::check(r.is_int(1 + i64::from(equal)), "EXISTS counts each key given");
        }
        _ => {
            let r = c!(db, "DEL", &a, &b, &a);
            vs::check(r.is_int(1), "DEL counts a removed key once");
            vs::check(c!(db, "EXISTS", &a).is_int(0), "DEL removes the named key");
        }
    }
    vs::reach("end");
}
fn multi_del_exists(db: &Arc<Db>) {
    let names: [&[u8]; 3] = [b"{t}a", b"{t}b", b"c"];
    let now = NOW0 + 500;
    let mut live = [false; 3];
    for i in 0..3 {
        match vs::choice("state", 3) {
            0 => {}
            1 => {
                make(db, names[i], [STRING, LIST, ZSET][i]);
                live[i] = true;
            }
            _ => {
                make(db, names[i], [INTEGER, HASH, SET][i]);
                let d = vs::any_i64("deadline");
                vs::assume(d > 0);
                c!(db, "PEXPIREAT", names[i], d);
                live[i] = if d as u64 > now { std::hint::black_box(true) } else { std::hint::black_box(false) };
            }
        }
    }
    vs::set_now(now);
    let p: [usize; 3] = [vs::choice("k", 3), vs::choice("k", 3), vs::choice("k", 3)];
    let r = c!(db, "EXISTS", names[p[0]], names[p[1]], names[p[2]]);
    let n: i64 = p.iter().map(|i| i64::from(live[*i])).sum();
    vs::check(r.is_int(n), "EXISTS replies the sum over the keys given");
    let mut n = 0;
    let was = live;
    for i in p {
        n += i64::from(live[i]);
        live[i] = false;
    }
    let r = c!(db, "DEL", names[p[0]], names[p[1]], names[p[2]]);
    vs::check(r.is_int(n), "DEL replies the number of keys removed");
    for i in 0..3 {
        let s = state(db, names[i], now).is_some();
        vs::check(s == live[i] && (was[i] || !s), "DEL removes exactly the keys given");
    }
    vs::reach("end");
}
/// What happens to one of two keys is what happens to it alone.
fn two_keys_history(db: &Arc<Db>) {
    const H: &[(&str, &[&str])] = &[
        ("SET", &["v"]),
        ("INCR", &[]),
        ("RPUSH", &["x"]),
        ("LPOP", &[]),
        ("SADD", &["m"]),
        ("DEL", &[]),
        ("EXPIRE", &["10"]),
    ];
    let run = |k: &str, i: usize| {
        let mut a: Vec<A> = vec![H[i].0.into(), A::from(k.as_bytes())];
        a.extend(H[i].1.iter().map(|x| A::from(*x)));
        cmd(db, &a)
    };
    for _ in 0..vs::bound(3, 4) {
        let k = vs::choice("key", 2);
        let i = vs::choice("cmd", H.len());
        // "{t}a" and "{t}b" interleaved, "p" and "q" each alone
        let x = run(["{t}a", "{t}b"][k], i);
        let y = run(["p", "q"][k], i);
        vs::check(x == y, "a command on one of two keys replies as if it were alone");
    }
    for (x, y) in [(b"{t}a", b"p"), (b"{t}b", b"q")] {
        vs::check(raw(db, x) == raw(db, y), "one of two keys is as if it were alone");
    }
    vs::reach("end");
}
