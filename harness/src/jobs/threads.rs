//! Commands on several threads at once.
use super::repl::{alike, deliver, new_side, whole, State, KEYS, S0, S0B, S1};
use crate::{c, job, r::*, table::*, vs, Job, NOW0};
use db::{forward::Message, Db};
use std::{cmp::Ordering, sync::Arc};

pub const JOBS: &[Job] = &[
    job!("C28", "two_commands", Db |_| two_commands(), "any two of the commands for its kind, or for every kind, on a value of 6 kinds, dated or not, on two threads: one preemption anywhere"),
    job!("C28", "flush", Db |_| flush(), "FLUSHALL next to one of 18 commands on a value or none, or two: one preemption anywhere"),
    job!("C28", "purge", Db |_| purge(), "a round of the expiry task on a key of 6 kinds whose deadline has passed or not, next to one of the commands with deadlines or of 18: two preemptions anywhere"),
    job!("C28", "deadlines", Db |_| deadlines(), "two commands on one thread, one on another, each of 7 that set, keep or take away the deadline or the key, on a value with one of two deadlines or none: one preemption anywhere"),
    job!("C28", "two_commands_deep", Db |_| two_commands_deep(), "any two of 18 commands on a value or none, on two threads: two (thorough: three) preemptions anywhere"),
    job!("C28", "three_commands", Db |_| three_commands(), "two commands on one thread, one on another, of 12, on a value or none: one (thorough: two) preemptions anywhere"),
    job!("C28", "counters", Db |_| counters(), "INCRBY, DECRBY and HINCRBY of any 64-bit numbers on two threads: one (thorough: two) preemptions anywhere"),
    job!("C28", "several_keys", Db |_| several_keys(), "DEL and EXISTS of several keys, in either order of the keys, next to a write to one of them: two preemptions anywhere"),
];

/// What the two threads' commands and the value afterwards have to be, in one order or the other.
fn one_after_another(now: u64, got: (&[Rep], &[Rep]), end: &State, set: &dyn Fn(&Arc<Db>), a: &[&dyn Fn(&Arc<Db>) -> Rep], b: &[&dyn Fn(&Arc<Db>) -> Rep], what: &str) {
    let mut some = false;
    // every merge of the two sequences
    for m in 0u32..1 << (a.len() + b.len()) {
        if m.count_ones() as usize != b.len() {
            continue;
        }
        let side = new_side();
        vs::set_now(NOW0);
        set(&side.db);
        vs::set_now(now);
        let (mut i, mut j) = (0, 0);
        let mut same = true;
        for k in 0..a.len() + b.len() {
            if m >> k & 1 == 1 {
                same &= b[j](&side.db) == got.1[j];
                j += 1;
            } else {
                same &= a[i](&side.db) == got.0[i];
                i += 1;
            }
        }
        let w = whole(&side.db);
        some |= same && w.0 == end.0 && w.1 == end.1;
    }
    vs::check(some, &format!("{what}: replies and values are those of one order of the commands"));
}
/// The messages number the writes in the order in which they took effect.
fn numbered(before: &[u64], messages: Vec<Message>, set: &dyn Fn(&Arc<Db>), now: u64, end: &State, purge: bool, what: &str) {
    let f = new_side();
    vs::set_now(NOW0);
    set(&f.db);
    vs::set_now(now);
    let mut m: Vec<Message> = messages.into_iter().filter(|m| m.id > before[m.slot]).collect();
    m.sort_by_key(|m| (m.slot, m.id));
    for m in m {
        vs::check(deliver(&f.db, m) == Ordering::Equal, &format!("{what}: the writes are numbered without gaps or repetitions"));
    }
    if purge {
        db::expire::purge(&f.db);
    }
    alike(end, &whole(&f.db), what);
}
type Cmd = Box<dyn Fn(&Arc<Db>) -> Rep + Send + Sync>;
fn on(o: &'static Op, k: &'static [u8]) -> Cmd {
    Box::new(move |d| apply(d, o, k))
}
fn race_of(n: u64, now: u64, set: &dyn Fn(&Arc<Db>), a: Vec<Cmd>, b: Vec<Cmd>, purge: bool, what: &str) {
    let (a, b) = (Arc::new(a), Arc::new(b));
    while vs::again() {
        let mut side = new_side();
        vs::set_now(NOW0);
        set(&side.db);
        vs::set_now(now);
        let before: Vec<u64> = (0..3).map(|s| super::repl::position(&side.db, s)).collect();
        let (d1, d2, a1, b1) = (side.db.clone(), side.db.clone(), a.clone(), b.clone());
        let (x, y) = vs::race(n, move || a1.iter().map(|o| o(&d1)).collect::<Vec<_>>(), move || b1.iter().map(|o| o(&d2)).collect::<Vec<_>>());
        let end = whole(&side.db);
        for (i, k) in KEYS.iter().enumerate() {
            if let Some((_, d)) = &end.0[i] {
                vs::check(*d == 0 || side.holds(k, *d) || purge && *d <= now, &format!("{what}: the expiry task knows the deadline"));
            }
        }
        numbered(&before, side.messages(), set, now, &end, purge, what);
        let (ra, rb): (Vec<&dyn Fn(&Arc<Db>) -> Rep>, Vec<&dyn Fn(&Arc<Db>) -> Rep>) = (a.iter().map(|f| &**f as _).collect(), b.iter().map(|f| &**f as _).collect());
        one_after_another(now, (&x, &y), &end, set, &ra, &rb, what);
    }
    vs::reach("end");
}
fn one_of(ops: Vec<&'static Op>, name: &str) -> &'static Op {
    let i = vs::choice(name, ops.len());
    ops[i]
}
fn named(names: &[(&str, &[&str])]) -> Vec<&'static Op> {
    names.iter().map(|(n, a)| OPS.iter().find(|o| o.name == *n && o.args == *a).expect("an operation of the table")).collect()
}
fn two_commands() {
    let kind = any_kind();
    let dated = vs::flag("dated");
    let set = move |db: &Arc<Db>| {
        make(db, S0, kind);
        if dated {
            c!(db, "PEXPIRE", S0, 60_000);
        }
    };
    let fit = || OPS.iter().filter(|o| o.needs != Needs::Any && o.needs.accepts(kind) || o.ttl || o.name == "DEL" || o.name == "EXISTS").collect::<Vec<_>>();
    let (a, b) = (one_of(fit(), "first"), one_of(fit(), "second"));
    race_of(1, NOW0 + 1000, &set, vec![on(a, S0)], vec![on(b, S0)], false, &format!("{} and {}", a.name, b.name));
}
/// Deadlines that come and go, and come back.
fn deadlines() {
    let first = vs::choice("first deadline", 3);
    let day = [0, NOW0 + 50_000, NOW0 + 70_000];
    let set = move |db: &Arc<Db>| {
        c!(db, "SET", S0, "text");
        if first > 0 {
            c!(db, "PEXPIREAT", S0, day[first] as i64);
        }
    };
    let op = |i: usize| -> &'static Op {
        let (name, args): (&'static str, &'static [&'static str]) = match i {
            0 => ("PEXPIREAT", &["1700000050000"]),
            1 => ("PEXPIREAT", &["1700000070000"]),
            2 => ("PERSIST", &[]),
            3 => ("SET", &["new"]),
            4 => ("SET", &["new", "PXAT", "1700000050000"]),
            5 => ("SET", &["new", "KEEPTTL"]),
            _ => ("DEL", &[]),
        };
        Box::leak(Box::new(Op { name, args, needs: Needs::Any, write: true, ttl: true }))
    };
    let (a, a2, b) = (op(vs::choice("first", 7)), op(vs::choice("next", 7)), op(vs::choice("other", 7)));
    race_of(1, NOW0 + 1000, &set, vec![on(a, S0), on(a2, S0)], vec![on(b, S0)], false, &format!("{}, {} and {}", a.name, a2.name, b.name));
}
const MIX: &[(&str, &[&str])] = &[
    ("SET", &["new"]),
    ("SET", &["new", "NX"]),
    ("DEL", &[]),
    ("GET", &[]),
    ("INCR", &[]),
    ("PEXPIRE", &["100000"]),
    ("LPUSH", &["x", "y"]),
    ("RPOP", &["2"]),
    ("HSET", &["f", "w", "g", "x"]),
    ("SADD", &["m", "q"]),
    ("ZADD", &["5", "m", "0", "q"]),
    ("SET", &["new", "KEEPTTL"]),
    ("EXISTS", &[]),
    ("HDEL", &["f", "n"]),
    ("SREM", &["m", "n", "o"]),
    ("ZREM", &["m", "n", "o"]),
    ("LRANGE", &["0", "-1"]),
    ("PTTL", &[]),
];
fn two_commands_deep() {
    let kind = vs::choice("kind", KINDS + 1);
    let set = move |db: &Arc<Db>| {
        if kind < KINDS {
            make(db, S0, kind);
            c!(db, "PEXPIRE", S0, 60_000);
        }
    };
    let fit = || named(MIX).into_iter().filter(|o| kind == KINDS || o.needs.accepts(kind)).collect::<Vec<_>>();
    let (a, b) = (one_of(fit(), "first"), one_of(fit(), "second"));
    race_of(vs::bound(2, 3) as u64, NOW0 + 1000, &set, vec![on(a, S0)], vec![on(b, S0)], false, &format!("{} and {}", a.name, b.name));
}
fn three_commands() {
    let kind = [INTEGER, LIST, KINDS][vs::choice("kind", 3)];
    let set = move |db: &Arc<Db>| {
        if kind < KINDS {
            make(db, S0, kind);
        }
    };
    let fit = || named(&MIX[..12]).into_iter().filter(|o| if kind == KINDS { o.needs == Needs::Any || o.needs == Needs::Counter } else { o.needs.accepts(kind) }).collect::<Vec<_>>();
    let (a, a2, b) = (one_of(fit(), "first"), one_of(fit(), "next"), one_of(fit(), "other"));
    race_of(vs::bound(1, 2) as u64, NOW0 + 1000, &set, vec![on(a, S0), on(a2, S0)], vec![on(b, S0)], false, &format!("{}, {} and {}", a.name, a2.name, b.name));
}
fn counters() {
    let (x, y) = (vs::any_i64("x"), vs::any_i64("y"));
    let (o1, o2) = (vs::choice("first", 3), vs::choice("second", 3));
    let run = |db: &Arc<Db>, o: usize, n: i64| match o {
        0 => c!(db, "INCRBY", S0, n),
        1 => c!(db, "DECRBY", S0, n),
        _ => c!(db, "HINCRBY", S0B, "f", n),
    };
    while vs::again() {
        let side = new_side();
        c!(&side.db, "SET", S0, 3);
        c!(&side.db, "HSET", S0B, "f", 4);
        let (d1, d2) = (side.db.clone(), side.db.clone());
        let (p, q) = vs::race(vs::bound(1, 2) as u64, move || run(&d1, o1, x), move || run(&d2, o2, y));
        let end = (c!(&side.db, "DUMP", S0), c!(&side.db, "DUMP", S0B));
        let mut some = false;
        for first in 0..2 {
            let s = new_side();
            c!(&s.db, "SET", S0, 3);
            c!(&s.db, "HSET", S0B, "f", 4);
            let (a, b) = if first == 0 {
                let a = run(&s.db, o1, x);
                (a, run(&s.db, o2, y))
            } else {
                let b = run(&s.db, o2, y);
                (run(&s.db, o1, x), b)
            };
            some |= a == p && b == q && (c!(&s.db, "DUMP", S0), c!(&s.db, "DUMP", S0B)) == end;
        }
        vs::check(some, "counters: replies and values are those of one order of the commands");
    }
    vs::reach("end");
}
fn several_keys() {
    let keys = [S0, S1, S0B];
    let flip = vs::flag("flip");
    let which = vs::choice("first", 2);
    let other = vs::choice("second", 5);
    while vs::again() {
        let mut side = new_side();
        for k in keys {
            c!(&side.db, "RPUSH", k, "a");
        }
        let before: Vec<u64> = (0..3).map(|s| super::repl::position(&side.db, s)).collect();
        let (d1, d2) = (side.db.clone(), side.db.clone());
        let (x, y) = vs::race(2, move || if which == 0 { c!(&d1, "DEL", S0, S1, S0B) } else { c!(&d1, "EXISTS", S0, S1, S0B) }, move || match other {
            0 if flip => c!(&d2, "DEL", S0B, S1, S0),
            0 => c!(&d2, "DEL", S0, S1),
            1 if flip => c!(&d2, "EXISTS", S0B, S1, S0),
            1 => c!(&d2, "EXISTS", S0, S1),
            2 => c!(&d2, "RPUSH", S1, "b"),
            3 => c!(&d2, "DEL", S1),
            _ => c!(&d2, "SET", S0, "new", "NX"),
        });
        let end = whole(&side.db);
        let set = |db: &Arc<Db>| {
            for k in keys {
                c!(db, "RPUSH", k, "a");
            }
        };
        numbered(&before, side.messages(), &set, NOW0, &end, false, "several keys");
        let there = (0..3).filter(|i| end.0[[0, 2, 1][*i]].is_some()).count() as i64;
        let n = x.int().unwrap_or(-1);
        if which == 0 {
            match other {
                0 => {
                    let m = y.int().unwrap_or(-1);
                    vs::check(n + m == 3 && there == 0, "DEL and DEL: each key is removed once");
                }
                1 => vs::check(n == 3 && there == 0, "DEL next to EXISTS removes every key"),
                2 => vs::check(n == 3 && (there == 0 && y.is_int(2) || there == 1 && y.is_int(1)), "a push goes before or after the removal"),
                3 => vs::check(y.is_int(1) && n == 2 || y.is_int(0) && n == 3, "DEL and DEL: the key is removed once"),
                _ => vs::check(n == 3 && there == if y.is_ok() { 1 } else { 0 }, "SET NX succeeds exactly if it goes after the removal"),
            }
        } else {
            match other {
                0 => vs::check((0..=3).contains(&n), "EXISTS next to DEL"),
                1 => vs::check(n == 3, "EXISTS next to EXISTS"),
                2 => vs::check(n == 3 && y.is_int(2), "EXISTS next to RPUSH"),
                3 => vs::check(n == 3 || n == 2, "EXISTS next to DEL"),
                _ => vs::check(n == 3 && !y.is_ok(), "EXISTS next to SET NX"),
            }
        }
    }
    vs::reach("end");
}

fn flush() {
    let kind = vs::choice("kind", KINDS + 1);
    let set = move |db: &Arc<Db>| {
        if kind < KINDS {
            make(db, S0, kind);
        }
    };
    let fit = || named(MIX).into_iter().filter(|o| kind == KINDS || o.needs.accepts(kind)).collect::<Vec<_>>();
    let mut a = vec![on(one_of(fit(), "first"), S0)];
    let more = vs::choice("more", 3);
    if more == 2 {
        a.push(on(one_of(named(&MIX[..6]), "next"), S0));
    }
    let sync = more == 1;
    race_of(1, NOW0, &set, a, vec![Box::new(move |d| if sync { c!(d, "FLUSHALL", "SYNC") } else { c!(d, "FLUSHALL") })], false, "FLUSHALL and a command");
}
fn purge() {
    let kind = vs::choice("kind", KINDS);
    let passed = vs::choice("passed", 3) as u64;
    let set = move |db: &Arc<Db>| {
        make(db, S0, kind);
        c!(db, "PEXPIREAT", S0, NOW0 as i64 + 1000);
        db.expiration_data.lock().insert(db::expire::Entry { expires_at: NOW0 + 1000, slot: 0, key: S0.into() });
    };
    let fit = || OPS.iter().filter(|o| o.ttl).chain(named(MIX).into_iter().filter(|o| o.needs.accepts(kind))).collect::<Vec<_>>();
    let a = vec![on(one_of(fit(), "first"), S0)];
    race_of(2, NOW0 + 999 + passed, &set, a, vec![Box::new(|d| { db::expire::purge(d); Rep::Nil })], true, "a round of the expiry task and a command");
}
