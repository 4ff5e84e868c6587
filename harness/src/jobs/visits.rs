//! OBJECT FREQ and OBJECT IDLETIME.
use crate::{c, job, r::*, table::*, vs, Job, NOW0};
use db::Db;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C27", "visits", Db |db| visits(db), "a value of 6 kinds made at any minute until 2097, then 4 (thorough 6) visits each any 0..65535 minutes later: FREQ as the visits were"),
    job!("C27", "idle", Db |db| idle_times(db), "a value made at any second until 2097, then 2 (thorough 3) visits 0, 1, 2, 6 or 65535 minutes later at any second of the minute: FREQ and IDLETIME as the visits were, before and after each"),
    job!("C27", "restored", Db |db| restored(db), "a value restored with any FREQ and any IDLETIME at any second (of 3 minutes; idle for 0 to 3932100 seconds, or since before the epoch), then two visits any 0..65535 minutes later"),
    job!("C27", "any_clock", Db |db| any_clock(db), "a value with any FREQ, 3 visits with the clock anywhere, forwards or backwards: no crash, never more than one added by a visit, idle at least 0"),
    job!("C27", "each_command_counts", Db |db| each_command_counts(db), "67 commands on 6 kinds of value: a command that uses the value is one visit, at its time"),
    job!("C27", "new_values", Db |db| new_values(db), "25 ways to make a value, on a free key, over an expired value or over another one: as a value made now"),
    job!("C27", "looking_is_no_visit", Db |db| looking(db), "OBJECT, TTL and PTTL at any time, OBJECT in any letter case, on a value or not: no visit, absent keys are refused"),
];

/// Milliseconds since the epoch.
#[derive(Clone, Copy)]
struct At {
    min: u64,
    ms: u64,
}
impl At {
    fn any(name: &str) -> Self {
        At { min: vs::int(name, 26), ms: Self::ms() }
    }
    /// Any second of a minute (two overlapping ranges make all of it), its first or last millisecond.
    fn ms() -> u64 {
        let s = vs::int("second", 5);
        match vs::choice("part", 4) {
            0 => s * 1000,
            1 => s * 1000 + 999,
            2 => s * 1000 + 28_000,
            _ => s * 1000 + 28_999,
        }
    }
    fn t(self) -> u64 {
        self.min * 60_000 + self.ms
    }
    fn go(self) {
        vs::set_now(self.t());
    }
    /// Any time not before this one, up to 65535 minutes later.
    fn later(self) -> (Self, u64) {
        let d = match vs::choice("after", 3) {
            0 => 0,
            1 => 1 + vs::int("minutes", 15),
            _ => (1 << 15) + vs::int("minutes", 15),
        };
        (self.after(d), d)
    }
    fn after(self, d: u64) -> Self {
        let n = At { min: self.min + d, ms: Self::ms() };
        if d == 0 {
            vs::assume(n.ms >= self.ms);
        }
        n
    }
}
/// What FREQ becomes with a visit some minutes after the last.
fn visited(n: u64, minutes: u64) -> u64 {
    let n = if minutes > n { 0 } else { n - minutes };
    if n < 65535 {
        n + 1
    } else {
        n
    }
}
fn freq(db: &Arc<Db>, k: &[u8]) -> u64 {
    match c!(db, "OBJECT", "FREQ", k) {
        Rep::Int(n) => n as u64,
        _ => {
            vs::check(false, "OBJECT FREQ replies a number");
            0
        }
    }
}
fn idle(db: &Arc<Db>, k: &[u8]) -> u64 {
    match c!(db, "OBJECT", "IDLETIME", k) {
        Rep::Int(n) => n as u64,
        _ => {
            vs::check(false, "OBJECT IDLETIME replies a number");
            0
        }
    }
}
/// Times of visits are kept to 10 seconds.
fn idle_is(got: u64, visit: At, now: At, when: &str) {
    let over = got.wrapping_sub(now.t() / 1000 - visit.t() / 1000);
    vs::check(over < 10, &format!("{when}: IDLETIME tells the seconds since the last visit, to 10 seconds"));
}
fn use_it(db: &Arc<Db>, k: &[u8], kind: usize) {
    let r = match kind {
        STRING => c!(db, "GET", k),
        INTEGER => c!(db, "INCR", k),
        LIST => c!(db, "RPUSH", k, "x"),
        HASH => c!(db, "HSET", k, "f", "w"),
        SET => c!(db, "SMEMBERS", k),
        _ => c!(db, "ZRANK", k, "m"),
    };
    vs::check(!r.is_err(), "using a value succeeds");
}
fn visits(db: &Arc<Db>) {
    let kind = vs::choice("kind", KINDS);
    let mut at = At { min: vs::int("minute", 26), ms: 0 };
    at.go();
    make(db, b"k", kind);
    let mut n = freq(db, b"k");
    vs::check(n == 5, "a new value counts as visited 5 times");
    for _ in 0..vs::bound(4, 6) {
        let d = vs::int("minutes", 16);
        at = At { min: at.min + d, ms: 0 };
        at.go();
        vs::check(freq(db, b"k") == n, "FREQ tells the count of the last visit");
        use_it(db, b"k", kind);
        let got = freq(db, b"k");
        vs::check(got == visited(n, d), "FREQ loses one a minute and gains one a visit");
        n = got;
    }
    vs::reach("end");
}
fn idle_times(db: &Arc<Db>) {
    let kind = vs::choice("kind", KINDS);
    let mut at = At::any("minute");
    at.go();
    make(db, b"k", kind);
    let mut n = 5;
    for _ in 0..vs::bound(2, 3) {
        let d = [0, 1, 2, 6, 65535][vs::choice("minutes", 5)];
        let next = at.after(d);
        next.go();
        vs::check(freq(db, b"k") == n, "FREQ tells the count of the last visit");
        idle_is(idle(db, b"k"), at, next, "before a visit");
        use_it(db, b"k", kind);
        n = visited(n, d);
        at = next;
        vs::check(freq(db, b"k") == n, "FREQ loses one a minute and gains one a visit");
        idle_is(idle(db, b"k"), at, at, "at a visit");
    }
    vs::reach("end");
}
fn payload(db: &Arc<Db>) -> Vec<u8> {
    make(db, b"src", STRING);
    match c!(db, "DUMP", b"src") {
        Rep::Str(p) => p,
        _ => {
            vs::check(false, "DUMP replies a payload");
            vec![]
        }
    }
}
fn restored(db: &Arc<Db>) {
    let p = payload(db);
    let (f, held) = if vs::flag("many") {
        let f = 65_535 + vs::int("freq", 62);
        (f, 65_535)
    } else {
        let f = vs::int("freq", 16);
        (f, f)
    };
    let mut at = At::any("minute");
    let early = vs::flag("before the epoch");
    if !early {
        at.min = [1 << 16, NOW0 / 60_000, (1 << 26) + 123][vs::choice("year", 3)];
    }
    at.go();
    let i = if early { at.t() / 1000 + 1 + vs::int("beyond", 62) } else { [0, 1, 9, 10, 11, 59, 60, 65_535 * 60][vs::choice("idle", 8)] };
    let r = c!(db, "RESTORE", b"k", 0, &p, "FREQ", f as i64, "IDLETIME", i as i64);
    vs::check(r.is_ok(), "RESTORE succeeds");
    let mut n = freq(db, b"k");
    vs::check(n == held, "FREQ as restored, at most 65535");
    let got = idle(db, b"k");
    if early {
        vs::check(got == at.t() / 1000, "restored: IDLETIME is at most the age of the clock");
    } else {
        vs::check(got.wrapping_sub(i) < 10, "restored: IDLETIME tells the seconds since the last visit, to 10 seconds");
    }
    for _ in 0..2 {
        let d = vs::int("minutes", 16);
        at.min += d;
        at.go();
        use_it(db, b"k", STRING);
        let got = freq(db, b"k");
        vs::check(got == visited(n, d), "FREQ loses one a minute and gains one a visit");
        n = got;
    }
    vs::reach("end");
}
fn any_clock(db: &Arc<Db>) {
    let p = payload(db);
    let at = At::any("minute");
    at.go();
    let f = vs::any_i64("freq");
    vs::assume(f >= 0);
    c!(db, "RESTORE", b"k", 0, &p, "FREQ", f);
    let mut n = (f as u64).min(65535);
    for _ in 0..3 {
        At::any("minute").go();
        let _ = idle(db, b"k");
        use_it(db, b"k", STRING);
        let m = freq(db, b"k");
        vs::check(vs::and(m >= 1, m <= n + 1), "a visit adds at most one");
        vs::check(m <= 65535, "FREQ is at most 65535");
        vs::check(idle(db, b"k") < 10, "a visit is now");
        n = m;
    }
    At::any("minute").go();
    let i = idle(db, b"k");
    vs::check(i < 1 << 32, "IDLETIME is never negative");
    vs::reach("end");
}
fn each_command_counts(db: &Arc<Db>) {
    let o = any_op();
    let kind = any_kind();
    if !o.needs.accepts(kind) {
        return;
    }
    let k = b"k";
    vs::set_now(NOW0);
    make(db, k, kind);
    vs::set_now(NOW0 + 25_000);
    let r = apply(db, o, k);
    vs::check(!r.is_err(), "the command succeeds");
    let held = raw(db, k).is_some() && !matches!(c!(db, "OBJECT", "FREQ", k), Rep::Err(_));
    if !held {
        vs::reach("gone");
        return;
    }
    let n = freq(db, k);
    let i = idle(db, k);
    if o.needs != Needs::Any {
        vs::check(n == 6, &format!("{} is one visit", o.name));
        vs::check(i < 10, &format!("{} is a visit now", o.name));
    } else {
        vs::check(n == 5 || n == 6, &format!("{} is at most one visit", o.name));
        vs::check(if n == 6 { i < 10 } else { true }, &format!("{} is a visit now", o.name));
        vs::check(i < 10 || (25..35).contains(&i), &format!("{} is a visit now, or none", o.name));
    }
    vs::reach("end");
}
fn new_values(db: &Arc<Db>) {
    const WAYS: &[(&str, &[&str])] = &[
        ("SET", &["v"]),
        ("SET", &["5"]),
        ("SETEX", &["100", "v"]),
        ("INCR", &[]),
        ("DECRBY", &["3"]),
        ("LPUSH", &["a"]),
        ("RPUSH", &["a", "b"]),
        ("HSET", &["f", "v"]),
        ("HSETNX", &["f", "v"]),
        ("HINCRBY", &["f", "1"]),
        ("SADD", &["m"]),
        ("ZADD", &["1", "m"]),
    ];
    let (name, args) = WAYS[vs::choice("way", WAYS.len())];
    let k = b"k";
    vs::set_now(NOW0);
    let before = vs::choice("before", 3);
    let kind = any_kind();
    match before {
        0 => {}
        1 => {
            // will have expired, visited some times before
            make(db, k, kind);
            use_it(db, k, kind);
            c!(db, "PEXPIRE", k, 60_000);
        }
        _ => {
            if !name.starts_with("SET") {
                return;
            }
            make(db, k, kind);
            use_it(db, k, kind);
        }
    }
    vs::set_now(NOW0 + 125_000);
    let mut a: Vec<A> = vec![name.into(), k.into()];
    a.extend(args.iter().map(|x| A::from(*x)));
    vs::check(!cmd(db, &a).is_err(), "making a value succeeds");
    vs::check(idle(db, k) < 10, "a new value was visited now");
    vs::check(freq(db, k) == 5, "a new value counts as visited 5 times");
    vs::reach("end");
}
fn looking(db: &Arc<Db>) {
    let kind = any_kind();
    let k = b"k";
    let at = At::any("minute");
    at.go();
    make(db, k, kind);
    let dated = vs::flag("dated");
    if dated {
        c!(db, "PEXPIRE", k, 100_000);
    }
    let (f, i) = (freq(db, k), idle(db, k));
    let (later, _) = at.later();
    later.go();
    let gone = dated && later.t() >= at.t() + 100_000;
    let all = [("object", "freq"), ("OBJECT", "IDLETIME"), ("Object", "Freq"), ("oBJECT", "iDLEtIME")];
    let (a, b) = all[vs::choice("case", 4)];
    match vs::choice("which", 3) {
        0 => {
            c!(db, "TTL", k);
        }
        1 => {
            c!(db, "PTTL", k);
        }
        _ => {}
    }
    let r = c!(db, a, b, k);
    if gone {
        vs::check(r.is_err(), "an expired key has no OBJECT");
        vs::reach("gone");
        return;
    }
    let same = if b.eq_ignore_ascii_case("freq") { f } else { i + (later.t() / 1000 - at.t() / 1000) };
    vs::check(matches!(r, Rep::Int(n) if n as u64 == same), "looking at a value is no visit");
    vs::check(c!(db, a, b, "absent").is_err(), "an absent key has no OBJECT");
    vs::reach("end");
}
