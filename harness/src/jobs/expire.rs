//! Deadlines: EXPIRE family, TTL, visibility of expired keys, active expiry.
use crate::{c, job, r::*, table::*, vs, Job, NOW0};
use db::Db;
use std::{future::Future, pin::Pin, sync::Arc};

pub const JOBS: &[Job] = &[
    job!("C10", "expired_is_absent", Db expired_is_absent, "6 kinds of value x 67 commands, any 64-bit deadline that has passed: same reply and same state as an absent key"),
    job!("C10", "not_yet_expired", Db not_yet_expired, "6 kinds of value x 67 commands, any 64-bit deadline still ahead: same reply and same state as a key without deadline, deadline kept"),
    job!("C10", "boundary", Db boundary, "6 kinds of value, any 64-bit deadline, EXISTS / TTL / GET exactly around it"),
    job!("C10", "twice", Db twice, "6 kinds of value recreated with another kind after expiry, any passed deadline"),
    job!("C11", "expire_any", Db expire_any, "EXPIRE/PEXPIRE/EXPIREAT/PEXPIREAT, any 64-bit amount, any prior deadline or none or absent key, NX/XX x GT/LT in both orders"),
    job!("C11", "ttl_any", Db ttl_any, "any 64-bit deadline: TTL and PTTL"),
    job!("C11", "ttl_round", Db ttl_round, "any deadline up to 2^20 ms ahead"),
    job!("C11", "expire_chain", Db expire_chain, "two EXPIRE-family commands with any amounts in a row (quick: EXPIRE and PEXPIREAT, with and without GT)"),
    job!("C11", "expire_kinds", Db expire_kinds, "every kind of value, any 64-bit deadline"),
    job!("C12", "purge_due", Async |db| Box::pin(purge_due(db)), "2 keys (same or other slot), deadlines 200, 300, 400 ms ahead in every combination and one later, one optional change (DEL, new deadline, overwrite, persist): purged when due, kept when not"),
];

fn expired_is_absent(db: &Arc<Db>) {
    let kind = any_kind();
    make(db, b"{t}a", kind);
    let d = vs::any_i64("deadline");
    let now = NOW0 + 1_000_000;
    vs::assume(d > 0 && d as u64 <= now);
    vs::check(c!(db, "PEXPIREAT", "{t}a", d).is_int(1), "PEXPIREAT of an existing key replies 1");
    vs::set_now(now);
    let o = any_op();
    let a = apply(db, o, b"{t}a");
    let b = apply(db, o, b"{t}b");
    let what = format!("{} on an expired {}", o.name, KIND[kind]);
    vs::check(a == b, &format!("{what}: reply as for an absent key"));
    let (a, b) = (state(db, b"{t}a", now), state(db, b"{t}b", now));
    vs::check(a == b, &format!("{what}: state as for an absent key"));
    vs::reach("end");
}
fn not_yet_expired(db: &Arc<Db>) {
    let kind = any_kind();
    make(db, b"{t}a", kind);
    make(db, b"{t}b", kind);
    let d = vs::any_i64("deadline");
    let now = NOW0 + 1_000_000;
    vs::assume(d > 0 && d as u64 > now);
    vs::check(c!(db, "PEXPIREAT", "{t}a", d).is_int(1), "PEXPIREAT of an existing key replies 1");
    vs::set_now(now);
    let o = any_op();
    if o.ttl || o.name == "DUMP" {
        return;
    }
    let a = apply(db, o, b"{t}a");
    let b = apply(db, o, b"{t}b");
    let what = format!("{} on a {} before its deadline", o.name, KIND[kind]);
    vs::check(a == b, &format!("{what}: reply as without a deadline"));
    match (state(db, b"{t}a", now), state(db, b"{t}b", now)) {
        (Some(a), Some(b)) => {
            vs::check(a.0 == b.0, &format!("{what}: value as without a deadline"));
            vs::check(a.1 == d as u64, &format!("{what}: the deadline is kept"));
            vs::reach("kept");
        }
        (None, None) => vs::reach("removed"),
        _ => vs::check(false, &format!("{what}: present as without a deadline")),
    }
}
fn boundary(db: &Arc<Db>) {
    let kind = any_kind();
    make(db, b"k", kind);
    let d = vs::any_i64("deadline");
    vs::assume(d > 0);
    c!(db, "PEXPIREAT", "k", d);
    for now in [NOW0, NOW0 + 1, NOW0 + 5000] {
        vs::set_now(now);
        let live = d as u64 > now;
        let e = c!(db, "EXISTS", "k");
        vs::check(e.is_int(live.into()), "a key exists until its deadline and no longer");
        let p = c!(db, "PTTL", "k");
        vs::check(p.is_int(if live { (d as u64 - now) as i64 } else { -2 }), "PTTL counts down to the deadline");
    }
    vs::reach("end");
}
fn twice(db: &Arc<Db>) {
    let kind = any_kind();
    make(db, b"k", kind);
    let d = vs::any_i64("deadline");
    let now = NOW0 + 1_000_000;
    vs::assume(d > 0 && d as u64 <= now);
    c!(db, "PEXPIREAT", "k", d);
    vs::set_now(now);
    let other = vs::choice("other", KINDS);
    make(db, b"k", other);
    make(db, b"fresh", other);
    let (a, b) = (state(db, b"k", now), state(db, b"fresh", now));
    vs::check(a.is_some() && a == b, "a key made anew after expiry has nothing of the old value or deadline");
    vs::reach("end");
}

/// What one EXPIRE-family command does to a deadline (0: none).
struct Exp {
    name: &'static str,
    amount: i64,
    nx: usize,
    gt: usize,
    swap: bool,
}
impl Exp {
    fn any(opts: bool) -> Self {
        Self::of(4, opts)
    }
    fn of(cmds: usize, opts: bool) -> Self {
        let name = ["EXPIRE", "PEXPIREAT", "pexpire", "EXPIREAT"][vs::choice("cmd", cmds)];
        let nx = if opts { vs::choice("nx", 3) } else { 0 };
        let gt = if opts { vs::choice("gt", 3) } else { 0 };
        let swap = opts && nx > 0 && gt > 0 && vs::flag("swap");
        Self { name, amount: vs::any_i64("amount"), nx, gt, swap }
    }
    fn run(&self, db: &Arc<Db>, k: &[u8]) -> Rep {
        let mut a: Vec<A> = vec![self.name.into(), k.into(), self.amount.into()];
        let nx = ["", "NX", "xx"][self.nx];
        let gt = ["", "gt", "LT"][self.gt];
        let mut o: Vec<&str> = [nx, gt].into_iter().filter(|x| !x.is_empty()).collect();
        if self.swap {
            o.reverse();
        }
        a.extend(o.into_iter().map(A::from));
        cmd(db, &a)
    }
    /// the deadline meant, as a wide integer
    fn deadline(&self, now: u64) -> i128 {
        let (base, unit) = match self.name {
            "EXPIRE" => (now, 1000),
            "pexpire" => (now, 1),
            "EXPIREAT" => (0, 1000),
            _ => (0, 1),
        };
        i128::from(self.amount) * unit + i128::from(base)
    }
    /// are the conditions met by this deadline on a key that has `cur`?
    fn met(&self, cur: u64, new: i128) -> bool {
        let nx = match self.nx {
            1 => cur == 0,
            2 => cur != 0,
            _ => true,
        };
        let gt = match self.gt {
            1 => cur != 0 && new > i128::from(cur),
            2 => cur == 0 || new < i128::from(cur),
            _ => true,
        };
        nx && gt
    }
}
/// Run one command against the model `(live, deadline)`; the new model.
fn step(db: &Arc<Db>, k: &[u8], live: bool, cur: u64, now: u64, e: &Exp) -> (bool, u64) {
    let r = e.run(db, k);
    let d = e.deadline(now);
    if d > i128::from(i64::MAX) {
        vs::check(r.is_err(), "a deadline that does not fit is refused");
        vs::reach("refused");
        return (live, cur);
    }
    if r.is_err() {
        // a time far in the past may be refused, and NX together with GT or LT
        vs::check(d <= 0 || (e.nx == 1 && e.gt > 0), "a valid EXPIRE is not refused");
        return (live, cur);
    }
    let ok = live && e.met(cur, d);
    if e.nx == 1 && e.gt > 0 {
        // contradictory options: nothing happens, or NX decides
        vs::check(r.is_int(0) || (r.is_int(1) && ok), "EXPIRE NX GT/LT reply");
        return if r.is_int(1) { (d > i128::from(now), d as u64) } else { (live, cur) };
    }
    vs::check(r.is_int(ok.into()), "EXPIRE replies 1 exactly when it sets the deadline");
    if !ok {
        vs::reach("unmet");
        return (live, cur);
    }
    vs::reach("set");
    (d > i128::from(now), d as u64)
}
fn observe(db: &Arc<Db>, k: &[u8], live: bool, cur: u64, now: u64) {
    let p = c!(db, "PTTL", k);
    let t = c!(db, "TTL", k);
    let e = c!(db, "EXISTS", k);
    vs::check(e.is_int(live.into()), "EXISTS after EXPIRE");
    if !live {
        vs::check(p.is_int(-2), "PTTL of an expired or absent key is -2");
        vs::check(t.is_int(-2), "TTL of an expired or absent key is -2");
    } else if cur == 0 {
        vs::check(p.is_int(-1), "PTTL without a deadline is -1");
        vs::check(t.is_int(-1), "TTL without a deadline is -1");
    } else {
        let left = cur - now;
        vs::check(p.is_int(left as i64), "PTTL is the time left");
        vs::check(matches!(t, Rep::Int(_)), "TTL is an integer");
    }
}
fn prior(db: &Arc<Db>, k: &[u8]) -> (bool, u64) {
    match vs::choice("prior", 3) {
        0 => (false, 0),
        1 => {
            c!(db, "SET", k, "v");
            (true, 0)
        }
        _ => {
            let d = vs::any_i64("deadline");
            vs::assume(d > 0);
            c!(db, "SET", k, "v", "PXAT", d);
            (d as u64 > NOW0, d as u64)
        }
    }
}
fn expire_any(db: &Arc<Db>) {
    let (live, cur) = prior(db, b"k");
    let e = Exp::any(true);
    let (live, cur) = step(db, b"k", live, cur, NOW0, &e);
    observe(db, b"k", live, cur, NOW0);
    if live {
        vs::check(c!(db, "GET", "k").is(b"v"), "EXPIRE leaves the value alone");
    }
}
fn expire_chain(db: &Arc<Db>) {
    let (live, cur) = prior(db, b"k");
    let (live, cur) = step(db, b"k", live, cur, NOW0, &Exp::of(vs::bound(2, 4), false));
    let e = Exp { gt: vs::choice("gt", vs::bound(2, 3)), ..Exp::of(vs::bound(2, 4), false) };
    let (live, cur) = step(db, b"k", live, cur, NOW0, &e);
    observe(db, b"k", live, cur, NOW0);
    vs::reach("end");
}
fn ttl_round(db: &Arc<Db>) {
    let left = vs::int("left", 20) + 1;
    c!(db, "SET", "k", "v", "PXAT", (NOW0 + left) as i64);
    let t = c!(db, "TTL", "k").int().unwrap_or(-1);
    // rounded either way
    vs::check(t >= 0 && t as u64 * 1000 < left + 1000 && t as u64 * 1000 + 1000 > left, "TTL is the time left in seconds");
    vs::reach("end");
}
fn ttl_any(db: &Arc<Db>) {
    let (live, cur) = prior(db, b"k");
    observe(db, b"k", live, cur, NOW0);
    let now = NOW0 + 777;
    vs::set_now(now);
    let live = live && (cur == 0 || cur > now);
    observe(db, b"k", live, cur, now);
    vs::reach("end");
}
fn expire_kinds(db: &Arc<Db>) {
    let kind = any_kind();
    make(db, b"k", kind);
    let before = state(db, b"k", NOW0);
    let e = Exp { name: "PEXPIREAT", amount: vs::any_i64("amount"), nx: 0, gt: 0, swap: false };
    let (live, cur) = step(db, b"k", true, 0, NOW0, &e);
    observe(db, b"k", live, cur, NOW0);
    let after = state(db, b"k", NOW0);
    vs::check(after.is_some() == live, "present until the deadline");
    if let (Some(a), Some(b)) = (after, before) {
        vs::check(a.0 == b.0, "EXPIRE leaves the value alone");
    }
}

async fn purge_due(db: Arc<Db>) {
    vs::tick();
    let kb: &[u8] = if vs::flag("same slot") { b"{a}b" } else { b"b" };
    let ka: &[u8] = b"a";
    let da = [200, 300, 400][vs::choice("da", 3)];
    let db_ = [200, 300, 400][vs::choice("db", 3)];
    c!(&db, "SET", ka, "x", "PXAT", (NOW0 + da) as i64);
    c!(&db, "RPUSH", kb, "y");
    c!(&db, "PEXPIREAT", kb, (NOW0 + db_) as i64);
    c!(&db, "SET", "late", "z", "PXAT", (NOW0 + 1_000_000) as i64);
    let mut keep_a = false;
    match vs::choice("change", 6) {
        0 => {}
        1 => {
            c!(&db, "SET", ka, "x2");
            keep_a = true;
        }
        2 => {
            c!(&db, "PEXPIREAT", ka, (NOW0 + 1_000_000) as i64);
            keep_a = true;
        }
        3 => {
            c!(&db, "DEL", ka);
            c!(&db, "SET", ka, "x2");
            keep_a = true;
        }
        4 => {
            // let the tasks see the first deadline before it changes
            tokio::task::yield_now().await;
            c!(&db, "PEXPIREAT", ka, (NOW0 + 1_000_000) as i64);
            keep_a = true;
        }
        _ => {
            tokio::task::yield_now().await;
            c!(&db, "PEXPIREAT", ka, (NOW0 + 1) as i64);
        }
    }
    tokio::time::sleep(std::time::Duration::from_millis(350)).await;
    tokio::time::sleep(std::time::Duration::from_millis(350)).await;
    vs::check(raw(&db, ka).is_some() == keep_a, "a key is purged once due, and only if it is still due");
    vs::check(raw(&db, kb).is_none(), "a due list is purged without being accessed");
    vs::check(raw(&db, b"late").is_some(), "a key that is not due is not purged");
    vs::reach("end");
}
