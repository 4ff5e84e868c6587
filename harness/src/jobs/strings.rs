//! SET, SETEX, PSETEX, GET, DEL, EXISTS on one string key.
use crate::{c, job, r::*, vs, Job, NOW0};
use db::Db;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C08", "set_get", Db set_get, "one key of a hash tag and 0..2 (thorough 0..4) arbitrary bytes, values of 0..3 (thorough 0..6) arbitrary bytes"),
    job!("C08", "set_options", Db set_options, "prior value absent / present without deadline / with any 64-bit deadline; every combination of NX, XX, EX, PX, EXAT, PXAT, KEEPTTL, GET in 3 orders; any 64-bit amount"),
    job!("C08", "setex", Db setex, "SETEX and PSETEX with any 64-bit amount over the same prior values"),
    job!("C08", "history", Db history, "3 (thorough 4) commands out of 8 kinds on two keys, any 64-bit stored deadline, clock advanced between commands"),
];

fn set_get(db: &Arc<Db>) {
    // the hash tag keeps every key in one slot (routing is C20)
    let mut k = b"{t}".to_vec();
    k.extend(vs::blob("k", 0, vs::bound(2, 4)));
    let v = vs::blob("v", 0, vs::bound(3, 6));
    let w = vs::blob("w", 0, vs::bound(2, 4));
    vs::check(c!(db, "GET", &k).is_nil(), "GET of an absent key is nil");
    vs::check(c!(db, "SET", &k, &v).is_ok(), "SET replies OK");
    vs::check(c!(db, "GET", &k).is(&v), "GET returns the bytes that were set");
    vs::check(c!(db, "SET", &k, &w).is_ok(), "SET replies OK");
    vs::check(c!(db, "get", &k).is(&w), "GET returns the last bytes that were set");
    vs::check(c!(db, "EXISTS", &k).is_int(1), "EXISTS counts a key that was set");
    vs::check(c!(db, "DEL", &k).is_int(1), "DEL counts a key that was set");
    vs::check(c!(db, "GET", &k).is_nil(), "GET after DEL is nil");
    vs::check(c!(db, "EXISTS", &k).is_int(0), "EXISTS after DEL is 0");
    vs::check(c!(db, "DEL", &k).is_int(0), "DEL of an absent key is 0");
    vs::reach("end");
}

/// What a client should see of a string key.
#[derive(Clone)]
struct M {
    /// value and deadline (0: none); kept after the deadline passed
    v: Option<(Vec<u8>, u64)>,
    now: u64,
}
impl M {
    fn live(&self) -> Option<&(Vec<u8>, u64)> {
        self.v.as_ref().filter(|v| v.1 == 0 || v.1 > self.now)
    }
}
fn observe(db: &Arc<Db>, k: &[u8], m: &M, when: &str) {
    let g = c!(db, "GET", k);
    let p = c!(db, "PTTL", k);
    let e = c!(db, "EXISTS", k);
    match m.live() {
        Some((v, d)) => {
            vs::check(g.is(v), &format!("{when}: GET returns the stored value"));
            vs::check(e.is_int(1), &format!("{when}: EXISTS"));
            if *d == 0 {
                vs::check(p.is_int(-1), &format!("{when}: PTTL of a key without deadline is -1"));
            } else {
                vs::check(p.is_int((*d - m.now) as i64), &format!("{when}: PTTL is the time left"));
            }
        }
        None => {
            vs::check(g.is_nil(), &format!("{when}: GET of an absent or expired key is nil"));
            vs::check(e.is_int(0), &format!("{when}: EXISTS of an absent or expired key"));
            vs::check(p.is_int(-2), &format!("{when}: PTTL of an absent or expired key is -2"));
        }
    }
}
/// Absent, without deadline, or with an arbitrary deadline (past or future).
fn prior(db: &Arc<Db>, k: &[u8]) -> M {
    let mut m = M { v: None, now: NOW0 };
    match vs::choice("prior", 3) {
        0 => {}
        1 => {
            c!(db, "SET", k, "old");
            m.v = Some((b"old".to_vec(), 0));
        }
        _ => {
            let d = vs::any_i64("deadline");
            let r = c!(db, "SET", k, "old", "PXAT", d);
            vs::assume(d > 0);
            vs::check(r.is_ok(), "SET PXAT with a positive deadline replies OK");
            m.v = Some((b"old".to_vec(), d as u64));
        }
    }
    m
}
/// The deadline that `amount` of a unit means, if it is valid.
fn deadline(base: u64, amount: i64, unit: i64) -> Option<u64> {
    let d = i128::from(amount) * i128::from(unit) + i128::from(base);
    (amount > 0 && d <= i128::from(i64::MAX)).then_some(d as u64)
}

fn set_options(db: &Arc<Db>) {
    let mut m = prior(db, b"k");
    let cond = vs::choice("cond", 3);
    let exp = vs::choice("expiry", 6);
    let get = vs::flag("get");
    let order = vs::choice("order", 3);
    let n = if (1..5).contains(&exp) { vs::any_i64("amount") } else { 0 };
    let mut parts: Vec<Vec<A>> = vec![];
    match cond {
        1 => parts.push(vec!["NX".into()]),
        2 => parts.push(vec!["xx".into()]),
        _ => {}
    }
    match exp {
        1 => parts.push(vec!["EX".into(), n.into()]),
        2 => parts.push(vec!["px".into(), n.into()]),
        3 => parts.push(vec!["EXAT".into(), n.into()]),
        4 => parts.push(vec!["PXAT".into(), n.into()]),
        5 => parts.push(vec!["KeepTtl".into()]),
        _ => {}
    }
    if get {
        parts.push(vec!["GET".into()]);
    }
    if !parts.is_empty() {
        let l = parts.len();
        parts.rotate_left(order % l);
    }
    let mut a: Vec<A> = vec!["SET".into(), "k".into(), "new".into()];
    a.extend(parts.into_iter().flatten());
    let old = m.live().cloned();
    let r = cmd(db, &a);
    let d = match exp {
        1 => deadline(NOW0, n, 1000),
        2 => deadline(NOW0, n, 1),
        3 => deadline(0, n, 1000),
        4 => deadline(0, n, 1),
        5 => Some(old.as_ref().map_or(0, |o| o.1)),
        _ => Some(0),
    };
    let met = match cond {
        1 => old.is_none(),
        2 => old.is_some(),
        _ => true,
    };
    match d {
        None => {
            vs::check(r.is_err(), "SET with an invalid expire time is refused");
            vs::reach("refused");
        }
        Some(d) => {
            if met {
                m.v = Some((b"new".to_vec(), d));
                vs::reach("set");
            }
            if get {
                match &old {
                    Some(o) => vs::check(r.is(&o.0), "SET GET replies the old value"),
                    None => vs::check(r.is_nil(), "SET GET replies nil when there was none"),
                }
            } else if met {
                vs::check(r.is_ok(), "SET replies OK");
            } else {
                vs::check(r.is_nil(), "SET NX/XX replies nil when the condition is not met");
                vs::reach("unmet");
            }
        }
    }
    observe(db, b"k", &m, "after SET");
}

fn setex(db: &Arc<Db>) {
    let mut m = prior(db, b"k");
    let n = vs::any_i64("amount");
    let sec = vs::flag("seconds");
    let r = c!(db, if sec { "SETEX" } else { "psetex" }, "k", n, "new");
    match deadline(NOW0, n, if sec { 1000 } else { 1 }) {
        None => vs::check(r.is_err(), "SETEX with an invalid expire time is refused"),
        Some(d) => {
            vs::check(r.is_ok(), "SETEX replies OK");
            m.v = Some((b"new".to_vec(), d));
            vs::reach("set");
        }
    }
    observe(db, b"k", &m, "after SETEX");
}

fn history(db: &Arc<Db>) {
    let mut ms = [M { v: None, now: NOW0 }, M { v: None, now: NOW0 }];
    let keys: [&[u8]; 2] = [b"a", b"b"];
    let n = vs::bound(3, 4);
    for i in 0..n {
        let op = vs::choice("op", 8);
        let w = if i == 0 { 0 } else { vs::choice("key", 2) };
        let k = keys[w];
        let v = [b'0' + i as u8];
        let m = &mut ms[w];
        match op {
            0 => {
                vs::check(c!(db, "SET", k, &v).is_ok(), "SET replies OK");
                m.v = Some((v.to_vec(), 0));
            }
            1 => {
                let d = vs::any_i64("deadline");
                vs::assume(d > 0);
                vs::check(c!(db, "SET", k, &v, "PXAT", d).is_ok(), "SET PXAT replies OK");
                m.v = Some((v.to_vec(), d as u64));
            }
            2 => {
                let r = c!(db, "SET", k, &v, "NX");
                vs::check(if m.live().is_some() { r.is_nil() } else { r.is_ok() }, "SET NX reply");
                if m.live().is_none() {
                    m.v = Some((v.to_vec(), 0));
                }
            }
            3 => {
                let r = c!(db, "SET", k, &v, "XX", "KEEPTTL");
                vs::check(if m.live().is_some() { r.is_ok() } else { r.is_nil() }, "SET XX reply");
                if let Some(o) = m.live() {
                    m.v = Some((v.to_vec(), o.1));
                }
            }
            4 => {
                let r = c!(db, "SET", k, &v, "KEEPTTL", "GET");
                match m.live().cloned() {
                    Some(o) => {
                        vs::check(r.is(&o.0), "SET GET reply");
                        m.v = Some((v.to_vec(), o.1));
                    }
                    None => {
                        vs::check(r.is_nil(), "SET GET reply");
                        m.v = Some((v.to_vec(), 0));
                    }
                }
            }
            5 => {
                let r = c!(db, "DEL", k);
                vs::check(r.is_int(m.live().is_some().into()), "DEL reply");
                m.v = None;
            }
            6 => {
                let d = vs::any_i64("deadline");
                vs::assume(d > 0);
                let r = c!(db, "PEXPIREAT", k, d);
                vs::check(r.is_int(m.live().is_some().into()), "PEXPIREAT reply");
                if m.live().is_some() {
                    m.v.as_mut().unwrap().1 = d as u64;
                }
            }
            _ => {
                let t = m.now + [1, 1_000_000][vs::choice("dt", 2)];
                ms[0].now = t;
                ms[1].now = t;
                vs::set_now(t);
            }
        }
    }
    observe(db, keys[0], &ms[0], "at the end");
    observe(db, keys[1], &ms[1], "at the end");
    vs::reach("end");
}
