//! SADD, SREM, SISMEMBER, SMISMEMBER, SMEMBERS.
use crate::{c, job, r::*, vs, Job};
use db::Db;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C15", "set_history", Db set_history, "4 (thorough 5) commands out of 4 kinds on one set, members out of two"),
    job!("C15", "set_members", Db set_members, "three members of 0..2 arbitrary bytes (every coincidence), one removed, one probed"),
    job!("C15", "set_dups", Db set_dups, "SADD and SREM of three members of one arbitrary byte in one command"),
];

type Model = Vec<Vec<u8>>;
fn has(m: &Model, x: &[u8]) -> bool {
    m.iter().any(|y| vs::same(y, x))
}
fn add(m: &mut Model, x: &[u8]) -> i64 {
    if has(m, x) {
        return 0;
    }
    m.push(x.to_vec());
    1
}
fn del(m: &mut Model, x: &[u8]) -> i64 {
    let n = m.len();
    m.retain(|y| !vs::same(y, x));
    (n - m.len()) as i64
}
fn observe(db: &Arc<Db>, k: &[u8], m: &Model, probe: &[&[u8]]) {
    let e = c!(db, "EXISTS", k);
    vs::check(e.is_int((!m.is_empty()).into()), "a set exists exactly while it has members");
    for x in probe {
        let h = i64::from(has(m, x));
        let r = c!(db, "SISMEMBER", k, *x);
        vs::check(r.is_int(h), "SISMEMBER tells whether the member is there");
        let r = c!(db, "SMISMEMBER", k, "no such member", *x);
        vs::check(r.arr().len() == 2 && r.arr()[0].is_int(0) && r.arr()[1].is_int(h), "SMISMEMBER tells for each member whether it is there");
    }
    let all = c!(db, "SMEMBERS", k);
    let a = all.arr();
    vs::check(a.len() == m.len(), "SMEMBERS replies every member once");
    for (i, x) in a.iter().enumerate() {
        vs::check(has(m, x.str()), "SMEMBERS replies only members");
        for y in &a[..i] {
            vs::check(!vs::eq(x.str(), y.str()), "SMEMBERS replies no member twice");
        }
    }
}
fn set_history(db: &Arc<Db>) {
    let mut m = Model::new();
    let xs: [&[u8]; 2] = [b"x", b""];
    for _ in 0..vs::bound(4, 5) {
        let op = vs::choice("op", 4);
        let x = if op < 3 { xs[vs::choice("member", 2)] } else { xs[0] };
        match op {
            0 => vs::check(c!(db, "SADD", "k", x).is_int(add(&mut m, x)), "SADD replies the number of new members"),
            1 => vs::check(c!(db, "SREM", "k", x).is_int(del(&mut m, x)), "SREM replies the number of removed members"),
            2 => vs::check(c!(db, "srem", "k", x, "zz", x).is_int(del(&mut m, x)), "SREM counts each member once"),
            _ => {
                let n = add(&mut m, b"x") + add(&mut m, b"");
                vs::check(c!(db, "SADD", "k", "", "x", "").is_int(n), "SADD counts each new member once");
            }
        }
    }
    observe(db, b"k", &m, &xs);
    vs::reach("end");
}
fn set_members(db: &Arc<Db>) {
    let (x, y, z) = (vs::blob("x", 0, 2), vs::blob("y", 0, 2), vs::blob("z", 1, 1));
    let mut m = Model::new();
    vs::check(c!(db, "SADD", "k", &x).is_int(add(&mut m, &x)), "SADD of the first member replies 1");
    vs::check(c!(db, "SADD", "k", &y).is_int(add(&mut m, &y)), "SADD replies 1 exactly for a new member");
    observe(db, b"k", &m, &[&x, &z]);
    vs::check(c!(db, "SREM", "k", &z).is_int(del(&mut m, &z)), "SREM replies 1 exactly for a member");
    observe(db, b"k", &m, &[&x, &y, &z]);
    vs::reach("end");
}
fn set_dups(db: &Arc<Db>) {
    let x: Vec<Vec<u8>> = (0..3).map(|_| vs::bytes("x", 1)).collect();
    let mut m = Model::new();
    let n: i64 = x.iter().map(|x| add(&mut m, x)).sum();
    vs::check(c!(db, "SADD", "k", &x[0], &x[1], &x[2]).is_int(n), "SADD counts distinct new members");
    let n: i64 = x[1..].iter().map(|x| del(&mut m, x)).sum();
    vs::check(c!(db, "SREM", "k", &x[1], &x[2]).is_int(n), "SREM counts distinct removed members");
    observe(db, b"k", &m, &[&x[0]]);
    vs::reach("end");
}
