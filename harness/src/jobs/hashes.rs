//! HSET, HSETNX, HGET, HMGET, HGETALL, HEXISTS, HDEL.
use crate::{c, job, r::*, vs, Job};
use db::Db;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C14", "hash_history", Db hash_history, "4 (thorough 5) commands out of 5 kinds on one hash, two fields, values of one arbitrary byte"),
    job!("C14", "hash_fields", Db hash_fields, "two fields of 0..2 arbitrary bytes each (equal or not), values of 0..2 arbitrary bytes"),
    job!("C14", "hash_three", Db hash_three, "HSET of three pairs over one arbitrary byte each, HDEL of two, every coincidence of fields"),
];

type Model = Vec<(Vec<u8>, Vec<u8>)>;

fn get<'a>(m: &'a Model, f: &[u8]) -> Option<&'a Vec<u8>> {
    m.iter().find(|x| vs::same(&x.0, f)).map(|x| &x.1)
}
fn set(m: &mut Model, f: &[u8], v: &[u8]) -> bool {
    for x in m.iter_mut() {
        if vs::same(&x.0, f) {
            x.1 = v.to_vec();
            return false;
        }
    }
    m.push((f.to_vec(), v.to_vec()));
    true
}
fn del(m: &mut Model, f: &[u8]) -> bool {
    let n = m.len();
    m.retain(|x| !vs::same(&x.0, f));
    m.len() < n
}
fn observe(db: &Arc<Db>, k: &[u8], m: &Model, probe: &[&[u8]]) {
    let e = c!(db, "EXISTS", k);
    vs::check(e.is_int((!m.is_empty()).into()), "a hash exists exactly while it has fields");
    for f in probe {
        let g = c!(db, "HGET", k, *f);
        let h = c!(db, "HEXISTS", k, *f);
        let mg = c!(db, "HMGET", k, *f, "no such field");
        vs::check(mg.arr().len() == 2 && mg.arr()[1].is_nil(), "HMGET replies one value per field, nil for an absent one");
        match get(m, f) {
            Some(v) => {
                vs::check(g.is(v), "HGET returns the value of the field");
                vs::check(mg.arr()[0].is(v), "HMGET returns the value of the field");
                vs::check(h.is_int(1), "HEXISTS of a field that is there is 1");
            }
            None => {
                vs::check(g.is_nil(), "HGET of an absent field is nil");
                vs::check(mg.arr()[0].is_nil(), "HMGET of an absent field is nil");
                vs::check(h.is_int(0), "HEXISTS of an absent field is 0");
            }
        }
    }
    let all = c!(db, "HGETALL", k);
    let a = all.arr();
    vs::check(a.len() == 2 * m.len(), "HGETALL replies every field once");
    for p in a.chunks(2) {
        let v = get(m, p[0].str());
        vs::check(v.is_some(), "HGETALL replies only fields that are there");
        vs::check(v.map_or(false, |v| p[1].is(v)), "HGETALL replies the value of each field");
    }
}
fn hash_history(db: &Arc<Db>) {
    let mut m = Model::new();
    let fs: [&[u8]; 2] = [b"f", b"g"];
    for _ in 0..vs::bound(4, 5) {
        let op = vs::choice("op", 5);
        let f = if op == 4 { fs[0] } else { fs[vs::choice("field", 2)] };
        let v = vs::bytes("v", 1);
        match op {
            0 => {
                let new = set(&mut m, f, &v);
                vs::check(c!(db, "HSET", "k", f, &v).is_int(new.into()), "HSET replies the number of new fields");
            }
            1 => {
                let r = c!(db, "HSETNX", "k", f, &v);
                let new = get(&m, f).is_none();
                if new {
                    set(&mut m, f, &v);
                }
                vs::check(r.is_int(new.into()), "HSETNX replies whether it set the field");
            }
            2 => {
                let r = c!(db, "HDEL", "k", f);
                vs::check(r.is_int(del(&mut m, f).into()), "HDEL replies the number of removed fields");
            }
            3 => {
                let r = c!(db, "HDEL", "k", f, "nope", f);
                vs::check(r.is_int(del(&mut m, f).into()), "HDEL counts each field once");
            }
            _ => {
                let r = c!(db, "hset", "k", "f", &v, "g", "both", "f", "last");
                let a = set(&mut m, b"f", b"last");
                let b = set(&mut m, b"g", b"both");
                vs::check(r.is_int(i64::from(a) + i64::from(b)), "HSET of several pairs counts each new field once");
            }
        }
    }
    observe(db, b"k", &m, &fs);
    vs::reach("end");
}
fn hash_fields(db: &Arc<Db>) {
    let (f, g) = (vs::blob("f", 0, 2), vs::blob("g", 0, 2));
    let (v, w) = (vs::blob("v", 0, 2), vs::blob("w", 0, 1));
    let mut m = Model::new();
    set(&mut m, &f, &v);
    c!(db, "HSET", "k", &f, &v);
    let new = set(&mut m, &g, &w);
    vs::check(c!(db, "HSET", "k", &g, &w).is_int(new.into()), "HSET counts a field as new exactly when no equal field is there");
    observe(db, b"k", &m, &[&f, &g]);
    let gone = del(&mut m, &f);
    vs::check(c!(db, "HDEL", "k", &f).is_int(gone.into()), "HDEL of a field that is there");
    observe(db, b"k", &m, &[&f, &g]);
    vs::reach("end");
}
fn hash_three(db: &Arc<Db>) {
    let f: Vec<Vec<u8>> = (0..4).map(|_| vs::bytes("f", 1)).collect();
    let v: Vec<Vec<u8>> = (0..3).map(|_| vs::bytes("v", 1)).collect();
    let mut m = Model::new();
    let mut new = 0;
    for i in 0..3 {
        new += i64::from(set(&mut m, &f[i], &v[i]));
    }
    let r = c!(db, "HSET", "k", &f[0], &v[0], &f[1], &v[1], &f[2], &v[2]);
    vs::check(r.is_int(new), "HSET replies the number of new fields");
    let gone = i64::from(del(&mut m, &f[1])) + i64::from(del(&mut m, &f[3]));
    vs::check(c!(db, "HDEL", "k", &f[1], &f[3]).is_int(gone), "HDEL replies the number of removed fields");
    observe(db, b"k", &m, &[&f[0], &f[2]]);
    vs::reach("end");
}
