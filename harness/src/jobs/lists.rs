//! LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP, LLEN, LRANGE.
use crate::{c, job, r::*, vs, Job};
use db::Db;
use std::{collections::VecDeque, sync::Arc};

pub const JOBS: &[Job] = &[
    job!("C13", "list_history", Db list_history, "4 (thorough 5) commands out of 8 kinds on one list, elements of one arbitrary byte, any 64-bit pop count"),
    job!("C13", "list_range", Db list_range, "lists of 0..3 (thorough 0..5) elements, any 64-bit start and stop"),
    job!("C13", "list_pop", Db list_pop, "lists of 1..3 (thorough 1..5) elements, any 64-bit count, either end"),
    job!("C13", "list_push_many", Db list_push_many, "pushes of 1..3 values of 0..2 arbitrary bytes onto a list with a past of pops (ring buffer wrapped)"),
    job!("C13", "list_two", Db list_two, "two lists, in the same or different slots, do not share elements"),
];

type Model = VecDeque<Vec<u8>>;

fn observe(db: &Arc<Db>, k: &[u8], m: &Model, when: &str) {
    let l = c!(db, "LLEN", k);
    vs::check(l.is_int(m.len() as i64), &format!("{when}: LLEN is the number of elements"));
    let w: Vec<&[u8]> = m.iter().map(|x| &x[..]).collect();
    let r = c!(db, "LRANGE", k, 0, -1);
    vs::check(r.is_list(&w), &format!("{when}: LRANGE returns the elements in order"));
    let e = c!(db, "EXISTS", k);
    vs::check(e.is_int((!m.is_empty()).into()), &format!("{when}: a list exists exactly while it has elements"));
}
/// The elements a pop of `n` from one end replies, in order of removal.
fn pop(m: &mut Model, left: bool, n: usize) -> Vec<Vec<u8>> {
    (0..n).map_while(|_| if left { m.pop_front() } else { m.pop_back() }).collect()
}
fn pop_reply(r: &Rep, w: &[Vec<u8>], what: &str) {
    if w.is_empty() {
        vs::check(r.is_empty(), &format!("{what} of nothing replies nothing"));
        return;
    }
    let w: Vec<&[u8]> = w.iter().map(|x| &x[..]).collect();
    // one element may come bare or as an array
    let one = w.len() == 1 && r.is(w[0]);
    vs::check(one || r.is_list(&w), &format!("{what} replies the removed elements, outermost first"));
}
/// A symbolic count, split into the cases that matter for a list of `len`.
fn count(name: &str, len: usize) -> (i64, Option<usize>) {
    let n = vs::any_i64(name);
    for i in 0..=len {
        if n == i as i64 {
            return (n, Some(i));
        }
    }
    (n, (n > 0).then_some(len))
}
fn list_history(db: &Arc<Db>) {
    let mut m = Model::new();
    for i in 0..vs::bound(4, 5) {
        let op = vs::choice("op", 8);
        let x = vs::bytes("x", 1);
        let y = [b'0' + i as u8];
        match op {
            0 => {
                m.push_front(x.clone());
                m.push_front(y.to_vec());
                vs::check(c!(db, "LPUSH", "k", &x, &y).is_int(m.len() as i64), "LPUSH replies the new length");
            }
            1 => {
                m.push_back(x.clone());
                m.push_back(y.to_vec());
                vs::check(c!(db, "RPUSH", "k", &x, &y).is_int(m.len() as i64), "RPUSH replies the new length");
            }
            2 | 3 => {
                let r = c!(db, if op == 2 { "LPUSHX" } else { "RPUSHX" }, "k", &x);
                if !m.is_empty() {
                    if op == 2 {
                        m.push_front(x.clone());
                    } else {
                        m.push_back(x.clone());
                    }
                }
                vs::check(r.is_int(m.len() as i64), "PUSHX replies the length, and pushes only onto an existing list");
            }
            4 | 5 => {
                let r = c!(db, if op == 4 { "LPOP" } else { "rpop" }, "k");
                let w = pop(&mut m, op == 4, 1);
                pop_reply(&r, &w, "a pop");
            }
            6 => {
                let r = c!(db, "LPOP", "k", 2);
                let w = pop(&mut m, true, 2);
                pop_reply(&r, &w, "a pop of two");
            }
            _ => {
                let r = c!(db, "RPOP", "k", 3);
                let w = pop(&mut m, false, 3);
                pop_reply(&r, &w, "a pop of three");
            }
        }
    }
    observe(db, b"k", &m, "at the end");
    vs::reach("end");
}
fn filled(db: &Arc<Db>, lo: usize, hi: usize) -> Model {
    let n = lo + vs::choice("len", hi - lo + 1);
    let mut m = Model::new();
    for _ in 0..n {
        let x = vs::bytes("x", 1);
        c!(db, "RPUSH", "k", &x);
        m.push_back(x);
    }
    m
}
fn list_range(db: &Arc<Db>) {
    let m = filled(db, 0, vs::bound(3, 5));
    let (a, b) = (vs::any_i64("start"), vs::any_i64("stop"));
    let r = c!(db, "LRANGE", "k", a, b);
    let len = m.len() as i128;
    let fix = |x: i64| if x < 0 { i128::from(x) + len } else { i128::from(x) };
    let (a, b) = (fix(a), fix(b));
    let w: Vec<&[u8]> = m.iter().enumerate().filter(|(i, _)| *i as i128 >= a && *i as i128 <= b).map(|x| &x.1[..]).collect();
    vs::check(r.is_list(&w), "LRANGE returns exactly the elements between start and stop");
    observe(db, b"k", &m, "after LRANGE");
    vs::reach("end");
}
fn list_pop(db: &Arc<Db>) {
    let mut m = filled(db, 1, vs::bound(3, 5));
    let left = vs::flag("left");
    let (n, k) = count("count", m.len());
    let r = c!(db, if left { "lpop" } else { "RPOP" }, "k", n);
    match k {
        Some(k) => {
            let w = pop(&mut m, left, k);
            pop_reply(&r, &w, "a pop with a count");
            vs::reach("popped");
        }
        None => {
            vs::check(r.is_err(), "a negative count is refused");
            vs::reach("refused");
        }
    }
    observe(db, b"k", &m, "after the pop");
}
fn list_push_many(db: &Arc<Db>) {
    let mut m = Model::new();
    // turn the ring buffer
    for i in 0..vs::choice("turn", 3) * 2 {
        c!(db, "RPUSH", "k", "a", "b");
        m.push_back(b"a".to_vec());
        m.push_back(b"b".to_vec());
        if i % 2 == 0 {
            c!(db, "LPOP", "k");
            m.pop_front();
        }
    }
    let n = 1 + vs::choice("n", 3);
    let left = vs::flag("left");
    let xs: Vec<Vec<u8>> = (0..n).map(|i| if i == 0 { vs::blob("x", 0, 2) } else { vs::bytes("x", 1) }).collect();
    let mut a: Vec<A> = vec![if left { "LPUSH" } else { "RPUSH" }.into(), "k".into()];
    a.extend(xs.iter().map(A::from));
    let r = cmd(db, &a);
    for x in &xs {
        if left {
            m.push_front(x.clone());
        } else {
            m.push_back(x.clone());
        }
    }
    vs::check(r.is_int(m.len() as i64), "a push of several values replies the new length");
    observe(db, b"k", &m, "after the push");
    vs::reach("end");
}
fn list_two(db: &Arc<Db>) {
    let other: &[u8] = if vs::flag("same slot") { b"{k}2" } else { b"2" };
    let (x, y) = (vs::bytes("x", 1), vs::bytes("y", 1));
    c!(db, "RPUSH", "k", &x, &y);
    c!(db, "LPUSH", other, &y);
    c!(db, "LPOP", "k");
    observe(db, b"k", &[y.clone()].into(), "after a pop of one list");
    observe(db, other, &[y].into(), "the other list");
    vs::reach("end");
}
