//! INCR, DECR, INCRBY, DECRBY, HINCRBY.
use crate::{c, job, r::*, vs, Job};
use db::Db;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C09", "incr_any", Db incr_any, "any 64-bit stored integer or none, any 64-bit amount (DECRBY: but the smallest), all four commands"),
    job!("C09", "decr_min", Db decr_min, "any stored integer, DECRBY of the smallest integer"),
    job!("C09", "incr_chain", Db incr_chain, "three counter commands in a row, any 64-bit amounts"),
    job!("C09", "incr_text", Db incr_text, "stored text of 0..3 (thorough 0..5) arbitrary bytes"),
    job!("C09", "incr_amount_text", Db incr_amount_text, "amount written as 1..3 (thorough 1..5) arbitrary bytes"),
    job!("C09", "incr_get", Db incr_get, "7 stored values, 10 amounts around a carry: the sum as GET prints it"),
    job!("C09", "hincr_any", Db hincr_any, "any 64-bit field value or none, any 64-bit amount"),
    job!("C09", "hincr_text", Db hincr_text, "field text of 0..3 arbitrary bytes"),
];

/// The integer a reply stands for, whatever its frame type.
fn val(r: &Rep) -> Option<i64> {
    match r {
        Rep::Int(i) => Some(*i),
        Rep::Str(s) => common::parse_i64(s),
        _ => None,
    }
}
/// The stored counter (printing it for a reply is job incr_get).
fn stored(db: &Arc<Db>) -> Option<i64> {
    match raw(db, b"k")?.0 {
        dict::data_type::DataType::Integer(i) => Some(i),
        dict::data_type::DataType::Bytes(b) => common::parse_i64(&b),
        dict::data_type::DataType::String(b) => common::parse_i64(&b),
        _ => None,
    }
}
fn incr_get(db: &Arc<Db>) {
    let base = [0, 95, -105, i64::MAX - 20, i64::MIN + 20, 999_999_995, -9_999_999_999_999_995][vs::choice("base", 7)];
    c!(db, "SET", "k", base);
    let b = [-6i64, -5, -4, -1, 0, 1, 4, 5, 6, 9][vs::choice("b", 10)];
    vs::check(c!(db, "INCRBY", "k", b).is_int(base + b), "INCRBY replies the sum");
    vs::check(val(&c!(db, "GET", "k")) == Some(base + b), "GET returns the sum");
    vs::reach("end");
}
fn bump(db: &Arc<Db>, n: &str) -> (i128, Rep) {
    match vs::choice("cmd", 4) {
        0 => (1, c!(db, "INCR", "k")),
        1 => (-1, c!(db, "decr", "k")),
        2 => {
            let b = vs::any_i64(n);
            (b.into(), c!(db, "INCRBY", "k", b))
        }
        _ => {
            let b = vs::any_i64(n);
            // the amount that cannot be negated is job decr_min
            vs::assume(b != i64::MIN);
            (-i128::from(b), c!(db, "DECRBY", "k", b))
        }
    }
}
fn fits(x: i128) -> bool {
    x >= i128::from(i64::MIN) && x <= i128::from(i64::MAX)
}
fn incr_any(db: &Arc<Db>) {
    let mut old = None;
    if vs::flag("present") {
        let a = vs::any_i64("a");
        vs::check(c!(db, "SET", "k", a, "PXAT", 1_800_000_000_000).is_ok(), "SET replies OK");
        old = Some(a);
    }
    let (b, r) = bump(db, "b");
    let sum = i128::from(old.unwrap_or(0)) + b;
    if fits(sum) {
        vs::check(r.is_int(sum as i64), "a counter command replies the exact sum");
        vs::check(stored(db) == Some(sum as i64), "the sum is stored");
        vs::reach("sum");
    } else {
        vs::check(matches!(r, Rep::Err(_)), "a counter command that would overflow replies an error");
        vs::check(stored(db) == old, "an overflow leaves the counter alone");
        vs::reach("overflow");
    }
    let t = c!(db, "PTTL", "k");
    vs::check(
        match old {
            Some(_) => t.is_int(100_000_000_000),
            None => t.is_int(if fits(sum) { -1 } else { -2 }),
        },
        "a counter command keeps the deadline",
    );
}
/// Refusing to negate the smallest integer is as good as the exact sum.
fn decr_min(db: &Arc<Db>) {
    let a = vs::any_i64("a");
    c!(db, "SET", "k", a);
    let r = c!(db, "DECRBY", "k", i64::MIN);
    if matches!(r, Rep::Err(_)) {
        vs::check(stored(db) == Some(a), "a refused decrement leaves the counter alone");
    } else {
        vs::check(a < 0, "DECRBY that would overflow replies an error");
        vs::check(stored(db) == Some(a.wrapping_sub(i64::MIN)), "DECRBY stores the exact sum");
    }
    vs::reach("end");
}
fn incr_chain(db: &Arc<Db>) {
    let mut x: i128 = 0;
    for n in ["a", "b", "c"] {
        let (b, r) = bump(db, n);
        if fits(x + b) {
            x += b;
            vs::check(r.is_int(x as i64), "each counter command sees the one before");
        } else {
            vs::check(matches!(r, Rep::Err(_)), "overflow is an error");
            vs::reach("overflow");
        }
    }
    vs::check(stored(db).unwrap_or(0) == x as i64, "the counter is the sum of what was acknowledged");
    vs::reach("end");
}
/// The integer that is written in the text: optional sign, decimal digits.
fn reference(t: &[u8]) -> Option<i64> {
    let (neg, d) = match t.first() {
        Some(b'-') => (true, &t[1..]),
        Some(b'+') => (false, &t[1..]),
        _ => (false, t),
    };
    if d.is_empty() {
        return None;
    }
    let mut all = true;
    let mut n = 0i64;
    for c in d {
        all = vs::and(all, vs::and(*c >= b'0', *c <= b'9'));
        n = n.wrapping_mul(10).wrapping_add(i64::from(c.wrapping_sub(b'0')));
    }
    all.then_some(if neg { -n } else { n })
}
fn incr_text(db: &Arc<Db>) {
    let t = vs::blob("t", 0, vs::bound(3, 5));
    c!(db, "SET", "k", &t);
    let r = c!(db, "INCR", "k");
    match reference(&t) {
        Some(n) => {
            vs::check(r.is_int(n + 1), "INCR counts on from the number in the text");
            vs::reach("number");
        }
        None => {
            vs::check(matches!(r, Rep::Err(_)), "INCR of text that is no number is an error");
            vs::check(c!(db, "GET", "k").is(&t), "the text is left alone");
            vs::reach("text");
        }
    }
}
fn incr_amount_text(db: &Arc<Db>) {
    let t = vs::blob("t", 1, vs::bound(3, 5));
    c!(db, "SET", "k", 7);
    let neg = vs::flag("decr");
    let r = c!(db, if neg { "DECRBY" } else { "INCRBY" }, "k", &t);
    match reference(&t) {
        Some(n) => {
            vs::check(r.is_int(if neg { 7 - n } else { 7 + n }), "the amount is the number in the text");
            vs::reach("number");
        }
        None => {
            vs::check(r.is_err(), "an amount that is no number is refused");
            vs::check(val(&c!(db, "GET", "k")) == Some(7), "a refused command changes nothing");
            vs::reach("text");
        }
    }
}
fn hincr_any(db: &Arc<Db>) {
    let mut old = None;
    c!(db, "HSET", "k", "other", "x");
    if vs::flag("present") {
        let a = vs::any_i64("a");
        c!(db, "HSET", "k", "f", a);
        old = Some(a);
    }
    let b = vs::any_i64("b");
    let r = c!(db, "HINCRBY", "k", "f", b);
    let sum = i128::from(old.unwrap_or(0)) + i128::from(b);
    if fits(sum) {
        vs::check(r.is_int(sum as i64), "HINCRBY replies the exact sum");
        vs::check(val(&c!(db, "HGET", "k", "f")) == Some(sum as i64), "HGET returns the sum");
        vs::reach("sum");
    } else {
        vs::check(matches!(r, Rep::Err(_)), "HINCRBY that would overflow replies an error");
        vs::check(val(&c!(db, "HGET", "k", "f")) == old, "an overflow leaves the field alone");
        vs::reach("overflow");
    }
    vs::check(c!(db, "HGET", "k", "other").is(b"x"), "HINCRBY leaves other fields alone");
}
fn hincr_text(db: &Arc<Db>) {
    let t = vs::blob("t", 0, vs::bound(3, 4));
    c!(db, "HSET", "k", "f", &t);
    let r = c!(db, "HINCRBY", "k", "f", -1);
    match reference(&t) {
        Some(n) => {
            vs::check(r.is_int(n - 1), "HINCRBY counts on from the number in the text");
            vs::reach("number");
        }
        None => {
            vs::check(matches!(r, Rep::Err(_)), "HINCRBY of text that is no number is an error");
            vs::check(c!(db, "HGET", "k", "f").is(&t), "the text is left alone");
            vs::reach("text");
        }
    }
}
