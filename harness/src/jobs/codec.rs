//! The wire protocol: encoding, decoding, replies.
use crate::{c, job, r::*, vs, Job};
use common::connection::parse::frame::{parse, Frame};
use db::Db;
use std::sync::Arc;

pub const JOBS: &[Job] = &[
    job!("C01", "frame_roundtrip", Plain frame_roundtrip, "every kind of frame, strings of 0..3 (thorough 5) arbitrary bytes, followed by 0..2 arbitrary bytes"),
    job!("C01", "int_roundtrip", Plain int_roundtrip, "integers -130..125 (thorough -130..893) and the ends of the range"),
    job!("C01", "bulk_lengths", Plain bulk_lengths, "bulk strings of 0, 1, 9, 10, 11, 99, 100, 127, 1000 bytes, the first two and the last arbitrary"),
    job!("C01", "array_roundtrip", Plain array_roundtrip, "arrays of 0..2 elements of every kind, nested to depth 2 (thorough 3) and 32, strings of 0..1 arbitrary bytes"),
    job!("C01", "prefixes", Plain prefixes, "every proper prefix of every kind of frame and of arrays, strings of 0..2 arbitrary bytes"),
    job!("C01", "stream", Plain stream, "two frames of every kind in a row, strings of 0..2 arbitrary bytes"),
    job!("C02", "decode_any", Plain decode_any, "any 0..6 (thorough 8) bytes: outcome, bytes used, every prefix and extension"),
    job!("C02", "decode_header", Plain decode_header, "every frame kind with a length of 1..2 (thorough 3) arbitrary bytes, followed by CRLF and 0..3 (thorough 4) arbitrary bytes"),
    job!("C02", "decode_huge", Plain decode_huge, "extreme lengths and nesting, followed by 0..3 arbitrary bytes"),
    job!("C02", "decode_array", Plain decode_array, "arrays of one or two elements made of 0..6 (thorough 8) arbitrary bytes"),
    job!("C03", "reply_bytes", Db reply_bytes, "stored strings, fields, members of 0..3 arbitrary bytes through 14 reading commands"),
    job!("C03", "reply_table", Db reply_table, "6 kinds of value x 67 commands: one frame per reply"),
    job!("C03", "reply_errors", Db reply_errors, "command names, option names and arguments of 0..2 arbitrary bytes echoed in errors"),
    job!("C03", "reply_kinds", Plain reply_kinds, "every kind of reply frame, text of 0..3 arbitrary bytes, alone and in an array"),
];

fn content(lo: usize, hi: usize) -> Vec<u8> {
    vs::blob("text", lo, hi)
}
const PLAIN: usize = 8;
/// A frame without elements, of the given kind; its content in `b`.
fn plain<'a>(kind: usize, b: &'a [u8]) -> Frame<'a> {
    match kind {
        0 => Frame::Bulk(b),
        1 => Frame::Simple(b),
        2 => Frame::Error(b),
        3 => Frame::Null,
        4 => Frame::OwnedBulk(b.to_vec()),
        5 => Frame::OwnedSimple(b.to_vec()),
        6 => Frame::Pong,
        _ => Frame::Integer(b.first().map_or(-7, |_| 12)),
    }
}
fn has_text(kind: usize) -> bool {
    !matches!(kind, 3 | 6)
}
fn breaks(b: &[u8]) -> bool {
    let mut r = false;
    for c in b {
        r = vs::or(r, vs::or(*c == b'\r', *c == b'\n'));
    }
    r
}
/// Content that the kind can carry unchanged.
fn any_content(kind: usize, lo: usize, hi: usize) -> Vec<u8> {
    if !has_text(kind) {
        return vec![];
    }
    // an empty error cannot be sent
    content(if kind == 2 { lo.max(1) } else { lo }, if kind == 7 { hi.min(1) } else { hi })
}
/// Does a decoded frame say the same as the encoded one?
fn means(got: &Frame, kind: usize, b: &[u8]) -> bool {
    match kind {
        2 => match got {
            // line breaks come back as spaces
            Frame::Error(e) => {
                if e.len() != b.len() {
                    return false;
                }
                let mut r = true;
                for (x, y) in e.iter().zip(b) {
                    let brk = vs::or(*y == b'\r', *y == b'\n');
                    r = vs::and(r, *x == vs::ite(brk, b' '.into(), (*y).into()) as u8);
                }
                r
            }
            _ => false,
        },
        3 => matches!(got, Frame::Null),
        6 => matches!(got, Frame::Simple(b"PONG")),
        7 => matches!(got, Frame::Integer(i) if *i == b.first().map_or(-7, |_| 12)),
        _ => match got {
            Frame::Bulk(e) | Frame::Simple(e) => vs::eq(e, b),
            _ => false,
        },
    }
}
fn enc(f: &Frame) -> Vec<u8> {
    f.into()
}
/// `parse`, with a refusal told apart.
enum Dec<'a> {
    Whole(usize, Frame<'a>),
    More,
    Refused,
}
fn dec(b: &[u8]) -> Dec {
    match parse(b) {
        Ok(Some((n, f))) => Dec::Whole(n, f),
        Ok(None) => Dec::More,
        Err(e) => {
            std::mem::forget(e);
            Dec::Refused
        }
    }
}
fn frame_roundtrip() {
    let kind = vs::choice("kind", PLAIN);
    let b = any_content(kind, 0, vs::bound(3, 5));
    let f = plain(kind, &b);
    let mut e = enc(&f);
    let n = e.len();
    e.extend(vs::blob("tail", 0, 2));
    match dec(&e) {
        Dec::Whole(used, g) => {
            vs::check(used == n, "decoding uses exactly the bytes of the frame");
            vs::check(means(&g, kind, &b), "decoding gives back the frame");
            if kind == 1 || kind == 5 {
                // a simple string with a line break travels as a bulk string
                vs::check(matches!(g, Frame::Bulk(_)) == breaks(&b), "kind of string");
            } else if kind == 0 || kind == 4 {
                vs::check(matches!(g, Frame::Bulk(_)), "a bulk string stays a bulk string");
            }
        }
        Dec::More => vs::check(false, "a whole frame is not incomplete"),
        Dec::Refused => vs::check(false, "a whole frame is not refused"),
    }
    vs::reach("end");
}
fn int_roundtrip() {
    let i = match vs::choice("which", 7) {
        0 => i64::MAX,
        1 => i64::MIN,
        2 => i64::MIN + 1,
        3 => 1_000_000_000_000_000_000,
        4 => -999_999_999_999,
        5 => 100_000,
        _ => vs::int("i", vs::bound(8, 10) as u32) as i64 - 130,
    };
    let e = enc(&Frame::Integer(i));
    match dec(&e) {
        Dec::Whole(used, Frame::Integer(j)) => {
            vs::check(used == e.len(), "decoding uses exactly the bytes of the integer");
            vs::check(i == j, "an integer comes back as itself");
        }
        _ => vs::check(false, "an integer decodes to an integer"),
    }
    vs::reach("end");
}
fn bulk_lengths() {
    let n = [0, 1, 9, 10, 11, 99, 100, 127, 1000][vs::choice("n", 9)];
    let mut b = vec![b'x'; n];
    let a = vs::bytes("edge", 3);
    for (i, c) in a.iter().enumerate() {
        if i + 1 < n {
            b[i] = *c;
        }
    }
    if n > 0 {
        b[n - 1] = a[2];
    }
    let e = enc(&Frame::Bulk(&b));
    match dec(&e) {
        Dec::Whole(used, Frame::Bulk(g)) => {
            vs::check(used == e.len() && g.len() == n, "a bulk string of this length is decoded whole");
            let (x, y, z) = (g.first() == b.first(), g.get(1) == b.get(1), g.last() == b.last());
            vs::check(x && y && z, "a bulk string of this length comes back as itself");
        }
        _ => vs::check(false, "a bulk string of this length decodes to one"),
    }
    vs::check(matches!(dec(&e[..e.len() - 1]), Dec::More), "a bulk string cut short is incomplete");
    vs::reach("end");
}
fn array_roundtrip() {
    let n = vs::choice("elements", 3);
    let kinds: Vec<usize> = (0..n).map(|_| vs::choice("kind", PLAIN)).collect();
    let text: Vec<Vec<u8>> = kinds.iter().map(|k| any_content(*k, 0, 1)).collect();
    let mut f = Frame::Array(kinds.iter().zip(&text).map(|(k, b)| plain(*k, b)).collect());
    let depth = match vs::choice("depth", vs::bound(3, 4)) {
        0 => 0,
        1 => 1,
        2 => 31,
        _ => 2,
    };
    for _ in 0..depth {
        f = Frame::Array(vec![f]);
    }
    let e = enc(&f);
    let Dec::Whole(used, g) = dec(&e) else {
        vs::check(false, "an array is decoded");
        return;
    };
    vs::check(used == e.len(), "decoding uses exactly the bytes of the array");
    let mut g = &g;
    for _ in 0..depth {
        match g {
            Frame::Array(a) if a.len() == 1 => g = &a[0],
            _ => vs::check(false, "a nested array comes back nested"),
        }
    }
    match g {
        Frame::Array(a) => {
            vs::check(a.len() == n, "an array comes back with all its elements");
            for i in 0..n {
                vs::check(means(&a[i], kinds[i], &text[i]), "the elements of an array come back in order");
            }
        }
        _ => vs::check(false, "an array decodes to an array"),
    }
    vs::reach("end");
}
fn prefixes() {
    let kind = vs::choice("kind", PLAIN + 1);
    let b = any_content(kind % PLAIN, 0, 2);
    let f = if kind == PLAIN { Frame::Array(vec![plain(0, &b), Frame::Integer(-1), plain(1, b"ab")]) } else { plain(kind, &b) };
    let e = enc(&f);
    let cut = vs::choice("cut", e.len());
    vs::check(matches!(dec(&e[..cut]), Dec::More), "a proper prefix of a frame is incomplete");
    vs::reach("end");
}
fn stream() {
    let (j, k) = (vs::choice("kind", PLAIN), vs::choice("kind", PLAIN));
    let (a, b) = (any_content(j, 0, 2), any_content(k, 0, 1));
    let mut e = enc(&plain(j, &a));
    e.extend(enc(&plain(k, &b)));
    let Dec::Whole(n, f) = dec(&e) else {
        vs::check(false, "the first of two frames is decoded");
        return;
    };
    vs::check(means(&f, j, &a), "the first of two frames comes back");
    let Dec::Whole(m, f) = dec(&e[n..]) else {
        vs::check(false, "the second of two frames is decoded");
        return;
    };
    vs::check(means(&f, k, &b), "the second of two frames comes back");
    vs::check(n + m == e.len(), "two frames use exactly their bytes");
    vs::reach("end");
}

/// Decode `b` and hold it against its own prefixes.
fn total(b: &[u8]) {
    // guard bytes the decoder must not look at: a frame there would be noticed
    match dec(b) {
        Dec::Whole(n, f) => {
            vs::check(n > 0 && n <= b.len(), "decoding uses some of the bytes that are there");
            vs::reach("whole");
            match dec(&b[..n]) {
                Dec::Whole(m, g) => {
                    vs::check(m == n, "the used bytes alone decode to the same length");
                    vs::check(rep(&f) == rep(&g), "the used bytes alone decode to the same frame");
                }
                _ => vs::check(false, "the used bytes alone are a whole frame"),
            }
            if n > 1 {
                vs::check(!matches!(dec(&b[..n - 1]), Dec::Whole(..)), "fewer than the used bytes are no whole frame");
            }
        }
        Dec::More => {
            vs::reach("incomplete");
            for k in 0..b.len() {
                vs::check(matches!(dec(&b[..k]), Dec::More), "a prefix of an incomplete frame is incomplete");
            }
        }
        Dec::Refused => {
            vs::reach("refused");
            // more bytes do not make it acceptable
            let mut e = b.to_vec();
            e.extend_from_slice(b"\r\n");
            vs::check(matches!(dec(&e), Dec::Refused), "bytes once refused stay refused");
        }
    }
}
fn decode_any() {
    total(&vs::blob("bytes", 0, vs::bound(6, 8)));
}
fn decode_header() {
    let mut b = vec![b"$*:+-"[vs::choice("kind", 5)]];
    b.extend(vs::blob("length", 1, vs::bound(2, 3)));
    b.extend_from_slice(b"\r\n");
    b.extend(vs::blob("rest", 0, vs::bound(3, 4)));
    total(&b);
}
fn decode_huge() {
    let head: &[&[u8]] = &[
        b"$9223372036854775807\r\n",
        b"$-9223372036854775808\r\n",
        b"$99999999999999999999\r\n",
        b"*9223372036854775807\r\n",
        b"*99999999999999999999\r\n",
        b"*-9223372036854775808\r\n",
        b"$18446744073709551615\r\n",
        b":9223372036854775808\r\n",
        b"*1000000000\r\n:1\r\n",
    ];
    let k = vs::choice("head", head.len() + 3);
    let mut b = match k.checked_sub(head.len()) {
        None => head[k].to_vec(),
        Some(i) => b"*1\r\n".repeat([32, 33, 200][i]),
    };
    b.extend(vs::blob("rest", 0, 3));
    match dec(&b) {
        Dec::Whole(n, _) => vs::check(n <= b.len(), "decoding uses at most the bytes that are there"),
        Dec::More => vs::reach("incomplete"),
        Dec::Refused => vs::reach("refused"),
    }
    vs::reach("end");
}
fn decode_array() {
    let mut b = [&b"*1\r\n"[..], b"*2\r\n"][vs::choice("elements", 2)].to_vec();
    b.extend(vs::blob("rest", 0, vs::bound(6, 8)));
    total(&b);
}

/// The reply frame of a request, decoded from the bytes the client gets.
fn wire(db: &Arc<Db>, args: &[A]) -> Rep {
    with_frame(db, req(args), |f| match f {
        Err(()) => Rep::Refused,
        Ok(f) => {
            let e = enc(f);
            let r = match dec(&e) {
                Dec::Whole(n, g) => {
                    vs::check(n == e.len(), "a reply is exactly one frame");
                    rep(&g)
                }
                _ => {
                    vs::check(false, "a reply is one whole frame");
                    Rep::None
                }
            };
            vs::check(match &r {
                // line breaks in error texts may be replaced
                Rep::Err(x) => matches!(rep(f), Rep::Err(y) if x.len() == y.len()),
                r => *r == rep(f),
            }, "a reply says on the wire what the command said");
            r
        }
    })
}
macro_rules! w {
    ($db:expr, $($a:expr),+ $(,)?) => { wire($db, &[$(A::from($a)),+]) };
}
fn reply_bytes(db: &Arc<Db>) {
    let v = vs::blob("v", 0, 3);
    let v = &v;
    let one = |r: Rep| r.arr().len() == 1 && r.arr()[0].is(v);
    let ok = match vs::choice("cmd", 14) {
        0 => {
            c!(db, "SET", "k", v);
            w!(db, "GET", "k").is(v)
        }
        1 => {
            c!(db, "RPUSH", "k", v);
            one(w!(db, "LRANGE", "k", "0", "-1"))
        }
        2 => {
            c!(db, "RPUSH", "k", v);
            one(w!(db, "LPOP", "k"))
        }
        3 => {
            c!(db, "RPUSH", "k", "a", v);
            one(w!(db, "RPOP", "k", "1"))
        }
        4 => {
            c!(db, "HSET", "k", "f", v);
            w!(db, "HGET", "k", "f").is(v)
        }
        5 => {
            c!(db, "HSET", "k", "f", v);
            one(w!(db, "HMGET", "k", "f"))
        }
        6 => {
            c!(db, "HSET", "k", v, "w");
            let r = w!(db, "HGETALL", "k");
            r.arr().len() == 2 && r.arr()[0].is(v) && r.arr()[1].is(b"w")
        }
        7 => {
            c!(db, "HSET", "k", "f", v);
            let r = w!(db, "HGETALL", "k");
            r.arr().len() == 2 && r.arr()[0].is(b"f") && r.arr()[1].is(v)
        }
        8 => {
            c!(db, "SADD", "k", v);
            one(w!(db, "SMEMBERS", "k"))
        }
        9 => {
            c!(db, "ZADD", "k", "1", v);
            one(w!(db, "ZRANGE", "k", "0", "-1"))
        }
        10 => {
            c!(db, "ZADD", "k", "1", v);
            one(w!(db, "ZREVRANGE", "k", "0", "-1"))
        }
        11 => {
            c!(db, "ZADD", "k", "1", v);
            one(w!(db, "ZRANGEBYSCORE", "k", "0", "2"))
        }
        12 => {
            c!(db, "ZADD", "k", "1", v);
            one(w!(db, "ZRANGEBYLEX", "k", "-", "+"))
        }
        _ => {
            c!(db, "SET", "k", v);
            w!(db, "SET", "k", "new", "GET").is(v)
        }
    };
    vs::check(ok, "data comes back byte for byte");
    vs::reach("end");
}
fn reply_table(db: &Arc<Db>) {
    use crate::table::*;
    make(db, b"k", any_kind());
    let o = any_op();
    let mut a: Vec<A> = vec![o.name.into(), "k".into()];
    a.extend(o.args.iter().map(|x| A::from(*x)));
    wire(db, &a);
    vs::reach("end");
}
fn reply_errors(db: &Arc<Db>) {
    let t = vs::blob("t", 0, 2);
    for c in &t {
        // other bytes only meet the UTF-8 check, see the parsing jobs
        vs::assume(*c < 128);
    }
    match vs::choice("where", 6) {
        0 => w!(db, &t, "x"),
        1 => w!(db, "NOSUCH", &t),
        2 => w!(db, "SET", "k", "v", &t),
        3 => w!(db, "INCRBY", "k", &t),
        4 => w!(db, "ZRANGE", "k", &t, "1"),
        _ => w!(db, "ZRANGEBYSCORE", "k", &t, "1"),
    };
    vs::reach("end");
}
fn reply_kinds() {
    let b = vs::blob("text", 1, 3);
    for c in &b {
        vs::assume(*c < 128);
    }
    let text = String::from_utf8(b.clone()).unwrap_or_default();
    let f = match vs::choice("kind", 7) {
        0 => Frame::OwnedError(text),
        1 => Frame::OwnedStringSimple(text),
        2 => Frame::OwnedSimple(b.clone()),
        3 => Frame::Error(&b),
        4 => Frame::Simple(&b),
        5 => Frame::OwnedBulk(b.clone()),
        _ => Frame::Array(vec![Frame::OwnedError(text), Frame::Bulk(&b)]),
    };
    let e = enc(&f);
    match dec(&e) {
        Dec::Whole(n, g) => {
            vs::check(n == e.len(), "a reply is exactly one frame");
            match (rep(&f), rep(&g)) {
                (Rep::Err(a), Rep::Err(b)) => vs::check(a.len() == b.len(), "an error text keeps its length"),
                (Rep::Arr(a), Rep::Arr(b)) => vs::check(a.len() == b.len() && a[1] == b[1], "an array keeps its elements"),
                (a, b) => vs::check(a == b, "text comes back byte for byte"),
            }
        }
        _ => vs::check(false, "a reply is one whole frame"),
    }
    vs::reach("end");
}
