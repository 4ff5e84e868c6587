//! Sorted sets. Scores are arbitrary at the level of the database's own
//! interface; the textual commands are driven with a fixed set of score texts.
use crate::{c, job, r::*, vs, Job};
use common::{
    float::Float,
    options::{GtLt, Limit, NxXx},
};
use db::Db;
use dict::{cmd::sorted_set as z, data_type::sorted_set::Node, data_type::DataType};
use std::{ops::Bound, sync::Arc};

pub const JOBS: &[Job] = &[
    job!("C16", "zadd_any", Db zadd_any, "two members with any scores, ZADD of one pair with any score, every NX/XX x GT/LT; both indexes compared with a model"),
    job!("C16", "zadd_pairs", Db zadd_pairs, "ZADD of two pairs with any scores (same member or not) onto one member, every NX/XX x GT/LT"),
    job!("C16", "zadd_incr", Db zadd_incr, "ZADD INCR of any score onto any score or a new member, with XX, NX or neither"),
    job!("C16", "zset_history", Db zset_history, "3 (thorough 4) commands out of 9 kinds on 3 members, concrete scores"),
    job!("C16", "zadd_text", Db zadd_text, "ZADD as a command: every combination of NX/XX, GT/LT, CH; 6 score texts; replies"),
    job!("C16", "zadd_nan", Db zadd_nan, "NaN spelled in 5 ways, and infinity minus infinity"),
    job!("C17", "zrange_score", Db zrange_score, "1 (thorough 2) member with any score, or 2 (3) whose scores and bounds vary in their 16 most significant bits; both bounds any and inclusive, exclusive or absent, both directions"),
    job!("C17", "zrange_limit", Db zrange_limit, "LIMIT with any 64-bit offset and count on rank, score and lex ranges, both directions"),
    job!("C17", "zrange_rank", Db zrange_rank, "0..3 (thorough 0..4) members, any 64-bit start and stop, both directions"),
    job!("C17", "zrange_lex", Db zrange_lex, "3 members of one arbitrary byte, bounds of one arbitrary byte, inclusive, exclusive or absent, both directions"),
    job!("C17", "zrank_any", Db zrank_any, "3 members with any scores: ZRANK and ZREVRANK of each and of an absent one"),
    job!("C17", "zrange_text", Db zrange_text, "ZRANGE BYSCORE/BYLEX/REV, ZRANGEBYSCORE, ZREVRANGEBYSCORE, ZRANGEBYLEX, ZREVRANGEBYLEX, ZREVRANGE as commands with 9 bound texts"),
    job!("C18", "zrem_score", Db zrem_score, "1 (thorough 2) member with any score, or 2 (3) whose scores and bounds vary in their 16 most significant bits; both bounds any and inclusive, exclusive or absent"),
    job!("C18", "zrem_rank", Db zrem_rank, "0..3 members, any 64-bit start and stop"),
    job!("C18", "zrem_lex", Db zrem_lex, "3 members of one arbitrary byte, any bounds"),
    job!("C18", "zrem_members", Db zrem_members, "ZREM of two arbitrary one-byte members from three with any scores"),
    job!("C18", "zrem_text", Db zrem_text, "ZREMRANGEBYSCORE/LEX/RANK as commands with 7 bound texts"),
];

/// Member and score; a list sorted the way the set must be.
type Model = Vec<(Vec<u8>, f64)>;

fn before(a: &(Vec<u8>, f64), b: &(Vec<u8>, f64)) -> bool {
    if a.1 < b.1 {
        return true;
    }
    a.1 == b.1 && a.0 < b.0
}
fn put(m: &mut Model, k: &[u8], s: f64) {
    m.retain(|x| !vs::same(&x.0, k));
    let x = (k.to_vec(), s);
    let i = m.iter().position(|y| before(&x, y)).unwrap_or(m.len());
    m.insert(i, x);
}
fn score(m: &Model, k: &[u8]) -> Option<f64> {
    m.iter().find(|x| vs::same(&x.0, k)).map(|x| x.1)
}
/// Only the 16 most significant bits vary: both signs of zero and infinity, every exponent.
static COARSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn any_score(n: &str) -> f64 {
    let s = if COARSE.load(std::sync::atomic::Ordering::Relaxed) {
        f64::from_bits(vs::int(n, 16) << 48)
    } else {
        vs::any_f64(n)
    };
    vs::assume(!s.is_nan());
    s
}
fn node(k: &[u8], s: f64) -> Node {
    Node { key: k.into(), score: Float(s) }
}
/// `key` holds exactly this sorted set, in both of its indexes.
fn holds(db: &Arc<Db>, key: &[u8], m: &Model, when: &str) {
    let Some((d, _)) = raw(db, key) else {
        vs::check(m.is_empty(), &format!("{when}: a sorted set with members exists"));
        return;
    };
    let DataType::SortedSet(s) = d else {
        vs::check(false, &format!("{when}: the key holds a sorted set"));
        return;
    };
    vs::check(!m.is_empty(), &format!("{when}: an empty sorted set does not exist"));
    vs::check(s.hash.len() == m.len() && s.value.len() == m.len(), &format!("{when}: both indexes hold every member once"));
    for (n, x) in s.value.iter().zip(m) {
        let ok = vs::and(vs::eq(&n.key, &x.0), n.score.0 == x.1);
        vs::check(ok, &format!("{when}: the order index holds the members in order of score, then of name"));
    }
    for x in m {
        let h = s.hash.get(&x.0[..]);
        vs::check(h.is_some(), &format!("{when}: the member index holds every member"));
        let h = h.unwrap();
        vs::check(vs::and(h.score.0 == x.1, vs::eq(&h.key, &x.0)), &format!("{when}: the member index holds the same scores"));
    }
}
fn add(db: &Arc<Db>, nodes: Vec<Node>, nx: NxXx, gt: GtLt, incr: bool) -> common::Result<z::add::Resp> {
    db.sorted_set_add(z::add::Req { key: b"k"[..].into(), nodes, nx_xx: nx, gt_lt: gt, incr })
}
fn fill(db: &Arc<Db>, members: &[&[u8]], scores: &[f64]) -> Model {
    let mut m = Model::new();
    for (k, s) in members.iter().zip(scores) {
        let r = add(db, vec![node(k, *s)], NxXx::None, GtLt::None, false);
        vs::check(r.is_ok(), "ZADD succeeds");
        put(&mut m, k, *s);
    }
    m
}
fn any_opts() -> (NxXx, GtLt) {
    let nx = [NxXx::None, NxXx::Nx, NxXx::Xx][vs::choice("nx", 3)];
    // GT and LT contradict NX
    let gt = if nx.is_nx() { GtLt::None } else { [GtLt::None, GtLt::Gt, GtLt::Lt][vs::choice("gt", 3)] };
    (nx, gt)
}
/// Apply one pair to the model: (added, changed).
fn model_add(m: &mut Model, k: &[u8], s: f64, nx: NxXx, gt: GtLt) -> (usize, usize) {
    match score(m, k) {
        None if nx.is_xx() => (0, 0),
        None => {
            put(m, k, s);
            (1, 1)
        }
        Some(old) => {
            let go = !nx.is_nx()
                && match gt {
                    GtLt::Gt => s > old,
                    GtLt::Lt => s < old,
                    GtLt::None => s != old,
                };
            if go {
                put(m, k, s);
            }
            (0, go.into())
        }
    }
}
fn zadd_any(db: &Arc<Db>) {
    let mut m = fill(db, &[b"a", b"b"], &[any_score("sa"), any_score("sb")]);
    let k: &[u8] = [b"a", b"c"][vs::choice("member", 2)];
    let s = any_score("s");
    let (nx, gt) = any_opts();
    let (a, ch) = model_add(&mut m, k, s, nx, gt);
    let r = add(db, vec![node(k, s)], nx, gt, false).unwrap();
    vs::check(r.new_len - r.old_len == a, "ZADD counts the added members");
    vs::check(r.update_len == ch, "ZADD CH counts the changed members");
    holds(db, b"k", &m, "after ZADD");
    vs::reach("end");
}
fn zadd_pairs(db: &Arc<Db>) {
    let mut m = if vs::flag("empty") { Model::new() } else { fill(db, &[b"a"], &[any_score("sa")]) };
    let ks: [&[u8]; 2] = [[b"a", b"b"][vs::choice("member", 2)], b"b"];
    let s = [any_score("s1"), any_score("s2")];
    let (nx, gt) = any_opts();
    let mut n = 0;
    for i in 0..2 {
        n += model_add(&mut m, ks[i], s[i], nx, gt).0;
    }
    let r = add(db, vec![node(ks[0], s[0]), node(ks[1], s[1])], nx, gt, false).unwrap();
    vs::check(r.new_len - r.old_len == n, "ZADD of several pairs counts the added members");
    holds(db, b"k", &m, "after ZADD of two pairs");
    vs::reach("end");
}
fn zadd_incr(db: &Arc<Db>) {
    let mut m = fill(db, &[b"a", b"b"], &[any_score("sa"), 1.0]);
    let k: &[u8] = [b"a", b"c"][vs::choice("member", 2)];
    let s = any_score("s");
    let nx = [NxXx::None, NxXx::Nx, NxXx::Xx][vs::choice("nx", 3)];
    let old = score(&m, k);
    let new = old.map_or(s, |o| s + o);
    let r = add(db, vec![node(k, s)], nx, GtLt::None, true);
    let skip = if old.is_some() { nx.is_nx() } else { nx.is_xx() };
    if new.is_nan() {
        vs::check(skip || r.is_err(), "an increment to NaN is refused");
        vs::reach("nan");
    } else {
        vs::check(r.is_ok(), "ZADD INCR succeeds");
        if !skip {
            put(&mut m, k, new);
        }
        vs::reach("end");
    }
    holds(db, b"k", &m, "after ZADD INCR");
}
fn zset_history(db: &Arc<Db>) {
    let mut m = Model::new();
    let ks: [&[u8]; 3] = [b"a", b"b", b"c"];
    for _ in 0..vs::bound(3, 4) {
        let op = vs::choice("op", 9);
        let k = if op <= 4 { ks[vs::choice("member", 3)] } else { ks[0] };
        match op {
            0 | 1 | 2 => {
                let (t, s) = [("1", 1.0), ("2", 2.0), ("-1.5e1", -15.0)][op];
                let (n, _) = model_add(&mut m, k, s, NxXx::None, GtLt::None);
                vs::check(c!(db, "ZADD", "k", t, k).is_int(n as i64), "ZADD replies the number of added members");
            }
            3 => {
                let new = score(&m, k).map_or(1.0, |o| o + 1.0);
                c!(db, "ZADD", "k", "INCR", "1", k);
                put(&mut m, k, new);
            }
            4 => {
                let n = m.len();
                m.retain(|x| x.0 != k);
                vs::check(c!(db, "ZREM", "k", k, "zz").is_int((n - m.len()) as i64), "ZREM replies the number of removed members");
            }
            5 => {
                let r = c!(db, "ZREMRANGEBYRANK", "k", 0, 0);
                let n = m.len().min(1);
                m.drain(..n);
                vs::check(r.is_int(n as i64), "ZREMRANGEBYRANK replies the number of removed members");
            }
            6 => {
                let r = c!(db, "ZREMRANGEBYSCORE", "k", "(1", "2");
                let n = m.len();
                m.retain(|x| !(x.1 > 1.0 && x.1 <= 2.0));
                vs::check(r.is_int((n - m.len()) as i64), "ZREMRANGEBYSCORE replies the number of removed members");
            }
            7 => {
                let (a, _) = model_add(&mut m, b"a", 2.0, NxXx::None, GtLt::Gt);
                let (b, _) = model_add(&mut m, b"b", 2.0, NxXx::None, GtLt::Gt);
                vs::check(c!(db, "zadd", "k", "gt", "2", "a", "2", "b").is_int((a + b) as i64), "ZADD GT replies the number of added members");
            }
            _ => {
                let (_, a) = model_add(&mut m, b"b", 0.0, NxXx::Xx, GtLt::None);
                let (_, b) = model_add(&mut m, b"c", 0.0, NxXx::Xx, GtLt::None);
                vs::check(c!(db, "ZADD", "k", "XX", "CH", "0", "b", "-0", "c").is_int((a + b) as i64), "ZADD XX CH replies the number of changed members");
            }
        }
    }
    holds(db, b"k", &m, "at the end");
    vs::check(c!(db, "EXISTS", "k").is_int((!m.is_empty()).into()), "a sorted set exists exactly while it has members");
    vs::reach("end");
}
const SCORES: [(&str, f64); 6] = [("3", 3.0), ("1", 1.0), ("-2.5", -2.5), ("inf", f64::INFINITY), ("-Inf", f64::NEG_INFINITY), ("1e3", 1000.0)];
fn zadd_text(db: &Arc<Db>) {
    let mut m = fill(db, &[b"a"], &[1.0]);
    let (nx, gt) = any_opts();
    let ch = vs::flag("ch");
    let (t, s) = SCORES[vs::choice("score", SCORES.len())];
    let k: &[u8] = [b"a", b"b"][vs::choice("member", 2)];
    let mut a: Vec<A> = vec!["ZADD".into(), "k".into()];
    if nx.is_nx() {
        a.push("NX".into());
    }
    if nx.is_xx() {
        a.push("xx".into());
    }
    match gt {
        GtLt::Gt => a.push("gt".into()),
        GtLt::Lt => a.push("LT".into()),
        GtLt::None => {}
    }
    if ch {
        a.push("CH".into());
    }
    a.push(t.into());
    a.push(k.into());
    let (added, changed) = model_add(&mut m, k, s, nx, gt);
    let r = cmd(db, &a);
    vs::check(r.is_int(if ch { changed } else { added } as i64), "ZADD replies the number of added (CH: changed) members");
    holds(db, b"k", &m, "after ZADD");
    vs::reach("end");
}
fn zadd_nan(db: &Arc<Db>) {
    let m = fill(db, &[b"a"], &[f64::INFINITY]);
    match vs::choice("how", 6) {
        5 => vs::check(c!(db, "ZADD", "k", "INCR", "-inf", "a").is_err(), "an increment to NaN is refused"),
        i => vs::check(c!(db, "ZADD", "k", ["nan", "NaN", "-nan", "+NAN", ""][i], "a").is_err(), "a score that is no number is refused"),
    }
    holds(db, b"k", &m, "after a refused ZADD");
    vs::reach("end");
}

fn any_bound(n: &str) -> Bound<Float> {
    match vs::choice(n, 3) {
        0 => Bound::Included(Float(any_score(n))),
        1 => Bound::Excluded(Float(any_score(n))),
        _ => Bound::Unbounded,
    }
}
fn within(s: f64, lo: &Bound<Float>, hi: &Bound<Float>) -> bool {
    (match lo {
        Bound::Included(x) => s >= x.0,
        Bound::Excluded(x) => s > x.0,
        Bound::Unbounded => true,
    }) && match hi {
        Bound::Included(x) => s <= x.0,
        Bound::Excluded(x) => s < x.0,
        Bound::Unbounded => true,
    }
}
fn is_nodes(got: &[Node], want: &[&(Vec<u8>, f64)], what: &str) {
    vs::check(got.len() == want.len(), &format!("{what}: as many members as the range has"));
    for (g, w) in got.iter().zip(want) {
        vs::check(vs::and(vs::eq(&g.key, &w.0), g.score.0 == w.1), &format!("{what}: the members of the range in order, with their scores"));
    }
}
fn three(db: &Arc<Db>, n: usize) -> Model {
    let s: Vec<f64> = (0..n).map(|_| any_score("score")).collect();
    let k: [&[u8]; 4] = [b"a", b"b", b"c", b"d"];
    fill(db, &k[..n], &s)
}
/// Number of members, and how freely their scores vary.
fn some(db: &Arc<Db>) -> Model {
    let n = vs::bound(1, 2);
    if vs::flag("more") {
        COARSE.store(true, std::sync::atomic::Ordering::Relaxed);
        return three(db, n + 1);
    }
    three(db, n)
}
fn zrange_score(db: &Arc<Db>) {
    let m = some(db);
    let (lo, hi) = (any_bound("lo"), any_bound("hi"));
    let rev = vs::flag("rev");
    let got = db
        .sorted_set_range_by_score(z::range_by_score::Req { key: b"k", range: (lo, hi), limit: Limit::None, rev })
        .unwrap();
    let mut want: Vec<_> = m.iter().filter(|x| within(x.1, &lo, &hi)).collect();
    if rev {
        want.reverse();
    }
    is_nodes(&got, &want, "range by score");
    vs::reach("end");
}
fn zrange_limit(db: &Arc<Db>) {
    let by = vs::choice("by", 3);
    // equal scores for the lex range
    let m = fill(db, &[b"a", b"b", b"c"], if by == 2 { &[5.0; 3] } else { &[1.0, 2.0, 3.0] });
    let (o, n) = (vs::any_i64("offset"), vs::any_i64("count"));
    let limit = Limit::Limit(o, n);
    let rev = vs::flag("rev");
    let got = match by {
        0 => db.sorted_set_range_by_rank(z::range_by_rank::Req { key: b"k", start: 0, stop: -1, limit, rev }),
        1 => db.sorted_set_range_by_score(z::range_by_score::Req { key: b"k", range: (Bound::Unbounded, Bound::Unbounded), limit, rev }),
        _ => db.sorted_set_range_by_lex(z::range_by_lex::Req { key: b"k", range: (Bound::Unbounded, Bound::Unbounded), limit, rev }),
    }
    .unwrap();
    let mut want: Vec<_> = m.iter().collect();
    if rev {
        want.reverse();
    }
    let want: Vec<_> = want
        .into_iter()
        .enumerate()
        .filter(|(i, _)| {
            let i = *i as i64;
            // a negative count is no limit
            o >= 0 && i >= o && (n < 0 || i - o < n)
        })
        .map(|x| x.1)
        .collect();
    is_nodes(&got, &want, "LIMIT");
    vs::reach("end");
}
/// The ranks between start and stop, counted from either end.
fn ranks(a: i64, b: i64, len: usize) -> Vec<usize> {
    let l = len as i128;
    let fix = |x: i64| if x < 0 { i128::from(x) + l } else { i128::from(x) };
    let (a, b) = (fix(a), fix(b));
    (0..len).filter(|i| *i as i128 >= a && *i as i128 <= b).collect()
}
fn zrange_rank(db: &Arc<Db>) {
    let n = vs::choice("len", vs::bound(4, 5));
    let m = fill(db, &[&b"a"[..], b"b", b"c", b"d"][..n], &[1.0, 2.0, 2.0, -1.0][..n]);
    let (a, b) = (vs::any_i64("start"), vs::any_i64("stop"));
    let rev = vs::flag("rev");
    let got = db.sorted_set_range_by_rank(z::range_by_rank::Req { key: b"k", start: a, stop: b, limit: Limit::None, rev }).unwrap();
    let mut all: Vec<_> = m.iter().collect();
    if rev {
        all.reverse();
    }
    let want: Vec<_> = ranks(a, b, n).into_iter().map(|i| all[i]).collect();
    is_nodes(&got, &want, "range by rank");
    vs::reach("end");
}
fn any_lex(n: &str) -> Bound<Vec<u8>> {
    match vs::choice(n, 3) {
        0 => Bound::Included(vs::bytes(n, 1)),
        1 => Bound::Excluded(vs::bytes(n, 1)),
        _ => Bound::Unbounded,
    }
}
fn lex_within(k: &[u8], lo: &Bound<Vec<u8>>, hi: &Bound<Vec<u8>>) -> bool {
    (match lo {
        Bound::Included(x) => *k >= x[..],
        Bound::Excluded(x) => *k > x[..],
        Bound::Unbounded => true,
    }) && match hi {
        Bound::Included(x) => *k <= x[..],
        Bound::Excluded(x) => *k < x[..],
        Bound::Unbounded => true,
    }
}
fn borrow(b: &Bound<Vec<u8>>) -> Bound<&[u8]> {
    match b {
        Bound::Included(x) => Bound::Included(x),
        Bound::Excluded(x) => Bound::Excluded(x),
        Bound::Unbounded => Bound::Unbounded,
    }
}
/// Three distinct one-byte members in order, one score.
fn lex_three(db: &Arc<Db>) -> Model {
    let k: Vec<Vec<u8>> = (0..3).map(|_| vs::bytes("member", 1)).collect();
    vs::assume(k[0][0] < k[1][0] && k[1][0] < k[2][0]);
    fill(db, &[&k[1], &k[0], &k[2]], &[4.0; 3])
}
fn zrange_lex(db: &Arc<Db>) {
    let m = lex_three(db);
    let (lo, hi) = (any_lex("lo"), any_lex("hi"));
    let rev = vs::flag("rev");
    let got = db
        .sorted_set_range_by_lex(z::range_by_lex::Req { key: b"k", range: (borrow(&lo), borrow(&hi)), limit: Limit::None, rev })
        .unwrap();
    let mut want: Vec<_> = m.iter().filter(|x| lex_within(&x.0, &lo, &hi)).collect();
    if rev {
        want.reverse();
    }
    is_nodes(&got, &want, "range by lex");
    vs::reach("end");
}
fn zrank_any(db: &Arc<Db>) {
    let m = three(db, 3);
    for (i, x) in m.iter().enumerate() {
        vs::check(c!(db, "ZRANK", "k", &x.0).is_int(i as i64), "ZRANK is the position from the lowest score");
        vs::check(c!(db, "zrevrank", "k", &x.0).is_int(2 - i as i64), "ZREVRANK is the position from the highest score");
    }
    vs::check(c!(db, "ZRANK", "k", "zz").is_nil(), "ZRANK of an absent member is nil");
    vs::check(c!(db, "ZREVRANK", "no", "a").is_nil(), "ZREVRANK of an absent key is nil");
    vs::reach("end");
}
const BOUNDS: [(&str, Bound<f64>); 9] = [
    ("-inf", Bound::Unbounded),
    ("+inf", Bound::Unbounded),
    ("1", Bound::Included(1.0)),
    ("(1", Bound::Excluded(1.0)),
    ("2", Bound::Included(2.0)),
    ("(2.0", Bound::Excluded(2.0)),
    ("1.5e0", Bound::Included(1.5)),
    ("(3", Bound::Excluded(3.0)),
    ("(-inf", Bound::Excluded(f64::NEG_INFINITY)),
];
const LEX: [(&str, Bound<&str>); 7] = [
    ("-", Bound::Unbounded),
    ("+", Bound::Unbounded),
    ("[b", Bound::Included("b")),
    ("(b", Bound::Excluded("b")),
    ("[bb", Bound::Included("bb")),
    ("(c", Bound::Excluded("c")),
    ("[", Bound::Included("")),
];
/// "+inf" as the lower bound excludes everything, "-inf" as the upper one too.
fn score_in(s: f64, lo: usize, hi: usize) -> bool {
    lo != 1
        && hi != 0
        && hi != 8
        && (match BOUNDS[lo].1 {
            Bound::Included(x) => s >= x,
            Bound::Excluded(x) => s > x,
            Bound::Unbounded => true,
        })
        && match BOUNDS[hi].1 {
            Bound::Included(x) => s <= x,
            Bound::Excluded(x) => s < x,
            Bound::Unbounded => true,
        }
}
fn lex_in(k: &[u8], lo: usize, hi: usize) -> bool {
    (match LEX[lo].1 {
        Bound::Included(x) => k >= x.as_bytes(),
        Bound::Excluded(x) => k > x.as_bytes(),
        Bound::Unbounded => true,
    }) && match LEX[hi].1 {
        Bound::Included(x) => k <= x.as_bytes(),
        Bound::Excluded(x) => k < x.as_bytes(),
        Bound::Unbounded => true,
    }
}
fn number(r: &Rep) -> Option<f64> {
    std::str::from_utf8(r.str()).ok()?.parse().ok()
}
fn zrange_text(db: &Arc<Db>) {
    let by = vs::choice("by", 3);
    let m = fill(db, &[b"a", b"b", b"c"], if by == 1 { &[5.0; 3] } else { &[1.0, 2.0, 3.0] });
    let rev = vs::flag("rev");
    let new = vs::flag("ZRANGE");
    let (want, lo, hi): (Vec<&(Vec<u8>, f64)>, &str, &str) = match by {
        0 => {
            let (lo, hi) = (vs::choice("lo", 9), vs::choice("hi", 9));
            (m.iter().filter(|x| score_in(x.1, lo, hi)).collect(), BOUNDS[lo].0, BOUNDS[hi].0)
        }
        1 => {
            // "+" as the lower or "-" as the upper bound: left open
            let (lo, hi) = ([0, 2, 3, 4, 5, 6][vs::choice("lo", 6)], 1 + vs::choice("hi", 6));
            (m.iter().filter(|x| lex_in(&x.0, lo, hi)).collect(), LEX[lo].0, LEX[hi].0)
        }
        _ => {
            let t = ["0", "1", "-1", "-2", "7"];
            let (a, b) = (t[vs::choice("lo", 5)], t[vs::choice("hi", 5)]);
            let all: Vec<_> = if rev { m.iter().rev().collect() } else { m.iter().collect() };
            (ranks(a.parse().unwrap(), b.parse().unwrap(), 3).into_iter().map(|i| all[i]).collect(), a, b)
        }
    };
    let want: Vec<_> = if rev && by != 2 { want.into_iter().rev().collect() } else { want };
    let scores = by != 1 && vs::flag("scores");
    let (first, second) = if rev && by != 2 { (hi, lo) } else { (lo, hi) };
    let mut a: Vec<A> = if new {
        let mut a: Vec<A> = vec!["ZRANGE".into(), "k".into(), first.into(), second.into()];
        match by {
            0 => a.push("BYSCORE".into()),
            1 => a.push("bylex".into()),
            _ => {}
        }
        if rev {
            a.push("REV".into());
        }
        a
    } else {
        let name = match (by, rev) {
            (0, false) => "ZRANGEBYSCORE",
            (0, true) => "ZREVRANGEBYSCORE",
            (1, false) => "ZRANGEBYLEX",
            (1, true) => "zrevrangebylex",
            (_, false) => "ZRANGE",
            (_, true) => "ZREVRANGE",
        };
        vec![name.into(), "k".into(), first.into(), second.into()]
    };
    if scores {
        a.push("WITHSCORES".into());
    }
    let r = cmd(db, &a);
    let got = r.arr();
    vs::check(matches!(r, Rep::Arr(_)), "a range command replies an array");
    let per = if scores { 2 } else { 1 };
    vs::check(got.len() == want.len() * per, "a range command replies exactly the members of the range");
    for (g, w) in got.chunks(per).zip(want) {
        vs::check(g[0].is(&w.0), "a range command replies the members in order");
        if scores {
            vs::check(number(&g[1]) == Some(w.1), "WITHSCORES replies each member's score");
        }
    }
    vs::reach("end");
}

fn removed(got: &[Node], m: &mut Model, out: impl Fn(&(Vec<u8>, f64)) -> bool, what: &str) {
    let want: Vec<_> = m.iter().filter(|x| out(x)).collect();
    vs::check(got.len() == want.len(), &format!("{what} replies the number of members in the range"));
    m.retain(|x| !out(x));
}
fn zrem_score(db: &Arc<Db>) {
    let mut m = some(db);
    let (lo, hi) = (any_bound("lo"), any_bound("hi"));
    let got = db
        .sorted_set_remove_by_score_range(z::remove_by_score_range::Req { key: b"k"[..].into(), range: (lo, hi), rev: false })
        .unwrap();
    removed(&got, &mut m, |x| within(x.1, &lo, &hi), "removal by score");
    holds(db, b"k", &m, "after removal by score");
    vs::reach("end");
}
fn zrem_rank(db: &Arc<Db>) {
    let n = vs::choice("len", 4);
    let mut m = fill(db, &[&b"a"[..], b"b", b"c"][..n], &[1.0, 2.0, 2.0][..n]);
    let (a, b) = (vs::any_i64("start"), vs::any_i64("stop"));
    let r = c!(db, "ZREMRANGEBYRANK", "k", a, b);
    let out = ranks(a, b, n);
    vs::check(r.is_int(out.len() as i64), "ZREMRANGEBYRANK replies the number of ranks in the range");
    for i in out.into_iter().rev() {
        m.remove(i);
    }
    holds(db, b"k", &m, "after removal by rank");
    vs::reach("end");
}
fn zrem_lex(db: &Arc<Db>) {
    let mut m = lex_three(db);
    let (lo, hi) = (any_lex("lo"), any_lex("hi"));
    let own = |b: &Bound<Vec<u8>>| match b {
        Bound::Included(x) => Bound::Included(x.clone().into_boxed_slice()),
        Bound::Excluded(x) => Bound::Excluded(x.clone().into_boxed_slice()),
        Bound::Unbounded => Bound::Unbounded,
    };
    let got = db
        .sorted_set_remove_by_lex_range(z::remove_by_lex_range::Req { key: b"k"[..].into(), range: (own(&lo), own(&hi)), rev: false })
        .unwrap();
    removed(&got, &mut m, |x| lex_within(&x.0, &lo, &hi), "removal by lex");
    holds(db, b"k", &m, "after removal by lex");
    vs::reach("end");
}
fn zrem_members(db: &Arc<Db>) {
    let mut m = three(db, 3);
    let (x, y) = (vs::bytes("x", 1), vs::bytes("y", 1));
    let r = c!(db, "ZREM", "k", &x, &y);
    let n = m.len();
    m.retain(|e| !vs::same(&e.0, &x) && !vs::same(&e.0, &y));
    vs::check(r.is_int((n - m.len()) as i64), "ZREM replies the number of removed members");
    holds(db, b"k", &m, "after ZREM");
    vs::reach("end");
}
fn zrem_text(db: &Arc<Db>) {
    let lex = vs::flag("lex");
    let mut m = fill(db, &[b"a", b"b", b"c"], if lex { &[5.0; 3] } else { &[1.0, 2.0, 3.0] });
    let n = m.len();
    let r = if lex {
        let (lo, hi) = ([0, 2, 3, 4, 5, 6][vs::choice("lo", 6)], 1 + vs::choice("hi", 6));
        m.retain(|x| !lex_in(&x.0, lo, hi));
        c!(db, "ZREMRANGEBYLEX", "k", LEX[lo].0, LEX[hi].0)
    } else {
        let (lo, hi) = (vs::choice("lo", 9), vs::choice("hi", 9));
        m.retain(|x| !score_in(x.1, lo, hi));
        c!(db, "zremrangebyscore", "k", BOUNDS[lo].0, BOUNDS[hi].0)
    };
    vs::check(r.is_int((n - m.len()) as i64), "a range removal replies the number of removed members");
    holds(db, b"k", &m, "after a range removal");
    vs::check(c!(db, "EXISTS", "k").is_int((!m.is_empty()).into()), "an emptied sorted set is removed");
    vs::reach("end");
}
