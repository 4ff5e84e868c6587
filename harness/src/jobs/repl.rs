//! Leader and follower: what is forwarded, how it is applied, and flushing.
use crate::{c, job, r::*, table::*, vs, Job, NOW0};
use common::options::{GtLt, NxXx};
use db::{expire, forward, forward::Message, slot::Slot, Db};
use dict::{cmd::WriteCmd, data_type::DataType, Dict};
use std::{cmp::Ordering, sync::Arc};

pub const JOBS: &[Job] = &[
    job!("C23", "each_write", Db |_| each_write(), "45 write commands on 6 kinds of value or none, deadline ahead, passed or none: follower equal in value, deadline and position"),
    job!("C23", "pairs", Db |_| pairs(), "two write commands in a row on the kind of value they work on (thorough: on all kinds), deadline ahead, passed or none"),
    job!("C23", "follow_any_int", Db |_| any_int(), "45 write commands with one argument any 64-bit integer (where none is expected: 7 or the least)"),
    job!("C23", "follow_any_bytes", Db |_| any_bytes(), "45 write commands with one argument of 0..2 (sorted sets: 1, thorough 2) arbitrary bytes"),
    job!("C23", "follow_set_options", Db |_| set_options(), "SET with every combination of NX/XX, GET, and EX/PX/EXAT/PXAT/KEEPTTL with any 64-bit number, on a dated or undated value of 2 kinds or none"),
    job!("C23", "expire_options", Db |_| expire_options(), "EXPIRE family with NX/XX/GT/LT and any 64-bit number on a value with any deadline or none"),
    job!("C23", "scores", Db |_| scores(), "ZADD with every option combination and any 64-bit floating-point scores on two members, or fixed ones and then ZREMRANGEBYSCORE with any bounds"),
    job!("C23", "restore", Db |_| restore(), "RESTORE of 6 kinds with any TTL, ABSTTL, REPLACE, IDLETIME and FREQ over a value or none"),
    job!("C23", "many_keys", Db |_| many_keys(), "DEL and FLUSHALL over keys of several slots, then further writes"),
    job!("C23", "reclaimed", Db |_| reclaimed(), "45 write commands on an expired key that only one of the two has reclaimed: equal as far as a client can see"),
    job!("C23", "late", Db |_| late(), "45 write commands on a dated value, with any deadline, applied by the follower at once or 1 ms .. 35 years later: equal in what a client can see"),
    job!("C24", "next_only", Db |_| next_only(), "21 messages with any id at a follower of any position: applied exactly when next, otherwise reported and without effect"),
    job!("C24", "deliveries", Db |_| deliveries(), "4 writes of different kinds, delivered in every order with repetitions and losses, 4 (thorough 6) deliveries: the state is always the leader's after the position held"),
    job!("C24", "two_slots", Db |_| two_slots(), "writes to keys of two slots, delivered in every interleaving: each slot has its own order"),
    job!("C24", "rejoin", Db |_| rejoin(), "a follower that missed messages takes the leader's slot at its position: older messages are ignored, later ones apply"),
    job!("C25", "flush_empties", Db |_| flush_empties(), "6 kinds of value or none, any deadline or none, in two of three slots: nothing is left on leader and follower, positions go on"),
    job!("C25", "flush_then_write", Db |_| flush_then_write(), "FLUSHALL and one of 45 write commands: as on a fresh database, on leader and follower"),
    job!("C25", "flush_real", Async |db| Box::pin(flush_real(db)), "FLUSHALL with and without SYNC on the full database with keys in the first, the last and two other slots, of 2 kinds, dated or not"),
    job!("C25", "every_slot", Async |db| Box::pin(every_slot(db)), "a value in each of the 16384 slots, some with any deadline, then FLUSHALL with and without SYNC: every slot is empty"),
    job!("C25", "old_deadlines", Async |db| Box::pin(old_deadlines(db)), "a key flushed with a deadline and stored again with another deadline or none, FLUSHALL with or without SYNC, before or after the expiry task knows: lives and dies by the new deadline"),
];

/// Keys of slots 0, 1 and 2.
pub const S0: &[u8] = b"{la2}k";
pub const S0B: &[u8] = b"{la2}other";
pub const S1: &[u8] = b"{emj}k";
pub const S2: &[u8] = b"{sd7}k";
pub const KEYS: [&[u8]; 4] = [S0, S0B, S1, S2];
pub const KEY_SLOT: [usize; 4] = [0, 0, 1, 2];

/// A database of three slots and what its slots send to the background tasks.
pub struct Side<E, F> {
    pub db: Arc<Db>,
    expire: Vec<E>,
    forward: Vec<F>,
    dates: Vec<(usize, Vec<u8>, u64)>,
}
pub fn new_side() -> Side<impl FnMut() -> Option<expire::Message>, impl FnMut() -> Option<Message>> {
    let (mut slots, mut es, mut fs): (Vec<Slot>, _, _) = (vec![], vec![], vec![]);
    for i in 0..3 {
        let (s, e, f) = db::verif::lone_slot(i);
        slots.push(s);
        es.push(move || e.try_recv().ok());
        fs.push(move || f.try_recv().ok());
    }
    Side { db: Arc::new(Db { slots, expiration_data: Default::default() }), expire: es, forward: fs, dates: vec![] }
}
impl<E: FnMut() -> Option<expire::Message>, F: FnMut() -> Option<Message>> Side<E, F> {
    /// The messages forwarded so far, slot by slot, as they arrive over the wire.
    pub fn messages(&mut self) -> Vec<Message> {
        let mut r = vec![];
        for f in &mut self.forward {
            while let Some(m) = f() {
                r.push(over_the_wire(&m));
            }
        }
        r
    }
    /// Forget what was sent to the expiry task.
    pub fn clear(&mut self) {
        for e in &mut self.expire {
            while e().is_some() {}
        }
    }
    /// The last deadline the expiry task would hold for this key.
    pub fn due(&mut self, key: &[u8]) -> u64 {
        self.learn();
        self.dates.iter().filter(|d| &*d.1 == key).map(|d| d.2).max().unwrap_or(0)
    }
    /// Does the expiry task hold this deadline of the key?  (It may hold others: it compares
    /// them with the key's when they come up.)
    pub fn holds(&mut self, key: &[u8], date: u64) -> bool {
        self.learn();
        self.dates.iter().any(|d| &*d.1 == key && d.2 == date)
    }
    /// Takes all that was sent to the expiry task.
    fn learn(&mut self) {
        for (i, e) in self.expire.iter_mut().enumerate() {
            while let Some(m) = e() {
                match m {
                    expire::Message::Update(u) => {
                        self.dates.retain(|d| !(d.0 == i && *d.1 == *u.status.key && d.2 == u.status.before));
                        if u.status.new > 0 {
                            self.dates.push((i, u.status.key.to_vec(), u.status.new));
                        }
                    }
                    expire::Message::BatchAdd(v) => {
                        for x in v {
                            self.dates.push((x.slot, x.key.to_vec(), x.expires_at));
                        }
                    }
                    expire::Message::Clear(s) => self.dates.retain(|d| d.0 != s),
                    _ => {}
                }
            }
        }
    }
    /// Does the expiry task learn of this key's deadline?
    pub fn dated(&mut self, key: &[u8]) -> u64 {
        let mut d = 0;
        for e in &mut self.expire {
            while let Some(m) = e() {
                if let expire::Message::Update(u) = m {
                    if &*u.status.key == key {
                        d = u.status.new;
                    }
                }
            }
        }
        d
    }
}
pub fn over_the_wire(m: &Message) -> Message {
    match bincode::serialize(m) {
        Ok(b) => {
            let mut r = &b[..];
            match bincode::deserialize_from::<_, Message>(&mut r) {
                Ok(m) => {
                    vs::check(r.is_empty(), "a message is read to its end");
                    return m;
                }
                Err(e) => std::mem::forget(e),
            }
        }
        Err(e) => std::mem::forget(e),
    }
    vs::check(false, "a message survives the wire");
    Message::none()
}
pub fn deliver(f: &Arc<Db>, m: Message) -> Ordering {
    f.slots[m.slot].process_forward(m.id, m.cmd)
}
pub fn position(db: &Arc<Db>, slot: usize) -> u64 {
    db.slots[slot].share_status.lock().as_ref().unwrap().dict.last_write_op_id()
}
/// Everything held for the test's keys, and the positions.
pub type State = (Vec<Option<(DataType, u64)>>, Vec<(u64, usize)>);
pub fn whole(db: &Arc<Db>) -> State {
    (
        KEYS.iter().map(|k| raw(db, k)).collect(),
        db.slots.iter().map(|s| {
            let l = s.share_status.lock();
            let d = &l.as_ref().unwrap().dict;
            (d.last_write_op_id(), d.len())
        }).collect(),
    )
}
pub fn alike(a: &State, b: &State, when: &str) {
    for i in 0..KEYS.len() {
        vs::check(a.0[i].is_some() == b.0[i].is_some(), &format!("{when}: both hold the same keys"));
        if let (Some(x), Some(y)) = (&a.0[i], &b.0[i]) {
            vs::check(x.1 == y.1, &format!("{when}: both have the same deadline"));
            vs::check(x.0 == y.0, &format!("{when}: both hold the same value"));
        }
    }
    for i in 0..3 {
        vs::check(a.1[i].1 == b.1[i].1, &format!("{when}: both hold the same number of keys"));
        vs::check(a.1[i].0 == b.1[i].0, &format!("{when}: both are at the same position"));
    }
}
/// Run `f` on a leader, its messages on a follower, and compare.
fn mirror(f: impl FnOnce(&Arc<Db>), when: &str) {
    let (mut l, fo) = (new_side(), new_side());
    f(&l.db);
    for m in l.messages() {
        vs::check(deliver(&fo.db, m) == Ordering::Equal, &format!("{when}: every message is the next one"));
    }
    alike(&whole(&l.db), &whole(&fo.db), when);
    vs::reach("end");
}
fn any_write() -> &'static Op {
    let n = OPS.iter().filter(|o| o.write).count();
    let i = vs::choice("op", n);
    OPS.iter().filter(|o| o.write).nth(i).unwrap()
}
fn now1() {
    vs::set_now(NOW0 + 1_000_000);
}
/// No deadline, any deadline ahead of the clock that `now1` sets, or one that has passed by then.
fn date(db: &Arc<Db>, k: &[u8]) {
    match vs::choice("date", 3) {
        0 => {}
        i => {
            let d = vs::any_i64("deadline");
            vs::assume(d > NOW0 as i64 && (d > NOW0 as i64 + 1_000_000) == (i == 1));
            c!(db, "PEXPIREAT", k, d);
        }
    }
}
fn setup(db: &Arc<Db>) {
    let kind = vs::choice("kind", KINDS + 1);
    if kind < KINDS {
        make(db, S0, kind);
        date(db, S0);
    }
    now1();
}
fn each_write() {
    let o = any_write();
    mirror(|db| {
        setup(db);
        apply(db, o, S0);
    }, o.name);
}
fn kind_for(o: &Op) -> usize {
    match o.needs {
        Needs::Any | Needs::Scalar => LIST,
        Needs::Counter => INTEGER,
        Needs::List => LIST,
        Needs::Hash => HASH,
        Needs::Set => SET,
        Needs::Zset => ZSET,
    }
}
fn pairs() {
    let o = any_write();
    let n = OPS.iter().filter(|o| o.write).count();
    let i = vs::choice("second", n);
    let p = OPS.iter().filter(|o| o.write).nth(i).unwrap();
    let kind = if vs::thorough() { any_kind() } else { kind_for(o) };
    if !vs::thorough() && p.needs != o.needs && p.needs != Needs::Any && o.needs != Needs::Any {
        return;
    }
    mirror(|db| {
        make(db, S0, kind);
        if vs::thorough() {
            date(db, S0);
        } else {
            c!(db, "PEXPIREAT", S0, NOW0 as i64 + 500_000 + 1_000_000 * vs::choice("date", 2) as i64);
        }
        now1();
        apply(db, o, S0);
        apply(db, p, S0);
    }, "two writes");
}
fn args_of<'a>(o: &'a Op, k: &'a [u8]) -> Vec<A<'a>> {
    let mut a: Vec<A> = vec![o.name.into(), k.into()];
    a.extend(o.args.iter().map(|x| A::from(*x)));
    a
}
fn any_int() {
    let o = any_write();
    if o.args.is_empty() {
        return;
    }
    let i = 2 + vs::choice("which", o.args.len());
    let text = o.name.starts_with('Z') && o.name != "ZREMRANGEBYRANK";
    let x = if !text && o.args[i - 2].parse::<i64>().is_ok() {
        vs::any_i64("arg")
    } else {
        [7, i64::MIN][vs::choice("arg", 2)]
    };
    mirror(|db| {
        make(db, S0, kind_for(o));
        let mut a = args_of(o, S0);
        a[i] = x.into();
        cmd(db, &a);
    }, o.name);
}
fn any_bytes() {
    let o = any_write();
    if o.args.is_empty() {
        return;
    }
    let i = 2 + vs::choice("which", o.args.len());
    let n = if o.needs == Needs::Zset { vs::bound(1, 2) } else { 2 };
    let b = vs::blob("arg", 0, n);
    mirror(|db| {
        make(db, S0, kind_for(o));
        let mut a = args_of(o, S0);
        a[i] = (&b).into();
        cmd(db, &a);
    }, o.name);
}
fn set_options() {
    let (when, get, exp) = (vs::choice("nx xx", 3), vs::flag("get"), vs::choice("expiry", 6));
    let n = vs::any_i64("number");
    mirror(|db| {
        let kind = vs::choice("kind", 3);
        if kind > 0 {
            make(db, S0, [STRING, LIST][kind - 1]);
            date(db, S0);
        }
        now1();
        let mut a: Vec<A> = vec!["SET".into(), S0.into(), "new".into()];
        if when > 0 {
            a.push(["NX", "XX"][when - 1].into());
        }
        if get {
            a.push("GET".into());
        }
        if exp == 5 {
            a.push("KEEPTTL".into());
        } else if exp > 0 {
            a.push(["EX", "PX", "EXAT", "PXAT"][exp - 1].into());
            a.push(n.into());
        }
        cmd(db, &a);
    }, "SET with options");
}
fn expire_options() {
    let name = ["EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT"][vs::choice("name", 4)];
    let opt = vs::choice("option", 7);
    let n = vs::any_i64("number");
    mirror(|db| {
        make(db, S0, STRING);
        date(db, S0);
        now1();
        let mut a: Vec<A> = vec![name.into(), S0.into(), n.into()];
        match opt {
            0 => {}
            5 => a.extend([A::from("XX"), A::from("GT")]),
            6 => a.extend([A::from("XX"), A::from("LT")]),
            i => a.push(["NX", "XX", "GT", "LT"][i - 1].into()),
        }
        cmd(db, &a);
    }, "EXPIRE with options");
}
/// A score that is a number.
fn score(name: &str) -> f64 {
    let s = vs::any_f64(name);
    vs::assume(s == s);
    s
}
fn scores() {
    use dict::cmd::sorted_set::{add, remove_by_score_range};
    use dict::data_type::sorted_set::Node;
    let nx_xx = [NxXx::None, NxXx::Nx, NxXx::Xx][vs::choice("nx xx", 3)].clone();
    let gt_lt = [GtLt::None, GtLt::Gt, GtLt::Lt][vs::choice("gt lt", 3)].clone();
    let incr = vs::flag("incr");
    let bounds = vs::flag("range").then(|| (score("low"), score("high"), vs::choice("bounds", 4)));
    let (a, b) = if bounds.is_some() { (1.5, f64::NEG_INFINITY) } else { (score("a"), score("b")) };
    mirror(|db| {
        make(db, S0, ZSET);
        let mut nodes = vec![Node::new(b"m"[..].into(), a)];
        if !incr {
            nodes.push(Node::new(b"q"[..].into(), b));
        }
        if let Err(e) = db.sorted_set_add(add::Req { key: S0.into(), nodes, nx_xx, gt_lt, incr }) {
            std::mem::forget(e);
        }
        if let Some((lo, hi, how)) = bounds {
            use std::ops::Bound::*;
            let range = (
                if how & 1 == 0 { Included(common::float::Float(lo)) } else { Excluded(common::float::Float(lo)) },
                if how & 2 == 0 { Included(common::float::Float(hi)) } else { Excluded(common::float::Float(hi)) },
            );
            if let Err(e) = db.sorted_set_remove_by_score_range(remove_by_score_range::Req { key: S0.into(), range, rev: false }) {
                std::mem::forget(e);
            }
        }
    }, "sorted set writes");
}
fn restore() {
    let kind = any_kind();
    let ttl = vs::any_i64("ttl");
    let (target, abs, replace, freq, idle) = (vs::choice("target", 3), vs::flag("abs"), vs::flag("replace"), vs::any_i64("freq"), vs::any_i64("idle"));
    let how = vs::choice("log", 3);
    mirror(|db| {
        make(db, S0B, kind);
        let p = match c!(db, "DUMP", S0B) {
            Rep::Str(p) => p,
            _ => return vs::check(false, "DUMP replies a payload"),
        };
        if target > 0 {
            make(db, S0, LIST);
            if target > 1 {
                c!(db, "PEXPIREAT", S0, NOW0 as i64 + 5000);
            }
        }
        let mut a: Vec<A> = vec!["RESTORE".into(), S0.into(), ttl.into(), (&p).into()];
        if abs {
            a.push("ABSTTL".into());
        }
        if replace {
            a.push("REPLACE".into());
        }
        match how {
            0 => {}
            1 => a.extend([A::from("FREQ"), freq.into()]),
            _ => a.extend([A::from("IDLETIME"), idle.into()]),
        }
        cmd(db, &a);
    }, "RESTORE");
}
fn many_keys() {
    let kinds = [vs::choice("first", KINDS + 1), vs::choice("second", 2) * 6];
    let what = vs::choice("what", 4);
    let o = any_write();
    mirror(|db| {
        for (k, kind) in [S0, S1].iter().zip(kinds) {
            if kind < KINDS {
                make(db, k, kind);
            }
        }
        match what {
            0 => c!(db, "DEL", S0, S1, S2),
            1 => c!(db, "DEL", S1, S1, S0B),
            2 => c!(db, "FLUSHALL"),
            _ => c!(db, "FLUSHALL", "SYNC"),
        };
        apply(db, o, S0);
        make(db, S1, LIST);
    }, "several keys");
}
fn reclaimed() {
    let o = any_write();
    let (mut l, fo) = (new_side(), new_side());
    let kind = any_kind();
    make(&l.db, S0, kind);
    let d = vs::any_i64("deadline");
    vs::assume(d > 0 && d <= NOW0 as i64 + 1_000_000);
    c!(&l.db, "PEXPIREAT", S0, d);
    for m in l.messages() {
        deliver(&fo.db, m);
    }
    now1();
    let drop_from = if vs::flag("on the leader") { &l.db } else { &fo.db };
    drop_from.slots[0].share_status.lock().as_mut().unwrap().dict.remove(S0);
    apply(&l.db, o, S0);
    for m in l.messages() {
        vs::check(deliver(&fo.db, m) == Ordering::Equal, "every message is the next one");
    }
    let now = NOW0 + 1_000_000;
    let (a, b) = (state(&l.db, S0, now), state(&fo.db, S0, now));
    vs::check(a == b, &format!("{}: both show the same value and deadline", o.name));
    vs::check(position(&l.db, 0) == position(&fo.db, 0), "both are at the same position");
    vs::reach("end");
}
/// The follower applies a write later than the leader made it.
fn late() {
    let o = any_write();
    let (mut l, fo) = (new_side(), new_side());
    let kind = any_kind();
    make(&l.db, S0, kind);
    let d = vs::any_i64("deadline");
    vs::assume(d > NOW0 as i64 + 1_000_000);
    c!(&l.db, "PEXPIREAT", S0, d);
    for m in l.messages() {
        deliver(&fo.db, m);
    }
    now1();
    apply(&l.db, o, S0);
    let later = NOW0 + 1_000_000 + [0, 1, 100_000, 100_001, 1 << 40][vs::choice("later", 5)];
    vs::set_now(later);
    let crossed = later >= d as u64;
    for m in l.messages() {
        vs::check(deliver(&fo.db, m) == Ordering::Equal, "every message is the next one");
    }
    let (a, b) = (state(&l.db, S0, later), state(&fo.db, S0, later));
    if crossed {
        vs::check(a == b, "KNOWN:C23-LATE: a write the leader made before a key's deadline and the follower applies after it leaves them different");
    } else {
        vs::check(a == b, &format!("{} applied later: both show the same value and deadline", o.name));
    }
    vs::reach("end");
}
/// Messages that differ in kind, each with an effect on the value of `kind` at S0.
fn message(i: usize, l: &Arc<Db>) -> usize {
    const M: [(usize, &[&str]); 21] = [
        (STRING, &["SET", "K", "new"]),
        (STRING, &["DEL", "K"]),
        (STRING, &["EXPIRE", "K", "77"]),
        (INTEGER, &["INCR", "K"]),
        (INTEGER, &["SET", "K", "x", "EX", "7"]),
        (LIST, &["LPOP", "K"]),
        (LIST, &["RPUSH", "K", "z"]),
        (HASH, &["HSET", "K", "f", "z"]),
        (HASH, &["HDEL", "K", "f"]),
        (HASH, &["HINCRBY", "K", "n", "1"]),
        (SET, &["SADD", "K", "z"]),
        (SET, &["SREM", "K", "m"]),
        (ZSET, &["ZADD", "K", "9", "z"]),
        (ZSET, &["ZREM", "K", "m"]),
        (ZSET, &["ZREMRANGEBYRANK", "K", "0", "0"]),
        (ZSET, &["ZREMRANGEBYSCORE", "K", "1", "1"]),
        (ZSET, &["ZREMRANGEBYLEX", "K", "-", "+"]),
        (STRING, &["RESTORE"]),
        (STRING, &["FLUSHALL"]),
        // fails and changes nothing
        (STRING, &["LPUSH", "K", "z"]),
        (STRING, &["SET", "K", "x", "NX"]),
    ];
    let (kind, a) = M[i];
    if a[0] == "RESTORE" {
        make(l, S0B, ZSET);
        if let Rep::Str(p) = c!(l, "DUMP", S0B) {
            c!(l, "RESTORE", S0, 500, &p, "REPLACE");
        }
    } else if a[0] == "FLUSHALL" {
        make(l, S0, LIST);
        c!(l, "FLUSHALL", "SYNC");
    } else {
        make(l, S0, kind);
        let a: Vec<A> = a.iter().map(|x| if *x == "K" { A::from(S0) } else { A::from(*x) }).collect();
        cmd(l, &a);
    }
    kind
}
fn set_position(db: &Arc<Db>, slot: usize, id: u64) {
    db.slots[slot].share_status.lock().as_mut().unwrap().dict.set_write_id(id);
}
fn next_only() {
    let (mut l, fo) = (new_side(), new_side());
    let i = vs::choice("message", 21);
    let kind = message(i, &l.db);
    let m = l.messages().into_iter().filter(|m| m.slot == 0).last().unwrap();
    make(&fo.db, S0, kind);
    let (at, id) = (vs::any_u64("position"), vs::any_u64("id"));
    vs::assume(at < u64::MAX);
    set_position(&fo.db, 0, at);
    let before = whole(&fo.db);
    let r = fo.db.slots[0].process_forward(id, m.cmd);
    let next = id == at + 1;
    if next {
        vs::check(r == Ordering::Equal, "the next message is taken");
        vs::check(position(&fo.db, 0) == id, "the position moves on by one");
        let (a, b) = (raw(&fo.db, S0), raw(&l.db, S0));
        vs::check(a == b, "the next message has the leader's effect");
        vs::reach("next");
    } else {
        vs::check((r == Ordering::Less) == (id <= at), "an old message is ignored");
        vs::check((r == Ordering::Greater) == (id > at), "a gap is reported");
        alike(&before, &whole(&fo.db), "a message out of turn has no effect");
        vs::reach("out of turn");
    }
}
fn deliveries() {
    let (mut l, fo) = (new_side(), new_side());
    let x = vs::bytes("x", 1);
    let mut states = vec![whole(&l.db)];
    type W<'a> = &'a [A<'a>];
    let sets: [[W; 4]; 4] = [
        [&["SET".into(), S0.into(), (&x).into()], &["SET".into(), S0.into(), 5.into(), "KEEPTTL".into()], &["INCR".into(), S0.into()], &["INCR".into(), S0.into()]],
        [&["RPUSH".into(), S0.into(), (&x).into()], &["LPUSH".into(), S0.into(), (&x).into(), "a".into()], &["RPOP".into(), S0.into()], &["EXPIRE".into(), S0.into(), 9.into()]],
        [&["HSET".into(), S0.into(), "f".into(), (&x).into()], &["SADD".into(), S0.into(), "m".into()], &["FLUSHALL".into(), "SYNC".into()], &["SADD".into(), S0.into(), (&x).into()]],
        [&["ZADD".into(), S0.into(), "1".into(), (&x).into()], &["ZADD".into(), S0.into(), "INCR".into(), "2".into(), (&x).into()], &["SET".into(), S0B.into(), (&x).into(), "EX".into(), 3.into()], &["DEL".into(), S0.into()]],
    ];
    for w in sets[vs::choice("writes", 4)] {
        cmd(&l.db, w);
        states.push(whole(&l.db));
    }
    let ms: Vec<Message> = l.messages().into_iter().filter(|m| m.slot == 0).collect();
    vs::check(ms.len() == 4, "every write is forwarded once");
    for (i, m) in ms.iter().enumerate() {
        vs::check(m.id == i as u64 + 1, "writes are numbered in order");
    }
    let mut at = 0;
    for _ in 0..vs::bound(4, 6) {
        let i = vs::choice("deliver", 4);
        let r = deliver(&fo.db, ms[i].clone());
        vs::check(r == i.cmp(&at), "only the next message is taken");
        if i == at {
            at += 1;
        }
        let s = whole(&fo.db);
        vs::check(s.1[0] == states[at].1[0], "position and number of keys are the leader's");
        vs::check(s.0[0] == states[at].0[0] && s.0[1] == states[at].0[1], "the state is the leader's after the position held");
    }
    vs::reach("end");
}
fn two_slots() {
    let (mut l, fo) = (new_side(), new_side());
    let x = vs::bytes("x", 1);
    c!(&l.db, "SET", S0, &x);
    c!(&l.db, "RPUSH", S1, "a");
    c!(&l.db, "INCR", S0);
    c!(&l.db, "RPUSH", S1, &x);
    c!(&l.db, "SET", S0, 7);
    c!(&l.db, "DEL", S0, S1, S2);
    let (mut a, mut b): (Vec<_>, Vec<_>) = l.messages().into_iter().filter(|m| m.slot < 2).partition(|m| m.slot == 0);
    vs::check(a.len() == 4 && b.len() == 3, "every write is forwarded once, for its slot");
    a.reverse();
    b.reverse();
    while !(a.is_empty() && b.is_empty()) {
        let first = b.is_empty() || !a.is_empty() && vs::flag("first slot");
        let m = if first { a.pop() } else { b.pop() }.unwrap();
        vs::check(deliver(&fo.db, m) == Ordering::Equal, "each slot's next message is taken");
    }
    let (s, t) = (whole(&l.db), whole(&fo.db));
    vs::check(s.0 == t.0 && s.1[..2] == t.1[..2], "both slots are the leader's");
    vs::reach("end");
}
fn rejoin() {
    let (mut l, fo) = (new_side(), new_side());
    let kind = any_kind();
    make(&l.db, S0, kind);
    let o = any_write();
    apply(&l.db, o, S0);
    let taken = vs::choice("taken before", 3);
    let before = l.messages();
    for m in before.iter().take(taken) {
        deliver(&fo.db, m.clone());
    }
    // the slot as it goes over the wire
    let bytes = bincode::serialize(&l.db.slots[0].share_status.lock().as_ref().unwrap().dict).unwrap();
    c!(&l.db, "SET", S0B, "x");
    make(&l.db, S0, STRING);
    let after = l.messages();
    match bincode::deserialize(&bytes) {
        Ok(d) => fo.db.replace_dict(0, d),
        Err(e) => {
            std::mem::forget(e);
            vs::check(false, "a slot survives the wire");
        }
    }
    for m in before {
        vs::check(deliver(&fo.db, m) == Ordering::Less, "messages before the snapshot are ignored");
    }
    for m in after {
        vs::check(deliver(&fo.db, m) == Ordering::Equal, "messages after the snapshot are taken");
    }
    alike(&whole(&l.db), &whole(&fo.db), "after the snapshot");
    vs::reach("end");
}

fn filled(db: &Arc<Db>) {
    for (i, k) in [S0, S2].iter().enumerate() {
        let kind = vs::choice("kind", if i == 0 { KINDS + 1 } else { 2 });
        if kind < KINDS {
            make(db, k, kind);
            if vs::flag("dated") {
                let d = vs::any_i64("deadline");
                vs::assume(d > 0);
                c!(db, "PEXPIREAT", *k, d);
            }
        }
    }
}
fn flush_request<'a>() -> &'a [A<'a>] {
    // without SYNC it hands the old values to another thread, see flush_real
    const F: [&[A]; 2] = [&[A::B(b"FLUSHALL"), A::B(b"SYNC")], &[A::B(b"flushall"), A::B(b"sync")]];
    F[vs::choice("how", 2)]
}
fn flush_empties() {
    let (mut l, fo) = (new_side(), new_side());
    filled(&l.db);
    let before = whole(&l.db);
    vs::check(cmd(&l.db, flush_request()).is_ok(), "FLUSHALL replies OK");
    for m in l.messages() {
        vs::check(deliver(&fo.db, m) == Ordering::Equal, "every message is the next one");
    }
    for (db, who) in [(&l.db, "leader"), (&fo.db, "follower")] {
        let s = whole(db);
        for i in 0..3 {
            vs::check(s.1[i].1 == 0, &format!("no key is left on the {who}"));
            vs::check(s.1[i].0 >= before.1[i].0, &format!("the position of the {who} does not go back"));
        }
        for k in KEYS {
            vs::check(c!(db, "EXISTS", k).is_int(0), &format!("no key exists on the {who}"));
        }
    }
    alike(&whole(&l.db), &whole(&fo.db), "after FLUSHALL");
    vs::reach("end");
}
fn flush_then_write() {
    let o = any_write();
    let (mut l, mut fo, fresh) = (new_side(), new_side(), new_side());
    let kind = any_kind();
    make(&l.db, S0, kind);
    c!(&l.db, "PEXPIREAT", S0, NOW0 as i64 + 1000 * vs::choice("passed", 2) as i64);
    cmd(&l.db, flush_request());
    let (r, w) = (apply(&l.db, o, S0), apply(&fresh.db, o, S0));
    vs::check(r == w, &format!("{} replies as on a fresh database", o.name));
    vs::check(whole(&l.db).0 == whole(&fresh.db).0, &format!("{} leaves what it leaves on a fresh database", o.name));
    for m in l.messages() {
        vs::check(deliver(&fo.db, m) == Ordering::Equal, "every message is the next one");
    }
    alike(&whole(&l.db), &whole(&fo.db), "after FLUSHALL and a write");
    let d = raw(&fo.db, S0).map_or(0, |v| v.1);
    vs::check(d == 0 || fo.dated(S0) == d, "the follower's expiry task knows the deadline");
    vs::reach("end");
}
async fn flush_real(db: Arc<Db>) {
    let k = [S0, S1, b"{fjl}k", b"{hia}k"][vs::choice("slot", 4)];
    let kind = vs::choice("kind", 2) * LIST;
    make(&db, k, kind);
    make(&db, S2, HASH);
    if vs::flag("dated") {
        c!(&db, "EXPIRE", k, 50);
    }
    let r = match vs::choice("how", 2) {
        0 => c!(&db, "FLUSHALL"),
        _ => c!(&db, "FLUSHALL", "SYNC"),
    };
    vs::check(r.is_ok(), "FLUSHALL replies OK");
    for s in &db.slots {
        vs::check(s.share_status.lock().as_ref().unwrap().dict.is_empty(), "every slot is empty");
    }
    vs::check(c!(&db, "EXISTS", k, S2).is_int(0), "no key exists");
    vs::check(c!(&db, "RPUSH", k, "x").is_int(1), "a new value starts empty");
    vs::check(c!(&db, "TTL", k).is_int(-1), "a new value has no deadline");
    vs::reach("end");
}
/// A value in each of the 16384 slots.
async fn every_slot(db: Arc<Db>) {
    use common::options::ExpiresAt;
    use dict::cmd::simple::set::Req;
    let d = vs::any_u64("deadline");
    vs::assume(d > 0);
    for (i, s) in db.slots.iter().enumerate() {
        let r = s.set(Req {
            key: b"k"[..].into(),
            value: DataType::Integer(7),
            expires_at: ExpiresAt::Specific(if i % 64 == 0 { d } else { 0 }),
            nx_xx: NxXx::None,
        });
        std::mem::forget(r);
    }
    if vs::flag("sync") {
        c!(&db, "FLUSHALL", "SYNC");
    } else {
        c!(&db, "FLUSHALL");
    }
    for s in &db.slots {
        let l = s.share_status.lock();
        let d = &l.as_ref().unwrap().dict;
        vs::check(d.is_empty(), "every slot is empty");
        vs::check(d.last_write_op_id() >= 1, "positions do not go back");
    }
    vs::reach("end");
}
async fn old_deadlines(db: Arc<Db>) {
    use std::time::Duration;
    vs::tick();
    let k = S0;
    make(&db, k, LIST);
    c!(&db, "PEXPIRE", k, 1000);
    if vs::flag("known") {
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    if vs::flag("sync") {
        c!(&db, "FLUSHALL", "SYNC");
    } else {
        c!(&db, "FLUSHALL");
    }
    make(&db, k, STRING);
    let new = vs::choice("new", 3);
    match new {
        0 => {}
        1 => {
            c!(&db, "PEXPIRE", k, 3000);
        }
        _ => {
            c!(&db, "PEXPIRE", k, 200);
        }
    }
    tokio::time::sleep(Duration::from_millis(700)).await;
    vs::check((held(&db, k) == 1) == (new != 2), "the new deadline counts");
    tokio::time::sleep(Duration::from_millis(1300)).await;
    vs::check((held(&db, k) == 1) == (new != 2), "the old deadline counts no more");
    vs::check(c!(&db, "EXISTS", k).is_int(i64::from(new != 2)), "the old deadline counts no more");
    tokio::time::sleep(Duration::from_millis(2000)).await;
    vs::check((held(&db, k) == 1) == (new == 0), "the new deadline counts");
    vs::reach("end");
}
