//! Slot snapshots: what a leader sends, what a follower makes of it.
use super::conn::settle;
use super::repl::*;
use crate::{c, job, r::*, table::*, vs, Job, NOW0};
use common::{connection::Connection, pd_message::LeaderInfo};
use db::{verif::Replica, Db};
use dict::Dict;
use server::verif::serve;
use std::{
    cmp::Ordering,
    sync::{Arc, Mutex},
    time::Duration,
};

pub const JOBS: &[Job] = &[
    job!("C22", "whole_slot", Async |_| Box::pin(whole_slot()), "a slot with two keys of 6 kinds or none, any deadlines or none, over whatever the follower held: the same keys, values, deadlines and position, other slots untouched, deadlines known to the expiry task"),
    job!("C22", "any_content", Async |_| Box::pin(any_content()), "a slot with a key and a value (string, integer, list, hash, set, sorted set) of any 0..2 bytes or any 64-bit number: the same on the follower"),
    job!("C22", "all_slots", Async |_| Box::pin(all_slots()), "the whole database (3 slots) at once"),
    job!("C22", "cut_short", Async |_| Box::pin(cut_short()), "a snapshot of one slot or of all ends after any number of bytes: not taken for a whole one; each slot is as before or as on the leader"),
    job!("C22", "then_messages", Async |_| Box::pin(then_messages()), "45 write commands on the leader before and after the snapshot: messages up to it are ignored, later ones apply"),
    job!("C22", "sent_slowly", Async |_| Box::pin(sent_slowly()), "a snapshot of up to 50 KB through a connection that takes any part at a time arrives whole"),
    job!("C22", "leader_goes_on", Async |db| Box::pin(leader_goes_on(db)), "the leader's side of a snapshot of any slot or of all, or of a failed fork: every slot goes on serving, the connection is closed"),
    job!("C22", "no_such_slot", Async |db| Box::pin(no_such_slot(db)), "a snapshot request with any number of up to 6 (thorough 8) digits or some of 10..19 that is no slot: refused, others go on"),
    job!("C22", "loaded_deadlines", Async |db| Box::pin(loaded_deadlines(db)), "deadlines passed, soon, later or none, with or without old deadlines of the same keys: honoured by reads and by the expiry task"),
    job!("C24", "gap", Async |_| Box::pin(gap()), "5 messages of two slots, any of them lost, then a snapshot at any position the leader can have by then: the follower's slots end up as the leader's after what arrived"),
    job!("C24", "gap_and_failure", Async |_| Box::pin(gap_and_failure()), "a gap whose first one or two snapshots are cut short after any of 12 (thorough: any) numbers of bytes: the follower tries again and catches up"),
    job!("C24", "two_gaps", Async |_| Box::pin(two_gaps()), "gaps in two slots at once: each is filled by its own snapshot"),
    job!("C24", "join", Async |_| Box::pin(join()), "messages arrive while the whole database is loaded, snapshot at any position: each write counts once"),
    job!("C24", "message_stream", Async |_| Box::pin(stream()), "messages over a connection that ends after any number of bytes: exactly the complete ones are applied and the follower goes on serving"),
];

pub fn leader_at(p: &vs::Peer) -> LeaderInfo {
    LeaderInfo { server_id: 1, server_addr: p.addr(), forward_addr: p.addr() }
}
/// The request a follower sends for a slot.
pub fn request(slot: usize) -> Vec<u8> {
    let side = new_side();
    let p = vs::Peer::new();
    p.serve(b"", true);
    let r = Replica::new(side.db.clone());
    r.follow(leader_at(&p));
    vs::check(load(&r, slot).is_err(), "no snapshot is not taken for one");
    p.sent()
}
pub fn load(r: &Replica, slot: usize) -> Result<(), ()> {
    match r.load(slot) {
        Ok(()) => Ok(()),
        Err(e) => {
            std::mem::forget(e);
            Err(())
        }
    }
}
struct Ctx {
    sock: vs::Sock,
    rt: tokio::runtime::Handle,
    then: Box<dyn FnOnce(Vec<u8>) + Send>,
}
static CTX: Mutex<Option<Ctx>> = Mutex::new(None);
fn go_on() {
    let c = CTX.lock().unwrap().take().unwrap();
    let b = c.sock.sent();
    // away from the thread that is ending its process
    std::thread::spawn(move || {
        let _in = c.rt.enter();
        (c.then)(b);
    })
    .join()
    .unwrap();
}
/// Have the leader send a snapshot and go on with its bytes.
pub async fn snapshot(db: &Arc<Db>, request: &[u8], room: usize, then: impl FnOnce(Vec<u8>) + Send + 'static) {
    vs::quiet();
    let s = vs::Sock::new();
    let stream = s.stream();
    if room > 0 {
        s.room(room);
    }
    s.feed(request);
    if room > 0 {
        s.drain();
    }
    *CTX.lock().unwrap() = Some(Ctx { sock: s, rt: tokio::runtime::Handle::current(), then: Box::new(then) });
    vs::at_exit(go_on);
    vs::fork_as(0);
    if let Err(e) = serve(db.clone(), Connection::new(stream)).await {
        std::mem::forget(e);
    }
    vs::check(false, "a snapshot is sent");
}
fn fill(db: &Arc<Db>, k: &[u8]) {
    let kind = vs::choice("kind", KINDS + 1);
    if kind < KINDS {
        make(db, k, kind);
        if vs::flag("dated") {
            let d = vs::any_i64("deadline");
            vs::assume(d > NOW0 as i64);
            c!(db, "PEXPIREAT", k, d);
        }
    }
}
/// One slot of the two is alike, and only that.
fn alike_slot(l: &State, f: &State, was: &State, slot: usize, when: &str) {
    for i in 0..KEYS.len() {
        let from = if KEY_SLOT[i] == slot { l } else { was };
        vs::check(from.0[i].is_some() == f.0[i].is_some(), &format!("{when}: the follower holds the leader's keys"));
        if let (Some(x), Some(y)) = (&from.0[i], &f.0[i]) {
            vs::check(x.1 == y.1, &format!("{when}: the follower has the leader's deadline"));
            vs::check(x.0 == y.0, &format!("{when}: the follower has the leader's value"));
        }
    }
    for i in 0..3 {
        let from = if i == slot { l } else { was };
        vs::check(from.1[i].1 == f.1[i].1, &format!("{when}: the follower holds nothing else"));
        vs::check(from.1[i].0 == f.1[i].0, &format!("{when}: the follower is at the leader's position"));
    }
}
async fn whole_slot() {
    let (l, mut fo) = (new_side(), new_side());
    let slot = 0;
    let q = request(slot);
    let p = vs::Peer::new();
    let r = Replica::new(fo.db.clone());
    r.follow(leader_at(&p));
    fill(&l.db, S0);
    make(&l.db, S1, STRING);
    match vs::choice("second", 3) {
        0 => {}
        1 => make(&l.db, S0B, LIST),
        _ => {
            make(&l.db, S0B, STRING);
            c!(&l.db, "PEXPIREAT", S0B, NOW0 as i64 + 1);
        }
    }
    // what the follower had before
    match vs::choice("before", 3) {
        0 => {}
        1 => make(&fo.db, S0, HASH),
        _ => {
            make(&fo.db, S0, STRING);
            c!(&fo.db, "PEXPIREAT", S0, NOW0 as i64 + 5);
            make(&fo.db, S0B, STRING);
            make(&fo.db, S2, STRING);
        }
    }
    let was = whole(&fo.db);
    let want = whole(&l.db);
    fo.clear();
    snapshot(&l.db, &q, 0, move |bytes| {
        p.serve(&bytes, true);
        vs::check(load(&r, slot).is_ok(), "a whole snapshot is loaded");
        vs::check(!r.waits(slot), "the slot waits no longer");
        alike_slot(&want, &whole(&fo.db), &was, slot, "a snapshot");
        for (i, k) in KEYS.iter().enumerate() {
            let d = want.0[i].as_ref().map_or(0, |x| x.1);
            if KEY_SLOT[i] == slot {
                vs::check(fo.due(k) == d, "the expiry task knows the loaded deadlines");
            }
        }
        vs::reach("end");
    })
    .await;
}
async fn any_content() {
    let (l, fo) = (new_side(), new_side());
    let q = request(0);
    let p = vs::Peer::new();
    let r = Replica::new(fo.db.clone());
    r.follow(leader_at(&p));
    match vs::choice("what", 6) {
        0 => {
            let b = vs::blob("value", 0, 2);
            c!(&l.db, "SET", S0, &b);
        }
        1 => {
            let n = vs::any_i64("number");
            c!(&l.db, "INCRBY", S0, n);
        }
        2 => {
            let b = vs::blob("element", 0, 2);
            c!(&l.db, "RPUSH", S0, &b, "x", &b);
        }
        3 => {
            let (f, b) = (vs::blob("field", 0, 1), vs::blob("value", 0, 1));
            c!(&l.db, "HSET", S0, &f, &b);
        }
        4 => {
            let b = vs::blob("member", 0, 2);
            c!(&l.db, "SADD", S0, &b);
        }
        _ => {
            use dict::{cmd::sorted_set::add, data_type::sorted_set::Node};
            use common::options::{GtLt, NxXx};
            let s = vs::any_f64("score");
            vs::assume(s == s);
            let nodes = vec![Node::new(b"m"[..].into(), s), Node::new(b"n"[..].into(), 1.0)];
            let r = l.db.sorted_set_add(add::Req { key: S0.into(), nodes, nx_xx: NxXx::None, gt_lt: GtLt::None, incr: false });
            std::mem::forget(r);
        }
    }
    let want = whole(&l.db);
    let was = whole(&fo.db);
    snapshot(&l.db, &q, 0, move |bytes| {
        p.serve(&bytes, true);
        vs::check(load(&r, 0).is_ok(), "a whole snapshot is loaded");
        alike_slot(&want, &whole(&fo.db), &was, 0, "any content");
        vs::reach("end");
    })
    .await;
}
async fn all_slots() {
    let (l, fo) = (new_side(), new_side());
    let q = request(common::SLOT_SIZE);
    let p = vs::Peer::new();
    let r = Replica::new(fo.db.clone());
    r.follow(leader_at(&p));
    let kind = vs::choice("kind", KINDS);
    make(&l.db, S0, kind);
    if vs::flag("second") {
        make(&l.db, S1, (kind + 1) % KINDS);
        c!(&l.db, "PEXPIREAT", S1, NOW0 as i64 + 50);
    }
    if vs::flag("third") {
        make(&l.db, S2, (kind + 2) % KINDS);
    }
    if vs::flag("before") {
        make(&fo.db, S2, LIST);
        make(&fo.db, S1, LIST);
    }
    let want = whole(&l.db);
    snapshot(&l.db, &q, 0, move |bytes| {
        p.serve(&bytes, true);
        vs::check(load(&r, common::SLOT_SIZE).is_ok(), "a whole snapshot is loaded");
        alike(&want, &whole(&fo.db), "all slots");
        for i in 0..3 {
            vs::check(!r.waits(i), "no slot waits any longer");
        }
        vs::reach("end");
    })
    .await;
}
async fn cut_short() {
    let (l, fo) = (new_side(), new_side());
    let slot = [0, common::SLOT_SIZE][vs::choice("slot", 2)];
    let q = request(slot);
    let (p, r) = (vs::Peer::new(), Replica::new(fo.db.clone()));
    let again = p.again();
    r.follow(leader_at(&p));
    make(&l.db, S0, vs::choice("kind", vs::bound(2, KINDS)) * 2 % KINDS);
    make(&l.db, S1, INTEGER);
    c!(&l.db, "PEXPIREAT", S0, NOW0 as i64 + 50);
    make(&fo.db, S0, HASH);
    make(&fo.db, S1, SET);
    make(&fo.db, S2, SET);
    let want = whole(&l.db);
    let was = whole(&fo.db);
    snapshot(&l.db, &q, 0, move |bytes| {
        let n = vs::choice("kept", bytes.len());
        p.serve(&bytes[..n], true);
        vs::check(load(&r, slot).is_err(), "a snapshot cut short is not taken for a whole one");
        let s = whole(&fo.db);
        let mut missing = false;
        for i in 0..3 {
            let same = |o: &State| o.1[i] == s.1[i] && (0..KEYS.len()).all(|k| KEY_SLOT[k] != i || o.0[k] == s.0[k]);
            vs::check(same(&was) || same(&want), "a slot is as before or as on the leader");
            if slot == i || slot == common::SLOT_SIZE {
                if r.waits(i) {
                    vs::check(same(&was), "a slot that waits is as before");
                    missing = true;
                } else {
                    vs::check(same(&want), "a slot that does not wait is as on the leader");
                }
            }
        }
        vs::check(missing || n + 1 == bytes.len(), "slots that did not arrive go on waiting");
        again.serve(&bytes, true);
        vs::check(load(&r, slot).is_ok(), "the next attempt succeeds");
        if slot == common::SLOT_SIZE {
            alike(&want, &whole(&fo.db), "the next attempt");
        } else {
            alike_slot(&want, &whole(&fo.db), &was, slot, "the next attempt");
        }
        vs::reach("end");
    })
    .await;
}
async fn then_messages() {
    let (mut l, fo) = (new_side(), new_side());
    let q = request(0);
    let (p, r) = (vs::Peer::new(), Replica::new(fo.db.clone()));
    r.follow(leader_at(&p));
    let n = OPS.iter().filter(|o| o.write).count();
    let i = vs::choice("op", n);
    let o = OPS.iter().filter(|o| o.write).nth(i).unwrap();
    make(&l.db, S0, LIST);
    apply(&l.db, o, S0);
    // the follower knows the first write, or nothing
    let known = vs::choice("known", 2);
    let before = l.messages();
    for m in before.iter().take(known) {
        deliver(&fo.db, m.clone());
    }
    let db = l.db.clone();
    snapshot(&db, &q.clone(), 0, move |bytes| {
        // writes while the snapshot is under way
        make(&l.db, S0B, STRING);
        apply(&l.db, o, S0);
        let after = l.messages();
        p.serve(&bytes, true);
        vs::check(load(&r, 0).is_ok(), "a whole snapshot is loaded");
        for m in before {
            vs::check(deliver(&fo.db, m) == Ordering::Less, "messages before the snapshot are ignored");
        }
        for m in after {
            vs::check(deliver(&fo.db, m) == Ordering::Equal, "messages after the snapshot apply");
        }
        alike(&whole(&l.db), &whole(&fo.db), "a snapshot and the messages after it");
        vs::reach("end");
    })
    .await;
}
async fn sent_slowly() {
    let (l, fo) = (new_side(), new_side());
    let q = request(0);
    let p = vs::Peer::new();
    let r = Replica::new(fo.db.clone());
    r.follow(leader_at(&p));
    let n = [100, 9_000, 50_000][vs::choice("size", 3)];
    let mut big = vec![b'v'; n];
    big[n - 1] = vs::any_u8("last");
    c!(&l.db, "SET", S0, &big);
    make(&l.db, S0B, LIST);
    let want = whole(&l.db);
    let was = whole(&fo.db);
    let room = [1, 4096, 20_000][vs::choice("room", 3)];
    snapshot(&l.db, &q, room, move |bytes| {
        p.serve(&bytes, true);
        vs::check(load(&r, 0).is_ok(), "a whole snapshot is loaded");
        alike_slot(&want, &whole(&fo.db), &was, 0, "sent slowly");
        vs::reach("end");
    })
    .await;
}
async fn leader_goes_on(db: Arc<Db>) {
    vs::quiet();
    let slot = [0, 1, 16383, common::SLOT_SIZE][vs::choice("slot", 4)];
    let q = request(slot);
    make(&db, S0, LIST);
    vs::fork_as([12345, u32::MAX as u64][vs::choice("fork", 2)]);
    let s = vs::Sock::new();
    let c = Connection::new(s.stream());
    s.feed(&q);
    let h = tokio::spawn({
        let db = db.clone();
        async move {
            if let Err(e) = serve(db, c).await {
                std::mem::forget(e);
            }
        }
    });
    settle().await;
    vs::check(h.is_finished(), "the leader is done with the connection");
    vs::check(s.sent().is_empty(), "the leader itself sends nothing");
    vs::check(s.closed(), "the leader closes its end");
    for k in [S0, S1, S2, b"{hia}k"] {
        vs::check(db.slots[db::verif::slot_of(&db, k)].share_status.try_lock().is_some(), "no slot stays locked");
    }
    vs::check(c!(&db, "RPUSH", S0, "x").is_int(4), "the leader goes on");
    for s in &db.slots {
        vs::check(s.share_status.try_lock().is_some(), "no slot stays locked");
    }
    vs::reach("end");
}
async fn no_such_slot(db: Arc<Db>) {
    vs::quiet();
    let negative = vs::flag("negative");
    let mut digits = vs::bytes("digits", 1 + vs::choice("digits", vs::bound(6, 8)));
    let mut n = 0;
    if digits.len() == 1 {
        // some of the longest
        n = [1 << 32, (1 << 32) + 5, i64::MAX as u64, 1 << 62][vs::choice("large", 4)];
        digits = n.to_string().into_bytes();
    }
    for d in digits.iter().take(if n > 0 { 0 } else { 9 }) {
        vs::assume(vs::and(*d >= b'0', *d <= b'9'));
        n = n * 10 + u64::from(*d - b'0');
    }
    vs::assume(if negative { n > 0 } else { n > common::SLOT_SIZE as u64 });
    make(&db, S0, LIST);
    let s = vs::Sock::new();
    let c = Connection::new(s.stream());
    let mut q = request(7);
    // the slot id is the number of the request
    let at = q.iter().position(|b| *b == b'7').unwrap();
    q.truncate(at);
    if negative {
        q.push(b'-');
    }
    q.extend(digits);
    q.extend_from_slice(b"\r\n");
    s.feed(&q);
    let r = serve(db.clone(), c).await;
    if let Err(e) = r {
        std::mem::forget(e);
    }
    vs::check(c!(&db, "RPUSH", S0, "x").is_int(4), "others go on");
    vs::reach("end");
}
async fn loaded_deadlines(db: Arc<Db>) {
    vs::tick();
    drop(db);
    let l = new_side();
    let q = request(0);
    make(&l.db, S0, LIST);
    make(&l.db, S0B, HASH);
    let dates = [0, 100, 1000, 3000];
    let (a, b) = (dates[vs::choice("first", 4)], dates[vs::choice("second", 4)]);
    for (k, d) in [(S0, a), (S0B, b)] {
        if d > 0 {
            c!(&l.db, "PEXPIREAT", k, NOW0 as i64 + d);
        }
    }
    let old = vs::choice("old", 3);
    snapshot(&l.db, &q, 0, move |bytes| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(4).build().unwrap();
        rt.block_on(async move {
            let db = Db::new().await;
            // deadlines of the same key from before
            match old {
                0 => {}
                1 => {
                    make(&db, S0, STRING);
                    c!(&db, "PEXPIRE", S0, 500);
                    settle().await;
                }
                _ => {
                    make(&db, S0, STRING);
                    c!(&db, "PEXPIRE", S0, 500);
                }
            }
            let p = vs::Peer::new();
            let r = Replica::new(db.clone());
            r.follow(leader_at(&p));
            p.serve(&bytes, true);
            vs::check(load(&r, 0).is_ok(), "a whole snapshot is loaded");
            let start = common::now_timestamp_ms() as i64;
            for at in [700, 2000, 4000] {
                tokio::time::sleep(Duration::from_millis((NOW0 as i64 + at - common::now_timestamp_ms() as i64).max(1) as u64)).await;
                let _ = start;
                let n = [a, b].iter().filter(|d| **d == 0 || **d > at).count();
                vs::check(held(&db, S0) == n, "expired keys are removed in time, others are not");
                vs::check(c!(&db, "EXISTS", S0, S0B).is_int(n as i64), "deadlines are honoured");
            }
            vs::reach("end");
        });
        std::mem::forget(rt);
    })
    .await;
}

fn writes(db: &Arc<Db>, i: usize) {
    match i {
        0 => c!(db, "RPUSH", S0, "a"),
        1 => c!(db, "RPUSH", S0, "b"),
        2 => c!(db, "INCRBY", S1, 3),
        3 => c!(db, "RPUSH", S0, "c"),
        _ => c!(db, "INCRBY", S1, 4),
    };
}
const WRITES: [usize; 5] = [0, 0, 1, 0, 1];
/// The leader's state after each number of writes.
fn leader() -> (Side<impl FnMut() -> Option<db::expire::Message> + Send, impl FnMut() -> Option<db::forward::Message> + Send>, Vec<State>) {
    let l = new_side();
    let s = whole(&l.db);
    (l, vec![s])
}
pub fn aside<F: std::future::Future<Output = ()>>(f: impl FnOnce() -> F) {
    // without the runtime of the thread that is ending its process
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(4).build().unwrap();
    rt.block_on(f());
    std::mem::forget(rt);
}
/// The slots of a follower after it took `upto[i]` writes of slot i.
fn caught_up(states: &[State], f: &State, upto: [usize; 2], when: &str) {
    for (slot, n) in upto.iter().enumerate() {
        alike_slot(&states[*n], f, f, slot, when);
    }
}
async fn gap() {
    let (mut l, mut states) = leader();
    let at = vs::choice("snapshot", 6);
    let slot = vs::choice("slot", 2);
    for i in 0..at {
        writes(&l.db, i);
        states.push(whole(&l.db));
    }
    let q = request(slot);
    let db = l.db.clone();
    snapshot(&db, &q.clone(), 0, move |bytes| {
        for i in at..5 {
            writes(&l.db, i);
            states.push(whole(&l.db));
        }
        // in the order of the writes
        let mut ms = l.messages();
        ms.sort_by_key(|m| (0..5).position(|i| WRITES[i] == m.slot && WRITES[..=i].iter().filter(|s| **s == m.slot).count() as u64 == m.id).unwrap());
        let lost = vs::choice("lost", 32);
        let mut stuck = [false; 2];
        let mut upto = [0; 2];
        let mut next = [1; 2];
        for i in 0..5 {
            let s = WRITES[i];
            if lost >> i & 1 == 1 {
                continue;
            }
            if ms[i].id > next[s] {
                stuck[s] = true;
                // the leader has done what it reports, and only one slot asks for its snapshot here
                if s != slot || at <= i {
                    return;
                }
                upto[s] = at;
                next[s] = 1 + WRITES[..at].iter().filter(|x| **x == s).count() as u64;
            }
            if ms[i].id == next[s] {
                next[s] += 1;
                upto[s] = i + 1;
            }
        }
        aside(|| async move {
            let fo = new_side();
            let r = Replica::new(fo.db.clone());
            let p = vs::Peer::new();
            r.follow(leader_at(&p));
            p.serve(&bytes, true);
            let tx = r.process();
            for i in 0..5 {
                if lost >> i & 1 == 0 {
                    vs::check(tx.send(ms[i].clone()).is_ok(), "messages are taken");
                }
            }
            tokio::time::sleep(Duration::from_millis(100)).await;
            vs::check(!r.waits(0) && !r.waits(1), "no slot waits any longer");
            caught_up(&states, &whole(&fo.db), upto, "after a gap");
            if stuck[slot] {
                vs::check(p.sent() == q, "the follower asks for the slot that misses messages");
                vs::reach("gap");
            } else {
                vs::reach("no gap");
            }
        });
    })
    .await;
}
async fn gap_and_failure() {
    let (mut l, mut states) = leader();
    for i in 0..5 {
        writes(&l.db, i);
        states.push(whole(&l.db));
    }
    let q = request(0);
    let db = l.db.clone();
    snapshot(&db, &q.clone(), 0, move |bytes| {
        let ms = l.messages();
        let twice = vs::flag("twice");
        let n = if vs::thorough() && !twice { vs::choice("kept", bytes.len()) } else { vs::choice("kept", 12) * bytes.len() / 12 };
        aside(|| async move {
            let fo = new_side();
            let r = Replica::new(fo.db.clone());
            let p = vs::Peer::new();
            let second = p.again();
            let third = second.again();
            r.follow(leader_at(&p));
            p.serve(&bytes[..n], true);
            if twice {
                second.serve(&bytes[..n / 2], true);
                third.serve(&bytes, true);
            } else {
                second.serve(&bytes, true);
            }
            let tx = r.process();
            for m in ms.iter().filter(|m| m.slot == 1 || m.id > 1) {
                vs::check(tx.send(m.clone()).is_ok(), "messages are taken");
            }
            tokio::time::sleep(Duration::from_millis(6500)).await;
            vs::check(!r.waits(0), "no slot waits forever");
            caught_up(&states, &whole(&fo.db), [5, 5], "after a snapshot that failed");
            vs::reach("end");
        });
    })
    .await;
}
async fn two_gaps() {
    let (mut l, mut states) = leader();
    for i in 0..5 {
        writes(&l.db, i);
        states.push(whole(&l.db));
    }
    let (q0, q1) = (request(0), request(1));
    let db = l.db.clone();
    let first = vs::choice("first", 2);
    snapshot(&db, &q0.clone(), 0, move |b0| {
        let ms = l.messages();
        // the other slot's part of a snapshot, from a leader that has only that
        let b1 = part(&b0, &l.db);
        aside(|| async move {
            let fo = new_side();
            let r = Replica::new(fo.db.clone());
            let p = vs::Peer::new();
            let second = p.again();
            r.follow(leader_at(&p));
            let bytes = [b0, b1];
            p.serve(&bytes[first], true);
            second.serve(&bytes[1 - first], true);
            let tx = r.process();
            for m in ms.iter().filter(|m| m.id > 1).filter(|m| m.slot == first).chain(ms.iter().filter(|m| m.id > 1 && m.slot != first)) {
                vs::check(tx.send(m.clone()).is_ok(), "messages are taken");
            }
            tokio::time::sleep(Duration::from_millis(3000)).await;
            let q = [q0, q1];
            vs::check(p.sent() == q[first], "the first gap is filled first");
            vs::check(second.sent() == q[1 - first], "the second gap is filled");
            caught_up(&states, &whole(&fo.db), [5, 5], "after two gaps");
            vs::reach("end");
        });
    })
    .await;
}
/// The snapshot of slot 1, given that of slot 0.
fn part(b0: &[u8], db: &Arc<Db>) -> Vec<u8> {
    let dict = |i: usize| bincode::serialize(&db.slots[i].share_status.lock().as_ref().unwrap().dict).unwrap();
    let (d0, d1) = (dict(0), dict(1));
    // what stands before and after the contents stays, but for the slot id
    let at = (0..=b0.len() - d0.len()).find(|i| b0[*i..*i + d0.len()] == d0[..]);
    let Some(at) = at else {
        vs::check(false, "a snapshot holds the contents of its slot");
        return vec![];
    };
    let head = bincode::serialize(&Some(1u16)).unwrap();
    [head, d1, b0[at + d0.len()..].to_vec()].concat()
}
async fn join() {
    let (mut l, mut states) = leader();
    let at = vs::choice("snapshot", 6);
    for i in 0..at {
        writes(&l.db, i);
        states.push(whole(&l.db));
    }
    let q = request(common::SLOT_SIZE);
    let db = l.db.clone();
    snapshot(&db, &q.clone(), 0, move |bytes| {
        for i in at..5 {
            writes(&l.db, i);
            states.push(whole(&l.db));
        }
        let ms = l.messages();
        // how many messages of each slot were sent before the follower listened
        let known = [WRITES[..at].iter().filter(|s| **s == 0).count(), WRITES[..at].iter().filter(|s| **s == 1).count()];
        let missed = [vs::choice("missed", known[0] + 1) as u64, vs::choice("missed", known[1] + 1) as u64];
        let early = vs::flag("early");
        aside(|| async move {
            let fo = new_side();
            make(&fo.db, S0, SET);
            let r = Replica::new(fo.db.clone());
            let p = vs::Peer::new();
            r.follow(leader_at(&p));
            if !early {
                p.serve(&bytes, true);
            }
            if let Err(e) = r.sync(common::SLOT_SIZE) {
                std::mem::forget(e);
                vs::check(false, "loading starts");
            }
            vs::check(early || r.waits(0) && r.waits(2), "every slot waits");
            let tx = r.process();
            for m in ms.iter().filter(|m| m.id > missed[m.slot]) {
                vs::check(tx.send(m.clone()).is_ok(), "messages are taken");
            }
            if early {
                tokio::time::sleep(Duration::from_millis(20)).await;
                p.serve(&bytes, true);
            }
            tokio::time::sleep(Duration::from_millis(100)).await;
            vs::check(!r.waits(0) && !r.waits(1) && !r.waits(2), "no slot waits any longer");
            alike(&states[5], &whole(&fo.db), "after joining");
            vs::reach("end");
        });
    })
    .await;
}
async fn stream() {
    vs::quiet();
    let (mut l, mut states) = leader();
    for i in 0..5 {
        writes(&l.db, i);
        states.push(whole(&l.db));
    }
    let ms = l.messages();
    let wire: Vec<Vec<u8>> = ms.iter().map(|m| bincode::serialize(m).unwrap()).collect();
    let all = wire.concat();
    let n = vs::choice("kept", all.len() + 1);
    let apart = vs::choice("apart", 3);
    let fo = new_side();
    let r = Replica::new(fo.db.clone());
    let p = vs::Peer::new();
    r.follow(leader_at(&p));
    match apart {
        0 => p.serve(&all[..n], true),
        1 => p.serve(&all[..n], false),
        _ => p.serve(&all[..n / 2], false),
    }
    if let Err(e) = r.sync_cmd() {
        std::mem::forget(e);
        vs::check(false, "a follower can connect");
    }
    settle().await;
    if apart == 2 {
        p.sock().feed(&all[n / 2..n]);
        settle().await;
        p.sock().feed(b"");
    }
    tokio::time::sleep(Duration::from_millis(50)).await;
    let (mut len, mut upto, mut done) = (0, [0, 0], 0);
    for (m, w) in ms.iter().zip(&wire) {
        len += w.len();
        if len > n {
            break;
        }
        done += 1;
        upto[m.slot] = (1..6).find(|k| WRITES[..*k].iter().filter(|s| **s == m.slot).count() as u64 == m.id).unwrap();
    }
    caught_up(&states, &whole(&fo.db), upto, "what arrived");
    vs::check(c!(&fo.db, "EXISTS", S0).is_int(i64::from(done > 0)), "the follower goes on serving");
    vs::reach("end");
}
