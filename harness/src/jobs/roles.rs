//! What a server does in the role the placement driver gives it, and what a leader sends.
use super::conn::settle;
use super::repl::*;
use super::snapshot::{request, snapshot};
use crate::{c, job, r::*, table::*, vs, Job};
use common::{
    config::Pd,
    connection::parse::frame::Frame,
    pd_message::{cmd::SEVER_HEARTBEAT, LeaderInfo, ServerRole, ServerStatus},
};
use db::{forward::Message, verif::follow_pd, Db};
use dict::cmd::WriteCmd;
use std::{sync::Arc, time::Duration};

pub const JOBS: &[Job] = &[
    job!("C30", "leader_fails", Async |_| Box::pin(leader_fails()), "a leader that refuses the connection for its snapshot or its messages once, or ends it at 8 places of the snapshot or the messages, then recovers; the placement driver stays with it, promotes the server or names another leader: after 4 s the server is what it was told"),
    job!("C30", "roles", Async |_| Box::pin(roles()), "every sequence of 4 (thorough 5) answers of the placement driver out of nothing new, leader, follower of A, follower of B, with messages of both and own writes in between: it holds what its leader has, or what it had; heartbeats carry its role"),
    job!("C31", "followers", Async |db| Box::pin(followers(db)), "every sequence of 6 (thorough 8) events out of a follower (of two) connecting, pinging or leaving and a write (of 5): every follower gets the writes since it connected, each once, in order"),
    job!("C31", "each_write_sent", Async |db| Box::pin(each_write(db)), "45 write commands on the kind of value they work on or none, two followers: both get the same messages, which bring a follower to the leader's state"),
    job!("C31", "large_backlog", Async |db| Box::pin(large_backlog(db)), "a follower that takes 1..3000 bytes at a time, another that takes everything: both get every message of 6 writes of up to 2 KB"),
];

async fn pause(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
}
fn dicts(db: &Arc<Db>) -> Vec<Vec<u8>> {
    db.slots.iter().map(|s| bincode::serialize(&s.share_status.lock().as_ref().unwrap().dict).unwrap()).collect()
}
/// The snapshot of another leader, given one that holds `from`.
fn splice(bytes: &[u8], from: &[Vec<u8>], to: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![];
    let mut rest = bytes;
    for (a, b) in from.iter().zip(to) {
        let Some(at) = (0..=rest.len().saturating_sub(a.len())).find(|i| rest[*i..].starts_with(a)) else {
            vs::check(false, "a snapshot holds the contents of its slots");
            return vec![];
        };
        out.extend_from_slice(&rest[..at]);
        out.extend_from_slice(b);
        rest = &rest[at + a.len()..];
    }
    out.extend_from_slice(rest);
    out
}
fn bulk(b: &[u8]) -> Vec<u8> {
    (&Frame::Bulk(b)).into()
}
fn follower(leader: LeaderInfo) -> ServerStatus {
    ServerStatus { server_id: 5, group_id: 3, role: ServerRole::Follower, current_leader: Some(leader) }
}
/// A leader is its group's leader.
fn leader() -> ServerStatus {
    let a = ([127, 0, 0, 1], 1).into();
    ServerStatus { server_id: 5, group_id: 3, role: ServerRole::Leader, current_leader: Some(LeaderInfo { server_id: 5, server_addr: a, forward_addr: a }) }
}

async fn roles() {
    vs::quiet();
    // a leader's snapshot, to make others of
    let t = new_side();
    c!(&t.db, "SET", S0, "template");
    c!(&t.db, "SADD", S1, "template");
    let from = dicts(&t.db);
    let q = request(common::SLOT_SIZE);
    let db = t.db.clone();
    snapshot(&db, &q, 0, move |bytes| {
        super::snapshot::aside(|| async move {
            let (mut a, mut b) = (new_side(), new_side());
            c!(&a.db, "RPUSH", S0, "a");
            c!(&a.db, "INCRBY", S1, 1);
            c!(&b.db, "RPUSH", S0, "b");
            c!(&b.db, "SADD", S1, "b");
            let (pd, me) = (vs::Peer::new(), new_side());
            make(&me.db, S0, STRING);
            make(&me.db, S2, HASH);
            // leaders' addresses: one peer for snapshots, one for messages, renewed when used
            let mut at = [[vs::Peer::new(), vs::Peer::new()], [vs::Peer::new(), vs::Peer::new()]];
            let info: Vec<LeaderInfo> = (0..2).map(|i| LeaderInfo { server_id: i + 1, server_addr: at[i][0].addr(), forward_addr: at[i][1].addr() }).collect();
            let mut open: Vec<(usize, vs::Peer)> = vec![];
            let mut expected = whole(&me.db);
            let mut following: Option<usize> = None;
            let mut held = leader();
            a.messages();
            b.messages();
            let n = if vs::thorough() { 5 } else { 4 };
            let mut beats: Vec<u8> = vec![];
            for step in 0..n {
                let what = vs::choice("answer", 4);
                let new = match what {
                    0 => None,
                    1 => Some(leader()),
                    i => Some(follower(info[i - 2])),
                };
                if step == 0 && new.is_none() {
                    return;
                }
                if what >= 2 && following != Some(what - 2) {
                    let i = what - 2;
                    let l = if i == 0 { &a.db } else { &b.db };
                    let next = [at[i][0].again(), at[i][1].again()];
                    let [s, f] = std::mem::replace(&mut at[i], next);
                    s.serve(&splice(&bytes, &from, &dicts(l)), true);
                    f.serve(&[], false);
                    open.push((i, f));
                    following = Some(i);
                    expected = whole(l);
                } else if what == 1 {
                    following = None;
                }
                if step == 0 {
                    let s = new.unwrap();
                    pd.serve(&bulk(&bincode::serialize(&s).unwrap()), false);
                    held = s;
                    match follow_pd(me.db.clone(), Pd { addr: pd.addr(), group_id: 3 }).await {
                        Ok(()) => {}
                        Err(e) => {
                            std::mem::forget(e);
                            vs::check(false, "a server starts in the role it is given");
                        }
                    }
                    // the first heartbeat follows at once
                    pause(300).await;
                    beats.extend(heartbeat(&held));
                    pd.sock().feed(&bulk(&bincode::serialize(&None::<ServerStatus>).unwrap()));
                } else {
                    pause(700).await;
                    beats.extend(heartbeat(&held));
                    pd.sock().feed(&bulk(&bincode::serialize(&new).unwrap()));
                    if let Some(s) = new {
                        held = s;
                    }
                    pause(300).await;
                }
                // the former leaders first
                let mut order: Vec<usize> = vec![0, 1];
                if following == Some(0) {
                    order.swap(0, 1);
                }
                for i in order {
                    let l = if i == 0 { &mut a } else { &mut b };
                    c!(&l.db, "RPUSH", S0, if i == 0 { "a2" } else { "b2" });
                    let mut wire = vec![];
                    for m in l.messages() {
                        wire.extend(bincode::serialize(&m).unwrap());
                    }
                    if let Some((_, f)) = open.iter().rev().find(|x| x.0 == i) {
                        f.sock().feed(&wire);
                        pause(20).await;
                    }
                    if following == Some(i) {
                        expected = whole(&l.db);
                    }
                }
                if following.is_none() {
                    c!(&me.db, "RPUSH", S0B, "own");
                    let i = KEYS.iter().position(|k| *k == S0B).unwrap();
                    let new = expected.0[i].is_none();
                    expected.0[i] = raw(&me.db, S0B);
                    vs::check(expected.0[i].is_some(), "a leader executes writes");
                    expected.1[0] = (expected.1[0].0 + 1, expected.1[0].1 + usize::from(new));
                }
                let w = whole(&me.db);
                match following {
                    Some(_) => alike(&expected, &w, "a follower"),
                    None => alike(&expected, &w, "a leader"),
                }
            }
            let sent = pd.sent();
            vs::check(sent.len() > beats.len() && sent[sent.len() - beats.len()..] == beats[..], "each heartbeat carries the ids, the role and the leader last answered");
            vs::reach("end");
        });
    })
    .await;
}
fn slot(s: &State, i: usize) -> (Vec<&Option<(dict::data_type::DataType, u64)>>, (u64, usize)) {
    (s.0.iter().enumerate().filter(|(k, _)| [0, 0, 1, 2][*k] == i).map(|x| x.1).collect(), s.1[i])
}
async fn leader_fails() {
    vs::quiet();
    let t = new_side();
    c!(&t.db, "SET", S0, "template");
    c!(&t.db, "SADD", S1, "template");
    let from = dicts(&t.db);
    let q = request(common::SLOT_SIZE);
    let db = t.db.clone();
    snapshot(&db, &q, 0, move |bytes| {
        super::snapshot::aside(|| async move {
            let (mut a, mut b) = (new_side(), new_side());
            c!(&a.db, "RPUSH", S0, "a");
            c!(&a.db, "INCRBY", S1, 1);
            c!(&b.db, "RPUSH", S0, "b");
            c!(&b.db, "SADD", S1, "b");
            a.messages();
            b.messages();
            let (pd, me) = (vs::Peer::new(), new_side());
            make(&me.db, S0, STRING);
            make(&me.db, S2, HASH);
            let (own, old) = (whole(&me.db), whole(&a.db));
            pd.serve(&bulk(&bincode::serialize(&leader()).unwrap()), false);
            match follow_pd(me.db.clone(), Pd { addr: pd.addr(), group_id: 3 }).await {
                Ok(()) => {}
                Err(e) => {
                    std::mem::forget(e);
                    vs::check(false, "a server starts in the role it is given");
                }
            }
            pause(300).await;
            let mut beats = vec![];
            // A's first connections may fail, B's do not
            let at = [[vs::Peer::new(), vs::Peer::new()], [vs::Peer::new(), vs::Peer::new()]];
            let fault = vs::choice("fault", 12);
            let gone = ([127, 0, 0, 1], 1).into();
            let mut info = vec![];
            let mut taken: [Vec<vs::Peer>; 2] = [vec![], vec![]];
            for (i, [s, f]) in at.iter().enumerate() {
                info.push(LeaderInfo { server_id: i + 1, server_addr: s.addr(), forward_addr: f.addr() });
                let whole = splice(&bytes, &from, &dicts(if i == 0 { &a.db } else { &b.db }));
                let n = whole.len();
                let mut ss = s.again();
                let mut ff = f.again();
                // first connections
                match if i == 0 { fault } else { 0 } {
                    0 => s.serve(&whole, true),
                    1 => info[0].server_addr = gone,
                    2 => {
                        info[0].forward_addr = gone;
                        s.serve(&whole, true);
                    }
                    k @ 3..=10 => s.serve(&whole[..[0, 1, 2, 5, n / 3, n / 2, n - 40, n - 1][k - 3]], true),
                    _ => s.serve(&whole, true),
                }
                f.serve(&[], i == 0 && fault == 11);
                for _ in 0..9 {
                    let next = ss.again();
                    std::mem::replace(&mut ss, next).serve(&whole, true);
                    let next = ff.again();
                    let g = std::mem::replace(&mut ff, next);
                    g.serve(&[], false);
                    taken[i].push(g);
                }
                std::mem::forget((ss, ff));
            }
            let early = vs::choice("early", 2) == 1;
            let then = vs::choice("then", 3);
            let then = || match then {
                0 => follower(info[0]),
                1 => leader(),
                _ => follower(info[1]),
            };
            let n = 8;
            for step in 0..n {
                let wanted = if step < if early { 1 } else { 4 } { follower(info[0]) } else { then() };
                if step > 0 {
                    pause(700).await;
                }
                beats.extend(pd.sent());
                let answer = if beats.ends_with(&heartbeat(&wanted)) { None } else { Some(wanted) };
                pd.sock().feed(&bulk(&bincode::serialize(&answer).unwrap()));
                pause(300).await;
            }
            for (i, l) in [&mut a, &mut b].into_iter().enumerate() {
                c!(&l.db, "RPUSH", S0, if i == 0 { "a2" } else { "b2" });
                let mut wire = vec![];
                for m in l.messages() {
                    wire.extend(bincode::serialize(&m).unwrap());
                }
                at[i][1].sock().feed(&wire);
                for f in &taken[i] {
                    f.sock().feed(&wire);
                }
            }
            pause(100).await;
            let got = whole(&me.db);
            match (then().role, then().current_leader.unwrap().server_id) {
                (ServerRole::Leader, _) if early => {
                    for i in 0..3 {
                        vs::check(slot(&got, i) == slot(&own, i) || slot(&got, i) == slot(&old, i), "promoted early: each slot is its own or the former leader's");
                    }
                }
                (ServerRole::Leader, _) => alike(if fault == 1 { &own } else { &old }, &got, "promoted"),
                (_, 2) => alike(&whole(&b.db), &got, "following another leader"),
                _ if fault == 1 => alike(&own, &got, "without a snapshot"),
                _ if fault == 2 => alike(&old, &got, "without messages"),
                _ => alike(&whole(&a.db), &got, "following a leader that recovered"),
            }
            vs::reach("end");
        });
    })
    .await;
}
fn heartbeat(s: &ServerStatus) -> Vec<u8> {
    (&Frame::Array(vec![Frame::Bulk(SEVER_HEARTBEAT.as_bytes()), Frame::Bulk(&bincode::serialize(s).unwrap())])).into()
}

/// The messages in what a follower was sent, the empty ones apart.
fn received(s: &vs::Sock, so_far: &mut Vec<u8>) -> (Vec<Message>, usize) {
    loop {
        let b = s.sent();
        if b.is_empty() {
            break;
        }
        so_far.extend(b);
    }
    let (mut r, mut ms, mut none) = (&so_far[..], vec![], 0);
    while !r.is_empty() {
        match bincode::deserialize_from::<_, Message>(&mut r) {
            Ok(m) => match m.cmd {
                WriteCmd::None => none += 1,
                _ => ms.push(m),
            },
            Err(e) => {
                std::mem::forget(e);
                vs::check(false, "a follower is sent whole messages");
                break;
            }
        }
    }
    (ms, none)
}
/// Are these the messages `from..to` of the writes done?
fn same(got: &[Message], all: &[Message], when: &str) {
    vs::check(got.len() == all.len(), &format!("{when}: as many messages as writes"));
    for (g, w) in got.iter().zip(all) {
        vs::check(g.slot == w.slot && g.id == w.id, &format!("{when}: the messages of the writes, in order"));
        vs::check(bincode::serialize(g).unwrap() == bincode::serialize(w).unwrap(), &format!("{when}: what was written"));
    }
}
fn write(db: &Arc<Db>, i: usize) {
    match i {
        0 => c!(db, "RPUSH", S0, "a", "b"),
        1 => c!(db, "INCRBY", S1, 3),
        2 => c!(db, "RPOP", S0),
        3 => c!(db, "SADD", S0B, "m"),
        4 => c!(db, "DEL", S1),
        _ => c!(db, "RPUSH", S0, "c"),
    };
}
async fn followers(db: Arc<Db>) {
    vs::quiet();
    settle().await;
    let l = vs::Listener::forward();
    let mut model = new_side();
    let mut done: Vec<Message> = vec![];
    // connection, bytes so far, first message, last message, pings
    struct F {
        s: vs::Sock,
        got: Vec<u8>,
        from: usize,
        upto: Option<usize>,
        pings: usize,
    }
    let mut fs: Vec<F> = vec![];
    let n = if vs::thorough() { 8 } else { 6 };
    let mut writes = 0;
    for _ in 0..n {
        match vs::choice("event", 5) {
            0 => {
                write(&db, writes);
                write(&model.db, writes);
                writes += 1;
                let mut m = model.messages();
                vs::check(m.len() == 1, "a write is one message");
                done.append(&mut m);
            }
            1 => {
                if fs.len() == 2 {
                    return;
                }
                fs.push(F { s: l.connect(), got: vec![], from: done.len(), upto: None, pings: 0 });
                fs.last().unwrap().s.feed(common::SYNC_CMD);
            }
            2 => {
                let Some(f) = fs.iter_mut().find(|f| f.upto.is_none()) else { return };
                f.s.feed(common::SYNC_CMD_PING);
                f.pings += 1;
            }
            e => {
                let Some(f) = fs.get_mut(e - 3) else { return };
                if f.upto.is_some() {
                    return;
                }
                f.upto = Some(done.len());
                f.s.feed(b"");
            }
        }
        settle().await;
    }
    for (i, f) in fs.iter_mut().enumerate() {
        let (ms, none) = received(&f.s, &mut f.got);
        same(&ms, &done[f.from..f.upto.unwrap_or(done.len())], &format!("follower {i}"));
        vs::check(none >= f.pings, "each ping is answered");
        vs::check(f.upto.is_none() || f.s.closed(), "a follower that left is let go");
    }
    vs::reach("end");
}
async fn each_write(db: Arc<Db>) {
    vs::quiet();
    settle().await;
    let ops: Vec<&Op> = OPS.iter().filter(|o| o.write).collect();
    let o = ops[vs::choice("op", ops.len())];
    let kind = vs::choice("kind", KINDS + 1);
    if kind < KINDS && !o.needs.accepts(kind) {
        return;
    }
    let l = vs::Listener::forward();
    let mut fs = [(l.connect(), vec![]), (l.connect(), vec![])];
    for f in &fs {
        f.0.feed(common::SYNC_CMD);
    }
    settle().await;
    let f = new_side();
    if kind < KINDS {
        make(&db, S0, kind);
    }
    apply(&db, o, S0);
    write(&db, 5);
    settle().await;
    let (a, _) = received(&fs[0].0, &mut fs[0].1);
    let (b, _) = received(&fs[1].0, &mut fs[1].1);
    same(&b, &a, "the second follower");
    for m in a {
        vs::check(deliver(&f.db, m) == std::cmp::Ordering::Equal, "every message is the next one");
    }
    for k in [S0, S0B] {
        vs::check(raw(&db, k) == raw(&f.db, k), "the messages bring the leader's state");
    }
    vs::reach("end");
}
async fn large_backlog(db: Arc<Db>) {
    vs::quiet();
    settle().await;
    let l = vs::Listener::forward();
    let (slow, fast) = (l.connect(), l.connect());
    for s in [&slow, &fast] {
        s.feed(common::SYNC_CMD);
    }
    settle().await;
    let room = [1, 7, 500, 3000][vs::choice("room", 4)];
    slow.room(room);
    let mut model = new_side();
    let big = vec![b'x'; [20, 2000][vs::choice("size", 2)]];
    for i in 0..6 {
        for d in [&db, &model.db] {
            c!(d, "RPUSH", if i % 2 == 0 { S0 } else { S1 }, &big[..big.len() - i]);
        }
    }
    settle().await;
    let all = model.messages();
    let all: Vec<Message> = (0..6).map(|i| all.iter().find(|m| m.slot == i % 2 && m.id == 1 + i as u64 / 2).unwrap().clone()).collect();
    let mut got = vec![];
    let (ms, _) = received(&fast, &mut got);
    same(&ms, &all, "the fast follower");
    let mut got = vec![];
    loop {
        let b = slow.sent();
        if b.is_empty() {
            break;
        }
        got.extend(b);
        settle().await;
    }
    let (ms, _) = received(&slow, &mut got);
    same(&ms, &all, "the slow follower");
    vs::reach("end");
}
