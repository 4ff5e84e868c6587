//! The placement driver.
use crate::{job, vs, Job, NOW0};
use common::connection::parse::frame::Frame;
use common::pd_message::{LeaderInfo, ServerInit, ServerRole, ServerStatus};
use pd::status::{create_group, server_heartbeat, server_init, server_survival_check};
use std::{net::SocketAddr, time::Duration};

pub const JOBS: &[Job] = &[
    job!("C26", "joins", Db |_| joins(), "every sequence of 7 (thorough 8) group creations and joins of groups with any 64-bit id: fresh ids, one leader, the first to join"),
    job!("C26", "heartbeats", Db |_| heartbeats(), "4 servers in 2 groups, heartbeats with any 64-bit ids, either role and any leader: answered with what is held for exactly that server, or not at all"),
    job!("C26", "survival", Async |_| Box::pin(survival(3)), "3 servers of one group, every sequence of 6 (thorough 7) joins, heartbeats and survival checks with any times in between: one leader, replaced exactly when silent, by the living follower that joined first"),
    job!("C26", "two_groups", Async |_| Box::pin(two_groups()), "two groups with two servers each, any heartbeat times, one survival check: each group decided by its own servers"),
    job!("C26", "returning_leader", Async |_| Box::pin(returning_leader()), "a leader silent for any time returns, with or without others, before or after the checks: never two leaders, and all are told the same one"),
    job!("C26", "over_the_wire", Async |_| Box::pin(over_the_wire()), "requests over a connection, whole or with any byte of the payload changed or cut: answered from the status, or refused and the connection goes on"),
];

fn addr(i: usize) -> SocketAddr {
    ([10, 0, 0, i as u8], 100 + i as u16).into()
}
fn init(g: usize, i: usize) -> Option<ServerStatus> {
    match server_init(&ServerInit { group_id: g, server_addr: addr(i), forward_addr: addr(100 + i) }) {
        Ok(s) => Some(s),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}
fn info(id: usize, i: usize) -> LeaderInfo {
    LeaderInfo { server_id: id, server_addr: addr(i), forward_addr: addr(100 + i) }
}
/// What the placement driver holds for a server.
fn held(g: usize, s: usize) -> Option<ServerStatus> {
    // a status that is never the one held
    server_heartbeat(&ServerStatus { group_id: g, server_id: s, role: ServerRole::Follower, current_leader: Some(info(77, 77)) })
}
fn joins() {
    let mut groups: Vec<Vec<usize>> = vec![];
    for i in 0..vs::bound(7, 8) {
        if vs::flag("new group") {
            create_group();
            groups.push(vec![]);
            continue;
        }
        let g = vs::any_u64("group") as usize;
        let known = g >= 1 && g <= groups.len();
        match init(g, i) {
            None => vs::check(!known, "joining a group succeeds"),
            Some(s) => {
                vs::check(known, "joining an unknown group is refused");
                let m = &mut groups[vs::conc(g as u64) as usize - 1];
                vs::check(s.group_id == g, "the server is told its group");
                vs::check(s.server_id == m.len() + 1, "ids are given in order and not reused");
                vs::check((s.role == ServerRole::Leader) == m.is_empty(), "the first to join leads, nobody else");
                m.push(i);
                vs::check(s.current_leader == Some(info(1, m[0])), "the server is told the leader of its group");
            }
        }
    }
    for (g, m) in groups.iter().enumerate() {
        for s in 0..m.len() {
            match held(g + 1, s + 1) {
                Some(x) => {
                    vs::check((x.role == ServerRole::Leader) == (s == 0), "one leader in each group");
                    vs::check(x.current_leader == Some(info(1, m[0])), "all are told the same leader");
                }
                None => vs::check(false, "a server that joined is known"),
            }
        }
        vs::check(held(g + 1, m.len() + 1).is_none(), "a server that did not join is unknown");
    }
    vs::reach("end");
}
fn heartbeats() {
    create_group();
    create_group();
    for (i, g) in [1, 2, 1, 1].into_iter().enumerate() {
        vs::check(init(g, i).is_some(), "joining a group succeeds");
    }
    let (g, s) = (vs::any_u64("group") as usize, vs::any_u64("server") as usize);
    let role = [ServerRole::Leader, ServerRole::Follower][vs::choice("role", 2)];
    let leader = match vs::choice("leader", 4) {
        0 => None,
        1 => Some(info(1, 0)),
        2 => Some(info(1, 1)),
        _ => Some(info(vs::any_u64("leader id") as usize, vs::choice("leader addr", 2))),
    };
    let said = ServerStatus { group_id: g, server_id: s, role, current_leader: leader };
    let members = [3, 1];
    let first = [0, 1];
    let r = server_heartbeat(&said);
    let known = (g == 1 || g == 2) && s >= 1 && s <= members[if g == 1 { 0 } else { 1 }];
    if !known {
        vs::check(r.is_none(), "a heartbeat of an unknown server is nobody's");
        vs::reach("unknown");
        return;
    }
    let lead = info(1, first[vs::conc(g as u64) as usize - 1]);
    let role = if s == 1 { ServerRole::Leader } else { ServerRole::Follower };
    match r {
        None => vs::check(said.role == role && leader == Some(lead), "a server with another role or leader in mind is told"),
        Some(x) => {
            vs::check(x.group_id == g && x.server_id == s, "the answer is about the server that asked");
            vs::check(x.role == role, "the server is told its role");
            vs::check(x.current_leader == Some(lead), "the server is told its leader");
            vs::check(said.role != role || leader != Some(lead), "a server that is right is not answered");
        }
    }
    vs::reach("known");
}

struct Server {
    id: usize,
    who: usize,
    seen: u64,
    joined: u64,
    leads: bool,
}
/// The group as it should be.
struct Group {
    servers: Vec<Server>,
    leader: Option<LeaderInfo>,
}
impl Group {
    fn join(&mut self, g: usize, who: usize, now: u64) {
        let leads = !self.servers.iter().any(|s| s.leads);
        let id = self.servers.len() + 1;
        if leads {
            self.leader = Some(info(id, who));
        }
        match init(g, who) {
            Some(s) => {
                vs::check(s.server_id == id && s.group_id == g, "ids are given in order and not reused");
                vs::check((s.role == ServerRole::Leader) == leads, "a server leads when nobody else does");
                vs::check(s.current_leader == self.leader, "the server is told the leader of its group");
            }
            None => vs::check(false, "joining a group succeeds"),
        }
        self.servers.push(Server { id, who, seen: now, joined: now, leads });
    }
    fn beat(&mut self, g: usize, i: usize, now: u64) {
        let s = &mut self.servers[i];
        s.seen = now;
        match held(g, s.id) {
            Some(x) => {
                vs::check(x.server_id == s.id && x.group_id == g, "the answer is about the server that asked");
                vs::check((x.role == ServerRole::Leader) == s.leads, "the server is told its role");
                vs::check(x.current_leader == self.leader, "the server is told its leader");
            }
            None => vs::check(false, "a server that joined is known"),
        }
    }
    fn survival(&mut self, now: u64) {
        if let Some(l) = self.servers.iter_mut().find(|s| s.leads) {
            if l.seen + 3000 >= now {
                return;
            }
            l.leads = false;
        }
        let mut next: Option<usize> = None;
        for (i, s) in self.servers.iter().enumerate() {
            if s.seen + 3000 >= now {
                let sooner = match next {
                    None => true,
                    Some(n) => s.joined < self.servers[n].joined,
                };
                if sooner {
                    next = Some(i);
                }
            }
        }
        if let Some(i) = next {
            let s = &mut self.servers[i];
            s.leads = true;
            self.leader = Some(info(s.id, s.who));
        }
    }
    fn agree(&mut self, g: usize, now: u64) {
        for i in 0..self.servers.len() {
            self.beat(g, i, now);
        }
        vs::check(self.servers.iter().filter(|s| s.leads).count() <= 1, "at most one leader");
        vs::check(held(g, self.servers.len() + 1).is_none(), "nobody else is known");
    }
}
/// One survival check.
async fn check_survival() {
    let h = tokio::spawn(server_survival_check());
    tokio::time::sleep(Duration::from_millis(2)).await;
    h.abort();
    tokio::time::sleep(Duration::from_millis(2)).await;
}
fn pass(now: &mut u64) {
    let d = vs::any_u64("passed");
    vs::assume(d < 1 << 40);
    *now += d;
    vs::set_now(*now);
}
async fn survival(most: usize) {
    create_group();
    let mut g = Group { servers: vec![], leader: None };
    let mut now = NOW0;
    for n in 0..vs::bound(6, 7) {
        let i = vs::choice("step", g.servers.len() + 2);
        if n > 0 && i != g.servers.len() {
            pass(&mut now);
        }
        if i < g.servers.len() {
            g.beat(1, i, now);
        } else if i == g.servers.len() {
            if i == most {
                return;
            }
            g.join(1, i, now);
        } else {
            check_survival().await;
            g.survival(now);
        }
    }
    g.agree(1, now);
    vs::reach("end");
}
async fn two_groups() {
    create_group();
    create_group();
    let mut gs = [Group { servers: vec![], leader: None }, Group { servers: vec![], leader: None }];
    let mut now = NOW0;
    for i in 0..2 {
        gs[1].join(2, i, now);
        gs[0].join(1, 2 + i, now);
        now += 1;
        vs::set_now(now);
    }
    pass(&mut now);
    for g in 0..2 {
        for i in 0..2 {
            if vs::flag("beats") {
                gs[g].beat(g + 1, i, now);
            }
        }
    }
    pass(&mut now);
    check_survival().await;
    for g in 0..2 {
        gs[g].survival(now);
        gs[g].agree(g + 1, now);
    }
    vs::reach("end");
}
async fn returning_leader() {
    create_group();
    let mut g = Group { servers: vec![], leader: None };
    let mut now = NOW0;
    for i in 0..1 + vs::choice("followers", 3) {
        g.join(1, i, now);
        now += 7;
        vs::set_now(now);
    }
    for _ in 0..2 {
        pass(&mut now);
        for i in 1..g.servers.len() {
            if vs::flag("beats") {
                g.beat(1, i, now);
            }
        }
        let back = vs::choice("back", 3);
        if back == 1 {
            g.beat(1, 0, now);
        }
        check_survival().await;
        g.survival(now);
        if back == 2 {
            g.beat(1, 0, now);
        }
    }
    if g.servers.len() < 3 {
        let i = g.servers.len();
        g.join(1, i, now);
    }
    g.agree(1, now);
    vs::reach("end");
}
fn wire(name: &str, payload: &[u8]) -> Vec<u8> {
    (&Frame::Array(vec![Frame::Bulk(name.as_bytes()), Frame::Bulk(payload)])).into()
}
fn bulk(b: &[u8]) -> Vec<u8> {
    (&Frame::Bulk(b)).into()
}
async fn settle() {
    tokio::time::sleep(Duration::from_millis(3)).await;
}
async fn over_the_wire() {
    use common::pd_message::cmd::{CRATE_GROUP, SEVER_HEARTBEAT, SEVER_INIT};
    vs::quiet();
    let l = vs::Listener::new();
    let listener = l.listener();
    tokio::spawn(async move {
        if let Err(e) = pd::run(listener).await {
            std::mem::forget(e);
        }
    });
    settle().await;
    let c = l.connect();
    c.feed(&wire(CRATE_GROUP, b""));
    settle().await;
    vs::check(c.sent() == b"+OK\r\n", "a group is made");
    let mut req = bincode::serialize(&ServerInit { group_id: 1, server_addr: addr(1), forward_addr: addr(101) }).unwrap();
    let how = vs::choice("damage", 3);
    let whole = req.clone();
    match how {
        0 => {}
        1 => {
            let i = vs::choice("place", req.len());
            req[i] = vs::any_u8("byte");
        }
        _ => {
            let n = vs::choice("kept", req.len());
            req.truncate(n);
        }
    }
    c.feed(&wire(SEVER_INIT, &req));
    settle().await;
    let r = c.sent();
    if vs::same(&req, &whole) {
        let want = ServerStatus { server_id: 1, group_id: 1, role: ServerRole::Leader, current_leader: Some(info(1, 1)) };
        vs::check(vs::eq(&r, &bulk(&bincode::serialize(&want).unwrap())), "a join is answered from the status");
    } else {
        vs::check(!r.is_empty(), "a damaged request is answered or refused");
        if r[0] == b'-' {
            vs::check(held(1, 1).is_none(), "a refused join leaves no server behind");
            vs::reach("refused");
        } else {
            vs::check(held(1, 1).is_some(), "a join that is answered is held");
        }
    }
    // another connection
    let d = l.connect();
    let next = usize::from(held(1, 1).is_some()) + 1;
    d.feed(&wire(SEVER_INIT, &whole));
    settle().await;
    let role = if next == 1 { ServerRole::Leader } else { ServerRole::Follower };
    let held_leader = held(1, next).and_then(|s| s.current_leader);
    let want = ServerStatus { server_id: next, group_id: 1, role, current_leader: held_leader };
    vs::check(vs::eq(&d.sent(), &bulk(&bincode::serialize(&want).unwrap())), "later requests are answered");
    // heartbeats
    c.feed(&wire(SEVER_HEARTBEAT, &bincode::serialize(&want).unwrap()));
    settle().await;
    let none: Option<ServerStatus> = None;
    vs::check(c.sent() == bulk(&bincode::serialize(&none).unwrap()), "a server that is right is told nothing");
    let wrong = ServerStatus { current_leader: None, ..ServerStatus { server_id: next, group_id: 1, role, current_leader: None } };
    c.feed(&wire(SEVER_HEARTBEAT, &bincode::serialize(&wrong).unwrap()));
    settle().await;
    vs::check(vs::eq(&c.sent(), &bulk(&bincode::serialize(&Some(want)).unwrap())), "a server that is wrong is told what is held");
    vs::reach("end");
}
