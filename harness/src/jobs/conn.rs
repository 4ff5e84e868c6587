//! Connections: order of replies, segments, ends, errors, and their number.
use crate::{c, job, r::*, vs, Job};
use common::connection::Connection;
use db::Db;
use server::verif::{listen, serve};
use std::{sync::Arc, time::Duration};
use tokio::task::JoinHandle;

pub const JOBS: &[Job] = &[
    job!("C04", "split_once", Async |db| Box::pin(split(db, 1)), "7 pipelined requests with 2 arbitrary bytes, cut into two segments at every position"),
    job!("C04", "split_twice", Async |db| Box::pin(split(db, 2)), "3 pipelined requests with 1 arbitrary byte, cut into three segments at every two positions"),
    job!("C04", "single_bytes", Async |db| Box::pin(single_bytes(db)), "8 pipelined requests in segments of every size 1..8"),
    job!("C04", "cut_off", Async |db| Box::pin(cut_off(db)), "6 pipelined requests ended at every position, in one or two segments: complete requests are executed and answered, the cut one is not"),
    job!("C04", "protocol_error", Async |db| Box::pin(protocol_error(db)), "complete requests followed by one of 11 malformed ones or 1..2 arbitrary bytes, together or apart: the complete ones are answered, other connections go on"),
    job!("C04", "two_connections", Async |db| Box::pin(two_connections(db)), "two connections with 3 requests each, in 6 segments in every order: each gets its own replies in order"),
    job!("C04", "large", Async |db| Box::pin(large(db)), "requests and replies of 9..40 KB with an arbitrary byte, cut at places around the buffer size, read slowly or at once"),
    job!("C29", "permits", Async |db| Box::pin(permits(db)), "limit 1 or 2; every sequence of 5 (thorough 7) events out of connect, request, leave, offend: served connections, and nobody else, are answered"),
    job!("C29", "all_return", Async |db| Box::pin(all_return(db)), "limit 1..3; as many connections end by leaving, by a cut request, and by a malformed one in every combination: as many new ones are served, no more"),
];

pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(3)).await;
}
fn open(db: &Arc<Db>) -> (vs::Sock, JoinHandle<bool>) {
    let s = vs::Sock::new();
    let c = Connection::new(s.stream());
    let db = db.clone();
    let h = tokio::spawn(async move {
        match serve(db, c).await {
            Ok(()) => true,
            Err(e) => {
                std::mem::forget(e);
                false
            }
        }
    });
    (s, h)
}
/// The bytes of a request.
fn wire(args: &[&[u8]]) -> Vec<u8> {
    let mut v = format!("*{}\r\n", args.len()).into_bytes();
    for a in args {
        v.extend(format!("${}\r\n", a.len()).into_bytes());
        v.extend_from_slice(a);
        v.extend_from_slice(b"\r\n");
    }
    v
}
fn bulk(b: &[u8]) -> Vec<u8> {
    let mut v = format!("${}\r\n", b.len()).into_bytes();
    v.extend_from_slice(b);
    v.extend_from_slice(b"\r\n");
    v
}
/// Requests with the reply of each.
fn script(k: &str, x: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let k = k.as_bytes();
    let l = [k, b"l"].concat();
    vec![
        (wire(&[b"SET", k, x]), b"+OK\r\n".to_vec()),
        (wire(&[b"GET", k]), bulk(x)),
        (wire(&[b"RPUSH", &l, b"", x]), b":2\r\n".to_vec()),
        (wire(&[b"LPUSH", k, x]), b"-WRONGTYPE Operation against a key holding the wrong kind of value\r\n".to_vec()),
        (wire(&[b"LRANGE", &l, b"0", b"-1"]), [b"*2\r\n$0\r\n\r\n".to_vec(), bulk(x)].concat()),
        (wire(&[b"DEL", k, &l]), b":2\r\n".to_vec()),
        (wire(&[b"get", k]), b"$-1\r\n".to_vec()),
        (wire(&[b"PING"]), b"+PONG\r\n".to_vec()),
    ]
}
fn all(s: &[(Vec<u8>, Vec<u8>)]) -> (Vec<u8>, Vec<u8>) {
    (s.iter().flat_map(|x| x.0.clone()).collect(), s.iter().flat_map(|x| x.1.clone()).collect())
}
fn answered(got: &[u8], want: &[u8], when: &str) {
    vs::check(got.len() == want.len(), &format!("{when}: every request is answered once"));
    vs::check(vs::eq(got, want), &format!("{when}: every request gets its reply, in order"));
}
async fn split(db: Arc<Db>, cuts: usize) {
    let x = vs::bytes("payload", 3 - cuts);
    let mut s = script("{t}k", &x);
    s.truncate(if cuts == 1 { 7 } else { 2 });
    if cuts > 1 {
        s.push((wire(&[b"PING"]), b"+PONG\r\n".to_vec()));
    }
    let (sent, want) = all(&s);
    let (sock, h) = open(&db);
    let mut from = 0;
    for i in 0..cuts {
        let at = from + vs::choice("cut", sent.len() - from - (cuts - i));
        sock.feed(&sent[from..at + 1]);
        from = at + 1;
        settle().await;
    }
    sock.feed(&sent[from..]);
    settle().await;
    answered(&sock.sent(), &want, "cut into segments");
    sock.feed(b"");
    settle().await;
    vs::check(h.is_finished() && h.await.unwrap(), "the end of the stream ends the connection");
    vs::reach("end");
}
async fn single_bytes(db: Arc<Db>) {
    let x = vs::bytes("payload", 2);
    let (sent, want) = all(&script("{t}k", &x));
    let (sock, _h) = open(&db);
    let n = 1 + vs::choice("segment", 8);
    let together = vs::flag("together");
    for b in sent.chunks(n) {
        sock.feed(b);
        if !together {
            settle().await;
        }
    }
    settle().await;
    answered(&sock.sent(), &want, "in small segments");
    vs::reach("end");
}
async fn cut_off(db: Arc<Db>) {
    let x = vs::bytes("payload", 1);
    let mut s = script("{t}k", &x);
    s.truncate(6);
    let (sent, _) = all(&s);
    let n = vs::choice("kept", sent.len());
    let (mut len, mut want, mut done) = (0, vec![], 0);
    for (q, a) in &s {
        len += q.len();
        if len > n {
            break;
        }
        want.extend_from_slice(a);
        done += 1;
    }
    let (sock, h) = open(&db);
    let at = if vs::flag("apart") { n / 2 } else { 0 };
    if at > 0 {
        sock.feed(&sent[..at]);
        settle().await;
    }
    if n > at {
        sock.feed(&sent[at..n]);
    }
    sock.feed(b"");
    settle().await;
    answered(&sock.sent(), &want, "cut off");
    vs::check(h.is_finished(), "the end of the stream ends the connection");
    vs::check(sock.closed(), "the end of the stream ends the connection");
    // what was executed: exactly the complete requests
    let g = c!(&db, "GET", "{t}k");
    let l = c!(&db, "LLEN", "{t}kl");
    vs::check(if (1..6).contains(&done) { g.is(&x) } else { g.is_nil() }, "only complete requests are executed");
    vs::check(l.is_int(if (3..6).contains(&done) { 2 } else { 0 }), "only complete requests are executed");
    vs::reach("end");
}
async fn protocol_error(db: Arc<Db>) {
    const BAD: &[&[u8]] = &[
        b"$-2\r\nx\r\n",
        b"*1\r\n$1\r\nxyz\r\n",
        b"*2\r\n$3\r\nGET\r\n*0\r\n",
        b"*1\r\n$3\r\nGET\r\n",
        b"*3\r\n$3\r\nGET\r\n$1\r\na\r\n$1\r\nb\r\n",
        b"*2\r\n:1\r\n:2\r\n",
        b"*0\r\n",
        b"*1\r\n$-1\r\n",
        b":5\r\n",
        b"*2\r\n$3\r\nGET\r\n$2\r\nab",
        b"\xff\xfe\r\n",
    ];
    let x = vs::bytes("payload", 1);
    let mut s = script("{t}k", &x);
    s.truncate(1 + vs::choice("before", 2) * 2);
    let (mut sent, want) = all(&s);
    let (other, h2) = open(&db);
    let (sock, h) = open(&db);
    let i = vs::choice("bad", BAD.len() + 1);
    let bad = if i < BAD.len() { BAD[i].to_vec() } else { vs::blob("bytes", 1, 2) };
    if i == BAD.len() {
        // a lone line end and an inline command are not errors
        vs::assume(bad[0] != b'\r');
    }
    if vs::flag("apart") {
        sock.feed(&sent);
        settle().await;
        sock.feed(&bad);
    } else {
        sent.extend_from_slice(&bad);
        sock.feed(&sent);
    }
    settle().await;
    let got = sock.sent();
    vs::check(got.len() >= want.len(), "requests before a malformed one are answered");
    vs::check(vs::eq(&got[..want.len()], &want), "requests before a malformed one are answered");
    // whatever became of this connection, the other one works
    other.feed(&wire(&[b"GET", b"{t}k"]));
    settle().await;
    answered(&other.sent(), &bulk(&x), "next to a failed connection");
    vs::check(!h2.is_finished(), "a protocol error ends only its own connection");
    if h.is_finished() {
        vs::check(!h.await.unwrap() && sock.closed(), "a protocol error ends the connection");
        vs::reach("ended");
    } else {
        sock.feed(b"");
        settle().await;
        vs::check(h.is_finished(), "the end of the stream ends the connection");
        vs::reach("waiting");
    }
}
async fn two_connections(db: Arc<Db>) {
    let x = vs::bytes("payload", 2);
    let (a, ha) = open(&db);
    let (b, hb) = open(&db);
    let sa = script("{t}a", &x[..1]);
    let sb = script("{t}b", &x[1..]);
    let (ta, wa) = all(&sa[..3]);
    let (tb, wb) = all(&sb[..3]);
    // three segments each, in every order; one of them may leave early
    let seg = |t: &[u8], i: usize| t[i * t.len() / 3..(i + 1) * t.len() / 3].to_vec();
    let (mut i, mut j) = (0, 0);
    while i + j < 6 {
        if j == 3 || (i < 3 && vs::flag("first")) {
            a.feed(&seg(&ta, i));
            i += 1;
        } else {
            b.feed(&seg(&tb, j));
            j += 1;
        }
        if vs::flag("settle") {
            settle().await;
        }
    }
    settle().await;
    answered(&a.sent(), &wa, "next to another connection");
    answered(&b.sent(), &wb, "next to another connection");
    a.feed(b"");
    settle().await;
    vs::check(ha.is_finished() && !hb.is_finished(), "the end of one connection is not the end of another");
    b.feed(&wire(&[b"GET", b"{t}a"]));
    settle().await;
    answered(&b.sent(), &bulk(&x[..1]), "after another connection ended");
    vs::reach("end");
}
async fn large(db: Arc<Db>) {
    let n = [9_000, 8_192, 16_384, 40_000][vs::choice("size", 4)];
    let mut v = vec![b'.'; n];
    v[n - 1] = vs::any_u8("last");
    v[0] = b'\r';
    v[1] = b'\n';
    let mut sent = wire(&[b"SET", b"k", &v]);
    let mut want = b"+OK\r\n".to_vec();
    for _ in 0..2 {
        sent.extend(wire(&[b"GET", b"k"]));
        want.extend(bulk(&v));
    }
    let (sock, _h) = open(&db);
    let slow = vs::flag("slow reader");
    if slow {
        sock.room(5_000);
    }
    let at = [10, 8_191, 8_192, 8_193, n, n + 40][vs::choice("cut", 6)];
    sock.feed(&sent[..at]);
    if vs::flag("apart") {
        settle().await;
    }
    sock.feed(&sent[at..]);
    let mut got = vec![];
    for _ in 0..if slow { 30 } else { 2 } {
        settle().await;
        got.extend(sock.sent());
    }
    answered(&got, &want, "of any size");
    vs::reach("end");
}

/// A client of the listener: what it asked and has not been answered.
struct Client {
    sock: vs::Sock,
    asked: usize,
    answered: usize,
    gone: bool,
}
impl Client {
    fn ask(&mut self) {
        self.sock.feed(b"*1\r\n$4\r\nPING\r\n");
        self.asked += 1;
    }
    fn look(&mut self) {
        let got = self.sock.sent();
        vs::check(got.len() % 7 == 0 && got.chunks(7).all(|c| c == b"+PONG\r\n"), "a served connection is answered");
        self.answered += got.len() / 7;
    }
}
async fn permits(db: Arc<Db>) {
    let limit = 1 + vs::choice("limit", 2);
    let l = vs::Listener::new();
    let listener = l.listener();
    tokio::spawn(listen(db.clone(), listener, limit));
    settle().await;
    let mut cs: Vec<Client> = vec![];
    for _ in 0..vs::bound(5, 7) {
        let here: Vec<usize> = (0..cs.len()).filter(|i| !cs[*i].gone).collect();
        let e = vs::choice("event", 1 + here.len() * 3);
        if e == 0 {
            cs.push(Client { sock: l.connect(), asked: 0, answered: 0, gone: false });
            cs.last_mut().unwrap().ask();
        } else {
            let i = here[(e - 1) / 3];
            match (e - 1) % 3 {
                0 => cs[i].ask(),
                1 => {
                    cs[i].sock.feed(b"");
                    cs[i].gone = true;
                }
                _ => {
                    cs[i].sock.feed(b"*1\r\n$3\r\nGET\r\n");
                    cs[i].gone = true;
                }
            }
        }
        settle().await;
        settle().await;
        // connections are served in the order they came, `limit` at a time
        let mut places = limit;
        for c in &mut cs {
            c.look();
            if c.gone {
                // one that left while it waited is served and found gone in its turn
                if places > 0 {
                    vs::check(c.answered == c.asked, "a connection that left was served before");
                }
                continue;
            }
            if places > 0 {
                places -= 1;
                vs::check(c.answered == c.asked, "a waiting connection gets a place that is free");
            } else {
                vs::check(c.answered == 0, "never more connections are served than the limit");
            }
        }
    }
    vs::reach("end");
}
async fn all_return(db: Arc<Db>) {
    let limit = 1 + vs::choice("limit", 3);
    let l = vs::Listener::new();
    let listener = l.listener();
    tokio::spawn(listen(db.clone(), listener, limit));
    settle().await;
    let mut cs = vec![];
    for _ in 0..limit {
        let mut c = Client { sock: l.connect(), asked: 0, answered: 0, gone: false };
        c.ask();
        cs.push(c);
    }
    settle().await;
    for c in &mut cs {
        c.look();
        vs::check(c.answered == 1, "connections within the limit are served");
        let how: &[u8] = [&b""[..], b"*1\r\n$4\r\nPI", b"*1\r\n$3\r\nGET\r\n", b"*9999999\r\n$4\r\nPI"][vs::choice("end", 4)];
        if !how.is_empty() {
            c.sock.feed(how);
            settle().await;
        }
        c.sock.feed(b"");
        if vs::flag("settle") {
            settle().await;
        }
    }
    settle().await;
    // as many again, and one more
    let mut cs: Vec<Client> = (0..=limit).map(|_| Client { sock: l.connect(), asked: 0, answered: 0, gone: false }).collect();
    for c in &mut cs {
        c.ask();
    }
    settle().await;
    settle().await;
    let mut n = 0;
    for c in &mut cs {
        c.look();
        n += c.answered;
    }
    vs::check(n == limit, "every place comes back exactly once");
    vs::reach("end");
}
