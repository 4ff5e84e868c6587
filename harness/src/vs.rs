//! The harness side of the symbolic executor.
//!
//! Without the `native` feature the functions below are undefined symbols that
//! the executor gives meaning to. With it they read the values of one concrete
//! counterexample, so the very same harness code runs natively against the
//! real implementation.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
extern "C" {
    fn vsym_thorough() -> u64;
    fn vsym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) -> u64;
    fn vsym_int(bits: u64, name: *const u8, nl: usize) -> u64;
    fn vsym_choice(n: u64, name: *const u8, nl: usize) -> u64;
    fn vsym_conc(x: u64) -> u64;
    fn vsym_assume(c: u64) -> u64;
    fn vsym_assert(c: u64, m: *const u8, ml: usize) -> u64;
    fn vsym_reach(m: *const u8, ml: usize) -> u64;
    fn vsym_trace(m: *const u8, ml: usize, v: u64) -> u64;
    fn vsym_print(m: *const u8, ml: usize, v: u64) -> u64;
    fn vsym_set_now(ms: u64) -> u64;
    fn vsym_tick() -> u64;
    fn vsym_preempt(n: u64) -> u64;
    fn vsym_arm(on: u64) -> u64;
    fn vsym_bits(c: u64, a: u64, b: u64) -> u64;
    fn vsym_and(a: u64, b: u64) -> u64;
    fn vsym_or(a: u64, b: u64) -> u64;
    fn vsym_sock() -> u64;
    fn vsym_feed(fd: u64, p: *const u8, n: usize) -> u64;
    fn vsym_sent(fd: u64, p: *mut u8, n: usize) -> u64;
    fn vsym_room(fd: u64, n: u64) -> u64;
    fn vsym_closed(fd: u64) -> u64;
    fn vsym_listen() -> u64;
    fn vsym_connect(l: u64) -> u64;
    fn vsym_peer(port: u64) -> u64;
    fn vsym_bound(i: u64) -> u64;
    fn vsym_fork_as(pid: u64) -> u64;
    fn vsym_at_exit(f: u64) -> u64;
    fn vsym_done() -> u64;
    pub fn vsym_stage(k: u64) -> i64;
}

#[cfg(feature = "native")]
pub mod native {
    use std::collections::VecDeque;
    use std::io::{Read, Write};
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
    use std::sync::Mutex;
    pub static INPUTS: Mutex<VecDeque<(String, u32, u128)>> = Mutex::new(VecDeque::new());
    /// Wall clock in ms seen by the code under test; negative = not frozen.
    pub static NOW: AtomicI64 = AtomicI64::new(-1);
    pub static TICK: AtomicI64 = AtomicI64::new(-1);
    pub static FAILS: AtomicU64 = AtomicU64::new(0);
    pub static THOROUGH: AtomicU64 = AtomicU64::new(0);
    pub static SOCKS: Mutex<Vec<(u64, std::net::TcpStream)>> = Mutex::new(Vec::new());
    pub const DIVERGED: i32 = 77;

    pub fn next(name: &str) -> u64 {
        match INPUTS.lock().unwrap().pop_front() {
            Some((n, _, v)) if n == name => v as u64,
            Some((n, ..)) => {
                println!("DIVERGED: wanted input {name}, the counterexample has {n}");
                quit(DIVERGED)
            }
            // inputs created after the point of the counterexample
            None => 0,
        }
    }
    /// Threads that wait for each other to start together.
    pub static GATE: AtomicU64 = AtomicU64::new(0);
    static ROUND: AtomicU64 = AtomicU64::new(0);
    static SEED: AtomicU64 = AtomicU64::new(0x9e37_79b9_7f4a_7c15);
    pub fn gate() -> (&'static AtomicU64, (u64, u64)) {
        GATE.store(0, Ordering::SeqCst);
        let mut x = SEED.load(Ordering::Relaxed);
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        SEED.store(x, Ordering::Relaxed);
        let range = 1 << (x >> 60);
        let d = (x >> 20) % range;
        (&GATE, if x & 1 == 0 { (d, 0) } else { (0, d) })
    }
    pub fn pass(gate: &AtomicU64, delay: u64) {
        gate.fetch_add(1, Ordering::SeqCst);
        while gate.load(Ordering::SeqCst) < 2 {
            std::hint::spin_loop();
        }
        for i in 0..delay {
            std::hint::black_box(i);
        }
    }
    pub fn more() -> bool {
        let n = ROUND.fetch_add(1, Ordering::Relaxed);
        if std::env::var_os("VS_STRESS").is_none() {
            return n < 20;
        }
        static START: std::sync::OnceLock<i64> = std::sync::OnceLock::new();
        mono_ms() - START.get_or_init(mono_ms) < 25_000
    }
    #[repr(C)]
    pub struct Ts {
        s: i64,
        n: i64,
    }
    fn raw(id: i32, t: &mut Ts) -> i32 {
        let r: i64;
        unsafe {
            std::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") id as i64,
                in("rsi") t as *mut Ts, out("rcx") _, out("r11") _);
        }
        r as i32
    }
    fn mono_ms() -> i64 {
        let mut t = Ts { s: 0, n: 0 };
        raw(1, &mut t);
        t.s * 1000 + t.n / 1_000_000
    }
    /// The wall clock of the code under test.
    #[no_mangle]
    pub extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
        let t = unsafe { &mut *t };
        let now = NOW.load(Ordering::Relaxed);
        if id == 0 && now >= 0 {
            let from = TICK.load(Ordering::Relaxed);
            let now = now + if from >= 0 { mono_ms() - from } else { 0 };
            t.s = now / 1000;
            t.n = now % 1000 * 1_000_000;
            return 0;
        }
        raw(id, t)
    }
    pub fn tick() {
        TICK.store(mono_ms(), Ordering::Relaxed);
    }
    pub fn sock() -> u64 {
        use std::os::fd::IntoRawFd;
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let peer = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
        peer.set_nodelay(true).unwrap();
        let (s, _) = l.accept().unwrap();
        s.set_nonblocking(true).unwrap();
        s.set_nodelay(true).unwrap();
        let fd = s.into_raw_fd() as u64;
        SOCKS.lock().unwrap().push((fd, peer));
        fd
    }
    /// Leave at once, also from within an exit handler.
    pub fn quit(code: i32) -> ! {
        extern "C" {
            fn _exit(code: i32) -> !;
        }
        let _ = std::io::stdout().flush();
        unsafe { _exit(code) }
    }
    static FORK_AS: AtomicI64 = AtomicI64::new(-1);
    pub fn fork_as(pid: u64) {
        FORK_AS.store(pid as i64, Ordering::SeqCst);
    }
    /// No second process: the caller goes on as the child, or as the parent.
    #[no_mangle]
    pub extern "C" fn fork() -> i32 {
        FORK_AS.load(Ordering::SeqCst) as i32
    }
    static AT_EXIT: Mutex<Option<fn()>> = Mutex::new(None);
    extern "C" fn exiting() {
        if let Some(f) = AT_EXIT.lock().unwrap().take() {
            f();
            println!("DONE");
            quit(0);
        }
    }
    pub fn at_exit(f: fn()) {
        extern "C" {
            fn atexit(f: extern "C" fn()) -> i32;
        }
        *AT_EXIT.lock().unwrap() = Some(f);
        unsafe { atexit(exiting) };
    }
    /// A socket that waits to be connected to.
    pub fn peer() -> (u64, std::net::SocketAddr) {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let a = l.local_addr().unwrap();
        let mut s = SOCKS.lock().unwrap();
        let id = 2 << 32 | s.len() as u64;
        // a placeholder until the connection is there
        s.push((id, std::net::TcpStream::connect(a).unwrap()));
        drop(l.accept());
        LATER.lock().unwrap().push((id, l, vec![], false, 0));
        (id, a)
    }
    pub fn again(fd: u64) -> u64 {
        let mut l = LATER.lock().unwrap();
        let first = l.iter().find(|x| x.0 == fd).unwrap().1.try_clone().unwrap();
        let mut s = SOCKS.lock().unwrap();
        let id = 2 << 32 | s.len() as u64;
        let spare = s.iter().find(|x| x.0 == fd).unwrap().1.try_clone().unwrap();
        s.push((id, spare));
        l.push((id, first, vec![], false, fd));
        id
    }
    /// Connections that were taken.
    static TAKEN: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    /// Listeners not yet connected to, and what to send there.
    static LATER: Mutex<Vec<(u64, std::net::TcpListener, Vec<u8>, bool, u64)>> = Mutex::new(Vec::new());
    fn later(fd: u64, b: &[u8]) -> bool {
        for (f, _, v, eof, _) in LATER.lock().unwrap().iter_mut() {
            if *f == fd {
                v.extend_from_slice(b);
                *eof |= b.is_empty();
                return true;
            }
        }
        false
    }
    /// Serve what was queued for the peers, on threads of their own.
    pub fn go(fd: u64) {
        let mut l = LATER.lock().unwrap();
        if let Some(i) = l.iter().position(|x| x.0 == fd) {
            let (id, l, v, eof, after) = l.remove(i);
            std::thread::spawn(move || {
                while after != 0 && !TAKEN.lock().unwrap().contains(&after) {
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                let (mut s, _) = l.accept().unwrap();
                TAKEN.lock().unwrap().push(id);
                s.set_nodelay(true).unwrap();
                for (f, p) in SOCKS.lock().unwrap().iter_mut() {
                    if *f == id {
                        *p = s.try_clone().unwrap();
                    }
                }
                let _ = s.write_all(&v);
                if eof {
                    let _ = s.shutdown(std::net::Shutdown::Write);
                }
            });
        }
    }
    static DRAINED: Mutex<Vec<u8>> = Mutex::new(Vec::new());
    /// Take what is sent, but not at once.
    pub fn drain(fd: u64) {
        let mut s = SOCKS.lock().unwrap().iter().find(|x| x.0 == fd).unwrap().1.try_clone().unwrap();
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let mut b = [0; 4096];
            while let Ok(n) = s.read(&mut b) {
                if n == 0 {
                    break;
                }
                DRAINED.lock().unwrap().extend_from_slice(&b[..n]);
            }
        });
    }
    pub fn room(fd: u64, n: u64) {
        extern "C" {
            fn setsockopt(fd: i32, level: i32, opt: i32, p: *const i32, n: u32) -> i32;
        }
        let n = n as i32;
        unsafe { setsockopt(fd as i32, 1, 7, &n, 4) };
    }
    pub static LISTENER: Mutex<Option<std::net::SocketAddr>> = Mutex::new(None);
    pub fn listen() -> u64 {
        use std::os::fd::IntoRawFd;
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.set_nonblocking(true).unwrap();
        *LISTENER.lock().unwrap() = Some(l.local_addr().unwrap());
        l.into_raw_fd() as u64
    }
    /// Have the code under test listen for followers at a free port.
    pub fn configure() {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        std::env::set_var("RUDIS_FORWARD_ADDR", l.local_addr().unwrap().to_string());
    }
    pub fn forward() -> u64 {
        *LISTENER.lock().unwrap() = Some(std::env::var("RUDIS_FORWARD_ADDR").unwrap().parse().unwrap());
        0
    }
    pub fn connect() -> u64 {
        let peer = std::net::TcpStream::connect(LISTENER.lock().unwrap().unwrap()).unwrap();
        peer.set_nodelay(true).unwrap();
        let mut s = SOCKS.lock().unwrap();
        let id = 1 << 32 | s.len() as u64;
        s.push((id, peer));
        id
    }
    pub fn closed(fd: u64) -> bool {
        for (f, s) in SOCKS.lock().unwrap().iter_mut() {
            if *f == fd {
                s.set_nonblocking(true).unwrap();
                return match s.peek(&mut [0]) {
                    Ok(n) => n == 0,
                    Err(e) => e.kind() != std::io::ErrorKind::WouldBlock,
                };
            }
        }
        false
    }
    pub fn feed(fd: u64, b: &[u8]) {
        if later(fd, b) {
            return;
        }
        for (f, s) in SOCKS.lock().unwrap().iter_mut() {
            if *f == fd {
                if b.is_empty() {
                    let _ = s.shutdown(std::net::Shutdown::Write);
                } else {
                    let _ = s.write_all(b);
                    std::thread::sleep(std::time::Duration::from_millis(2));
                }
            }
        }
    }
    pub fn sent(fd: u64) -> Vec<u8> {
        // the server's end of an accepted connection delays small segments
        std::thread::sleep(std::time::Duration::from_millis(if fd >> 32 == 1 { 60 } else { 20 }));
        let mut r = std::mem::take(&mut *DRAINED.lock().unwrap());
        if !r.is_empty() {
            return r;
        }
        for (f, s) in SOCKS.lock().unwrap().iter_mut() {
            if *f == fd {
                s.set_nonblocking(true).unwrap();
                let mut b = [0; 4096];
                while let Ok(n) = s.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    r.extend_from_slice(&b[..n]);
                }
            }
        }
        r
    }
}

/// A fresh unconstrained integer of `bits` bits.
#[inline(never)]
pub fn int(name: &str, bits: u32) -> u64 {
    #[cfg(feature = "native")]
    return native::next(name);
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_int(bits.into(), name.as_ptr(), name.len())
    }
}
pub fn any_u64(name: &str) -> u64 {
    int(name, 64)
}
pub fn any_i64(name: &str) -> i64 {
    int(name, 64) as i64
}
pub fn any_f64(name: &str) -> f64 {
    f64::from_bits(int(name, 64))
}
pub fn any_u8(name: &str) -> u8 {
    int(name, 8) as u8
}
/// A boolean, both values explored as separate paths.
pub fn flag(name: &str) -> bool {
    choice(name, 2) == 1
}
/// One of `0..n`, every value explored as a path of its own.
#[inline(never)]
pub fn choice(name: &str, n: usize) -> usize {
    #[cfg(feature = "native")]
    return native::next(name) as usize % n;
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_choice(n as u64, name.as_ptr(), name.len()) as usize
    }
}
/// `n` unconstrained bytes.
#[inline(never)]
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    #[cfg(feature = "native")]
    for b in &mut v {
        *b = native::next(name) as u8;
    }
    #[cfg(not(feature = "native"))]
    if n > 0 {
        unsafe { vsym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    }
    v
}
/// A byte string of unconstrained content and of every length `lo..=hi`.
pub fn blob(name: &str, lo: usize, hi: usize) -> Vec<u8> {
    let n = lo + choice(&format!("{name}.len"), hi - lo + 1);
    bytes(name, n)
}
/// Fix a symbolic value to each of its feasible values in turn.
#[inline(never)]
pub fn conc(x: u64) -> u64 {
    #[cfg(feature = "native")]
    return x;
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_conc(x)
    }
}
#[inline(never)]
pub fn assume(c: bool) {
    #[cfg(feature = "native")]
    if !c {
        println!("DIVERGED: an assumption of the harness does not hold");
        native::quit(native::DIVERGED);
    }
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_assume(c.into());
    }
}
#[inline(never)]
pub fn check(c: bool, m: &str) {
    #[cfg(feature = "native")]
    if !c {
        println!("ASSERT-FAIL: {m}");
        native::FAILS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        native::quit(10);
    }
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_assert(c.into(), m.as_ptr(), m.len());
    }
}
/// Report that this point was reached (vacuity witness).
#[inline(never)]
pub fn reach(m: &str) {
    #[cfg(feature = "native")]
    println!("REACH: {m}");
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_reach(m.as_ptr(), m.len());
    }
}
/// Record an observed value, compared between symbolic run and native replay.
#[inline(never)]
pub fn trace(m: &str, v: u64) {
    if QUIET.load(std::sync::atomic::Ordering::Relaxed) {
        return;
    }
    #[cfg(feature = "native")]
    println!("TRACE: {m} {v}");
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_trace(m.as_ptr(), m.len(), v);
    }
}
/// Debugging aid.
#[inline(never)]
pub fn print(m: &str, v: u64) {
    #[cfg(feature = "native")]
    println!("PRINT: {m} {v}");
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_print(m.as_ptr(), m.len(), v);
    }
}
/// Deeper bounds are wanted.
#[inline(never)]
pub fn thorough() -> bool {
    #[cfg(feature = "native")]
    return native::THOROUGH.load(std::sync::atomic::Ordering::Relaxed) != 0;
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_thorough() != 0
    }
}
/// Quick / thorough bound.
pub fn bound(quick: usize, deep: usize) -> usize {
    if thorough() {
        deep
    } else {
        quick
    }
}
/// Freeze the wall clock at `ms` since the epoch.
#[inline(never)]
pub fn set_now(ms: u64) {
    #[cfg(feature = "native")]
    native::NOW.store(ms as i64, std::sync::atomic::Ordering::Relaxed);
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_set_now(ms);
    }
}
/// With a running clock or several threads a native run need not match step by step.
static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn quiet() {
    QUIET.store(true, std::sync::atomic::Ordering::Relaxed);
}
/// From here on the wall clock advances together with the monotonic clock.
#[inline(never)]
pub fn tick() {
    quiet();
    #[cfg(feature = "native")]
    native::tick();
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_tick();
    }
}
#[inline(never)]
fn arm(on: bool) {
    #[cfg(feature = "native")]
    let _ = on;
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_arm(on.into());
    }
}
/// Run `a` and `b` on threads of their own, in every interleaving with up to `n`
/// preemptions, each right before an atomic read-modify-write operation of the code.
pub fn race<A, B: Send + 'static>(n: u64, a: impl FnOnce() -> A, b: impl FnOnce() -> B + Send + 'static) -> (A, B) {
    let rt = tokio::runtime::Handle::try_current().ok();
    #[cfg(feature = "native")]
    let (gate, delay) = native::gate();
    let t = std::thread::spawn(move || {
        let _rt = rt.as_ref().map(|h| h.enter());
        #[cfg(feature = "native")]
        native::pass(&gate, delay.1);
        arm(true);
        let r = b();
        arm(false);
        r
    });
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_preempt(n);
    }
    #[cfg(feature = "native")]
    {
        let _ = n;
        native::pass(&native::GATE, delay.0);
    }
    arm(true);
    let x = a();
    arm(false);
    let y = match t.join() {
        Ok(y) => y,
        Err(_) => {
            check(false, "a thread panicked");
            unreachable!()
        }
    };
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_preempt(0);
    }
    (x, y)
}
/// How often the body of a job with threads runs: once, natively as often as needed to meet
/// the interleaving again.
pub fn again() -> bool {
    quiet();
    #[cfg(feature = "native")]
    return native::more();
    #[cfg(not(feature = "native"))]
    {
        static ONCE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
        ONCE.swap(false, std::sync::atomic::Ordering::Relaxed)
    }
}
/// `if c { a } else { b }` without a branch.
#[inline(never)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    #[cfg(feature = "native")]
    return if c { a } else { b };
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_bits(c.into(), a, b)
    }
}
/// Conjunction without a branch.
#[inline(never)]
pub fn and(a: bool, b: bool) -> bool {
    #[cfg(feature = "native")]
    return a && b;
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_and(a.into(), b.into()) & 1 != 0
    }
}
#[inline(never)]
pub fn or(a: bool, b: bool) -> bool {
    #[cfg(feature = "native")]
    return a || b;
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_or(a.into(), b.into()) & 1 != 0
    }
}
/// Equality of byte strings as one condition.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = and(r, a[i] == b[i]);
    }
    r
}
/// Equality of byte strings, both outcomes explored as separate paths.
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if eq(a, b) {
        std::hint::black_box(true)
    } else {
        std::hint::black_box(false)
    }
}
/// A stream socket whose incoming bytes the harness supplies.
pub struct Sock(pub u64);
impl Sock {
    #[inline(never)]
    pub fn new() -> Self {
        #[cfg(feature = "native")]
        return Self(native::sock());
        #[cfg(not(feature = "native"))]
        Self(unsafe { vsym_sock() })
    }
    /// The server's end as a tokio stream (taken once).
    pub fn stream(&self) -> tokio::net::TcpStream {
        use std::os::fd::FromRawFd;
        let s = unsafe { std::net::TcpStream::from_raw_fd(self.0 as i32) };
        tokio::net::TcpStream::from_std(s).unwrap()
    }
    /// Deliver bytes (empty: end of stream) as one segment.
    #[inline(never)]
    pub fn feed(&self, b: &[u8]) {
        #[cfg(feature = "native")]
        native::feed(self.0, b);
        #[cfg(not(feature = "native"))]
        unsafe {
            vsym_feed(self.0, b.as_ptr(), b.len());
        }
    }
    /// Everything the server wrote since the last call.
    #[inline(never)]
    pub fn sent(&self) -> Vec<u8> {
        #[cfg(feature = "native")]
        return native::sent(self.0);
        #[cfg(not(feature = "native"))]
        unsafe {
            let mut r = vec![];
            let mut v = vec![0; 4096];
            loop {
                let n = vsym_sent(self.0, v.as_mut_ptr(), v.len());
                r.extend_from_slice(&v[..n as usize]);
                if n < 4096 {
                    return r;
                }
            }
        }
    }
    /// Let the server's end hold at most about `n` bytes that were not yet taken.
    #[inline(never)]
    pub fn room(&self, n: usize) {
        #[cfg(feature = "native")]
        native::room(self.0, n as u64);
        #[cfg(not(feature = "native"))]
        unsafe {
            vsym_room(self.0, n as u64);
        }
    }
    /// Take what the server sends, but not at once.
    pub fn drain(&self) {
        #[cfg(feature = "native")]
        native::drain(self.0);
    }
    /// Has the server closed its end?
    #[inline(never)]
    pub fn closed(&self) -> bool {
        #[cfg(feature = "native")]
        return native::closed(self.0);
        #[cfg(not(feature = "native"))]
        unsafe {
            vsym_closed(self.0) != 0
        }
    }
}
/// What the code under test connects to: a peer whose bytes are supplied beforehand.
pub struct Peer(Sock, std::net::SocketAddr);
impl Peer {
    #[inline(never)]
    pub fn new() -> Self {
        #[cfg(feature = "native")]
        return {
            let (s, a) = native::peer();
            Self(Sock(s), a)
        };
        #[cfg(not(feature = "native"))]
        {
            static PORT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(7);
            let port = PORT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            Self(Sock(unsafe { vsym_peer(port) }), ([127, 0, 0, 1], port as u16).into())
        }
    }
    /// The next connection to the same address, once the one to `self` was taken.
    #[inline(never)]
    pub fn again(&self) -> Self {
        #[cfg(feature = "native")]
        return Self(Sock(native::again(self.0.0)), self.1);
        #[cfg(not(feature = "native"))]
        Self(Sock(unsafe { vsym_peer(self.1.port().into()) }), self.1)
    }
    /// Where to connect to.
    pub fn addr(&self) -> std::net::SocketAddr {
        self.1
    }
    /// From here on connections are taken; `bytes` come first, then, if `end`, the end of the stream.
    pub fn serve(&self, bytes: &[u8], end: bool) {
        if !bytes.is_empty() {
            self.0.feed(bytes);
        }
        if end {
            self.0.feed(b"");
        }
        #[cfg(feature = "native")]
        native::go(self.0.0);
    }
    /// What was sent to the peer.
    pub fn sent(&self) -> Vec<u8> {
        self.0.sent()
    }
    pub fn sock(&self) -> &Sock {
        &self.0
    }
}
/// What `fork` returns: 0 to go on as the child.
#[inline(never)]
pub fn fork_as(pid: u64) {
    #[cfg(feature = "native")]
    native::fork_as(pid);
    #[cfg(not(feature = "native"))]
    unsafe {
        vsym_fork_as(pid);
    }
}
#[cfg(not(feature = "native"))]
static GO_ON: std::sync::Mutex<Option<fn()>> = std::sync::Mutex::new(None);
#[cfg(not(feature = "native"))]
extern "C" fn go_on() {
    let f = GO_ON.lock().unwrap().take();
    if let Some(f) = f {
        f();
    }
    unsafe {
        vsym_done();
    }
}
/// When the code under test ends its process, go on with `f`.
#[inline(never)]
pub fn at_exit(f: fn()) {
    #[cfg(feature = "native")]
    native::at_exit(f);
    #[cfg(not(feature = "native"))]
    unsafe {
        *GO_ON.lock().unwrap() = Some(f);
        vsym_at_exit(go_on as extern "C" fn() as usize as u64);
    }
}
/// A listening socket.
pub struct Listener(u64);
impl Listener {
    #[inline(never)]
    pub fn new() -> Self {
        #[cfg(feature = "native")]
        return Self(native::listen());
        #[cfg(not(feature = "native"))]
        Self(unsafe { vsym_listen() })
    }
    /// The one that the code under test listens on for followers.
    #[inline(never)]
    pub fn forward() -> Self {
        #[cfg(feature = "native")]
        return Self(native::forward());
        #[cfg(not(feature = "native"))]
        {
            let fd = unsafe { vsym_bound(0) };
            check(fd != u64::MAX, "the server listens for followers");
            Self(fd)
        }
    }
    /// As a tokio listener (taken once).
    pub fn listener(&self) -> tokio::net::TcpListener {
        use std::os::fd::FromRawFd;
        let s = unsafe { std::net::TcpListener::from_raw_fd(self.0 as i32) };
        tokio::net::TcpListener::from_std(s).unwrap()
    }
    /// A client connects.
    #[inline(never)]
    pub fn connect(&self) -> Sock {
        #[cfg(feature = "native")]
        return Sock(native::connect());
        #[cfg(not(feature = "native"))]
        Sock(unsafe { vsym_connect(self.0) })
    }
}
