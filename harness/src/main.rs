//! Symbolic harness for rudis: one function per job, run either by the symbolic
//! executor (over the IR of this program) or natively on one counterexample.
mod jobs;
mod r;
mod table;
mod vs;

use std::{future::Future, pin::Pin, sync::Arc};

use db::Db;

pub enum Run {
    /// No runtime, no database.
    Plain(fn()),
    /// With a fresh database (background tasks never scheduled).
    Db(fn(&Arc<Db>)),
    /// In the runtime: spawned tasks run whenever the job waits.
    Async(fn(Arc<Db>) -> Pin<Box<dyn Future<Output = ()>>>),
}
pub struct Job {
    pub name: &'static str,
    pub prop: &'static str,
    /// Only in the thorough tier.
    pub deep: bool,
    pub bounds: &'static str,
    pub run: Run,
}
impl Job {
    fn stage(&self) -> u64 {
        match self.run {
            Run::Plain(_) => 0,
            _ => 1,
        }
    }
}

/// Wall clock at the start of every job, unless the job sets another one.
pub const NOW0: u64 = 1_700_000_000_000;

fn run_db(pick: fn() -> Option<usize>) {
    vs::set_now(NOW0);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .max_blocking_threads(4)
        .build()
        .unwrap();
    rt.block_on(async move {
        let db = Db::new().await;
        let Some(i) = pick() else { return };
        match &jobs::all()[i].run {
            Run::Plain(_) => {}
            Run::Db(f) => f(&db),
            Run::Async(f) => f(db).await,
        }
    });
    // background tasks may still be queued: leave without waiting for them
    std::mem::forget(rt);
}

#[cfg(not(feature = "native"))]
fn stage(k: u64) -> Option<usize> {
    let i = unsafe { vs::vsym_stage(k) };
    (i >= 0).then_some(i as usize)
}

#[cfg(not(feature = "native"))]
#[no_mangle]
pub extern "C" fn vsym_main() {
    vs::set_now(NOW0);
    if let Some(i) = stage(0) {
        if let Run::Plain(f) = jobs::all()[i].run {
            f();
        }
        return;
    }
    run_db(|| stage(1));
}
#[cfg(not(feature = "native"))]
#[used]
static KEEP: extern "C" fn() = vsym_main;

#[cfg(feature = "native")]
static PICK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("--list") {
        for (i, j) in jobs::all().iter().enumerate() {
            println!("{i}\t{}\t{}\t{}\t{}\t{}", j.stage(), j.prop, u8::from(j.deep), j.name, j.bounds);
        }
        return;
    }
    #[cfg(feature = "native")]
    {
        // harness JOB INPUTS [thorough]
        let text = std::fs::read_to_string(&a[2]).unwrap();
        for l in text.lines() {
            let p: Vec<&str> = l.rsplitn(3, ' ').collect();
            vs::native::INPUTS.lock().unwrap().push_back((
                p[2].to_owned(),
                p[1].parse().unwrap(),
                p[0].parse().unwrap(),
            ));
        }
        if a.len() > 3 {
            vs::native::THOROUGH.store(1, std::sync::atomic::Ordering::Relaxed);
        }
        vs::set_now(NOW0);
        let i = jobs::all().iter().position(|j| j.name == a[1]).expect("no such job");
        if jobs::all()[i].prop == "C31" {
            vs::native::configure();
        }
        PICK.store(i, std::sync::atomic::Ordering::Relaxed);
        // any panic, on any thread, is an observable failure
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |p| {
            hook(p);
            let at = p.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            println!("PANIC: {at}");
            vs::native::quit(101);
        }));
        match jobs::all()[i].run {
            Run::Plain(f) => f(),
            _ => run_db(|| Some(PICK.load(std::sync::atomic::Ordering::Relaxed))),
        }
        println!("DONE");
        vs::native::quit(0);
    }
}
