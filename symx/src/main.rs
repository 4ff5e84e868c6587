//! symx: symbolic execution of whole-program LLVM IR with z3 as the deciding solver.
mod exec;
mod expr;
mod ir;
mod libc;
mod mem;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn vjson(v: &Violation) -> String {
    let ins: Vec<String> = v.inputs.iter().map(|(n, w, k)| format!("[{},{},{}]", esc(n), w, esc(&k.to_string()))).collect();
    let trs: Vec<String> = v.traces.iter().map(|(n, k)| format!("[{},{}]", esc(n), esc(&k.to_string()))).collect();
    let sw: Vec<String> = v.switches.iter().map(|x| x.to_string()).collect();
    format!("{{\"msg\":{},\"inputs\":[{}],\"traces\":[{}],\"switches\":[{}]}}", esc(&v.msg), ins.join(","), trs.join(","), sw.join(","))
}

fn report(vm: &mut Vm) -> String {
    let j = &vm.js;
    let mut inc: BTreeMap<String, u64> = BTreeMap::new();
    for i in &j.incomplete {
        *inc.entry(i.clone()).or_default() += 1;
    }
    let inc: Vec<String> = inc.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
    let reach: Vec<String> = j.reach.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
    let mut fs: Vec<String> = vec![];
    for (i, u) in vm.used.iter().enumerate() {
        if *u {
            let d = demangle(&vm.m.funcs[i].name);
            fs.push(d);
        }
    }
    fs.sort();
    fs.dedup();
    let fs: Vec<String> = fs.iter().map(|x| esc(x)).collect();
    let vi: Vec<String> = j.viols.iter().map(vjson).collect();
    let sa: Vec<String> = j.samples.iter().map(vjson).collect();
    let mut fp: Vec<(&String, &u64)> = vm.forkprof.iter().collect();
    fp.sort_by(|a, b| b.1.cmp(a.1));
    let fp: Vec<String> = fp.iter().take(12).map(|(k, n)| format!("{}:{}", esc(&demangle(k)), n)).collect();
    let s = &vm.so.st;
    format!(
        "{{\"job\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"steps\":{},\"branches\":{},\"asserts\":{},\"assert_queries\":{},\"queries\":{},\"z3\":{},\"small\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"nodes\":{},\"solver\":{},\"incomplete\":{{{}}},\"reach\":{{{}}},\"forkprof\":{{{}}},\"functions\":[{}],\"violations\":[{}],\"samples\":[{}]}}\n",
        esc(&vm.job.as_ref().map_or("", |x| x.0.as_str())), j.paths, j.killed, j.forks, j.steps, j.branches, j.asserts, j.assert_queries, s.queries, s.z3, s.small, s.cached, s.sat, s.unsat, s.unknown, s.time, s.maxq,
        vm.started.elapsed().as_secs_f64(), vm.cx.nodes.len(), esc(&solver::version()),
        inc.join(","), reach.join(","), fp.join(","), fs.join(","), vi.join(","), sa.join(",")
    )
}

static mut RUNNING: usize = 0;
fn reap(block_until: usize) {
    unsafe {
        while RUNNING > block_until {
            let mut s = 0;
            let p = waitpid(-1, &mut s, 0);
            if p <= 0 {
                RUNNING = 0;
                return;
            }
            RUNNING -= 1;
            if s != 0 {
                eprintln!("symx: job process {p} ended with status {s:#x}");
            }
        }
    }
}
fn stage(vm: &mut Vm, _st: &mut State, s: i64) -> Result<u64, Stop> {
    let mine: Vec<(u32, u32, String)> = vm.jobs.iter().filter(|j| j.1 as i64 == s).cloned().collect();
    let later = vm.jobs.iter().any(|j| j.1 as i64 > s);
    let single = vm.par == 0;
    for j in mine {
        if !single {
            reap(vm.par - 1);
            let pid = unsafe { fork() };
            if pid != 0 {
                unsafe { RUNNING += 1 };
                continue;
            }
            unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent
        }
        vm.so = solver::Solver::new(vm.solver_ms);
        vm.used.iter_mut().for_each(|x| *x = false);
        vm.js = Default::default();
        vm.prof.clear();
        vm.started = Instant::now();
        vm.deadline = Instant::now() + Duration::from_secs_f64(vm.budget);
        vm.job = Some((j.2.clone(), j.0 as i64));
        return Ok(j.0 as u64);
    }
    if !later {
        reap(0);
        unsafe { _exit(0) };
    }
    Ok(u64::MAX)
}

fn run() {
    let mut a = std::env::args().skip(1);
    let (mut ll, mut jobs, mut out, mut par, mut budget, mut sms, mut thorough, mut mem) = (String::new(), String::new(), String::from("."), 0usize, 60.0, 10_000u32, false, 3500u64);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("argument value");
        match x.as_str() {
            "--ll" => ll = v(),
            "--jobs" => jobs = v(),
            "--out" => out = v(),
            "--par" => par = v().parse().unwrap(),
            "--time" => budget = v().parse().unwrap(),
            "--solver-ms" => sms = v().parse().unwrap(),
            "--mem-mb" => mem = v().parse().unwrap(),
            "--thorough" => thorough = true,
            _ => panic!("unknown argument {x}"),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("cannot read IR");
    let m = ir::Module::parse(text.into_bytes());
    let mut vm = Vm::new(m, sms);
    let verbose = std::env::var_os("SYMX_VERBOSE").is_some();
    if verbose {
        eprintln!("parsed {} functions in {:.2}s", vm.m.funcs.len(), t0.elapsed().as_secs_f64());
    }
    vm.thorough = thorough;
    vm.par = par;
    vm.outdir = out.clone();
    vm.budget = budget;
    vm.mem_mb = mem;
    vm.stage_cb = Some(stage);
    // jobs: id:stage:name,...
    for j in jobs.split(',').filter(|x| !x.is_empty()) {
        let p: Vec<&str> = j.split(':').collect();
        vm.jobs.push((p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].to_string()));
    }
    let mut mem = mem::Mem::new();
    vm.init(&mut mem);
    let mut st = vm.new_state(mem);
    let f = *vm.m.fidx.get("vsym_main").expect("vsym_main not found");
    vm.spawn(&mut st, f, &[]);
    if verbose {
        eprintln!("initialised in {:.2}s", t0.elapsed().as_secs_f64());
    }
    vm.explore(st);
    if vm.job.is_none() {
        eprintln!("symx: the shared prefix failed: {:?}", vm.js.incomplete);
        for v in &vm.js.viols {
            eprintln!("symx: {}", v.msg);
        }
        std::process::exit(3);
    }
    let r = report(&mut vm);
    if verbose {
        let mut p: Vec<(u32, u64)> = vm.prof.iter().map(|x| (*x.0, *x.1)).collect();
        p.sort_by(|a, b| b.1.cmp(&a.1));
        for (f, n) in p.iter().take(12) {
            eprintln!("  {:6} {}", n, demangle(&vm.m.funcs[*f as usize].name));
        }
    }
    let path = format!("{}/{}.json", out, vm.job.as_ref().unwrap().0);
    std::fs::write(&path, r).expect("write report");
    unsafe { _exit(0) }
}

fn main() {
    std::thread::Builder::new().stack_size(2 << 30).spawn(run).unwrap().join().unwrap();
}
