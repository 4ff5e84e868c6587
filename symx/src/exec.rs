//! Symbolic interpreter for the decoded IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    E(Eid),
    A(Rc<Vec<Val>>),
}
#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    V(Val),
}

#[derive(Clone, Debug)]
pub enum DI {
    Bin(Op, u32, u32, u32, O, O), // op, width, lanes(0 scalar), dst
    FNeg(u32, u32, u32, O),
    ICmp(&'static str, u32, u32, u32, O, O),
    FCmp(&'static str, u32, u32, u32, O, O),
    Load(Ty, u32, u32, O), // ty, scalar width (0 = aggregate), dst
    Store(Ty, u32, O, O),
    Gep(u32, O, i64, Vec<(O, u32, i64)>),
    Cast(&'static str, Ty, Ty, u32, O),
    Select(u32, O, O, O, bool, u32),
    Call(u32, Vec<O>, Option<u32>, Option<u32>, u32), // func, args, dst, normal, retbits
    CallInd(O, Vec<O>, Option<u32>, Option<u32>),
    Ext(u32, Vec<O>, Vec<Ty>, Ty, Option<u32>, Option<u32>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Rc<HashMap<u64, u32>>, Rc<Vec<(u128, u32)>>),
    Ret(Option<O>),
    Unreachable,
    Extract(u32, O, Vec<u32>),
    Insert(u32, O, O, Vec<u32>),
    ExtractEl(u32, O, O),
    InsertEl(u32, O, O, O),
    Shuffle(u32, O, O, Vec<Option<u32>>),
    Rmw(String, u32, u32, O, O),
    CmpXchg(u32, u32, O, O, O),
    Alloca(u32, u64, O, u64),
    Copy(u32, O),
    Lp,
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<DI>,
}
pub struct Func {
    pub id: u32,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub params: Vec<u32>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub b: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub sp: u64,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum TS {
    Run,
    Futex { addr: u64, deadline: Option<u64> },
    Join(usize),
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub top: Option<Frame>,
    pub stack: Vec<Rc<Frame>>,
    pub sp: u64,
    pub tls: BTreeMap<u32, u64>,
    pub st: TS,
    pub errno: u64,
    pub ret: Val,
    pub wake: u64, // result for the pending futex call
    pub armed: bool, // other threads may take over inside it
}
#[derive(Clone)]
pub enum Fd {
    Alias(u64),
    Ep(Vec<(u64, u32, u64)>),
    Event(bool),
    /// connections waiting to be accepted
    Listen(Vec<u64>, bool),
    Sock(Sock),
}
#[derive(Clone)]
pub struct Sock {
    pub rx: Vec<Vec<Byte>>,
    pub pos: usize,
    /// sent and not yet taken by the peer
    pub out: Vec<Byte>,
    /// how much `out` may hold
    pub room: usize,
    pub eof: bool,
    pub pending: bool,
    pub closed: bool,
    /// reads wait for bytes, and the peer takes whatever is written
    pub blocking: bool,
}
impl Sock {
    pub fn new() -> Self {
        Sock { rx: vec![], pos: 0, out: vec![], room: usize::MAX, eof: false, pending: true, closed: false, blocking: false }
    }
}
pub enum Ev {
    In(String, u32, Val),     // consumed input
    Trace(String, Val),       // value to be compared natively
    Reach(String),
    Switch(usize),
}
pub struct EvNode {
    ev: Ev,
    prev: Option<Rc<EvNode>>,
}
#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub th: Vec<Thread>,
    pub cur: usize,
    pub pcs: Vec<Eid>,
    pub model: Rc<Vec<u64>>,
    pub conc: Rc<Map<Eid, u64>>,
    pub heap: u64,
    pub mono: u64,
    pub real: Val, // ms since epoch
    pub evs: Option<Rc<EvNode>>,
    pub steps: u64,
    pub names: Rc<BTreeMap<String, u32>>,
    pub keys: Rc<Vec<u64>>,
    pub tsd: Rc<BTreeMap<(usize, u64), u64>>,
    pub preempt: u32,
    pub preempt_on: bool,
    pub forks: u32,
    pub skip_preempt: bool,
    pub fds: Rc<BTreeMap<u64, Fd>>,
    /// peers that the next connections go to
    pub peers: Rc<Vec<(u64, u64)>>, // (descriptor, port)
    /// sockets of the code under test that listen
    pub bound: Rc<Vec<u64>>,
    /// what fork returns, and the function that goes on after exit
    pub fork_as: Option<u64>,
    pub at_exit: u64,
    pub ticking: Option<u64>, // realtime follows the monotonic clock from this instant on
}
#[derive(Debug)]
pub enum Stop {
    Fork,             // current state must re-execute (a sibling was queued)
    Kill,             // infeasible / assumption false
    Done,             // path finished
    Viol(String, Option<Eid>), // violation under pc ∧ cond
    Unsup(String),
}
type R<T> = Result<T, Stop>;

pub struct Violation {
    pub msg: String,
    pub inputs: Vec<(String, u32, u64)>,
    pub traces: Vec<(String, u64)>,
    pub switches: Vec<usize>,
}
#[derive(Default)]
pub struct JobStats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub incomplete: Vec<String>,
    pub reach: BTreeMap<String, u64>,
    pub samples: Vec<Violation>, // completed paths, used as traces for native validation
    pub viols: Vec<Violation>,
    pub branches: u64,
}

pub const HEAP0: u64 = 0x1000_0000;
pub const STACK0: u64 = 0xC000_0000;
pub const STACKSZ: u64 = 0x0080_0000;
pub const FBASE: u64 = 0x0080_0000;
const NOREG: u32 = u32::MAX;

pub struct Vm {
    pub m: Module,
    pub cx: Ctx,
    pub so: Solver,
    pub gaddr: Vec<u64>,
    pub ext: Vec<String>,
    extmap: HashMap<String, u32>,
    pub extk: Vec<Rc<crate::libc::X>>,
    pub jobs: Vec<(u32, u32, String)>,
    pub par: usize,
    pub outdir: String,
    pub budget: f64,
    pub mem_mb: u64,
    pub started: Instant,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub used: Vec<bool>,
    pub js: JobStats,
    pub work: Vec<State>,
    pub deadline: Instant,
    pub max_paths: u64,
    pub max_steps: u64,
    pub job: Option<(String, i64)>,
    pub joblist: Vec<String>,
    pub trace: bool,
    pub out: Vec<u8>,
    pub solver_ms: u32,
    pub prof: HashMap<u32, u64>,
    pub forkprof: BTreeMap<String, u64>,
    pub max_viol: usize,
    pub known: Vec<String>,
    pub sample_every: u64,
    pub stage_cb: Option<fn(&mut Vm, &mut State, i64) -> R<u64>>,
    pub thorough: bool,
    pub vars: HashMap<(String, u32, u32), Eid>,
}

fn opof(s: &str) -> Op {
    match s {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        "fadd" => Op::FAdd,
        "fsub" => Op::FSub,
        "fmul" => Op::FMul,
        "fdiv" => Op::FDiv,
        "frem" => Op::FRem,
        _ => panic!("op {s}"),
    }
}

impl Vm {
    pub fn new(m: Module, solver_ms: u32) -> Vm {
        let nf = m.funcs.len();
        Vm {
            m,
            cx: Ctx::new(),
            so: Solver::new(solver_ms),
            gaddr: vec![],
            ext: vec![],
            extmap: HashMap::new(),
            extk: vec![],
            jobs: vec![],
            par: 1,
            outdir: String::new(),
            budget: 60.0,
            mem_mb: 3500,
            started: Instant::now(),
            funcs: vec![None; nf],
            used: vec![false; nf],
            js: JobStats::default(),
            work: vec![],
            deadline: Instant::now() + Duration::from_secs(3600),
            max_paths: u64::MAX,
            max_steps: 150_000_000,
            job: None,
            joblist: vec![],
            trace: std::env::var_os("SYMX_TRACE").is_some(),
            out: vec![],
            solver_ms,
            prof: HashMap::new(),
            forkprof: BTreeMap::new(),
            max_viol: 8,
            known: vec![],
            sample_every: 1,
            stage_cb: None,
            thorough: false,
            vars: HashMap::new(),
        }
    }
    pub fn faddr(i: u32) -> u64 {
        FBASE + 16 * i as u64
    }
    pub fn init(&mut self, mem: &mut Mem) {
        // lay out globals
        let mut a = 0x0100_0000u64;
        for g in &self.m.globals {
            if g.name.starts_with("alias:") || g.tls {
                self.gaddr.push(0);
                continue;
            }
            let al = g.align.max(16);
            a = (a + al - 1) / al * al;
            self.gaddr.push(a);
            a += self.m.size(g.ty).max(1);
        }
        assert!(a < HEAP0);
        for i in 0..self.m.globals.len() {
            if self.m.globals[i].name.starts_with("alias:") {
                let c = self.m.globals[i].init.clone().unwrap();
                let p = self.m.ty(TyK::Ptr);
                let v = self.cval(p, &c);
                if let Val::I(x) = v {
                    self.gaddr[i] = x;
                }
            }
        }
        for i in 0..self.m.globals.len() {
            if self.m.globals[i].tls || self.m.globals[i].name.starts_with("alias:") {
                continue;
            }
            if let Some(c) = self.m.globals[i].init.clone() {
                let (t, ad) = (self.m.globals[i].ty, self.gaddr[i]);
                self.write_cst(mem, ad, t, &c);
            }
        }
    }
    pub fn write_cst(&mut self, mem: &mut Mem, ad: u64, t: Ty, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef | Cst::Null => {}
            Cst::Bytes(b) => mem.write_bytes(ad, b),
            Cst::Agg(v) => {
                for (i, (et, ec)) in v.iter().enumerate() {
                    let o = self.m.offset(t, i);
                    self.write_cst(mem, ad + o, *et, ec);
                }
            }
            _ => {
                let v = self.cval(t, c);
                self.write_val(mem, ad, t, &v);
            }
        }
    }
    pub fn write_val(&mut self, mem: &mut Mem, ad: u64, t: Ty, v: &Val) {
        match self.m.k(t).clone() {
            TyK::Int(w) if w <= 64 => {
                let n = ((w + 7) / 8) as u64;
                match v {
                    Val::I(x) => mem.write_c(ad, n as usize, *x),
                    Val::E(e) => mem.write_sym(&mut self.cx, ad, n, *e),
                    _ => panic!(),
                }
            }
            TyK::Int(w) => {
                let n = ((w + 7) / 8) as u64;
                let e = self.e(v, w);
                mem.write_sym(&mut self.cx, ad, n, e);
            }
            TyK::Ptr | TyK::Double | TyK::Float => {
                let n = self.m.size(t);
                match v {
                    Val::I(x) => mem.write_c(ad, n as usize, *x),
                    Val::E(e) => mem.write_sym(&mut self.cx, ad, n, *e),
                    _ => panic!(),
                }
            }
            TyK::Struct(f, _) => {
                if let Val::A(vs) = v {
                    for (i, ft) in f.iter().enumerate() {
                        let o = self.m.offset(t, i);
                        self.write_val(mem, ad + o, *ft, &vs[i]);
                    }
                }
            }
            TyK::Arr(n, e) => {
                if let Val::A(vs) = v {
                    let s = self.m.size(e);
                    for i in 0..n {
                        self.write_val(mem, ad + s * i, e, &vs[i as usize]);
                    }
                }
            }
            TyK::Vec(n, e) => {
                if let Val::A(vs) = v {
                    let w = self.m.bits(e);
                    if w % 8 != 0 {
                        // bit vector
                        let mut r: Option<Eid> = None;
                        for x in vs.iter() {
                            let b = self.e(x, w);
                            r = Some(match r {
                                None => b,
                                Some(p) => self.cx.concat(b, p),
                            });
                        }
                        let total = n as u32 * w;
                        let bytes = ((total + 7) / 8) as u64;
                        mem.write_sym(&mut self.cx, ad, bytes, r.unwrap());
                    } else {
                        let s = self.m.size(e);
                        for i in 0..n {
                            self.write_val(mem, ad + s * i, e, &vs[i as usize]);
                        }
                    }
                }
            }
            k => panic!("write {:?}", k),
        }
    }
    pub fn read_val(&mut self, mem: &Mem, ad: u64, t: Ty) -> Val {
        match self.m.k(t).clone() {
            TyK::Int(w) if w <= 64 => self.read_scalar(mem, ad, w),
            TyK::Int(w) => {
                let n = ((w + 7) / 8) as u64;
                let e = mem.read_sym(&mut self.cx, ad, n);
                let e = self.cx.extract(e, 0, w);
                self.v(e)
            }
            TyK::Ptr | TyK::Double => self.read_scalar(mem, ad, 64),
            TyK::Float => self.read_scalar(mem, ad, 32),
            TyK::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for (i, ft) in f.iter().enumerate() {
                    let o = self.m.offset(t, i);
                    v.push(self.read_val(mem, ad + o, *ft));
                }
                Val::A(Rc::new(v))
            }
            TyK::Arr(n, e) => {
                let s = self.m.size(e);
                let v = (0..n).map(|i| self.read_val(mem, ad + s * i, e)).collect();
                Val::A(Rc::new(v))
            }
            TyK::Vec(n, e) => {
                let w = self.m.bits(e);
                if w % 8 != 0 {
                    let total = n as u32 * w;
                    let bytes = ((total + 7) / 8) as u64;
                    let x = mem.read_sym(&mut self.cx, ad, bytes);
                    let v = (0..n as u32)
                        .map(|i| {
                            let y = self.cx.extract(x, i * w, w);
                            self.v(y)
                        })
                        .collect();
                    Val::A(Rc::new(v))
                } else {
                    let s = self.m.size(e);
                    let v = (0..n).map(|i| self.read_val(mem, ad + s * i, e)).collect();
                    Val::A(Rc::new(v))
                }
            }
            k => panic!("read {:?}", k),
        }
    }
    #[inline]
    fn read_scalar(&mut self, mem: &Mem, ad: u64, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        if let Some(x) = mem.read_c(ad, n) {
            return Val::I(if w % 8 == 0 { x } else { x & mask(w) as u64 });
        }
        let e = mem.read_sym(&mut self.cx, ad, n as u64);
        let e = if w as usize == n * 8 { e } else { self.cx.extract(e, 0, w) };
        self.v(e)
    }
    /// normalise an expression to a value
    #[inline]
    pub fn v(&self, e: Eid) -> Val {
        let n = &self.cx.nodes[e as usize];
        if n.op == Op::Const && n.w <= 64 {
            Val::I(n.k as u64)
        } else {
            Val::E(e)
        }
    }
    #[inline]
    pub fn e(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::I(x) => self.cx.konst(w, *x as u128),
            Val::E(e) => {
                debug_assert!(self.cx.w(*e) == w, "width {} vs {}", self.cx.w(*e), w);
                *e
            }
            _ => panic!("aggregate as scalar"),
        }
    }
    fn zero_of(&mut self, t: Ty) -> Val {
        match self.m.k(t).clone() {
            TyK::Int(w) if w > 64 => {
                let e = self.cx.konst(w, 0);
                Val::E(e)
            }
            TyK::Struct(f, _) => {
                let v = f.iter().map(|x| self.zero_of(*x)).collect();
                Val::A(Rc::new(v))
            }
            TyK::Arr(n, e) | TyK::Vec(n, e) => {
                let z = self.zero_of(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            _ => Val::I(0),
        }
    }
    pub fn cval(&mut self, t: Ty, c: &Cst) -> Val {
        match c {
            Cst::Int(k) => {
                let w = self.m.bits(t);
                if w <= 64 {
                    Val::I((*k & mask(w)) as u64)
                } else {
                    Val::E(self.cx.konst(w, *k))
                }
            }
            Cst::F64(b) => Val::I(*b),
            Cst::Null => Val::I(0),
            Cst::Undef | Cst::Zero => self.zero_of(t),
            Cst::Global(n) => {
                if let Some(g) = self.m.gidx.get(n) {
                    Val::I(self.gaddr[*g as usize])
                } else if let Some(f) = self.m.fidx.get(n) {
                    Val::I(Self::faddr(*f))
                } else {
                    panic!("unknown global {n}")
                }
            }
            Cst::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::I(*x as u64)).collect())),
            Cst::Agg(v) => {
                let r = v.iter().map(|(t, c)| self.cval(*t, c)).collect();
                Val::A(Rc::new(r))
            }
            Cst::Splat(et, c) => {
                let n = match self.m.k(t) {
                    TyK::Vec(n, _) => *n,
                    _ => panic!(),
                };
                let x = self.cval(*et, c);
                Val::A(Rc::new(vec![x; n as usize]))
            }
            Cst::Gep(bt, v) => {
                let (pt, pc) = v[0].clone();
                let base = self.cint(pt, &pc);
                let mut off = 0i64;
                let mut cur = *bt;
                for (i, (it, ic)) in v[1..].iter().enumerate() {
                    let w = self.m.bits(*it);
                    let k = sx(self.cint(*it, ic) as u128, w) as i64;
                    if i == 0 {
                        off += k * self.m.size(cur) as i64;
                    } else {
                        match self.m.k(cur) {
                            TyK::Struct(..) => {
                                off += self.m.offset(cur, k as usize) as i64;
                                cur = self.m.field(cur, k as usize);
                            }
                            _ => {
                                let e = self.m.field(cur, 0);
                                off += k * self.m.size(e) as i64;
                                cur = e;
                            }
                        }
                    }
                }
                Val::I(base.wrapping_add(off as u64))
            }
            Cst::Cast(k, ft, c, tt) => {
                let x = self.cval(*ft, c);
                if *k == "trunc" {
                    if let Val::I(x) = x {
                        let w = self.m.bits(*tt);
                        return Val::I(x & mask(w) as u64);
                    }
                }
                x
            }
            Cst::Bin(op, t, a, b) => {
                let (x, y) = (self.cint(*t, a), self.cint(*t, b));
                let w = self.m.bits(*t);
                Val::I(Ctx::fold(opof(op), w, w, x as u128, y as u128) as u64)
            }
        }
    }
    fn cint(&mut self, t: Ty, c: &Cst) -> u64 {
        match self.cval(t, c) {
            Val::I(x) => x,
            _ => panic!("non-integer constant"),
        }
    }
    fn op(&mut self, t: Ty, o: &Opd) -> O {
        match o {
            Opd::Reg(r) => O::R(*r),
            Opd::C(c) => {
                // thread-local addresses only come through the intrinsic
                O::V(self.cval(t, c))
            }
            Opd::Meta => O::V(Val::I(0)),
        }
    }
    pub fn ext_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.extmap.get(n) {
            return *i;
        }
        let i = self.ext.len() as u32;
        self.ext.push(n.to_string());
        self.extmap.insert(n.to_string(), i);
        i
    }
    fn lanes(&self, t: Ty) -> (u32, u32) {
        match self.m.k(t) {
            TyK::Vec(n, e) => (*n as u32, self.m.bits(*e)),
            _ => (0, self.m.bits(t)),
        }
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize] {
            return f.clone();
        }
        let b = self.m.body(id);
        let mut lab: HashMap<String, u32> = HashMap::new();
        for (i, (n, _)) in b.blocks.iter().enumerate() {
            lab.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        for (_, ins) in &b.blocks {
            let mut phis = vec![];
            let mut out = vec![];
            for i in ins {
                if let InstK::Phi(t, v) = &i.k {
                    let vs = v.iter().map(|(o, l)| (lab[l], self.op(*t, o))).collect();
                    phis.push((i.dst.unwrap(), vs));
                } else if let Some(d) = self.dec(i, &lab) {
                    out.push(d);
                }
            }
            blocks.push(Block { phis, ins: out });
        }
        let f = Rc::new(Func { id, blocks, nregs: b.nregs, params: b.params });
        self.funcs[id as usize] = Some(f.clone());
        self.used[id as usize] = true;
        f
    }
    fn dec(&mut self, i: &Inst, lab: &HashMap<String, u32>) -> Option<DI> {
        let d = i.dst.unwrap_or(NOREG);
        let p = self.m.ty(TyK::Ptr);
        let i1 = self.m.ty(TyK::Int(1));
        let i64t = self.m.ty(TyK::Int(64));
        Some(match &i.k {
            InstK::Bin(op, t, a, b) => {
                let (n, w) = self.lanes(*t);
                DI::Bin(opof(op), w, n, d, self.op(*t, a), self.op(*t, b))
            }
            InstK::FNeg(t, a) => {
                let (n, w) = self.lanes(*t);
                DI::FNeg(w, n, d, self.op(*t, a))
            }
            InstK::ICmp(pr, t, a, b) => {
                let (n, w) = self.lanes(*t);
                DI::ICmp(pr, w, n, d, self.op(*t, a), self.op(*t, b))
            }
            InstK::FCmp(pr, t, a, b) => {
                let (n, w) = self.lanes(*t);
                DI::FCmp(pr, w, n, d, self.op(*t, a), self.op(*t, b))
            }
            InstK::Load(t, a) => {
                let w = match self.m.k(*t) {
                    TyK::Int(w) if *w <= 64 => *w,
                    TyK::Ptr | TyK::Double => 64,
                    TyK::Float => 32,
                    _ => 0,
                };
                DI::Load(*t, w, d, self.op(p, a))
            }
            InstK::Store(t, v, a) => {
                let w = match self.m.k(*t) {
                    TyK::Int(w) if *w <= 64 => *w,
                    TyK::Ptr | TyK::Double => 64,
                    TyK::Float => 32,
                    _ => 0,
                };
                DI::Store(*t, w, self.op(*t, v), self.op(p, a))
            }
            InstK::Gep(bt, base, idx) => {
                let b = self.op(p, base);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = *bt;
                for (n, (it, io)) in idx.iter().enumerate() {
                    let w = self.m.bits(*it);
                    let o = self.op(*it, io);
                    if n > 0 {
                        if let TyK::Struct(..) = self.m.k(cur) {
                            let k = match o {
                                O::V(Val::I(k)) => k as usize,
                                _ => panic!(),
                            };
                            off += self.m.offset(cur, k) as i64;
                            cur = self.m.field(cur, k);
                            continue;
                        }
                    }
                    let sz = if n == 0 {
                        self.m.size(cur)
                    } else {
                        cur = self.m.field(cur, 0);
                        self.m.size(cur)
                    } as i64;
                    match o {
                        O::V(Val::I(k)) => off = off.wrapping_add((sx(k as u128, w) as i64).wrapping_mul(sz)),
                        o => terms.push((o, w, sz)),
                    }
                }
                DI::Gep(d, b, off, terms)
            }
            InstK::Cast(k, ft, a, tt) => DI::Cast(k, *ft, *tt, d, self.op(*ft, a)),
            InstK::Select(ct, c, t, a, b) => {
                let vec = matches!(self.m.k(*ct), TyK::Vec(..));
                let sw = match self.m.k(*t) { TyK::Int(w) => *w, TyK::Ptr | TyK::Double => 64, TyK::Float => 32, TyK::Vec(_, e) => self.m.bits(*e), _ => 0 };
                DI::Select(d, self.op(*ct, c), self.op(*t, a), self.op(*t, b), vec, sw)
            }
            InstK::Phi(..) => unreachable!(),
            InstK::Call { ret, callee, args, normal, asm } => {
                let nb = normal.as_ref().map(|l| lab[l]);
                if asm.is_some() {
                    let a = asm.as_ref().unwrap().clone();
                    if a.is_empty() {
                        return nb.map(DI::Br);
                    }
                    let id = self.ext_id(&format!("asm:{a}"));
                    return Some(DI::Ext(id, vec![], vec![], *ret, i.dst, nb));
                }
                if let Opd::C(Cst::Global(n)) = callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.invariant") || n.starts_with("llvm.sideeffect") || n.starts_with("llvm.fake.use") {
                        return nb.map(DI::Br);
                    }
                    if n.starts_with("llvm.threadlocal.address") {
                        if let Opd::C(Cst::Global(g)) = &args[0].1 {
                            let gi = self.m.gidx[g];
                            let id = self.ext_id("tls");
                            return Some(DI::Ext(id, vec![O::V(Val::I(gi as u64))], vec![i64t], *ret, i.dst, nb));
                        }
                        panic!("tls of non-global");
                    }
                    let (os, ts): (Vec<O>, Vec<Ty>) = args.iter().map(|(t, o)| (self.op(*t, o), *t)).unzip();
                    let fi = match self.m.fidx.get(n) {
                        Some(f) => *f,
                        None => panic!("call to unknown @{n}"),
                    };
                    if self.m.funcs[fi as usize].body.is_some() {
                        if let Some(x) = self.intercept(n) {
                            let id = self.ext_id(&x);
                            return Some(DI::Ext(id, os, ts, *ret, i.dst, nb));
                        }
                        return Some(DI::Call(fi, os, i.dst, nb, 0));
                    }
                    let id = self.ext_id(n);
                    return Some(DI::Ext(id, os, ts, *ret, i.dst, nb));
                }
                let os = args.iter().map(|(t, o)| self.op(*t, o)).collect();
                let c = self.op(p, callee);
                DI::CallInd(c, os, i.dst, nb)
            }
            InstK::Br(l) => DI::Br(lab[l]),
            InstK::CondBr(c, a, b) => DI::CondBr(self.op(i1, c), lab[a], lab[b]),
            InstK::Switch(t, v, df, cs) => {
                let w = self.m.bits(*t);
                let mut mp = HashMap::new();
                let mut vs = vec![];
                for (k, l) in cs {
                    mp.insert(*k as u64, lab[l]);
                    vs.push((*k, lab[l]));
                }
                DI::Switch(w, self.op(*t, v), lab[df], Rc::new(mp), Rc::new(vs))
            }
            InstK::Ret(None) => DI::Ret(None),
            InstK::Ret(Some((t, v))) => DI::Ret(Some(self.op(*t, v))),
            InstK::Unreachable => DI::Unreachable,
            InstK::ExtractValue(t, v, ix) => DI::Extract(d, self.op(*t, v), ix.clone()),
            InstK::InsertValue(t, v, et, e, ix) => DI::Insert(d, self.op(*t, v), self.op(*et, e), ix.clone()),
            InstK::ExtractElement(t, v, ix) => DI::ExtractEl(d, self.op(*t, v), self.op(i64t, ix)),
            InstK::InsertElement(t, v, e, ix) => {
                let et = self.m.field(*t, 0);
                DI::InsertEl(d, self.op(*t, v), self.op(et, e), self.op(i64t, ix))
            }
            InstK::Shuffle(t, a, b, mk) => DI::Shuffle(d, self.op(*t, a), self.op(*t, b), mk.clone()),
            InstK::Rmw(o, a, t, v) => {
                let w = self.m.bits(*t);
                DI::Rmw(o.clone(), w, d, self.op(p, a), self.op(*t, v))
            }
            InstK::CmpXchg(a, t, c, n) => {
                let w = self.m.bits(*t);
                DI::CmpXchg(w, d, self.op(p, a), self.op(*t, c), self.op(*t, n))
            }
            InstK::Fence => return None,
            InstK::Alloca(t, nt, n, al) => {
                let s = self.m.size(*t);
                DI::Alloca(d, s, self.op(*nt, n), *al)
            }
            InstK::Freeze(t, v) => DI::Copy(d, self.op(*t, v)),
            InstK::LandingPad | InstK::Resume => DI::Lp,
        })
    }
    /// functions with bodies that are replaced by the model
    fn intercept(&self, n: &str) -> Option<String> {
        if n.contains("4core9panicking") || n.contains("9panicking20rust_panic_with_hook") || n.contains("9panicking11begin_panic") || n.contains("9panicking15panic_with_hook") {
            return Some(format!("panic:{n}"));
        }
        None
    }

    // ---- state helpers -------------------------------------------------
    pub fn new_state(&mut self, mem: Mem) -> State {
        State {
            mem,
            th: vec![],
            cur: 0,
            pcs: vec![],
            model: Rc::new(vec![]),
            conc: Rc::new(Default::default()),
            heap: HEAP0,
            mono: 1_000_000_000_000,
            real: Val::I(1_700_000_000_000),
            evs: None,
            steps: 0,
            names: Rc::new(BTreeMap::new()),
            keys: Rc::new(vec![]),
            tsd: Rc::new(BTreeMap::new()),
            preempt: 0,
            preempt_on: false,
            forks: 0,
            skip_preempt: false,
            fds: Rc::new(BTreeMap::new()),
            peers: Rc::new(vec![]),
            bound: Rc::new(vec![]),
            fork_as: None,
            at_exit: 0,
            ticking: None,
        }
    }
    pub fn spawn(&mut self, st: &mut State, f: u32, args: &[Val]) -> usize {
        let id = st.th.len();
        let fun = self.func(f);
        let mut regs = vec![Val::I(0); fun.nregs as usize];
        for (i, p) in fun.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        let sp = STACK0 + (id as u64 + 1) * STACKSZ - 64;
        st.th.push(Thread {
            top: Some(Frame { f: fun, b: 0, pc: 0, regs, sp, dst: None, normal: None }),
            stack: vec![],
            sp,
            tls: BTreeMap::new(),
            st: TS::Run,
            errno: 0,
            ret: Val::I(0),
            wake: 0,
            armed: false,
        });
        id
    }
    pub fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        let al = al.max(16);
        let mut a = st.heap + 16;
        a = (a + al - 1) / al * al;
        let e = a.checked_add(n).unwrap_or(u64::MAX);
        if e > STACK0 - 0x10000 {
            return Ok(0); // allocation failure, like malloc
        }
        st.mem.write_c(a - 8, 8, n);
        st.heap = e;
        Ok(a)
    }
    /// The size of an allocation. A symbolic one is rounded up to its bound: the memory is sparse.
    pub fn room(&mut self, st: &mut State, v: &Val) -> R<u64> {
        const ROOM: u64 = 1 << 21;
        if let Val::E(e) = v {
            let e = *e;
            if self.cx.kval(e).is_none() && !st.conc.contains_key(&e) {
                let m = self.cx.umax[e as usize];
                if m <= ROOM as u128 {
                    return Ok(m as u64);
                }
                let k = self.cx.konst(64, ROOM as u128);
                let c = self.cx.bin(Op::Ule, 1, e, k);
                if self.branch(st, c, |_| {})? {
                    return Ok(ROOM);
                }
            }
        }
        self.conc(st, v, 64)
    }
    pub fn push_ev(&mut self, st: &mut State, ev: Ev) {
        st.evs = Some(Rc::new(EvNode { ev, prev: st.evs.take() }));
    }
    fn merge(model: &Rc<Vec<u64>>, d: &[(u32, u64)]) -> Rc<Vec<u64>> {
        let mut m = (**model).clone();
        for (v, k) in d {
            if m.len() <= *v as usize {
                m.resize(*v as usize + 1, 0);
            }
            m[*v as usize] = *k;
        }
        Rc::new(m)
    }
    pub fn mval(&mut self, st: &State, e: Eid) -> u128 {
        let m = st.model.clone();
        self.cx.eval(e, &move |v| m.get(v as usize).copied().unwrap_or(0) as u128)
    }
    /// Decide a symbolic condition: returns the side this state continues on and queues the
    /// other side when feasible.  `on_other` is applied to the sibling.
    fn branch(&mut self, st: &mut State, c: Eid, on_other: impl FnOnce(&mut State)) -> R<bool> {
        if let Some(k) = self.cx.kval(c) {
            return Ok(k != 0);
        }
        self.js.branches += 1;
        let now = self.mval(st, c) != 0;
        let nc = self.cx.not1(c);
        let (mine, other) = if now { (c, nc) } else { (nc, c) };
        match self.so.check(&mut self.cx, &st.pcs, other) {
            Res::Unsat => {}
            Res::Sat(d) => {
                let mut o = st.clone();
                o.pcs.push(other);
                o.model = Self::merge(&st.model, &d);
                o.forks += 1;
                on_other(&mut o);
                self.push_work(o, st);
                st.pcs.push(mine);
            }
            Res::Unknown => {
                if std::env::var_os("SYMX_DEBUG").is_some() {
                    eprintln!("NOVERDICT branch: {}", self.cx.show(other, 14));
                }
                self.js.incomplete.push("solver gave no verdict on a branch".into());
                st.pcs.push(mine);
            }
        }
        Ok(now)
    }
    fn push_work(&mut self, o: State, st: &State) {
        self.js.forks += 1;
        if let Some(f) = &st.th[st.cur].top {
            let n = self.m.funcs[f.f.id as usize].name.clone();
            *self.forkprof.entry(n).or_default() += 1;
        }
        self.work.push(o);
    }
    /// make a value concrete, forking over its feasible values one at a time
    pub fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::E(e) => {
                let e = *e;
                if let Some(k) = self.cx.kval(e) {
                    return Ok(k as u64);
                }
                if let Some(k) = st.conc.get(&e) {
                    return Ok(*k);
                }
                let _ = w;
                let k = self.mval(st, e);
                let eq = self.cx.eqk(e, k);
                let ne = self.cx.not1(eq);
                match self.so.check(&mut self.cx, &st.pcs, ne) {
                    Res::Unsat => {}
                    Res::Sat(d) => {
                        let mut o = st.clone();
                        o.pcs.push(ne);
                        o.model = Self::merge(&st.model, &d);
                        o.forks += 1;
                        self.push_work(o, st);
                        st.pcs.push(eq);
                    }
                    Res::Unknown => {
                        self.js.incomplete.push("solver gave no verdict on a concretisation".into());
                        st.pcs.push(eq);
                    }
                }
                Rc::make_mut(&mut st.conc).insert(e, k as u64);
                Ok(k as u64)
            }
            _ => panic!("conc aggregate"),
        }
    }
    pub fn bt(&self, st: &State) -> String {
        let t = &st.th[st.cur];
        let mut v = vec![];
        if let Some(f) = &t.top {
            v.push(self.m.funcs[f.f.id as usize].name.clone());
        }
        for f in t.stack.iter().rev().take(14) {
            v.push(self.m.funcs[f.f.id as usize].name.clone());
        }
        v.iter().map(|x| demangle(x)).collect::<Vec<_>>().join(" < ")
    }
    pub fn chk(&self, st: &State, a: u64, n: u64) -> R<()> {
        if Mem::ok(a, n) {
            Ok(())
        } else {
            Err(Stop::Viol(format!("memory fault: access to address {a:#x} in {}", self.bt(st)), None))
        }
    }
    /// collect the constant leaves of an ite-shaped address
    fn leaves(&mut self, e: Eid, add: u64, cond: Eid, out: &mut Vec<(Eid, u64)>) -> bool {
        if out.len() > 64 {
            return false;
        }
        let n = self.cx.n(e);
        match n.op {
            Op::Const => {
                out.push((cond, (n.k as u64).wrapping_add(add)));
                true
            }
            Op::Ite => {
                let nc = self.cx.not1(n.a);
                let c1 = self.cx.and1(cond, n.a);
                let c2 = self.cx.and1(cond, nc);
                self.leaves(n.b, add, c1, out) && self.leaves(n.c, add, c2, out)
            }
            Op::Add => {
                if let Some(k) = self.cx.kval(n.b) {
                    self.leaves(n.a, add.wrapping_add(k as u64), cond, out)
                } else {
                    false
                }
            }
            _ => false,
        }
    }
    /// addr = affine function of a sub-expression of at most 10 bits
    fn small_core(&mut self, e: Eid) -> Option<(Eid, Vec<u64>)> {
        let mut x = e;
        let mut chain: Vec<Node> = vec![];
        loop {
            let n = self.cx.n(x);
            if n.w <= 10 {
                break;
            }
            match n.op {
                Op::Add | Op::Mul | Op::Shl | Op::Xor if self.cx.kval(n.b).is_some() => {
                    chain.push(n);
                    x = n.a;
                }
                Op::ZExt => {
                    chain.push(n);
                    x = n.a;
                }
                Op::Concat if self.cx.kval(n.b).is_some() => {
                    chain.push(n);
                    x = n.a;
                }
                _ => {
                    // an expression whose high bits are all zero
                    let b = 128 - self.cx.umax[x as usize].leading_zeros();
                    if b > 10 || b == 0 {
                        return None;
                    }
                    chain.push(Node { op: Op::ZExt, ..n });
                    x = self.cx.extract(x, 0, b);
                    break;
                }
            }
        }
        let w = self.cx.w(x);
        let mut vals = vec![];
        for k in 0..(1u128 << w) {
            let mut v = k;
            for n in chain.iter().rev() {
                let nw = n.w as u32;
                v = match n.op {
                    Op::ZExt => v,
                    Op::Concat => {
                        let bw = self.cx.w(n.b);
                        (v << bw) | self.cx.kval(n.b).unwrap()
                    }
                    _ => Ctx::fold(n.op, nw, nw, v, self.cx.kval(n.b).unwrap()),
                };
            }
            vals.push(v as u64);
        }
        Some((x, vals))
    }
    fn mux(&mut self, core: Eid, bit: i32, base: usize, vals: &[Eid]) -> Eid {
        if bit < 0 {
            return vals[base];
        }
        let lo = self.mux(core, bit - 1, base, vals);
        let hi = self.mux(core, bit - 1, base + (1 << bit), vals);
        let b = self.cx.extract(core, bit as u32, 1);
        self.cx.ite(b, hi, lo)
    }
    pub fn load(&mut self, st: &mut State, t: Ty, w: u32, a: &Val) -> R<Val> {
        let sz = if w > 0 { ((w + 7) / 8) as u64 } else { self.m.size(t) };
        let ad = match a {
            Val::I(x) => *x,
            Val::E(e) => {
                if let Some(k) = st.conc.get(e) {
                    *k
                } else {
                    if w > 0 {
                        let mut ls = vec![];
                        if self.leaves(*e, 0, 1, &mut ls) && ls.len() <= 64 {
                            // drop infeasible arms that would fault
                            let mut r: Option<Eid> = None;
                            for (c, ad) in ls.iter().rev() {
                                if !Mem::ok(*ad, sz) {
                                    if let Res::Unsat = self.so.check(&mut self.cx, &st.pcs, *c) {
                                        continue;
                                    }
                                    r = None;
                                    break;
                                }
                                let v = self.read_scalar(&st.mem, *ad, w);
                                let v = self.e(&v, w);
                                r = Some(match r {
                                    None => v,
                                    Some(p) => self.cx.ite(*c, v, p),
                                });
                            }
                            if let Some(r) = r {
                                return Ok(self.v(r));
                            }
                        }
                        if let Some((core, vals)) = self.small_core(*e) {
                            if vals.iter().all(|x| Mem::ok(*x, sz)) {
                                let vs: Vec<Eid> = vals
                                    .iter()
                                    .map(|ad| {
                                        let v = self.read_scalar(&st.mem, *ad, w);
                                        self.e(&v, w)
                                    })
                                    .collect();
                                let cw = self.cx.w(core) as i32;
                                let r = self.mux(core, cw - 1, 0, &vs);
                                return Ok(self.v(r));
                            }
                        }
                    }
                    self.conc(st, a, 64)?
                }
            }
            _ => panic!(),
        };
        if !Mem::ok(ad, sz) {
            self.chk(st, ad, sz)?;
        }
        if w > 0 {
            Ok(self.read_scalar(&st.mem, ad, w))
        } else {
            let mem = std::mem::replace(&mut st.mem, Mem::empty());
            let r = self.read_val(&mem, ad, t);
            st.mem = mem;
            Ok(r)
        }
    }
    #[inline]
    pub fn store(&mut self, st: &mut State, t: Ty, w: u32, v: &Val, a: &Val) -> R<()> {
        let ad = self.conc(st, a, 64)?;
        let sz = if w > 0 { ((w + 7) / 8) as u64 } else { self.m.size(t) };
        if !Mem::ok(ad, sz) {
            self.chk(st, ad, sz)?;
        }
        if w > 0 {
            match v {
                Val::I(x) => st.mem.write_c(ad, sz as usize, *x),
                Val::E(e) => st.mem.write_sym(&mut self.cx, ad, sz, *e),
                _ => panic!(),
            }
        } else {
            let mut mem = std::mem::replace(&mut st.mem, Mem::empty());
            self.write_val(&mut mem, ad, t, v);
            st.mem = mem;
        }
        Ok(())
    }

    pub fn binop(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w == 64 {
                match op {
                    Op::Add => return Val::I(x.wrapping_add(*y)),
                    Op::Sub => return Val::I(x.wrapping_sub(*y)),
                    Op::And => return Val::I(x & y),
                    Op::Or => return Val::I(x | y),
                    Op::Xor => return Val::I(x ^ y),
                    Op::Mul => return Val::I(x.wrapping_mul(*y)),
                    _ => {}
                }
            }
            if w <= 64 {
                return Val::I(Ctx::fold(op, w, w, *x as u128, *y as u128) as u64);
            }
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.cx.bin(op, w, x, y);
        self.v(r)
    }
    pub fn icmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            return Val::I(match p {
                "eq" => x == y,
                "ne" => x != y,
                "ult" => x < y,
                "ule" => x <= y,
                "ugt" => x > y,
                "uge" => x >= y,
                "slt" => s(x) < s(y),
                "sle" => s(x) <= s(y),
                "sgt" => s(x) > s(y),
                _ => s(x) >= s(y),
            } as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            "eq" => self.cx.bin(Op::Eq, 1, x, y),
            "ne" => {
                let e = self.cx.bin(Op::Eq, 1, x, y);
                self.cx.not1(e)
            }
            "ult" => self.cx.bin(Op::Ult, 1, x, y),
            "ule" => self.cx.bin(Op::Ule, 1, x, y),
            "ugt" => self.cx.bin(Op::Ult, 1, y, x),
            "uge" => self.cx.bin(Op::Ule, 1, y, x),
            "slt" => self.cx.bin(Op::Slt, 1, x, y),
            "sle" => self.cx.bin(Op::Sle, 1, x, y),
            "sgt" => self.cx.bin(Op::Slt, 1, y, x),
            _ => self.cx.bin(Op::Sle, 1, y, x),
        };
        self.v(r)
    }
    pub fn fcmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.e(a, w), self.e(b, w));
        let nx = self.cx.un(Op::FIsNan, 1, x, 0);
        let ny = self.cx.un(Op::FIsNan, 1, y, 0);
        let uno = self.cx.or1(nx, ny);
        let r = match p {
            "oeq" => self.cx.bin(Op::FEq, 1, x, y),
            "olt" => self.cx.bin(Op::FLt, 1, x, y),
            "ole" => self.cx.bin(Op::FLe, 1, x, y),
            "ogt" => self.cx.bin(Op::FLt, 1, y, x),
            "oge" => self.cx.bin(Op::FLe, 1, y, x),
            "one" => {
                let e = self.cx.bin(Op::FEq, 1, x, y);
                let e = self.cx.or1(e, uno);
                self.cx.not1(e)
            }
            "ord" => self.cx.not1(uno),
            "uno" => uno,
            "ueq" => {
                let e = self.cx.bin(Op::FEq, 1, x, y);
                self.cx.or1(e, uno)
            }
            "une" => {
                let e = self.cx.bin(Op::FEq, 1, x, y);
                self.cx.not1(e)
            }
            "ult" => {
                let e = self.cx.bin(Op::FLe, 1, y, x);
                self.cx.not1(e)
            }
            "ule" => {
                let e = self.cx.bin(Op::FLt, 1, y, x);
                self.cx.not1(e)
            }
            "ugt" => {
                let e = self.cx.bin(Op::FLe, 1, x, y);
                self.cx.not1(e)
            }
            "uge" => {
                let e = self.cx.bin(Op::FLt, 1, x, y);
                self.cx.not1(e)
            }
            "true" => 1,
            _ => 0,
        };
        self.v(r)
    }
    fn cast1(&mut self, k: &str, fw: u32, tw: u32, a: &Val) -> Val {
        match k {
            "trunc" => match a {
                Val::I(x) => Val::I(*x & mask(tw) as u64),
                Val::E(e) => {
                    let r = self.cx.extract(*e, 0, tw);
                    self.v(r)
                }
                _ => panic!(),
            },
            "zext" => match a {
                Val::I(x) if tw <= 64 => Val::I(*x),
                _ => {
                    let e = self.e(a, fw);
                    let r = self.cx.zext(e, tw);
                    self.v(r)
                }
            },
            "sext" => match a {
                Val::I(x) if tw <= 64 => Val::I((sx(*x as u128, fw) as u128 & mask(tw)) as u64),
                _ => {
                    let e = self.e(a, fw);
                    let r = self.cx.sext(e, tw);
                    self.v(r)
                }
            },
            "ptrint" | "bitcast" => {
                if fw == tw {
                    return a.clone();
                }
                let e = self.e(a, fw);
                let r = if tw < fw { self.cx.extract(e, 0, tw) } else { self.cx.zext(e, tw) };
                self.v(r)
            }
            _ => {
                let e = self.e(a, fw);
                let op = match k {
                    "uitofp" => Op::UToF,
                    "sitofp" => Op::SToF,
                    "fptoui" => Op::FToU,
                    "fptosi" => Op::FToS,
                    _ => Op::FToF,
                };
                let r = self.cx.un(op, tw, e, 0);
                self.v(r)
            }
        }
    }
    fn cast(&mut self, k: &str, ft: Ty, tt: Ty, a: &Val) -> Val {
        let fk = self.m.k(ft).clone();
        let tk = self.m.k(tt).clone();
        match (&fk, &tk) {
            (TyK::Vec(n, fe), TyK::Vec(n2, te)) if k != "bitcast" || (n == n2) => {
                let (fw, tw) = (self.m.bits(*fe), self.m.bits(*te));
                if let Val::A(v) = a {
                    let r = v.iter().map(|x| self.cast1(k, fw, tw, x)).collect();
                    return Val::A(Rc::new(r));
                }
                panic!()
            }
            (TyK::Vec(_, fe), TyK::Vec(n2, te)) => {
                // bitcast with different lane count
                let (fw, tw) = (self.m.bits(*fe), self.m.bits(*te));
                let vs = match a {
                    Val::A(v) => v.clone(),
                    _ => panic!(),
                };
                let mut out = vec![];
                if fw < tw {
                    let r = (tw / fw) as usize;
                    for i in 0..*n2 as usize {
                        let mut e = self.e(&vs[i * r], fw);
                        for j in 1..r {
                            let h = self.e(&vs[i * r + j], fw);
                            e = self.cx.concat(h, e);
                        }
                        out.push(self.v(e));
                    }
                } else {
                    let r = fw / tw;
                    for x in vs.iter() {
                        let e = self.e(x, fw);
                        for j in 0..r {
                            let y = self.cx.extract(e, j * tw, tw);
                            out.push(self.v(y));
                        }
                    }
                }
                Val::A(Rc::new(out))
            }
            (TyK::Vec(_, fe), _) => {
                let fw = self.m.bits(*fe);
                if let Val::A(v) = a {
                    // all concrete fast path
                    if fw == 1 && v.len() <= 64 && v.iter().all(|x| matches!(x, Val::I(_))) {
                        let mut r = 0u64;
                        for (i, x) in v.iter().enumerate() {
                            if let Val::I(b) = x {
                                r |= b << i;
                            }
                        }
                        return Val::I(r);
                    }
                    let mut e = self.e(&v[0], fw);
                    for x in &v[1..] {
                        let h = self.e(x, fw);
                        e = self.cx.concat(h, e);
                    }
                    return self.v(e);
                }
                panic!()
            }
            (_, TyK::Vec(n, te)) => {
                let (fw, tw) = (self.m.bits(ft), self.m.bits(*te));
                let e = self.e(a, fw);
                let r = (0..*n as u32)
                    .map(|i| {
                        let y = self.cx.extract(e, i * tw, tw);
                        self.v(y)
                    })
                    .collect();
                Val::A(Rc::new(r))
            }
            _ => {
                let (fw, tw) = (self.m.bits(ft), self.m.bits(tt));
                self.cast1(k, fw, tw, a)
            }
        }
    }
    pub fn ite_val(&mut self, c: Eid, a: &Val, b: &Val) -> R<Val> {
        Ok(match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(self.ite_val(c, &x[i], &y[i])?);
                }
                Val::A(Rc::new(v))
            }
            (Val::I(x), Val::I(y)) if x == y => Val::I(*x),
            _ => {
                // width from whichever side is an expression; two concrete sides use 64 and are re-narrowed by the caller
                let w = match (a, b) {
                    (Val::E(e), _) | (_, Val::E(e)) => self.cx.w(*e),
                    _ => return Err(Stop::Unsup("ite width".into())),
                };
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.cx.ite(c, x, y);
                self.v(r)
            }
        })
    }
}

impl Mem {
    pub fn empty() -> Self {
        Mem::hollow()
    }
}

pub fn demangle(s: &str) -> String {
    // compact rendering of v0/legacy symbols: keep the identifiers
    let b = s.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    if !s.starts_with("_R") && !s.starts_with("_ZN") {
        return s.to_string();
    }
    i += 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let n: usize = s[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() && b[j..j + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.' || *c == b'$') {
                let id = &s[j..j + n];
                if !(id.len() == 17 && id.starts_with('h')) {
                    out.push(id.to_string());
                }
                i = j + n;
                continue;
            }
        } else if b[i] == b's' || b[i] == b'B' || b[i] == b'C' {
            // s<base62>_ disambiguators / backrefs
            if b[i] == b's' || b[i] == b'B' {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    i = j + 1;
                    continue;
                }
            }
        }
        i += 1;
    }
    out.truncate(7);
    out.join("::")
}

// ------------------------------------------------------------------------------------------
// interpreter loop
impl Vm {
    #[inline]
    fn get(f: &Frame, o: &O) -> Val {
        match o {
            O::R(r) => f.regs[*r as usize].clone(),
            O::V(v) => v.clone(),
        }
    }
    pub fn finish_call(f: &mut Frame, v: Val) {
        let fun = f.f.clone();
        match &fun.blocks[f.b as usize].ins[f.pc as usize] {
            DI::Ext(_, _, _, _, dst, nb) | DI::CallInd(_, _, dst, nb) => {
                if let Some(d) = dst {
                    f.regs[*d as usize] = v;
                }
                match nb {
                    Some(b) => Self::jump(f, *b),
                    None => f.pc += 1,
                }
            }
            _ => panic!("finish_call"),
        }
    }
    #[inline]
    fn set(f: &mut Frame, d: u32, v: Val) {
        if d != NOREG {
            f.regs[d as usize] = v;
        }
    }
    fn jump(f: &mut Frame, to: u32) {
        let from = f.b;
        let fun = f.f.clone();
        let blk = &fun.blocks[to as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, vs) = &blk.phis[0];
                let o = &vs.iter().find(|x| x.0 == from).expect("phi").1;
                let v = Self::get(f, o);
                f.regs[*d as usize] = v;
            } else {
                let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
                for (d, vs) in &blk.phis {
                    let o = &vs.iter().find(|x| x.0 == from).expect("phi").1;
                    tmp.push((*d, Self::get(f, o)));
                }
                for (d, v) in tmp {
                    f.regs[d as usize] = v;
                }
            }
        }
        f.b = to;
        f.pc = 0;
    }
    pub fn lanewise(&mut self, n: u32, a: &Val, b: &Val, mut g: impl FnMut(&mut Self, &Val, &Val) -> Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n as usize {
                    let r = g(self, &x[i], &y[i]);
                    v.push(r);
                }
                Val::A(Rc::new(v))
            }
            _ => panic!("lanewise"),
        }
    }

    /// run the current state until it terminates; siblings are queued in self.work
    pub fn run_state(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        'outer: loop {
            // take the frame out for cheap access
            let cur = st.cur;
            let mut f = match st.th[cur].top.take() {
                Some(f) => f,
                None => return Stop::Done,
            };
            // inner loop on one frame
            let r = loop {
                let fun = f.f.clone();
                let ins = &fun.blocks[f.b as usize].ins[f.pc as usize];
                st.steps += 1;
                tick += 1;
                if tick >= 1 << 16 {
                    tick = 0;
                    *self.prof.entry(fun.id).or_default() += 1;
                    if st.steps > self.max_steps {
                        st.th[cur].top = Some(f);
                        
                        return Stop::Viol(format!("hang: no end after {} million steps", self.max_steps / 1_000_000), None);
                    }
                    if Instant::now() > self.deadline {
                        st.th[cur].top = Some(f);
                        return Stop::Unsup("time budget exhausted".into());
                    }
                }
                match ins {
                    DI::Bin(op, w, n, d, a, b) => {
                        let (x, y) = (Self::get(&f, a), Self::get(&f, b));
                        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && *n == 0 {
                            if let Val::I(0) = y {
                                st.th[cur].top = Some(f);
                                return Stop::Viol(format!("division by zero in {}", self.bt(st)), None);
                            }
                        }
                        let v = if *n == 0 { self.binop(*op, *w, &x, &y) } else { self.lanewise(*n, &x, &y, |s, p, q| s.binop(*op, *w, p, q)) };
                        Self::set(&mut f, *d, v);
                        f.pc += 1;
                    }
                    DI::ICmp(p, w, n, d, a, b) => {
                        let (x, y) = (Self::get(&f, a), Self::get(&f, b));
                        let v = if *n == 0 { self.icmp(p, *w, &x, &y) } else { self.lanewise(*n, &x, &y, |s, l, r| s.icmp(p, *w, l, r)) };
                        Self::set(&mut f, *d, v);
                        f.pc += 1;
                    }
                    DI::FCmp(p, w, n, d, a, b) => {
                        let (x, y) = (Self::get(&f, a), Self::get(&f, b));
                        let v = if *n == 0 { self.fcmp(p, *w, &x, &y) } else { self.lanewise(*n, &x, &y, |s, l, r| s.fcmp(p, *w, l, r)) };
                        Self::set(&mut f, *d, v);
                        f.pc += 1;
                    }
                    DI::FNeg(w, n, d, a) => {
                        let x = Self::get(&f, a);
                        let s = Val::I(1u64 << (w - 1));
                        let v = if *n == 0 {
                            self.binop(Op::Xor, *w, &x, &s)
                        } else {
                            self.lanewise(*n, &x, &x, |m, p, _| m.binop(Op::Xor, *w, p, &s))
                        };
                        Self::set(&mut f, *d, v);
                        f.pc += 1;
                    }
                    DI::Load(t, w, d, a) => {
                        let ad = Self::get(&f, a);
                        if let (Val::I(x), true) = (&ad, *w > 0 && *w % 8 == 0) {
                            let n = (*w / 8) as usize;
                            if Mem::ok(*x, n as u64) {
                                if let Some(k) = st.mem.read_c(*x, n) {
                                    Self::set(&mut f, *d, Val::I(k));
                                    f.pc += 1;
                                    continue;
                                }
                            }
                        }
                        st.th[cur].top = Some(f);
                        let r = self.load(st, *t, *w, &ad);
                        f = st.th[cur].top.take().unwrap();
                        match r {
                            Ok(v) => {
                                Self::set(&mut f, *d, v);
                                f.pc += 1;
                            }
                            Err(e) => break Err(e),
                        }
                    }
                    DI::Store(t, w, v, a) => {
                        let ad = Self::get(&f, a);
                        let x = Self::get(&f, v);
                        if let (Val::I(p), Val::I(k), true) = (&ad, &x, *w > 0) {
                            let n = ((*w + 7) / 8) as usize;
                            if Mem::ok(*p, n as u64) {
                                st.mem.write_c(*p, n, *k);
                                f.pc += 1;
                                continue;
                            }
                        }
                        st.th[cur].top = Some(f);
                        let r = self.store(st, *t, *w, &x, &ad);
                        f = st.th[cur].top.take().unwrap();
                        match r {
                            Ok(()) => f.pc += 1,
                            Err(e) => break Err(e),
                        }
                    }
                    DI::Gep(d, b, off, terms) => {
                        let base = Self::get(&f, b);
                        let mut acc = match &base {
                            Val::I(x) => Val::I(x.wrapping_add(*off as u64)),
                            _ => self.binop(Op::Add, 64, &base, &Val::I(*off as u64)),
                        };
                        for (o, w, s) in terms {
                            let x = Self::get(&f, o);
                            match (&acc, &x) {
                                (Val::I(p), Val::I(i)) => {
                                    let i = if *w == 64 { *i as i64 } else { sx(*i as u128, *w) as i64 };
                                    acc = Val::I(p.wrapping_add(i.wrapping_mul(*s) as u64));
                                }
                                _ => {
                                    let y = if *w == 64 { x } else { self.cast1("sext", *w, 64, &x) };
                                    let z = self.binop(Op::Mul, 64, &y, &Val::I(*s as u64));
                                    acc = self.binop(Op::Add, 64, &acc, &z);
                                }
                            }
                        }
                        Self::set(&mut f, *d, acc);
                        f.pc += 1;
                    }
                    DI::Cast(k, ft, tt, d, a) => {
                        let x = Self::get(&f, a);
                        let v = self.cast(k, *ft, *tt, &x);
                        Self::set(&mut f, *d, v);
                        f.pc += 1;
                    }
                    DI::Select(d, c, a, b, vec, sw) => {
                        let cv = Self::get(&f, c);
                        if *vec {
                            let (x, y) = (Self::get(&f, a), Self::get(&f, b));
                            if let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&cv, &x, &y) {
                                let mut out = vec![];
                                for i in 0..cs.len() {
                                    match &cs[i] {
                                        Val::I(k) => out.push(if *k != 0 { xs[i].clone() } else { ys[i].clone() }),
                                        Val::E(e) => {
                                            let w = *sw;
                                            let (p, q) = (self.e(&xs[i], w), self.e(&ys[i], w));
                                            let r = self.cx.ite(*e, p, q);
                                            out.push(self.v(r));
                                        }
                                        _ => panic!(),
                                    }
                                }
                                Self::set(&mut f, *d, Val::A(Rc::new(out)));
                            }
                            f.pc += 1;
                            continue;
                        }
                        match cv {
                            Val::I(k) => {
                                let v = if k != 0 { Self::get(&f, a) } else { Self::get(&f, b) };
                                Self::set(&mut f, *d, v);
                                f.pc += 1;
                            }
                            Val::E(e) => {
                                let (x, y) = (Self::get(&f, a), Self::get(&f, b));
                                let w = *sw;
                                let r = if w > 0 && !matches!(x, Val::A(_)) {
                                    let (p, q) = (self.e(&x, w), self.e(&y, w));
                                    let r = self.cx.ite(e, p, q);
                                    Ok(self.v(r))
                                } else {
                                    self.ite_val(e, &x, &y)
                                };
                                match r {
                                    Ok(v) => {
                                        Self::set(&mut f, *d, v);
                                        f.pc += 1;
                                    }
                                    Err(_) => {
                                        // fork on the condition instead
                                        st.th[cur].top = Some(f);
                                        let r = self.conc(st, &Val::E(e), 1);
                                        f = st.th[cur].top.take().unwrap();
                                        match r {
                                            Ok(k) => {
                                                Self::set(&mut f, *d, if k != 0 { x } else { y });
                                                f.pc += 1;
                                            }
                                            Err(s) => break Err(s),
                                        }
                                    }
                                }
                            }
                            _ => panic!(),
                        }
                    }
                    DI::Br(t) => Self::jump(&mut f, *t),
                    DI::CondBr(c, a, b) => match Self::get(&f, c) {
                        Val::I(k) => Self::jump(&mut f, if k != 0 { *a } else { *b }),
                        Val::E(e) => {
                            let (ta, tb) = (*a, *b);
                            st.th[cur].top = Some(f);
                            // sibling takes the other target
                            let now = self.mval(st, e) != 0;
                            let ot = if now { tb } else { ta };
                            let r = self.branch(st, e, |o| {
                                let g = o.th[cur].top.as_mut().unwrap();
                                Self::jump(g, ot);
                            });
                            f = st.th[cur].top.take().unwrap();
                            match r {
                                Ok(k) => Self::jump(&mut f, if k { ta } else { tb }),
                                Err(e) => break Err(e),
                            }
                        }
                        _ => panic!(),
                    },
                    DI::Switch(w, v, df, mp, cs) => match Self::get(&f, v) {
                        Val::I(k) => {
                            let t = *mp.get(&k).unwrap_or(df);
                            Self::jump(&mut f, t);
                        }
                        Val::E(e) => {
                            st.th[cur].top = Some(f);
                            let r = self.switch_sym(st, cur, e, *w, *df, cs);
                            f = st.th[cur].top.take().unwrap();
                            if let Err(e) = r {
                                break Err(e);
                            }
                        }
                        _ => panic!(),
                    },
                    DI::Call(g, args, dst, nb, _) => {
                        let fun2 = self.func(*g);
                        self.used[*g as usize] = true;
                        let mut regs = vec![Val::I(0); fun2.nregs as usize];
                        for (i, p) in fun2.params.iter().enumerate() {
                            if i < args.len() {
                                regs[*p as usize] = Self::get(&f, &args[i]);
                            }
                        }
                        let nf = Frame { f: fun2, b: 0, pc: 0, regs, sp: st.th[cur].sp, dst: *dst, normal: *nb };
                        let old = std::mem::replace(&mut f, nf);
                        st.th[cur].stack.push(Rc::new(old));
                        if st.th[cur].stack.len() > 20000 {
                            st.th[cur].top = Some(f);
                            return Stop::Viol("stack overflow (recursion depth)".into(), None);
                        }
                    }
                    DI::CallInd(c, args, dst, nb) => {
                        let cv = Self::get(&f, c);
                        st.th[cur].top = Some(f);
                        let r = self.conc(st, &cv, 64);
                        f = st.th[cur].top.take().unwrap();
                        let ad = match r {
                            Ok(a) => a,
                            Err(e) => break Err(e),
                        };
                        if ad < FBASE || (ad - FBASE) / 16 >= self.m.funcs.len() as u64 || (ad - FBASE) % 16 != 0 {
                            st.th[cur].top = Some(f);
                            return Stop::Viol(format!("call through invalid function pointer {ad:#x} in {}", self.bt(st)), None);
                        }
                        let g = ((ad - FBASE) / 16) as u32;
                        if self.m.funcs[g as usize].body.is_none() {
                            let name = self.m.funcs[g as usize].name.clone();
                            let id = self.ext_id(&name);
                            let ts = self.m.funcs[g as usize].params.clone();
                            let rt = self.m.funcs[g as usize].ret;
                            let vals: Vec<Val> = args.iter().map(|a| Self::get(&f, a)).collect();
                            let (dst, nb) = (*dst, *nb);
                            st.th[cur].top = Some(f);
                            let r = self.call_ext(st, id, &vals, &ts, rt);
                            match r {
                                Ok(Some(v)) => {
                                    f = st.th[cur].top.take().unwrap();
                                    if let Some(d) = dst {
                                        Self::set(&mut f, d, v);
                                    }
                                    match nb {
                                        Some(b) => Self::jump(&mut f, b),
                                        None => f.pc += 1,
                                    }
                                    if st.cur != cur {
                                        st.th[cur].top = Some(f);
                                        continue 'outer;
                                    }
                                    continue;
                                }
                                Ok(None) => continue 'outer,
                                Err(e) => {
                                    return e;
                                }
                            }
                        }
                        if let Some(x) = self.intercept(&self.m.funcs[g as usize].name.clone()) {
                            let id = self.ext_id(&x);
                            let vals: Vec<Val> = args.iter().map(|a| Self::get(&f, a)).collect();
                            st.th[cur].top = Some(f);
                            let rt = self.m.funcs[g as usize].ret;
                            match self.call_ext(st, id, &vals, &[], rt) {
                                Err(e) => return e,
                                _ => unreachable!(),
                            }
                        }
                        let fun2 = self.func(g);
                        self.used[g as usize] = true;
                        let mut regs = vec![Val::I(0); fun2.nregs as usize];
                        for (i, p) in fun2.params.iter().enumerate() {
                            if i < args.len() {
                                regs[*p as usize] = Self::get(&f, &args[i]);
                            }
                        }
                        let nf = Frame { f: fun2, b: 0, pc: 0, regs, sp: st.th[cur].sp, dst: *dst, normal: *nb };
                        let old = std::mem::replace(&mut f, nf);
                        st.th[cur].stack.push(Rc::new(old));
                    }
                    DI::Ext(id, args, ts, rt, dst, nb) => {
                        let vals: Vec<Val> = args.iter().map(|a| Self::get(&f, a)).collect();
                        st.th[cur].top = Some(f);
                        match self.call_ext(st, *id, &vals, ts, *rt) {
                            Ok(Some(v)) => {
                                f = st.th[cur].top.take().unwrap();
                                if let Some(d) = dst {
                                    Self::set(&mut f, *d, v);
                                }
                                match nb {
                                    Some(b) => Self::jump(&mut f, *b),
                                    None => f.pc += 1,
                                }
                                if st.cur != cur {
                                    st.th[cur].top = Some(f);
                                    continue 'outer;
                                }
                            }
                            // the handler arranged everything (thread switch, re-execution ...)
                            Ok(None) => continue 'outer,
                            Err(e) => return e,
                        }
                    }
                    DI::Ret(v) => {
                        let r = v.as_ref().map(|o| Self::get(&f, o));
                        st.th[cur].sp = f.sp;
                        match st.th[cur].stack.pop() {
                            Some(p) => {
                                let (dst, nb) = (f.dst, f.normal);
                                let mut p = Rc::try_unwrap(p).unwrap_or_else(|x| (*x).clone());
                                if let (Some(d), Some(v)) = (dst, r) {
                                    p.regs[d as usize] = v;
                                }
                                f = p;
                                match nb {
                                    Some(b) => Self::jump(&mut f, b),
                                    None => f.pc += 1,
                                }
                            }
                            None => {
                                // thread finished
                                st.th[cur].st = TS::Done;
                                st.th[cur].ret = r.unwrap_or(Val::I(0));
                                if cur == 0 {
                                    return Stop::Done;
                                }
                                if let Err(e) = self.schedule(st) {
                                    return e;
                                }
                                continue 'outer;
                            }
                        }
                    }
                    DI::Unreachable => {
                        st.th[cur].top = Some(f);
                        return Stop::Viol(format!("unreachable code reached in {}", self.bt(st)), None);
                    }
                    DI::Extract(d, v, ix) => {
                        let mut x = Self::get(&f, v);
                        for i in ix {
                            x = match &x {
                                Val::A(vs) => vs[*i as usize].clone(),
                                _ => panic!("extractvalue of scalar"),
                            };
                        }
                        Self::set(&mut f, *d, x);
                        f.pc += 1;
                    }
                    DI::Insert(d, v, e, ix) => {
                        let x = Self::get(&f, v);
                        let y = Self::get(&f, e);
                        fn ins(x: &Val, ix: &[u32], y: Val) -> Val {
                            if ix.is_empty() {
                                return y;
                            }
                            match x {
                                Val::A(vs) => {
                                    let mut v = (**vs).clone();
                                    v[ix[0] as usize] = ins(&vs[ix[0] as usize], &ix[1..], y);
                                    Val::A(Rc::new(v))
                                }
                                _ => panic!(),
                            }
                        }
                        let r = ins(&x, ix, y);
                        Self::set(&mut f, *d, r);
                        f.pc += 1;
                    }
                    DI::ExtractEl(d, v, i) => {
                        let (x, iv) = (Self::get(&f, v), Self::get(&f, i));
                        match (&x, &iv) {
                            (Val::A(vs), Val::I(k)) => {
                                let r = vs[*k as usize].clone();
                                Self::set(&mut f, *d, r);
                                f.pc += 1;
                            }
                            _ => {
                                st.th[cur].top = Some(f);
                                return Stop::Unsup("extractelement with symbolic index".into());
                            }
                        }
                    }
                    DI::InsertEl(d, v, e, i) => {
                        let (x, y, iv) = (Self::get(&f, v), Self::get(&f, e), Self::get(&f, i));
                        match (&x, &iv) {
                            (Val::A(vs), Val::I(k)) => {
                                let mut o = (**vs).clone();
                                o[*k as usize] = y;
                                Self::set(&mut f, *d, Val::A(Rc::new(o)));
                                f.pc += 1;
                            }
                            _ => {
                                st.th[cur].top = Some(f);
                                return Stop::Unsup("insertelement with symbolic index".into());
                            }
                        }
                    }
                    DI::Shuffle(d, a, b, mk) => {
                        let (x, y) = (Self::get(&f, a), Self::get(&f, b));
                        if let (Val::A(p), Val::A(q)) = (&x, &y) {
                            let n = p.len();
                            let o = mk
                                .iter()
                                .map(|m| match m {
                                    None => p[0].clone(),
                                    Some(i) if (*i as usize) < n => p[*i as usize].clone(),
                                    Some(i) => q[*i as usize - n].clone(),
                                })
                                .collect();
                            Self::set(&mut f, *d, Val::A(Rc::new(o)));
                        }
                        f.pc += 1;
                    }
                    DI::Rmw(o, w, d, a, v) => {
                        if st.preempt_on {
                            st.th[cur].top = Some(f);
                            let sw = self.maybe_preempt(st);
                            f = match st.th[cur].top.take() {
                                Some(f) => f,
                                None => continue 'outer,
                            };
                            if sw {
                                st.th[cur].top = Some(f);
                                continue 'outer;
                            }
                        }
                        let (ad, x) = (Self::get(&f, a), Self::get(&f, v));
                        st.th[cur].top = Some(f);
                        let r = self.rmw(st, o, *w, &ad, &x);
                        f = st.th[cur].top.take().unwrap();
                        match r {
                            Ok(v) => {
                                Self::set(&mut f, *d, v);
                                f.pc += 1;
                            }
                            Err(e) => break Err(e),
                        }
                    }
                    DI::CmpXchg(w, d, a, c, n) => {
                        if st.preempt_on {
                            st.th[cur].top = Some(f);
                            let sw = self.maybe_preempt(st);
                            f = match st.th[cur].top.take() {
                                Some(f) => f,
                                None => continue 'outer,
                            };
                            if sw {
                                st.th[cur].top = Some(f);
                                continue 'outer;
                            }
                        }
                        let (ad, cv, nv) = (Self::get(&f, a), Self::get(&f, c), Self::get(&f, n));
                        st.th[cur].top = Some(f);
                        let r = (|| -> R<Val> {
                            let pa = self.conc(st, &ad, 64)?;
                            let sz = ((*w + 7) / 8) as u64;
                            self.chk(st, pa, sz)?;
                            let old = self.read_scalar(&st.mem, pa, *w);
                            let eq = self.icmp("eq", *w, &old, &cv);
                            let k = self.conc(st, &eq, 1)?;
                            if k != 0 {
                                let t = self.m.ty(TyK::Int(*w));
                                self.store(st, t, *w, &nv, &Val::I(pa))?;
                            }
                            Ok(Val::A(Rc::new(vec![old, Val::I(k)])))
                        })();
                        f = st.th[cur].top.take().unwrap();
                        match r {
                            Ok(v) => {
                                Self::set(&mut f, *d, v);
                                f.pc += 1;
                            }
                            Err(e) => break Err(e),
                        }
                    }
                    DI::Alloca(d, s, n, al) => {
                        let k = match Self::get(&f, n) {
                            Val::I(k) => k,
                            _ => {
                                st.th[cur].top = Some(f);
                                return Stop::Unsup("symbolic alloca".into());
                            }
                        };
                        let sz = s * k;
                        let t = &mut st.th[cur];
                        let sp = (t.sp - sz) / al.max(&16) * al.max(&16);
                        t.sp = sp;
                        let lim = STACK0 + cur as u64 * STACKSZ + 4096;
                        if sp < lim {
                            st.th[cur].top = Some(f);
                            return Stop::Viol("stack overflow".into(), None);
                        }
                        Self::set(&mut f, *d, Val::I(sp));
                        f.pc += 1;
                    }
                    DI::Copy(d, v) => {
                        let x = Self::get(&f, v);
                        Self::set(&mut f, *d, x);
                        f.pc += 1;
                    }
                    DI::Lp => {
                        st.th[cur].top = Some(f);
                        return Stop::Unsup(format!("unwinding in {}", self.bt(st)));
                    }
                }
            };
            match r {
                Ok(()) => {}
                Err(e) => {
                    st.th[cur].top = Some(f);
                    return e;
                }
            }
        }
    }
    fn rmw(&mut self, st: &mut State, o: &str, w: u32, ad: &Val, x: &Val) -> R<Val> {
        let pa = self.conc(st, ad, 64)?;
        let sz = ((w + 7) / 8) as u64;
        self.chk(st, pa, sz)?;
        let old = self.read_scalar(&st.mem, pa, w);
        let new = match o {
            "xchg" => x.clone(),
            "add" => self.binop(Op::Add, w, &old, x),
            "sub" => self.binop(Op::Sub, w, &old, x),
            "and" => self.binop(Op::And, w, &old, x),
            "or" => self.binop(Op::Or, w, &old, x),
            "xor" => self.binop(Op::Xor, w, &old, x),
            "nand" => {
                let y = self.binop(Op::And, w, &old, x);
                self.binop(Op::Xor, w, &y, &Val::I(mask(w) as u64))
            }
            "umax" | "umin" | "max" | "min" => {
                let p = match o {
                    "umax" => "ugt",
                    "umin" => "ult",
                    "max" => "sgt",
                    _ => "slt",
                };
                let c = self.icmp(p, w, &old, x);
                let k = self.conc(st, &c, 1)?;
                if k != 0 {
                    old.clone()
                } else {
                    x.clone()
                }
            }
            _ => return Err(Stop::Unsup(format!("atomicrmw {o}"))),
        };
        let t = self.m.ty(TyK::Int(w));
        self.store(st, t, w, &new, &Val::I(pa))?;
        Ok(old)
    }
    fn switch_sym(&mut self, st: &mut State, cur: usize, e: Eid, w: u32, df: u32, cs: &[(u128, u32)]) -> R<()> {
        if let Some(k) = st.conc.get(&e) {
            let k = *k as u128;
            let t = cs.iter().find(|c| c.0 == k).map_or(df, |c| c.1);
            Self::jump(st.th[cur].top.as_mut().unwrap(), t);
            return Ok(());
        }
        self.js.branches += 1;
        // group by target
        let mut by: BTreeMap<u32, Eid> = BTreeMap::new();
        let mut any = 0;
        for (k, t) in cs {
            let kk = self.cx.konst(w, *k);
            let c = self.cx.bin(Op::Eq, 1, e, kk);
            any = self.cx.or1(any, c);
            if *t == df {
                continue;
            }
            let old = *by.get(t).unwrap_or(&0);
            let n = self.cx.or1(old, c);
            by.insert(*t, n);
        }
        let mut dc = self.cx.not1(any);
        for (k, t) in cs {
            if *t == df {
                let kk = self.cx.konst(w, *k);
                let c = self.cx.bin(Op::Eq, 1, e, kk);
                dc = self.cx.or1(dc, c);
            }
        }
        let mut alts: Vec<(u32, Eid)> = by.into_iter().collect();
        alts.push((df, dc));
        let mut taken: Option<(u32, Eid)> = None;
        let mut nfeas = 0;
        for (t, c) in alts {
            if self.cx.is_false(c) {
                continue;
            }
            if self.mval(st, c) != 0 {
                taken = Some((t, c));
                nfeas += 1;
                continue;
            }
            match self.so.check(&mut self.cx, &st.pcs, c) {
                Res::Unsat => {}
                Res::Sat(d) => {
                    nfeas += 1;
                    let mut o = st.clone();
                    o.pcs.push(c);
                    o.model = Self::merge(&st.model, &d);
                    o.forks += 1;
                    Self::jump(o.th[cur].top.as_mut().unwrap(), t);
                    self.push_work(o, st);
                }
                Res::Unknown => self.js.incomplete.push("solver gave no verdict on a switch".into()),
            }
        }
        let (t, c) = taken.expect("model satisfies one arm");
        if nfeas > 1 {
            st.pcs.push(c);
        }
        Self::jump(st.th[cur].top.as_mut().unwrap(), t);
        Ok(())
    }
    // ---- threads ---------------------------------------------------------
    pub fn schedule(&mut self, st: &mut State) -> R<()> {
        // pick a runnable thread (round robin); otherwise advance virtual time
        loop {
            let n = st.th.len();
            for k in 1..=n {
                let i = (st.cur + k) % n;
                match st.th[i].st.clone() {
                    TS::Run => {
                        st.cur = i;
                        return Ok(());
                    }
                    TS::Join(j) if st.th[j].st == TS::Done => {
                        st.th[i].st = TS::Run;
                        st.cur = i;
                        return Ok(());
                    }
                    _ => {}
                }
            }
            let mut best: Option<(u64, usize)> = None;
            for i in 0..n {
                if let TS::Futex { deadline: Some(d), .. } = st.th[i].st {
                    if best.map_or(true, |b| d < b.0) {
                        best = Some((d, i));
                    }
                }
            }
            match best {
                Some((d, i)) => {
                    if d > st.mono {
                        st.mono = d;
                    }
                    st.th[i].st = TS::Run;
                    st.th[i].wake = 110; // ETIMEDOUT
                }
                None => return Err(Stop::Viol("deadlock: every thread is blocked".into(), None)),
            }
        }
    }
    /// explore a context switch at a synchronisation operation (bounded by st.preempt)
    fn maybe_preempt(&mut self, st: &mut State) -> bool {
        if st.preempt == 0 || !st.th[st.cur].armed {
            return false;
        }
        let cur = st.cur;
        let n = st.th.len();
        // a thread that was just switched in executes at least one operation first
        if st.skip_preempt {
            st.skip_preempt = false;
            return false;
        }
        for i in 0..n {
            if i == cur {
                continue;
            }
            let ok = match &st.th[i].st {
                TS::Run => true,
                TS::Join(j) => st.th[*j].st == TS::Done,
                _ => false,
            };
            if ok {
                let mut o = st.clone();
                o.preempt -= 1;
                o.th[i].st = TS::Run;
                o.cur = i;
                o.skip_preempt = true;
                o.forks += 1;
                self.push_ev(&mut o, Ev::Switch(i));
                self.push_work(o, st);
            }
        }
        false
    }

    // ---- top level -------------------------------------------------------
    pub fn events(&mut self, st: &State, model: &Rc<Vec<u64>>) -> (Vec<(String, u32, u64)>, Vec<(String, u64)>, Vec<usize>, Vec<String>) {
        let mut ins = vec![];
        let mut trs = vec![];
        let mut sws = vec![];
        let mut rch = vec![];
        let mut n = st.evs.clone();
        let m = model.clone();
        while let Some(x) = n {
            match &x.ev {
                Ev::In(s, w, v) => {
                    let k = self.val_under(v, &m);
                    ins.push((s.clone(), *w, k));
                }
                Ev::Trace(s, v) => {
                    let k = self.val_under(v, &m);
                    trs.push((s.clone(), k));
                }
                Ev::Switch(i) => sws.push(*i),
                Ev::Reach(s) => rch.push(s.clone()),
            }
            n = x.prev.clone();
        }
        ins.reverse();
        trs.reverse();
        sws.reverse();
        (ins, trs, sws, rch)
    }
    fn val_under(&mut self, v: &Val, m: &Rc<Vec<u64>>) -> u64 {
        match v {
            Val::I(x) => *x,
            Val::E(e) => {
                let m = m.clone();
                self.cx.eval(*e, &move |v| m.get(v as usize).copied().unwrap_or(0) as u128) as u64
            }
            _ => 0,
        }
    }
    pub fn record_viol(&mut self, st: &State, msg: String, model: &Rc<Vec<u64>>) {
        // a few examples of what is known are enough, and do not end the job
        if msg.starts_with("KNOWN:") && self.js.viols.iter().filter(|v| v.msg == msg).count() >= 3 {
            return;
        }
        let (inputs, traces, switches, _) = self.events(st, model);
        self.js.viols.push(Violation { msg, inputs, traces, switches });
    }
    pub fn explore(&mut self, st: State) {
        self.work.push(st);
        let mut done = 0u64;
        let mut iter = 0u64;
        while let Some(mut s) = self.work.pop() {
            if Instant::now() > self.deadline {
                self.js.incomplete.push(format!("time budget: {} pending states dropped", self.work.len() + 1));
                break;
            }
            iter += 1;
            if iter % 512 == 0 {
                let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4 / 1024;
                if rss > self.mem_mb {
                    self.js.incomplete.push(format!("memory budget: {} pending states dropped", self.work.len() + 1));
                    break;
                }
            }
            if self.js.viols.iter().filter(|v| !v.msg.starts_with("KNOWN:")).count() >= self.max_viol {
                self.js.incomplete.push("stopped after the violation limit".into());
                break;
            }
            if self.js.paths >= self.max_paths {
                self.js.incomplete.push(format!("path budget: {} pending states dropped", self.work.len() + 1));
                break;
            }
            let s0 = s.steps;
            let stop = self.run_state(&mut s);
            self.js.steps += s.steps - s0;
            match stop {
                Stop::Done => {
                    self.js.paths += 1;
                    let model = s.model.clone();
                    let (inputs, traces, switches, rch) = self.events(&s, &model);
                    let mut fresh = false;
                    for r in rch {
                        let c = self.js.reach.entry(r).or_default();
                        if *c == 0 {
                            fresh = true;
                        }
                        *c += 1;
                    }
                    done += 1;
                    if (fresh || done.is_power_of_two()) && self.js.samples.len() < 24 {
                        self.js.samples.push(Violation { msg: String::new(), inputs, traces, switches });
                    }
                }
                Stop::Kill => self.js.killed += 1,
                Stop::Fork => {}
                Stop::Viol(msg, cond) => {
                    self.js.paths += 1;
                    let mut model = s.model.clone();
                    if let Some(c) = cond {
                        if let Res::Sat(d) = self.so.check(&mut self.cx, &s.pcs, c) {
                            model = Self::merge(&model, &d);
                        }
                    }
                    self.record_viol(&s, msg, &model);
                }
                Stop::Unsup(m) => {
                    self.js.paths += 1;
                    let b = self.bt(&s);
                    self.js.incomplete.push(format!("{m} [{b}]"));
                }
            }
        }
    }
    pub fn model_of(model: &Rc<Vec<u64>>, d: &[(u32, u64)]) -> Rc<Vec<u64>> {
        Self::merge(model, d)
    }
    pub fn fresh(&mut self, st: &mut State, name: &str, w: u32) -> Eid {
        let names = Rc::make_mut(&mut st.names);
        let c = names.entry(name.to_string()).or_default();
        let key = (name.to_string(), *c, w);
        *c += 1;
        if let Some(e) = self.vars.get(&key) {
            return *e;
        }
        let e = self.cx.var(&format!("{}#{}", key.0, key.1), w);
        self.vars.insert(key, e);
        e
    }
}
