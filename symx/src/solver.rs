//! z3 back end: translation, independence slicing, query cache, small-domain enumeration.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;
use std::time::Instant;

macro_rules! opaque { ($($n:ident),*) => { $( pub type $n = *mut std::ffi::c_void; )* } }
opaque!(Zc, Zcfg, Zast, Zsort, Zsolver, Zmodel, Zsym, Zparams);

extern "C" {
    fn Z3_mk_config() -> Zcfg;
    fn Z3_mk_context_rc(c: Zcfg) -> Zc;
    fn Z3_set_error_handler(c: Zc, h: Option<extern "C" fn(Zc, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_inc_ref(c: Zc, a: Zast);
    fn Z3_mk_int_symbol(c: Zc, i: c_int) -> Zsym;
    fn Z3_mk_string_symbol(c: Zc, s: *const c_char) -> Zsym;
    fn Z3_mk_bv_sort(c: Zc, n: c_uint) -> Zsort;
    fn Z3_mk_fpa_sort_64(c: Zc) -> Zsort;
    fn Z3_mk_fpa_sort_32(c: Zc) -> Zsort;
    fn Z3_mk_const(c: Zc, s: Zsym, t: Zsort) -> Zast;
    fn Z3_mk_numeral(c: Zc, s: *const c_char, t: Zsort) -> Zast;
    fn Z3_mk_true(c: Zc) -> Zast;
    fn Z3_mk_false(c: Zc) -> Zast;
    fn Z3_mk_eq(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_not(c: Zc, a: Zast) -> Zast;
    fn Z3_mk_xor(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_ite(c: Zc, a: Zast, b: Zast, d: Zast) -> Zast;
    fn Z3_mk_and(c: Zc, n: c_uint, a: *const Zast) -> Zast;
    fn Z3_mk_or(c: Zc, n: c_uint, a: *const Zast) -> Zast;
    fn Z3_mk_bvadd(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvsub(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvmul(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvudiv(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvsdiv(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvurem(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvsrem(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvand(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvor(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvxor(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvshl(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvlshr(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvashr(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvult(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvule(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvslt(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_bvsle(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_zero_ext(c: Zc, n: c_uint, a: Zast) -> Zast;
    fn Z3_mk_sign_ext(c: Zc, n: c_uint, a: Zast) -> Zast;
    fn Z3_mk_extract(c: Zc, hi: c_uint, lo: c_uint, a: Zast) -> Zast;
    fn Z3_mk_concat(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_to_fp_bv(c: Zc, a: Zast, s: Zsort) -> Zast;
    fn Z3_mk_fpa_to_fp_float(c: Zc, rm: Zast, a: Zast, s: Zsort) -> Zast;
    fn Z3_mk_fpa_to_fp_signed(c: Zc, rm: Zast, a: Zast, s: Zsort) -> Zast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Zc, rm: Zast, a: Zast, s: Zsort) -> Zast;
    fn Z3_mk_fpa_to_ieee_bv(c: Zc, a: Zast) -> Zast;
    fn Z3_mk_fpa_to_sbv(c: Zc, rm: Zast, a: Zast, n: c_uint) -> Zast;
    fn Z3_mk_fpa_to_ubv(c: Zc, rm: Zast, a: Zast, n: c_uint) -> Zast;
    fn Z3_mk_fpa_rne(c: Zc) -> Zast;
    fn Z3_mk_fpa_rna(c: Zc) -> Zast;
    fn Z3_mk_fpa_rtp(c: Zc) -> Zast;
    fn Z3_mk_fpa_rtn(c: Zc) -> Zast;
    fn Z3_mk_fpa_rtz(c: Zc) -> Zast;
    fn Z3_mk_fpa_add(c: Zc, rm: Zast, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_sub(c: Zc, rm: Zast, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_mul(c: Zc, rm: Zast, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_div(c: Zc, rm: Zast, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_sqrt(c: Zc, rm: Zast, a: Zast) -> Zast;
    fn Z3_mk_fpa_rem(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_round_to_integral(c: Zc, rm: Zast, a: Zast) -> Zast;
    fn Z3_mk_fpa_eq(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_lt(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_leq(c: Zc, a: Zast, b: Zast) -> Zast;
    fn Z3_mk_fpa_is_nan(c: Zc, a: Zast) -> Zast;
    fn Z3_mk_solver(c: Zc) -> Zsolver;
    fn Z3_mk_solver_for_logic(c: Zc, s: Zsym) -> Zsolver;
    fn Z3_solver_inc_ref(c: Zc, s: Zsolver);
    fn Z3_solver_dec_ref(c: Zc, s: Zsolver);
    fn Z3_solver_assert(c: Zc, s: Zsolver, a: Zast);
    fn Z3_solver_check(c: Zc, s: Zsolver) -> c_int;
    fn Z3_solver_get_model(c: Zc, s: Zsolver) -> Zmodel;
    fn Z3_solver_set_params(c: Zc, s: Zsolver, p: Zparams);
    fn Z3_mk_params(c: Zc) -> Zparams;
    fn Z3_params_inc_ref(c: Zc, p: Zparams);
    fn Z3_params_set_uint(c: Zc, p: Zparams, k: Zsym, v: c_uint);
    fn Z3_model_inc_ref(c: Zc, m: Zmodel);
    fn Z3_model_dec_ref(c: Zc, m: Zmodel);
    fn Z3_model_eval(c: Zc, m: Zmodel, a: Zast, completion: bool, out: *mut Zast) -> bool;
    fn Z3_get_numeral_uint64(c: Zc, a: Zast, out: *mut u64) -> bool;
    fn Z3_solver_to_string(c: Zc, s: Zsolver) -> *const c_char;
}

extern "C" fn on_err(_c: Zc, code: c_int) {
    eprintln!("z3 error code {code}");
}

#[derive(Clone, PartialEq)]
pub enum Res {
    Sat(Rc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub z3: u64,
    pub small: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub maxq: f64,
}

pub struct Solver {
    c: Zc,
    ast: Vec<Zast>,
    boo: Vec<Zast>,
    cache: HashMap<Vec<Eid>, Res>,
    pub st: Stats,
    pub timeout_ms: u32,
    params: Zparams,
    qfbv: Zsym,
    isfp: Vec<u8>,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let l = CString::new("QF_BV").unwrap();
            let qfbv = Z3_mk_string_symbol(c, l.as_ptr());
            Solver {
                c,
                ast: vec![],
                boo: vec![],
                cache: HashMap::new(),
                st: Stats::default(),
                timeout_ms,
                params: p,
                qfbv,
                isfp: vec![],
            }
        }
    }
    fn keep(&self, a: Zast) -> Zast {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn fpsort(&self, w: u32) -> Zsort {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort_64(self.c)
            } else {
                Z3_mk_fpa_sort_32(self.c)
            }
        }
    }
    fn tofp(&mut self, cx: &Ctx, e: Eid) -> Zast {
        let a = self.bv(cx, e);
        unsafe { self.keep(Z3_mk_fpa_to_fp_bv(self.c, a, self.fpsort(cx.w(e)))) }
    }
    fn fromfp(&mut self, f: Zast, w: u32) -> Zast {
        unsafe {
            let f = self.keep(f);
            let bv = self.keep(Z3_mk_fpa_to_ieee_bv(self.c, f));
            let nan = self.num(w, if w == 64 { 0x7ff8_0000_0000_0000 } else { 0x7fc0_0000 });
            let isn = self.keep(Z3_mk_fpa_is_nan(self.c, f));
            self.keep(Z3_mk_ite(self.c, isn, nan, bv))
        }
    }
    /// A float as an integer in the same order, and whether it is NaN.
    fn fkey(&mut self, cx: &Ctx, e: Eid) -> (Zast, Zast) {
        let w = cx.w(e);
        let (mag, inf) = if w == 64 { (i64::MAX as u128, 0x7ff0_0000_0000_0000) } else { (i32::MAX as u128, 0x7f80_0000) };
        let a = self.bv(cx, e);
        let c = self.c;
        let (mag, inf, zero) = (self.num(w, mag), self.num(w, inf), self.num(w, 0));
        unsafe {
            let m = self.keep(Z3_mk_bvand(c, a, mag));
            let neg = self.keep(Z3_mk_bvslt(c, a, zero));
            let minus = self.keep(Z3_mk_bvsub(c, zero, m));
            let k = self.keep(Z3_mk_ite(c, neg, minus, m));
            (k, self.keep(Z3_mk_bvult(c, inf, m)))
        }
    }
    fn num(&self, w: u32, k: u128) -> Zast {
        let s = CString::new(k.to_string()).unwrap();
        unsafe { self.keep(Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))) }
    }
    fn grow(&mut self, n: usize) {
        if self.ast.len() < n {
            self.ast.resize(n, std::ptr::null_mut());
            self.boo.resize(n, std::ptr::null_mut());
        }
    }
    fn boolean(&mut self, cx: &Ctx, e: Eid) -> Zast {
        self.grow(cx.nodes.len());
        if !self.boo[e as usize].is_null() {
            return self.boo[e as usize];
        }
        let n = cx.n(e);
        assert!(n.w == 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And => {
                    let v = [self.boolean(cx, n.a), self.boolean(cx, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.boolean(cx, n.a), self.boolean(cx, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let a = self.boolean(cx, n.a);
                    if n.b == 1 {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.boolean(cx, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let p = self.boolean(cx, n.a);
                    let a = self.boolean(cx, n.b);
                    let b = self.boolean(cx, n.c);
                    Z3_mk_ite(c, p, a, b)
                }
                Op::Eq => {
                    if cx.w(n.a) == 1 {
                        let a = self.boolean(cx, n.a);
                        let b = self.boolean(cx, n.b);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.bv(cx, n.a);
                        let b = self.bv(cx, n.b);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(cx, n.a);
                    let b = self.bv(cx, n.b);
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    // comparisons need no floating-point theory: the sign and
                    // magnitude of each operand as a two's complement number
                    let w = cx.w(n.a);
                    let (a, na) = self.fkey(cx, n.a);
                    let (b, nb) = self.fkey(cx, n.b);
                    let r = self.keep(match n.op {
                        Op::FEq => Z3_mk_eq(c, a, b),
                        Op::FLt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    });
                    debug_assert!(w == 32 || w == 64);
                    let v = [r, self.keep(Z3_mk_not(c, na)), self.keep(Z3_mk_not(c, nb))];
                    Z3_mk_and(c, 3, v.as_ptr())
                }
                Op::FIsNan => self.fkey(cx, n.a).1,
                _ => {
                    let a = self.bv(cx, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.keep(r);
        self.boo[e as usize] = r;
        r
    }
    fn bv(&mut self, cx: &Ctx, e: Eid) -> Zast {
        self.grow(cx.nodes.len());
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let n = cx.n(e);
        let w = n.w as u32;
        let c = self.c;
        macro_rules! b2 {
            ($f:ident) => {{
                let a = self.bv(cx, n.a);
                let b = self.bv(cx, n.b);
                $f(c, a, b)
            }};
        }
        macro_rules! f2 {
            ($f:ident) => {{
                let a = self.tofp(cx, n.a);
                let b = self.tofp(cx, n.b);
                let rm = self.keep(Z3_mk_fpa_rne(c));
                let r = $f(c, rm, a, b);
                self.fromfp(r, w)
            }};
        }
        let r = unsafe {
            match n.op {
                Op::Const => self.num(w, n.k),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, w)),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => {
                    let p = self.boolean(cx, e);
                    let one = self.num(1, 1);
                    let zero = self.num(1, 0);
                    Z3_mk_ite(c, p, one, zero)
                }
                Op::Add => b2!(Z3_mk_bvadd),
                Op::Sub => b2!(Z3_mk_bvsub),
                Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv),
                Op::SDiv => b2!(Z3_mk_bvsdiv),
                Op::URem => b2!(Z3_mk_bvurem),
                Op::SRem => b2!(Z3_mk_bvsrem),
                Op::And => b2!(Z3_mk_bvand),
                Op::Or => b2!(Z3_mk_bvor),
                Op::Xor => b2!(Z3_mk_bvxor),
                Op::Shl => b2!(Z3_mk_bvshl),
                Op::LShr => b2!(Z3_mk_bvlshr),
                Op::AShr => b2!(Z3_mk_bvashr),
                Op::Concat => b2!(Z3_mk_concat),
                Op::ZExt => {
                    let a = self.bv(cx, n.a);
                    Z3_mk_zero_ext(c, w - cx.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.bv(cx, n.a);
                    Z3_mk_sign_ext(c, w - cx.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.bv(cx, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                Op::Ite => {
                    let p = self.boolean(cx, n.a);
                    let a = self.bv(cx, n.b);
                    let b = self.bv(cx, n.c);
                    Z3_mk_ite(c, p, a, b)
                }
                Op::FAdd => f2!(Z3_mk_fpa_add),
                Op::FSub => f2!(Z3_mk_fpa_sub),
                Op::FMul => f2!(Z3_mk_fpa_mul),
                Op::FDiv => f2!(Z3_mk_fpa_div),
                Op::FRem => {
                    let a = self.tofp(cx, n.a);
                    let b = self.tofp(cx, n.b);
                    let r = Z3_mk_fpa_rem(c, a, b);
                    self.fromfp(r, w)
                }
                Op::FSqrt => {
                    let a = self.tofp(cx, n.a);
                    let rm = self.keep(Z3_mk_fpa_rne(c));
                    let r = Z3_mk_fpa_sqrt(c, rm, a);
                    self.fromfp(r, w)
                }
                Op::FRound => {
                    let a = self.tofp(cx, n.a);
                    let rm = self.keep(match n.k {
                        0 => Z3_mk_fpa_rtp(c),
                        1 => Z3_mk_fpa_rtn(c),
                        2 => Z3_mk_fpa_rtz(c),
                        3 => Z3_mk_fpa_rne(c),
                        _ => Z3_mk_fpa_rna(c),
                    });
                    let r = Z3_mk_fpa_round_to_integral(c, rm, a);
                    self.fromfp(r, w)
                }
                Op::FToS => {
                    let a = self.tofp(cx, n.a);
                    let rm = self.keep(Z3_mk_fpa_rtz(c));
                    Z3_mk_fpa_to_sbv(c, rm, a, w)
                }
                Op::FToU => {
                    let a = self.tofp(cx, n.a);
                    let rm = self.keep(Z3_mk_fpa_rtz(c));
                    Z3_mk_fpa_to_ubv(c, rm, a, w)
                }
                Op::SToF => {
                    let a = self.bv(cx, n.a);
                    let rm = self.keep(Z3_mk_fpa_rne(c));
                    let r = Z3_mk_fpa_to_fp_signed(c, rm, a, self.fpsort(w));
                    self.fromfp(r, w)
                }
                Op::UToF => {
                    let a = self.bv(cx, n.a);
                    let rm = self.keep(Z3_mk_fpa_rne(c));
                    let r = Z3_mk_fpa_to_fp_unsigned(c, rm, a, self.fpsort(w));
                    self.fromfp(r, w)
                }
                Op::FToF => {
                    let a = self.tofp(cx, n.a);
                    let rm = self.keep(Z3_mk_fpa_rne(c));
                    let r = Z3_mk_fpa_to_fp_float(c, rm, a, self.fpsort(w));
                    self.fromfp(r, w)
                }
            }
        };
        self.keep(r);
        self.ast[e as usize] = r;
        r
    }

    fn has_fp(&mut self, cx: &Ctx, e: Eid) -> bool {
        if self.isfp.len() < cx.nodes.len() {
            self.isfp.resize(cx.nodes.len(), 0);
        }
        match self.isfp[e as usize] {
            1 => return false,
            2 => return true,
            _ => {}
        }
        let n = cx.n(e);
        let r = match n.op {
            Op::Const | Op::Var => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FRound | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FToF => true,
            Op::ZExt | Op::SExt | Op::Extract => self.has_fp(cx, n.a),
            Op::Ite => self.has_fp(cx, n.a) || self.has_fp(cx, n.b) || self.has_fp(cx, n.c),
            _ => self.has_fp(cx, n.a) || self.has_fp(cx, n.b),
        };
        self.isfp[e as usize] = 1 + r as u8;
        r
    }

    /// The constraints of `pc` (transitively) sharing variables with `e`.
    pub fn slice(cx: &Ctx, pc: &[Eid], e: Eid) -> Vec<Eid> {
        let nv = cx.vars.len();
        let mut in_set = vec![false; nv];
        for v in &cx.sets[cx.vset[e as usize] as usize] {
            in_set[*v as usize] = true;
        }
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = &cx.sets[cx.vset[*c as usize] as usize];
                if s.iter().any(|v| in_set[*v as usize]) {
                    used[i] = true;
                    out.push(*c);
                    for v in s {
                        if !in_set[*v as usize] {
                            in_set[*v as usize] = true;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    /// Is `pc ∧ e` satisfiable (pc itself known satisfiable)?  The model covers the
    /// variables of the relevant slice only.
    pub fn check(&mut self, cx: &mut Ctx, pc: &[Eid], e: Eid) -> Res {
        if e == 0 {
            return Res::Unsat;
        }
        self.st.queries += 1;
        let mut q = Self::slice(cx, pc, e);
        q.push(e);
        q.sort_unstable();
        q.dedup();
        if let Some(r) = self.cache.get(&q) {
            self.st.cached += 1;
            return r.clone();
        }
        let t = Instant::now();
        let r = self.solve(cx, &q);
        let dt = t.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > 0.5 && std::env::var_os("SYMX_SLOW").is_some() {
            eprintln!("SLOW {dt:.1}: {}  UNDER", cx.show(e, 14));
            for x in &q {
                if *x != e {
                    eprintln!("    {}", cx.show(*x, 14));
                }
            }
        }
        if dt > self.st.maxq {
            self.st.maxq = dt;
        }
        match &r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(q, r.clone());
        r
    }
    fn solve(&mut self, cx: &mut Ctx, q: &[Eid]) -> Res {
        let mut vs: Vec<u32> = vec![];
        for e in q {
            for v in &cx.sets[cx.vset[*e as usize] as usize] {
                if !vs.contains(v) {
                    vs.push(*v);
                }
            }
        }
        if vs.len() == 1 && cx.vars[vs[0] as usize].1 <= 8 {
            // finite domain of one small variable: decide by exhaustive evaluation of the formula
            self.st.small += 1;
            let v = vs[0];
            let w = cx.vars[v as usize].1;
            'next: for k in 0..(1u128 << w) {
                cx.eval_begin();
                for e in q {
                    if cx.eval_cont(*e, &|_| k) == 0 {
                        continue 'next;
                    }
                }
                return Res::Sat(Rc::new(vec![(v, k as u64)]));
            }
            return Res::Unsat;
        }
        self.st.z3 += 1;
        let fp = q.iter().any(|e| self.has_fp(cx, *e));
        let asts: Vec<Zast> = q.iter().map(|e| self.boolean(cx, *e)).collect();
        unsafe {
            let s = if fp { Z3_mk_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, self.qfbv) };
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for a in asts {
                Z3_solver_assert(self.c, s, a);
            }
            if std::env::var_os("SYMX_DUMPQ").is_some() {
                eprintln!("{}\n(check-sat)\n", CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy());
            }
            let r = Z3_solver_check(self.c, s);
            let res = if r == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for v in vs {
                    let (_, _w, e) = cx.vars[v as usize].clone();
                    let a = self.bv(cx, e);
                    let mut o: Zast = std::ptr::null_mut();
                    let mut k = 0u64;
                    if Z3_model_eval(self.c, m, a, true, &mut o) {
                        Z3_inc_ref(self.c, o);
                        Z3_get_numeral_uint64(self.c, o, &mut k);
                    }
                    out.push((v, k));
                }
                Z3_model_dec_ref(self.c, m);
                // guard against translation errors: the model must satisfy the query in our own evaluator
                let mm = out.clone();
                let f = move |v: u32| mm.iter().find(|x| x.0 == v).map_or(0, |x| x.1 as u128);
                cx.eval_begin();
                let mut ok = true;
                for e in q {
                    if cx.eval_cont(*e, &f) == 0 {
                        ok = false;
                        if std::env::var_os("SYMX_DEBUG").is_some() {
                            eprintln!("model mismatch on {}", cx.show(*e, 6));
                        }
                        break;
                    }
                }
                if ok {
                    Res::Sat(Rc::new(out))
                } else {
                    eprintln!("symx: z3 model rejected by evaluator");
                    Res::Unknown
                }
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_dec_ref(self.c, s);
            res
        }
    }
}
