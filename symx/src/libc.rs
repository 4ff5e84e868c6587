//! Models of LLVM intrinsics, libc / kernel calls and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum X {
    Minmax(&'static str, Op, bool), // predicate, unused, swap
    Ov(Op, bool),                   // op, signed
    Sat(Op, bool),
    Memcpy,
    Memset,
    Tls,
    Panic(String),
    Name(String),
    Fsh(bool),
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
    Cmp(bool),
    Fround(u32),
    Fabs,
    FpSat(bool),
    IsConst,
    Nop,
    Pause,
}

fn classify(n: &str) -> X {
    if let Some(p) = n.strip_prefix("panic:") {
        return X::Panic(p.to_string());
    }
    if n == "tls" {
        return X::Tls;
    }
    if let Some(p) = n.strip_prefix("asm:") {
        return X::Name(format!("asm:{p}"));
    }
    if let Some(i) = n.strip_prefix("llvm.") {
        let s = |p: &str| i.starts_with(p);
        if s("umin.") {
            return X::Minmax("ult", Op::Add, false);
        }
        if s("umax.") {
            return X::Minmax("ugt", Op::Add, false);
        }
        if s("smin.") {
            return X::Minmax("slt", Op::Add, false);
        }
        if s("smax.") {
            return X::Minmax("sgt", Op::Add, false);
        }
        for (p, o, sg) in [
            ("uadd.with.overflow", Op::Add, false),
            ("sadd.with.overflow", Op::Add, true),
            ("usub.with.overflow", Op::Sub, false),
            ("ssub.with.overflow", Op::Sub, true),
            ("umul.with.overflow", Op::Mul, false),
            ("smul.with.overflow", Op::Mul, true),
        ] {
            if s(p) {
                return X::Ov(o, sg);
            }
        }
        for (p, o, sg) in [("uadd.sat", Op::Add, false), ("sadd.sat", Op::Add, true), ("usub.sat", Op::Sub, false), ("ssub.sat", Op::Sub, true)] {
            if s(p) {
                return X::Sat(o, sg);
            }
        }
        if s("memcpy") || s("memmove") {
            return X::Memcpy;
        }
        if s("memset") {
            return X::Memset;
        }
        if s("fshl") {
            return X::Fsh(true);
        }
        if s("fshr") {
            return X::Fsh(false);
        }
        if s("cttz") {
            return X::Cttz;
        }
        if s("ctlz") {
            return X::Ctlz;
        }
        if s("ctpop") {
            return X::Ctpop;
        }
        if s("bswap") {
            return X::Bswap;
        }
        if s("bitreverse") {
            return X::Bitrev;
        }
        if s("abs.") {
            return X::Abs;
        }
        if s("ucmp") {
            return X::Cmp(false);
        }
        if s("scmp") {
            return X::Cmp(true);
        }
        if s("ceil") {
            return X::Fround(0);
        }
        if s("floor") {
            return X::Fround(1);
        }
        if s("trunc.f") {
            return X::Fround(2);
        }
        if s("rint") || s("nearbyint") || s("roundeven") {
            return X::Fround(3);
        }
        if s("round.") {
            return X::Fround(4);
        }
        if s("fabs") {
            return X::Fabs;
        }
        if s("fptoui.sat") {
            return X::FpSat(false);
        }
        if s("fptosi.sat") {
            return X::FpSat(true);
        }
        if s("is.constant") {
            return X::IsConst;
        }
        if s("x86.sse2.pause") {
            return X::Pause;
        }
        if s("va_") || s("prefetch") {
            return X::Nop;
        }
        return X::Name(n.to_string());
    }
    match n {
        "memcpy" | "memmove" => X::Memcpy,
        "memset" => X::Memset,
        "ceil" => X::Fround(0),
        "floor" => X::Fround(1),
        "trunc" => X::Fround(2),
        "rint" => X::Fround(3),
        "round" => X::Fround(4),
        _ => X::Name(n.to_string()),
    }
}

type R<T> = Result<T, Stop>;
fn neg1() -> Val {
    Val::I(u64::MAX)
}
pub const EPOLL_KEY: u64 = 0xffff_ffff_0000;
pub const EXIT_KEY: u64 = 0xffff_fffe_0000;
const SLEEP_KEY: u64 = 0xffff_fffe_0008;

impl Vm {
    fn fail(&self, st: &mut State, errno: u64) -> Val {
        let c = st.cur;
        st.th[c].errno = errno;
        Val::I(u32::MAX as u64)
    }
    pub fn str_at(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let (p, n) = (self.conc(st, p, 64)?, self.conc(st, n, 64)?);
        let mut s = String::new();
        for i in 0..n.min(400) {
            match st.mem.byte(p + i) {
                Byte::C(c) => s.push(c as char),
                _ => s.push('?'),
            }
        }
        Ok(s)
    }
    fn bytes_e(&mut self, st: &State, p: u64, n: u64) -> Vec<Eid> {
        (0..n)
            .map(|i| match st.mem.byte(p + i) {
                Byte::C(c) => self.cx.konst(8, c as u128),
                Byte::S(e, b) => self.cx.extract(e, b as u32 * 8, 8),
            })
            .collect()
    }
    fn panic_msg(&mut self, st: &mut State, f: &str, vals: &[Val]) -> String {
        let mut loc = String::new();
        for v in vals.iter().rev() {
            if let Val::I(p) = v {
                if Mem::ok(*p, 24) {
                    let g = |s: &State, a, n| s.mem.read_c(a, n).unwrap_or(0);
                    let (sp, sn, ln, col) = (g(st, *p, 8), g(st, p + 8, 8), g(st, p + 16, 4), g(st, p + 20, 4));
                    if sn > 3 && sn < 300 && Mem::ok(sp, sn) && ln > 0 && ln < 100000 {
                        let s = self.str_at(st, &Val::I(sp), &Val::I(sn)).unwrap_or_default();
                        if s.ends_with(".rs") || s.contains(".rs") {
                            loc = format!("{s}:{ln}:{col}");
                            break;
                        }
                    }
                }
            }
        }
        let mut txt = String::new();
        if vals.len() >= 2 {
            if let (Val::I(p), Val::I(n)) = (&vals[0], &vals[1]) {
                if *n > 0 && *n < 300 && Mem::ok(*p, *n) {
                    let s = self.str_at(st, &Val::I(*p), &Val::I(*n)).unwrap_or_default();
                    if s.chars().all(|c| (' '..='~').contains(&c)) {
                        txt = format!(" \"{s}\"");
                    }
                }
            }
        }
        format!("panic: {}{} at {} [{}]", demangle(f), txt, loc, self.bt(st))
    }

    fn minmax(&mut self, pr: &'static str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let c = self.icmp(pr, w, a, b);
        match c {
            Val::I(k) => Ok(if k != 0 { a.clone() } else { b.clone() }),
            Val::E(c) => {
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.cx.ite(c, x, y);
                Ok(self.v(r))
            }
            _ => unreachable!(),
        }
    }
    fn ov(&mut self, op: Op, sg: bool, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
        let r = self.binop(op, w, a, b);
        let (mut ea, mut eb) = (self.e(a, w), self.e(b, w));
        let er = self.e(&r, w);
        if matches!(op, Op::Add | Op::Mul) && self.cx.kval(ea).is_some() {
            std::mem::swap(&mut ea, &mut eb);
        }
        let smax = (mask(w) >> 1) as i128;
        let smin = -smax - 1;
        let kb = self.cx.kval(eb);
        let o = match (op, sg, kb) {
            (Op::Add, false, _) => self.cx.bin(Op::Ult, 1, er, ea),
            (Op::Sub, false, _) => self.cx.bin(Op::Ult, 1, ea, eb),
            (Op::Mul, false, Some(0)) => 0,
            (Op::Mul, false, Some(k)) => {
                let m = self.cx.konst(w, mask(w) / k);
                self.cx.bin(Op::Ult, 1, m, ea)
            }
            (_, true, Some(k)) => {
                let k = sx(k, w);
                // valid range of a
                let (lo, hi) = match op {
                    Op::Add => (if k < 0 { smin - k } else { smin }, if k > 0 { smax - k } else { smax }),
                    Op::Sub => {
                        if k == smin && k != 0 {
                            // a - MIN: fine iff a < 0
                            (smin, -1)
                        } else {
                            (if k > 0 { smin + k } else { smin }, if k < 0 { smax + k } else { smax })
                        }
                    }
                    _ => match k {
                        0 => (smin, smax),
                        -1 => (smin + 1, smax),
                        k if k > 0 => (smin / k, smax / k),
                        k => (smax / k, smin / k),
                    },
                };
                let l = self.cx.konst(w, lo as u128 & mask(w));
                let h = self.cx.konst(w, hi as u128 & mask(w));
                let c1 = self.cx.bin(Op::Slt, 1, ea, l);
                let c2 = self.cx.bin(Op::Slt, 1, h, ea);
                self.cx.or1(c1, c2)
            }
            (Op::Mul, _, None) => {
                if w > 64 {
                    return Err(Stop::Unsup("symbolic wide multiplication with overflow".into()));
                }
                let (x, y) = if sg { (self.cx.sext(ea, 2 * w), self.cx.sext(eb, 2 * w)) } else { (self.cx.zext(ea, 2 * w), self.cx.zext(eb, 2 * w)) };
                let p = self.cx.bin(Op::Mul, 2 * w, x, y);
                let q = if sg { self.cx.sext(er, 2 * w) } else { self.cx.zext(er, 2 * w) };
                let e = self.cx.bin(Op::Eq, 1, p, q);
                self.cx.not1(e)
            }
            (_, true, None) => {
                let sa = self.cx.extract(ea, w - 1, 1);
                let sb = self.cx.extract(eb, w - 1, 1);
                let sr = self.cx.extract(er, w - 1, 1);
                let d1 = self.cx.bin(Op::Xor, 1, sa, sr);
                let d2 = if op == Op::Add { self.cx.bin(Op::Xor, 1, sb, sr) } else { self.cx.bin(Op::Xor, 1, sa, sb) };
                self.cx.and1(d1, d2)
            }
            _ => unreachable!(),
        };
        Ok((r, self.v(o)))
    }
    fn bits1(&mut self, x: &X, w: u32, a: &Val) -> Val {
        if let (Val::I(v), true) = (a, w <= 64) {
            let v = *v;
            let lead = 64 - w;
            let r = match x {
                X::Cttz => {
                    if v == 0 {
                        w as u64
                    } else {
                        v.trailing_zeros() as u64
                    }
                }
                X::Ctlz => (v.leading_zeros() - lead) as u64,
                X::Ctpop => v.count_ones() as u64,
                X::Bswap => v.swap_bytes() >> lead,
                _ => v.reverse_bits() >> lead,
            };
            return Val::I(r);
        }
        let e = self.e(a, w);
        let r = match x {
            X::Cttz | X::Ctlz => {
                let mut r = self.cx.konst(w, w as u128);
                for k in 0..w {
                    // innermost = last resort
                    let i = if matches!(x, X::Cttz) { w - 1 - k } else { k };
                    let b = self.cx.extract(e, i, 1);
                    let n = if matches!(x, X::Cttz) { i } else { w - 1 - i };
                    let kk = self.cx.konst(w, n as u128);
                    r = self.cx.ite(b, kk, r);
                }
                r
            }
            X::Ctpop => {
                let mut r = self.cx.konst(w, 0);
                for i in 0..w {
                    let b = self.cx.extract(e, i, 1);
                    let z = self.cx.zext(b, w);
                    r = self.cx.bin(Op::Add, w, r, z);
                }
                r
            }
            X::Bswap => {
                let mut r = self.cx.extract(e, 0, 8);
                for i in 1..w / 8 {
                    let b = self.cx.extract(e, i * 8, 8);
                    r = self.cx.concat(r, b);
                }
                r
            }
            _ => {
                let mut r = self.cx.extract(e, 0, 1);
                for i in 1..w {
                    let b = self.cx.extract(e, i, 1);
                    r = self.cx.concat(r, b);
                }
                r
            }
        };
        self.v(r)
    }
    fn lw(&self, t: Ty) -> (u32, u32) {
        match self.m.k(t) {
            TyK::Vec(n, e) => (*n as u32, self.m.bits(*e)),
            TyK::Struct(f, _) => (0, self.m.bits(f[0])),
            TyK::Ptr => (0, 64),
            _ => (0, self.m.bits(t)),
        }
    }
    fn fp_sat(&mut self, sg: bool, fw: u32, w: u32, a: &Val) -> Val {
        let e = self.e(a, fw);
        let fk = |x: f64| if fw == 64 { f64c(x) } else { f32c(x as f32) };
        let (lo, hi) = if sg { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
        let (kl, kh) = (self.cx.konst(fw, fk(lo)), self.cx.konst(fw, fk(hi)));
        let (mn, mx) = if sg { (1u128 << (w - 1), mask(w) >> 1) } else { (0, mask(w)) };
        let (mn, mx, z) = (self.cx.konst(w, mn), self.cx.konst(w, mx), self.cx.konst(w, 0));
        let conv = self.cx.un(if sg { Op::FToS } else { Op::FToU }, w, e, 0);
        let below = self.cx.bin(Op::FLt, 1, e, kl);
        let above = self.cx.bin(Op::FLe, 1, kh, e);
        let nan = self.cx.un(Op::FIsNan, 1, e, 0);
        let r = self.cx.ite(above, mx, conv);
        let r = self.cx.ite(below, mn, r);
        let r = self.cx.ite(nan, z, r);
        self.v(r)
    }

    pub fn call_ext(&mut self, st: &mut State, id: u32, vals: &[Val], ts: &[Ty], rt: Ty) -> R<Option<Val>> {
        while self.extk.len() <= id as usize {
            let k = classify(&self.ext[self.extk.len()]);
            self.extk.push(Rc::new(k));
        }
        let x = self.extk[id as usize].clone();
        let r = match &*x {
            X::Minmax(p, _, _) => {
                let (n, w) = self.lw(rt);
                if n == 0 {
                    self.minmax(p, w, &vals[0], &vals[1])?
                } else {
                    let p: &'static str = p;
                    self.lanewise(n, &vals[0], &vals[1], |s, a, b| s.minmax(p, w, a, b).unwrap())
                }
            }
            X::Ov(op, sg) => {
                let (_, w) = self.lw(rt);
                let (r, o) = self.ov(*op, *sg, w, &vals[0], &vals[1])?;
                Val::A(Rc::new(vec![r, o]))
            }
            X::Sat(op, sg) => {
                let (_, w) = self.lw(rt);
                let (r, o) = self.ov(*op, *sg, w, &vals[0], &vals[1])?;
                let lim: Val = if !*sg {
                    Val::I(if *op == Op::Add { mask(w) as u64 } else { 0 })
                } else {
                    // saturate towards the sign of a
                    let neg = self.icmp("slt", w, &vals[0], &Val::I(0));
                    let c = self.e(&neg, 1);
                    let (a, b) = (self.cx.konst(w, 1u128 << (w - 1)), self.cx.konst(w, mask(w) >> 1));
                    let e = self.cx.ite(c, a, b);
                    self.v(e)
                };
                let c = self.e(&o, 1);
                let (a, b) = (self.e(&lim, w), self.e(&r, w));
                let e = self.cx.ite(c, a, b);
                self.v(e)
            }
            X::Memcpy => {
                let n = self.conc(st, &vals[2], 64)?;
                if n > 0 {
                    let (d, s) = (self.conc(st, &vals[0], 64)?, self.conc(st, &vals[1], 64)?);
                    self.chk(st, d, n)?;
                    self.chk(st, s, n)?;
                    st.mem.copy(d, s, n);
                }
                vals[0].clone()
            }
            X::Memset => {
                let n = self.conc(st, &vals[2], 64)?;
                if n > 0 {
                    let d = self.conc(st, &vals[0], 64)?;
                    self.chk(st, d, n)?;
                    match &vals[1] {
                        Val::I(c) => st.mem.fill(d, *c as u8, n),
                        Val::E(e) => {
                            let e = self.cx.extract(*e, 0, 8);
                            for i in 0..n {
                                st.mem.set_byte(d + i, Byte::S(e, 0));
                            }
                        }
                        _ => unreachable!(),
                    }
                }
                vals[0].clone()
            }
            X::Tls => {
                let gi = match vals[0] {
                    Val::I(g) => g as u32,
                    _ => unreachable!(),
                };
                let c = st.cur;
                if let Some(a) = st.th[c].tls.get(&gi) {
                    Val::I(*a)
                } else {
                    let g = &self.m.globals[gi as usize];
                    let (ty, al, init) = (g.ty, g.align.max(16), g.init.clone());
                    let sz = self.m.size(ty).max(1);
                    let a = self.alloc(st, sz, al)?;
                    if let Some(i) = init {
                        self.write_cst(&mut st.mem, a, ty, &i);
                    }
                    st.th[c].tls.insert(gi, a);
                    Val::I(a)
                }
            }
            X::Panic(f) => {
                let m = self.panic_msg(st, f, vals);
                return Err(Stop::Viol(m, None));
            }
            X::Fsh(left) => {
                let (n, w) = self.lw(rt);
                if n != 0 {
                    return Err(Stop::Unsup("vector funnel shift".into()));
                }
                let sh = &vals[2];
                let m = self.binop(Op::URem, w, sh, &Val::I(w as u64));
                let (a, b) = (&vals[0], &vals[1]);
                // fshl: (a << s) | (b >> (w-s)), s==0 -> a ; fshr: (b >> s) | (a << (w-s)), s==0 -> b
                let inv = self.binop(Op::Sub, w, &Val::I(w as u64), &m);
                let shl = |s: &mut Self, x: &Val, k: &Val| s.shift_total(Op::Shl, w, x, k);
                let shr = |s: &mut Self, x: &Val, k: &Val| s.shift_total(Op::LShr, w, x, k);
                if *left {
                    let p = shl(self, a, &m);
                    let q = shr(self, b, &inv);
                    self.binop(Op::Or, w, &p, &q)
                } else {
                    let p = shr(self, b, &m);
                    let q = shl(self, a, &inv);
                    self.binop(Op::Or, w, &p, &q)
                }
            }
            X::Cttz | X::Ctlz | X::Ctpop | X::Bswap | X::Bitrev => {
                let (n, w) = self.lw(rt);
                if n == 0 {
                    self.bits1(&x, w, &vals[0])
                } else {
                    let y = x.clone();
                    self.lanewise(n, &vals[0], &vals[0], |s, a, _| s.bits1(&y, w, a))
                }
            }
            X::Abs => {
                let (_, w) = self.lw(rt);
                let c = self.icmp("slt", w, &vals[0], &Val::I(0));
                let z = self.cx.konst(w, 0);
                let z = self.v(z);
                let ng = self.binop(Op::Sub, w, &z, &vals[0]);
                let c = self.e(&c, 1);
                let (a, b) = (self.e(&ng, w), self.e(&vals[0], w));
                let e = self.cx.ite(c, a, b);
                self.v(e)
            }
            X::Cmp(sg) => {
                let (_, w) = self.lw(ts[0]);
                let (_, rw) = self.lw(rt);
                let lt = self.icmp(if *sg { "slt" } else { "ult" }, w, &vals[0], &vals[1]);
                let gt = self.icmp(if *sg { "sgt" } else { "ugt" }, w, &vals[0], &vals[1]);
                let (l, g) = (self.e(&lt, 1), self.e(&gt, 1));
                let (m, z, p) = (self.cx.konst(rw, mask(rw)), self.cx.konst(rw, 0), self.cx.konst(rw, 1));
                let e = self.cx.ite(g, p, z);
                let e = self.cx.ite(l, m, e);
                self.v(e)
            }
            X::Fround(k) => {
                let (_, w) = self.lw(rt);
                let e = self.e(&vals[0], w);
                let r = self.cx.un(Op::FRound, w, e, *k as u128);
                self.v(r)
            }
            X::Fabs => {
                let (_, w) = self.lw(rt);
                self.binop(Op::And, w, &vals[0], &Val::I((mask(w) >> 1) as u64))
            }
            X::FpSat(sg) => {
                let fw = self.m.bits(ts[0]);
                let (_, w) = self.lw(rt);
                self.fp_sat(*sg, fw, w, &vals[0])
            }
            X::IsConst => Val::I(0),
            X::Nop => Val::I(0),
            X::Pause => {
                if st.th.len() > 1 {
                    self.schedule(st)?;
                }
                Val::I(0)
            }
            X::Name(n) => return self.call_named(st, &n.clone(), vals),
        };
        Ok(Some(r))
    }
    fn shift_total(&mut self, op: Op, w: u32, a: &Val, k: &Val) -> Val {
        match k {
            Val::I(k) if *k >= w as u64 => Val::I(0),
            _ => self.binop(op, w, a, k), // SMT shifts by >= w already yield 0
        }
    }
    fn block(&mut self, st: &mut State, ts: TS) -> R<Option<Val>> {
        let c = st.cur;
        st.th[c].st = ts;
        self.schedule(st)?;
        Ok(None)
    }
    fn futex(&mut self, st: &mut State, vals: &[Val]) -> R<Option<Val>> {
        let c = st.cur;
        let op = self.conc(st, &vals[2], 32)?;
        let addr = self.conc(st, &vals[1], 64)?;
        match op & 127 {
            0 | 9 => {
                let w = std::mem::take(&mut st.th[c].wake);
                if w == 110 {
                    st.th[c].errno = 110;
                    return Ok(Some(neg1()));
                }
                if w != 0 {
                    return Ok(Some(Val::I(0)));
                }
                let i32t = self.m.ty(TyK::Int(32));
                let cur = self.read_val(&st.mem, addr, i32t);
                let cur = self.conc(st, &cur, 32)?;
                let exp = self.conc(st, &vals[3], 32)?;
                if cur as u32 != exp as u32 {
                    st.th[c].errno = 11;
                    return Ok(Some(neg1()));
                }
                let tp = self.conc(st, &vals[4], 64)?;
                let deadline = if tp == 0 {
                    None
                } else {
                    let s = st.mem.read_c(tp, 8).unwrap_or(0);
                    let n = st.mem.read_c(tp + 8, 8).unwrap_or(0);
                    let t = s.saturating_mul(1_000_000_000).saturating_add(n);
                    Some(if op & 127 == 0 { st.mono.saturating_add(t) } else { t })
                };
                self.block(st, TS::Futex { addr, deadline })
            }
            1 | 10 => {
                let n = self.conc(st, &vals[3], 32)? as u32;
                let mut k = 0;
                for i in 0..st.th.len() {
                    if k >= n {
                        break;
                    }
                    if let TS::Futex { addr: a, .. } = st.th[i].st {
                        if a == addr {
                            st.th[i].st = TS::Run;
                            st.th[i].wake = 1;
                            k += 1;
                        }
                    }
                }
                Ok(Some(Val::I(k as u64)))
            }
            o => Err(Stop::Unsup(format!("futex op {o}"))),
        }
    }
    fn errno_slot(&mut self, st: &mut State) -> R<u64> {
        let c = st.cur;
        let key = u32::MAX;
        let a = match st.th[c].tls.get(&key) {
            Some(a) => *a,
            None => {
                let a = self.alloc(st, 8, 16)?;
                st.th[c].tls.insert(key, a);
                a
            }
        };
        let e = st.th[c].errno;
        st.mem.write_c(a, 4, e);
        Ok(a)
    }
    fn cmp_bytes(&mut self, st: &mut State, vals: &[Val], ordered: bool) -> R<Val> {
        let n = self.conc(st, &vals[2], 64)?;
        if n == 0 {
            return Ok(Val::I(0));
        }
        let (p, q) = (self.conc(st, &vals[0], 64)?, self.conc(st, &vals[1], 64)?);
        self.chk(st, p, n)?;
        self.chk(st, q, n)?;
        let (a, b) = (self.bytes_e(st, p, n), self.bytes_e(st, q, n));
        let mut r = self.cx.konst(32, 0);
        let one = self.cx.konst(32, 1);
        let m1 = self.cx.konst(32, 0xffff_ffff);
        if ordered {
            for i in (0..n as usize).rev() {
                if a[i] == b[i] {
                    continue;
                }
                let eq = self.cx.bin(Op::Eq, 1, a[i], b[i]);
                let lt = self.cx.bin(Op::Ult, 1, a[i], b[i]);
                let d = self.cx.ite(lt, m1, one);
                r = self.cx.ite(eq, r, d);
            }
        } else {
            let mut all = self.cx.tru();
            for i in 0..n as usize {
                if a[i] == b[i] {
                    continue;
                }
                let eq = self.cx.bin(Op::Eq, 1, a[i], b[i]);
                all = self.cx.and1(all, eq);
                if self.cx.is_false(all) {
                    break;
                }
            }
            r = self.cx.ite(all, r, one);
        }
        Ok(self.v(r))
    }
    /// the harness's assertion: decide `cond` for every input that reaches this point
    fn assert_(&mut self, st: &mut State, cond: &Val, msg: String) -> R<Option<Val>> {
        self.js.asserts += 1;
        let e = match cond {
            Val::I(k) => {
                if *k & 1 != 0 {
                    return Ok(Some(Val::I(0)));
                }
                return Err(Stop::Viol(msg, None));
            }
            Val::E(e) => *e,
            _ => unreachable!(),
        };
        let e = self.cx.extract(e, 0, 1);
        if self.cx.is_true(e) {
            return Ok(Some(Val::I(0)));
        }
        self.js.assert_queries += 1;
        let ne = self.cx.not1(e);
        let holds_now = self.mval(st, e) != 0;
        if !holds_now {
            let m = st.model.clone();
            self.record_viol(st, msg, &m);
        } else {
            match self.so.check(&mut self.cx, &st.pcs, ne) {
                Res::Unsat => return Ok(Some(Val::I(0))),
                Res::Sat(d) => {
                    let m = Self::model_of(&st.model, &d);
                    self.record_viol(st, msg, &m);
                }
                Res::Unknown => {
                    if std::env::var_os("SYMX_DEBUG").is_some() {
                        eprintln!("NOVERDICT {msg}: {}", self.cx.show(e, 14));
                    }
                    self.js.incomplete.push(format!("solver gave no verdict on assertion: {msg}"));
                }
            }
        }
        // continue under the assertion
        if self.assume(st, e)? {
            Ok(Some(Val::I(0)))
        } else {
            Err(Stop::Kill)
        }
    }
    pub fn assume(&mut self, st: &mut State, e: Eid) -> R<bool> {
        if self.cx.is_true(e) {
            return Ok(true);
        }
        if self.cx.is_false(e) {
            return Ok(false);
        }
        if self.mval(st, e) != 0 {
            st.pcs.push(e);
            return Ok(true);
        }
        match self.so.check(&mut self.cx, &st.pcs, e) {
            Res::Sat(d) => {
                st.model = Self::model_of(&st.model, &d);
                st.pcs.push(e);
                Ok(true)
            }
            Res::Unsat => Ok(false),
            Res::Unknown => {
                self.js.incomplete.push("solver gave no verdict on an assumption".into());
                Ok(false)
            }
        }
    }

    fn call_named(&mut self, st: &mut State, n: &str, vals: &[Val]) -> R<Option<Val>> {
        macro_rules! k {
            ($i:expr) => {
                self.conc(st, &vals[$i], 64)?
            };
        }
        let ok = |v: Val| -> R<Option<Val>> { Ok(Some(v)) };
        match n {
            // ---- harness interface ----
            "vsym_is_sym" => ok(Val::I(1)),
            "vsym_thorough" => ok(Val::I(self.thorough as u64)),
            "vsym_bytes" => {
                let (p, len) = (k!(0), k!(1));
                let name = self.str_at(st, &vals[2], &vals[3])?;
                self.chk(st, p, len.max(1))?;
                for i in 0..len {
                    let e = self.fresh(st, &name, 8);
                    st.mem.set_byte(p + i, Byte::S(e, 0));
                    self.push_ev(st, Ev::In(name.clone(), 8, Val::E(e)));
                }
                ok(Val::I(0))
            }
            "vsym_int" => {
                let w = k!(0) as u32;
                let name = self.str_at(st, &vals[1], &vals[2])?;
                let e = self.fresh(st, &name, w);
                self.push_ev(st, Ev::In(name, w, Val::E(e)));
                let z = self.cx.zext(e, 64);
                ok(self.v(z))
            }
            "vsym_choice" => {
                let m = k!(0);
                let name = self.str_at(st, &vals[1], &vals[2])?;
                if m == 1 {
                    self.push_ev(st, Ev::In(name, 32, Val::I(0)));
                    return ok(Val::I(0));
                }
                // not re-executed on forks: siblings resume after concretisation
                let w = if m <= 256 { 8 } else { 16 };
                let e = self.fresh(st, &name, w);
                let mx = self.cx.konst(w, (m - 1) as u128);
                let c = self.cx.bin(Op::Ule, 1, e, mx);
                self.push_ev(st, Ev::In(name, 32, Val::E(e)));
                st.pcs.push(c); // model default 0 satisfies it
                debug_assert!(self.mval(st, c) != 0);
                // fork all alternatives now
                let mut mine = None;
                let have = self.mval(st, e) as u64;
                for x in (0..m).rev() {
                    let eq = self.cx.eqk(e, x as u128);
                    if x == have {
                        mine = Some(eq);
                        continue;
                    }
                    let mut o = st.clone();
                    o.pcs.push(eq);
                    let vid = self.cx.varid(e);
                    o.model = Self::model_of(&st.model, &[(vid, x)]);
                    Rc::make_mut(&mut o.conc).insert(e, x);
                    o.forks += 1;
                    let cur = o.cur;
                    let f = o.th[cur].top.as_mut().unwrap();
                    Self::finish_call(f, Val::I(x));
                    self.js.forks += 1;
                    self.work.push(o);
                }
                st.pcs.push(mine.unwrap());
                ok(Val::I(have))
            }
            "vsym_conc" => {
                let x = k!(0);
                ok(Val::I(x))
            }
            "vsym_assume" => {
                let e = self.e1(&vals[0]);
                if self.assume(st, e)? {
                    ok(Val::I(0))
                } else {
                    Err(Stop::Kill)
                }
            }
            "vsym_assert" => {
                let m = self.str_at(st, &vals[1], &vals[2])?;
                self.assert_(st, &vals[0].clone(), m)
            }
            "vsym_reach" => {
                let m = self.str_at(st, &vals[0], &vals[1])?;
                self.push_ev(st, Ev::Reach(m));
                ok(Val::I(0))
            }
            "vsym_trace" => {
                let m = self.str_at(st, &vals[0], &vals[1])?;
                self.push_ev(st, Ev::Trace(m, vals[2].clone()));
                ok(Val::I(0))
            }
            "vsym_print" => {
                let m = self.str_at(st, &vals[0], &vals[1])?;
                eprintln!("[harness] {m} {}", match &vals[2] { Val::I(x) => format!("{x} ({x:#x})"), Val::E(e) => self.cx.show(*e, 8), _ => String::new() });
                ok(Val::I(0))
            }
            "vsym_set_now" => {
                st.real = vals[0].clone();
                ok(Val::I(0))
            }
            "vsym_preempt" => {
                st.preempt = k!(0) as u32;
                st.preempt_on = st.preempt > 0;
                ok(Val::I(0))
            }
            "vsym_arm" => {
                let c = st.cur;
                st.th[c].armed = k!(0) != 0;
                ok(Val::I(0))
            }
            "vsym_bits" => {
                // reinterpretation point used by oracles: select without branching
                let c = self.e1(&vals[0]);
                let (a, b) = (self.e(&vals[1], 64), self.e(&vals[2], 64));
                let r = self.cx.ite(c, a, b);
                ok(self.v(r))
            }
            "vsym_and" | "vsym_or" => {
                let (a, b) = (self.e1(&vals[0]), self.e1(&vals[1]));
                let r = if n == "vsym_and" { self.cx.and1(a, b) } else { self.cx.or1(a, b) };
                let z = self.cx.zext(r, 64);
                ok(self.v(z))
            }
            "vsym_stage" => {
                let s = k!(0) as i64;
                match self.stage_cb {
                    Some(f) => {
                        let r = f(self, st, s)?;
                        ok(Val::I(r))
                    }
                    None => ok(Val::I(0)),
                }
            }
            // ---- memory ----
            "malloc" => {
                let n = self.room(st, &vals[0])?;
                ok(Val::I(self.alloc(st, n, 16)?))
            }
            "calloc" => {
                let n = k!(0).saturating_mul(k!(1));
                let a = self.alloc(st, n, 16)?;
                ok(Val::I(a)) // fresh memory is zero
            }
            "posix_memalign" => {
                let n = self.room(st, &vals[2])?;
                let (p, al) = (k!(0), k!(1));
                let a = self.alloc(st, n, al)?;
                if a == 0 {
                    return ok(Val::I(12));
                }
                st.mem.write_c(p, 8, a);
                ok(Val::I(0))
            }
            "aligned_alloc" | "memalign" => {
                let (al, n) = (k!(0), k!(1));
                ok(Val::I(self.alloc(st, n, al)?))
            }
            "realloc" => {
                let (p, n) = (k!(0), k!(1));
                if p == 0 {
                    return ok(Val::I(self.alloc(st, n, 16)?));
                }
                let old = st.mem.read_c(p - 8, 8).unwrap_or(0);
                if n <= old {
                    return ok(Val::I(p));
                }
                let a = self.alloc(st, n, 16)?;
                if a != 0 {
                    st.mem.copy(a, p, old);
                }
                ok(Val::I(a))
            }
            "free" | "munmap" | "mprotect" | "madvise" => ok(Val::I(0)),
            "memcmp" => ok(self.cmp_bytes(st, vals, true)?),
            "bcmp" => ok(self.cmp_bytes(st, vals, false)?),
            "strlen" => {
                let p = k!(0);
                let mut i = 0;
                loop {
                    match st.mem.byte(p + i) {
                        Byte::C(0) => break,
                        Byte::C(_) => i += 1,
                        _ => return Err(Stop::Unsup("strlen of symbolic string".into())),
                    }
                }
                ok(Val::I(i))
            }
            "mmap64" | "mmap" => {
                let n = k!(1);
                ok(Val::I(self.alloc(st, n, 4096)?))
            }
            // ---- time ----
            "clock_gettime" => {
                let (id, p) = (k!(0), k!(1));
                if id == 0 {
                    let mut e = self.e(&st.real.clone(), 64);
                    if let Some(m0) = st.ticking {
                        let d = self.cx.konst(64, ((st.mono - m0) / 1_000_000) as u128);
                        e = self.cx.bin(Op::Add, 64, e, d);
                    }
                    let mi = self.cx.konst(64, 1_000_000);
                    let (s, m) = self.cx.split(e, 1000);
                    let ns = self.cx.bin(Op::Mul, 64, m, mi);
                    let (s, ns) = (self.v(s), self.v(ns));
                    let t = self.m.ty(TyK::Int(64));
                    self.write_val(&mut st.mem, p, t, &s);
                    self.write_val(&mut st.mem, p + 8, t, &ns);
                } else {
                    st.mem.write_c(p, 8, st.mono / 1_000_000_000);
                    st.mem.write_c(p + 8, 8, st.mono % 1_000_000_000);
                }
                ok(Val::I(0))
            }
            // ---- threads ----
            "syscall" => match k!(0) {
                202 => self.futex(st, vals),
                318 => {
                    let (p, len) = (k!(1), k!(2));
                    st.mem.fill(p, 0x5a, len);
                    ok(Val::I(len))
                }
                186 => ok(Val::I(st.cur as u64 + 1)),
                s => Err(Stop::Unsup(format!("syscall {s}"))),
            },
            "getrandom" => {
                let (p, len) = (k!(0), k!(1));
                st.mem.fill(p, 0x5a, len);
                ok(Val::I(len))
            }
            "gettid" | "pthread_self" | "getpid" => ok(Val::I(st.cur as u64 + 1)),
            "sched_yield" => {
                if st.th.len() > 1 {
                    self.schedule(st)?;
                }
                ok(Val::I(0))
            }
            "pthread_create" => {
                let (p, f, arg) = (k!(0), k!(2), vals[3].clone());
                let g = ((f - FBASE) / 16) as u32;
                self.used[g as usize] = true;
                let id = self.spawn(st, g, &[arg]);
                st.mem.write_c(p, 8, id as u64 + 1);
                ok(Val::I(0))
            }
            "pthread_join" => {
                let j = k!(0) as usize - 1;
                if st.th[j].st == TS::Done {
                    ok(Val::I(0))
                } else {
                    self.block(st, TS::Join(j))
                }
            }
            "pthread_detach" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_delete" => ok(Val::I(0)),
            "pthread_attr_getguardsize" => {
                let p = k!(1);
                st.mem.write_c(p, 8, 4096);
                ok(Val::I(0))
            }
            "pthread_getattr_np" => ok(Val::I(1)),
            "pthread_key_create" => {
                let p = k!(0);
                let ks = Rc::make_mut(&mut st.keys);
                ks.push(0);
                let id = ks.len() as u64;
                st.mem.write_c(p, 4, id);
                ok(Val::I(0))
            }
            "pthread_getspecific" => {
                let key = k!(0);
                ok(Val::I(st.tsd.get(&(st.cur, key)).copied().unwrap_or(0)))
            }
            "pthread_setspecific" => {
                let (key, v) = (k!(0), k!(1));
                let c = st.cur;
                Rc::make_mut(&mut st.tsd).insert((c, key), v);
                ok(Val::I(0))
            }
            "__cxa_thread_atexit_impl" => ok(Val::I(0)),
            // ---- process / kernel ----
            "getenv" | "dlsym" | "secure_getenv" => ok(Val::I(0)),
            "getauxval" => ok(Val::I(0)),
            "sysconf" => match k!(0) {
                30 => ok(Val::I(4096)),
                83 | 84 => ok(Val::I(2)),
                _ => ok(neg1()),
            },
            "sched_getaffinity" => {
                let v = self.fail(st, 22);
                ok(v)
            }
            "__errno_location" => ok(Val::I(self.errno_slot(st)?)),
            "open64" | "open" | "stat64" | "statx" | "readlink" | "lstat64" => {
                let v = self.fail(st, 2);
                ok(match n {
                    "readlink" => neg1(),
                    _ => v,
                })
            }
            "realpath" | "getcwd" => {
                self.fail(st, 2);
                ok(Val::I(0))
            }
            "write" => {
                let (fd, p, len) = (k!(0), k!(1), k!(2));
                match self.sock_write(st, fd, p, len) {
                    Some(n) => ok(Val::I(n)),
                    None => {
                        self.fail(st, 11);
                        ok(neg1())
                    }
                }
            }
            "writev" => {
                let (fd, p, cnt) = (k!(0), k!(1), k!(2));
                let mut tot = 0;
                for i in 0..cnt {
                    let b = st.mem.read_c(p + 16 * i, 8).unwrap_or(0);
                    let l = st.mem.read_c(p + 16 * i + 8, 8).unwrap_or(0);
                    match self.sock_write(st, fd, b, l) {
                        Some(n) => {
                            tot += n;
                            if n < l {
                                break;
                            }
                        }
                        None if tot > 0 || l == 0 => break,
                        None => {
                            self.fail(st, 11);
                            return ok(neg1());
                        }
                    }
                }
                ok(Val::I(tot))
            }
            "vsym_tick" => {
                st.ticking = Some(st.mono);
                ok(Val::I(0))
            }
            // ---- descriptors: epoll, eventfd and scripted stream sockets ----
            "epoll_create1" | "epoll_create" => ok(Val::I(self.newfd(st, Fd::Ep(vec![])))),
            "eventfd" => ok(Val::I(self.newfd(st, Fd::Event(false)))),
            "socket" => {
                // the flag keeps whether the socket was made non-blocking
                let t = k!(1);
                ok(Val::I(self.newfd(st, Fd::Listen(vec![], t & 0o4000 != 0))))
            }
            "vsym_sock" => {
                let fd = self.newfd(st, Fd::Sock(Sock::new()));
                ok(Val::I(fd))
            }
            "vsym_feed" => {
                // queue one chunk that a single read may deliver
                let (fd, p, len) = (k!(0), k!(1), k!(2));
                let b: Vec<Byte> = (0..len).map(|i| st.mem.byte(p + i)).collect();
                let fd = Self::fdroot(st, fd);
                if let Some(Fd::Sock(Sock { rx, pending, eof, .. })) = Rc::make_mut(&mut st.fds).get_mut(&fd) {
                    if len == 0 {
                        *eof = true;
                    } else {
                        rx.push(b);
                    }
                    *pending = true;
                }
                self.wake_pollers(st);
                ok(Val::I(0))
            }
            "vsym_sent" => {
                // take up to `cap` of the bytes sent so far
                let (fd, p, cap) = (k!(0), k!(1), k!(2));
                let fd = Self::fdroot(st, fd);
                let mut o = vec![];
                if let Some(Fd::Sock(k)) = Rc::make_mut(&mut st.fds).get_mut(&fd) {
                    let n = k.out.len().min(cap as usize);
                    o = k.out.drain(..n).collect();
                    k.pending |= n > 0 && k.room != usize::MAX;
                }
                for (i, b) in o.iter().enumerate() {
                    st.mem.set_byte(p + i as u64, *b);
                }
                self.wake_pollers(st);
                ok(Val::I(o.len() as u64))
            }
            "vsym_room" => {
                let (fd, n) = (k!(0), k!(1));
                let fd = Self::fdroot(st, fd);
                if let Some(Fd::Sock(k)) = Rc::make_mut(&mut st.fds).get_mut(&fd) {
                    k.room = n as usize;
                }
                ok(Val::I(0))
            }
            "vsym_closed" => {
                let fd = k!(0);
                let fd = Self::fdroot(st, fd);
                ok(Val::I(matches!(st.fds.get(&fd), Some(Fd::Sock(Sock { closed: true, .. }))) as u64))
            }
            "vsym_peer" => {
                // the next connection is made to this socket
                let fd = self.newfd(st, Fd::Sock(Sock::new()));
                let port = k!(0);
                Rc::make_mut(&mut st.peers).push((fd, port));
                ok(Val::I(fd))
            }
            "connect" => {
                let fd = k!(0);
                let fd = Self::fdroot(st, fd);
                let a = k!(1);
                let port = st.mem.read_c(a + 2, 2).map_or(0, |x| u64::from((x as u16).swap_bytes()));
                let Some(i) = st.peers.iter().position(|x| x.1 == port) else {
                    return ok(self.fail(st, 111));
                };
                let (p, _) = Rc::make_mut(&mut st.peers).remove(i);
                let f = Rc::make_mut(&mut st.fds);
                let nb = matches!(f.get(&fd), Some(Fd::Listen(_, true)));
                if let Some(Fd::Sock(k)) = f.get_mut(&p) {
                    k.blocking = !nb;
                }
                f.insert(fd, Fd::Alias(p));
                self.wake_pollers(st);
                ok(Val::I(0))
            }
            "vsym_fork_as" => {
                st.fork_as = Some(k!(0));
                ok(Val::I(0))
            }
            "fork" => match st.fork_as {
                Some(x) => ok(Val::I(x)),
                None => Err(Stop::Unsup("fork".into())),
            },
            "waitpid" => ok(self.fail(st, 10)),
            "clock_nanosleep" | "nanosleep" => {
                let c = st.cur;
                if std::mem::take(&mut st.th[c].wake) != 0 {
                    return ok(Val::I(0));
                }
                let (abs, p) = if n == "nanosleep" { (false, k!(0)) } else { (k!(1) & 1 == 1, k!(2)) };
                let t = st.mem.read_c(p, 8).unwrap_or(0).saturating_mul(1_000_000_000).saturating_add(st.mem.read_c(p + 8, 8).unwrap_or(0));
                let deadline = Some(if abs { t } else { st.mono.saturating_add(t) });
                self.block(st, TS::Futex { addr: SLEEP_KEY, deadline })
            }
            "vsym_at_exit" => {
                st.at_exit = k!(0);
                ok(Val::I(0))
            }
            "vsym_done" => Err(Stop::Done),
            "vsym_listen" => ok(Val::I(self.newfd(st, Fd::Listen(vec![], false)))),
            "vsym_connect" => {
                let l = k!(0);
                let l = Self::fdroot(st, l);
                let fd = self.newfd(st, Fd::Sock(Sock::new()));
                if let Some(Fd::Listen(q, pending)) = Rc::make_mut(&mut st.fds).get_mut(&l) {
                    q.push(fd);
                    *pending = true;
                }
                self.wake_pollers(st);
                ok(Val::I(fd))
            }
            "socketpair" => {
                let p = k!(3);
                for i in 0..2 {
                    let fd = self.newfd(st, Fd::Sock(Sock::new()));
                    st.mem.write_c(p + 4 * i, 4, fd);
                }
                ok(Val::I(0))
            }
            "bind" | "setsockopt" => ok(Val::I(0)),
            "listen" => {
                let fd = k!(0);
                let fd = Self::fdroot(st, fd);
                Rc::make_mut(&mut st.bound).push(fd);
                ok(Val::I(0))
            }
            "vsym_bound" => {
                let i = k!(0) as usize;
                match st.bound.get(i) {
                    Some(fd) => ok(Val::I(*fd)),
                    None => ok(Val::I(u64::MAX)),
                }
            }
            "__libc_current_sigrtmax" => ok(Val::I(64)),
            "getsockopt" => {
                let (p, l) = (k!(3), k!(4));
                st.mem.write_c(p, 4, 0);
                let _ = l;
                ok(Val::I(0))
            }
            "accept4" => {
                let (l, addr, len) = (k!(0), k!(1), k!(2));
                let l = Self::fdroot(st, l);
                if let Some(Fd::Listen(q, _)) = Rc::make_mut(&mut st.fds).get_mut(&l) {
                    if !q.is_empty() {
                        let fd = q.remove(0);
                        if addr != 0 {
                            // 127.0.0.1:1
                            st.mem.write_c(addr, 8, 0x0100_007f_0100_0002);
                            st.mem.write_c(len, 4, 16);
                        }
                        return ok(Val::I(fd));
                    }
                }
                let v = self.fail(st, 11);
                ok(v)
            }
            "epoll_ctl" => {
                let (ep, op, fd, evp) = (k!(0), k!(1), k!(2), k!(3));
                let ep = Self::fdroot(st, ep);
                let (ev, data) = if evp != 0 { (st.mem.read_c(evp, 4).unwrap_or(0) as u32, st.mem.read_c(evp + 4, 8).unwrap_or(0)) } else { (0, 0) };
                let f = Rc::make_mut(&mut st.fds);
                if let Some(Fd::Ep(r)) = f.get_mut(&ep) {
                    r.retain(|x| x.0 != fd);
                    if op != 2 {
                        r.push((fd, ev, data));
                    }
                }
                ok(Val::I(0))
            }
            "epoll_wait" | "epoll_pwait" => {
                let (ep, evp, max, to) = (k!(0), k!(1), k!(2), k!(3) as u32 as i32);
                let ep = Self::fdroot(st, ep);
                let c = st.cur;
                let w = std::mem::take(&mut st.th[c].wake);
                let regs = match st.fds.get(&ep) {
                    Some(Fd::Ep(r)) => r.clone(),
                    _ => return ok(self.fail(st, 9)),
                };
                let mut n = 0;
                for (fd, ev, data) in regs {
                    let root = Self::fdroot(st, fd);
                    let mut out = 0u32;
                    match st.fds.get(&root) {
                        Some(Fd::Event(true)) => {
                            out = 1;
                            Rc::make_mut(&mut st.fds).insert(root, Fd::Event(false));
                        }
                        Some(Fd::Listen(q, true)) => {
                            out = u32::from(!q.is_empty());
                            if let Some(Fd::Listen(_, pending)) = Rc::make_mut(&mut st.fds).get_mut(&root) {
                                *pending = false;
                            }
                        }
                        Some(Fd::Sock(Sock { rx, eof, pending: true, .. })) => {
                            out = 4 | if !rx.is_empty() || *eof { 1 } else { 0 } | if *eof && rx.is_empty() { 0x2000 } else { 0 };
                            out &= ev | 0x2000;
                            if let Some(Fd::Sock(Sock { pending, .. })) = Rc::make_mut(&mut st.fds).get_mut(&root) {
                                *pending = false;
                            }
                        }
                        _ => {}
                    }
                    if out != 0 && n < max {
                        st.mem.write_c(evp + 12 * n, 4, out as u64);
                        st.mem.write_c(evp + 12 * n + 4, 8, data);
                        n += 1;
                    }
                }
                if n > 0 || to == 0 || w == 110 {
                    return ok(Val::I(n));
                }
                let deadline = if to < 0 { None } else { Some(st.mono + to as u64 * 1_000_000) };
                self.block(st, TS::Futex { addr: EPOLL_KEY, deadline })
            }
            "read" | "recv" => {
                let (fd, p, len) = (k!(0), k!(1), k!(2));
                let fd = Self::fdroot(st, fd);
                let mut got: Vec<Byte> = vec![];
                let mut r = 0; // 0 = bytes in got, 1 = would block, 2 = bad
                match Rc::make_mut(&mut st.fds).get_mut(&fd) {
                    Some(Fd::Sock(Sock { rx, pos, eof, pending, .. })) => {
                        if rx.is_empty() {
                            if !*eof {
                                r = 1;
                            }
                        } else {
                            let n = (rx[0].len() - *pos).min(len as usize);
                            got = rx[0][*pos..*pos + n].to_vec();
                            *pos += n;
                            if *pos == rx[0].len() {
                                rx.remove(0);
                                *pos = 0;
                            }
                            if !rx.is_empty() || *eof {
                                *pending = true;
                            }
                        }
                    }
                    Some(Fd::Event(_)) => {
                        st.mem.write_c(p, 8, 1);
                        return ok(Val::I(8));
                    }
                    _ => r = 2,
                }
                match r {
                    1 if matches!(st.fds.get(&fd), Some(Fd::Sock(Sock { blocking: true, .. }))) => {
                        let c = st.cur;
                        st.th[c].wake = 0;
                        self.block(st, TS::Futex { addr: EPOLL_KEY, deadline: None })
                    }
                    1 => {
                        self.fail(st, 11);
                        ok(neg1())
                    }
                    2 => {
                        self.fail(st, 9);
                        ok(neg1())
                    }
                    _ => {
                        for (i, b) in got.iter().enumerate() {
                            st.mem.set_byte(p + i as u64, *b);
                        }
                        ok(Val::I(got.len() as u64))
                    }
                }
            }
            "send" => {
                let (fd, p, len) = (k!(0), k!(1), k!(2));
                match self.sock_write(st, fd, p, len) {
                    Some(n) => ok(Val::I(n)),
                    None => {
                        self.fail(st, 11);
                        ok(neg1())
                    }
                }
            }
            "dup" => {
                let fd = k!(0);
                let fd = Self::fdroot(st, fd);
                ok(Val::I(self.newfd(st, Fd::Alias(fd))))
            }
            "fcntl" => {
                let (fd, cmd) = (k!(0), k!(1));
                if cmd == 1030 || cmd == 0 {
                    let fd = Self::fdroot(st, fd);
                    return ok(Val::I(self.newfd(st, Fd::Alias(fd))));
                }
                ok(Val::I(0))
            }
            "shutdown" => ok(Val::I(0)),
            "close" => {
                let fd = k!(0);
                if let Some(Fd::Sock(k)) = Rc::make_mut(&mut st.fds).get_mut(&(fd & 0xffff_ffff)) {
                    k.closed = true;
                }
                ok(Val::I(0))
            }
            "sigaction" | "signal" | "sigaltstack" | "poll" => ok(Val::I(0)),
            "sigemptyset" => ok(Val::I(0)),
            "ioctl" if k!(1) & 0xffff_ffff == 0x5421 => {
                let (fd, p) = (k!(0), k!(2));
                let fd = Self::fdroot(st, fd);
                let nb = st.mem.read_c(p, 4).unwrap_or(0) != 0;
                match Rc::make_mut(&mut st.fds).get_mut(&fd) {
                    Some(Fd::Sock(s)) => s.blocking = !nb,
                    Some(Fd::Listen(_, n)) => *n |= nb,
                    _ => {}
                }
                ok(Val::I(0))
            }
            "ioctl" | "fstat64" | "lseek64" => {
                let v = self.fail(st, 25);
                ok(v)
            }
            "abort" | "llvm.trap" => {
                let b = self.bt(st);
                Err(Stop::Viol(format!("process abort [{b}]"), None))
            }
            "exit" | "_exit" if st.at_exit != 0 => {
                let g = ((st.at_exit - FBASE) / 16) as u32;
                st.at_exit = 0;
                self.used[g as usize] = true;
                self.spawn(st, g, &[]);
                self.block(st, TS::Futex { addr: EXIT_KEY, deadline: None })
            }
            "exit" | "_exit" => {
                let b = self.bt(st);
                Err(Stop::Viol(format!("process exit [{b}]"), None))
            }
            "_Unwind_Backtrace" | "dl_iterate_phdr" => ok(Val::I(0)),
            _ => {
                if let Some(a) = n.strip_prefix("asm:") {
                    return Err(Stop::Unsup(format!("inline assembly {a}")));
                }
                let b = self.bt(st);
                Err(Stop::Unsup(format!("external function {n} [{b}]")))
            }
        }
    }
    fn newfd(&mut self, st: &mut State, f: Fd) -> u64 {
        let m = Rc::make_mut(&mut st.fds);
        let n = m.keys().next_back().map_or(100, |x| x + 1);
        m.insert(n, f);
        n
    }
    fn fdroot(st: &State, fd: u64) -> u64 {
        let mut f = fd & 0xffff_ffff;
        while let Some(Fd::Alias(x)) = st.fds.get(&f) {
            f = *x;
        }
        f
    }
    fn wake_pollers(&mut self, st: &mut State) {
        for t in st.th.iter_mut() {
            if let TS::Futex { addr: EPOLL_KEY, .. } = t.st {
                t.st = TS::Run;
                t.wake = 1;
            }
        }
    }
    /// How many bytes were taken; `None`: none now.
    fn sock_write(&mut self, st: &mut State, fd: u64, p: u64, len: u64) -> Option<u64> {
        let r = Self::fdroot(st, fd);
        match st.fds.get(&r) {
            Some(Fd::Event(_)) => {
                Rc::make_mut(&mut st.fds).insert(r, Fd::Event(true));
                self.wake_pollers(st);
                Some(len)
            }
            Some(Fd::Sock(k)) => {
                let n = if k.blocking { len } else { len.min(k.room.saturating_sub(k.out.len()) as u64) };
                if n == 0 && len > 0 {
                    return None;
                }
                let b: Vec<Byte> = (0..n).map(|i| st.mem.byte(p + i)).collect();
                if let Some(Fd::Sock(k)) = Rc::make_mut(&mut st.fds).get_mut(&r) {
                    k.out.extend(b);
                }
                Some(n)
            }
            _ => {
                self.emit(st, fd, p, len);
                Some(len)
            }
        }
    }
    fn e1(&mut self, v: &Val) -> Eid {
        match v {
            Val::I(x) => self.cx.konst(1, (*x & 1) as u128),
            Val::E(e) => {
                let e = *e;
                self.cx.extract(e, 0, 1)
            }
            _ => unreachable!(),
        }
    }
    fn emit(&mut self, st: &State, _fd: u64, p: u64, len: u64) {
        let mut s = vec![];
        for i in 0..len.min(4000) {
            s.push(match st.mem.byte(p + i) {
                Byte::C(c) => c,
                _ => b'?',
            });
        }
        if self.trace {
            eprint!("[out] {}", String::from_utf8_lossy(&s));
        }
        self.out.extend(s);
    }
}
