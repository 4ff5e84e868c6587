//! Hash-consed bit-vector / floating-point expression DAG with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type Map<K, V> = HashMap<K, V, FxB>;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var, // k = var index
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    // floating point on bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FEq,
    FLt,
    FLe,
    FIsNan,
    FRound, // k = mode: 0 ceil,1 floor,2 trunc,3 nearest-even,4 nearest-away
    FToS,   // fp -> signed int (w = target)   k = source width in a
    FToU,
    SToF,
    UToF,
    FToF,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Eid,
    pub b: Eid,
    pub c: Eid,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub umax: Vec<u128>,
    pub vset: Vec<u32>,
    map: Map<Node, Eid>,
    pub sets: Vec<Vec<u32>>,
    setmap: HashMap<Vec<u32>, u32>,
    unions: Map<(u32, u32), u32>,
    cuts: Map<(Eid, u32, u32), Eid>,
    pub vars: Vec<(String, u32, Eid)>,
    memo: Vec<u128>,
    stamp: Vec<u32>,
    gen: u32,
}

const NAN64: u128 = 0x7ff8_0000_0000_0000;
const NAN32: u128 = 0x7fc0_0000;

pub fn f64c(x: f64) -> u128 {
    if x.is_nan() {
        NAN64
    } else {
        x.to_bits() as u128
    }
}
pub fn f32c(x: f32) -> u128 {
    if x.is_nan() {
        NAN32
    } else {
        x.to_bits() as u128
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            umax: vec![],
            vset: vec![],
            map: Default::default(),
            sets: vec![vec![]],
            setmap: Default::default(),
            unions: Default::default(),
            cuts: Default::default(),
            vars: vec![],
            memo: vec![],
            stamp: vec![],
            gen: 0,
        };
        c.setmap.insert(vec![], 0);
        c.konst(1, 0);
        c.konst(1, 1);
        c
    }
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn n(&self, e: Eid) -> Node {
        self.nodes[e as usize]
    }
    pub fn kval(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(r) = self.unions.get(&key) {
            return *r;
        }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).cloned().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.intern_set(v);
        self.unions.insert(key, r);
        r
    }
    fn intern_set(&mut self, v: Vec<u32>) -> u32 {
        if let Some(r) = self.setmap.get(&v) {
            return *r;
        }
        let r = self.sets.len() as u32;
        self.sets.push(v.clone());
        self.setmap.insert(v, r);
        r
    }
    /// Division left as it stands, so that `q * k + r` is recognised.
    pub fn split(&mut self, e: Eid, k: u128) -> (Eid, Eid) {
        let w = self.w(e);
        let th = self.konst(w, k);
        if self.kval(e).is_some() {
            return (self.bin(Op::UDiv, w, e, th), self.bin(Op::URem, w, e, th));
        }
        (self.mk(Op::UDiv, w, e, th, 0, 0), self.mk(Op::URem, w, e, th, 0, 0))
    }
    fn mk(&mut self, op: Op, w: u32, a: Eid, b: Eid, c: Eid, k: u128) -> Eid {
        let n = Node { op, w: w as u16, a, b, c, k };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as Eid;
        let m = mask(w);
        let um = |e: Eid, s: &Self| s.umax[e as usize];
        let umax = match op {
            Op::Const => k,
            Op::ZExt => um(a, self),
            Op::Extract => {
                let x = um(a, self) >> k;
                if x > m {
                    m
                } else {
                    x
                }
            }
            Op::Concat => {
                let bw = self.w(b);
                (um(a, self) << bw) | mask(bw).min(um(b, self) | if um(a, self) > 0 { mask(bw) } else { 0 })
            }
            Op::And => um(a, self).min(um(b, self)),
            Op::Or | Op::Xor => {
                let x = um(a, self) | um(b, self);
                let bits = 128 - x.leading_zeros();
                mask(bits).min(m)
            }
            Op::Add => match um(a, self).checked_add(um(b, self)) {
                Some(x) if x <= m => x,
                _ => m,
            },
            Op::Mul => match um(a, self).checked_mul(um(b, self)) {
                Some(x) if x <= m => x,
                _ => m,
            },
            Op::UDiv => match self.kval(b) {
                Some(d) if d > 0 => um(a, self) / d,
                _ => m,
            },
            Op::URem => {
                let ub = um(b, self);
                match self.kval(b) {
                    Some(d) if d > 0 => (d - 1).min(um(a, self)),
                    _ => {
                        let _ = ub;
                        um(a, self).max(0)
                    }
                }
            }
            Op::LShr => match self.kval(b) {
                Some(s) if s < 128 => um(a, self) >> s,
                _ => um(a, self),
            },
            Op::Shl => match self.kval(b) {
                Some(s) if s < 128 && um(a, self) <= (m >> s) => um(a, self) << s,
                _ => m,
            },
            Op::Ite => self.umax_when(b, a, true).max(self.umax_when(c, a, false)),
            _ => m,
        };
        let vs = match op {
            Op::Const => 0,
            Op::Var => self.intern_set(vec![k as u32]),
            _ => {
                let (va, vb, vc) = (self.vset[a as usize], self.vset[b as usize], self.vset[c as usize]);
                let x = match op {
                    Op::ZExt | Op::SExt | Op::Extract | Op::FIsNan | Op::FRound | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FToF | Op::FSqrt => va,
                    Op::Ite => {
                        let y = self.union(va, vb);
                        self.union(y, vc)
                    }
                    _ => self.union(va, vb),
                };
                x
            }
        };
        self.nodes.push(n);
        self.umax.push(umax);
        self.vset.push(vs);
        self.memo.push(0);
        self.stamp.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, w: u32, k: u128) -> Eid {
        self.mk(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, name: &str, w: u32) -> Eid {
        let idx = self.vars.len();
        let e = self.mk(Op::Var, w, 0, 0, 0, idx as u128);
        self.vars.push((name.to_string(), w, e));
        e
    }
    pub fn varid(&self, e: Eid) -> u32 {
        let n = &self.nodes[e as usize];
        assert!(n.op == Op::Var);
        n.k as u32
    }
    pub fn fls(&self) -> Eid {
        0
    }
    pub fn tru(&self) -> Eid {
        1
    }
    pub fn is_true(&self, e: Eid) -> bool {
        e == 1
    }
    pub fn is_false(&self, e: Eid) -> bool {
        e == 0
    }

    pub fn not1(&mut self, e: Eid) -> Eid {
        // boolean negation
        let n = self.n(e);
        debug_assert!(n.w == 1);
        match n.op {
            Op::Const => return if n.k == 0 { 1 } else { 0 },
            Op::Xor if n.b == 1 => return n.a,
            Op::Ult => return self.bin(Op::Ule, 1, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, 1, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, 1, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, 1, n.b, n.a),
            _ => {}
        }
        self.mk(Op::Xor, 1, e, 1, 0, 0)
    }

    pub fn fold(op: Op, w: u32, aw: u32, a: u128, b: u128) -> u128 {
        let m = mask(w);
        (match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::SDiv => {
                if b == 0 {
                    if sx(a, w) < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    sx(a, w).wrapping_div(sx(b, w)) as u128
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SRem => {
                if b == 0 {
                    a
                } else {
                    sx(a, w).wrapping_rem(sx(b, w)) as u128
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = b.min(w as u128 - 1) as u32;
                (sx(a, w) >> s) as u128
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
            Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                if w == 64 {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    f64c(match op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        Op::FDiv => x / y,
                        _ => x % y,
                    })
                } else {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    f32c(match op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        Op::FDiv => x / y,
                        _ => x % y,
                    })
                }
            }
            Op::FEq | Op::FLt | Op::FLe => {
                let (x, y) = if aw == 64 {
                    (f64::from_bits(a as u64), f64::from_bits(b as u64))
                } else {
                    (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
                };
                (match op {
                    Op::FEq => x == y,
                    Op::FLt => x < y,
                    _ => x <= y,
                }) as u128
            }
            _ => unreachable!("fold {:?}", op),
        }) & m
    }
    pub fn fold1(op: Op, w: u32, aw: u32, a: u128, k: u128) -> u128 {
        let m = mask(w);
        let fx = || if aw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
        (match op {
            Op::ZExt => a,
            Op::SExt => sx(a, aw) as u128,
            Op::Extract => a >> k,
            Op::FIsNan => fx().is_nan() as u128,
            Op::FSqrt => {
                if w == 64 {
                    f64c(fx().sqrt())
                } else {
                    f32c(f32::from_bits(a as u32).sqrt())
                }
            }
            Op::FRound => {
                let x = fx();
                let r = match k {
                    0 => x.ceil(),
                    1 => x.floor(),
                    2 => x.trunc(),
                    3 => x.round_ties_even(),
                    _ => x.round(),
                };
                if w == 64 {
                    f64c(r)
                } else {
                    f32c(r as f32)
                }
            }
            Op::FToS => {
                // value assumed in range (LLVM: poison otherwise)
                fx() as i128 as u128
            }
            Op::FToU => fx() as u128,
            Op::SToF => {
                if w == 64 {
                    f64c(sx(a, aw) as f64)
                } else {
                    f32c(sx(a, aw) as f32)
                }
            }
            Op::UToF => {
                if w == 64 {
                    f64c(a as f64)
                } else {
                    f32c(a as f32)
                }
            }
            Op::FToF => {
                if w == 64 {
                    f64c(fx())
                } else {
                    f32c(fx() as f32)
                }
            }
            _ => unreachable!(),
        }) & m
    }
    pub fn un(&mut self, op: Op, w: u32, a: Eid, k: u128) -> Eid {
        let aw = self.w(a);
        if let Some(x) = self.kval(a) {
            let v = Self::fold1(op, w, aw, x, k);
            return self.konst(w, v);
        }
        self.mk(op, w, a, 0, 0, k)
    }
    /// The same number, whatever the widths.
    fn same(&self, a: Eid, b: Eid) -> bool {
        let strip = |e: Eid| {
            let n = self.n(e);
            if n.op == Op::ZExt {
                n.a
            } else {
                e
            }
        };
        let (x, y) = (strip(a), strip(b));
        x == y || matches!((self.kval(x), self.kval(y)), (Some(j), Some(k)) if j == k)
    }
    fn opposite(&self, p: Eid, q: Eid) -> bool {
        let (np, nq) = (self.n(p), self.n(q));
        match (np.op, nq.op) {
            (Op::Ult, Op::Ule) | (Op::Ule, Op::Ult) => np.a == nq.b && np.b == nq.a,
            (Op::Xor, _) if np.b == 1 => np.a == q,
            (_, Op::Xor) if nq.b == 1 => nq.a == p,
            _ => false,
        }
    }
    /// The greatest value of `e` where condition `c` is `holds`.
    fn umax_when(&self, e: Eid, c: Eid, holds: bool) -> u128 {
        let um = |e: Eid| self.umax[e as usize];
        let all = um(e);
        let (nc, ne) = (self.n(c), self.n(e));
        // x <= top there
        let bound = match (nc.op, holds) {
            (Op::Eq, true) => match (self.kval(nc.a), self.kval(nc.b)) {
                (_, Some(k)) => Some((nc.a, k)),
                (Some(k), _) => Some((nc.b, k)),
                _ => None,
            },
            (Op::Eq, false) => match (self.kval(nc.a), self.kval(nc.b)) {
                (_, Some(k)) if k > 0 && um(nc.a) == k => Some((nc.a, k - 1)),
                (Some(k), _) if k > 0 && um(nc.b) == k => Some((nc.b, k - 1)),
                _ => None,
            },
            (Op::Ult, true) => Some((nc.a, um(nc.b).saturating_sub(1))),
            (Op::Ult, false) => Some((nc.b, um(nc.a))),
            (Op::Ule, true) => Some((nc.a, um(nc.b))),
            (Op::Ule, false) => Some((nc.b, um(nc.a).saturating_sub(1))),
            _ => None,
        };
        // not (s == top and q): a choice of s under q is not top
        let mut bound = bound;
        if (nc.op, holds) == (Op::And, false) {
            let x = match ne.op {
                Op::Add => ne.a,
                _ => e,
            };
            let nx = self.n(x);
            for (s, q) in [(nc.a, nc.b), (nc.b, nc.a)] {
                let ns = self.n(s);
                let (Op::Eq, Some(top)) = (ns.op, self.kval(ns.b)) else { continue };
                if nx.op != Op::Ite || um(x) > top || top == 0 {
                    continue;
                }
                let other = if nx.b == ns.a && nx.a == q {
                    nx.c
                } else if nx.c == ns.a && self.opposite(nx.a, q) {
                    nx.b
                } else {
                    continue;
                };
                if um(other) < top {
                    bound = Some((x, top - 1));
                }
            }
        }
        if let Some((x, top)) = bound {
            if e == x {
                return all.min(top);
            }
            if ne.op == Op::Add && ne.a == x && top <= um(x) {
                if let (Some(k), m) = (self.kval(ne.b), mask(ne.w as u32)) {
                    if top.checked_add(k).map_or(false, |v| v <= m) {
                        return all.min(top + k);
                    }
                }
            }
        }
        if ne.op == Op::Sub {
            let le = match (nc.op, holds) {
                (Op::Ult | Op::Ule, true) => self.same(nc.a, ne.b) && self.same(nc.b, ne.a),
                (Op::Ult | Op::Ule, false) => self.same(nc.a, ne.a) && self.same(nc.b, ne.b),
                _ => false,
            };
            if le {
                return all.min(um(ne.a));
            }
        }
        all
    }
    /// How many low bits are certainly zero.
    fn low_zeros(&self, a: Eid, depth: u32) -> u32 {
        let n = self.n(a);
        let w = n.w as u32;
        if depth == 0 {
            return 0;
        }
        match n.op {
            Op::Const => match self.kval(a) {
                Some(0) => w,
                Some(v) => v.trailing_zeros(),
                None => 0,
            },
            Op::Shl => match self.kval(n.b) {
                Some(s) if s < w as u128 => (self.low_zeros(n.a, depth - 1) + s as u32).min(w),
                _ => 0,
            },
            Op::ZExt | Op::SExt => self.low_zeros(n.a, depth - 1),
            Op::Or | Op::Xor | Op::Add | Op::Sub => {
                let x = self.low_zeros(n.a, depth - 1);
                if x == 0 {
                    return 0;
                }
                x.min(self.low_zeros(n.b, depth - 1))
            }
            Op::And => self.low_zeros(n.a, depth - 1).max(self.low_zeros(n.b, depth - 1)),
            Op::Mul => match self.kval(n.b) {
                Some(0) => w,
                Some(v) => v.trailing_zeros(),
                None => 0,
            },
            Op::Ite => {
                let x = self.low_zeros(n.b, depth - 1);
                if x == 0 {
                    return 0;
                }
                x.min(self.low_zeros(n.c, depth - 1))
            }
            Op::Concat => {
                let bw = self.w(n.b);
                let x = self.low_zeros(n.b, depth - 1);
                if x >= bw {
                    bw + self.low_zeros(n.a, depth - 1)
                } else {
                    x
                }
            }
            _ => 0,
        }
    }
    /// `e * coef` as a sum modulo 2^w of terms. With `exact`, only sums that
    /// cannot wrap are taken apart.
    fn lin(&mut self, e: Eid, coef: u128, exact: bool, left: &mut u32, out: &mut Vec<(Eid, u128)>, k: &mut u128) {
        let n = self.n(e);
        let w = n.w as u32;
        let m = mask(w);
        if let Some(v) = self.kval(e) {
            *k = k.wrapping_add(v.wrapping_mul(coef)) & m;
            return;
        }
        let um = |s: &Self, e: Eid| s.umax[e as usize];
        let mut parts: Vec<(Eid, u128)> = vec![];
        // sums and multiples inside a narrower or wider value
        let (i, iw) = match n.op {
            Op::ZExt => (n.a, self.w(n.a)),
            Op::Extract if n.k == 0 => (n.a, self.w(n.a)),
            _ => (e, w),
        };
        let ni = self.n(i);
        let no_wrap = exact || n.op == Op::ZExt;
        let im = mask(iw);
        match ni.op {
            Op::Add => {
                if !no_wrap || um(self, ni.a).checked_add(um(self, ni.b)).map_or(false, |v| v <= im) {
                    parts = vec![(ni.a, 1), (ni.b, 1)];
                }
            }
            Op::Or => {
                if self.disjoint(ni.a, ni.b) {
                    parts = vec![(ni.a, 1), (ni.b, 1)];
                }
            }
            Op::Sub if !no_wrap => parts = vec![(ni.a, 1), (ni.b, u128::MAX)],
            Op::Mul | Op::Shl => {
                let f = match (ni.op, self.kval(ni.b)) {
                    (Op::Mul, f) => f,
                    (_, Some(s)) if s < iw as u128 => Some(1u128 << s),
                    _ => None,
                };
                if let Some(f) = f {
                    if !no_wrap || um(self, ni.a).checked_mul(f).map_or(false, |v| v <= im) {
                        parts = vec![(ni.a, f)];
                    }
                }
            }
            _ => {}
        }
        if exact && n.op == Op::Extract && um(self, i) > m {
            parts.clear();
        }
        if parts.is_empty() || *left == 0 {
            match out.iter_mut().find(|(x, _)| *x == e) {
                Some((_, c)) => *c = c.wrapping_add(coef) & m,
                None => out.push((e, coef & m)),
            }
            return;
        }
        *left -= 1;
        for (p, f) in parts {
            let p = if iw < w {
                self.zext(p, w)
            } else if iw > w {
                self.extract(p, 0, w)
            } else {
                p
            };
            self.lin(p, coef.wrapping_mul(f) & m, exact, left, out, k);
        }
    }
    fn sum(&mut self, w: u32, terms: &[(Eid, u128)], k: u128) -> Eid {
        let m = mask(w);
        let mut plus = self.konst(w, if sx(k, w) >= 0 { k } else { 0 });
        let mut minus = self.konst(w, if sx(k, w) >= 0 { 0 } else { k.wrapping_neg() & m });
        for &(t, c) in terms {
            if c == 0 {
                continue;
            }
            let neg = sx(c, w) < 0;
            let f = self.konst(w, if neg { c.wrapping_neg() & m } else { c });
            let x = self.bin(Op::Mul, w, t, f);
            if neg {
                minus = self.bin(Op::Add, w, minus, x);
            } else {
                plus = self.bin(Op::Add, w, plus, x);
            }
        }
        self.bin(Op::Sub, w, plus, minus)
    }
    /// Terms on both sides of a subtraction or comparison cancel.
    fn cancel(&mut self, op: Op, a: Eid, b: Eid) -> Option<Eid> {
        let w = self.w(a);
        let sums = |n: Node| matches!(n.op, Op::Add | Op::Sub | Op::Or | Op::Mul | Op::ZExt | Op::Extract | Op::Shl);
        let exact = op != Op::Sub;
        let (ka, kb) = (self.kval(a).is_some(), self.kval(b).is_some());
        let ok = |n: Node, k: bool, other: Node| if k { exact && other.op == Op::Add } else { sums(n) };
        let (na, nb) = (self.n(a), self.n(b));
        if !(8..=64).contains(&w) || !ok(na, ka, nb) || !ok(nb, kb, na) {
            return None;
        }
        let (mut x, mut y, mut j, mut k) = (vec![], vec![], 0, 0);
        let mut left = 24;
        self.lin(a, 1, exact, &mut left, &mut x, &mut j);
        self.lin(b, 1, exact, &mut left, &mut y, &mut k);
        let both = exact && j > 0 && k > 0;
        if !both && !x.iter().any(|(t, c)| *c != 0 && y.iter().any(|(u, d)| t == u && *d != 0)) {
            return None;
        }
        if left == 0 {
            return None;
        }
        let m = mask(w);
        if !exact {
            for (t, c) in y {
                let c = c.wrapping_neg() & m;
                match x.iter_mut().find(|(u, _)| *u == t) {
                    Some((_, d)) => *d = d.wrapping_add(c) & m,
                    None => x.push((t, c)),
                }
            }
            return Some(self.sum(w, &x, j.wrapping_sub(k) & m));
        }
        for s in [&x, &y] {
            let mut top = if std::ptr::eq(s, &x) { j } else { k };
            for (t, c) in s.iter() {
                top = self.umax[*t as usize].checked_mul(*c).and_then(|v| v.checked_add(top))?;
            }
            if top > m {
                return None;
            }
        }
        for (t, c) in x.iter_mut() {
            if let Some((_, d)) = y.iter_mut().find(|(u, _)| u == t) {
                let low = (*c).min(*d);
                *c -= low;
                *d -= low;
            }
        }
        let low = j.min(k);
        let most = |s: &[(Eid, u128)], k: u128| s.iter().map(|(t, c)| self.umax[*t as usize] * c).sum::<u128>() + k;
        let (xmost, ymost) = (most(&x, j - low), most(&y, k - low));
        match op {
            Op::Ult if xmost < k - low => return Some(1),
            Op::Ult if ymost <= j - low => return Some(0),
            Op::Ule if xmost <= k - low => return Some(1),
            Op::Ule if ymost < j - low => return Some(0),
            _ => {}
        }
        let (p, q) = (self.nat(w, &x, j - low), self.nat(w, &y, k - low));
        Some(self.bin(op, 1, p, q))
    }
    /// A sum that does not wrap.
    fn nat(&mut self, w: u32, terms: &[(Eid, u128)], k: u128) -> Eid {
        let mut r = self.konst(w, k);
        for &(t, c) in terms {
            if c != 0 {
                let f = self.konst(w, c);
                let x = self.bin(Op::Mul, w, t, f);
                r = self.bin(Op::Add, w, r, x);
            }
        }
        r
    }
    /// No bit is set in both.
    fn disjoint(&self, a: Eid, b: Eid) -> bool {
        let fits = |hi: Eid, lo: Eid| {
            let u = self.umax[lo as usize];
            let bits = 128 - u.leading_zeros();
            // worth a look only when something can be above it
            bits < self.n(hi).w as u32 && self.low_zeros(hi, 6) >= bits.max(1)
        };
        fits(a, b) || fits(b, a)
    }
    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        // the low bits of a value that has no others
        if n.op == Op::Extract && n.k == 0 && self.umax[n.a as usize] <= mask(n.w as u32) {
            let aw = self.n(n.a).w as u32;
            if aw == w {
                return n.a;
            }
            if aw < w {
                return self.zext(n.a, w);
            }
        }
        if n.op == Op::Ite && (self.kval(n.b).is_some() || self.kval(n.c).is_some()) {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.un(Op::ZExt, w, a, 0)
    }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        if self.umax[a as usize] <= mask(aw) >> 1 {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && (self.kval(n.b).is_some() || self.kval(n.c).is_some()) {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.un(Op::SExt, w, a, 0)
    }
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let n = self.n(a);
        let aw = n.w as u32;
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        if self.umax[a as usize] >> lo == 0 {
            return self.konst(w, 0);
        }
        if matches!(n.op, Op::Const | Op::Extract | Op::Var) {
            return self.extract1(a, lo, w);
        }
        if let Some(r) = self.cuts.get(&(a, lo, w)) {
            return *r;
        }
        let r = self.extract1(a, lo, w);
        self.cuts.insert((a, lo, w), r);
        r
    }
    fn extract1(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let n = self.n(a);
        let aw = n.w as u32;
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                let x = self.extract(n.b, lo, bw - lo);
                let y = self.extract(n.a, 0, w - (bw - lo));
                return self.concat(y, x);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, w, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, w, x, y);
            }
            Op::Shl if lo == 0 => {
                if let Some(s) = self.kval(n.b) {
                    if s < w as u128 {
                        let x = self.extract(n.a, 0, w);
                        let y = self.konst(w, s);
                        return self.bin(Op::Shl, w, x, y);
                    }
                    return self.konst(w, 0);
                }
            }
            Op::LShr => {
                if let Some(s) = self.kval(n.b) {
                    let s = s as u32;
                    if s + lo + w <= aw {
                        return self.extract(n.a, lo + s, w);
                    }
                }
            }
            Op::Ite if (self.kval(n.b).is_some() || self.kval(n.c).is_some()) || lo % 8 == 0 => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::UDiv | Op::URem if lo == 0 => {
                // narrow when both operands fit
                let (ua, ub) = (self.umax[n.a as usize], self.umax[n.b as usize]);
                if ua <= mask(w) && ub <= mask(w) && self.kval(n.b).map_or(false, |k| k != 0) {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return self.bin(n.op, w, x, y);
                }
            }
            _ => {}
        }
        self.un(Op::Extract, w, a, lo as u128)
    }
    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.kval(hi), self.kval(lo)) {
            return self.konst(w, (x << lw) | y);
        }
        if self.kval(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.n(hi), self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // concat(extract(x, lw, hw), x-trunc?) where lo is whole x's low part handled above
        if nl.op == Op::Concat {
            let n2 = self.n(nl.a);
            if nh.op == Op::Extract && n2.op == Op::Extract && nh.a == n2.a && nh.k == n2.k + n2.w as u128 {
                let j = self.extract(nh.a, n2.k as u32, hw + n2.w as u32);
                return self.concat(j, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ lo = zext(x ++ lo)
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if a == b || c == 1 {
            return a;
        }
        if c == 0 {
            return b;
        }
        let w = self.w(a);
        if w == 1 {
            if a == 1 && b == 0 {
                return c;
            }
            if a == 0 && b == 1 {
                return self.not1(c);
            }
            if a == 1 {
                return self.bin(Op::Or, 1, c, b);
            }
            if a == 0 {
                let nc = self.not1(c);
                return self.bin(Op::And, 1, nc, b);
            }
            if b == 0 {
                return self.bin(Op::And, 1, c, a);
            }
            if b == 1 {
                let nc = self.not1(c);
                return self.bin(Op::Or, 1, nc, a);
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && nc.b == 1 {
            return self.ite(nc.a, b, a);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.b == a {
            let cc = self.bin(Op::Or, 1, c, nb.a);
            return self.ite(cc, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    /// is e an ite tree whose leaves are all constants (bounded)?
    fn const_leaves(&self, e: Eid, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        let n = self.n(e);
        match n.op {
            Op::Const => true,
            Op::Ite => self.const_leaves(n.b, budget) && self.const_leaves(n.c, budget),
            _ => false,
        }
    }
    pub fn bin(&mut self, op: Op, w: u32, mut a: Eid, mut b: Eid) -> Eid {
        let aw = self.w(a);
        let (mut ka, mut kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = Self::fold(op, w, aw, x, y);
            return self.konst(w, v);
        }
        // canonicalise commutative: constant on the right
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq => {
                if ka.is_some() || (kb.is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                    std::mem::swap(&mut ka, &mut kb);
                }
            }
            _ => {}
        }
        let na = self.n(a);
        let nb = self.n(b);
        let m = mask(w);
        // distribute over ite with constant leaves when other side constant
        if let Some(_) = kb {
            if na.op == Op::Ite && !matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem) {
                let mut bud = 24;
                if (self.kval(na.b).is_some() || self.kval(na.c).is_some()) && (w == 1 || self.const_leaves(a, &mut bud)) {
                    let x = self.bin(op, w, na.b, b);
                    let y = self.bin(op, w, na.c, b);
                    return self.ite(na.a, x, y);
                }
            }
        }
        if let Some(_) = ka {
            if nb.op == Op::Ite && !matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem) {
                let mut bud = 24;
                if (self.kval(nb.b).is_some() || self.kval(nb.c).is_some()) && (w == 1 || self.const_leaves(b, &mut bud)) {
                    let x = self.bin(op, w, a, nb.b);
                    let y = self.bin(op, w, a, nb.c);
                    return self.ite(nb.a, x, y);
                }
            }
        }
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    if na.op == Op::Add {
                        if let Some(x) = self.kval(na.b) {
                            let k = self.konst(w, x.wrapping_add(y));
                            return self.bin(Op::Add, w, na.a, k);
                        }
                    }
                    // zext(x + k) - j = zext(x + (k - j)) without wrapping
                    if na.op == Op::ZExt && sx(y, w) < 0 {
                        let ni = self.n(na.a);
                        let iw = ni.w as u32;
                        if let (Op::Add, Some(x)) = (ni.op, if ni.op == Op::Add { self.kval(ni.b) } else { None }) {
                            let less = y.wrapping_neg() & mask(w);
                            if less <= x && self.umax[ni.a as usize].checked_add(x).map_or(false, |v| v <= mask(iw)) {
                                let k = self.konst(iw, x - less);
                                let e = self.bin(Op::Add, iw, ni.a, k);
                                return self.zext(e, w);
                            }
                        }
                    }
                    if na.op == Op::Sub {
                        if let Some(x) = self.kval(na.a) {
                            let k = self.konst(w, x.wrapping_add(y));
                            return self.bin(Op::Sub, w, k, na.b);
                        }
                    }
                }
                if w > 1 && self.disjoint(a, b) {
                    return self.bin(Op::Or, w, a, b);
                }
                // (x - y) + y = x
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
                // q*c + x%c = x where q = x/c
                for (p, q) in [(a, b), (b, a)] {
                    let (np, nq) = (self.n(p), self.n(q));
                    if np.op == Op::Mul && nq.op == Op::URem {
                        let nd = self.n(np.a);
                        if nd.op == Op::UDiv && nd.a == nq.a && nd.b == np.b && nq.b == np.b {
                            return nd.a;
                        }
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = kb {
                    let k = self.konst(w, y.wrapping_neg());
                    return self.bin(Op::Add, w, a, k);
                }
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(y) = kb {
                    if na.op == Op::Mul {
                        if let Some(x) = self.kval(na.b) {
                            let k = self.konst(w, x.wrapping_mul(y));
                            return self.bin(Op::Mul, w, na.a, k);
                        }
                    }
                }
                // widening multiply that fits in a narrower width
                if w > 64 && self.umax[a as usize].checked_mul(self.umax[b as usize]).map_or(false, |x| x <= mask(64)) {
                    let x = self.extract(a, 0, 64);
                    let y = self.extract(b, 0, 64);
                    let r = self.bin(Op::Mul, 64, x, y);
                    return self.zext(r, w);
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(y) = kb {
                    if y == 1 {
                        return if op == Op::UDiv { a } else { self.konst(w, 0) };
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = y.trailing_zeros();
                        if op == Op::UDiv {
                            let k = self.konst(w, s as u128);
                            return self.bin(Op::LShr, w, a, k);
                        }
                        let k = self.konst(w, y - 1);
                        return self.bin(Op::And, w, a, k);
                    }
                    if y != 0 && self.umax[a as usize] < y {
                        return if op == Op::UDiv { self.konst(w, 0) } else { a };
                    }
                    // (x * y) / y without overflow
                    if y != 0 && na.op == Op::Mul && na.b == b && self.umax[na.a as usize].checked_mul(y).map_or(false, |v| v <= m) {
                        return if op == Op::UDiv { na.a } else { self.konst(w, 0) };
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if y <= mask(iw) {
                            let k = self.konst(iw, y);
                            let r = self.bin(op, iw, na.a, k);
                            return self.zext(r, w);
                        }
                    }
                    // (x * gk) / (g * h) without overflow
                    if na.op == Op::Mul && y > 1 {
                        if let Some(k) = self.kval(na.b) {
                            let (mut g, mut h) = (k, y);
                            while h != 0 {
                                (g, h) = (h, g % h);
                            }
                            if g > 1 && self.umax[na.a as usize].checked_mul(k).map_or(false, |v| v <= m) {
                                let (kk, yy) = (self.konst(w, k / g), self.konst(w, y / g));
                                let x = self.bin(Op::Mul, w, na.a, kk);
                                let r = self.bin(op, w, x, yy);
                                if op == Op::UDiv {
                                    return r;
                                }
                                let gg = self.konst(w, g);
                                return self.bin(Op::Mul, w, r, gg);
                            }
                        }
                    }
                    // (x * ky + z) / y without overflow
                    if na.op == Op::Add && y != 0 {
                        for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                            let np = self.n(p);
                            if np.op != Op::Mul {
                                continue;
                            }
                            let Some(k) = self.kval(np.b) else { continue };
                            let top = self.umax[np.a as usize].checked_mul(k).and_then(|v| v.checked_add(self.umax[q as usize]));
                            if k % y != 0 || !top.map_or(false, |v| v <= m) {
                                continue;
                            }
                            if op == Op::URem {
                                return self.bin(Op::URem, w, q, b);
                            }
                            let k = self.konst(w, k / y);
                            let x = self.bin(Op::Mul, w, np.a, k);
                            let z = self.bin(Op::UDiv, w, q, b);
                            return self.bin(Op::Add, w, x, z);
                        }
                    }
                    if op == Op::UDiv && na.op == Op::UDiv {
                        if let Some(z) = self.kval(na.b) {
                            if let Some(p) = z.checked_mul(y) {
                                if p <= m && z != 0 {
                                    let k = self.konst(w, p);
                                    return self.bin(Op::UDiv, w, na.a, k);
                                }
                            }
                        }
                    }
                    // narrow
                    if w > 64 && self.umax[a as usize] <= mask(64) && y <= mask(64) {
                        let x = self.extract(a, 0, 64);
                        let k = self.konst(64, y);
                        let r = self.bin(op, 64, x, k);
                        return self.zext(r, w);
                    }
                }
            }
            Op::And => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) || a == b {
                    return a;
                }
                if w == 1 {
                    // a & !a
                    if (na.op == Op::Xor && na.b == 1 && na.a == b) || (nb.op == Op::Xor && nb.b == 1 && nb.a == a) {
                        return 0;
                    }
                    // f - d = K > f where d <= f
                    for (e, q) in [(na, nb), (nb, na)] {
                        let (Op::Eq, Some(k), Op::Ule) = (e.op, self.kval(e.b), q.op) else { continue };
                        let s = self.n(e.a);
                        if s.op == Op::Sub && self.same(q.a, s.b) && self.same(q.b, s.a) && self.umax[s.a as usize] < k {
                            return 0;
                        }
                    }
                }
                if let Some(y) = kb {
                    if na.op == Op::And {
                        if let Some(x) = self.kval(na.b) {
                            let k = self.konst(w, x & y);
                            return self.bin(Op::And, w, na.a, k);
                        }
                    }
                    // low mask
                    if (y + 1).is_power_of_two() {
                        if self.umax[a as usize] <= y {
                            return a;
                        }
                        let bits = (y + 1).trailing_zeros();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Or => {
                if kb == Some(0) || a == b {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                // disjoint zext | shl -> concat
                for (p, q) in [(a, b), (b, a)] {
                    let np = self.n(p);
                    if np.op == Op::Shl {
                        if let Some(s) = self.kval(np.b) {
                            let s = s as u32;
                            if s > 0 && s < w && self.umax[q as usize] <= mask(s) {
                                let hi = self.extract(np.a, 0, w - s);
                                let lo = self.extract(q, 0, s);
                                return self.concat(hi, lo);
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if w == 1 && kb == Some(1) {
                    return self.not1(a);
                }
                if let Some(y) = kb {
                    if na.op == Op::Xor {
                        if let Some(x) = self.kval(na.b) {
                            let k = self.konst(w, x ^ y);
                            return self.bin(Op::Xor, w, na.a, k);
                        }
                    }
                }
            }
            Op::Shl => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(s) = kb {
                    if s >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let s = s as u32;
                    let hi = self.extract(a, 0, w - s);
                    let lo = self.konst(s, 0);
                    if self.kval(hi).is_some() {
                        return self.concat(hi, lo);
                    }
                    let hn = self.n(hi);
                    if hn.op == Op::Extract || hn.op == Op::ZExt || hn.op == Op::Concat || hn.op == Op::Var {
                        return self.concat(hi, lo);
                    }
                }
            }
            Op::LShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(s) = kb {
                    if s >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let s = s as u32;
                    let x = self.extract(a, s, w - s);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if self.umax[a as usize] <= m >> 1 {
                    return self.bin(Op::LShr, w, a, b);
                }
            }
            Op::Eq => {
                if a == b {
                    return 1;
                }
                if aw == 1 {
                    if kb == Some(1) {
                        return a;
                    }
                    if kb == Some(0) {
                        return self.not1(a);
                    }
                }
                if let Some(y) = kb {
                    if y > self.umax[a as usize] {
                        return 0;
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            let k = self.konst(iw, y);
                            return self.bin(Op::Eq, 1, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = y & mask(iw);
                            if (sx(t, iw) as u128) & mask(aw) != y {
                                return 0;
                            }
                            let k = self.konst(iw, t);
                            return self.bin(Op::Eq, 1, na.a, k);
                        }
                        Op::Add => {
                            if let Some(x) = self.kval(na.b) {
                                let k = self.konst(aw, y.wrapping_sub(x));
                                return self.bin(Op::Eq, 1, na.a, k);
                            }
                        }
                        Op::Sub => {
                            if let Some(x) = self.kval(na.a) {
                                let k = self.konst(aw, x.wrapping_sub(y));
                                return self.bin(Op::Eq, 1, na.b, k);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, 1, na.a, na.b);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.kval(na.b) {
                                let k = self.konst(aw, y ^ x);
                                return self.bin(Op::Eq, 1, na.a, k);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, 1, na.a, na.b);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.konst(aw - lw, y >> lw);
                            let kl = self.konst(lw, y);
                            let x = self.bin(Op::Eq, 1, na.a, kh);
                            if x == 0 {
                                return 0;
                            }
                            let z = self.bin(Op::Eq, 1, na.b, kl);
                            return self.bin(Op::And, 1, x, z);
                        }
                        Op::Ite => {
                            // eq(ite(c,k1,e),k)
                            if let Some(x) = self.kval(na.b) {
                                if x != y {
                                    let nc = self.not1(na.a);
                                    let r = self.bin(Op::Eq, 1, na.c, b);
                                    return self.bin(Op::And, 1, nc, r);
                                }
                                let r = self.bin(Op::Eq, 1, na.c, b);
                                return self.bin(Op::Or, 1, na.a, r);
                            }
                            if let Some(x) = self.kval(na.c) {
                                let r = self.bin(Op::Eq, 1, na.b, b);
                                if x != y {
                                    return self.bin(Op::And, 1, na.a, r);
                                }
                                let nc = self.not1(na.a);
                                return self.bin(Op::Or, 1, nc, r);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, 1, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, 1, na.a, nb.a);
                        let y = self.bin(Op::Eq, 1, na.b, nb.b);
                        return self.bin(Op::And, 1, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b || kb == Some(0) {
                    return 0;
                }
                if ka == Some(mask(aw)) {
                    return 0;
                }
                if let Some(y) = kb {
                    if self.umax[a as usize] < y {
                        return 1;
                    }
                    if y == 1 {
                        let z = self.konst(aw, 0);
                        return self.bin(Op::Eq, 1, a, z);
                    }
                }
                if let Some(x) = ka {
                    if x >= self.umax[b as usize] {
                        return 0;
                    }
                    if x == 0 {
                        let z = self.konst(aw, 0);
                        let e = self.bin(Op::Eq, 1, b, z);
                        return self.not1(e);
                    }
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b || ka == Some(0) {
                    return 1;
                }
                if kb == Some(mask(aw)) {
                    return 1;
                }
                if let Some(y) = kb {
                    if self.umax[a as usize] <= y {
                        return 1;
                    }
                    if y == 0 {
                        return self.bin(Op::Eq, 1, a, b);
                    }
                }
                if let Some(x) = ka {
                    if x > self.umax[b as usize] {
                        return 0;
                    }
                    if x == 1 {
                        let z = self.konst(aw, 0);
                        let e = self.bin(Op::Eq, 1, b, z);
                        return self.not1(e);
                    }
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return (op == Op::Sle) as Eid;
                }
                let half = mask(aw) >> 1;
                if self.umax[a as usize] <= half && self.umax[b as usize] <= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, a, b);
                }
                if ka.map_or(false, |x| x > half) && self.umax[b as usize] <= half {
                    return 1;
                }
                if kb.map_or(false, |y| y > half) && self.umax[a as usize] <= half {
                    return 0;
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, 1, na.a, nb.a);
                }
                // sext(x) <s k with k in range
                if na.op == Op::SExt {
                    if let Some(y) = kb {
                        let iw = self.w(na.a);
                        let ys = sx(y, aw);
                        let lo = -(1i128 << (iw - 1));
                        let hi = (1i128 << (iw - 1)) - 1;
                        if ys > hi {
                            return 1;
                        }
                        if ys < lo {
                            return 0;
                        }
                        let k = self.konst(iw, y);
                        return self.bin(op, 1, na.a, k);
                    }
                }
                if nb.op == Op::SExt {
                    if let Some(x) = ka {
                        let iw = self.w(nb.a);
                        let xs = sx(x, aw);
                        let lo = -(1i128 << (iw - 1));
                        let hi = (1i128 << (iw - 1)) - 1;
                        if xs < lo {
                            return 1;
                        }
                        if xs > hi {
                            return 0;
                        }
                        let k = self.konst(iw, x);
                        return self.bin(op, 1, k, nb.a);
                    }
                }
            }
            _ => {}
        }
        if matches!(op, Op::Sub | Op::Ult | Op::Ule | Op::Eq) {
            if let Some(r) = self.cancel(op, a, b) {
                return r;
            }
        }
        self.mk(op, w, a, b, 0, 0)
    }
    fn cmp_narrow(&mut self, op: Op, a: Eid, b: Eid) -> Option<Eid> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return Some(self.bin(op, 1, na.a, nb.a));
        }
        if na.op == Op::ZExt {
            if let Some(y) = self.kval(b) {
                let iw = self.w(na.a);
                if y <= mask(iw) {
                    let k = self.konst(iw, y);
                    return Some(self.bin(op, 1, na.a, k));
                }
            }
        }
        if nb.op == Op::ZExt {
            if let Some(x) = self.kval(a) {
                let iw = self.w(nb.a);
                if x <= mask(iw) {
                    let k = self.konst(iw, x);
                    return Some(self.bin(op, 1, k, nb.a));
                }
            }
        }
        None
    }
    pub fn and1(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(Op::And, 1, a, b)
    }
    pub fn or1(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(Op::Or, 1, a, b)
    }
    pub fn eqk(&mut self, a: Eid, k: u128) -> Eid {
        let w = self.w(a);
        let kk = self.konst(w, k);
        self.bin(Op::Eq, 1, a, kk)
    }

    /// start a fresh evaluation context
    pub fn eval_begin(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            for s in self.stamp.iter_mut() {
                *s = 0;
            }
            self.gen = 1;
        }
    }
    pub fn eval(&mut self, e: Eid, model: &dyn Fn(u32) -> u128) -> u128 {
        self.eval_begin();
        self.eval_cont(e, model)
    }
    pub fn eval_cont(&mut self, e: Eid, model: &dyn Fn(u32) -> u128) -> u128 {
        if self.stamp[e as usize] == self.gen {
            return self.memo[e as usize];
        }
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let v = match n.op {
            Op::Const => return n.k,
            Op::Var => model(n.k as u32) & mask(w),
            Op::Ite => {
                let c = self.eval_cont(n.a, model);
                if c != 0 {
                    self.eval_cont(n.b, model)
                } else {
                    self.eval_cont(n.c, model)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                let a = self.eval_cont(n.a, model);
                let b = self.eval_cont(n.b, model);
                (a << lw) | b
            }
            Op::ZExt | Op::SExt | Op::Extract | Op::FIsNan | Op::FRound | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FToF | Op::FSqrt => {
                let aw = self.w(n.a);
                let a = self.eval_cont(n.a, model);
                Self::fold1(n.op, w, aw, a, n.k)
            }
            _ => {
                let aw = self.w(n.a);
                let a = self.eval_cont(n.a, model);
                let b = self.eval_cont(n.b, model);
                Self::fold(n.op, w, aw, a, b)
            }
        };
        self.memo[e as usize] = v;
        self.stamp[e as usize] = self.gen;
        v
    }
    pub fn show(&self, e: Eid, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => self.vars[n.k as usize].0.clone(),
            _ if depth == 0 => "..".into(),
            Op::Ite => format!("Ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            Op::ZExt | Op::SExt | Op::Extract | Op::FIsNan | Op::FRound | Op::FToS | Op::FToU | Op::SToF | Op::UToF | Op::FToF | Op::FSqrt => {
                format!("{:?}{}[{}]({})", n.op, n.w, n.k, self.show(n.a, depth - 1))
            }
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    struct Rng(u64);
    impl Rng {
        fn next(&mut self) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0
        }
        fn below(&mut self, n: u64) -> u64 {
            (self.next() >> 11) % n
        }
    }
    /// Every simplification keeps the value: expressions built at random,
    /// evaluated as simplified and operator by operator.
    #[test]
    fn simplifications_keep_values() {
        const N: usize = 12;
        let rounds: u64 = std::env::var("ROUNDS").ok().and_then(|x| x.parse().ok()).unwrap_or(4000);
        for seed in 1..=rounds {
            let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
            for _ in 0..8 {
                r.next();
            }
            let mut cx = Ctx::new();
            let ws = [1u32, 8, 16, 32, 64];
            let mut pool: Vec<(Eid, [u128; N])> = vec![];
            let mut models: Vec<[u128; N]> = vec![];
            for i in 0..6 {
                let w = ws[r.below(5) as usize].min(match r.below(3) {
                    0 => 16,
                    _ => 64,
                });
                let w = if r.below(4) == 0 { 1 + r.below(20) as u32 } else { w };
                let v = cx.var(&format!("v{i}"), w);
                let mut m = [0u128; N];
                for x in m.iter_mut() {
                    *x = match r.below(4) {
                        0 => r.below(4) as u128,
                        1 => mask(w).wrapping_sub(r.below(3) as u128),
                        2 => (mask(w) >> 1).wrapping_add(r.below(3) as u128),
                        _ => r.next() as u128,
                    } & mask(w);
                }
                models.push(m);
                pool.push((v, m));
            }
            for _ in 0..40 {
                let (a, va) = pool[r.below(pool.len() as u64) as usize];
                let w = cx.w(a);
                let pick = r.below(24);
                let one = |f: &dyn Fn(u128) -> u128| {
                    let mut o = [0u128; N];
                    for i in 0..N {
                        o[i] = f(va[i]);
                    }
                    o
                };
                let (e, v) = match pick {
                    0 | 1 if w < 64 => {
                        let nw = [w + 1, 2 * w, 32, 64][r.below(4) as usize].max(w + 1).min(64);
                        if pick == 0 {
                            (cx.zext(a, nw), va)
                        } else {
                            (cx.sext(a, nw), one(&|x| sx(x, w) as u128 & mask(nw)))
                        }
                    }
                    2 | 3 if w > 1 => {
                        let nw = 1 + r.below(w as u64) as u32;
                        let lo = if pick == 2 { 0 } else { r.below((w - nw + 1) as u64) as u32 };
                        (cx.extract(a, lo, nw), one(&|x| (x >> lo) & mask(nw)))
                    }
                    4 => {
                        let (b, vb) = pool[r.below(pool.len() as u64) as usize];
                        let bw = cx.w(b);
                        if w + bw > 64 {
                            continue;
                        }
                        let mut o = [0u128; N];
                        for i in 0..N {
                            o[i] = (va[i] << bw) | vb[i];
                        }
                        (cx.concat(a, b), o)
                    }
                    5 | 6 => {
                        let (b, vb) = pool[r.below(pool.len() as u64) as usize];
                        let cs: Vec<_> = pool.iter().filter(|(c, _)| cx.w(*c) == 1).cloned().collect();
                        if cx.w(b) != w || cs.is_empty() {
                            continue;
                        }
                        let (c, vc) = cs[r.below(cs.len() as u64) as usize];
                        let mut o = [0u128; N];
                        for i in 0..N {
                            o[i] = if vc[i] != 0 { va[i] } else { vb[i] };
                        }
                        (cx.ite(c, a, b), o)
                    }
                    _ => {
                        let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle, Op::Add, Op::Sub];
                        let op = ops[r.below(ops.len() as u64) as usize];
                        let consts = r.below(3) == 0 || matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr);
                        let (b, vb) = if consts {
                            let k = match op {
                                Op::Shl | Op::LShr | Op::AShr => r.below(w as u64) as u128,
                                _ => {
                                    let k = match r.below(3) {
                                        0 => 1u128 << r.below(w as u64),
                                        1 => r.below(100) as u128,
                                        _ => r.next() as u128 & mask(r.below(w as u64 + 1) as u32),
                                    } & mask(w);
                                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && (k == 0 || k == mask(w)) {
                                        1
                                    } else {
                                        k
                                    }
                                }
                            };
                            (cx.konst(w, k), [k; N])
                        } else {
                            pool[r.below(pool.len() as u64) as usize]
                        };
                        if cx.w(b) != w {
                            continue;
                        }
                        let (a, va, b, vb) = if consts && r.below(4) == 0 && !matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr) { (b, vb, a, va) } else { (a, va, b, vb) };
                        let ow = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
                        let mut o = [0u128; N];
                        for i in 0..N {
                            o[i] = Ctx::fold(op, ow, w, va[i], vb[i]) & mask(ow);
                        }
                        if op == Op::UDiv && w == 64 && r.below(2) == 0 {
                            if let Some(k) = cx.kval(b) {
                                (cx.split(a, k).0, o)
                            } else {
                                continue;
                            }
                        } else {
                            (cx.bin(op, ow, a, b), o)
                        }
                    }
                };
                for i in 0..N {
                    let ms = &models;
                    let got = cx.eval(e, &|x| ms[x as usize][i]);
                    assert_eq!(got, v[i], "seed {seed} model {i}: {}", cx.show(e, 12));
                    assert!(got <= cx.umax[e as usize], "seed {seed} bound of {}", cx.show(e, 12));
                }
                pool.push((e, v));
            }
        }
    }
}
