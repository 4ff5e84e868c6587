//! Parser for the textual LLVM IR of the whole-program module (llvm-dis output).
use crate::expr::Map;
use std::collections::HashMap;

pub type Ty = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u32),
    Float,
    Double,
    X87,
    Ptr,
    Vec(u64, Ty),
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    F64(u64),
    Null,
    Undef,
    Zero,
    Global(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Splat(Ty, Box<Cst>),
    Gep(Ty, Vec<(Ty, Cst)>),
    Cast(&'static str, Ty, Box<Cst>, Ty),
    Bin(&'static str, Ty, Box<Cst>, Box<Cst>),
}
#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Cst),
    Meta,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub tls: bool,
    pub align: u64,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // range of body text
    pub params: Vec<Ty>,
    pub pnames: Vec<String>,
    pub ret: Ty,
    pub varargs: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub tys: Vec<TyK>,
    tymap: HashMap<TyK, Ty>,
    pub named: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: Map<String, u32>,
    pub gidx: Map<String, u32>,
}

#[derive(Clone, Debug)]
pub enum InstK {
    Bin(&'static str, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(&'static str, Ty, Opd, Opd),
    FCmp(&'static str, Ty, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Ty, Opd, Vec<(Ty, Opd)>),
    Cast(&'static str, Ty, Opd, Ty),
    Select(Ty, Opd, Ty, Opd, Opd),
    Phi(Ty, Vec<(Opd, String)>),
    Call { ret: Ty, callee: Opd, args: Vec<(Ty, Opd)>, normal: Option<String>, asm: Option<String> },
    Br(String),
    CondBr(Opd, String, String),
    Switch(Ty, Opd, String, Vec<(u128, String)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Ty, Opd, Vec<u32>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<u32>),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<Option<u32>>),
    Rmw(String, Opd, Ty, Opd),
    CmpXchg(Opd, Ty, Opd, Opd),
    Fence,
    Alloca(Ty, Ty, Opd, u64),
    Freeze(Ty, Opd),
    LandingPad,
    Resume,
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub k: InstK,
}
pub struct Body {
    pub blocks: Vec<(String, Vec<Inst>)>,
    pub nregs: u32,
    pub params: Vec<u32>,
}

pub struct P<'a> {
    s: &'a [u8],
    pub i: usize,
    regs: HashMap<Vec<u8>, u32>,
}

const ATTR_STOP: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "add", "sub", "xor", "mul", "splat", "none", "asm", "c", "addrspacecast", "ptrtoaddr", "nan", "inf", "blockaddress",
];

impl<'a> P<'a> {
    pub fn new(s: &'a [u8], i: usize) -> Self {
        P { s, i, regs: HashMap::new() }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn at_eol(&mut self) -> bool {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') {
            self.i += 1;
        }
        self.i >= self.s.len() || self.s[self.i] == b'\n'
    }
    fn skip_line(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
        if self.i < self.s.len() {
            self.i += 1;
        }
    }
    fn die(&self, m: &str) -> ! {
        let e = (self.i + 120).min(self.s.len());
        let b = self.i.saturating_sub(120);
        panic!("IR parse error: {m} near: {} <<HERE>> {}", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]));
    }
    fn ch(&mut self, c: u8) {
        if self.peek() != c {
            self.die(&format!("expected {:?}", c as char));
        }
        self.i += 1;
    }
    fn tch(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> &'a [u8] {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-')) {
            self.i += 1;
        }
        &self.s[b..self.i]
    }
    fn peek_word(&mut self) -> &'a [u8] {
        let sv = {
            self.ws();
            self.i
        };
        let w = self.word();
        self.i = sv;
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek_word() == w.as_bytes() {
            self.word();
            true
        } else {
            false
        }
    }
    fn parens(&mut self) {
        // skip a balanced (...) group
        self.ch(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        self.ch(b'"');
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn name(&mut self) -> Vec<u8> {
        // after sigil
        if self.s[self.i] == b'"' {
            self.quoted()
        } else {
            let b = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$')) {
                self.i += 1;
            }
            self.s[b..self.i].to_vec()
        }
    }
    fn number(&mut self) -> i128 {
        self.ws();
        let neg = self.tch(b'-');
        let b = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        if b == self.i {
            self.die("number");
        }
        let v: u128 = std::str::from_utf8(&self.s[b..self.i]).unwrap().parse().unwrap();
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' => true,
            b'%' => true,
            _ => {
                let w = self.peek_word();
                match w {
                    b"ptr" | b"void" | b"float" | b"double" | b"half" | b"x86_fp80" | b"fp128" | b"metadata" | b"label" | b"token" => true,
                    _ => w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()),
                }
            }
        }
    }
    fn skip_attrs_to_type(&mut self) {
        while !self.is_type_start() {
            if self.peek() == b'"' {
                self.quoted();
                if self.tch(b'=') {
                    self.quoted();
                }
                continue;
            }
            if self.peek() == b'#' {
                self.i += 1;
                self.number();
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                self.die("attr/type");
            }
            if w == b"align" {
                if self.peek() == b'(' {
                    self.parens()
                } else {
                    self.number();
                }
                continue;
            }
            if self.s[self.i] == b'(' {
                self.parens();
            }
        }
    }
    /// skip parameter attributes standing before a value
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.quoted();
                if self.tch(b'=') {
                    self.quoted();
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return;
            }
            let sv = self.i;
            let w = self.word();
            let ws = std::str::from_utf8(w).unwrap();
            if ATTR_STOP.contains(&ws) || (ws.starts_with("f0x")) {
                self.i = sv;
                return;
            }
            if w == b"align" {
                if self.peek() == b'(' {
                    self.parens()
                } else {
                    self.number();
                }
                continue;
            }
            if self.s[self.i] == b'(' {
                self.parens();
            }
        }
    }
    fn reg(&mut self, n: &[u8]) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_vec()).or_insert(k)
    }
}

impl Module {
    pub fn ty(&mut self, k: TyK) -> Ty {
        if let Some(t) = self.tymap.get(&k) {
            return *t;
        }
        let id = self.tys.len() as Ty;
        self.tys.push(k.clone());
        self.tymap.insert(k, id);
        id
    }
    pub fn k(&self, t: Ty) -> &TyK {
        &self.tys[t as usize]
    }
    pub fn bits(&self, t: Ty) -> u32 {
        match self.k(t) {
            TyK::Int(n) => *n,
            TyK::Float => 32,
            TyK::Double | TyK::Ptr => 64,
            k => panic!("bits of {:?}", k),
        }
    }
    pub fn align(&self, t: Ty) -> u64 {
        match self.k(t) {
            TyK::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            TyK::Float => 4,
            TyK::Double | TyK::Ptr => 8,
            TyK::X87 => 16,
            TyK::Vec(..) => self.size(t).next_power_of_two().max(1),
            TyK::Arr(_, e) => self.align(*e),
            TyK::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self, t: Ty) -> u64 {
        match self.k(t) {
            TyK::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            TyK::Float => 4,
            TyK::Double | TyK::Ptr => 8,
            TyK::X87 => 16,
            TyK::Vec(n, e) => {
                let b = *n * self.bits(*e) as u64;
                (b + 7) / 8
            }
            TyK::Arr(n, e) => n * self.size(*e),
            TyK::Struct(f, packed) => {
                let mut o = 0;
                for x in f {
                    if !*packed {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*x);
                }
                if !*packed {
                    let a = self.align(t);
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn offset(&self, t: Ty, i: usize) -> u64 {
        match self.k(t) {
            TyK::Struct(f, packed) => {
                let mut o = 0;
                for (j, x) in f.iter().enumerate() {
                    if !*packed {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += self.size(*x);
                }
                panic!()
            }
            TyK::Arr(_, e) | TyK::Vec(_, e) => self.size(*e) * i as u64,
            _ => panic!(),
        }
    }
    pub fn field(&self, t: Ty, i: usize) -> Ty {
        match self.k(t) {
            TyK::Struct(f, _) => f[i],
            TyK::Arr(_, e) | TyK::Vec(_, e) => *e,
            k => panic!("field of {:?}", k),
        }
    }
    fn ptype(&mut self, p: &mut P) -> Ty {
        let c = p.peek();
        match c {
            b'{' => {
                p.i += 1;
                let mut f = vec![];
                if !p.tch(b'}') {
                    loop {
                        f.push(self.ptype(p));
                        if !p.tch(b',') {
                            break;
                        }
                    }
                    p.ch(b'}');
                }
                self.ty(TyK::Struct(f, false))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let mut f = vec![];
                    if !p.tch(b'}') {
                        loop {
                            f.push(self.ptype(p));
                            if !p.tch(b',') {
                                break;
                            }
                        }
                        p.ch(b'}');
                    }
                    p.ch(b'>');
                    self.ty(TyK::Struct(f, true))
                } else {
                    let n = p.number() as u64;
                    p.word();
                    let e = self.ptype(p);
                    p.ch(b'>');
                    self.ty(TyK::Vec(n, e))
                }
            }
            b'[' => {
                p.i += 1;
                let n = p.number() as u64;
                p.word();
                let e = self.ptype(p);
                p.ch(b']');
                self.ty(TyK::Arr(n, e))
            }
            b'%' => {
                p.i += 1;
                let n = String::from_utf8(p.name()).unwrap();
                match self.named.get(&n) {
                    Some(t) => *t,
                    None => p.die("named type"),
                }
            }
            _ => {
                let w = p.word();
                match w {
                    b"void" => self.ty(TyK::Void),
                    b"ptr" => self.ty(TyK::Ptr),
                    b"float" => self.ty(TyK::Float),
                    b"double" => self.ty(TyK::Double),
                    b"x86_fp80" => self.ty(TyK::X87),
                    b"metadata" | b"label" | b"token" | b"half" | b"fp128" => self.ty(TyK::Other),
                    _ if w.len() > 1 && w[0] == b'i' => {
                        let n = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| p.die("int type"));
                        self.ty(TyK::Int(n))
                    }
                    _ => p.die("type"),
                }
            }
        }
    }
    fn pval(&mut self, p: &mut P, t: Ty) -> Opd {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Opd::Reg(p.reg(&n));
        }
        if matches!(self.k(t), TyK::Other) {
            // metadata operand
            if p.peek() == b'!' {
                p.i += 1;
                p.word();
                if p.i < p.s.len() && p.s[p.i] == b'(' {
                    p.parens();
                } else if p.peek() == b'"' {
                    p.quoted();
                }
            }
            return Opd::Meta;
        }
        Opd::C(self.pconst(p, t))
    }
    fn tval(&mut self, p: &mut P) -> (Ty, Opd) {
        let t = self.ptype(p);
        if matches!(self.k(t), TyK::Other) {
            // metadata: skip up to , or ) at depth 0
            let mut d = 0;
            loop {
                let c = p.s[p.i];
                match c {
                    b'(' => d += 1,
                    b')' if d == 0 => break,
                    b')' => d -= 1,
                    b',' if d == 0 => break,
                    _ => {}
                }
                p.i += 1;
            }
            return (t, Opd::Meta);
        }
        p.skip_attrs();
        let v = self.pval(p, t);
        (t, v)
    }
    fn ctval(&mut self, p: &mut P) -> (Ty, Cst) {
        let t = self.ptype(p);
        let c = self.pconst(p, t);
        (t, c)
    }
    fn pconst(&mut self, p: &mut P, t: Ty) -> Cst {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                return Cst::Global(String::from_utf8(p.name()).unwrap());
            }
            b'+' | b'-' if matches!(p.s.get(p.i + 1), Some(b'i' | b'q' | b'n' | b's')) => {
                // spelled-out infinities and NaNs
                let neg = c == b'-';
                p.i += 1;
                let dbl = matches!(self.k(t), TyK::Double);
                let v = match (p.word(), dbl) {
                    (b"inf", true) => f64::INFINITY.to_bits(),
                    (b"inf", false) => f32::INFINITY.to_bits() as u64,
                    (b"qnan", true) => 0x7ff8 << 48,
                    (b"qnan", false) => 0x7fc0_0000,
                    _ => p.die("float literal"),
                };
                return Cst::F64(v | if neg { 1 << if dbl { 63 } else { 31 } } else { 0 });
            }
            b'-' | b'0'..=b'9' => {
                let b = p.i;
                let w = {
                    p.i += 1;
                    while p.i < p.s.len() && (p.s[p.i].is_ascii_alphanumeric() || matches!(p.s[p.i], b'.' | b'+' | b'-')) {
                        p.i += 1;
                    }
                    std::str::from_utf8(&p.s[b..p.i]).unwrap()
                };
                return match self.k(t) {
                    TyK::Double | TyK::Float => {
                        let v = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { w.parse::<f64>().unwrap() };
                        if matches!(self.k(t), TyK::Double) {
                            Cst::F64(v.to_bits())
                        } else {
                            Cst::F64((v as f32).to_bits() as u64)
                        }
                    }
                    _ => {
                        if let Some(n) = w.strip_prefix('-') {
                            Cst::Int((n.parse::<u128>().unwrap()).wrapping_neg())
                        } else {
                            match w.parse::<u128>() {
                                Ok(v) => Cst::Int(v),
                                Err(_) => p.die("int"),
                            }
                        }
                    }
                };
            }
            b'{' | b'[' | b'<' => {
                p.i += 1;
                let mut close = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                if c == b'<' && p.peek() == b'{' {
                    p.i += 1;
                    close = b'}';
                }
                let mut v = vec![];
                if p.peek() != close {
                    loop {
                        v.push(self.ctval(p));
                        if !p.tch(b',') {
                            break;
                        }
                    }
                }
                p.ch(close);
                if c == b'<' && close == b'}' {
                    p.ch(b'>');
                }
                return Cst::Agg(v);
            }
            b'+' => p.i += 1,
            _ => {}
        }
        let w = p.word();
        match w {
            b"true" => Cst::Int(1),
            b"false" => Cst::Int(0),
            b"null" => Cst::Null,
            b"undef" | b"poison" => Cst::Undef,
            b"zeroinitializer" | b"none" => Cst::Zero,
            b"inf" => Cst::F64(if matches!(self.k(t), TyK::Double) { f64::INFINITY.to_bits() } else { f32::INFINITY.to_bits() as u64 }),
            b"c" => Cst::Bytes(p.quoted()),
            b"splat" => {
                p.ch(b'(');
                let (t, c) = self.ctval(p);
                p.ch(b')');
                Cst::Splat(t, Box::new(c))
            }
            b"getelementptr" => {
                while p.peek() != b'(' {
                    p.word();
                    if p.peek() == b'(' {
                        // inrange(a, b) or the operand list: operand list starts with a type
                        let sv = p.i;
                        p.i += 1;
                        let ok = p.is_type_start();
                        p.i = sv;
                        if !ok {
                            p.parens();
                        }
                    }
                }
                p.ch(b'(');
                let bt = self.ptype(p);
                let mut v = vec![];
                while p.tch(b',') {
                    v.push(self.ctval(p));
                }
                p.ch(b')');
                Cst::Gep(bt, v)
            }
            b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"ptrtoaddr" | b"addrspacecast" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.ch(b'(');
                let (ft, c) = self.ctval(p);
                p.word(); // to
                let tt = self.ptype(p);
                p.ch(b')');
                Cst::Cast(if w == b"trunc" { "trunc" } else { "id" }, ft, Box::new(c), tt)
            }
            b"add" | b"sub" | b"xor" | b"mul" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.ch(b'(');
                let (t1, a) = self.ctval(p);
                p.ch(b',');
                let (_, b) = self.ctval(p);
                p.ch(b')');
                Cst::Bin(
                    match w {
                        b"add" => "add",
                        b"sub" => "sub",
                        b"mul" => "mul",
                        _ => "xor",
                    },
                    t1,
                    Box::new(a),
                    Box::new(b),
                )
            }
            _ => {
                let s = std::str::from_utf8(w).unwrap();
                if let Some(h) = s.strip_prefix("f0x") {
                    let v = u64::from_str_radix(h, 16).unwrap();
                    return Cst::F64(v);
                }
                p.die("const")
            }
        }
    }

    pub fn parse(text: Vec<u8>) -> Module {
        let mut m = Module { text: vec![], tys: vec![], tymap: HashMap::new(), named: HashMap::new(), globals: vec![], funcs: vec![], fidx: Default::default(), gidx: Default::default() };
        let mut p = P::new(&text, 0);
        // named types first (they may be used before definition order-wise)
        while p.i < text.len() {
            let c = text[p.i];
            match c {
                b'%' => {
                    p.i += 1;
                    let n = String::from_utf8(p.name()).unwrap();
                    p.ch(b'=');
                    p.word();
                    let t = if p.peek_word() == b"opaque" { m.ty(TyK::Other) } else { m.ptype(&mut p) };
                    m.named.insert(n, t);
                    p.skip_line();
                }
                b'@' => {
                    p.i += 1;
                    let name = String::from_utf8(p.name()).unwrap();
                    p.ch(b'=');
                    let mut tls = false;
                    let mut ext = false;
                    let mut alias = false;
                    loop {
                        let w = p.word();
                        match w {
                            b"global" | b"constant" => break,
                            b"alias" => {
                                alias = true;
                                break;
                            }
                            b"thread_local" => tls = true,
                            b"external" | b"extern_weak" => ext = true,
                            b"" => p.die("global"),
                            _ => {}
                        }
                        if p.s[p.i] == b'(' {
                            p.parens();
                        }
                    }
                    let ty = m.ptype(&mut p);
                    if alias {
                        p.ch(b',');
                        let (_, c) = m.ctval(&mut p);
                        let id = m.globals.len() as u32;
                        m.gidx.insert(name.clone(), id);
                        m.globals.push(Global { name: format!("alias:{name}"), ty, init: Some(c), tls: false, align: 0 });
                        p.skip_line();
                        continue;
                    }
                    let init = if ext { None } else { Some(m.pconst(&mut p, ty)) };
                    let mut align = m.align(ty);
                    // trailing attributes
                    let b = p.i;
                    p.skip_line();
                    let rest = &text[b..p.i];
                    if let Some(pos) = find(rest, b", align ") {
                        let mut q = P::new(rest, pos + 8);
                        align = align.max(q.number() as u64);
                    }
                    let id = m.globals.len() as u32;
                    m.gidx.insert(name.clone(), id);
                    m.globals.push(Global { name, ty, init, tls, align });
                }
                b'd' => {
                    let w = p.word();
                    if w == b"define" || w == b"declare" {
                        let def = w == b"define";
                        p.skip_attrs_to_type();
                        let ret = m.ptype(&mut p);
                        // attributes between type and name
                        while p.peek() != b'@' {
                            let w = p.word();
                            if w.is_empty() {
                                p.die("fn name");
                            }
                            if p.s[p.i] == b'(' {
                                p.parens();
                            }
                        }
                        p.ch(b'@');
                        let name = String::from_utf8(p.name()).unwrap();
                        p.ch(b'(');
                        let mut params = vec![];
                        let mut pnames = vec![];
                        let mut varargs = false;
                        if !p.tch(b')') {
                            loop {
                                if p.peek() == b'.' {
                                    p.i += 3;
                                    varargs = true;
                                    break;
                                }
                                let t = m.ptype(&mut p);
                                p.skip_attrs();
                                let mut n = params.len().to_string();
                                if p.peek() == b'%' {
                                    p.i += 1;
                                    n = String::from_utf8(p.name()).unwrap();
                                }
                                params.push(t);
                                pnames.push(n);
                                if !p.tch(b',') {
                                    break;
                                }
                            }
                            p.ch(b')');
                        }
                        p.skip_line();
                        let mut body = None;
                        if def {
                            let b = p.i;
                            // body ends at a line "}"
                            loop {
                                if text[p.i] == b'}' && (p.i + 1 >= text.len() || text[p.i + 1] == b'\n') {
                                    break;
                                }
                                p.skip_line();
                            }
                            body = Some((b, p.i));
                            p.skip_line();
                        }
                        let id = m.funcs.len() as u32;
                        m.fidx.insert(name.clone(), id);
                        m.funcs.push(FuncDecl { name, body, params, pnames, ret, varargs });
                    } else {
                        p.skip_line();
                    }
                }
                b'!' | b'^' => {
                    // metadata trails everything else
                    p.skip_line();
                }
                _ => p.skip_line(),
            }
        }
        drop(p);
        m.text = text;
        m
    }

    pub fn body(&mut self, f: u32) -> Body {
        let (b, e) = self.funcs[f as usize].body.unwrap();
        let text = std::mem::take(&mut self.text);
        let r = self.body_in(f, &text[b..e]);
        self.text = text;
        r
    }
    fn body_in(&mut self, f: u32, s: &[u8]) -> Body {
        let mut p = P::new(s, 0);
        let mut params = vec![];
        let pn = self.funcs[f as usize].pnames.clone();
        let mut unnamed = 0;
        for n in &pn {
            params.push(p.reg(n.as_bytes()));
            if n.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
        }
        let mut blocks: Vec<(String, Vec<Inst>)> = vec![];
        let mut first = true;
        loop {
            // blank lines / labels
            while p.i < s.len() && (s[p.i] == b'\n') {
                p.i += 1;
            }
            if p.i >= s.len() {
                break;
            }
            if s[p.i] != b' ' {
                // label
                let n = if s[p.i] == b'"' { p.quoted() } else { p.name() };
                p.ch(b':');
                p.skip_line();
                blocks.push((String::from_utf8(n).unwrap(), vec![]));
                first = false;
                continue;
            }
            if first {
                blocks.push((unnamed.to_string(), vec![]));
                first = false;
            }
            if let Some(i) = self.inst(&mut p) {
                blocks.last_mut().unwrap().1.push(i);
            }
            p.skip_line();
        }
        Body { blocks, nregs: p.regs.len() as u32, params }
    }
    fn label(&mut self, p: &mut P) -> String {
        let w = p.word();
        if w != b"label" {
            p.die("label");
        }
        p.ch(b'%');
        String::from_utf8(p.name()).unwrap()
    }
    fn inst(&mut self, p: &mut P) -> Option<Inst> {
        let mut dst = None;
        if p.peek() == b'#' {
            return None; // debug record
        }
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            dst = Some(p.reg(&n));
            p.ch(b'=');
        }
        let mut op = p.word();
        if matches!(op, b"tail" | b"musttail" | b"notail") {
            op = p.word();
        }
        macro_rules! bin {
            ($n:expr) => {{
                while !p.is_type_start() {
                    p.word();
                }
                let t = self.ptype(p);
                let a = self.pval(p, t);
                p.ch(b',');
                let b = self.pval(p, t);
                InstK::Bin($n, t, a, b)
            }};
        }
        macro_rules! cast {
            ($n:expr) => {{
                while !p.is_type_start() {
                    p.word();
                }
                let (t, a) = self.tval(p);
                p.word();
                let tt = self.ptype(p);
                InstK::Cast($n, t, a, tt)
            }};
        }
        let k = match op {
            b"add" => bin!("add"),
            b"sub" => bin!("sub"),
            b"mul" => bin!("mul"),
            b"udiv" => bin!("udiv"),
            b"sdiv" => bin!("sdiv"),
            b"urem" => bin!("urem"),
            b"srem" => bin!("srem"),
            b"and" => bin!("and"),
            b"or" => bin!("or"),
            b"xor" => bin!("xor"),
            b"shl" => bin!("shl"),
            b"lshr" => bin!("lshr"),
            b"ashr" => bin!("ashr"),
            b"fadd" => bin!("fadd"),
            b"fsub" => bin!("fsub"),
            b"fmul" => bin!("fmul"),
            b"fdiv" => bin!("fdiv"),
            b"frem" => bin!("frem"),
            b"fneg" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (t, a) = self.tval(p);
                InstK::FNeg(t, a)
            }
            b"zext" => cast!("zext"),
            b"sext" => cast!("sext"),
            b"trunc" => cast!("trunc"),
            b"bitcast" => cast!("bitcast"),
            b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" | b"addrspacecast" => cast!("ptrint"),
            b"uitofp" => cast!("uitofp"),
            b"sitofp" => cast!("sitofp"),
            b"fptoui" => cast!("fptoui"),
            b"fptosi" => cast!("fptosi"),
            b"fpext" => cast!("fpext"),
            b"fptrunc" => cast!("fptrunc"),
            b"icmp" | b"fcmp" => {
                let mut pred = "";
                while !p.is_type_start() {
                    let w = p.word();
                    const PR: &[&str] = &["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "une", "uno", "true", "false"];
                    if let Some(x) = PR.iter().find(|x| x.as_bytes() == w) {
                        pred = x;
                    }
                }
                let t = self.ptype(p);
                let a = self.pval(p, t);
                p.ch(b',');
                let b = self.pval(p, t);
                if op == b"icmp" {
                    InstK::ICmp(pred, t, a, b)
                } else {
                    InstK::FCmp(pred, t, a, b)
                }
            }
            b"load" => {
                while !p.is_type_start() {
                    p.word();
                }
                let t = self.ptype(p);
                p.ch(b',');
                let (_, a) = self.tval(p);
                InstK::Load(t, a)
            }
            b"store" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (t, v) = self.tval(p);
                p.ch(b',');
                let (_, a) = self.tval(p);
                InstK::Store(t, v, a)
            }
            b"getelementptr" => {
                while !p.is_type_start() {
                    p.word();
                    if p.s[p.i] == b'(' {
                        p.parens();
                    }
                }
                let bt = self.ptype(p);
                p.ch(b',');
                let (_, base) = self.tval(p);
                let mut v = vec![];
                while !p.at_eol() && p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                    v.push(self.tval(p));
                }
                InstK::Gep(bt, base, v)
            }
            b"select" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (ct, c) = self.tval(p);
                p.ch(b',');
                let (t, a) = self.tval(p);
                p.ch(b',');
                let (_, b) = self.tval(p);
                InstK::Select(ct, c, t, a, b)
            }
            b"phi" => {
                while !p.is_type_start() {
                    p.word();
                }
                let t = self.ptype(p);
                let mut v = vec![];
                loop {
                    p.ch(b'[');
                    let o = self.pval(p, t);
                    p.ch(b',');
                    p.ch(b'%');
                    let l = String::from_utf8(p.name()).unwrap();
                    p.ch(b']');
                    v.push((o, l));
                    if p.at_eol() || p.peek() != b',' {
                        break;
                    }
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                }
                InstK::Phi(t, v)
            }
            b"call" | b"invoke" => {
                p.skip_attrs_to_type();
                let ret = self.ptype(p);
                // optional function type "(...)"
                if p.peek() == b'(' {
                    p.parens();
                }
                let mut asm = None;
                let callee = if p.eatw("asm") {
                    loop {
                        if p.peek() == b'"' {
                            break;
                        }
                        p.word();
                    }
                    let a = p.quoted();
                    p.ch(b',');
                    p.quoted();
                    asm = Some(String::from_utf8_lossy(&a).into_owned());
                    Opd::Meta
                } else {
                    let pt = self.ty(TyK::Ptr);
                    self.pval(p, pt)
                };
                p.ch(b'(');
                let mut args = vec![];
                if !p.tch(b')') {
                    loop {
                        args.push(self.tval(p));
                        if !p.tch(b',') {
                            break;
                        }
                    }
                    p.ch(b')');
                }
                let mut normal = None;
                if op == b"invoke" {
                    // scan to "to label"
                    loop {
                        let w = p.peek_word();
                        if w == b"to" {
                            p.word();
                            break;
                        }
                        match p.peek() {
                            b'[' => {
                                while p.s[p.i] != b']' {
                                    p.i += 1;
                                }
                                p.i += 1;
                            }
                            b'#' => {
                                p.i += 1;
                                p.number();
                            }
                            _ => {
                                if p.word().is_empty() {
                                    p.die("invoke");
                                }
                                if p.s[p.i] == b'(' {
                                    p.parens();
                                }
                            }
                        }
                    }
                    normal = Some(self.label(p));
                    p.word(); // unwind
                    self.label(p);
                }
                InstK::Call { ret, callee, args, normal, asm }
            }
            b"br" => {
                if p.peek_word() == b"label" {
                    InstK::Br(self.label(p))
                } else {
                    let (_, c) = self.tval(p);
                    p.ch(b',');
                    let a = self.label(p);
                    p.ch(b',');
                    let b = self.label(p);
                    InstK::CondBr(c, a, b)
                }
            }
            b"switch" => {
                let (t, v) = self.tval(p);
                p.ch(b',');
                let d = self.label(p);
                p.ch(b'[');
                let mut cs = vec![];
                while p.peek() != b']' {
                    let ct = self.ptype(p);
                    let bits = self.bits(ct);
                    let c = match self.pconst(p, ct) {
                        Cst::Int(v) => v & crate::expr::mask(bits),
                        _ => p.die("case"),
                    };
                    p.ch(b',');
                    cs.push((c, self.label(p)));
                }
                p.ch(b']');
                InstK::Switch(t, v, d, cs)
            }
            b"ret" => {
                if p.peek_word() == b"void" {
                    InstK::Ret(None)
                } else {
                    let (t, v) = self.tval(p);
                    InstK::Ret(Some((t, v)))
                }
            }
            b"unreachable" => InstK::Unreachable,
            b"extractvalue" => {
                let (t, v) = self.tval(p);
                let mut ix = vec![];
                while !p.at_eol() && p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.number() as u32);
                }
                InstK::ExtractValue(t, v, ix)
            }
            b"insertvalue" => {
                let (t, v) = self.tval(p);
                p.ch(b',');
                let (et, e) = self.tval(p);
                let mut ix = vec![];
                while !p.at_eol() && p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                    ix.push(p.number() as u32);
                }
                InstK::InsertValue(t, v, et, e, ix)
            }
            b"extractelement" => {
                let (t, v) = self.tval(p);
                p.ch(b',');
                let (_, i) = self.tval(p);
                InstK::ExtractElement(t, v, i)
            }
            b"insertelement" => {
                let (t, v) = self.tval(p);
                p.ch(b',');
                let (_, e) = self.tval(p);
                p.ch(b',');
                let (_, i) = self.tval(p);
                InstK::InsertElement(t, v, e, i)
            }
            b"shufflevector" => {
                let (t, a) = self.tval(p);
                p.ch(b',');
                let (_, b) = self.tval(p);
                p.ch(b',');
                let (mt, mv) = self.ctval(p);
                let n = match self.k(mt) {
                    TyK::Vec(n, _) => *n as usize,
                    _ => p.die("mask"),
                };
                let mk = match mv {
                    Cst::Zero => vec![Some(0); n],
                    Cst::Undef => vec![None; n],
                    Cst::Splat(_, c) => match *c {
                        Cst::Int(k) => vec![Some(k as u32); n],
                        _ => vec![None; n],
                    },
                    Cst::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            Cst::Int(k) => Some(k as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => p.die("mask"),
                };
                InstK::Shuffle(t, a, b, mk)
            }
            b"atomicrmw" => {
                let mut o = p.word();
                if o == b"volatile" {
                    o = p.word();
                }
                let o = String::from_utf8(o.to_vec()).unwrap();
                let (_, a) = self.tval(p);
                p.ch(b',');
                let (t, v) = self.tval(p);
                InstK::Rmw(o, a, t, v)
            }
            b"cmpxchg" => {
                while !p.is_type_start() {
                    p.word();
                }
                let (_, a) = self.tval(p);
                p.ch(b',');
                let (t, c) = self.tval(p);
                p.ch(b',');
                let (_, n) = self.tval(p);
                InstK::CmpXchg(a, t, c, n)
            }
            b"fence" => InstK::Fence,
            b"alloca" => {
                while !p.is_type_start() {
                    p.word();
                }
                let t = self.ptype(p);
                let mut n = (self.ty(TyK::Int(64)), Opd::C(Cst::Int(1)));
                let mut al = self.align(t);
                while !p.at_eol() && p.peek() == b',' {
                    p.i += 1;
                    if p.peek() == b'!' {
                        break;
                    }
                    if p.eatw("align") {
                        al = al.max(p.number() as u64);
                    } else {
                        n = self.tval(p);
                    }
                }
                InstK::Alloca(t, n.0, n.1, al)
            }
            b"freeze" => {
                let (t, v) = self.tval(p);
                InstK::Freeze(t, v)
            }
            b"landingpad" => {
                // possibly followed by clause lines (start with deeper indentation)
                p.skip_line();
                while p.i < p.s.len() {
                    let e = p.s[p.i..].iter().position(|c| *c == b'\n').map_or(p.s.len(), |x| p.i + x);
                    let l = &p.s[p.i..e];
                    let tl: &[u8] = {
                        let k = l.iter().position(|c| *c != b' ').unwrap_or(l.len());
                        &l[k..]
                    };
                    if tl.starts_with(b"cleanup") || tl.starts_with(b"catch") || tl.starts_with(b"filter") {
                        p.i = e + 1;
                    } else {
                        break;
                    }
                }
                p.i -= 1; // caller skips one line
                return Some(Inst { dst, k: InstK::LandingPad });
            }
            b"resume" => InstK::Resume,
            b"callbr" | b"va_arg" | b"catchswitch" => p.die("unsupported instruction"),
            _ => p.die("unknown instruction"),
        };
        Some(Inst { dst, k })
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
