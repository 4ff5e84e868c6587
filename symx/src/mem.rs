//! Copy-on-write paged memory with symbolic bytes.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PS: usize = 4096;
#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub sym: Option<Box<BTreeMap<u16, (Eid, u8)>>>,
}
#[derive(Clone)]
pub struct Chunk {
    p: [Option<Rc<Page>>; 256],
}
#[derive(Clone)]
pub struct Mem {
    top: Vec<Option<Rc<Chunk>>>, // 4096 chunks of 1 MiB
}
#[derive(Clone, Copy, Debug)]
pub enum Byte {
    C(u8),
    S(Eid, u8),
}
static ZERO: [u8; PS] = [0; PS];

impl Mem {
    pub fn new() -> Self {
        Mem { top: vec![None; 4096] }
    }
    pub fn hollow() -> Self {
        Mem { top: Vec::new() }
    }
    pub fn ok(addr: u64, n: u64) -> bool {
        addr >= 0x10000 && addr.checked_add(n).map_or(false, |e| e <= 1 << 32)
    }
    #[inline]
    fn page(&self, addr: u64) -> Option<&Page> {
        match &self.top[(addr >> 20) as usize] {
            Some(c) => c.p[((addr >> 12) & 255) as usize].as_deref(),
            None => None,
        }
    }
    #[inline]
    fn page_mut(&mut self, addr: u64) -> &mut Page {
        let c = self.top[(addr >> 20) as usize].get_or_insert_with(|| Rc::new(Chunk { p: [const { None }; 256] }));
        let c = Rc::make_mut(c);
        let p = c.p[((addr >> 12) & 255) as usize].get_or_insert_with(|| Rc::new(Page { d: [0; PS], sym: None }));
        Rc::make_mut(p)
    }
    /// fast path: fully concrete read of n <= 8 bytes
    #[inline]
    pub fn read_c(&self, addr: u64, n: usize) -> Option<u64> {
        let off = (addr & 4095) as usize;
        if off + n <= PS {
            match self.page(addr) {
                None => return Some(0),
                Some(p) => {
                    if let Some(s) = &p.sym {
                        if s.range(off as u16..(off + n) as u16).next().is_some() {
                            return None;
                        }
                    }
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&p.d[off..off + n]);
                    return Some(u64::from_le_bytes(b));
                }
            }
        }
        let mut v = 0u64;
        for i in 0..n {
            match self.byte(addr + i as u64) {
                Byte::C(c) => v |= (c as u64) << (8 * i),
                _ => return None,
            }
        }
        Some(v)
    }
    #[inline]
    pub fn write_c(&mut self, addr: u64, n: usize, v: u64) {
        let off = (addr & 4095) as usize;
        if off + n <= PS {
            let p = self.page_mut(addr);
            p.d[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if p.sym.is_some() {
                Self::clear(p, off, n);
            }
            return;
        }
        for i in 0..n {
            self.set_byte(addr + i as u64, Byte::C((v >> (8 * i)) as u8));
        }
    }
    fn clear(p: &mut Page, off: usize, n: usize) {
        if let Some(s) = &mut p.sym {
            if n <= 16 {
                for i in off..off + n {
                    s.remove(&(i as u16));
                }
            } else {
                let ks: Vec<u16> = s.range(off as u16..=(off + n - 1) as u16).map(|x| *x.0).collect();
                for k in ks {
                    s.remove(&k);
                }
            }
            if s.is_empty() {
                p.sym = None;
            }
        }
    }
    pub fn byte(&self, addr: u64) -> Byte {
        match self.page(addr) {
            None => Byte::C(0),
            Some(p) => {
                let off = (addr & 4095) as usize;
                if let Some(s) = &p.sym {
                    if let Some((e, i)) = s.get(&(off as u16)) {
                        return Byte::S(*e, *i);
                    }
                }
                Byte::C(p.d[off])
            }
        }
    }
    pub fn set_byte(&mut self, addr: u64, b: Byte) {
        let off = (addr & 4095) as usize;
        let p = self.page_mut(addr);
        match b {
            Byte::C(c) => {
                p.d[off] = c;
                if p.sym.is_some() {
                    Self::clear(p, off, 1);
                }
            }
            Byte::S(e, i) => {
                p.sym.get_or_insert_with(Default::default).insert(off as u16, (e, i));
            }
        }
    }
    pub fn write_bytes(&mut self, mut addr: u64, mut b: &[u8]) {
        while !b.is_empty() {
            let off = (addr & 4095) as usize;
            let n = b.len().min(PS - off);
            let p = self.page_mut(addr);
            p.d[off..off + n].copy_from_slice(&b[..n]);
            Self::clear(p, off, n);
            addr += n as u64;
            b = &b[n..];
        }
    }
    pub fn fill(&mut self, mut addr: u64, c: u8, mut n: u64) {
        while n > 0 {
            let off = (addr & 4095) as usize;
            let k = (n as usize).min(PS - off);
            if !(c == 0 && self.page(addr).is_none()) {
                let p = self.page_mut(addr);
                p.d[off..off + k].fill(c);
                Self::clear(p, off, k);
            }
            addr += k as u64;
            n -= k as u64;
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 || dst == src {
            return;
        }
        // gather then scatter (memmove semantics)
        let mut buf = vec![0u8; n as usize];
        let mut syms: Vec<(usize, Eid, u8)> = vec![];
        let mut a = src;
        let mut i = 0usize;
        while i < n as usize {
            let off = (a & 4095) as usize;
            let k = (n as usize - i).min(PS - off);
            match self.page(a) {
                None => buf[i..i + k].copy_from_slice(&ZERO[..k]),
                Some(p) => {
                    buf[i..i + k].copy_from_slice(&p.d[off..off + k]);
                    if let Some(s) = &p.sym {
                        for (o, (e, b)) in s.range(off as u16..=(off + k - 1) as u16) {
                            syms.push((i + *o as usize - off, *e, *b));
                        }
                    }
                }
            }
            a += k as u64;
            i += k;
        }
        self.write_bytes(dst, &buf);
        for (i, e, b) in syms {
            self.set_byte(dst + i as u64, Byte::S(e, b));
        }
    }
    pub fn read_sym(&self, cx: &mut Ctx, addr: u64, n: u64) -> Eid {
        // little endian assembly, coalescing runs
        let mut parts: Vec<Eid> = vec![]; // low to high
        let mut i = 0;
        while i < n {
            match self.byte(addr + i) {
                Byte::C(c) => {
                    let mut v = c as u128;
                    let mut k = 1;
                    while i + k < n {
                        if let Byte::C(c) = self.byte(addr + i + k) {
                            v |= (c as u128) << (8 * k);
                            k += 1;
                        } else {
                            break;
                        }
                    }
                    parts.push(cx.konst(8 * k as u32, v));
                    i += k;
                }
                Byte::S(e, b) => {
                    let mut k = 1;
                    while i + k < n {
                        match self.byte(addr + i + k) {
                            Byte::S(e2, b2) if e2 == e && b2 as u64 == b as u64 + k => k += 1,
                            _ => break,
                        }
                    }
                    parts.push(cx.extract(e, b as u32 * 8, 8 * k as u32));
                    i += k;
                }
            }
        }
        let mut r = parts[0];
        for p in &parts[1..] {
            r = cx.concat(*p, r);
        }
        r
    }
    pub fn write_sym(&mut self, cx: &mut Ctx, addr: u64, n: u64, e: Eid) {
        let w = cx.w(e);
        let e = if (w as u64) < n * 8 { cx.zext(e, n as u32 * 8) } else { e };
        for i in 0..n {
            let b = cx.extract(e, i as u32 * 8, 8);
            if let Some(k) = cx.kval(b) {
                self.set_byte(addr + i, Byte::C(k as u8));
            } else {
                self.set_byte(addr + i, Byte::S(e, i as u8));
            }
        }
    }
}
