//! Driving the server at the level of client commands.
#![allow(dead_code)]
use std::sync::Arc;

use common::connection::parse::frame::Frame;
use db::Db;
use server::verif::Command;

/// A reply as a client sees it. Simple and bulk strings are one variant.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rep {
    Str(Vec<u8>),
    Int(i64),
    Err(Vec<u8>),
    Nil,
    Arr(Vec<Rep>),
    /// The request was refused before it was executed.
    Refused,
    None,
}
use Rep::*;

pub fn rep(f: &Frame) -> Rep {
    match f {
        Frame::Simple(b) | Frame::Bulk(b) => Str(b.to_vec()),
        Frame::OwnedSimple(b) | Frame::OwnedBulk(b) => Str(b.clone()),
        Frame::OwnedStringSimple(s) => Str(s.clone().into_bytes()),
        Frame::Error(b) => Err(b.to_vec()),
        Frame::OwnedError(s) => Err(s.clone().into_bytes()),
        Frame::Integer(i) => Int(*i),
        Frame::Null => Nil,
        Frame::Array(a) => Arr(a.iter().map(rep).collect()),
        Frame::Ping => Str(b"PING".to_vec()),
        Frame::Pong => Str(b"PONG".to_vec()),
        Frame::NoRes => None,
    }
}


/// One request argument.
#[derive(Clone, Copy)]
pub enum A<'a> {
    B(&'a [u8]),
    I(i64),
}
impl<'a> From<&'a [u8]> for A<'a> {
    fn from(b: &'a [u8]) -> Self {
        A::B(b)
    }
}
impl<'a> From<&'a Vec<u8>> for A<'a> {
    fn from(b: &'a Vec<u8>) -> Self {
        A::B(b)
    }
}
impl<'a, const N: usize> From<&'a [u8; N]> for A<'a> {
    fn from(b: &'a [u8; N]) -> Self {
        A::B(b)
    }
}
impl<'a> From<&'a str> for A<'a> {
    fn from(b: &'a str) -> Self {
        A::B(b.as_bytes())
    }
}
impl From<i64> for A<'_> {
    fn from(i: i64) -> Self {
        A::I(i)
    }
}

/// Execute one request frame and hand its reply frame to `f`.
pub fn with_frame<T>(db: &Arc<Db>, frame: Frame, f: impl FnOnce(Result<&Frame, ()>) -> T) -> T {
    let cmd = match Command::from_frame(frame) {
        Ok(c) => c,
        Result::Err(e) => {
            std::mem::forget(e);
            return f(Result::Err(()));
        }
    };
    let r = match cmd {
        Command::Ping => Ok(Frame::Pong),
        Command::Read(c) => c.apply(db),
        Command::Write(c) => c.apply(db),
        Command::Unknown(c) => Ok(c.apply()),
        Command::SyncSnapshot(_) => Ok(Frame::NoRes),
    };
    let fr = match r {
        Ok(fr) => fr,
        Result::Err(e) => Frame::OwnedError(e.to_string()),
    };
    f(Ok(&fr))
}
pub fn req<'a>(args: &[A<'a>]) -> Frame<'a> {
    Frame::Array(
        args.iter()
            .map(|a| match a {
                A::B(b) => Frame::Bulk(b),
                A::I(i) => Frame::Integer(*i),
            })
            .collect(),
    )
}
/// Execute one client command.
#[inline(never)]
pub fn cmd(db: &Arc<Db>, args: &[A]) -> Rep {
    let r = with_frame(db, req(args), |f| f.map_or(Refused, rep));
    observe(&r);
    r
}
/// Make a reply part of what a native replay is compared with.
fn observe(r: &Rep) {
    use crate::vs::trace;
    match r {
        Str(s) => {
            trace("str", s.len() as u64);
            for b in s.iter().take(12) {
                trace("byte", (*b).into());
            }
        }
        Int(i) => trace("int", *i as u64),
        Err(e) => trace("err", e.len() as u64),
        Nil => trace("nil", 0),
        // elements may come in the order of a hash table
        Arr(a) => trace("arr", a.len() as u64),
        Refused => trace("refused", 0),
        None => trace("none", 0),
    }
}
/// `c!(db, "SET", k, 5)`: execute one client command.
#[macro_export]
macro_rules! c {
    ($db:expr, $($a:expr),+ $(,)?) => {
        $crate::r::cmd($db, &[$($crate::r::A::from($a)),+])
    };
}

impl Rep {
    pub fn is_err(&self) -> bool {
        matches!(self, Err(_) | Refused)
    }
    pub fn is_wrongtype(&self) -> bool {
        match self {
            Err(e) => e.starts_with(b"WRONGTYPE"),
            _ => false,
        }
    }
    pub fn is_ok(&self) -> bool {
        self.is(b"OK")
    }
    /// String reply with exactly these bytes.
    pub fn is(&self, b: &[u8]) -> bool {
        match self {
            Str(s) => crate::vs::eq(s, b),
            _ => false,
        }
    }
    pub fn is_int(&self, i: i64) -> bool {
        match self {
            Int(x) => *x == i,
            _ => false,
        }
    }
    pub fn is_nil(&self) -> bool {
        matches!(self, Nil)
    }
    /// Nil, or an empty array.
    pub fn is_empty(&self) -> bool {
        match self {
            Nil => true,
            Arr(a) => a.is_empty(),
            _ => false,
        }
    }
    /// An array of exactly these strings, in this order.
    pub fn is_list(&self, w: &[&[u8]]) -> bool {
        let Arr(a) = self else { return w.is_empty() && self.is_nil() };
        if a.len() != w.len() {
            return false;
        }
        let mut r = true;
        for (x, y) in a.iter().zip(w) {
            r = crate::vs::and(r, x.is(y));
        }
        r
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            Int(i) => Some(*i),
            _ => Option::None,
        }
    }
    pub fn arr(&self) -> &[Rep] {
        match self {
            Arr(a) => a,
            _ => &[],
        }
    }
    pub fn str(&self) -> &[u8] {
        match self {
            Str(a) => a,
            _ => &[],
        }
    }
}

/// The stored value of a key, expired or not: `(data, expires_at)`.
pub fn raw(db: &Arc<Db>, key: &[u8]) -> Option<(dict::data_type::DataType, u64)> {
    use dict::Dict;
    let slot = db::verif::slot_of(db, key);
    let lock = db.slots[slot].share_status.lock();
    let d = &lock.as_ref().unwrap().dict;
    d.raw_get(key).map(|v| (v.data.clone(), v.expires_at))
}
/// Number of values held in a key's slot, expired or not.
pub fn held(db: &Arc<Db>, key: &[u8]) -> usize {
    use dict::Dict;
    let slot = db::verif::slot_of(db, key);
    let lock = db.slots[slot].share_status.lock();
    lock.as_ref().unwrap().dict.len()
}
