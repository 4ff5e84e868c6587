//! The keyed commands, with concrete arguments that exercise the values made by `make`.
use crate::{c, r::*, vs};
use db::Db;
use std::sync::Arc;

pub const KINDS: usize = 6;
pub const KIND: [&str; KINDS] = ["string", "integer", "list", "hash", "set", "sorted set"];
pub const STRING: usize = 0;
pub const INTEGER: usize = 1;
pub const LIST: usize = 2;
pub const HASH: usize = 3;
pub const SET: usize = 4;
pub const ZSET: usize = 5;

/// Create a value of the given kind.
pub fn make(db: &Arc<Db>, k: &[u8], kind: usize) {
    let r = match kind {
        STRING => c!(db, "SET", k, "text"),
        INTEGER => c!(db, "SET", k, 10),
        LIST => c!(db, "RPUSH", k, "a", "b", "c"),
        HASH => c!(db, "HSET", k, "f", "v", "n", 3),
        SET => c!(db, "SADD", k, "m", "n", "o"),
        _ => c!(db, "ZADD", k, "1", "m", "2", "n", "2", "o"),
    };
    vs::check(!r.is_err(), "creating a value succeeds");
}

#[derive(Clone, Copy, PartialEq)]
pub enum Needs {
    /// works on every kind of value
    Any,
    /// GET: any string or integer
    Scalar,
    Counter,
    List,
    Hash,
    Set,
    Zset,
}
use Needs::*;
impl Needs {
    pub fn accepts(self, kind: usize) -> bool {
        match self {
            Any => true,
            Scalar => kind <= INTEGER,
            Counter => kind == INTEGER,
            List => kind == LIST,
            Hash => kind == HASH,
            Set => kind == SET,
            Zset => kind == ZSET,
        }
    }
}
pub struct Op {
    pub name: &'static str,
    pub args: &'static [&'static str],
    pub needs: Needs,
    pub write: bool,
    /// sets, clears or reports the deadline
    pub ttl: bool,
}
const fn op(needs: Needs, write: bool, ttl: bool, name: &'static str, args: &'static [&'static str]) -> Op {
    Op { name, args, needs, write, ttl }
}
const fn rd(needs: Needs, name: &'static str, args: &'static [&'static str]) -> Op {
    op(needs, false, false, name, args)
}
const fn wr(needs: Needs, name: &'static str, args: &'static [&'static str]) -> Op {
    op(needs, true, false, name, args)
}
const fn tw(name: &'static str, args: &'static [&'static str]) -> Op {
    op(Any, true, true, name, args)
}
pub const OPS: &[Op] = &[
    rd(Scalar, "GET", &[]),
    rd(Any, "EXISTS", &[]),
    op(Any, false, true, "TTL", &[]),
    op(Any, false, true, "PTTL", &[]),
    rd(List, "LLEN", &[]),
    rd(List, "LRANGE", &["0", "-1"]),
    rd(Hash, "HGET", &["f"]),
    rd(Hash, "HMGET", &["f", "zz"]),
    rd(Hash, "HGETALL", &[]),
    rd(Hash, "HEXISTS", &["f"]),
    rd(Set, "SMEMBERS", &[]),
    rd(Set, "SISMEMBER", &["m"]),
    rd(Set, "SMISMEMBER", &["m", "zz"]),
    rd(Zset, "ZRANGE", &["0", "-1", "WITHSCORES"]),
    rd(Zset, "ZREVRANGE", &["0", "-1"]),
    rd(Zset, "ZRANK", &["n"]),
    rd(Zset, "ZREVRANK", &["n"]),
    rd(Zset, "ZRANGEBYSCORE", &["-inf", "+inf"]),
    rd(Zset, "ZREVRANGEBYSCORE", &["+inf", "-inf"]),
    rd(Zset, "ZRANGEBYLEX", &["-", "+"]),
    rd(Zset, "ZREVRANGEBYLEX", &["+", "-"]),
    rd(Any, "DUMP", &[]),
    tw("SET", &["new"]),
    tw("SET", &["new", "NX"]),
    tw("SET", &["new", "XX"]),
    tw("SET", &["new", "KEEPTTL"]),
    tw("SET", &["new", "EX", "100"]),
    tw("SETEX", &["100", "new"]),
    tw("PSETEX", &["100000", "new"]),
    wr(Any, "DEL", &[]),
    tw("EXPIRE", &["100"]),
    tw("PEXPIRE", &["100000"]),
    tw("EXPIREAT", &["1800000000"]),
    tw("PEXPIREAT", &["1800000000000"]),
    tw("PEXPIREAT", &["1"]),
    tw("EXPIRE", &["100", "XX"]),
    wr(Counter, "INCR", &[]),
    wr(Counter, "DECR", &[]),
    wr(Counter, "INCRBY", &["5"]),
    wr(Counter, "DECRBY", &["5"]),
    wr(List, "LPUSH", &["x", "y"]),
    wr(List, "RPUSH", &["x", "y"]),
    wr(List, "LPUSHX", &["x"]),
    wr(List, "RPUSHX", &["x"]),
    wr(List, "LPOP", &[]),
    wr(List, "RPOP", &["2"]),
    wr(List, "LPOP", &["9"]),
    wr(Hash, "HSET", &["f", "w", "g", "x"]),
    wr(Hash, "HSETNX", &["f", "w"]),
    wr(Hash, "HSETNX", &["g", "w"]),
    wr(Hash, "HINCRBY", &["n", "2"]),
    wr(Hash, "HDEL", &["f", "zz"]),
    wr(Hash, "HDEL", &["f", "n"]),
    wr(Set, "SADD", &["m", "q"]),
    wr(Set, "SREM", &["m", "zz"]),
    wr(Set, "SREM", &["m", "n", "o"]),
    wr(Zset, "ZADD", &["5", "m", "0", "q"]),
    wr(Zset, "ZADD", &["NX", "5", "m", "5", "q"]),
    wr(Zset, "ZADD", &["XX", "CH", "5", "m", "5", "q"]),
    wr(Zset, "ZADD", &["GT", "0", "m", "3", "n"]),
    wr(Zset, "ZADD", &["INCR", "2", "m"]),
    wr(Zset, "ZREM", &["n", "zz"]),
    wr(Zset, "ZREM", &["m", "n", "o"]),
    wr(Zset, "ZREMRANGEBYRANK", &["0", "1"]),
    wr(Zset, "ZREMRANGEBYSCORE", &["1", "(2"]),
    wr(Zset, "ZREMRANGEBYLEX", &["-", "+"]),
];

/// The reply of one of `OPS`, elements of unordered replies sorted.
pub fn apply(db: &Arc<Db>, o: &Op, k: &[u8]) -> Rep {
    let mut a: Vec<A> = vec![o.name.into(), k.into()];
    a.extend(o.args.iter().map(|x| A::from(*x)));
    let mut r = cmd(db, &a);
    if o.name == "SMEMBERS" || o.name == "HGETALL" {
        if let Rep::Arr(v) = &mut r {
            v.sort();
        }
    }
    r
}
/// The value a client can see (`None`: absent or expired) and its deadline.
pub fn state(db: &Arc<Db>, k: &[u8], now: u64) -> Option<(dict::data_type::DataType, u64)> {
    raw(db, k).filter(|v| v.1 == 0 || v.1 > now)
}
pub fn any_op() -> &'static Op {
    &OPS[vs::choice("op", OPS.len())]
}
pub fn any_kind() -> usize {
    vs::choice("kind", KINDS)
}
