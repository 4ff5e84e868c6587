use crate::Job;
mod codec;
mod conn;
mod counter;
mod dump;
mod expire;
mod faults;
mod hashes;
mod keys;
mod lists;
mod pd;
mod repl;
mod roles;
mod sets;
mod snapshot;
mod strings;
mod threads;
mod visits;
mod zsets;

/// Every job, in a fixed order.
pub fn all() -> Vec<&'static Job> {
    let mut r = vec![];
    for m in [strings::JOBS, counter::JOBS, expire::JOBS, lists::JOBS, hashes::JOBS, sets::JOBS, zsets::JOBS, codec::JOBS, keys::JOBS, dump::JOBS, faults::JOBS, repl::JOBS, conn::JOBS, pd::JOBS, snapshot::JOBS, visits::JOBS, threads::JOBS, roles::JOBS] {
        r.extend(m);
    }
    r
}

/// `job!("C01", "name", Db f, "bounds")`
#[macro_export]
macro_rules! job {
    ($prop:literal, $name:literal, $kind:ident $f:expr, $bounds:expr) => {
        $crate::Job { name: $name, prop: $prop, deep: false, bounds: $bounds, run: $crate::Run::$kind($f) }
    };
    (deep $prop:literal, $name:literal, $kind:ident $f:expr, $bounds:expr) => {
        $crate::Job { name: $name, prop: $prop, deep: true, bounds: $bounds, run: $crate::Run::$kind($f) }
    };
}
