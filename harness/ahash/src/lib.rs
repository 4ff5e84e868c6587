//! Stand-in for the `ahash` hasher, used only in the symbolic build.
//!
//! Every key hashes to the same value, so a hash table behaves as one bucket
//! in which keys are told apart by `Eq` alone. Which bucket a key lands in is
//! therefore never the reason for a result, and a key may be symbolic.
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Copy, Debug, Default)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        Self
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct AHasher;
impl Hasher for AHasher {
    #[inline]
    fn finish(&self) -> u64 {
        0
    }
    #[inline]
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    #[inline]
    fn build_hasher(&self) -> AHasher {
        AHasher
    }
}
