//! `ahash::RandomState` with seeds drawn from the simulation's seed instead of addresses and the OS.
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Debug)]
pub struct RandomState(u64);

impl RandomState {
    pub fn new() -> Self {
        Self(simcore::HASH_SEED.with(|s| {
            let mut x = s.get();
            let r = simcore::splitmix(&mut x);
            s.set(x);
            r
        }))
    }
}
impl Default for RandomState {
    fn default() -> Self {
        Self::new()
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher(self.0)
    }
}
#[derive(Clone, Debug)]
pub struct AHasher(u64);
impl Hasher for AHasher {
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0_u8; 8];
            b[..c.len()].copy_from_slice(c);
            let mut x = self.0 ^ u64::from_le_bytes(b) ^ (c.len() as u64) << 57;
            self.0 = simcore::splitmix(&mut x);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
