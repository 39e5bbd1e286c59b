//! Deterministic generator for workloads, and the seeded entropy source handed to the library.
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Rng {
        Rng(mix(seed.wrapping_add(0x9e3779b97f4a7c15)) ^ hash_str(stream) ^ mix(idx.wrapping_mul(0x632be59bd9b4e019).wrapping_add(77)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        ((self.next() >> 11) as f64 / (1u64 << 53) as f64) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

// ---- entropy for the library (getrandom custom backend) ----
static ENTROPY: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def0);

pub fn seed_entropy(seed: u64) {
    ENTROPY.store(mix(seed ^ 0xa5a5_5a5a_0f0f_f0f0), Ordering::SeqCst);
}

#[no_mangle]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), getrandom::Error> {
    let mut i = 0;
    while i < len {
        let v = mix(ENTROPY.fetch_add(0x9e3779b97f4a7c15, Ordering::SeqCst));
        for b in v.to_le_bytes() {
            if i < len {
                unsafe { dest.add(i).write(b) };
                i += 1;
            }
        }
    }
    Ok(())
}
