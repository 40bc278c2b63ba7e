//! Deterministic random numbers (xoshiro256**, seeded by splitmix64).

use std::sync::OnceLock;

/// Number and text literals of the program's source. They only direct the workload (as a fuzzer's
/// dictionary does); no verdict depends on them.
pub struct Literals { pub numbers: Vec<u128>, pub texts: Vec<String> }
pub static LITERALS: OnceLock<Literals> = OnceLock::new();
fn literals() -> &'static Literals { LITERALS.get_or_init(|| Literals { numbers: Vec::new(), texts: Vec::new() }) }

/// Whether some literals were given several times, because the monitors have not met them before.
pub fn new_literals() -> bool { literals().numbers.windows(2).any(|w| w[0] == w[1]) || literals().texts.windows(2).any(|w| w[0] == w[1]) }

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// Whether values are drawn from the literals now and then.
    pub keen: bool,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes { h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3); }
    splitmix(&mut h)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, index: u64) -> Rng {
        let mut x = seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ hash_bytes(stream.as_bytes()) ^ index.wrapping_mul(0x2545_F491_4F6C_DD1D);
        let mut s = [0; 4];
        for v in &mut s { *v = splitmix(&mut x); }
        Rng { s, keen: false }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn u128(&mut self) -> u128 {
        if self.keen && self.below(8) == 0 {
            if let Some(v) = self.literal(u128::MAX) { return v; }
        }
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// A literal of the source, or a neighbour or multiple of one, that is at most `max`.
    pub fn literal(&mut self, max: u128) -> Option<u128> {
        let all = &literals().numbers;
        if all.is_empty() { return None; }
        for _ in 0..4 {
            let v = all[self.usize(all.len())];
            let v = match self.below(8) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => v << self.below(128),
                3 => !v,
                _ => v,
            };
            if v <= max { return Some(v); }
        }
        None
    }
    pub fn text_literal(&mut self) -> Option<String> {
        let all = &literals().texts;
        if self.keen && !all.is_empty() { Some(self.pick(all).clone()) } else { None }
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 } }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn u32r(&mut self, lo: u32, hi: u32) -> u32 {
        if self.keen && self.below(5) == 0 {
            if let Some(v) = self.literal(hi as u128) { if v >= lo as u128 { return v as u32; } }
        }
        self.range(lo as i64, hi as i64) as u32
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    /// A value in 0..=max.
    pub fn upto(&mut self, max: u128) -> u128 {
        if self.keen && self.below(4) == 0 {
            if let Some(v) = self.literal(max) { return v; }
        }
        if max == u128::MAX { return self.u128(); }
        self.u128() % (max + 1)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { v.swap(i, self.usize(i + 1)); }
    }
}
