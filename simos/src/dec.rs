//! The single source of every choice. A choice is named by a key; its value is a pure function of (seed, key)
//! in search mode and comes from an explicit list in replay mode. Only non-default choices are recorded.
use std::collections::BTreeMap;

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn hash_str(seed: u64, s: &str) -> u64 {
    let mut h = mix(seed ^ 0x51_7c_c1_b7);
    for c in s.as_bytes().chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(b));
    }
    mix(h ^ s.len() as u64)
}
/// Small sequential generator for scenario generation (never used while a run proceeds).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

#[derive(Clone)]
pub enum Mode {
    Search,
    Replay(BTreeMap<String, String>),
}

#[derive(Clone)]
pub struct Dec {
    pub seed: u64,
    pub mode: Mode,
    pub taken: BTreeMap<String, String>,
    /// distinguishes phases of a history
    pub prefix: String,
}

impl Dec {
    pub fn new(seed: u64, mode: Mode) -> Dec {
        Dec { seed, mode, taken: BTreeMap::new(), prefix: String::new() }
    }
    /// `gen` maps a hash to a non-default choice, or None for the default.
    pub fn choose<F: FnOnce(u64) -> Option<String>>(&mut self, key: &str, gen: F) -> Option<String> {
        let key = &format!("{}{}", self.prefix, key);
        let v = match &self.mode {
            Mode::Search => gen(hash_str(self.seed, key)),
            Mode::Replay(m) => m.get(key).cloned(),
        };
        if let Some(v) = &v {
            self.taken.insert(key.to_string(), v.clone());
        }
        v
    }
}
pub fn unit(h: u64) -> f64 {
    (h >> 11) as f64 / (1u64 << 53) as f64
}
