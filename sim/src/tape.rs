//! The choice tape: the only source of decisions of a simulated run.
//!
//! A fresh run draws from a PRNG and records what it drew; a replay reads the recorded values
//! back. Zero is always the simplest choice, so lowering or deleting entries simplifies a run.

#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut x = seed ^ 0x6874_6d6c_3566_7573;
    for b in prop.bytes() { x = splitmix(&mut x) ^ b as u64; }
    x = splitmix(&mut x) ^ index;
    splitmix(&mut x)
}

pub struct Tape {
    rng: Option<Rng>,
    pub vals: Vec<u32>,
    pos: usize,
}

impl Tape {
    pub fn fresh(seed: u64) -> Tape { Tape { rng: Some(Rng::new(seed)), vals: Vec::new(), pos: 0 } }
    pub fn replay(vals: Vec<u32>) -> Tape { Tape { rng: None, vals, pos: 0 } }
    pub fn used(&self) -> usize { self.pos }

    /// A value in `0..n`.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 { return 0; }
        let v = match self.rng {
            Some(ref mut rng) => {
                let v = ((rng.next() >> 32) * n as u64 >> 32) as u32;
                self.vals.push(v);
                v
            }
            None => self.vals.get(self.pos).map_or(0, |v| v % n),
        };
        self.pos += 1;
        v
    }
    pub fn usize(&mut self, n: usize) -> usize { self.draw(n as u32) as usize }
    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.usize(hi - lo + 1) }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 { return false; }
        self.draw(den) >= den - num.min(den)
    }
    /// Index by weights; index 0 is the simple choice.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w { return i; }
            v -= *w;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { &items[self.usize(items.len())] }
    /// Small numbers mostly, with a long tail up to `max`.
    pub fn small(&mut self, max: usize) -> usize {
        match self.weighted(&[8, 4, 2, 1]) {
            0 => self.range(0, 2.min(max)),
            1 => self.range(0, 5.min(max)),
            2 => self.range(0, 12.min(max)),
            _ => self.range(0, max),
        }
    }
}
