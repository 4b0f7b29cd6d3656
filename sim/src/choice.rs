//! The single source of every decision of a run.
//!
//! In search mode decisions come from a PRNG seeded with the run's seed and are recorded. In replay mode they are
//! read back from a list; a list that is too short continues with 0, the simplest decision everywhere.

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Small PRNG (xoshiro256**) for search mode and for expanding a chosen seed into bulk data.
#[derive(Clone)]
pub struct Prng {
    s: [u64; 4],
}

impl Prng {
    pub fn new(seed: u64) -> Prng {
        let mut x = seed;
        Prng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
}

enum Mode {
    Search(Prng),
    Replay(Vec<u64>, usize),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn search(seed: u64) -> Src {
        Src {
            mode: Mode::Search(Prng::new(seed)),
            rec: Vec::new(),
        }
    }
    pub fn replay(list: Vec<u64>) -> Src {
        Src {
            mode: Mode::Replay(list, 0),
            rec: Vec::new(),
        }
    }
    /// A decision in 0..n; 0 is the simplest alternative.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Search(p) => p.below(n),
            Mode::Replay(l, i) => {
                let v = l.get(*i).copied().unwrap_or(0);
                *i += 1;
                if n <= 1 {
                    0
                } else if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        self.rec.push(v);
        v
    }
    /// True with probability num/den; false is the simple alternative.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }
    /// Inclusive range, low end simplest.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// Index by weight; index 0 simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    /// A number spread over magnitudes, at most `max`.
    pub fn magnitude(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1u64 << (b - 1);
        let hi = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let v = lo + self.below(hi - lo + 1);
        v.min(max)
    }
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 32)
    }
}
