//! Choice tapes: every random decision of a case is an entry of a tape, so a
//! case can be replayed and shrunk generically.

#[derive(Clone)]
pub struct Tape {
    pub data: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    ctr: u64,
    pub limit: usize,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ s.len() as u64;
    let mut c = s.chunks_exact(8);
    for b in &mut c {
        h = (h ^ u64::from_le_bytes(b.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for b in c.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Tape {
    pub fn fresh(key: u64) -> Tape {
        Tape { data: Vec::new(), pos: 0, rng: Some(key), ctr: 0, limit: usize::MAX }
    }
    pub fn replay(data: Vec<u64>) -> Tape {
        Tape { data, pos: 0, rng: None, ctr: 0, limit: usize::MAX }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    /// a value in 0..n (n >= 1); 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        match self.rng {
            Some(key) => {
                self.ctr += 1;
                let v = mix(key ^ mix(self.ctr)) % n;
                self.data.push(v);
                self.pos += 1;
                v
            }
            None => {
                let v = if self.pos < self.data.len() { self.data[self.pos] } else { 0 };
                self.pos += 1;
                if v >= n { v % n } else { v }
            }
        }
    }
    pub fn any(&mut self) -> u64 {
        match self.rng {
            Some(key) => {
                self.ctr += 1;
                let v = mix(key ^ mix(self.ctr));
                self.data.push(v);
                self.pos += 1;
                v
            }
            None => {
                let v = if self.pos < self.data.len() { self.data[self.pos] } else { 0 };
                self.pos += 1;
                v
            }
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.any().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// a length with a geometric-ish distribution, up to max
    pub fn small_len(&mut self, max: usize) -> usize {
        let k = match self.below(8) {
            0..=1 => 0,
            2..=5 => 3,
            6 => 10,
            _ => max,
        };
        self.usize(0, k.min(max))
    }
    /// a permutation of 0..n
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            // choice 0 keeps the element in place
            let j = i - self.usize(0, i);
            v.swap(i, j);
        }
        v
    }
}
