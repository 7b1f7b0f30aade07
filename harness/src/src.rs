//! Choice sequences: the one source of nondeterminism for every generator.
//!
//! A generator draws bounded choices from a `Src`.  The same generator can be driven by a seeded PRNG, by a
//! recorded sequence (shrinking, replaying), by an odometer over all sequences (bounded-exhaustive
//! enumeration) or by bytes (coverage-guided fuzzing).  Choice 0 is always the simplest alternative, and a
//! source that has run out yields 0, so every generator terminates on every sequence.

#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { ((self.next() as u128 * n as u128) >> 64) as u64 }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    Odometer(Vec<(u64, u64)>),
    Bytes(Vec<u8>, usize),
}

pub struct Src {
    mode: Mode,
    /// Every choice made so far: (value, bound)
    pub rec: Vec<(u64, u64)>,
    /// Thorough tier: generators may raise their bounds
    pub thorough: bool,
    /// Hard limit on the number of choices (beyond it every choice is 0)
    limit: usize,
}

impl Src {
    pub fn random(seed: u64, thorough: bool) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), rec: vec![], thorough, limit: 200_000 }
    }
    pub fn replay(v: Vec<u64>, thorough: bool) -> Src {
        Src { mode: Mode::Replay(v), rec: vec![], thorough, limit: 200_000 }
    }
    pub fn odometer(v: Vec<(u64, u64)>, thorough: bool) -> Src {
        Src { mode: Mode::Odometer(v), rec: vec![], thorough, limit: 200_000 }
    }
    pub fn bytes(v: Vec<u8>, thorough: bool) -> Src {
        Src { mode: Mode::Bytes(v, 0), rec: vec![], thorough, limit: 200_000 }
    }

    /// A value in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let i = self.rec.len();
        let v = if i >= self.limit || n == 1 { 0 } else {
            match &mut self.mode {
                Mode::Random(r) => r.below(n),
                Mode::Replay(v) => v.get(i).copied().unwrap_or(0).min(n - 1),
                Mode::Odometer(v) => v.get(i).map(|x| x.0).unwrap_or(0).min(n - 1),
                Mode::Bytes(b, p) => {
                    let width = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 8 };
                    let mut x = 0u64;
                    for _ in 0..width {
                        x = (x << 8) | b.get(*p).copied().unwrap_or(0) as u64;
                        *p += 1;
                    }
                    x % n
                }
            }
        };
        self.rec.push((v, n));
        v
    }

    /// A value in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo { return lo; }
        if hi - lo == u64::MAX { 
            // full 64-bit range: two halves
            let a = self.below(1 << 32); let b = self.below(1 << 32);
            return (a << 32) | b;
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    /// True with probability num/den (false is the simplest choice)
    pub fn chance(&mut self, num: u64, den: u64) -> bool { let v = self.below(den); v >= den - num }
    /// Picks an index by weight; index 0 is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x { return i; }
            v -= *x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len() as u64) as usize; &xs[i] }

    /// A list of up to `max` elements with about `avg` on average, drawn as "one more?" flags so that
    /// deleting choices deletes elements
    pub fn list<T>(&mut self, min: usize, max: usize, avg: u64, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut v = vec![];
        while v.len() < max {
            if v.len() >= min && !self.chance(avg, avg + 1) { break; }
            v.push(f(self));
        }
        v
    }
    /// True when the choices have run out (replay/bytes): nothing but zeroes follows
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Random(_) => self.rec.len() >= self.limit,
            Mode::Replay(v) => self.rec.len() >= v.len(),
            Mode::Odometer(_) => false,
            Mode::Bytes(b, p) => *p >= b.len(),
        }
    }
    pub fn choices(&self) -> Vec<u64> { self.rec.iter().map(|x| x.0).collect() }
}

/// The next choice sequence in odometer order, or None when the space is finished
pub fn odometer_next(mut rec: Vec<(u64, u64)>) -> Option<Vec<(u64, u64)>> {
    while let Some((v, n)) = rec.pop() {
        if v + 1 < n {
            rec.push((v + 1, n));
            return Some(rec);
        }
    }
    None
}

/// Shrinks a failing choice sequence. `fails` returns the normalised sequence if the candidate still fails.
pub fn shrink(start: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    fn better(a: &[u64], b: &[u64]) -> bool { (a.len(), a) < (b.len(), b) }
    let mut best = start;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 { return best; }
            if better(&cand, &best) {
                left -= 1;
                match fails(&cand) {
                    Some(norm) => {
                        let norm = if better(&norm, &cand) { norm } else { cand };
                        best = norm; true
                    }
                    None => false,
                }
            } else { false }
        }};
    }
    loop {
        let before = best.clone();
        // Delete blocks
        let mut size = (best.len() / 2).max(1).next_power_of_two().min(1024);
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    attempt!(c);
                }
                if i == 0 { break; }
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 }).min(best.len());
            }
            if size <= 8 { size -= 1; } else { size /= 2; }
        }
        // Zero blocks
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + size] { *x = 0; }
                    attempt!(c);
                }
                i += size;
            }
        }
        // Lower single values (and lower one while deleting the element after it)
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let v = best[i];
                let mut c = best.clone(); c[i] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() { break; }
                        c[i] = mid;
                        if attempt!(c) { hi = mid; } else { lo = mid; }
                    }
                    if i + 1 < best.len() && best[i] > 0 {
                        let mut c = best.clone(); c[i] -= 1; c.remove(i + 1);
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }
        if best == before { return best; }
    }
}
