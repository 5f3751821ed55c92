//! Choice tape: every random decision of a case is drawn through `Src`, so a case is a pure function of
//! a list of small integers.  Fresh cases draw the integers from a PRNG and record them; replays and the
//! shrinker feed a (shorter or smaller) list back in.  Reading past the end of a replayed tape yields 0,
//! and generators are written so that 0 is the simplest choice.

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut t = self.0;
        let s = self.1;
        self.0 = s;
        t ^= t << 23;
        t ^= t >> 18;
        t ^= s ^ (s >> 5);
        self.1 = t;
        t.wrapping_add(s)
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    splitmix(&mut h)
}

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn fresh(seed: u64) -> Self {
        Src { tape: Vec::with_capacity(256), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }

    /// A number in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            self.pos += 1;
            return v % n;
        }
        match &mut self.rng {
            Some(r) => {
                let v = r.next() % n;
                self.tape.push(v);
                self.pos += 1;
                v
            }
            None => {
                self.pos += 1;
                0
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            self.pos += 1;
            return v;
        }
        match &mut self.rng {
            Some(r) => {
                let v = r.next();
                self.tape.push(v);
                self.pos += 1;
                v
            }
            None => {
                self.pos += 1;
                0
            }
        }
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; 0 on the tape means false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
}

/// Shrink `tape` while `fails` keeps returning true.
pub fn shrink(mut tape: Vec<u64>, mut fails: impl FnMut(&[u64]) -> bool, mut more: impl FnMut() -> bool) -> Vec<u64> {
    let mut improved = true;
    while improved && more() {
        improved = false;
        // truncate
        let mut keep = tape.len() / 2;
        while keep < tape.len() && more() {
            let t = tape[..keep].to_vec();
            if fails(&t) {
                tape = t;
                improved = true;
                keep = tape.len() / 2;
            } else {
                let rest = tape.len() - keep;
                if rest <= 1 {
                    break;
                }
                keep += rest.div_ceil(2);
            }
        }
        // delete spans
        let mut size = (tape.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i + size <= tape.len() && more() {
                let mut t = tape.clone();
                t.drain(i..i + size);
                if fails(&t) {
                    tape = t;
                    improved = true;
                } else {
                    i += (size / 2).max(1);
                }
            }
            if size == 1 || !more() {
                break;
            }
            size /= 2;
        }
        // zero spans
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < tape.len() && more() {
                let e = (i + size).min(tape.len());
                if tape[i..e].iter().any(|x| *x != 0) {
                    let mut t = tape.clone();
                    t[i..e].iter_mut().for_each(|x| *x = 0);
                    if fails(&t) {
                        tape = t;
                        improved = true;
                    }
                }
                i = e;
            }
        }
        // lower values
        for i in 0..tape.len() {
            if !more() {
                break;
            }
            let (mut lo, mut hi) = (0u64, tape[i]);
            while lo < hi && more() {
                let mid = lo + (hi - lo) / 2;
                let mut t = tape.clone();
                t[i] = mid;
                if fails(&t) {
                    tape = t;
                    hi = mid;
                    improved = true;
                } else {
                    lo = mid + 1;
                }
                if hi - lo < 2 && lo + 1 >= hi {
                    if lo < hi {
                        let mut t = tape.clone();
                        t[i] = lo;
                        if fails(&t) {
                            tape = t;
                            improved = true;
                        }
                    }
                    break;
                }
            }
        }
    }
    while tape.last() == Some(&0) {
        tape.pop();
    }
    tape
}
