//! Choice-sequence generation: every random decision of a generator is one number on a tape, so a
//! case can be replayed and shrunk by editing the tape (0 is always the simplest choice).

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        let mut r = Rng::new(h ^ p.wrapping_mul(0x1000_0000_01b3));
        h = r.next();
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x1000_0000_01b3))
}

pub type Tape = Vec<u64>;

pub struct Gen {
    rng: Option<Rng>,
    input: Tape,
    pos: usize,
    pub tape: Tape,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Gen { rng: Some(Rng::new(seed)), input: vec![], pos: 0, tape: vec![] }
    }
    pub fn replay(tape: &[u64]) -> Self {
        Gen { rng: None, input: tape.to_vec(), pos: 0, tape: vec![] }
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => r.next() % n,
            None => {
                let v = self.input.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.tape.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi_incl: usize) -> usize {
        self.range(lo as u64, hi_incl as u64) as usize
    }
    /// true with probability pct/100; `false` is the simple outcome
    pub fn chance(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        // high values mean true, so that shrinking moves towards false
        self.below(100) >= 100 - pct.min(100) as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index by weight
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        0
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // Fisher-Yates where tape value 0 = leave in place
        for i in 0..xs.len() {
            let j = i + self.below((xs.len() - i) as u64) as usize;
            xs.swap(i, j);
        }
    }
}

/// One round of shrink candidates for a tape, simplest first.
pub fn candidates(t: &Tape) -> Vec<Tape> {
    let mut out: Vec<Tape> = Vec::new();
    let n = t.len();
    let mut size = n;
    while size >= 1 {
        let mut i = 0;
        while i + size <= n {
            if !(size == n && n > 0) || true {
                let mut c = t[..i].to_vec();
                c.extend_from_slice(&t[i + size..]);
                out.push(c);
            }
            i += size;
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    // zero blocks
    let mut size = (n / 2).max(1);
    loop {
        let mut i = 0;
        while i < n {
            let end = (i + size).min(n);
            if t[i..end].iter().any(|v| *v != 0) {
                let mut c = t.clone();
                for v in &mut c[i..end] {
                    *v = 0;
                }
                out.push(c);
            }
            i += size;
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    // minimise single values
    for i in 0..n {
        if t[i] > 1 {
            let mut c = t.clone();
            c[i] = t[i] / 2;
            out.push(c);
            let mut c = t.clone();
            c[i] = t[i] - 1;
            out.push(c);
        }
    }
    out.dedup();
    out
}

/// Greedy shrink with a cheap predicate (`true` = still fails).
pub fn shrink(mut t: Tape, mut fails: impl FnMut(&Tape) -> bool, mut budget: usize) -> Tape {
    loop {
        let mut improved = false;
        for c in candidates(&t) {
            if budget == 0 {
                return t;
            }
            budget -= 1;
            if c.len() < t.len() || c < t {
                if fails(&c) {
                    t = c;
                    improved = true;
                    break;
                }
            }
        }
        if !improved {
            return t;
        }
    }
}
