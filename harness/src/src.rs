//! Choice sequences: every random decision of a generator goes through `Src`, is recorded,
//! and can be replayed, mutated and shrunk.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s ^ 0x9e37_79b9_7f4a_7c15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n <= 1 { 0 } else { self.next() % n } }
}

/// Words and numbers worth trying: fixed ones plus the literals of the code under test.
#[derive(Default)]
pub struct Dict { pub ints: Vec<u32>, pub strs: Vec<String>, pub new_ints: Vec<u32>, pub new_strs: Vec<String> }

pub struct Src<'d> {
    rng: Rng,
    rep: Vec<u32>,
    pub rec: Vec<u32>,
    random_tail: bool,
    pub dict: &'d Dict,
    /// multiplies size caps (thorough tier and rare big cases)
    pub scale: usize,
}
impl<'d> Src<'d> {
    pub fn new(dict: &'d Dict, seed: u64, rep: Vec<u32>, random_tail: bool) -> Self {
        Src { rng: Rng::new(seed), rep, rec: Vec::new(), random_tail, dict, scale: 1 }
    }
    /// A number below n (0 is meant to be the simplest choice).
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u32;
        let i = self.rec.len();
        let v = if i < self.rep.len() { self.rep[i] % n }
            else if self.random_tail { self.rng.below(n as u64) as u32 } else { 0 };
        self.rec.push(v);
        v as usize
    }
    pub fn bits(&mut self) -> u32 { self.below(u32::MAX as usize) as u32 }
    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) >= den - num }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
    pub fn pick_ref<'v, T>(&mut self, v: &'v [T]) -> &'v T { &v[self.below(v.len())] }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// A size, mostly small, sometimes up to `cap`, sometimes a number that matters to the code.
    pub fn size(&mut self, small: usize, cap: usize) -> usize {
        match self.below(16) {
            0..=12 => self.below(small + 1),
            13 | 14 => self.below(4 * small + 2).min(cap),
            _ => self.hot(cap),
        }
    }
    /// An "interesting" number up to cap.
    pub fn hot(&mut self, cap: usize) -> usize {
        let d = self.dict;
        let use_new = self.chance(1, 2);
        let pool = if use_new && !d.new_ints.is_empty() { &d.new_ints } else { &d.ints };
        let v = pool[self.below(pool.len())] as usize;
        let v = match self.below(4) { 1 => v + 1, 2 => v.saturating_sub(1), 3 => v + 2, _ => v };
        if v <= cap { v } else { self.below(cap + 1) }
    }
    /// An extra length: mostly 0, with probability 1/den something up to `cap`.
    pub fn long(&mut self, den: usize, cap: usize) -> usize { if self.chance(1, den) { self.hot(cap) } else { 0 } }
    /// A literal found in the code under test (new ones first).
    pub fn word(&mut self) -> &'d str {
        let d = self.dict;
        let use_new = self.chance(1, 2);
        let pool = if use_new && !d.new_strs.is_empty() { &d.new_strs } else { &d.strs };
        &pool[self.below(pool.len())]
    }
    /// A random name: a first letter, then up to `n` characters of an alphabet.
    pub fn name(&mut self, n: usize) -> String {
        let (first, rest) = self.pick(&[("abcdef", "abcdefABCDEF0123456789"), ("ABCDEF", "abcdefABCDEF0123456789"), ("abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyz"), ("ABCDEFGHIJKLMNOPQRSTUVWXYZ", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"), ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")]);
        let mut o = String::from(first.as_bytes()[self.below(first.len())] as char);
        for _ in 0..self.below(n + 1) { o.push(rest.as_bytes()[self.below(rest.len())] as char) }
        o
    }
    /// `n` hexadecimal digits, in any case.
    pub fn hex(&mut self, n: usize) -> String { (0..n).map(|_| b"0123456789abcdefABCDEF"[self.below(22)] as char).collect() }
    /// Now and then, in another case.
    pub fn cased(&mut self, t: &str) -> String {
        match self.below(16) {
            12 => t.to_ascii_uppercase(),
            13 => { let mut c = t.chars(); c.next().map(|x| x.to_ascii_uppercase()).into_iter().chain(c).collect() }
            14 | 15 => t.chars().map(|c| if self.below(2) == 1 { if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } else { c }).collect(),
            _ => t.into(),
        }
    }
}
