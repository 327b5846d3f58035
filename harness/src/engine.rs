//! A small property based testing engine: every random decision of a case is
//! one bounded integer drawn from `Src`. A case is therefore a list of
//! integers, which is what is shrunk, written to replay files and run again.
use std::collections::BTreeMap;

pub type Res = Result<(), String>;

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub index: u64,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

impl Src {
    pub fn random(seed: u64, name: &str, index: u64) -> Src {
        let mut s = seed ^ hash_bytes(name.as_bytes()).rotate_left(17);
        let a = splitmix(&mut s);
        let mut t = a ^ index.wrapping_mul(0xD6E8FEB86659FD93);
        splitmix(&mut t);
        Src { state: t, replay: None, pos: 0, rec: vec![], index }
    }
    pub fn replay(choices: &[u64], index: u64) -> Src {
        Src { state: 0, replay: Some(choices.to_vec()), pos: 0, rec: vec![], index }
    }
    /// A number in 0..n. Smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => ((splitmix(&mut self.state) as u128 * n as u128) >> 64) as u64,
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn u(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as i64, hi as i64) as u32
    }
    /// true in about num of den cases, false is simpler
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn one<T: Copy>(&mut self, v: &[T]) -> T {
        let i = self.n(v.len());
        v[i]
    }
    /// index into weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// bytes with a bias towards boundaries
    pub fn bbyte(&mut self) -> u8 {
        match self.below(4) {
            0 => self.below(9) as u8,
            1 => self.one(&[48u8, 49, 50, 51, 52, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255]),
            _ => self.byte(),
        }
    }
    /// length with small values likely
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.below(4) {
            0 => self.n(max.min(3) + 1),
            1 | 2 => self.n(max.min(12) + 1),
            _ => self.n(max + 1),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub desc: String,
    pub key: Option<u64>,
    pub want_desc: bool,
    pub job: Vec<u8>,
}

impl Obs {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    /// The bytes that were sent to the system under test
    pub fn job(&mut self, job: &[u8]) {
        let h = hash_bytes(job);
        self.key = Some(match self.key {
            None => h,
            Some(k) => k.rotate_left(7) ^ h,
        });
        if self.want_desc {
            self.job = job.to_vec();
        }
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc.push_str(&f());
            self.desc.push('\n');
        }
    }
}

pub type CheckFn<E> = fn(&mut E, &mut Src, &mut Obs) -> Res;

pub struct Sub<E> {
    pub name: &'static str,
    pub f: CheckFn<E>,
    pub quick: u64,
    pub thorough: u64,
    /// cases are numbered and enumerate a finite space completely
    pub exhaustive: bool,
}

pub struct Prop<E> {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub<E>>,
}

pub fn run_case<E>(env: &mut E, f: CheckFn<E>, src: &mut Src, obs: &mut Obs) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(env, src, obs)));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", crate::runner::take_panic())),
    }
}

/// Shrinks a failing list of choices. Every candidate that still fails is kept
/// when it is shorter or lexicographically smaller.
pub fn shrink<E>(env: &mut E, f: CheckFn<E>, index: u64, first: Vec<u64>, budget: usize) -> Vec<u64> {
    let mut best = first;
    let mut left = budget;
    let start = std::time::Instant::now();
    fn try_it<E>(
        env: &mut E, f: CheckFn<E>, index: u64, cand: &[u64], best: &mut Vec<u64>, left: &mut usize,
    ) -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        let mut src = Src::replay(cand, index);
        let mut obs = Obs::default();
        if run_case(env, f, &mut src, &mut obs).is_err() {
            let rec = src.rec;
            let better = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
            if better {
                *best = rec;
                return true;
            }
        }
        false
    }
    loop {
        let before = best.clone();
        // remove chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if left == 0 || start.elapsed().as_secs() > 40 {
                    return best;
                }
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                if !try_it(env, f, index, &cand, &mut best, &mut left) {
                    // the removed chunk may have been counted by an earlier length
                    if i > 0 && size <= 8 {
                        let mut cand = best.clone();
                        let end = (i + size).min(cand.len());
                        cand.drain(i..end);
                        let mut done = false;
                        for back in 1..=3usize {
                            if i >= back && cand[i - back] > 0 {
                                let mut c2 = cand.clone();
                                c2[i - back] -= 1;
                                if try_it(env, f, index, &c2, &mut best, &mut left) {
                                    done = true;
                                    break;
                                }
                            }
                        }
                        if !done {
                            i += size;
                        }
                    } else {
                        i += size;
                    }
                }
            }
            size /= 2;
        }
        // lower values
        for i in 0..best.len() {
            if left == 0 || start.elapsed().as_secs() > 40 {
                return best;
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut cand = best.clone();
            cand[i] = 0;
            if try_it(env, f, index, &cand, &mut best, &mut left) {
                continue;
            }
            let (mut lo, mut tries) = (0u64, 0);
            while i < best.len() && lo + 1 < best[i] && tries < 12 {
                tries += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !try_it(env, f, index, &cand, &mut best, &mut left) {
                    lo = mid;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut cand = best.clone();
                cand[i] -= 1;
                try_it(env, f, index, &cand, &mut best, &mut left);
            }
        }
        if best == before {
            return best;
        }
    }
}
