//! Case generation, budget, and failure recording for the replay harness.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// the case being evaluated, for the watchdog
pub static CURRENT: Mutex<Option<(String, Instant)>> = Mutex::new(None);

/// A case that does not finish, or eats all memory, is a failure with its input in hand.
pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let rss = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<usize>().ok()))
            .unwrap_or(0)
            * 4096;
        let cur = CURRENT.lock().map(|c| c.clone()).unwrap_or(None);
        if let Some((d, t)) = cur {
            let e = if t.elapsed() > limit {
                format!("did not finish within {} s", limit.as_secs())
            } else if rss > 8 << 30 {
                "did not finish within 8 GB of memory".to_string()
            } else {
                continue;
            };
            println!(
                "{{\"evaluations\": 1, \"distinct\": 1, \"distinct_nontrivial\": 1, \"rounds\": 0, \"samples\": [], \"skipped\": {{}}, \"hooks\": {}, \"fails\": [{{\"input\": {}, \"failure\": {}}}]}}",
                cfg!(komunikilo_verif),
                crate::js(&d),
                crate::js(&e)
            );
            std::process::exit(0);
        }
    });
}

pub struct Cx {
    pub state: u64,
    pub thorough: bool,
    pub deep: bool,
    pub hints: Vec<BTreeMap<String, f64>>,
    pub consts: Vec<u64>,
    /// large constants of the code (lengths around them are tried where they are cheap)
    pub bigs: Vec<u64>,
    /// the last value drawn under each name: drawing it again meets state kept between calls
    pub last_int: BTreeMap<String, usize>,
    pub last_real: BTreeMap<String, f64>,
    pub fconsts: Vec<f64>,
    pub round: usize,
    pub evals: usize,
    pub distinct: HashSet<u64>,
    pub nontrivial: usize,
    pub samples: Vec<String>,
    pub fails: Vec<(String, String)>,
    pub skipped: BTreeMap<String, usize>,
    pub budget: Duration,
    pub start: Instant,
}

impl Cx {
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn bool(&mut self) -> bool {
        self.next() & (1 << 40) != 0
    }
    fn hint(&self, name: &str) -> Option<f64> {
        self.hints.get(self.round).and_then(|h| h.get(name)).copied()
    }
    /// integer in lo..=hi (biased to small values), sometimes a constant of the code under test up to cap
    pub fn intc(&mut self, name: &str, lo: usize, hi: usize, cap: usize) -> usize {
        if self.chance(0.12) {
            if let Some(&v) = self.last_int.get(name) {
                if v >= lo && v <= cap {
                    return v;
                }
            }
        }
        let v = self.intc_fresh(name, lo, hi, cap);
        self.last_int.insert(name.to_string(), v);
        v
    }
    fn intc_fresh(&mut self, name: &str, lo: usize, hi: usize, cap: usize) -> usize {
        if let Some(v) = self.hint(name) {
            if v >= lo as f64 && v <= cap as f64 {
                return v as usize;
            }
        }
        if !self.consts.is_empty() && self.chance(0.2) {
            let ix = self.below(self.consts.len());
            let c = self.consts[ix];
            let c = (c + self.below(3) as u64).saturating_sub(1) as usize;
            if c >= lo && c <= cap {
                return c;
            }
        }
        if self.chance(0.4) {
            return lo + self.below((hi - lo + 1).min(5));
        }
        if cap > hi && self.chance(0.03) {
            // now and then far beyond the usual range
            let u = self.below(1000) as f64 / 1000.0;
            return ((hi.max(1) as f64) * (cap as f64 / hi.max(1) as f64).powf(u)) as usize;
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn int(&mut self, name: &str, lo: usize, hi: usize) -> usize {
        self.intc(name, lo, hi, hi)
    }
    /// a length: usually small, sometimes large; in deep runs also sizes around the constants of the code
    pub fn size(&mut self, name: &str, lo: usize, small: usize, big: usize) -> usize {
        if self.deep && !self.consts.is_empty() && self.chance(0.15) {
            let ix = self.below(self.consts.len());
            let c = self.consts[ix] as usize;
            let n = c * (1 + self.below(2)) + self.below(40);
            if n >= lo && n <= 200_000 {
                return n;
            }
        }
        if self.chance(0.04) && self.round > 3 {
            return small + self.below(big.saturating_sub(small) + 1);
        }
        self.intc(name, lo, small, big)
    }
    pub fn real(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        if self.chance(0.2) {
            if let Some(&v) = self.last_real.get(name) {
                if v >= lo && v <= hi {
                    return v;
                }
            }
        }
        let v = self.real_fresh(name, lo, hi);
        self.last_real.insert(name.to_string(), v);
        v
    }
    /// a large length: beyond 2^16, beyond 2^20 or around a large constant of the code, at most cap
    pub fn large(&mut self, cap: usize) -> usize {
        let k = self.below(2 + self.bigs.len());
        let n = match k {
            0 => 65_536 + 1 + self.below(5000),
            1 => (1 << 20) + 1 + self.below(5000),
            k => self.bigs[k - 2] as usize + 1 + self.below(50),
        };
        if n <= cap {
            n
        } else {
            cap.min(65_536 + 1 + self.below(5000))
        }
    }
    /// is this a round that should try a large length? (few of them; more when the proof is incomplete)
    pub fn large_round(&mut self) -> bool {
        self.round == 12 || self.round == 30 || (self.round > 30 && self.chance(if self.deep { 0.03 } else { 0.003 }))
    }
    fn real_fresh(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        if let Some(v) = self.hint(name) {
            if v >= lo && v <= hi {
                return v;
            }
        }
        match self.below(12) {
            0 => lo,
            1 => hi,
            2 => (lo + hi) / 2.0,
            3 | 4 => {
                let v = lo + (hi - lo) * self.unit();
                if v.floor() >= lo { v.floor() } else { v }
            }
            5 if !self.fconsts.is_empty() => {
                let ix = self.below(self.fconsts.len());
                let c = self.fconsts[ix];
                if c >= lo && c <= hi { c } else { lo + (hi - lo) * self.unit() }
            }
            6 => lo + (hi - lo) * (self.below(8) as f64) / 8.0,
            _ => lo + (hi - lo) * self.unit(),
        }
    }
    pub fn bits(&mut self, n: usize) -> Vec<bool> {
        match self.below(8) {
            0 => vec![true; n],
            1 => vec![false; n],
            2 => (0..n).map(|i| i % 2 == 0).collect(),
            3 => (0..n).map(|i| i + 1 == n).collect(),
            _ => (0..n).map(|_| self.bool()).collect(),
        }
    }
    pub fn reals(&mut self, n: usize) -> Vec<f64> {
        match self.below(8) {
            0 => (0..n).map(|i| if i % 3 == 1 { -0.0 } else { 0.0 }).collect(),
            1 => (0..n).map(|i| i as f64 + 1.0).collect(),
            2 => (0..n).map(|_| self.below(7) as f64 - 3.0).collect(),
            3 => (0..n).map(|_| [0.0, -0.0, 1.0, -1.0, 1e-9, -1e-9][self.below(6)]).collect(),
            _ => (0..n).map(|_| self.unit() * 4.0 - 2.0).collect(),
        }
    }
    pub fn cplx(&mut self, n: usize) -> Vec<num_complex::Complex<f64>> {
        let a = self.reals(n);
        let b = self.reals(n);
        a.into_iter().zip(b).map(|(x, y)| num_complex::Complex::new(x, y)).collect()
    }
    pub fn skip(&mut self, what: &str) {
        *self.skipped.entry(what.to_string()).or_default() += 1;
    }
    pub fn over(&self) -> bool {
        self.start.elapsed() > self.budget || self.fails.len() >= 3
    }
    /// One evaluation of the property on the code under test.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, desc: String, nontrivial: bool, f: F) {
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        desc.hash(&mut h);
        if self.distinct.insert(h.finish()) && nontrivial {
            self.nontrivial += 1;
            if self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 50 == 0) {
                self.samples.push(clip(&desc));
            }
        }
        if let Ok(p) = std::env::var("KV_TRACE") {
            let _ = std::fs::write(p, clip(&desc));
        }
        *CURRENT.lock().unwrap() = Some((clip(&desc), Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *CURRENT.lock().unwrap() = None;
        let e = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                format!("panicked: {m}")
            }
        };
        if self.fails.len() < 5 {
            self.fails.push((desc, e));
        }
    }
}

pub fn clip(s: &str) -> String {
    if s.len() > 400 {
        let mut k = 400;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} chars)", &s[..k], s.len())
    } else {
        s.to_string()
    }
}

pub fn bs(b: &[bool]) -> String {
    b.iter().map(|&x| if x { '1' } else { '0' }).collect()
}

/// does f panic?
pub fn panics<F: FnOnce() -> R, R>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} elements, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        if got[i] != want[i] {
            return Err(format!("{what}[{i}] = {:?}, expected {:?}", got[i], want[i]));
        }
    }
    Ok(())
}

pub const TOL: f64 = 1e-6;

pub fn close(what: &str, got: &[f64], want: &[f64]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} samples, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        let t = TOL * (1.0 + want[i].abs());
        if !((got[i] - want[i]).abs() <= t) {
            return Err(format!("{what}[{i}] = {:?}, expected {:?}", got[i], want[i]));
        }
    }
    Ok(())
}

pub fn closec(what: &str, got: &[num_complex::Complex<f64>], want: &[num_complex::Complex<f64>]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} samples, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        let t = TOL * (1.0 + want[i].norm());
        if !((got[i] - want[i]).norm() <= t) {
            return Err(format!("{what}[{i}] = {:?}, expected {:?}", got[i], want[i]));
        }
    }
    Ok(())
}

pub fn near(what: &str, got: f64, want: f64) -> Result<(), String> {
    close(what, &[got], &[want])
}

/// every way of consuming an iterator agrees with its elements taken one by one
pub fn agree<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T>, F: Fn() -> I>(what: &str, mk: F, ks: [usize; 3]) -> Result<(), String> {
    let mut v = vec![];
    let mut it = mk();
    while let Some(x) = it.next() {
        v.push(x);
    }
    drop(it);
    let n = v.len();
    let bad = |m: &str| Err(format!("{what}: {m} disagrees with its {n} elements taken one by one"));
    if mk().count() != n {
        return bad("count()");
    }
    if mk().last().as_ref() != v.last() {
        return bad("last()");
    }
    if mk().collect::<Vec<_>>() != v {
        return bad("collect()");
    }
    if mk().fold(vec![], |mut a, x| { a.push(x); a }) != v {
        return bad("fold()");
    }
    let mut w = vec![];
    mk().for_each(|x| w.push(x));
    if w != v {
        return bad("for_each()");
    }
    let (lo, hi) = mk().size_hint();
    if lo > n || hi.map_or(false, |h| h < n) {
        return bad(&format!("size_hint() = {:?}", (lo, hi)));
    }
    for k in ks {
        for pre in [0, 1, k / 2] {
            let mut it = mk();
            for _ in 0..pre {
                it.next();
            }
            let mut p = pre;
            for step in [k, 0, 1, k % 5] {
                let x = it.nth(step);
                if x.as_ref() != v.get(p + step) {
                    return bad(&format!("nth({step}) from position {p}"));
                }
                if x.is_none() {
                    break;
                }
                p += step + 1;
            }
        }
        if !mk().skip(k).collect::<Vec<_>>().iter().eq(v.iter().skip(k)) {
            return bad(&format!("skip({k})"));
        }
        if !mk().step_by(k + 1).collect::<Vec<_>>().iter().eq(v.iter().step_by(k + 1)) {
            return bad(&format!("step_by({})", k + 1));
        }
        let mut it = mk();
        let a: Vec<T> = it.by_ref().take(k).collect();
        let b: Vec<T> = it.collect();
        if a.len() != k.min(n) || a.iter().chain(b.iter()).ne(v.iter()) {
            return bad(&format!("by_ref().take({k}) and the rest"));
        }
        let mut it = mk();
        let mut i = 0;
        let found = it.any(|_| { i += 1; i > k });
        if found != (n > k) || (found && it.next().as_ref() != v.get(k + 1)) {
            return bad(&format!("any() stopping at {k}"));
        }
    }
    Ok(())
}
