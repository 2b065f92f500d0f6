//! Case bookkeeping: every oracle runs through `Ctx::case`.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(v.len());
        &v[i]
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
        if self.coin() { Some(f(self)) } else { None }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
    /// numbers biased to borders
    pub fn num64(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => { let s = self.below(64); 1u64 << s }
            2 => { let s = self.below(64); (1u64 << s).wrapping_sub(1) }
            3 => { let s = self.below(64); u64::MAX >> s }
            4 => self.below(256),
            5 => u64::MAX - self.below(3),
            _ => { let s = self.below(64); self.next() >> s }
        }
    }
    pub fn num32(&mut self) -> u32 {
        match self.below(8) {
            0 => self.below(4) as u32,
            1 => 1u32 << self.below(32),
            2 => (1u32 << self.below(32)).wrapping_sub(1),
            3 => u32::MAX - self.below(3) as u32,
            4 => self.below(256) as u32,
            5 => 0x8000_0000u32.wrapping_add(self.below(5) as u32).wrapping_sub(2),
            _ => (self.next() as u32) >> self.below(32),
        }
    }
}

pub struct Failure {
    pub case: String,
    pub detail: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub current: Option<std::path::PathBuf>,
    pub kinds: std::collections::BTreeMap<String, u64>,
    pub deadline: std::time::Instant,
}

impl Ctx {
    pub fn n(&self, quick: u64) -> u64 {
        if self.thorough { quick * 20 } else { quick }
    }
    pub fn stop(&self) -> bool {
        self.failures.len() >= 3 || std::time::Instant::now() > self.deadline
    }
    /// Runs one case. `key` identifies it (for the distinct count) and is what replay shows.
    /// A panic counts as a failure.
    pub fn case(&mut self, kind: &str, nontrivial: bool, key: &str, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        *self.kinds.entry(kind.to_string()).or_insert(0) += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        kind.hash(&mut h);
        key.hash(&mut h);
        if nontrivial {
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 3 || (self.samples.len() < 6 && self.rng.chance(1, 500)) {
            let mut s: String = format!("{kind}: {key}");
            if s.len() > 400 {
                let mut e = 400;
                while !s.is_char_boundary(e) { e -= 1; }
                s.truncate(e);
            }
            self.samples.push(s);
        }
        if let Some(p) = &self.current {
            let _ = std::fs::write(p, format!("{kind}: {key}\n"));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Some(format!("the code panicked: {m}"))
            }
        };
        if let Some(m) = msg {
            if self.failures.len() < 3 {
                self.failures.push(Failure { case: format!("{kind}: {key}"), detail: m });
            }
        }
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(got: &T, want: &T, what: &str) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: observed {got:?}, the property requires {want:?}")) }
}
pub fn ensure(b: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if b { Ok(()) } else { Err(what()) }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
