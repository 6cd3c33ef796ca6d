//! Running cases: numbered, reproducible, with panics caught.
use crate::gen::Rng;
use std::{panic, sync::atomic::{AtomicU64, Ordering}, time::{Duration, Instant}};

pub static TICK: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub stream: u64,
    pub until: Instant,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub trace: Option<String>,
    pub counts: Vec<(String, u64, u64, bool)>,
    pub sample: String,
    pub samples: Vec<(String, String)>,
}
pub struct Fail { pub oracle: String, pub index: u64, pub input: String, pub detail: String }
pub type R = Result<(), String>;

/// Interesting: whether the case got past trivial refusal (counted for the evidence).
pub struct Case { pub input: String, pub hit: bool }
impl Case { pub fn set(&mut self, s: String) { self.input = s } }

impl Ctx {
    pub fn rng(&self, oracle: &str, i: u64) -> Rng {
        let mut h = 0u64;
        for b in oracle.bytes() { h = h.wrapping_mul(131).wrapping_add(b as u64) }
        Rng::new(&[self.seed, self.stream, h, i])
    }
    pub fn one(&mut self, oracle: &str, i: u64, f: &mut dyn FnMut(&mut Rng, u64, &mut Case) -> R) -> Result<bool, Fail> {
        let mut r = self.rng(oracle, i);
        if let Some(p) = &self.trace { let _ = std::fs::write(p, format!("{} {}", oracle, i)); }
        let mut c = Case { input: String::new(), hit: false };
        TICK.fetch_add(1, Ordering::Relaxed);
        let res = panic::catch_unwind(panic::AssertUnwindSafe(|| f(&mut r, i, &mut c)));
        match res {
            Ok(Ok(())) => { if c.hit && c.input.len() < 300 && i % 5 == 3 { self.sample = c.input } Ok(c.hit) }
            Ok(Err(d)) => Err(Fail { oracle: oracle.into(), index: i, input: c.input, detail: d }),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(Fail { oracle: oracle.into(), index: i, input: c.input, detail: format!("panicked: {}", m) })
            }
        }
    }
    /// All of 0..n, shared between streams.
    pub fn all(&mut self, oracle: &str, n: u64, mut f: impl FnMut(&mut Rng, u64, &mut Case) -> R) -> Result<(), Fail> {
        self.run(oracle, Some(n), 0, &mut f)
    }
    /// Random cases for a share of the time left, at least a few hundred.
    pub fn random(&mut self, oracle: &str, share: f64, mut f: impl FnMut(&mut Rng, u64, &mut Case) -> R) -> Result<(), Fail> {
        let left = self.until.saturating_duration_since(Instant::now());
        self.run(oracle, None, (left.as_secs_f64() * share * 1000.0) as u64, &mut f)
    }
    fn run(&mut self, oracle: &str, n: Option<u64>, ms: u64, f: &mut dyn FnMut(&mut Rng, u64, &mut Case) -> R) -> Result<(), Fail> {
        if let Some((o, i)) = self.only.clone() {
            if o == oracle { self.one(oracle, i, f)?; }
            return Ok(());
        }
        let end = Instant::now() + Duration::from_millis(ms);
        let (mut i, mut hits, mut done) = (0u64, 0u64, 0u64);
        loop {
            match n { Some(n) if i >= n => break, _ => {} }
            if n.is_none() && i >= 300 && i % 16 == 0 && Instant::now() >= end { break }
            // Exhaustive sweeps are split between the streams.
            if n.is_none() || i % 4 == self.stream % 4 {
                if self.one(oracle, i, f)? { hits += 1 }
                done += 1;
            }
            i += 1;
        }
        let s = std::mem::take(&mut self.sample);
        if !s.is_empty() { self.samples.push((oracle.to_string(), s)) }
        self.counts.push((oracle.to_string(), done, hits, n.is_some()));
        Ok(())
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn short(s: String) -> String { if s.len() > 4000 { let mut i = 4000; while !s.is_char_boundary(i) { i -= 1 } format!("{}… ({} characters)", &s[..i], s.len()) } else { s } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } } }
