//! Concrete counterexample search: runs the real crate on edge-case and random inputs and compares
//! with the protocol's definitions in `oracle`.  `replay PROPERTY SEED SECONDS`.
#![allow(clippy::type_complexity)]
mod oracle;
mod cases;
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct H {
    pub prop: String,
    pub rng: ChaCha20Rng,
    pub end: Instant,
    pub cases: u64,
    pub groups: Vec<(String, u64)>,
    pub fails: u64,
    pub samples: u64,
}

impl H {
    pub fn on(&self, prop: &str) -> bool {
        self.prop == prop
    }
    pub fn any(&self, props: &[&str]) -> bool {
        props.iter().any(|p| self.on(p))
    }
    pub fn more(&self) -> bool {
        Instant::now() < self.end && self.fails < 5
    }
    /// One comparison that belongs to `prop`.
    pub fn check(&mut self, prop: &str, group: &str, ok: bool, desc: impl FnOnce() -> String) {
        if !self.on(prop) {
            return;
        }
        self.cases += 1;
        match self.groups.iter_mut().find(|g| g.0 == group) {
            Some(g) => g.1 += 1,
            None => {
                self.groups.push((group.to_string(), 1));
            }
        }
        let first = self.groups.iter().any(|g| g.0 == group && g.1 == 1);
        if !ok {
            self.fails += 1;
            println!("FAIL {} {}: {}", prop, group, desc());
        } else if first && self.samples < 6 {
            self.samples += 1;
            println!("SAMPLE {}: {}", group, desc());
        }
    }
    /// Runs code under test that must not panic; a panic is a failure of `props`.
    pub fn run<T>(&mut self, props: &[&str], group: &str, desc: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(t) => Some(t),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                for p in props {
                    let m = m.clone();
                    self.check(p, group, false, || format!("panicked ({}) on {}", m, desc()));
                }
                None
            }
        }
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0; N];
        self.rng.fill_bytes(&mut b);
        b
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.rng.next_u64() % n
    }
    /// A number with the interesting ones over-represented.
    pub fn v64(&mut self) -> u64 {
        let edge = [0, 1, 2, 255, 256, 1 << 31, u32::MAX as u64, 1 << 32, (1 << 62) - 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX];
        match self.below(3) {
            0 => edge[self.below(edge.len() as u64) as usize],
            1 => self.rng.next_u64() >> self.below(64),
            _ => self.rng.next_u64(),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(30);
    std::panic::set_hook(Box::new(|_| {}));
    let mut h = H { prop, rng: ChaCha20Rng::seed_from_u64(seed), end: Instant::now() + Duration::from_secs(secs), cases: 0, groups: vec![], fails: 0, samples: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| cases::all(&mut h)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("harness stopped: {m}");
        if h.fails == 0 {
            std::process::exit(3);
        }
    }
    for (g, n) in &h.groups {
        println!("GROUP {g} {n}");
    }
    println!("CASES {}", h.cases);
    std::process::exit(if h.fails > 0 { 1 } else { 0 });
}
