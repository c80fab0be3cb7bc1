//! Callbacks of the driven recogniser: a user callback may be made to panic at its n-th call.
#![allow(dead_code)]
use serde::{Deserialize, Serialize};
use std::cell::Cell;

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD1B54A32D192ED03))
}
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = mix(self.0);
        self.0
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { (self.next() >> 11) as usize % n }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cb {
    CharLa = 0,
    CharConsume,
    CharOther,
    TokSource,
    TokLt,
    TokConsume,
    TokOther,
    Factory,
    Sempred,
    Action,
    ErrListener,
    AmbigListener,
    ParseListener,
    Strategy,
    Rule,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PanicAt {
    pub cb: Cb,
    pub n: u32,
}
thread_local! {
    static AT: Cell<Option<(Cb, u32)>> = Cell::new(None);
    static SPIN: Cell<u32> = Cell::new(0);
}
pub fn arm(p: Option<&PanicAt>) {
    AT.with(|a| a.set(p.map(|p| (p.cb, p.n))))
}
/// callbacks of this thread take a little time (for runs with several threads)
pub fn spin(n: u32) {
    SPIN.with(|s| s.set(n))
}
pub fn callback(cb: Cb) {
    let n = SPIN.with(|s| s.get());
    if n > 0 {
        for _ in 0..n {
            std::hint::spin_loop();
        }
        std::thread::yield_now();
    }
    AT.with(|a| {
        if let Some((c, n)) = a.get() {
            if c == cb {
                a.set(if n <= 1 { None } else { Some((c, n - 1)) });
                if n <= 1 {
                    std::panic::panic_any("thrown by the user callback");
                }
            }
        }
    })
}
