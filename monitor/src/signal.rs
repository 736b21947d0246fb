//! Workload signals: realistic, hostile and degenerate.

use crate::rng::Rng;
use crate::sample::Sample;

/// A finite signal of length n with amplitude about `amp`.
pub fn signal<T: Sample>(r: &mut Rng, n: usize, amp: f64) -> Vec<T> {
    let kind = r.below(12);
    let a = amp;
    let w = r.uni(0.0, std::f64::consts::PI);
    let ph = r.uni(0.0, 6.3);
    let k0 = r.below(n.max(1));
    let p = r.uni(0.01, 0.5);
    let period = r.range(1, 40);
    (0..n)
        .map(|i| {
            let x = match kind {
                0 | 1 | 2 => a * r.uni(-1.0, 1.0),
                3 => if i == 0 { a } else { 0.0 },
                4 => if i >= k0 { a } else { 0.0 },
                5 => a * (w * i as f64 + ph).sin(),
                6 => if r.chance(p) { a * r.uni(-1.0, 1.0) } else { 0.0 },
                7 => if i % 2 == 0 { a } else { -a },
                8 => a * (i as f64 / n as f64),
                9 => if (i / period) % 2 == 0 { a * r.uni(0.5, 1.0) } else { a * r.uni(-1e-3, 1e-3) },
                // every sample different and identifiable
                10 => a * ((i + 1) as f64 / 4096.0),
                _ => a * r.uni(-1.0, 1.0) * 2f64.powi(r.irange(-20, 0) as i32),
            };
            T::of(x)
        })
        .collect()
}

/// What a processor may be given for minutes: noise, and signals that stay the
/// same or repeat for very long.
pub struct Drone {
    kind: usize,
    a: f64,
    w: f64,
    period: u64,
    hold: f64,
}
impl Drone {
    pub fn new(r: &mut Rng, amp: f64) -> Drone {
        let period = if r.chance(0.5) { r.range(2, 300) } else { r.range(300, 30_000) } as u64;
        Drone { kind: r.below(9), a: amp * r.uni(0.2, 1.0), w: r.uni(0.0, 3.1), period, hold: 0.0 }
    }
    pub fn name(&self) -> String {
        let n = ["noise with pauses", "noise", "a constant", "an alternating constant", "impulses", "a sine", "a burst, then silence", "plateaus", "a burst, then a constant"][self.kind];
        format!("{} of {:.3} (period {})", n, self.a, self.period)
    }
    pub fn at(&mut self, r: &mut Rng, i: u64) -> f64 {
        match self.kind {
            0 => if i % 50_000 > 40_000 { 0.0 } else { self.a * r.uni(-1.0, 1.0) },
            1 => self.a * r.uni(-1.0, 1.0),
            2 => self.a,
            3 => if i % 2 == 0 { self.a } else { -self.a },
            4 => if i % self.period == 0 { self.a } else { 0.0 },
            5 => self.a * (self.w * (i % 1_000_003) as f64).sin(),
            6 => if i < 50 { self.a * r.uni(-1.0, 1.0) } else { 0.0 },
            7 => {
                if i % self.period == 0 {
                    self.hold = self.a * r.uni(-1.0, 1.0);
                }
                self.hold
            }
            _ => if i < 50 { self.a * r.uni(-1.0, 1.0) } else { self.a },
        }
    }
}

/// Amplitude choice: mostly ordinary audio levels, often extreme ones.
pub fn amplitude<T: Sample>(r: &mut Rng, lo: i64, hi: i64) -> f64 {
    match r.below(4) {
        0 => 1.0,
        1 => r.logu(1e-4, 10.0),
        _ => (r.irange(lo, hi) as f64).exp2(),
    }
}

/// One value that may be anything a float can be.
pub fn hostile<T: Sample>(r: &mut Rng) -> T {
    match r.below(14) {
        0 => T::nan(),
        1 => T::infinity(),
        2 => T::neg_infinity(),
        3 => T::of(-0.0),
        4 => T::zero(),
        5 => T::of(T::TINY),
        6 => T::of(-T::TINY * 3.0),
        7 => T::of(T::MAX),
        8 => T::of(-T::MAX),
        9 => T::of(1e-30),
        _ => T::of(r.uni(-2.0, 2.0)),
    }
}
