//! C15-C18: leaky integrator and envelope detectors, judged one step at a
//! time from the observed previous output.

use crate::mon::{rasp, Case, Res};
use crate::rng::Rng;
use crate::sample::{close, same, Sample};
use crate::signal::{signal, Drone};
use crate::{ensure, fail};
use rasp::analysis::{LeakyIntegrator, PeakEnvDetector, RmsEnvDetector};
use rasp::traits::Processor;

// ---------------------------------------------------------------- C15

fn alpha_candidate<T: Sample>(r: &mut Rng) -> T {
    match r.below(16) {
        0 => T::zero(),
        1 => T::of(-0.0),
        2 => T::one(),
        3 => T::one() - T::of(T::EPS / 2.0),
        4 => T::one() + T::of(T::EPS),
        5 => T::of(-T::TINY),
        6 => T::of(T::TINY),
        7 => T::nan(),
        8 => T::infinity(),
        9 => T::neg_infinity(),
        10 => T::of(r.uni(-2.0, 0.0)),
        11 => T::of(r.uni(1.0, 3.0)),
        12 => T::of(1.0 - r.logu(1e-7, 0.1)),
        13 => T::of(r.logu(1e-20, 0.1)),
        _ => T::of(r.uni(0.0, 1.0)),
    }
}

fn level<T: Sample>(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => 1.0,
        1 => T::MAX / 16.0,
        2 => (r.irange(T::SUB, T::LO) as f64).exp2(),
        _ => 2f64.powi(r.irange(T::LO, T::HI) as i32),
    }
}

fn leaky<T: Sample>(c: &mut Case) -> Res {
    let mut p = rasp(|| LeakyIntegrator::<T>::new());
    let mut alpha = T::zero();
    let mut prev = T::zero();
    ensure!(rasp(|| p.get_alpha()) == T::zero(), "new LeakyIntegrator<{}> has alpha {:?}", T::NAME, p.get_alpha());
    let amp = level::<T>(&mut c.rng);
    let n_ops = c.rng.range(4, 40) * c.depth;
    c.mix(amp.to_bits());
    for _ in 0..n_ops {
        match c.rng.below(8) {
            0 | 1 => {
                let a = alpha_candidate::<T>(&mut c.rng);
                c.note(|| format!("set_alpha({:?})", a));
                rasp(|| p.set_alpha(a));
                if a >= T::zero() && a < T::one() {
                    alpha = a;
                    c.seen("accepted gains", 1);
                } else {
                    c.seen("rejected gains", 1);
                }
                let g = rasp(|| p.get_alpha());
                ensure!(g == alpha, "LeakyIntegrator<{}>: after set_alpha({:?}) the gain reads {:?}, should be {:?}", T::NAME, a, g, alpha);
                let l = rasp(|| p.last_out());
                ensure!(same(l, prev), "LeakyIntegrator<{}>: set_alpha({:?}) changed the output from {:?} to {:?}", T::NAME, a, prev, l);
                c.mix(a.bits());
            }
            2 => {
                if c.rng.chance(0.2) {
                    rasp(|| p.clear());
                    prev = T::zero();
                    let g = rasp(|| p.get_alpha());
                    ensure!(g == alpha, "LeakyIntegrator<{}>: clear changed alpha from {:?} to {:?}", T::NAME, alpha, g);
                }
            }
            _ => {
                let n = c.rng.range(1, 40);
                let constant = c.rng.chance(0.3);
                let mut xs = signal::<T>(&mut c.rng, n, amp);
                if constant {
                    let v = T::of(amp * c.rng.uni(-1.0, 1.0));
                    for x in xs.iter_mut() {
                        *x = v;
                    }
                }
                let ys: Vec<T> = if c.rng.chance(0.3) {
                    let mut b = xs.clone();
                    rasp(|| p.process_block(&mut b));
                    b
                } else {
                    xs.iter().map(|x| rasp(|| p.process(*x))).collect()
                };
                let mut dist = f64::INFINITY;
                for (x, y) in xs.iter().zip(&ys) {
                    let (xf, yf, pf, af) = (x.f(), y.f(), prev.f(), alpha.f());
                    let m = xf.abs().max(pf.abs());
                    let tol = 6.0 * T::EPS * m + 4.0 * T::TINY;
                    let e = xf + af * (pf - xf);
                    ensure!(close(yf, e, tol), "LeakyIntegrator<{}>: alpha {:?}, previous output {:?}, input {:?}: got {:?}, should be {:e}", T::NAME, alpha, prev, x, y, e);
                    ensure!(yf >= xf.min(pf) - tol && yf <= xf.max(pf) + tol, "LeakyIntegrator<{}>: output {:?} leaves the range of previous output {:?} and input {:?}", T::NAME, y, prev, x);
                    if alpha == T::zero() {
                        ensure!(close(yf, xf, 2.0 * T::EPS * m), "LeakyIntegrator<{}>: alpha 0 turned {:?} into {:?}", T::NAME, x, y);
                    }
                    if constant {
                        // monotone approach, no overshoot
                        let d = (yf - xf).abs();
                        ensure!(d <= dist + tol, "LeakyIntegrator<{}>: distance to constant input grew from {:e} to {:e}", T::NAME, dist, d);
                        dist = d;
                    }
                    if (e - pf).abs() > 100.0 * tol {
                        c.nontrivial = true;
                    }
                    prev = *y;
                    c.seen("steps judged", 1);
                }
            }
        }
    }
    c.desc = format!("LeakyIntegrator<{}>, {} ops, amplitude {:e}, final alpha {:?}", T::NAME, n_ops, amp, alpha);
    Ok(())
}
pub fn c15_leaky(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { leaky::<f32>(c) } else { leaky::<f64>(c) }
}

/// Convergence to a constant.
pub fn c15_settle(c: &mut Case) -> Res {
    fn go<T: Sample>(c: &mut Case) -> Res {
        let mut p = rasp(|| LeakyIntegrator::<T>::new());
        let tc = c.rng.logu(0.5, 3000.0);
        let a = T::of((-1.0 / tc).exp());
        rasp(|| p.set_alpha(a));
        let v = T::of(c.rng.uni(-1.0, 1.0) * 2f64.powi(c.rng.irange(-30, 30) as i32));
        let n = (tc * 45.0) as usize + 20;
        let mut y = T::zero();
        for _ in 0..n {
            y = rasp(|| p.process(v));
        }
        // rounding stalls the approach within (eps / (1 - alpha))
        let tol = v.f().abs() * (4.0 * T::EPS / (1.0 - a.f()) + 1e-15);
        c.desc = format!("LeakyIntegrator<{}> alpha {:?}: {} samples of {:?}", T::NAME, a, n, v);
        c.mix(a.bits() ^ v.bits());
        ensure!(close(y.f(), v.f(), tol), "LeakyIntegrator<{}>: alpha {:?}: after {} samples of {:?} the output is {:?}", T::NAME, a, n, v, y);
        c.seen("settled runs judged", 1);
        c.nontrivial = v != T::zero();
        Ok(())
    }
    if c.rng.chance(0.5) { go::<f32>(c) } else { go::<f64>(c) }
}

// ---------------------------------------------------------------- C16-C18

/// Both detectors behind one interface.
pub trait Det<T: Sample>: Processor<T> {
    const SQUARE: bool;
    const NAME: &'static str;
    fn make() -> Self;
    fn attack(&mut self, n: T);
    fn release(&mut self, n: T);
    fn gains(&self) -> (T, T);
    /// What the detector averages, from an output (or input) magnitude.
    fn measure(v: f64) -> f64 {
        if Self::SQUARE { v * v } else { v.abs() }
    }
}
impl<T: Sample> Det<T> for PeakEnvDetector<T> {
    const SQUARE: bool = false;
    const NAME: &'static str = "PeakEnvDetector";
    fn make() -> Self {
        rasp(|| PeakEnvDetector::new())
    }
    fn attack(&mut self, n: T) {
        rasp(|| self.set_attack(n))
    }
    fn release(&mut self, n: T) {
        rasp(|| self.set_release(n))
    }
    fn gains(&self) -> (T, T) {
        rasp(|| (self.get_attack_gain(), self.get_release_gain()))
    }
}
impl<T: Sample> Det<T> for RmsEnvDetector<T> {
    const SQUARE: bool = true;
    const NAME: &'static str = "RmsEnvDetector";
    fn make() -> Self {
        rasp(|| RmsEnvDetector::new())
    }
    fn attack(&mut self, n: T) {
        rasp(|| self.set_attack(n))
    }
    fn release(&mut self, n: T) {
        rasp(|| self.set_release(n))
    }
    fn gains(&self) -> (T, T) {
        rasp(|| (self.get_attack_gain(), self.get_release_gain()))
    }
}

/// exp(-1/n) of a length as the sample type holds it.
fn gain_of<T: Sample>(n: T) -> f64 {
    (-1.0 / n.f()).exp()
}
fn gain_tol<T: Sample>(n: T) -> f64 {
    let g = gain_of(n);
    // rounding of -1/n, and of exp; a gain below the normal range may be zero
    // (1 / exp(1/n) overflows on the way)
    g * T::EPS * (4.0 + 2.0 / n.f()).min(1e12) + 4.0 * T::TINY / T::EPS
}

fn length<T: Sample>(r: &mut Rng) -> T {
    let v = match r.below(10) {
        0 => r.range(1, 10) as f64,
        1 => r.uni(0.05, 1.0),
        2 => r.logu(1e-4, 1.0),
        3 => r.logu(1e3, 1e6),
        5 if r.chance(0.3) => r.logu(1e5, if T::EPS < 1e-10 { 1e14 } else { 1e7 }),
        4 => r.pick(&[882.0, 8820.0, 441.0, 44100.0, 1.0, 0.5]),
        _ => r.logu(0.5, 3000.0),
    };
    T::of(v)
}

fn invalid<T: Sample>(r: &mut Rng) -> T {
    match r.below(8) {
        0 => T::zero(),
        1 => T::of(-0.0),
        2 => T::nan(),
        3 => T::infinity(),
        4 => T::neg_infinity(),
        5 => T::of(-T::TINY),
        6 => T::of(-r.logu(1e-6, 1e6)),
        _ => -T::one(),
    }
}

/// Levels whose measure (magnitude or square) stays in the normal range.
fn det_level<T: Sample>(r: &mut Rng, square: bool) -> f64 {
    let (lo, hi) = if square {
        (if T::EPS < 1e-10 { -480 } else { -58 }, if T::EPS < 1e-10 { 500 } else { 60 })
    } else {
        (T::LO, T::HI)
    };
    match r.below(5) {
        0 => 1.0,
        1 if !square => T::MAX / 1.01,
        2 => r.logu(1e-3, 2.0),
        3 if !square && r.chance(0.5) => (r.irange(T::SUB, T::LO) as f64).exp2(),
        _ => 2f64.powi(r.irange(lo, hi) as i32),
    }
}

fn envelope<T: Sample, D: Det<T>>(c: &mut Case) -> Res {
    let amp = det_level::<T>(&mut c.rng, D::SQUARE);
    let mut p = D::make();
    // twins: sign-flipped input, and input scaled by a power of two
    let mut ps = D::make();
    let mut pk = D::make();
    let kexp = if amp > 1.0 { -c.rng.irange(0, 20) } else { c.rng.irange(0, 20) };
    let ks = 2f64.powi(kexp as i32);
    let mut ag = 0.0f64;
    let mut rg = 0.0f64;
    let (mut at, mut rt) = (0.0f64, 0.0f64);
    let mut prev = T::zero();
    let n_ops = c.rng.range(5, 40) * c.depth;
    c.mix(amp.to_bits());
    let (mut ups, mut downs) = (0u64, 0u64);
    // set once the envelope came near the subnormal range, where scaling is no
    // longer exact and the twins may drift apart
    let mut coarse = false;
    for op in 0..n_ops {
        match c.rng.below(10) {
            0 | 1 => {
                let n = length::<T>(&mut c.rng);
                let up = c.rng.chance(0.5);
                c.note(|| format!("set {} {:?}", if up { "attack" } else { "release" }, n));
                if up {
                    p.attack(n);
                    ps.attack(n);
                    pk.attack(n);
                    ag = gain_of(n);
                    at = gain_tol(n);
                } else {
                    p.release(n);
                    ps.release(n);
                    pk.release(n);
                    rg = gain_of(n);
                    rt = gain_tol(n);
                }
                c.mix(n.bits());
            }
            2 if c.rng.chance(0.15) => {
                rasp(|| p.clear());
                rasp(|| ps.clear());
                rasp(|| pk.clear());
                prev = T::zero();
                coarse = false;
            }
            _ => {
                let n = if c.rng.chance(0.1) { c.rng.range(50, 500) } else { c.rng.range(1, 30) };
                let scale = if c.rng.chance(0.3) { c.rng.pick(&[0.0, 0.25, 1e-3]) } else { 1.0 };
                let xs = signal::<T>(&mut c.rng, n, amp * scale);
                for x in &xs {
                    let y = rasp(|| p.process(*x));
                    let (xm, pm, ym) = (D::measure(x.f()), D::measure(prev.f()), D::measure(y.f()));
                    let m = xm.max(pm);
                    if D::SQUARE && !(xm <= T::MAX && (xm == 0.0 || xm >= T::TINY * 1e10)) {
                        // squares outside the representable range: not judged,
                        // and nothing that follows either until a clear
                        rasp(|| p.clear());
                        rasp(|| ps.clear());
                        rasp(|| pk.clear());
                        prev = T::zero();
                        coarse = false;
                        continue;
                    }
                    ensure!(y >= T::zero(), "{}<{}>: output {:?} for input {:?} after {:?}", D::NAME, T::NAME, y, x, prev);
                    let base = 16.0 * T::EPS * m + 16.0 * T::TINY;
                    let eu = xm + ag * (pm - xm);
                    let ed = xm + rg * (pm - xm);
                    let diff = (pm - xm).abs();
                    let near = diff <= 8.0 * T::EPS * m + 8.0 * T::TINY;
                    let okay = if near {
                        close(ym, eu, base + at * diff) || close(ym, ed, base + rt * diff)
                    } else if xm > pm {
                        ups += 1;
                        close(ym, eu, base + at * diff)
                    } else {
                        downs += 1;
                        close(ym, ed, base + rt * diff)
                    };
                    if !okay {
                        fail!(
                            "{}<{}>: op {}: input {:?}, previous output {:?}, attack gain {:e}, release gain {:e}: got {:?}, {} should become {:e}, is {:e}",
                            D::NAME, T::NAME, op, x, prev, ag, rg, y,
                            if D::SQUARE { "its square" } else { "it" },
                            if xm > pm { eu } else { ed }, ym
                        );
                    }
                    ensure!(
                        ym >= xm.min(pm) - base && ym <= m + base,
                        "{}<{}>: output {:?} leaves the range between the previous output {:?} and |{:?}|", D::NAME, T::NAME, y, prev, x
                    );
                    // sign
                    let ysn = rasp(|| ps.process(-*x));
                    ensure!(close(D::measure(ysn.f()), ym, base), "{}<{}>: input {:?} gives {:?}, its negation {:?}", D::NAME, T::NAME, x, y, ysn);
                    // level
                    let yk = rasp(|| pk.process(T::of(x.f() * ks)));
                    let kk = D::measure(ks);
                    coarse |= ym.min(D::measure(yk.f())) < 1e8 * T::TINY / T::EPS && m > 0.0;
                    ensure!(
                        coarse || close(D::measure(yk.f()), ym * kk, base * kk + 1e4 * T::TINY),
                        "{}<{}>: input {:?} gives {:?}, scaled by {} gives {:?}", D::NAME, T::NAME, x, y, ks, yk
                    );
                    if (ag == 0.0 && xm > pm) || (rg == 0.0 && xm <= pm) {
                        ensure!(close(ym, xm, base), "{}<{}>: direction never set, yet {:?} gives {:?}", D::NAME, T::NAME, x, y);
                        c.seen("steps judged with an unset direction", 1);
                    }
                    if diff > 1e3 * base {
                        c.nontrivial = true;
                    }
                    prev = y;
                    c.seen("steps judged", 1);
                }
                let l = rasp(|| p.last_out());
                ensure!(same(l, prev), "{}<{}>: last output {:?}, should be {:?}", D::NAME, T::NAME, l, prev);
            }
        }
    }
    c.seen("attack steps", ups);
    c.seen("release steps", downs);
    c.desc = format!("{}<{}>, {} ops, amplitude {:e}, final gains {:e} / {:e}, twins negated and scaled by {}", D::NAME, T::NAME, n_ops, amp, ag, rg, ks);
    Ok(())
}
pub fn c16_peak(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { envelope::<f32, PeakEnvDetector<f32>>(c) } else { envelope::<f64, PeakEnvDetector<f64>>(c) }
}
pub fn c17_rms(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { envelope::<f32, RmsEnvDetector<f32>>(c) } else { envelope::<f64, RmsEnvDetector<f64>>(c) }
}

/// Constant-magnitude signal: the envelope settles at that magnitude.
fn settle<T: Sample, D: Det<T>>(c: &mut Case) -> Res {
    let mut p = D::make();
    let (na, nr) = (T::of(c.rng.logu(0.5, 400.0)), T::of(c.rng.logu(0.5, 400.0)));
    p.attack(na);
    p.release(nr);
    let v = det_level::<T>(&mut c.rng, D::SQUARE).min(T::MAX / 4.0) * c.rng.uni(0.3, 1.0);
    let v = T::of(v);
    // come from above or from below
    let start = c.rng.pick(&[0.0, 0.1, 0.5]);
    let start = T::of(if D::SQUARE && v.f() * v.f() > T::MAX / 100.0 { 0.0 } else { v.f() * start });
    for _ in 0..50 {
        rasp(|| p.process(start));
    }
    let n = (na.f().max(nr.f()) * 50.0) as usize + 50;
    let mut y = T::zero();
    for _ in 0..n {
        let x = if c.rng.chance(0.5) { v } else { -v };
        y = rasp(|| p.process(x));
        ensure!(y.f() <= v.f() * (1.0 + 16.0 * T::EPS) + 16.0 * T::TINY, "{}<{}>: constant magnitude {:?} overshot to {:?}", D::NAME, T::NAME, v, y);
    }
    let slow = 1.0 + na.f().max(nr.f());
    let tol = v.f() * (6.0 * T::EPS * slow) + if D::SQUARE { 0.0 } else { 6.0 * T::TINY * slow };
    c.desc = format!("{}<{}> attack {:?} release {:?}: {} samples of +-{:?} from {:?}", D::NAME, T::NAME, na, nr, n, v, start);
    c.mix(na.bits() ^ nr.bits().rotate_left(20) ^ v.bits().rotate_left(40));
    ensure!(close(y.f(), v.f(), tol), "{}<{}>: attack {:?}, release {:?}: after {} samples of magnitude {:?} the output is {:?}", D::NAME, T::NAME, na, nr, n, v, y);
    c.seen("settled runs judged", 1);
    c.seen("steps judged", n as u64);
    c.nontrivial = true;
    Ok(())
}
pub fn c17_settle(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { settle::<f32, RmsEnvDetector<f32>>(c) } else { settle::<f64, RmsEnvDetector<f64>>(c) }
}
pub fn c16_settle(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { settle::<f32, PeakEnvDetector<f32>>(c) } else { settle::<f64, PeakEnvDetector<f64>>(c) }
}

/// C18: the gains, their independence, what invalid lengths leave alone.
fn lengths<T: Sample, D: Det<T>>(c: &mut Case) -> Res {
    let mut p = D::make();
    ensure!(p.gains() == (T::zero(), T::zero()), "new {}<{}> has gains {:?}", D::NAME, T::NAME, p.gains());
    let mut want = (T::zero(), T::zero());
    let n_ops = c.rng.range(4, 40) * c.depth;
    let mut last = T::zero();
    for _ in 0..n_ops {
        if c.rng.chance(0.4) {
            last = rasp(|| p.process(T::of(c.rng.uni(-1.0, 1.0))));
            ensure!(p.gains() == want, "{}<{}>: gains changed from {:?} to {:?} while processing", D::NAME, T::NAME, want, p.gains());
            continue;
        }
        let up = c.rng.chance(0.5);
        let bad = c.rng.chance(0.35);
        let n = if bad {
            invalid::<T>(&mut c.rng)
        } else if c.rng.chance(0.1) {
            T::of(c.rng.pick(&[T::TINY, T::MAX, 1e-30, 1e30, T::EPS]))
        } else {
            length::<T>(&mut c.rng)
        };
        c.note(|| format!("{} {:?}", if up { "attack" } else { "release" }, n));
        c.mix(n.bits());
        if up {
            p.attack(n);
        } else {
            p.release(n);
        }
        let got = p.gains();
        let (mine, other, wm, wo) = if up { (got.0, got.1, want.0, want.1) } else { (got.1, got.0, want.1, want.0) };
        let which = if up { "attack" } else { "release" };
        ensure!(other == wo, "{}<{}>: setting {} to {:?} changed the other gain from {:?} to {:?}", D::NAME, T::NAME, which, n, wo, other);
        if bad {
            ensure!(mine == wm, "{}<{}>: setting {} to {:?} changed the gain from {:?} to {:?}", D::NAME, T::NAME, which, n, wm, mine);
            c.seen("invalid lengths judged", 1);
        } else {
            let e = gain_of(n);
            ensure!(close(mine.f(), e, gain_tol(n)), "{}<{}>: {} of {:?} samples gives gain {:?}, exp(-1/n) is {:e}", D::NAME, T::NAME, which, n, mine, e);
            c.seen("valid lengths judged", 1);
            c.nontrivial = true;
        }
        want = got;
        let l = rasp(|| p.last_out());
        ensure!(same(l, last), "{}<{}>: setting {} to {:?} moved the envelope from {:?} to {:?}", D::NAME, T::NAME, which, n, last, l);
    }
    if c.rng.chance(0.3) {
        rasp(|| p.clear());
        ensure!(p.gains() == want, "{}<{}>: clear changed the gains from {:?} to {:?}", D::NAME, T::NAME, want, p.gains());
    }
    c.desc = format!("{}<{}>, {} set/process ops, final gains {:?}", D::NAME, T::NAME, n_ops, want);
    Ok(())
}

/// C18: a step is covered to 1-1/e after n samples, in either direction,
/// whatever the other direction is set to.
fn step<T: Sample, D: Det<T>>(c: &mut Case) -> Res {
    let n = match c.rng.below(3) {
        0 => c.rng.range(1, 20),
        1 => c.rng.range(20, 500),
        _ => c.rng.range(500, 5000),
    };
    let up = c.rng.chance(0.5);
    let mut p = D::make();
    let other = length::<T>(&mut c.rng);
    // an earlier value for the direction under test, replaced later
    if c.rng.chance(0.5) {
        let o = length::<T>(&mut c.rng);
        if up { p.attack(o) } else { p.release(o) }
    }
    let lvl = det_level::<T>(&mut c.rng, D::SQUARE).min(T::MAX / 4.0);
    let v = T::of(lvl);
    if D::SQUARE && !(v.f() * v.f() <= T::MAX) {
        return Ok(());
    }
    if !up {
        // charge to v at once: attack direction unset
        let y = rasp(|| p.process(v));
        ensure!(close(y.f(), v.f(), 8.0 * T::EPS * v.f()), "{}<{}>: attack never set, {:?} gives {:?}", D::NAME, T::NAME, v, y);
    }
    let nt = T::of(n as f64);
    if c.rng.chance(0.5) {
        if up { p.release(other) } else { p.attack(other) }
        if up { p.attack(nt) } else { p.release(nt) }
    } else {
        if up { p.attack(nt) } else { p.release(nt) }
        if up { p.release(other) } else { p.attack(other) }
    }
    let x = if up { v } else { T::zero() };
    let mut y = T::zero();
    for _ in 0..n {
        y = rasp(|| p.process(x));
    }
    let m = D::measure(v.f());
    let want = m * if up { 1.0 - (-1.0f64).exp() } else { (-1.0f64).exp() };
    let tol = m * T::EPS * (16.0 + 4.0 * n as f64) + 64.0 * T::TINY * n as f64;
    c.desc = format!("{}<{}> {} of {} samples, other direction {:?}, level {:?}", D::NAME, T::NAME, if up { "attack" } else { "release" }, n, other, v);
    c.mix(n as u64 ^ other.bits().rotate_left(17) ^ (up as u64) << 60);
    ensure!(
        close(D::measure(y.f()), want, tol),
        "{}<{}>: {} of {} samples: after {} samples the output is {:?} for a step of {:?} (other direction {:?})", D::NAME, T::NAME, if up { "attack" } else { "release" }, n, n, y, v, other
    );
    c.seen("step responses judged", 1);
    c.seen("steps judged", n as u64);
    c.nontrivial = tol < 0.05 * m;
    Ok(())
}
pub fn c18_lengths(c: &mut Case) -> Res {
    match c.rng.below(4) {
        0 => lengths::<f32, PeakEnvDetector<f32>>(c),
        1 => lengths::<f64, PeakEnvDetector<f64>>(c),
        2 => lengths::<f32, RmsEnvDetector<f32>>(c),
        _ => lengths::<f64, RmsEnvDetector<f64>>(c),
    }
}
pub fn c18_step(c: &mut Case) -> Res {
    match c.rng.below(4) {
        0 => step::<f32, PeakEnvDetector<f32>>(c),
        1 => step::<f64, PeakEnvDetector<f64>>(c),
        2 => step::<f32, RmsEnvDetector<f32>>(c),
        _ => step::<f64, RmsEnvDetector<f64>>(c),
    }
}

/// Long uninterrupted streams with fixed settings, every step judged.
fn endless<T: Sample>(c: &mut Case, which: usize) -> Res {
    let n = match c.index % 8 {
        7 => (1usize << 20) + 9000,
        k => [66_000, 70_001, 131_100, 200_000][k % 4],
    };
    let n = if c.depth > 1 && c.index % 16 == 15 { (1 << 24) + 9000 } else { n };
    let (na, nr) = (T::of(c.rng.logu(0.5, 3000.0)), T::of(c.rng.logu(0.5, 3000.0)));
    let drone = c.rng.chance(0.5);
    let mut d = Drone::new(&mut c.rng, 1.0);
    let xs = signal::<T>(&mut c.rng, 5003, 1.0);
    let name = ["LeakyIntegrator", "PeakEnvDetector", "RmsEnvDetector"][which];
    c.desc = format!("{}<{}>, lengths {:?} / {:?}, {} samples", name, T::NAME, na, nr, n);
    c.mix(na.bits() ^ nr.bits().rotate_left(17) ^ n as u64);
    let mut li = rasp(|| LeakyIntegrator::<T>::new());
    let mut pk = rasp(|| PeakEnvDetector::<T>::new());
    let mut rm = rasp(|| RmsEnvDetector::<T>::new());
    let (ga, gr) = (gain_of(na), if which == 0 { gain_of(na) } else { gain_of(nr) });
    let (ta, tr) = (gain_tol(na), if which == 0 { gain_tol(na) } else { gain_tol(nr) });
    rasp(|| {
        li.set_alpha(T::of(ga));
        pk.set_attack(na);
        pk.set_release(nr);
        rm.set_attack(na);
        rm.set_release(nr);
    });
    let mut prev = T::zero();
    for i in 0..n {
        let x = if drone { T::of(d.at(&mut c.rng, i as u64)) } else { xs[i % 5003] };
        let y = rasp(|| match which {
            0 => li.process(x),
            1 => pk.process(x),
            _ => rm.process(x),
        });
        let m = |v: T| match which {
            0 => v.f(),
            1 => v.f().abs(),
            _ => v.f() * v.f(),
        };
        let (xm, pm, ym) = (m(x), m(prev), m(y));
        let mag = xm.abs().max(pm.abs());
        let base = 20.0 * T::EPS * mag + 20.0 * T::TINY;
        let (eu, ed) = (xm + ga * (pm - xm), xm + gr * (pm - xm));
        let near = (pm - xm).abs() <= 8.0 * T::EPS * mag + 1e4 * T::TINY;
        let (up, down) = (close(ym, eu, base + ta * (pm - xm).abs()), close(ym, ed, base + tr * (pm - xm).abs()));
        let okay = if near { up || down } else if xm > pm { up } else { down };
        // squares that leave the normal range are not judged
        let tiny = which == 2 && (xm < T::TINY * 1e12 && xm > 0.0 || pm < T::TINY * 1e12 && pm > 0.0 || ym < T::TINY * 1e12);
        ensure!(okay || tiny, "{}<{}>, lengths {:?} / {:?}: sample #{}: previous output {:?}, input {:?}, got {:?}", name, T::NAME, na, nr, i, prev, x, y);
        prev = y;
    }
    c.seen("steps judged", n as u64);
    c.nontrivial = true;
    Ok(())
}
pub fn c15_long(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { endless::<f32>(c, 0) } else { endless::<f64>(c, 0) }
}
pub fn c16_long(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { endless::<f32>(c, 1) } else { endless::<f64>(c, 1) }
}
pub fn c17_long(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { endless::<f32>(c, 2) } else { endless::<f64>(c, 2) }
}
