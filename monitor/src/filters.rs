//! C09, C10: elementary filters and biquads against their difference
//! equations, judged sample by sample over the observed history.

use crate::mon::{Case, Res};
use crate::rng::Rng;
use crate::sample::{close, same, Sample};
use crate::signal::{amplitude, signal, Drone};
use crate::zoo::{stable_cfg, wild_cfg, AnyProc, Cfg, Kind};
use crate::{ensure, fail};
use Kind as K;

pub const SMALL: [Kind; 4] = [K::OnePole, K::OneZero, K::TwoPole, K::TwoZero];
pub const BIQUADS: [Kind; 2] = [K::Biquad1, K::Biquad2];

fn has(kind: Kind) -> [bool; 5] {
    match kind {
        K::OnePole => [true, false, false, true, false],
        K::OneZero => [true, true, false, false, false],
        K::TwoPole => [true, false, false, true, true],
        K::TwoZero => [true, true, true, false, false],
        _ => [true; 5],
    }
}

/// Writes one public coefficient field.
fn poke<T: Sample>(p: &mut AnyProc<T>, i: usize, v: T) {
    macro_rules! set {
        ($x:expr, $($k:literal => $f:ident),*) => { match i { $($k => $x.$f = v,)* _ => {} } };
    }
    match p {
        AnyProc::OnePole(x) => set!(x, 0 => b0, 3 => a1),
        AnyProc::OneZero(x) => set!(x, 0 => b0, 1 => b1),
        AnyProc::TwoPole(x) => set!(x, 0 => b0, 3 => a1, 4 => a2),
        AnyProc::TwoZero(x) => set!(x, 0 => b0, 1 => b1, 2 => b2),
        AnyProc::Biquad1(x) => set!(x, 0 => b0, 1 => b1, 2 => b2, 3 => a1, 4 => a2),
        AnyProc::Biquad2(x) => set!(x, 0 => b0, 1 => b1, 2 => b2, 3 => a1, 4 => a2),
        _ => {}
    }
}

/// Observed history the recurrence refers to, newest first.
struct Hist {
    x: [f64; 2],
    y: [f64; 2],
    /// coefficients in force at the previous two samples
    c: [[f64; 5]; 2],
}

impl Hist {
    fn new() -> Hist {
        Hist { x: [0.0; 2], y: [0.0; 2], c: [[0.0; 5]; 2] }
    }
    fn push(&mut self, x: f64, y: f64, c: [f64; 5]) {
        self.x = [x, self.x[0]];
        self.y = [y, self.y[0]];
        self.c = [c, self.c[0]];
    }
    /// The documented value, and the sum of term magnitudes.
    fn expect(&self, kind: Kind, x: f64, c: &[f64; 5]) -> (f64, f64) {
        let (c1, c2) = if kind == K::Biquad2 { (&self.c[0], &self.c[1]) } else { (c, c) };
        let t = [
            c[0] * x,
            c1[1] * self.x[0],
            c2[2] * self.x[1],
            -c1[3] * self.y[0],
            -c2[4] * self.y[1],
        ];
        (t.iter().sum(), t.iter().map(|v| v.abs()).sum())
    }
}

fn value(r: &mut Rng, old: f64) -> f64 {
    match r.below(7) {
        0 => 0.0,
        1 => r.pick(&[1.0, -1.0, 2.0, -2.0, 0.5, -0.5]),
        2 => r.uni(-1.0, 1.0) * 2f64.powi(r.irange(-30, 10) as i32),
        3 => -old,
        4 => old,
        _ => r.uni(-1.5, 1.5),
    }
}

fn drive<T: Sample>(c: &mut Case, kind: Kind) -> Res {
    let r = &mut c.rng;
    let mask = has(kind);
    let cfg = if r.chance(0.5) { stable_cfg(r, kind, 0.9995) } else { wild_cfg(r, kind) };
    let mut p = AnyProc::<T>::new(kind, 0);
    let one = [T::one(), T::zero(), T::zero(), T::zero(), T::zero()];
    ensure!(p.coefs().unwrap() == one, "{:?}<{}>: a new filter has coefficients {:?}", kind, T::NAME, p.coefs());
    let mut cur = one;
    let mut h = Hist::new();
    let amp0 = if r.chance(0.1) { amplitude::<T>(r, T::SUB, T::LO) } else { amplitude::<T>(r, T::LO, T::HI) };
    let n_ops = r.range(8, 60) * c.depth;
    let changing = r.chance(0.6);
    let lo = r.chance(0.5);
    let mut desc = format!("{:?}<{}>, amplitude {:e}, coefficients {:?}", kind, T::NAME, amp0, cfg.p);
    let mut started = false;
    let mut overflow = 0u64;
    c.mix(kind as u64);
    c.mix(amp0.to_bits());
    for v in &cfg.p {
        c.mix(v.to_bits());
    }
    // a new filter is transparent for a while before it is configured
    if c.rng.chance(0.3) {
        let n = c.rng.range(1, 20);
        let xs = signal::<T>(&mut c.rng, n, amp0);
        for x in xs {
            let y = p.process(x);
            ensure!(same(y, x), "{:?}<{}>: a new filter turned {:?} into {:?}", kind, T::NAME, x, y);
            h.push(x.f(), y.f(), one.map(|v| v.f()));
            c.seen("transparent outputs judged", 1);
        }
    }
    for op in 0..n_ops {
        let what = if !started { 0 } else { c.rng.below(12) };
        match what {
            0 => {
                // set all coefficients, through the setter or field by field
                let style = c.rng.below(2);
                if !started {
                    for i in 0..5 {
                        cur[i] = if mask[i] { T::of(cfg.p[i]) } else { cur[i] };
                    }
                    started = true;
                } else if changing {
                    let k = if c.rng.chance(0.5) { stable_cfg(&mut c.rng, kind, 0.99) } else { wild_cfg(&mut c.rng, kind) };
                    for i in 0..5 {
                        cur[i] = if mask[i] { T::of(k.p[i]) } else { cur[i] };
                    }
                }
                let q = Cfg { kind, p: cur.map(|v| v.f()), max: 0 };
                p.configure(&q, style);
                c.seen("coefficient changes", 1);
                c.note(|| format!("set {:?} style {}", q.p, style));
            }
            1 if changing => {
                let i = c.rng.below(5);
                if mask[i] {
                    let v = T::of(value(&mut c.rng, cur[i].f()));
                    poke(&mut p, i, v);
                    cur[i] = v;
                    c.seen("coefficient changes", 1);
                    c.note(|| format!("poke coefficient {} = {:?}", i, v));
                }
            }
            2 if c.rng.chance(0.25) => {
                p.clear();
                h = Hist::new();
                ensure!(p.last_out() == T::zero(), "{:?}<{}>: last output {:?} after clear", kind, T::NAME, p.last_out());
                c.seen("clears", 1);
                c.note(|| "clear".into());
            }
            _ => {
                let amp = if c.rng.chance(0.1) { amplitude::<T>(&mut c.rng, if lo { T::SUB } else { -30 }, T::HI) } else { amp0 };
                let n = if c.rng.chance(0.05) { c.rng.range(40, 400) } else { c.rng.range(1, 16) };
                let xs = signal::<T>(&mut c.rng, n, amp);
                let ys = if c.rng.chance(0.3) {
                    let mut b = xs.clone();
                    p.block(&mut b);
                    b
                } else {
                    p.run(&xs)
                };
                let cf = cur.map(|v| v.f());
                let mut bad = false;
                for (x, y) in xs.iter().zip(ys.iter()) {
                    let (e, mag) = h.expect(kind, x.f(), &cf);
                    if !(mag < T::MAX / 64.0) {
                        bad = true;
                        break;
                    }
                    let tol = 16.0 * T::EPS * mag + 64.0 * T::TINY;
                    ensure!(
                        close(y.f(), e, tol),
                        "{:?}<{}>: op {}: x = {:?}, x[-1,-2] = {:?}, y[-1,-2] = {:?}, coefficients {:?}: got {:?}, recurrence says {:e} +- {:e}",
                        kind, T::NAME, op, x, h.x, h.y, cur, y, e, tol
                    );
                    h.push(x.f(), y.f(), cf);
                    c.seen("outputs judged", 1);
                    if e.abs() > 1e3 * tol {
                        c.nontrivial = true;
                        c.seen("outputs judged with > 10 bits of signal", 1);
                    }
                }
                if bad {
                    // divergent filter left the finite domain: start over
                    overflow += 1;
                    p.clear();
                    h = Hist::new();
                    let k = stable_cfg(&mut c.rng, kind, 0.9);
                    for i in 0..5 {
                        cur[i] = if mask[i] { T::of(k.p[i]) } else { cur[i] };
                    }
                    p.configure(&Cfg { kind, p: cur.map(|v| v.f()), max: 0 }, 0);
                }
            }
        }
        let got = p.coefs().unwrap();
        ensure!(
            (0..5).all(|i| same(got[i], cur[i])),
            "{:?}<{}>: coefficients read back {:?}, were set to {:?}", kind, T::NAME, got, cur
        );
        c.seen("read-backs judged", 1);
    }
    c.seen("divergent runs restarted", overflow);
    desc.push_str(&format!(", {} ops", n_ops));
    c.desc = desc;
    Ok(())
}

/// Coefficients from the whole finite range, with inputs to match.
fn wide<T: Sample>(c: &mut Case, kind: Kind) -> Res {
    let mask = has(kind);
    let mut p = AnyProc::<T>::new(kind, 0);
    let mut h = Hist::new();
    let top = (T::MAX.log2() - 0.5) as i64;
    let mut cur = [T::zero(); 5];
    let mut k = 0;
    c.desc = format!("{:?}<{}>, coefficients over the whole finite range", kind, T::NAME);
    for seg in 0..c.rng.range(1, 5) * c.depth {
        if seg == 0 || c.rng.chance(0.7) {
            k = c.rng.irange(T::SUB, top);
            if c.rng.chance(0.3) {
                k = top;
            }
            let wild = c.rng.chance(0.2);
            for i in 0..5 {
                if !mask[i] {
                    continue;
                }
                let v = match c.rng.below(8) {
                    0 => 0.0,
                    1 if i < 3 || wild => c.rng.pick(&[T::MAX, -T::MAX]),
                    2 => c.rng.uni(-1.0, 1.0),
                    _ if i < 3 => c.rng.uni(-2.0, 2.0) * (k as f64).exp2(),
                    _ if wild => c.rng.uni(-2.0, 2.0) * (c.rng.irange(T::SUB, top - 2) as f64).exp2(),
                    _ => c.rng.uni(-0.99, 0.99),
                };
                cur[i] = T::of(v.max(-T::MAX).min(T::MAX));
            }
            let q = Cfg { kind, p: cur.map(|v| v.f()), max: 0 };
            p.configure(&q, c.rng.below(2));
            c.note(|| format!("set {:?}", q.p));
            c.seen("coefficient changes", 1);
            for v in &q.p {
                c.mix(v.to_bits());
            }
        }
        let cf = cur.map(|v| v.f());
        let e = (c.rng.irange(-8, 8) - k).max(T::SUB).min(top - 1);
        let n = c.rng.range(1, 12);
        let mut xs = signal::<T>(&mut c.rng, n, 1.0);
        if c.rng.chance(0.4) {
            let v = xs[0];
            xs.iter_mut().for_each(|x| *x = v);
        }
        for x in xs {
            let x = T::of(x.f() * (e as f64).exp2());
            c.note(|| format!("process {:?}", x));
            let y = p.process(x);
            let (want, mag) = h.expect(kind, x.f(), &cf);
            if !(mag < T::MAX / 64.0) {
                p.clear();
                h = Hist::new();
                c.seen("divergent runs restarted", 1);
                break;
            }
            let tol = 16.0 * T::EPS * mag + 64.0 * T::TINY;
            ensure!(
                close(y.f(), want, tol),
                "{:?}<{}>: x = {:?}, x[-1,-2] = {:?}, y[-1,-2] = {:?}, coefficients {:?}: got {:?}, recurrence says {:e} +- {:e}",
                kind, T::NAME, x, h.x, h.y, cur, y, want, tol
            );
            h.push(x.f(), y.f(), cf);
            c.seen("outputs judged", 1);
            c.seen("outputs judged with far-out coefficients", (k.abs() > 30) as u64);
            if want.abs() > 1e3 * tol {
                c.nontrivial = true;
                c.seen("outputs judged with > 10 bits of signal", 1);
            }
        }
    }
    Ok(())
}
pub fn c09_wide(c: &mut Case) -> Res {
    let k = c.rng.pick(&SMALL);
    if c.rng.chance(0.5) { wide::<f32>(c, k) } else { wide::<f64>(c, k) }
}
pub fn c10_wide(c: &mut Case) -> Res {
    let k = c.rng.pick(&BIQUADS);
    if c.rng.chance(0.5) { wide::<f32>(c, k) } else { wide::<f64>(c, k) }
}

/// Long runs with fixed coefficients.
fn long<T: Sample>(c: &mut Case, kind: Kind) -> Res {
    let cfg = stable_cfg(&mut c.rng, kind, 0.9999);
    let mut p = AnyProc::<T>::build(&cfg);
    let n = if c.depth > 1 { 3_000_000 } else if c.index < 8 { (1 << 21) + 9 } else { 70_000 };
    let mut drone = Drone::new(&mut c.rng, 1.0);
    let cf: [f64; 5] = p.coefs().unwrap().map(|v| v.f());
    let mut h = Hist::new();
    c.desc = format!("{:?}<{}> {:?}, {} samples of {}", kind, T::NAME, cfg.p, n, drone.name());
    for v in &cfg.p {
        c.mix(v.to_bits());
    }
    for i in 0..n {
        let x = T::of(drone.at(&mut c.rng, i));
        let y = p.process(x);
        let (e, mag) = h.expect(kind, x.f(), &cf);
        let tol = 16.0 * T::EPS * mag + 64.0 * T::TINY;
        if !close(y.f(), e, tol) {
            fail!("{:?}<{}> {:?}: sample #{}: got {:?}, recurrence says {:e}", kind, T::NAME, cfg.p, i, y, e);
        }
        h.push(x.f(), y.f(), cf);
    }
    c.seen("outputs judged", n);
    c.nontrivial = true;
    Ok(())
}

/// Both biquad forms side by side, constant coefficients.
fn forms<T: Sample>(c: &mut Case) -> Res {
    let cfg = stable_cfg(&mut c.rng, K::Biquad1, 0.98);
    let rad = cfg.p[4].sqrt();
    let mut a = AnyProc::<T>::build(&cfg);
    let mut b = AnyProc::<T>::build(&Cfg { kind: K::Biquad2, ..cfg });
    let amp = amplitude::<T>(&mut c.rng, T::LO / 2, T::HI);
    let n = c.rng.range(50, 600) * c.depth;
    let xs = signal::<T>(&mut c.rng, n, amp);
    c.desc = format!("Biquad1 vs Biquad2 <{}> {:?}, amplitude {:e}, {} samples", T::NAME, cfg.p, amp, n);
    for v in &cfg.p {
        c.mix(v.to_bits());
    }
    let mut peak = 0.0f64;
    let mut xpeak = 0.0f64;
    for (i, x) in xs.iter().enumerate() {
        let (u, v) = (a.process(*x), b.process(*x));
        peak = peak.max(u.f().abs());
        xpeak = xpeak.max(x.f().abs());
        let tol = 64.0 * T::EPS * (peak + 6.0 * xpeak) / (1.0 - rad).powi(2) + 1e4 * T::TINY;
        ensure!(
            close(u.f(), v.f(), tol),
            "{:?}<{}>: sample #{}: direct form I gives {:?}, transposed form II {:?} (coefficients {:?})", K::Biquad1, T::NAME, i, u, v, cfg.p
        );
        if u.f().abs() > 1e3 * tol {
            c.nontrivial = true;
        }
    }
    c.seen("form I / form II pairs compared", n as u64);
    Ok(())
}

pub fn c09_drive(c: &mut Case) -> Res {
    let k = c.rng.pick(&SMALL);
    if c.rng.chance(0.5) { drive::<f32>(c, k) } else { drive::<f64>(c, k) }
}
pub fn c10_drive(c: &mut Case) -> Res {
    let k = c.rng.pick(&BIQUADS);
    if c.rng.chance(0.5) { drive::<f32>(c, k) } else { drive::<f64>(c, k) }
}
pub fn c09_long(c: &mut Case) -> Res {
    let k = SMALL[c.index % 4];
    if c.index / 4 % 2 == 0 { long::<f32>(c, k) } else { long::<f64>(c, k) }
}
pub fn c10_long(c: &mut Case) -> Res {
    let k = BIQUADS[c.index % 2];
    if c.index / 2 % 2 == 0 { long::<f32>(c, k) } else { long::<f64>(c, k) }
}
pub fn c10_forms(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { forms::<f32>(c) } else { forms::<f64>(c) }
}

/// A new filter is transparent for every finite sample.
pub fn transparent(c: &mut Case, kinds: &[Kind]) -> Res {
    fn go<T: Sample>(c: &mut Case, k: Kind) -> Res {
        let mut p = AnyProc::<T>::new(k, 0);
        let n = c.rng.range(20, 300);
        for i in 0..n {
            let x = T::of(match c.rng.below(6) {
                0 => c.rng.pick(&[0.0, -0.0, T::MAX, -T::MAX, T::TINY, 1.0, -1.0]),
                1 => c.rng.uni(-1.0, 1.0) * T::MAX,
                2 => c.rng.uni(-100.0, 100.0) * T::TINY,
                _ => c.rng.uni(-1.0, 1.0) * (c.rng.irange(T::SUB, T::HI) as f64).exp2(),
            });
            let y = p.process(x);
            ensure!(same(y, x), "{:?}<{}>: a new filter turned sample #{} {:?} into {:?}", k, T::NAME, i, x, y);
            c.mix(x.bits());
        }
        c.desc = format!("new {:?}<{}>, {} samples over the whole finite range", k, T::NAME, n);
        c.nontrivial = true;
        c.seen("transparent outputs judged", n as u64);
        Ok(())
    }
    let k = c.rng.pick(kinds);
    if c.rng.chance(0.5) { go::<f32>(c, k) } else { go::<f64>(c, k) }
}
pub fn c09_new(c: &mut Case) -> Res {
    transparent(c, &SMALL)
}
pub fn c10_new(c: &mut Case) -> Res {
    transparent(c, &BIQUADS)
}
