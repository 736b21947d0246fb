//! C29-C35: relations between processors - forgetting, complementary RBJ
//! filters, the two delay lines, equivalent compositions, ordering of
//! detector readings, user-written processors, overwritten settings.

use crate::hist::{apply, history, HProf, HOSTILE};
use crate::mon::{rasp, Case, Res};
use crate::rbj::{reference, rounded};
use crate::rng::Rng;
use crate::sample::{close, same, Sample};
use crate::signal::{amplitude, hostile, signal};
use crate::zoo::{pick_max, rbj_cfg, stable_cfg, wild_cfg, AnyProc, Cfg, Kind, KINDS, RBJ};
use crate::{ensure, fail};
use rasp::analysis::{PeakEnvDetector, RmsEnvDetector};
use rasp::delay::{Delay, LinearDelay};
use rasp::traits::{Processor, TappableDelayLine};
use Kind as K;

// ------------------------------------------------------- linear stages

/// A linear processor with its exact difference equation and the size of the
/// rounding its coefficients and steps may carry.
#[derive(Clone, Debug)]
struct Stage {
    cfg: Cfg,
    b: Vec<f64>,
    a: [f64; 3],
    kb: f64,
    ka: f64,
}

fn stage<T: Sample>(cfg: Cfg) -> Stage {
    let v = |i: usize| T::of(cfg.p[i]).f();
    let (mut a, mut kb, mut ka) = ([1.0, 0.0, 0.0], 0.0, 0.0);
    let b = match cfg.kind {
        K::Delay => {
            let mut b = vec![0.0; cfg.p[0] as usize];
            b.push(1.0);
            b
        }
        K::LinearDelay => {
            let d = cfg.p[0] as f32 as f64;
            let f = d - d.floor();
            let mut b = vec![0.0; d as usize];
            b.push(1.0 - f);
            if f > 0.0 {
                b.push(f);
            }
            b
        }
        K::Leaky => {
            let al = v(0);
            a[1] = -al;
            vec![1.0 - al]
        }
        k if k.is_rbj() => {
            let rf = reference::<T>(&cfg);
            a = rf.a;
            kb = 24.0 * T::EPS * rf.eb;
            ka = 24.0 * T::EPS * rf.ea;
            rf.b.to_vec()
        }
        _ => {
            a = [1.0, v(3), v(4)];
            vec![v(0), v(1), v(2)]
        }
    };
    Stage { cfg, b, a, kb, ka }
}

impl Stage {
    fn impulse(&self, n: usize, b: &[f64]) -> Vec<f64> {
        let mut h: Vec<f64> = Vec::with_capacity(n);
        for i in 0..n {
            let mut y = if i < b.len() { b[i] } else { 0.0 };
            if i >= 1 {
                y -= self.a[1] * h[i - 1];
            }
            if i >= 2 {
                y -= self.a[2] * h[i - 2];
            }
            h.push(y);
        }
        h
    }
    /// Rounding a step may commit, from the values that enter it.
    fn step_tol<T: Sample>(&self, x: &[f64], y: &[f64], i: usize) -> f64 {
        let mut mag = 0.0;
        let mut xa = 0.0;
        for (k, b) in self.b.iter().enumerate().take(i + 1) {
            mag += (b * x[i - k]).abs();
            if k < 3 {
                xa += x[i - k].abs();
            }
        }
        let mut ya = 0.0;
        for k in 1..=2.min(i) {
            mag += (self.a[k] * y[i - k]).abs();
            ya += y[i - k].abs();
        }
        let ca: f64 = self.b.iter().map(|v| v.abs()).sum::<f64>() + self.a[1].abs() + self.a[2].abs();
        if self.cfg.kind == K::Delay {
            return 0.0;
        }
        // an averaging step may be computed through the difference of its two inputs
        if self.cfg.kind == K::Leaky {
            mag += xa + ya;
        }
        if self.cfg.kind == K::LinearDelay {
            let n = self.b.len();
            mag += [n, n + 1, n.saturating_sub(1)].iter().map(|k| if i >= *k { x[i - k].abs() } else { 0.0 }).sum::<f64>();
        }
        self.kb * xa + self.ka * ya + 16.0 * T::EPS * mag + 256.0 * T::TINY * (1.0 + ca + (self.kb + self.ka) / T::EPS)
    }
    /// Ideal output and how far the real one may be from it, given an ideal
    /// input and how far the real one may be from that.
    fn pass<T: Sample>(&self, x: &[f64], ex: &[f64]) -> (Vec<f64>, Vec<f64>) {
        let n = x.len();
        let mut y: Vec<f64> = Vec::with_capacity(n);
        for i in 0..n {
            let mut v = 0.0;
            for (k, b) in self.b.iter().enumerate().take(i + 1) {
                v += b * x[i - k];
            }
            for k in 1..=2.min(i) {
                v -= self.a[k] * y[i - k];
            }
            y.push(v);
        }
        let g: Vec<f64> = self.impulse(n, &[1.0]).iter().map(|v| v.abs()).collect();
        let carry = ex.iter().any(|e| *e > 0.0);
        let h: Vec<f64> = if carry { self.impulse(n, &self.b).iter().map(|v| v.abs()).collect() } else { Vec::new() };
        let fir = self.a[1] == 0.0 && self.a[2] == 0.0;
        // what really passes through may be off by the bounds themselves
        let xa: Vec<f64> = x.iter().zip(ex).map(|(v, e)| v.abs() + e).collect();
        let mut ya: Vec<f64> = Vec::with_capacity(n);
        let mut t = Vec::with_capacity(n);
        let mut e = vec![0.0; n];
        for i in 0..n {
            t.push(2.0 * self.step_tol::<T>(&xa, &ya, i));
            let mut s = if fir {
                t[i]
            } else {
                (0..=i).map(|j| g[i - j] * t[j]).sum()
            };
            if carry {
                s += (0..=i).map(|j| h[i - j] * ex[j] * 1.001).sum::<f64>();
            }
            e[i] = s;
            ya.push(y[i].abs() + s);
        }
        (y, e)
    }
}

/// A chain of stages, optionally between two sign alternations.
#[derive(Clone, Debug)]
struct Chain {
    w: f64,
    stages: Vec<Stage>,
    alt: bool,
}

fn chain<T: Sample>(w: f64, cfgs: &[Cfg]) -> Chain {
    Chain { w, stages: cfgs.iter().map(|c| stage::<T>(*c)).collect(), alt: false }
}

impl Chain {
    fn show<T: Sample>(&self) -> String {
        let s: Vec<String> = self
            .stages
            .iter()
            .map(|s| match s.cfg.kind {
                k if k.is_rbj() => format!("{:?}{:?}", k, rounded::<T>(&s.cfg)),
                K::Delay | K::LinearDelay => format!("{:?}({} of {})", s.cfg.kind, s.cfg.p[0], s.cfg.max),
                k => format!("{:?}{:?}", k, s.cfg.p),
            })
            .collect();
        format!("{:+} * {}{}", self.w, if self.alt { "alternated " } else { "" }, s.join(" -> "))
    }
}

/// Runs a signal through a chain of real processors.
fn run_chain<T: Sample>(r: &mut Rng, ch: &Chain, xs: &[T]) -> Vec<T> {
    let flip = |v: &mut Vec<T>| {
        for x in v.iter_mut().skip(1).step_by(2) {
            *x = -*x;
        }
    };
    let mut v = xs.to_vec();
    if ch.alt {
        flip(&mut v);
    }
    for s in &ch.stages {
        let mut p;
        if r.chance(0.3) {
            // a processor with a past, cleared
            p = AnyProc::<T>::build(&s.cfg);
            if s.cfg.kind.is_rbj() {
                let c = stable_cfg(r, s.cfg.kind, 0.9);
                p.configure(&c, 0);
            }
            for _ in 0..r.range(1, 30) {
                let x = T::of(r.uni(-1.0, 1.0));
                p.process(x);
            }
            p.clear();
            p.configure(&s.cfg, 0);
        } else {
            p = AnyProc::<T>::build(&s.cfg);
        }
        match r.below(3) {
            0 => {
                p.block(&mut v);
            }
            1 => v = p.run(&v),
            _ => {
                let mut i = 0;
                while i < v.len() {
                    let n = r.range(1, 40).min(v.len() - i);
                    p.block(&mut v[i..i + n]);
                    i += n;
                }
            }
        }
    }
    if ch.alt {
        flip(&mut v);
    }
    v
}

/// sum of w_k * chain_k(x) = d * x, to within what rounding can do.
fn relation<T: Sample>(c: &mut Case, name: &'static str, chains: &[Chain], d: f64, exact: bool, xs: &[T]) -> Res {
    let n = xs.len();
    let xf: Vec<f64> = xs.iter().map(|x| x.f()).collect();
    let peak = xf.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let mut tol = vec![0.0; n];
    let mut top = d.abs() * peak;
    for ch in chains {
        let mut y = xf.clone();
        if ch.alt {
            for v in y.iter_mut().skip(1).step_by(2) {
                *v = -*v;
            }
        }
        let mut e = vec![0.0; n];
        for s in &ch.stages {
            let (a, b) = s.pass::<T>(&y, &e);
            y = a;
            e = b;
        }
        for i in 0..n {
            tol[i] += ch.w.abs() * (e[i] + 4.0 * f64::EPSILON * y[i].abs());
            top = top.max((ch.w * y[i]).abs());
        }
    }
    let worst_tol = tol.iter().cloned().fold(0.0, f64::max);
    c.desc = format!("{}: {} = {} * x, {} samples of {}, peak {:e}", name, chains.iter().map(|x| x.show::<T>()).collect::<Vec<_>>().join("  "), d, n, T::NAME, peak);
    for ch in chains {
        for s in &ch.stages {
            c.mix(s.cfg.kind as u64);
            for v in &s.cfg.p {
                c.mix(v.to_bits());
            }
        }
    }
    let outs: Vec<Vec<T>> = chains.iter().map(|ch| run_chain::<T>(&mut c.rng, ch, xs)).collect();
    if !(worst_tol.is_finite() && top > 0.0) {
        c.seen("runs without a signal", 1);
        return Ok(());
    }
    let mut worst = 0.0f64;
    let mut big = 0;
    for i in 0..n {
        if exact {
            for o in &outs[1..] {
                ensure!(same(o[i], outs[0][i]), "{}: sample #{}: {:?} and {:?} should be equal; {}", name, i, outs[0][i], o[i], c.desc);
            }
            continue;
        }
        let s: f64 = chains.iter().zip(&outs).map(|(ch, o)| ch.w * o[i].f()).sum::<f64>();
        let e = d * xf[i];
        let t = tol[i] + 8.0 * f64::EPSILON * e.abs();
        if !close(s, e, t) {
            fail!("{}: sample #{}: the outputs {:?} combine to {:e}, should be {:e} +- {:e}; {}", name, i, outs.iter().map(|o| o[i]).collect::<Vec<_>>(), s, e, t, c.desc);
        }
        if t > 0.0 {
            worst = worst.max((s - e).abs() / t);
        }
        let m = e.abs().max(outs.iter().zip(chains).map(|(o, ch)| (ch.w * o[i].f()).abs()).fold(0.0, f64::max));
        if m > 100.0 * t {
            big += 1;
        }
    }
    if exact {
        big = outs[0].iter().filter(|v| **v != T::zero()).count();
    }
    c.seen("combined outputs judged", n as u64);
    c.seen("combined outputs judged to better than 1%", big as u64);
    c.seen(name, 1);
    c.nontrivial = big > 0;
    if std::env::var("MON_WORST").is_ok() && worst > 0.2 {
        println!("worst {} {}", worst, c.desc);
    }
    Ok(())
}

// ----------------------------------------------------------------- C30

fn complement<T: Sample>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let f64t = T::EPS < 1e-10;
    let tune = |r: &mut Rng, k: Kind| {
        if f64t && r.chance(0.2) {
            rbj_cfg(r, k, 1e-5, 0.4995, 0.01, 3000.0, 120.0)
        } else if f64t && r.chance(0.5) {
            rbj_cfg(r, k, 0.001, 0.495, 0.1, 40.0, 40.0)
        } else {
            rbj_cfg(r, k, 0.01, 0.48, 0.2, 12.0, 24.0)
        }
    };
    let with = |g: Cfg, k: Kind| Cfg { kind: k, ..g };
    let neg = |g: Cfg| {
        let mut g = g;
        g.p[3] = -g.p[3];
        g
    };
    let which = c.index % 15;
    let n = r.range(30, 220) * c.depth.min(3);
    let amp = amplitude::<T>(r, -30, 30);
    let ch = |w: f64, g: &[Cfg]| chain::<T>(w, g);
    let (name, chains, d): (&'static str, Vec<Chain>, f64) = match which {
        0 | 1 => {
            let g = tune(r, K::LowPass);
            ("low + high + band = input", vec![ch(1.0, &[g]), ch(1.0, &[with(g, K::HighPass)]), ch(1.0, &[with(g, K::BandPass2)])], 1.0)
        }
        2 => {
            let g = tune(r, K::BandStop);
            ("band stop + band pass = input", vec![ch(1.0, &[g]), ch(1.0, &[with(g, K::BandPass2)])], 1.0)
        }
        3 => {
            let g = tune(r, K::AllPass);
            ("all pass + 2 band pass = input", vec![ch(1.0, &[g]), ch(2.0, &[with(g, K::BandPass2)])], 1.0)
        }
        4 => {
            let g = tune(r, K::AllPass);
            ("2 band stop - all pass = input", vec![ch(-1.0, &[g]), ch(2.0, &[with(g, K::BandStop)])], 1.0)
        }
        5 => {
            let g = tune(r, K::BandPass1);
            let q = T::of(g.p[2]).f();
            ("skirt-gain band pass = Q * peak-gain band pass", vec![ch(1.0, &[g]), ch(-q, &[with(g, K::BandPass2)])], 0.0)
        }
        6 => {
            let g = tune(r, K::LowPass);
            ("low + high = band stop", vec![ch(1.0, &[g]), ch(1.0, &[with(g, K::HighPass)]), ch(-1.0, &[with(g, K::BandStop)])], 0.0)
        }
        7 => {
            let g = tune(r, K::Peak);
            ("boost undone by cut", vec![ch(1.0, &[g, neg(g)])], 1.0)
        }
        8 => {
            let g = tune(r, K::LowShelf);
            ("boost undone by cut", vec![ch(1.0, &[g, neg(g)])], 1.0)
        }
        9 => {
            let g = tune(r, K::HighShelf);
            ("boost undone by cut", vec![ch(1.0, &[g, neg(g)])], 1.0)
        }
        10 => {
            let g = tune(r, K::LowShelf);
            let a2 = 10f64.powf(T::of(g.p[3]).f() / 20.0);
            ("both shelves = plain gain", vec![ch(1.0, &[g, with(g, K::HighShelf)])], a2)
        }
        11 => {
            let g = tune(r, K::LowShelf);
            let a2 = 10f64.powf(T::of(g.p[3]).f() / 20.0);
            ("shelf = gain * opposite shelf", vec![ch(1.0, &[g]), ch(-a2, &[neg(with(g, K::HighShelf))])], 0.0)
        }
        12 => {
            let k = r.pick(&[K::Peak, K::LowShelf, K::HighShelf]);
            let mut g = tune(r, k);
            g.p[3] = 0.0;
            ("0 dB = input", vec![ch(1.0, &[g])], 1.0)
        }
        13 => {
            // mirrored about a quarter of the rate; settings exact in f32
            let k = r.pick(&RBJ);
            let mut g = tune(r, k);
            g.p[0] = 65536.0;
            g.p[1] = r.range(700, 32768 - 700) as f64;
            let mut m = g;
            m.p[1] = 32768.0 - g.p[1];
            m.kind = match k {
                K::LowPass => K::HighPass,
                K::HighPass => K::LowPass,
                K::LowShelf => K::HighShelf,
                K::HighShelf => K::LowShelf,
                k => k,
            };
            // s -> 1/s turns a band pass into itself, all pass too
            let mut mc = ch(-1.0, &[m]);
            mc.alt = true;
            ("mirrored about a quarter of the rate", vec![ch(1.0, &[g]), mc], 0.0)
        }
        _ => {
            let k = r.pick(&RBJ);
            let g = tune(r, k);
            let mut m = g;
            let s = 2f64.powi(r.irange(-30, 30) as i32);
            m.p[0] *= s;
            m.p[1] *= s;
            ("only frequency / rate matters", vec![ch(1.0, &[g]), ch(-1.0, &[m])], 0.0)
        }
    };
    let xs = signal::<T>(&mut c.rng, n, amp);
    relation::<T>(c, name, &chains, d, false, &xs)
}
pub fn c30_complement(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { complement::<f32>(c) } else { complement::<f64>(c) }
}

// ----------------------------------------------------------------- C32

fn compose<T: Sample>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    // settings with few significant bits, so that their products are exact
    let q = |r: &mut Rng| r.irange(-62, 62) as f64 / 64.0;
    let cf = |r: &mut Rng| match r.below(5) {
        0 => r.pick(&[1.0, -1.0, 0.5, 0.0, 2.0]),
        _ => r.irange(-128, 128) as f64 / 64.0,
    };
    let f = |k: Kind, p: [f64; 5]| Cfg { kind: k, p, max: 0 };
    let dl = |d: usize, m: usize| Cfg { kind: K::Delay, p: [d as f64, 0.0, 0.0, 0.0, 0.0], max: m };
    let ld = |d: f64, m: usize| Cfg { kind: K::LinearDelay, p: [d, 0.0, 0.0, 0.0, 0.0], max: m };
    let ch = |w: f64, g: &[Cfg]| chain::<T>(w, g);
    let bq = r.pick(&[K::Biquad1, K::Biquad2]);
    let n = r.range(30, 200) * c.depth.min(3);
    let amp = amplitude::<T>(r, -30, 30);
    let mut exact = false;
    let (name, a, b): (&'static str, Vec<Cfg>, Vec<Cfg>) = match c.index % 16 {
        0 => {
            let (p1, p2, b0) = (q(r), q(r), cf(r));
            ("two pole = two one poles", vec![f(K::TwoPole, [b0, 0.0, 0.0, p1 + p2, p1 * p2])], vec![f(K::OnePole, [b0, 0.0, 0.0, p1, 0.0]), f(K::OnePole, [1.0, 0.0, 0.0, p2, 0.0])])
        }
        1 => {
            let (a0, a1, b0, b1) = (cf(r), cf(r), cf(r), cf(r));
            ("two zero = two one zeros", vec![f(K::TwoZero, [a0 * b0, a0 * b1 + a1 * b0, a1 * b1, 0.0, 0.0])], vec![f(K::OneZero, [a0, a1, 0.0, 0.0, 0.0]), f(K::OneZero, [b0, b1, 0.0, 0.0, 0.0])])
        }
        2 | 3 => {
            let (p1, p2) = (q(r), q(r));
            let p = [cf(r), cf(r), cf(r), p1 + p2, p1 * p2];
            ("biquad = two zero, two pole", vec![f(bq, p)], vec![f(K::TwoZero, [p[0], p[1], p[2], 0.0, 0.0]), f(K::TwoPole, [1.0, 0.0, 0.0, p[3], p[4]])])
        }
        4 => {
            // complex poles
            let (re, a2) = (r.irange(-60, 60) as f64 / 64.0, r.irange(59, 63) as f64 / 64.0);
            let p = [cf(r), cf(r), cf(r), 2.0 * re * a2, a2];
            ("biquad = two pole, two zero", vec![f(bq, p)], vec![f(K::TwoPole, [1.0, 0.0, 0.0, p[3], p[4]]), f(K::TwoZero, [p[0], p[1], p[2], 0.0, 0.0])])
        }
        5 => {
            let (p1, p2, b0) = (q(r), q(r), cf(r));
            let p = [b0, 0.0, 0.0, p1 + p2, p1 * p2];
            ("biquad without zeros = two pole", vec![f(bq, p)], vec![f(K::TwoPole, p)])
        }
        6 => {
            let p = [cf(r), cf(r), cf(r), 0.0, 0.0];
            ("biquad without poles = two zero", vec![f(bq, p)], vec![f(K::TwoZero, p)])
        }
        7 => {
            let (p1, b0) = (q(r), cf(r));
            let p = [b0, 0.0, 0.0, p1, 0.0];
            let k = r.pick(&[K::TwoPole, bq]);
            ("second order without second coefficient = one pole", vec![f(k, p)], vec![f(K::OnePole, p)])
        }
        8 => {
            let p = [cf(r), cf(r), 0.0, 0.0, 0.0];
            let k = r.pick(&[K::TwoZero, bq]);
            ("second order without second coefficient = one zero", vec![f(k, p)], vec![f(K::OneZero, p)])
        }
        9 | 10 => {
            let (m1, m2) = (pick_max(r).min(400), pick_max(r).min(400));
            let (d1, d2) = (r.range(0, m1), r.range(0, m2));
            let extra = r.range(0, 9);
            exact = true;
            ("delays in series add up", vec![dl(d1 + d2, d1 + d2 + extra)], vec![dl(d1, m1), dl(d2, m2)])
        }
        11 => {
            let (m1, m2) = (pick_max(r).min(200), pick_max(r).min(200));
            let (d1, d2) = (r.range(0, m1), r.range(0, m2) as f64);
            let fr = if d2 < m2 as f64 { r.range(0, 63) as f64 / 64.0 } else { 0.0 };
            let extra = r.range(1, 9);
            let first = if r.chance(0.5) { dl(d1, m1) } else { ld(d1 as f64, m1) };
            let mut two = vec![first, ld(d2 + fr, m2)];
            if r.chance(0.5) {
                two.reverse();
            }
            ("delays in series add up", vec![ld(d1 as f64 + d2 + fr, d1 + d2 as usize + extra)], two)
        }
        12 => {
            let m = pick_max(r) + 2;
            let (k, p, d) = match r.below(3) {
                0 => (K::OneZero, [0.0, 1.0, 0.0, 0.0, 0.0], 1),
                1 => (K::TwoZero, [0.0, 1.0, 0.0, 0.0, 0.0], 1),
                _ => (r.pick(&[K::TwoZero, bq]), [0.0, 0.0, 1.0, 0.0, 0.0], 2),
            };
            let line = if r.chance(0.5) { dl(d, m) } else { ld(d as f64, m) };
            ("shifting zero filter = delay", vec![f(k, p)], vec![line])
        }
        13 => {
            let m = pick_max(r) + 2;
            let fr = r.range(0, 64) as f64 / 64.0;
            if r.chance(0.5) {
                ("averaging zero filter = fractional delay", vec![f(K::OneZero, [1.0 - fr, fr, 0.0, 0.0, 0.0])], vec![ld(fr, m)])
            } else {
                ("averaging zero filter = fractional delay", vec![f(K::TwoZero, [0.0, 1.0 - fr, fr, 0.0, 0.0])], vec![ld(1.0 + fr, m)])
            }
        }
        _ => {
            let al = r.range(0, 1023) as f64 / 1024.0;
            let k = r.pick(&[K::OnePole, K::TwoPole, bq]);
            ("leaky integrator = one pole", vec![f(K::Leaky, [al, 0.0, 0.0, 0.0, 0.0])], vec![f(k, [1.0 - al, 0.0, 0.0, -al, 0.0])])
        }
    };
    let xs = signal::<T>(&mut c.rng, n, amp);
    relation::<T>(c, name, &[ch(1.0, &a), ch(-1.0, &b)], 0.0, exact, &xs)
}
pub fn c32_compose(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { compose::<f32>(c) } else { compose::<f64>(c) }
}

/// With one common time constant the detectors are leaky integrators of the
/// magnitude and of the square.
pub fn c32_detectors(c: &mut Case) -> Res {
    fn go<T: Sample>(c: &mut Case, square: bool) -> Res {
        let len = T::of(c.rng.logu(0.1, 5000.0));
        let cfg = Cfg { kind: if square { K::RmsEnv } else { K::PeakEnv }, p: [len.f(), len.f(), 0.0, 0.0, 0.0], max: 0 };
        let mut d = AnyProc::<T>::build(&cfg);
        let g = d.getters();
        ensure!(g[0] == g[1], "{:?}<{}>: equal attack and release lengths {:?} give gains {:?}", cfg.kind, T::NAME, len, g);
        let al = g[0];
        if al >= 1.0 {
            return Ok(());
        }
        let mut l = AnyProc::<T>::build(&Cfg { kind: K::Leaky, p: [al, 0.0, 0.0, 0.0, 0.0], max: 0 });
        let amp = amplitude::<T>(&mut c.rng, -40, 40);
        let n = c.rng.range(30, 400) * c.depth;
        let xs = signal::<T>(&mut c.rng, n, amp);
        c.desc = format!("{:?}<{}> of length {:?} both ways against a leaky integrator of gain {:e}, {} samples, amplitude {:e}", cfg.kind, T::NAME, len, al, n, amp);
        c.mix(len.bits());
        c.mix(amp.to_bits() ^ square as u64);
        let mut tol = 0.0;
        let mut prev = 0.0f64;
        for (i, x) in xs.iter().enumerate() {
            let y = d.process(*x).f();
            let m = if square { y * y } else { y };
            let z = if square { *x * *x } else { x.abs() };
            let e = l.process(z).f();
            tol = al * tol * (1.0 + 4.0 * T::EPS) + 16.0 * T::EPS * z.f().max(prev) + 64.0 * T::TINY;
            prev = e.abs();
            let t = tol + 8.0 * T::EPS * e.abs();
            ensure!(close(m, e, t), "{:?}<{}> with length {:?} both ways: sample #{}: {} is {:e}, the leaky integrator of gain {:e} says {:e} +- {:e}", cfg.kind, T::NAME, len, i, if square { "the squared reading" } else { "the reading" }, m, al, e, t);
            if e > 100.0 * t {
                c.nontrivial = true;
                c.seen("combined outputs judged to better than 1%", 1);
            }
            c.seen("combined outputs judged", 1);
        }
        c.seen("detector = leaky integrator", 1);
        Ok(())
    }
    let sq = c.index % 2 == 0;
    if c.rng.chance(0.5) { go::<f32>(c, sq) } else { go::<f64>(c, sq) }
}

// ----------------------------------------------------------------- C29

/// Non-recursive processors: the far past has no influence at all.
pub fn c29_finite(c: &mut Case) -> Res {
    fn go<T: Sample>(c: &mut Case) -> Res {
        let kind = [K::OneZero, K::TwoZero, K::Delay, K::LinearDelay][c.index % 4];
        let (cfg0, ops) = history::<T>(&mut c.rng, kind, &HOSTILE);
        let mut p = AnyProc::<T>::build(&cfg0);
        let mut sink = Vec::new();
        for o in &ops {
            apply(&mut p, o, &mut sink);
            sink.clear();
        }
        // extra poison right before the common part
        for _ in 0..c.rng.range(0, 6) {
            let x = hostile::<T>(&mut c.rng);
            p.process(x);
        }
        let mut cfg = stable_cfg(&mut c.rng, kind, 0.9);
        let memory = if kind.is_delay() {
            let m = p.max_delay().unwrap();
            cfg.max = m;
            cfg.p[0] = if kind == K::Delay {
                c.rng.range(0, m) as f64
            } else if c.rng.chance(0.4) {
                c.rng.range(0, m) as f64
            } else {
                (c.rng.uni(0.0, m as f64) as f32) as f64
            };
            if kind == K::Delay { cfg.p[0] as usize } else { cfg.p[0] as usize + 2 }
        } else if kind == K::OneZero {
            1
        } else {
            2
        };
        let style = c.rng.below(2);
        p.configure(&cfg, style);
        // the reference instance: new, its line as long or longer
        let mut qc = cfg;
        if kind.is_delay() && c.rng.chance(0.5) {
            qc.max += c.rng.range(0, 40);
        }
        let mut q = AnyProc::<T>::build(&qc);
        let n = memory + c.rng.range(5, 60) * c.depth;
        let amp = amplitude::<T>(&mut c.rng, T::LO, T::HI);
        let xs = signal::<T>(&mut c.rng, n, amp);
        c.desc = format!("{:?}<{}> {:?} (max {}) after {} operations, then {} common samples, memory {}", kind, T::NAME, cfg.p, cfg.max, ops.len(), n, memory);
        c.mix(kind as u64);
        c.mix(cfg.p[0].to_bits() ^ cfg.p[1].to_bits().rotate_left(9));
        c.mix(ops.len() as u64);
        c.mix(amp.to_bits());
        let mut judged = 0;
        for (i, x) in xs.iter().enumerate() {
            let (a, b) = (p.process(*x), q.process(*x));
            if i >= memory {
                judged += 1;
                ensure!(same(a, b), "{:?}<{}> with settings {:?}: {} samples after its past ended (memory: {}), it gives {:?}, an instance without that past {:?}", kind, T::NAME, cfg.p, i, memory, a, b);
                if b != T::zero() {
                    c.nontrivial = true;
                }
            }
            if kind.is_delay() && c.rng.chance(0.05) {
                let k = c.rng.range(0, i.min(cfg.max));
                let (a, b) = (p.tap_out(k).unwrap(), q.tap_out(k).unwrap());
                ensure!(same(a, b), "{:?}<{}>: tap {} reads {:?} / {:?}, {} samples after the pasts ended", kind, T::NAME, k, a, b, i + 1);
                c.seen("taps compared", 1);
            }
        }
        c.seen("outputs beyond a finite memory", judged);
        Ok(())
    }
    if c.rng.chance(0.5) { go::<f32>(c) } else { go::<f64>(c) }
}

/// Recursive filters: the influence of the past follows the poles.
pub fn c29_fading(c: &mut Case) -> Res {
    const FIN: HProf = HProf { ops: 30, configure: 0.1, clear: 0.03, block: 0.1, taps: 0.0, hostile: 0.0, tame: true, amp_lo: -20, amp_hi: 20 };
    fn go<T: Sample>(c: &mut Case) -> Res {
        let kinds = [
            K::OnePole, K::TwoPole, K::Biquad1, K::Biquad2, K::Leaky, K::LowPass, K::HighPass, K::BandPass1, K::BandPass2, K::BandStop, K::AllPass, K::Peak,
            K::LowShelf, K::HighShelf,
        ];
        let kind = kinds[c.index % kinds.len()];
        let mk = |c: &mut Case| {
            let (cfg, ops) = history::<T>(&mut c.rng, kind, &FIN);
            let mut p = AnyProc::<T>::build(&cfg);
            let mut v = Vec::new();
            for o in &ops {
                apply(&mut p, o, &mut v);
            }
            (p, ops.len())
        };
        let (mut p, np) = mk(c);
        let (mut q, nq) = if c.rng.chance(0.7) { mk(c) } else { (AnyProc::<T>::new(kind, 0), 0) };
        let cfg = stable_cfg(&mut c.rng, kind, 0.97);
        p.configure(&cfg, 0);
        q.configure(&cfg, 1);
        let st = stage::<T>(cfg);
        let n = c.rng.range(20, 250) * c.depth.min(3);
        let amp = amplitude::<T>(&mut c.rng, -20, 20);
        let xs = signal::<T>(&mut c.rng, n, amp);
        c.desc = format!("{:?}<{}> {:?}: pasts of {} and {} operations, then {} common samples", kind, T::NAME, cfg.p, np, nq, n);
        c.mix(kind as u64);
        for v in &cfg.p {
            c.mix(v.to_bits());
        }
        c.mix((np * 1000 + nq) as u64);
        let a: Vec<f64> = p.run(&xs).iter().map(|v| v.f()).collect();
        let b: Vec<f64> = q.run(&xs).iter().map(|v| v.f()).collect();
        let xf: Vec<f64> = xs.iter().map(|v| v.f()).collect();
        if n < 4 || !a.iter().chain(&b).all(|v| v.is_finite()) {
            c.seen("overflowed", 1);
            return Ok(());
        }
        let g: Vec<f64> = st.impulse(n, &[1.0]).iter().map(|v| v.abs()).collect();
        let t: Vec<f64> = (0..n).map(|i| st.step_tol::<T>(&xf, &a, i) + st.step_tol::<T>(&xf, &b, i)).collect();
        // the difference of the two, from the third common sample on
        let (mut d1, mut d2) = (a[1] - b[1], a[0] - b[0]);
        let start = d1.abs().max(d2.abs());
        let mut last = (0.0, 0.0);
        for i in 2..n {
            let e = -st.a[1] * d1 - st.a[2] * d2;
            let tol = (2..=i).map(|j| g[i - j] * t[j]).sum::<f64>() + 64.0 * f64::EPSILON * (i as f64) * start;
            let d = a[i] - b[i];
            ensure!(close(d, e, tol), "{:?}<{}> with settings {:?}: {} samples after their different pasts ended, two instances differ by {:e}; their poles allow {:e} +- {:e}", kind, T::NAME, cfg.p, i, d, e, tol);
            d2 = d1;
            d1 = e;
            last = (d.abs(), tol);
        }
        c.seen("fading differences judged", n as u64 - 2);
        if start > 0.0 {
            c.nontrivial = true;
            if last.0 < 1e-3 * start {
                c.seen("pasts followed until forgotten (-60 dB)", 1);
            }
        }
        Ok(())
    }
    if c.rng.chance(0.5) { go::<f32>(c) } else { go::<f64>(c) }
}

// ----------------------------------------------------------------- C31

fn lines<T: Sample>(c: &mut Case, big: bool) -> Res {
    let r = &mut c.rng;
    let mut max = if big { r.range(4000, 140_000) } else { pick_max(r) };
    let d0 = if r.chance(0.1) { max + 5 } else { r.range(0, max) };
    let mut a = rasp(|| Delay::<T>::new(d0, max));
    let mut b = rasp(|| LinearDelay::<T>::new(d0 as f32, max));
    let amp = amplitude::<T>(r, T::LO, T::HI);
    let n_ops = r.range(10, 120) * c.depth;
    c.desc = format!("Delay and LinearDelay<{}>, delay {} of {}, {} operations, amplitude {:e}", T::NAME, d0, max, n_ops, amp);
    c.mix(max as u64);
    c.mix(d0 as u64);
    c.mix(n_ops as u64);
    c.mix(amp.to_bits());
    macro_rules! same_out {
        ($x:expr, $y:expr, $($m:tt)*) => {{
            let (x, y): (T, T) = ($x, $y);
            if !same(x, y) {
                fail!("{}: Delay<{}> gives {:?}, LinearDelay {:?} (delay {} of {})", format!($($m)*), T::NAME, x, y, rasp(|| a.get_delay()), max);
            }
            if x != T::zero() {
                c.nontrivial = true;
                c.seen("nonzero pairs", 1);
            }
            c.seen("pairs compared", 1);
        }};
    }
    for op in 0..n_ops {
        match c.rng.below(14) {
            0 | 1 => {
                let d = match c.rng.below(6) {
                    0 => 0,
                    1 => max,
                    2 => max.saturating_sub(1),
                    3 if !big => max + c.rng.range(1, 9),
                    _ => c.rng.range(0, max),
                };
                c.note(|| format!("set_delay({})", d));
                rasp(|| a.set_delay(d));
                rasp(|| b.set_delay(d as f32));
                c.seen("delay changes", 1);
            }
            2 if max < 200_000 => {
                let m = match c.rng.below(3) {
                    0 => c.rng.range(0, max),
                    _ => max + c.rng.range(1, 30),
                };
                c.note(|| format!("set_max_delay({})", m));
                rasp(|| a.set_max_delay(m));
                rasp(|| b.set_max_delay(m));
                max = rasp(|| a.get_max_delay());
                c.seen("capacity changes", 1);
            }
            3 => {
                if c.rng.chance(0.2) {
                    rasp(|| a.clear());
                    rasp(|| b.clear());
                    c.seen("clears", 1);
                }
            }
            4 => {
                let k = c.rng.range(0, max);
                same_out!(rasp(|| a.tap_out(k)), rasp(|| b.tap_out(k)), "op {}: tap_out({})", op, k);
            }
            5 => {
                let k = c.rng.range(0, max);
                let v = T::of(amp * c.rng.uni(-1.0, 1.0));
                c.note(|| format!("tap_in({:?}, {})", v, k));
                if c.rng.chance(0.5) {
                    rasp(|| a.tap_in(v, k));
                    rasp(|| b.tap_in(v, k));
                } else {
                    same_out!(rasp(|| a.add_to(v, k)), rasp(|| b.add_to(v, k)), "op {}: add_to({:?}, {})", op, v, k);
                }
            }
            6 => {
                same_out!(rasp(|| a.next_out()), rasp(|| b.next_out()), "op {}: next_out", op);
                same_out!(rasp(|| a.last_out()), rasp(|| b.last_out()), "op {}: last_out", op);
            }
            7 | 8 => {
                let n = if big { c.rng.range(0, 60_000) } else { c.rng.range(0, 300) };
                let mut x = signal::<T>(&mut c.rng, n, amp);
                let mut y = x.clone();
                c.note(|| format!("process_block of {}", n));
                let (ra, rb) = (rasp(|| a.process_block(&mut x)), rasp(|| b.process_block(&mut y)));
                same_out!(ra, rb, "op {}: process_block of {} returned", op, n);
                for i in 0..n {
                    same_out!(x[i], y[i], "op {}: process_block of {}, sample {}", op, n, i);
                }
            }
            _ => {
                let n = c.rng.range(1, 30);
                for x in signal::<T>(&mut c.rng, n, amp) {
                    c.note(|| format!("process({:?})", x));
                    same_out!(rasp(|| a.process(x)), rasp(|| b.process(x)), "op {}: process({:?})", op, x);
                }
            }
        }
        let (da, db) = (rasp(|| a.get_delay()) as f64, rasp(|| b.get_delay()) as f64);
        ensure!(da == db, "op {}: Delay<{}> reports a delay of {}, LinearDelay {}", op, T::NAME, da, db);
        let (ma, mb) = (rasp(|| a.get_max_delay()), rasp(|| b.get_max_delay()));
        ensure!(ma == mb, "op {}: Delay<{}> reports a maximum of {}, LinearDelay {}", op, T::NAME, ma, mb);
        c.seen("settings compared", 1);
    }
    Ok(())
}
pub fn c31_lines(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { lines::<f32>(c, false) } else { lines::<f64>(c, false) }
}
pub fn c31_big(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { lines::<f32>(c, true) } else { lines::<f64>(c, true) }
}

// ----------------------------------------------------------------- C33

trait Meter<T: Sample>: Processor<T> {
    const NAME: &'static str;
    const SQUARE: bool;
    fn make() -> Self;
    fn set(&mut self, attack: T, release: T);
    fn gain(&self) -> f64;
}
impl<T: Sample> Meter<T> for PeakEnvDetector<T> {
    const NAME: &'static str = "PeakEnvDetector";
    const SQUARE: bool = false;
    fn make() -> Self {
        rasp(|| PeakEnvDetector::new())
    }
    fn set(&mut self, a: T, r: T) {
        rasp(|| self.set_attack(a));
        rasp(|| self.set_release(r));
    }
    fn gain(&self) -> f64 {
        rasp(|| self.get_attack_gain().f().max(self.get_release_gain().f()))
    }
}
impl<T: Sample> Meter<T> for RmsEnvDetector<T> {
    const NAME: &'static str = "RmsEnvDetector";
    const SQUARE: bool = true;
    fn make() -> Self {
        rasp(|| RmsEnvDetector::new())
    }
    fn set(&mut self, a: T, r: T) {
        rasp(|| self.set_attack(a));
        rasp(|| self.set_release(r));
    }
    fn gain(&self) -> f64 {
        rasp(|| self.get_attack_gain().f().max(self.get_release_gain().f()))
    }
}

/// Two meters, the second set or fed so that it may never read higher.
fn order<T: Sample, D: Meter<T>>(c: &mut Case) -> Res {
    let mode = c.rng.below(3);
    let mut hi = D::make();
    let mut lo = D::make();
    let amp = amplitude::<T>(&mut c.rng, T::LO / 3, T::HI / 3);
    let n_ops = c.rng.range(2, 20) * c.depth;
    let mut tol = 0.0f64;
    let (mut g, mut ph, mut pl) = (0.0f64, 0.0f64, 0.0f64);
    let sq = |v: f64| if D::SQUARE { v * v } else { v };
    c.mix(amp.to_bits());
    c.mix(mode as u64 * 2 + D::SQUARE as u64);
    for op in 0..n_ops {
        if op == 0 || c.rng.chance(0.25) {
            let (a, r) = (c.rng.logu(0.05, 3000.0), c.rng.logu(0.05, 3000.0));
            let (ta, tr) = (T::of(a), T::of(r));
            hi.set(ta, tr);
            match mode {
                // slower attack, faster release: reads lower
                1 => lo.set(T::of(a * c.rng.uni(1.0, 20.0)), tr),
                2 => lo.set(ta, T::of(r / c.rng.uni(1.0, 20.0))),
                _ => lo.set(ta, tr),
            }
            g = hi.gain().max(lo.gain());
            c.mix(a.to_bits() ^ r.to_bits().rotate_left(11));
        }
        let n = c.rng.range(1, 60);
        let xs = signal::<T>(&mut c.rng, n, amp);
        let quiet = c.rng.below(3);
        let k = c.rng.uni(0.0, 1.0);
        for (i, x) in xs.iter().enumerate() {
            let x2 = if mode != 0 {
                *x
            } else {
                let u = match quiet {
                    0 => k,
                    1 => c.rng.f(),
                    _ => c.rng.pick(&[1.0, -1.0, 0.999, 0.0]),
                };
                let v = T::of(x.f() * u);
                // rounding never makes it louder
                if v.abs() > x.abs() { *x } else { v }
            };
            let (yh, yl) = (rasp(|| hi.process(*x)).f(), rasp(|| lo.process(x2)).f());
            let m = sq(x.f().abs()).max(ph).max(pl);
            tol = g * tol * (1.0 + 8.0 * T::EPS) + 16.0 * T::EPS * m + 64.0 * T::TINY;
            let (mh, ml) = (sq(yh), sq(yl));
            let t = tol + 8.0 * T::EPS * ml;
            ensure!(
                ml <= mh + t,
                "{}<{}>, {}: op {}, sample {}: the lower one reads {:e}, the higher one {:e}", D::NAME, T::NAME,
                ["a signal that is never louder", "a slower attack", "a faster release"][mode], op, i, yl, yh
            );
            if mh - ml > 10.0 * t {
                c.seen("readings told apart", 1);
                c.nontrivial = true;
            }
            ph = mh;
            pl = ml;
            c.seen("readings compared", 1);
        }
    }
    c.desc = format!("{}<{}>, mode {}, {} ops, amplitude {:e}", D::NAME, T::NAME, mode, n_ops, amp);
    Ok(())
}
pub fn c33_order(c: &mut Case) -> Res {
    match c.rng.below(4) {
        0 => order::<f32, PeakEnvDetector<f32>>(c),
        1 => order::<f64, PeakEnvDetector<f64>>(c),
        2 => order::<f32, RmsEnvDetector<f32>>(c),
        _ => order::<f64, RmsEnvDetector<f64>>(c),
    }
}

/// With one common time constant the mean magnitude cannot exceed the RMS.
pub fn c33_peak_rms(c: &mut Case) -> Res {
    fn go<T: Sample>(c: &mut Case) -> Res {
        let len = T::of(c.rng.logu(0.05, 3000.0));
        let mut p = rasp(|| PeakEnvDetector::<T>::new());
        let mut r = rasp(|| RmsEnvDetector::<T>::new());
        Meter::set(&mut p, len, len);
        Meter::set(&mut r, len, len);
        let g = Meter::gain(&p).max(Meter::gain(&r));
        let amp = amplitude::<T>(&mut c.rng, T::LO / 3, T::HI / 3);
        let n = c.rng.range(20, 500) * c.depth;
        let xs = signal::<T>(&mut c.rng, n, amp);
        c.desc = format!("peak and RMS<{}> of length {:?}, {} samples, amplitude {:e}", T::NAME, len, n, amp);
        c.mix(len.bits());
        c.mix(amp.to_bits());
        let mut tol = 0.0f64;
        let (mut a, mut b) = (0.0f64, 0.0f64);
        for (i, x) in xs.iter().enumerate() {
            let m = (x.f() * x.f()).max(a * a).max(b * b);
            let (yp, yr) = (rasp(|| p.process(*x)).f(), rasp(|| r.process(*x)).f());
            // in the square: twice the reading times its error
            tol = g * tol * (1.0 + 8.0 * T::EPS) + 64.0 * T::EPS * m + 256.0 * T::TINY;
            let t = tol + 16.0 * T::EPS * yr * yr + 1e-6 * T::EPS * yp * yp;
            ensure!(yp * yp <= yr * yr + 2.0 * t, "length {:?} everywhere, <{}>: sample #{}: the mean magnitude {:e} exceeds the RMS {:e}", len, T::NAME, i, yp, yr);
            if yr * yr > yp * yp + 10.0 * t {
                c.seen("readings told apart", 1);
                c.nontrivial = true;
            }
            a = yp;
            b = yr;
            c.seen("peak / RMS pairs compared", 1);
        }
        Ok(())
    }
    if c.rng.chance(0.5) { go::<f32>(c) } else { go::<f64>(c) }
}

// ----------------------------------------------------------------- C34

/// A processor as a user of the crate would write one: its own state, and any
/// of the crate's processors inside.  Everything that is called is recorded.
struct Custom<T: Sample> {
    stages: Vec<AnyProc<T>>,
    parallel: bool,
    mix: T,
    last: T,
    calls: Vec<(u8, u64)>,
}
impl<T: Sample> Custom<T> {
    fn step(&mut self, x: T) -> T {
        let mut y = x;
        let mut sum = T::zero();
        for s in self.stages.iter_mut() {
            if self.parallel {
                sum = sum + s.process(x);
            } else {
                y = s.process(y);
            }
        }
        let y = if self.parallel { sum } else { y };
        self.mix * x + y
    }
}
impl<T: Sample> Processor<T> for Custom<T> {
    fn process(&mut self, x: T) -> T {
        let y = self.step(x);
        self.calls.push((0, x.bits()));
        self.last = y;
        y
    }
    fn clear(&mut self) {
        self.calls.push((1, 0));
        for s in self.stages.iter_mut() {
            s.clear();
        }
        self.last = T::zero();
    }
    fn last_out(&self) -> T {
        self.last
    }
}

fn custom<T: Sample>(c: &mut Case) -> Res {
    let k = c.rng.range(0, 3);
    let kinds: Vec<Cfg> = (0..k).map(|_| { let k = c.rng.pick(&KINDS); stable_cfg(&mut c.rng, k, 0.98) }).collect();
    let parallel = c.rng.chance(0.4);
    let mix = T::of(c.rng.pick(&[0.0, 1.0, 0.5, -0.25]));
    let make = || Custom {
        stages: kinds.iter().map(|g| AnyProc::<T>::build(g)).collect(),
        parallel,
        mix,
        last: T::zero(),
        calls: Vec::new(),
    };
    let (mut a, mut b) = (make(), make());
    let dynamic = c.rng.chance(0.5);
    let rounds = c.rng.range(1, 8) * c.depth.min(4);
    c.desc = format!("a user-written processor around {:?}, {} blocks, {}", kinds.iter().map(|g| g.kind).collect::<Vec<_>>(), rounds, if dynamic { "as a trait object" } else { "as its own type" });
    for g in &kinds {
        c.mix(g.kind as u64 ^ g.p[0].to_bits());
    }
    let mut total = 0usize;
    for round in 0..rounds {
        let len = match c.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => c.rng.range(100, 3000),
            3 => c.rng.pick(&[2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 256, 512, 1024]),
            _ => c.rng.range(2, 60),
        };
        let mut xs = signal::<T>(&mut c.rng, len, 1.0);
        if c.rng.chance(0.15) {
            for x in xs.iter_mut() {
                if c.rng.chance(0.1) {
                    *x = hostile(&mut c.rng);
                }
            }
        }
        let pad = T::of(1234.5);
        let mut buf = vec![pad];
        buf.extend_from_slice(&xs);
        buf.push(pad);
        a.calls.clear();
        let ret = if dynamic {
            crate::zoo::object_block(&mut a, &mut buf[1..len + 1])
        } else {
            rasp(|| a.process_block(&mut buf[1..len + 1]))
        };
        let want: Vec<(u8, u64)> = xs.iter().map(|x| (0, x.bits())).collect();
        ensure!(
            a.calls == want,
            "block #{} of {} samples given to a user-written processor: it was called {} times, {}", round, len, a.calls.len(),
            if a.calls.len() == len { "with other samples or in another order".to_string() } else { "not once per sample".to_string() }
        );
        ensure!(buf[0] == pad && buf[len + 1] == pad, "block #{} of {} samples: a sample outside the block was written", round, len);
        for i in 0..len {
            let y = b.process(xs[i]);
            ensure!(same(buf[i + 1], y), "block #{} of {} samples given to a user-written processor: sample {} is {:?}, its process call returned {:?}", round, len, i, buf[i + 1], y);
        }
        let told = b.last_out();
        ensure!(same(ret, told), "block #{} of {} samples returned {:?}, the processor's last_out says {:?}", round, len, ret, told);
        ensure!(same(a.last, b.last), "block #{} of {} samples: the state differs from one sample at a time", round, len);
        total += len;
        if len > 1 {
            c.nontrivial = true;
        }
        c.seen("user-written processor blocks", 1);
        c.seen("empty blocks", (len == 0) as u64);
        if c.rng.chance(0.1) {
            a.clear();
            b.clear();
        }
    }
    c.seen("user-written processor calls judged", total as u64);
    // the crate's own processors through a trait object
    let kind = KINDS[c.index % KINDS.len()];
    let cfg = stable_cfg(&mut c.rng, kind, 0.98);
    let (mut p, mut q) = (AnyProc::<T>::build(&cfg), AnyProc::<T>::build(&cfg));
    let len = c.rng.range(0, 80);
    let xs = signal::<T>(&mut c.rng, len, 1.0);
    let mut buf = xs.clone();
    let ret = p.object_block(&mut buf);
    for i in 0..len {
        let y = q.process(xs[i]);
        ensure!(same(buf[i], y), "{:?}<{}> as a trait object: sample {} of a block is {:?}, should be {:?}", kind, T::NAME, i, buf[i], y);
    }
    ensure!(same(ret, q.last_out()), "{:?}<{}> as a trait object: a block of {} returned {:?}, should be {:?}", kind, T::NAME, len, ret, q.last_out());
    c.seen("trait object samples judged", len as u64);
    // the constants generic code is written with
    let (pi, two) = rasp(|| (T::pi(), T::two()));
    ensure!(pi == T::of(std::f64::consts::PI) && two == T::of(2.0), "{}: pi is {:?}, two is {:?}", T::NAME, pi, two);
    c.seen("constants judged", 2);
    Ok(())
}
pub fn c34_custom(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { custom::<f32>(c) } else { custom::<f64>(c) }
}

// ----------------------------------------------------------------- C35

/// Requests that change settings, none of which processes a sample.
fn detour<T: Sample>(r: &mut Rng, p: &mut AnyProc<T>, kind: Kind, max: usize) -> String {
    let mut g = if r.chance(0.5) { stable_cfg(r, kind, 0.99) } else { wild_cfg(r, kind) };
    let mut style = r.below(2);
    if kind.is_delay() {
        g.max = max;
        let m = max as f64;
        g.p[0] = match r.below(7) {
            0 => 0.0,
            1 => m,
            2 => m * 3.0 + 100.0,
            3 => r.range(0, max) as f64,
            4 if kind == K::LinearDelay => -r.logu(1e-3, 1e6),
            5 if kind == K::LinearDelay => r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 1e-40, 0.5]),
            _ => (r.uni(0.0, m) as f32) as f64,
        };
        if kind == K::Delay {
            g.p[0] = g.p[0].floor();
        }
    }
    // one setting alone, as a knob is turned
    if matches!(kind, K::PeakEnv | K::RmsEnv | K::Leaky) && r.chance(0.3) {
        let i = if kind == K::Leaky { 0 } else { r.below(2) };
        g.p[i] = r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, 1.0, 2.0, 1e30, 1e-30]);
        style = r.below(2);
    }
    p.configure(&g, style);
    format!("{:?}", &g.p)
}

fn overwritten<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let prof = HProf { ops: 25 * c.depth, configure: 0.0, ..if c.rng.chance(0.3) { HOSTILE } else { FINITE_HIST } };
    let (cfg, ops) = history::<T>(&mut c.rng, kind, &prof);
    let mut cfg = cfg;
    let (mut a, mut b) = (AnyProc::<T>::build(&cfg), AnyProc::<T>::build(&cfg));
    let max = cfg.max;
    c.desc = format!("{:?}<{}> {:?} max {}, settings changed and overwritten between {} calls", kind, T::NAME, cfg.p, max, ops.len());
    c.mix(kind as u64 ^ cfg.p[0].to_bits());
    let mut out = (Vec::new(), Vec::new());
    let mut said = String::new();
    for (i, op) in ops.iter().enumerate() {
        if c.rng.chance(0.15) {
            let back = c.rng.chance(0.5);
            let n = if c.rng.chance(0.05) { 300 } else { c.rng.range(1, 4) };
            said.clear();
            for _ in 0..n {
                said = detour(&mut c.rng, &mut a, kind, max);
                if c.rng.chance(0.2) {
                    a.query(&mut c.rng);
                }
            }
            let s = c.rng.below(2);
            if !back {
                // both end at new settings, one directly
                let g = if kind.is_delay() {
                    let mut g = cfg;
                    g.p[0] = if kind == K::Delay { c.rng.range(0, max) as f64 } else { (c.rng.uni(0.0, max as f64) as f32) as f64 };
                    g
                } else {
                    stable_cfg(&mut c.rng, kind, 0.98)
                };
                cfg = g;
                b.configure(&cfg, s);
            } else if kind.is_rbj() {
                // tuning starts an RBJ filter afresh, so both are tuned
                b.configure(&cfg, s);
            }
            a.configure(&cfg, s ^ c.rng.below(2));
            c.mix(i as u64);
            c.seen("detours", n as u64);
            c.seen(if back { "returns to the settings in force" } else { "changes to new settings" }, 1);
            let (ga, gb) = (a.getters(), b.getters());
            ensure!(ga == gb, "{:?}<{}>: after settings {} were overwritten by {:?} it reports {:?}, without them {:?}", kind, T::NAME, said, cfg.p, ga, gb);
            let (la, lb) = (a.last_out(), b.last_out());
            ensure!(same(la, lb), "{:?}<{}>: after settings {} were overwritten by {:?} the last output is {:?}, without them {:?}", kind, T::NAME, said, cfg.p, la, lb);
            if kind.is_delay() {
                for k in [0, max / 2, max] {
                    let (ta, tb) = (a.tap_out(k).unwrap(), b.tap_out(k).unwrap());
                    ensure!(same(ta, tb), "{:?}<{}>: after a delay of {} was overwritten by {:?} tap {} is {:?}, without it {:?}", kind, T::NAME, said, cfg.p[0], k, ta, tb);
                }
                let (na, nb) = (a.next_out().unwrap(), b.next_out().unwrap());
                ensure!(same(na, nb), "{:?}<{}>: after a delay of {} was overwritten by {:?} the look-ahead is {:?}, without it {:?}", kind, T::NAME, said, cfg.p[0], na, nb);
            }
        }
        out.0.clear();
        out.1.clear();
        apply(&mut a, op, &mut out.0);
        apply(&mut b, op, &mut out.1);
        for k in 0..out.0.len() {
            ensure!(
                same(out.0[k], out.1[k]),
                "{:?}<{}> {:?} max {}: call #{}: {:?} after settings {} that were overwritten before any sample, {:?} without them", kind, T::NAME, cfg.p, max, i, out.0[k], said, out.1[k]
            );
            if out.0[k] != T::zero() && !said.is_empty() {
                c.nontrivial = true;
            }
        }
        c.seen("outputs compared", out.0.len() as u64);
    }
    Ok(())
}
const FINITE_HIST: HProf = crate::hist::FINITE;
pub fn c35_overwritten(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { overwritten::<f32>(c) } else { overwritten::<f64>(c) }
}
