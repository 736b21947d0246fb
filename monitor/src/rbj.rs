//! C11-C13: the RBJ filters.

use crate::mon::{Case, Res};
use crate::rng::Rng;
use crate::sample::{close, same, Sample};
use crate::signal::{amplitude, hostile, signal, Drone};
use crate::zoo::{rbj_cfg, AnyProc, Cfg, Kind, RBJ};
use crate::{ensure, fail};
use std::f64::consts::PI;
use Kind as K;

/// Reference filter: cookbook analog prototype under the bilinear transform.
#[derive(Clone, Copy, Debug)]
pub struct Ref {
    pub b: [f64; 3],
    /// a[0] = 1
    pub a: [f64; 3],
    /// magnitudes of the quantities whose rounding ends up in b and a
    pub eb: f64,
    pub ea: f64,
    pub w0: f64,
    /// A of the cookbook (amplitude = A^2)
    pub big_a: f64,
    pub q: f64,
}

/// Settings as the sample type stores them.
pub fn rounded<T: Sample>(c: &Cfg) -> [f64; 4] {
    [T::of(c.p[0]).f(), T::of(c.p[1]).f(), T::of(c.p[2]).f(), T::of(c.p[3]).f()]
}

pub fn reference<T: Sample>(c: &Cfg) -> Ref {
    let [sr, f, qs, g] = rounded::<T>(c);
    let w0 = 2.0 * PI * f / sr;
    let k = (w0 / 2.0).tan();
    let big_a = 10f64.powf(g / 40.0);
    let inv_q = if c.kind.is_shelf() {
        ((big_a + 1.0 / big_a) * (1.0 / qs - 1.0) + 2.0).sqrt()
    } else {
        1.0 / qs
    };
    let a = big_a;
    let ra = a.sqrt();
    // numerator and denominator as [s^2, s, 1]
    let (n, d) = match c.kind {
        K::LowPass => ([0.0, 0.0, 1.0], [1.0, inv_q, 1.0]),
        K::HighPass => ([1.0, 0.0, 0.0], [1.0, inv_q, 1.0]),
        K::BandPass1 => ([0.0, 1.0, 0.0], [1.0, inv_q, 1.0]),
        K::BandPass2 => ([0.0, inv_q, 0.0], [1.0, inv_q, 1.0]),
        K::BandStop => ([1.0, 0.0, 1.0], [1.0, inv_q, 1.0]),
        K::AllPass => ([1.0, -inv_q, 1.0], [1.0, inv_q, 1.0]),
        K::Peak => ([1.0, a * inv_q, 1.0], [1.0, inv_q / a, 1.0]),
        K::LowShelf => ([a, a * ra * inv_q, a * a], [a, ra * inv_q, 1.0]),
        K::HighShelf => ([a * a, a * ra * inv_q, a], [1.0, ra * inv_q, a]),
        k => panic!("not an RBJ filter: {:?}", k),
    };
    let z = |p: [f64; 3]| {
        let (s2, s1, s0) = (p[0], p[1] * k, p[2] * k * k);
        [s2 + s1 + s0, 2.0 * (s0 - s2), s2 - s1 + s0]
    };
    let (nb, na) = (z(n), z(d));
    let a0 = na[0];
    let b = nb.map(|v| v / a0);
    let aa = na.map(|v| v / a0);
    // Conditioning in cookbook terms (there a0 is 1+alpha.. or a sum around
    // A+1): everything that gets rounded, relative to that a0.
    let alpha = w0.sin() * inv_q / 2.0;
    let sin_err = 1.0 + inv_q * (1.0 + w0);
    let (mb, ma, ca0) = match c.kind {
        K::Peak => (2.0 + a * sin_err, 2.0 + sin_err / a, 1.0 + alpha / a),
        K::LowShelf | K::HighShelf => {
            let s = 2.0 * (a + 1.0) * 2.0 + 2.0 * ra * sin_err;
            let cw = if c.kind == K::LowShelf { w0.cos() } else { -w0.cos() };
            (a * s, s, (a + 1.0) + (a - 1.0) * cw + 2.0 * ra * alpha)
        }
        K::BandPass1 => (2.0 + sin_err, 2.0 + sin_err, 1.0 + alpha),
        _ => (2.0 + sin_err, 2.0 + sin_err, 1.0 + alpha),
    };
    let ea = ma / ca0;
    // b is divided by a0, so a0's own relative rounding scales b as well
    let bs = b.iter().map(|v| v.abs()).sum::<f64>();
    Ref { b, a: aa, eb: mb / ca0 + bs * ea, ea: ea + ea * 2.0, w0, big_a, q: 1.0 / inv_q }
}

impl Ref {
    /// Largest pole radius.
    pub fn radius(&self) -> f64 {
        let (a1, a2) = (self.a[1], self.a[2]);
        let disc = a1 * a1 - 4.0 * a2;
        if disc <= 0.0 {
            a2.max(0.0).sqrt()
        } else {
            let s = disc.sqrt();
            ((-a1 + s) / 2.0).abs().max(((-a1 - s) / 2.0).abs())
        }
    }
    /// Bound on the movement of the poles under a perturbation d of a1, a2.
    pub fn pole_shift(&self, d: f64) -> f64 {
        let disc = (self.a[1] * self.a[1] - 4.0 * self.a[2]).abs();
        let gap = disc.sqrt();
        (2.0 * d / gap.max(1e-300)).min((2.0 * d).sqrt())
    }
    pub fn response(&self, w: f64) -> (f64, f64) {
        let e = |p: &[f64; 3]| {
            (
                p[0] + p[1] * w.cos() + p[2] * (2.0 * w).cos(),
                -(p[1] * w.sin() + p[2] * (2.0 * w).sin()),
            )
        };
        let (n, d) = (e(&self.b), e(&self.a));
        let m = d.0 * d.0 + d.1 * d.1;
        ((n.0 * d.0 + n.1 * d.1) / m, (n.1 * d.0 - n.0 * d.1) / m)
    }
    pub fn a_mag(&self, w: f64) -> f64 {
        let re = 1.0 + self.a[1] * w.cos() + self.a[2] * (2.0 * w).cos();
        let im = self.a[1] * w.sin() + self.a[2] * (2.0 * w).sin();
        re.hypot(im)
    }
    pub fn impulse(&self, n: usize) -> Vec<f64> {
        self.impulse_of(self.b, n)
    }
    /// impulse response of 1 / A(z): how rounding errors decay
    pub fn pole_impulse(&self, n: usize) -> Vec<f64> {
        self.impulse_of([1.0, 0.0, 0.0], n)
    }
    fn impulse_of(&self, b: [f64; 3], n: usize) -> Vec<f64> {
        let mut h = Vec::with_capacity(n);
        let (mut z1, mut z2) = (0.0, 0.0);
        for i in 0..n {
            let x = if i == 0 { 1.0 } else { 0.0 };
            let y = b[0] * x + z1;
            z1 = b[1] * x + z2 - self.a[1] * y;
            z2 = b[2] * x - self.a[2] * y;
            h.push(y);
        }
        h
    }
}

pub fn tuning<T: Sample>(r: &mut Rng, kind: Kind) -> Cfg {
    let f64t = T::EPS < 1e-10;
    match r.below(5) {
        // extreme corners
        0 if f64t && r.chance(0.4) => rbj_cfg(r, kind, 1e-7, 0.49999, 1e-3, 1e4, 140.0),
        0 => rbj_cfg(r, kind, if f64t { 1e-5 } else { 1e-3 }, 0.4999, 0.02, 500.0, 60.0),
        1 => rbj_cfg(r, kind, 0.001, 0.499, 0.1, 30.0, 30.0),
        _ => rbj_cfg(r, kind, 0.005, 0.49, 0.3, 12.0, 24.0),
    }
}

fn mix_cfg(c: &mut Case, g: &Cfg) {
    c.mix(g.kind as u64);
    for v in &g.p {
        c.mix(v.to_bits());
    }
}

/// Residual of the reference recurrence over the observed history.
fn residual<T: Sample>(c: &mut Case, long: bool) -> Res {
    let kind = RBJ[c.index % RBJ.len()];
    let cfg = tuning::<T>(&mut c.rng, kind);
    let rf = reference::<T>(&cfg);
    let mut p = AnyProc::<T>::new(kind, 0);
    // usually a fresh filter; sometimes one with a past
    let past = c.rng.chance(0.3);
    if past {
        let g = tuning::<T>(&mut c.rng, kind);
        p.configure(&g, 0);
        let xs = signal::<T>(&mut c.rng, 20, 1.0);
        p.run(&xs);
    }
    p.configure(&cfg, 0);
    let amp = amplitude::<T>(&mut c.rng, T::LO / 2, T::HI / 2);
    let n = c.rng.range(30, 400) * c.depth;
    let (n, xs) = if long {
        let n = c.rng.range(50_000, 70_000);
        let mut d = Drone::new(&mut c.rng, 1.0);
        (n, (0..n as u64).map(|i| T::of(d.at(&mut c.rng, i))).collect())
    } else {
        (n, signal::<T>(&mut c.rng, n, amp))
    };
    c.desc = format!("{:?}<{}> tuned to {:?}, amplitude {:e}, {} samples", kind, T::NAME, rounded::<T>(&cfg), amp, n);
    mix_cfg(c, &cfg);
    let (mut x1, mut x2, mut y1, mut y2) = (0.0, 0.0, 0.0, 0.0);
    let (kb, ka) = (24.0 * T::EPS * rf.eb, 24.0 * T::EPS * rf.ea);
    let mut worst = 0.0f64;
    let mut sig = 0u64;
    for (i, x) in xs.iter().enumerate() {
        let y = p.process(*x).f();
        let xf = x.f();
        let t = [rf.b[0] * xf, rf.b[1] * x1, rf.b[2] * x2, -rf.a[1] * y1, -rf.a[2] * y2];
        let e: f64 = t.iter().sum();
        let mag: f64 = t.iter().map(|v| v.abs()).sum();
        let tol = kb * (xf.abs() + x1.abs() + x2.abs()) + ka * (y1.abs() + y2.abs()) + 16.0 * T::EPS * mag + 256.0 * T::TINY * (1.0 + rf.eb + rf.ea);
        if !close(y, e, tol) {
            fail!(
                "{:?}<{}> tuned to [rate, frequency, Q or slope, dB] = {:?}: sample #{}: got {:e}, the cookbook transfer function gives {:e} +- {:e}",
                kind, T::NAME, rounded::<T>(&cfg), i, y, e, tol
            );
        }
        worst = worst.max((y - e).abs() / tol);
        if mag > 1e2 * tol {
            sig += 1;
        }
        x2 = x1;
        x1 = xf;
        y2 = y1;
        y1 = y;
    }
    c.seen("outputs judged", n as u64);
    c.seen("outputs judged with signal > 100 x tolerance", sig);
    c.nontrivial = sig > 0;
    if std::env::var("MON_WORST").is_ok() && worst > 0.2 {
        println!("worst {} {}", worst, c.desc);
    }
    Ok(())
}
pub fn c11_residual(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { residual::<f32>(c, false) } else { residual::<f64>(c, false) }
}
pub fn c11_long(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { residual::<f32>(c, true) } else { residual::<f64>(c, true) }
}

/// Frequency response measured from the impulse response.
fn response<T: Sample>(c: &mut Case) -> Res {
    let kind = RBJ[c.index % RBJ.len()];
    let f64t = T::EPS < 1e-10;
    let (cfg, rf, rad) = loop {
        let cfg = if f64t && c.rng.chance(0.5) {
            rbj_cfg(&mut c.rng, kind, 0.002, 0.495, 0.1, 30.0, 40.0)
        } else {
            rbj_cfg(&mut c.rng, kind, 0.01, 0.48, 0.3, 10.0, 24.0)
        };
        let rf = reference::<T>(&cfg);
        let rad = rf.radius();
        // only responses that can be recorded in full
        if 1.0 - rad > 2e-4 {
            break (cfg, rf, rad);
        }
    };
    let n = (42.0 / (1.0 - rad)) as usize + 50;
    let mut p = AnyProc::<T>::build(&cfg);
    // impulse of a random level, for level independence
    let lvl = 2f64.powi(c.rng.irange(-20, 20) as i32);
    let mut x = vec![T::zero(); n];
    x[0] = T::of(lvl);
    let h: Vec<f64> = if c.rng.chance(0.5) {
        p.block(&mut x);
        x.iter().map(|v| v.f() / lvl).collect()
    } else {
        p.run(&x).iter().map(|v| v.f() / lvl).collect()
    };
    let show = rounded::<T>(&cfg);
    c.desc = format!("{:?}<{}> tuned to {:?}, impulse response of {} samples", kind, T::NAME, show, n);
    mix_cfg(c, &cfg);
    let dft = |w: f64| -> (f64, f64) {
        // direct sum with a rotating phasor, re-anchored now and then
        let (mut re, mut im) = (0.0, 0.0);
        let (cw, sw) = (w.cos(), w.sin());
        let (mut pr, mut pi) = (1.0, 0.0);
        for (i, v) in h.iter().enumerate() {
            if i % 256 == 0 {
                let t = w * i as f64;
                pr = t.cos();
                pi = -t.sin();
            }
            re += v * pr;
            im += v * pi;
            let nr = pr * cw + pi * sw;
            pi = pi * cw - pr * sw;
            pr = nr;
        }
        (re, im)
    };
    let tol_at = |w: f64, mag: f64| {
        let am = rf.a_mag(w);
        let noise: f64 = 200.0 * T::EPS * (rf.eb + rf.ea * (mag + 1.0)) / am
            + 200.0 * T::EPS * h.iter().map(|v| v.abs()).sum::<f64>() / am.min(1.0) * 4.0;
        noise + 1e-12
    };
    let mut judged = 0;
    let mut tight = 0;
    let a2 = rf.big_a * rf.big_a; // linear gain of the set dB value
    let gain = 10f64.powf(show[3] / 20.0);
    if (a2 - gain).abs() > 1e-9 * gain {
        fail!("monitor inconsistency: gain");
    }
    // named points with their closed-form magnitudes, then arbitrary ones
    let named: Vec<(&str, f64, Option<f64>)> = {
        let (dc, ny, ctr) = match kind {
            K::LowPass => (Some(1.0), Some(0.0), Some(rf.q)),
            K::HighPass => (Some(0.0), Some(1.0), Some(rf.q)),
            K::BandPass1 => (Some(0.0), Some(0.0), Some(rf.q)),
            K::BandPass2 => (Some(0.0), Some(0.0), Some(1.0)),
            K::BandStop => (Some(1.0), Some(1.0), Some(0.0)),
            K::AllPass => (Some(1.0), Some(1.0), Some(1.0)),
            K::Peak => (Some(1.0), Some(1.0), Some(gain)),
            K::LowShelf => (Some(gain), Some(1.0), Some(gain.sqrt())),
            _ => (Some(1.0), Some(gain), Some(gain.sqrt())),
        };
        vec![("DC", 0.0, dc), ("Nyquist", PI, ny), ("the set frequency", rf.w0, ctr)]
    };
    for (name, w, m) in named {
        let (re, im) = dft(w);
        let mag = re.hypot(im);
        let m = m.unwrap();
        let tol = tol_at(w, m);
        ensure!(
            close(mag, m, tol),
            "{:?}<{}> tuned to [rate, frequency, Q or slope, dB] = {:?}: magnitude at {} is {:e}, should be {:e} +- {:e}", kind, T::NAME, show, name, mag, m, tol
        );
        if std::env::var("MON_WORST").is_ok() {
            let (er, ei) = rf.response(w);
            let q = (re - er).abs().max((im - ei).abs()) / tol;
            if q > 0.2 {
                println!("worst {} {} at {}", q, c.desc, w);
            }
        }
        judged += 1;
        if tol < 0.02 {
            tight += 1;
        }
    }
    for _ in 0..5 {
        let w = if c.rng.chance(0.5) { c.rng.uni(0.0, PI) } else { (rf.w0 * c.rng.logu(0.2, 5.0)).min(PI) };
        let (re, im) = dft(w);
        let (er, ei) = rf.response(w);
        let tol = tol_at(w, er.hypot(ei));
        ensure!(
            close(re, er, tol) && close(im, ei, tol),
            "{:?}<{}> tuned to [rate, frequency, Q or slope, dB] = {:?}: response at {} rad/sample is {:e}{:+e}i, prototype says {:e}{:+e}i +- {:e}", kind, T::NAME, show, w, re, im, er, ei, tol
        );
        if kind == K::AllPass {
            ensure!(close(re.hypot(im), 1.0, tol), "AllPass<{}> tuned to {:?}: magnitude {:e} at {} rad/sample", T::NAME, show, re.hypot(im), w);
        }
        if std::env::var("MON_WORST").is_ok() {
            let (er, ei) = rf.response(w);
            let q = (re - er).abs().max((im - ei).abs()) / tol;
            if q > 0.2 {
                println!("worst {} {} at {}", q, c.desc, w);
            }
        }
        judged += 1;
        if tol < 0.02 {
            tight += 1;
        }
    }
    c.seen("response points judged", judged);
    c.seen("response points judged to better than 2%", tight);
    c.nontrivial = tight > 0;
    Ok(())
}
pub fn c11_response(c: &mut Case) -> Res {
    if c.rng.chance(0.4) { response::<f32>(c) } else { response::<f64>(c) }
}
pub fn c11_untuned(c: &mut Case) -> Res {
    crate::filters::transparent(c, &RBJ)
}

/// Boundedness under worst-case drive and decay afterwards.
fn stability<T: Sample>(c: &mut Case) -> Res {
    let kind = RBJ[c.index % RBJ.len()];
    let f64t = T::EPS < 1e-10;
    let mut tries = 0;
    let (cfg, rf, rad, shift) = loop {
        let cfg = if f64t {
            match c.rng.below(7) {
                0 => rbj_cfg(&mut c.rng, kind, 1e-5, 0.49999, 0.003, 3000.0, 120.0),
                1 | 2 => rbj_cfg(&mut c.rng, kind, 1e-4, 0.4999, 0.02, 200.0, 60.0),
                _ => rbj_cfg(&mut c.rng, kind, 0.001, 0.499, 0.1, 40.0, 40.0),
            }
        } else {
            match c.rng.below(3) {
                0 => rbj_cfg(&mut c.rng, kind, 0.002, 0.495, 0.05, 100.0, 40.0),
                _ => rbj_cfg(&mut c.rng, kind, 0.005, 0.49, 0.2, 20.0, 24.0),
            }
        };
        let rf = reference::<T>(&cfg);
        let rad = rf.radius();
        let shift = rf.pole_shift(24.0 * T::EPS * rf.ea);
        tries += 1;
        // within the resolution of the sample type, and decaying within reach
        if (shift <= 0.2 * (1.0 - rad) && 1.0 - rad > 2e-5) || tries > 200 {
            break (cfg, rf, rad, shift);
        }
    };
    if shift > 0.2 * (1.0 - rad) || 1.0 - rad <= 2e-5 {
        c.seen("tunings beyond the resolution of the type", 1);
        return Ok(());
    }
    let show = rounded::<T>(&cfg);
    mix_cfg(c, &cfg);
    // reference impulse response until it is below the type's subnormals
    let need = (-T::TINY.ln() + 40.0) / (1.0 - rad);
    let n = (need as usize + 100).min(300_000);
    let h = rf.impulse(n);
    let g = rf.pole_impulse(n);
    let mut tail = vec![0.0; n + 1];
    let mut gtail = vec![0.0; n + 1];
    for i in (0..n).rev() {
        tail[i] = tail[i + 1] + h[i].abs();
        gtail[i] = gtail[i + 1] + g[i].abs();
    }
    let l1 = tail[0];
    // what rounding of coefficients and state may add, before it decays with
    // the poles: zeros that cancel the poles exactly in the reference (a peak
    // of 0 dB) do so only to the precision of the type in the filter
    let fuzz = 64.0 * T::EPS * (rf.eb + rf.ea * l1);
    // the true filter may differ by the rounding of its coefficients
    let slack = 1.0 + 8.0 * shift / (1.0 - rad) + 0.05;
    let mut p = AnyProc::<T>::build(&cfg);
    let lvl = 2f64.powi(c.rng.irange(-10, 10) as i32);
    let drive = (12.0 / (1.0 - rad)) as usize + 200;
    let drive = drive.min(100_000) * if c.depth > 1 { 4 } else { 1 };
    let style = c.rng.below(6);
    c.desc = format!("{:?}<{}> tuned to {:?} (pole radius {:.6}), {} samples of drive style {}, then silence", kind, T::NAME, show, rad, drive, style);
    let mut peak = 0.0f64;
    let m = drive.min(n);
    for i in 0..drive {
        let x = match style {
            // sign-matched to the reversed impulse response: the worst case
            0 => {
                let k = m - 1 - i % m;
                if h[k] >= 0.0 { 1.0 } else { -1.0 }
            }
            1 => if (rf.w0 * i as f64).sin() >= 0.0 { 1.0 } else { -1.0 },
            2 => c.rng.uni(-1.0, 1.0),
            3 => 1.0,
            4 => if i % 2 == 0 { 1.0 } else { -1.0 },
            _ => if c.rng.chance(0.5) { 1.0 } else { -1.0 },
        };
        let y = p.process(T::of(x * lvl)).f() / lvl;
        peak = peak.max(y.abs());
        if !(y.abs() <= l1 * slack + 1e-6 * (l1 + rf.eb) + fuzz * gtail[0]) {
            fail!("{:?}<{}> tuned to {:?}: output {:e} at sample #{} exceeds the bound {:e} for input within +-1", kind, T::NAME, show, y, i, l1);
        }
    }
    c.seen("driven outputs judged", drive as u64);
    let floor = T::TINY * (8.0 + 64.0 / (1.0 - rad).powi(2)) * (1.0 + rf.eb);
    // silence: judged against the tail of the reference, at 60% of the time
    let quiet = ((-T::TINY.ln() + (l1 * lvl).ln().max(0.0) + 60.0) / (1.0 - rad) / 0.6) as usize + 100;
    let quiet = quiet.min(if c.depth > 1 { 400_000 } else { 120_000 });
    let mut reached = false;
    for i in 0..quiet {
        let y = p.process(T::zero()).f();
        let k = (i as f64 * 0.6) as usize;
        let bound = if k < n { tail[k] + fuzz * gtail[k] } else { 0.0 } * 4.0 * lvl * slack + floor;
        if !(y.abs() <= bound) {
            fail!("{:?}<{}> tuned to {:?} (pole radius {}): {} samples after the input stopped the output is still {:e}, bound {:e}", kind, T::NAME, show, rad, i + 1, y, bound);
        }
        if bound < 1e-12 * lvl {
            reached = true;
        }
    }
    c.seen("silent outputs judged", quiet as u64);
    if reached {
        c.seen("runs followed down to -240 dB", 1);
    }
    c.nontrivial = peak > 0.0;
    Ok(())
}
/// Poles too close to the unit circle to be followed all the way down: the
/// amplitude of each mode of the free response, taken from pairs of outputs,
/// has to shrink at the rate of its pole.
fn slow_decay<T: Sample>(c: &mut Case) -> Res {
    let kind = RBJ[c.index % RBJ.len()];
    let limit = if cfg!(miri) { 3000.0 } else if c.depth > 1 { 8e6 } else { 1.5e6 };
    for _ in 0..300 {
        let cfg = rbj_cfg(&mut c.rng, kind, 1e-7, 0.4999, 1e-4, 1e7, 120.0);
        let rf = reference::<T>(&cfg);
        let rad = rf.radius();
        let gap = 1.0 - rad;
        if gap > 2e-4 || gap < 1e-9 {
            continue;
        }
        let shift = rf.pole_shift(24.0 * T::EPS * rf.ea);
        let m = (1.0 / gap).min(limit) as usize;
        let decay = 1.0 - (-0.6 * gap * m as f64).exp();
        let disc = rf.a[1] * rf.a[1] - 4.0 * rf.a[2];
        let dist = disc.abs().sqrt();
        // relative error the measured amplitudes can gather
        let noise = 16.0 * T::EPS * m as f64 / dist;
        if shift > 0.2 * gap || noise > 0.1 * decay {
            continue;
        }
        let show = rounded::<T>(&cfg);
        mix_cfg(c, &cfg);
        let drive = c.rng.range(3, 2000);
        c.desc = format!("{:?}<{}> tuned to {:?} (1 - pole radius {:e}), {} samples of noise, then {} of silence", kind, T::NAME, show, gap, drive, m);
        let mut p = AnyProc::<T>::build(&cfg);
        for _ in 0..drive {
            let x = c.rng.uni(-1.0, 1.0);
            p.process(T::of(x));
        }
        p.process(T::zero());
        p.process(T::zero());
        // amplitudes of the modes, and their rates
        let modes = |y0: f64, y1: f64| -> [f64; 2] {
            if disc < 0.0 {
                let mid = -rf.a[1] / 2.0;
                [y0.hypot((y1 - mid * y0) / (dist / 2.0)), 0.0]
            } else {
                let (p1, p2) = ((-rf.a[1] + dist) / 2.0, (-rf.a[1] - dist) / 2.0);
                [((y1 - p2 * y0) / dist).abs(), ((p1 * y0 - y1) / dist).abs()]
            }
        };
        let rates = if disc < 0.0 { [rad, rad] } else { [(-rf.a[1] + dist) / 2.0, (-rf.a[1] - dist) / 2.0] };
        let mut y0 = p.process(T::zero()).f();
        let mut y1 = p.process(T::zero()).f();
        let first = modes(y0, y1);
        let all = first[0] + first[1];
        if !(all > T::TINY * 1e9 / (dist * gap)) {
            continue;
        }
        let step = c.rng.range(50, 2000);
        let mut i = 0;
        while i < m {
            for _ in 0..step {
                y0 = y1;
                y1 = p.process(T::zero()).f();
            }
            i += step;
            let now = modes(y0, y1);
            for k in 0..2 {
                let bound = first[k] * (0.6 * i as f64 * rates[k].abs().ln()).exp() * (1.0 + noise) + all * noise;
                if !(now[k] <= bound) {
                    fail!("{:?}<{}> tuned to {:?} (1 - pole radius {:e}): {} samples after the input stopped the free response has amplitude {:e}, it started with {:e} and should be below {:e}", kind, T::NAME, show, gap, i, now[k], first[k], bound);
                }
            }
        }
        c.seen("slow decays followed", 1);
        c.seen("silent outputs judged", i as u64);
        c.nontrivial = true;
        return Ok(());
    }
    c.seen("no slow tuning found", 1);
    Ok(())
}
pub fn c12_slow(c: &mut Case) -> Res {
    if c.rng.chance(0.15) { slow_decay::<f32>(c) } else { slow_decay::<f64>(c) }
}

pub fn c12_stability(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { stability::<f32>(c) } else { stability::<f64>(c) }
}

/// A much-used filter, retuned, against a fresh one with only that tuning.
fn retune<T: Sample>(c: &mut Case) -> Res {
    let kind = RBJ[c.index % RBJ.len()];
    let cfg = tuning::<T>(&mut c.rng, kind);
    let mut a = AnyProc::<T>::new(kind, 0);
    let mut past = 0;
    for _ in 0..c.rng.range(0, 4) * c.depth {
        let mut g = match c.rng.below(3) {
            0 => cfg,
            _ => tuning::<T>(&mut c.rng, kind),
        };
        // often only one parameter differs
        if c.rng.chance(0.5) {
            let keep = c.rng.below(4);
            for i in 0..4 {
                if i != keep {
                    g.p[i] = cfg.p[i];
                }
            }
        }
        // also tunings outside the sensible range: nothing may remain of them
        if c.rng.chance(0.15) {
            let i = c.rng.below(4);
            g.p[i] = c.rng.pick(&[0.0, -1.0, 1e9, f64::NAN, f64::INFINITY]);
        }
        a.configure(&g, 0);
        past += 1;
        let n = if c.rng.chance(0.002) { c.rng.range(1000, 70_000) } else { c.rng.range(0, 30) };
        let mut xs = signal::<T>(&mut c.rng, n, 1.0);
        if c.rng.chance(0.3) {
            for x in xs.iter_mut() {
                if c.rng.chance(0.2) {
                    *x = hostile(&mut c.rng);
                }
            }
        }
        a.run(&xs);
        if c.rng.chance(0.1) {
            a.clear();
        }
    }
    a.configure(&cfg, 0);
    if c.rng.chance(0.2) {
        a.configure(&cfg, 0);
    }
    let mut b = AnyProc::<T>::new(kind, 0);
    b.configure(&cfg, 0);
    let show = rounded::<T>(&cfg);
    c.desc = format!("{:?}<{}> retuned to {:?} after {} earlier tunings", kind, T::NAME, show, past);
    mix_cfg(c, &cfg);
    c.mix(past as u64);
    ensure!(a.last_out() == T::zero(), "{:?}<{}>: last output {:?} right after tuning to {:?}", kind, T::NAME, a.last_out(), show);
    let n = c.rng.range(4, 120) * c.depth;
    let xs = signal::<T>(&mut c.rng, n, 1.0);
    let lead = c.rng.below(5);
    for (i, x) in std::iter::repeat(&T::zero()).take(lead).chain(xs.iter()).enumerate() {
        let (u, v) = (a.process(*x), b.process(*x));
        ensure!(
            same(u, v),
            "{:?}<{}> tuned to {:?}: sample #{} after tuning: {:?} on a used filter ({} earlier tunings), {:?} on a new one", kind, T::NAME, show, i, u, past, v
        );
        if v != T::zero() {
            c.nontrivial = past > 0;
        }
    }
    c.seen("outputs compared with a fresh filter", n as u64);
    c.seen("earlier tunings", past as u64);
    Ok(())
}
pub fn c13_retune(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { retune::<f32>(c) } else { retune::<f64>(c) }
}
