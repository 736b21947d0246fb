//! C23: decibel conversions.

use crate::mon::{rasp, Case, Res};
use crate::rng::Rng;
use crate::sample::{close, Sample};
use crate::ensure;
use rasp::util::{apply_gain, to_db, to_sample};

fn db_of<T: Sample>(s: T) -> T {
    rasp(|| to_db(s))
}
fn smp_of<T: Sample>(d: T) -> T {
    rasp(|| to_sample(d))
}

/// Next representable value up or down.
fn step<T: Sample>(x: T, up: bool) -> T {
    let d = T::of(T::EPS);
    if x == T::zero() {
        return T::of(if up { T::TINY } else { -T::TINY });
    }
    let y = if (x > T::zero()) == up { x + x * d } else { x - x * d };
    y
}

fn sample_value<T: Sample>(r: &mut Rng) -> T {
    T::of(match r.below(14) {
        0 => 0.0,
        1 => 1.0,
        2 => 1e-6 * r.uni(0.9, 1.1),
        3 => 1e-6 * (1.0 + r.irange(-6, 6) as f64 * T::EPS),
        4 => r.logu(1e-30, 1e-6),
        5 => T::MAX * r.uni(0.1, 1.0),
        6 => T::TINY * r.range(1, 100) as f64,
        7 => 10f64.powi(r.irange(-6, 6) as i32),
        8 => r.logu(1.0, 1e30),
        9 => 1.0 + r.irange(-20, 20) as f64 * T::EPS,
        _ => r.logu(1e-6, 10.0),
    })
}

fn db_value<T: Sample>(r: &mut Rng) -> T {
    T::of(match r.below(12) {
        0 => 0.0,
        1 => -120.0,
        2 => -120.0 * (1.0 + r.irange(-8, 8) as f64 * T::EPS),
        3 => -120.0 + r.uni(-0.01, 0.01),
        4 => -r.logu(120.0, 1e6),
        5 => r.pick(&[20.0, -20.0, -40.0, -60.0, -100.0, 6.0, -6.0, 40.0, 120.0]),
        6 => r.uni(0.0, 300.0),
        7 => r.logu(1e-12, 1.0),
        8 => -r.logu(1e-12, 1.0),
        _ => r.uni(-120.0, 24.0),
    })
}

fn convert<T: Sample>(c: &mut Case) -> Res {
    let n = 60 * c.depth;
    let floor = T::of(1e-6).f();
    for _ in 0..n {
        // sample -> dB
        let s = sample_value::<T>(&mut c.rng);
        let d = db_of(s);
        let sf = s.f();
        c.mix(s.bits());
        if sf > floor * (1.0 + 2.0 * T::EPS) {
            let e = 20.0 * sf.log10();
            ensure!(close(d.f(), e, 4.0 * T::EPS * e.abs() + 20.0 * T::EPS), "to_db::<{}>({:?}) = {:?}, 20*log10 is {:e}", T::NAME, s, d, e);
            c.seen("levels above the floor judged", 1);
            // round trip
            let back = smp_of(d);
            if d.f() > -120.0 {
                let rel = T::EPS * (16.0 + 0.5 * d.f().abs());
                // at the very top of the type, rounding may reach infinity
                let top = sf > T::MAX * (1.0 - rel) && back.f() == f64::INFINITY;
                ensure!(top || close(back.f(), sf, rel * sf), "to_sample(to_db({:?}))::<{}> = {:?}", s, T::NAME, back);
                c.seen("round trips judged", 1);
            }
        } else if sf < floor * (1.0 - 2.0 * T::EPS) {
            ensure!(d.f() == -120.0, "to_db::<{}>({:?}) = {:?}, should be exactly -120", T::NAME, s, d);
            c.seen("floored levels judged", 1);
        } else {
            ensure!(close(d.f(), -120.0, 120.0 * 4.0 * T::EPS), "to_db::<{}>({:?}) = {:?} at the floor", T::NAME, s, d);
        }
        // monotonic, between neighbours and between random pairs
        let s2 = if c.rng.chance(0.5) { sample_value::<T>(&mut c.rng) } else { step(s, true) };
        if s2.is_finite() && !s2.is_sign_negative() {
            let (lo, hi) = if s < s2 { (s, s2) } else { (s2, s) };
            let (a, b) = (db_of(lo), db_of(hi));
            ensure!(a.f() <= b.f() + 4.0 * T::EPS * b.f().abs(), "to_db::<{}> is not monotonic: {:?} -> {:?}, {:?} -> {:?}", T::NAME, lo, a, hi, b);
            c.seen("ordered pairs judged", 1);
        }
        // dB -> sample
        let v = db_value::<T>(&mut c.rng);
        let s = smp_of(v);
        let vf = v.f();
        c.mix(v.bits());
        if vf > -120.0 {
            let e = 10f64.powf(vf / 20.0);
            let rel = T::EPS * (8.0 + 0.5 * vf.abs());
            if e < T::MAX * 0.99 {
                ensure!(close(s.f(), e, rel * e), "to_sample::<{}>({:?}) = {:?}, 10^(dB/20) is {:e}", T::NAME, v, s, e);
                if s.f() > floor * (1.0 + 4.0 * T::EPS) {
                    let back = db_of(s);
                    ensure!(close(back.f(), vf, T::EPS * (160.0 + 2.0 * vf.abs())), "to_db(to_sample({:?}))::<{}> = {:?}", v, T::NAME, back);
                    c.seen("round trips judged", 1);
                }
            } else {
                ensure!(s.f() > T::MAX * 0.9, "to_sample::<{}>({:?}) = {:?}", T::NAME, v, s);
            }
            c.seen("levels above the floor judged", 1);
        } else {
            ensure!(s == T::zero(), "to_sample::<{}>({:?}) = {:?}, should be exactly zero", T::NAME, v, s);
            c.seen("floored levels judged", 1);
        }
        let v2 = if c.rng.chance(0.5) { db_value::<T>(&mut c.rng) } else { step(v, true) };
        let (lo, hi) = if v < v2 { (v, v2) } else { (v2, v) };
        let (a, b) = (smp_of(lo), smp_of(hi));
        ensure!(a.f() <= b.f() * (1.0 + 16.0 * T::EPS * (1.0 + hi.f().abs().min(400.0) / 8.0)), "to_sample::<{}> is not monotonic: {:?} -> {:?}, {:?} -> {:?}", T::NAME, lo, a, hi, b);
        c.seen("ordered pairs judged", 1);
        // gain
        // one multiplication, over the whole finite range and beyond it
        let wide = c.rng.chance(0.3);
        let (lo, hi) = if wide { (T::SUB, T::HI) } else { (-20, 20) };
        let x = T::of(c.rng.uni(-1.0, 1.0) * (c.rng.irange(lo, hi) as f64).exp2());
        let g = T::of(match c.rng.below(5) {
            0 => 0.0,
            1 => 1.0,
            2 if wide => (c.rng.irange(T::SUB, T::HI) as f64).exp2() * c.rng.uni(0.5, 1.0),
            _ => c.rng.logu(1e-6, 1e4),
        });
        let y = rasp(|| apply_gain(x, g));
        ensure!(y == x * g, "apply_gain::<{}>({:?}, {:?}) = {:?}", T::NAME, x, g, y);
        // the level changes by that many dB
        let (xa, ga) = (T::of(c.rng.uni(0.0, 1.0) * 2f64.powi(c.rng.irange(-20, 20) as i32)), c.rng.uni(-50.0, 50.0));
        let gt = smp_of(T::of(ga));
        let y = rasp(|| apply_gain(xa, gt));
        if xa.f() > 1e-5 && y.f() > 1e-5 {
            let change = db_of(y).f() - db_of(xa).f();
            ensure!(close(change, T::of(ga).f(), T::EPS * 1200.0), "applying {} dB to {:?} changed its level by {} dB ({})", ga, xa, change, T::NAME);
            c.seen("gains judged", 1);
        }
        c.seen("gains judged", 1);
    }
    // non-finite
    for v in [T::infinity(), T::nan()] {
        if !v.is_sign_negative() {
            let d = db_of(v);
            ensure!(d.f() == -120.0, "to_db::<{}>({:?}) = {:?}, should be exactly -120", T::NAME, v, d);
        }
    }
    for v in [T::infinity(), T::neg_infinity(), T::nan()] {
        let s = smp_of(v);
        ensure!(s == T::zero(), "to_sample::<{}>({:?}) = {:?}, should be exactly zero", T::NAME, v, s);
    }
    c.seen("non-finite conversions judged", 5);
    c.desc = format!("{} rounds of to_db / to_sample / apply_gain <{}>", n, T::NAME);
    c.nontrivial = true;
    Ok(())
}
pub fn c23_convert(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { convert::<f32>(c) } else { convert::<f64>(c) }
}

/// Dense sweeps over the whole range.
fn sweep<T: Sample>(c: &mut Case) -> Res {
    let n = 4000 * c.depth;
    let (lo, hi) = (c.rng.uni(-125.0, 100.0), c.rng.logu(0.001, 120.0));
    let mut last: Option<(T, T)> = None;
    for i in 0..n {
        let v = T::of(lo + hi * i as f64 / n as f64);
        let s = smp_of(v);
        let e = if v.f() > -120.0 { 10f64.powf(v.f() / 20.0) } else { 0.0 };
        ensure!(close(s.f(), e, T::EPS * (8.0 + 0.5 * v.f().abs()) * e), "to_sample::<{}>({:?}) = {:?}, should be {:e}", T::NAME, v, s, e);
        if let Some((pv, ps)) = last {
            ensure!(ps.f() <= s.f() * (1.0 + 16.0 * T::EPS * (1.0 + v.f().abs() / 8.0)), "to_sample::<{}> is not monotonic: {:?} -> {:?}, {:?} -> {:?}", T::NAME, pv, ps, v, s);
        }
        last = Some((v, s));
    }
    c.seen("levels above the floor judged", n as u64);
    c.desc = format!("sweep of {} dB values from {:.3} over {:.3} dB <{}>", n, lo, hi, T::NAME);
    c.mix(lo.to_bits());
    c.nontrivial = true;
    Ok(())
}
pub fn c23_sweep(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { sweep::<f32>(c) } else { sweep::<f64>(c) }
}
