//! C26 (no panic, no memory error) and C27 (no allocation, no blocking).

use crate::alloc::armed;
use crate::hist::{cfg_for, history, HOSTILE, HProf, ZOp};
use crate::mon::{rasp, Case, Res};
use crate::rng::Rng;
use crate::sample::Sample;
use crate::signal::{hostile, signal};
use crate::zoo::{AnyProc, Cfg, Kind, KINDS};
use crate::ensure;
use rasp::delay::{Delay, LinearDelay};
use rasp::traits::{Processor, TappableDelayLine};
use rasp::window::{BartlettIter, BlackmanHarrisIter, BlackmanIter, HammingIter, HannIter, TriangularIter};
use Kind as K;

/// Any number at all, as an argument.
fn any(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::NAN,
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => r.uni(-1.0, 1.0) * 1e300,
        6 => r.uni(-1.0, 1.0) * 1e-300,
        7 => r.uni(-1.0, 1.0) * 2f64.powi(r.irange(-140, 127) as i32),
        _ => r.uni(-3.0, 3.0),
    }
}

/// Arbitrary calls with arbitrary (valid) arguments; whatever happens must
/// not panic. Outputs are looked at only to keep the calls alive.
fn zoo<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let max = match c.rng.below(6) {
        0 => 0,
        1 => 1,
        2 if !cfg!(miri) => c.rng.range(100, 5000),
        _ => c.rng.range(2, 20),
    };
    let mut p = AnyProc::<T>::new(kind, max);
    let mut calls = 0u64;
    let mut acc = 0u64;
    let n = c.rng.range(5, 80) * c.depth;
    for _ in 0..n {
        calls += 1;
        match c.rng.below(12) {
            0 | 1 => {
                let mut g = Cfg { kind, p: [0.0; 5], max: 0 };
                for v in g.p.iter_mut() {
                    *v = any(&mut c.rng);
                }
                if c.rng.chance(0.3) {
                    g = cfg_for(&mut c.rng, kind, false);
                }
                if kind.is_delay() {
                    let m = p.max_delay().unwrap();
                    g.max = if c.rng.chance(0.4) { (m + c.rng.range(0, 30)).min(20_000) } else { 0 };
                    let m = m as f64;
                    g.p[0] = match c.rng.below(9) {
                        0 => m,
                        1 => m + 1.0,
                        2 => f64::INFINITY,
                        3 => f64::NEG_INFINITY,
                        4 => -1e-30,
                        5 => 1e-38,
                        6 => c.rng.uni(0.0, m + 1.0),
                        7 => (c.rng.uni(0.0, m + 1.0)).floor(),
                        _ => any(&mut c.rng),
                    };
                    if g.p[0].is_nan() {
                        g.p[0] = 0.5;
                    }
                }
                c.note(|| format!("configure {:?}", g));
                p.configure(&g, c.rng.below(2));
            }
            2 => {
                let len = match c.rng.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => c.rng.range(2, 300),
                    _ => c.rng.range(2, 20),
                };
                let mut b: Vec<T> = (0..len).map(|_| hostile(&mut c.rng)).collect();
                c.note(|| format!("block {:?}", &b[..len.min(8)]));
                acc ^= p.block(&mut b).bits();
            }
            3 => {
                c.note(|| "clear".into());
                p.clear();
            }
            4 => p.query(&mut c.rng),
            5 | 6 if kind.is_delay() => {
                let m = p.max_delay().unwrap();
                let k = match c.rng.below(4) {
                    0 => 0,
                    1 => m,
                    _ => c.rng.range(0, m),
                };
                let v = hostile::<T>(&mut c.rng);
                c.note(|| format!("tap {} of {}", k, m));
                match c.rng.below(3) {
                    0 => p.tap_in(v, k),
                    1 => {
                        p.add_to(v, k);
                    }
                    _ => {
                        p.tap_out(k);
                    }
                }
            }
            7 if kind.is_delay() => {
                p.next_out();
            }
            _ => {
                for _ in 0..c.rng.range(1, 30) {
                    let x = if c.rng.chance(0.3) { hostile::<T>(&mut c.rng) } else { T::of(c.rng.uni(-1.0, 1.0)) };
                    acc ^= p.process(x).bits();
                    calls += 1;
                }
            }
        }
    }
    c.mix(acc ^ (kind as u64) << 50);
    c.mix(calls);
    c.seen("calls survived", calls);
    c.desc = format!("{:?}<{}>, {} calls with arbitrary arguments", kind, T::NAME, calls);
    c.nontrivial = true;
    Ok(())
}
pub fn c26_zoo(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { zoo::<f32>(c) } else { zoo::<f64>(c) }
}

/// Constructors and setters of delay lines with extreme arguments.
pub fn c26_delay_args(c: &mut Case) -> Res {
    let max = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => c.rng.range(3, 40),
        4 if !cfg!(miri) => c.rng.pick(&[4095, 4096, 65535, 65536]),
        5 if !cfg!(miri) => c.rng.range(1000, 40_000),
        _ if cfg!(miri) => c.rng.range(3, 70),
        _ => c.rng.range(3, 400),
    };
    let big = [0usize, 1, max, max + 1, max.saturating_sub(1), usize::MAX, usize::MAX - 1, usize::MAX - max, 1 << 63, (1 << 63) - 1, (1 << 63) + max, 1 << 32, (1 << 32) - 1, (1 << 32) + max, (1 << 31) - 1, 1 << 31, (1 << 31) + max, 1 << 16, 1 << 24, 1 << 53, max / 2];
    let fl = [0.0f32, -0.0, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, 0.5, 0.99999994, 1.0000001, max as f32, max as f32 + 0.5, max as f32 - 0.5, -1e-10, 16777216.0];
    let mut d = rasp(|| Delay::<f64>::new(c.rng.pick(&big), max));
    let mut l = rasp(|| LinearDelay::<f32>::new(c.rng.pick(&fl), max));
    let mut n = 2u64;
    for _ in 0..c.rng.range(3, 40) {
        match c.rng.below(5) {
            0 => {
                let v = c.rng.pick(&big);
                c.note(|| format!("set_delay({})", v));
                rasp(|| d.set_delay(v));
            }
            1 => {
                let v = if c.rng.chance(0.5) { c.rng.pick(&fl) } else { c.rng.uni(-1.0, max as f64 + 1.0) as f32 };
                c.note(|| format!("set_delay({:?})", v));
                rasp(|| l.set_delay(v));
            }
            2 => {
                let v = c.rng.range(0, max + 50);
                c.note(|| format!("set_max_delay({})", v));
                rasp(|| d.set_max_delay(v));
                rasp(|| l.set_max_delay(v));
            }
            3 => {
                let k = c.rng.range(0, rasp(|| d.get_max_delay()));
                rasp(|| d.add_to(1.0, k));
                let k = c.rng.range(0, rasp(|| l.get_max_delay()));
                rasp(|| l.add_to(1.0, k));
                rasp(|| d.tap_in(1.0, k));
                rasp(|| l.tap_out(k));
            }
            _ => {
                for _ in 0..c.rng.range(1, 60) {
                    rasp(|| d.process(0.5));
                    rasp(|| l.process(0.5));
                    n += 2;
                }
                rasp(|| d.next_out());
                rasp(|| l.next_out());
            }
        }
        n += 1;
    }
    c.mix(max as u64);
    c.mix(n);
    c.desc = format!("delay lines of maximum {}, extreme arguments, {} calls", max, n);
    c.seen("calls survived", n);
    c.nontrivial = true;
    Ok(())
}

/// Windows and conversions with extreme arguments.
pub fn c26_free(c: &mut Case) -> Res {
    let n = match c.rng.below(4) {
        0 => c.rng.range(0, 3),
        1 if !cfg!(miri) => c.rng.range(1000, 5000),
        _ if cfg!(miri) => c.rng.range(0, 20),
        _ => c.rng.range(0, 100),
    };
    let mut calls = 0u64;
    for k in 0..7 {
        let mut b: Vec<f32> = (0..n).map(|_| hostile(&mut c.rng)).collect();
        crate::windows::apply_kind(&mut b, k);
        let mut b: Vec<f64> = (0..n).map(|_| hostile(&mut c.rng)).collect();
        crate::windows::apply_kind(&mut b, k);
        calls += 2;
        if k < 6 {
            calls += crate::windows::values::<f32>(k, n).len() as u64;
            calls += crate::windows::values::<f64>(k, n).len() as u64;
        }
    }
    // iterators of any size, partly drawn, dropped half way
    let size = c.rng.pick(&[0usize, 1, 2, 3, 1 << 24, 1 << 33, usize::MAX - 1, usize::MAX]);
    macro_rules! draw {
        ($($i:ident),*) => { $( {
            let mut it = rasp(|| $i::<f32>::new(size));
            for _ in 0..20 { rasp(|| it.next()); rasp(|| it.len()); rasp(|| it.size_hint()); }
            rasp(|| it.nth(5));
            let mut it = rasp(|| $i::<f64>::new(size));
            for _ in 0..20 { rasp(|| it.next()); rasp(|| it.len()); rasp(|| it.size_hint()); }
            rasp(|| it.nth(5));
            calls += 120;
        } )* };
    }
    draw!(TriangularIter, BartlettIter, HannIter, HammingIter, BlackmanIter, BlackmanHarrisIter);
    for _ in 0..40 {
        let v = any(&mut c.rng);
        rasp(|| rasp::util::to_sample(v));
        rasp(|| rasp::util::to_sample(v as f32));
        // levels and gain ratios are non-negative by contract
        let a = if v.is_nan() { 0.25 } else { v.abs() };
        rasp(|| rasp::util::to_db(a));
        rasp(|| rasp::util::to_db(a as f32));
        let g = if a.is_finite() && (a as f32).is_finite() { a } else { 1.0 };
        let x = any(&mut c.rng);
        rasp(|| rasp::util::apply_gain(x, g));
        rasp(|| rasp::util::apply_gain(x as f32, g as f32));
        calls += 6;
    }
    c.mix(n as u64 ^ (size as u64).rotate_left(13));
    c.seen("calls survived", calls);
    c.desc = format!("windows of {} samples, iterators of size {}, conversions of arbitrary values", n, size);
    c.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- C27

/// Real-time calls of every processor, armed one by one.
fn realtime<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let (cfg, ops) = history::<T>(&mut c.rng, kind, &HProf { ops: 60 * c.depth, taps: 0.1, ..HOSTILE });
    let mut p = AnyProc::<T>::build(&cfg);
    c.desc = format!("{:?}<{}> {:?}, {} ops, allocator and interceptors armed around each call", kind, T::NAME, cfg.p, ops.len());
    c.mix(kind as u64);
    c.mix(ops.len() as u64);
    let mut n = 0u64;
    macro_rules! arm {
        ($what:expr, $e:expr) => {{
            let (r, k) = armed(|| $e);
            ensure!(k == 0, "{:?}<{}>: {} made {} allocator or sleep calls (settings {:?})", kind, T::NAME, $what, k, cfg.p);
            n += 1;
            r
        }};
    }
    for op in &ops {
        match op {
            ZOp::Process(x) => {
                let y = arm!("process", p.process(*x));
                c.mix(y.bits());
            }
            ZOp::Block(v) => {
                let mut b = v.clone();
                arm!(format!("process_block of {}", v.len()), p.block(&mut b));
            }
            ZOp::Configure(g, s) => p.configure(g, *s),
            ZOp::Clear => p.clear(),
            ZOp::TapIn(v, k) => arm!("tap_in", p.tap_in(*v, *k)),
            ZOp::AddTo(v, k) => {
                arm!("add_to", p.add_to(*v, *k));
            }
        }
        arm!("last_out", p.last_out());
        if kind.is_delay() {
            arm!("next_out", p.next_out());
            let m = p.max_delay().unwrap();
            let k = c.rng.range(0, m);
            arm!("tap_out", p.tap_out(k));
        }
    }
    c.seen("armed calls", n);
    c.nontrivial = n > 0;
    Ok(())
}
pub fn c27_calls(c: &mut Case) -> Res {
    if c.rng.chance(0.5) { realtime::<f32>(c) } else { realtime::<f64>(c) }
}

/// Long armed runs: amortised growth shows.
fn long_run<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let cfg = cfg_for(&mut c.rng, kind, true);
    let mut p = AnyProc::<T>::build(&cfg);
    // 40 runs past 2^24 calls, one per processor and type
    let n = if c.index < 40 { (1u64 << 24) + 1000 } else if c.depth > 1 { 4_000_000 } else { 150_000 };
    let xs = signal::<T>(&mut c.rng, 1024, 1.0);
    let (_, k) = armed(|| {
        let mut y = T::zero();
        for i in 0..n {
            y = p.process(xs[(i % 1024) as usize]);
        }
        y
    });
    ensure!(k == 0, "{:?}<{}>: {} process calls made {} allocator or sleep calls (settings {:?})", kind, T::NAME, n, k, cfg.p);
    let mut b = signal::<T>(&mut c.rng, 20_000, 1.0);
    let (_, k) = armed(|| p.block(&mut b));
    ensure!(k == 0, "{:?}<{}>: a block of 20000 made {} allocator or sleep calls", kind, T::NAME, k);
    c.seen("armed calls", n + 1);
    c.desc = format!("{:?}<{}> {:?}, {} armed process calls and a block of 20000", kind, T::NAME, cfg.p, n);
    c.mix(kind as u64 ^ cfg.p[0].to_bits());
    c.nontrivial = true;
    Ok(())
}
pub fn c27_long(c: &mut Case) -> Res {
    if c.index / 20 % 2 == 0 { long_run::<f32>(c) } else { long_run::<f64>(c) }
}

/// Window iterators, armed.
pub fn c27_windows(c: &mut Case) -> Res {
    let size = match c.rng.below(3) {
        0 => c.rng.range(0, 4),
        1 => c.rng.range(1000, 20_000),
        _ => c.rng.range(5, 300),
    };
    let mut n = 0u64;
    macro_rules! drain {
        ($($i:ident / $t:ty),*) => { $( {
            let mut it = rasp(|| $i::<$t>::new(size));
            let (m, k) = armed(|| {
                let mut m = 0u64;
                while let Some(_) = rasp(|| it.next()) {
                    m += 1;
                    if m > size as u64 { break; }
                }
                for _ in 0..3 { rasp(|| it.next()); }
                m
            });
            ensure!(k == 0, "{} of size {}: {} next() calls made {} allocator or sleep calls", stringify!($i), size, m, k);
            n += m + 1;
        } )* };
    }
    drain!(TriangularIter / f32, BartlettIter / f32, HannIter / f32, HammingIter / f32, BlackmanIter / f32, BlackmanHarrisIter / f32,
        TriangularIter / f64, BartlettIter / f64, HannIter / f64, HammingIter / f64, BlackmanIter / f64, BlackmanHarrisIter / f64);
    c.seen("armed iterator calls", n);
    c.desc = format!("all window iterators of size {}, armed", size);
    c.mix(size as u64);
    c.nontrivial = true;
    Ok(())
}

/// Several threads with one instance each: a shared lock would be contended
/// and show as a blocking call.
pub fn c27_contention(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let threads = 4;
    let n = 20_000u64;
    let cfg = cfg_for(&mut c.rng, kind, true);
    let xs = signal::<f32>(&mut c.rng, 256, 1.0);
    let bad: u64 = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let xs = &xs;
                let cfg = &cfg;
                sc.spawn(move || {
                    let mut p = AnyProc::<f32>::build(cfg);
                    let (_, k) = armed(|| {
                        let mut y = 0.0;
                        for i in 0..n {
                            y = p.process(xs[(i % 256) as usize]);
                        }
                        y
                    });
                    k
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).sum()
    });
    ensure!(bad == 0, "{:?}: {} allocator or sleep calls on {} threads", kind, bad, threads);
    c.seen("armed calls", n * threads as u64);
    c.seen("concurrent armed runs", threads as u64);
    c.desc = format!("{:?} {:?} on {} threads at once, {} armed calls each", kind, cfg.p, threads, n);
    c.mix(kind as u64 ^ cfg.p[0].to_bits());
    c.nontrivial = true;
    let _ = K::Leaky;
    Ok(())
}
