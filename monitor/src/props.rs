//! Properties quantified over every processor: C05 (purity of queries),
//! C06, C07, C08, C14, C24, C25.

use crate::hist::{apply, cfg_for, history, history_from, show, HProf, ZOp, FINITE, HOSTILE};
use crate::mon::{Case, Res};
use crate::rng::Rng;
use crate::sample::{close, same, Sample};
use crate::signal::{amplitude, hostile, signal, Drone};
use crate::zoo::{stable_cfg, AnyProc, Cfg, Kind, KINDS, LINEAR, RBJ};
use crate::{ensure, fail};
use Kind as K;

fn mix_cfg(c: &mut Case, g: &Cfg) {
    c.mix(g.kind as u64);
    c.mix(g.max as u64);
    for v in &g.p {
        c.mix(v.to_bits());
    }
}

macro_rules! both {
    ($name:ident, $f:ident) => {
        pub fn $name(c: &mut Case) -> Res {
            if c.rng.chance(0.5) { $f::<f32>(c) } else { $f::<f64>(c) }
        }
    };
}

fn deep(p: &HProf, c: &Case) -> HProf {
    HProf { ops: p.ops * c.depth, ..*p }
}

/// C05: one instance queried all the time, its twin never.
fn twin<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let pf = deep(&HOSTILE, c);
    let (cfg, ops) = history::<T>(&mut c.rng, kind, &pf);
    c.desc = format!("{:?}<{}> {:?}, {} ops, queried before every op vs never", kind, T::NAME, cfg.p, ops.len());
    mix_cfg(c, &cfg);
    let mut a = AnyProc::<T>::build(&cfg);
    let mut b = AnyProc::<T>::build(&cfg);
    let (mut ya, mut yb) = (vec![], vec![]);
    let mut q = 0;
    for op in &ops {
        let times = if !cfg!(miri) && c.rng.chance(0.0004) { c.rng.pick(&[300, 1100, 5000, 33_000, 66_000]) } else { c.rng.below(4) };
        for _ in 0..times {
            a.query(&mut c.rng);
            q += 1;
        }
        c.note(|| show(op));
        ya.clear();
        yb.clear();
        apply(&mut a, op, &mut ya);
        apply(&mut b, op, &mut yb);
        for (u, v) in ya.iter().zip(yb.iter()) {
            ensure!(same(*u, *v), "{:?}<{}>: {}: {:?} when queried in between, {:?} when not", kind, T::NAME, show(op), u, v);
            c.mix(u.bits());
            if *u != T::zero() {
                c.nontrivial = true;
            }
        }
        c.seen("twin outputs compared", ya.len() as u64);
    }
    c.seen("queries interposed", q);
    Ok(())
}
both!(c05_twin_zoo, twin);

/// C06: last-output after every event.
fn last<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let pf = deep(&HOSTILE, c);
    let (cfg, ops) = history::<T>(&mut c.rng, kind, &pf);
    c.desc = format!("{:?}<{}> {:?}, {} ops, last-output checked after each", kind, T::NAME, cfg.p, ops.len());
    mix_cfg(c, &cfg);
    let mut p = AnyProc::<T>::new(kind, cfg.max);
    ensure!(p.last_out() == T::zero(), "{:?}<{}>: last output of a new processor is {:?}", kind, T::NAME, p.last_out());
    p = AnyProc::<T>::build(&cfg);
    ensure!(p.last_out() == T::zero(), "{:?}<{}>: last output of a new configured processor is {:?}", kind, T::NAME, p.last_out());
    let mut want = T::zero();
    for (i, op) in ops.iter().enumerate() {
        c.note(|| format!("{} {}", i, show(op)));
        match op {
            ZOp::Process(x) => {
                want = p.process(*x);
                c.mix(want.bits());
            }
            ZOp::Block(v) => {
                let mut b = v.clone();
                p.block(&mut b);
                if let Some(y) = b.last() {
                    want = *y;
                }
            }
            ZOp::Clear => {
                p.clear();
                want = T::zero();
            }
            ZOp::Configure(g, s) => {
                p.configure(g, *s);
                if kind.is_rbj() {
                    want = T::zero();
                }
                c.seen("last-output judged after a settings change", 1);
            }
            ZOp::TapIn(v, k) => p.tap_in(*v, *k),
            ZOp::AddTo(v, k) => {
                p.add_to(*v, *k);
            }
        }
        for _ in 0..1 + c.rng.below(2) {
            let got = p.last_out();
            ensure!(same(got, want), "{:?}<{}>: after op {} ({}) last output is {:?}, should be {:?}", kind, T::NAME, i, show(op), got, want);
            c.seen("last-output judged", 1);
            if c.rng.chance(0.1) {
                p.query(&mut c.rng);
            }
        }
        if want != T::zero() {
            c.nontrivial = true;
            c.seen("last-output judged nonzero", 1);
        }
    }
    Ok(())
}
both!(c06_last, last);

/// C07: veteran, cleared, against a fresh instance with the same settings.
fn clear<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let pf = deep(&HOSTILE, c);
    let (cfg, ops) = history::<T>(&mut c.rng, kind, &pf);
    let mut a = AnyProc::<T>::build(&cfg);
    let mut now = cfg;
    let mut sink = vec![];
    for op in &ops {
        c.note(|| show(op));
        apply(&mut a, op, &mut sink);
        if let ZOp::Configure(g, _) = op {
            now = *g;
        }
    }
    // sometimes leave it looking ahead / queried just before
    if c.rng.chance(0.5) {
        a.query(&mut c.rng);
    }
    let before = a.getters();
    let dirty = a.last_out() != T::zero() || sink.iter().any(|v| *v != T::zero());
    a.clear();
    if c.rng.chance(0.1) {
        a.clear();
    }
    let after = a.getters();
    ensure!(
        before.len() == after.len() && before.iter().zip(&after).all(|(x, y)| x == y || x.is_nan() && y.is_nan()),
        "{:?}<{}>: settings {:?} became {:?} through clear", kind, T::NAME, before, after
    );
    c.seen("settings read-backs compared", after.len() as u64);
    let mut b = match kind {
        // the settings of a delay line are what its getters report
        K::Delay | K::LinearDelay => AnyProc::<T>::build(&Cfg { kind, p: [after[0], 0.0, 0.0, 0.0, 0.0], max: after[1] as usize }),
        _ => AnyProc::<T>::build(&now),
    };
    c.desc = format!("{:?}<{}> {:?} after {} ops, cleared, vs new", kind, T::NAME, now.p, ops.len());
    mix_cfg(c, &now);
    c.mix(ops.len() as u64);
    ensure!(a.last_out() == T::zero(), "{:?}<{}>: last output after clear is {:?}", kind, T::NAME, a.last_out());
    let amp = amplitude::<T>(&mut c.rng, -40, 30);
    let n = c.rng.range(5, 80) + if kind.is_delay() { after[1].min(200.0) as usize } else { 0 };
    let mut xs = signal::<T>(&mut c.rng, n, amp);
    // silence first, in part of the runs, to expose leftovers undisturbed
    if c.rng.chance(0.5) {
        let k = c.rng.range(1, n);
        for x in xs[..k].iter_mut() {
            *x = T::zero();
        }
    }
    let peak = xs.iter().fold(0.0f64, |m, x| m.max(x.f().abs()));
    // interpolation weights of a moved write position may round differently
    let tol = if kind == K::LinearDelay { 1e-6 * peak } else { 0.0 };
    let eq = |u: T, v: T| same(u, v) || close(u.f(), v.f(), tol);
    for i in 0..=n {
        if kind.is_delay() {
            let (u, v) = (a.next_out().unwrap(), b.next_out().unwrap());
            ensure!(eq(u, v), "{:?}<{}>: look-ahead {} samples after clear is {:?}, on a new line {:?}", kind, T::NAME, i, u, v);
            let m = after[1] as usize;
            for k in [0, m, m / 2, c.rng.range(0, m)] {
                let (u, v) = (a.tap_out(k).unwrap(), b.tap_out(k).unwrap());
                ensure!(same(u, v), "{:?}<{}>: tap {} {} samples after clear is {:?}, on a new line {:?}", kind, T::NAME, k, i, u, v);
            }
            c.seen("taps and look-aheads compared", 5);
        }
        if i == n {
            break;
        }
        let (u, v) = if c.rng.chance(0.1) {
            let (mut p, mut q) = ([xs[i]], [xs[i]]);
            (a.block(&mut p), b.block(&mut q))
        } else {
            (a.process(xs[i]), b.process(xs[i]))
        };
        ensure!(eq(u, v), "{:?}<{}>: output {} after clear is {:?}, on a new processor {:?} (settings {:?})", kind, T::NAME, i, u, v, now.p);
        let (u, v) = (a.last_out(), b.last_out());
        ensure!(eq(u, v), "{:?}<{}>: last output {} after clear is {:?}, on a new processor {:?}", kind, T::NAME, i, u, v);
        c.seen("outputs compared with a fresh processor", 1);
    }
    c.nontrivial = dirty;
    if dirty {
        c.seen("cleared processors that had a signal", 1);
    }
    Ok(())
}
both!(c07_clear, clear);

/// C08: any partition into blocks against sample-by-sample.
fn blocks<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let cfg = cfg_for(&mut c.rng, kind, false);
    let mut a = AnyProc::<T>::build(&cfg);
    let mut b = AnyProc::<T>::build(&cfg);
    mix_cfg(c, &cfg);
    let amp = amplitude::<T>(&mut c.rng, T::LO / 2, T::HI);
    let n_ops = c.rng.range(2, 14) * c.depth;
    let host = c.rng.chance(0.2);
    let (mut nb, mut total) = (0, 0u64);
    let mut max = cfg.max;
    for op in 0..n_ops {
        match c.rng.below(16) {
            0 => {
                let mut g = cfg_for(&mut c.rng, kind, false);
                g.max = max + c.rng.below(3);
                max = max.max(g.max);
                a.configure(&g, 0);
                b.configure(&g, 0);
                continue;
            }
            1 => {
                a.clear();
                b.clear();
                continue;
            }
            2 => {
                // some plain samples on both
                let x = T::of(amp * c.rng.uni(-1.0, 1.0));
                let (u, v) = (a.process(x), b.process(x));
                ensure!(same(u, v), "{:?}<{}>: states diverged after block processing: {:?} vs {:?}", kind, T::NAME, u, v);
                continue;
            }
            _ => {}
        }
        let len = match c.rng.below(16) {
            0 => 0,
            1 => 1,
            2 => c.rng.pick(&[2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
            3 => c.rng.pick(&[127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]),
            4 if op < 2 => c.rng.pick(&[2047, 2048, 4096, 4097, 8192, 10000]),
            5 => c.rng.range(30, 700),
            _ => c.rng.range(1, 40),
        };
        let mut xs = signal::<T>(&mut c.rng, len, amp);
        if host {
            for x in xs.iter_mut() {
                if c.rng.chance(0.03) {
                    *x = hostile(&mut c.rng);
                }
            }
        }
        let before = a.last_out();
        let mut buf = xs.clone();
        c.note(|| format!("block of {}", len));
        let ret = a.block(&mut buf);
        let ys = b.run(&xs);
        for i in 0..len {
            if !same(buf[i], ys[i]) {
                fail!("{:?}<{}> {:?}: sample {} of a block of {}: {:?}, one at a time: {:?}", kind, T::NAME, cfg.p, i, len, buf[i], ys[i]);
            }
            c.mix(buf[i].bits());
            if buf[i] != T::zero() {
                c.nontrivial = true;
            }
        }
        let want = ys.last().cloned().unwrap_or(before);
        ensure!(same(ret, want), "{:?}<{}>: a block of {} returned {:?}, last output sample is {:?}", kind, T::NAME, len, ret, want);
        let (u, v) = (a.last_out(), b.last_out());
        ensure!(same(u, v) && same(u, want), "{:?}<{}>: last output after a block of {} is {:?}, should be {:?}", kind, T::NAME, len, u, want);
        if kind.is_delay() {
            for _ in 0..3 {
                let k = c.rng.range(0, max.min(a.max_delay().unwrap()));
                let (u, v) = (a.tap_out(k).unwrap(), b.tap_out(k).unwrap());
                ensure!(same(u, v), "{:?}<{}>: tap {} differs after a block of {}: {:?} vs {:?}", kind, T::NAME, k, len, u, v);
            }
            let (u, v) = (a.next_out().unwrap(), b.next_out().unwrap());
            ensure!(same(u, v), "{:?}<{}>: look-ahead differs after a block of {}: {:?} vs {:?}", kind, T::NAME, len, u, v);
        }
        let (ga, gb) = (a.getters(), b.getters());
        ensure!(ga == gb || ga.iter().chain(&gb).any(|v| v.is_nan()), "{:?}<{}>: settings {:?} after a block, {:?} without", kind, T::NAME, ga, gb);
        nb += 1;
        total += len as u64;
        if len == 0 {
            c.seen("empty blocks", 1);
        }
        if len > 256 {
            c.seen("blocks longer than 256", 1);
        }
    }
    c.seen("blocks judged", nb);
    c.seen("block samples compared", total);
    c.desc = format!("{:?}<{}> {:?}, {} blocks, {} samples", kind, T::NAME, cfg.p, nb, total);
    Ok(())
}
both!(c08_blocks, blocks);

/// One huge block.
fn huge_block<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let cfg = cfg_for(&mut c.rng, kind, true);
    let mut a = AnyProc::<T>::build(&cfg);
    let mut b = AnyProc::<T>::build(&cfg);
    mix_cfg(c, &cfg);
    let n = c.rng.pick(&[65535, 65536, 65537, 100_003, 131_072]);
    let xs = signal::<T>(&mut c.rng, n, 1.0);
    let mut buf = xs.clone();
    let ret = a.block(&mut buf);
    let ys = b.run(&xs);
    for i in 0..n {
        if !same(buf[i], ys[i]) {
            fail!("{:?}<{}> {:?}: sample {} of a block of {}: {:?}, one at a time: {:?}", kind, T::NAME, cfg.p, i, n, buf[i], ys[i]);
        }
    }
    ensure!(same(ret, ys[n - 1]), "{:?}<{}>: a block of {} returned {:?}, last output sample is {:?}", kind, T::NAME, n, ret, ys[n - 1]);
    c.desc = format!("{:?}<{}> {:?}, one block of {}", kind, T::NAME, cfg.p, n);
    c.seen("blocks judged", 1);
    c.seen("block samples compared", n as u64);
    c.nontrivial = true;
    Ok(())
}
both!(c08_huge, huge_block);

/// Peak magnitude of a vector.
fn peak<T: Sample>(v: &[T]) -> f64 {
    v.iter().fold(0.0, |m, x| m.max(x.f().abs()))
}

/// C14: superposition.
fn superpose<T: Sample>(c: &mut Case) -> Res {
    let kind = LINEAR[c.index % LINEAR.len()];
    let cfg = stable_cfg(&mut c.rng, kind, 0.97);
    mix_cfg(c, &cfg);
    let n = c.rng.range(10, 300) * c.depth + if kind.is_delay() { cfg.max.min(3000) } else { 0 };
    // anywhere from the very quiet to the very loud
    let base = match c.rng.below(3) {
        0 => 0,
        1 => c.rng.irange(T::LO, T::HI),
        _ => c.rng.irange(-30, 20),
    };
    let amp = 2f64.powi(base as i32);
    let x = signal::<T>(&mut c.rng, n, amp);
    let amp2 = amp * 2f64.powi(c.rng.irange(-6, 6) as i32);
    let y = signal::<T>(&mut c.rng, n, amp2);
    let (ka, kb) = (T::of(c.rng.uni(-3.0, 3.0)), T::of(c.rng.pick(&[1.0, -1.0, 0.5, 2.5])));
    let z: Vec<T> = (0..n).map(|i| ka * x[i] + kb * y[i]).collect();
    let hx = AnyProc::<T>::build(&cfg).run(&x);
    let hy = AnyProc::<T>::build(&cfg).run(&y);
    let hz = AnyProc::<T>::build(&cfg).run(&z);
    c.desc = format!("{:?}<{}> {:?} max {}, superposition of {} samples, amplitudes {:e}, {:e}", kind, T::NAME, cfg.p, cfg.max, n, amp, amp2);
    let scale = ka.f().abs() * (peak(&hx) + peak(&x)) + kb.f().abs() * (peak(&hy) + peak(&y)) + peak(&hz);
    let rel = if T::EPS < 1e-10 { 1e-9 } else { 2e-3 };
    let tol = rel * scale + 1e6 * T::TINY;
    for i in 0..n {
        let e = ka.f() * hx[i].f() + kb.f() * hy[i].f();
        ensure!(
            close(hz[i].f(), e, tol),
            "{:?}<{}> {:?}: sample #{}: response to {:?}*x+{:?}*y is {:?}, superposition gives {:e} (amplitude {:e})", kind, T::NAME, cfg.p, i, ka, kb, hz[i], e, amp
        );
        if e.abs() > 10.0 * tol {
            c.nontrivial = true;
        }
    }
    c.seen("superposition samples judged", n as u64);
    if base < -40 {
        c.seen("runs below -240 dB", 1);
    }
    Ok(())
}
both!(c14_superpose, superpose);

/// C14: superposition over long stretches of signals that stay the same or
/// repeat, which their sum does not.
fn steady<T: Sample>(c: &mut Case) -> Res {
    let kind = LINEAR[c.index % LINEAR.len()];
    let cfg = stable_cfg(&mut c.rng, kind, 0.97);
    mix_cfg(c, &cfg);
    let n = c.rng.range(50_000, 70_000);
    let (mut dx, mut dy) = (Drone::new(&mut c.rng, 1.0), Drone::new(&mut c.rng, 1.0));
    c.desc = format!("{:?}<{}> {:?} max {}, superposition of {} samples of {} and {}", kind, T::NAME, cfg.p, cfg.max, n, dx.name(), dy.name());
    let mut p: Vec<AnyProc<T>> = (0..3).map(|_| AnyProc::<T>::build(&cfg)).collect();
    let rel = if T::EPS < 1e-10 { 1e-9 } else { 2e-3 };
    let mut scale = 0.0f64;
    for i in 0..n as u64 {
        let (x, y) = (T::of(dx.at(&mut c.rng, i)), T::of(dy.at(&mut c.rng, i)));
        let z = x + y;
        let (hx, hy, hz) = (p[0].process(x).f(), p[1].process(y).f(), p[2].process(z).f());
        scale = scale.max(hx.abs() + hy.abs() + hz.abs() + x.f().abs() + y.f().abs());
        ensure!(
            close(hz, hx + hy, rel * scale),
            "{:?}<{}> {:?}: sample #{} of {} and {}: responses {:e} and {:e}, to the sum {:e}", kind, T::NAME, cfg.p, i, dx.name(), dy.name(), hx, hy, hz
        );
    }
    c.nontrivial = scale > 0.0;
    c.seen("superposition samples judged", n as u64);
    Ok(())
}
both!(c14_steady, steady);

/// C14: scaling by a power of two, at levels far apart.
fn scaling<T: Sample>(c: &mut Case) -> Res {
    let kind = LINEAR[c.index % LINEAR.len()];
    let cfg = stable_cfg(&mut c.rng, kind, 0.99);
    mix_cfg(c, &cfg);
    let n = c.rng.range(10, 400) * c.depth + if kind.is_delay() { cfg.max.min(3000) } else { 0 };
    let x = signal::<T>(&mut c.rng, n, 1.0);
    let k = c.rng.irange(T::LO, T::HI);
    let s = T::of(2f64.powi(k as i32));
    let sx: Vec<T> = x.iter().map(|v| *v * s).collect();
    let hx = AnyProc::<T>::build(&cfg).run(&x);
    let hs = AnyProc::<T>::build(&cfg).run(&sx);
    c.desc = format!("{:?}<{}> {:?} max {}, {} samples at unit level and at 2^{}", kind, T::NAME, cfg.p, cfg.max, n, k);
    let p = peak(&hx) + peak(&x);
    let rel = if T::EPS < 1e-10 { 1e-12 } else { 1e-5 };
    let tol = rel * p * s.f() + 1e6 * T::TINY;
    for i in 0..n {
        let e = hx[i].f() * s.f();
        ensure!(
            close(hs[i].f(), e, tol),
            "{:?}<{}> {:?}: sample #{}: response at level 2^{} is {:?}, at unit level {:?}", kind, T::NAME, cfg.p, i, k, hs[i], hx[i]
        );
        if e.abs() > 10.0 * tol {
            c.nontrivial = true;
        }
    }
    c.seen("scaled samples judged", n as u64);
    Ok(())
}
both!(c14_scaling, scaling);

/// C14: leading silence only delays the response.
fn shifting<T: Sample>(c: &mut Case) -> Res {
    let kind = LINEAR[c.index % LINEAR.len()];
    let cfg = stable_cfg(&mut c.rng, kind, 0.99);
    mix_cfg(c, &cfg);
    let n = c.rng.range(10, 300) * c.depth + if kind.is_delay() { cfg.max.min(3000) } else { 0 };
    let amp = amplitude::<T>(&mut c.rng, T::LO / 2, T::HI);
    let x = signal::<T>(&mut c.rng, n, amp);
    let m = match c.rng.below(12) {
        0 => c.rng.range(60_000, 70_000),
        1 => c.rng.range(500, 5000),
        _ => c.rng.range(1, 100),
    };
    let hx = AnyProc::<T>::build(&cfg).run(&x);
    let mut p = AnyProc::<T>::build(&cfg);
    c.desc = format!("{:?}<{}> {:?} max {}, {} samples after {} zeros", kind, T::NAME, cfg.p, cfg.max, n, m);
    for i in 0..m {
        let y = p.process(T::zero());
        ensure!(y == T::zero(), "{:?}<{}> {:?}: zero #{} fed into a new processor gave {:?}", kind, T::NAME, cfg.p, i, y);
    }
    let hs = p.run(&x);
    let tol = if kind == K::LinearDelay { 1e-6 * peak(&x) } else { 0.0 };
    for i in 0..n {
        ensure!(
            same(hs[i], hx[i]) || close(hs[i].f(), hx[i].f(), tol),
            "{:?}<{}> {:?}: response sample #{} is {:?}, delayed by {} zeros it is {:?}", kind, T::NAME, cfg.p, i, hx[i], m, hs[i]
        );
        if hx[i] != T::zero() {
            c.nontrivial = true;
        }
    }
    c.seen("shifted samples judged", (n + m) as u64);
    Ok(())
}
both!(c14_shift, shifting);

// ---------------------------------------------------------------- C24

/// What may be moved to another thread whatever the crate's types contain:
/// the race detectors judge, not the type checker.
struct Force<X>(X);
unsafe impl<X> Send for Force<X> {}
impl<X> Force<X> {
    fn into(self) -> X {
        self.0
    }
}

/// Whether a type may be moved to another thread at all.
struct Movable<X>(std::marker::PhantomData<X>);
impl<X: Send> Movable<X> {
    fn movable(&self) -> bool {
        true
    }
}
#[allow(dead_code)]
trait Immovable {
    fn movable(&self) -> bool {
        false
    }
}
impl<X> Immovable for Movable<X> {}

/// C24: every processor and window iterator can be handed to another thread.
pub fn c24_movable(c: &mut Case) -> Res {
    use rasp::analysis::*;
    use rasp::delay::*;
    use rasp::filter::rbj::*;
    use rasp::filter::*;
    use rasp::window::*;
    macro_rules! judge {
        ($($t:ident),*) => {$(
            ensure!(Movable::<$t<f32>>(std::marker::PhantomData).movable() && Movable::<$t<f64>>(std::marker::PhantomData).movable(), "a {} cannot be moved to another thread (it is not Send)", stringify!($t));
            c.seen("types that can be moved between threads", 1);
        )*};
    }
    judge!(LeakyIntegrator, PeakEnvDetector, RmsEnvDetector, Delay, LinearDelay, OnePole, OneZero, TwoPole, TwoZero, Biquad1, Biquad2);
    judge!(LowPass, HighPass, BandPass1, BandPass2, BandStop, AllPass, Peak, LowShelf, HighShelf);
    judge!(TriangularIter, BartlettIter, HannIter, HammingIter, BlackmanIter, BlackmanHarrisIter);
    c.desc = "the types of the crate, at compile time".to_string();
    c.mix(1);
    c.nontrivial = true;
    Ok(())
}

enum Actor {
    P32(Cfg, Vec<ZOp<f32>>),
    P64(Cfg, Vec<ZOp<f64>>),
    /// window values, by kind and size, and an applied window
    Win(usize, usize),
    /// one live iterator, by kind (even: f32) and size
    It(usize, usize),
    /// conversions
    Conv(Vec<f64>),
}

enum Live {
    P32(AnyProc<f32>),
    P64(AnyProc<f64>),
    It(Box<dyn ExactSizeIterator<Item = u64>>),
    Other,
}

/// Settings that differ from `c` in one respect, often only slightly: what a
/// memo or cache shared between instances would confuse.
fn nudge(r: &mut Rng, c: &Cfg) -> Cfg {
    let mut n = *c;
    let eps = 1.0 + r.pick(&[0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]) * r.pick(&[1.0, -1.0]);
    match c.kind {
        K::Leaky => n.p[0] = (c.p[0] * eps).min(0.999),
        K::PeakEnv | K::RmsEnv => match r.below(3) {
            0 => n.p[0] *= eps,
            1 => n.p[1] *= eps,
            _ => n.p.swap(0, 1),
        },
        K::Delay => match r.below(3) {
            0 => n.max += r.range(1, 3),
            1 => n.p[0] = (n.p[0] + 1.0).min(n.max as f64),
            _ => n.p[0] = (n.p[0] - 1.0).max(0.0),
        },
        K::LinearDelay => match r.below(3) {
            0 => n.max += r.range(1, 3),
            1 => n.p[0] = ((n.p[0] * eps) as f32 as f64).min(n.max as f64),
            _ => n.p[0] = n.p[0].floor(),
        },
        k if k.is_rbj() => match r.below(7) {
            0 => n.p[0] *= r.pick(&[2.0, 1.0884353741496598, 1.5]),
            1 => {
                // the same frequency relative to the rate
                n.p[0] *= 2.0;
                n.p[1] *= 2.0;
            }
            2 | 3 => n.p[1] *= eps,
            4 => n.p[2] = if k.is_shelf() { (n.p[2] * eps).min(1.0) } else { n.p[2] * r.pick(&[eps, 2.0]) },
            5 => n.p[3] *= r.pick(&[-1.0, eps]),
            _ => n.kind = if k.is_shelf() { r.pick(&[K::LowShelf, K::HighShelf]) } else { r.pick(&[K::LowPass, K::HighPass, K::BandPass1, K::BandPass2, K::BandStop, K::AllPass, K::Peak]) },
        },
        _ => {
            let i = r.below(5);
            n.p[i] *= eps;
        }
    }
    n
}

/// Several histories, often related to one another.
fn family(r: &mut Rng) -> Vec<Actor> {
    let n = r.range(2, 7);
    let mut v: Vec<Actor> = (0..n).map(|_| Actor::gen(r)).collect();
    let pf = HProf { ops: 25, ..FINITE };
    match r.below(4) {
        // several instances of one kind with unrelated settings
        0 => {
            let kind = r.pick(&KINDS);
            for a in v.iter_mut().take(3) {
                let g = cfg_for(r, kind, true);
                *a = Actor::of(r, g, &pf);
            }
        }
        // with nearly the same settings
        1 | 2 => {
            let kind = if r.chance(0.5) { r.pick(&RBJ) } else { r.pick(&KINDS) };
            let mut g = cfg_for(r, kind, true);
            for a in v.iter_mut().take(4) {
                *a = Actor::of(r, g, &pf);
                g = nudge(r, &g);
            }
        }
        // windows of neighbouring sizes and kinds
        _ => {
            let k = r.below(12);
            let n = if r.chance(0.2) { r.range(100, 2500) } else { r.range(1, 60) };
            for a in v.iter_mut().take(4) {
                let k = if r.chance(0.5) { k } else { r.below(12) };
                let n = if r.chance(0.5) { n } else { n + r.range(1, 2) };
                *a = if r.chance(0.5) { Actor::It(k, n) } else { Actor::Win(k, n) };
            }
        }
    }
    v
}

impl Actor {
    fn gen(r: &mut Rng) -> Actor {
        let kind = r.pick(&KINDS);
        let pf = HProf { ops: 25, ..FINITE };
        match r.below(9) {
            0 => Actor::Win(r.below(12), r.range(1, 60)),
            1 => {
                let n = r.range(1, 12);
                let mut v: Vec<f64> = (0..n).map(|_| r.uni(-140.0, 30.0)).collect();
                for i in 1..n {
                    if r.chance(0.3) {
                        v[i] = v[i - 1] * (1.0 + r.pick(&[0.0, 1e-9, 1e-6, 1e-4]));
                    }
                }
                Actor::Conv(v)
            }
            2 => Actor::It(r.below(12), r.range(1, 60)),
            _ => {
                let g = cfg_for(r, kind, true);
                Actor::of(r, g, &pf)
            }
        }
    }
    fn of(r: &mut Rng, g: Cfg, pf: &HProf) -> Actor {
        if r.chance(0.5) {
            let (c, o) = history_from(r, g, pf);
            Actor::P32(c, o)
        } else {
            let (c, o) = history_from(r, g, pf);
            Actor::P64(c, o)
        }
    }
    fn name(&self) -> String {
        match self {
            Actor::P32(c, o) => format!("{:?}<f32> {:?} ({} ops)", c.kind, c.p, o.len()),
            Actor::P64(c, o) => format!("{:?}<f64> {:?} ({} ops)", c.kind, c.p, o.len()),
            Actor::Win(k, n) => format!("window {} of {}", k, n),
            Actor::It(k, n) => format!("iterator {} of {}", k, n),
            Actor::Conv(v) => format!("{} conversions", v.len()),
        }
    }
    fn steps(&self) -> usize {
        match self {
            Actor::P32(_, o) => o.len(),
            Actor::P64(_, o) => o.len(),
            Actor::Win(_, n) => (*n).min(4),
            Actor::It(_, n) => n + 1,
            Actor::Conv(v) => v.len(),
        }
    }
    fn start(&self) -> Live {
        match self {
            Actor::P32(c, _) => Live::P32(AnyProc::build(c)),
            Actor::P64(c, _) => Live::P64(AnyProc::build(c)),
            Actor::It(k, n) => Live::It(crate::windows::live(*k, *n)),
            _ => Live::Other,
        }
    }
    /// One step of the history; the observation goes to `out`.
    fn step(&self, l: &mut Live, i: usize, out: &mut Vec<u64>) {
        match (self, l) {
            (Actor::P32(_, o), Live::P32(p)) => {
                let mut v = vec![];
                apply(p, &o[i], &mut v);
                out.extend(v.iter().map(|x| x.bits()));
                out.push(p.last_out().bits());
            }
            (Actor::P64(_, o), Live::P64(p)) => {
                let mut v = vec![];
                apply(p, &o[i], &mut v);
                out.extend(v.iter().map(|x| x.bits()));
                out.push(p.last_out().bits());
            }
            (Actor::It(..), Live::It(it)) => {
                out.push(crate::mon::rasp(|| it.len()) as u64);
                out.push(crate::mon::rasp(|| it.next()).unwrap_or(u64::MAX));
            }
            (Actor::Win(k, n), _) => {
                // the whole window again at each step: any cached state shows
                if k % 2 == 0 {
                    out.extend(crate::windows::values::<f32>(k / 2, *n).iter().map(|x| x.bits()));
                    let mut s = vec![1.0f32; *n];
                    crate::windows::apply_kind(&mut s, 1 + k / 2);
                    out.extend(s.iter().map(|x| x.bits()));
                } else {
                    out.extend(crate::windows::values::<f64>(k / 2, *n).iter().map(|x| x.bits()));
                    let mut s = vec![1.0f64; *n];
                    crate::windows::apply_kind(&mut s, 1 + k / 2);
                    out.extend(s.iter().map(|x| x.bits()));
                }
            }
            (Actor::Conv(v), _) => {
                let s = crate::mon::rasp(|| rasp::util::to_sample(v[i]));
                let d = crate::mon::rasp(|| rasp::util::to_db(s));
                let s3 = crate::mon::rasp(|| rasp::util::to_sample(v[i] as f32));
                let d3 = crate::mon::rasp(|| rasp::util::to_db(s3));
                let g = crate::mon::rasp(|| rasp::util::apply_gain(v[i], s));
                out.extend([s.bits(), d.bits(), s3.bits(), d3.bits(), g.bits()]);
            }
            _ => unreachable!(),
        }
    }
    fn solo(&self) -> Vec<u64> {
        let mut l = self.start();
        let mut out = vec![];
        for i in 0..self.steps() {
            self.step(&mut l, i, &mut out);
        }
        out
    }
}

pub fn c24_histories(c: &mut Case) -> Res {
    let actors = family(&mut c.rng);
    let n = actors.len();
    c.desc = actors.iter().map(|a| a.name()).collect::<Vec<_>>().join(" | ");
    let solo: Vec<Vec<u64>> = actors.iter().map(|a| a.solo()).collect();
    for s in &solo {
        c.mix(s.len() as u64);
        for v in s.iter().take(20) {
            c.mix(*v);
        }
        c.seen("solo observations", s.len() as u64);
    }
    let check = |how: &str, i: usize, got: &Vec<u64>| -> Res {
        if let Some(k) = (0..solo[i].len().max(got.len())).find(|&k| solo[i].get(k) != got.get(k)) {
            fail!("{}: observation #{} is {:x?} {}, {:x?} when run alone", actors[i].name(), k, got.get(k), how, solo[i].get(k));
        }
        Ok(())
    };
    // repeat
    for i in 0..n {
        check("when the history is repeated", i, &actors[i].solo())?;
        c.seen("observations of repeated histories", solo[i].len() as u64);
    }
    // interleaved at random
    {
        let mut live: Vec<Live> = actors.iter().map(|a| a.start()).collect();
        let mut pos = vec![0; n];
        let mut out = vec![vec![]; n];
        let mut left: Vec<usize> = (0..n).filter(|&i| actors[i].steps() > 0).collect();
        let mut sched = 0u64;
        while !left.is_empty() {
            let j = c.rng.below(left.len());
            let i = left[j];
            sched = sched.wrapping_mul(31).wrapping_add(i as u64 + 1);
            actors[i].step(&mut live[i], pos[i], &mut out[i]);
            pos[i] += 1;
            if pos[i] == actors[i].steps() {
                left.swap_remove(j);
            }
        }
        c.mix(sched);
        for i in 0..n {
            check("when interleaved with the others", i, &out[i])?;
            c.seen("observations of interleaved histories", out[i].len() as u64);
        }
    }
    // dropped and re-created in between
    if c.rng.chance(0.3) {
        let i = c.rng.below(n);
        drop(actors[(i + 1) % n].start());
        check("after other instances came and went", i, &actors[i].solo())?;
    }
    // on threads of their own, all at once
    if c.index % 4 == 0 {
        let outs: Vec<Vec<u64>> = std::thread::scope(|sc| {
            let hs: Vec<_> = actors
                .iter()
                .map(|a| {
                    let a = Force(a);
                    sc.spawn(move || {
                        let a = a.into();
                        crate::mon::catch_rasp(|| a.solo())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<_, _>>()
        })
        .map_err(crate::mon::Fail)?;
        for i in 0..n {
            check("on a thread next to the others", i, &outs[i])?;
            c.seen("observations on concurrent threads", outs[i].len() as u64);
        }
        c.seen("threads run", n as u64);
        // moved to another thread half way
        for i in 0..n {
            let a = &actors[i];
            let half = a.steps() / 2;
            let mut l = a.start();
            let mut out = vec![];
            for k in 0..half {
                a.step(&mut l, k, &mut out);
            }
            let cargo = Force((a, l, out));
            let r = std::thread::scope(|sc| {
                sc.spawn(move || {
                    let (a, mut l, mut out) = cargo.into();
                    crate::mon::catch_rasp(move || {
                        for k in half..a.steps() {
                            a.step(&mut l, k, &mut out);
                        }
                        out
                    })
                })
                .join()
                .unwrap()
            })
            .map_err(crate::mon::Fail)?;
            check("when moved to another thread half way", i, &r)?;
            c.seen("observations of moved instances", r.len() as u64);
        }
    }
    c.nontrivial = solo.iter().any(|s| s.iter().any(|v| *v != 0));
    Ok(())
}

fn digest(v: &[u64]) -> u64 {
    v.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23))
}

/// `monitor solo FAMILY I`: one history of a family, in a process of its own.
pub fn solo_in_this_process(seed: u64, i: usize) -> (usize, u64) {
    let v = family(&mut Rng::new(seed));
    let o = v[i].solo();
    (o.len(), digest(&o))
}

/// Each history of a family, run here after the others (and after everything
/// this process ran before), against a fresh process that runs nothing else.
pub fn c24_fresh(c: &mut Case) -> Res {
    let fs = c.rng.u64();
    let actors = family(&mut Rng::new(fs));
    let me = match std::env::current_exe() {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    c.desc = actors.iter().map(|a| a.name()).collect::<Vec<_>>().join(" | ");
    for a in actors.iter().rev() {
        a.solo();
    }
    for (i, a) in actors.iter().enumerate() {
        let here = a.solo();
        let o = std::process::Command::new(&me).args(["solo", &fs.to_string(), &i.to_string()]).output();
        let text = match o {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
            // no verdict from a process that could not be started or was killed
            _ => continue,
        };
        let mut w = text.split_whitespace().filter_map(|x| x.parse::<u64>().ok());
        if let (Some(len), Some(d)) = (w.next(), w.next()) {
            ensure!(
                len == here.len() as u64 && d == digest(&here),
                "{}: the {} observations in this process differ from those of a process that runs nothing else", a.name(), here.len()
            );
            c.mix(d);
            c.nontrivial = true;
            c.seen("observations compared with a fresh process", len);
            c.seen("fresh processes", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

/// l1 norm of the impulse response of 1/A(z).
fn l1_recip(a1: f64, a2: f64) -> f64 {
    let (mut y1, mut y2) = (0.0f64, 0.0f64);
    let mut s = 0.0;
    for i in 0..40_000 {
        let y = if i == 0 { 1.0 } else { 0.0 } - a1 * y1 - a2 * y2;
        s += y.abs();
        if y.abs() + y1.abs() < 1e-12 && i > 3 {
            break;
        }
        y2 = y1;
        y1 = y;
    }
    s
}

pub fn c25_precision(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let wide = c.rng.chance(0.4);
    let mut cfg = match (kind.is_rbj(), wide) {
        (true, false) => crate::zoo::rbj_cfg(&mut c.rng, kind, 0.02, 0.46, 0.3, 8.0, 18.0),
        (true, true) => crate::zoo::rbj_cfg(&mut c.rng, kind, 1e-3, 0.499, 0.03, 60.0, 60.0),
        (false, false) => stable_cfg(&mut c.rng, kind, 0.95),
        (false, true) => stable_cfg(&mut c.rng, kind, 0.9995),
    };
    let mut extra = 0;
    if matches!(kind, K::PeakEnv | K::RmsEnv) && wide {
        cfg.p[0] = c.rng.logu(0.05, 50_000.0);
        cfg.p[1] = c.rng.logu(0.05, 50_000.0);
        if c.rng.chance(0.1) {
            extra = (2.0 * cfg.p[0].min(cfg.p[1])) as usize;
        }
    }
    for v in cfg.p.iter_mut() {
        *v = (*v as f32) as f64;
    }
    mix_cfg(c, &cfg);
    let n = c.rng.range(20, 500) * c.depth + if kind.is_delay() { cfg.max.min(3000) } else { 0 } + extra.min(20_000);
    let amp = if wide && kind != K::RmsEnv { amplitude::<f32>(&mut c.rng, -100, 90) } else { amplitude::<f32>(&mut c.rng, -40, 30) };
    let xs = signal::<f32>(&mut c.rng, n, amp);
    let mut p = AnyProc::<f32>::build(&cfg);
    let mut q = AnyProc::<f64>::build(&cfg);
    let e32 = f32::EPSILON as f64;
    let ys: Vec<f64> = xs.iter().map(|x| p.process(*x) as f64).collect();
    let zs: Vec<f64> = xs.iter().map(|x| q.process(*x as f64)).collect();
    let xp = peak(&xs);
    let zp = peak(&zs);
    let tiny = 1e4 * f32::TINY;
    // forward error bound from the conditioning of the settings
    let (tol, square) = match kind {
        K::Delay => (0.0, false),
        K::LinearDelay => (6.0 * e32 * xp + tiny, false),
        K::Leaky => (6.0 * e32 * (xp + zp) / (1.0 - cfg.p[0]) + tiny, false),
        K::PeakEnv => (8.0 * e32 * xp * (1.0 + cfg.p[0].max(cfg.p[1])) + tiny, false),
        K::RmsEnv => (12.0 * e32 * xp * xp * (1.0 + cfg.p[0].max(cfg.p[1])) + tiny, true),
        k if k.is_rbj() => {
            let rf = crate::rbj::reference::<f32>(&cfg);
            let local = 24.0 * e32 * (rf.eb * 3.0 * xp + rf.ea * 2.0 * zp);
            (l1_recip(rf.a[1], rf.a[2]) * local * 2.0 + tiny, false)
        }
        _ => {
            let b: f64 = cfg.p[..3].iter().map(|v| v.abs()).sum();
            let a: f64 = cfg.p[3..].iter().map(|v| v.abs()).sum();
            (16.0 * e32 * (b * xp + (a + 1.0) * zp) * l1_recip(cfg.p[3], cfg.p[4]) * 2.0 + tiny, false)
        }
    };
    c.desc = format!("{:?} {:?} max {}, f32 vs f64 over {} samples, amplitude {:e}", kind, cfg.p, cfg.max, n, amp);
    let limit = if square { zp * zp } else { zp };
    let meaningful = tol < 0.05 * limit || kind == K::Delay;
    for i in 0..n {
        let (u, v) = if square { (ys[i] * ys[i], zs[i] * zs[i]) } else { (ys[i], zs[i]) };
        ensure!(close(u, v, tol), "{:?} {:?}: sample #{}: f32 gives {:e}, f64 gives {:e} (tolerance {:e})", kind, cfg.p, i, u, v, tol);
    }
    let (gp, gq) = (p.getters(), q.getters());
    for (u, v) in gp.iter().zip(&gq) {
        ensure!(close(*u, *v, 6.0 * e32 * v.abs().max(1e-30) + 12.0 * e32 * if matches!(kind, K::PeakEnv | K::RmsEnv) { 1.0 } else { 0.0 }), "{:?} {:?}: f32 reports {:e}, f64 {:e}", kind, cfg.p, u, v);
    }
    if kind.is_delay() {
        for k in 0..=cfg.max.min(300) {
            let (u, v) = (p.tap_out(k).unwrap() as f64, q.tap_out(k).unwrap());
            ensure!(u == v, "{:?}: tap {}: f32 {:?}, f64 {:?}", kind, k, u, v);
        }
    }
    c.seen("f32/f64 pairs compared", n as u64);
    if meaningful {
        c.seen("runs judged to better than 5% of the peak", 1);
    }
    if tol < 1e-3 * limit {
        c.seen("runs judged to better than 0.1% of the peak", 1);
    }
    c.nontrivial = meaningful && limit > 0.0;
    Ok(())
}

pub fn c25_windows(c: &mut Case) -> Res {
    let n = if c.index < 200 { c.index } else { c.rng.range(1, 4000) };
    c.mix(n as u64);
    for k in 0..6 {
        let a = crate::windows::values::<f32>(k, n);
        let b = crate::windows::values::<f64>(k, n);
        ensure!(a.len() == b.len(), "window {} of size {}: f32 yields {} values, f64 {}", k, n, a.len(), b.len());
        for i in 0..a.len() {
            ensure!(close(a[i] as f64, b[i], 4e-6), "{} window of size {}: value {} is {:e} in f32, {:e} in f64", crate::windows::NAMES[k], n, i, a[i], b[i]);
        }
        c.seen("window values compared", a.len() as u64);
    }
    for _ in 0..50 {
        let db = (c.rng.uni(-119.9, 60.0) as f32) as f64;
        let (a, b) = (crate::mon::rasp(|| rasp::util::to_sample(db as f32)) as f64, crate::mon::rasp(|| rasp::util::to_sample(db)));
        ensure!(close(a, b, 40.0 * f32::EPSILON as f64 * b), "to_sample({}): f32 {:e}, f64 {:e}", db, a, b);
        let s = (c.rng.logu(1.1e-6, 1e4) as f32) as f64;
        let (a, b) = (crate::mon::rasp(|| rasp::util::to_db(s as f32)) as f64, crate::mon::rasp(|| rasp::util::to_db(s)));
        ensure!(close(a, b, 4.0 * f32::EPSILON as f64 * (b.abs() + 20.0)), "to_db({}): f32 {:e}, f64 {:e}", s, a, b);
        let (g, x) = ((c.rng.logu(1e-3, 1e3) as f32) as f64, (c.rng.uni(-2.0, 2.0) as f32) as f64);
        let (a, b) = (crate::mon::rasp(|| rasp::util::apply_gain(x as f32, g as f32)) as f64, crate::mon::rasp(|| rasp::util::apply_gain(x, g)));
        ensure!(close(a, b, 2.0 * f32::EPSILON as f64 * b.abs()), "apply_gain({}, {}): f32 {:e}, f64 {:e}", x, g, a, b);
        c.seen("conversions compared", 3);
    }
    c.desc = format!("all windows of size {} and 150 conversions, f32 vs f64", n);
    c.nontrivial = true;
    Ok(())
}

/// How long a marathon lasts: past 2^16 always, past 2^20 for one in eight.
fn far(c: &mut Case) -> usize {
    let n = if c.index % 8 == 7 { (1 << 20) + 5000 } else { c.rng.pick(&[66_000, 70_001, 131_100, 200_000]) };
    if c.depth > 1 && c.index % 32 == 31 { (1 << 24) + 5000 } else { n }
}

/// C05-C07 over long streams: one instance queried at every sample, its twin
/// only now and then; in the end cleared and compared with a new one.
fn marathon<T: Sample>(c: &mut Case) -> Res {
    let kind = KINDS[c.index % KINDS.len()];
    let mut cfg = cfg_for(&mut c.rng, kind, true);
    if kind.is_delay() && c.rng.chance(0.5) {
        cfg.max = c.rng.pick(&[4095, 4096, 4500, 8192, 16384, 44100, 65535, 65536, 100_000]);
        cfg.p[0] = c.rng.uni(0.0, cfg.max as f64).floor() + if kind == K::LinearDelay && cfg.max < 60_000 { 0.25 } else { 0.0 };
    }
    let n = far(c);
    c.desc = format!("{:?}<{}> {:?} max {}, {} samples, then cleared", kind, T::NAME, cfg.p, cfg.max, n);
    mix_cfg(c, &cfg);
    c.mix(n as u64);
    let mut a = AnyProc::<T>::build(&cfg);
    let mut b = AnyProc::<T>::build(&cfg);
    let xs = signal::<T>(&mut c.rng, 4099, 1.0);
    let mut dirty = false;
    for i in 0..n {
        let x = xs[i % 4099];
        let look = if kind.is_delay() { a.next_out() } else { None };
        let (u, v) = (a.process(x), b.process(x));
        ensure!(same(u, v), "{:?}<{}> {:?}: output {} is {:?} when queried every time, {:?} when not", kind, T::NAME, cfg.p, i, u, v);
        if let (Some(l), true) = (look, cfg.p[0] >= 1.0) {
            ensure!(same(l, u) || kind == K::LinearDelay && close(l.f(), u.f(), 1e-6), "{:?}<{}> {:?}: look-ahead said {:?}, output {} is {:?}", kind, T::NAME, cfg.p, l, i, u);
        }
        let l = a.last_out();
        ensure!(same(l, u), "{:?}<{}> {:?}: last output after {} samples is {:?}, should be {:?}", kind, T::NAME, cfg.p, i + 1, l, u);
        dirty |= u != T::zero();
    }
    c.seen("twin outputs compared", n as u64);
    c.seen("last-output judged", n as u64);
    a.clear();
    let mut f = AnyProc::<T>::build(&cfg);
    ensure!(a.last_out() == T::zero(), "{:?}<{}>: last output {:?} after clear", kind, T::NAME, a.last_out());
    if kind.is_delay() {
        let m = a.max_delay().unwrap();
        for k in 0..=m {
            let v = a.tap_out(k).unwrap();
            ensure!(v == T::zero(), "{:?}<{}> {:?} max {}: tap {} is {:?} after {} samples and a clear", kind, T::NAME, cfg.p, m, k, v, n);
        }
        c.seen("taps and look-aheads compared", m as u64);
    }
    let quiet = if kind.is_delay() { cfg.max + 10 } else { 50 };
    for i in 0..quiet + 300 {
        let x = if i < quiet { T::zero() } else { xs[i % 4099] };
        let (u, v) = (a.process(x), f.process(x));
        let tol = if kind == K::LinearDelay { 1e-6 } else { 0.0 };
        ensure!(
            same(u, v) || close(u.f(), v.f(), tol),
            "{:?}<{}> {:?} max {}: output {} after {} samples and a clear is {:?}, on a new processor {:?}", kind, T::NAME, cfg.p, cfg.max, i, n, u, v
        );
        c.seen("outputs compared with a fresh processor", 1);
    }
    c.nontrivial = dirty;
    Ok(())
}
both!(c567_marathon, marathon);
