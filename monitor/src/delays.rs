//! C01-C05 (delay part) and C28: delay lines against a queue model.

use crate::mon::{rasp, Case, Fail, Res};
use crate::rng::Rng;
use crate::sample::{close, exact, same, Sample};
use crate::signal::{amplitude, hostile, signal};
use crate::zoo::pick_max;
use crate::{ensure, fail};
use rasp::delay::{Delay, LinearDelay};
use rasp::traits::{Processor, TappableDelayLine};
use std::collections::VecDeque;

/// Both delay line types behind one interface (public API only).
pub trait Line<T: Sample>: Processor<T> + TappableDelayLine<T> {
    const LINEAR: bool;
    const NAME: &'static str;
    fn make(d: f64, max: usize) -> Self;
    fn set_d(&mut self, d: f64);
    fn get_d(&self) -> f64;
    fn set_m(&mut self, m: usize);
    fn get_m(&self) -> usize;
    fn next(&mut self) -> T;
}

impl<T: Sample> Line<T> for Delay<T> {
    const LINEAR: bool = false;
    const NAME: &'static str = "Delay";
    fn make(d: f64, max: usize) -> Self {
        rasp(|| Delay::new(d as usize, max))
    }
    fn set_d(&mut self, d: f64) {
        rasp(|| self.set_delay(d as usize))
    }
    fn get_d(&self) -> f64 {
        rasp(|| self.get_delay() as f64)
    }
    fn set_m(&mut self, m: usize) {
        rasp(|| self.set_max_delay(m))
    }
    fn get_m(&self) -> usize {
        rasp(|| self.get_max_delay())
    }
    fn next(&mut self) -> T {
        rasp(|| self.next_out())
    }
}

impl<T: Sample> Line<T> for LinearDelay<T> {
    const LINEAR: bool = true;
    const NAME: &'static str = "LinearDelay";
    fn make(d: f64, max: usize) -> Self {
        rasp(|| LinearDelay::new(d as f32, max))
    }
    fn set_d(&mut self, d: f64) {
        rasp(|| self.set_delay(d as f32))
    }
    fn get_d(&self) -> f64 {
        rasp(|| self.get_delay() as f64)
    }
    fn set_m(&mut self, m: usize) {
        rasp(|| self.set_max_delay(m))
    }
    fn get_m(&self) -> usize {
        rasp(|| self.get_max_delay())
    }
    fn next(&mut self) -> T {
        rasp(|| self.next_out())
    }
}

#[derive(Clone, Debug)]
pub enum Op<T> {
    Process(T),
    Block(Vec<T>),
    SetDelay(f64),
    SetMax(usize),
    Clear,
    TapOut(usize),
    TapIn(T, usize),
    AddTo(T, usize),
    NextOut,
    Queries,
    TapSweep,
}

fn show<T: Sample>(o: &Op<T>) -> String {
    match o {
        Op::Block(v) if v.len() > 8 => format!("Block(len {}, starts {:?})", v.len(), &v[..4]),
        o => format!("{:?}", o),
    }
}

/// The specification: the last max+1 samples, newest first.
struct Model<T> {
    h: VecDeque<T>,
    d: f64,
    max: usize,
    last: T,
    last_tol: f64,
    count: u64,
}

impl<T: Sample> Model<T> {
    fn new(d: f64, max: usize) -> Self {
        let mut m = Model {
            h: VecDeque::from(vec![T::zero(); max + 1]),
            d: 0.0,
            max,
            last: T::zero(),
            last_tol: 0.0,
            count: 0,
        };
        m.set_d(d);
        m
    }
    fn set_d(&mut self, d: f64) {
        self.d = if d > self.max as f64 {
            self.max as f64
        } else if d < 0.0 {
            0.0
        } else {
            d
        };
    }
    fn push(&mut self, x: T) {
        self.h.pop_back();
        self.h.push_front(x);
        self.count += 1;
    }
    /// Expected output and tolerance, reading `off` samples closer (look-ahead).
    fn read(&self, off: usize) -> (f64, f64) {
        let d = self.d - off as f64;
        let k = d.floor() as usize;
        let f = d - k as f64;
        let a = self.h[k].f();
        if f == 0.0 {
            return (a, a.abs() * 4.0 * T::EPS);
        }
        let b = self.h[k + 1].f();
        // weights may be off by the rounding of a 32-bit delay
        let s = a.abs() + b.abs();
        if s > T::MAX {
            // the blend may round past the largest value
            return (f64::NAN, 0.0);
        }
        ((1.0 - f) * a + f * b, s * (3.0e-7 + 4.0 * T::EPS) + 4.0 * T::TINY)
    }
}

pub struct Prof {
    pub grow: f64,
    pub taps: f64,
    pub setd: f64,
    pub clear: f64,
    pub look: f64,
    pub query: f64,
    /// non-finite samples in every history, not just in some
    pub hostile: bool,
    pub big: f64,
}

/// A requested delay for a line of this maximum.
fn pick_delay(r: &mut Rng, max: usize, linear: bool) -> f64 {
    let m = max as f64;
    if !linear {
        return match r.below(12) {
            0 => 0.0,
            1 => 1.0f64.min(m),
            2 => m,
            3 => (m - 1.0).max(0.0),
            4 => m + r.range(1, 2000) as f64,
            5 => {
                let e = (1u64 << r.range(16, 63)) as f64;
                r.pick(&[1e12, 1e6, m + 1.0, 18446744073709549568.0, e, e, e - 1.0, e + 1.0, e + m])
            }
            6 => (m / 2.0).floor(),
            _ => r.range(0, max) as f64,
        };
    }
    let d = match r.below(20) {
        0 => 0.0,
        1 => m,
        2 => r.range(0, max) as f64,
        3 => r.range(0, max) as f64 + 0.5,
        4 => r.range(0, max) as f64 + r.logu(1e-9, 1e-2),
        5 => r.range(0, max) as f64 - r.logu(1e-9, 1e-2),
        6 => r.logu(1e-38, 1e-3),
        7 => m - r.logu(1e-7, 1.0),
        8 => m + r.logu(1e-3, 1e6),
        9 => -r.logu(1e-9, 1e6),
        10 => r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 3e38, -3e38, -0.0]),
        11 => r.uni(0.0, 1.0),
        12 => 1.0 + r.uni(0.0, 1.0),
        13 => r.range(0, max) as f64 + r.pick(&[0.25, 0.75, 0.1, 0.9, 1.0 / 3.0]),
        _ => r.uni(0.0, m),
    };
    (d as f32) as f64
}

fn gen<T: Sample>(r: &mut Rng, pf: &Prof, linear: bool, depth: usize) -> (f64, usize, Vec<Op<T>>) {
    let big = r.chance(pf.big);
    let mut max = if big {
        match r.below(5) {
            0 => r.pick(&[
                4095, 4096, 8191, 8192, 65535, 65536, 441, 480, 882, 960, 1000, 1023, 1024, 1920, 2000, 2047, 2048, 4410, 4800, 5000, 8000, 8820, 9600, 10000, 11025, 16000,
                16383, 16384, 22050, 24000, 32767, 32768, 44100, 48000, 88200, 96000, 100000,
            ]),
            1 => r.range(60000, 70000),
            2 => 5 * 44100,
            _ => r.range(1000, 30000),
        }
    } else {
        pick_max(r)
    };
    let max0 = max;
    let d0 = pick_delay(r, max, linear);
    let amp = amplitude::<T>(r, T::SUB, T::HI);
    let n = if big { r.range(4, 14) * depth } else { r.range(5, 120) * depth };
    let mut uniq = 0u64;
    let wild = pf.hostile || r.chance(0.12);
    let counter = r.chance(0.4);
    let mut val = |r: &mut Rng| -> T {
        uniq += 1;
        if wild && r.chance(0.1) {
            hostile(r)
        } else if counter {
            T::of(uniq as f64)
        } else {
            T::of(amp * r.uni(-1.0, 1.0))
        }
    };
    let mut ops = Vec::with_capacity(n);
    for _ in 0..n {
        let mut x = r.f();
        let mut hit = |p: f64| {
            x -= p;
            x < 0.0
        };
        if hit(pf.setd) {
            ops.push(Op::SetDelay(pick_delay(r, max, linear)));
        } else if hit(pf.grow) {
            let m = match r.below(6) {
                0 => r.range(0, max),
                1 => max + 1,
                2 => max * 2 + 1,
                3 => max,
                _ => max + r.range(1, if big { 5000 } else { 40 }),
            };
            if m > max && m < 400_000 {
                max = m;
                ops.push(Op::SetMax(m));
            } else if m <= max {
                ops.push(Op::SetMax(m));
            }
        } else if hit(pf.clear) {
            ops.push(Op::Clear);
        } else if hit(pf.taps) {
            let k = match r.below(6) {
                0 => 0,
                1 => max,
                2 => max.saturating_sub(1),
                _ => r.range(0, max),
            };
            ops.push(match r.below(6) {
                0 | 1 => Op::TapIn(val(r), k),
                2 | 3 => Op::AddTo(val(r), k),
                4 if max <= 5000 => Op::TapSweep,
                _ => Op::TapOut(k),
            });
        } else if hit(pf.look) {
            ops.push(Op::NextOut);
        } else if hit(pf.query) {
            ops.push(Op::Queries);
        } else if big {
            let len = match r.below(3) {
                0 => r.range(1, 50),
                1 => r.range(max / 2, max + max / 2 + 1),
                _ => r.range(1, max.max(1)),
            };
            ops.push(Op::Block((0..len).map(|_| val(r)).collect()));
        } else if r.chance(0.15) {
            let hi = if r.chance(0.2) { 3 * max.min(2000) + 3 } else { 12 };
            let len = r.range(0, hi);
            ops.push(Op::Block(if counter { (0..len).map(|_| val(r)).collect() } else { signal(r, len, amp) }));
        } else {
            for _ in 0..r.range(1, 6) {
                ops.push(Op::Process(val(r)));
            }
        }
    }
    (d0, max0, ops)
}

/// Statistics of one run.
#[derive(Default)]
struct Seen {
    outputs: u64,
    nonzero: u64,
    wraps: u64,
    taps: u64,
    writes: u64,
    looks: u64,
    grows: u64,
    grows_wrapped: u64,
    setd_live: u64,
    clears: u64,
    fractional: u64,
    full: u64,
    zero_d: u64,
    clamps: u64,
}

fn exec<T: Sample, D: Line<T>>(d0: f64, max0: usize, ops: &[Op<T>], s: &mut Seen, log: &mut dyn FnMut(String)) -> Res {
    let mut sut = D::make(d0, max0);
    let mut m = Model::<T>::new(d0, max0);
    let mut written_since_grow = 0usize;
    let check_state = |sut: &D, m: &Model<T>, when: &str| -> Res {
        let d = sut.get_d();
        ensure!(d == m.d, "{}<{}>: {}: reported delay {} but expected {}", D::NAME, T::NAME, when, d, m.d);
        let mx = sut.get_m();
        ensure!(mx == m.max, "{}<{}>: {}: reported maximum {} but expected {}", D::NAME, T::NAME, when, mx, m.max);
        let l = rasp(|| sut.last_out());
        ensure!(
            same(l, m.last) || close(l.f(), m.last.f(), m.last_tol),
            "{}<{}>: {}: last output {:?} but expected {:?}", D::NAME, T::NAME, when, l, m.last
        );
        Ok(())
    };
    check_state(&sut, &m, "after creation")?;
    for (i, op) in ops.iter().enumerate() {
        log(format!("{:4} {}", i, show(op)));
        let judge = |m: &mut Model<T>, x: T, y: T, s: &mut Seen| -> Res {
            m.push(x);
            s.outputs += 1;
            if D::LINEAR {
                let (e, tol) = m.read(0);
                // (a blend of non-finite samples is not specified)
                ensure!(
                    !e.is_finite() || close(y.f(), e, tol),
                    "LinearDelay<{}>: sample #{} with delay {} (max {}): got {:?}, expected {:e} +- {:e}",
                    T::NAME, m.count, m.d, m.max, y, e, tol
                );
                m.last = y;
                m.last_tol = 0.0;
            } else {
                let e = m.h[m.d as usize];
                ensure!(
                    exact(y, e),
                    "Delay<{}>: sample #{} with delay {} (max {}): got {:?}, expected {:?}",
                    T::NAME, m.count, m.d, m.max, y, e
                );
                m.last = e;
            }
            if y != T::zero() {
                s.nonzero += 1;
            }
            if m.d == m.max as f64 {
                s.full += 1;
            }
            if m.d == 0.0 {
                s.zero_d += 1;
            }
            if m.d.fract() != 0.0 {
                s.fractional += 1;
            }
            Ok(())
        };
        match op {
            Op::Process(x) => {
                let y = rasp(|| sut.process(*x));
                judge(&mut m, *x, y, s)?;
                written_since_grow += 1;
            }
            Op::Block(v) => {
                let mut b = v.clone();
                let ret = rasp(|| sut.process_block(&mut b));
                for (x, y) in v.iter().zip(b.iter()) {
                    judge(&mut m, *x, *y, s)?;
                }
                ensure!(same(ret, m.last), "{}: block of {} returned {:?}, last output is {:?}", D::NAME, v.len(), ret, m.last);
                written_since_grow += v.len();
            }
            Op::SetDelay(d) => {
                sut.set_d(*d);
                m.set_d(*d);
                if m.d != *d {
                    s.clamps += 1;
                }
                if m.count > 0 {
                    s.setd_live += 1;
                }
            }
            Op::SetMax(n) => {
                sut.set_m(*n);
                if *n > m.max {
                    s.grows += 1;
                    if written_since_grow > m.max {
                        s.grows_wrapped += 1;
                    }
                    written_since_grow %= m.max + 1;
                    m.max = *n;
                    m.h.resize(n + 1, T::zero());
                }
            }
            Op::Clear => {
                rasp(|| sut.clear());
                for x in m.h.iter_mut() {
                    *x = T::zero();
                }
                m.last = T::zero();
                m.last_tol = 0.0;
                s.clears += 1;
            }
            Op::TapOut(k) => {
                if *k <= m.max {
                    let v = rasp(|| sut.tap_out(*k));
                    ensure!(exact(v, m.h[*k]), "{}<{}>: tap at offset {} (max {}) read {:?}, stored sample is {:?}", D::NAME, T::NAME, k, m.max, v, m.h[*k]);
                    s.taps += 1;
                }
            }
            Op::TapIn(v, k) => {
                if *k <= m.max {
                    rasp(|| sut.tap_in(*v, *k));
                    m.h[*k] = *v;
                    s.writes += 1;
                }
            }
            Op::AddTo(v, k) => {
                if *k <= m.max {
                    let got = rasp(|| sut.add_to(*v, *k));
                    let e = m.h[*k] + *v;
                    ensure!(exact(got, e), "{}<{}>: adding {:?} at offset {} (max {}) returned {:?}, expected {:?}", D::NAME, T::NAME, v, k, m.max, got, e);
                    m.h[*k] = e;
                    s.writes += 1;
                }
            }
            Op::TapSweep => {
                for k in 0..=m.max {
                    let v = rasp(|| sut.tap_out(k));
                    ensure!(exact(v, m.h[k]), "{}<{}>: tap at offset {} (max {}) read {:?}, stored sample is {:?}", D::NAME, T::NAME, k, m.max, v, m.h[k]);
                }
                s.taps += m.max as u64 + 1;
            }
            Op::NextOut => {
                let v = sut.next();
                if m.d >= 1.0 {
                    s.looks += 1;
                    if D::LINEAR {
                        let (e, tol) = m.read(1);
                        ensure!(!e.is_finite() || close(v.f(), e, tol), "LinearDelay<{}>: look-ahead with delay {} (max {}): got {:?}, next output will be {:e}", T::NAME, m.d, m.max, v, e);
                    } else {
                        let e = m.h[m.d as usize - 1];
                        ensure!(exact(v, e), "Delay<{}>: look-ahead with delay {} (max {}): got {:?}, next output will be {:?}", T::NAME, m.d, m.max, v, e);
                    }
                }
            }
            Op::Queries => {
                rasp(|| {
                    sut.last_out();
                    sut.tap_out(m.max / 2);
                });
                sut.get_d();
                sut.get_m();
            }
        }
        check_state(&sut, &m, &format!("after op {}", show(op)))?;
        s.wraps = m.count / (m.max as u64 + 1);
    }
    Ok(())
}

fn run_line<T: Sample, D: Line<T>>(c: &mut Case, pf: &Prof) -> Res {
    let (d0, max0, ops) = gen::<T>(&mut c.rng, pf, D::LINEAR, c.depth);
    c.desc = format!("{}<{}>::new({}, {}) then {} ops: {}{}", D::NAME, T::NAME, d0, max0, ops.len(),
        ops.iter().take(6).map(show).collect::<Vec<_>>().join("; "), if ops.len() > 6 { "; ..." } else { "" });
    c.mix(d0.to_bits());
    c.mix(max0 as u64);
    for o in &ops {
        match o {
            Op::Process(x) => c.mix(x.bits()),
            Op::Block(v) => c.mix(v.len() as u64 ^ v.first().map(|x| x.bits()).unwrap_or(7)),
            Op::SetDelay(d) => c.mix(d.to_bits() ^ 1),
            Op::SetMax(m) => c.mix(*m as u64 ^ (2 << 40)),
            Op::Clear => c.mix(3),
            Op::TapOut(k) | Op::TapIn(_, k) | Op::AddTo(_, k) => c.mix(*k as u64 ^ (4 << 40)),
            _ => c.mix(5),
        }
    }
    let mut s = Seen::default();
    let r = exec::<T, D>(d0, max0, &ops, &mut s, &mut |_| {});
    c.seen("outputs judged", s.outputs);
    c.seen("nonzero outputs", s.nonzero);
    c.seen("ring wraps", s.wraps);
    c.seen("tap reads judged", s.taps);
    c.seen("tap writes", s.writes);
    c.seen("look-aheads judged", s.looks);
    c.seen("growths", s.grows);
    c.seen("growths of a wrapped ring", s.grows_wrapped);
    c.seen("delay changes mid-stream", s.setd_live);
    c.seen("clamped requests", s.clamps);
    c.seen("clears", s.clears);
    c.seen("outputs at fractional delay", s.fractional);
    c.seen("outputs at full-length delay", s.full);
    c.seen("outputs at zero delay", s.zero_d);
    c.nontrivial = s.nonzero > 0 || s.taps > 0;
    if let Err(f) = r {
        if c.tracing {
            return Err(shrink::<T, D>(c, d0, max0, ops, f));
        }
        return Err(f);
    }
    Ok(())
}

/// Delta-debugs a failing history down to a short witness.
fn shrink<T: Sample, D: Line<T>>(c: &mut Case, d0: f64, max0: usize, ops: Vec<Op<T>>, first: Fail) -> Fail {
    let try_ = |ops: &[Op<T>]| -> Option<String> {
        match crate::mon::catch_rasp(|| exec::<T, D>(d0, max0, ops, &mut Seen::default(), &mut |_| {})) {
            Ok(Ok(())) => None,
            Ok(Err(Fail(w))) => Some(w),
            Err(p) => Some(p),
        }
    };
    let mut cur = ops;
    let mut what = first.0;
    let mut step = (cur.len() / 2).max(1);
    let mut budget = 3000;
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < cur.len() && budget > 0 {
            budget -= 1;
            let mut cand = cur.clone();
            let hi = (i + step).min(cand.len());
            cand.drain(i..hi);
            if let Some(w) = try_(&cand) {
                cur = cand;
                what = w;
                progress = true;
            } else {
                i += step;
            }
        }
        if step == 1 && !progress || budget == 0 {
            break;
        }
        if !progress {
            step = (step / 2).max(1);
        }
    }
    c.log.push(format!("shrunk history: {}<{}>::new({:?}, {})", D::NAME, T::NAME, d0, max0));
    for o in &cur {
        c.log.push(show(o));
    }
    Fail(what)
}

fn either<F32, F64>(c: &mut Case, a: F32, b: F64) -> Res
where
    F32: Fn(&mut Case) -> Res,
    F64: Fn(&mut Case) -> Res,
{
    if c.rng.chance(0.5) {
        a(c)
    } else {
        b(c)
    }
}

const STREAM: Prof = Prof { grow: 0.0, taps: 0.0, setd: 0.2, clear: 0.04, look: 0.0, query: 0.03, hostile: true, big: 0.0 };
const STREAM_BIG: Prof = Prof { big: 1.0, ..STREAM };
const GROW: Prof = Prof { grow: 0.15, taps: 0.12, setd: 0.12, clear: 0.02, look: 0.02, query: 0.02, hostile: false, big: 0.02 };
const TAPS: Prof = Prof { grow: 0.02, taps: 0.45, setd: 0.06, clear: 0.02, look: 0.02, query: 0.02, hostile: false, big: 0.02 };
const LOOK: Prof = Prof { grow: 0.03, taps: 0.1, setd: 0.15, clear: 0.05, look: 0.35, query: 0.1, hostile: false, big: 0.01 };
const SETTINGS: Prof = Prof { grow: 0.2, taps: 0.03, setd: 0.45, clear: 0.03, look: 0.01, query: 0.02, hostile: false, big: 0.01 };

pub fn c01_stream(c: &mut Case) -> Res {
    either(c, |c| run_line::<f32, Delay<f32>>(c, &STREAM), |c| run_line::<f64, Delay<f64>>(c, &STREAM))
}
pub fn c01_big(c: &mut Case) -> Res {
    either(c, |c| run_line::<f32, Delay<f32>>(c, &STREAM_BIG), |c| run_line::<f64, Delay<f64>>(c, &STREAM_BIG))
}
pub fn c02_stream(c: &mut Case) -> Res {
    let p = Prof { hostile: false, ..STREAM };
    either(c, |c| run_line::<f32, LinearDelay<f32>>(c, &p), |c| run_line::<f64, LinearDelay<f64>>(c, &p))
}
pub fn c02_big(c: &mut Case) -> Res {
    let p = Prof { hostile: false, ..STREAM_BIG };
    either(c, |c| run_line::<f32, LinearDelay<f32>>(c, &p), |c| run_line::<f64, LinearDelay<f64>>(c, &p))
}

fn both(c: &mut Case, p: &Prof) -> Res {
    match c.rng.below(4) {
        0 => run_line::<f32, Delay<f32>>(c, p),
        1 => run_line::<f64, Delay<f64>>(c, p),
        2 => run_line::<f32, LinearDelay<f32>>(c, p),
        _ => run_line::<f64, LinearDelay<f64>>(c, p),
    }
}
pub fn c03_grow(c: &mut Case) -> Res {
    both(c, &GROW)
}
pub fn c04_taps(c: &mut Case) -> Res {
    both(c, &TAPS)
}
pub fn c05_look(c: &mut Case) -> Res {
    both(c, &LOOK)
}
pub fn c28_settings(c: &mut Case) -> Res {
    both(c, &SETTINGS)
}

/// Small lines exhaustively: every maximum 0..=6, every delay, every write
/// position at which it is set, then a stream of identifiable samples.
pub fn small_exhaustive_int(c: &mut Case) -> Res {
    small_exhaustive(c, 0)
}
pub fn small_exhaustive_lin(c: &mut Case) -> Res {
    small_exhaustive(c, 2)
}
fn small_exhaustive(c: &mut Case, ty0: usize) -> Res {
    // index enumerates (type, max, phase)
    let i = c.index;
    let ty = ty0 + i % 2;
    let max = (i / 2) % 7;
    let phase = (i / 14) % 9;
    fn go<T: Sample, D: Line<T>>(c: &mut Case, max: usize, phase: usize) -> Res {
        let steps = if D::LINEAR { 8 } else { 1 };
        for ds in 0..=(max * steps) {
            let d = ds as f64 / steps as f64;
            let mut ops: Vec<Op<T>> = (0..phase).map(|k| Op::Process(T::of(k as f64 + 1.0))).collect();
            ops.push(Op::SetDelay(d));
            ops.extend((0..2 * max + 3).map(|k| Op::Process(T::of(100.0 + k as f64))));
            ops.push(Op::TapSweep);
            let mut s = Seen::default();
            exec::<T, D>(0.0, max, &ops, &mut s, &mut |_| {})?;
            c.seen("outputs judged", s.outputs);
            c.seen("nonzero outputs", s.nonzero);
            c.seen("tap reads judged", s.taps);
            c.seen("ring wraps", s.wraps);
            c.seen("delay changes mid-stream", s.setd_live);
        }
        c.nontrivial = true;
        Ok(())
    }
    c.mix(i as u64);
    c.desc = format!("exhaustive small line: type {}, max {}, set at write position {}", ty, max, phase);
    match ty {
        0 => go::<f32, Delay<f32>>(c, max, phase),
        1 => go::<f64, Delay<f64>>(c, max, phase),
        2 => go::<f32, LinearDelay<f32>>(c, max, phase),
        _ => go::<f64, LinearDelay<f64>>(c, max, phase),
    }
}

/// Small lines, growth exhaustively: old maximum, delay, phase, new maximum.
pub fn grow_exhaustive(c: &mut Case) -> Res {
    let i = c.index;
    let ty = i % 4;
    let max = (i / 4) % 6;
    let phase = (i / 24) % 13;
    fn go<T: Sample, D: Line<T>>(c: &mut Case, max: usize, phase: usize) -> Res {
        let steps = if D::LINEAR { 4 } else { 1 };
        for ds in 0..=(max * steps) {
            for new in [max, max + 1, max + 2, max + 5, 2 * max + 1] {
                let d = ds as f64 / steps as f64;
                let mut ops: Vec<Op<T>> = (0..phase).map(|k| Op::Process(T::of(k as f64 + 1.0))).collect();
                ops.push(Op::SetMax(new));
                ops.push(Op::TapSweep);
                ops.extend((0..new + 3).map(|k| Op::Process(T::of(100.0 + k as f64))));
                ops.push(Op::SetDelay(new as f64));
                ops.push(Op::SetMax(new + 3));
                ops.push(Op::TapSweep);
                ops.extend((0..2 * new + 3).map(|k| Op::Process(T::of(200.0 + k as f64))));
                let mut s = Seen::default();
                exec::<T, D>(d, max, &ops, &mut s, &mut |_| {})?;
                c.seen("outputs judged", s.outputs);
                c.seen("nonzero outputs", s.nonzero);
                c.seen("tap reads judged", s.taps);
                c.seen("growths", s.grows);
                c.seen("growths of a wrapped ring", s.grows_wrapped);
            }
        }
        c.nontrivial = true;
        Ok(())
    }
    c.mix(i as u64);
    c.desc = format!("exhaustive growth: type {}, max {}, grown at write position {}", ty, max, phase);
    match ty {
        0 => go::<f32, Delay<f32>>(c, max, phase),
        1 => go::<f64, Delay<f64>>(c, max, phase),
        2 => go::<f32, LinearDelay<f32>>(c, max, phase),
        _ => go::<f64, LinearDelay<f64>>(c, max, phase),
    }
}

/// Taps exhaustively on small lines: every offset written at every position.
pub fn tap_exhaustive(c: &mut Case) -> Res {
    let i = c.index;
    let ty = i % 4;
    let max = (i / 4) % 7;
    let phase = (i / 28) % 16;
    fn go<T: Sample, D: Line<T>>(c: &mut Case, max: usize, phase: usize) -> Res {
        for k in 0..=max {
            for kind in 0..2 {
                let mut ops: Vec<Op<T>> = (0..phase).map(|k| Op::Process(T::of(k as f64 + 1.0))).collect();
                ops.push(if kind == 0 { Op::TapIn(T::of(-50.0), k) } else { Op::AddTo(T::of(-50.5), k) });
                ops.push(Op::TapSweep);
                for j in 0..max + 2 {
                    ops.push(Op::Process(T::of(100.0 + j as f64)));
                    ops.push(Op::TapSweep);
                }
                let mut s = Seen::default();
                exec::<T, D>(max as f64, max, &ops, &mut s, &mut |_| {})?;
                c.seen("outputs judged", s.outputs);
                c.seen("nonzero outputs", s.nonzero);
                c.seen("tap reads judged", s.taps);
                c.seen("tap writes", s.writes);
            }
        }
        c.nontrivial = true;
        Ok(())
    }
    c.mix(i as u64);
    c.desc = format!("exhaustive taps: type {}, max {}, at write position {}", ty, max, phase);
    match ty {
        0 => go::<f32, Delay<f32>>(c, max, phase),
        1 => go::<f64, Delay<f64>>(c, max, phase),
        2 => go::<f32, LinearDelay<f32>>(c, max, phase),
        _ => go::<f64, LinearDelay<f64>>(c, max, phase),
    }
}

/// Twin runs: one instance is queried all the time, the other never.
pub fn c05_twin_lines(c: &mut Case) -> Res {
    fn go<T: Sample, D: Line<T>>(c: &mut Case) -> Res {
        let pf = Prof { look: 0.0, query: 0.0, ..TAPS };
        let (d0, max0, ops) = gen::<T>(&mut c.rng, &pf, D::LINEAR, c.depth);
        c.desc = format!("twin {}<{}>::new({}, {}), {} ops", D::NAME, T::NAME, d0, max0, ops.len());
        let mut a = D::make(d0, max0);
        let mut b = D::make(d0, max0);
        let mut queries = 0;
        let mut outs = 0;
        let mut m = max0;
        for (i, op) in ops.iter().enumerate() {
            // a is queried before every op
            // (now and then for so long that a count of the queries would show)
            let burst = !cfg!(miri) && c.rng.chance(0.0004);
            let (same_kind, times) = if burst { (c.rng.below(5), c.rng.pick(&[300, 1100, 5000, 33_000, 66_000])) } else { (5, c.rng.range(0, 3)) };
            for _ in 0..times {
                queries += 1;
                match if burst { same_kind } else { c.rng.below(5) } {
                    0 | 1 => {
                        a.next();
                    }
                    2 => {
                        rasp(|| a.last_out());
                    }
                    3 => {
                        let k = c.rng.range(0, m);
                        rasp(|| a.tap_out(k));
                    }
                    _ => {
                        a.get_d();
                        a.get_m();
                    }
                }
            }
            c.note(|| format!("{:4} {}", i, show(op)));
            let (ya, yb): (Vec<T>, Vec<T>) = match op {
                Op::Process(x) => (vec![rasp(|| a.process(*x))], vec![rasp(|| b.process(*x))]),
                Op::Block(v) => {
                    let (mut p, mut q) = (v.clone(), v.clone());
                    rasp(|| a.process_block(&mut p));
                    rasp(|| b.process_block(&mut q));
                    (p, q)
                }
                Op::SetDelay(d) => {
                    a.set_d(*d);
                    b.set_d(*d);
                    (vec![], vec![])
                }
                Op::SetMax(n) => {
                    a.set_m(*n);
                    b.set_m(*n);
                    m = m.max(*n);
                    (vec![], vec![])
                }
                Op::Clear => {
                    rasp(|| a.clear());
                    rasp(|| b.clear());
                    (vec![], vec![])
                }
                Op::TapIn(v, k) if *k <= m => {
                    rasp(|| a.tap_in(*v, *k));
                    rasp(|| b.tap_in(*v, *k));
                    (vec![], vec![])
                }
                Op::AddTo(v, k) if *k <= m => (vec![rasp(|| a.add_to(*v, *k))], vec![rasp(|| b.add_to(*v, *k))]),
                Op::TapOut(k) if *k <= m => (vec![rasp(|| a.tap_out(*k))], vec![rasp(|| b.tap_out(*k))]),
                _ => (vec![], vec![]),
            };
            for (p, q) in ya.iter().zip(yb.iter()) {
                outs += 1;
                if !same(*p, *q) {
                    fail!("{}<{}>: op {} ({}): {:?} when queried in between, {:?} when not", D::NAME, T::NAME, i, show(op), p, q);
                }
                c.mix(p.bits());
                if *p != T::zero() {
                    c.nontrivial = true;
                }
            }
        }
        c.seen("twin outputs compared", outs);
        c.seen("queries interposed", queries);
        Ok(())
    }
    match c.rng.below(4) {
        0 => go::<f32, Delay<f32>>(c),
        1 => go::<f64, Delay<f64>>(c),
        2 => go::<f32, LinearDelay<f32>>(c),
        _ => go::<f64, LinearDelay<f64>>(c),
    }
}

/// Very long streams (counter and index arithmetic): the sample is a hash of
/// its position, so the expected output needs no stored history.
fn long_stream<T: Sample, D: Line<T>>(c: &mut Case, n: u64, max: usize) -> Res {
    fn at<T: Sample>(n: u64) -> T {
        let h = (n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as f64;
        T::of(h / 16777216.0 - 0.5)
    }
    let mut d = c.rng.range(0, max);
    let mut line = D::make(d as f64, max);
    c.desc = format!("{}<{}>::new({}, {}) fed {} samples, delay moved along the way", D::NAME, T::NAME, d, max, n);
    c.mix(n ^ (max as u64) << 40);
    let every = 1 + n / 64;
    for i in 0..n {
        if i % every == every - 1 {
            d = c.rng.range(0, max);
            line.set_d(d as f64);
        }
        let y = rasp(|| line.process(at::<T>(i)));
        let e = if i >= d as u64 { at::<T>(i - d as u64) } else { T::zero() };
        if !(exact(y, e) || D::LINEAR && close(y.f(), e.f(), 4.0 * T::EPS)) {
            fail!("{}<{}>: sample #{} with delay {} (max {}): got {:?}, expected {:?}", D::NAME, T::NAME, i, d, max, y, e);
        }
        if i % every == every / 2 {
            for k in [0, max / 2, max] {
                let v = rasp(|| line.tap_out(k));
                let e = if i >= k as u64 { at::<T>(i - k as u64) } else { T::zero() };
                ensure!(exact(v, e), "{}<{}>: tap {} after {} samples: got {:?}, expected {:?}", D::NAME, T::NAME, k, i + 1, v, e);
                c.seen("tap reads judged", 1);
            }
        }
    }
    c.seen("outputs judged", n);
    c.seen("longest stream (sum)", n);
    c.nontrivial = true;
    Ok(())
}

fn long_len(c: &mut Case) -> (u64, usize) {
    let n = match c.index {
        0 => (1u64 << 16) + 70_000,
        1 => (1u64 << 24) + 100_000,
        _ => 1u64 << c.rng.range(17, 22),
    };
    (n, pick_max(&mut c.rng))
}
/// Streams past 2^32 samples (a day of audio), so that any 32-bit count of
/// samples wraps: four sizes, the delay set once before and once after.
fn ages<T: Sample, D: Line<T>>(c: &mut Case) -> Res {
    if c.index >= 4 || cfg!(debug_assertions) || cfg!(miri) {
        c.desc = "(only in the optimised build)".into();
        return Ok(());
    }
    let max = [2, 1000, 44_100, 65_536][c.index] + c.rng.range(0, 2) * 2;
    let table: Vec<T> = (0..1usize << 17).map(|_| T::of(c.rng.uni(-1.0, 1.0))).collect();
    let mask = (table.len() - 1) as u64;
    let mut d = (max - c.rng.range(0, 1)) as u64;
    let mut line = D::make(d as f64, max);
    let n = (1u64 << 32) + 300_000;
    c.desc = format!("{}<{}>::new({}, {}) fed {} samples", D::NAME, T::NAME, d, max, n);
    c.mix(n ^ (max as u64) << 40);
    let mut i = 0u64;
    while i < n {
        if i >= (1 << 32) + 150_000 && i % 50_000 == 0 {
            d = c.rng.range(0, max) as u64;
            line.set_d(d as f64);
        }
        let stop = (i / 50_000 + 1) * 50_000;
        let bad = rasp(|| {
            let mut bad = None;
            while i < stop {
                let y = line.process(table[(i & mask) as usize]);
                let e = if i >= d { table[((i - d) & mask) as usize] } else { T::zero() };
                if y != e && bad.is_none() {
                    bad = Some((i, y, e));
                }
                i += 1;
            }
            bad
        });
        if let Some((i, y, e)) = bad {
            fail!("{}<{}>: sample #{} with delay {} (max {}): got {:?}, expected {:?}", D::NAME, T::NAME, i, d, max, y, e);
        }
    }
    c.seen("outputs judged", n);
    c.seen("streams past 2^32 samples", 1);
    c.nontrivial = true;
    Ok(())
}
pub fn c01_ages(c: &mut Case) -> Res {
    if c.index % 2 == 0 { ages::<f32, Delay<f32>>(c) } else { ages::<f64, Delay<f64>>(c) }
}
pub fn c02_ages(c: &mut Case) -> Res {
    if c.index % 2 == 0 { ages::<f32, LinearDelay<f32>>(c) } else { ages::<f64, LinearDelay<f64>>(c) }
}

pub fn c01_long(c: &mut Case) -> Res {
    let (n, max) = long_len(c);
    either(c, |c| long_stream::<f32, Delay<f32>>(c, n, max), |c| long_stream::<f64, Delay<f64>>(c, n, max))
}
pub fn c02_long(c: &mut Case) -> Res {
    let (n, max) = long_len(c);
    either(c, |c| long_stream::<f32, LinearDelay<f32>>(c, n, max), |c| long_stream::<f64, LinearDelay<f64>>(c, n, max))
}

/// Lines of 2^16 to 2^25 samples, beyond where f32 counts every sample: the
/// line is filled and then read at the far end, in the middle and at once.
fn vast<T: Sample, D: Line<T>>(c: &mut Case) -> Res {
    fn at<T: Sample>(n: u64) -> T {
        let h = (n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as f64;
        T::of(h / 16777216.0 - 0.5)
    }
    let max = match c.index {
        0 => (1usize << 25) + c.rng.range(1, 12),
        1 | 2 => (1usize << 24) + c.rng.range(1, 12),
        _ => (1usize << c.rng.range(16, 18)) + c.rng.range(0, 12),
    };
    let want = |d: usize| -> u64 {
        // as the setter's own type can say it, then clamped
        let d = if D::LINEAR { d as f32 as f64 as u64 } else { d as u64 };
        d.min(max as u64)
    };
    let first = max - c.rng.range(0, 3);
    let mut line = D::make(first as f64, max);
    let mut d = want(first);
    c.desc = format!("{}<{}>::new({}, {}), filled once and read at many delays", D::NAME, T::NAME, first, max);
    c.mix(max as u64);
    let n = max as u64 + 3000;
    for i in 0..n {
        if i + 2900 > n && i % 16 == 0 {
            let ask = match c.rng.below(6) {
                0 => max,
                1 => max - c.rng.range(0, 5),
                // (a maximum f32 can only round down clamps lower; not judged)
                2 if !D::LINEAR || max as f32 as usize >= max => max + c.rng.range(1, 9),
                3 => c.rng.range(0, 5),
                _ => c.rng.range(0, max),
            };
            line.set_d(ask as f64);
            d = want(ask);
            c.seen("delay changes mid-stream", 1);
        }
        let y = rasp(|| line.process(at::<T>(i)));
        let e = if i >= d { at::<T>(i - d) } else { T::zero() };
        ensure!(same(y, e), "{}<{}>: sample #{} with delay {} (max {}): got {:?}, expected {:?}", D::NAME, T::NAME, i, d, max, y, e);
    }
    for k in [0, 1, max / 3, max - 1, max] {
        let v = rasp(|| line.tap_out(k));
        let e = if n - 1 >= k as u64 { at::<T>(n - 1 - k as u64) } else { T::zero() };
        ensure!(same(v, e), "{}<{}>: tap {} after {} samples: got {:?}, expected {:?}", D::NAME, T::NAME, k, n, v, e);
    }
    c.seen("outputs judged", n);
    c.seen("nonzero outputs", 2900);
    c.seen("lines longer than 2^24", (max > 1 << 24) as u64);
    c.nontrivial = true;
    Ok(())
}
pub fn c01_vast(c: &mut Case) -> Res {
    vast::<f32, Delay<f32>>(c)
}
pub fn c02_vast(c: &mut Case) -> Res {
    vast::<f32, LinearDelay<f32>>(c)
}
