//! Random call histories over any processor kind, replayable on any instance.

use crate::rng::Rng;
use crate::sample::Sample;
use crate::signal::{amplitude, hostile, signal};
use crate::zoo::{stable_cfg, wild_cfg, AnyProc, Cfg, Kind};

#[derive(Clone, Debug)]
pub enum ZOp<T> {
    Process(T),
    Block(Vec<T>),
    Configure(Cfg, usize),
    Clear,
    TapIn(T, usize),
    AddTo(T, usize),
}

#[derive(Clone, Copy)]
pub struct HProf {
    pub ops: usize,
    pub configure: f64,
    pub clear: f64,
    pub block: f64,
    pub taps: f64,
    pub hostile: f64,
    /// only well-conditioned settings
    pub tame: bool,
    pub amp_lo: i64,
    pub amp_hi: i64,
}

pub const HOSTILE: HProf =
    HProf { ops: 40, configure: 0.08, clear: 0.04, block: 0.12, taps: 0.06, hostile: 0.06, tame: false, amp_lo: -60, amp_hi: 40 };
pub const FINITE: HProf =
    HProf { ops: 40, configure: 0.08, clear: 0.04, block: 0.12, taps: 0.06, hostile: 0.0, tame: true, amp_lo: -60, amp_hi: 40 };

pub fn cfg_for(r: &mut Rng, kind: Kind, tame: bool) -> Cfg {
    if tame {
        stable_cfg(r, kind, 0.98)
    } else {
        wild_cfg(r, kind)
    }
}

/// A new configuration for an instance whose maximum delay is `max`.
/// Returns it with the maximum it leads to.
fn recfg(r: &mut Rng, kind: Kind, tame: bool, max: usize) -> (Cfg, usize) {
    let mut c = cfg_for(r, kind, tame);
    if kind.is_delay() {
        c.max = if r.chance(0.3) { max + r.range(1, 20) } else { max };
        let m = c.max as f64;
        c.p[0] = match r.below(6) {
            0 => 0.0,
            1 => m,
            2 => m + 3.0,
            3 => r.range(0, c.max) as f64,
            _ => (r.uni(0.0, m) as f32) as f64,
        };
        if kind == Kind::Delay {
            c.p[0] = c.p[0].floor();
        }
        let m2 = c.max;
        return (c, m2);
    }
    (c, max)
}

/// Initial settings and operations.
pub fn history<T: Sample>(r: &mut Rng, kind: Kind, pf: &HProf) -> (Cfg, Vec<ZOp<T>>) {
    let cfg0 = cfg_for(r, kind, pf.tame);
    history_from(r, cfg0, pf)
}

/// The same with given initial settings.
pub fn history_from<T: Sample>(r: &mut Rng, cfg0: Cfg, pf: &HProf) -> (Cfg, Vec<ZOp<T>>) {
    let kind = cfg0.kind;
    let mut max = cfg0.max;
    let amp = amplitude::<T>(r, pf.amp_lo, pf.amp_hi);
    let n = r.range(1, pf.ops);
    let mut ops = Vec::new();
    fn val<T: Sample>(r: &mut Rng, p: f64, amp: f64) -> T {
        if p > 0.0 && r.chance(p) { hostile(r) } else { T::of(amp * r.uni(-1.0, 1.0)) }
    }
    let p = pf.hostile;
    for _ in 0..n {
        let mut x = r.f();
        let mut hit = |q: f64| {
            x -= q;
            x < 0.0
        };
        if hit(pf.configure) {
            let (c, m) = recfg(r, kind, pf.tame, max);
            max = m;
            ops.push(ZOp::Configure(c, r.below(2)));
        } else if hit(pf.clear) {
            ops.push(ZOp::Clear);
        } else if hit(pf.block) {
            let len = match r.below(8) {
                0 if r.chance(0.04) => {
                    let hi = if r.chance(0.1) { 70_000 } else { 6_000 };
                    r.range(1000, hi)
                },
                0 => 0,
                1 => 1,
                2 => r.range(2, 200),
                _ => r.range(2, 12),
            };
            let mut v = signal::<T>(r, len, amp);
            if p > 0.0 {
                for s in v.iter_mut() {
                    if r.chance(p) {
                        *s = hostile(r);
                    }
                }
            }
            ops.push(ZOp::Block(v));
        } else if kind.is_delay() && hit(pf.taps) {
            let k = r.range(0, max);
            let v = val(r, p, amp);
            ops.push(if r.chance(0.5) { ZOp::TapIn(v, k) } else { ZOp::AddTo(v, k) });
        } else {
            for _ in 0..r.range(1, 5) {
                ops.push(ZOp::Process(val(r, p, amp)));
            }
        }
    }
    (cfg0, ops)
}

/// Applies one operation, appending every value it yields.
pub fn apply<T: Sample>(p: &mut AnyProc<T>, op: &ZOp<T>, out: &mut Vec<T>) {
    match op {
        ZOp::Process(x) => out.push(p.process(*x)),
        ZOp::Block(v) => {
            let mut b = v.clone();
            let r = p.block(&mut b);
            out.extend(b);
            out.push(r);
        }
        ZOp::Configure(c, s) => p.configure(c, *s),
        ZOp::Clear => p.clear(),
        ZOp::TapIn(v, k) => p.tap_in(*v, *k),
        ZOp::AddTo(v, k) => {
            if let Some(y) = p.add_to(*v, *k) {
                out.push(y)
            }
        }
    }
}

pub fn show<T: Sample>(o: &ZOp<T>) -> String {
    match o {
        ZOp::Block(v) if v.len() > 6 => format!("Block(len {}, starts {:?})", v.len(), &v[..3]),
        o => format!("{:?}", o),
    }
}
