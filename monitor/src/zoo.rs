//! Every processor type of the crate behind one interface, driven only
//! through its public API.

use crate::mon::rasp;
use crate::rng::Rng;
use crate::sample::Sample;
use rasp::analysis::{LeakyIntegrator, PeakEnvDetector, RmsEnvDetector};
use rasp::delay::{Delay, LinearDelay};
use rasp::filter::rbj::{
    AllPass, BandPass1, BandPass2, BandStop, HighPass, HighShelf, LowPass, LowShelf, Peak,
};
use rasp::filter::{Biquad1, Biquad2, OnePole, OneZero, TwoPole, TwoZero};
use rasp::traits::{Processor, TappableDelayLine};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Leaky,
    PeakEnv,
    RmsEnv,
    Delay,
    LinearDelay,
    OnePole,
    OneZero,
    TwoPole,
    TwoZero,
    Biquad1,
    Biquad2,
    LowPass,
    HighPass,
    BandPass1,
    BandPass2,
    BandStop,
    AllPass,
    Peak,
    LowShelf,
    HighShelf,
}
use Kind as K;

pub const KINDS: [Kind; 20] = [
    K::Leaky, K::PeakEnv, K::RmsEnv, K::Delay, K::LinearDelay, K::OnePole, K::OneZero, K::TwoPole,
    K::TwoZero, K::Biquad1, K::Biquad2, K::LowPass, K::HighPass, K::BandPass1, K::BandPass2,
    K::BandStop, K::AllPass, K::Peak, K::LowShelf, K::HighShelf,
];
pub const RBJ: [Kind; 9] = [
    K::LowPass, K::HighPass, K::BandPass1, K::BandPass2, K::BandStop, K::AllPass, K::Peak,
    K::LowShelf, K::HighShelf,
];
pub const LINEAR: [Kind; 18] = [
    K::Leaky, K::Delay, K::LinearDelay, K::OnePole, K::OneZero, K::TwoPole, K::TwoZero, K::Biquad1,
    K::Biquad2, K::LowPass, K::HighPass, K::BandPass1, K::BandPass2, K::BandStop, K::AllPass,
    K::Peak, K::LowShelf, K::HighShelf,
];

impl Kind {
    pub fn is_rbj(self) -> bool {
        RBJ.contains(&self)
    }
    pub fn is_delay(self) -> bool {
        matches!(self, K::Delay | K::LinearDelay)
    }
    pub fn is_shelf(self) -> bool {
        matches!(self, K::LowShelf | K::HighShelf)
    }
    pub fn has_gain(self) -> bool {
        matches!(self, K::LowShelf | K::HighShelf | K::Peak)
    }
}

/// Settings of a processor.
/// Leaky: p[0]=alpha. Detectors: p[0]=attack, p[1]=release length.
/// Delays: p[0]=delay, max=maximum. Basic filters: p=[b0,b1,b2,a1,a2].
/// RBJ: p=[sample_rate, frequency, q or slope, db_gain].
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub kind: Kind,
    pub p: [f64; 5],
    pub max: usize,
}

pub enum AnyProc<T: Sample> {
    Leaky(LeakyIntegrator<T>),
    PeakEnv(PeakEnvDetector<T>),
    RmsEnv(RmsEnvDetector<T>),
    Delay(Delay<T>),
    LinearDelay(LinearDelay<T>),
    OnePole(OnePole<T>),
    OneZero(OneZero<T>),
    TwoPole(TwoPole<T>),
    TwoZero(TwoZero<T>),
    Biquad1(Biquad1<T>),
    Biquad2(Biquad2<T>),
    LowPass(LowPass<T>),
    HighPass(HighPass<T>),
    BandPass1(BandPass1<T>),
    BandPass2(BandPass2<T>),
    BandStop(BandStop<T>),
    AllPass(AllPass<T>),
    Peak(Peak<T>),
    LowShelf(LowShelf<T>),
    HighShelf(HighShelf<T>),
}
use AnyProc as A;

macro_rules! each {
    ($s:expr, $p:ident => $e:expr) => {
        match $s {
            A::Leaky($p) => $e,
            A::PeakEnv($p) => $e,
            A::RmsEnv($p) => $e,
            A::Delay($p) => $e,
            A::LinearDelay($p) => $e,
            A::OnePole($p) => $e,
            A::OneZero($p) => $e,
            A::TwoPole($p) => $e,
            A::TwoZero($p) => $e,
            A::Biquad1($p) => $e,
            A::Biquad2($p) => $e,
            A::LowPass($p) => $e,
            A::HighPass($p) => $e,
            A::BandPass1($p) => $e,
            A::BandPass2($p) => $e,
            A::BandStop($p) => $e,
            A::AllPass($p) => $e,
            A::Peak($p) => $e,
            A::LowShelf($p) => $e,
            A::HighShelf($p) => $e,
        }
    };
}

/// A block given to a processor known only as a trait object.
#[cfg(feature = "objects")]
pub fn object_block<T: Sample, P: Processor<T>>(p: &mut P, b: &mut [T]) -> T {
    let o: &mut dyn Processor<T> = p;
    rasp(|| o.process_block(b))
}
#[cfg(not(feature = "objects"))]
pub fn object_block<T: Sample, P: Processor<T>>(p: &mut P, b: &mut [T]) -> T {
    rasp(|| p.process_block(b))
}

impl<T: Sample> AnyProc<T> {
    /// A newly created processor of a kind, not configured (delays: delay 0).
    pub fn new(kind: Kind, max: usize) -> Self {
        rasp(|| match kind {
            K::Leaky => A::Leaky(LeakyIntegrator::new()),
            K::PeakEnv => A::PeakEnv(PeakEnvDetector::new()),
            K::RmsEnv => A::RmsEnv(RmsEnvDetector::new()),
            K::Delay => A::Delay(Delay::new(0, max)),
            K::LinearDelay => A::LinearDelay(LinearDelay::new(0.0, max)),
            K::OnePole => A::OnePole(OnePole::new()),
            K::OneZero => A::OneZero(OneZero::new()),
            K::TwoPole => A::TwoPole(TwoPole::new()),
            K::TwoZero => A::TwoZero(TwoZero::new()),
            K::Biquad1 => A::Biquad1(Biquad1::new()),
            K::Biquad2 => A::Biquad2(Biquad2::new()),
            K::LowPass => A::LowPass(LowPass::new()),
            K::HighPass => A::HighPass(HighPass::new()),
            K::BandPass1 => A::BandPass1(BandPass1::new()),
            K::BandPass2 => A::BandPass2(BandPass2::new()),
            K::BandStop => A::BandStop(BandStop::new()),
            K::AllPass => A::AllPass(AllPass::new()),
            K::Peak => A::Peak(Peak::new()),
            K::LowShelf => A::LowShelf(LowShelf::new()),
            K::HighShelf => A::HighShelf(HighShelf::new()),
        })
    }

    /// A newly created processor with the given settings.
    pub fn build(c: &Cfg) -> Self {
        match c.kind {
            K::Delay => rasp(|| A::Delay(Delay::new(c.p[0] as usize, c.max))),
            K::LinearDelay => rasp(|| A::LinearDelay(LinearDelay::new(c.p[0] as f32, c.max))),
            _ => {
                let mut p = Self::new(c.kind, c.max);
                p.configure(c, 0);
                p
            }
        }
    }

    /// Applies settings through the setters; style 1 writes public fields
    /// one by one where the type has them.
    pub fn configure(&mut self, c: &Cfg, style: usize) {
        let t = |x: f64| T::of(x);
        let p = &c.p;
        let (b0, b1, b2, a1, a2) = (t(p[0]), t(p[1]), t(p[2]), t(p[3]), t(p[4]));
        rasp(|| match self {
            A::Leaky(x) => x.set_alpha(t(p[0])),
            A::PeakEnv(x) => {
                if style == 1 {
                    x.set_release(t(p[1]));
                    x.set_attack(t(p[0]));
                } else {
                    x.set_attack(t(p[0]));
                    x.set_release(t(p[1]));
                }
            }
            A::RmsEnv(x) => {
                if style == 1 {
                    x.set_release(t(p[1]));
                    x.set_attack(t(p[0]));
                } else {
                    x.set_attack(t(p[0]));
                    x.set_release(t(p[1]));
                }
            }
            A::Delay(x) => {
                if c.max > x.get_max_delay() {
                    x.set_max_delay(c.max);
                }
                x.set_delay(p[0] as usize)
            }
            A::LinearDelay(x) => {
                if c.max > x.get_max_delay() {
                    x.set_max_delay(c.max);
                }
                x.set_delay(p[0] as f32)
            }
            A::OnePole(x) => {
                if style == 1 {
                    x.b0 = b0;
                    x.a1 = a1;
                } else {
                    x.set_coefficients(b0, a1)
                }
            }
            A::OneZero(x) => {
                if style == 1 {
                    x.b0 = b0;
                    x.b1 = b1;
                } else {
                    x.set_coefficients(b0, b1)
                }
            }
            A::TwoPole(x) => {
                if style == 1 {
                    x.b0 = b0;
                    x.a1 = a1;
                    x.a2 = a2;
                } else {
                    x.set_coefficients(b0, a1, a2)
                }
            }
            A::TwoZero(x) => {
                if style == 1 {
                    x.b0 = b0;
                    x.b1 = b1;
                    x.b2 = b2;
                } else {
                    x.set_coefficients(b0, b1, b2)
                }
            }
            A::Biquad1(x) => {
                if style == 1 {
                    x.b0 = b0;
                    x.b1 = b1;
                    x.b2 = b2;
                    x.a1 = a1;
                    x.a2 = a2;
                } else {
                    x.set_coefficients(b0, b1, b2, a1, a2)
                }
            }
            A::Biquad2(x) => {
                if style == 1 {
                    x.b0 = b0;
                    x.b1 = b1;
                    x.b2 = b2;
                    x.a1 = a1;
                    x.a2 = a2;
                } else {
                    x.set_coefficients(b0, b1, b2, a1, a2)
                }
            }
            A::LowPass(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[2])),
            A::HighPass(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[2])),
            A::BandPass1(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[2])),
            A::BandPass2(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[2])),
            A::BandStop(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[2])),
            A::AllPass(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[2])),
            A::Peak(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[3]), t(p[2])),
            A::LowShelf(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[3]), t(p[2])),
            A::HighShelf(x) => x.set_coefficients(t(p[0]), t(p[1]), t(p[3]), t(p[2])),
        })
    }

    #[inline]
    pub fn process(&mut self, x: T) -> T {
        rasp(|| each!(self, p => p.process(x)))
    }
    pub fn block(&mut self, b: &mut [T]) -> T {
        rasp(|| each!(self, p => p.process_block(b)))
    }
    pub fn clear(&mut self) {
        rasp(|| each!(self, p => p.clear()))
    }
    #[inline]
    pub fn last_out(&self) -> T {
        rasp(|| each!(self, p => p.last_out()))
    }
    /// A block, through the trait object user code holds.
    pub fn object_block(&mut self, b: &mut [T]) -> T {
        each!(self, p => object_block(p, b))
    }
    /// Processes a whole signal, one call per sample.
    pub fn run(&mut self, xs: &[T]) -> Vec<T> {
        xs.iter().map(|x| self.process(*x)).collect()
    }

    /// Public coefficients of the basic filters, in [b0,b1,b2,a1,a2] order
    /// (zero where the filter has no such coefficient).
    pub fn coefs(&self) -> Option<[T; 5]> {
        let z = T::zero();
        match self {
            A::OnePole(x) => Some([x.b0, z, z, x.a1, z]),
            A::OneZero(x) => Some([x.b0, x.b1, z, z, z]),
            A::TwoPole(x) => Some([x.b0, z, z, x.a1, x.a2]),
            A::TwoZero(x) => Some([x.b0, x.b1, x.b2, z, z]),
            A::Biquad1(x) => Some([x.b0, x.b1, x.b2, x.a1, x.a2]),
            A::Biquad2(x) => Some([x.b0, x.b1, x.b2, x.a1, x.a2]),
            _ => None,
        }
    }

    /// All values the parameter getters return.
    pub fn getters(&self) -> Vec<f64> {
        rasp(|| match self {
            A::Leaky(x) => vec![x.get_alpha().f()],
            A::PeakEnv(x) => vec![x.get_attack_gain().f(), x.get_release_gain().f()],
            A::RmsEnv(x) => vec![x.get_attack_gain().f(), x.get_release_gain().f()],
            A::Delay(x) => vec![x.get_delay() as f64, x.get_max_delay() as f64],
            A::LinearDelay(x) => vec![x.get_delay() as f64, x.get_max_delay() as f64],
            _ => match self.coefs() {
                Some(c) => c.iter().map(|v| v.f()).collect(),
                None => vec![],
            },
        })
    }

    pub fn max_delay(&self) -> Option<usize> {
        rasp(|| match self {
            A::Delay(x) => Some(x.get_max_delay()),
            A::LinearDelay(x) => Some(x.get_max_delay()),
            _ => None,
        })
    }
    pub fn next_out(&mut self) -> Option<T> {
        rasp(|| match self {
            A::Delay(x) => Some(x.next_out()),
            A::LinearDelay(x) => Some(x.next_out()),
            _ => None,
        })
    }
    pub fn tap_out(&self, k: usize) -> Option<T> {
        rasp(|| match self {
            A::Delay(x) => Some(x.tap_out(k)),
            A::LinearDelay(x) => Some(x.tap_out(k)),
            _ => None,
        })
    }
    pub fn tap_in(&mut self, v: T, k: usize) {
        rasp(|| match self {
            A::Delay(x) => x.tap_in(v, k),
            A::LinearDelay(x) => x.tap_in(v, k),
            _ => {}
        })
    }
    pub fn add_to(&mut self, v: T, k: usize) -> Option<T> {
        rasp(|| match self {
            A::Delay(x) => Some(x.add_to(v, k)),
            A::LinearDelay(x) => Some(x.add_to(v, k)),
            _ => None,
        })
    }

    /// Some read-only queries, chosen at random.
    pub fn query(&mut self, r: &mut Rng) {
        for _ in 0..r.range(1, 4) {
            match r.below(5) {
                0 | 1 => {
                    self.last_out();
                }
                2 => {
                    self.getters();
                }
                3 => {
                    self.next_out();
                }
                _ => {
                    if let Some(m) = self.max_delay() {
                        let k = r.range(0, m);
                        self.tap_out(k);
                    }
                }
            }
        }
    }
}

/// Valid RBJ tuning. `flo`..`fhi`: frequency over sample rate; q range; max |gain|.
pub fn rbj_cfg(r: &mut Rng, kind: Kind, flo: f64, fhi: f64, qlo: f64, qhi: f64, gmax: f64) -> Cfg {
    let sr = match r.below(4) {
        0 => 44100.0,
        1 => r.pick(&[8000.0, 11025.0, 16000.0, 22050.0, 32000.0, 48000.0, 88200.0, 96000.0, 192000.0]),
        2 => r.pick(&[1.0, 2.0, 1000.0]),
        _ if r.chance(0.2) => r.logu(1e-3, 1e9),
        _ => r.logu(10.0, 400000.0),
    };
    let ratio = match r.below(4) {
        0 => r.logu(flo, fhi),
        1 => r.pick(&[0.25, 0.125, 0.1, 1.0 / 3.0, 0.4, 0.02f64.max(flo)]).min(fhi).max(flo),
        _ => r.uni(flo, fhi),
    };
    let mut f = ratio * sr;
    if r.chance(0.15) {
        // frequencies people set
        let v = r.pick(&[20.0, 50.0, 60.0, 80.0, 100.0, 120.0, 200.0, 250.0, 440.0, 500.0, 1000.0, 2000.0, 3000.0, 4000.0, 5000.0, 8000.0, 10000.0, 12000.0, 15000.0, 20000.0]);
        if v >= flo * sr && v <= fhi * sr {
            f = v;
        }
    }
    let q = if kind.is_shelf() {
        match r.below(3) {
            0 => 1.0,
            1 => r.logu(0.05, 1.0),
            _ => r.uni(0.1, 1.0),
        }
    } else {
        match r.below(4) {
            0 => r.pick(&[0.5f64, 0.7071, 0.71, std::f64::consts::FRAC_1_SQRT_2, 0.25, 0.1, 1.0, 1.4142, 2.0, 4.0, 5.0, 10.0, 20.0, 100.0]).min(qhi).max(qlo),
            _ => r.logu(qlo, qhi),
        }
    };
    let g = if kind.has_gain() {
        match r.below(4) {
            0 => r.pick(&[0.0, -0.0, 1.0, -1.0, 3.0, -3.0, 6.0, -6.0, 10.0, -10.0, 12.0, -12.0, 18.0, 20.0, -20.0, 24.0, -24.0, 40.0, -40.0, 60.0, -60.0f64]).min(gmax).max(-gmax),
            _ => r.uni(-gmax, gmax),
        }
    } else {
        0.0
    };
    Cfg { kind, p: [sr, f, q, g, 0.0], max: 0 }
}

/// Valid settings, well-conditioned (stable poles of radius <= rmax).
pub fn stable_cfg(r: &mut Rng, kind: Kind, rmax: f64) -> Cfg {
    let mut p = [0.0; 5];
    let mut max = 0;
    match kind {
        K::Leaky => p[0] = if r.chance(0.2) { 0.0 } else { r.uni(0.0, rmax) },
        K::PeakEnv | K::RmsEnv => {
            p[0] = r.logu(0.2, 200.0);
            p[1] = r.logu(0.2, 2000.0);
        }
        K::Delay => {
            max = pick_max(r);
            p[0] = r.range(0, max) as f64;
        }
        K::LinearDelay => {
            max = pick_max(r);
            p[0] = (r.uni(0.0, max as f64) as f32) as f64;
            if r.chance(0.3) {
                p[0] = p[0].floor();
            }
        }
        K::OnePole | K::OneZero | K::TwoPole | K::TwoZero | K::Biquad1 | K::Biquad2 => {
            let rad = r.uni(0.0, rmax);
            let th = r.uni(0.0, std::f64::consts::PI);
            p[0] = r.uni(-2.0, 2.0);
            if matches!(kind, K::OneZero | K::TwoZero | K::Biquad1 | K::Biquad2) {
                p[1] = r.uni(-2.0, 2.0);
            }
            if matches!(kind, K::TwoZero | K::Biquad1 | K::Biquad2) {
                p[2] = r.uni(-2.0, 2.0);
            }
            if kind == K::OnePole {
                p[3] = if r.chance(0.5) { rad } else { -rad };
            }
            if matches!(kind, K::TwoPole | K::Biquad1 | K::Biquad2) {
                p[3] = -2.0 * rad * th.cos();
                p[4] = rad * rad;
            }
        }
        _ => return rbj_cfg(r, kind, 0.02, 0.46, 0.2, 8.0, 18.0),
    }
    Cfg { kind, p, max }
}

/// Any valid finite settings (poles may lie anywhere).
pub fn wild_cfg(r: &mut Rng, kind: Kind) -> Cfg {
    match kind {
        K::OnePole | K::OneZero | K::TwoPole | K::TwoZero | K::Biquad1 | K::Biquad2 => {
            let mut c = stable_cfg(r, kind, 0.999);
            if r.chance(0.5) {
                for v in c.p.iter_mut() {
                    if *v != 0.0 {
                        *v = match r.below(6) {
                            0 => 0.0,
                            1 => r.pick(&[1.0, -1.0, 2.0, -2.0, 0.5]),
                            2 => r.uni(-1.0, 1.0) * 2f64.powi(r.irange(-12, 6) as i32),
                            _ => r.uni(-1.8, 1.8),
                        };
                    }
                }
            }
            c
        }
        K::Leaky => {
            let mut c = stable_cfg(r, kind, 0.9999);
            if r.chance(0.3) {
                c.p[0] = 1.0 - r.logu(1e-6, 1.0);
            }
            c
        }
        K::PeakEnv | K::RmsEnv => {
            let mut c = stable_cfg(r, kind, 1.0);
            c.p[0] = r.logu(1e-2, 1e6);
            c.p[1] = r.logu(1e-2, 1e6);
            c
        }
        k if k.is_rbj() => rbj_cfg(r, k, 1e-3, 0.499, 0.05, 50.0, 40.0),
        k => stable_cfg(r, k, 0.9),
    }
}

/// Maximum delay lengths: mostly tiny (fast wrapping), sometimes long.
pub fn pick_max(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => r.range(2, 17),
        7 => r.range(18, 130),
        8 => r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256]),
        _ => r.range(131, 3000),
    }
}
