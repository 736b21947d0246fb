//! The two sample types and the comparisons the oracles use.

use num::traits::{Float, FromPrimitive};
use rasp::traits::FloatConst;
use std::fmt::{Debug, Display, LowerExp, UpperExp};
use std::iter::{Product, Sum};
use std::ops::{AddAssign, DivAssign, MulAssign, RemAssign, SubAssign};
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::str::FromStr;

/// What both sample types can do and the crate might come to ask of them: a
/// bound added to one of its types must not keep the monitor from building.
pub trait Able:
    AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + Default + Sum + Product + FromPrimitive + Into<f64> + Debug + Display + LowerExp + UpperExp + FromStr + UnwindSafe + RefUnwindSafe + Unpin + Send + Sync + 'static
{
}
impl Able for f32 {}
impl Able for f64 {}

pub trait Sample: Float + FloatConst + Able {
    const NAME: &'static str;
    /// Unit round-off of the type (spacing at 1).
    const EPS: f64;
    /// Smallest positive subnormal.
    const TINY: f64;
    /// Largest finite value.
    const MAX: f64;
    /// Exponent range (base 2) signals may span without leaving normal range by much.
    const LO: i64;
    /// Exponent that reaches into the subnormal range.
    const SUB: i64;
    const HI: i64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}

impl Sample for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1.5e-45;
    const MAX: f64 = f32::MAX as f64;
    const LO: i64 = -100;
    const SUB: i64 = -147;
    const HI: i64 = 60;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}

impl Sample for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 5e-324;
    const MAX: f64 = f64::MAX;
    const LO: i64 = -900;
    const SUB: i64 = -1071;
    const HI: i64 = 400;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}

/// Equal as numbers, or both NaN.
#[inline]
pub fn same<T: Sample>(a: T, b: T) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Identical bit patterns (so also the sign of zero), or both NaN.
#[inline]
pub fn exact<T: Sample>(a: T, b: T) -> bool {
    a.bits() == b.bits() || (a.is_nan() && b.is_nan())
}

/// |a - b| <= tol, with NaN never close and equal infinities close.
#[inline]
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}
