//! An opaque number type.  Every operation is a stub: the verifier interprets
//! calls to them (exact reals in the value proofs, arbitrary results in the
//! panic-freedom proofs) and never looks at these bodies.
use core::cmp::Ordering;
use core::num::FpCategory;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct R(u64);
impl core::ops::Add for R { type Output = R; #[inline(never)] fn add(self, _r: R) -> R { unimplemented!() } }
impl core::ops::Sub for R { type Output = R; #[inline(never)] fn sub(self, _r: R) -> R { unimplemented!() } }
impl core::ops::Mul for R { type Output = R; #[inline(never)] fn mul(self, _r: R) -> R { unimplemented!() } }
impl core::ops::Div for R { type Output = R; #[inline(never)] fn div(self, _r: R) -> R { unimplemented!() } }
impl core::ops::Rem for R { type Output = R; #[inline(never)] fn rem(self, _r: R) -> R { unimplemented!() } }
impl core::ops::Neg for R { type Output = R; #[inline(never)] fn neg(self) -> R { unimplemented!() } }
impl PartialEq for R {
    #[inline(never)] fn eq(&self, _o: &R) -> bool { unimplemented!() }
    #[inline(never)] fn ne(&self, _o: &R) -> bool { unimplemented!() }
}
impl PartialOrd for R {
    #[inline(never)] fn partial_cmp(&self, _o: &R) -> Option<Ordering> { unimplemented!() }
    #[inline(never)] fn lt(&self, _o: &R) -> bool { unimplemented!() }
    #[inline(never)] fn le(&self, _o: &R) -> bool { unimplemented!() }
    #[inline(never)] fn gt(&self, _o: &R) -> bool { unimplemented!() }
    #[inline(never)] fn ge(&self, _o: &R) -> bool { unimplemented!() }
}
impl Zero for R {
    #[inline(never)] fn zero() -> R { unimplemented!() }
    #[inline(never)] fn is_zero(&self) -> bool { unimplemented!() }
}
impl One for R {
    #[inline(never)] fn one() -> R { unimplemented!() }
}
impl Num for R {
    type FromStrRadixErr = ();
    #[inline(never)] fn from_str_radix(_s: &str, _r: u32) -> Result<R, ()> { unimplemented!() }
}
impl ToPrimitive for R {
    #[inline(never)] fn to_i64(&self) -> Option<i64> { unimplemented!() }
    #[inline(never)] fn to_u64(&self) -> Option<u64> { unimplemented!() }
    #[inline(never)] fn to_isize(&self) -> Option<isize> { unimplemented!() }
    #[inline(never)] fn to_usize(&self) -> Option<usize> { unimplemented!() }
    #[inline(never)] fn to_i32(&self) -> Option<i32> { unimplemented!() }
    #[inline(never)] fn to_u32(&self) -> Option<u32> { unimplemented!() }
    #[inline(never)] fn to_i128(&self) -> Option<i128> { unimplemented!() }
    #[inline(never)] fn to_u128(&self) -> Option<u128> { unimplemented!() }
    #[inline(never)] fn to_f64(&self) -> Option<f64> { unimplemented!() }
    #[inline(never)] fn to_f32(&self) -> Option<f32> { unimplemented!() }
}
impl NumCast for R {
    #[inline(never)] fn from<T: ToPrimitive>(_n: T) -> Option<R> { unimplemented!() }
}
impl Float for R {
    #[inline(never)] fn nan() -> R { unimplemented!() }
    #[inline(never)] fn infinity() -> R { unimplemented!() }
    #[inline(never)] fn neg_infinity() -> R { unimplemented!() }
    #[inline(never)] fn neg_zero() -> R { unimplemented!() }
    #[inline(never)] fn min_value() -> R { unimplemented!() }
    #[inline(never)] fn min_positive_value() -> R { unimplemented!() }
    #[inline(never)] fn max_value() -> R { unimplemented!() }
    #[inline(never)] fn epsilon() -> R { unimplemented!() }
    #[inline(never)] fn floor(self) -> R { unimplemented!() }
    #[inline(never)] fn ceil(self) -> R { unimplemented!() }
    #[inline(never)] fn round(self) -> R { unimplemented!() }
    #[inline(never)] fn trunc(self) -> R { unimplemented!() }
    #[inline(never)] fn fract(self) -> R { unimplemented!() }
    #[inline(never)] fn abs(self) -> R { unimplemented!() }
    #[inline(never)] fn signum(self) -> R { unimplemented!() }
    #[inline(never)] fn recip(self) -> R { unimplemented!() }
    #[inline(never)] fn sqrt(self) -> R { unimplemented!() }
    #[inline(never)] fn exp(self) -> R { unimplemented!() }
    #[inline(never)] fn exp2(self) -> R { unimplemented!() }
    #[inline(never)] fn ln(self) -> R { unimplemented!() }
    #[inline(never)] fn log2(self) -> R { unimplemented!() }
    #[inline(never)] fn log10(self) -> R { unimplemented!() }
    #[inline(never)] fn cbrt(self) -> R { unimplemented!() }
    #[inline(never)] fn sin(self) -> R { unimplemented!() }
    #[inline(never)] fn cos(self) -> R { unimplemented!() }
    #[inline(never)] fn tan(self) -> R { unimplemented!() }
    #[inline(never)] fn asin(self) -> R { unimplemented!() }
    #[inline(never)] fn acos(self) -> R { unimplemented!() }
    #[inline(never)] fn atan(self) -> R { unimplemented!() }
    #[inline(never)] fn exp_m1(self) -> R { unimplemented!() }
    #[inline(never)] fn ln_1p(self) -> R { unimplemented!() }
    #[inline(never)] fn sinh(self) -> R { unimplemented!() }
    #[inline(never)] fn cosh(self) -> R { unimplemented!() }
    #[inline(never)] fn tanh(self) -> R { unimplemented!() }
    #[inline(never)] fn asinh(self) -> R { unimplemented!() }
    #[inline(never)] fn acosh(self) -> R { unimplemented!() }
    #[inline(never)] fn atanh(self) -> R { unimplemented!() }
    #[inline(never)] fn to_degrees(self) -> R { unimplemented!() }
    #[inline(never)] fn to_radians(self) -> R { unimplemented!() }
    #[inline(never)] fn max(self, _o: R) -> R { unimplemented!() }
    #[inline(never)] fn min(self, _o: R) -> R { unimplemented!() }
    #[inline(never)] fn abs_sub(self, _o: R) -> R { unimplemented!() }
    #[inline(never)] fn hypot(self, _o: R) -> R { unimplemented!() }
    #[inline(never)] fn atan2(self, _o: R) -> R { unimplemented!() }
    #[inline(never)] fn log(self, _o: R) -> R { unimplemented!() }
    #[inline(never)] fn powf(self, _o: R) -> R { unimplemented!() }
    #[inline(never)] fn copysign(self, _o: R) -> R { unimplemented!() }
    #[inline(never)] fn is_nan(self) -> bool { unimplemented!() }
    #[inline(never)] fn is_infinite(self) -> bool { unimplemented!() }
    #[inline(never)] fn is_finite(self) -> bool { unimplemented!() }
    #[inline(never)] fn is_normal(self) -> bool { unimplemented!() }
    #[inline(never)] fn is_sign_positive(self) -> bool { unimplemented!() }
    #[inline(never)] fn is_sign_negative(self) -> bool { unimplemented!() }
    #[inline(never)] fn is_subnormal(self) -> bool { unimplemented!() }
    #[inline(never)] fn mul_add(self, _a: R, _b: R) -> R { unimplemented!() }
    #[inline(never)] fn powi(self, _n: i32) -> R { unimplemented!() }
    #[inline(never)] fn clamp(self, _a: R, _b: R) -> R { unimplemented!() }
    #[inline(never)] fn sin_cos(self) -> (R, R) { unimplemented!() }
    #[inline(never)] fn classify(self) -> FpCategory { unimplemented!() }
    #[inline(never)] fn integer_decode(self) -> (u64, i16, i8) { unimplemented!() }
}
