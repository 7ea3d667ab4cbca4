//! Exact rational number implementing num_traits::Float (i128, overflow is flagged).
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

thread_local! {
    pub static OVER: Cell<bool> = const { Cell::new(false) };
    pub static UNSUP: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        if a >> 64 == 0 && b >> 64 == 0 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                (x, y) = (y, x % y);
            }
            return x as u128;
        }
        (a, b) = (b, a % b);
    }
    a
}

fn over() -> Q {
    OVER.with(|o| o.set(true));
    Q { n: 0, d: 1 }
}
fn unsup() {
    UNSUP.with(|o| o.set(true));
}

impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        if d == 0 {
            return over();
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128;
        let s = if d < 0 { -1 } else { 1 };
        if g == 0 { Q { n: 0, d: 1 } } else { Q { n: s * (n / g), d: s * (d / g) } }
    }
    pub fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    pub fn fl(self) -> i128 {
        self.n.div_euclid(self.d)
    }
    fn key(a: &Q, b: &Q) -> Ordering {
        // exact comparison without overflow: compare integer parts, then reciprocals of the fractions
        let (mut a, mut b) = (*a, *b);
        loop {
            let (fa, fb) = (a.n.div_euclid(a.d), b.n.div_euclid(b.d));
            if fa != fb {
                return fa.cmp(&fb);
            }
            let (ra, rb) = (a.n.rem_euclid(a.d), b.n.rem_euclid(b.d));
            if ra == 0 || rb == 0 {
                return (ra != 0).cmp(&(rb != 0));
            }
            // ra/a.d ? rb/b.d  <=>  b.d/rb ? a.d/ra
            (a, b) = (Q { n: b.d, d: rb }, Q { n: a.d, d: ra });
        }
    }
}

impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.n == o.n && self.d == o.d
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(Q::key(self, o))
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        let g = gcd(self.d as u128, o.d as u128) as i128;
        let (a, b) = (self.d / g, o.d / g);
        let n = match (self.n.checked_mul(b), o.n.checked_mul(a)) {
            (Some(x), Some(y)) => x.checked_add(y),
            _ => None,
        };
        match (n, self.d.checked_mul(b)) {
            (Some(n), Some(d)) => Q::new(n, d),
            _ => over(),
        }
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + (-o)
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        if self.n == 0 || o.n == 0 {
            return Q { n: 0, d: 1 };
        }
        let g = gcd(self.n.unsigned_abs(), o.d as u128) as i128;
        let h = gcd(o.n.unsigned_abs(), self.d as u128) as i128;
        match ((self.n / g).checked_mul(o.n / h), (self.d / h).checked_mul(o.d / g)) {
            (Some(n), Some(d)) => Q { n, d },
            _ => over(),
        }
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        if o.n == 0 {
            return over();
        }
        self * if o.n < 0 { Q { n: -o.d, d: -o.n } } else { Q { n: o.d, d: o.n } }
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, o: Q) -> Q {
        let q = (self / o).trunc();
        self - q * o
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q { n: 0, d: 1 }
    }
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q { n: 1, d: 1 }
    }
}
impl Num for Q {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _r: u32) -> Result<Q, ()> {
        match s.split_once('/') {
            Some((a, b)) => Ok(Q::new(a.parse().map_err(|_| ())?, b.parse().map_err(|_| ())?)),
            None => Ok(Q::int(s.parse().map_err(|_| ())?)),
        }
    }
}
impl ToPrimitive for Q {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.n / self.d).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.n / self.d).ok()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.n as f64 / self.d as f64)
    }
}
impl NumCast for Q {
    fn from<T: ToPrimitive>(x: T) -> Option<Q> {
        // integers exactly; otherwise the exact value of the float
        if let Some(f) = x.to_f64() {
            if f.fract() == 0.0 {
                if let Some(i) = x.to_i128() {
                    return Some(Q::int(i));
                }
            }
            if !f.is_finite() {
                unsup();
                return Some(Q::int(0));
            }
            let (m, e, s) = f.integer_decode();
            let m = m as i128 * s as i128;
            if e >= 0 {
                if e > 70 {
                    return Some(over());
                }
                return Some(Q::int(m << e));
            }
            let tz = m.trailing_zeros().min((-e) as u32);
            let (m, e) = (m >> tz, -e - tz as i16);
            if e > 100 {
                return Some(over());
            }
            return Some(Q::new(m, 1i128 << e));
        }
        None
    }
}
macro_rules! un {
    ($($n:ident),*) => { $( fn $n(self) -> Q { unsup(); Q::int(0) } )* };
}
macro_rules! bi {
    ($($n:ident),*) => { $( fn $n(self, _o: Q) -> Q { unsup(); Q::int(0) } )* };
}
macro_rules! co {
    ($($n:ident),*) => { $( fn $n() -> Q { unsup(); Q::int(0) } )* };
}
impl Float for Q {
    co!(nan, infinity, neg_infinity, min_value, max_value, min_positive_value, epsilon);
    fn neg_zero() -> Q {
        Q::int(0)
    }
    un!(sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh,
        asinh, acosh, atanh, to_degrees, to_radians);
    bi!(hypot, atan2, log, powf);
    fn floor(self) -> Q {
        Q::int(self.fl())
    }
    fn ceil(self) -> Q {
        Q::int(-(-self).fl())
    }
    fn round(self) -> Q {
        let h = Q::new(1, 2);
        if self.n < 0 { -((-self + h).floor()) } else { (self + h).floor() }
    }
    fn trunc(self) -> Q {
        Q::int(self.n / self.d)
    }
    fn fract(self) -> Q {
        self - self.trunc()
    }
    fn abs(self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    fn signum(self) -> Q {
        Q::int(if self.n < 0 { -1 } else { 1 })
    }
    fn recip(self) -> Q {
        Q::int(1) / self
    }
    fn max(self, o: Q) -> Q {
        if self >= o { self } else { o }
    }
    fn min(self, o: Q) -> Q {
        if self <= o { self } else { o }
    }
    fn clamp(self, a: Q, b: Q) -> Q {
        if self < a { a } else if self > b { b } else { self }
    }
    fn abs_sub(self, o: Q) -> Q {
        if self <= o { Q::int(0) } else { self - o }
    }
    fn copysign(self, o: Q) -> Q {
        if (self.n < 0) == (o.n < 0) { self } else { -self }
    }
    fn is_nan(self) -> bool {
        false
    }
    fn is_infinite(self) -> bool {
        false
    }
    fn is_finite(self) -> bool {
        true
    }
    fn is_normal(self) -> bool {
        self.n != 0
    }
    fn is_subnormal(self) -> bool {
        false
    }
    fn is_sign_positive(self) -> bool {
        self.n >= 0
    }
    fn is_sign_negative(self) -> bool {
        self.n < 0
    }
    fn mul_add(self, a: Q, b: Q) -> Q {
        self * a + b
    }
    fn powi(self, n: i32) -> Q {
        let mut r = Q::int(1);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 { Q::int(1) / r } else { r }
    }
    fn sin_cos(self) -> (Q, Q) {
        unsup();
        (self, self)
    }
    fn classify(self) -> FpCategory {
        if self.n == 0 { FpCategory::Zero } else { FpCategory::Normal }
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        unsup();
        (0, 0, 1)
    }
}
macro_rules! assign { ($($t:ident $f:ident $o:tt),*) => { $( impl $t for Q { fn $f(&mut self, o: Q) { *self = *self $o o; } } )* } }
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
