//! The scalar field of the specification (spec/Field.tla): GF(P) extended by an
//! absorbing "undefined" element, ordered by the signed representative, with
//! exactly computable stand-ins for the transcendental functions.
use aegir::buffers::{shapes::{IncompatibleShapes, Shaped, S0}, Buffer, Scalar, Scalars, ZipFold, ZipMap};
use num_traits::{Float, FromPrimitive, Num, NumCast, One, Pow, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::*;

pub const P: i64 = 32749;
const HALF: i64 = 16374;
const A: i64 = 5003;
const C: i64 = 7;
pub const PI: i64 = 11119;
const K1: i64 = 17;
const K2: i64 = 23;
const K3: i64 = 29;
const K4: i64 = 31;
const K5: i64 = 37;
const K6: i64 = 41;
const K7: i64 = 43;
const K8: i64 = 47;
const K9: i64 = 53;
const K10: i64 = 59;
const K11: i64 = 61;
const K12: i64 = 67;

#[derive(Clone, Copy)]
pub struct Z(i64);

pub fn signed(v: i64) -> i64 { if v > HALF { v - P } else { v } }

impl Z {
    pub const BOT: Z = Z(-1);
    pub fn new(v: i64) -> Z { Z(v.rem_euclid(P)) }
    pub fn raw(self) -> i64 { self.0 }
    fn bot(self) -> bool { self.0 < 0 }
    fn s(self) -> i64 { signed(self.0) }
    fn inv(self) -> Z {
        if self.0 <= 0 { return Z::BOT; }
        self.upow((P - 2) as u64)
    }
    fn upow(self, mut e: u64) -> Z {
        let mut b = self;
        let mut r = Z(1);
        while e > 0 {
            if e & 1 == 1 { r = r * b; }
            b = b * b;
            e >>= 1;
        }
        r
    }
    fn ipow(self, e: i64) -> Z {
        if self.bot() { return self; }
        if e >= 0 { self.upow(e as u64) } else { self.inv().upow((-e) as u64) }
    }
    fn k(v: i64) -> Z { Z::new(v) }
}

impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self) }
}
impl std::fmt::Display for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.bot() { write!(f, "NaN") } else { write!(f, "{}", self.s()) }
    }
}
impl PartialEq for Z {
    fn eq(&self, o: &Z) -> bool { !self.bot() && !o.bot() && self.0 == o.0 }
}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        if self.bot() || o.bot() { None } else { self.s().partial_cmp(&o.s()) }
    }
}
impl Add for Z { type Output = Z; fn add(self, o: Z) -> Z { if self.bot() || o.bot() { Z::BOT } else { Z((self.0 + o.0) % P) } } }
impl Sub for Z { type Output = Z; fn sub(self, o: Z) -> Z { if self.bot() || o.bot() { Z::BOT } else { Z((self.0 + P - o.0) % P) } } }
impl Mul for Z { type Output = Z; fn mul(self, o: Z) -> Z { if self.bot() || o.bot() { Z::BOT } else { Z((self.0 * o.0) % P) } } }
impl Div for Z { type Output = Z; fn div(self, o: Z) -> Z { self * o.inv() } }
impl Rem for Z { type Output = Z; fn rem(self, _: Z) -> Z { Z::BOT } }
impl Neg for Z { type Output = Z; fn neg(self) -> Z { Z(0) - self } }
macro_rules! refs { ($($T:ident $f:ident $TA:ident $fa:ident;)*) => { $(
    impl<'a> $T<&'a Z> for Z { type Output = Z; fn $f(self, o: &Z) -> Z { self.$f(*o) } }
    impl $TA for Z { fn $fa(&mut self, o: Z) { *self = (*self).$f(o); } }
)* } }
refs!(Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; Rem rem RemAssign rem_assign;);

impl Zero for Z { fn zero() -> Z { Z(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Z { fn one() -> Z { Z(1) } }
impl Num for Z {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Z, ()> { i64::from_str_radix(s, r).map(Z::new).map_err(|_| ()) }
}
impl ToPrimitive for Z {
    fn to_i64(&self) -> Option<i64> { if self.bot() { None } else { Some(self.s()) } }
    fn to_u64(&self) -> Option<u64> { self.to_i64().and_then(|v| if v < 0 { None } else { Some(v as u64) }) }
    fn to_f64(&self) -> Option<f64> { if self.bot() { Some(f64::NAN) } else { Some(self.s() as f64) } }
}
fn dyadic(v: f64) -> Z {
    if !v.is_finite() { return Z::BOT; }
    let (m, e, s) = v.integer_decode();
    Z::new((m % P as u64) as i64) * Z::new(2).ipow(e as i64) * Z::new(s as i64)
}
impl NumCast for Z { fn from<T: ToPrimitive>(n: T) -> Option<Z> { n.to_f64().map(dyadic) } }
impl FromPrimitive for Z {
    fn from_i64(n: i64) -> Option<Z> { Some(Z::new(n)) }
    fn from_u64(n: u64) -> Option<Z> { Some(Z::new((n % P as u64) as i64)) }
    fn from_f64(n: f64) -> Option<Z> { Some(dyadic(n)) }
}
impl Pow<Z> for Z {
    type Output = Z;
    fn pow(self, e: Z) -> Z { if e.bot() || self.bot() { Z::BOT } else { self.ipow(e.s()) } }
}

impl Float for Z {
    fn nan() -> Z { Z::BOT }
    fn infinity() -> Z { Z::BOT }
    fn neg_infinity() -> Z { Z::BOT }
    fn neg_zero() -> Z { Z(0) }
    fn min_value() -> Z { Z::new(-HALF) }
    fn min_positive_value() -> Z { Z(1) }
    fn max_value() -> Z { Z(HALF) }
    fn is_nan(self) -> bool { self.bot() }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { !self.bot() }
    fn is_normal(self) -> bool { self.0 > 0 }
    fn classify(self) -> std::num::FpCategory {
        if self.bot() { std::num::FpCategory::Nan } else if self.0 == 0 { std::num::FpCategory::Zero } else { std::num::FpCategory::Normal }
    }
    fn floor(self) -> Z { self }
    fn ceil(self) -> Z { self }
    fn round(self) -> Z { self }
    fn trunc(self) -> Z { self }
    fn fract(self) -> Z { self - self }
    fn abs(self) -> Z { if !self.bot() && self.s() < 0 { -self } else { self } }
    fn signum(self) -> Z { if self.bot() { self } else if self.s() < 0 { -Z(1) } else { Z(1) } }
    fn is_sign_positive(self) -> bool { !self.bot() && self.s() >= 0 }
    fn is_sign_negative(self) -> bool { !self.bot() && self.s() < 0 }
    fn mul_add(self, a: Z, b: Z) -> Z { self * a + b }
    fn recip(self) -> Z { self.inv() }
    fn powi(self, n: i32) -> Z { self.ipow(n as i64) }
    fn powf(self, n: Z) -> Z { Pow::pow(self, n) }
    fn sqrt(self) -> Z { Z::BOT }
    fn exp(self) -> Z { (Z::k(A) + self) / (Z::k(A) - self) }
    fn exp2(self) -> Z { Pow::pow(Z(2), self) }
    fn ln(self) -> Z { if self.0 == 0 { Z::BOT } else { Z::k(A) * (self - Z(1)) / (self + Z(1)) } }
    fn log(self, b: Z) -> Z { self.ln() / b.ln() }
    fn log2(self) -> Z { self.ln() / Z(2).ln() }
    fn log10(self) -> Z { self.ln() / Z(10).ln() }
    fn max(self, o: Z) -> Z { if self > o { self } else { o } }
    fn min(self, o: Z) -> Z { if self < o { self } else { o } }
    fn abs_sub(self, o: Z) -> Z { if self > o { self - o } else { Z(0) } }
    fn cbrt(self) -> Z { Z::BOT }
    fn hypot(self, _: Z) -> Z { Z::BOT }
    fn sin(self) -> Z { let t = Z::k(C) * self; (t + t) / (Z(1) + t * t) }
    fn cos(self) -> Z { let t = Z::k(C) * self; (Z(1) - t * t) / (Z(1) + t * t) }
    fn tan(self) -> Z { Float::sin(self) / Float::cos(self) }
    fn asin(self) -> Z { Z::k(PI) / Z(2) * self * (Z::k(K1) + (Z(1) - Z::k(K1)) * self * self) }
    fn acos(self) -> Z { Z::k(PI) / Z(2) - Float::asin(self) }
    fn atan(self) -> Z { Z::k(PI) / Z(4) * self * (Z::k(K2) + (Z(1) - Z::k(K2)) * self * self) }
    fn atan2(self, _: Z) -> Z { Z::BOT }
    fn sin_cos(self) -> (Z, Z) { (Float::sin(self), Float::cos(self)) }
    fn exp_m1(self) -> Z { Float::exp(self) - Z(1) }
    fn ln_1p(self) -> Z { Float::ln(self + Z(1)) }
    fn sinh(self) -> Z { (Float::exp(self) - Float::exp(-self)) / Z(2) }
    fn cosh(self) -> Z { (Float::exp(self) + Float::exp(-self)) / Z(2) }
    fn tanh(self) -> Z { Float::sinh(self) / Float::cosh(self) }
    fn asinh(self) -> Z { self * (Z::k(K3) + Z::k(K4) * self * self) }
    fn acosh(self) -> Z { Z::k(K5) * (self - Z(1)) / self }
    fn atanh(self) -> Z { Z::k(K6) * self / (Z(1) - self * self) }
    fn integer_decode(self) -> (u64, i16, i8) { (self.s().abs() as u64, 0, if self.s() < 0 { -1 } else { 1 }) }
}

impl special_fun::FloatSpecial for Z {
    fn beta(self, b: Z) -> Z { self.gamma() * b.gamma() / (self + b).gamma() }
    fn betainc(self, _: Z, _: Z) -> Z { Z::BOT }
    fn betainc_inv(self, _: Z, _: Z) -> Z { Z::BOT }
    fn factorial(self) -> Z { (self + Z(1)).gamma() }
    fn gamma(self) -> Z { (Z(1) + Z::k(K7) * (self - Z(1))) / self }
    fn rgamma(self) -> Z { self.gamma().inv() }
    fn loggamma(self) -> Z { Float::ln(self.gamma()) }
    fn gammainc(self, _: Z) -> Z { Z::BOT }
    fn gammac(self, _: Z) -> Z { Z::BOT }
    fn gammac_inv(self, _: Z) -> Z { Z::BOT }
    fn digamma(self) -> Z { Z::k(K8) + Z::k(K9) / self + Z::k(K10) * self }
    fn erf(self) -> Z { Z::k(K11) * self + Z::k(K12) * self * self * self }
    fn erfc(self) -> Z { Z(1) - self.erf() }
    fn hyp1f1(self, _: Z, _: Z) -> Z { Z::BOT }
    fn hyp1f2(self, _: Z, _: Z, _: Z) -> Z { Z::BOT }
    fn hyp2f1(self, _: Z, _: Z, _: Z) -> Z { Z::BOT }
    fn hyp3f0(self, _: Z, _: Z, _: Z) -> Z { Z::BOT }
    fn norm(self) -> Z { Z::BOT }
    fn norm_inv(self) -> Z { Z::BOT }
    fn besselj(self, _: Z) -> Z { Z::BOT }
    fn bessely(self, _: Z) -> Z { Z::BOT }
    fn besseli(self, _: Z) -> Z { Z::BOT }
    fn besselk(self, _: i32) -> Z { Z::BOT }
    fn riemann_zeta(self) -> Z { Z::BOT }
    fn hurwitz_zeta(self, _: Z) -> Z { Z::BOT }
}

impl Shaped for Z { type Shape = S0; fn shape(&self) -> S0 { S0 } }
impl Buffer for Z {
    type Class = Scalars;
    type Field = Z;
    fn class() -> Scalars { Scalars }
    fn get(&self, _: ()) -> Option<Z> { Some(*self) }
    fn get_unchecked(&self, _: ()) -> Z { *self }
    fn map<F: Scalar, M: Fn(Z) -> F>(self, f: M) -> F { f(self) }
    fn map_ref<F: Scalar, M: Fn(Z) -> F>(&self, f: M) -> F { f(*self) }
    fn mutate<M: Fn(Z) -> Z>(&mut self, f: M) { *self = f(*self); }
    fn fold<F, M: Fn(F, Z) -> F>(&self, init: F, f: M) -> F { f(init, *self) }
}
impl ZipFold for Z {
    fn zip_fold<T: Scalar, M: Fn(T, (Z, Z)) -> T>(&self, r: &Z, i: T, f: M) -> Result<T, IncompatibleShapes<S0>> { Ok(f(i, (*self, *r))) }
}
impl ZipMap for Z {
    type Output<T: Scalar> = T;
    fn zip_map<T: Scalar, M: Fn(Z, Z) -> T>(self, r: &Z, f: M) -> Result<T, IncompatibleShapes<S0>> { Ok(f(self, *r)) }
    fn zip_shape(self, _: S0) -> Result<Z, IncompatibleShapes<S0>> { Ok(self) }
}
impl Scalar for Z {}
