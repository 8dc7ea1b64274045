//! Simulated number types. `SimF` behaves exactly like f64 and `SimI` like an
//! exact integer of limited width, except that every operation is a point at
//! which the simulator may switch tasks, nest a call, stall, raise a panic or
//! corrupt the result. f32, f64 and i32 run unmodified.
use crate::engine::{point, Act, Pt};
use core::cmp::Ordering;
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, Div, Mul, Neg, Rem, Sub};
use num::traits::FloatConst;
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::num::FpCategory;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering as AO};

/// kinds of value corruption
pub const V_NAN: u8 = 0;
pub const V_INF: u8 = 1;
pub const V_NINF: u8 = 2;
pub const V_ZERO: u8 = 3;
pub const V_NZERO: u8 = 4;
pub const V_HUGE: u8 = 5;
pub const V_TINY: u8 = 6;
pub const V_NEG: u8 = 7;
pub const V_ONE: u8 = 8;
pub const V_NUM: u8 = 9;
/// rounding jitter: exact, one unit up, one unit down
pub const V_JIT: u8 = 10;
/// the value times a factor close to one
pub const V_REL: u8 = 13;
fn ulps(v: f64, d: i64) -> f64 {
    if v == 0.0 || !v.is_finite() || v.abs() < 1e-280 {
        v
    } else {
        f64::from_bits((v.to_bits() as i64 + d) as u64)
    }
}
pub fn corrupt(k: u8, v: f64) -> f64 {
    match k {
        V_NAN => f64::NAN,
        V_INF => f64::INFINITY,
        V_NINF => f64::NEG_INFINITY,
        V_ZERO => 0.0,
        V_NZERO => -0.0,
        V_HUGE => 1.0e300,
        V_TINY => 5e-324,
        V_NEG => -v,
        V_ONE => 1.0,
        11 => ulps(v, 1),
        12 => ulps(v, -1),
        V_REL => v * REL.get(),
        _ => v,
    }
}

thread_local! {
    /// the value the current arithmetic step is about to deliver
    pub static REL: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) };
    /// 0: conversions to primitive numbers are right
    pub static LIE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    pub static LASTV: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
thread_local! {
    /// what is compared at the current comparison or asked at the current predicate
    pub static LASTC: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// neither its size nor its alignment is that of a primitive number
#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct SimF(pub f64, u64);
#[inline]
fn sf(x: f64) -> SimF {
    SimF(x, 0x5eed_5eed_5eed_5eed)
}
fn compared(a: f64, b: f64) {
    let k = |x: f64| if x.is_nan() { 5 } else { x.to_bits() };
    LASTC.set(k(a).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23) ^ k(b));
}

#[inline]
fn o(v: f64) -> SimF {
    LASTV.set(if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() });
    match point(Pt::Op) {
        Act::Val(k) => sf(corrupt(k, v)),
        _ => sf(v),
    }
}
/// the answer to a yes-or-no question about `v`
fn ask(b: bool, v: f64) -> bool {
    compared(v, 0.5);
    match point(Pt::Conv) {
        Act::Cmp(_) => !b,
        _ => b,
    }
}
macro_rules! binop {
    ($tr:ident, $m:ident, $op:tt) => {
        impl $tr for SimF { type Output = SimF; fn $m(self, r: SimF) -> SimF { o(self.0 $op r.0) } }
    };
}
binop!(Add, add, +);
binop!(Sub, sub, -);
binop!(Mul, mul, *);
binop!(Div, div, /);
binop!(Rem, rem, %);
impl Neg for SimF {
    type Output = SimF;
    fn neg(self) -> SimF {
        o(-self.0)
    }
}
impl PartialEq for SimF {
    fn eq(&self, r: &SimF) -> bool {
        let b = self.0 == r.0;
        compared(self.0, r.0);
        match point(Pt::Cmp) {
            Act::Cmp(_) => !b,
            _ => b,
        }
    }
}
impl PartialOrd for SimF {
    fn partial_cmp(&self, r: &SimF) -> Option<Ordering> {
        let b = self.0.partial_cmp(&r.0);
        compared(self.0, r.0);
        match point(Pt::Cmp) {
            Act::Cmp(0) => None,
            Act::Cmp(1) => b.map(|x| x.reverse()),
            Act::Cmp(_) => Some(Ordering::Equal),
            _ => b,
        }
    }
}
impl Zero for SimF {
    fn zero() -> Self {
        sf(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == sf(0.0)
    }
}
impl One for SimF {
    fn one() -> Self {
        sf(1.0)
    }
}
impl Num for SimF {
    type FromStrRadixErr = num::traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(sf)
    }
}
impl Sum for SimF {
    fn sum<I: Iterator<Item = SimF>>(it: I) -> SimF {
        it.fold(sf(-0.0), |a, b| a + b)
    }
}
/// what a conversion to a primitive number starts from
fn told(v: f64) -> Option<f64> {
    point(Pt::Conv);
    match LIE.get() {
        0 => Some(v),
        1 => None,
        2 => Some(f64::NAN),
        3 => Some(v as f32 as f64 * 1.001),
        _ => Some(1.0 - 3.0 * v),
    }
}
pub const LIES: u8 = 4;
impl ToPrimitive for SimF {
    fn to_i64(&self) -> Option<i64> {
        told(self.0)?.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        told(self.0)?.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        told(self.0)
    }
    fn to_f32(&self) -> Option<f32> {
        told(self.0).map(|v| v as f32)
    }
}
impl NumCast for SimF {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().map(sf)
    }
}
impl Signed for SimF {
    fn abs(&self) -> Self {
        o(self.0.abs())
    }
    fn abs_sub(&self, r: &Self) -> Self {
        o(if self.0 <= r.0 { 0.0 } else { self.0 - r.0 })
    }
    fn signum(&self) -> Self {
        o(f64::signum(self.0))
    }
    fn is_positive(&self) -> bool {
        ask(f64::is_sign_positive(self.0) && !self.0.is_nan(), self.0)
    }
    fn is_negative(&self) -> bool {
        ask(f64::is_sign_negative(self.0) && !self.0.is_nan(), self.0)
    }
}
macro_rules! un { ($($m:ident),*) => { $(fn $m(self) -> Self { o(f64::$m(self.0)) })* } }
macro_rules! bi { ($($m:ident),*) => { $(fn $m(self, r: Self) -> Self { o(f64::$m(self.0, r.0)) })* } }
macro_rules! q { ($($m:ident),*) => { $(fn $m(self) -> bool { ask(Float::$m(self.0), self.0) })* } }
macro_rules! k { ($($m:ident),*) => { $(fn $m() -> Self { sf(<f64 as Float>::$m()) })* } }
impl Float for SimF {
    k!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, epsilon, max_value);
    q!(is_nan, is_infinite, is_finite, is_normal, is_subnormal, is_sign_positive, is_sign_negative);
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt);
    un!(sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh, to_degrees, to_radians);
    bi!(powf, log, max, min, hypot, atan2, copysign);
    fn clamp(self, a: Self, b: Self) -> Self {
        o(f64::clamp(self.0, a.0, b.0))
    }
    fn abs_sub(self, r: Self) -> Self {
        o(if self.0 <= r.0 { 0.0 } else { self.0 - r.0 })
    }
    fn classify(self) -> FpCategory {
        point(Pt::Conv);
        Float::classify(self.0)
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        o(f64::mul_add(self.0, a.0, b.0))
    }
    fn powi(self, n: i32) -> Self {
        o(f64::powi(self.0, n))
    }
    fn sin_cos(self) -> (Self, Self) {
        let (s, c) = f64::sin_cos(self.0);
        (o(s), o(c))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        point(Pt::Conv);
        Float::integer_decode(self.0)
    }
}
macro_rules! fc { ($($m:ident),*) => { impl FloatConst for SimF { $(#[allow(non_snake_case)] fn $m() -> Self { sf(<f64 as FloatConst>::$m()) })* } } }
fc!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8,
    LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2, TAU, LOG10_2, LOG2_10);
/// A component rendered by the simulator's own `Display` carries an identity
/// when it lies in this range, so that texts can be checked component by
/// component whatever layout surrounds them.
pub const TAG_BASE: f64 = 700_000.0;
impl fmt::Display for SimF {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if let Act::Err = point(Pt::Fmt) {
            crate::scen::ELEM_FAILED.set(true);
            return Err(fmt::Error);
        }
        if self.0 >= TAG_BASE && self.0 < TAG_BASE + 1000.0 {
            let (pad, pieces) = crate::scen::PAD.get();
            write!(f, "<{}", (self.0 - TAG_BASE) as u32)?;
            let mut left = pad as usize;
            while left > 0 {
                let n = if pieces { 1 + left / 3 } else { left }.min(64);
                f.write_str(&FILL[..n])?;
                left -= n;
            }
            return f.write_str(">");
        }
        fmt::Display::fmt(&self.0, f)
    }
}
/// a component's text may be long, and may come in pieces
const FILL: &str = "~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~";
impl fmt::Debug for SimF {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 >= TAG_BASE && self.0 < TAG_BASE + 1000.0 {
            return fmt::Display::fmt(self, f);
        }
        if let Act::Err = point(Pt::Fmt) {
            crate::scen::ELEM_FAILED.set(true);
            return Err(fmt::Error);
        }
        fmt::Debug::fmt(&self.0, f)
    }
}

// ------------------------------------------------------------------ SimI --
/// largest magnitude a SimI may hold; beyond it, arithmetic traps
pub static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
/// traps raised since the counter was last cleared
pub static TRAPS: AtomicU32 = AtomicU32::new(0);

#[derive(Clone, Copy)]
pub struct SimI(pub i64);
pub struct SimTrap;

fn trap() -> ! {
    TRAPS.fetch_add(1, AO::Relaxed);
    std::panic::resume_unwind(Box::new(SimTrap))
}
#[inline]
fn i(v: Option<i64>) -> SimI {
    point(Pt::Op);
    match v {
        Some(x) if x.unsigned_abs() <= LIMIT.load(AO::Relaxed) as u64 => SimI(x),
        _ => trap(),
    }
}
macro_rules! ibin {
    ($tr:ident, $m:ident, $c:ident) => {
        impl $tr for SimI { type Output = SimI; fn $m(self, r: SimI) -> SimI { i(self.0.$c(r.0)) } }
    };
}
ibin!(Add, add, checked_add);
ibin!(Sub, sub, checked_sub);
ibin!(Mul, mul, checked_mul);
ibin!(Div, div, checked_div);
ibin!(Rem, rem, checked_rem);
impl Neg for SimI {
    type Output = SimI;
    fn neg(self) -> SimI {
        i(self.0.checked_neg())
    }
}
impl PartialEq for SimI {
    fn eq(&self, r: &SimI) -> bool {
        point(Pt::Cmp);
        self.0 == r.0
    }
}
impl Eq for SimI {}
impl PartialOrd for SimI {
    fn partial_cmp(&self, r: &SimI) -> Option<Ordering> {
        point(Pt::Cmp);
        self.0.partial_cmp(&r.0)
    }
}
impl Ord for SimI {
    fn cmp(&self, r: &SimI) -> Ordering {
        point(Pt::Cmp);
        self.0.cmp(&r.0)
    }
}
impl Zero for SimI {
    fn zero() -> Self {
        SimI(0)
    }
    fn is_zero(&self) -> bool {
        *self == SimI(0)
    }
}
impl One for SimI {
    fn one() -> Self {
        SimI(1)
    }
}
impl Num for SimI {
    type FromStrRadixErr = <i64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        <i64 as Num>::from_str_radix(s, r).map(SimI)
    }
}
impl Sum for SimI {
    fn sum<I: Iterator<Item = SimI>>(it: I) -> SimI {
        it.fold(SimI(0), |a, b| a + b)
    }
}
impl Signed for SimI {
    fn abs(&self) -> Self {
        i(self.0.checked_abs())
    }
    fn abs_sub(&self, r: &Self) -> Self {
        i(if self.0 <= r.0 { Some(0) } else { self.0.checked_sub(r.0) })
    }
    fn signum(&self) -> Self {
        i(Some(self.0.signum()))
    }
    fn is_positive(&self) -> bool {
        point(Pt::Conv);
        self.0 > 0
    }
    fn is_negative(&self) -> bool {
        point(Pt::Conv);
        self.0 < 0
    }
}
impl fmt::Display for SimI {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if let Act::Err = point(Pt::Fmt) {
            crate::scen::ELEM_FAILED.set(true);
            return Err(fmt::Error);
        }
        fmt::Display::fmt(&self.0, f)
    }
}
impl fmt::Debug for SimI {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if let Act::Err = point(Pt::Fmt) {
            crate::scen::ELEM_FAILED.set(true);
            return Err(fmt::Error);
        }
        fmt::Debug::fmt(&self.0, f)
    }
}

// ---------------------------------------------------------------- traits --
pub trait El: Num + Copy + Signed + PartialOrd + Sum + fmt::Display + fmt::Debug + Send + 'static {
    const TY: Ty;
    fn raw(v: f64) -> Self;
    fn bits(self) -> u64;
    fn to_f(self) -> f64;
}
pub trait Fl: El + Float + FloatConst {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    F64 = 0,
    F32 = 1,
    I32 = 2,
    SF = 3,
    SI = 4,
}
pub const TYS: [Ty; 5] = [Ty::F64, Ty::F32, Ty::I32, Ty::SF, Ty::SI];
impl Ty {
    pub fn name(self) -> &'static str {
        ["f64", "f32", "i32", "simf", "simi"][self as usize]
    }
    pub fn parse(s: &str) -> Option<Ty> {
        TYS.iter().copied().find(|t| t.name() == s)
    }
    pub fn is_float(self) -> bool {
        matches!(self, Ty::F64 | Ty::F32 | Ty::SF)
    }
    pub fn is_sim(self) -> bool {
        matches!(self, Ty::SF | Ty::SI)
    }
}
fn cf(v: f64) -> u64 {
    if v.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        v.to_bits()
    }
}
pub fn to_int(v: f64) -> i64 {
    if v.is_nan() {
        0
    } else {
        v.clamp(-2.0e9, 2.0e9).round() as i64
    }
}
impl El for f64 {
    fn to_f(self) -> f64 {
        self
    }
    const TY: Ty = Ty::F64;
    fn raw(v: f64) -> f64 {
        v
    }
    fn bits(self) -> u64 {
        cf(self)
    }
}
impl El for f32 {
    fn to_f(self) -> f64 {
        self as f64
    }
    const TY: Ty = Ty::F32;
    fn raw(v: f64) -> f32 {
        v as f32
    }
    fn bits(self) -> u64 {
        if self.is_nan() {
            0x7fc0_0000
        } else {
            self.to_bits() as u64
        }
    }
}
impl El for i32 {
    fn to_f(self) -> f64 {
        self as f64
    }
    const TY: Ty = Ty::I32;
    fn raw(v: f64) -> i32 {
        to_int(v) as i32
    }
    fn bits(self) -> u64 {
        self as i64 as u64
    }
}
impl El for SimF {
    fn to_f(self) -> f64 {
        self.0
    }
    const TY: Ty = Ty::SF;
    fn raw(v: f64) -> SimF {
        sf(v)
    }
    fn bits(self) -> u64 {
        cf(self.0)
    }
}
impl El for SimI {
    fn to_f(self) -> f64 {
        self.0 as f64
    }
    const TY: Ty = Ty::SI;
    fn raw(v: f64) -> SimI {
        SimI(to_int(v))
    }
    fn bits(self) -> u64 {
        self.0 as u64
    }
}
impl Fl for f64 {}
impl Fl for f32 {}
impl Fl for SimF {}
