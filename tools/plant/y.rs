// A number type that behaves like f64 and calls a hook before each operation.
#![allow(dead_code)]
use num::traits::FloatConst;
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::*;

thread_local! {
    pub static COUNT: Cell<u64> = const { Cell::new(0) };
    /// every operation, hooked or not
    pub static ALL: Cell<u64> = const { Cell::new(0) };
    pub static HOOK: RefCell<Option<Box<dyn FnMut(u64)>>> = const { RefCell::new(None) };
    /// (size, salt): every result is off by a relative error of up to this size, the same value always by the same
    pub static ROUGH: Cell<(f64, u64)> = const { Cell::new((0.0, 0)) };
    pub static EDIT: Cell<Option<(u64, f64)>> = const { Cell::new(None) };
}
/// run `f`, calling `h(n)` before its n-th operation (on this thread; not while in `h`)
pub fn with_hook<R>(h: impl FnMut(u64) + 'static, f: impl FnOnce() -> R) -> R {
    COUNT.set(0);
    HOOK.with(|x| *x.borrow_mut() = Some(Box::new(h)));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            if let Ok(mut b) = HOOK.try_with(|x| x.borrow_mut().take()).map(|v| v) { b.take(); }
        }
    }
    let _off = Off;
    f()
}
/// number of operations `f` makes
pub fn count(f: impl FnOnce()) -> u64 {
    with_hook(|_| {}, f);
    COUNT.get()
}
fn pt() {
    ALL.set(ALL.get() + 1);
    let h = HOOK.with(|x| x.borrow_mut().take());
    if let Some(mut h) = h {
        let n = COUNT.get();
        COUNT.set(n + 1);
        struct Back(Option<Box<dyn FnMut(u64)>>);
        impl Drop for Back {
            fn drop(&mut self) { let h = self.0.take(); HOOK.with(|x| *x.borrow_mut() = h); }
        }
        let mut b = Back(None);
        h(n);
        b.0 = Some(h);
    }
}
#[derive(Clone, Copy)]
pub struct Y(pub f64);
fn o(v: f64) -> Y {
    let n = COUNT.get();
    let on = HOOK.with(|x| x.borrow().is_some());
    pt();
    if on { if let Some((k, w)) = EDIT.get() { if k == n { return Y(w) } } }
    let (r, salt) = ROUGH.get();
    if r != 0.0 {
        let mut h = v.to_bits() ^ salt.wrapping_mul(0x9e3779b97f4a7c15);
        for _ in 0..3 { h = (h ^ (h >> 29)).wrapping_mul(0xbf58476d1ce4e5b9); }
        let u = (h >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
        return Y(v * (1.0 + r * u));
    }
    Y(v)
}
macro_rules! bin { ($t:ident, $m:ident, $op:tt) => { impl $t for Y { type Output = Y; fn $m(self, r: Y) -> Y { o(self.0 $op r.0) } } } }
bin!(Add, add, +); bin!(Sub, sub, -); bin!(Mul, mul, *); bin!(Div, div, /); bin!(Rem, rem, %);
impl Neg for Y { type Output = Y; fn neg(self) -> Y { o(-self.0) } }
impl PartialEq for Y { fn eq(&self, r: &Y) -> bool { pt(); self.0 == r.0 } }
impl PartialOrd for Y { fn partial_cmp(&self, r: &Y) -> Option<Ordering> { pt(); self.0.partial_cmp(&r.0) } }
impl Zero for Y { fn zero() -> Y { Y(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for Y { fn one() -> Y { Y(1.0) } }
impl Num for Y {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Y, Self::FromStrRadixErr> { <f64 as Num>::from_str_radix(s, r).map(Y) }
}
impl Sum for Y { fn sum<I: Iterator<Item = Y>>(it: I) -> Y { it.fold(Y(0.0), |a, b| a + b) } }
impl ToPrimitive for Y {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
    fn to_f32(&self) -> Option<f32> { Some(self.0 as f32) }
}
impl NumCast for Y { fn from<T: ToPrimitive>(n: T) -> Option<Y> { n.to_f64().map(Y) } }
impl Signed for Y {
    fn abs(&self) -> Y { o(self.0.abs()) }
    fn abs_sub(&self, r: &Y) -> Y { o(if self.0 <= r.0 { 0.0 } else { self.0 - r.0 }) }
    fn signum(&self) -> Y { o(self.0.signum()) }
    fn is_positive(&self) -> bool { self.0 > 0.0 }
    fn is_negative(&self) -> bool { self.0 < 0.0 }
}
macro_rules! un { ($($m:ident),*) => { $(fn $m(self) -> Self { o(f64::$m(self.0)) })* } }
macro_rules! bi { ($($m:ident),*) => { $(fn $m(self, r: Self) -> Self { o(f64::$m(self.0, r.0)) })* } }
macro_rules! q { ($($m:ident),*) => { $(fn $m(self) -> bool { Float::$m(self.0) })* } }
macro_rules! k { ($($m:ident),*) => { $(fn $m() -> Self { Y(<f64 as Float>::$m()) })* } }
impl Float for Y {
    k!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon);
    q!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan,
        asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    bi!(powf, log, max, min, hypot, atan2);
    fn abs_sub(self, r: Self) -> Self { o(if self.0 <= r.0 { 0.0 } else { self.0 - r.0 }) }
    fn classify(self) -> FpCategory { self.0.classify() }
    fn mul_add(self, a: Self, b: Self) -> Self { o(self.0.mul_add(a.0, b.0)) }
    fn powi(self, n: i32) -> Self { o(self.0.powi(n)) }
    fn sin_cos(self) -> (Self, Self) { let (s, c) = self.0.sin_cos(); (o(s), o(c)) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
}
macro_rules! fc { ($($m:ident),*) => { impl FloatConst for Y { $(#[allow(non_snake_case)] fn $m() -> Self { Y(<f64 as FloatConst>::$m()) })* } } }
fc!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8,
    LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2);
impl fmt::Display for Y { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { pt(); fmt::Display::fmt(&self.0, f) } }
impl fmt::Debug for Y { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
