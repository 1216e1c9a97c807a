//! Scalar types the real generic code is instantiated with.
//!  * `C64`/`C32`: f64/f32 that count every operation (step budget, fault injection, scheduling points)
//!  * `Q`: exact rational arithmetic (LU, determinant, solve, Cholesky become exactly decidable)
//!  * `Gf<P>`: the prime field with P elements (finite state space for operation histories)
//!  * `Poly`: elements of Z[x0,x1,...] (one run per shape decides the ring identity for all values)
use la::ApproxEq;
use num::traits::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

// ---------------------------------------------------------------- step hook
thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}
pub const BUDGET_MSG: &str = "scalar step budget exhausted";
#[inline]
pub fn tick() {
    OPS.with(|o| {
        let n = o.get() + 1;
        o.set(n);
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            panic!("{}", BUDGET_MSG);
        }
    });
    if let Some(h) = HOOK.with(|h| h.get()) {
        h()
    }
}
/// Reset the counter; the (limit+1)-th scalar operation panics.
pub fn set_budget(limit: u64) {
    OPS.with(|o| o.set(0));
    LIMIT.with(|l| l.set(limit));
}
pub fn clear_budget() -> u64 {
    LIMIT.with(|l| l.set(u64::MAX));
    OPS.with(|o| o.get())
}
pub fn ops() -> u64 {
    OPS.with(|o| o.get())
}
pub fn set_hook(h: Option<fn()>) {
    HOOK.with(|c| c.set(h))
}

macro_rules! assign_ops {
    ([$($g:tt)*] $T:ty) => {
        impl<$($g)*> AddAssign for $T { #[inline] fn add_assign(&mut self, o: Self) { *self = *self + o } }
        impl<$($g)*> SubAssign for $T { #[inline] fn sub_assign(&mut self, o: Self) { *self = *self - o } }
        impl<$($g)*> MulAssign for $T { #[inline] fn mul_assign(&mut self, o: Self) { *self = *self * o } }
        impl<$($g)*> DivAssign for $T { #[inline] fn div_assign(&mut self, o: Self) { *self = *self / o } }
        impl<$($g)*> RemAssign for $T { #[inline] fn rem_assign(&mut self, o: Self) { *self = *self % o } }
        impl<$($g)*> std::iter::Sum for $T { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
        impl<$($g)*> std::iter::Product for $T { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
    };
}

// ---------------------------------------------------------------- counting floats
macro_rules! counting {
    ($N:ident, $F:ident) => {
        #[derive(Clone, Copy, Default)]
        pub struct $N(pub $F);
        impl fmt::Debug for $N {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                tick();
                fmt::Debug::fmt(&self.0, f)
            }
        }
        impl fmt::Display for $N {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                tick();
                fmt::Display::fmt(&self.0, f)
            }
        }
        impl PartialEq for $N {
            #[inline]
            fn eq(&self, o: &Self) -> bool {
                tick();
                self.0 == o.0
            }
        }
        impl PartialOrd for $N {
            #[inline]
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                tick();
                self.0.partial_cmp(&o.0)
            }
            #[inline]
            fn lt(&self, o: &Self) -> bool {
                tick();
                self.0 < o.0
            }
            #[inline]
            fn le(&self, o: &Self) -> bool {
                tick();
                self.0 <= o.0
            }
            #[inline]
            fn gt(&self, o: &Self) -> bool {
                tick();
                self.0 > o.0
            }
            #[inline]
            fn ge(&self, o: &Self) -> bool {
                tick();
                self.0 >= o.0
            }
        }
        impl Add for $N { type Output = $N; #[inline] fn add(self, o: Self) -> Self { tick(); $N(self.0 + o.0) } }
        impl Sub for $N { type Output = $N; #[inline] fn sub(self, o: Self) -> Self { tick(); $N(self.0 - o.0) } }
        impl Mul for $N { type Output = $N; #[inline] fn mul(self, o: Self) -> Self { tick(); $N(self.0 * o.0) } }
        impl Div for $N { type Output = $N; #[inline] fn div(self, o: Self) -> Self { tick(); $N(self.0 / o.0) } }
        impl Rem for $N { type Output = $N; #[inline] fn rem(self, o: Self) -> Self { tick(); $N(self.0 % o.0) } }
        impl Neg for $N { type Output = $N; #[inline] fn neg(self) -> Self { tick(); $N(-self.0) } }
        assign_ops!([] $N);
        impl Zero for $N { #[inline] fn zero() -> Self { tick(); $N(0.0) } #[inline] fn is_zero(&self) -> bool { tick(); self.0 == 0.0 } }
        impl One for $N { #[inline] fn one() -> Self { tick(); $N(1.0) } }
        impl Num for $N {
            type FromStrRadixErr = String;
            fn from_str_radix(s: &str, _: u32) -> Result<Self, String> { s.parse().map($N).map_err(|_| "parse".to_string()) }
        }
        impl ToPrimitive for $N {
            fn to_i64(&self) -> Option<i64> { ToPrimitive::to_i64(&self.0) }
            fn to_u64(&self) -> Option<u64> { ToPrimitive::to_u64(&self.0) }
            fn to_f64(&self) -> Option<f64> { ToPrimitive::to_f64(&self.0) }
            fn to_f32(&self) -> Option<f32> { ToPrimitive::to_f32(&self.0) }
        }
        impl num::traits::FromPrimitive for $N {
            fn from_i64(x: i64) -> Option<Self> { Some($N(x as $F)) }
            fn from_u64(x: u64) -> Option<Self> { Some($N(x as $F)) }
            fn from_f64(x: f64) -> Option<Self> { Some($N(x as $F)) }
        }
        impl NumCast for $N { fn from<T: ToPrimitive>(n: T) -> Option<Self> { tick(); <$F as NumCast>::from(n).map($N) } }
        impl num::traits::Bounded for $N { fn min_value() -> Self { $N($F::MIN) } fn max_value() -> Self { $N($F::MAX) } }
        impl Signed for $N {
            fn abs(&self) -> Self { tick(); $N(self.0.abs()) }
            fn abs_sub(&self, o: &Self) -> Self { tick(); if self.0 <= o.0 { $N(0.0) } else { $N(self.0 - o.0) } }
            fn signum(&self) -> Self { tick(); $N(self.0.signum()) }
            fn is_positive(&self) -> bool { tick(); Signed::is_positive(&self.0) }
            fn is_negative(&self) -> bool { tick(); Signed::is_negative(&self.0) }
        }
        impl ApproxEq<$N> for $N {
            fn approx_epsilon() -> $N { tick(); $N(<$F as ApproxEq<$F>>::approx_epsilon()) }
            fn approx_eq(&self, o: &$N) -> bool { tick(); self.0.approx_eq(&o.0) }
            fn approx_eq_eps(&self, o: &$N, e: &$N) -> bool { tick(); self.0.approx_eq_eps(&o.0, &e.0) }
        }
        impl rand::Rand for $N { fn rand<R: rand::Rng>(r: &mut R) -> Self { $N(<$F as rand::Rand>::rand(r)) } }
        impl Float for $N {
            fn nan() -> Self { $N($F::NAN) }
            fn infinity() -> Self { $N($F::INFINITY) }
            fn neg_infinity() -> Self { $N($F::NEG_INFINITY) }
            fn neg_zero() -> Self { $N(-0.0) }
            fn min_value() -> Self { $N($F::MIN) }
            fn min_positive_value() -> Self { tick(); $N($F::MIN_POSITIVE) }
            fn epsilon() -> Self { tick(); $N($F::EPSILON) }
            fn max_value() -> Self { $N($F::MAX) }
            fn is_nan(self) -> bool { tick(); self.0.is_nan() }
            fn is_infinite(self) -> bool { tick(); self.0.is_infinite() }
            fn is_finite(self) -> bool { tick(); self.0.is_finite() }
            fn is_normal(self) -> bool { tick(); self.0.is_normal() }
            fn classify(self) -> FpCategory { tick(); self.0.classify() }
            fn floor(self) -> Self { tick(); $N(self.0.floor()) }
            fn ceil(self) -> Self { tick(); $N(self.0.ceil()) }
            fn round(self) -> Self { tick(); $N(self.0.round()) }
            fn trunc(self) -> Self { tick(); $N(self.0.trunc()) }
            fn fract(self) -> Self { tick(); $N(self.0.fract()) }
            fn abs(self) -> Self { tick(); $N(self.0.abs()) }
            fn signum(self) -> Self { tick(); $N(self.0.signum()) }
            fn is_sign_positive(self) -> bool { tick(); self.0.is_sign_positive() }
            fn is_sign_negative(self) -> bool { tick(); self.0.is_sign_negative() }
            fn mul_add(self, a: Self, b: Self) -> Self { tick(); $N(self.0.mul_add(a.0, b.0)) }
            fn recip(self) -> Self { tick(); $N(self.0.recip()) }
            fn powi(self, n: i32) -> Self { tick(); $N(self.0.powi(n)) }
            fn powf(self, n: Self) -> Self { tick(); $N(self.0.powf(n.0)) }
            fn sqrt(self) -> Self { tick(); $N(self.0.sqrt()) }
            fn exp(self) -> Self { tick(); $N(self.0.exp()) }
            fn exp2(self) -> Self { tick(); $N(self.0.exp2()) }
            fn ln(self) -> Self { tick(); $N(self.0.ln()) }
            fn log(self, b: Self) -> Self { tick(); $N(self.0.log(b.0)) }
            fn log2(self) -> Self { tick(); $N(self.0.log2()) }
            fn log10(self) -> Self { tick(); $N(self.0.log10()) }
            fn max(self, o: Self) -> Self { tick(); $N(self.0.max(o.0)) }
            fn min(self, o: Self) -> Self { tick(); $N(self.0.min(o.0)) }
            fn abs_sub(self, o: Self) -> Self { tick(); if self.0 <= o.0 { $N(0.0) } else { $N(self.0 - o.0) } }
            fn cbrt(self) -> Self { tick(); $N(self.0.cbrt()) }
            fn hypot(self, o: Self) -> Self { tick(); $N(self.0.hypot(o.0)) }
            fn sin(self) -> Self { tick(); $N(self.0.sin()) }
            fn cos(self) -> Self { tick(); $N(self.0.cos()) }
            fn tan(self) -> Self { tick(); $N(self.0.tan()) }
            fn asin(self) -> Self { tick(); $N(self.0.asin()) }
            fn acos(self) -> Self { tick(); $N(self.0.acos()) }
            fn atan(self) -> Self { tick(); $N(self.0.atan()) }
            fn atan2(self, o: Self) -> Self { tick(); $N(self.0.atan2(o.0)) }
            fn sin_cos(self) -> (Self, Self) { tick(); let (a, b) = self.0.sin_cos(); ($N(a), $N(b)) }
            fn exp_m1(self) -> Self { tick(); $N(self.0.exp_m1()) }
            fn ln_1p(self) -> Self { tick(); $N(self.0.ln_1p()) }
            fn sinh(self) -> Self { tick(); $N(self.0.sinh()) }
            fn cosh(self) -> Self { tick(); $N(self.0.cosh()) }
            fn tanh(self) -> Self { tick(); $N(self.0.tanh()) }
            fn asinh(self) -> Self { tick(); $N(self.0.asinh()) }
            fn acosh(self) -> Self { tick(); $N(self.0.acosh()) }
            fn atanh(self) -> Self { tick(); $N(self.0.atanh()) }
            fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
        }
    };
}
counting!(C64, f64);
counting!(C32, f32);

// ---------------------------------------------------------------- exact rationals
/// n/d in lowest terms, d > 0, both in i64 range (checked; overflow aborts the case as inconclusive).
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: i64,
    pub d: i64,
}
pub const Q_OVERFLOW: &str = "Q: rational overflow";
pub const Q_IRRATIONAL: &str = "Q: irrational square root";
fn gcd(mut a: u128, mut b: u128) -> u128 {
    if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
        let (mut x, mut y) = (a as u64, b as u64);
        while y != 0 {
            let t = x % y;
            x = y;
            y = t;
        }
        return x as u128;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        if d == 0 {
            panic!("Q: division by zero");
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()).max(1) as i128;
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        if n.unsigned_abs() > i64::MAX as u128 || d > i64::MAX as i128 {
            panic!("{}", Q_OVERFLOW);
        }
        Q { n: n as i64, d: d as i64 }
    }
    pub fn int(n: i64) -> Q {
        Q { n, d: 1 }
    }
    pub fn f(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// exact conversion of a dyadic float
    pub fn from_float(x: f64) -> Q {
        let mut d: i64 = 1;
        let mut y = x;
        while y != y.trunc() {
            y *= 2.0;
            d = d.checked_mul(2).unwrap_or_else(|| panic!("{}", Q_OVERFLOW));
        }
        if y.abs() > 9e18 {
            panic!("{}", Q_OVERFLOW);
        }
        Q::new(y as i128, d as i128)
    }
}
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for Q {
    fn default() -> Self {
        Q::int(0)
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        (self.n as i128 * o.d as i128).partial_cmp(&(o.n as i128 * self.d as i128))
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        if self.d == 1 && o.d == 1 {
            if let Some(n) = self.n.checked_add(o.n) {
                if n != i64::MIN {
                    return Q { n, d: 1 };
                }
            }
        }
        let (a, b, c, d) = (self.n as i128, self.d as i128, o.n as i128, o.d as i128);
        Q::new(qadd(qmul(a, d), qmul(c, b)), b * d)
    }
}
fn qmul(a: i128, b: i128) -> i128 {
    a.checked_mul(b).unwrap_or_else(|| panic!("{}", Q_OVERFLOW))
}
fn qadd(a: i128, b: i128) -> i128 {
    a.checked_add(b).unwrap_or_else(|| panic!("{}", Q_OVERFLOW))
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + (-o)
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        Q::new(self.n as i128 * o.n as i128, self.d as i128 * o.d as i128)
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        Q::new(self.n as i128 * o.d as i128, self.d as i128 * o.n as i128)
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, o: Q) -> Q {
        let q = self / o;
        let t = Q::int(q.n / q.d);
        self - t * o
    }
}
assign_ops!([] Q);
impl Zero for Q {
    fn zero() -> Q {
        Q::int(0)
    }
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q::int(1)
    }
}
impl Num for Q {
    type FromStrRadixErr = String;
    fn from_str_radix(s: &str, r: u32) -> Result<Q, String> {
        i64::from_str_radix(s, r).map(Q::int).map_err(|_| "parse".to_string())
    }
}
impl ToPrimitive for Q {
    fn to_i64(&self) -> Option<i64> {
        Some(self.n / self.d)
    }
    fn to_u64(&self) -> Option<u64> {
        ToPrimitive::to_u64(&(self.n / self.d))
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.f())
    }
}
impl num::traits::FromPrimitive for Q {
    fn from_i64(x: i64) -> Option<Self> {
        Some(Q::int(x))
    }
    fn from_u64(x: u64) -> Option<Self> {
        Some(Q::int(x as i64))
    }
    fn from_f64(x: f64) -> Option<Self> {
        Some(Q::from_float(x))
    }
}
impl NumCast for Q {
    fn from<T: ToPrimitive>(n: T) -> Option<Q> {
        n.to_f64().map(Q::from_float)
    }
}
impl Signed for Q {
    fn abs(&self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    fn abs_sub(&self, o: &Q) -> Q {
        if *self <= *o {
            Q::int(0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Q {
        Q::int(self.n.signum())
    }
    fn is_positive(&self) -> bool {
        self.n > 0
    }
    fn is_negative(&self) -> bool {
        self.n < 0
    }
}
impl ApproxEq<Q> for Q {
    fn approx_epsilon() -> Q {
        Q::new(1, 1_000_000)
    }
    fn approx_eq(&self, o: &Q) -> bool {
        self.approx_eq_eps(o, &Q::new(1, 1_000_000))
    }
    fn approx_eq_eps(&self, o: &Q, e: &Q) -> bool {
        Signed::abs(&(*self - *o)) < *e
    }
}
fn isqrt(n: i64) -> Option<i64> {
    let mut r = (n as f64).sqrt() as i64;
    while r > 0 && (r as i128) * (r as i128) > n as i128 {
        r -= 1;
    }
    while ((r + 1) as i128) * ((r + 1) as i128) <= n as i128 {
        r += 1;
    }
    if r as i128 * r as i128 == n as i128 {
        Some(r)
    } else {
        None
    }
}
macro_rules! q_unsupported {
    ($($n:ident($($a:ident : $t:ty),*) -> $r:ty;)*) => { $( fn $n(self $(, $a: $t)*) -> $r { $(let _ = $a;)* panic!("Q: unsupported {}", stringify!($n)) } )* };
}
impl Float for Q {
    fn nan() -> Q { panic!("Q: unsupported nan") }
    fn infinity() -> Q { panic!("Q: unsupported infinity") }
    fn neg_infinity() -> Q { panic!("Q: unsupported infinity") }
    fn neg_zero() -> Q { Q::int(0) }
    fn min_value() -> Q { Q::int(-i64::MAX) }
    fn max_value() -> Q { Q::int(i64::MAX) }
    fn min_positive_value() -> Q { Q { n: 1, d: i64::MAX } }
    fn epsilon() -> Q { Q { n: 1, d: 1 << 52 } }
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { self.n != 0 }
    fn classify(self) -> FpCategory { if self.n == 0 { FpCategory::Zero } else { FpCategory::Normal } }
    fn floor(self) -> Q { Q::int(self.n.div_euclid(self.d)) }
    fn ceil(self) -> Q { -((-self).floor()) }
    fn trunc(self) -> Q { Q::int(self.n / self.d) }
    fn fract(self) -> Q { self - Float::trunc(self) }
    fn abs(self) -> Q { Q { n: self.n.abs(), d: self.d } }
    fn signum(self) -> Q { Q::int(self.n.signum()) }
    fn is_sign_positive(self) -> bool { self.n >= 0 }
    fn is_sign_negative(self) -> bool { self.n < 0 }
    fn mul_add(self, a: Q, b: Q) -> Q { self * a + b }
    fn recip(self) -> Q { Q::int(1) / self }
    fn powi(self, n: i32) -> Q {
        let mut r = Q::int(1);
        for _ in 0..n.abs() { r = r * self; }
        if n < 0 { Q::int(1) / r } else { r }
    }
    fn sqrt(self) -> Q {
        if self.n < 0 { panic!("Q: square root of a negative number") }
        match (isqrt(self.n), isqrt(self.d)) {
            (Some(a), Some(b)) => Q { n: a, d: b },
            _ => panic!("{}", Q_IRRATIONAL),
        }
    }
    fn max(self, o: Q) -> Q { if self >= o { self } else { o } }
    fn min(self, o: Q) -> Q { if self <= o { self } else { o } }
    fn abs_sub(self, o: Q) -> Q { Signed::abs_sub(&self, &o) }
    fn hypot(self, o: Q) -> Q { Float::sqrt(self * self + o * o) }
    fn sin_cos(self) -> (Q, Q) { panic!("Q: unsupported") }
    fn integer_decode(self) -> (u64, i16, i8) { panic!("Q: unsupported") }
    q_unsupported! {
        round() -> Q; powf(a: Q) -> Q; exp() -> Q; exp2() -> Q; ln() -> Q; log(a: Q) -> Q; log2() -> Q; log10() -> Q;
        cbrt() -> Q; sin() -> Q; cos() -> Q; tan() -> Q; asin() -> Q; acos() -> Q; atan() -> Q; atan2(a: Q) -> Q;
        exp_m1() -> Q; ln_1p() -> Q; sinh() -> Q; cosh() -> Q; tanh() -> Q; asinh() -> Q; acosh() -> Q; atanh() -> Q;
    }
}
/// Did an attempt end because the exact arithmetic of the harness could not represent a value?
pub fn q_inconclusive(msg: &str) -> bool {
    msg.contains("Q: rational overflow") || msg.contains("Q: irrational") || msg.contains("Q: unsupported")
}

// ---------------------------------------------------------------- prime field
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Gf<const P: u8>(pub u8);
impl<const P: u8> fmt::Debug for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u8> Gf<P> {
    pub fn inv(self) -> Self {
        if self.0 == 0 {
            panic!("Gf: division by zero");
        }
        for x in 1..P {
            if (x as u32 * self.0 as u32) % P as u32 == 1 {
                return Gf(x);
            }
        }
        panic!("Gf: value out of the field");
    }
    fn ck(self) -> u32 {
        if self.0 >= P {
            panic!("Gf: value out of the field (uninitialised memory)");
        }
        self.0 as u32
    }
}
impl<const P: u8> Add for Gf<P> { type Output = Self; fn add(self, o: Self) -> Self { tick(); Gf(((self.ck() + o.ck()) % P as u32) as u8) } }
impl<const P: u8> Sub for Gf<P> { type Output = Self; fn sub(self, o: Self) -> Self { tick(); Gf(((self.ck() + P as u32 - o.ck()) % P as u32) as u8) } }
impl<const P: u8> Mul for Gf<P> { type Output = Self; fn mul(self, o: Self) -> Self { tick(); Gf(((self.ck() * o.ck()) % P as u32) as u8) } }
impl<const P: u8> Div for Gf<P> { type Output = Self; fn div(self, o: Self) -> Self { tick(); self * o.inv() } }
impl<const P: u8> Rem for Gf<P> { type Output = Self; fn rem(self, o: Self) -> Self { tick(); let _ = o.inv(); Gf(0) } }
impl<const P: u8> Neg for Gf<P> { type Output = Self; fn neg(self) -> Self { tick(); Gf(((P as u32 - self.ck()) % P as u32) as u8) } }
assign_ops!([const P: u8] Gf<P>);
impl<const P: u8> Zero for Gf<P> { fn zero() -> Self { Gf(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u8> One for Gf<P> { fn one() -> Self { Gf(1 % P) } }
impl<const P: u8> Num for Gf<P> {
    type FromStrRadixErr = String;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, String> {
        u64::from_str_radix(s, r).map(|x| Gf((x % P as u64) as u8)).map_err(|_| "parse".to_string())
    }
}

// ---------------------------------------------------------------- polynomials Z[x0..]
type Mono = Vec<u16>; // sorted variable list
type Terms = Vec<(Mono, i64)>; // sorted by monomial, no zero coefficient
#[derive(Default)]
struct Arena {
    polys: Vec<Terms>,
    index: HashMap<Terms, u32>,
    divs: HashMap<(u32, u32), u16>,
    nvars: u16,
}
thread_local! { static ARENA: RefCell<Arena> = RefCell::new(Arena::default()); }
/// Handle of a hash-consed polynomial; equality of handles is equality of polynomials.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Poly(pub u32);
impl Poly {
    pub fn reset() {
        ARENA.with(|a| {
            let mut a = a.borrow_mut();
            *a = Arena::default();
            a.polys.push(vec![]);
            a.index.insert(vec![], 0);
            let one = vec![(vec![], 1)];
            a.polys.push(one.clone());
            a.index.insert(one, 1);
        })
    }
    fn mk(t: Terms) -> Poly {
        ARENA.with(|a| {
            let mut a = a.borrow_mut();
            if let Some(&i) = a.index.get(&t) {
                return Poly(i);
            }
            let i = a.polys.len() as u32;
            a.polys.push(t.clone());
            a.index.insert(t, i);
            Poly(i)
        })
    }
    fn terms(self) -> Terms {
        ARENA.with(|a| match a.borrow().polys.get(self.0 as usize) {
            Some(t) => t.clone(),
            None => panic!("Poly: use of uninitialised memory"),
        })
    }
    pub fn var() -> Poly {
        let v = ARENA.with(|a| {
            let mut a = a.borrow_mut();
            a.nvars += 1;
            a.nvars - 1
        });
        Poly::mk(vec![(vec![v], 1)])
    }
    pub fn int(n: i64) -> Poly {
        if n == 0 {
            Poly::mk(vec![])
        } else {
            Poly::mk(vec![(vec![], n)])
        }
    }
}
impl fmt::Debug for Poly {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let t = ARENA.with(|a| a.borrow().polys.get(self.0 as usize).cloned());
        match t {
            None => write!(f, "<uninit>"),
            Some(t) if t.is_empty() => write!(f, "0"),
            Some(t) => {
                for (i, (m, c)) in t.iter().enumerate() {
                    if i > 0 {
                        write!(f, "+")?;
                    }
                    write!(f, "{}", c)?;
                    for v in m {
                        write!(f, "*x{}", v)?;
                    }
                }
                Ok(())
            }
        }
    }
}
impl Default for Poly {
    fn default() -> Self {
        Poly(0)
    }
}
impl Add for Poly {
    type Output = Poly;
    fn add(self, o: Poly) -> Poly {
        let (a, b) = (self.terms(), o.terms());
        let mut r: Terms = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            let ord = if i == a.len() {
                Ordering::Greater
            } else if j == b.len() {
                Ordering::Less
            } else {
                a[i].0.cmp(&b[j].0)
            };
            match ord {
                Ordering::Less => {
                    r.push(a[i].clone());
                    i += 1
                }
                Ordering::Greater => {
                    r.push(b[j].clone());
                    j += 1
                }
                Ordering::Equal => {
                    let c = a[i].1 + b[j].1;
                    if c != 0 {
                        r.push((a[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        Poly::mk(r)
    }
}
impl Neg for Poly {
    type Output = Poly;
    fn neg(self) -> Poly {
        Poly::mk(self.terms().into_iter().map(|(m, c)| (m, -c)).collect())
    }
}
impl Sub for Poly {
    type Output = Poly;
    fn sub(self, o: Poly) -> Poly {
        self + (-o)
    }
}
impl Mul for Poly {
    type Output = Poly;
    fn mul(self, o: Poly) -> Poly {
        let (a, b) = (self.terms(), o.terms());
        let mut m: std::collections::BTreeMap<Mono, i64> = Default::default();
        for (x, c) in &a {
            for (y, d) in &b {
                let mut k = x.clone();
                k.extend(y);
                k.sort();
                *m.entry(k).or_insert(0) += c * d;
            }
        }
        Poly::mk(m.into_iter().filter(|x| x.1 != 0).collect())
    }
}
impl Div for Poly {
    type Output = Poly;
    /// uninterpreted: a/b is one fresh variable per (a,b)
    fn div(self, o: Poly) -> Poly {
        self.terms();
        o.terms();
        let v = ARENA.with(|a| {
            let mut a = a.borrow_mut();
            if let Some(&v) = a.divs.get(&(self.0, o.0)) {
                return v;
            }
            let v = a.nvars;
            a.nvars += 1;
            a.divs.insert((self.0, o.0), v);
            v
        });
        Poly::mk(vec![(vec![v], 1)])
    }
}
impl Rem for Poly {
    type Output = Poly;
    fn rem(self, _: Poly) -> Poly {
        panic!("Poly: rem")
    }
}
assign_ops!([] Poly);
impl Zero for Poly {
    fn zero() -> Poly {
        Poly::int(0)
    }
    fn is_zero(&self) -> bool {
        self.terms().is_empty()
    }
}
impl One for Poly {
    fn one() -> Poly {
        Poly::int(1)
    }
}
impl Num for Poly {
    type FromStrRadixErr = String;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, String> {
        i64::from_str_radix(s, r).map(Poly::int).map_err(|_| "parse".to_string())
    }
}
