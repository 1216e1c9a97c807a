//! Copy-only element types and shared helpers of the structural checks.
use crate::model::M;
use std::cell::Cell;

/// A value with no arithmetic at all: only moved around.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tag(pub u32);
impl std::fmt::Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "t{}", self.0)
    }
}
/// a large element
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Wide(pub [u64; 70]);
pub fn wide(x: u64) -> Wide {
    let mut d = [x; 70];
    d[69] = mix(x);
    Wide(d)
}
/// an element aligned to more than the allocator's default
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(align(64))]
pub struct Aligned(pub u64);
/// a matrix of pairwise different tags
pub fn tags(r: usize, c: usize, base: u32) -> M<Tag> {
    M::from_fn(r, c, |i, j| Tag(base + (i * c + j) as u32))
}

thread_local! { static DRAWS: Cell<u64> = const { Cell::new(0) }; }
pub const DRAW_MAGIC: u64 = 0x5EED_0000_0000_0000;
/// A random type whose draws are numbered.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Draw(pub u64);
impl rand::Rand for Draw {
    fn rand<R: rand::Rng>(_: &mut R) -> Draw {
        DRAWS.with(|d| {
            d.set(d.get() + 1);
            Draw(DRAW_MAGIC + d.get())
        })
    }
}
pub fn draws() -> u64 {
    DRAWS.with(|d| d.get())
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// 2x2 matrices over Z/2^64: a ring whose multiplication does not commute, so the order of factors shows.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Nc(pub [u64; 4]);
impl Nc {
    pub fn tag(seed: u64) -> Nc {
        Nc([mix(seed * 4), mix(seed * 4 + 1), mix(seed * 4 + 2), mix(seed * 4 + 3)])
    }
}
impl std::fmt::Debug for Nc {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "<{:x}>", self.0[0])
    }
}
use num::traits::{Num, One, Zero};
use std::ops::*;
impl Add for Nc {
    type Output = Nc;
    fn add(self, o: Nc) -> Nc {
        let mut r = self;
        for i in 0..4 {
            r.0[i] = r.0[i].wrapping_add(o.0[i]);
        }
        r
    }
}
impl Neg for Nc {
    type Output = Nc;
    fn neg(self) -> Nc {
        Nc([0; 4]) - self
    }
}
impl Sub for Nc {
    type Output = Nc;
    fn sub(self, o: Nc) -> Nc {
        let mut r = self;
        for i in 0..4 {
            r.0[i] = r.0[i].wrapping_sub(o.0[i]);
        }
        r
    }
}
impl Mul for Nc {
    type Output = Nc;
    fn mul(self, o: Nc) -> Nc {
        let (a, b) = (self.0, o.0);
        let m = |x: u64, y: u64| x.wrapping_mul(y);
        Nc([
            m(a[0], b[0]).wrapping_add(m(a[1], b[2])),
            m(a[0], b[1]).wrapping_add(m(a[1], b[3])),
            m(a[2], b[0]).wrapping_add(m(a[3], b[2])),
            m(a[2], b[1]).wrapping_add(m(a[3], b[3])),
        ])
    }
}
impl Div for Nc {
    type Output = Nc;
    /// uninterpreted
    fn div(self, o: Nc) -> Nc {
        let h = crate::engine::hash_of(&(self, o, "div"));
        Nc::tag(h >> 3)
    }
}
impl Rem for Nc {
    type Output = Nc;
    fn rem(self, o: Nc) -> Nc {
        let h = crate::engine::hash_of(&(self, o, "rem"));
        Nc::tag(h >> 3)
    }
}
impl Zero for Nc {
    fn zero() -> Nc {
        Nc([0; 4])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
}
impl One for Nc {
    fn one() -> Nc {
        Nc([1, 0, 0, 1])
    }
}
impl Num for Nc {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Nc, ()> {
        Err(())
    }
}
impl AddAssign for Nc { fn add_assign(&mut self, o: Nc) { *self = *self + o } }
impl SubAssign for Nc { fn sub_assign(&mut self, o: Nc) { *self = *self - o } }
impl MulAssign for Nc { fn mul_assign(&mut self, o: Nc) { *self = *self * o } }
impl DivAssign for Nc { fn div_assign(&mut self, o: Nc) { *self = *self / o } }

/// Free terms: every operation is uninterpreted, so only the exact operation on the exact operands in the exact
/// order gives the expected value (and one run decides all element values).
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Fr(pub u64);
impl std::fmt::Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "#{:x}", self.0)
    }
}
fn fr(op: u64, a: u64, b: u64) -> Fr {
    Fr(mix(mix(mix(op) ^ a).wrapping_add(mix(b ^ 0xABCDEF))))
}
impl Add for Fr { type Output = Fr; fn add(self, o: Fr) -> Fr { fr(1, self.0, o.0) } }
impl Sub for Fr { type Output = Fr; fn sub(self, o: Fr) -> Fr { fr(2, self.0, o.0) } }
impl Mul for Fr { type Output = Fr; fn mul(self, o: Fr) -> Fr { fr(3, self.0, o.0) } }
impl Div for Fr { type Output = Fr; fn div(self, o: Fr) -> Fr { fr(4, self.0, o.0) } }
impl Rem for Fr { type Output = Fr; fn rem(self, o: Fr) -> Fr { fr(5, self.0, o.0) } }
impl Neg for Fr { type Output = Fr; fn neg(self) -> Fr { fr(6, self.0, 0) } }
impl AddAssign for Fr { fn add_assign(&mut self, o: Fr) { *self = *self + o } }
impl SubAssign for Fr { fn sub_assign(&mut self, o: Fr) { *self = *self - o } }
impl MulAssign for Fr { fn mul_assign(&mut self, o: Fr) { *self = *self * o } }
impl DivAssign for Fr { fn div_assign(&mut self, o: Fr) { *self = *self / o } }
impl Zero for Fr { fn zero() -> Fr { Fr(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Fr { fn one() -> Fr { Fr(1) } }
impl Num for Fr {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Fr, ()> {
        Err(())
    }
}
/// r x c free terms, all different
pub fn frees(r: usize, c: usize, seed: u64) -> M<Fr> {
    M::from_fn(r, c, |i, j| Fr(mix(seed.wrapping_mul(1 << 32) + (i * c + j) as u64 + 2)))
}

/// floats an implementation might treat specially
pub fn special_f64() -> Vec<f64> {
    vec![
        0.0,
        -0.0,
        1.0,
        -1.0,
        2.0,
        0.5,
        3.7,
        -2.3,
        1e-9,
        -1e-17,
        1e300,
        f64::MAX,
        f64::MIN,
        f64::MIN_POSITIVE,
        -f64::MIN_POSITIVE,
        5e-324,
        f64::EPSILON,
        1.0 + f64::EPSILON,
        9007199254740993.0,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::NAN,
    ]
}
pub fn same_f64(a: &f64, b: &f64) -> bool {
    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
}
/// as same_f64, but the sign of a zero is not compared
pub fn same_f64z(a: &f64, b: &f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b
}
