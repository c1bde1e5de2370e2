//! Complex numbers, type-erased: components are bit patterns, a component type is described by a `Ty`.
use crate::exact::ldexp;
use crate::prim::leak;
use crate::val::{Kind, Val};

pub type Bits2 = (u128, u128);
/// An operation on two complex numbers, or on a complex number and whatever the second pair stands for.
pub type Op2 = fn(Bits2, Bits2) -> Bits2;

pub struct Ty {
    pub name: String,
    pub kind: Kind,
    pub w: u32,
    pub frac: u32,
    pub signed: bool,
    pub show: fn(u128) -> String,
}

pub fn ty<T: Val>() -> &'static Ty {
    let (w, frac) = T::dims();
    Box::leak(Box::new(Ty { name: T::vname(), kind: T::kind(), w, frac, signed: T::signed(), show: T::show_bits }))
}

impl Ty {
    /// The integer behind an integer or fixed point value.
    #[inline(always)]
    pub fn raw(&self, b: u128) -> i128 {
        b as i128
    }
    pub fn lo(&self) -> i128 {
        if self.signed { i128::MIN >> (128 - self.w) } else { 0 }
    }
    pub fn hi(&self) -> i128 {
        if self.signed { i128::MAX >> (128 - self.w) } else if self.w >= 127 { i128::MAX } else { (1i128 << self.w) - 1 }
    }
    #[inline(always)]
    pub fn fits(&self, raw: i128) -> bool {
        raw >= self.lo() && raw <= self.hi()
    }
    #[inline(always)]
    pub fn f(&self, b: u128) -> f64 {
        match (self.kind, self.w) {
            (Kind::Float, 32) => f32::from_bits(b as u32) as f64,
            (Kind::Float, _) => f64::from_bits(b as u64),
            _ => b as i128 as f64 * self.ulp(),
        }
    }
    pub fn ulp(&self) -> f64 {
        ldexp(1.0, -(self.frac as i32))
    }
    /// Relative precision of a float.
    pub fn eps(&self) -> f64 {
        if self.w == 32 { f32::EPSILON as f64 } else { f64::EPSILON }
    }
    /// Smallest normal float.
    pub fn tiny(&self) -> f64 {
        if self.w == 32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE }
    }
    pub fn max(&self) -> f64 {
        match (self.kind, self.w) {
            (Kind::Float, 32) => f32::MAX as f64,
            (Kind::Float, _) => f64::MAX,
            _ => self.hi() as f64 * self.ulp(),
        }
    }
    pub fn show2(&self, z: Bits2) -> String {
        format!("({}, {})", (self.show)(z.0), (self.show)(z.1))
    }
    #[inline(always)]
    pub fn f2(&self, z: Bits2) -> (f64, f64) {
        (self.f(z.0), self.f(z.1))
    }
    /// The bits of the value nearest to a real number, if the type has one near.
    pub fn near(&self, x: f64) -> Option<u128> {
        match (self.kind, self.w) {
            (Kind::Float, 32) => Some((x as f32).to_bits() as u128),
            (Kind::Float, _) => Some(x.to_bits() as u128),
            _ => {
                let r = (x / self.ulp()).round();
                (r.abs() < 1e30 && self.fits(r as i128)).then_some(r as i128 as u128)
            }
        }
    }

    /// Component values, most interesting first; the values a component takes are the first `n` of them.
    pub fn parts(&self, n: usize) -> &'static [u128] {
        let mut v: Vec<u128> = vec![];
        if self.kind == Kind::Float {
            let big = if self.w == 32 { 1e17 } else { 1e150 };
            for x in [0.0, 1.0, -1.0, 0.7, -2.5, 3.0, -0.1, 1e-5, big / 3.0, 1.0 / big, -1000.0, -0.0, 0.5, -1.0 / 3.0, 7.25, 1e6 / 7.0, -big / 7.0, 2.0, -3.0 / big, 1.0000001, -12345.678, 3.0e-3, 65536.0, -0.999999, 1e9, -5.0, 11.0, -13.5, 0.0625, 100.1] {
                v.push(self.near(x).unwrap());
            }
        } else {
            let mut add = |x: Option<u128>| {
                if let Some(x) = x {
                    if !v.contains(&x) && self.fits(x as i128) {
                        v.push(x)
                    }
                }
            };
            let (lo, hi) = (self.lo(), self.hi());
            let root = ((hi as f64) * ldexp(1.0, self.frac as i32)).sqrt() as i128; // its square is about the maximum
            for x in [0.0, 1.0, -1.0, 2.0, -2.5, 0.5] {
                add(self.near(x));
            }
            for r in [1, -1, hi, lo, root - 1, -root / 2, 3, -7] {
                add(Some(r as u128));
            }
            for x in [-0.3, 3.0, 0.7, -5.0, 1.5, 10.0, -13.0, 0.01, 100.0, -1000.0, 7.0] {
                add(self.near(x));
            }
            for r in [lo + 1, hi - 1, hi / 3, -hi / 2, 85, -100, root / 3, -root + 2, hi / 7 * 2, 12345, -12345, 19, -23, 37, 53] {
                add(Some(r as u128));
            }
        }
        v.truncate(n);
        // Constants that are new in the code, some.
        let mut some = 0;
        for x in crate::dict::novel().iter().take(3) {
            for y in [*x, x * 1.0625, -x, x.sqrt() * 1.0625] {
                if let Some(y) = self.near(y).filter(|y| !v.contains(y) && some < 8) {
                    v.push(y);
                    some += 1;
                }
            }
        }
        leak(v)
    }
}

impl Ty {
    /// The parts, and what only floats have: infinities, NaN, the limits and subnormal numbers.
    pub fn parts_and_extremes(&self, n: usize) -> &'static [u128] {
        let mut v = self.parts(n).to_vec();
        if self.kind == Kind::Float {
            let grain = self.tiny() * self.eps();
            for x in [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, self.max(), -self.max(), self.tiny(), -grain, grain * 12345.0] {
                v.push(self.near(x).unwrap());
            }
        }
        leak(v)
    }
    /// A result of a component-wise operation whose exact value is `exact` (in double precision).
    /// `Some(true)`: it has to be within the rounding of the format; `Some(false)`: it has to be the infinity or NaN that
    /// `exact` is, `None`: it is at the limit of the format.
    pub fn finite(&self, exact: f64) -> Option<bool> {
        if exact.abs() < self.max() / 2.0 {
            Some(true)
        } else if exact.is_nan() || exact.is_infinite() || exact.abs() / 2.0 > self.max() {
            Some(false)
        } else {
            None
        }
    }
    pub fn same_special(&self, got: u128, exact: f64) -> bool {
        let g = self.f(got);
        if exact.is_nan() { g.is_nan() } else { g.is_infinite() && (g > 0.0) == (exact > 0.0) }
    }
}

/// Splits a state number into four digits of base `n`.
#[inline(always)]
pub fn quad(mut i: u64, v: &[u128]) -> (Bits2, Bits2) {
    let n = v.len() as u64;
    let mut d = [0u128; 4];
    for x in &mut d {
        *x = v[(i % n) as usize];
        i /= n;
    }
    ((d[0], d[1]), (d[2], d[3]))
}

/// Verdict on one observation.
pub enum Verdict {
    Skip,
    /// Largest error over tolerance.
    Fits(f64),
    Bad(String),
}

impl Ty {
    /// a ± b, if the type can hold it (floats: rounded as the format prescribes).
    #[inline(always)]
    pub fn sum(&self, a: u128, b: u128, minus: bool) -> Option<u128> {
        match (self.kind, self.w) {
            (Kind::Float, 32) => {
                let (x, y) = (self.f(a), self.f(b));
                Some(((if minus { x - y } else { x + y }) as f32).to_bits() as u128)
            }
            (Kind::Float, _) => {
                let (x, y) = (self.f(a), self.f(b));
                Some((if minus { x - y } else { x + y }).to_bits() as u128)
            }
            (_, 128) if !self.signed => if minus { a.checked_sub(b) } else { a.checked_add(b) },
            _ => {
                let (x, y) = (a as i128, b as i128);
                (if minus { x.checked_sub(y) } else { x.checked_add(y) }).filter(|r| self.fits(*r)).map(|r| r as u128)
            }
        }
    }
    /// The same number; the sign of zero does not matter.
    #[inline(always)]
    pub fn eq(&self, a: u128, b: u128) -> bool {
        a == b || self.kind == Kind::Float && (self.f(a) == self.f(b) || self.f(a).is_nan() && self.f(b).is_nan())
    }
}

/// Number of complex operands a value set of this size gives: all pairs of pairs.
pub fn quads(v: &[u128]) -> u64 {
    (v.len() as u64).pow(4)
}

/// Scalars of another type: their bits and what they become in the component type.
pub struct Scalars {
    pub from: String,
    pub bits: &'static [u128],
    pub conv: &'static [Option<u128>],
    pub show: fn(u128) -> String,
}
pub fn scalars<A: Val, T: Val>(most: usize) -> Scalars {
    scalars_of(ty::<A>(), most, |b| {
        let x = A::of_bits(b);
        T::conv(x.num(), A::kind()).map(|y| y.bits())
    })
}
fn scalars_of(t: &Ty, most: usize, conv: fn(u128) -> Option<u128>) -> Scalars {
    let bits = t.parts_and_extremes(most);
    Scalars { from: t.name.clone(), bits, conv: leak(bits.iter().map(|b| conv(*b)).collect()), show: t.show }
}

/// Calls a macro with the primitive types.
#[macro_export]
macro_rules! every_prim { ($m:ident! ($($p:tt)*)) => { $m!{ $($p)* ; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 } } }
#[macro_export]
macro_rules! signed_prim { ($m:ident! ($($p:tt)*)) => { $m!{ $($p)* ; i8 i16 i32 i64 i128 isize f32 f64 } } }
#[macro_export]
macro_rules! signed_int { ($m:ident! ($($p:tt)*)) => { $m!{ $($p)* ; i8 i16 i32 i64 i128 isize } } }

impl Ty {
    /// How far the sine and cosine of an angle may be off: the iterations', and what wrapping loses per turn.
    pub fn trig_err(&self, ang: f64) -> f64 {
        use std::f64::consts::PI;
        if self.kind == Kind::Float {
            return self.eps() * (4.0 + 2.0 * ang.abs());
        }
        let turns = ((ang.abs() + PI) / (2.0 * PI)).floor();
        // The oracle gets the angle rounded to double precision.
        (32.0 + 3.0 * turns) * self.ulp() + 6e-16 + ang.abs() * f64::EPSILON
    }
    /// Absolute resolution of results: a unit in the last place, or the smallest float.
    pub fn grain(&self) -> f64 {
        if self.kind == Kind::Float { self.tiny() * self.eps() * 4.0 } else { self.ulp() }
    }
    pub fn close(&self, got: Bits2, want: (f64, f64), tol: (f64, f64)) -> Result<f64, ()> {
        let e = |g: u128, w: f64, t: f64| {
            let d = (self.f(g) - w).abs();
            if d <= t { Ok(if t > 0.0 { d / t } else { 0.0 }) } else { Err(()) }
        };
        Ok(e(got.0, want.0, tol.0)?.max(e(got.1, want.1, tol.1)?))
    }
    /// a·b·2^frac for fixed point and integers.
    #[inline(always)]
    pub fn prod(&self, a: u128, b: u128) -> Option<i128> {
        (a as i128).checked_mul(b as i128)
    }
    /// Whether a product held with twice the fractional bits is representable, as is its negative.
    #[inline(always)]
    pub fn holds(&self, p: i128) -> bool {
        (p.unsigned_abs() >> self.frac) < self.hi() as u128
    }
}

pub fn dig(z: Bits2) -> u64 {
    (z.0 ^ z.1.rotate_left(13)) as u64
}
impl Ty {
    /// Relative rounding of floats; fixed point rounds absolutely, and comparisons are in double precision.
    pub fn eps_of(&self) -> f64 {
        if self.kind == Kind::Float { self.eps() } else { 1e-15 }
    }
}
