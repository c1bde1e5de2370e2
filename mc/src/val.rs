//! Every real number type of the crate behind one interface: exact values, and the conversions the crate promises.
use crate::exact::{self, Num};
use crate::fx::Fx;
use crate::prim::Prim;
use std::fmt::{Debug, Display};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Float,
    Int,
    Fixed,
}

pub trait Val: Copy + Debug + Display + PartialEq + PartialOrd + Send + Sync + 'static {
    fn vname() -> String;
    fn kind() -> Kind;
    fn num(self) -> Num;
    /// What the documented conversion of `n`, held by a type of kind `from`, gives; `None`: outside the domain.
    fn conv(n: Num, from: Kind) -> Option<Self>;
    fn same(self, o: Self) -> bool;
    fn digest(self) -> u64;
    /// The value as bits (all NaN alike), and back; two values are the `same` when their bits are.
    fn bits(self) -> u128;
    fn of_bits(b: u128) -> Self;
    fn show_bits(b: u128) -> String {
        format!("{:?}", Self::of_bits(b))
    }
    fn real(self) -> f64;
    /// The value equal to `x`, if there is one.
    fn exact_of(x: f64) -> Option<Self>;
    /// Smallest value first; about 60 to 300 values of the type that differ in every way conversions distinguish.
    fn alphabet() -> Vec<Self>;
    fn signed() -> bool;
    fn max() -> f64;
    fn min() -> f64;
    /// Bits, and fractional bits (of fixed point types).
    fn dims() -> (u32, u32);
}

/// Reals whose images in the various types make up the alphabets.
fn points() -> Vec<f64> {
    let mut p: Vec<f64> = vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 8.0, 10.0, 13.0, 0.5, 0.25, 0.75, 1.5, 2.5, 3.5, 0.1, 0.3, 1.0 / 3.0, 0.6, std::f64::consts::PI, std::f64::consts::E, 2.75, 6.5, 12.5, 31.0, 63.5, 100.0, 100.49, 100.5, 100.51];
    for k in [7, 8, 15, 16, 23, 24, 25, 31, 32, 33, 52, 53, 54, 63, 64, 65, 127, 128] {
        let b = exact::ldexp(1.0, k);
        for d in [0.0, 1.0, -1.0, 0.5, -0.5, 1.5] {
            p.push(b + d);
        }
        p.push(f64::from_bits(b.to_bits() + 1));
        p.push(f64::from_bits(b.to_bits() - 1));
        p.push(b * (1.0 + 1.0 / 16777216.0));
    }
    for k in [-1, -2, -3, -5, -8, -9, -13, -16, -24, -25, -29, -32, -61, -62, -63, -126, -149, -150] {
        let b = exact::ldexp(1.0, k);
        p.extend([b, 1.0 + b, 3.0 * b]);
    }
    p.extend(crate::dict::around());
    p
}

macro_rules! val_int { ($($t:ident)*) => { $(
    impl Val for $t {
        fn vname() -> String { stringify!($t).into() }
        fn kind() -> Kind { Kind::Int }
        #[inline(always)]
        fn num(self) -> Num { self.exact() }
        #[inline(always)]
        fn conv(n: Num, from: Kind) -> Option<Self> {
            match from {
                Kind::Fixed => exact::floor_int(n, 128, true).and_then(|v| <$t>::try_from(v).ok()),
                k => Some(<$t as Prim>::cast(n, k == Kind::Float)),
            }
        }
        #[inline(always)]
        fn same(self, o: Self) -> bool { self == o }
        #[inline(always)]
        fn digest(self) -> u64 { self as u64 }
        #[inline(always)]
        fn bits(self) -> u128 { self as u128 }
        #[inline(always)]
        fn of_bits(b: u128) -> Self { b as $t }
        #[inline(always)]
        fn real(self) -> f64 { self as f64 }
        #[inline(always)]
        fn exact_of(x: f64) -> Option<Self> { <$t as Prim>::exactly(exact::of_f64(x)) }
        fn alphabet() -> Vec<Self> {
            let mut v: Vec<$t> = vec![];
            for p in points() { for s in [p, -p] { v.extend(Self::exact_of(s)); } }
            for k in 0..<$t>::BITS { let b = (1 as $t) << k; for d in [b, b.wrapping_sub(1), b.wrapping_add(1), b.wrapping_neg()] { v.push(d); } }
            v.push(<$t>::MAX); v.push(<$t>::MIN); v.push(<$t>::MAX - 1); v.push(<$t>::MIN + 1);
            v.sort(); v.dedup();
            #[allow(unused_comparisons)]
            v.sort_by_key(|x| if *x < 0 { (*x as i128).unsigned_abs() } else { *x as u128 });
            v
        }
        #[allow(unused_comparisons)]
        fn signed() -> bool { <$t>::MIN < 0 }
        fn max() -> f64 { <$t>::MAX as f64 }
        fn min() -> f64 { <$t>::MIN as f64 }
        fn dims() -> (u32, u32) { ((size_of::<$t>() * 8) as u32, 0) }
    }
)* } }
val_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! val_float { ($($t:ident)*) => { $(
    impl Val for $t {
        fn vname() -> String { stringify!($t).into() }
        fn kind() -> Kind { Kind::Float }
        #[inline(always)]
        fn num(self) -> Num { self.exact() }
        #[inline(always)]
        fn conv(n: Num, _: Kind) -> Option<Self> { Some(<$t as Prim>::cast(n, true)) }
        #[inline(always)]
        fn same(self, o: Self) -> bool { Prim::same(self, o) }
        #[inline(always)]
        fn digest(self) -> u64 { self.to_bits() as u64 }
        #[inline(always)]
        fn bits(self) -> u128 { if self.is_nan() { <$t>::NAN.to_bits() as u128 } else { self.to_bits() as u128 } }
        #[inline(always)]
        fn of_bits(b: u128) -> Self { <$t>::from_bits(b as _) }
        #[inline(always)]
        fn real(self) -> f64 { self as f64 }
        #[inline(always)]
        fn exact_of(x: f64) -> Option<Self> { let y = x as $t; (y as f64 == x).then_some(y) }
        fn alphabet() -> Vec<Self> {
            let mut v: Vec<$t> = vec![];
            for p in points() { v.push(p as $t); v.push(-p as $t); }
            v.extend([<$t>::MAX, <$t>::MIN, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN, <$t>::MIN_POSITIVE, -<$t>::MIN_POSITIVE, <$t>::from_bits(1), f32::MAX as $t, 1e30, -1e30, 1e10]);
            let mut s = std::collections::HashSet::new();
            v.retain(|x| s.insert(x.to_bits()));
            v.sort_by_key(|x| (x.abs().to_bits(), x.is_sign_negative()));
            v
        }
        fn signed() -> bool { true }
        fn max() -> f64 { <$t>::MAX as f64 }
        fn min() -> f64 { <$t>::MIN as f64 }
        fn dims() -> (u32, u32) { ((size_of::<$t>() * 8) as u32, 0) }
    }
)* } }
val_float!(f32 f64);

impl<T: Fx> Val for T {
    fn vname() -> String {
        Self::name()
    }
    fn kind() -> Kind {
        Kind::Fixed
    }
    #[inline(always)]
    fn num(self) -> Num {
        exact::of_raw(self.raw(), Self::FRAC)
    }
    #[inline(always)]
    fn conv(n: Num, _: Kind) -> Option<Self> {
        exact::to_raw(n, Self::FRAC, Self::BITS, Self::SIGNED).map(Self::of)
    }
    #[inline(always)]
    fn same(self, o: Self) -> bool {
        self == o
    }
    #[inline(always)]
    fn digest(self) -> u64 {
        self.raw() as u64
    }
    #[inline(always)]
    fn bits(self) -> u128 {
        self.raw() as u128
    }
    #[inline(always)]
    fn of_bits(b: u128) -> Self {
        Self::of(b as i128)
    }
    #[inline(always)]
    fn real(self) -> f64 {
        self.f()
    }
    #[inline(always)]
    fn exact_of(x: f64) -> Option<Self> {
        Self::near(x).filter(|y| y.f() == x)
    }
    fn alphabet() -> Vec<Self> {
        fx_alphabet(Self::BITS, Self::FRAC, Self::SIGNED).into_iter().map(Self::of).collect()
    }
    fn signed() -> bool {
        Self::SIGNED
    }
    fn max() -> f64 {
        Self::max_f()
    }
    fn min() -> f64 {
        Self::min_f()
    }
    fn dims() -> (u32, u32) {
        (Self::BITS, Self::FRAC)
    }
}

fn fx_alphabet(bits: u32, frac: u32, signed: bool) -> Vec<i128> {
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    let mut s = std::collections::BTreeSet::new();
    for p in points() {
        for q in [p, -p] {
            let r = exact::ldexp(q, frac as i32).round();
            if r.abs() < 1e30 {
                for d in [-1, 0, 1] {
                    s.insert(r as i128 + d);
                }
            }
        }
    }
    for k in 0..bits {
        for d in [-1, 0, 1] {
            s.insert((1i128 << k) + d);
            s.insert(-(1i128 << k) + d);
        }
    }
    let mut v: Vec<i128> = s.into_iter().filter(|r| (lo..=hi).contains(r)).collect();
    v.sort_by_key(|r| (r.unsigned_abs(), *r < 0));
    v
}
