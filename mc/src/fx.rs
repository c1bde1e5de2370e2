//! Uniform access to the fixed-point types the crate supports.
use mixed_num::*;
use std::fmt;

pub trait Fx: Copy + PartialOrd + fmt::Debug + fmt::Display + Send + Sync + 'static {
    const FRAC: u32;
    const BITS: u32;
    const SIGNED: bool;
    fn of(raw: i128) -> Self;
    fn raw(self) -> i128;
    fn name() -> String {
        format!("{}{}F{}", if Self::SIGNED { "I" } else { "U" }, Self::BITS, Self::FRAC)
    }
    fn min_raw() -> i128 {
        if Self::SIGNED { -(1i128 << (Self::BITS - 1)) } else { 0 }
    }
    fn max_raw() -> i128 {
        if Self::SIGNED { (1i128 << (Self::BITS - 1)) - 1 } else { (1i128 << Self::BITS) - 1 }
    }
    fn fits(raw: i128) -> bool {
        raw >= Self::min_raw() && raw <= Self::max_raw()
    }
    /// One unit in the last place.
    fn ulp() -> f64 {
        crate::exact::ldexp(1.0, -(Self::FRAC as i32))
    }
    fn f(self) -> f64 {
        self.raw() as f64 * Self::ulp()
    }
    /// Nearest value of the type to a real number, if any is near.
    fn near(x: f64) -> Option<Self> {
        let r = (x / Self::ulp()).round();
        if r.abs() < 1e30 && Self::fits(r as i128) { Some(Self::of(r as i128)) } else { None }
    }
    fn max_f() -> f64 {
        Self::max_raw() as f64 * Self::ulp()
    }
    fn min_f() -> f64 {
        Self::min_raw() as f64 * Self::ulp()
    }
}

macro_rules! fx {
    ($F:ident $B:ty, $bits:expr, $signed:expr; $($U:ident)*) => { $(
        impl Fx for fixed::$F<fixed::types::extra::$U> {
            const FRAC: u32 = <fixed::types::extra::$U as fixed::types::extra::Unsigned>::U32;
            const BITS: u32 = $bits;
            const SIGNED: bool = $signed;
            #[inline(always)]
            fn of(raw: i128) -> Self { Self::from_bits(raw as $B) }
            #[inline(always)]
            fn raw(self) -> i128 { self.to_bits() as i128 }
        }
    )* }
}

// `e8`..`e64`: the types a check explores, `u8f`..`u64f` those that exist: all of them.
#[macro_export]
macro_rules! u8f { ($m:ident $($p:tt)*) => { $m!{ $($p)* ; U0 U1 U2 U3 U4 U5 } } }
#[macro_export]
macro_rules! u16f { ($m:ident $($p:tt)*) => { $m!{ $($p)* ; U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 } } }
#[macro_export]
macro_rules! u32f { ($m:ident $($p:tt)*) => { $m!{ $($p)* ; U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 } } }
#[macro_export]
macro_rules! u64f { ($m:ident $($p:tt)*) => { $m!{ $($p)* ; U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38 U39 U40 U41 U42 U43 U44 U45 U46 U47 U48 U49 U50 U51 U52 U53 U54 U55 U56 U57 U58 U59 U60 U61 } } }
#[macro_export]
macro_rules! e8 { ($m:ident $($p:tt)*) => { $m!{ $($p)* ; U0 U1 U2 U3 U4 U5 } } }
#[macro_export]
macro_rules! e16 { ($m:ident $($p:tt)*) => { $m!{ $($p)* ; U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 } } }
#[macro_export]
macro_rules! e32 { ($m:ident $($p:tt)*) => { $m!{ $($p)* ; U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 } } }
#[macro_export]
macro_rules! e64 { ($m:ident $($p:tt)*) => { $m!{ $($p)* ; U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38 U39 U40 U41 U42 U43 U44 U45 U46 U47 U48 U49 U50 U51 U52 U53 U54 U55 U56 U57 U58 U59 U60 U61 } } }

u8f!(fx FixedI8 i8, 8, true);
u16f!(fx FixedI16 i16, 16, true);
u32f!(fx FixedI32 i32, 32, true);
u64f!(fx FixedI64 i64, 64, true);
u8f!(fx FixedU8 u8, 8, false);
u16f!(fx FixedU16 u16, 16, false);
u32f!(fx FixedU32 u32, 32, false);
u64f!(fx FixedU64 u64, 64, false);

#[macro_export]
macro_rules! fx_call { ($f:ident $F:ident $a:tt; $($U:ident)*) => { $( $f::<fixed::$F<fixed::types::extra::$U>> $a; )* } }

/// Calls a generic function for every supported signed fixed-point type: `each_signed!(f (args))`.
#[macro_export]
macro_rules! each_signed { ($f:ident $a:tt) => {
    $crate::e8!(fx_call $f FixedI8 $a); $crate::e16!(fx_call $f FixedI16 $a); $crate::e32!(fx_call $f FixedI32 $a); $crate::e64!(fx_call $f FixedI64 $a);
} }
#[macro_export]
macro_rules! each_unsigned { ($f:ident $a:tt) => {
    $crate::e8!(fx_call $f FixedU8 $a); $crate::e16!(fx_call $f FixedU16 $a); $crate::e32!(fx_call $f FixedU32 $a); $crate::e64!(fx_call $f FixedU64 $a);
} }

/// Everything the crate implements for signed fixed-point types.
pub trait SFx: Fx + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt
    + MixedSin + MixedCos + MixedAtan + MixedTrigonometry + MixedExp + MixedWrapPhase + core::ops::Neg<Output = Self> {}
impl<T> SFx for T where T: Fx + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt
    + MixedSin + MixedCos + MixedAtan + MixedTrigonometry + MixedExp + MixedWrapPhase + core::ops::Neg<Output = Self> {}

/// Everything the crate implements for all fixed-point types.
pub trait UFx: Fx + MixedReal + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt {}
impl<T> UFx for T where T: Fx + MixedReal + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt {}
