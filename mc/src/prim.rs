//! The primitive number types, with exact values and the casts the language defines between them.
use crate::exact::{self, Num};
use crate::lattice;
use std::fmt::Debug;

pub trait Prim: Copy + Debug + PartialEq + PartialOrd + Send + Sync + 'static {
    const NAME: &'static str;
    fn exact(self) -> Num;
    /// What casting the exact number `n`, held by a floating-point (`true`) or an integer type, to `Self` gives.
    fn cast(n: Num, from_float: bool) -> Self;
    /// Identical, including the sign of zero; all NaN are alike.
    fn same(self, o: Self) -> bool;
    const FLOAT: bool;
    /// Exactly this number, if the type has it.
    fn exactly(n: Num) -> Option<Self>;
    fn bitsum(self) -> u64;
    fn values(m: u32) -> &'static [Self];
}

pub fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}

macro_rules! prim_int { ($($t:ident)*) => { $(
    impl Prim for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = false;
        #[inline(always)]
        fn exact(self) -> Num {
            #[allow(unused_comparisons)]
            Num::Fin { neg: self < 0, mag: if self < 0 { (self as i128).unsigned_abs() } else { self as u128 }, exp: 0 }
        }
        #[inline(always)]
        fn cast(n: Num, from_float: bool) -> Self {
            #[allow(unused_comparisons)]
            let signed = <$t>::MIN < 0;
            if from_float {
                return exact::float_to_int(n, <$t>::BITS, signed) as $t;
            }
            let Num::Fin { neg, mag, .. } = n else { unreachable!() };
            let v = if neg { (mag as i128).wrapping_neg() } else { mag as i128 };
            exact::wrap_int(v, <$t>::BITS, signed) as $t
        }
        #[inline(always)]
        fn same(self, o: Self) -> bool { self == o }
        fn exactly(n: Num) -> Option<Self> {
            let Num::Fin { neg, mag, exp } = n else { return None };
            let mag = if exp >= 0 { mag.checked_shl(exp as u32).filter(|m| m >> exp == mag)? } else if exp > -128 && mag & ((1 << -exp) - 1) == 0 { mag >> -exp } else if mag == 0 { 0 } else { return None };
            if neg { if mag <= 1 << 127 { <$t>::try_from((mag as i128).wrapping_neg()).ok() } else { None } } else { <$t>::try_from(mag).ok() }
        }
        #[inline(always)]
        fn bitsum(self) -> u64 { self as u64 }
        fn values(m: u32) -> &'static [Self] {
            #[allow(unused_comparisons)]
            let signed = <$t>::MIN < 0;
            let mut v: Vec<$t> = lattice::raws(<$t>::BITS, signed, m).into_iter().map(|x| x as $t).collect();
            if <$t>::BITS == 128 && !signed {
                let w: Vec<$t> = v.iter().map(|x| !*x).collect(); // the upper half
                v.extend(w);
                v.push(1 << (<$t>::BITS - 1));
            }
            leak(v)
        }
    }
)* } }
prim_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! prim_float { ($t:ident $to:ident $other:ident) => {
    impl Prim for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = true;
        #[inline(always)]
        fn exact(self) -> Num { exact::of_f64(self as f64) }
        #[inline(always)]
        fn cast(n: Num, _: bool) -> Self { exact::$to(n) }
        #[inline(always)]
        fn same(self, o: Self) -> bool { self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan() }
        fn exactly(n: Num) -> Option<Self> {
            let x = exact::$to(n);
            let (Num::Fin { mag, exp, .. }, Num::Fin { mag: m2, exp: e2, .. }) = (n, x.exact()) else { return None };
            let (z1, z2) = (mag.trailing_zeros(), m2.trailing_zeros());
            (mag == 0 && m2 == 0 || mag != 0 && m2 != 0 && mag >> z1 == m2 >> z2 && exp + z1 as i32 == e2 + z2 as i32).then_some(x)
        }
        #[inline(always)]
        fn bitsum(self) -> u64 { self.to_bits() as u64 }
        fn values(m: u32) -> &'static [Self] {
            let mut v: Vec<$t> = vec![];
            // Every significand of m bits at every exponent; values next to the limits of each integer type and next
            // to ties of the roundings; whole and half numbers.
            for x in lattice::f64_vals(m.min(10), -152, 130) { v.push(x as $t); }
            for x in lattice::f64_vals(2, -1022, 1023) { v.push(x as $t); }
            for k in 0..=129 {
                let p = exact::ldexp(1.0, k) as $t;
                let b = p.to_bits();
                for d in 0..4 { for q in [b + d, b - d] { v.push(<$t>::from_bits(q)); v.push(-<$t>::from_bits(q)); } }
                for h in [0.5, 1.0, 1.5, 2.0, 0.25] { v.push(p + h); v.push(p - h); v.push(-p + h); v.push(-p - h); }
            }
            for i in -300i32..=300 { v.push(i as $t); v.push(i as $t + 0.5); v.push(i as $t / 10.0); }
            for k in 1..52 { v.push(1.0 + 1.0 / (1u64 << k) as $t); v.push((1u64 << 53) as $t - (1u64 << k) as $t); }
            v.push(<$t>::MAX); v.push(<$t>::MIN); v.push(<$t>::EPSILON); v.push(<$t>::NAN); v.push(f32::MAX as $t);
            // around the halfway points between neighbours of the narrower float
            for k in -150..130 { for h in [1.0 + 1.0 / 16777216.0, 1.0 + 3.0 / 16777216.0, 1.5 + 1.0 / 16777216.0, 2.0 - 1.0 / 16777216.0] { for e in [-1i64, 0, 1] {
                let x = f64::from_bits((exact::ldexp(h, k).to_bits() as i64 + e) as u64);
                v.push(x as $t); v.push(-x as $t);
            } } }
            let mut s = std::collections::HashSet::new();
            v.retain(|x| s.insert(x.to_bits()));
            v.sort_by_key(|x| (x.abs().to_bits(), x.is_sign_negative()));
            leak(v)
        }
    }
} }
prim_float!(f32 to_f32 f64);
prim_float!(f64 to_f64 f32);
