//! Lists of the crate's operations on bit patterns.
use crate::cplx::*;
use crate::fx::Fx;
use crate::val::Val;
use mixed_num::*;

type C<T> = Cartesian<T>;
pub type One = (&'static str, fn(u128) -> u128);
pub type Two = (&'static str, fn(u128, u128) -> u128);
pub type Pair = (&'static str, Nan, fn(Bits2, Bits2) -> Bits2);
/// Which results a NaN has to reach, if no operand is infinite.
#[derive(Clone, Copy)]
pub enum Nan {
    /// The same component of the result.
    Each,
    /// Both, from either component of either operand, or of the first.
    Both,
    Both1,
    /// Magnitudes and angles by themselves, unless a magnitude of zero makes the product zero.
    Polar,
    PolarCartesian,
    /// A real second operand, in the real part or in both.
    AddScalar,
    Scalar,
    /// The magnitude divided by the real part of the second.
    PolarScalar,
}
impl Nan {
    pub fn reach(self, z: (f64, f64), w: (f64, f64)) -> (bool, bool) {
        let n = f64::is_nan;
        let (a, b, c, d) = (n(z.0), n(z.1), n(w.0), n(w.1));
        match self {
            Nan::Each => (a || c, b || d),
            Nan::Both => (a || b || c || d, a || b || c || d),
            Nan::Both1 => (a || b, a || b),
            Nan::Polar if z.0 == 0.0 || w.0 == 0.0 => (false, false),
            Nan::Polar => (a || c, b || d),
            Nan::PolarCartesian if z.0 == 0.0 || w.0.abs().max(w.1.abs()) < 1e-18 => (false, false),
            Nan::PolarCartesian => (a || c || d, b || c || d),
            Nan::AddScalar => (a || c, b),
            Nan::Scalar => (a || c, b || c),
            Nan::PolarScalar => (w.0 != 0.0 && (a || c), b),
        }
    }
}

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}
fn p<T: Val>(z: Bits2) -> Polar<T> {
    Polar::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn q<T: Val>(z: Polar<T>) -> Bits2 {
    (z.mag.bits(), z.ang.bits())
}

macro_rules! names { ($T:ident; $($m:ident)*) => { { let v: Vec<One> = vec![$( (stringify!($m), |x| <$T>::of_bits(x).$m().bits()) ),*]; v } } }

/// A float's functions of one argument; a NaN argument gives NaN in all of them.
pub fn unary<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + Mixedlog + Mixedlog2 + Mixedlog10 + DbMag + DbPow>() -> Vec<One> {
    let mut v: Vec<One> = names!(T; mixed_sin mixed_cos mixed_tan mixed_asin mixed_acos mixed_atan mixed_sinh mixed_cosh mixed_tanh mixed_asinh mixed_acosh mixed_atanh
        mixed_exp mixed_exp2 mixed_exp10 mixed_log mixed_log2 mixed_log10 mixed_sqrt mixed_cbrt mixed_abs mixed_ceil mixed_floor
        mixed_mag2db mixed_db2mag mixed_pow2db mixed_db2pow mixed_niirf mixed_wrap_phase);
    v.push(("mixed_sincos, sine", |x| T::of_bits(x).mixed_sincos().0.bits()));
    v.push(("mixed_sincos, cosine", |x| T::of_bits(x).mixed_sincos().1.bits()));
    v.push(("trigonometry::sin", |x| trigonometry::sin(T::of_bits(x)).bits()));
    v.push(("trigonometry::cos", |x| trigonometry::cos(T::of_bits(x)).bits()));
    v.push(("trigonometry::wrap_phase", |x| trigonometry::wrap_phase(T::of_bits(x)).bits()));
    v.push(("trigonometry::atan", |x| trigonometry::atan::atan(T::of_bits(x)).bits()));
    v.push(("trigonometry::powi(3)", |x| trigonometry::powi(T::of_bits(x), 3).bits()));
    v.push(("trigonometry::powi(1)", |x| trigonometry::powi(T::of_bits(x), 1).bits()));
    v.push(("mixed_powi(1)", |x| T::of_bits(x).mixed_powi(1).bits()));
    v.push(("mixed_powi(2)", |x| T::of_bits(x).mixed_powi(2).bits()));
    v.push(("mixed_powi(-1)", |x| T::of_bits(x).mixed_powi(-1).bits()));
    v.push(("mixed_powi(-3)", |x| T::of_bits(x).mixed_powi(-3).bits()));
    v.push(("mixed_powi(i32::MAX)", |x| T::of_bits(x).mixed_powi(i32::MAX).bits()));
    v.push(("mixed_powi(i32::MIN)", |x| T::of_bits(x).mixed_powi(i32::MIN).bits()));
    v
}

/// Functions that must answer, without a promise what NaN gives.
pub fn answers<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedSqrt + MixedWrapPhase + MixedPowi + MixedPi + MixedZero + MixedTrigonometry>() -> Vec<One> {
    let mut v: Vec<One> = names!(T; mixed_sign);
    v.push(("trigonometry::sign", |x| trigonometry::sign(T::of_bits(x)).bits()));
    v.push(("mixed_is_positive", |x| T::of_bits(x).mixed_is_positive() as u128));
    v.push(("mixed_is_negative", |x| T::of_bits(x).mixed_is_negative() as u128));
    v
}

/// Complex operations without scalars.
pub fn complex_plain<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedAbs + MixedPowi + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + core::ops::MulAssign>() -> Vec<Pair> {
    vec![
        ("+", Nan::Each, |z, w| b(c::<T>(z) + c::<T>(w))),
        ("-", Nan::Each, |z, w| b(c::<T>(z) - c::<T>(w))),
        ("*", Nan::Both, |z, w| b(c::<T>(z) * c::<T>(w))),
        ("/", Nan::Both, |z, w| b(c::<T>(z) / c::<T>(w))),
        ("/=", Nan::Both, |z, w| { let mut x = c::<T>(z); x /= c::<T>(w); b(x) }),
        ("polar *", Nan::Polar, |z, w| q(p::<T>(z) * p::<T>(w))),
        ("cartesian * polar", Nan::Both, |z, w| b(c::<T>(z) * p::<T>(w))),
        ("polar * cartesian", Nan::PolarCartesian, |z, w| q(p::<T>(z) * c::<T>(w))),
        ("polar / scalar", Nan::PolarScalar, |z, w| q(p::<T>(z) / T::of_bits(w.0))),
        ("to_polar", Nan::Both1, |z, _| q(c::<T>(z).to_polar())),
        ("to_cartesian", Nan::Both1, |z, _| b(p::<T>(z).to_cartesian())),
        ("exp", Nan::Both1, |z, _| b(c::<T>(z).mixed_exp())),
        ("mag and ang", Nan::Both1, |z, _| (c::<T>(z).mag().bits(), c::<T>(z).ang().bits())),
        ("conj", Nan::Each, |z, _| b(c::<T>(z).conj())),
        ("polar * scalar", Nan::PolarScalar, |z, w| q(p::<T>(z) * T::of_bits(w.0))),
        ("+= *", Nan::Each, |z, w| { let mut x = c::<T>(z); x += c::<T>(w); b(x) }),
        ("-= *", Nan::Each, |z, w| { let mut x = c::<T>(z); x -= c::<T>(w); b(x) }),
        ("*= polar", Nan::Both, |z, w| { let mut x = c::<T>(z); x *= p::<T>(w); b(x) }),
        ("complex::add *", Nan::Each, |z, w| b(complex::add(c::<T>(z), c::<T>(w)))),
        ("complex::sub *", Nan::Each, |z, w| b(complex::sub(c::<T>(z), c::<T>(w)))),
        ("complex::mul_cartesian *", Nan::Both, |z, w| b(complex::mul_cartesian(c::<T>(z), c::<T>(w)))),
        ("complex::div_cartesian /", Nan::Both, |z, w| b(complex::div_cartesian(c::<T>(z), c::<T>(w)))),
        ("complex::mul_polar *", Nan::Polar, |z, w| q(complex::mul_polar(p::<T>(z), p::<T>(w)))),
        ("complex::to_polar", Nan::Both1, |z, _| q(complex::to_polar(c::<T>(z)))),
        ("complex::to_cartesian", Nan::Both1, |z, _| b(complex::to_cartesian(p::<T>(z)))),
        ("complex::abs", Nan::Both1, |z, _| { let m = complex::abs(c::<T>(z)).bits(); (m, m) }),
    ]
}

/// Complex operations of floats.
pub fn complex_ops<T: Val + MixedNumConversion<T> + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedAbs + MixedPowi + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + core::ops::MulAssign>() -> Vec<Pair> {
    let mut v = complex_plain::<T>();
    v.extend([
        ("+ scalar *", Nan::AddScalar, |z, w| b(c::<T>(z) + T::of_bits(w.0))),
        ("- scalar *", Nan::AddScalar, |z, w| b(c::<T>(z) - T::of_bits(w.0))),
        ("+= scalar *", Nan::AddScalar, |z, w| { let mut x = c::<T>(z); x += T::of_bits(w.0); b(x) }),
        ("-= scalar *", Nan::AddScalar, |z, w| { let mut x = c::<T>(z); x -= T::of_bits(w.0); b(x) }),
        ("* scalar", Nan::Scalar, |z, w| b(c::<T>(z) * T::of_bits(w.0))),
        ("/ scalar", Nan::Scalar, |z, w| if T::of_bits(w.0) == T::mixed_zero() { w } else { b(c::<T>(z) / T::of_bits(w.0)) }),
        ("/= scalar", Nan::Scalar, |z, w| if T::of_bits(w.0) == T::mixed_zero() { w } else { let mut x = c::<T>(z); x /= T::of_bits(w.0); b(x) }),
    ] as [Pair; 7]);
    v
}

/// Functions of two arguments.
pub fn two<T: Val + MixedNumConversion<T> + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + Mixedlog + Mixedlog2 + Mixedlog10 + DbMag + DbPow + MixedPow + core::ops::MulAssign>() -> Vec<Two> {
    vec![
        ("mixed_atan2", |x, y| T::of_bits(x).mixed_atan2(T::of_bits(y)).bits()),
        ("mixed_atan2_poly", |x, y| T::of_bits(x).mixed_atan2_poly(T::of_bits(y)).bits()),
        ("trigonometry::atan2", |x, y| trigonometry::atan::atan2(T::of_bits(x), T::of_bits(y)).bits()),
        ("mixed_pow", |x, y| T::of_bits(x).mixed_pow(T::of_bits(y)).bits()),
        ("trigonometry::niirf", |x, y| trigonometry::sqrt::niirf(T::of_bits(x), (y % 5) as usize).bits()),
    ]
}
/// Fixed point: each call returns, or panics because the type cannot hold a result, but does not run on.
pub fn fixed_all<T: Val + Fx + MixedReal + MixedOps + MixedSqrt + MixedAbs + MixedPowi>() -> Vec<One> {
    vec![
        ("mixed_sqrt", |x| T::of_bits(x).mixed_sqrt().bits()),
        ("mixed_niirf", |x| T::of_bits(x).mixed_niirf().bits()),
        ("mixed_abs", |x| T::of_bits(x).mixed_abs().bits()),
        ("mixed_sign", |x| T::of_bits(x).mixed_sign().bits()),
        ("mixed_powi(3)", |x| T::of_bits(x).mixed_powi(3).bits()),
        ("mixed_powi(-40)", |x| T::of_bits(x).mixed_powi(-40).bits()),
    ]
}
pub fn fixed_signed<T: Val + Fx + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPi + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedSqrt + MixedPowi + MixedAbs>() -> Vec<One> {
    vec![
        ("mixed_sin", |x| T::of_bits(x).mixed_sin().bits()),
        ("mixed_cos", |x| T::of_bits(x).mixed_cos().bits()),
        ("mixed_asin", |x| T::of_bits(x).mixed_asin().bits()),
        ("mixed_acos", |x| T::of_bits(x).mixed_acos().bits()),
        ("mixed_atan", |x| T::of_bits(x).mixed_atan().bits()),
        ("mixed_atan2", |x| T::of_bits(x).mixed_atan2(T::of_bits(other(x))).bits()),
        ("mixed_atan2_poly", |x| T::of_bits(x).mixed_atan2_poly(T::of_bits(other(x))).bits()),
        ("mixed_exp", |x| T::of_bits(x).mixed_exp().bits()),
        ("mixed_wrap_phase", |x| T::of_bits(x).mixed_wrap_phase().bits()),
        ("trigonometry::sin", |x| trigonometry::sin(T::of_bits(x)).bits()),
        ("trigonometry::cos", |x| trigonometry::cos(T::of_bits(x)).bits()),
        ("trigonometry::wrap_phase", |x| trigonometry::wrap_phase(T::of_bits(x)).bits()),
        ("complex exp", |x| b(c::<T>((x, other(x))).mixed_exp()).0),
        ("complex to_polar", |x| q(c::<T>((x, other(x))).to_polar()).0),
        ("polar to_cartesian", |x| b(p::<T>((x, other(x))).to_cartesian()).0),
    ]
}
/// Integers.
pub fn int_all<T: Val + MixedReal + MixedAbs + MixedPowi>() -> Vec<One> {
    vec![
        ("mixed_abs", |x| T::of_bits(x).mixed_abs().bits()),
        ("mixed_sign", |x| T::of_bits(x).mixed_sign().bits()),
        ("mixed_is_positive", |x| T::of_bits(x).mixed_is_positive() as u128),
        ("mixed_is_negative", |x| T::of_bits(x).mixed_is_negative() as u128),
        ("mixed_powi(2)", |x| T::of_bits(x).mixed_powi(2).bits()),
        ("mixed_powi(5)", |x| T::of_bits(x).mixed_powi(5).bits()),
        ("mixed_powi(-1)", |x| T::of_bits(x).mixed_powi(-1).bits()),
    ]
}
/// Complex numbers of integers.
pub fn int_complex<T: Val + MixedNumConversion<T> + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi>() -> Vec<Pair> {
    vec![
        ("+", Nan::Each, |z, w| b(c::<T>(z) + c::<T>(w))),
        ("-", Nan::Each, |z, w| b(c::<T>(z) - c::<T>(w))),
        ("*", Nan::Both, |z, w| b(c::<T>(z) * c::<T>(w))),
        ("/", Nan::Both, |z, w| b(c::<T>(z) / c::<T>(w))),
        ("/=", Nan::Both, |z, w| { let mut x = c::<T>(z); x /= c::<T>(w); b(x) }),
        ("+=", Nan::Each, |z, w| { let mut x = c::<T>(z); x += c::<T>(w); b(x) }),
        ("-=", Nan::Each, |z, w| { let mut x = c::<T>(z); x -= c::<T>(w); b(x) }),
        ("conj", Nan::Each, |z, _| b(c::<T>(z).conj())),
        ("* scalar", Nan::Scalar, |z, w| b(c::<T>(z) * T::of_bits(w.0))),
        ("/ scalar", Nan::Scalar, |z, w| b(c::<T>(z) / T::of_bits(w.0))),
        ("+ scalar", Nan::AddScalar, |z, w| b(c::<T>(z) + T::of_bits(w.0))),
        ("polar *", Nan::Polar, |z, w| q(p::<T>(z) * p::<T>(w))),
    ]
}
/// A second operand that takes all values when the first does.
fn other(x: u128) -> u128 {
    x.wrapping_mul(5).wrapping_add(7)
}
