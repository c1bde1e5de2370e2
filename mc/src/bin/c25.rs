//! Inverse operations undo each other.
use mc::cplx::*;
use mc::fx::Fx;
use mc::lattice;
use mc::prim::leak;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;
use std::f64::consts::*;

type C<T> = Cartesian<T>;
type Fun = fn(u128) -> u128;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}
fn p<T: Val>(z: Bits2) -> Polar<T> {
    Polar::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn q<T: Val>(z: Polar<T>) -> Bits2 {
    (z.mag.bits(), z.ang.bits())
}

/// There and back: the functions, the real function back, and the arguments for which it is one-to-one.
struct Trip {
    name: &'static str,
    there: Fun,
    back: Fun,
    real_back: fn(f64) -> f64,
    domain: (f64, f64),
    /// Values between.
    between: (f64, f64),
}
const ALL: (f64, f64) = (f64::NEG_INFINITY, f64::INFINITY);

macro_rules! trips { ($T:ident; $($name:literal $a:expr, $b:expr, $r:expr, $d:expr, $m:expr;)*) => { vec![$( Trip { name: $name, there: |x| { let f: fn($T) -> $T = $a; f(<$T>::of_bits(x)).bits() }, back: |x| { let f: fn($T) -> $T = $b; f(<$T>::of_bits(x)).bits() }, real_back: $r, domain: $d, between: $m } ),*] } }

fn float<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedAbs + MixedPowi + MixedSqrt + MixedTrigonometry + MixedExp + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedExp10 + MixedExp2 + Mixedlog + Mixedlog2 + Mixedlog10 + DbMag + DbPow>(ck: &mut Check) {
    let h = FRAC_PI_2;
    let trips = trips! { T;
        "asin(sin x)" |x| x.mixed_sin(), |x| x.mixed_asin(), f64::asin, (-h, h), (-1.0, 1.0);
        "sin(asin x)" |x| x.mixed_asin(), |x| x.mixed_sin(), f64::sin, (-1.0, 1.0), ALL;
        "acos(cos x)" |x| x.mixed_cos(), |x| x.mixed_acos(), f64::acos, (0.0, PI), (-1.0, 1.0);
        "cos(acos x)" |x| x.mixed_acos(), |x| x.mixed_cos(), f64::cos, (-1.0, 1.0), ALL;
        "atan(tan x)" |x| x.mixed_tan(), |x| x.mixed_atan(), f64::atan, (-1.57, 1.57), ALL;
        "tan(atan x)" |x| x.mixed_atan(), |x| x.mixed_tan(), f64::tan, (-1e5, 1e5), ALL;
        "asinh(sinh x)" |x| x.mixed_sinh(), |x| x.mixed_asinh(), f64::asinh, (-80.0, 80.0), ALL;
        "sinh(asinh x)" |x| x.mixed_asinh(), |x| x.mixed_sinh(), f64::sinh, (-1e30, 1e30), ALL;
        "acosh(cosh x)" |x| x.mixed_cosh(), |x| x.mixed_acosh(), |y| if y < 1.0 { 0.0 } else { y.acosh() }, (0.0, 80.0), ALL;
        "cosh(acosh x)" |x| x.mixed_acosh(), |x| x.mixed_cosh(), f64::cosh, (1.0, 1e30), ALL;
        "atanh(tanh x)" |x| x.mixed_tanh(), |x| x.mixed_atanh(), f64::atanh, (-6.0, 6.0), (-1.0 + 4e-7, 1.0 - 4e-7);
        "tanh(atanh x)" |x| x.mixed_atanh(), |x| x.mixed_tanh(), f64::tanh, (-0.999999, 0.999999), ALL;
        "log(exp x)" |x| x.mixed_exp(), |x| x.mixed_log(), f64::ln, (-80.0, 80.0), ALL;
        "exp(log x)" |x| x.mixed_log(), |x| x.mixed_exp(), f64::exp, (1e-37, 1e37), ALL;
        "log2(exp2 x)" |x| x.mixed_exp2(), |x| x.mixed_log2(), f64::log2, (-120.0, 120.0), ALL;
        "exp2(log2 x)" |x| x.mixed_log2(), |x| x.mixed_exp2(), f64::exp2, (1e-37, 1e37), ALL;
        "log10(exp10 x)" |x| x.mixed_exp10(), |x| x.mixed_log10(), f64::log10, (-37.0, 37.0), ALL;
        "exp10(log10 x)" |x| x.mixed_log10(), |x| x.mixed_exp10(), |y| 10f64.powf(y), (1e-37, 1e37), ALL;
        "mag2db(db2mag x)" |x| x.mixed_db2mag(), |x| x.mixed_mag2db(), |y| 20.0 * y.log10(), (-700.0, 700.0), ALL;
        "db2mag(mag2db x)" |x| x.mixed_mag2db(), |x| x.mixed_db2mag(), |y| 10f64.powf(y / 20.0), (1e-37, 1e37), ALL;
        "pow2db(db2pow x)" |x| x.mixed_db2pow(), |x| x.mixed_pow2db(), |y| 10.0 * y.log10(), (-350.0, 350.0), ALL;
        "db2pow(pow2db x)" |x| x.mixed_pow2db(), |x| x.mixed_db2pow(), |y| 10f64.powf(y / 10.0), (1e-37, 1e37), ALL;
        "square of the root" |x| x.mixed_sqrt(), |x| x.mixed_powi(2), |y| y * y, (1e-37, 1e37), ALL;
        "root of the square" |x| x.mixed_powi(2), |x| x.mixed_sqrt(), |y| y.max(0.0).sqrt(), (1e-18, 1e18), ALL;
        "cube of the root" |x| x.mixed_cbrt(), |x| x.mixed_powi(3), |y| y * y * y, (-1e37, 1e37), ALL;
        "root of the cube" |x| x.mixed_powi(3), |x| x.mixed_cbrt(), f64::cbrt, (-1e12, 1e12), ALL;
        "reciprocal twice" |x| x.mixed_powi(-1), |x| x.mixed_powi(-1), |y| 1.0 / y, (1e-37, 1e37), ALL;
        "negated twice" |x| -x, |x| -x, |y| -y, ALL, ALL;
    };
    let t = ty::<T>();
    let v = arguments(t);
    for trip in trips {
        machine(ck, t, v, trip, |t, y| 16.0 * t.eps() * y.abs() + t.tiny());
    }
}

trait Sf: Val + Fx + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedTrigonometry + MixedSqrt + MixedPowi + core::ops::Neg<Output = Self> {}
impl<T: Val + Fx + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedTrigonometry + MixedSqrt + MixedPowi + core::ops::Neg<Output = T>> Sf for T {}
fn fixed<T: Sf>(ck: &mut Check) {
    let h = FRAC_PI_2;
    let trips = trips! { T;
        "asin(sin x)" |x| x.mixed_sin(), |x| x.mixed_asin(), f64::asin, (-h, h), (-1.0, 1.0);
        "sin(asin x)" |x| x.mixed_asin(), |x| x.mixed_sin(), f64::sin, (-1.0, 1.0), ALL;
        "acos(cos x)" |x| x.mixed_cos(), |x| x.mixed_acos(), f64::acos, (0.0, PI), (-1.0, 1.0);
        "cos(acos x)" |x| x.mixed_acos(), |x| x.mixed_cos(), f64::cos, (-1.0, 1.0), ALL;
        "atan(sin x / cos x)" |x| { let (s, c) = x.mixed_sincos(); s.mixed_atan2(c) }, |x| x, |y| y, (-3.0, 3.0), ALL;
        "negated twice" |x| -x, |x| -x, |y| -y, ALL, ALL;
    };
    let t = ty::<T>();
    let v = arguments(t);
    for trip in trips {
        machine(ck, t, v, trip, |t, _| 36.0 * t.ulp() + 2e-15);
    }
}

/// `err`: how far a result near y may be off.
fn arguments(t: &Ty) -> &'static [u128] {
    match (t.kind, t.w) {
        (Kind::Float, 32) => {
            let drop = if thorough() { 6 } else { 13 };
            leak((0..lattice::f32_count(drop)).map(|i| lattice::f32_at(i, drop)).chain(lattice::f32_near(&[1.0], 64)).map(|x| x.to_bits() as u128).collect())
        }
        (Kind::Float, _) => leak(lattice::f64_vals(if thorough() { 14 } else { 9 }, -128, 128).into_iter().chain(lattice::f64_near(&[1.0], 64)).map(|x| x.to_bits() as u128).collect()),
        _ => leak(lattice::raws(t.w, t.signed, if thorough() || t.w == 8 { 9 } else { 6 }).into_iter().map(|x| x as u128).collect()),
    }
}
fn machine(ck: &mut Check, t: &'static Ty, v: &'static [u128], trip: Trip, err: fn(&Ty, f64) -> f64) {
    let exact = trip.name == "negated twice";
    ck.unit(format!("{} {}", trip.name, t.name), v.len() as u64, move |i, r| {
        let x = v[i as usize];
        let f = t.f(x);
        if f.is_nan() || f < trip.domain.0 || f > trip.domain.1 || t.kind != Kind::Float && x as i128 == t.lo() {
            return r.skip();
        }
        if t.kind == Kind::Float && f != 0.0 && f.abs() < 1e-30 && trip.domain.0 < 0.0 {
            // Functions of numbers so small are those numbers.
            if f.abs() < 1e-36 {
                return r.skip();
            }
        }
        let y = (trip.there)(x);
        let g = t.f(y);
        r.calls(2);
        let e = err(t, g);
        // The results that the way there may have given, and what becomes of them on the way back.
        let (lo, hi) = ((g - e).max(trip.between.0), (g + e).min(trip.between.1));
        let (mut a, mut b) = ((trip.real_back)(lo), (trip.real_back)(hi));
        if trip.name == "acosh(cosh x)" {
            a = (trip.real_back)(lo.max(1.0));
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let z = (trip.back)(y);
        let w = t.f(z);
        let tol = (b - f).abs().max((f - a).abs()).max(b - a) + err(t, f) + 1e-300;
        if !tol.is_finite() || tol > 0.5 * f.abs().max(1.0) || !g.is_finite() {
            return r.skip();
        }
        let d = (w - f).abs();
        let ok = if exact { z == x } else { d <= tol };
        r.worst(d / tol);
        r.check(ok, z as u64, y != x, || format!("{}: {} with x = {} goes by {} to {}, tolerance {tol:e}", t.name, trip.name, (t.show)(x), (t.show)(y), (t.show)(z)));
        r.sample(|| format!("{} with x = {} is {}, by {}", trip.name, (t.show)(x), (t.show)(z), (t.show)(y)));
    });
}

/// Complex operations and what undoes them. What must fit, and whether nothing is lost.
#[derive(Clone, Copy, PartialEq)]
enum Need {
    Sum,
    Difference,
    Product,
    ScalarProduct,
    PolarProduct,
    Nothing,
}
type Undo = (&'static str, Need, Op2);

trait Cp: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi {}
impl<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi> Cp for T {}
fn undo<T: Cp>(ck: &mut Check) {
    let v: Vec<Undo> = vec![
        ("(z + w) - w", Need::Sum, |z, w| b((c::<T>(z) + c::<T>(w)) - c::<T>(w))),
        ("z += w, z -= &w", Need::Sum, |z, w| { let (mut x, y) = (c::<T>(z), c::<T>(w)); x += y; x -= &y; b(x) }),
        ("(z - w) + w", Need::Difference, |z, w| b((c::<T>(z) - &c::<T>(w)) + c::<T>(w))),
        ("z -= w, z += &mut w", Need::Difference, |z, w| { let (mut x, mut y) = (c::<T>(z), c::<T>(w)); x -= y; x += &mut y; b(x) }),
        ("(z * w) / w", Need::Product, |z, w| b((c::<T>(z) * c::<T>(w)) / c::<T>(w))),
        ("z * w, z /= w", Need::Product, |z, w| { let (x, y) = (c::<T>(z), c::<T>(w)); let mut m = x * y; m /= y; b(m) }),
        ("polar (z * s) / s", Need::PolarProduct, |z, w| { let s = T::of_bits(w.0); q((p::<T>(z) * s) / s) }),
        ("conjugated twice", Need::Nothing, |z, _| { let w: C<T> = c::<T>(z).conj(); b(w.conj()) }),
    ];
    undo_machine(ck, ty::<T>(), v)
}
fn undo_scalar<T: Cp + MixedNumConversion<T>>(ck: &mut Check) {
    let v: Vec<Undo> = vec![
        ("(z * s) / s", Need::ScalarProduct, |z, w| { let s = T::of_bits(w.0); b((c::<T>(z) * s) / s) }),
        ("z * s, z /= s", Need::ScalarProduct, |z, w| { let s = T::of_bits(w.0); let mut m = c::<T>(z) * s; m /= s; b(m) }),
        ("z += s, z -= s", Need::Sum, |z, w| { let s = T::of_bits(w.0); let mut m = c::<T>(z); m += s; m -= s; b(m) }),
    ];
    undo_machine(ck, ty::<T>(), v)
}
fn undo_machine(ck: &mut Check, t: &'static Ty, list: Vec<Undo>) {
    let v = t.parts(if thorough() { 40 } else { 20 });
    for (name, need, f) in list {
        ck.unit(format!("{name} {}", t.name), quads(v), move |i, r| {
            let (z, w) = quad(i, v);
            let (x, y) = (t.f2(z), t.f2(w));
            let len = |a: (f64, f64)| a.0.hypot(a.1);
            let fl = t.kind == Kind::Float;
            let u = if fl { 0.0 } else if t.kind == Kind::Int { 0.0 } else { t.ulp() };
            if !fl && (z.0 as i128 == t.lo() || z.1 as i128 == t.lo()) {
                return r.skip();
            }
            // Everything below a limit that leaves room for products and their sums.
            let small = |a: f64| a == 0.0 || a.abs() * 1.0001 + 8.0 * u * (1.0 + len(y)) < t.max() && (!fl || a.abs() > t.tiny() * 1e10);
            let tol = match need {
                Need::Nothing => 0.0,
                Need::Sum | Need::Difference => {
                    let m = need == Need::Difference;
                    if t.sum(z.0, w.0, m).is_none() || t.sum(z.1, w.1, m).is_none() {
                        return r.skip();
                    }
                    if fl { 4.0 * t.eps() * (x.0.abs().max(y.0.abs()).max(x.1.abs()).max(y.1.abs())) } else { 0.0 }
                }
                Need::ScalarProduct => {
                    if y.0 == 0.0 || !small(x.0 * y.0) || !small(x.1 * y.0) {
                        return r.skip();
                    }
                    4.0 * t.eps_of() * len(x) + u * (1.0 + 1.0 / y.0.abs()) * 1.000001
                }
                Need::PolarProduct => {
                    if y.0 == 0.0 || x.0 == 0.0 || !small(x.0 * y.0) {
                        return r.skip();
                    }
                    4.0 * t.eps_of() * len(x) + u * (1.0 + 1.0 / y.0.abs()) * 1.000001
                }
                Need::Product => {
                    let d = y.0 * y.0 + y.1 * y.1;
                    let prod = (x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
                    let parts = [x.0 * y.0, x.1 * y.1, x.0 * y.1, x.1 * y.0, y.0 * y.0, y.1 * y.1, d, prod.0, prod.1, prod.0 * y.0, prod.1 * y.1, prod.1 * y.0, prod.0 * y.1, x.0 * d, x.1 * d];
                    if d <= 6.0 * u || d == 0.0 || !parts.iter().all(|a| small(*a)) {
                        return r.skip();
                    }
                    // The product is off by 2 u, the numerator then by 2 u + 4 u |w|, the denominator by 2 u.
                    let m = 3.0 * u * (1.0 + 2.0 * len(y)) / (d - 3.0 * u) + 3.0 * u * len(x) / (d - 3.0 * u) + u;
                    if !(m + x.0.abs() < t.max() && m + x.1.abs() < t.max()) {
                        return r.skip();
                    }
                    m + 64.0 * t.eps_of() * len(x)
                }
            };
            if tol > 0.0 && !(x.0.abs().max(x.1.abs()) + tol < t.max()) {
                return r.skip();
            }
            let got = f(z, w);
            r.calls(2);
            let g = t.f2(got);
            let e = if fl && need == Need::PolarProduct { (g.0 - x.0).abs() } else { (g.0 - x.0).abs().max((g.1 - x.1).abs()) };
            let ok = if tol == 0.0 { t.eq(got.0, z.0) && t.eq(got.1, z.1) } else { e <= tol };
            if tol > 0.0 {
                r.worst(e / tol);
            }
            r.check(ok, dig(got), got.0 != got.1, || format!("{}: {name} with z = {}, w = {} is {} (tolerance {tol:e})", t.name, t.show2(z), t.show2(w), t.show2(got)));
            r.sample(|| format!("{name} with z = {}, w = {} is {}", t.show2(z), t.show2(w), t.show2(got)));
        });
    }
}

/// A value that another type has exactly survives the way there and back.
fn there<A: Val + MixedNumConversion<B>, B: Val + MixedNumConversion<A>>(ck: &mut Check) {
    let av: &'static [A] = leak(A::alphabet());
    let fits: &'static [bool] = leak(av.iter().map(|x| B::conv(x.num(), A::kind()).is_some_and(|y| {
        // Exactly: going back by the model is the identity.
        A::conv(y.num(), B::kind()).is_some_and(|z| z.same(*x)) && y.real() == x.real() && x.real().abs() < 9e15
    })).collect());
    ck.unit(format!("{} by {}", A::vname(), B::vname()), av.len() as u64, move |i, r| {
        let x = av[i as usize];
        if !fits[i as usize] {
            return r.skip();
        }
        let y: B = x.mixed_to_num();
        let a = A::mixed_from_num(y);
        let y2 = B::mixed_from_num(x);
        let a2: A = y2.mixed_to_num();
        r.calls(4);
        r.check(a.same(x) && a2.same(x), x.digest(), y.real() != 0.0, || format!("{x:?} of {} becomes {a:?} and {a2:?} by way of {} {y:?}", A::vname(), B::vname()));
        r.sample(|| format!("{x:?} by {y:?} is {a:?}"));
    });
}

macro_rules! undos { ($c:ident; $($t:ident)*) => { $( undo::<$t>(&mut $c); undo_scalar::<$t>(&mut $c); )* } }
macro_rules! theres { ($c:ident; $($t:ident)*) => { $( theres_one!($c, $t; u8 i8 i16 u32 i32 u64 i64 i128 f32 f64 usize); )* } }
macro_rules! theres_one { ($c:ident, $t:ident; $($a:ident)*) => { $( there::<$a, $t>(&mut $c); )* } }

fn main() {
    let mut c = Check::new("C25", "state: an argument, or the operands of a complex operation (8-bit fixed point complete, others alphabets and lattices), transition: an operation and then its inverse (27 pairs of functions on floats, 6 on fixed point, 11 pairs of complex operations, conversions there and back); oracle: the argument, within what rounding to the type in between can change");
    c.assume("the range on which each function is one-to-one; numbers between that the type cannot hold are outside the domain");
    float::<f32>(&mut c);
    float::<f64>(&mut c);
    each_signed!(fixed(&mut c));
    signed_prim!(undos!(c));
    each_signed!(undo(&mut c));
    every_prim!(theres!(c));
    c.run()
}
