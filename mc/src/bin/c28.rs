//! Symmetries that hold to the last bit.
use mc::cplx::*;
use mc::fx::Fx;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

type C<T> = Cartesian<T>;
fn c<T: Val>(z: Bits2) -> C<T> { C::new(T::of_bits(z.0), T::of_bits(z.1)) }
fn p<T: Val>(z: Bits2) -> Polar<T> { Polar::new(T::of_bits(z.0), T::of_bits(z.1)) }
fn b<T: Val>(z: C<T>) -> Bits2 { (z.re.bits(), z.im.bits()) }
fn q<T: Val>(z: Polar<T>) -> Bits2 { (z.mag.bits(), z.ang.bits()) }
fn m<T: Val + core::ops::Neg<Output = T>>(x: u128) -> T { -T::of_bits(x) }

struct Law { name: &'static str, arity: u32, left: Op2, right: Op2 }
macro_rules! laws { ($($name:expr, $n:literal $l:expr => $r:expr;)*) => { vec![$( Law { name: $name, arity: $n, left: $l, right: $r } ),*] } }

trait Cp: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi + MixedAbs {}
impl<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi + MixedAbs> Cp for T {}
trait Tp: Cp + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedPi + MixedOne + core::ops::MulAssign {}
impl<T: Cp + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedPi + MixedOne + core::ops::MulAssign> Tp for T {}
fn cj<T: Cp>(z: Bits2) -> C<T> { c::<T>(z).conj() }
fn ng<T: Cp>(z: Bits2) -> C<T> { C::new(m::<T>(z.0), m::<T>(z.1)) }
fn jc<T: Cp>(z: C<T>) -> Bits2 { let z: C<T> = z.conj(); b(z) }
fn nb<T: Cp>(z: C<T>) -> Bits2 { b(C::new(-z.re, -z.im)) }

/// What holds even where products are rounded, toward minus infinity.
fn rounded<T: Cp>() -> Vec<Law> {
    laws![
        "sum of conjugates", 4 |z, w| b(cj::<T>(z) + cj::<T>(w)) => |z, w| jc(c::<T>(z) + c::<T>(w));
        "difference of conjugates", 4 |z, w| b(cj::<T>(z) - cj::<T>(w)) => |z, w| jc(c::<T>(z) - c::<T>(w));
        "product with both factors negated", 4 |z, w| b(ng::<T>(z) * ng::<T>(w)) => |z, w| b(c::<T>(z) * c::<T>(w));
        "quotient with both negated", 4 |z, w| b(ng::<T>(z) / ng::<T>(w)) => |z, w| b(c::<T>(z) / c::<T>(w));
        "difference exchanged", 4 |z, w| b(c::<T>(z) - c::<T>(w)) => |z, w| nb(c::<T>(w) - c::<T>(z));
        "absolute value", 1 |z, _| (m::<T>(z.0).mixed_abs().bits(), 0) => |z, _| (T::of_bits(z.0).mixed_abs().bits(), 0);
    ]
}
/// What holds for exact products, and for floats.
fn alg<T: Cp>() -> Vec<Law> {
    laws![
        "product of conjugates", 4 |z, w| b(cj::<T>(z) * cj::<T>(w)) => |z, w| jc(c::<T>(z) * c::<T>(w));
        "quotient of conjugates", 4 |z, w| b(cj::<T>(z) / cj::<T>(w)) => |z, w| jc(c::<T>(z) / c::<T>(w));
        "product with one factor negated", 4 |z, w| b(ng::<T>(z) * c::<T>(w)) => |z, w| nb(c::<T>(z) * c::<T>(w));
        "quotient with numerator negated", 4 |z, w| b(ng::<T>(z) / c::<T>(w)) => |z, w| nb(c::<T>(z) / c::<T>(w));
        "even powers", 1 |z, _| (m::<T>(z.0).mixed_powi(2).bits(), m::<T>(z.0).mixed_powi(4).bits()) => |z, _| (T::of_bits(z.0).mixed_powi(2).bits(), T::of_bits(z.0).mixed_powi(4).bits());
        "odd powers", 1 |z, _| (m::<T>(z.0).mixed_powi(3).bits(), m::<T>(z.0).mixed_powi(-1).bits()) => |z, _| ((-T::of_bits(z.0).mixed_powi(3)).bits(), (-T::of_bits(z.0).mixed_powi(-1)).bits());
    ]
}
fn magnitude<T: Tp>() -> Vec<Law> {
    laws![
        "magnitude", 2 |z, _| (c::<T>(z).mag().bits(), ng::<T>(z).mag().bits()) => |z, _| (cj::<T>(z).mag().bits(), c::<T>((z.1, z.0)).mag().bits());
    ]
}
fn fun<T: Tp>() -> Vec<Law> {
    laws![
        "mixed_sin", 1 |z, _| (m::<T>(z.0).mixed_sin().bits(), 0) => |z, _| ((-T::of_bits(z.0).mixed_sin()).bits(), 0);
        "mixed_cos", 1 |z, _| (m::<T>(z.0).mixed_cos().bits(), 0) => |z, _| ((T::of_bits(z.0).mixed_cos()).bits(), 0);
        "mixed_asin", 1 |z, _| (m::<T>(z.0).mixed_asin().bits(), 0) => |z, _| ((-T::of_bits(z.0).mixed_asin()).bits(), 0);
        "mixed_atan", 1 |z, _| (m::<T>(z.0).mixed_atan().bits(), 0) => |z, _| ((-T::of_bits(z.0).mixed_atan()).bits(), 0);
        "trigonometry::sin", 1 |z, _| (trigonometry::sin(m::<T>(z.0)).bits(), 0) => |z, _| ((-trigonometry::sin(T::of_bits(z.0))).bits(), 0);
        "trigonometry::atan", 1 |z, _| (trigonometry::atan::atan(m::<T>(z.0)).bits(), 0) => |z, _| ((-trigonometry::atan::atan(T::of_bits(z.0))).bits(), 0);
        "mixed_wrap_phase", 1 |z, _| (m::<T>(z.0).mixed_wrap_phase().bits(), 0) => |z, _| { let w = T::of_bits(z.0).mixed_wrap_phase(); if w == -T::mixed_pi() { (w.bits(), 0) } else { ((-w).bits(), 0) } };
        "mixed_atan2", 2 |z, _| (m::<T>(z.0).mixed_atan2(T::of_bits(z.1)).bits(), 0) => |z, _| ((-T::of_bits(z.0).mixed_atan2(T::of_bits(z.1))).bits(), 0);
        "to_polar of the conjugate", 2 |z, _| q(cj::<T>(z).to_polar()) => |z, _| { let x = c::<T>(z).to_polar(); (x.mag.bits(), (-x.ang).bits()) };
        "to_cartesian of the conjugate", 2 |z, _| b(Polar::new(T::of_bits(z.0), m::<T>(z.1)).to_cartesian()) => |z, _| jc(p::<T>(z).to_cartesian());
        "to_cartesian of the negative", 2 |z, _| b(Polar::new(m::<T>(z.0), T::of_bits(z.1)).to_cartesian()) => |z, _| nb(p::<T>(z).to_cartesian());
        "exponential of the conjugate", 2 |z, _| b(cj::<T>(z).mixed_exp()) => |z, _| jc(c::<T>(z).mixed_exp());
    ]
}
fn flo<T: Tp + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor>() -> Vec<Law> {
    macro_rules! odd { ($($f:ident)*) => { laws![$( stringify!($f), 1 |z, _| (m::<T>(z.0).$f().bits(), 0) => |z, _| ((-T::of_bits(z.0).$f()).bits(), 0); )*] } }
    macro_rules! even { ($($f:ident)*) => { laws![$( stringify!($f), 1 |z, _| (m::<T>(z.0).$f().bits(), 0) => |z, _| (T::of_bits(z.0).$f().bits(), 0); )*] } }
    let mut v = odd!(mixed_tan mixed_sinh mixed_tanh mixed_asinh mixed_atanh mixed_cbrt);
    v.extend(even!(mixed_cosh));
    v.extend(laws!["floor and ceiling", 1 |z, _| (m::<T>(z.0).mixed_floor().bits(), 0) => |z, _| ((-T::of_bits(z.0).mixed_ceil()).bits(), 0);]);
    v
}
fn machine(ck: &mut Check, t: &'static Ty, laws: Vec<Law>) {
    let mut all: Vec<u128> = t.parts(45).to_vec();
    let few: &'static [u128] = { let mut v = t.parts(if thorough() { 24 } else { 12 }).to_vec(); if t.kind == Kind::Float { v.extend([f64::INFINITY, f64::NAN, t.max(), t.tiny() / 4.0].map(|x| t.near(x).unwrap())); } mc::prim::leak(v) };
    if t.kind == Kind::Float { all.extend([f64::INFINITY, f64::NAN, t.max(), t.tiny() / 4.0].map(|x| t.near(x).unwrap())); }
    let some: &'static [u128] = mc::prim::leak(all.clone());
    let many: &'static [u128] = {
        if t.kind == Kind::Float {
            for x in lattice::f64_vals(8, -60, 60).into_iter().chain(lattice::f64_vals(2, -1000, 1000)) { all.push(t.near(x).unwrap()); }
            for k in -40000..40000 { all.push(t.near(k as f64 * 0.001).unwrap()); }
            mc::prim::leak(all)
        } else {
            all.extend(lattice::raws(t.w, t.signed, if t.w <= 16 { 8 } else { 5 }).into_iter().map(|x| x as u128));
            mc::prim::leak(all)
        }
    };
    for law in laws {
        // All or some values, by the number of components.
        let v = match law.arity { 1 => many, 2 => if t.w == 8 { many } else { some }, _ => few };
        let count = (v.len() as u64).pow(law.arity);
        // Functions of one argument take many more values of f32.
        let drop = if thorough() { 0 } else { 8 };
        let extra = if t.kind == Kind::Float && t.w == 32 && law.arity == 1 { lattice::f32_count(drop) } else { 0 };
        ck.unit(format!("{} {}", law.name, t.name), count + extra, move |i, r| {
            let (mut z, mut w) = quad(i, v);
            if i >= count {
                z.0 = lattice::f32_at(i - count, drop).to_bits() as u128;
            }
            if law.name == "trigonometry::sin" && t.f(z.0).abs() > 3.14 {
                return r.skip(); // outside of its documented range
            }
            if law.arity < 4 { w = (0, 0) }
            if law.arity < 2 { z.1 = 0 }
            if t.kind != Kind::Float && [z.0, z.1, w.0, w.1].iter().any(|x| *x as i128 == t.lo()) { return r.skip() }
            let Some(want) = guarded(|| (law.right)(z, w)) else { return r.skip() };
            let got = guarded(|| (law.left)(z, w));
            if got.is_none() && t.kind != Kind::Float {
                return r.skip();
            }
            r.calls(1);
            let ok = got.is_some_and(|g| t.eq(g.0, want.0) && t.eq(g.1, want.1));
            r.check(ok, got.map(dig).unwrap_or(1), want != (0, 0), || format!("{} {}: with z = {}, w = {}: {} against {}", t.name, law.name, t.show2(z), t.show2(w), got.map(|g| t.show2(g)).unwrap_or("panic".into()), t.show2(want)));
        });
    }
}
fn ints<T: Cp>(ck: &mut Check) { machine(ck, ty::<T>(), rounded::<T>().into_iter().chain(alg::<T>()).collect()) }
fn floats<T: Tp + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor>(ck: &mut Check) { machine(ck, ty::<T>(), rounded::<T>().into_iter().chain(alg::<T>()).chain(magnitude::<T>()).chain(fun::<T>()).chain(flo::<T>()).collect()) }
fn signed<T: Tp + Fx>(ck: &mut Check) { machine(ck, ty::<T>(), rounded::<T>().into_iter().chain(magnitude::<T>()).collect()) }
macro_rules! int_types { ($c:ident; $($t:ident)*) => { $( ints::<$t>(&mut $c); )* } }
fn main() {
    let mut c = Check::new("C28", "state: the operands of one operation (f32: every value with a significand of 16 bits - all 2^32 in the thorough tier - for functions of one argument; all combinations over an alphabet with extremes, infinities and NaN otherwise), transition: the operation on the operands and on the mirrored operands - negated, conjugated, exchanged; oracle: the mirrored result, equal to the last bit up to the sign of zero");
    c.assume("operands for which an integer or fixed point type cannot hold a result on the way are outside the domain");
    signed_int!(int_types!(c));
    floats::<f32>(&mut c);
    floats::<f64>(&mut c);
    each_signed!(signed(&mut c));
    c.run()
}
