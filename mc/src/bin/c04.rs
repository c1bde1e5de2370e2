//! Sign, positivity and absolute value.
use mc::fx::Fx;
use mc::lattice;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

trait Real: Val + MixedReal + MixedAbs {}
impl<T: Val + MixedReal + MixedAbs> Real for T {}

fn step<T: Real>(x: T, r: &mut Rep) {
    let neg_bit = T::kind() == Kind::Float && x.real().is_sign_negative();
    if x.partial_cmp(&x).is_none() {
        // NaN has no sign; its absolute value is NaN.
        let a = x.mixed_abs();
        r.calls(1);
        return r.check(a.partial_cmp(&a).is_none(), 9, true, || format!("{}: |NaN| is {a:?}", T::vname()));
    }
    let zero = T::exact_of(0.0).unwrap();
    let neg = x < zero;
    let s = x.mixed_sign();
    let want = if neg { -1.0 } else { 1.0 };
    r.calls(4);
    r.check(s.real() == want, x.digest(), neg, || format!("{}: sign of {x:?} is {s:?}", T::vname()));
    let (p, n) = (x.mixed_is_positive(), x.mixed_is_negative());
    let (wp, wn) = match T::kind() {
        Kind::Float => (!neg_bit, neg_bit),
        _ if T::signed() => (x > zero, neg),
        _ => (true, false),
    };
    r.check((p, n) == (wp, wn), x.digest(), neg, || format!("{}: {x:?} is positive: {p}, negative: {n}; expected {wp}, {wn}", T::vname()));
    // The magnitude of the lowest value of a two's complement type does not exist.
    let twos = T::kind() != Kind::Float && T::signed();
    if !(twos && x.num() == T::mixed_min_value().num()) {
        let a = x.mixed_abs();
        let (mc::exact::Num::Fin { neg: false, mag, .. }, mc::exact::Num::Fin { mag: m2, .. }) = (a.num(), x.num()) else {
            return r.check(x.real().is_infinite() && a.real() == f64::INFINITY, 1, true, || format!("{}: |{x:?}| is {a:?}", T::vname()));
        };
        r.check(mag == m2 && (T::kind() != Kind::Float || a.real() == x.real().abs()), a.digest(), neg, || format!("{}: |{x:?}| is {a:?}", T::vname()));
    }
    r.sample(|| format!("{x:?}: sign {s:?}, positive {p}, negative {n}"));
}

fn fx<T: Real + Fx>(c: &mut Check) {
    let v = lattice::fx_vals::<T>(8, &[], 0);
    c.unit(<T as Fx>::name(), v.len() as u64, move |i, r| step(T::of(v[i as usize]), r));
}
macro_rules! prims { ($c:ident; $($t:ident)*) => { $( let v = <$t as mc::prim::Prim>::values(if thorough() { 12 } else { 8 }); $c.unit(stringify!($t), v.len() as u64, move |i, r| step(v[i as usize], r)); )* } }

fn main() {
    let mut c = Check::new("C04", "state: a value (8/16-bit types and f32 significands of 16 bits complete; lattices of short and sparse patterns for wider types), transition: sign, is_positive, is_negative, absolute value; oracle: exact comparison with zero");
    c.assume("the absolute value of the lowest two's complement value is not representable and outside the domain");
    prims!(c; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    let drop = if thorough() { 0 } else { 8 };
    c.unit("f32 grid", lattice::f32_count(drop), move |i, r| step(lattice::f32_at(i, drop), r));
    let near = mc::prim::leak(lattice::f32_near(&[1.0], 64));
    c.unit("f32 constants", near.len() as u64, move |i, r| step(near[i as usize], r));
    let near = mc::prim::leak(lattice::f64_near(&[1.0], 64));
    c.unit("f64 constants", near.len() as u64, move |i, r| step(near[i as usize], r));
    each_signed!(fx(&mut c));
    each_unsigned!(fx(&mut c));
    c.run()
}
