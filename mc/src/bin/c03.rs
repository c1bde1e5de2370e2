//! Constants and limits.
use mc::fx::Fx;
use mc::prim::leak;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

trait Ring: Val + MixedReal + MixedZero + MixedOne + MixedOps {}
impl<T: Val + MixedReal + MixedZero + MixedOne + MixedOps> Ring for T {}

/// Zero, one and the limits of a type, against every value of its alphabet.
fn ring<T: Ring>(c: &mut Check, max: T, min: T) {
    let av = leak(T::alphabet());
    c.unit(format!("ring {}", T::vname()), av.len() as u64, move |i, r| {
        let x = av[i as usize];
        let (zero, one) = (T::mixed_zero(), T::mixed_one());
        let (hi, lo) = (T::mixed_max_value(), T::mixed_min_value());
        r.calls(6);
        r.check(T::exact_of(0.0).unwrap().same(zero) && T::exact_of(1.0).unwrap().same(one), 1, true, || format!("{}: zero is {zero:?}, one is {one:?}", T::vname()));
        r.check(hi.same(max) && lo.same(min), 2, true, || format!("{}: limits are {lo:?} and {hi:?}, expected {min:?} and {max:?}", T::vname()));
        let nan = x.partial_cmp(&x).is_none();
        let inf = T::kind() == Kind::Float && x.real().is_infinite();
        r.check(nan || inf || lo <= x && x <= hi, x.digest(), true, || format!("{}: {x:?} lies outside [{lo:?}, {hi:?}]", T::vname()));
        r.check(nan || x + zero == x && zero + x == x && x - zero == x && x * one == x && one * x == x && x / one == x, x.digest(), true, || format!("{}: {x:?} changes when zero is added or it is multiplied by one", T::vname()));
        r.sample(|| format!("{x:?}: zero {zero:?} one {one:?} min {lo:?} max {hi:?}"));
    });
}
fn complex<T: Ring + MixedNumSigned>(c: &mut Check) {
    let av = leak(T::alphabet());
    let n = av.len() as u64;
    c.unit(format!("complex {}", T::vname()), n * n, move |i, r| {
        let z = Cartesian::new(av[(i % n) as usize], av[(i / n) as usize]);
        let (zero, one) = (Cartesian::<T>::mixed_zero(), Cartesian::<T>::mixed_one());
        let (pz, po) = (Polar::<T>::mixed_zero(), Polar::<T>::mixed_one());
        r.calls(5);
        let (o, e) = (T::exact_of(0.0).unwrap(), T::exact_of(1.0).unwrap());
        r.check(zero.re.same(o) && zero.im.same(o) && one.re.same(e) && one.im.same(o), 1, true, || format!("{}: complex zero is {zero:?}, one is {one:?}", T::vname()));
        r.check(pz.mag.same(o) && pz.ang.same(o) && po.mag.same(e) && po.ang.same(o), 1, true, || format!("{}: polar zero is {pz:?}, one is {po:?}", T::vname()));
        // The zero of the products below would be NaN for infinite components.
        if !(z.re.real() - z.im.real()).is_finite() {
            return;
        }
        r.check(z + zero == z, z.re.digest(), true, || format!("{}: {z:?} + 0 = {:?}", T::vname(), z + zero));
        r.check(z - zero == z, z.re.digest(), true, || format!("{}: {z:?} - 0 = {:?}", T::vname(), z - zero));
        r.check(z * one == z, z.re.digest(), true, || format!("{}: {z:?} * 1 = {:?}", T::vname(), z * one));
    });
}
/// pi * 2^120, truncated.
const PI_120: i128 = 0x3243f6a8885a308d313198a2e037073;

/// pi and twice pi of a fixed point type: rounded or truncated to the type, or where that is finer, to double precision.
fn pi_fixed<T: Val + Fx + MixedPi + MixedConsts>(c: &mut Check) {
    c.unit(format!("pi {}", T::vname()), 2, move |i, r| {
        let f = T::dims().1;
        let exact = PI_120 >> (1 - i as u32); // times 2^119
        let low = exact >> (119 - f);
        if low >= T::max_raw() {
            return r.skip();
        }
        let got = if i == 0 { T::mixed_pi() } else { T::mixed_tau() };
        r.calls(1);
        let nearest = low + (exact >> (118 - f) & 1);
        // Half a unit in the last place of a double of this size.
        let coarse = if f + (i as u32) >= 52 { 1i128 << (f + i as u32 - 52) } else { 0 };
        let err = (got.raw() - nearest).abs();
        r.worst(err as f64 / (1 + coarse) as f64);
        r.check(got.raw() == low || err <= coarse, got.digest(), true, || format!("{}: {} is {got:?}, with bits {}, expected {nearest} or {low}", T::vname(), if i == 0 { "pi" } else { "2 pi" }, got.raw()));
        r.sample(|| format!("{got:?}"));
    });
}
/// The same of a float, given the rounded and the truncated values.
fn pi_float<T: Val + MixedPi + MixedConsts>(c: &mut Check, want: [[T; 2]; 2]) {
    c.unit(format!("pi {}", T::vname()), 2, move |i, r| {
        let got = if i == 0 { T::mixed_pi() } else { T::mixed_tau() };
        r.calls(1);
        r.check(want[i as usize].iter().any(|w| w.same(got)), got.digest(), true, || format!("{}: {} is {got:?}", T::vname(), if i == 0 { "pi" } else { "2 pi" }));
        r.sample(|| format!("{got:?}"));
    });
}
macro_rules! ints { ($c:ident; $($t:ident)*) => { $( ring::<$t>(&mut $c, $t::MAX, $t::MIN); )* } }

fn signed<T: Ring + Fx + MixedConsts + MixedNumSigned>(c: &mut Check) {
    complex::<T>(c);
    any::<T>(c);
}
fn any<T: Ring + Fx + MixedConsts>(c: &mut Check) {
    ring::<T>(c, T::of(T::max_raw()), T::of(T::min_raw()));
    pi_fixed::<T>(c);
}

fn main() {
    let mut c = Check::new("C03", "state: a type and a value of it (or a pair of values as a complex number), transition: reading each constant, and adding zero or multiplying by one; oracle: exact constants, and the value itself");
    c.assume("2 pi is outside the domain of types that cannot represent 6.28; where the type is finer than double precision, pi is that of double precision");
    ints!(c; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    ring::<f32>(&mut c, f32::MAX, f32::MIN);
    ring::<f64>(&mut c, f64::MAX, f64::MIN);
    use std::{f32::consts as s, f64::consts as d};
    pi_float::<f32>(&mut c, [[s::PI, f32::from_bits(s::PI.to_bits() - 1)], [s::TAU, f32::from_bits(s::TAU.to_bits() - 1)]]); // f32's own is rounded up
    pi_float::<f64>(&mut c, [[d::PI; 2], [d::TAU; 2]]); // f64's own is both rounded and truncated
    complex::<f32>(&mut c);
    complex::<f64>(&mut c);
    complex::<i8>(&mut c);
    complex::<i32>(&mut c);
    complex::<i64>(&mut c);
    complex::<i128>(&mut c);
    each_signed!(signed(&mut c));
    each_unsigned!(any(&mut c));
    c.run()
}
