//! Complex multiplication.
use mc::cplx::*;
use mc::fx::Fx;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

type C<T> = Cartesian<T>;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn p<T: Val>(z: Bits2) -> Polar<T> {
    Polar::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}

trait Cp: Val + MixedNum + MixedNumSigned + MixedOps {}
impl<T: Val + MixedNum + MixedNumSigned + MixedOps> Cp for T {}

/// The product of two complex numbers and the error it may have, if the type can hold it and its partial products.
fn product(t: &Ty, z: Bits2, w: Bits2) -> Option<((f64, f64), (f64, f64), Option<(i128, i128)>)> {
    if t.kind == Kind::Float {
        let (z, w) = (t.f2(z), t.f2(w));
        let q = [z.0 * w.0, z.1 * w.1, z.0 * w.1, z.1 * w.0];
        let (s, d) = (q[0].abs() + q[1].abs(), q[2].abs() + q[3].abs());
        if !(s < t.max() / 4.0 && d < t.max() / 4.0) {
            return None;
        }
        let tol = |s: f64| 4.0 * t.eps() * s + t.grain();
        return Some(((q[0] - q[1], q[2] + q[3]), (tol(s), tol(d)), None));
    }
    let q = [t.prod(z.0, w.0)?, t.prod(z.1, w.1)?, t.prod(z.0, w.1)?, t.prod(z.1, w.0)?];
    let (re, im) = (q[0].checked_sub(q[1])?, q[2].checked_add(q[3])?);
    let margin = if t.kind == Kind::Int { 0 } else { 2i128 << t.frac };
    if q.iter().any(|x| !t.holds(*x)) || !t.holds(re.checked_add(margin)?) || !t.holds(re.checked_sub(margin)?) || !t.holds(im.checked_add(margin)?) || !t.holds(im.checked_sub(margin)?) {
        return None;
    }
    Some(((0.0, 0.0), (0.0, 0.0), Some((re, im))))
}
/// Fixed point products lose less than two units in the last place, integers none.
fn exact_close(t: &Ty, got: Bits2, want: (i128, i128)) -> bool {
    let slack = if t.kind == Kind::Int { 0 } else { 2i128 << t.frac };
    let near = |g: u128, w: i128| ((g as i128) << t.frac).abs_diff(w) <= slack as u128;
    near(got.0, want.0) && near(got.1, want.1)
}

static FORMS: [&str; 4] = ["z * w", "z * &w", "z * &mut w", "function"];

fn two<T: Cp>(ck: &mut Check) {
    let f: [Op2; 4] = [
        |z, w| b(c::<T>(z) * c::<T>(w)),
        |z, w| { let y = c::<T>(w); let r = b(c::<T>(z) * &y); assert!(y == c::<T>(w), "operand changed"); r },
        |z, w| { let mut y = c::<T>(w); let r = b(c::<T>(z) * &mut y); assert!(y == c::<T>(w), "operand changed"); r },
        |z, w| b(complex::mul_cartesian(c::<T>(z), c::<T>(w))),
    ];
    machine(ck, ty::<T>(), f)
}
fn machine(ck: &mut Check, t: &'static Ty, f: [Op2; 4]) {
    let v = t.parts(if thorough() { 45 } else { 34 });
    ck.unit(format!("complex {}", t.name), quads(v), move |i, r| {
        let (z, w) = quad(i, v);
        let Some((want, tol, exact)) = product(t, z, w) else { return r.skip() };
        for (k, f) in f.iter().enumerate() {
            let got = f(z, w);
            r.calls(1);
            let ok = match exact {
                Some(e) => exact_close(t, got, e),
                None => t.close(got, want, tol).map(|e| r.worst(e)).is_ok(),
            };
            r.check(ok, dig(got), got.0 != got.1, || {
                let want = exact.map(|e| (e.0 as f64 * t.ulp() * t.ulp(), e.1 as f64 * t.ulp() * t.ulp())).unwrap_or(want);
                format!("{}: {} with z = {}, w = {}: {}, expected {want:?}", t.name, FORMS[k], t.show2(z), t.show2(w), t.show2(got))
            });
            r.sample(|| format!("{} * {} = {}", t.show2(z), t.show2(w), t.show2(got)));
        }
    });
}

/// Exhaustive for 8 bits.
fn all8<T: Cp>(ck: &mut Check) {
    all8_machine(ck, ty::<T>(), |z, w| b(c::<T>(z) * c::<T>(w)))
}
fn all8_machine(ck: &mut Check, t: &'static Ty, f: Op2) {
    // Thorough: every pair of complex numbers. Quick: every first operand, second operands with one small component.
    let n = if thorough() { 1u64 << 32 } else { 1u64 << 22 };
    ck.unit(format!("complex {} complete", t.name), n, move |i, r| {
        let d = |k: u32| (i >> k) as u8 as i8 as i128 as u128;
        let (z, w) = if thorough() { ((d(0), d(8)), (d(16), d(24))) } else { ((d(0), d(8)), ((((i >> 16) as i128 & 7) - 3) as u128, ((((i >> 19) as i128 & 7) - 3) * 5) as u128)) };
        let Some((_, _, Some(e))) = product(t, z, w) else { return r.skip() };
        let got = f(z, w);
        r.calls(1);
        r.check(exact_close(t, got, e), dig(got), true, || format!("{}: {} * {} is {}", t.name, t.show2(z), t.show2(w), t.show2(got)));
    });
}

static SCALAR: [&str; 1] = ["z * s"];

fn scalar<A: Val + MixedNum + MixedOps, T: Val + MixedNum + MixedOps + MixedNumConversion<A>>(ck: &mut Check) {
    scalar_machine(ck, ty::<T>(), scalars::<A, T>(40), |z, s| b(c::<T>(z) * A::of_bits(s.0)))
}
fn scalar_machine(ck: &mut Check, t: &'static Ty, s: Scalars, f: Op2) {
    let v = t.parts_and_extremes(if thorough() { 45 } else { 34 });
    let n = v.len() as u64;
    ck.unit(format!("complex {} and scalar {}", t.name, s.from), n * n * s.bits.len() as u64, move |i, r| {
        let (z, k) = ((v[(i % n) as usize], v[(i / n % n) as usize]), (i / n / n) as usize);
        let Some(w) = s.conv[k] else { return r.skip() };
        if t.kind == Kind::Float {
            let got = f(z, (s.bits[k], 0));
            r.calls(1);
            for (x, g) in [(z.0, got.0), (z.1, got.1)] {
                let q = t.f(x) * t.f(w);
                let tol = 2.0 * t.eps() * q.abs() + t.grain();
                let ok = match t.finite(q) {
                    None => continue,
                    Some(true) => { let e = (t.f(g) - q).abs() / tol; r.worst(e); e <= 1.0 }
                    Some(false) => t.same_special(g, q),
                };
                r.check(ok, dig(got), got.0 != got.1, || format!("{}: {} with z = {}, s = {} ({}): {}, where {q:?} is expected", t.name, SCALAR[0], t.show2(z), (s.show)(s.bits[k]), s.from, t.show2(got)));
            }
            return;
        }
        let one = |x: u128| -> Option<(f64, f64, Option<i128>)> {
            if t.w == 128 && !t.signed && (x >> 127 == 1 || w >> 127 == 1) {
                return None;
            }
            let q = t.prod(x, w)?;
            let margin = if t.kind == Kind::Int { 0 } else { 1i128 << t.frac };
            (t.holds(q.checked_add(margin)?) && t.holds(q.checked_sub(margin)?)).then_some((0.0, 0.0, Some(q)))
        };
        let (Some(re), Some(im)) = (one(z.0), one(z.1)) else { return r.skip() };
        let got = f(z, (s.bits[k], 0));
        r.calls(1);
        let ok = match (re.2, im.2) {
            (Some(x), Some(y)) => {
                let slack = if t.kind == Kind::Int { 0 } else { 1u128 << t.frac };
                ((got.0 as i128) << t.frac).abs_diff(x) <= slack && ((got.1 as i128) << t.frac).abs_diff(y) <= slack
            }
            _ => t.close(got, (re.0, im.0), (re.1, im.1)).map(|e| r.worst(e)).is_ok(),
        };
        r.check(ok, dig(got), got.0 != got.1, || format!("{}: {} with z = {}, s = {} ({}): {}", t.name, SCALAR[0], t.show2(z), (s.show)(s.bits[k]), s.from, t.show2(got)));
        r.sample(|| format!("{} * {} = {}", t.show2(z), (s.show)(s.bits[k]), t.show2(got)));
    });
}

static POLAR: [&str; 6] = ["z * p", "z * &p", "z * &mut p", "z *= p", "z *= &p", "z *= &mut p"];

fn polar<T: Cp + MixedTrigonometry + MixedWrapPhase>(ck: &mut Check) {
    let f: [Op2; 6] = [
        |z, w| b(c::<T>(z) * p::<T>(w)),
        |z, w| { let y = p::<T>(w); let r = b(c::<T>(z) * &y); assert!(y == p::<T>(w), "operand changed"); r },
        |z, w| { let mut y = p::<T>(w); let r = b(c::<T>(z) * &mut y); assert!(y == p::<T>(w), "operand changed"); r },
        |z, w| { let mut x = c::<T>(z); x *= p::<T>(w); b(x) },
        |z, w| { let (mut x, y) = (c::<T>(z), p::<T>(w)); x *= &y; assert!(y == p::<T>(w), "operand changed"); b(x) },
        |z, w| { let (mut x, mut y) = (c::<T>(z), p::<T>(w)); x *= &mut y; assert!(y == p::<T>(w), "operand changed"); b(x) },
    ];
    polar_machine(ck, ty::<T>(), f)
}
fn polar_machine(ck: &mut Check, t: &'static Ty, f: [Op2; 6]) {
    let v = t.parts(if thorough() { 30 } else { 18 });
    ck.unit(format!("complex {} and polar", t.name), quads(v), move |i, r| {
        let (z, w) = quad(i, v);
        let ((x, y), (m, a)) = (t.f2(z), t.f2(w));
        let d = t.trig_err(a);
        let big = x.abs().max(y.abs());
        // Either factor's rounding is multiplied by the other.
        let rotor = m.abs() * d + t.grain() + if t.kind == Kind::Float { t.eps() * m.abs() } else { 0.0 };
        let tol = 2.2 * big * rotor + 4.0 * t.grain() + if t.kind == Kind::Float { 8.0 * t.eps() * big * m.abs() } else { 0.0 };
        if d > 0.4 || !(m.abs() * (1.0 + d) + t.grain() < t.max()) || !(2.0 * big * (m.abs() + rotor) + tol < t.max()) {
            return r.skip();
        }
        let (s, k) = a.sin_cos();
        let want = (m * (x * k - y * s), m * (x * s + y * k));
        let f64s = 1e-15 * big * m.abs();
        for (j, f) in f.iter().enumerate() {
            let got = f(z, w);
            r.calls(1);
            let ok = t.close(got, want, (tol + f64s, tol + f64s)).map(|e| r.worst(e)).is_ok();
            r.check(ok, dig(got), got.0 != got.1, || format!("{}: {} with z = {}, p = {}: {}, expected {want:?} within {tol:e}", t.name, POLAR[j], t.show2(z), t.show2(w), t.show2(got)));
            r.sample(|| format!("{} * polar {} = {}", t.show2(z), t.show2(w), t.show2(got)));
        }
    });
}

macro_rules! twos { ($c:ident; $($t:ident)*) => { $( two::<$t>(&mut $c); )* } }
macro_rules! from_all { ($c:ident; $($t:ident)*) => { $( from_one!($c, $t; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64); )* } }
macro_rules! from_one { ($c:ident, $t:ident; $($a:ident)*) => { $( scalar::<$a, $t>(&mut $c); )* } }
trait FromPrims: Val + Fx + MixedNum + MixedOps + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u32> + MixedNumConversion<u64> + MixedNumConversion<u128> + MixedNumConversion<usize> + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize> + MixedNumConversion<f32> + MixedNumConversion<f64> {}
impl<T: Val + Fx + MixedNum + MixedOps + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u32> + MixedNumConversion<u64> + MixedNumConversion<u128> + MixedNumConversion<usize> + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize> + MixedNumConversion<f32> + MixedNumConversion<f64>> FromPrims for T {}
fn fx_scalars<T: FromPrims>(c: &mut Check) {
    scalar::<u8, T>(c);
    scalar::<u16, T>(c);
    scalar::<u32, T>(c);
    scalar::<u64, T>(c);
    scalar::<u128, T>(c);
    scalar::<usize, T>(c);
    scalar::<i8, T>(c);
    scalar::<i16, T>(c);
    scalar::<i32, T>(c);
    scalar::<i64, T>(c);
    scalar::<i128, T>(c);
    scalar::<isize, T>(c);
    scalar::<f32, T>(c);
    scalar::<f64, T>(c);
}

fn main() {
    let mut c = Check::new("C16", "state: the four components of two complex operands, a complex operand and a polar one, or a complex operand and a scalar of another type (all combinations over an alphabet per type; thorough: all 2^32 pairs of 8-bit complex numbers), transition: one of the ways to multiply; oracle: exact integer product (integers: equal, fixed point: within two units in the last place), double precision with the error of the formats for floats and polar operands");
    c.assume("products whose partial products or components the component type cannot hold are outside the domain");
    signed_prim!(twos!(c));
    each_signed!(two(&mut c));
    all8::<i8>(&mut c);
    macro_rules! few { ($f:ident $F:ident; $($U:ident)*) => { $( $f::<fixed::$F<fixed::types::extra::$U>>(&mut c); )* } }
    few!(all8 FixedI8; U0 U3 U5);
    every_prim!(from_all!(c));
    each_signed!(fx_scalars(&mut c));
    each_unsigned!(fx_scalars(&mut c));
    polar::<f32>(&mut c);
    polar::<f64>(&mut c);
    each_signed!(polar(&mut c));
    c.run()
}
