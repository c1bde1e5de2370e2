//! Complex division.
use mc::cplx::*;
use mc::fx::Fx;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;
use num::Complex;

type C<T> = Cartesian<T>;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn n<T: Val>(z: Bits2) -> Complex<T> {
    Complex { re: T::of_bits(z.0), im: T::of_bits(z.1) }
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}

trait Cp: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi {}
impl<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi> Cp for T {}

enum Quotient {
    Exact(i128, i128),
    Near((f64, f64), (f64, f64)),
}

/// The quotient, if no intermediate result leaves the range of the type.
fn quotient(t: &Ty, z: Bits2, w: Bits2) -> Option<Quotient> {
    if t.kind == Kind::Float {
        let ((a, b), (c, d)) = (t.f2(z), t.f2(w));
        // Intermediates between the square roots of the extremes, so that nothing overflows or loses precision.
        let ok = |x: f64| x == 0.0 || x.abs() < t.max() / 8.0 && x.abs() > t.tiny() / t.eps() * 8.0;
        let q = [a * c, b * d, b * c, a * d, c * c, d * d];
        let den = c * c + d * d;
        if !q.iter().all(|x| ok(*x)) || den == 0.0 {
            return None;
        }
        let want = ((q[0] + q[1]) / den, (q[2] - q[3]) / den);
        let tol = |x: f64, y: f64| 8.0 * t.eps() * (x.abs() + y.abs()) / den + t.grain();
        if want.0.abs().max(want.1.abs()) > t.max() / 8.0 {
            return None;
        }
        return Some(Quotient::Near(want, (tol(q[0], q[1]), tol(q[2], q[3]))));
    }
    let q = [t.prod(z.0, w.0)?, t.prod(z.1, w.1)?, t.prod(z.1, w.0)?, t.prod(z.0, w.1)?, t.prod(w.0, w.0)?, t.prod(w.1, w.1)?];
    let (re, im, den) = (q[0].checked_add(q[1])?, q[2].checked_sub(q[3])?, q[4].checked_add(q[5])?);
    let margin = if t.kind == Kind::Int { 0 } else { 3i128 << t.frac };
    let ok = |x: i128| x.checked_add(margin).is_some_and(|y| t.holds(y)) && x.checked_sub(margin).is_some_and(|y| t.holds(y));
    if !q.iter().chain([&re, &im, &den]).all(|x| ok(*x)) {
        return None;
    }
    if t.kind == Kind::Int {
        return if den == 0 { None } else { Some(Quotient::Exact(re / den, im / den)) };
    }
    // Numerator and denominator lose up to two units in the last place each.
    let u = t.ulp();
    let (re, im, den) = (re as f64 * u * u, im as f64 * u * u, den as f64 * u * u);
    if den < 6.0 * u {
        return None;
    }
    let tol = |x: f64| 2.5 * u * (1.0 + (x / den).abs()) / (den - 2.5 * u) + u + 1e-15 * (x / den).abs();
    let (want, tol) = ((re / den, im / den), (tol(re), tol(im)));
    if !(want.0.abs() + tol.0 < t.max() && want.1.abs() + tol.1 < t.max()) {
        return None;
    }
    Some(Quotient::Near(want, tol))
}

static FORMS: [&str; 13] = ["z / w", "z / &w", "z / &mut w", "z /= w", "z /= &w", "z /= &mut w", "z / num w", "z / &num w", "z / &mut num w", "z /= num w", "z /= &num w", "z /= &mut num w", "function"];

macro_rules! ops { ($T:ident, $mk:ident) => { [
    |z, w| b(c::<$T>(z) / $mk::<$T>(w)),
    |z, w| { let y = $mk::<$T>(w); let r = b(c::<$T>(z) / &y); assert!(y == $mk::<$T>(w), "operand changed"); r },
    |z, w| { let mut y = $mk::<$T>(w); let r = b(c::<$T>(z) / &mut y); assert!(y == $mk::<$T>(w), "operand changed"); r },
    |z, w| { let mut x = c::<$T>(z); x /= $mk::<$T>(w); b(x) },
    |z, w| { let (mut x, y) = (c::<$T>(z), $mk::<$T>(w)); x /= &y; assert!(y == $mk::<$T>(w), "operand changed"); b(x) },
    |z, w| { let (mut x, mut y) = (c::<$T>(z), $mk::<$T>(w)); x /= &mut y; assert!(y == $mk::<$T>(w), "operand changed"); b(x) },
] } }
fn table<T: Cp>() -> Vec<Op2> {
    let p: [Op2; 6] = ops!(T, c);
    let q: [Op2; 6] = ops!(T, n);
    let f: Op2 = |z, w| b(complex::div_cartesian(c::<T>(z), c::<T>(w)));
    p.into_iter().chain(q).chain([f]).collect()
}

fn two<T: Cp>(ck: &mut Check) {
    machine(ck, ty::<T>(), table::<T>());
    own_machine(ck, ty::<T>(), |z, s| b(complex::div_scalar_cartesian(c::<T>(z), T::of_bits(s.0))));
}
fn judge(t: &Ty, r: &mut Rep, got: Bits2, q: &Quotient) -> bool {
    match q {
        Quotient::Exact(x, y) => got == (*x as u128, *y as u128),
        Quotient::Near(w, tol) => t.close(got, *w, *tol).map(|e| r.worst(e)).is_ok(),
    }
}
fn told(q: &Quotient) -> String {
    match q {
        Quotient::Exact(x, y) => format!("({x}, {y})"),
        Quotient::Near(w, tol) => format!("{w:?} within {tol:?}"),
    }
}
fn machine(ck: &mut Check, t: &'static Ty, f: Vec<Op2>) {
    let v = t.parts(if thorough() { 45 } else { 26 });
    ck.unit(format!("complex {}", t.name), quads(v), move |i, r| {
        let (z, w) = quad(i, v);
        let Some(q) = quotient(t, z, w) else { return r.skip() };
        for (k, f) in f.iter().enumerate() {
            let got = f(z, w);
            r.calls(1);
            let ok = judge(t, r, got, &q);
            r.check(ok, dig(got), got.0 != got.1, || format!("{}: {} with z = {}, w = {}: {}, expected {}", t.name, FORMS[k], t.show2(z), t.show2(w), t.show2(got), told(&q)));
            r.sample(|| format!("{} / {} = {}", t.show2(z), t.show2(w), t.show2(got)));
        }
    });
}

/// Exhaustive for 8 bits.
fn all8<T: Cp>(ck: &mut Check) {
    all8_machine(ck, ty::<T>(), |z, w| b(c::<T>(z) / c::<T>(w)))
}
fn all8_machine(ck: &mut Check, t: &'static Ty, f: Op2) {
    let n = if thorough() { 1u64 << 32 } else { 1u64 << 22 };
    ck.unit(format!("complex {} complete", t.name), n, move |i, r| {
        let d = |k: u32| (i >> k) as u8 as i8 as i128 as u128;
        let (z, w) = if thorough() { ((d(0), d(8)), (d(16), d(24))) } else { ((d(0), d(8)), ((((i >> 16) as i128 & 7) - 3) as u128, ((((i >> 19) as i128 & 7) - 3) * 3) as u128)) };
        let Some(q) = quotient(t, z, w) else { return r.skip() };
        let got = f(z, w);
        r.calls(1);
        let ok = judge(t, r, got, &q);
        r.check(ok, dig(got), true, || format!("{}: {} / {} is {}, expected {}", t.name, t.show2(z), t.show2(w), t.show2(got), told(&q)));
    });
}

/// One component divided by a scalar.
fn part(t: &Ty, x: u128, s: u128) -> Option<(Option<i128>, f64, f64)> {
    if t.kind == Kind::Float {
        let q = t.f(x) / t.f(s);
        return t.finite(q).map(|f| (None, q, if f { 2.0 * t.eps() * q.abs() + t.grain() } else { -1.0 }));
    }
    if t.w == 128 && !t.signed && (x >> 127 == 1 || s >> 127 == 1) {
        return None;
    }
    let (x, s) = (x as i128, s as i128);
    if t.kind == Kind::Int {
        return x.checked_div(s).filter(|q| t.fits(*q)).map(|q| (Some(q), 0.0, 0.0));
    }
    let (n, d) = (x << t.frac, s); // raw quotient, at most 63 + 61 bits
    let q = n / d;
    (q.abs() < t.hi() - 1).then_some((Some(q), 0.0, 0.0))
}
/// By a scalar: component-wise, or the largest value in both components if it is zero.
fn by_scalar(t: &Ty, z: Bits2, s: u128) -> Option<Box<dyn Fn(Bits2) -> Option<f64>>> {
    let zero = if t.kind == Kind::Float { t.f(s) == 0.0 } else { s == 0 };
    if zero {
        let m = if t.kind == Kind::Float { t.near(t.max()).unwrap() } else if t.w == 128 && !t.signed { u128::MAX } else { t.hi() as u128 };
        return Some(Box::new(move |g| (g == (m, m)).then_some(0.0)));
    }
    let (x, y) = (part(t, z.0, s)?, part(t, z.1, s)?);
    let (slack, float, ty) = (if t.kind == Kind::Int { 0 } else { 1u128 }, t.kind == Kind::Float, (t.w, t.kind));
    Some(Box::new(move |g| {
        if float {
            let f = |b: u128| if ty.0 == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
            let one = |g: f64, (_, q, tol): (Option<i128>, f64, f64)| -> f64 {
                if tol < 0.0 {
                    // An infinity, or NaN.
                    let same = if q.is_nan() { g.is_nan() } else { g.is_infinite() && (g > 0.0) == (q > 0.0) };
                    return if same { 0.0 } else { 9.0 };
                }
                let e = (g - q).abs() / tol;
                if e <= 1.0 { e } else { 9.0 }
            };
            let e = one(f(g.0), x).max(one(f(g.1), y));
            (e <= 1.0).then_some(e)
        } else {
            let e = (g.0 as i128).abs_diff(x.0.unwrap()).max((g.1 as i128).abs_diff(y.0.unwrap()));
            (e <= slack).then_some(e as f64)
        }
    }))
}

/// `div_scalar_cartesian`, whose scalar is of the component type.
fn own_machine(ck: &mut Check, t: &'static Ty, f: Op2) {
    let v = t.parts_and_extremes(45);
    let n = v.len() as u64;
    ck.unit(format!("complex {} by its own", t.name), n * n * n, move |i, r| {
        let (z, s) = ((v[(i % n) as usize], v[(i / n % n) as usize]), v[(i / n / n) as usize]);
        let Some(j) = by_scalar(t, z, s) else { return r.skip() };
        let got = f(z, (s, 0));
        r.calls(1);
        let e = j(got);
        r.check(e.is_some(), dig(got), got.0 != got.1, || format!("{}: div_scalar_cartesian({}, {}): {}", t.name, t.show2(z), (t.show)(s), t.show2(got)));
        r.worst(e.unwrap_or(9.0));
        r.sample(|| format!("{} / {} = {}", t.show2(z), (t.show)(s), t.show2(got)));
    });
}

static SCALAR: [&str; 2] = ["z / s", "z /= s"];
fn scalar<A: Val + MixedNumSigned + MixedOps + MixedZero, T: Val + MixedReal + MixedOps + MixedNumConversion<A>>(ck: &mut Check) {
    let f: [Op2; 2] = [
        |z, s| b(c::<T>(z) / A::of_bits(s.0)),
        |z, s| { let mut x = c::<T>(z); x /= A::of_bits(s.0); b(x) },
    ];
    scalar_machine(ck, ty::<T>(), scalars::<A, T>(40), f)
}
fn scalar_machine(ck: &mut Check, t: &'static Ty, s: Scalars, f: [Op2; 2]) {
    let v = t.parts_and_extremes(if thorough() { 45 } else { 30 });
    let n = v.len() as u64;
    ck.unit(format!("complex {} by scalar {}", t.name, s.from), n * n * s.bits.len() as u64, move |i, r| {
        let (z, k) = ((v[(i % n) as usize], v[(i / n % n) as usize]), (i / n / n) as usize);
        let Some(w) = s.conv[k] else { return r.skip() };
        let Some(judge) = by_scalar(t, z, w) else { return r.skip() };
        for j in 0..2 {
            let got = f[j](z, (s.bits[k], 0));
            r.calls(1);
            let e = judge(got);
            r.check(e.is_some(), dig(got), got.0 != got.1, || format!("{}: {} with z = {}, s = {} ({}, here {}): {}", t.name, SCALAR[j], t.show2(z), (s.show)(s.bits[k]), s.from, (t.show)(w), t.show2(got)));
            r.worst(e.unwrap_or(9.0));
            r.sample(|| format!("{} / {} = {}", t.show2(z), (s.show)(s.bits[k]), t.show2(got)));
        }
    });
}

macro_rules! twos { ($c:ident; $($t:ident)*) => { $( two::<$t>(&mut $c); )* } }
macro_rules! from_all { ($c:ident; $($t:ident)*) => { $( from_one!($c, $t; i8 i16 i32 i64 i128 f32 f64 isize); )* } }
macro_rules! from_one { ($c:ident, $t:ident; $($a:ident)*) => { $( scalar::<$a, $t>(&mut $c); )* } }
trait FromPrims: Val + Fx + MixedReal + MixedOps + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize> + MixedNumConversion<f32> + MixedNumConversion<f64> {}
impl<T: Val + Fx + MixedReal + MixedOps + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize> + MixedNumConversion<f32> + MixedNumConversion<f64>> FromPrims for T {}
fn fx_scalars<T: FromPrims>(c: &mut Check) {
    scalar::<i8, T>(c);
    scalar::<i16, T>(c);
    scalar::<i32, T>(c);
    scalar::<i64, T>(c);
    scalar::<i128, T>(c);
    scalar::<isize, T>(c);
    scalar::<f32, T>(c);
    scalar::<f64, T>(c);
}

fn main() {
    let mut c = Check::new("C17", "state: the four components of two complex operands, or a complex operand and a scalar of its own or another type (all combinations over an alphabet per type; thorough: all 2^32 pairs of 8-bit complex numbers), transition: one of the 13 ways to divide by a complex number, or one of 3 by a scalar; oracle: exact rational quotient truncated (integers), within the error that rounding numerator and denominator admits (fixed point, floats); the largest value for division by a zero scalar");
    c.assume("quotients whose products or sums the component type cannot hold, and division by complex zero, are outside the domain");
    signed_prim!(twos!(c));
    each_signed!(two(&mut c));
    all8::<i8>(&mut c);
    macro_rules! few { ($f:ident $F:ident; $($U:ident)*) => { $( $f::<fixed::$F<fixed::types::extra::$U>>(&mut c); )* } }
    few!(all8 FixedI8; U0 U3 U5);
    every_prim!(from_all!(c));
    each_signed!(fx_scalars(&mut c));
    each_unsigned!(fx_scalars(&mut c));
    c.run()
}
