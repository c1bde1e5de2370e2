//! Laws of arithmetic, and the functional equations of the functions.
use mc::cplx::*;
use mc::fx::SFx;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

type C<T> = Cartesian<T>;
type B = Bits2;
fn c<T: Val>(z: B) -> C<T> { C::new(T::of_bits(z.0), T::of_bits(z.1)) }
fn p<T: Val>(z: B) -> Polar<T> { Polar::new(T::of_bits(z.0), T::of_bits(z.1)) }
fn b<T: Val>(z: C<T>) -> B { (z.re.bits(), z.im.bits()) }
fn q<T: Val>(z: Polar<T>) -> B { (z.mag.bits(), z.ang.bits()) }

trait Cp: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPowi {}
impl<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPowi> Cp for T {}

type Op3 = fn(B, B, B) -> (B, B);
/// A law of three complex numbers: both sides, and a bound of every intermediate result, by the sums of the magnitudes
/// of their parts, that the type has to hold.
struct Law { name: &'static str, sides: Op3, bound: fn(f64, f64, f64) -> f64, /// degree in rounded products
    products: f64 }
fn laws<T: Cp>() -> Vec<Law> {
    macro_rules! l { ($($name:literal $k:literal $bound:expr, $sides:expr;)*) => { vec![$( Law { name: $name, sides: $sides, bound: $bound, products: $k } ),*] } }
    l![
        "sums are associative" 0.0 |x, y, z| x + y + z, |z, w, u| (b(c::<T>(z) + c::<T>(w) + c::<T>(u)), b(c::<T>(z) + (c::<T>(w) + c::<T>(u))));
        "sums and differences" 0.0 |x, y, z| x + y + z, |z, w, u| (b(c::<T>(z) - (c::<T>(w) + c::<T>(u))), b(c::<T>(z) - c::<T>(w) - c::<T>(u)));
        "adding and taking away, in place" 0.0 |x, y, z| x + 2.0 * y + z, |z, w, u| { let mut a = c::<T>(z); a += c::<T>(w); a -= c::<T>(u); a -= c::<T>(w); (b(a), b(c::<T>(z) - c::<T>(u))) };
        "products are associative" 2.0 |x, y, z| x.max(1.0) * y.max(1.0) * z.max(1.0), |z, w, u| (b(c::<T>(z) * c::<T>(w) * c::<T>(u)), b(c::<T>(z) * (c::<T>(w) * c::<T>(u))));
        "products distribute over sums" 1.0 |x, y, z| x.max(1.0) * (y + z), |z, w, u| (b(c::<T>(z) * (c::<T>(w) + c::<T>(u))), b(c::<T>(z) * c::<T>(w) + c::<T>(z) * c::<T>(u)));
        "products distribute over sums, functions" 1.0 |x, y, z| x.max(1.0) * (y + z), |z, w, u| (b(complex::mul_cartesian(c::<T>(z), complex::sub(c::<T>(w), c::<T>(u)))), b(complex::sub(complex::mul_cartesian(c::<T>(z), c::<T>(w)), complex::mul_cartesian(c::<T>(z), c::<T>(u)))));
        "products distribute over differences" 1.0 |x, y, z| x.max(1.0) * (y + z), |z, w, u| (b((c::<T>(w) - c::<T>(u)) * c::<T>(z)), b(c::<T>(w) * c::<T>(z) - c::<T>(u) * c::<T>(z)));
        "real factors distribute" 1.0 |x, y, z| x.max(1.0) * (y + z), |z, w, u| { let k = T::of_bits(z.0); (b(C::new((c::<T>(w) + c::<T>(u)).re * k, (c::<T>(w) + c::<T>(u)).im * k)), b(c::<T>(w) * C::new(k, T::mixed_zero()) + c::<T>(u) * C::new(k, T::mixed_zero()))) };
        "the square of the magnitude is multiplicative" 4.0 |x, y, _| x.max(1.0) * y.max(1.0) * x.max(1.0) * y.max(1.0), |z, w, _| { let n = |z: C<T>| z.re * z.re + z.im * z.im; ((n(c::<T>(z) * c::<T>(w)).bits(), T::mixed_zero().bits()), ((n(c::<T>(z)) * n(c::<T>(w))).bits(), T::mixed_zero().bits())) };
        "a number times its conjugate" 1.0 |x, _, _| x * x, |z, _, _| { let k: C<T> = c::<T>(z).conj(); let z = c::<T>(z); (b(z * k), b(C::new(z.re.mixed_powi(2) + z.im.mixed_powi(2), T::mixed_zero()))) };
        "one, zero and a number" 1.0 |x, _, _| x, |z, _, _| (b(c::<T>(z) * C::mixed_one() + C::mixed_zero() * c::<T>(z)), z);
        "the imaginary unit" 1.0 |x, _, _| x, |z, _, _| { let i = C::new(T::mixed_zero(), T::mixed_one()); (b(c::<T>(z) * i * i), b(C::new(T::mixed_zero(), T::mixed_zero()) - c::<T>(z))) };
        "polar products are associative" 2.0 |x, y, z| (x.max(1.0) * y.max(1.0) * z.max(1.0)).max(x + y + z), |z, w, u| (q(p::<T>(z) * p::<T>(w) * p::<T>(u)), q(p::<T>(z) * (p::<T>(w) * p::<T>(u))));
        "polar products with real factors" 2.0 |x, y, z| (x.max(1.0) * y.max(1.0) * z.max(1.0)).max(x + y + z), |z, w, u| (q(p::<T>(z) * T::of_bits(u.0) * p::<T>(w)), q(p::<T>(z) * p::<T>(w) * T::of_bits(u.0)));
    ]
}
/// Division, of floats.
fn quotients<T: Cp>() -> Vec<Law> {
    macro_rules! l { ($($name:literal $bound:expr, $sides:expr;)*) => { vec![$( Law { name: $name, sides: $sides, bound: $bound, products: 0.0 } ),*] } }
    l![
        "quotients distribute over sums" |x, y, z| (x + y) / z, |z, w, u| (b((c::<T>(z) + c::<T>(w)) / c::<T>(u)), b(c::<T>(z) / c::<T>(u) + c::<T>(w) / c::<T>(u)));
        "quotient of a product" |x, y, z| x * y / z, |z, w, u| (b(c::<T>(z) * c::<T>(w) / c::<T>(u)), b(c::<T>(z) * (c::<T>(w) / c::<T>(u))));
        "quotient of a quotient" |x, y, z| x / y / z, |z, w, u| (b(c::<T>(z) / c::<T>(w) / c::<T>(u)), b(c::<T>(z) / (c::<T>(w) * c::<T>(u))));
        "quotient by a quotient" |x, y, z| x / y * z, |z, w, u| (b(c::<T>(z) / (c::<T>(w) / c::<T>(u))), b(c::<T>(z) * c::<T>(u) / c::<T>(w)));
        "quotients distribute over sums, functions" |x, y, z| (x + y) / z, |z, w, u| { let q = |z| complex::div_cartesian(z, c::<T>(u)); (b(q(complex::add(c::<T>(z), c::<T>(w)))), b(complex::add(q(c::<T>(z)), q(c::<T>(w))))) };
        "quotient of a product, functions" |x, y, z| x * y / z, |z, w, u| (b(complex::div_cartesian(complex::mul_cartesian(c::<T>(z), c::<T>(w)), c::<T>(u))), b(complex::mul_cartesian(c::<T>(z), complex::div_cartesian(c::<T>(w), c::<T>(u)))));
        "quotient of a quotient, in place" |x, y, z| x / y / z, |z, w, u| { let mut a = c::<T>(z); a /= c::<T>(w); a /= c::<T>(u); (b(a), b(complex::div_cartesian(c::<T>(z), c::<T>(w) * c::<T>(u)))) };
        "quotient by a conjugate" |x, y, _| x / y, |z, w, _| { let k: C<T> = c::<T>(w).conj(); let n = T::of_bits(w.0).mixed_powi(2) + T::of_bits(w.1).mixed_powi(2); (b(c::<T>(z) / c::<T>(w)), { let x = c::<T>(z) * k; (( x.re / n).bits(), (x.im / n).bits()) }) };
    ]
}
fn triple(mut i: u64, v: &[u128]) -> (B, B, B) {
    let n = v.len() as u64;
    let mut d = [0; 6];
    for x in &mut d { *x = v[(i % n) as usize]; i /= n; }
    ((d[0], d[1]), (d[2], d[3]), (d[4], d[5]))
}
fn machine(ck: &mut Check, t: &'static Ty, laws: Vec<Law>, divides: bool) {
    let v: &'static [u128] = if t.kind == Kind::Float { t.parts(if thorough() { 20 } else { 10 }) } else {
        // Small numbers, as products of three and more have to be representable.
        let mut v: Vec<u128> = vec![];
        let big = t.hi();
        let root = (big as f64 * t.ulp()).cbrt() / t.ulp(); // of the largest value, the third root
        let mut add = |x: Option<u128>| if let Some(x) = x.filter(|x| !v.contains(x)) { v.push(x) };
        for x in [0.0, 1.0, -1.0, 0.7] { add(t.near(x)) }
        for x in [root as i128 / 2, -(root as i128) / 7, -3] { add(Some(x as u128)) }
        for x in t.parts(0).iter().take(2) { add(Some(*x)) }
        for x in [-2.25, 2.0, 1.3, -0.5, 5.0] { add(t.near(x)) }
        for x in [big / 3, t.lo() / 5] { add(Some(x as u128)) }
        v.truncate(if t.kind == Kind::Int { if thorough() { 15 } else { 12 } } else if thorough() { 12 } else { 8 });
        mc::prim::leak(v)
    };
    for law in laws {
        let count = (v.len() as u64).pow(6);
        let most = t.max().powf(if divides { 0.25 } else { 0.5 });
        let least = t.tiny().powf(0.25);
        ck.unit(format!("{} {}", law.name, t.name), count, move |i, r| {
            let (z, w, u) = triple(i, v);
            let l1 = |z: B| { let z = t.f2(z); z.0.abs() + z.1.abs() };
            let (x, y, s) = (l1(z), l1(w), l1(u));
            let bound = (law.bound)(x, y, s);
            let tol;
            if law.name.starts_with("polar") {
                // A product of magnitude zero has no angle.
                let (a, d, e) = (t.f2(z).0.abs(), t.f2(w).0.abs(), t.f2(u).0.abs());
                if [a, d, e, a * d, a * e, d * e, a * d * e].iter().any(|m| *m < if t.kind == Kind::Int { 1.0 } else { 8.0 * t.grain() * (1.0 + a) * (1.0 + d) * (1.0 + e) }) { return r.skip() }
            }
            if t.kind == Kind::Float {
                // Every factor, and its square where one divides, stays clear of the limits.
                let all = [x, y, s, x * y, x * s, y * s, x * y * s, bound];
                if all.iter().any(|a| *a > most) { return r.skip() }
                if divides && all.iter().any(|a| *a != 0.0 && *a < least) || divides && (y == 0.0 || s == 0.0) { return r.skip() }
                tol = 64.0 * t.eps() * bound + t.grain() * 64.0 * (1.0 + x) * (1.0 + y) * (1.0 + s);
            } else {
                if !(bound < t.max() - 8.0 * t.ulp() * (1.0 + x) * (1.0 + y) * (1.0 + s)) { return r.skip() }
                // Every product loses up to two units, which later factors multiply.
                tol = if t.kind == Kind::Int { 0.0 } else { law.products * 4.0 * t.ulp() * (1.0 + x) * (1.0 + y) * (1.0 + s) * if law.products > 2.0 { (1.0 + x) * (1.0 + y) } else { 1.0 } + 4e-16 * bound };
            }
            let sides = guarded(|| (law.sides)(z, w, u));
            r.calls(4);
            let ok = sides.is_some_and(|(l, k)| t.close(l, t.f2(k), (tol, tol)).map(|e| r.worst(e)).is_ok());
            let d = sides.map(|s| dig(s.0)).unwrap_or(1);
            r.check(ok, d, bound != 0.0, || format!("{} {}: z = {}, w = {}, u = {}: {}", t.name, law.name, t.show2(z), t.show2(w), t.show2(u), sides.map(|(l, k)| format!("{} against {}", t.show2(l), t.show2(k))).unwrap_or("panic".into())));
            r.sample(|| format!("z = {}, w = {}, u = {}: {}", t.show2(z), t.show2(w), t.show2(u), sides.map(|(l, _)| t.show2(l)).unwrap_or_default()));
        });
    }
}
trait Fl: Cp + MixedPi + MixedAbs + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + Mixedlog + Mixedlog2 + Mixedlog10 + DbMag + DbPow + MixedPow + core::ops::MulAssign {}
impl<T: Cp + MixedPi + MixedAbs + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + Mixedlog + Mixedlog2 + Mixedlog10 + DbMag + DbPow + MixedPow + core::ops::MulAssign> Fl for T {}

/// One functional equation: where it is defined, both sides, and the error allowed, in units of the rounding.
struct Eq1<T> { name: &'static str, dom: fn(f64, f64) -> bool, sides: fn(T, T) -> (f64, f64), err: fn(f64, f64, f64) -> f64, two: bool }
fn equations<T: Fl>() -> Vec<Eq1<T>> {
    // A property of x, or of x and y; the error by x, y and the larger side.
    macro_rules! one { ($($name:literal $dom:expr, $err:expr, $sides:expr;)*) => { vec![$( Eq1 { name: $name, dom: $dom, sides: $sides, err: $err, two: false } ),*] } }
    macro_rules! two { ($($name:literal $dom:expr, $err:expr, $sides:expr;)*) => { vec![$( Eq1 { name: $name, dom: $dom, sides: $sides, err: $err, two: true } ),*] } }
    fn r<T: Val>(x: T) -> f64 { x.real() }
    let mut v: Vec<Eq1<T>> = one![
        "sine and cosine squared" |x, _| x.is_finite(), |_, _, _| 16.0, |x, _| (r(x.mixed_sin()).powi(2) + r(x.mixed_cos()).powi(2), 1.0);
        "sine and cosine squared, at once" |x, _| x.is_finite(), |_, _, _| 16.0, |x, _| { let (s, k) = x.mixed_sincos(); (r(s).powi(2) + r(k).powi(2), 1.0) };
        "tangent" |x, _| x.is_finite(), |_, _, m| 16.0 * m, |x, _| (r(x.mixed_tan()), r(x.mixed_sin()) / r(x.mixed_cos()));
        "arcsine and arccosine" |x, _| x.abs() <= 1.0, |_, _, _| 16.0, |x, _| (r(x.mixed_asin()) + r(x.mixed_acos()), std::f64::consts::FRAC_PI_2);
        "arctangents of a number and its reciprocal" |x, _| x.abs() > 1e-30 && x.abs() < 1e30, |_, _, _| 16.0, |x, _| (r(x.mixed_atan()) + r((T::mixed_one() / x).mixed_atan()), std::f64::consts::FRAC_PI_2.copysign(r(x)));
        "arctangent of sine over cosine" |x, _| x.abs() < 3.14, |_, _, _| 16.0, |x, _| (r(x.mixed_sin().mixed_atan2(x.mixed_cos())), r(x));
        "hyperbolic sine and cosine" |x, _| x.abs() < 20.0, |x, _, _| 32.0 * x.cosh().powi(2), |x, _| (r(x.mixed_cosh()).powi(2) - r(x.mixed_sinh()).powi(2), 1.0);
        "hyperbolic functions and the exponential" |x, _| x.abs() < 88.0, |x, _, _| 16.0 * x.cosh(), |x, _| (r(x.mixed_cosh()) + r(x.mixed_sinh()), r(x.mixed_exp()));
        "hyperbolic tangent" |x, _| x.abs() < 88.0, |_, _, m| 16.0 * m, |x, _| (r(x.mixed_tanh()), r(x.mixed_sinh()) / r(x.mixed_cosh()));
        "decibels of powers and magnitudes" |x, _| x > 0.0 && x.is_finite(), |_, _, m| 16.0 * (m + 1.0), |x, _| (r(x.mixed_mag2db()), 2.0 * r(x.mixed_pow2db()));
        "magnitudes and powers of decibels" |x, _| x.abs() < 300.0, |x, _, m| m * (16.0 + x.abs()), |x, _| (r(x.mixed_db2mag()).powi(2), r(x.mixed_db2pow()));
        "logarithms to other bases" |x, _| x > 0.0 && x.is_finite(), |_, _, m| 16.0 * m + 1e-3, |x, _| (r(x.mixed_log10()) * std::f64::consts::LN_10, r(x.mixed_log()));
        "logarithms to other bases, two" |x, _| x > 0.0 && x.is_finite(), |_, _, m| 16.0 * m + 1e-3, |x, _| (r(x.mixed_log2()) * std::f64::consts::LN_2, r(x.mixed_log()));
        "exponentials of other bases" |x, _| x.abs() < 37.0, |x, _, m| m * (16.0 + 4.0 * x.abs()), |x, _| (r(x.mixed_exp10()), r((x * float::<T>(std::f64::consts::LN_10)).mixed_exp()));
        "exponentials of other bases, two" |x, _| x.abs() < 126.0, |x, _, m| m * (16.0 + 2.0 * x.abs()), |x, _| (r(x.mixed_exp2()), r((x * float::<T>(std::f64::consts::LN_2)).mixed_exp()));
        "power one half" |x, _| x >= 0.0 && x.is_finite(), |_, _, m| 16.0 * m, |x, _| (r(x.mixed_pow(float::<T>(0.5))), r(x.mixed_sqrt()));
        "third power of the cube root" |x, _| x.abs() < 1e30, |_, _, m| 32.0 * m + 1.0, |x, _| (r(x.mixed_cbrt()).powi(3), r(x));
        "floor and ceiling" |x, _| x.abs() < 1e30, |_, _, _| 0.0, |x, _| { let d = r(x.mixed_ceil()) - r(x.mixed_floor()); (d, if r(x).fract() == 0.0 { 0.0 } else { 1.0 }) };
        "whole turns do not change sines" |x, _| x.abs() < 1000.0, |x, _, _| 16.0 + 8.0 * x.abs(), |x, _| (r(x.mixed_wrap_phase().mixed_sin()), r(x.mixed_sin()));
    ];
    v.extend::<Vec<Eq1<T>>>(two![
        "sine of a sum" |x, y| x.abs() < 1000.0 && y.abs() < 1000.0, |x, y, _| 16.0 + x.abs() + y.abs(), |x, y| (r((x + y).mixed_sin()), r(x.mixed_sin()) * r(y.mixed_cos()) + r(x.mixed_cos()) * r(y.mixed_sin()));
        "cosine of a sum" |x, y| x.abs() < 1000.0 && y.abs() < 1000.0, |x, y, _| 16.0 + x.abs() + y.abs(), |x, y| (r((x + y).mixed_cos()), r(x.mixed_cos()) * r(y.mixed_cos()) - r(x.mixed_sin()) * r(y.mixed_sin()));
        "exponential of a sum" |x, y| x.abs() < 40.0 && y.abs() < 40.0, |x, y, m| m * (16.0 + x.abs() + y.abs()), |x, y| (r((x + y).mixed_exp()), r(x.mixed_exp()) * r(y.mixed_exp()));
        "exponential of a sum, two" |x, y| x.abs() < 60.0 && y.abs() < 60.0, |x, y, m| m * (16.0 + x.abs() + y.abs()), |x, y| (r((x + y).mixed_exp2()), r(x.mixed_exp2()) * r(y.mixed_exp2()));
        "exponential of a sum, ten" |x, y| x.abs() < 18.0 && y.abs() < 18.0, |x, y, m| m * (16.0 + 4.0 * (x.abs() + y.abs())), |x, y| (r((x + y).mixed_exp10()), r(x.mixed_exp10()) * r(y.mixed_exp10()));
        "logarithm of a product" |x, y| x > 1e-18 && x < 1e18 && y > 1e-18 && y < 1e18, |x, y, _| 16.0 * (2.0 + x.ln().abs() + y.ln().abs()), |x, y| (r((x * y).mixed_log()), r(x.mixed_log()) + r(y.mixed_log()));
        "square root of a product" |x, y| x > 1e-18 && x < 1e18 && y > 1e-18 && y < 1e18, |_, _, m| 16.0 * m, |x, y| (r((x * y).mixed_sqrt()), r(x.mixed_sqrt()) * r(y.mixed_sqrt()));
        "cube root of a product" |x, y| x.abs() > 1e-18 && x.abs() < 1e18 && y.abs() > 1e-18 && y.abs() < 1e18, |_, _, m| 16.0 * m, |x, y| (r((x * y).mixed_cbrt()), r(x.mixed_cbrt()) * r(y.mixed_cbrt()));
        "powers by logarithm" |x, y| x > 0.0 && x.is_finite() && (y * x.ln()).abs() < 80.0, |x, y, m| m * (16.0 + 16.0 * (y * x.ln()).abs()), |x, y| (r(x.mixed_pow(y)), r((y * x.mixed_log()).mixed_exp()));
        "power of a product" |x, y| x > 1e-9 && x < 1e9 && y > 1e-9 && y < 1e9, |_, _, m| m * 32.0, |x, y| (r((x * y).mixed_powi(2)), r(x.mixed_powi(2)) * r(y.mixed_powi(2)));
        "angle in one and two arguments" |x, y| x.abs() > 1e-18 && x < 1e18 && y > 1e-18 && y < 1e18, |_, _, _| 16.0, |x, y| (r(x.mixed_atan2(y)), r((x / y).mixed_atan()));
        "angle of the scaled point" |x, y| x.abs() < 1e18 && y.abs() < 1e18, |_, _, _| 16.0, |x, y| (r(x.mixed_atan2(y)), r((x * float::<T>(2.0)).mixed_atan2(y + y)));
        "exponential of an imaginary number" |x, y| x.abs() < 40.0 && y.abs() < 1000.0, |_, _, m| 16.0 * m, |x, y| { let z = C::new(x, y).mixed_exp(); (r(z.re).hypot(r(z.im)), r(x.mixed_exp())) };
    ]);
    v
}
fn float<T: Val>(x: f64) -> T { T::of_bits(if size_of::<T>() == 4 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 }) }
fn functions<T: Fl>(ck: &mut Check) {
    let t = ty::<T>();
    let spec: Vec<f64> = lattice::specials();
    let f64s = |m: u32, lo, hi| -> Vec<u128> { let mut v: Vec<u128> = lattice::f64_vals(m, lo, hi).into_iter().chain(lattice::f64_near(&spec, 3)).filter(|x| x.is_finite()).map(|x| t.near(x).unwrap()).collect(); v.sort_unstable(); v.dedup(); v };
    let one: &'static [u128] = mc::prim::leak(f64s(if thorough() { 14 } else { 10 }, -60, 60).into_iter().chain(f64s(6, -1022, 1023)).collect());
    let two: &'static [u128] = mc::prim::leak({ let mut v: Vec<u128> = f64s(if thorough() { 4 } else { 2 }, -30, 30); v.extend((-200..200).map(|k| t.near(k as f64 * 0.37).unwrap())); v });
    for e in equations::<T>() {
        let n = two.len() as u64;
        // Functions of one argument take many more values of f32.
        let drop = if thorough() { 2 } else { 10 };
        let extra = if !e.two && t.w == 32 { lattice::f32_count(drop) } else { 0 };
        let count = if e.two { n * n } else { one.len() as u64 };
        ck.unit(format!("{} {}", e.name, t.name), count + extra, move |i, r| {
            let (x, y) = if i >= count { (lattice::f32_at(i - count, drop).to_bits() as u128, 0) } else if e.two { (two[(i % n) as usize], two[(i / n) as usize]) } else { (one[i as usize], 0) };
            let (xf, yf) = (t.f(x), t.f(y));
            if xf.is_nan() || !(e.dom)(xf, yf) { return r.skip() }
            let (a, k) = (e.sides)(T::of_bits(x), T::of_bits(y));
            r.calls(2);
            let m = a.abs().max(k.abs());
            let tol = t.eps() * (e.err)(xf, yf, m.min(t.max())) + 16.0 * t.grain() * (1.0 + m.min(1.0 / t.eps()));
            let d = (a - k).abs();
            let ok = a == k || d <= tol || m > t.max() / 4.0 && a * k > 0.0;
            if ok && d.is_finite() && tol > 0.0 { r.worst(d / tol) }
            r.check(ok, a.to_bits(), a != 0.0, || format!("{} {}: x = {xf:?}, y = {yf:?}: {a:?} against {k:?}", t.name, e.name));
            r.sample(|| format!("x = {xf:?}, y = {yf:?}: {a:?} against {k:?}"));
        });
    }
}
fn fixed<T: SFx + Val>(ck: &mut Check) {
    let name = T::name();
    let v = lattice::fx_vals::<T>(if thorough() { 11 } else { 7 }, &[1.0, 0.5, 1.5707, 3.1415, 6.28, 0.7071], 4);
    let ulp = T::ulp();
    ck.unit(format!("functions {name}"), v.len() as u64, move |i, r| {
        let x = T::of(v[i as usize]);
        let base = 32.0 * ulp + 1e-15;
        let (s, k) = x.mixed_sincos();
        r.calls(5);
        for (s, k, how) in [(s, k, "at once"), (x.mixed_sin(), x.mixed_cos(), "apart")] {
            let e = (s.f().powi(2) + k.f().powi(2) - 1.0).abs();
            r.worst(e / (4.0 * base));
            r.check(e <= 4.0 * base, s.raw() as u64, true, || format!("{name}: sine and cosine of {x}, {how}, are {s} and {k}: the sum of their squares is not one"));
        }
        let e = (x.mixed_asin().f() + x.mixed_acos().f() - std::f64::consts::FRAC_PI_2).abs();
        r.check(e <= 4.0 * ulp + 1e-15, 0, true, || format!("{name}: arcsine and arccosine of {x} are {} and {}", x.mixed_asin(), x.mixed_acos()));
        if x.raw() != 0 && (1.0 / x.f()).abs() < T::max_f() {
            if let Some(y) = T::near(1.0 / x.f()) {
                let a = x.mixed_atan().f() + y.mixed_atan().f();
                let want = std::f64::consts::FRAC_PI_2.copysign(x.f());
                let tol = 2.0 * base + 2.0 * ulp;
                r.check((a - want).abs() <= tol, a.to_bits(), true, || format!("{name}: the arctangents of {x} and {y} are {} and {}", x.mixed_atan(), y.mixed_atan()));
            }
        }
        r.sample(|| format!("{x}: sine {s}, cosine {k}"));
    });
}
macro_rules! int_types { ($c:ident; $($t:ident)*) => { $( machine(&mut $c, ty::<$t>(), laws::<$t>(), false); )* } }
fn fixed_laws<T: SFx + Val + Cp>(ck: &mut Check) { machine(ck, ty::<T>(), laws::<T>(), false) }
fn main() {
    let mut c = Check::new("C30", "state: three complex numbers (all combinations over an alphabet of component values), or one or two arguments of a function (f32: significands of 14 bits, 22 in the thorough tier; lattices otherwise); transition: the operations on both sides of a law; oracle: the other side - exactly for integers, within the rounding of the steps for fixed and floating point");
    c.assume("operands for which the type cannot hold a result on the way are outside the domain");
    signed_int!(int_types!(c));
    machine(&mut c, ty::<f32>(), laws::<f32>(), false);
    machine(&mut c, ty::<f64>(), laws::<f64>(), false);
    machine(&mut c, ty::<f32>(), quotients::<f32>(), true);
    machine(&mut c, ty::<f64>(), quotients::<f64>(), true);
    functions::<f32>(&mut c);
    functions::<f64>(&mut c);
    each_signed!(fixed(&mut c));
    each_signed!(fixed_laws(&mut c));
    c.run()
}
