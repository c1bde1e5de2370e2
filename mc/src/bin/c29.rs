//! Results stay in the range of their function, and rise with the argument where the function does.
use mc::fx::Fx;
use mc::val::Val;
use mc::cplx::*;
use mc::*;
use mixed_num::*;

/// A float type as ordered by value: the number `k` places above zero, or below for negative `k`.
trait Ordered: Val {
    fn nth(k: i64) -> Self;
    fn place(self) -> i64;
}
macro_rules! ordered { ($t:ident $u:ident $i:ident) => {
    impl Ordered for $t {
        #[inline(always)]
        fn nth(k: i64) -> Self { let m = $t::from_bits(k.unsigned_abs() as $u); if k < 0 { -m } else { m } }
        #[inline(always)]
        fn place(self) -> i64 { let m = (self.abs().to_bits()) as i64; if self.is_sign_negative() { -m } else { m } }
    }
} }
ordered!(f32 u32 i32);
ordered!(f64 u64 i64);

trait Fl: Ordered + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + Mixedlog + Mixedlog2 + Mixedlog10 + DbMag + DbPow {}
impl<T: Ordered + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + Mixedlog + Mixedlog2 + Mixedlog10 + DbMag + DbPow> Fl for T {}

const INF: f64 = f64::INFINITY;
struct Fun<T> { name: &'static str, f: fn(T) -> T, /// where the argument lies
    dom: (f64, f64), /// where the result lies, ends rounded to the type
    range: (f64, f64), /// 1: rises, -1: falls, 0: neither
    dir: i32, /// units in the last place by which a rising result may fall
    slack: f64 }
/// What the best implementations of the elementary functions do not keep below one, with room for other ones.
const ULPS: f64 = 8.0;
fn funs<T: Fl>() -> Vec<Fun<T>> {
    use std::f64::consts::{FRAC_PI_2, PI};
    macro_rules! f { ($($m:ident $dom:expr, $range:expr, $dir:literal;)*) => { vec![$( Fun { name: stringify!($m), f: |x: T| x.$m(), dom: $dom, range: $range, dir: $dir, slack: ULPS } ),*] } }
    let mut v: Vec<Fun<T>> = f![
        mixed_sin (-INF, INF), (-1.0, 1.0), 0;
        mixed_cos (-INF, INF), (-1.0, 1.0), 0;
        mixed_asin (-1.0, 1.0), (-FRAC_PI_2, FRAC_PI_2), 1;
        mixed_acos (-1.0, 1.0), (0.0, PI), -1;
        mixed_atan (-INF, INF), (-FRAC_PI_2, FRAC_PI_2), 1;
        mixed_sinh (-INF, INF), (-INF, INF), 1;
        mixed_cosh (0.0, INF), (1.0, INF), 1;
        mixed_tanh (-INF, INF), (-1.0, 1.0), 1;
        mixed_asinh (-INF, INF), (-INF, INF), 1;
        mixed_acosh (1.0, INF), (0.0, INF), 1;
        mixed_atanh (-1.0, 1.0), (-INF, INF), 1;
        mixed_exp (-INF, INF), (0.0, INF), 1;
        mixed_exp2 (-INF, INF), (0.0, INF), 1;
        mixed_exp10 (-INF, INF), (0.0, INF), 1;
        mixed_log (0.0, INF), (-INF, INF), 1;
        mixed_log2 (0.0, INF), (-INF, INF), 1;
        mixed_log10 (0.0, INF), (-INF, INF), 1;
        mixed_sqrt (0.0, INF), (0.0, INF), 1;
        mixed_niirf (0.0, INF), (0.0, INF), 1;
        mixed_cbrt (-INF, INF), (-INF, INF), 1;
        mixed_abs (0.0, INF), (0.0, INF), 1;
        mixed_ceil (-INF, INF), (-INF, INF), 1;
        mixed_floor (-INF, INF), (-INF, INF), 1;
        mixed_mag2db (0.0, INF), (-INF, INF), 1;
        mixed_pow2db (0.0, INF), (-INF, INF), 1;
        mixed_db2mag (-INF, INF), (0.0, INF), 1;
        mixed_db2pow (-INF, INF), (0.0, INF), 1;
        mixed_sign (-INF, INF), (-1.0, 1.0), 1;
    ];
    macro_rules! g { ($($name:literal $m:expr, $dom:expr, $range:expr, $dir:literal;)*) => { v.extend([$( Fun { name: $name, f: $m, dom: $dom, range: $range, dir: $dir, slack: ULPS } ),*]) } }
    g![
        "mixed_wrap_phase" |x: T| x.mixed_wrap_phase(), (-INF, INF), (-PI, PI), 0;
        "mixed_wrap_phase up to half a turn" |x: T| x.mixed_wrap_phase(), (-3.1415925, 3.1415925), (-PI, PI), 1;
        "mixed_sin up to a quarter turn" |x: T| x.mixed_sin(), (-1.5707963, 1.5707963), (-1.0, 1.0), 1;
        "mixed_cos up to half a turn" |x: T| x.mixed_cos(), (0.0, 3.1415925), (-1.0, 1.0), -1;
        "mixed_tan up to a quarter turn" |x: T| x.mixed_tan(), (-1.5707963, 1.5707963), (-INF, INF), 1;
        "trigonometry::atan" |x: T| trigonometry::atan::atan(x), (-INF, INF), (-1.6, 1.6), 1;
        "trigonometry::sin" |x: T| trigonometry::sin(x), (-1.5707963, 1.5707963), (-1.000004, 1.000004), 1;
        "mixed_powi(3)" |x: T| x.mixed_powi(3), (-INF, INF), (-INF, INF), 1;
        "mixed_powi(2)" |x: T| x.mixed_powi(2), (0.0, INF), (0.0, INF), 1;
        "mixed_powi(7)" |x: T| x.mixed_powi(7), (-INF, INF), (-INF, INF), 1;
        "trigonometry::powi(5)" |x: T| trigonometry::powi(x, 5), (-INF, INF), (-INF, INF), 1;
        "mixed_powi(-3)" |x: T| x.mixed_powi(-3), (0.0, INF), (0.0, INF), -1;
    ];
    for f in v.iter_mut() {
        f.slack = match f.name {
            "mixed_sqrt" | "mixed_abs" | "mixed_wrap_phase up to half a turn" | "mixed_ceil" | "mixed_floor" | "mixed_sign" => 0.0, // exactly defined
            "mixed_niirf" => INF, // relative, see below
            _ => ULPS,
        }
    }
    v
}
fn float<T: Fl>(c: &mut Check, count: u64, at: fn(u64) -> i64) {
    let t = ty::<T>();
    let rounded = |x: f64| T::of_bits(t.near(x).unwrap()).real();
    for f in funs::<T>() {
        let name = &t.name;
        let (lo, hi) = (rounded(f.range.0), rounded(f.range.1));
        let dom = f.dom;
        let inside = move |x: f64| dom.0 <= x && x <= dom.1 && (x.is_finite() || !matches!(f.name, "mixed_sin" | "mixed_cos" | "mixed_wrap_phase"));
        c.unit(format!("{} {name}", f.name), count - 1, move |i, r| {
            let k = at(i);
            let x = T::nth(k);
            if !inside(x.real()) { return r.skip() }
            let y = (f.f)(x);
            let yf = y.real();
            r.calls(1);
            r.check(lo <= yf && yf <= hi, y.digest(), yf != 0.0, || format!("{name} {} of {x:?} is {y:?}, outside of {lo:?} to {hi:?}", f.name));
            r.sample(|| format!("{x:?} gives {y:?}"));
            if f.dir != 0 {
                for l in [k + 1, at(i + 1)] {
                    let u = T::nth(l);
                    if !inside(u.real()) { continue }
                    let v = (f.f)(u);
                    let vf = v.real();
                    r.calls(1);
                    let fall = if f.dir > 0 { yf - vf } else { vf - yf };
                    let slack = if f.slack == INF { 2e-3 * yf + 8.0 * t.tiny() } else if f.slack == 0.0 { 0.0 } else { f.slack * (t.eps() * yf.abs().max(vf.abs()).min(1e300) + t.tiny() * t.eps()) };
                    let ok = yf == vf || fall <= slack;
                    r.check(ok, v.digest(), yf != vf, || format!("{name} {} of {x:?} is {y:?}, but of {u:?} it is {v:?}", f.name));
                }
            }
        });
    }
}
/// Points of the plane: magnitudes are not negative, at least as large as each part and at most their sum; angles
/// lie in one turn, in the quadrant of the point.
fn plane<T: Fl>(c: &mut Check) {
    let t = ty::<T>();
    let v = t.parts_and_extremes(if thorough() { 400 } else { 60 });
    let n = v.len() as u64;
    let name = &t.name;
    let pi = T::mixed_pi().real();
    c.unit(format!("points {name}"), n * n, move |i, r| {
        let (x, y) = (T::of_bits(v[(i % n) as usize]), T::of_bits(v[(i / n) as usize]));
        let (xf, yf) = (x.real(), y.real());
        if !xf.is_finite() || !yf.is_finite() { return r.skip() }
        let z = Cartesian::new(x, y);
        for (m, how) in [(z.mag(), "mag"), (z.abs(), "abs"), (complex::abs(z), "complex::abs"), (z.to_polar().mag, "to_polar")] {
            let m = m.real();
            let (most, least) = (xf.abs() + yf.abs(), xf.abs().max(yf.abs()));
            // The squares may overflow, or lose digits and vanish.
            let (e, low) = (8.0 * t.eps(), 4.0 * (t.tiny() * t.eps()).sqrt());
            let ok = m >= 0.0 && (m == f64::INFINITY && most >= t.max().sqrt() * 0.5 || m <= most * (1.0 + e) + low && m >= least * (1.0 - e) - low - if least < t.tiny().sqrt() * 2.0 { least * 0.5 } else { 0.0 });
            r.calls(1);
            r.check(ok, m.to_bits(), m != 0.0, || format!("{name}: {how} of ({x:?}, {y:?}) is {m:?}"));
        }
        for (a, how) in [(y.mixed_atan2(x), "mixed_atan2"), (z.arg(), "arg"), (z.ang(), "ang"), (z.to_polar().ang, "to_polar"), (y.mixed_atan2_poly(x), "mixed_atan2_poly")] {
            let f = a.real();
            // The polynomial may leave the quadrant by its error.
            let d = if how == "mixed_atan2_poly" { 0.0053 } else { 0.0 };
            let half = T::of_bits(t.near(std::f64::consts::FRAC_PI_2).unwrap()).real();
            let ok = f.abs() <= pi + d && (if yf > 0.0 { f >= -d } else if yf < 0.0 { f <= d } else { true }) && (if xf > 0.0 { f.abs() <= half + d } else if xf < 0.0 { f.abs() >= half - d - 8.0 * t.eps() } else { true });
            r.calls(1);
            r.check(ok, f.to_bits(), f != 0.0, || format!("{name}: {how} of the point ({x:?}, {y:?}) is {a:?}"));
        }
    });
}
/// Fixed point: what is never negative, and what stays in its range up to the error of the iterations.
fn fixed<T: mc::fx::SFx>(c: &mut Check) {
    use std::f64::consts::{FRAC_PI_2, PI};
    let name = T::name();
    let v = mc::lattice::fx_vals::<T>(if thorough() { 11 } else { 7 }, &[1.0, 0.5, FRAC_PI_2, PI, 2.0 * PI], 4);
    let slack = 32.0 * T::ulp() + 1e-15;
    c.unit(format!("ranges {name}"), v.len() as u64, move |i, r| {
        let x = T::of(v[i as usize]);
        let fs: [(&str, fn(T) -> T, f64, f64, f64); 9] = [
            ("mixed_sin", |x| x.mixed_sin(), -1.0, 1.0, slack),
            ("mixed_cos", |x| x.mixed_cos(), -1.0, 1.0, slack),
            ("mixed_asin", |x| x.mixed_asin(), -FRAC_PI_2, FRAC_PI_2, slack),
            ("mixed_acos", |x| x.mixed_acos(), 0.0, PI, slack),
            ("mixed_atan", |x| x.mixed_atan(), -FRAC_PI_2, FRAC_PI_2, slack),
            ("mixed_wrap_phase", |x| x.mixed_wrap_phase(), -T::mixed_pi().f(), T::mixed_pi().f() - T::ulp(), 0.0),
            ("mixed_abs", |x| x.mixed_abs(), 0.0, INF, 0.0),
            ("mixed_exp", |x| x.mixed_exp(), 0.0, INF, 0.0),
            ("mixed_sqrt", |x| x.mixed_sqrt(), 0.0, INF, 0.0),
        ];
        for (f, go, lo, hi, slack) in fs {
            let Some(y) = guarded(|| go(x)) else { continue };
            r.calls(1);
            r.check(lo - slack <= y.f() && y.f() <= hi + slack, y.raw() as u64, y.raw() != 0, || format!("{name}: {f} of {x} is {y}, outside of {lo} to {hi}"));
        }
        if x.f() > 0.0 { if let Some(y) = guarded(|| x.mixed_atan()) { r.check(y.f() >= -slack, y.raw() as u64, true, || format!("{name}: mixed_atan of {x} is {y}")); } }
        r.sample(|| format!("{x}"));
    });
}
fn main() {
    let mut c = Check::new("C29", "state: an argument and the next larger one, and the next one of the explored set (f32: significands of 16 bits, 21 in the thorough tier; f64: short significands at every exponent and the neighbourhood of special points; fixed point: lattices), or a point of the plane; transition: the function on both; oracle: the range of the function, the ends rounded to the type, and the order of the two results");
    // From minus infinity to infinity.
    if thorough() { float::<f32>(&mut c, 2 * 0xff0_0000 + 1, |i| (i as i64 - 0xff0_0000) << 3) } else { float::<f32>(&mut c, 2 * 0x7f_8000 + 1, |i| (i as i64 - 0x7f_8000) << 8) }
    static PLACES: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
    let p = PLACES.get_or_init(|| {
        let mut p: Vec<i64> = mc::lattice::f64_vals(if thorough() { 12 } else { 8 }, -1022, 1023).into_iter().chain(mc::lattice::f64_vals(if thorough() { 17 } else { 14 }, -12, 12)).chain(mc::lattice::f64_near(&mc::lattice::specials(), if thorough() { 20000 } else { 2000 })).filter(|x| !x.is_nan()).map(|x| x.place()).collect();
        p.sort_unstable();
        p.dedup();
        p
    });
    float::<f64>(&mut c, p.len() as u64, |i| PLACES.get().unwrap()[i as usize]);
    plane::<f32>(&mut c);
    plane::<f64>(&mut c);
    each_signed!(fixed(&mut c));
    c.run()
}
