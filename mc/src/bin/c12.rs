//! Fixed point trigonometry.
use mc::fx::Fx;
use mc::lattice;
use mc::prim::leak;
use mc::val::Val;
use mc::*;
use mixed_num::*;
use std::f64::consts::*;

/// Error of the iterations, in units in the last place.
const ULPS: f64 = 32.0;
/// Double precision oracle and constants.
const ORACLE: f64 = 6e-16;

struct Fns<T> {
    sin: fn(T) -> T,
    cos: fn(T) -> T,
    sincos: fn(T) -> (T, T),
    asin: fn(T) -> T,
    acos: fn(T) -> T,
    atan: fn(T) -> T,
    atan2: fn(T, T) -> T,
}

fn obs<T: Fx>(r: &mut Rep, what: &str, arg: &dyn Fn() -> String, got: T, want: f64, tol: f64) {
    let err = (got.f() - want).abs();
    r.calls(1);
    r.worst(err / tol);
    r.check(err <= tol, got.raw() as u64, want != 0.0, || format!("{}: {what}({}) is {got}, expected {want} within {tol:e}", T::name(), arg()));
}

fn fx<T: Fx + MixedSin + MixedCos + MixedAtan + MixedPi>(c: &mut Check) {
    let ulp = T::ulp();
    let f = Fns::<T> { sin: |x| x.mixed_sin(), cos: |x| x.mixed_cos(), sincos: |x| x.mixed_sincos(), asin: |x| x.mixed_asin(), acos: |x| x.mixed_acos(), atan: |x| x.mixed_atan(), atan2: |y, x| y.mixed_atan2(x) };
    let pi_err = (T::mixed_pi().f() - PI).abs() + 2e-16;
    let base = ULPS * ulp + ORACLE;
    let mut pts: Vec<f64> = (1..=16).map(|k| k as f64 * FRAC_PI_4).collect();
    pts.extend([1.0, 0.5, SQRT_2 / 2.0, 0.999, 0.9999, 100.0 * PI, 1000.0 * PI]);
    let v = lattice::fx_vals::<T>(if thorough() { 11 } else { 7 }, &pts, 4);
    let mut grid: Vec<i128> = v.to_vec();
    if T::BITS > 16 {
        let n = if thorough() { 100000 } else { 4000 };
        grid.extend((0..n).filter_map(|i| T::near(-PI * 1.1 + 2.2 * PI * i as f64 / n as f64)).map(|x| x.raw()));
    }
    let grid = leak(grid);
    c.unit(format!("one {}", T::name()), grid.len() as u64, move |i, r| {
        let x = T::of(grid[i as usize]);
        let xf = x.f();
        let a = || format!("{x}");
        // Angles are wrapped with the type's pi; half a unit may be lost per turn.
        let turns = ((xf.abs() + PI) / (2.0 * PI)).floor();
        // The oracle gets the angle rounded to double precision.
        let far = base + turns * (2.0 * pi_err + 1.5 * ulp) + xf.abs() * f64::EPSILON;
        if far < 0.5 {
            obs(r, "sin", &a, (f.sin)(x), xf.sin(), far);
            obs(r, "cos", &a, (f.cos)(x), xf.cos(), far);
            let (s, k) = (f.sincos)(x);
            obs(r, "sincos.0", &a, s, xf.sin(), far);
            obs(r, "sincos.1", &a, k, xf.cos(), far);
        } else {
            // No accuracy is left, but they are still a sine and a cosine.
            let (s, k) = (f.sincos)(x);
            obs(r, "sin", &a, (f.sin)(x), 0.0, 1.0 + base);
            obs(r, "cos", &a, (f.cos)(x), 0.0, 1.0 + base);
            obs(r, "sin^2+cos^2", &a, T::near(s.f() * s.f() + k.f() * k.f()).unwrap_or(T::of(0)), 1.0, 4.0 * base);
        }
        obs(r, "atan", &a, (f.atan)(x), xf.atan(), base);
        // The square root inside loses accuracy where the arcsine is steep; beyond one the result saturates.
        let q = xf.clamp(-1.0, 1.0);
        // The distance from one is exact, also where a double does not resolve the argument.
        let t = (((1i128 << T::FRAC) - x.raw().abs()).max(0)) as f64 * ulp;
        let steep = (t * (2.0 - t)).sqrt();
        let asin = if t < 0.5 { q.signum() * (FRAC_PI_2 - 2.0 * (t / 2.0).sqrt().asin()) } else { q.asin() };
        // One minus the square is known to a unit, which its root multiplies near one.
        let tol = base + 3.0 * ulp / (steep + ulp.sqrt());
        obs(r, "asin", &a, (f.asin)(x), asin, tol);
        obs(r, "acos", &a, (f.acos)(x), if t < 0.5 && xf > 0.0 { 2.0 * (t / 2.0).sqrt().asin() } else { FRAC_PI_2 - asin }, tol + 2.0 * ulp);
        r.sample(|| format!("{x}: sin {} cos {} atan {} asin {}", (f.sin)(x), (f.cos)(x), (f.atan)(x), (f.asin)(x)));
    });
    let v = if T::BITS == 8 { lattice::fx_vals::<T>(8, &[], 0) } else { lattice::fx_vals::<T>(if thorough() { 4 } else { 2 }, &[1.0, 2.0, 3.0, 0.1, 0.7, 1.7], 1) };
    let n = v.len() as u64;
    c.unit(format!("atan2 {}", T::name()), n * n, move |i, r| {
        let (y, x) = (T::of(v[(i % n) as usize]), T::of(v[(i / n) as usize]));
        let want = y.f().atan2(x.f());
        obs(r, "atan2", &|| format!("{y}, {x}"), (f.atan2)(y, x), want, base + 1e-15);
        r.sample(|| format!("atan2({y}, {x}) = {}", (f.atan2)(y, x)));
    });
}

fn main() {
    let mut c = Check::new("C12", "state: an argument or a pair (8-bit pairs and 16-bit arguments complete; lattices of short and sparse bit patterns, multiples of pi/4, an even grid over the circle for wider types), transition: sine, cosine, both, arcsine, arccosine, arctangent, atan2; oracle: double precision functions, error of the iterations in units in the last place");
    c.assume("for types with more than about 50 fractional bits the comparison is limited by double precision");
    each_signed!(fx(&mut c));
    let _ = <f32 as Val>::signed();
    c.run()
}
