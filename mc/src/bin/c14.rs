//! Decibels.
use mc::lattice;
use mc::prim::leak;
use mc::val::Val;
use mc::*;
use mixed_num::*;

trait Db: Val + DbMag + DbPow { const EPS: f64; const TINY: f64; }
impl Db for f32 { const EPS: f64 = f32::EPSILON as f64; const TINY: f64 = f32::MIN_POSITIVE as f64; }
impl Db for f64 { const EPS: f64 = f64::EPSILON; const TINY: f64 = f64::MIN_POSITIVE; }

fn near<T: Db>(what: &str, x: T, got: T, want: f64, tol: f64, r: &mut Rep) {
    r.calls(1);
    let (g, w) = (got.real(), want);
    let err = if g == w || g.is_nan() && w.is_nan() { 0.0 } else { (g - w).abs() };
    r.worst(err / tol);
    r.check(err == 0.0 || err <= tol, got.digest(), g.is_finite() && g != 0.0, || format!("{}: {what}({x:?}) is {got:?}, expected {want} within {tol:e}", T::vname()));
}

fn step<T: Db>(x: T, r: &mut Rep) {
    let xf = x.real();
    for (what, per, to, from) in [
        ("mag2db", 20.0, T::mixed_mag2db as fn(&T) -> T, T::mixed_db2mag as fn(&T) -> T),
        ("pow2db", 10.0, T::mixed_pow2db, T::mixed_db2pow),
    ] {
        let l = to(&x);
        let want = per * xf.log10();
        near(what, x, l, want, 4.0 * T::EPS * want.abs() + T::TINY, r);
        // Back: the error of the level, in decibels, becomes a relative one.
        if xf > T::TINY && xf.is_finite() {
            let tol = xf * (8.0 * T::EPS + 6.0 * T::EPS * want.abs() * std::f64::consts::LN_10 / per);
            if xf + tol < T::max() {
                near("back from db", x, from(&l), xf, tol, r);
            }
        }
        // As a level.
        let y = from(&x);
        let want = (xf / per * std::f64::consts::LN_10).exp();
        let big = T::max();
        let rel = 8.0 * T::EPS + 8.0 * T::EPS * (xf / per).abs() * 2.4;
        if want > big * (1.0 - rel) && want < big * (1.0 + rel) {
            continue;
        }
        let want = if want > big { f64::INFINITY } else { want };
        near(if per == 20.0 { "db2mag" } else { "db2pow" }, x, y, want, want.min(big) * rel + T::TINY * T::EPS * 2.0, r);
    }
    r.sample(|| format!("{x:?}: {:?} dB, {:?} dB (power)", x.mixed_mag2db(), x.mixed_pow2db()));
}

fn main() {
    let mut c = Check::new("C14", "state: a number (f32: every value with a 16-bit significand, all in the thorough tier; f64: short significands at every exponent), transition: to decibels and back, and from decibels, for magnitudes and powers; oracle: double precision logarithm and exponential");
    let drop = if thorough() { 0 } else { 8 };
    c.unit("f32", lattice::f32_count(drop), move |i, r| step(lattice::f32_at(i, drop), r));
    let pts: Vec<f64> = (0..800).map(|k| k as f64 / 2.0).chain([1e-3, 0.1, 1e3, 1e6]).collect();
    let v = leak(lattice::f32_near(&pts, 64));
    c.unit("f32 near", v.len() as u64, move |i, r| step(v[i as usize], r));
    let mut v = lattice::f64_near(&pts, 64);
    v.extend(lattice::f64_vals(if thorough() { 12 } else { 8 }, -1022, 1023));
    v.extend(lattice::f64_vals(if thorough() { 17 } else { 14 }, -12, 12));
    let v = leak(v);
    c.unit("f64", v.len() as u64, move |i, r| step(v[i as usize], r));
    c.run()
}
