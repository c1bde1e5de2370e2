//! Rounding to whole numbers.
use mc::lattice;
use mc::prim::{leak, Prim};
use mc::val::Val;
use mc::*;
use mixed_num::*;

/// The largest whole number not above the number with these fields, found with integer arithmetic.
fn floor_of(x: f64) -> f64 {
    if !x.is_finite() || x.abs() >= 4503599627370496.0 {
        return x;
    }
    let t = x as i64; // toward zero, exact
    let f = if (t as f64) > x { t - 1 } else { t };
    f as f64
}

fn step<T: Val + Prim + MixedCeil + MixedFloor>(x: T, r: &mut Rep) {
    let xf = x.real();
    let (f, k) = (x.mixed_floor(), x.mixed_ceil());
    let (wf, wk) = (floor_of(xf), -floor_of(-xf));
    r.calls(2);
    // What is whole already comes out unchanged, the sign of zero included.
    let eq = |a: f64, b: f64| a == b && (a != xf || a.is_sign_negative() == xf.is_sign_negative()) || a.is_nan() && b.is_nan();
    r.check(eq(f.real(), wf), f.digest(), wf != xf, || format!("{}: floor of {x:?} is {f:?}, expected {wf:?}", T::vname()));
    r.check(eq(k.real(), wk), k.digest(), wk != xf, || format!("{}: ceil of {x:?} is {k:?}, expected {wk:?}", T::vname()));
    r.sample(|| format!("{x:?}: floor {f:?}, ceil {k:?}"));
}

fn main() {
    let mut c = Check::new("C11", "state: a floating point number (f32: 2^28 of the 2^32 bit patterns, all of them in the thorough tier, and all within 4096 of a whole or half number's neighbourhood; f64: short significands at every exponent and the neighbours of whole and half numbers), transition: floor and ceil; oracle: integer arithmetic");
    let drop = if thorough() { 0 } else { 4 };
    c.unit("f32", lattice::f32_count(drop), move |i, r| step(lattice::f32_at(i, drop), r));
    let mut pts: Vec<f64> = (0..600).map(|k| k as f64 / 2.0).collect();
    for k in 8..60 {
        let b = mc::exact::ldexp(1.0, k);
        pts.extend([b, b + 0.5, b - 0.5, b + 1.0, b - 1.0, b * 1.5, b * 1.5 + 0.5]);
    }
    let v = leak(lattice::f32_near(&pts, if thorough() { 4096 } else { 256 }));
    c.unit("f32 near", v.len() as u64, move |i, r| step(v[i as usize], r));
    let mut v = lattice::f64_near(&pts, if thorough() { 4096 } else { 512 });
    v.extend(lattice::f64_vals(if thorough() { 16 } else { 12 }, -70, 70));
    v.extend(lattice::f64_vals(4, -1022, 1023));
    let v = leak(v);
    c.unit("f64", v.len() as u64, move |i, r| step(v[i as usize], r));
    c.run()
}
