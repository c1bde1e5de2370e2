//! The polynomial sine and cosine.
use mc::fx::Fx;
use mc::lattice;
use mc::prim::leak;
use mc::val::Val;
use mc::*;
use mixed_num::*;
use std::f64::consts::*;

/// The tenth order remainder of the series at a quarter turn.
const ACC: f64 = 3.6e-6;

trait Real: Val + MixedNum + MixedOps + MixedPowi + MixedNumSigned + MixedPi + MixedWrapPhase {}
impl<T: Val + MixedNum + MixedOps + MixedPowi + MixedNumSigned + MixedPi + MixedWrapPhase> Real for T {}

#[inline(always)]
fn step<T: Real>(x: T, slack: f64, per_turn: f64, r: &mut Rep) {
    let xf = x.real();
    let pi = T::mixed_pi().real();
    let tol = ACC + slack;
    if -pi <= xf && xf < pi {
        let s = trigonometry::sin(x);
        r.calls(1);
        let err = (s.real() - xf.sin()).abs();
        r.worst(err / tol);
        r.check(err <= tol, s.digest(), xf != 0.0, || format!("{}: sin({x:?}) is {s:?}, expected {}", T::vname(), xf.sin()));
        r.check(xf != 0.0 || s.real() == 0.0, 0, false, || format!("{}: sin(0) is {s:?}", T::vname()));
    }
    let k = trigonometry::cos(x);
    r.calls(1);
    // The cosine wraps its argument with the type's pi.
    let turns = ((xf.abs() + PI) / (2.0 * PI)).floor();
    let err = (k.real() - xf.cos()).abs();
    let tol = tol + turns * per_turn;
    r.worst(err / tol);
    r.check(err <= tol, k.digest(), xf != 0.0, || format!("{}: cos({x:?}) is {k:?}, expected {}", T::vname(), xf.cos()));
    r.sample(|| format!("{x:?}: cos {k:?}"));
}

fn fx<T: Fx + Real>(c: &mut Check) {
    let v = lattice::fx_vals::<T>(if thorough() { 12 } else { 9 }, &[FRAC_PI_4, FRAC_PI_2, PI, 1.5 * PI, 2.0 * PI, 3.0 * PI, 1.0, 0.5], 16);
    let d = (T::mixed_pi().f() - PI).abs() + 2e-16;
    c.unit(<T as Fx>::name(), v.len() as u64, move |i, r| step(T::of(v[i as usize]), 8.0 * T::ulp(), 2.0 * d + T::ulp(), r));
    // Evenly spaced over the wrapped range.
    if T::BITS > 16 && T::FRAC > 12 {
        let n = 1u64 << if thorough() { 20 } else { 14 };
        c.unit(format!("{} even", <T as Fx>::name()), n, move |i, r| {
            let x = -PI + 2.0 * PI * i as f64 / n as f64;
            step(T::near(x).unwrap(), 8.0 * T::ulp(), 2.0 * d + T::ulp(), r)
        });
    }
}

fn main() {
    let mut c = Check::new("C09", "state: an argument (8/16-bit fixed point complete; every f32 with the low significand bits zero; lattices and even grids over the wrapped range for wider types), transition: the polynomial sine (wrapped arguments) and cosine; oracle: double precision sine and cosine, remainder of the series plus rounding");
    c.assume("the sine is only promised for arguments wrapped to [-pi, pi), as its documentation says");
    let drop = if thorough() { 2 } else { 8 };
    c.unit("f32 grid", lattice::f32_count(drop), move |i, r| {
        let x = lattice::f32_at(i, drop);
        // Far out the argument's own rounding is whole radians.
        if !(x.abs() <= 65536.0) {
            return r.skip();
        }
        step(x, 4e-7, 2e-7, r)
    });
    let mut near = lattice::f32_near(&[FRAC_PI_4, FRAC_PI_2, PI, 1.5 * PI, 2.0 * PI, 3.0 * PI], 256);
    near.retain(|x| x.abs() <= 65536.0);
    let near = leak(near);
    c.unit("f32 constants", near.len() as u64, move |i, r| step(near[i as usize], 4e-7, 2e-7, r));
    let mut v = lattice::f64_vals(if thorough() { 16 } else { 12 }, -20, 4);
    v.extend(lattice::f64_near(&[FRAC_PI_4, FRAC_PI_2, PI, 1.5 * PI, 2.0 * PI, 3.0 * PI], 64));
    for i in 0..200000 {
        v.push(-10.0 + i as f64 / 10000.0);
    }
    v.retain(|x| x.is_finite() && x.abs() < 1e6);
    let v = leak(v);
    c.unit("f64", v.len() as u64, move |i, r| step(v[i as usize], 1e-15, 3e-16, r));
    each_signed!(fx(&mut c));
    c.run()
}
