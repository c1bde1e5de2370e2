//! The polynomial arctangent.
use mc::fx::Fx;
use mc::lattice;
use mc::prim::leak;
use mc::val::Val;
use mc::*;
use mixed_num::trigonometry::atan::{atan, atan2};
use mixed_num::*;
use std::f64::consts::PI;

/// 0.3 degrees.
const ACC: f64 = 0.3 * PI / 180.0;

trait Real: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPi + MixedAbs + MixedPowi + MixedOne + MixedAtan {}
impl<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPi + MixedAbs + MixedPowi + MixedOne + MixedAtan> Real for T {}

/// atan2(y, x), its mirror images, and the two ways to ask for it. `slack`: rounding the type is allowed.
#[inline(always)]
fn step<T: Real>(y: T, x: T, slack: f64, r: &mut Rep) {
    let (yf, xf) = (y.real(), x.real());
    let a = y.mixed_atan2_poly(x);
    r.calls(2);
    let b = atan2(y, x);
    r.check(a.same(b), 0, false, || format!("{}: atan2({y:?}, {x:?}) is {b:?} but mixed_atan2_poly gives {a:?}", T::vname()));
    let want = (yf + 0.0).atan2(xf + 0.0); // without negative zeros
    let got = a.real();
    let tol = if yf == 0.0 || xf == 0.0 { slack } else { ACC + slack };
    // A negative zero may stand for the limit from below.
    let err = if yf == 0.0 && yf.is_sign_negative() { got.abs() - want } else { got - want }.abs();
    r.worst(err / tol);
    r.check(err <= tol, a.digest(), yf != 0.0 && xf != 0.0, || format!("{}: atan2({y:?}, {x:?}) is {a:?}, expected {want}", T::vname()));
    // The half plane is never confused.
    r.check(yf == 0.0 || got == 0.0 || (got > 0.0) == (yf > 0.0), a.digest(), false, || format!("{}: atan2({y:?}, {x:?}) is {a:?}, in the wrong half plane", T::vname()));
    r.sample(|| format!("atan2({y:?}, {x:?}) = {a:?}"));
}
#[inline(always)]
fn one<T: Real>(x: T, slack: f64, r: &mut Rep) {
    let a = atan(x);
    r.calls(1);
    let want = x.real().atan();
    let err = (a.real() - want).abs();
    let tol = if x.real() == 0.0 { 0.0 } else { ACC + slack };
    r.check(err <= tol, a.digest(), true, || format!("{}: atan({x:?}) is {a:?}, expected {want}", T::vname()));
}

fn fx<T: Fx + Real>(c: &mut Check) {
    let m = match (T::BITS, thorough()) { (8, _) => 8, (_, false) => 3, (_, true) => 5 };
    let v: &'static [i128] = lattice::fx_vals::<T>(m, &[1.0, 2.0, 3.0, 0.1, 0.3, 0.7, 1.7, 100.0, 99.0], 1);
    let n = v.len() as u64;
    let slack = 5.0 * T::ulp();
    c.unit(format!("atan2 {}", <T as Fx>::name()), n * n, move |i, r| step(T::of(v[(i % n) as usize]), T::of(v[(i / n) as usize]), slack, r));
    let v: &'static [i128] = lattice::fx_vals::<T>(8, &[1.0], 8);
    c.unit(format!("atan {}", <T as Fx>::name()), v.len() as u64, move |i, r| {
        one(T::of(v[i as usize]), slack, r)
    });
}

macro_rules! float { ($c:ident, $t:ident, $lo:expr, $hi:expr) => { {
    let eps = 8.0 * $t::EPSILON as f64;
    for (what, m, lo, hi) in [("fine", if thorough() { 6 } else { 4 }, -12, 12), ("wide", 1, $lo, $hi)] {
        let mut v = lattice::f64_vals(m, lo, hi);
        v.extend(lattice::f64_near(&[1.0, 2.0], 2));
        let v: Vec<$t> = v.into_iter().map(|x| x as $t).filter(|x| x.is_finite()).collect();
        let v = leak(v);
        let n = v.len() as u64;
        $c.unit(format!("atan2 {} {what}", stringify!($t)), n * n, move |i, r| {
            let (y, x) = (v[(i % n) as usize], v[(i / n) as usize]);
            // The direction of a zero vector, or along a negative zero, is a matter of taste; differences must not overflow.
            if y == 0.0 && x == 0.0 && x.is_sign_negative() { return r.skip() }
            step(y, x, eps, r)
        });
        $c.unit(format!("atan {} {what}", stringify!($t)), n, move |i, r| one(v[i as usize], eps, r));
    }
    // Fine steps in the ratio, every octant.
    let steps = if thorough() { 1u64 << 22 } else { 1 << 18 };
    $c.unit(concat!("atan2 ", stringify!($t), " ratios"), steps * 8, move |i, r| {
        let t = (i >> 3) as $t / steps as $t;
        let (mut y, mut x) = (t, 1.0);
        if i & 1 == 1 { std::mem::swap(&mut x, &mut y) }
        if i & 2 == 2 { y = -y }
        if i & 4 == 4 { x = -x }
        if y == 0.0 || x == 0.0 { return r.skip() }
        step(y, x, eps, r)
    });
} } }

fn main() {
    let mut c = Check::new("C08", "state: a pair (y, x) of operands (8-bit fixed point complete, otherwise all pairs over a lattice of short significands, and 2^18 ratios in each octant for floating point), transition: atan2 and atan by polynomial, through the trait and the free function; oracle: the double precision arctangent, 0.3 degrees plus rounding");
    c.assume("infinite operands are outside the domain");
    float!(c, f32, -149, 127);
    float!(c, f64, -300, 300);
    each_signed!(fx(&mut c));
    c.run()
}
