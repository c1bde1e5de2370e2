//! Square roots.
use mc::fx::Fx;
use mc::lattice;
use mc::prim::leak;
use mc::val::Val;
use mc::*;
use mixed_num::trigonometry::sqrt::niirf;
use mixed_num::*;

/// Relative accuracy the method has with 1, 2, 3.. iterations.
fn accuracy(iterations: usize) -> f64 {
    match iterations {
        0 | 1 => 0.0425,
        2 => 1e-3,
        3 => 5e-5,
        4 => 3.2e-6,
        5 => 2.5e-7,
        n => 2e-8 * 0.1f64.powi(n.min(40) as i32 - 6),
    }
}

/// Many iterations, around the sizes where a count may be cut off.
const LONG: [usize; 26] = [6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257];
fn fx<T: Fx + MixedSqrt + MixedReal + MixedZero + MixedAbs + MixedOps + MixedPowi>(c: &mut Check) {
    let v = lattice::fx_vals::<T>(if thorough() { 11 } else { 8 }, &[0.25, 0.3125, 0.375, 0.4375, 0.5, 0.5625, 0.625, 0.6875, 0.75, 0.8125, 0.875, 0.9375, 1.0, 2.0, 4.0], 6);
    let ulp = T::ulp();
    c.unit(<T as Fx>::name(), v.len() as u64, move |i, r| {
        let x = T::of(v[i as usize]);
        if x.raw() < 0 {
            return r.skip();
        }
        let s = x.f().sqrt();
        for it in 0..=5usize {
            let (y, n) = match it {
                0 => (x.mixed_sqrt(), 2),
                5 => (x.mixed_niirf(), 2),
                k => (niirf(x, k), k),
            };
            r.calls(1);
            let err = (y.f() - s).abs();
            let tol = if x.raw() == 0 { 0.0 } else { s * accuracy(n) + 4.0 * ulp * (1.0 + 2.0 * s) };
            r.worst(err / tol);
            r.check(err <= tol, y.raw() as u64, y.raw() != 0, || format!("{}({x}): root with {n} iterations is {y}, expected {s}", <T as Fx>::name()));
        }
        r.sample(|| format!("sqrt({x}) = {}", x.mixed_sqrt()));
    });
    let v = lattice::fx_vals::<T>(if thorough() { 6 } else { 2 }, &[0.25, 0.5, 0.75, 1.0, 2.0], 1);
    c.unit(format!("{}, many iterations", <T as Fx>::name()), v.len() as u64 * LONG.len() as u64, move |i, r| {
        let (x, n) = (T::of(v[i as usize / LONG.len()]), LONG[i as usize % LONG.len()]);
        if x.raw() < 0 { return r.skip() }
        let s = x.f().sqrt();
        let y = niirf(x, n);
        r.calls(1);
        let err = (y.f() - s).abs();
        let tol = if x.raw() == 0 { 0.0 } else { s * (accuracy(n) + 1e-15) + 4.0 * ulp * (1.0 + 2.0 * s) };
        r.worst(err / tol);
        r.check(err <= tol, y.raw() as u64, y.raw() != 0, || format!("{}({x}): root with {n} iterations is {y}, expected {s}", <T as Fx>::name()));
        r.sample(|| format!("niirf({x}, {n}) = {y}"));
    });
}

trait Fl: Val + MixedSqrt + MixedReal + MixedZero + MixedAbs + MixedOps + MixedPowi {
    const EPS: f64;
    fn root(self) -> Self;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    fn root(self) -> Self {
        self.sqrt()
    }
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    fn root(self) -> Self {
        self.sqrt()
    }
}
fn exact<T: Fl>(x: T, r: &mut Rep) {
    let (got, want) = (x.mixed_sqrt(), x.root());
    r.calls(1);
    r.check(got.same(want), got.digest(), x.real() > 0.0, || format!("{x:?}.mixed_sqrt() is {got:?}, expected {want:?}"));
    r.sample(|| format!("sqrt({x:?}) = {got:?}"));
}
fn iir<T: Fl>(x: T, r: &mut Rep) {
    if x.real() < 0.0 || x.real().is_nan() {
        return r.skip();
    }
    let s = x.real().sqrt();
    iir_with(x, (1..=6).chain([0]).chain(mc::dict::counts(1000.0).into_iter().filter(|k| *k > 6).map(|k| k as usize)), r)
}
fn iir_with<T: Fl>(x: T, iterations: impl Iterator<Item = usize>, r: &mut Rep) {
    let s = x.real().sqrt();
    for it in iterations {
        let (y, n) = if it == 0 { (x.mixed_niirf(), 2) } else { (niirf(x, it), it) };
        let y = y.real();
        r.calls(1);
        if s == 0.0 || s.is_infinite() {
            r.check(y == s, 1, true, || format!("niirf({x:?}) with {n} iterations is {y:?}"));
            continue;
        }
        let err = ((y - s) / s).abs();
        let tol = accuracy(n) + 8.0 * T::EPS;
        r.worst(err / tol);
        r.check(err <= tol, y.to_bits(), true, || format!("niirf({x:?}) with {n} iterations is {y:?}, expected {s:?}, relative error {err:e}"));
    }
    r.sample(|| format!("niirf({x:?}) = {:?}", x.mixed_niirf()));
}

fn main() {
    let mut c = Check::new("C07", "state: an operand (8/16-bit fixed point complete; f32: every value with the low significand bits zero, all in the thorough tier; wider types: lattice and neighbourhoods of the table boundaries), transition: mixed_sqrt, mixed_niirf, niirf with 1 to 6 iterations, and up to 257 on a shorter lattice; oracle: the correctly rounded root for floating point, the error model of the method for the rest");
    c.assume("the root of a negative number is only promised to be NaN for floating point mixed_sqrt");
    let drop = if thorough() { 0 } else { 7 };
    c.unit("f32 sqrt", lattice::f32_count(drop), move |i, r| exact(lattice::f32_at(i, drop), r));
    let drop = if thorough() { 2 } else { 10 };
    c.unit("f32 niirf", lattice::f32_count(drop), move |i, r| iir(lattice::f32_at(i, drop), r));
    let near = leak(lattice::f32_near(&[0.25, 0.3125, 0.375, 0.4375, 0.5, 0.5625, 0.625, 0.6875, 0.75, 0.8125, 0.875, 0.9375, 1.0, 2.0, 4.0, 1e30, 1e-30], 256));
    c.unit("f32 sqrt, constants", near.len() as u64, move |i, r| exact(near[i as usize], r));
    c.unit("f32 niirf, constants", near.len() as u64, move |i, r| iir(near[i as usize], r));
    // f64: consecutive significands at two adjacent exponents (all cases of rounding), short ones at all.
    let mut v = lattice::f64_vals(if thorough() { 16 } else { 12 }, -3, 4);
    v.extend(lattice::f64_vals(4, -1022, 1023));
    v.extend(lattice::f64_near(&[0.25, 0.3125, 0.375, 0.4375, 0.5, 0.5625, 0.625, 0.6875, 0.75, 0.8125, 0.875, 0.9375, 1.0, 2.0, 4.0, 1e300, 1e-300], 64));
    for i in 0..10000 {
        v.push((i * i) as f64);
        v.push(i as f64);
    }
    let v = leak(v);
    c.unit("f64 sqrt", v.len() as u64, move |i, r| exact(v[i as usize], r));
    let long = leak(lattice::f64_vals(if thorough() { 10 } else { 6 }, -3, 4).into_iter().chain(lattice::f64_vals(1, -1022, 1023)).filter(|x| *x >= 0.0).collect::<Vec<_>>());
    c.unit("f64 niirf, many iterations", long.len() as u64, move |i, r| iir_with(long[i as usize], LONG.into_iter(), r));
    c.unit("f32 niirf, many iterations", long.len() as u64, move |i, r| iir_with(long[i as usize] as f32, LONG.into_iter(), r));
    c.unit("f64 niirf", v.len() as u64, move |i, r| iir(v[i as usize], r));
    each_signed!(fx(&mut c));
    each_unsigned!(fx(&mut c));
    c.run()
}
