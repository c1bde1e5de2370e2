//! Complex exponential and powers.
use mc::cplx::*;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;
use std::f64::consts::PI;

type C<T> = Cartesian<T>;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}
type Op1 = fn(Bits2) -> Bits2;

fn exp<T: Val + MixedReal + MixedNumSigned + MixedSin + MixedExp + core::ops::MulAssign>(ck: &mut Check) {
    exp_machine(ck, ty::<T>(), |z| b(c::<T>(z).mixed_exp()))
}
fn values(t: &Ty) -> &'static [u128] {
    let n = if t.w == 8 { 0 } else if thorough() { 900 } else { 200 };
    let mut v: Vec<u128> = t.parts(45).to_vec();
    if t.w == 8 {
        v = (t.lo()..=t.hi()).map(|x| x as u128).collect();
    }
    for k in 0..n {
        let x = (k - n / 2) as f64 / n as f64;
        v.extend(t.near(x * 8.0 * PI));
        v.extend(t.near(x * 2.0));
    }
    v.sort();
    v.dedup();
    mc::prim::leak(v)
}
fn exp_machine(ck: &mut Check, t: &'static Ty, f: Op1) {
    let v = values(t);
    let n = v.len() as u64;
    ck.unit(format!("exp {}", t.name), n * n, move |i, r| {
        let z = (v[(i % n) as usize], v[(i / n) as usize]);
        let (x, y) = t.f2(z);
        let d = t.trig_err(y);
        // As in C13 and C12.
        let k = 12.0 + 1.5 * t.frac as f64 + x.abs().min(64.0);
        let (s, es) = if t.kind == Kind::Float {
            (x.exp(), x.exp() * 3.0 * t.eps() + t.grain())
        } else {
            (x.exp(), x.exp() * (3e-15 + k * t.ulp()) + k * t.ulp())
        };
        if d > 0.4 || !((s + es) * (1.0 + d) + 4.0 * t.grain() < t.max()) {
            return r.skip();
        }
        let tol = s * d + es * (1.0 + d) + 2.0 * t.grain() + 4.0 * t.eps_of() * s;
        let want = (s * y.cos(), s * y.sin());
        let got = f(z);
        r.calls(1);
        let ok = t.close(got, want, (tol, tol)).map(|e| r.worst(e)).is_ok();
        r.check(ok, dig(got), got.0 != got.1, || format!("{}: exp of {} is {}, expected {want:?} within {tol:e}", t.name, t.show2(z), t.show2(got)));
        r.sample(|| format!("exp {} = {}", t.show2(z), t.show2(got)));
    });
}

fn powi<T: fixed::traits::FixedSigned + Val + MixedNum + MixedNumSigned + MixedAtan + MixedSin + MixedSqrt + MixedPowi>(ck: &mut Check) {
    powi_machine(ck, ty::<T>(), |z, n| b(complex::powi(c::<T>(z), n.0 as usize)))
}
fn powi_machine(ck: &mut Check, t: &'static Ty, f: Op2) {
    let mut powers: Vec<u64> = if thorough() { (0..=34).chain([63, 64, 65, 96]).collect() } else { vec![0, 1, 2, 3, 4, 5, 8, 9, 12, 15, 16, 17, 24, 31, 33] };
    powers.extend(mc::dict::counts(100.0).into_iter().filter(|k| *k > 0).map(|k| k as u64));
    power_unit(ck, t, f, "powi", values(t), mc::prim::leak(powers));
    // Long powers of numbers near the unit circle, and of small ones.
    let mut v: Vec<u128> = [1.0, -1.0, 0.0, 0.5, -0.25].iter().filter_map(|x| t.near(*x)).collect();
    for k in 0..if thorough() { 120 } else { 40 } {
        let (x, m) = (k as f64 * 0.27, 0.9 + 0.2 * k as f64 / 40.0);
        v.extend([m, x.sin(), 0.03 * (k as f64 - 20.0)].iter().filter_map(|x| t.near(*x)));
    }
    v.sort();
    v.dedup();
    let long: &'static [u64] = if thorough() { &[97, 120, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 2000, 4096, 32767, 32768, 65536, 65537] } else { &[100, 127, 128, 129, 255, 256, 257, 300, 512, 1000] };
    power_unit(ck, t, f, "long powi", mc::prim::leak(v), long);
}
fn power_unit(ck: &mut Check, t: &'static Ty, f: Op2, what: &str, v: &'static [u128], powers: &'static [u64]) {
    let n = v.len() as u64;
    ck.unit(format!("{what} {}", t.name), n * n * powers.len() as u64, move |i, r| {
        let z = (v[(i % n) as usize], v[(i / n % n) as usize]);
        let p = powers[(i / n / n) as usize];
        let (x, y) = t.f2(z);
        let u = t.ulp();
        let (s, pf) = (x * x + y * y, p as f64);
        let m = s.sqrt();
        let a = y.atan2(x);
        if z.0 as i128 == t.lo() || z.1 as i128 == t.lo() || !(s + 4.0 * u < t.max() && pf < t.max() && a.abs() * pf + 34.0 * u * pf < t.max()) {
            return r.skip();
        }
        // Magnitude: squares, root, p-fold product. Angle: p times the arctangent's error, and wrapping.
        let lost = if m > 0.0 { (2.0 * u).sqrt().min(2.0 * u / m) } else { 0.0 };
        let lm = if m == 0.0 { 0.0 } else { lost + 1e-3 * m + 4.0 * u * (1.0 + 2.0 * m) };
        let hi = m + lm;
        let big = hi.max(1.0).powf(pf);
        let want = m.powf(pf);
        let em = (hi.powf(pf) - want).max(want - (m - lm).max(0.0).powf(pf)) + pf * u * hi.max(1.0).powf((pf - 1.0).max(0.0));
        let ea = (32.0 * u + 1e-15) * pf + t.trig_err(a * pf);
        // Powers of two may be formed on the way.
        if !(big * hi.max(1.0).powf(pf) + em < t.max() && ea <= 0.4 && (want + em) * (1.0 + ea) + 4.0 * u < t.max()) {
            return r.skip();
        }
        let tol = em * (1.0 + ea) + want * ea + 2.0 * u + 1e-14 * want;
        let want = (want * (a * pf).cos(), want * (a * pf).sin());
        let got = f(z, (p as u128, 0));
        r.calls(1);
        let ok = t.close(got, want, (tol, tol)).map(|e| r.worst(e)).is_ok();
        r.check(ok, dig(got), p > 1 && m > 0.0, || format!("{}: {}^{p} is {}, expected {want:?} within {tol:e}", t.name, t.show2(z), t.show2(got)));
        r.sample(|| format!("{}^{p} = {}", t.show2(z), t.show2(got)));
    });
}

fn main() {
    let mut c = Check::new("C21", "state: a complex number (8-bit types complete, others an alphabet and an even grid over four turns), for powers also one of 15 exponents up to 33 (thorough: all of them, and some up to 96), and of 10 up to 1000 (thorough: 24 up to 65537) for numbers around the unit circle, transition: exponential, power; oracle: double precision in polar form with the accumulated error of the component type's functions");
    c.assume("results, and for powers magnitudes and angles on the way, that the component type cannot hold are outside the domain");
    exp::<f32>(&mut c);
    exp::<f64>(&mut c);
    each_signed!(exp(&mut c));
    each_signed!(powi(&mut c));
    c.run()
}
