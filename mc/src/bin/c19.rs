//! Arithmetic in polar form.
use mc::cplx::*;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

fn c<T: Val>(z: Bits2) -> Cartesian<T> {
    Cartesian::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn p<T: Val>(z: Bits2) -> Polar<T> {
    Polar::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn q<T: Val>(z: Polar<T>) -> Bits2 {
    (z.mag.bits(), z.ang.bits())
}

trait Cp: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero {}
impl<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero> Cp for T {}

/// a·b, with its error.
fn times(t: &Ty, a: u128, b: u128) -> Option<(f64, f64)> {
    if t.kind == Kind::Float {
        let x = t.f(a) * t.f(b);
        return (x.abs() < t.max() / 2.0).then_some((x, 2.0 * t.eps() * x.abs() + t.grain()));
    }
    let x = t.prod(a, b)?;
    t.holds(x.checked_add(1 << t.frac)?).then_some(())?;
    t.holds(x.checked_sub(1 << t.frac)?).then_some(())?;
    Some((x as f64 * t.ulp() * t.ulp(), if t.kind == Kind::Int { 0.0 } else { t.ulp() } + x.abs() as f64 * t.ulp() * t.ulp() * 1e-15))
}
/// a/b, with its error; `None` inside: b is zero.
fn over(t: &Ty, a: u128, b: u128) -> Option<Option<(f64, f64)>> {
    if t.f(b) == 0.0 {
        return Some(None);
    }
    if t.kind == Kind::Float {
        let x = t.f(a) / t.f(b);
        return (x.abs() < t.max() / 2.0).then_some(Some((x, 2.0 * t.eps() * x.abs() + t.grain())));
    }
    if t.kind == Kind::Int {
        let x = (a as i128).checked_div(b as i128).filter(|x| t.fits(*x))?;
        return Some(Some((x as f64, 0.0)));
    }
    let x = ((a as i128) << t.frac) / b as i128;
    (x.abs() < t.hi() - 1).then_some(Some((t.f(a) / t.f(b), t.ulp() + x.abs() as f64 * t.ulp() * 1e-15)))
}
fn is_zero(t: &Ty, a: u128) -> bool {
    t.f(a) == 0.0
}

fn two<T: Cp>(ck: &mut Check) {
    let f: [Op2; 2] = [|z, w| q(p::<T>(z) * p::<T>(w)), |z, w| q(complex::mul_polar(p::<T>(z), p::<T>(w)))];
    let s: [Op2; 2] = [|z, s| q(p::<T>(z) * T::of_bits(s.0)), |z, s| q(p::<T>(z) / T::of_bits(s.0))];
    machine(ck, ty::<T>(), f, s)
}
fn machine(ck: &mut Check, t: &'static Ty, f: [Op2; 2], s: [Op2; 2]) {
    let v = t.parts(if thorough() { 45 } else { 22 });
    ck.unit(format!("polar {}", t.name), quads(v), move |i, r| {
        let (z, w) = quad(i, v);
        let zero = is_zero(t, z.0) || is_zero(t, w.0);
        let (m, a) = if zero { (Some((0.0, 0.0)), t.near(0.0)) } else { (times(t, z.0, w.0), t.sum(z.1, w.1, false)) };
        let (Some(m), Some(a)) = (m, a) else { return r.skip() };
        for (k, f) in f.iter().enumerate() {
            let got = f(z, w);
            r.calls(1);
            let ok = (t.f(got.0) - m.0).abs() <= m.1 && t.eq(got.1, a);
            r.check(ok, dig(got), !zero, || format!("{}: {}({}, {}) is {}, expected magnitude {} and angle {}", t.name, ["*", "mul_polar"][k], t.show2(z), t.show2(w), t.show2(got), m.0, (t.show)(a)));
            r.sample(|| format!("{} * {} = {}", t.show2(z), t.show2(w), t.show2(got)));
        }
    });
    let v = t.parts(45);
    let n = v.len() as u64;
    ck.unit(format!("polar {} and scalar", t.name), n * n * n, move |i, r| {
        let (z, x) = ((v[(i % n) as usize], v[(i / n % n) as usize]), v[(i / n / n) as usize]);
        let (m, d) = (times(t, z.0, x), over(t, z.0, x));
        if m.is_none() && d.is_none() {
            return r.skip();
        }
        if let Some(m) = m {
            let got = s[0](z, (x, 0));
            r.calls(1);
            r.check((t.f(got.0) - m.0).abs() <= m.1 && got.1 == z.1, dig(got), m.0 != 0.0, || format!("{}: {} * {} is {}", t.name, t.show2(z), (t.show)(x), t.show2(got)));
        }
        if let Some(d) = d {
            let got = s[1](z, (x, 0));
            r.calls(1);
            let ok = match d {
                None => t.f(got.0) == t.max(),
                Some(d) => (t.f(got.0) - d.0).abs() <= d.1,
            };
            r.check(ok && got.1 == z.1, dig(got), d.is_some(), || format!("{}: {} / {} is {}", t.name, t.show2(z), (t.show)(x), t.show2(got)));
            r.sample(|| format!("{} / {} = {}", t.show2(z), (t.show)(x), t.show2(got)));
        }
    });
}

/// Polar times cartesian.
fn mixed<T: Cp + MixedSqrt + MixedAbs + MixedPowi + MixedAtan>(ck: &mut Check) {
    mixed_machine(ck, ty::<T>(), |z, w| q(p::<T>(z) * c::<T>(w)))
}
fn mixed_machine(ck: &mut Check, t: &'static Ty, f: Op2) {
    let v = t.parts(if thorough() { 40 } else { 20 });
    ck.unit(format!("polar {} and cartesian", t.name), quads(v), move |i, r| {
        let (z, w) = quad(i, v);
        let ((m, a), (x, y)) = (t.f2(z), t.f2(w));
        let s = x * x + y * y;
        let (len, u) = (s.sqrt(), t.ulp());
        // The error of the converted magnitude and angle.
        let (lm, la) = if t.kind == Kind::Float {
            let ok = |v: f64| v == 0.0 || v.abs() < t.max() / 8.0 && v.abs() > t.tiny() * 8.0 / t.eps();
            if !(ok(x * x) && ok(y * y)) || y == 0.0 && y.is_sign_negative() || x == 0.0 && x.is_sign_negative() || (m * len).abs() > t.max() / 4.0 || m * len != 0.0 && (m * len).abs() < t.tiny() * 8.0 {
                return r.skip();
            }
            (4.0 * t.eps() * len, t.eps() * 8.0 * (4.0 + a.abs()))
        } else {
            if w.0 as i128 == t.lo() || w.1 as i128 == t.lo() || s + 4.0 * u >= t.max() {
                return r.skip();
            }
            let lost = if len > 0.0 { (2.0 * u).sqrt().min(2.0 * u / len) } else { 0.0 };
            (if len == 0.0 { 0.0 } else { lost + 1e-3 * len + 4.0 * u * (1.0 + 2.0 * len) }, 32.0 * u + 2e-15 * (1.0 + a.abs()))
        };
        let (want, ang) = (m * len, a + (y + 0.0).atan2(x + 0.0));
        let tol = m.abs() * lm + t.grain() + t.eps_of() * want.abs() * 2.0;
        if t.kind == Kind::Fixed && !(want.abs() + tol < t.max() && ang.abs() + la < t.max()) {
            return r.skip();
        }
        let got = f(z, w);
        r.calls(1);
        let (gm, ga) = t.f2(got);
        // A magnitude that vanishes has angle zero.
        let ok = (gm - want).abs() <= tol && ((ga - ang).abs() <= la || ga == 0.0 && gm == 0.0 && (m == 0.0 || len <= lm));
        r.worst((gm - want).abs() / tol);
        r.check(ok, dig(got), want != 0.0, || format!("{}: polar {} * cartesian {} is {}, expected ({want}, {ang}) within ({tol:e}, {la:e})", t.name, t.show2(z), t.show2(w), t.show2(got)));
        r.sample(|| format!("polar {} * cartesian {} = {}", t.show2(z), t.show2(w), t.show2(got)));
    });
}

macro_rules! twos { ($c:ident; $($t:ident)*) => { $( two::<$t>(&mut $c); )* } }

fn main() {
    let mut c = Check::new("C19", "state: a polar number and a polar number, a cartesian number or a scalar (all combinations over an alphabet per type), transition: multiply or divide; oracle: magnitudes multiply or divide, angles add, zero magnitude gives zero, division by zero the largest magnitude");
    c.assume("magnitudes and angle sums the component type cannot hold are outside the domain");
    signed_prim!(twos!(c));
    each_signed!(two(&mut c));
    mixed::<f32>(&mut c);
    mixed::<f64>(&mut c);
    each_signed!(mixed(&mut c));
    c.run()
}
