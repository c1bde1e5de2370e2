//! Cartesian and polar form.
use mc::cplx::*;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;
use std::f64::consts::PI;

type C<T> = Cartesian<T>;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn p<T: Val>(z: Bits2) -> Polar<T> {
    Polar::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}
fn q<T: Val>(z: Polar<T>) -> Bits2 {
    (z.mag.bits(), z.ang.bits())
}

trait Cp: Val + MixedNum + MixedNumSigned + MixedOps + MixedZero + MixedSqrt + MixedPowi + MixedAbs + MixedTrigonometry + MixedWrapPhase {}
impl<T: Val + MixedNum + MixedNumSigned + MixedOps + MixedZero + MixedSqrt + MixedPowi + MixedAbs + MixedTrigonometry + MixedWrapPhase> Cp for T {}

type Op1 = fn(Bits2) -> Bits2;

static TO_POLAR: [&str; 8] = ["to_polar", "complex::to_polar", "Polar::new_from_cartesian", "(mag, arg)", "(abs, ang)", "(complex::abs, arg)", "(mixed_abs, arg)", "polar of itself and back to parts"];
static TO_CART: [&str; 3] = ["to_cartesian", "complex::to_cartesian", "Cartesian::new_from_polar"];

/// Magnitude and angle of a complex number, with the error they may have.
fn polar_form(t: &Ty, z: Bits2) -> Option<((f64, f64), (f64, f64))> {
    let (x, y) = t.f2(z);
    let s = x * x + y * y;
    let m = s.sqrt();
    let a = (y + 0.0).atan2(x + 0.0);
    if t.kind == Kind::Float {
        // Along the negative real axis a negative zero may choose the other half plane.
        if y == 0.0 && y.is_sign_negative() || x == 0.0 && x.is_sign_negative() {
            return None;
        }
        let ok = |v: f64| v == 0.0 || v.abs() < t.max() / 8.0 && v.abs() > t.tiny() * 8.0 / t.eps();
        return (ok(x * x) && ok(y * y) && ok(s)).then_some(((m, a), (4.0 * t.eps() * m, 4.0 * t.eps() * a.abs().max(t.tiny()) + t.grain())));
    }
    let (rx, ry) = (z.0 as i128, z.1 as i128);
    if rx == t.lo() || ry == t.lo() {
        return None;
    }
    let (xx, yy) = (t.prod(z.0, z.0)?, t.prod(z.1, z.1)?);
    let sum = xx.checked_add(yy)?.checked_add(2 << t.frac)?;
    if !t.holds(sum) {
        return None;
    }
    let u = t.ulp();
    // The squares lose two units in the last place, the root is accurate to 0.1 %.
    let lost = if m > 0.0 { (2.0 * u).sqrt().min(2.0 * u / m) } else { 0.0 };
    let mt = if m == 0.0 { 0.0 } else { lost + 1e-3 * m + 4.0 * u * (1.0 + 2.0 * m) };
    Some(((m, a), (mt, 32.0 * u + 1e-15)))
}
/// Components of a number in polar form, with the error they may have.
fn cart_form(t: &Ty, z: Bits2) -> Option<((f64, f64), f64)> {
    let (m, a) = t.f2(z);
    let d = t.trig_err(a);
    if d > 0.4 || !(m.abs() * (1.0 + d) + t.grain() < t.max()) {
        return None;
    }
    let tol = m.abs() * (d + 1e-15) + t.grain() + if t.kind == Kind::Float { 2.0 * t.eps() * m.abs() } else { 0.0 };
    Some(((m * a.cos(), m * a.sin()), tol))
}

fn all<T: Cp>(ck: &mut Check) {
    let to_polar: [Op1; 8] = [
        |z| q(c::<T>(z).to_polar()),
        |z| q(complex::to_polar(c::<T>(z))),
        |z| q(Polar::<T>::new_from_cartesian(T::of_bits(z.0), T::of_bits(z.1))),
        |z| { let z = c::<T>(z); (z.mag().bits(), z.arg().bits()) },
        |z| { let z = c::<T>(z); (Mag::abs(&z).bits(), z.ang().bits()) },
        |z| { let z = c::<T>(z); (complex::abs(z).bits(), z.arg().bits()) },
        |z| { let z = c::<T>(z); let a = z.mixed_abs(); assert!(a.im == T::mixed_zero(), "imaginary part of the absolute value"); (a.re.bits(), z.arg().bits()) },
        |z| {
            let w = c::<T>(z).to_polar().to_polar();
            assert!(w.mixed_abs() == Polar::new(w.mag, T::mixed_zero()), "absolute value of a polar number");
            assert!(Mag::abs(&w) == w.mag && Mag::mag(&w) == w.mag && w.arg() == w.ang && Arg::ang(&w) == w.ang, "accessors");
            let w = Polar::<T>::new_from_polar(w.mag(), w.arg());
            q(w)
        },
    ];
    let to_cart: [Op1; 3] = [
        |z| b(p::<T>(z).to_cartesian()),
        |z| b(complex::to_cartesian(p::<T>(z))),
        |z| b(C::<T>::new_from_polar(T::of_bits(z.0), T::of_bits(z.1))),
    ];
    machine(ck, ty::<T>(), to_polar, to_cart)
}
fn values(t: &Ty) -> &'static [u128] {
    let n = match (t.w, thorough()) { (8, _) => 0, (16, true) => 3000, (_, true) => 1500, _ => 300 };
    let mut v: Vec<u128> = t.parts(45).to_vec();
    if t.w == 8 {
        v = (t.lo()..=t.hi()).map(|x| x as u128).collect();
    }
    // An even grid around the origin, and powers of two with both neighbours.
    for k in 0..n {
        if let Some(x) = t.near((k - n / 2) as f64 * (8.0 * PI / n as f64)) {
            v.push(x);
        }
    }
    if t.kind != Kind::Float {
        for k in 0..t.w - 1 {
            for d in [-1i128, 1] {
                v.push((d * (1i128 << k)) as u128);
                v.push((d * (3i128 << k >> 1)) as u128);
            }
        }
        v.retain(|x| t.fits(*x as i128));
    }
    v.sort();
    v.dedup();
    mc::prim::leak(v)
}
fn machine(ck: &mut Check, t: &'static Ty, to_polar: [Op1; 8], to_cart: [Op1; 3]) {
    let v = values(t);
    let n = v.len() as u64;
    ck.unit(format!("to polar {}", t.name), n * n, move |i, r| {
        let z = (v[(i % n) as usize], v[(i / n) as usize]);
        let Some((want, tol)) = polar_form(t, z) else { return r.skip() };
        for (k, f) in to_polar.iter().enumerate() {
            let got = f(z);
            r.calls(1);
            let ok = t.close(got, want, tol).map(|e| r.worst(e)).is_ok();
            r.check(ok, dig(got), want.0 != 0.0, || format!("{}: {} of {}: {}, expected {want:?} within {tol:?}", t.name, TO_POLAR[k], t.show2(z), t.show2(got)));
        }
        // And back again.
        let w = to_polar[0](z);
        let Some((_, back)) = cart_form(t, w) else { return };
        let tol = tol.0 + want.0 * tol.1 * 1.1 + 1.1 * back;
        if want.0 + tol >= t.max() {
            return;
        }
        let got = to_cart[0](w);
        r.calls(1);
        let ok = t.close(got, t.f2(z), (tol, tol)).map(|e| r.worst(e)).is_ok();
        r.check(ok, dig(got), want.0 != 0.0, || format!("{}: {} to polar and back is {} (tolerance {tol:e})", t.name, t.show2(z), t.show2(got)));
        r.sample(|| format!("{} -> {} -> {}", t.show2(z), t.show2(w), t.show2(got)));
    });
    ck.unit(format!("to cartesian {}", t.name), n * n, move |i, r| {
        let z = (v[(i % n) as usize], v[(i / n) as usize]);
        let Some((want, tol)) = cart_form(t, z) else { return r.skip() };
        for (k, f) in to_cart.iter().enumerate() {
            let got = f(z);
            r.calls(1);
            let ok = t.close(got, want, (tol, tol)).map(|e| r.worst(e)).is_ok();
            r.check(ok, dig(got), want.0 != 0.0, || format!("{}: {} of {}: {}, expected {want:?} within {tol:e}", t.name, TO_CART[k], t.show2(z), t.show2(got)));
        }
        r.sample(|| format!("{} -> {}", t.show2(z), t.show2(to_cart[0](z))));
    });
}

fn main() {
    let mut c = Check::new("C18", "state: a complex number in either form (8-bit types: all; others: all pairs over an alphabet with an even grid around the origin and powers of two), transition: each way to convert it, each accessor, and the round trip; oracle: double precision magnitude, angle, sine and cosine with the error of the component type");
    c.assume("numbers whose magnitude or its square the component type cannot hold are outside the domain");
    all::<f32>(&mut c);
    all::<f64>(&mut c);
    each_signed!(all(&mut c));
    c.run()
}
