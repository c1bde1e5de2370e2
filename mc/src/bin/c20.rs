//! Complex conjugation.
use mc::cplx::*;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;
use std::f64::consts::PI;

type C<T> = Cartesian<T>;
type Op1 = fn(Bits2) -> Bits2;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn p<T: Val>(z: Bits2) -> Polar<T> {
    Polar::new(T::of_bits(z.0), T::of_bits(z.1))
}

trait Cp: Val + MixedNum + MixedNumSigned {}
impl<T: Val + MixedNum + MixedNumSigned> Cp for T {}

/// Negates the second component, twice.
fn plain<T: Cp>(ck: &mut Check) {
    machine(ck, ty::<T>(), "cartesian", |z| { let w: C<T> = c::<T>(z).conj(); (w.re.bits(), w.im.bits()) })
}
fn polar<T: Cp + MixedWrapPhase + MixedTrigonometry>(ck: &mut Check) {
    machine(ck, ty::<T>(), "polar", |z| { let w: Polar<T> = p::<T>(z).conj(); (w.mag.bits(), w.ang.bits()) })
}
fn machine(ck: &mut Check, t: &'static Ty, form: &'static str, f: Op1) {
    let v: &'static [u128] = match t.w {
        8 => mc::prim::leak((t.lo()..=t.hi()).map(|x| x as u128).collect()),
        _ => {
            let mut v = t.parts(45).to_vec();
            if t.kind == Kind::Float {
                v.extend([f64::INFINITY, f64::NEG_INFINITY, f64::NAN, t.max(), t.tiny(), -t.tiny() / 4.0].map(|x| t.near(x).unwrap()));
            } else {
                for k in 0..t.w - 1 {
                    v.extend([1i128 << k, -(1i128 << k), (1i128 << k) + 1, !(1i128 << k)].map(|x| x as u128));
                }
            }
            mc::prim::leak(v)
        }
    };
    let n = v.len() as u64;
    ck.unit(format!("{form} {}", t.name), n * n, move |i, r| {
        let z = (v[(i % n) as usize], v[(i / n) as usize]);
        if t.kind != Kind::Float && z.1 as i128 == t.lo() {
            return r.skip();
        }
        let w = f(z);
        let back = f(w);
        r.calls(2);
        // A float is negated by flipping its sign bit, zero too.
        let ok = t.eq(w.0, z.0) && if t.kind == Kind::Float {
            let (x, y) = (t.f(w.1), t.f(z.1));
            x == -y && x.is_sign_negative() != y.is_sign_negative() || x.is_nan() && y.is_nan()
        } else {
            w.1 as i128 == -(z.1 as i128)
        };
        r.check(ok, dig(w), z.1 != w.1, || format!("{} {form}: the conjugate of {} is {}", t.name, t.show2(z), t.show2(w)));
        r.check(t.eq(back.0, z.0) && t.eq(back.1, z.1), dig(back), false, || format!("{} {form}: conjugating {} twice gives {}", t.name, t.show2(z), t.show2(back)));
        r.sample(|| format!("{} -> {}", t.show2(z), t.show2(w)));
    });
}

trait All: Cp + MixedOps + MixedZero + MixedSqrt + MixedPowi + MixedAbs + MixedTrigonometry + MixedWrapPhase {}
impl<T: Cp + MixedOps + MixedZero + MixedSqrt + MixedPowi + MixedAbs + MixedTrigonometry + MixedWrapPhase> All for T {}

/// Conjugating into the other form is converting and conjugating.
fn across<T: All>(ck: &mut Check) {
    plain::<T>(ck);
    polar::<T>(ck);
    let f: [(&'static str, Op1, Op1); 2] = [
        ("cartesian to polar", |z| { let w: Polar<T> = c::<T>(z).conj(); (w.mag.bits(), w.ang.bits()) }, |z| { let z = c::<T>(z); let w = C::new(z.re, -z.im).to_polar(); (w.mag.bits(), w.ang.bits()) }),
        ("polar to cartesian", |z| { let w: C<T> = p::<T>(z).conj(); (w.re.bits(), w.im.bits()) }, |z| { let z = p::<T>(z); let w = Polar::new(z.mag, -z.ang).to_cartesian(); (w.re.bits(), w.im.bits()) }),
    ];
    across_machine(ck, ty::<T>(), f)
}
fn across_machine(ck: &mut Check, t: &'static Ty, f: [(&'static str, Op1, Op1); 2]) {
    let v = t.parts(45);
    let n = v.len() as u64;
    for (k, (what, conj, model)) in f.into_iter().enumerate() {
        ck.unit(format!("{what} {}", t.name), n * n, move |i, r| {
            let z = (v[(i % n) as usize], v[(i / n) as usize]);
            let (x, y) = t.f2(z);
            // The conversion itself is C18's.
            let lowest = t.kind != Kind::Float && (z.1 as i128 == t.lo() || z.0 as i128 == t.lo());
            if lowest || k == 0 && x * x + y * y + 4.0 * t.grain() >= t.max() || k == 1 && (x.abs() * 1.5 + t.grain() >= t.max() || t.trig_err(y) > 0.4) {
                return r.skip();
            }
            let (got, want) = (conj(z), model(z));
            r.calls(2);
            // Two ways to compute the same may differ by what each of them loses.
            let iter = if t.kind == Kind::Float { 4.0 * t.eps() } else { 70.0 * t.ulp() };
            let tol = |w: f64| 2.0 * t.grain() + 4.0 * t.eps_of() * w.abs() + iter * if k == 0 { w.abs().min(PI) } else { x.abs() };
            let (a, b) = (t.f2(got), t.f2(want));
            let ok = (a.0 - b.0).abs() <= tol(b.0) && (a.1 - b.1).abs() <= tol(b.1) || got == want;
            r.check(ok, dig(got), y != 0.0, || format!("{} {what}: the conjugate of {} is {}, but converting after negating the angle gives {}", t.name, t.show2(z), t.show2(got), t.show2(want)));
            // The mirror image lies in the opposite half plane, at the same distance.
            let s = if k == 0 { a.1 } else { a.1 * x.signum() };
            let half = if k == 0 { -y.atan2(x) } else { -y.sin() };
            let blur = if k == 0 { 40.0 * t.grain() } else { (40.0 * t.ulp() + t.trig_err(y)) * (1.0 + 1.0 / x.abs().max(1e-9)) };
            let ok = t.kind == Kind::Float && k == 1 || half.abs() <= blur || k == 0 && y.abs() <= blur || s == 0.0 || (s > 0.0) == (half > 0.0);
            r.check(ok, dig(got), y != 0.0, || format!("{} {what}: the conjugate of {} is {}, not mirrored", t.name, t.show2(z), t.show2(got)));
            r.sample(|| format!("{} -> {}", t.show2(z), t.show2(got)));
        });
    }
}

macro_rules! plains { ($c:ident; $($t:ident)*) => { $( plain::<$t>(&mut $c); )* } }

fn main() {
    let mut c = Check::new("C20", "state: a complex number in either form (8-bit types complete, alphabets with extremes and powers of two for the others), transition: conjugate into the same form, once and twice, and into the other form; oracle: exact negation of the imaginary part or the angle, and the conversion of that");
    c.assume("the lowest two's complement value cannot be negated and is outside the domain");
    signed_int!(plains!(c));
    across::<f32>(&mut c);
    across::<f64>(&mut c);
    each_signed!(across(&mut c));
    c.run()
}
