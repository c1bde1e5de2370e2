//! Totality: floating point operations answer whatever their operands are, and no operation of any type runs on.
use mc::cplx::*;
use mc::fx::Fx;
use mc::lattice;
use mc::ops::*;
use mc::prim::leak;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

fn float<T: Val + MixedNumConversion<T> + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedTan + MixedTanh + MixedSinh + MixedCosh + MixedCbrt + MixedCeil + MixedFloor + MixedExp10 + MixedExp2 + Mixedlog + Mixedlog2 + Mixedlog10 + DbMag + DbPow + MixedPow + core::ops::MulAssign>(ck: &mut Check) {
    float_machine(ck, ty::<T>(), unary::<T>(), answers::<T>(), two::<T>(), complex_ops::<T>())
}
/// Bit patterns: of f32 an even selection or all, of f64 all exponents with short significands; all kinds of NaN.
fn patterns(t: &'static Ty, i: u64, drop: u32, v: &'static [u64]) -> u128 {
    let n = if t.w == 32 { lattice::f32_count(drop) } else { 0 };
    if i < n { lattice::f32_at(i, drop).to_bits() as u128 } else { v[(i - n) as usize] as u128 }
}
fn float_machine(ck: &mut Check, t: &'static Ty, nan: Vec<One>, any: Vec<One>, two: Vec<Two>, pairs: Vec<Pair>) {
    let drop = if thorough() { 2 } else { 9 };
    let mut v: Vec<u64> = lattice::f64_vals(if thorough() { 10 } else { 5 }, -1023, 1023).into_iter().map(f64::to_bits).collect();
    for k in 0..52 {
        v.extend([0x7ff0_0000_0000_0000 | 1 << k, 0xfff0_0000_0000_0000 | 1 << k]);
    }
    v.extend(lattice::f64_near(&[], 0).into_iter().map(f64::to_bits));
    if t.w == 32 {
        v = lattice::f32_near(&[1.0], 64).into_iter().map(|x| x.to_bits() as u64).collect();
    }
    let v = leak(v);
    let n = v.len() as u64 + if t.w == 32 { lattice::f32_count(drop) } else { 0 };
    for (known, list) in [(true, nan), (false, any)] {
        for (name, f) in list {
            ck.unit(format!("{name} {}", t.name), n, move |i, r| {
                let x = patterns(t, i, drop, v);
                let y = f(x);
                r.calls(1);
                let special = !t.f(x).is_finite();
                r.check(!known || !t.f(x).is_nan() || t.f(y).is_nan(), y as u64, special, || format!("{name} of NaN is {} ({})", (t.show)(y), t.name));
                r.sample(|| format!("{name}({}) = {}", (t.show)(x), (t.show)(y)));
            });
        }
    }
    let mut s: Vec<u128> = t.parts(30).to_vec();
    let (inf, m) = if t.w == 32 { (f32::INFINITY.to_bits() as u128, 1u128 << 31) } else { (f64::INFINITY.to_bits() as u128, 1u128 << 63) };
    for x in [inf, inf - 1, inf + 1, inf + inf / 512, 1, 2, inf / 2, t.near(t.tiny()).unwrap(), t.near(1e9).unwrap(), t.near(std::f64::consts::PI).unwrap(), t.near(std::f64::consts::FRAC_PI_2).unwrap()] {
        s.extend([x, x | m]);
    }
    let s: &'static [u128] = leak(s);
    let k = s.len() as u64;
    for (name, f) in two {
        ck.unit(format!("{name} {}", t.name), k * k, move |i, r| {
            let (x, y) = (s[(i % k) as usize], s[(i / k) as usize]);
            let z = f(x, y);
            r.calls(1);
            let nan = if name.contains("atan2") { t.f(x).is_nan() || t.f(y).is_nan() } else if name == "trigonometry::niirf" { t.f(x).is_nan() } else {
                // A power of NaN is NaN, but for the exponent zero; one to any power is one.
                t.f(x).is_nan() && t.f(y) != 0.0 || t.f(y).is_nan() && t.f(x) != 1.0
            };
            r.check(!nan || t.f(z).is_nan(), z as u64, true, || format!("{name}({}, {}) is {}", (t.show)(x), (t.show)(y), (t.show)(z)));
            r.sample(|| format!("{name}({}, {}) = {}", (t.show)(x), (t.show)(y), (t.show)(z)));
        });
    }
    let few: &'static [u128] = leak(s.iter().copied().skip(if thorough() { 0 } else { 26 }).collect());
    let k = few.len() as u64;
    for (name, nan, f) in pairs {
        let binary = name.len() <= 2 || name.contains('*') || name.contains('/');
        ck.unit(format!("complex {name} {}", t.name), if binary { k.pow(4) } else { k * k }, move |i, r| {
            let (z, mut w) = quad(i, few);
            if !binary {
                w = z;
            }
            let y = f(z, w);
            r.calls(1);
            let any_inf = [z.0, z.1, w.0, w.1].iter().any(|x| t.f(*x).is_infinite());
            let need = if any_inf { (false, false) } else { nan.reach(t.f2(z), t.f2(w)) };
            let ok = (!need.0 || t.f(y.0).is_nan()) && (!need.1 || t.f(y.1).is_nan());
            r.check(ok, dig(y), !t.f(y.0).is_finite() || !t.f(y.1).is_finite(), || format!("{name}: {} and {} give {}: NaN got lost", t.show2(z), t.show2(w), t.show2(y)));
            r.sample(|| format!("{} {name} {} = {}", t.show2(z), t.show2(w), t.show2(y)));
        });
    }
}

fn all<T: Val + Fx + MixedReal + MixedOps + MixedSqrt + MixedAbs + MixedPowi>(ck: &mut Check) {
    fixed_machine(ck, ty::<T>(), fixed_all::<T>())
}
fn signed<T: Val + Fx + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPi + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedSqrt + MixedPowi + MixedAbs>(ck: &mut Check) {
    fixed_machine(ck, ty::<T>(), fixed_signed::<T>())
}
fn fixed_machine(ck: &mut Check, t: &'static Ty, list: Vec<One>) {
    let v: &'static [i128] = leak(lattice::raws(t.w, t.signed, if thorough() { 9 } else if t.w <= 16 { 8 } else { 5 }));
    for (name, f) in list {
        ck.unit(format!("{name} {}", t.name), v.len() as u64, move |i, r| {
            let x = v[i as usize] as u128;
            let y = guarded(|| f(x));
            r.calls(1);
            r.seen(y.unwrap_or(0xdead) as u64, y.is_some());
            r.sample(|| format!("{name}({}) = {}", (t.show)(x), y.map(t.show).unwrap_or("panic".into())));
        });
    }
    let _ = Kind::Fixed;
}

fn main() {
    let mut c = Check::new("C24", "state: the operands of one operation (f32: an even selection of all bit patterns, 2^30 of them in the thorough tier; f64: every exponent with short significands; every kind of NaN, both infinities, zeros, subnormals; combinations of those for two operands and complex operations; fixed point: 8 and 16 bits complete, lattice above), transition: one operation; monitored: it returns, floats without panic and NaN giving NaN, and within bounded time");
    c.assume("not terminating means taking 25 s for one transition, or 500 s for the exploration, which takes seconds");
    c.assume("fixed point operations may panic outside of their domains, which the other checks delimit");
    if !thorough() {
        c.deadline(500);
    }
    float::<f32>(&mut c);
    float::<f64>(&mut c);
    each_signed!(all(&mut c));
    each_unsigned!(all(&mut c));
    each_signed!(signed(&mut c));
    c.run()
}

