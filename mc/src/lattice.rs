//! Finite value sets. Up to 16 bits they are complete; above, they are every value of a coarser number format.
use std::collections::BTreeSet;

/// Integers of `bits` bits: all of them up to 16 bits, else every value with an `m`-bit significand at every
/// position, its neighbours, all values with two set bits, and the extremes. Ordered by magnitude.
pub fn raws(bits: u32, signed: bool, m: u32) -> Vec<i128> {
    let (lo, hi) = if signed { (i128::MIN >> (128 - bits), i128::MAX >> (128 - bits)) } else if bits == 128 { (0, i128::MAX) } else { (0, (1i128 << bits) - 1) };
    if bits <= 16 && m >= 8 {
        let mut v: Vec<i128> = (lo..=hi).collect();
        v.sort_by_key(|x| (x.unsigned_abs(), *x < 0));
        return v;
    }
    let mut s = BTreeSet::new();
    let mut add = |x: i128| {
        for d in -1..=1 {
            let y = x.saturating_add(d);
            s.insert(y);
            s.insert(y.wrapping_neg());
        }
    };
    for k in 0..bits {
        for v in 0..(1i128 << m) {
            if (v << k) >> k == v && v << k >= 0 {
                add(v << k);
            }
        }
        if m >= 6 {
            for j in 0..k {
                if k < 127 {
                    add((1i128 << k) + (1i128 << j));
                    add((1i128 << k) - (1i128 << j));
                }
            }
        }
    }
    for x in crate::dict::novel() {
        if x.fract() == 0.0 && x.abs() < 1e30 {
            add(*x as i128);
        }
    }
    add(hi);
    add(lo);
    let mut v: Vec<i128> = s.into_iter().filter(|x| *x >= lo && *x <= hi).collect();
    v.sort_by_key(|x| (x.unsigned_abs(), *x < 0));
    v
}

/// The lattice for a fixed-point type plus values near the given reals (within `d` units in the last place).
pub fn fx_vals<T: crate::fx::Fx>(m: u32, near: &[f64], d: i128) -> &'static [i128] {
    crate::prim::leak(fx_vals_of(T::BITS, T::FRAC, T::SIGNED, m, near, d))
}
fn fx_vals_of(bits: u32, frac: u32, signed: bool, m: u32, near: &[f64], d: i128) -> Vec<i128> {
    let mut v = raws(bits, signed, m);
    if bits > 16 || m < 8 {
        let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
        let mut s: BTreeSet<i128> = v.iter().copied().collect();
        // All constants of the code where one operand is explored, new ones where several are.
        let more = if m >= 7 { [crate::dict::all(), &crate::dict::around()].concat() } else { crate::dict::around() };
        for x in near.iter().chain(&more) {
            for sgn in [1.0, -1.0] {
                let y = crate::exact::ldexp(x * sgn, frac as i32).round();
                if y.abs() < 1e30 {
                    s.extend((-d..=d).map(|k| y as i128 + k).filter(|k| (lo..=hi).contains(k)));
                }
            }
        }
        v = s.into_iter().collect();
        v.sort_by_key(|x| (x.unsigned_abs(), *x < 0));
    }
    v
}

/// Every f32 whose low `drop` significand bits are zero: index -> value, 2^(32-drop) of them, magnitude first.
#[inline(always)]
pub fn f32_at(i: u64, drop: u32) -> f32 {
    let b = ((i >> 1) << drop) as u32 | ((i & 1) as u32) << 31;
    f32::from_bits(b)
}
pub fn f32_count(drop: u32) -> u64 {
    1u64 << (32 - drop)
}
/// Constants of the code, and for new ones their surroundings.
pub fn more() -> &'static [f64] {
    static C: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    C.get_or_init(|| [crate::dict::all(), &crate::dict::around()].concat())
}
/// f32 values within `d` ulps of the given ones (and their negations).
pub fn f32_near(pts: &[f64], d: i32) -> Vec<f32> {
    let mut s = BTreeSet::new();
    let pts = pts.iter().map(|p| (p, d)).chain(more().iter().map(|p| (p, d.min(4))));
    for (p, d) in pts {
        let b = (p.abs() as f32).to_bits() as i64;
        for k in -(d as i64)..=d as i64 {
            let y = b + k;
            if (0..=0x7f80_0001).contains(&y) {
                s.insert(y as u32);
                s.insert(y as u32 | 1 << 31);
            }
        }
    }
    s.into_iter().map(f32::from_bits).collect()
}
/// Every f64 with an `m`-bit fraction (leading bits) at every exponent in the range, both signs.
pub fn f64_vals(m: u32, emin: i32, emax: i32) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::from_bits(1), -f64::from_bits(1)];
    for e in emin.max(-1022)..=emax.min(1023) {
        for f in 0..(1u64 << m) {
            let x = f64::from_bits((((e + 1023) as u64) << 52) | (f << (52 - m)));
            v.push(x);
            v.push(-x);
        }
    }
    // subnormals
    if emin <= -1022 {
        for k in 0..52 {
            v.push(f64::from_bits(1 << k));
            v.push(-f64::from_bits(1 << k));
        }
    }
    v
}
pub fn f64_near(pts: &[f64], d: i64) -> Vec<f64> {
    let mut v = vec![];
    let pts = pts.iter().map(|p| (p, d)).chain(more().iter().map(|p| (p, d.min(4))));
    for (p, d) in pts {
        let b = p.abs().to_bits() as i64;
        for k in -d..=d {
            if b + k >= 0 {
                v.push(f64::from_bits((b + k) as u64));
                v.push(-f64::from_bits((b + k) as u64));
            }
        }
    }
    v
}
/// Points where elementary functions change behaviour.
pub fn specials() -> Vec<f64> {
    use std::f64::consts::*;
    let mut v = vec![0.0, 1.0, 2.0, 0.5, 0.25, 0.75, 1.5, 3.0, 10.0, 20.0, 100.0, 1e-3, E, LN_2, LN_10, SQRT_2, 88.72283, 103.97, 709.78, 745.13, 38.53, 308.25, 127.0, 128.0, 149.0, 1023.0, 1024.0, 1074.0, 1e10, 1e30, 0.1, 0.3];
    for k in 1..=32 {
        v.push(k as f64 * FRAC_PI_4);
    }
    v
}
