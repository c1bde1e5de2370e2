//! Exact numbers `±mag · 2^exp` and the conversions a type cast promises, written independently of the library.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    NaN,
    Inf(bool),
    Fin { neg: bool, mag: u128, exp: i32 },
}
use Num::*;

pub fn int(neg: bool, mag: u128) -> Num {
    Fin { neg, mag, exp: 0 }
}
pub fn of_i128(v: i128) -> Num {
    int(v < 0, v.unsigned_abs())
}
pub fn of_raw(raw: i128, frac: u32) -> Num {
    Fin { neg: raw < 0, mag: raw.unsigned_abs(), exp: -(frac as i32) }
}
pub fn of_f64(x: f64) -> Num {
    let b = x.to_bits();
    let (neg, e, m) = (b >> 63 == 1, ((b >> 52) & 0x7ff) as i32, b & ((1 << 52) - 1));
    match (e, m) {
        (0x7ff, 0) => Inf(neg),
        (0x7ff, _) => NaN,
        (0, m) => Fin { neg, mag: m as u128, exp: -1074 },
        (e, m) => Fin { neg, mag: (m | 1 << 52) as u128, exp: e - 1075 },
    }
}

/// Integer part of `mag·2^exp` (None: does not fit u128), and whether a fraction was dropped.
fn int_part(mag: u128, exp: i32) -> (Option<u128>, bool) {
    if mag == 0 {
        (Some(0), false)
    } else if exp >= 0 {
        if exp as u32 > mag.leading_zeros() {
            (None, false)
        } else {
            (Some(mag << exp), false)
        }
    } else if exp <= -128 {
        (Some(0), true)
    } else {
        let s = (-exp) as u32;
        (Some(mag >> s), mag & ((1u128 << s) - 1) != 0)
    }
}

/// Cast from floating point: truncated toward zero, saturated to `bits`, NaN is 0. The bit pattern, sign-extended.
pub fn float_to_int(n: Num, bits: u32, signed: bool) -> i128 {
    let (maxmag, minmag): (u128, u128) = if signed {
        ((1u128 << (bits - 1)) - 1, 1u128 << (bits - 1))
    } else {
        (if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 }, 0)
    };
    let fin = |neg: bool, m: Option<u128>| -> i128 {
        if neg {
            (m.unwrap_or(u128::MAX).min(minmag) as i128).wrapping_neg()
        } else {
            m.unwrap_or(u128::MAX).min(maxmag) as i128
        }
    };
    match n {
        NaN => 0,
        Inf(neg) => fin(neg, None),
        Fin { neg, mag, exp } => fin(neg, int_part(mag, exp).0),
    }
}

/// Cast between integers: the low `bits` bits, interpreted in the target. Sign-extended pattern (u128 as i128).
pub fn wrap_int(v: i128, bits: u32, signed: bool) -> i128 {
    if bits == 128 {
        v
    } else if signed {
        (v << (128 - bits)) >> (128 - bits)
    } else {
        v & ((1i128 << bits) - 1)
    }
}

/// Floor of a fixed-point number, if it lies in the target integer type.
pub fn floor_int(n: Num, bits: u32, signed: bool) -> Option<i128> {
    let Fin { neg, mag, exp } = n else { return None };
    let (ip, frac) = int_part(mag, exp);
    let ip = ip? as i128; // fixed-point sources have at most 64 bits
    let v = if neg { -ip - frac as i128 } else { ip };
    in_range(v, bits, signed).then_some(v)
}

/// Whether the integer `v` lies in the integer type (v of u128 type is passed reinterpreted, only for v ≥ 0 here).
pub fn in_range(v: i128, bits: u32, signed: bool) -> bool {
    if signed {
        bits == 128 || (v >= -(1i128 << (bits - 1)) && v < (1i128 << (bits - 1)))
    } else {
        v >= 0 && (bits >= 127 || v < (1i128 << bits))
    }
}

/// `mag·2^exp` rounded to an integer, ties to even, if it fits u128.
fn round_even(mag: u128, exp: i32) -> Option<u128> {
    if exp >= 0 || mag == 0 {
        return int_part(mag, exp).0;
    }
    let s = (-exp) as u32;
    if s > 128 {
        return Some(0);
    }
    let (q, r, half) = if s == 128 { (0, mag, 1u128 << 127) } else { (mag >> s, mag & ((1u128 << s) - 1), 1u128 << (s - 1)) };
    Some(if r > half || (r == half && q & 1 == 1) { q + 1 } else { q })
}

/// Nearest fixed-point value (ties to even), if in range.
pub fn to_raw(n: Num, frac: u32, bits: u32, signed: bool) -> Option<i128> {
    let Fin { neg, mag, exp } = n else { return None };
    let r = round_even(mag, exp + frac as i32)?;
    if r > 1u128 << 100 {
        return None;
    }
    let v = if neg { -(r as i128) } else { r as i128 };
    in_range(v, bits, signed).then_some(v)
}

fn to_float(n: Num, prec: u32, emin: i32, emax: i32) -> (bool, Option<(u128, i32)>, bool) {
    // -> (negative, Some(mag, exp) or None for infinity, is_nan); emin: exponent of the last place of subnormals
    match n {
        NaN => (false, None, true),
        Inf(neg) => (neg, None, false),
        Fin { neg, mag: 0, .. } => (neg, Some((0, 0)), false),
        Fin { neg, mag, exp } => {
            let len = 128 - mag.leading_zeros() as i32;
            let e = (exp + len - prec as i32).max(emin); // exponent of the last place of the result
            let m = round_even(mag, exp - e).expect("len <= prec after shift");
            if 128 - m.leading_zeros() as i32 + e > emax + 1 {
                (neg, None, false)
            } else {
                (neg, Some((m, e)), false)
            }
        }
    }
}

/// Nearest f64 (ties to even) as the language's casts give it. Integer zero is +0.
pub fn to_f64(n: Num) -> f64 {
    match to_float(n, 53, -1074, 1023) {
        (_, _, true) => f64::NAN,
        (neg, None, _) => if neg { f64::NEG_INFINITY } else { f64::INFINITY },
        (neg, Some((m, e)), _) => {
            let v = ldexp(m as f64, e);
            if neg { -v } else { v }
        }
    }
}
pub fn to_f32(n: Num) -> f32 {
    match to_float(n, 24, -149, 127) {
        (_, _, true) => f32::NAN,
        (neg, None, _) => if neg { f32::NEG_INFINITY } else { f32::INFINITY },
        (neg, Some((m, e)), _) => {
            let v = ldexp(m as f64, e) as f32; // exact
            if neg { -v } else { v }
        }
    }
}

/// `x·2^e`, exact whenever the result is representable.
pub fn ldexp(mut x: f64, mut e: i32) -> f64 {
    while e > 1000 {
        x *= f64::from_bits(0x7e70_0000_0000_0000); // 2^1000
        e -= 1000;
    }
    while e < -1000 {
        x *= f64::from_bits((1023 - 1000) << 52); // 2^-1000
        e += 1000;
    }
    x * f64::from_bits(((1023 + e) as u64) << 52)
}
