//! Error measures.

/// Distance from `got` to the real number `want` (accurate to double precision), in f32 units in the last place of
/// `want`. Both infinite or both NaN count as zero.
pub fn ulp32(got: f32, want: f64) -> f64 {
    if want.is_nan() {
        return if got.is_nan() { 0.0 } else { f64::INFINITY };
    }
    if got.is_nan() {
        return f64::INFINITY;
    }
    let w = want as f32;
    if got == w {
        return 0.0;
    }
    if !got.is_finite() || !w.is_finite() {
        // At the overflow threshold either neighbour will do.
        let big = f32::MAX as f64;
        let near = |x: f64| x.abs() >= big * (1.0 - 1e-6);
        return if near(got as f64) && near(want) && (got > 0.0) == (want > 0.0) { 1.0 } else { f64::INFINITY };
    }
    let a = w.abs();
    let u = if a < f32::MIN_POSITIVE { f32::from_bits(1) as f64 } else { (f32::from_bits(a.to_bits() + 1).min(f32::MAX) as f64 - a as f64).max(a as f64 - f32::from_bits(a.to_bits() - 1) as f64) };
    ((got as f64) - want).abs() / u
}

pub fn ulp64(got: f64, want: f64) -> f64 {
    if want.is_nan() || got.is_nan() {
        return if got.is_nan() == want.is_nan() { 0.0 } else { f64::INFINITY };
    }
    if got == want {
        return 0.0;
    }
    if !got.is_finite() || !want.is_finite() {
        let near = |x: f64| x.abs() >= f64::MAX * (1.0 - 1e-14);
        return if near(got) && near(want) && (got > 0.0) == (want > 0.0) { 1.0 } else { f64::INFINITY };
    }
    let a = want.abs().max(f64::MIN_POSITIVE);
    let u = f64::from_bits(a.to_bits() + 1) - a;
    (got - want).abs() / u
}
