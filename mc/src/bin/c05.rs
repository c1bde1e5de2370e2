//! Integer powers.
use mc::fx::Fx;
use mc::lattice;
use mc::prim::{leak, Prim};
use mc::val::Val;
use mc::*;
use mixed_num::*;

fn exps() -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    for n in (0..=70).chain([95, 96, 97, 98, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 4095, 65535, 65536, 65537]) {
        v.push(n);
        if n > 0 {
            v.push(-n);
        }
    }
    for n in mc::dict::counts(70000.0) {
        for n in [n as i32, -n as i32] {
            if !v.contains(&n) {
                v.push(n);
            }
        }
    }
    v
}

macro_rules! int { ($c:ident, $ex:ident; $($t:ident)*) => { $( {
    let mut v: Vec<$t> = <$t as Prim>::values(4).to_vec();
    for i in 0..=260u16 { if let Ok(x) = <$t>::try_from(i) { v.push(x); v.push(x.wrapping_neg()); } }
    v.sort(); v.dedup();
    let (v, ex) = (leak(v), $ex);
    let n = v.len() as u64;
    $c.unit(concat!("powi ", stringify!($t)), n * ex.len() as u64, move |i, r| {
        let (b, e) = (v[(i % n) as usize], ex[(i / n) as usize]);
        let want = if e >= 0 { b.checked_pow(e as u32) } else if b == 0 { None } else {
            // 1/b truncated to an integer, raised
            let inv: $t = if b == 1 { 1 } else if b.wrapping_add(1) == 0 && <$t as Val>::signed() { b } else { 0 };
            inv.checked_pow(e.unsigned_abs())
        };
        let Some(want) = want else { return r.skip() };
        let got = b.mixed_powi(e);
        r.calls(1);
        r.check(got == want, got as u64, e.unsigned_abs() > 1, || format!("{}({b}).mixed_powi({e}) is {got}, expected {want}", stringify!($t)));
        if e >= 0 {
            let got = trigonometry::powi(b, e as usize);
            r.calls(1);
            r.check(got == want, got as u64, e > 1, || format!("powi::<{}>({b}, {e}) is {got}, expected {want}", stringify!($t)));
        }
        r.sample(|| format!("{b}^{e} = {got}"));
    });
} )* } }

/// |x|^n in double precision, and a bound on its relative error; x itself, and its reciprocal, are rounded too.
fn pow(x: f64, n: u32) -> (f64, f64) {
    (x.powi(n as i32), (3.0 * n as f64 + 4.0) * 1.2e-16)
}

/// Bound on the error of a^m by repeated squaring, in either direction, when every product loses less than u and a itself
/// is off by e.
fn squaring(a: f64, m: u32, e: f64, u: f64) -> f64 {
    if m < 2 {
        return e;
    }
    let (mut y, mut left) = (a, e);
    for bit in (0..31 - m.leading_zeros()).rev() {
        left = (2.0 * y + left) * left + u;
        y *= y;
        if m >> bit & 1 == 1 {
            left = y * e + (a + e) * left + u;
            y *= a;
        }
    }
    let (mut z, mut right, mut s, mut es, mut m) = (1.0, 0.0, a, e, m);
    loop {
        if m & 1 == 1 {
            right = z * es + (s + es) * right + u;
            z *= s;
        }
        m >>= 1;
        if m == 0 {
            return left.max(right);
        }
        es = (2.0 * s + es) * es + u;
        s *= s;
    }
}

fn fx<T: Fx + Val + MixedPowi + MixedOps + MixedNum>(c: &mut Check, ex: &'static [i32]) {
    let v: &'static [i128] = if T::BITS == 8 { lattice::fx_vals::<T>(8, &[], 0) } else { lattice::fx_vals::<T>(if thorough() { 7 } else { 4 }, &[1.0, 0.5, 0.9, 0.99, 0.999, 1.1, 1.01, 1.5, 2.0, 3.0, 1.2, 1.9], 2) };
    let n = v.len() as u64;
    let ulp = T::ulp();
    c.unit(format!("powi {}", <T as Fx>::name()), n * ex.len() as u64, move |i, r| {
        let (x, e) = (T::of(v[(i % n) as usize]), ex[(i / n) as usize]);
        let m = e.unsigned_abs();
        let b = if e < 0 {
            if x.raw() == 0 {
                return r.skip();
            }
            1.0 / x.f()
        } else {
            x.f()
        };
        let a = b.abs();
        // Every product loses less than one unit in the last place, the reciprocal another.
        let (y, rel) = pow(a, m);
        let mut lost = match m {
            0 | 1 => 0.0,
            2 => 1.0,
            _ if a <= 1.0 => 2.0 * (m - 1) as f64,
            _ => 2.0 * ((a.powi(m as i32 - 1) - 1.0) / (a - 1.0)).min(m as f64 * a.powi(m as i32 - 2)),
        };
        if e < 0 {
            lost += m as f64 * a.max(1.0).powi(m as i32 - 1);
        }
        let grow = if e < 0 { (1.0 + ulp / a.max(1e-300)).powi(m as i32).min(1e6) } else { 1.0 };
        // The order of the multiplications is free, and by squaring, errors are squared as well.
        let tol = (lost * ulp * 1.5 * grow).max(squaring(a, m, if e < 0 { ulp } else { 0.0 }, ulp)) + y * rel;
        let (hi, lo) = (T::max_f(), T::min_f());
        // In range with room for the rounding, and so are the powers below.
        if a.max(1.0) + ulp > hi || y + tol > hi || (b < 0.0 && -(y + tol) < lo) {
            return r.skip();
        }
        let want = if b < 0.0 && m & 1 == 1 { -y } else { y };
        let exact = m == 0 || e == 1;
        let tol = if exact { 0.0 } else { tol };
        let got = x.mixed_powi(e);
        r.calls(1);
        let err = (got.f() - want).abs();
        if !exact {
            r.worst(err / tol);
        }
        let d = || format!("({}) error {err:e}, tolerance {tol:e}", want);
        r.check(err <= tol, got.raw() as u64, m > 1, || format!("{}({x}).mixed_powi({e}) is {got}, expected {}", <T as Fx>::name(), d()));
        if e >= 0 {
            let got = trigonometry::powi(x, m as usize);
            r.calls(1);
            let err = (got.f() - want).abs();
            r.check(err <= tol, got.raw() as u64, m > 1, || format!("powi::<{}>({x}, {e}) is {got}, expected {want}", <T as Fx>::name()));
        }
        r.sample(|| format!("{x}^{e} = {got}"));
    });
}

macro_rules! float { ($c:ident, $ex:ident, $t:ident, $min:expr, $max:expr, $eps:expr) => { {
    let mut v: Vec<f64> = lattice::f64_vals(if thorough() { 8 } else { 5 }, -20, 20);
    v.extend(lattice::f64_vals(2, -140, 127));
    v.extend(lattice::f64_near(&[1.0, 0.5, 2.0, 10.0, 0.1, 1.001, 0.999], 3));
    for i in 1..=100 { v.push(i as f64); v.push(-i as f64); v.push(i as f64 / 10.0); v.push(1.0 + i as f64 / 1000.0); v.push(1.0 - i as f64 / 1000.0); }
    if stringify!($t) == "f64" { v.extend(lattice::f64_vals(1, -1022, 1023)); }
    let v: Vec<$t> = v.into_iter().map(|x| x as $t).collect();
    let (v, ex) = (leak(v), $ex);
    let n = v.len() as u64;
    $c.unit(concat!("powi ", stringify!($t)), n * ex.len() as u64, move |i, r| {
        let (x, e) = (v[(i % n) as usize], ex[(i / n) as usize]);
        let m = e.unsigned_abs() as f64;
        let a = (x as f64).abs();
        let want = (x as f64).powi(e);
        let same = |g: $t| -> (bool, f64) {
            if want.is_nan() || g.is_nan() { return (want.is_nan() && g.is_nan(), 0.0) }
            let g = g as f64;
            if g == want { return (g != 0.0 || a != 0.0 || g.is_sign_negative() == want.is_sign_negative(), 0.0) }
            let err = ((g - want) / want).abs() / ((2.0 * m + 4.0) * $eps);
            (err <= 1.0, err)
        };
        // Near the ends of the range the result depends on when it is rounded; zero, infinity and NaN are exact.
        let finite = a > 0.0 && a.is_finite();
        let bits = a.log2().abs() * m;
        if finite && (bits > $max || a < $min) && e != 0 { return r.skip() }
        let mut all = |what: &str, got: $t| {
            let (ok, err) = same(got);
            r.calls(1);
            r.worst(err);
            r.check(ok, got.to_bits() as u64, m > 1.0, || format!("{}({x:?}) {what} {e} is {got:?}, expected {want:?}", stringify!($t)));
        };
        all("mixed_powi", x.mixed_powi(e));
        if e >= 0 { all("powi", trigonometry::powi(x, e as usize)); }
        r.sample(|| format!("{x:?}^{e} = {:?}", x.mixed_powi(e)));
    });
} } }

fn main() {
    let mut c = Check::new("C05", "state: base and integer exponent (exponents 0 to +-70 and selected to +-65537, for bases of magnitude one or zero to the longest ones; bases over short and sparse bit patterns and small integers), transition: mixed_powi and the generic powi; oracle: exact integer powers, real powers with the accumulated rounding error for fixed and floating point");
    c.assume("a power that the type cannot hold, and a negative power of zero in integer and fixed point, are outside the domain");
    let ex: &'static [i32] = leak(exps());
    int!(c, ex; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    float!(c, ex, f32, f32::MIN_POSITIVE as f64, 124.0, f32::EPSILON as f64 / 2.0);
    float!(c, ex, f64, f64::MIN_POSITIVE, 1018.0, f64::EPSILON / 2.0);
    let ex: &'static [i32] = leak(ex.iter().copied().filter(|e| e.abs() <= if thorough() { 65537 } else { 1001 }).collect());
    each_signed!(fx(&mut c, ex));
    each_unsigned!(fx(&mut c, ex));
    // The longest exponents there are.
    let big = [i32::MAX, i32::MAX - 1, i32::MIN];
    c.unit("powi i32, longest exponents", 6, move |i, r| {
        let (b, e) = ([1i32, -1][(i % 2) as usize], big[(i / 2) as usize]);
        let want = if b == -1 && e & 1 == 0 { 1 } else { b };
        let got = b.mixed_powi(e);
        r.calls(1);
        r.check(got == want, got as u64, true, || format!("{b}.mixed_powi({e}) is {got}"));
    });
    let long: [i32; 8] = [100_003, -100_003, 1 << 20, -(1 << 20) - 1, 16_777_217, -16_777_217, 1 << 24, -(1 << 24)];
    macro_rules! long { ($($t:ty)*) => { $( {
        let t = std::any::type_name::<$t>();
        c.unit(format!("powi {t}, long exponents"), 24, move |i, r| {
            let (k, e) = ([1i32, -1, 0][(i % 3) as usize], long[(i / 3) as usize]);
            if k == 0 && e < 0 || k < 0 && !<$t as Val>::signed() {
                return r.skip();
            }
            let of = |k: i32| <$t as MixedNumConversion<i32>>::mixed_from_num(k);
            let want = if k == -1 && e & 1 == 0 { 1 } else { k };
            let got = of(k).mixed_powi(e);
            r.calls(1);
            r.check(got == of(want), 0, true, || format!("{t}({k}).mixed_powi({e}) is {got}"));
            if e > 0 {
                let got = trigonometry::powi(of(k), e as usize);
                r.calls(1);
                r.check(got == of(want), 0, true, || format!("powi::<{t}>({k}, {e}) is {got}"));
            }
        });
    } )* } }
    long!(f32 f64 u8 i8 i16 u32 i64 i128 fixed::types::I4F4 fixed::types::I16F16 fixed::types::U16F16 fixed::types::I16F48 fixed::types::U8F8);
    c.unit("powi of floats, longest exponents", 20, move |i, r| {
        let (x, e) = ([1f64, -1.0, 1.0 + f64::EPSILON, 0.0, 2.0][(i % 5) as usize], [i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1][(i / 5) as usize]);
        let want = if x.abs() == 1.0 { if e & 1 == 0 { 1.0 } else { x } } else if x < 1.0 { if e < 0 { f64::INFINITY } else { 0.0 } } else if x == 2.0 { if e < 0 { 0.0 } else { f64::INFINITY } } else { (e as f64 * f64::EPSILON).exp() };
        let got = x.mixed_powi(e);
        let narrow = (x as f32).mixed_powi(e);
        r.calls(2);
        // Some 2^31 roundings at most: two thirds of a unit in 10^6.
        r.check(got == want || (got - want).abs() < 1e-6, got.to_bits(), true, || format!("{x:?}.mixed_powi({e}) is {got:?}, expected {want:?}"));
        let want = if x as f32 == 1.0 { 1.0 } else { want };
        r.check(narrow as f64 == want, got.to_bits(), true, || format!("f32 {x:?}.mixed_powi({e}) is {narrow:?}, expected {want:?}"));
    });
    c.run()
}
