//! Elementary functions of floating point numbers.
use mc::lattice;
use mc::prim::leak;
use mc::tol::*;
use mc::*;
use mixed_num::*;

struct F1 {
    name: &'static str,
    f32: fn(f32) -> f32,
    f64: fn(f64) -> f64,
    want: fn(f64) -> f64,
    /// Tolerances in units in the last place, f32 and f64.
    tol: (f64, f64),
}
macro_rules! f1 { ($($name:literal $m:ident $want:ident $t32:expr, $t64:expr;)*) => { [$( F1 { name: $name, f32: |x| x.$m(), f64: |x| x.$m(), want: |x| x.$want(), tol: ($t32, $t64) } ),*] } }

static ONE: [F1; 21] = f1! {
    "sin" mixed_sin sin 2.0, 3.0;
    "cos" mixed_cos cos 2.0, 3.0;
    "tan" mixed_tan tan 2.5, 3.0;
    "asin" mixed_asin asin 2.0, 3.0;
    "acos" mixed_acos acos 2.0, 3.0;
    "atan" mixed_atan atan 2.0, 3.0;
    "sinh" mixed_sinh sinh 4.0, 6.0;
    "cosh" mixed_cosh cosh 4.0, 6.0;
    "tanh" mixed_tanh tanh 4.0, 6.0;
    "asinh" mixed_asinh asinh_ref 4.0, 6.0;
    "acosh" mixed_acosh acosh_ref 4.0, 6.0;
    "atanh" mixed_atanh atanh_ref 4.0, 6.0;
    "cbrt" mixed_cbrt cbrt 2.0, 2.0;
    "exp" mixed_exp exp 2.0, 3.0;
    "exp2" mixed_exp2 exp2 2.0, 3.0;
    "log" mixed_log ln 2.0, 3.0;
    "log10" mixed_log10 log10 3.0, 4.0;
    "log2" mixed_log2 log2 3.0, 4.0;
    "exp10" mixed_exp10 exp10_ref 5.0, 8.0;
    "sincos.0" mixed_sincos_0 sin 2.0, 3.0;
    "sincos.1" mixed_sincos_1 cos 2.0, 3.0;
};

trait Sc { fn mixed_sincos_0(&self) -> Self; fn mixed_sincos_1(&self) -> Self; }
impl<T: MixedSin> Sc for T {
    fn mixed_sincos_0(&self) -> T { self.mixed_sincos().0 }
    fn mixed_sincos_1(&self) -> T { self.mixed_sincos().1 }
}
// The standard library computes these itself, less accurately than the C library.
mod c {
    extern "C" {
        pub fn asinh(x: f64) -> f64;
        pub fn acosh(x: f64) -> f64;
        pub fn atanh(x: f64) -> f64;
        pub fn exp10(x: f64) -> f64;
    }
}
trait Oracle { fn asinh_ref(self) -> f64; fn acosh_ref(self) -> f64; fn atanh_ref(self) -> f64; fn exp10_ref(self) -> f64; }
impl Oracle for f64 {
    fn asinh_ref(self) -> f64 { unsafe { c::asinh(self) } }
    fn acosh_ref(self) -> f64 { unsafe { c::acosh(self) } }
    fn atanh_ref(self) -> f64 { unsafe { c::atanh(self) } }
    fn exp10_ref(self) -> f64 { unsafe { c::exp10(self) } }
}

fn one32(k: usize, x: f32, r: &mut Rep) {
    let f = &ONE[k];
    let got = (f.f32)(x);
    let want = (f.want)(x as f64);
    let e = ulp32(got, want);
    r.calls(1);
    r.worst(e / f.tol.0);
    r.check(e <= f.tol.0, got.to_bits() as u64, got.is_finite() && got != 0.0, || format!("f32 {}({x:?}) is {got:?}, expected {want:?} ({e} ulp)", f.name));
    r.sample(|| format!("{}({x:?}) = {got:?}", f.name));
}
fn one64(k: usize, x: f64, r: &mut Rep) {
    let f = &ONE[k];
    let got = (f.f64)(x);
    let want = (f.want)(x);
    let e = ulp64(got, want);
    r.calls(1);
    r.worst(e / f.tol.1);
    r.check(e <= f.tol.1, got.to_bits(), got.is_finite() && got != 0.0, || format!("f64 {}({x:?}) is {got:?}, expected {want:?} ({e} ulp)", f.name));
    r.sample(|| format!("{}({x:?}) = {got:?}", f.name));
}

fn main() {
    let mut c = Check::new("C10", "state: an argument or a pair of arguments (f32: every value with a significand of 16 bits - all 2^32 in the thorough tier - and every value near the points where the functions change; f64: every value with a short significand at every exponent), transition: one function; oracle: the platform's double precision functions, tolerance in units in the last place");
    c.assume("the platform's libm is accurate to one unit in the last place of double precision");
    let drop = if thorough() { 0 } else { 8 };
    let near: &'static [f32] = leak(lattice::f32_near(&lattice::specials(), if thorough() { 4096 } else { 256 }));
    let v64: &'static [f64] = {
        let mut v = lattice::f64_vals(if thorough() { 10 } else { 6 }, -1022, 1023);
        v.extend(lattice::f64_vals(if thorough() { 16 } else { 11 }, -30, 12));
        v.extend(lattice::f64_near(&lattice::specials(), if thorough() { 4096 } else { 256 }));
        leak(v)
    };
    for k in 0..ONE.len() {
        c.unit(format!("f32 {}", ONE[k].name), lattice::f32_count(drop), move |i, r| one32(k, lattice::f32_at(i, drop), r));
        c.unit(format!("f32 {} near", ONE[k].name), near.len() as u64, move |i, r| one32(k, near[i as usize], r));
        c.unit(format!("f64 {}", ONE[k].name), v64.len() as u64, move |i, r| one64(k, v64[i as usize], r));
    }
    // Two arguments.
    let a32: &'static [f32] = {
        let mut v: Vec<f32> = lattice::f64_vals(if thorough() { 4 } else { 1 }, -150, 128).into_iter().map(|x| x as f32).collect();
        v.extend(lattice::f64_vals(if thorough() { 7 } else { 5 }, -4, 7).into_iter().map(|x| x as f32));
        v.extend((-70..=70).map(|k| k as f32 / 2.0));
        v.extend(lattice::f32_near(&[1.0, 0.0, 2.0], 3));
        leak(v)
    };
    let a64: &'static [f64] = {
        let mut v = lattice::f64_vals(if thorough() { 2 } else { 0 }, -1022, 1023);
        v.extend(lattice::f64_vals(if thorough() { 7 } else { 5 }, -4, 7));
        v.extend((-70..=70).map(|k| k as f64 / 2.0));
        v.extend(lattice::f64_near(&[1.0, 0.0, 2.0], 3));
        leak(v)
    };
    let (n, m) = (a32.len() as u64, a64.len() as u64);
    fn two32(name: &str, x: f32, y: f32, got: f32, want: f64, tol: f64, r: &mut Rep) {
        let e = ulp32(got, want);
        r.calls(1);
        r.worst(e / tol);
        r.check(e <= tol, got.to_bits() as u64, got.is_finite() && got != 0.0, || format!("f32 {name}({x:?}, {y:?}) is {got:?}, expected {want:?} ({e} ulp)"));
        r.sample(|| format!("{name}({x:?}, {y:?}) = {got:?}"));
    }
    fn two64(name: &str, x: f64, y: f64, got: f64, want: f64, tol: f64, r: &mut Rep) {
        let e = ulp64(got, want);
        r.calls(1);
        r.worst(e / tol);
        r.check(e <= tol, got.to_bits(), got.is_finite() && got != 0.0, || format!("f64 {name}({x:?}, {y:?}) is {got:?}, expected {want:?} ({e} ulp)"));
        r.sample(|| format!("{name}({x:?}, {y:?}) = {got:?}"));
    }
    c.unit("f32 pow", n * n, move |i, r| { let (x, y) = (a32[(i % n) as usize], a32[(i / n) as usize]); two32("pow", x, y, x.mixed_pow(y), (x as f64).powf(y as f64), 2.0, r) });
    c.unit("f32 atan2", n * n, move |i, r| { let (x, y) = (a32[(i % n) as usize], a32[(i / n) as usize]); two32("atan2", x, y, x.mixed_atan2(y), (x as f64).atan2(y as f64), 2.5, r) });
    c.unit("f64 pow", m * m, move |i, r| { let (x, y) = (a64[(i % m) as usize], a64[(i / m) as usize]); // libm takes the logarithm to one rounding only for these exponents.
        let slack = if y.abs() > 2147483648.0 { (y * x.abs().ln()).abs().min(800.0) } else { 0.0 };
        two64("pow", x, y, x.mixed_pow(y), x.powf(y), 3.0 + slack, r) });
    c.unit("f64 atan2", m * m, move |i, r| { let (x, y) = (a64[(i % m) as usize], a64[(i / m) as usize]); two64("atan2", x, y, x.mixed_atan2(y), x.atan2(y), 3.0, r) });
    c.run()
}
