//! All ways to write one operation give the same result, to the last bit.
use mc::cplx::*;
use mc::fx::Fx;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;
use num::Complex;

type C<T> = Cartesian<T>;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn n<T: Val>(z: Bits2) -> Complex<T> {
    Complex { re: T::of_bits(z.0), im: T::of_bits(z.1) }
}
fn p<T: Val>(z: Bits2) -> Polar<T> {
    Polar::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}
fn q<T: Val>(z: Polar<T>) -> Bits2 {
    (z.mag.bits(), z.ang.bits())
}

/// A scalar of another type than the components.
fn sc<T: Val + MixedNumConversion<f64>>(z: Bits2) -> f64 {
    T::of_bits(z.0).mixed_to_num()
}

/// Ways to write one operation.
struct Class {
    name: &'static str,
    /// How many components the operation has: 1 to 4.
    arity: u32,
    /// Whether the sign of a zero may differ.
    zeros: bool,
    forms: Vec<(&'static str, Op2)>,
}

macro_rules! class { ($name:literal $arity:literal $zeros:literal { $($form:literal $f:expr;)* }) => { Class { name: $name, arity: $arity, zeros: $zeros, forms: vec![$(($form, $f as Op2)),*] } } }
macro_rules! with { ($T:ident $op:tt $asg:tt $l:ident $to:ident $mk:ident $name:literal) => { [
    (concat!("z ", stringify!($op), " ", $name), (|z, w| $to($l::<$T>(z) $op $mk::<$T>(w))) as Op2),
    (concat!("z ", stringify!($op), " &", $name), |z, w| $to($l::<$T>(z) $op &$mk::<$T>(w))),
    (concat!("z ", stringify!($op), " &mut ", $name), |z, w| $to($l::<$T>(z) $op &mut $mk::<$T>(w))),
    (concat!("z ", stringify!($asg), " ", $name), |z, w| { let mut x = $l::<$T>(z); x $asg $mk::<$T>(w); $to(x) }),
    (concat!("z ", stringify!($asg), " &", $name), |z, w| { let mut x = $l::<$T>(z); x $asg &$mk::<$T>(w); $to(x) }),
    (concat!("z ", stringify!($asg), " &mut ", $name), |z, w| { let mut x = $l::<$T>(z); x $asg &mut $mk::<$T>(w); $to(x) }),
] } }

trait Cp: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi + MixedAbs {}
impl<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi + MixedAbs> Cp for T {}

/// Complex arithmetic of any signed type.
fn arithmetic<T: Cp>() -> Vec<Class> {
    let mut add = class!("sum" 4 false { "complex::add(z, w)" |z, w| b(complex::add(c::<T>(z), c::<T>(w))); "w + z" |z, w| b(c::<T>(w) + c::<T>(z)); });
    add.forms.extend(with!(T + += c b c "w"));
    add.forms.extend(with!(T + += c b n "num w"));
    let mut sub = class!("difference" 4 false { "complex::sub(z, w)" |z, w| b(complex::sub(c::<T>(z), c::<T>(w))); });
    sub.forms.extend(with!(T - -= c b c "w"));
    sub.forms.extend(with!(T - -= c b n "num w"));
    let mut div = class!("quotient" 4 false { "complex::div_cartesian(z, w)" |z, w| b(complex::div_cartesian(c::<T>(z), c::<T>(w))); });
    div.forms.extend(with!(T / /= c b c "w"));
    div.forms.extend(with!(T / /= c b n "num w"));
    vec![
        add,
        sub,
        div,
        class!("product" 4 false {
            "complex::mul_cartesian(z, w)" |z, w| b(complex::mul_cartesian(c::<T>(z), c::<T>(w)));
            "z * w" |z, w| b(c::<T>(z) * c::<T>(w));
            "z * &w" |z, w| b(c::<T>(z) * &c::<T>(w));
            "z * &mut w" |z, w| b(c::<T>(z) * &mut c::<T>(w));
            "w * z" |z, w| b(c::<T>(w) * c::<T>(z));
        }),
        class!("sum with scalar" 3 true {
            "z + complex s" |z, w| b(c::<T>(z) + C::new(T::mixed_from_num(sc::<T>(w)), T::mixed_zero()));
            "z + s" |z, w| b(c::<T>(z) + sc::<T>(w));
            "z += s" |z, w| { let mut x = c::<T>(z); x += sc::<T>(w); b(x) };
        }),
        class!("difference with scalar" 3 true {
            "z - complex s" |z, w| b(c::<T>(z) - C::new(T::mixed_from_num(sc::<T>(w)), T::mixed_zero()));
            "z - s" |z, w| b(c::<T>(z) - sc::<T>(w));
            "z -= s" |z, w| { let mut x = c::<T>(z); x -= sc::<T>(w); b(x) };
        }),
        class!("product with scalar" 3 false {
            "each component" |z, w| { let (x, s) = (c::<T>(z), T::mixed_from_num(sc::<T>(w))); b(C::new(x.re * s, x.im * s)) };
            "z * s" |z, w| b(c::<T>(z) * sc::<T>(w));
        }),
        class!("quotient by scalar" 3 false {
            "complex::div_scalar_cartesian(z, s)" |z, w| b(complex::div_scalar_cartesian(c::<T>(z), T::mixed_from_num(sc::<T>(w))));
            "z / s" |z, w| b(c::<T>(z) / sc::<T>(w));
            "z /= s" |z, w| { let mut x = c::<T>(z); x /= sc::<T>(w); b(x) };
        }),
        class!("polar product" 4 false {
            "complex::mul_polar(z, w)" |z, w| q(complex::mul_polar(p::<T>(z), p::<T>(w)));
            "z * w" |z, w| q(p::<T>(z) * p::<T>(w));
            "w * z" |z, w| q(p::<T>(w) * p::<T>(z));
        }),
        class!("number" 2 false {
            "new" |z, _| b(c::<T>(z));
            "new_from_cartesian" |z, _| b(<C<T> as NewFromCartesian<T>>::new_from_cartesian(T::of_bits(z.0), T::of_bits(z.1)));
            "to_cartesian" |z, _| b(c::<T>(z).to_cartesian());
            "fields" |z, _| { let x = Cartesian { re: T::of_bits(z.0), im: T::of_bits(z.1) }; b(x) };
        }),
        class!("conjugate" 2 false {
            "negated imaginary part" |z, _| b(c::<T>((z.0, (-T::of_bits(z.1)).bits())));
            "conj" |z, _| { let x: C<T> = c::<T>(z).conj(); b(x) };
        }),
        class!("polar number" 2 false {
            "new" |z, _| q(p::<T>(z));
            "to_polar" |z, _| q(p::<T>(z).to_polar());
            "accessors" |z, _| { let x = p::<T>(z); (x.mag().bits(), x.arg().bits()) };
            "other accessors" |z, _| { let x = p::<T>(z); (Mag::abs(&x).bits(), x.ang().bits()) };
        }),
        class!("real number as complex" 1 false {
            "new" |z, _| b(C::new(T::of_bits(z.0), T::mixed_zero()));
            "mixed_to_complex" |z, _| b(<C<T> as MixedComplexConversion<T>>::mixed_to_complex(T::of_bits(z.0)));
            "mixed_to_complex, polar" |z, _| q(<Polar<T> as MixedComplexConversion<T>>::mixed_to_complex(T::of_bits(z.0)));
        }),
        class!("sign" 1 false {
            "mixed_sign" |z, _| (T::of_bits(z.0).mixed_sign().bits(), 0);
            "trigonometry::sign" |z, _| (trigonometry::sign(T::of_bits(z.0)).bits(), 0);
        }),
    ]
}

trait Tp: Cp + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedPi + MixedOne + core::ops::MulAssign {}
impl<T: Cp + MixedSqrt + MixedTrigonometry + MixedExp + MixedWrapPhase + MixedPi + MixedOne + core::ops::MulAssign> Tp for T {}

/// Conversions of integers and floats to themselves.
fn same<T: Cp + MixedNumConversion<T>>() -> Vec<Class> {
    vec![
        class!("number of the same type" 2 false {
            "new" |z, _| b(c::<T>(z));
            "mixed_from_num" |z, _| b(<C<T> as MixedNumConversion<C<T>>>::mixed_from_num(c::<T>(z)));
            "mixed_to_num" |z, _| { let x: C<T> = c::<T>(z).mixed_to_num(); b(x) };
            "mixed_from_num of components" |z, _| (T::mixed_from_num(T::of_bits(z.0)).bits(), MixedNumConversion::<T>::mixed_to_num(&T::of_bits(z.1)).bits());
        }),
        class!("real number as complex of the same type" 1 false {
            "new" |z, _| b(C::new(T::of_bits(z.0), T::mixed_zero()));
            "polar mixed_from_num" |z, _| q(<Polar<T> as MixedNumConversion<T>>::mixed_from_num(T::of_bits(z.0)));
        }),
    ]
}

/// What floats and signed fixed point have besides.
fn functions<T: Tp>() -> Vec<Class> {
    let mut rot = class!("product with polar" 4 false { "z * w.to_cartesian()" |z, w| b(c::<T>(z) * p::<T>(w).to_cartesian()); "mul_cartesian(z, to_cartesian(w))" |z, w| b(complex::mul_cartesian(c::<T>(z), complex::to_cartesian(p::<T>(w)))); });
    rot.forms.extend(with!(T * *= c b p "polar w"));
    vec![
        rot,
        class!("polar product with cartesian" 4 false {
            "z * w.to_polar()" |z, w| q(p::<T>(z) * c::<T>(w).to_polar());
            "z * w" |z, w| q(p::<T>(z) * c::<T>(w));
            "mul_polar(z, to_polar(w))" |z, w| q(complex::mul_polar(p::<T>(z), complex::to_polar(c::<T>(w))));
        }),
        class!("polar form" 2 false {
            "to_polar" |z, _| q(c::<T>(z).to_polar());
            "complex::to_polar" |z, _| q(complex::to_polar(c::<T>(z)));
            "Polar::new_from_cartesian" |z, _| q(<Polar<T> as NewFromCartesian<T>>::new_from_cartesian(T::of_bits(z.0), T::of_bits(z.1)));
            "(mag, arg)" |z, _| { let x = c::<T>(z); (x.mag().bits(), x.arg().bits()) };
            "(abs, ang)" |z, _| { let x = c::<T>(z); (Mag::abs(&x).bits(), x.ang().bits()) };
            "(complex::abs, atan2)" |z, _| { let x = c::<T>(z); (complex::abs(x).bits(), x.im.mixed_atan2(x.re).bits()) };
            "(mixed_abs, arg)" |z, _| { let x = c::<T>(z); (x.mixed_abs().re.bits(), x.arg().bits()) };
            "conjugate of the conjugate" |z, _| { let x: C<T> = c::<T>(z).conj(); let x: C<T> = x.conj(); q(x.to_polar()) };
        }),
        class!("polar conjugate" 2 false {
            "polar form of the conjugate" |z, _| { let x: C<T> = c::<T>(z).conj(); q(x.to_polar()) };
            "conj into polar" |z, _| { let x: Polar<T> = c::<T>(z).conj(); q(x) };
        }),
        class!("cartesian conjugate" 2 false {
            "cartesian form of the conjugate" |z, _| { let x: Polar<T> = p::<T>(z).conj(); b(x.to_cartesian()) };
            "conj into cartesian" |z, _| { let x: C<T> = p::<T>(z).conj(); b(x) };
        }),
        class!("cartesian form" 2 false {
            "to_cartesian" |z, _| b(p::<T>(z).to_cartesian());
            "complex::to_cartesian" |z, _| b(complex::to_cartesian(p::<T>(z)));
            "Cartesian::new_from_polar" |z, _| b(<C<T> as NewFromPolar<T>>::new_from_polar(T::of_bits(z.0), T::of_bits(z.1)));
            "wrapped angle" |z, _| { let a = T::of_bits(z.1).mixed_wrap_phase(); b(Polar::new(T::of_bits(z.0), a).to_cartesian()) };
        }),
        class!("sine and cosine" 1 false {
            "mixed_sincos" |z, _| { let (s, k) = T::of_bits(z.0).mixed_sincos(); (s.bits(), k.bits()) };
            "mixed_sin and mixed_cos" |z, _| { let x = T::of_bits(z.0); (x.mixed_sin().bits(), x.mixed_cos().bits()) };
        }),
        class!("wrapped phase" 1 false {
            "mixed_wrap_phase" |z, _| (T::of_bits(z.0).mixed_wrap_phase().bits(), 0);
            "trigonometry::wrap_phase" |z, _| (trigonometry::wrap_phase(T::of_bits(z.0)).bits(), 0);
            "wrapped twice" |z, _| (T::of_bits(z.0).mixed_wrap_phase().mixed_wrap_phase().bits(), 0);
        }),
        class!("polynomial arctangent" 2 false {
            "mixed_atan2_poly" |z, _| (T::of_bits(z.0).mixed_atan2_poly(T::of_bits(z.1)).bits(), 0);
            "trigonometry::atan::atan2" |z, _| (trigonometry::atan::atan2(T::of_bits(z.0), T::of_bits(z.1)).bits(), 0);
        }),
    ]
}
/// Types with square roots.
fn roots<T: Val + MixedReal + MixedOps + MixedSqrt + MixedPowi + MixedAbs + MixedZero>() -> Vec<Class> {
    vec![
        class!("iterative square root" 1 false {
            "mixed_niirf" |z, _| (T::of_bits(z.0).mixed_niirf().bits(), 0);
            "niirf of two iterations" |z, _| (trigonometry::sqrt::niirf(T::of_bits(z.0), 2).bits(), 0);
        }),
    ]
}
/// Powers.
fn powers<T: Val + MixedReal + MixedOps + MixedPowi + MixedOne>() -> Vec<Class> {
    macro_rules! p { ($($n:literal $s:literal;)*) => { vec![$( class!($s 1 false {
        "mixed_powi" |z, _| (T::of_bits(z.0).mixed_powi($n).bits(), 0);
        "trigonometry::powi" |z, _| (trigonometry::powi(T::of_bits(z.0), $n).bits(), 0);
    }) ),*] } }
    p!(0 "power 0"; 1 "power 1"; 2 "power 2"; 3 "power 3"; 5 "power 5"; 8 "power 8"; 13 "power 13"; 32 "power 32"; 100 "power 100";)
}

fn machine(ck: &mut Check, t: &'static Ty, classes: Vec<Class>) {
    let mut all: Vec<u128> = t.parts(45).to_vec();
    if t.kind == Kind::Float {
        all.extend([f64::INFINITY, f64::NEG_INFINITY, f64::NAN, t.max(), t.tiny(), -t.tiny() / 4.0, std::f64::consts::PI, -std::f64::consts::PI, 100.0].map(|x| t.near(x).unwrap()));
    }
    // Alphabets by the number of components.
    let few: &'static [u128] = {
        let mut v = t.parts(if thorough() { 24 } else { 11 }).to_vec();
        if t.kind == Kind::Float {
            v.extend([f64::INFINITY, f64::NAN, t.max(), -t.tiny() / 4.0, -0.0].map(|x| t.near(x).unwrap()));
        }
        mc::prim::leak(v)
    };
    let some: &'static [u128] = mc::prim::leak(all.clone());
    let many: &'static [u128] = {
        if t.kind == Kind::Float {
            for x in lattice::f64_vals(5, -60, 60).into_iter().chain(lattice::f64_vals(2, -1000, 1000)) {
                all.push(t.near(x).unwrap());
            }
            for k in -4000..4000 {
                all.push(t.near(k as f64 * 0.01).unwrap());
            }
            mc::prim::leak(all)
        } else if t.signed || t.w < 128 {
            all.extend(lattice::raws(t.w, t.signed, if t.w <= 16 { 8 } else { 5 }).into_iter().map(|x| x as u128));
            mc::prim::leak(all)
        } else {
            some
        }
    };
    for class in classes {
        let v = match class.arity { 1 => many, 2 => if t.w == 8 { many } else { some }, 3 => if t.w == 8 { some } else { some }, _ => few };
        let count = (v.len() as u64).pow(class.arity);
        ck.unit(format!("{} {}", class.name, t.name), count, move |i, r| {
            let (mut z, mut w) = quad(i, v);
            if class.arity < 4 { w.1 = 0 }
            if class.arity < 3 { w.0 = 0 }
            if class.arity < 2 { z.1 = 0 }
            let Some(want) = guarded(|| (class.forms[0].1)(z, w)) else { return r.skip() };
            for (name, f) in &class.forms[1..] {
                let got = guarded(|| f(z, w));
                r.calls(1);
                let ok = got.is_some_and(|g| g == want || class.zeros && t.eq(g.0, want.0) && t.eq(g.1, want.1));
                r.check(ok, got.map(dig).unwrap_or(1), want != (0, 0), || format!("{}, {}: with z = {}, w = {}, {name} is {}, but {} is {}", t.name, class.name, t.show2(z), t.show2(w), got.map(|g| t.show2(g)).unwrap_or("a panic".into()), class.forms[0].0, t.show2(want)));
            }
            r.sample(|| format!("{} of {} and {}: {}", class.name, t.show2(z), t.show2(w), t.show2(want)));
        });
    }
}

fn ints<T: Cp + MixedOne + MixedNumConversion<T>>(ck: &mut Check) {
    machine(ck, ty::<T>(), arithmetic::<T>().into_iter().chain(same::<T>()).into_iter().chain(powers::<T>()).collect())
}
fn unsigned_ints<T: Val + MixedReal + MixedOps + MixedPowi + MixedOne>(ck: &mut Check) {
    machine(ck, ty::<T>(), powers::<T>())
}
fn floats<T: Tp + MixedNumConversion<T>>(ck: &mut Check) {
    machine(ck, ty::<T>(), arithmetic::<T>().into_iter().chain(same::<T>()).into_iter().chain(functions::<T>()).chain(roots::<T>()).collect())
}
fn signed<T: Tp + Fx>(ck: &mut Check) {
    machine(ck, ty::<T>(), arithmetic::<T>().into_iter().chain(functions::<T>()).chain(roots::<T>()).chain(powers::<T>()).collect())
}
fn unsigned<T: Fx + Val + MixedReal + MixedOps + MixedSqrt + MixedAbs + MixedPowi + MixedOne + MixedZero>(ck: &mut Check) {
    machine(ck, ty::<T>(), roots::<T>().into_iter().chain(powers::<T>()).collect())
}
macro_rules! int_types { ($c:ident; $($t:ident)*) => { $( ints::<$t>(&mut $c); )* } }

fn main() {
    let mut c = Check::new("C27", "state: the operands of one operation (8-bit types: all for one or two components; others: all combinations over an alphabet with extremes, for floats also infinities and NaN), transition: every way to write that operation (operators by value and by reference, in place, with the num crate's complex type, traits, free functions, operands exchanged where the operation commutes); oracle: the first way, equal to the last bit");
    c.assume("operands for which the first way panics, as the type cannot hold a result, are outside the domain");
    signed_int!(int_types!(c));
    macro_rules! un { ($($t:ident)*) => { $( unsigned_ints::<$t>(&mut c); )* } }
    un!(u8 u16 u32 u64 u128 usize);
    floats::<f32>(&mut c);
    floats::<f64>(&mut c);
    each_signed!(signed(&mut c));
    each_unsigned!(unsigned(&mut c));
    c.run()
}
