//! Complex addition and subtraction.
use mc::cplx::*;
use mc::fx::Fx;
use mc::val::Val;
use mc::*;
use mixed_num::*;
use num::Complex;

type C<T> = Cartesian<T>;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn n<T: Val>(z: Bits2) -> Complex<T> {
    Complex { re: T::of_bits(z.0), im: T::of_bits(z.1) }
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}

trait Cp: Val + MixedNum + MixedNumSigned + MixedOps + MixedZero {}
impl<T: Val + MixedNum + MixedNumSigned + MixedOps + MixedZero> Cp for T {}

macro_rules! ops { ($T:ident, $mk:ident, $op:tt, $asg:tt) => { [
    |z, w| b(c::<$T>(z) $op $mk::<$T>(w)),
    |z, w| { let y = $mk::<$T>(w); let r = b(c::<$T>(z) $op &y); assert!(y == $mk::<$T>(w) || y != y, "operand changed"); r },
    |z, w| { let mut y = $mk::<$T>(w); let r = b(c::<$T>(z) $op &mut y); assert!(y == $mk::<$T>(w) || y != y, "operand changed"); r },
    |z, w| { let mut x = c::<$T>(z); x $asg $mk::<$T>(w); b(x) },
    |z, w| { let (mut x, y) = (c::<$T>(z), $mk::<$T>(w)); x $asg &y; assert!(y == $mk::<$T>(w) || y != y, "operand changed"); b(x) },
    |z, w| { let (mut x, mut y) = (c::<$T>(z), $mk::<$T>(w)); x $asg &mut y; assert!(y == $mk::<$T>(w) || y != y, "operand changed"); b(x) },
] } }

static FORMS: [&str; 13] = ["z op w", "z op &w", "z op &mut w", "z op= w", "z op= &w", "z op= &mut w", "z op num w", "z op &num w", "z op &mut num w", "z op= num w", "z op= &num w", "z op= &mut num w", "function"];

fn table<T: Cp>() -> [Vec<Op2>; 2] {
    let p: [Op2; 6] = ops!(T, c, +, +=);
    let q: [Op2; 6] = ops!(T, n, +, +=);
    let s: [Op2; 6] = ops!(T, c, -, -=);
    let t: [Op2; 6] = ops!(T, n, -, -=);
    let add: Op2 = |z, w| b(complex::add(c::<T>(z), c::<T>(w)));
    let sub: Op2 = |z, w| b(complex::sub(c::<T>(z), c::<T>(w)));
    [p.into_iter().chain(q).chain([add]).collect(), s.into_iter().chain(t).chain([sub]).collect()]
}

fn two<T: Cp>(ck: &mut Check) {
    machine(ck, ty::<T>(), table::<T>())
}
fn machine(ck: &mut Check, t: &'static Ty, ops: [Vec<Op2>; 2]) {
    let v = t.parts_and_extremes(if thorough() { 45 } else { 30 });
    ck.unit(format!("complex {}", t.name), quads(v), move |i, r| {
        let (z, w) = quad(i, v);
        let mut any = false;
        for minus in [false, true] {
            let (Some(re), Some(im)) = (t.sum(z.0, w.0, minus), t.sum(z.1, w.1, minus)) else { continue };
            any = true;
            for (k, f) in ops[minus as usize].iter().enumerate() {
                let got = f(z, w);
                r.calls(1);
                r.sample(|| format!("{} {} {} = {}", t.show2(z), if minus { "-" } else { "+" }, t.show2(w), t.show2(got)));
                r.check(t.eq(got.0, re) && t.eq(got.1, im), (got.0 ^ got.1.rotate_left(13)) as u64, re != im, || {
                    format!("{}: {} with z = {}, w = {}, op = {}: {}, expected {}", t.name, FORMS[k], t.show2(z), t.show2(w), if minus { "-" } else { "+" }, t.show2(got), t.show2((re, im)))
                });
            }
        }
        if !any {
            r.skip();
        }

    });
}

static SCALAR: [&str; 4] = ["z + s", "z += s", "z - s", "z -= s"];

fn scalar<A: Val + MixedNum + MixedOps + MixedZero, T: Val + MixedNum + MixedOps + MixedNumConversion<A>>(ck: &mut Check) {
    let f: [Op2; 4] = [
        |z, s| b(c::<T>(z) + A::of_bits(s.0)),
        |z, s| { let mut x = c::<T>(z); x += A::of_bits(s.0); b(x) },
        |z, s| b(c::<T>(z) - A::of_bits(s.0)),
        |z, s| { let mut x = c::<T>(z); x -= A::of_bits(s.0); b(x) },
    ];
    scalar_machine(ck, ty::<T>(), scalars::<A, T>(40), f)
}
fn scalar_machine(ck: &mut Check, t: &'static Ty, s: Scalars, f: [Op2; 4]) {
    let v = t.parts_and_extremes(if thorough() { 45 } else { 30 });
    let n = v.len() as u64;
    ck.unit(format!("complex {} and scalar {}", t.name, s.from), n * n * s.bits.len() as u64, move |i, r| {
        let (z, k) = ((v[(i % n) as usize], v[(i / n % n) as usize]), (i / n / n) as usize);
        let Some(w) = s.conv[k] else { return r.skip() };
        let mut any = false;
        for minus in [false, true] {
            let Some(re) = t.sum(z.0, w, minus) else { continue };
            any = true;
            for j in 0..2 {
                let j = j + 2 * minus as usize;
                let got = f[j](z, (s.bits[k], 0));
                r.calls(1);
                r.sample(|| format!("{} {} {} = {}", t.show2(z), if minus { "-" } else { "+" }, (s.show)(s.bits[k]), t.show2(got)));
                r.check(t.eq(got.0, re) && t.eq(got.1, z.1), (got.0 ^ got.1.rotate_left(13)) as u64, re != z.0, || {
                    format!("{}: {} with z = {}, s = {} ({}): {}, expected {}", t.name, SCALAR[j], t.show2(z), (s.show)(s.bits[k]), s.from, t.show2(got), t.show2((re, z.1)))
                });
            }
        }
        if !any {
            r.skip();
        }

    });
}

macro_rules! twos { ($c:ident; $($t:ident)*) => { $( two::<$t>(&mut $c); )* } }
macro_rules! from_all { ($c:ident; $($t:ident)*) => { $( from_one!($c, $t; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64); )* } }
macro_rules! from_one { ($c:ident, $t:ident; $($a:ident)*) => { $( scalar::<$a, $t>(&mut $c); )* } }
trait FromPrims: Val + Fx + MixedNum + MixedOps + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u32> + MixedNumConversion<u64> + MixedNumConversion<u128> + MixedNumConversion<usize> + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize> + MixedNumConversion<f32> + MixedNumConversion<f64> {}
impl<T: Val + Fx + MixedNum + MixedOps + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u32> + MixedNumConversion<u64> + MixedNumConversion<u128> + MixedNumConversion<usize> + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize> + MixedNumConversion<f32> + MixedNumConversion<f64>> FromPrims for T {}
fn fx_scalars<T: FromPrims>(c: &mut Check) {
    scalar::<u8, T>(c);
    scalar::<u16, T>(c);
    scalar::<u32, T>(c);
    scalar::<u64, T>(c);
    scalar::<u128, T>(c);
    scalar::<usize, T>(c);
    scalar::<i8, T>(c);
    scalar::<i16, T>(c);
    scalar::<i32, T>(c);
    scalar::<i64, T>(c);
    scalar::<i128, T>(c);
    scalar::<isize, T>(c);
    scalar::<f32, T>(c);
    scalar::<f64, T>(c);
}

fn main() {
    let mut c = Check::new("C15", "state: the four components of two complex operands, or a complex operand and a scalar of another type (all combinations over an alphabet per type with its extremes, units in the last place, roots of the maximum, small numbers), transition: one of the 26 ways to add or subtract; oracle: exact component-wise sum and difference");
    c.assume("sums the component type cannot hold are outside the domain");
    signed_prim!(twos!(c));
    each_signed!(two(&mut c));
    every_prim!(from_all!(c));
    each_signed!(fx_scalars(&mut c));
    each_unsigned!(fx_scalars(&mut c));
    c.run()
}
