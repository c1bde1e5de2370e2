//! Histories: an accumulator that a sequence of operations is applied to, and sequences of unrelated calls.
use mc::cplx::*;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;
use num::Complex;
use std::collections::HashMap;
use std::hint::black_box as bb;

type C<T> = Cartesian<T>;

fn c<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}
fn n<T: Val>(z: Bits2) -> Complex<T> {
    Complex { re: T::of_bits(z.0), im: T::of_bits(z.1) }
}
fn b<T: Val>(z: C<T>) -> Bits2 {
    (z.re.bits(), z.im.bits())
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    AddS,
    SubS,
    MulS,
    DivS,
    Conj,
    Square,
}

trait Cp: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi + MixedNumConversion<f64> {}
impl<T: Val + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedPowi + MixedNumConversion<f64>> Cp for T {}

macro_rules! step { ($T:ident, $a:ident $b:ident, $e:expr) => { |z, w| { #[allow(unused_mut)] let (mut $a, mut $b) = (c::<$T>(z), c::<$T>(w)); let _ = &mut $b; $e; b($a) } } }
macro_rules! nstep { ($T:ident, $a:ident $b:ident, $e:expr) => { |z, w| { #[allow(unused_mut)] let (mut $a, mut $b) = (c::<$T>(z), n::<$T>(w)); let _ = &mut $b; $e; b($a) } } }
macro_rules! sstep { ($T:ident, $a:ident $s:ident, $e:expr) => { |z, w| { let (mut $a, $s) = (c::<$T>(z), $T::of_bits(w.0).real()); $e; b($a) } } }

fn steps<T: Cp>() -> Vec<(Op, &'static str, Op2)> {
    use Op::*;
    vec![
        (Add, "z += w", step!(T, z w, z += w)),
        (Add, "z += &w", step!(T, z w, z += &w)),
        (Add, "z += &mut w", step!(T, z w, z += &mut w)),
        (Add, "z += num w", nstep!(T, z w, z += w)),
        (Add, "z = z + w", step!(T, z w, z = z + w)),
        (Sub, "z -= w", step!(T, z w, z -= w)),
        (Sub, "z -= &w", step!(T, z w, z -= &w)),
        (Sub, "z -= &mut num w", nstep!(T, z w, z -= &mut w)),
        (Sub, "z = z - &w", step!(T, z w, z = z - &w)),
        (Mul, "z = z * w", step!(T, z w, z = z * w)),
        (Mul, "z = z * &w", step!(T, z w, z = z * &w)),
        (Mul, "z = w * z", step!(T, z w, z = w * z)),
        (Div, "z /= w", step!(T, z w, z /= w)),
        (Div, "z /= &w", step!(T, z w, z /= &w)),
        (Div, "z /= &mut num w", nstep!(T, z w, z /= &mut w)),
        (Div, "z = z / w", step!(T, z w, z = z / w)),
        (AddS, "z += s", sstep!(T, z s, z += s)),
        (SubS, "z -= s", sstep!(T, z s, z -= s)),
        (MulS, "z = z * s", sstep!(T, z s, z = z * s)),
        (DivS, "z /= s", sstep!(T, z s, z /= s)),
        (DivS, "z = z / s", sstep!(T, z s, z = z / s)),
        (Conj, "z = conj(z)", step!(T, z w, z = z.conj())),
        (Square, "z = z * z", step!(T, z w, z = z * z)),
    ]
}

/// What the model holds: a Gaussian number in units of 2^-frac.
type Z = (i64, i64);

struct Model {
    frac: u32,
    most: i128,
}
impl Model {
    fn fits(&self, x: i128) -> Option<i64> {
        (x.abs() <= self.most).then_some(x as i64)
    }
    /// A product that needs no rounding.
    fn mul(&self, a: i64, b: i64) -> Option<i128> {
        let p = a as i128 * b as i128;
        let q = p >> self.frac;
        (q << self.frac == p && q.abs() <= self.most).then_some(q)
    }
    fn div(&self, a: i128, b: i128) -> Option<i64> {
        if b == 0 || (a << self.frac) % b != 0 {
            return None;
        }
        self.fits((a << self.frac) / b)
    }
    /// `None`: the step would round or leave the range.
    fn step(&self, op: Op, z: Z, w: Z) -> Option<Z> {
        let pair = |x: i128, y: i128| Some((self.fits(x)?, self.fits(y)?));
        let (a, b, c, d) = (z.0 as i128, z.1 as i128, w.0 as i128, w.1 as i128);
        match op {
            Op::Add => pair(a + c, b + d),
            Op::Sub => pair(a - c, b - d),
            Op::AddS => pair(a + c, b),
            Op::SubS => pair(a - c, b),
            Op::Mul => pair(self.mul(z.0, w.0)? - self.mul(z.1, w.1)?, self.mul(z.0, w.1)? + self.mul(z.1, w.0)?),
            Op::Square => self.step(Op::Mul, z, z),
            Op::MulS => pair(self.mul(z.0, w.0)?, self.mul(z.1, w.0)?),
            Op::DivS => Some((self.div(a, c)?, self.div(b, c)?)),
            Op::Conj => Some((z.0, -z.1)),
            Op::Div => {
                let den = self.fits(self.mul(w.0, w.0)? + self.mul(w.1, w.1)?)? as i128;
                let re = self.fits(self.mul(z.0, w.0)? + self.mul(z.1, w.1)?)? as i128;
                let im = self.fits(self.mul(z.1, w.0)? - self.mul(z.0, w.1)?)? as i128;
                Some((self.div(re, den)?, self.div(im, den)?))
            }
        }
    }
}

fn accumulator<T: Cp>(ck: &mut Check) {
    machine(ck, ty::<T>(), steps::<T>())
}
fn machine(ck: &mut Check, t: &'static Ty, ops: Vec<(Op, &'static str, Op2)>) {
    let m = Model { frac: if t.kind == Kind::Float { 8 } else { t.frac }, most: if t.kind == Kind::Float { 1 << 22 } else { t.hi().min(1 << 62) } };
    let depth = if thorough() { 5 } else { 4 };
    let one = 1i64 << m.frac;
    let q = |re: f64, im: f64| -> Option<Z> {
        let (x, y) = (re * one as f64, im * one as f64);
        (x.fract() == 0.0 && y.fract() == 0.0 && x.abs() <= m.most as f64 && y.abs() <= m.most as f64).then_some((x as i64, y as i64))
    };
    let starts: Vec<Z> = [(0.0, 0.0), (1.0, -1.0), (2.0, 3.0), (-0.5, 1.5), (12.0, -5.0), (100.0, 50.0)].iter().filter_map(|p| q(p.0, p.1)).collect();
    let operands: Vec<Z> = [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (-2.0, 1.0), (0.5, -0.25), (3.0, -4.0), (-1.0, -2.0), (10.0, 20.0)].iter().filter_map(|p| q(p.0, p.1)).collect();
    let bits = move |z: Z| -> Bits2 {
        if t.kind == Kind::Float {
            (t.near(z.0 as f64 / 256.0).unwrap(), t.near(z.1 as f64 / 256.0).unwrap())
        } else {
            (z.0 as i128 as u128, z.1 as i128 as u128)
        }
    };
    ck.unit(format!("accumulator {}", t.name), starts.len() as u64, move |i, r| {
        // Breadth first; the state of the implementation is that of the model, checked on every edge.
        let start = starts[i as usize];
        let mut from: HashMap<Z, (Z, u16, u16)> = HashMap::new();
        from.insert(start, (start, u16::MAX, 0));
        let mut layer = vec![start];
        for d in 0..depth {
            let mut next = vec![];
            for z in &layer {
                r.reached(1);
                for (k, (op, what, f)) in ops.iter().enumerate() {
                    for (j, w) in operands.iter().enumerate() {
                        if j > 0 && (*op == Op::Conj || *op == Op::Square) {
                            break;
                        }
                        let Some(y) = m.step(*op, *z, *w) else { continue };
                        let got = f(bits(*z), bits(*w));
                        r.calls(1);
                        let want = bits(y);
                        let ok = t.eq(got.0, want.0) && t.eq(got.1, want.1);
                        if !ok {
                            let mut path = vec![];
                            let mut x = *z;
                            while let Some((p, k, j)) = from.get(&x).copied() {
                                if k == u16::MAX {
                                    break;
                                }
                                path.push(format!("{} with w = {}", ops[k as usize].1, t.show2(bits(operands[j as usize]))));
                                x = p;
                            }
                            path.reverse();
                            return r.fail(format!("{}: from {}{}, {what} with w = {} gives {}, expected {}", t.name, t.show2(bits(start)), path.iter().map(|s| format!(", {s}")).collect::<String>(), t.show2(bits(*w)), t.show2(got), t.show2(want)));
                        }
                        r.seen(dig(got), d > 0 && y.0 != y.1);
                        if d + 1 < depth && !from.contains_key(&y) {
                            from.insert(y, (*z, k as u16, j as u16));
                            next.push(y);
                        }
                    }
                }
            }
            layer = next;
        }
        r.sample(|| format!("from {} {} states within {} steps", t.show2(bits(start)), from.len(), depth - 1));
    });
}

/// Calls whose results must not depend on what was called before.
fn calls() -> Vec<(&'static str, fn() -> (u128, u128))> {
    let mut v: Vec<(&'static str, fn() -> (u128, u128))> = vec![];
    macro_rules! un { ($($T:ty: $($f:ident)*, $($x:expr)*;)*) => { $( { un!(@ $T; [$($f)*] [$($x)*]); } )* };
        (@ $T:ty; [$($f:ident)*] $xs:tt) => { $( un!(# $T; $f $xs); )* };
        (# $T:ty; $f:ident [$($x:expr)*]) => { $( v.push((concat!(stringify!($T), " ", stringify!($f), " ", stringify!($x)), || (bb(<$T>::mixed_from_num($x)).$f().bits(), 0))); )* } }
    type F = fixed::types::I16F16;
    type G = fixed::types::I4F12;
    un! {
        f32: mixed_sin mixed_cos mixed_atan mixed_exp mixed_sqrt mixed_niirf mixed_wrap_phase mixed_log mixed_mag2db mixed_abs mixed_sign mixed_ceil, 0.7f32 4f32;
        f64: mixed_sin mixed_cos mixed_tan mixed_exp mixed_sqrt mixed_wrap_phase mixed_tanh mixed_db2mag mixed_floor, 0.7f64 4f64;
        F: mixed_sin mixed_cos mixed_atan mixed_exp mixed_sqrt mixed_niirf mixed_wrap_phase mixed_abs mixed_sign, 0.7f64 4f64 {-2i8};
        G: mixed_sin mixed_cos mixed_atan mixed_sqrt mixed_wrap_phase mixed_sign, 0.7f64 {-2i8};
        i32: mixed_abs mixed_sign, 5i32 9i32;
        u8: mixed_sign, 5i32 0i32;
    }
    macro_rules! two { ($($name:literal $e:expr;)*) => { $( v.push(($name, || { let z = $e; (z.re.bits(), z.im.bits()) })); )* } }
    fn z<T: Val>(a: f64, b: f64) -> C<T> {
        bb(C::new(T::exact_of(a).unwrap(), T::exact_of(b).unwrap()))
    }
    two! {
        "f32 mul" z::<f32>(1.0, 2.0) * z::<f32>(3.0, -1.0);
        "f32 div" z::<f32>(1.0, 2.0) / z::<f32>(3.0, -1.0);
        "f32 mul i" z::<f32>(1.0, 2.0) * z::<f32>(0.0, 1.0);
        "f32 exp" z::<f32>(0.5, 2.0).mixed_exp();
        "f64 exp" z::<f64>(0.5, 2.0).mixed_exp();
        "fixed mul" z::<F>(1.5, 2.0) * z::<F>(3.0, -1.0);
        "fixed div" z::<F>(1.5, 2.0) / z::<F>(3.0, -1.0);
        "fixed exp" z::<F>(0.5, 2.0).mixed_exp();
        "fixed powi 2" complex::powi(z::<F>(1.5, 2.0), 2);
        "fixed powi 3" complex::powi(z::<F>(1.5, 2.0), 3);
        "i32 mul" z::<i32>(5.0, 2.0) * z::<i32>(3.0, -1.0);
        "i32 div" z::<i32>(25.0, 2.0) / z::<i32>(3.0, -1.0);
        "f32 polar" z::<f32>(3.0, 4.0).to_polar().to_cartesian();
        "fixed polar" z::<F>(3.0, 4.0).to_polar().to_cartesian();
        "fixed polar, below the axis" z::<F>(-3.0, -4.0).to_polar().to_cartesian();
    }
    v.push(("f32 atan2", || (bb(0.5f32).mixed_atan2(bb(-0.25)).bits(), 0)));
    v.push(("fixed atan2", || (bb(F::from_num(0.5)).mixed_atan2(bb(F::from_num(-0.25))).bits(), 0)));
    v.push(("f32 polynomial atan2", || (bb(0.5f32).mixed_atan2_poly(bb(-0.25)).bits(), 0)));
    v.push(("f32 powi", || (bb(1.5f32).mixed_powi(bb(3)).bits(), bb(1.5f32).mixed_powi(bb(-2)).bits())));
    v.push(("fixed powi", || (bb(F::from_num(1.5)).mixed_powi(bb(3)).bits(), 0)));
    v
}

/// One call with one operand, or two made from it.
type Call = (String, Box<dyn Fn() -> Option<Bits2> + Send + Sync>);

/// Operands that differ in their last bits, in the low byte, the sign, the exponent or high bits: whatever part of an
/// operand something remembered were to be found by.
fn similar(t: &Ty) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    for x in [0.7, 1.0, 1.5, 2.5] {
        let Some(b) = t.near(x) else { continue };
        let mut add = |y: u128| {
            if (t.kind == Kind::Float || t.fits(y as i128)) && !v.contains(&y) {
                v.push(y);
            }
        };
        add(b);
        add(b + 1);
        add(b ^ 0x55);
        add(b + 0x1000);
        for y in [-x, 2.0 * x, x / 2.0, x / 256.0, x + 256.0, x + std::f64::consts::TAU] {
            t.near(y).map(&mut add);
        }
    }
    v
}
fn lists(v: &mut Vec<Call>, t: &'static Ty, one: Vec<ops::One>, two: Vec<ops::Two>, pairs: Vec<ops::Pair>) {
    let xs = similar(t);
    let fixed = t.kind != Kind::Float;
    let mut add = |name: &str, x: u128, f: Box<dyn Fn() -> Bits2 + Send + Sync>| {
        let f: Box<dyn Fn() -> Option<Bits2> + Send + Sync> = if fixed { Box::new(move || guarded(|| f())) } else { Box::new(move || Some(f())) };
        // A panic takes long, and says little.
        if f().is_some() {
            v.push((format!("{} {name} of {}", t.name, (t.show)(x)), f));
        }
    };
    for (k, x) in xs.iter().copied().enumerate() {
        for (name, f) in one.iter().copied() {
            add(name, x, Box::new(move || (f(bb(x)), 0)));
        }
        let y = xs[(k + 3) % xs.len()];
        for (name, f) in two.iter().copied() {
            add(name, x, Box::new(move || (f(bb(x), bb(y)), 0)));
            add(name, y, Box::new(move || (f(bb(y), bb(x)), 0)));
        }
        for (name, _, f) in pairs.iter().copied() {
            add(name, x, Box::new(move || f((bb(x), bb(y)), (bb(y), bb(x)))));
        }
    }
}
fn similar_calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    lists(&mut v, ty::<f32>(), [ops::unary::<f32>(), ops::answers::<f32>()].concat(), ops::two::<f32>(), ops::complex_ops::<f32>());
    lists(&mut v, ty::<f64>(), [ops::unary::<f64>(), ops::answers::<f64>()].concat(), ops::two::<f64>(), ops::complex_ops::<f64>());
    macro_rules! fixed { ($($T:ty)*) => { $( lists(&mut v, ty::<$T>(), [ops::fixed_all::<$T>(), ops::fixed_signed::<$T>()].concat(), vec![], vec![]); )* } }
    fixed!(fixed::types::I16F16 fixed::types::I8F24 fixed::types::I8F8 fixed::types::I32F32);
    lists(&mut v, ty::<fixed::types::I16F16>(), vec![], vec![], ops::complex_plain::<fixed::types::I16F16>());
    lists(&mut v, ty::<fixed::types::U16F16>(), ops::fixed_all::<fixed::types::U16F16>(), vec![], vec![]);
    macro_rules! ints { ($($T:ty)*) => { $( lists(&mut v, ty::<$T>(), ops::int_all::<$T>(), vec![], ops::int_complex::<$T>()); )* } }
    ints!(i32 i64);
    macro_rules! conv { ($($A:ty => $($B:ty)*;)*) => { $( lists(&mut v, ty::<$A>(), vec![$( (concat!("conversion to ", stringify!($B)), (|x: u128| { let y: $B = <$A as Val>::of_bits(x).mixed_to_num(); y.bits() }) as fn(u128) -> u128) ),*], vec![], vec![]); )* } }
    macro_rules! from { ($($A:ty => $($B:ty)*;)*) => { $( lists(&mut v, ty::<$A>(), vec![$( (concat!("conversion to ", stringify!($B)), (|x: u128| <$B>::mixed_from_num(<$A as Val>::of_bits(x)).bits()) as fn(u128) -> u128) ),*], vec![], vec![]); )* } }
    from! {
        f32 => fixed::types::I16F16;
        f64 => fixed::types::I16F16 fixed::types::I32F32;
        i32 => fixed::types::I16F16;
    }
    conv! {
        f32 => f64 i32 u8;
        f64 => f32 i32 u64;
        i64 => f32 i8 u32;
        fixed::types::I16F16 => f32 f64 i32 u8;
        fixed::types::I32F32 => f32 f64 i32;
    }
    v
}

fn main() {
    let mut c = Check::new("C23", "accumulator machine: state: a complex number, transition: one of 23 operations with one of 8 operands, explored breadth first from several start states, every edge compared with exact Gaussian arithmetic; call machine: every sequence of three of some 100 calls, each result compared with that of the first call ever made; pair machine: every ordered pair of some thousand calls of all functions of floats and some fixed point types with similar operands");
    c.assume("steps that would round or leave the range of the type are not taken; histories have up to 4 steps (thorough: 5)");
    c.assume("which results a function should give is what the other checks decide; here they must not depend on history");
    macro_rules! accs { ($c:ident; $($t:ident)*) => { $( accumulator::<$t>(&mut $c); )* } }
    macro_rules! ints { ($c:ident; $($t:ident)*) => { accs!($c; $($t)*); } }
    signed_prim!(ints!(c));
    each_signed!(accumulator(&mut c));
    let calls: &'static [_] = mc::prim::leak(calls());
    let first: &'static [(u128, u128)] = mc::prim::leak(calls.iter().map(|x| x.1()).collect());
    let k = calls.len() as u64;
    let len: u32 = if thorough() { 4 } else { 3 };
    c.note("calls_in_sequences", &format!("{k} calls, sequences of {len}"));
    c.unit("call sequences", k * k, move |i, r| {
        let n = k.pow(len - 2);
        for j in 0..n {
            let mut x = j * k * k + i;
            for _ in 0..len {
                let s = (x % k) as usize;
                x /= k;
                let got = calls[s].1();
                r.calls(1);
                r.check(got == first[s], (got.0 ^ got.1) as u64, true, || format!("{} gives {:?}, at first it gave {:?}; sequence {j} of those starting with {} and {}", calls[s].0, got, first[s], calls[(i % k) as usize].0, calls[(i / k) as usize].0));
                if r.failed() {
                    return;
                }
            }
            r.reached(1);
        }
        r.sample(|| format!("{} then {}: as alone", calls[(i % k) as usize].0, calls[(i / k) as usize].0));
    });
    std::panic::set_hook(Box::new(|_| {}));
    let calls: &'static [Call] = mc::prim::leak(similar_calls());
    let _ = std::panic::take_hook();
    let first: &'static [Option<Bits2>] = mc::prim::leak(calls.iter().map(|x| x.1()).collect());
    let k = calls.len() as u64;
    c.note("calls_in_pairs", &format!("{k} calls with similar operands, every ordered pair"));
    c.unit("call pairs", k, move |i, r| {
        let i = i as usize;
        for (j, (name, f)) in calls.iter().enumerate() {
            let before = calls[i].1();
            let got = f();
            r.calls(2);
            r.check(got == first[j], got.map(dig).unwrap_or(0), true, || format!("{name} gives {got:x?} after {}, at first it gave {:x?}", calls[i].0, first[j]));
            r.check(before == first[i], 0, false, || format!("{} gives {before:x?}, at first it gave {:x?}", calls[i].0, first[i]));
            if r.failed() {
                return;
            }
            r.reached(1);
        }
        r.sample(|| format!("{} before each of the others", calls[i].0));
    });
    c.run()
}
