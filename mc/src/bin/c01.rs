//! Conversions between real number types.
use mc::exact::{self, Num};
use mc::fx::Fx;
use mc::prim::Prim;
use mc::*;
use mixed_num::MixedNumConversion;

fn prim<A: Prim + MixedNumConversion<B>, B: Prim>(c: &mut Check) {
    let m = if thorough() { 10 } else { 8 };
    let (av, bv) = (A::values(m), B::values(m));
    c.unit(format!("{} to {}", A::NAME, B::NAME), av.len() as u64, move |i, r| {
        let x = av[i as usize];
        let want = B::cast(x.exact(), A::FLOAT);
        let got: B = x.mixed_to_num();
        r.calls(1);
        r.check(got.same(want), got.bitsum(), !B::exact(want).eq(&x.exact()), || format!("{}({:?}).mixed_to_num::<{}>() is {:?}, expected {:?}", A::NAME, x, B::NAME, got, want));
        r.sample(|| format!("{x:?} -> {got:?}"));
    });
    c.unit(format!("{} from {}", A::NAME, B::NAME), bv.len() as u64, move |i, r| {
        let x = bv[i as usize];
        let want = A::cast(x.exact(), B::FLOAT);
        let got = A::mixed_from_num(x);
        r.calls(1);
        r.check(got.same(want), got.bitsum(), !A::exact(want).eq(&x.exact()), || format!("{}::mixed_from_num({}({:?})) is {:?}, expected {:?}", A::NAME, B::NAME, x, got, want));
        r.sample(|| format!("{x:?} -> {got:?}"));
    });
}

/// What the explorer needs of a fixed point type, without its type.
#[derive(Clone, Copy)]
struct F {
    bits: u32,
    frac: u32,
    signed: bool,
}
impl F {
    fn of<A: Fx>() -> Self {
        F { bits: A::BITS, frac: A::FRAC, signed: A::SIGNED }
    }
    fn name(self) -> String {
        format!("{}{}F{}", if self.signed { "I" } else { "U" }, self.bits, self.frac)
    }
}
#[inline(never)]
fn to<A: Fx + MixedNumConversion<B>, B>(raw: i128) -> B {
    A::of(raw).mixed_to_num()
}
#[inline(never)]
fn from<A: Fx + MixedNumConversion<B>, B>(x: B) -> i128 {
    A::mixed_from_num(x).raw()
}

fn fixed_one<B: Prim>(c: &mut Check, f: F, to: fn(i128) -> B, from: fn(B) -> i128, av: &'static [i128], bv: &'static [B]) {
    c.unit(format!("{} to {}", f.name(), B::NAME), av.len() as u64, move |i, r| {
        let n = exact::of_raw(av[i as usize], f.frac);
        let want = if B::FLOAT {
            Some(B::cast(n, true))
        } else {
            // rounded down to an integer; out of range is outside the domain
            exact::floor_int(n, 128, true).and_then(|v| B::exactly(exact::of_i128(v)))
        };
        let Some(want) = want else { return r.skip() };
        let got: B = to(av[i as usize]);
        r.calls(1);
        r.check(got.same(want), got.bitsum(), B::exactly(n).is_none(), || format!("{} with bits {}: mixed_to_num::<{}>() is {:?}, expected {:?}", f.name(), av[i as usize], B::NAME, got, want));
        r.sample(|| format!("{n:?} -> {got:?}"));
    });
    c.unit(format!("{} from {}", f.name(), B::NAME), bv.len() as u64, move |i, r| {
        let x = bv[i as usize];
        let n: Num = x.exact();
        let Some(want) = exact::to_raw(n, f.frac, f.bits, f.signed) else { return r.skip() };
        let got = from(x);
        r.calls(1);
        r.check(got == want, got as u64, B::FLOAT, || format!("{}::mixed_from_num({}({:?})) has bits {}, expected {}", f.name(), B::NAME, x, got, want));
        r.sample(|| format!("{x:?} -> bits {got:?}"));
    });
}

macro_rules! both { ($c:ident; $($a:ident)*) => { $( all!($c, $a; f32 f64 u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize); )* } }
macro_rules! all { ($c:ident, $a:ident; $($b:ident)*) => { $( prim::<$a, $b>(&mut $c); )* } }

macro_rules! fxall { ($($b:ident)*) => {
    trait Conv: Fx $(+ MixedNumConversion<$b>)* {}
    impl<T: Fx $(+ MixedNumConversion<$b>)*> Conv for T {}
    struct Vals { $($b: &'static [$b]),* }
    impl Vals { fn new(m: u32) -> Self { Vals { $($b: $b::values(m)),* } } }
    fn fixed<A: Conv>(c: &mut Check, v: &Vals) {
        let av = prim::leak(mc::lattice::raws(A::BITS, A::SIGNED, 8));
        $( fixed_one::<$b>(c, F::of::<A>(), to::<A, $b>, from::<A, $b>, av, v.$b); )*
    }
} }
use mc::prim;
fxall!(f32 f64 u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

fn main() {
    let mut c = Check::new("C01", "state: a value of the source type, transition: one conversion call, in both directions for every pair of types; 8/16-bit sources complete, wider ones on a lattice of all short significands, sparse bit patterns, neighbours of powers of two and rounding ties; oracle: exact rational arithmetic");
    c.assume("a conversion whose exact result does not fit a fixed point type, or an integer type converted to from fixed point, is outside the domain (it panics by contract of the fixed crate)");
    both!(c; f32 f64 u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    let v = Vals::new(6);
    each_signed!(fixed(&mut c, &v));
    each_unsigned!(fixed(&mut c, &v));
    c.run()
}
