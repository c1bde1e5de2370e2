//! Conversions that involve complex numbers.
use mc::fx::Fx;
use mc::prim::leak;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

type C<T> = Cartesian<T>;
type Bits = (u128, u128);

/// One machine: pairs over `av`, the images `want` of its values, and a conversion of a pair.
struct M {
    name: String,
    av: &'static [u128],
    want: &'static [Option<u128>],
    f: fn(u128, u128) -> Bits,
    show_a: fn(u128) -> String,
    show_b: fn(u128) -> String,
}
impl M {
    /// The conversion must map both components; `zero`: the second component of the result must be this instead.
    fn add(self, c: &mut Check, zero: Option<u128>, one_operand: bool) {
        let n = self.av.len() as u64;
        let others = if one_operand { 1 } else { n };
        c.unit(self.name.clone(), n * others, move |i, r| {
            let (x, y) = ((i % n) as usize, (i / n) as usize);
            let (Some(re), Some(im)) = (self.want[x], zero.or(self.want[y])) else { return r.skip() };
            let got = (self.f)(self.av[x], self.av[y]);
            let (sa, sb) = (self.show_a, self.show_b);
            let show = |s: fn(u128) -> String, p: Bits| format!("({}, {})", s(p.0), s(p.1));
            r.calls(1);
            r.check(got == (re, im), (got.0 ^ got.1.rotate_left(17)) as u64, re != im, || format!("{}: {} becomes {}, expected {}", self.name, show(sa, (self.av[x], self.av[y])), show(sb, got), show(sb, (re, im))));
            r.sample(|| format!("{} -> {}", show(sa, (self.av[x], self.av[y])), show(sb, got)));
        });
    }
}
fn machine<A: Val, B: Val>(what: &str, f: fn(u128, u128) -> Bits) -> M {
    let av = A::alphabet();
    M {
        name: format!("{what} {} to {}", A::vname(), B::vname()),
        av: leak(av.iter().map(|x| x.bits()).collect()),
        want: leak(av.iter().map(|x| B::conv(x.num(), A::kind()).map(|y| y.bits())).collect()),
        f,
        show_a: A::show_bits,
        show_b: B::show_bits,
    }
}
fn pair<A: Val, B: Val>(c: &mut Check, what: &str, f: fn(u128, u128) -> Bits) {
    machine::<A, B>(what, f).add(c, None, false)
}
fn single<A: Val, B: Val>(c: &mut Check, what: &str, f: fn(u128, u128) -> Bits, one_operand: bool) {
    let zero = B::conv(mc::exact::int(false, 0), Kind::Int).unwrap().bits();
    machine::<A, B>(what, f).add(c, Some(zero), one_operand)
}

fn cc_from<A: Val + MixedNum, B: Val + MixedNum + MixedNumSigned + MixedNumConversion<A>>(re: u128, im: u128) -> Bits { let (re, im) = (A::of_bits(re), A::of_bits(im));
    let z = C::<B>::mixed_from_num(C::new(re, im));
    (z.re.bits(), z.im.bits())
}
fn cc_to<A: Val + MixedNum, B: Val + MixedNum + MixedNumSigned + MixedNumConversion<A>>(re: u128, im: u128) -> Bits { let (re, im) = (B::of_bits(re), B::of_bits(im));
    let z: C<A> = C::<B>::new(re, im).mixed_to_num();
    (z.re.bits(), z.im.bits())
}
/// Complex numbers with components `A` <-> complex numbers with (signed) components `B`.
fn cc<A: Val + MixedNum, B: Val + MixedNum + MixedNumSigned + MixedNumConversion<A>>(c: &mut Check) {
    pair::<A, B>(c, "complex from", cc_from::<A, B>);
    pair::<B, A>(c, "complex to", cc_to::<A, B>);
}

fn rc_from<R: Val + MixedNumConversion<C<A>> + MixedZero, A: Val>(re: u128, im: u128) -> Bits { let (re, im) = (A::of_bits(re), A::of_bits(im));
    (R::mixed_from_num(C::new(re, im)).bits(), R::mixed_zero().bits())
}
fn rc_to<R: Val + MixedNumConversion<C<A>>, A: Val>(x: u128, _: u128) -> Bits { let x = R::of_bits(x);
    let z: C<A> = x.mixed_to_num();
    (z.re.bits(), z.im.bits())
}
/// Real numbers of type `R` <-> complex numbers with components `A`.
fn rc<R: Val + MixedNumConversion<C<A>> + MixedZero, A: Val>(c: &mut Check) {
    single::<A, R>(c, "real part of complex as", rc_from::<R, A>, false);
    single::<R, A>(c, "real as complex of", rc_to::<R, A>, true);
}

fn polar_from<A: Val + MixedNum, B: Val + MixedNum + MixedZero + MixedNumConversion<A>>(x: u128, _: u128) -> Bits { let x = A::of_bits(x);
    let z = Polar::<B>::mixed_from_num(x);
    (z.mag.bits(), z.ang.bits())
}
fn polar_to<A: Val + MixedNum + MixedZero, B: Val + MixedNum + MixedZero + MixedNumConversion<A>>(m: u128, a: u128) -> Bits { let (m, a) = (B::of_bits(m), B::of_bits(a));
    let x: A = Polar::new(m, a).mixed_to_num();
    (x.bits(), A::mixed_zero().bits())
}
fn polar<A: Val + MixedNum + MixedZero, B: Val + MixedNum + MixedZero + MixedNumConversion<A>>(c: &mut Check) {
    single::<A, B>(c, "polar from real", polar_from::<A, B>, true);
    single::<B, A>(c, "magnitude of polar as", polar_to::<A, B>, false);
}

/// The conversions within one component type.
fn own<T: Val + MixedNum + MixedNumSigned + MixedZero + MixedWrapPhase + MixedTrigonometry>(c: &mut Check) {
    single::<T, T>(c, "real to complex", |x, _| { let x = T::of_bits(x); let z = C::mixed_to_complex(x); (z.re.bits(), z.im.bits()) }, true);
    single::<T, T>(c, "real to polar", |x, _| { let x = T::of_bits(x); let z = Polar::mixed_to_complex(x); (z.mag.bits(), z.ang.bits()) }, true);
    parts::<T>(c);
    pair::<T, T>(c, "polar from polar parts", |x, y| { let (x, y) = (T::of_bits(x), T::of_bits(y)); let z = Polar::new_from_polar(x, y); (z.mag.bits(), z.ang.bits()) });
}
fn parts<T: Val + MixedNum + MixedNumSigned>(c: &mut Check) {
    pair::<T, T>(c, "complex new", |x, y| { let (x, y) = (T::of_bits(x), T::of_bits(y)); let z = C::new(x, y); (z.re.bits(), z.im.bits()) });
    pair::<T, T>(c, "complex from cartesian parts", |x, y| { let (x, y) = (T::of_bits(x), T::of_bits(y)); let z = C::new_from_cartesian(x, y); (z.re.bits(), z.im.bits()) });
    pair::<T, T>(c, "complex to cartesian", |x, y| { let (x, y) = (T::of_bits(x), T::of_bits(y)); let z = C::new(x, y).to_cartesian(); (z.re.bits(), z.im.bits()) });
    pair::<T, T>(c, "polar new", |x, y| { let (x, y) = (T::of_bits(x), T::of_bits(y)); let z = Polar::new(x, y); (z.mag.bits(), z.ang.bits()) });
    pair::<T, T>(c, "polar to polar", |x, y| { let (x, y) = (T::of_bits(x), T::of_bits(y)); let z = Polar::new(x, y).to_polar(); (z.mag.bits(), z.ang.bits()) });
    pair::<T, T>(c, "polar accessors", |x, y| { let (x, y) = (T::of_bits(x), T::of_bits(y)); let z = Polar::new(x, y); (z.mag().bits(), z.arg().bits()) });
    pair::<T, T>(c, "polar accessors (2)", |x, y| { let (x, y) = (T::of_bits(x), T::of_bits(y)); let z = Polar::new(x, y); (z.abs().bits(), z.ang().bits()) });
}

macro_rules! sgn { ($c:ident; $($b:ident)*) => { $( prims!($c, $b; f32 f64 u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize); )* } }
macro_rules! prims { ($c:ident, $b:ident; $($a:ident)*) => { $( cc::<$a, $b>(&mut $c); )* } }
macro_rules! flo { ($c:ident; $($r:ident)*) => { $( flos!($c, $r; f32 f64 u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize); own::<$r>(&mut $c); )* } }
macro_rules! flos { ($c:ident, $r:ident; $($a:ident)*) => { $( rc::<$r, $a>(&mut $c); polar::<$a, $r>(&mut $c); )* } }
macro_rules! ints { ($c:ident; $($r:ident)*) => { $( polar::<f64, $r>(&mut $c); polar::<i32, $r>(&mut $c); polar::<u64, $r>(&mut $c); )* } }

macro_rules! fxs { ($tr:ident $signed:ident $any:ident $own:tt: $($a:ident)*) => {
    trait $tr: Val + Fx + MixedNum + MixedZero $( + MixedNumConversion<$a> + MixedNumConversion<C<$a>>)* {}
    impl<T: Val + Fx + MixedNum + MixedZero $( + MixedNumConversion<$a> + MixedNumConversion<C<$a>>)*> $tr for T {}
    fn $signed<B: $tr + MixedNumSigned + MixedWrapPhase + MixedTrigonometry>(c: &mut Check) {
        $( cc::<$a, B>(c); )*
        if $own { own::<B>(c); }
        $any::<B>(c);
    }
    fn $any<B: $tr>(c: &mut Check) {
        $( rc::<B, $a>(c); polar::<$a, B>(c); )*
    }
} }
// Every fixed point type with some primitive types, and some with the others.
fxs!(CvSome fx_signed fx_any true: f32 f64 u8 i32 u64);
fxs!(CvRest rest_signed rest_any false: u16 u32 u128 usize i8 i16 i64 i128 isize);

fn main() {
    let mut c = Check::new("C02", "state: the component(s) of the operand (all pairs over an alphabet of 60-300 values per type that contains every boundary), transition: one conversion between real and complex numbers, for every pair of component types; oracle: component-wise exact conversion, zero imaginary part or angle");
    c.assume("components whose conversion would not fit the target type are outside the domain for fixed point");
    sgn!(c; f32 f64 i8 i16 i32 i64 i128 isize);
    flo!(c; f32 f64);
    parts::<i32>(&mut c);
    parts::<i128>(&mut c);
    ints!(c; u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize f32 f64);
    each_signed!(fx_signed(&mut c));
    each_unsigned!(fx_any(&mut c));
    macro_rules! few { ($f:ident $F:ident; $($U:ident)*) => { $( $f::<fixed::$F<fixed::types::extra::$U>>(&mut c); )* } }
    few!(rest_signed FixedI8; U0 U3 U5);
    few!(rest_signed FixedI16; U0 U8 U13);
    few!(rest_signed FixedI32; U0 U16 U29);
    few!(rest_signed FixedI64; U0 U32 U61);
    few!(rest_any FixedU8; U0 U5);
    few!(rest_any FixedU16; U8);
    few!(rest_any FixedU32; U16);
    few!(rest_any FixedU64; U0 U61);
    c.run()
}
