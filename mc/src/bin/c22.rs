//! Text of complex numbers. With the feature `std` the same exploration runs on the crate built with its own `std`
//! feature (where a minimum width is honoured); the plain build starts that one as a child and reports for both.
use mc::cplx::*;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;
use std::fmt::*;

type C<T> = Cartesian<T>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tr {
    Display,
    LowerExp,
    UpperExp,
    LowerHex,
    UpperHex,
    Octal,
    Binary,
}
const REAL: &[Tr] = &[Tr::Display, Tr::LowerExp, Tr::UpperExp];
const BITS: &[Tr] = &[Tr::LowerHex, Tr::UpperHex, Tr::Octal, Tr::Binary];

/// Flags of a format specification.
#[derive(Clone, Copy, Debug)]
struct Spec {
    plus: bool,
    alt: bool,
    prec: Option<usize>,
    width: Option<usize>,
}

macro_rules! show { ($($f:ident $Tr:ident $t:literal;)*) => { $(
    #[allow(unused_variables)]
    fn $f(x: &dyn $Tr, s: Spec, o: &mut dyn Write) -> Result {
        let (p, w) = (s.prec.unwrap_or(0), s.width.unwrap_or(0));
        match (s.plus, s.alt, s.prec.is_some(), s.width.is_some()) {
            (false, false, false, false) => write!(o, concat!("{:", $t, "}"), x),
            (false, false, false, true) => write!(o, concat!("{:w$", $t, "}"), x, w = w),
            (false, false, true, false) => write!(o, concat!("{:.p$", $t, "}"), x, p = p),
            (false, false, true, true) => write!(o, concat!("{:w$.p$", $t, "}"), x, w = w, p = p),
            (false, true, false, false) => write!(o, concat!("{:#", $t, "}"), x),
            (false, true, false, true) => write!(o, concat!("{:#w$", $t, "}"), x, w = w),
            (false, true, true, false) => write!(o, concat!("{:#.p$", $t, "}"), x, p = p),
            (false, true, true, true) => write!(o, concat!("{:#w$.p$", $t, "}"), x, w = w, p = p),
            (true, false, false, false) => write!(o, concat!("{:+", $t, "}"), x),
            (true, false, false, true) => write!(o, concat!("{:+w$", $t, "}"), x, w = w),
            (true, false, true, false) => write!(o, concat!("{:+.p$", $t, "}"), x, p = p),
            (true, false, true, true) => write!(o, concat!("{:+w$.p$", $t, "}"), x, w = w, p = p),
            (true, true, false, false) => write!(o, concat!("{:+#", $t, "}"), x),
            (true, true, false, true) => write!(o, concat!("{:+#w$", $t, "}"), x, w = w),
            (true, true, true, false) => write!(o, concat!("{:+#.p$", $t, "}"), x, p = p),
            (true, true, true, true) => write!(o, concat!("{:+#w$.p$", $t, "}"), x, w = w, p = p),
        }
    }
)* } }
show! { display Display ""; lower_exp LowerExp "e"; upper_exp UpperExp "E"; lower_hex LowerHex "x"; upper_hex UpperHex "X"; octal Octal "o"; binary Binary "b"; }

/// A sink that takes a given number of bytes and then fails.
struct Sink {
    text: String,
    room: usize,
    /// Fails once only; what follows is lost.
    once: bool,
    failed: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> Result {
        if self.failed && self.once {
            return Ok(());
        }
        if s.len() > self.room {
            let mut k = self.room;
            while !s.is_char_boundary(k) {
                k -= 1
            }
            self.text.push_str(&s[..k]);
            self.room = 0;
            self.failed = true;
            return Err(Error);
        }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

type Put = fn(Bits2, Tr, Spec, &mut dyn Write) -> Result;
/// The text of a component's magnitude.
type Mag = fn(u128, Tr, Spec) -> String;

fn any(x: [Option<&dyn Display>; 1], e: Option<(&dyn LowerExp, &dyn UpperExp)>, b: Option<(&dyn LowerHex, &dyn UpperHex, &dyn Octal, &dyn Binary)>, t: Tr, s: Spec, o: &mut dyn Write) -> Result {
    match t {
        Tr::Display => display(x[0].unwrap(), s, o),
        Tr::LowerExp => lower_exp(e.unwrap().0, s, o),
        Tr::UpperExp => upper_exp(e.unwrap().1, s, o),
        Tr::LowerHex => lower_hex(b.unwrap().0, s, o),
        Tr::UpperHex => upper_hex(b.unwrap().1, s, o),
        Tr::Octal => octal(b.unwrap().2, s, o),
        Tr::Binary => binary(b.unwrap().3, s, o),
    }
}

fn text<T: Val>(z: Bits2) -> C<T> {
    C::new(T::of_bits(z.0), T::of_bits(z.1))
}

macro_rules! prims { ($ck:expr, $min:expr; $($t:ident)*) => { $( {
    #[allow(unused_comparisons)]
    fn mag(b: u128, t: Tr, s: Spec) -> String {
        let x = <$t as Val>::of_bits(b);
        let y = if x < 0 { (x as i128).unsigned_abs() } else { x as u128 };
        let mut o = String::new();
        any([Some(&y)], Some((&y, &y)), Some((&y, &y, &y, &y)), t, s, &mut o).unwrap();
        o
    }
    fn put(z: Bits2, t: Tr, s: Spec, o: &mut dyn Write) -> Result {
        let y = text::<$t>(z);
        any([Some(&y)], Some((&y, &y)), Some((&y, &y, &y, &y)), t, s, o)
    }
    machine($ck, $min, ty::<$t>(), &[REAL, BITS], put, mag);
} )* } }

macro_rules! floats { ($ck:expr, $min:expr; $($t:ident)*) => { $( {
    fn mag(b: u128, t: Tr, s: Spec) -> String {
        let x = <$t as Val>::of_bits(b);
        let y = if x < 0.0 { x.abs() } else { x };
        let mut o = String::new();
        any([Some(&y)], Some((&y, &y)), None, t, s, &mut o).unwrap();
        o
    }
    fn put(z: Bits2, t: Tr, s: Spec, o: &mut dyn Write) -> Result {
        let y = text::<$t>(z);
        any([Some(&y)], Some((&y, &y)), None, t, s, o)
    }
    machine($ck, $min, ty::<$t>(), &[REAL], put, mag);
} )* } }

trait Fmt: LowerExp + UpperExp + LowerHex + UpperHex + Octal + Binary {}
impl<T: LowerExp + UpperExp + LowerHex + UpperHex + Octal + Binary> Fmt for T {}

fn fx<T: fx::Fx + Fmt + MixedReal + MixedZero + std::ops::Sub<Output = T>>(ck: &mut Check, min: usize) {
    fn mag<T: fx::Fx + Fmt>(b: u128, t: Tr, s: Spec) -> String {
        let raw = b as i128;
        let y = T::of(if raw > T::min_raw() { raw.abs() } else { raw });
        let mut o = String::new();
        any([Some(&y)], Some((&y, &y)), Some((&y, &y, &y, &y)), t, s, &mut o).unwrap();
        // Only the smallest value still shows its sign.
        o.strip_prefix('-').map(|x| x.to_string()).unwrap_or(o)
    }
    fn put<T: fx::Fx + Fmt + MixedReal + MixedZero + std::ops::Sub<Output = T>>(z: Bits2, t: Tr, s: Spec, o: &mut dyn Write) -> Result {
        let y = text::<T>(z);
        any([Some(&y)], Some((&y, &y)), Some((&y, &y, &y, &y)), t, s, o)
    }
    machine(ck, min, ty::<T>(), &[REAL, BITS], put::<T>, mag::<T>)
}

fn specs() -> Vec<Spec> {
    let mut v = vec![];
    for plus in [false, true] {
        for alt in [false, true] {
            for prec in [None, Some(0), Some(1), Some(3), Some(9)] {
                for width in [None, Some(0), Some(3), Some(7), Some(8), Some(11), Some(40)] {
                    v.push(Spec { plus, alt, prec, width })
                }
            }
        }
    }
    // More precisions and widths, not in all combinations.
    for prec in [2, 4, 6, 7, 8, 10, 12, 15, 16, 17, 18, 20, 33, 70] {
        for (plus, alt, width) in [(false, false, None), (true, true, Some(40))] {
            v.push(Spec { plus, alt, prec: Some(prec), width })
        }
    }
    for width in [1, 2, 4, 5, 9, 12, 16, 20, 31, 64, 100, 255] {
        for (plus, alt, prec) in [(false, false, None), (true, true, Some(2))] {
            v.push(Spec { plus, alt, prec, width: Some(width) })
        }
    }
    // The plain ones first, so that a counterexample has no more flags than it takes.
    v.sort_by_key(|s| (s.plus as u32 + s.alt as u32 + s.prec.is_some() as u32 + s.width.is_some() as u32, s.width));
    v
}

fn sets(t: &Ty, most: usize) -> Vec<u128> {
    let mut v = t.parts(most).to_vec();
    if t.kind == Kind::Float {
        let special = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 0.05, -0.05, 9.995, -0.4999, 1e21, -1e-7, 123456789.0];
        v.splice(8.min(v.len()).., special.iter().filter_map(|x| t.near(*x)).chain([t.near(-0.0).unwrap(), 1]));
    }
    v
}

fn machine(ck: &mut Check, min: usize, t: &'static Ty, traits: &[&'static [Tr]], put: Put, mag: Mag) {
    let tag = if cfg!(feature = "std") { "std " } else { "" };
    let all: &'static [Spec] = mc::prim::leak(specs());
    let traits: &'static [Tr] = mc::prim::leak(traits.concat());
    let nt = traits.len() as u64;
    // Every component value of the 8-bit types with few flags; fewer values with all flags.
    if t.w == 8 {
        let v: Vec<u128> = (t.lo()..=t.hi()).map(|x| x as u128).collect();
        let k = if thorough() { 24 } else { 2 };
        unit(ck, format!("{tag}all {}", t.name), t, mc::prim::leak(v), traits, &all[..k], put, mag, min);
    }
    let v = mc::prim::leak(sets(t, if thorough() { 30 } else { 14 }));
    unit(ck, format!("{tag}flags {}", t.name), t, v, traits, all, put, mag, min);
    // Sinks that fail after every possible number of bytes.
    let v = mc::prim::leak(sets(t, if thorough() { 12 } else { 6 }));
    let n = v.len() as u64;
    let few: &'static [Spec] = &all[..12];
    ck.unit(format!("{tag}failing sink {}", t.name), n * n * nt * few.len() as u64, move |i, r| {
        let z = (v[(i % n) as usize], v[(i / n % n) as usize]);
        let tr = traits[(i / n / n % nt) as usize];
        let s = few[(i / n / n / nt) as usize];
        if is_min(t, z) {
            return r.skip();
        }
        let Some(want) = model(t, z, tr, s, mag) else { return r.skip() };
        sinks(r, &want, |o| put(z, tr, s, o), || format!("{} as {tr:?} with {s:?}", t.show2(z)));
    });
}

/// Every place at which the sink can fail, for good or once.
fn sinks(r: &mut Rep, want: &str, put: impl Fn(&mut Sink) -> Result, what: impl Fn() -> String) {
    for room in 0..=want.len() {
        for once in [false, true] {
            let mut o = Sink { text: String::new(), room, once, failed: false };
            let res = put(&mut o);
            r.calls(1);
            let cut = (0..=room).rev().find(|k| want.is_char_boundary(*k)).unwrap();
            let ok = res.is_ok() == (room == want.len()) && o.text == want[..cut];
            if !ok {
                return r.fail(format!("{} into a sink of {room} bytes{} gives {res:?} and \"{}\", expected a part of \"{want}\"", what(), if once { ", which fails once," } else { "" }, o.text));
            }
            r.seen(room as u64 ^ want.len() as u64 * 977, room < want.len());
        }
    }
}

fn is_min(t: &Ty, z: Bits2) -> bool {
    t.kind != Kind::Float && t.signed && (z.0 as i128 == t.lo() || z.1 as i128 == t.lo())
}

/// `None`: the component type itself cannot format the component this way.
fn model(t: &Ty, z: Bits2, tr: Tr, s: Spec, mag: Mag) -> Option<String> {
    let below = |b: u128| if t.kind == Kind::Float { t.f(b) < 0.0 } else { t.signed && (b as i128) < 0 };
    let prefix = match tr {
        _ if !s.alt => "",
        Tr::LowerHex | Tr::UpperHex => "0x",
        Tr::Octal => "0o",
        Tr::Binary => "0b",
        _ => "",
    };
    let plain = Spec { plus: false, alt: false, width: None, prec: s.prec };
    let mag = |b| if t.kind == Kind::Fixed && (tr != Tr::Display) { guarded(|| mag(b, tr, plain)) } else { Some(mag(b, tr, plain)) };
    let mut o = String::new();
    o.push_str(if below(z.0) { "-" } else if s.plus { "+" } else { "" });
    o.push_str(prefix);
    o.push_str(&mag(z.0)?);
    o.push(if below(z.1) { '-' } else { '+' });
    o.push_str(prefix);
    o.push_str(&mag(z.1)?);
    o.push('i');
    if cfg!(feature = "std") {
        while o.chars().count() < s.width.unwrap_or(0) {
            o.insert(0, ' ')
        }
    }
    Some(o)
}

#[allow(clippy::too_many_arguments)]
fn unit(ck: &mut Check, name: String, t: &'static Ty, v: &'static [u128], traits: &'static [Tr], specs: &'static [Spec], put: Put, mag: Mag, min: usize) {
    let (n, nt) = (v.len() as u64, traits.len() as u64);
    ck.unit(name, n * n * nt * specs.len() as u64, move |i, r| {
        let z = (v[(i % n) as usize], v[(i / n % n) as usize]);
        let tr = traits[(i / n / n % nt) as usize];
        let s = specs[(i / n / n / nt) as usize];
        let Some(want) = model(t, z, tr, s, mag) else { return r.skip() };
        let mut got = String::new();
        r.calls(1);
        let res = if is_min(t, z) {
            match guarded(|| put(z, tr, s, &mut got)) {
                None => return r.known(min, || format!("{} of {}", t.show2(z), t.name)),
                Some(x) => x,
            }
        } else {
            put(z, tr, s, &mut got)
        };
        let d = got.bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
        r.check(res.is_ok() && got == want, d, z.0 != z.1, || format!("{}: {} as {tr:?} with {s:?} is {res:?} \"{got}\", expected \"{want}\"", t.name, t.show2(z)));
        r.sample(|| format!("{} as {tr:?} with {s:?} is \"{got}\"", t.show2(z)));
    });
}

fn polar<T: Val>(ck: &mut Check) {
    polar_machine(ck, ty::<T>(), |z, s, o| display(&Polar::new(T::of_bits(z.0), T::of_bits(z.1)), s, o), |b| T::of_bits(b).to_string())
}
fn polar_machine(ck: &mut Check, t: &'static Ty, put: fn(Bits2, Spec, &mut dyn Write) -> Result, one: fn(u128) -> String) {
    let tag = if cfg!(feature = "std") { "std " } else { "" };
    let v = mc::prim::leak(sets(t, if thorough() { 45 } else { 24 }));
    let n = v.len() as u64;
    let plain = Spec { plus: false, alt: false, width: None, prec: None };
    ck.unit(format!("{tag}polar {}", t.name), n * n, move |i, r| {
        let z = (v[(i % n) as usize], v[(i / n) as usize]);
        let want = format!("{}∠{}", one(z.0), one(z.1));
        let mut got = String::new();
        let res = put(z, plain, &mut got);
        r.calls(1);
        let d = got.bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
        r.check(res.is_ok() && got == want, d, z.0 != z.1, || format!("{}: polar {} is {res:?} \"{got}\", expected \"{want}\"", t.name, t.show2(z)));
        r.sample(|| format!("polar {} is \"{got}\"", t.show2(z)));
        sinks(r, &want, |o| put(z, plain, o), || format!("polar {} of {}", t.show2(z), t.name));
    });
}
macro_rules! polars { ($ck:expr; $($t:ident)*) => { $( polar::<$t>($ck); )* } }

/// Runs the other build; its verdict comes first.
fn other_build(c: &mut Check) {
    let Ok(exe) = std::env::var("MC_STD_EXE") else { return };
    if std::env::args().any(|a| a == "--replay") {
        return;
    }
    let out = std::process::Command::new(&exe).env_remove("MC_STD_EXE").env("MC_EVIDENCE", "/verif/mc/target/C22-std.json").output().expect("std build");
    let text = String::from_utf8_lossy(&out.stdout);
    for l in text.lines() {
        println!("{}{l}", if l.starts_with("VIOLATION") { "" } else { "[std] " });
    }
    let summary = text.lines().find(|l| l.starts_with("C22 ")).unwrap_or("").to_string();
    c.note("crate_built_with_feature_std", &summary);
    if !out.status.success() {
        // Keep the evidence of the failing build.
        let _ = std::fs::copy("/verif/mc/target/C22-std.json", "/verif/evidence/C22.json");
        std::process::exit(out.status.code().unwrap_or(2))
    }
}

fn main() {
    let mut c = Check::new("C22", "state: a complex number (8-bit component types complete, others an alphabet), a formatting trait and a format specification (sign, alternate, precision, width), a sink that fails after every possible number of bytes, transition: formatting into that sink, on the crate built without and with its std feature; oracle: sign, prefix, magnitude text of the component type, padding");
    c.assume("the component type's own formatting of non-negative numbers is right; fill, alignment and zero flags are left out; polar numbers are formatted without flags");
    c.assume("components equal to the minimum of a signed type are a listed finding where formatting panics");
    let min = c.finding("C22-min-component", "formatting a complex number with a component that is the minimum of its signed type panics");
    other_build(&mut c);
    prims!(&mut c, min; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    floats!(&mut c, min; f32 f64);
    each_signed!(fx(&mut c, min));
    each_unsigned!(fx(&mut c, min));
    polars!(&mut c; u8 u32 i8 i16 i32 i64 i128 f32 f64);
    each_signed!(polar(&mut c));
    each_unsigned!(polar(&mut c));
    c.run()
}
