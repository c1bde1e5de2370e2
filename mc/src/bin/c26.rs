//! Equality, order, copies, defaults and layout of complex numbers.
use core::cmp::Ordering;
use mc::cplx::*;
use mc::val::{Kind, Val};
use mc::*;
use mixed_num::*;

/// What comparing two numbers says, one bit each: == != < <= > >=, then the order (0 less, 1 equal, 2 greater, 3 none).
fn answers<Z: PartialOrd>(z: &Z, w: &Z) -> u32 {
    (z == w) as u32 | ((z != w) as u32) << 1 | ((z < w) as u32) << 2 | ((z <= w) as u32) << 3 | ((z > w) as u32) << 4 | ((z >= w) as u32) << 5 | code(z.partial_cmp(w)) << 6
}
fn code(o: Option<Ordering>) -> u32 {
    match o {
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
        None => 3,
    }
}
fn spelled(a: u32) -> String {
    let names = ["==", "!=", "<", "<=", ">", ">="];
    let s: Vec<&str> = (0..6).filter(|k| a >> k & 1 == 1).map(|k| names[k]).collect();
    format!("{} and {}", s.join(" "), ["less", "equal", "greater", "unordered"][(a >> 6) as usize])
}

/// The type erased operations of one form of complex number.
struct Form {
    form: &'static str,
    cmp: fn(Bits2, Bits2) -> u32,
    /// The number after copying, cloning, and cloning onto another number.
    copies: fn(Bits2, Bits2) -> [Bits2; 3],
    default: fn() -> Bits2,
    /// Size and alignment of the number, and of a component.
    size: [usize; 4],
    /// The components of an array of two numbers, read from memory one after the other.
    layout: fn(Bits2, Bits2) -> [u128; 4],
    /// Component in an array of components seen as numbers.
    built: fn(Bits2, Bits2) -> [Bits2; 2],
}

macro_rules! form { ($F:ident $T:ident $a:ident $b:ident $name:expr) => {{
    fn mk<$T: Val>(z: Bits2) -> $F<$T> { $F::new(<$T>::of_bits(z.0), <$T>::of_bits(z.1)) }
    fn un<$T: Val>(z: $F<$T>) -> Bits2 { (z.$a.bits(), z.$b.bits()) }
    Form {
        form: $name,
        cmp: |z, w| answers(&mk::<$T>(z), &mk::<$T>(w)),
        copies: |z, w| {
            let x = mk::<$T>(z);
            let y = x;
            #[allow(clippy::clone_on_copy)]
            let c = x.clone();
            let mut d = mk::<$T>(w);
            d.clone_from(&c);
            [un(y), un(c), un(d)]
        },
        default: || un::<$T>(Default::default()),
        size: [size_of::<$F<$T>>(), align_of::<$F<$T>>(), size_of::<$T>(), align_of::<$T>()],
        layout: |z, w| {
            let v = [mk::<$T>(z), mk::<$T>(w)];
            assert!(size_of_val(&v) == 4 * size_of::<$T>());
            // Two numbers are four components, the first of the first number first.
            let p = unsafe { core::slice::from_raw_parts(v.as_ptr() as *const $T, 4) };
            [p[0].bits(), p[1].bits(), p[2].bits(), p[3].bits()]
        },
        built: |z, w| {
            let v = [<$T>::of_bits(z.0), <$T>::of_bits(z.1), <$T>::of_bits(w.0), <$T>::of_bits(w.1)];
            assert!(2 * size_of::<$F<$T>>() <= size_of_val(&v) && align_of::<$F<$T>>() <= align_of::<$T>());
            let p = unsafe { core::slice::from_raw_parts(v.as_ptr() as *const $F<$T>, 2) };
            [un(p[0]), un(p[1])]
        },
    }
}} }

fn both<T: Val + Default>(ck: &mut Check) {
    machine(ck, ty::<T>(), form!(Cartesian T re im "cartesian"));
    machine(ck, ty::<T>(), form!(Polar T mag ang "polar"));
}

fn machine(ck: &mut Check, t: &'static Ty, f: Form) {
    let f: &'static Form = Box::leak(Box::new(f));
    let form = f.form;
    let mut v = t.parts(if thorough() { 36 } else { 16 }).to_vec();
    if t.kind == Kind::Float {
        v.extend([f64::INFINITY, f64::NEG_INFINITY, f64::NAN, t.max(), t.tiny() / 4.0].map(|x| t.near(x).unwrap()));
        // The next after one, and the next after that.
        let one = t.near(1.0).unwrap();
        v.extend([one + 1, one + 2]);
    } else if t.signed || t.w < 128 {
        v.extend([t.lo(), t.hi(), t.hi() - 1, 1 << (t.w / 2), (1 << (t.w / 2)) + 1].map(|x| x as u128));
    } else {
        v.extend([u128::MAX, u128::MAX - 1, 1 << 127]);
    }
    let mut w = vec![];
    for x in v {
        if !w.contains(&x) {
            w.push(x);
        }
    }
    let v = mc::prim::leak(w);
    // How a component compares.
    let order = move |a: u128, b: u128| -> Option<Ordering> {
        match t.kind {
            Kind::Float => t.f(a).partial_cmp(&t.f(b)),
            _ if t.signed => Some((a as i128).cmp(&(b as i128))),
            _ => Some(a.cmp(&b)),
        }
    };
    let expected = move |z: Bits2, w: Bits2| -> u32 {
        let (p, q) = (order(z.0, w.0), order(z.1, w.1));
        let o = if p == Some(Ordering::Equal) { q } else { p };
        let eq = p == Some(Ordering::Equal) && q == Some(Ordering::Equal);
        let (l, g) = (o == Some(Ordering::Less), o == Some(Ordering::Greater));
        let e = o == Some(Ordering::Equal);
        eq as u32 | (!eq as u32) << 1 | (l as u32) << 2 | ((l || e) as u32) << 3 | (g as u32) << 4 | ((g || e) as u32) << 5 | code(o) << 6
    };
    ck.unit(format!("pairs of {form} {}", t.name), quads(v), move |i, r| {
        let (z, w) = quad(i, v);
        let (got, want) = ((f.cmp)(z, w), expected(z, w));
        r.calls(1);
        r.check(got == want, got as u64, z != w, || format!("{form} {}: {} against {} is {}, expected {}", t.name, t.show2(z), t.show2(w), spelled(got), spelled(want)));
        r.sample(|| format!("{} against {}: {}", t.show2(z), t.show2(w), spelled(got)));
    });
    // Single numbers: all of 8 bits, and how every neighbour compares.
    let n = if t.w == 8 { 1 << 16 } else { (v.len() * v.len()) as u64 };
    ck.unit(format!("one {form} {}", t.name), n, move |i, r| {
        let z = if t.w == 8 { ((t.lo() + (i & 255) as i128) as u128, (t.lo() + (i >> 8) as i128) as u128) } else { (v[(i % v.len() as u64) as usize], v[(i / v.len() as u64) as usize]) };
        let w = (z.1, v[1]);
        let s = f.size;
        r.calls(5);
        r.check(s[0] == 2 * s[2] && s[1] == s[3], 0, false, || format!("{form} {}: a number takes {} bytes aligned to {}, a component {} aligned to {}", t.name, s[0], s[1], s[2], s[3]));
        if r.failed() {
            return;
        }
        for (k, c) in (f.copies)(z, w).into_iter().enumerate() {
            r.check(c == z, dig(c), true, || format!("{form} {}: {} of {} is {}", t.name, ["a copy", "a clone", "a clone in place"][k], t.show2(z), t.show2(c)));
        }
        let d = (f.default)();
        r.check(d == (0, 0), dig(d), false, || format!("{form} {}: the default is {}", t.name, t.show2(d)));
        let m = (f.layout)(z, w);
        r.check(m == [z.0, z.1, w.0, w.1], m[0] as u64, z.0 != z.1, || format!("{form} {}: in memory {} and {} are {:?}", t.name, t.show2(z), t.show2(w), m.map(t.show)));
        let b = (f.built)(z, w);
        r.check(b == [z, w], dig(b[0]), z.0 != z.1, || format!("{form} {}: components seen as numbers are {} and {}, expected {} and {}", t.name, t.show2(b[0]), t.show2(b[1]), t.show2(z), t.show2(w)));
        if t.w == 8 {
            // Every neighbour.
            for a in -1..=1 {
                for b in -1..=1 {
                    let w = (z.0 as i128 + a, z.1 as i128 + b);
                    if t.fits(w.0) && t.fits(w.1) {
                        let w = (w.0 as u128, w.1 as u128);
                        let (got, want) = ((f.cmp)(z, w), expected(z, w));
                        r.calls(1);
                        r.check(got == want, got as u64, z != w, || format!("{form} {}: {} against {} is {}, expected {}", t.name, t.show2(z), t.show2(w), spelled(got), spelled(want)));
                    }
                }
            }
        }
        r.sample(|| format!("{} in memory: {:?}", t.show2(z), m.map(t.show)));
    });
}

/// Where components have a total equality, so do complex numbers.
#[allow(dead_code)]
fn total() {
    fn eq<T: Eq>() {}
    eq::<Cartesian<i32>>();
    eq::<Polar<u8>>();
    eq::<Cartesian<fixed::types::I16F16>>();
}

macro_rules! prims { ($c:ident; $($t:ident)*) => { $( both::<$t>(&mut $c); )* } }

fn main() {
    let mut c = Check::new("C26", "state: two complex numbers of one form (all combinations over an alphabet with extremes, neighbours, zeros of both signs, infinities and NaN; 8-bit types complete for one number and its neighbours), transition: the six comparisons and the order, copying, cloning, the default, and reading the numbers as memory; oracle: exact comparison of the components, the first one first");
    every_prim!(prims!(c));
    each_signed!(both(&mut c));
    each_unsigned!(both(&mut c));
    c.run()
}
