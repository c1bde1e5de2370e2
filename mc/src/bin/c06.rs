//! Phase wrapping.
use mc::fx::Fx;
use mc::lattice;
use mc::prim::leak;
use mc::val::Val;
use mc::*;
use mixed_num::*;

fn points() -> Vec<f64> {
    let mut v: Vec<f64> = (1..=64).map(|k| k as f64 * std::f64::consts::FRAC_PI_2).collect();
    for k in [100, 101, 127, 128, 1000, 1001, 9999, 10000, 10001, 50000, 100000, 1000000] {
        v.push(k as f64 * std::f64::consts::PI);
    }
    v
}

fn fx<T: Fx + MixedWrapPhase + MixedPi + MixedOps + MixedNum + MixedNumSigned>(c: &mut Check) {
    let v = lattice::fx_vals::<T>(if thorough() { 11 } else { 8 }, &points(), 4);
    c.unit(<T as Fx>::name(), v.len() as u64, move |i, r| {
        let x = T::of(v[i as usize]);
        let pi = T::mixed_pi().raw();
        for (k, y) in [x.mixed_wrap_phase(), trigonometry::wrap_phase(x)].into_iter().enumerate() {
            let what = ["mixed_wrap_phase", "wrap_phase"][k];
            let y = y.raw();
            r.calls(2);
            let turns = (x.raw() - y) as f64 / (2 * pi) as f64;
            r.check(-pi <= y && y < pi, y as u64, turns != 0.0, || format!("{}({x}) {what} is {}, outside [-pi, pi)", <T as Fx>::name(), T::of(y)));
            // A turn is twice the type's pi, or 2 pi rounded to the type: a unit in the last place per turn at most.
            let n = turns.round();
            let off = ((x.raw() - y) as f64 - n * (2 * pi) as f64).abs();
            r.check((x.raw() - y) % (2 * pi) == 0 || (n.abs() > 0.0 && off <= n.abs()), y as u64, turns != 0.0, || format!("{}({x}) {what} is {}, not a whole number of turns away", <T as Fx>::name(), T::of(y)));
            r.check(!(-pi <= x.raw() && x.raw() < pi) || x.raw() == y, y as u64, false, || format!("{}({x}) {what} changes a wrapped phase to {}", <T as Fx>::name(), T::of(y)));
            let z = T::of(y).mixed_wrap_phase().raw();
            r.check(z == y, z as u64, false, || format!("{}({x}) {what} wraps to {}, then to {}", <T as Fx>::name(), T::of(y), T::of(z)));
        }
        r.sample(|| format!("{x} -> {}", x.mixed_wrap_phase()));
    });
}

trait Fl: Val + MixedWrapPhase + MixedPi + MixedOps + MixedNum + MixedNumSigned {
    const EPS: f64;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
}

#[inline(always)]
fn float<T: Fl>(x: T, r: &mut Rep) {
    let pi = T::mixed_pi().real();
    let y = x.mixed_wrap_phase();
    r.calls(2);
    let g = trigonometry::wrap_phase(x);
    r.check(g.same(y), 0, false, || format!("wrap_phase({x:?}) is {g:?} but mixed_wrap_phase gives {y:?}"));
    let (xf, yf) = (x.real(), y.real());
    if !xf.is_finite() {
        // There is no phase to wrap; all that is promised is an answer.
        return r.seen(y.digest(), false);
    }
    r.check(-pi <= yf && yf < pi, y.digest(), xf != yf, || format!("wrap_phase({x:?}) is {y:?}, outside [-pi, pi)"));
    if -pi <= xf && xf < pi {
        r.check(xf == yf, y.digest(), false, || format!("wrap_phase({x:?}) changes a wrapped phase to {y:?}"));
    } else {
        // How far x - y is from a whole number of turns; `%` is exact, the subtraction rounds by at most half a unit of x.
        let d = (xf % (2.0 * pi)) - yf;
        let off = d.abs().min((d.abs() - 2.0 * pi).abs());
        let tol = 4.0 * T::EPS * pi + T::EPS * xf.abs() * 0.5;
        r.worst(off / tol);
        r.check(off <= tol, y.digest(), true, || format!("wrap_phase({x:?}) is {y:?}, {off:e} from a whole number of turns away"));
        let z = y.mixed_wrap_phase();
        r.calls(1);
        r.check(z.same(y), 0, false, || format!("wrap_phase({x:?}) wraps to {y:?}, then to {z:?}"));
    }
    r.sample(|| format!("{x:?} -> {y:?}"));
}

fn main() {
    let mut c = Check::new("C06", "state: a phase (8/16-bit fixed point complete; f32: every value with the low significand bits zero, all bit patterns in the thorough tier; wider types: lattice and neighbourhoods of multiples of pi/2), transition: wrap, then wrap again; oracle: exact integer arithmetic in units of the type's pi");
    let drop = if thorough() { 0 } else { 6 };
    c.unit("f32 grid", lattice::f32_count(drop), move |i, r| float(lattice::f32_at(i, drop), r));
    let near = leak(lattice::f32_near(&points(), 64));
    c.unit("f32 near multiples of pi/2", near.len() as u64, move |i, r| float(near[i as usize], r));
    let mut v = lattice::f64_vals(if thorough() { 14 } else { 11 }, -30, 70);
    v.extend(lattice::f64_vals(3, -1022, 1023));
    v.extend(lattice::f64_near(&points(), 64));
    let v = leak(v);
    c.unit("f64", v.len() as u64, move |i, r| float(v[i as usize], r));
    each_signed!(fx(&mut c));
    c.run()
}
