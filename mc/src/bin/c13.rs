//! Fixed point exponential.
use mc::fx::Fx;
use mc::lattice;
use mc::prim::leak;
use mc::*;
use mixed_num::*;

fn fx<T: Fx + MixedExp>(c: &mut Check) {
    let ulp = T::ulp();
    let mut grid = lattice::fx_vals::<T>(if thorough() { 12 } else { 8 }, &[1.0, 2.0, 0.5, std::f64::consts::LN_2, 10.0, 20.0, 21.4875, 63.0, 64.0, 65.0], 8).to_vec();
    if T::BITS > 16 {
        let n = if thorough() { 200000 } else { 4000 };
        grid.extend((0..n).filter_map(|i| T::near(-50.0 + 100.0 * i as f64 / n as f64)).map(|x| x.raw()));
    }
    let grid = leak(grid);
    c.unit(T::name(), grid.len() as u64, move |i, r| {
        let x = T::of(grid[i as usize]);
        let want = x.f().exp();
        // Every fractional bit and every whole step may contribute one rounded factor.
        let k = 12.0 + 1.5 * T::FRAC as f64 + x.f().abs().min(64.0);
        let tol = want * (3e-15 + k * ulp) + k * ulp;
        if want + tol > T::max_f() {
            return r.skip();
        }
        let got = x.mixed_exp();
        r.calls(1);
        let err = (got.f() - want).abs();
        r.worst(err / tol);
        r.check(err <= tol, got.raw() as u64, true, || format!("{}: exp({x}) is {got}, expected {want} within {tol:e}", T::name()));
        r.sample(|| format!("exp({x}) = {got}"));
    });
}

fn main() {
    let mut c = Check::new("C13", "state: an argument (8/16-bit types complete; lattices and an even grid over [-50, 50) for wider types), transition: the exponential; oracle: double precision exponential with the rounding of the product");
    c.assume("results that the type cannot hold are outside the domain");
    each_signed!(fx(&mut c));
    c.run()
}
