//! M01: cells in, cells out
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::morton_index::{DynamicStorage2D, DynamicStorage3D, Storage};
use mcore::ix::*;
use mcore::*;

fn round_trip<T: Arr>(ctx: &mut Ctx) {
    // fixed-depth types take shorter sequences too
    let max = max_explored::<T>();
    for d in 0..=max {
        let lim = ctx.pick(1u64 << 16, 1 << 22);
        let f = fam(radix::<T>(), d, ctx.pick(Density::Medium, Density::Deep), lim);
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/cells/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let want = norm::<T>(&v);
            let x = built::<T>(&v)?;
            same_all(&x, &want).map_err(|e| format!("built from slice {}: {e}", show(&v)))?;
            let k = (i % (want.len() as u64 + 2)) as usize;
            let (hint, count, last, nth) = x.iter_methods(k);
            let len = want.len();
            ensure!(hint.0 <= len && hint.1.map_or(true, |h| h >= len), "{}: size_hint {hint:?} excludes the {len} cells of {}", T::NAME, show(&v));
            ensure!(count == len, "{}: the iterator of {} counts {count} cells", T::NAME, show(&v));
            ensure!(last == want.last().copied(), "{}: last() of {} is {last:?}", T::NAME, show(&v));
            ensure!(nth == want.get(k).copied(), "{}: nth({k}) of {} is {nth:?}", T::NAME, show(&v));
            ensure!(x.iter_past_end(3) == [None; 3], "{}: the iterator of {} yields more than its cells", T::NAME, show(&v));
            if let Some(r) = T::array(&v) {
                let y = r.map_err(|e| format!("{}: building from array {} failed: {e}", T::NAME, show(&v)))?;
                same_all(&y, &want).map_err(|e| format!("built from array {}: {e}", show(&v)))?;
                loc.transitions += 1;
            }
            loc.states += 1;
            loc.transitions += 1;
            loc.traces += 1;
            loc.sample(|| format!("{}: {} -> {}", T::NAME, show(&v), show(&reads(&x))));
            Ok(())
        });
    }
}

/// Sequences longer than the capacity
fn too_long<T: Arr>(ctx: &mut Ctx) {
    let Some(cap) = T::CAP else { return };
    let mut lens: Vec<usize> = (cap + 1..=2 * cap + 3).collect();
    lens.extend([255, 256, 257, 256 + cap - 1, 256 + cap, 256 + cap + 1, 511, 512, 512 + cap, 1024, 65535, 65536, 65536 + cap]);
    lens.sort();
    lens.dedup();
    lens.retain(|l| *l > cap);
    let n = lens.len() as u64;
    ctx.unit(format!("{}/too long", T::NAME), n, false, move |i, loc| {
        let l = lens[i as usize];
        for c in 0..radix::<T>() as u8 {
            let v = vec![c; l];
            for (how, r) in [("slice", Some(build::<T>(&v))), ("array", T::array(&v))] {
                let Some(r) = r else { continue };
                match r {
                    Ok(x) => return Err(format!("{}: a {how} of {l} cells was accepted (depth {})", T::NAME, x.depth())),
                    Err(e) => ensure!(limit_of(&e) == Some(cap), "{}: a {how} of {l} cells was refused with {e:?}, expected the limit {cap}", T::NAME),
                }
                loc.transitions += 1;
            }
        }
        loc.states += 1;
        loc.traces += 1;
        loc.sample(|| format!("{}: {l} cells refused", T::NAME));
        Ok(())
    });
}

fn defaults<T: Arr>(ctx: &mut Ctx) {
    ctx.unit(format!("{}/default", T::NAME), 1, true, move |_, loc| {
        let want = norm::<T>(&[]);
        same_all(&T::default(), &want).map_err(|e| format!("default: {e}"))?;
        loc.transitions += 1;
        Ok(())
    });
}

fn zeroed<T: Arr + VarIx>(ctx: &mut Ctx) {
    let max = if T::KIND == Kind::Dynamic { ctx.pick(1100, 20_000) } else { 255 };
    ctx.unit(format!("{}/zeroed", T::NAME), max + 1, T::KIND == Kind::Static, move |d, loc| {
        let d = d as usize;
        let fits = T::CAP.map_or(true, |c| d <= c);
        match (T::zeroed_(d), fits) {
            (None, false) => {}
            (None, true) => return Err(format!("{}: zeroed({d}) was refused", T::NAME)),
            (Some(x), false) => return Err(format!("{}: zeroed({d}) was accepted (depth {})", T::NAME, x.depth())),
            (Some(x), true) => {
                let z = vec![0; d];
                same_all(&x, &z).map_err(|e| format!("zeroed({d}): {e}"))?;
                ensure!(x == built::<T>(&z)?, "{}: zeroed({d}) is not equal to the index built from {d} zero cells", T::NAME);
                // a zeroed index is an ordinary index: every level can be written and read back
                for l in (0..d).filter(|l| d <= 100 || l % 37 == 0 || l + 9 > d) {
                    let mut y = x.clone();
                    let c = (l % (radix::<T>() - 1)) as u8 + 1;
                    y.set_cell_at_level(l, <T::D as Dm>::mk(c));
                    same(&y, &model::set(&z, l, c)).map_err(|e| format!("zeroed({d}), then level {l} set to {c}: {e}"))?;
                    loc.transitions += 1;
                }
            }
        }
        loc.states += 1;
        loc.traces += 1;
        loc.transitions += 1;
        loc.sample(|| format!("{}: zeroed({d})", T::NAME));
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M01");
    each_ix!(round_trip(&mut ctx));
    each_ix!(too_long(&mut ctx));
    each_ix!(defaults(&mut ctx));
    each_var!(zeroed(&mut ctx));
    ctx.unit("dynamic storages/zeroed", ctx.pick(600, 5000), false, |d, loc| {
        let d = d as usize;
        let (a, b) = (DynamicStorage2D::zeroed(d), DynamicStorage3D::zeroed(d));
        ensure!(a.depth() == d && b.depth() == d, "zeroed({d}) storages have depths {} and {}", a.depth(), b.depth());
        for l in 0..d {
            let (p, q) = unsafe { (a.get_cell_at_level_unchecked(l), b.get_cell_at_level_unchecked(l)) };
            ensure!(p == Q[0] && q == O[0], "zeroed({d}) storages hold {p:?} and {q:?} at level {l}");
        }
        loc.transitions += 2;
        loc.states += 1;
        Ok(())
    });
    ctx.finish()
}
