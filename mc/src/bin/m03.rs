//! M03: access at or below the depth is always refused. Run in the checked and in the plain release profile.
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;
use std::sync::Arc;

fn oob<T: Ix>(ctx: &mut Ctx) {
    let ext = Arc::new(extremes(T::CAP.unwrap_or(usize::MAX), T::DIM));
    for (d, f) in fams::<T>(Density::Light, ctx.pick(1 << 4, 1 << 12)) {
        // the structured families of small types too, instead of the complete set: the check is one comparison
        let f = if f.len() > 2000 && !ctx.thorough() { Arc::new(fam::Fam::structured_only(radix::<T>(), d, Density::Light)) } else { f };
        let (n, full) = (f.len(), f.is_full());
        let ext = ext.clone();
        let thorough = ctx.thorough();
        ctx.unit(format!("{}/refused/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            loc.states += 1;
            // levels around the depth for every value, all the rest for the first and last values
            let all = thorough || i < 4 || i + 2 > f.len();
            let near = d..d + 4;
            let far = if all { d + 4..d + 140 } else { 0..0 };
            let ext: &[usize] = if all { &ext } else { &ext[ext.len() - 1..] };
            for level in near.chain(far).chain(ext.iter().copied().filter(|e| *e >= d + 140)) {
                must_panic(&format!("{}: reading level {level} of {} (depth {d})", T::NAME, show(&v)), || x.get_cell_at_level(level))?;
                let c = (level % radix::<T>()) as u8;
                let mut y = x.clone();
                let r = must_panic(&format!("{}: writing level {level} of {} (depth {d})", T::NAME, show(&v)), || {
                    y.set_cell_at_level(level, <T::D as Dm>::mk(c))
                });
                ensure!(y == x, "{}: the write to level {level} of {} (depth {d}) changed it to {} (depth {})", T::NAME, show(&v), show(&reads(&y)), y.depth());
                r?;
                loc.transitions += 2;
            }
            // the deepest levels in range are not refused
            for level in d.saturating_sub(2)..d {
                let mut y = x.clone();
                y.set_cell_at_level(level, <T::D as Dm>::mk(v[level]));
                ensure!(<T::D as Dm>::num(&y.get_cell_at_level(level)) == v[level], "{}: level {level} of {}", T::NAME, show(&v));
                loc.transitions += 1;
            }
            loc.traces += 1;
            loc.sample(|| format!("{}: levels {d}.. and extreme levels up to usize::MAX of {}", T::NAME, show(&v)));
            Ok(())
        });
    }
}

/// An index that got its depth by navigation is just as strict
fn moved<T: VarIx>(ctx: &mut Ctx) {
    let max = max_explored::<T>();
    let depths: Vec<usize> = (0..=max).chain(deep_depths::<T>(ctx.thorough())).collect();
    ctx.unit(format!("{}/refused after navigation", T::NAME), depths.len() as u64, false, move |i, loc| {
        let d = depths[i as usize];
        let m = (radix::<T>() - 1) as u8;
        let base = built::<T>(&vec![m; d])?;
        let mut xs = vec![(base.clone(), d)];
        for g in 1..=d {
            xs.push((base.ancestor(nz(g)).ok_or("ancestor refused")?, d - g));
        }
        if T::CAP.map_or(true, |c| d < c) {
            xs.push((base.child(<T::D as Dm>::mk(m)).ok_or("child refused")?, d + 1));
        }
        if let Some(z) = T::zeroed_(d) {
            xs.push((z, d));
        }
        for (x, depth) in xs {
            for level in depth..depth + 6 {
                must_panic(&format!("{}: reading level {level} of a node of depth {depth}", T::NAME), || x.get_cell_at_level(level))?;
                let mut y = x.clone();
                must_panic(&format!("{}: writing level {level} of a node of depth {depth}", T::NAME), || y.set_cell_at_level(level, <T::D as Dm>::mk(1)))?;
                ensure!(y == x, "{}: a refused write to level {level} changed the index", T::NAME);
                loc.transitions += 2;
            }
            loc.traces += 1;
        }
        loc.states += 1;
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M03");
    each_ix!(oob(&mut ctx));
    each_var!(moved(&mut ctx));
    ctx.finish()
}
