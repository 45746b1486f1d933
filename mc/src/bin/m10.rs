//! M10: grid coordinates of a node, and back
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;

fn one<T: Ix>(v: &[u8], loc: &mut Loc) -> Outcome {
    let x = built::<T>(v)?;
    for ord in 0..model::orderings(T::DIM) {
        let want = model::grid(T::DIM, ord, v);
        let g = x.to_grid(ord);
        ensure!(
            (0..3).all(|a| g[a] as u128 == want[a]),
            "{}: to_grid_index of {} with ordering {ord} is {:x?}, expected {:x?}",
            T::NAME, show(v), &g[..T::DIM], &want[..T::DIM]
        );
        loc.transitions += 1;
        if v.len() <= ops::grid_limit::<T>() {
            let y = T::from_grid(g, v.len(), ord).map_err(|e| format!("{}: mapping {} back from the grid failed: {e}", T::NAME, show(v)))?;
            ensure!(y == x, "{}: {} mapped to the grid and back (ordering {ord}) is {}", T::NAME, show(v), show(&reads(&y)));
            loc.transitions += 1;
        }
    }
    Ok(())
}

fn nodes<T: Ix>(ctx: &mut Ctx) {
    let dens = ctx.pick(if T::DIM == 3 && T::BITS > 32 { Density::Light } else { Density::Medium }, Density::Dense);
    let lim = ctx.pick(1 << 14, 1 << 21);
    let fs: Vec<_> = match T::KIND {
        Kind::Dynamic => (0..=UBITS).map(|d| (d, fam(radix::<T>(), d, dens, lim))).collect(),
        _ => fams::<T>(dens, lim),
    };
    for (d, f) in fs {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/nodes/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            one::<T>(&v, loc)?;
            loc.states += 1;
            loc.sample(|| format!("{}: {} to the grid and back in every ordering", T::NAME, show(&v)));
            Ok(())
        });
    }
}

/// Nodes with every value of every byte of a coordinate, at the deepest grids of the type
fn bytes<T: Ix>(ctx: &mut Ctx) {
    let max = match T::KIND {
        Kind::Dynamic => UBITS,
        _ => max_explored::<T>().min(UBITS),
    };
    let depths: Vec<usize> = if T::KIND == Kind::Fixed { vec![max] } else { (max.saturating_sub(ctx.pick(2, 9))..=max).collect() };
    let n = depths.len() as u64 * 8;
    ctx.unit(format!("{}/every byte of a coordinate", T::NAME), n, false, move |i, loc| {
        let (d, k) = (depths[i as usize / 8], 8 * (i as usize % 8));
        if k >= d {
            return Ok(());
        }
        let mask = if d >= UBITS { usize::MAX } else { (1usize << d) - 1 };
        for b in 0..256usize {
            for fill in [0, mask, 0xC3A5_5A3C_9669_1E87u64 as usize & mask] {
                for axis in 0..T::DIM {
                    let mut g = [fill, fill, if T::DIM == 3 { fill } else { 0 }];
                    g[axis] = (fill & !(0xFF << k) | b << k) & mask;
                    one::<T>(&model::from_grid(T::DIM, 0, g.map(|c| c as u128), d), loc)?;
                    loc.states += 1;
                }
            }
        }
        loc.sample(|| format!("{}: depth {d}, every value of bits {k}..{}", T::NAME, k + 8));
        Ok(())
    });
}

/// Every cell of every small grid belongs to exactly one node
fn grids<T: VarIx>(ctx: &mut Ctx) {
    let max = if T::DIM == 2 { ctx.pick(6, 9) } else { ctx.pick(4, 6) }.min(max_explored::<T>());
    let ords = model::orderings(T::DIM) as u64;
    ctx.unit(format!("{}/all grids to depth {max}", T::NAME), (max as u64 + 1) * ords, true, move |i, loc| {
        let (d, ord) = ((i / ords) as usize, (i % ords) as usize);
        let side = 1usize << d;
        let mut seen = std::collections::HashSet::new();
        for x in 0..side {
            for y in 0..side {
                for z in 0..if T::DIM == 3 { side } else { 1 } {
                    let n = T::from_grid([x, y, z], d, ord).map_err(|e| format!("{}: ({x},{y},{z}) of the grid of depth {d}: {e}", T::NAME))?;
                    let back = n.to_grid(ord);
                    ensure!(back == [x, y, z], "{}: ({x},{y},{z}) of the grid of depth {d} (ordering {ord}) comes back as {back:?}", T::NAME);
                    ensure!(n.depth() == d, "{}: ({x},{y},{z}) of the grid of depth {d} gives an index of depth {}", T::NAME, n.depth());
                    ensure!(seen.insert(reads(&n)), "{}: two cells of the grid of depth {d} (ordering {ord}) give the node {}", T::NAME, show(&reads(&n)));
                    loc.transitions += 2;
                    loc.states += 1;
                }
            }
        }
        loc.sample(|| format!("{}: all cells of the grid of depth {d}, ordering {ord}", T::NAME));
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M10");
    each_ix!(nodes(&mut ctx));
    each_ix!(bytes(&mut ctx));
    each_var!(grids(&mut ctx));
    ctx.finish()
}
