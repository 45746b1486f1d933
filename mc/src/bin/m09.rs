//! M09: building an index from grid coordinates
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;

/// What stands in the coordinate bits that do not belong to a grid of this depth
fn junk(d: usize, k: usize, axis: usize) -> usize {
    if d >= UBITS {
        return 0;
    }
    let all = usize::MAX << d;
    match (k, axis) {
        (0, _) => 0,
        (1, _) => all,
        (2, a) => all & [0x5555_5555_5555_5555u64 as usize, 0xAAAA_AAAA_AAAA_AAAAu64 as usize, 0x3333_3333_3333_3333u64 as usize][a],
        (3, a) => {
            if a == 0 {
                1 << d
            } else if a == 1 {
                1 << (UBITS - 1)
            } else {
                1 << ((d + UBITS) / 2)
            }
        }
        _ => unreachable!(),
    }
}

fn one<T: Ix>(v: &[u8], d: usize, ord: usize, jk: usize) -> Outcome {
    let m = model::grid(T::DIM, ord, v);
    let g = [m[0] as usize | junk(d, jk, 0), m[1] as usize | junk(d, jk, 1), if T::DIM == 3 { m[2] as usize | junk(d, jk, 2) } else { 0 }];
    let what = || format!("from_grid_index({:x?}, depth {d}, ordering {ord})", &g[..T::DIM]);
    let x = T::from_grid(g, d, ord).map_err(|e| format!("{}: {} failed: {e}", T::NAME, what()))?;
    same_all(&x, v).map_err(|e| format!("{}: {e}", what()))?;
    let y = built::<T>(v)?;
    ensure!(x == y && hash_stream(&x) == hash_stream(&y) && x.cmp(&y).is_eq(), "{}: {} has the right cells but differs from the index built from them", T::NAME, what());
    Ok(())
}

fn nodes<T: Ix>(ctx: &mut Ctx) {
    let dens = ctx.pick(if T::DIM == 3 && T::BITS > 32 { Density::Light } else { Density::Medium }, Density::Dense);
    for (d, f) in fams::<T>(dens, ctx.pick(1 << 12, 1 << 21)) {
        if d > grid_limit::<T>() {
            continue;
        }
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/nodes/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            for ord in 0..model::orderings(T::DIM) {
                for jk in 0..4 {
                    one::<T>(&v, d, ord, jk)?;
                    loc.transitions += 1;
                }
                loc.states += 1;
            }
            loc.sample(|| format!("{}: coordinates of {} in every ordering, with 4 contents of the unused coordinate bits", T::NAME, show(&v)));
            Ok(())
        });
    }
}

/// Coordinates by axis: every combination of patterns on the axes
fn products<T: Ix>(ctx: &mut Ctx) {
    let depths: Vec<usize> = match T::KIND {
        Kind::Fixed => vec![T::CAP.unwrap()],
        _ => (0..=max_explored::<T>().min(grid_limit::<T>())).collect(),
    };
    let n = depths.len() as u64;
    let more = ctx.thorough();
    ctx.unit(format!("{}/coordinate products", T::NAME), n, false, move |i, loc| {
        let d = depths[i as usize];
        let mask = if d >= UBITS { usize::MAX } else { (1usize << d) - 1 };
        let mut p: Vec<usize> = vec![0, mask, 0x5555_5555_5555_5555u64 as usize & mask, 0x0F0F_33CC_A5C3_9669u64 as usize & mask];
        if more || T::DIM == 2 {
            p.extend((0..d).map(|k| 1 << k));
            p.extend((0..d).map(|k| mask ^ (1 << k)));
        } else {
            p.extend([0, 7, 8, 9, 15, 16, 20, 21, 22, 31, 32, 41].iter().filter(|k| **k < d).map(|k| 1usize << k));
            if d > 0 {
                p.push(1 << (d - 1));
            }
        }
        p.sort_unstable();
        p.dedup();
        let zs = if T::DIM == 3 { p.clone() } else { vec![0] };
        for &x in &p {
            for &y in &p {
                for &z in &zs {
                    for ord in 0..model::orderings(T::DIM) {
                        let v = model::from_grid(T::DIM, ord, [x as u128, y as u128, z as u128], d);
                        let g = [x, y, z];
                        let got = T::from_grid(g, d, ord).map_err(|e| format!("{}: from_grid_index({g:x?}, depth {d}, ordering {ord}) failed: {e}", T::NAME))?;
                        same(&got, &v).map_err(|e| format!("from_grid_index({g:x?}, depth {d}, ordering {ord}): {e}"))?;
                        loc.transitions += 1;
                    }
                    loc.states += 1;
                }
            }
        }
        loc.sample(|| format!("{}: depth {d}, {} patterns per axis", T::NAME, p.len()));
        Ok(())
    });
}

/// Every value of every byte of a coordinate, at the deepest grids of the type, between empty, full and mixed neighbours
fn bytes<T: Ix>(ctx: &mut Ctx) {
    let max = max_explored::<T>().min(grid_limit::<T>());
    let depths: Vec<usize> = if T::KIND == Kind::Fixed { vec![max] } else { (max.saturating_sub(ctx.pick(2, 9))..=max).collect() };
    let n = depths.len() as u64 * 8;
    ctx.unit(format!("{}/every byte of a coordinate", T::NAME), n, false, move |i, loc| {
        let (d, k) = (depths[i as usize / 8], 8 * (i as usize % 8));
        if k >= d {
            return Ok(());
        }
        let mask = if d >= UBITS { usize::MAX } else { (1usize << d) - 1 };
        for b in 0..256usize {
            for fill in [0, mask, 0xC3A5_5A3C_9669_1E87u64 as usize & mask] {
                for axis in 0..T::DIM {
                    let mut g = [fill, fill, if T::DIM == 3 { fill } else { 0 }];
                    g[axis] = (fill & !(0xFF << k) | b << k) & mask;
                    for ord in 0..model::orderings(T::DIM) {
                        let v = model::from_grid(T::DIM, ord, g.map(|c| c as u128), d);
                        let x = T::from_grid(g, d, ord).map_err(|e| format!("{}: from_grid_index({g:x?}, depth {d}, ordering {ord}) failed: {e}", T::NAME))?;
                        same(&x, &v).map_err(|e| format!("from_grid_index({g:x?}, depth {d}, ordering {ord}): {e}"))?;
                        loc.transitions += 1;
                    }
                    loc.states += 1;
                }
            }
        }
        loc.sample(|| format!("{}: depth {d}, every value of bits {k}..{}", T::NAME, k + 8));
        Ok(())
    });
}

fn refusals<T: VarIx>(ctx: &mut Ctx) {
    let mut ds: Vec<usize> = vec![];
    match T::CAP {
        Some(c) => {
            ds.extend(c + 1..c + 300);
            ds.extend(extremes(c, T::DIM));
        }
        None => {
            ds.extend(UBITS / 2 + 1..UBITS / 2 + 300);
            ds.extend([1000, 65535, 65536, 65537, 1 << 20]);
            // only then the ones for which storage could not even be allocated
            ds.extend(extremes(UBITS / 2, T::DIM).into_iter().filter(|e| *e > 1 << 20));
        }
    }
    ds.retain(|d| *d > T::CAP.unwrap_or(UBITS / 2));
    let n = ds.len() as u64;
    ctx.unit(format!("{}/too deep", T::NAME), n, false, move |i, loc| {
        let d = ds[i as usize];
        for ord in 0..model::orderings(T::DIM) {
            for g in [[0, 0, 0], [1, 2, 3], [usize::MAX; 3]] {
                let g = if T::DIM == 2 { [g[0], g[1], 0] } else { g };
                match T::CAP {
                    Some(c) => match T::from_grid(g, d, ord) {
                        Ok(x) => return Err(format!("{}: from_grid_index with depth {d} succeeded and gave depth {}", T::NAME, x.depth())),
                        Err(e) => ensure!(limit_of(&e) == Some(c), "{}: from_grid_index with depth {d}: {e:?}, expected the depth limit {c}", T::NAME),
                    },
                    None => must_panic(&format!("{}: from_grid_index with depth {d}", T::NAME), || T::from_grid(g, d, ord).map(|x| x.depth()))?,
                }
                loc.transitions += 1;
            }
        }
        loc.states += 1;
        loc.sample(|| format!("{}: depth {d} is refused", T::NAME));
        Ok(())
    });
}

fn grid_limit<T: Ix>() -> usize {
    ops::grid_limit::<T>()
}

fn main() {
    let mut ctx = Ctx::from_args("M09");
    each_ix!(nodes(&mut ctx));
    each_ix!(products(&mut ctx));
    each_ix!(bytes(&mut ctx));
    each_var!(refusals(&mut ctx));
    ctx.finish()
}
