//! M32: index order is the Z-order of the grid
use mcore::engine::*;
use mcore::ix::*;
use mcore::*;
use std::cmp::Ordering;

/// Z-order of two grid cells: the most significant bit in which any coordinate differs decides; if several axes differ
/// in it, the axis that owns the highest bit of the cell number does.
fn zcmp(dim: usize, ord: usize, a: &[usize; 3], b: &[usize; 3]) -> Ordering {
    let axes: Vec<usize> = if dim == 2 { model::ORD2[ord].to_vec() } else { model::ORD3[ord].to_vec() };
    for bit in (0..UBITS).rev() {
        for axis in axes.iter().rev() {
            let (p, q) = (a[*axis] >> bit & 1, b[*axis] >> bit & 1);
            if p != q {
                return p.cmp(&q);
            }
        }
    }
    Ordering::Equal
}

fn pair<T: Ix>(d: usize, ord: usize, a: [usize; 3], x: &T, b: [usize; 3], y: &T) -> Outcome {
    let want = zcmp(T::DIM, ord, &a, &b);
    let got = x.cmp(y);
    ensure!(
        got == want && x.partial_cmp(y) == Some(want) && (x < y) == want.is_lt() && (x == y) == want.is_eq(),
        "{}: depth {d}, ordering {ord}: the indices of the grid cells {:x?} and {:x?} compare as {got:?}, their Z-order is {want:?}",
        T::NAME, &a[..T::DIM], &b[..T::DIM]
    );
    // no smaller on any axis means no smaller as an index
    if (0..T::DIM).all(|k| a[k] <= b[k]) {
        ensure!(got.is_le(), "{}: depth {d}, ordering {ord}: {:x?} lies at or before {:x?} on every axis but comes later", T::NAME, &a[..T::DIM], &b[..T::DIM]);
    }
    Ok(())
}

/// Windows of a few bits, with adverse contents below and equal contents above
fn windows<T: Ix>(ctx: &mut Ctx) {
    let limit = ops::grid_limit::<T>();
    let depths: Vec<usize> = match T::KIND {
        Kind::Fixed => vec![max_explored::<T>()],
        _ => (1..=max_explored::<T>().min(limit)).collect(),
    };
    let w = ctx.pick(if T::DIM == 2 { 2 } else { 1 }, if T::DIM == 2 { 3 } else { 2 });
    for d in depths {
        if d > limit {
            continue;
        }
        let w = w.min(d);
        ctx.unit(format!("{}/windows of {w} bits/d{d}", T::NAME), (d - w + 1) as u64, false, move |s, loc| {
            let s = s as usize;
            let below = (1usize << s) - 1;
            let above = if s + w >= UBITS { 0 } else { !((1usize << (s + w)) - 1) & (if d >= UBITS { usize::MAX } else { (1 << d) - 1 }) };
            let r = 1usize << w;
            let n = r.pow(T::DIM as u32);
            for ord in 0..model::orderings(T::DIM) {
                for hi in [0, above, above & 0x5A5A_C33C_9669_A55Au64 as usize] {
                    let mk = |k: usize, low: usize| -> Result<([usize; 3], T), String> {
                        let mut g = [0; 3];
                        for a in 0..T::DIM {
                            g[a] = (k / r.pow(a as u32) % r) << s | low | hi;
                        }
                        Ok((g, T::from_grid(g, d, ord).map_err(|e| e.to_string())?))
                    };
                    let mut small = vec![];
                    let mut large = vec![];
                    for k in 0..n {
                        small.push(mk(k, 0)?);
                        large.push(mk(k, below)?);
                    }
                    for (a, x) in &small {
                        for (b, y) in small.iter().chain(&large) {
                            pair(d, ord, *a, x, *b, y)?;
                            loc.transitions += 1;
                        }
                    }
                    for (a, x) in &large {
                        // the way back to the grid
                        let g = x.to_grid(ord);
                        ensure!(g == *a, "{}: depth {d}, ordering {ord}: the grid cell {:x?} comes back as {:x?}", T::NAME, &a[..T::DIM], &g[..T::DIM]);
                        for (b, y) in &small {
                            pair(d, ord, *a, x, *b, y)?;
                            loc.transitions += 1;
                        }
                    }
                    loc.states += 2 * n as u64;
                }
            }
            loc.sample(|| format!("{}: depth {d}, all pairs of grid cells that differ in the coordinate bits {s}..{}", T::NAME, s + w));
            Ok(())
        });
    }
}

/// Whole grids: sorted by index, the cells are the Z-curve, and every aligned block is contiguous on it
fn grids<T: Ix>(ctx: &mut Ctx) {
    let top = ctx.pick(if T::DIM == 2 { 5 } else { 3 }, if T::DIM == 2 { 7 } else { 5 });
    let depths: Vec<usize> = match T::KIND {
        Kind::Fixed if max_explored::<T>() > top => return,
        Kind::Fixed => vec![max_explored::<T>()],
        _ => (0..=top.min(max_explored::<T>())).collect(),
    };
    for d in depths {
        let ords = model::orderings(T::DIM) as u64;
        ctx.unit(format!("{}/whole grid/d{d}", T::NAME), ords, true, move |ord, loc| {
            let ord = ord as usize;
            let side = 1usize << d;
            let total = side.pow(T::DIM as u32);
            let mut all: Vec<(T, [usize; 3])> = vec![];
            for k in 0..total {
                let mut g = [0; 3];
                for a in 0..T::DIM {
                    g[a] = k / side.pow(a as u32) % side;
                }
                all.push((T::from_grid(g, d, ord).map_err(|e| e.to_string())?, g));
            }
            all.sort_by(|a, b| a.0.cmp(&b.0));
            for (p, (x, g)) in all.iter().enumerate() {
                if p > 0 {
                    ensure!(all[p - 1].0 != *x, "{}: depth {d}, ordering {ord}: two grid cells have the same index", T::NAME);
                    ensure!(zcmp(T::DIM, ord, &all[p - 1].1, g).is_lt(), "{}: depth {d}, ordering {ord}: {:?} follows {:?} in index order", T::NAME, &g[..T::DIM], &all[p - 1].1[..T::DIM]);
                }
                // every aligned block of 2^k cells per axis occupies one stretch of the curve
                for k in 0..=d {
                    let len = 1usize << (k * T::DIM);
                    let first = &all[p / len * len].1;
                    ensure!((0..T::DIM).all(|a| g[a] >> k == first[a] >> k), "{}: depth {d}, ordering {ord}: position {p} of the curve is {:?}, outside the block of {:?}", T::NAME, &g[..T::DIM], &first[..T::DIM]);
                    loc.transitions += 1;
                }
            }
            loc.states += total as u64;
            loc.traces += 1;
            loc.sample(|| format!("{}: the whole grid of depth {d} with ordering {ord} in index order", T::NAME));
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M32");
    each_ix!(windows(&mut ctx));
    each_ix!(grids(&mut ctx));
    ctx.finish()
}
