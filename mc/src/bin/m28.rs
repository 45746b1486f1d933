//! M28: operations leave their operands alone, clones are independent
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::ops::*;
use mcore::*;
use mcore::ix::morton_index::MortonIndexNaming::*;

/// Everything a user can see of an index
fn seen<T: Ix>(x: &T) -> (Vec<u8>, Vec<u8>) {
    (reads(x), x.iterate(x.depth() + 2))
}

fn intact<T: Ix>(x: &T, before: &(Vec<u8>, Vec<u8>), copy: &T, what: &dyn Fn() -> String) -> Outcome {
    let now = seen(x);
    ensure!(now == *before, "{}: {} changed its operand from {} to {}", T::NAME, what(), show(&before.0), show(&now.0));
    ensure!(x == copy && x.cmp(copy).is_eq() && hash_stream(x) == hash_stream(copy), "{}: after {} the operand differs from a clone made before", T::NAME, what());
    Ok(())
}

/// Queries and writes, for all types
fn queries<T: Ix>(ctx: &mut Ctx) {
    let small = T::BITS == 8 || T::BITS == 16;
    let dens = if small { Density::Medium } else { ctx.pick(Density::Light, Density::Medium) };
    let thorough = ctx.thorough();
    for (d, f) in fams::<T>(dens, ctx.pick(1 << 10, 1 << 16)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/queries and writes/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            let before = seen(&x);
            ensure!(before.0 == v && before.1 == v, "{}: {} reads {}", T::NAME, show(&v), show(&before.0));
            let copy = x.clone();
            let _ = (x == copy, x < copy, x.cmp(&copy), x.partial_cmp(&copy), hash(&x), x.depth());
            let _ = (x.to_string(CellConcatenation), x.to_string(CellConcatenationWithRoot), x.iter_methods(d / 2));
            intact(&x, &before, &copy, &|| "comparing, hashing, naming, iterating".to_string())?;
            if d <= UBITS {
                let _ = x.to_string(GridIndex);
                for o in 0..model::orderings(T::DIM) {
                    let _ = x.to_grid(o);
                }
                intact(&x, &before, &copy, &|| "to_grid_index".to_string())?;
            }
            let _ = x.inverted();
            intact(&x, &before, &copy, &|| "inverted".to_string())?;
            loc.transitions += 8;
            // writing to a clone, and to the original
            for l in (0..d).filter(|l| thorough || d <= 10 || *l < 3 || *l + 3 > d || (*l + i as usize) % 5 == 0) {
                for c in 0..radix::<T>() as u8 {
                    let mut y = x.clone();
                    y.set_cell_at_level(l, <T::D as Dm>::mk(c));
                    same(&x, &v).map_err(|e| format!("after writing {c} at level {l} of a clone: {e}"))?;
                    same(&y, &model::set(&v, l, c)).map_err(|e| format!("clone after writing {c} at level {l}: {e}"))?;
                    let mut z = x.clone();
                    let w = z.clone();
                    z.set_cell_at_level(l, <T::D as Dm>::mk(c));
                    ensure!(w == copy && reads(&w) == v, "{}: writing {c} at level {l} of {} changed a clone made before", T::NAME, show(&v));
                    ensure!(z == y, "{}: writing {c} at level {l} of {} and of its clone give different indices", T::NAME, show(&v));
                    loc.transitions += 2;
                }
            }
            // cloning onto another index
            for e in [0, 1, 2, d.saturating_sub(9), d.saturating_sub(2), d.saturating_sub(1), d, d + 1, d + 2, d + 9] {
                if T::CAP.is_some_and(|c| e > c) || T::KIND == Kind::Fixed && e != d {
                    continue;
                }
                for fill in [0, radix::<T>() as u8 - 1] {
                    let mut y = built::<T>(&vec![fill; e])?;
                    y.clone_from(&x);
                    same(&y, &v).map_err(|m| format!("clone_from onto an index of depth {e} with cells {fill}: {m}"))?;
                    if d > 0 {
                        y.set_cell_at_level(d - 1, <T::D as Dm>::mk(fill));
                        same(&y, &model::set(&v, d - 1, fill)).map_err(|m| format!("clone_from onto an index of depth {e} with cells {fill}, then written: {m}"))?;
                    }
                    loc.transitions += 1;
                }
            }
            intact(&x, &before, &copy, &|| "writing to clones".to_string())?;
            loc.states += 1;
            loc.sample(|| format!("{}: {} after every query, and after writes to its clones", T::NAME, show(&v)));
            Ok(())
        });
    }
}

/// Navigation, for variable-depth types: the operand, and earlier results, stay as they are
fn navigation<T: Conv>(ctx: &mut Ctx) {
    let small = T::BITS == 8 || T::BITS == 16;
    for (d, f) in fams::<T>(if small { Density::Medium } else { ctx.pick(Density::Light, Density::Medium) }, ctx.pick(1 << 10, 1 << 15)) {
        let (n, full) = (f.len(), f.is_full());
        let span = if full || ctx.thorough() { usize::MAX } else { 2 };
        ctx.unit(format!("{}/navigation/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            let before = seen(&x);
            let copy = x.clone();
            let mut results: Vec<(Op, T, Vec<u8>)> = vec![];
            for op in ops_of::<T>(&v, span) {
                let y = apply(&x, &op);
                same(&x, &v).map_err(|e| format!("operand after {op}: {e}"))?;
                loc.transitions += 1;
                if let Some(mut y) = y {
                    let r = reads(&y);
                    // writing to the result must not reach the operand
                    if !r.is_empty() {
                        let l = (i as usize + results.len()) % r.len();
                        let c = (radix::<T>() as u8 - 1) - r[l];
                        y.set_cell_at_level(l, <T::D as Dm>::mk(c));
                        same(&x, &v).map_err(|e| format!("operand after writing to the result of {op}: {e}"))?;
                        results.push((op, y, model::set(&r, l, c)));
                    }
                }
            }
            intact(&x, &before, &copy, &|| "navigation and conversion".to_string())?;
            for (op, y, w) in &results {
                same(y, w).map_err(|e| format!("result of {op} on {} after further operations: {e}", show(&v)))?;
            }
            loc.states += 1;
            loc.sample(|| format!("{}: {} after all {} operations on it", T::NAME, show(&v), results.len()));
            Ok(())
        });
    }
}

/// A write to the original after navigation does not reach the results
fn writes_after<T: VarIx>(ctx: &mut Ctx) {
    let depths: Vec<usize> = (0..=max_explored::<T>()).chain(deep_depths::<T>(ctx.thorough())).collect();
    let n = depths.len() as u64;
    ctx.unit(format!("{}/writes after navigation", T::NAME), n, false, move |i, loc| {
        let d = depths[i as usize];
        let r = radix::<T>() as u8;
        for (a, b) in [(0, 0), (1, 2), (3, 1)] {
            let v: Vec<u8> = (0..d).map(|l| ((a * l + b) % r as usize) as u8).collect();
            for l in if d <= 128 { (0..d).collect() } else { deep_levels(d) } {
                let mut x = built::<T>(&v)?;
                let kin: Vec<(T, Vec<u8>)> = [
                    (x.parent(), model::ancestor(&v, 1)),
                    (x.with_depth(d), Some(v.clone())),
                    (x.with_depth(d / 2), Some(v[..d / 2].to_vec())),
                    (x.child(<T::D as Dm>::mk(1)), model::descendant(&v, &[1], T::CAP)),
                    (Some(x.inverted()), Some(model::inverted(&v))),
                    (Some(x.clone()), Some(v.clone())),
                ]
                .into_iter()
                .filter_map(|(x, w)| Some((x?, w?)))
                .collect();
                x.set_cell_at_level(l, <T::D as Dm>::mk(r - 1 - v[l]));
                for (y, w) in &kin {
                    same(y, w).map_err(|e| format!("{}: relative of {} after writing level {l} of it: {e}", T::NAME, show(&v)))?;
                    loc.transitions += 1;
                }
            }
            loc.states += 1;
        }
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M28");
    each_ix!(queries(&mut ctx));
    each_var!(navigation(&mut ctx));
    each_var!(writes_after(&mut ctx));
    ctx.finish()
}
