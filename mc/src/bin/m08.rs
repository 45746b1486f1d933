//! M08: any operation history follows the same path in the tree
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::ops::*;
use mcore::*;
use std::collections::HashSet;

/// Apply every operation to the concrete state `x` that stands for `v`; `fresh` collects representations other than the
/// canonical one (the one that building from cells gives), which are explored in turn.
fn closure<T: Conv>(x: &T, v: &[u8], span: usize, loc: &mut Loc, fresh: &mut Vec<(T, Vec<u8>, Op)>) -> Outcome {
    for op in ops_of::<T>(v, span) {
        let want = step::<T>(v, &op);
        let got = apply(x, &op);
        loc.transitions += 1;
        match (got, want) {
            (None, None) => {}
            (Some(y), None) => return Err(format!("{}: {op} on {} succeeded ({}) but is impossible", T::NAME, show(v), show(&reads(&y)))),
            (None, Some(w)) => return Err(format!("{}: {op} on {} was refused, it must lead to {}", T::NAME, show(v), show(&w))),
            (Some(y), Some(w)) => {
                same(&y, &w).map_err(|e| format!("{op} on {}: {e}", show(v)))?;
                if fresh.len() < 64 && dbg(&y) != dbg(&built::<T>(&w)?) {
                    fresh.push((y, w, op));
                }
            }
        }
    }
    Ok(())
}

/// One step from every node. If every operation ends in the canonical representation of its result, this covers every
/// history by induction; representations that differ are followed further, and counted.
fn induct<T: Conv>(ctx: &mut Ctx) {
    let small = T::BITS == 8 || T::BITS == 16;
    for (d, f) in fams::<T>(
        if small { Density::Medium } else { ctx.pick(Density::Light, Density::Medium) },
        ctx.pick(1 << 10, 1 << 15),
    ) {
        let (n, full) = (f.len(), f.is_full());
        let span = if full || ctx.thorough() { usize::MAX } else { 3 };
        ctx.unit(format!("{}/closure/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            same_all(&x, &v)?;
            loc.states += 1;
            let mut fresh = vec![];
            closure(&x, &v, span, loc, &mut fresh)?;
            let mut seen = HashSet::new();
            let mut depth = 0;
            while !fresh.is_empty() && depth < 2 {
                let mut next = vec![];
                for (y, w, op) in fresh {
                    if seen.insert(dbg(&y)) {
                        loc.states += 1;
                        closure(&y, &w, span, loc, &mut next).map_err(|e| format!("after {op} on {}: {e}", show(&v)))?;
                    }
                }
                fresh = next;
                depth += 1;
            }
            loc.sample(|| format!("{}: all operations on {}", T::NAME, show(&v)));
            Ok(())
        });
    }
}

/// All operation sequences up to a length, executed from scratch without any canonicalisation
fn histories<T: Conv>(ctx: &mut Ctx) {
    let mut roots: Vec<Vec<u8>> = vec![];
    let r = radix::<T>();
    for d in 0..=max_explored::<T>() {
        roots.push((0..d).map(|l| ((3 * l + 1) % r) as u8).collect());
        if d <= 8 || d % 7 == 0 || d + 3 > max_explored::<T>() {
            roots.push(vec![(r - 1) as u8; d]);
        }
    }
    for d in deep_depths::<T>(ctx.thorough()) {
        roots.push((0..d).map(|l| ((3 * l + 1) % r) as u8).collect());
    }
    let n = roots.len() as u64;
    let budget: u64 = ctx.pick(30_000, 4_000_000);
    ctx.unit(format!("{}/histories", T::NAME), n, false, move |i, loc| {
        let v = roots[i as usize].clone();
        let mut x = built::<T>(&v)?;
        if v.is_empty() {
            x = T::default();
        }
        loc.states += 1;
        let b = ops_of::<T>(&v, 2).len() as u64;
        let mut len = 1;
        while b.pow(len as u32 + 1) <= budget {
            len += 1;
        }
        let mut h = vec![];
        walk(&x, &v, len, &mut h, loc).map_err(|e| format!("from {}: {e}", show(&v)))?;
        loc.sample(|| format!("{}: all operation sequences of length {len} from {}", T::NAME, show(&v)));
        Ok(())
    });
}

fn walk<T: Conv>(x: &T, v: &[u8], left: usize, h: &mut Vec<Op>, loc: &mut Loc) -> Outcome {
    if left == 0 {
        loc.traces += 1;
        return same_all(x, v).map_err(|e| format!("after {}: {e}", hist(h)));
    }
    for op in ops_of::<T>(v, 2) {
        let want = step::<T>(v, &op);
        let got = apply(x, &op);
        loc.transitions += 1;
        h.push(op);
        match (got, want) {
            (None, None) => loc.traces += 1,
            (Some(_), None) => return Err(format!("after {}: the last step succeeded but is impossible", hist(h))),
            (None, Some(_)) => return Err(format!("after {}: the last step was refused but is possible", hist(h))),
            (Some(y), Some(w)) => walk(&y, &w, left - 1, h, loc)?,
        }
        h.pop();
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::from_args("M08");
    each_var!(induct(&mut ctx));
    each_var!(histories(&mut ctx));
    ctx.finish()
}
