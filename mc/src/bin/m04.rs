//! M04: index order is the lexicographic order of cells, ancestors first
use mcore::engine::*;
use mcore::fam::{Density, Fam};
use mcore::ix::*;
use mcore::*;
use std::cmp::Ordering;
use std::sync::Arc;

fn pair<T: Ix>(a: &T, b: &T, want: Ordering) -> Outcome {
    let bad = |op: &str, got: String| {
        Err(format!("{}: {op} of {} and {} gives {got}, the order of the cells is {want:?}", T::NAME, show(&reads(a)), show(&reads(b))))
    };
    let c = a.cmp(b);
    if c != want {
        return bad("cmp", format!("{c:?}"));
    }
    if a.partial_cmp(b) != Some(want) {
        return bad("partial_cmp", format!("{:?}", a.partial_cmp(b)));
    }
    let ops = [
        ("<", a < b, want == Ordering::Less),
        ("<=", a <= b, want != Ordering::Greater),
        (">", a > b, want == Ordering::Greater),
        (">=", a >= b, want != Ordering::Less),
        ("==", a == b, want == Ordering::Equal),
        ("!=", a != b, want != Ordering::Equal),
    ];
    for (n, got, w) in ops {
        if got != w {
            return bad(n, got.to_string());
        }
    }
    Ok(())
}

fn maxmin<T: Ix>(a: &T, b: &T, want: Ordering) -> Outcome {
    let (mx, mn) = (Ord::max(a.clone(), b.clone()), Ord::min(a.clone(), b.clone()));
    let (wx, wn) = if want == Ordering::Greater { (a, b) } else { (b, a) };
    ensure!(mx == *wx && mn == *wn, "{}: max/min of {} and {} are {} and {}", T::NAME, show(&reads(a)), show(&reads(b)), show(&reads(&mx)), show(&reads(&mn)));
    Ok(())
}

/// All pairs of nodes. The nodes are listed in the order of a depth-first walk, so the expected result is the order of
/// the positions.
fn all_pairs<T: Ix>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let mut nodes: Vec<Vec<u8>> = vec![];
    fn dfs(v: &mut Vec<u8>, r: usize, max: usize, leaves_only: bool, out: &mut Vec<Vec<u8>>) {
        if !leaves_only || v.len() == max {
            out.push(v.clone());
        }
        if v.len() < max {
            for c in 0..r {
                v.push(c as u8);
                dfs(v, r, max, leaves_only, out);
                v.pop();
            }
        }
    }
    let full = match (T::KIND, T::BITS, T::DIM) {
        (_, 8, _) => T::CAP.unwrap(),
        (Kind::Fixed, 16, 2) => {
            if ctx.thorough() {
                8
            } else {
                return;
            }
        }
        (Kind::Fixed, 16, _) => {
            if ctx.thorough() {
                5
            } else {
                return;
            }
        }
        (Kind::Static, 16, 2) => ctx.pick(6, 8),
        (Kind::Static, 16, _) => ctx.pick(4, 5),
        (Kind::Fixed, _, _) => return,
        (_, _, 2) => ctx.pick(5, 7),
        (_, _, _) => ctx.pick(3, 4),
    };
    dfs(&mut vec![], r, full, T::KIND == Kind::Fixed, &mut nodes);
    let complete = Some(full) == T::CAP;
    let n = nodes.len() as u64;
    let nodes = Arc::new(nodes);
    let objs: Arc<Vec<Result<T, String>>> = Arc::new(nodes.iter().map(|v| observe(|| built::<T>(v)).and_then(|x| x)).collect());
    let _ = nodes;
    ctx.unit(format!("{}/all pairs to depth {full}", T::NAME), n, complete, move |i, loc| {
        let a = objs[i as usize].as_ref().map_err(|e| e.clone())?;
        for (j, b) in objs.iter().enumerate() {
            let b = b.as_ref().map_err(|e| e.clone())?;
            let want = (i as usize).cmp(&j);
            if n > 5000 {
                // the operators are derived from these; they are compared with them below and in the structured pairs
                if a.cmp(b) != want || (a == b) != (want == Ordering::Equal) {
                    pair(a, b, want)?;
                }
                if (i ^ j as u64) & 63 == 0 {
                    pair(a, b, want)?;
                }
            } else {
                pair(a, b, want)?;
                maxmin(a, b, want)?;
            }
        }
        loc.states += 1;
        loc.evals += objs.len() as u64;
        loc.distinct += objs.len() as u64;
        loc.sample(|| format!("{}: {} against all {n} nodes", T::NAME, show(&reads(a))));
        Ok(())
    });
}

/// Pairs by (depths, length of the common prefix, first differing cells, contents around them)
fn structured<T: Ix>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let m = (r - 1) as u8;
    let max = max_explored::<T>();
    let depths: Vec<usize> = match T::KIND {
        Kind::Fixed => vec![max],
        _ => (0..=max).collect(),
    };
    for d1 in depths.clone() {
        let thorough = ctx.thorough();
        // deep types, quick tier: neighbouring depths, multiples of the byte period, the ends
        let depths: Vec<usize> =
            depths.iter().copied().filter(|d2| thorough || max <= 24 || d1.abs_diff(*d2) <= 4 || d2 % 8 == 0 || *d2 == 1 || *d2 == max || d2 % 8 == d1 % 8).collect();
        let n = depths.len() as u64;
        let d2s = Arc::new(depths);
        ctx.unit(format!("{}/structured pairs/d{d1}", T::NAME), n, false, move |i, loc| {
            let d2 = d2s[i as usize];
            let prefixes: Vec<[usize; 2]> = if thorough { vec![[0, 0], [0, r - 1], [1, 1], [3, 2], [5, 1]] } else { vec![[0, 0], [0, r - 1], [3, 2]] };
            for p in 0..=d1.min(d2) {
                for pf in &prefixes {
                    let pre: Vec<u8> = (0..p).map(|l| ((pf[0] * l + pf[1]) % r) as u8).collect();
                    // tails after the differing level
                    let tails: &[(u8, u8)] = if thorough { &[(0, m), (m, 0), (0, 0), (m, m)] } else { &[(0, m), (m, 0)] };
                    for &(t1, t2) in tails {
                        let mk = |first: Option<u8>, d: usize, t: u8| {
                            let mut v = pre.clone();
                            if v.len() < d {
                                v.push(first.unwrap_or(t));
                            }
                            v.resize(d, t);
                            v
                        };
                        let pairs: Vec<(u8, u8)> = if thorough || p % 4 == 3 {
                            (0..r as u8).flat_map(|a| (0..r as u8).map(move |b| (a, b))).collect()
                        } else {
                            vec![(0, 1), (1, 0), (m, 0), (0, m), (m - 1, m), (m, m - 1), (1, 2), (2, 1), (1, 1)]
                        };
                        for (a, b) in pairs {
                            let (va, vb) = (mk(Some(a), d1, t1), mk(Some(b), d2, t2));
                            let want = model::cmp(&va, &vb);
                            let (xa, xb) = (built::<T>(&va)?, built::<T>(&vb)?);
                            pair(&xa, &xb, want)?;
                            pair(&xb, &xa, want.reverse())?;
                            loc.evals += 2;
                            loc.distinct += 1;
                        }
                    }
                }
            }
            let v: Vec<u8> = (0..d1).map(|l| ((l + i as usize) % r) as u8).collect();
            let x = built::<T>(&v)?;
            pair(&x, &built::<T>(&v)?, Ordering::Equal)?;
            loc.states += 1;
            loc.sample(|| format!("{}: depths {d1} and {d2}, every common prefix length", T::NAME));
            Ok(())
        });
    }
}

/// Every ordered pair from small families of different shape (also between all depths of a dynamic index)
fn family_pairs<T: Ix>(ctx: &mut Ctx) {
    let mut vs: Vec<Vec<u8>> = vec![];
    let step = ctx.pick(3, 1);
    let max = max_explored::<T>();
    for d in (0..=max).filter(|d| (*d % step == 0 || *d == max) && (T::KIND != Kind::Fixed || *d == max)) {
        let f = Fam::structured_only(radix::<T>(), d, Density::Light);
        let keep = ctx.pick(40, 150);
        let st = (f.len() / keep).max(1);
        let mut v = vec![];
        for i in (0..f.len()).step_by(st as usize) {
            f.get(i, &mut v);
            vs.push(v.clone());
        }
    }
    vs.sort_by(|a, b| model::cmp(a, b));
    vs.dedup();
    let n = vs.len() as u64;
    let objs: Arc<Vec<Result<T, String>>> = Arc::new(vs.iter().map(|v| observe(|| built::<T>(v)).and_then(|x| x)).collect());
    ctx.unit(format!("{}/family pairs", T::NAME), n, false, move |i, loc| {
        let a = objs[i as usize].as_ref().map_err(|e| e.clone())?;
        for (j, b) in objs.iter().enumerate() {
            let b = b.as_ref().map_err(|e| e.clone())?;
            pair(a, b, (i as usize).cmp(&j))?;
        }
        loc.states += 1;
        loc.evals += n;
        loc.distinct += n;
        Ok(())
    });
}

/// Very deep nodes that differ in one level, in two, in their depth only, or below a long common part
fn deep<T: Ix>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let m = (r - 1) as u8;
    let depths = deep_depths::<T>(ctx.thorough());
    if depths.is_empty() {
        return;
    }
    let n = depths.len() as u64;
    ctx.unit(format!("{}/very deep pairs", T::NAME), n * n, false, move |i, loc| {
        let (d1, d2) = (depths[(i / n) as usize], depths[(i % n) as usize]);
        for bg in [0u8, 1, m] {
            let (u, w) = (vec![bg; d1], vec![bg; d2]);
            let mut pairs = vec![(u.clone(), w.clone())];
            for l in deep_levels(d1.min(d2)) {
                for c in 0..r as u8 {
                    if c != bg {
                        pairs.push((model::set(&u, l, c), w.clone()));
                        pairs.push((u.clone(), model::set(&w, l, c)));
                        pairs.push((model::set(&u, l, c), model::set(&w, l, if c == m { 1 } else { c + 1 })));
                        // a later difference the other way round must not matter
                        for k in [l + 1, l + 3, l + 9] {
                            if k < d1.min(d2) {
                                pairs.push((model::set(&u, l, c), model::set(&w, k, if bg == m { 0 } else { m })));
                            }
                        }
                    }
                }
            }
            for (a, b) in pairs {
                let want = model::cmp(&a, &b);
                let (x, y) = (built::<T>(&a)?, built::<T>(&b)?);
                pair(&x, &y, want)?;
                pair(&y, &x, want.reverse())?;
                loc.evals += 2;
                loc.distinct += 1;
            }
        }
        loc.states += 1;
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M04");
    each_ix!(all_pairs(&mut ctx));
    each_ix!(structured(&mut ctx));
    each_ix!(family_pairs(&mut ctx));
    each_ix!(deep(&mut ctx));
    ctx.finish()
}
