//! M29: sorting gives the depth-first walk
use mcore::engine::*;
use mcore::ix::*;
use mcore::*;
use std::collections::BTreeSet;
use std::sync::Arc;

/// Every node to this depth, depth-first
fn tree(r: usize, max: usize) -> Vec<Vec<u8>> {
    fn go(v: &mut Vec<u8>, r: usize, max: usize, out: &mut Vec<Vec<u8>>) {
        out.push(v.clone());
        if v.len() < max {
            for c in 0..r {
                v.push(c as u8);
                go(v, r, max, out);
                v.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], r, max, &mut out);
    out
}

/// The path to a deep node, and the siblings of every node on it, in depth-first order
fn comb(r: usize, path: &[u8]) -> Vec<Vec<u8>> {
    fn go(p: &[u8], at: usize, r: usize, out: &mut Vec<Vec<u8>>) {
        out.push(p[..at].to_vec());
        if at == p.len() {
            return;
        }
        for c in 0..r as u8 {
            if c == p[at] {
                go(p, at + 1, r, out);
            } else {
                let mut s = p[..at].to_vec();
                s.push(c);
                out.push(s);
            }
        }
    }
    let mut out = vec![];
    go(path, 0, r, &mut out);
    out
}

fn expect<T: Ix>(got: &[T], want: &[&Vec<u8>], from: &dyn Fn() -> String) -> Outcome {
    ensure!(got.len() == want.len(), "{}: {} nodes after sorting {}", T::NAME, got.len(), from());
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        if reads(g) != **w {
            return Err(format!("{}: sorting {} puts {} at position {k}, a depth-first walk has {} there", T::NAME, from(), show(&reads(g)), show(w)));
        }
    }
    Ok(())
}

/// Sort in every way the standard library offers, look things up
fn sorted<T: Ix>(dfs: &[&Vec<u8>], order: &[usize], absent: &[Vec<u8>], loc: &mut Loc) -> Outcome {
    let start: Vec<T> = order.iter().map(|k| built::<T>(dfs[*k])).collect::<Result<_, _>>()?;
    let from = || {
        if order.len() <= 8 {
            order.iter().map(|k| show(dfs[*k])).collect::<Vec<_>>().join(" ")
        } else {
            format!("{} nodes starting with {} {}", order.len(), show(dfs[order[0]]), show(dfs[order[1]]))
        }
    };
    let mut a = start.clone();
    a.sort();
    expect(&a, dfs, &from)?;
    let mut b = start.clone();
    b.sort_unstable();
    expect(&b, dfs, &from)?;
    let mut c = start.clone();
    c.sort_by(|x, y| y.cmp(x));
    c.reverse();
    expect(&c, dfs, &from)?;
    let set: BTreeSet<T> = start.iter().cloned().collect();
    expect(&set.iter().cloned().collect::<Vec<_>>(), dfs, &|| format!("a BTreeSet of {}", from()))?;
    for (k, x) in start.iter().zip(order).map(|(x, k)| (*k, x)) {
        ensure!(a.binary_search(x) == Ok(k), "{}: binary_search for {} in the sorted nodes gives {:?}, it is at {k}", T::NAME, show(dfs[k]), a.binary_search(x));
        ensure!(set.contains(x), "{}: {} is not found in the BTreeSet it was put into", T::NAME, show(dfs[k]));
    }
    for v in absent {
        let x = built::<T>(v)?;
        ensure!(a.binary_search(&x).is_err() && !set.contains(&x), "{}: {} was not put in, but is found", T::NAME, show(v));
    }
    ensure!(a.iter().max() == a.last() && a.iter().min() == a.first(), "{}: max/min of {}", T::NAME, from());
    loc.transitions += 4 * order.len() as u64;
    loc.traces += 1;
    Ok(())
}

/// Orders to start from
fn orders(n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
    for stride in [2usize, 3, 5, 7, 11, 17, 31, 101] {
        if n > 1 {
            let mut k = stride;
            while gcd(k, n) != 1 {
                k += 1;
            }
            out.push((0..n).map(|i| (i * k + n / 3) % n).collect());
        }
    }
    out
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn sorts<T: VarIx>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let cap = max_explored::<T>();
    // whole trees
    let deepest = if r == 4 { ctx.pick(4, 6) } else { ctx.pick(3, 4) }.min(cap);
    ctx.unit(format!("{}/whole trees", T::NAME), deepest as u64 + 1, true, move |i, loc| {
        let t = tree(r, i as usize);
        let dfs: Vec<&Vec<u8>> = t.iter().collect();
        let absent: Vec<Vec<u8>> = if (i as usize) < cap { (0..r).map(|c| vec![c as u8; i as usize + 1]).collect() } else { vec![] };
        for mut o in orders(t.len()) {
            sorted::<T>(&dfs, &o, &absent, loc)?;
            // level by level
            o.sort_by_key(|k| (t[*k].len(), *k));
            sorted::<T>(&dfs, &o, &absent, loc)?;
        }
        loc.states += t.len() as u64;
        loc.sample(|| format!("{}: the whole tree of depth {i}, {} nodes", T::NAME, t.len()));
        Ok(())
    });
    // every arrangement of every small set
    let t = Arc::new(if r == 4 { tree(4, 2.min(cap)) } else { tree(8, 1) });
    let n = t.len() as u64;
    let size = ctx.pick(3, 4u32);
    ctx.unit(format!("{}/all arrangements of up to {size} nodes", T::NAME), n.pow(size - 1), true, move |i, loc| {
        let mut head = vec![];
        let mut k = i;
        for _ in 0..size - 1 {
            head.push((k % n) as usize);
            k /= n;
        }
        for last in 0..n as usize {
            let mut picked = head.clone();
            picked.push(last);
            let mut distinct = picked.clone();
            distinct.sort_unstable();
            distinct.dedup();
            if distinct.len() < picked.len() {
                continue;
            }
            let dfs: Vec<&Vec<u8>> = distinct.iter().map(|k| &t[*k]).collect();
            let order: Vec<usize> = picked.iter().map(|k| distinct.iter().position(|d| d == k).unwrap()).collect();
            sorted::<T>(&dfs, &order, &[], loc)?;
        }
        loc.states += 1;
        Ok(())
    });
    // deep nodes, their ancestors and the siblings of these
    ctx.unit(format!("{}/deep paths", T::NAME), cap as u64 + 1, false, move |i, loc| {
        for (a, c) in [(0, 0), (0, r - 1), (1, 0), (3, 1), (1, 2)] {
            let path: Vec<u8> = (0..i as usize).map(|l| ((a * l + c) % r) as u8).collect();
            let t = comb(r, &path);
            let dfs: Vec<&Vec<u8>> = t.iter().collect();
            for o in orders(t.len()).iter().take(5) {
                sorted::<T>(&dfs, o, &[], loc)?;
            }
            loc.states += t.len() as u64;
        }
        loc.sample(|| format!("{}: paths of depth {i} with all siblings", T::NAME));
        Ok(())
    });
}

/// The same below the root of very deep dynamic indices
fn deep<T: Ix>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let depths = deep_depths::<T>(ctx.thorough());
    if depths.is_empty() {
        return;
    }
    ctx.unit(format!("{}/very deep paths", T::NAME), depths.len() as u64, false, move |i, loc| {
        let d = depths[i as usize];
        for (a, c) in [(0, 0), (0, r - 1), (3, 1)] {
            let path: Vec<u8> = (0..d).map(|l| ((a * l + c) % r) as u8).collect();
            let levels = deep_levels(d);
            let t: Vec<Vec<u8>> = comb(r, &path).into_iter().filter(|v| v.len() == d || levels.contains(&v.len())).collect();
            let dfs: Vec<&Vec<u8>> = t.iter().collect();
            for o in orders(t.len()).iter().take(5) {
                sorted::<T>(&dfs, o, &[], loc)?;
            }
            loc.states += t.len() as u64;
        }
        Ok(())
    });
}

/// The cells of a fixed-depth grid in the order of the walk: all of them, or all below (and above) a few paths
fn leaves<T: Ix>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let cap = max_explored::<T>();
    if T::KIND != Kind::Fixed {
        return;
    }
    let w = ctx.pick(if r == 4 { 4 } else { 3 }, if r == 4 { 6 } else { 4 }).min(cap);
    ctx.unit(format!("{}/all windows of {w} levels", T::NAME), (cap - w + 1) as u64, cap == w, move |i, loc| {
        for (a, c) in [(0, 0), (0, r - 1), (3, 1)] {
            let t: Vec<Vec<u8>> = (0..r.pow(w as u32))
                .map(|k| {
                    let mut v: Vec<u8> = (0..cap).map(|l| ((a * l + c) % r) as u8).collect();
                    for j in 0..w {
                        v[i as usize + j] = ((k / r.pow((w - 1 - j) as u32)) % r) as u8;
                    }
                    v
                })
                .collect();
            let dfs: Vec<&Vec<u8>> = t.iter().collect();
            let ords = orders(t.len());
            let n = if t.len() > 1000 { 3 } else { ords.len() };
            for o in ords.iter().take(n) {
                sorted::<T>(&dfs, o, &[], loc)?;
            }
            loc.states += t.len() as u64;
        }
        loc.sample(|| format!("{}: {} sorted grids that differ in levels {i}..", T::NAME, r.pow(w as u32)));
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M29");
    each_var!(sorts(&mut ctx));
    each_ix!(leaves(&mut ctx));
    each_ix!(deep(&mut ctx));
    ctx.finish()
}
