//! M30: dynamic indices of any depth
use mcore::engine::*;
use mcore::ix::morton_index::MortonIndexNaming::*;
use mcore::ix::*;
use mcore::ops::Conv;
use mcore::*;

/// Depths around the places where a level, a bit or a byte count outgrows a small integer
fn depths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let near = |v: &mut Vec<usize>, c: usize, r: usize| v.extend(c.saturating_sub(r)..=c + r);
    // 2^8 bits, 2^8 levels, 2^8 bytes
    for c in [64, 85, 128, 256, 341, 512, 682, 1024] {
        near(&mut v, c, if thorough { 9 } else { 1 });
    }
    if !thorough {
        v.extend([21846, 32768, 65537]);
    } else {
        for c in [8192, 16384, 21845, 32768, 43690, 65536, 87381, 131072, 174762, 262144] {
            near(&mut v, c, 2);
        }
        v.extend(0..1100);
        v.extend([1 << 20, (1 << 20) + 1]);
    }
    v.extend([0, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007]);
    v.sort_unstable();
    v.dedup();
    v
}

/// Levels worth looking at
fn levels(d: usize, dim: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    if d <= 130 {
        return (0..d).collect();
    }
    v.extend(0..10);
    v.extend(d - 10..d);
    let mut p = 8usize;
    while p <= 8 * d {
        for c in [p, p / dim, p / 8, 8 * p / dim, d.saturating_sub(p), d.saturating_sub(p / dim)] {
            v.extend([c.wrapping_sub(2), c.wrapping_sub(1), c, c + 1]);
        }
        p *= 2;
    }
    v.retain(|x| *x < d);
    v.sort_unstable();
    v.dedup();
    v
}

fn pat(k: u64, d: usize, r: usize) -> Vec<u8> {
    match k {
        0 => vec![0; d],
        1 => vec![(r - 1) as u8; d],
        // not periodic in the byte layout
        2 => (0..d).map(|l| ((l * 7 + l / 8 + l / 251 + 1) % r) as u8).collect(),
        _ => (0..d).map(|l| if l == 0 || l + 1 == d { (r - 2) as u8 } else { 0 }).collect(),
    }
}

/// Equal in every respect to the index built from these cells
fn is<T: VarIx>(x: &T, want: &[u8], deep: bool) -> Outcome {
    if deep {
        same(x, want)?;
    }
    ensure!(x.depth() == want.len(), "{}: depth is {}, expected {}", T::NAME, x.depth(), want.len());
    let f = built::<T>(want)?;
    ensure!(*x == f && x.cmp(&f).is_eq() && hash_stream(x) == hash_stream(&f), "{}: depth {}: differs from the index built from the same cells", T::NAME, want.len());
    Ok(())
}

fn deep<T: Conv>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let ds = depths(ctx.thorough());
    for k in 0..4u64 {
        let ds = ds.clone();
        // deepest first: the expensive items start early
        let n = ds.len() as u64;
        ctx.unit(format!("{}/pattern {k}", T::NAME), n, false, move |i, loc| {
            let d = ds[ds.len() - 1 - i as usize];
            let v = pat(k, d, r);
            let at = |e: String| format!("depth {d}: {e}");
            let x = built::<T>(&v)?;
            same(&x, &v).map_err(at)?;
            let it = x.iterate(d + 3);
            ensure!(it == v, "{}: depth {d}: the iterator yields {} cells, first difference at level {:?}", T::NAME, it.len(), it.iter().zip(&v).position(|(a, b)| a != b));
            let (_, count, last, nth) = x.iter_methods(d / 2);
            ensure!(count == d && last == v.last().copied() && nth == v.get(d / 2).copied(), "{}: depth {d}: iterator count {count}, last {last:?}, middle {nth:?}", T::NAME);
            ensure!(x.to_string(CellConcatenation) == model::name_concat(&v), "{}: depth {d}: wrong name", T::NAME);
            ensure!(x.to_string(CellConcatenationWithRoot) == model::name_root(&v), "{}: depth {d}: wrong rooted name", T::NAME);
            let y = x.inverted();
            is(&y, &model::inverted(&v), true).map_err(|e| format!("inverted: {e}"))?;
            if k == 0 {
                is(&T::zeroed_(d).ok_or("zeroed refused")?, &v, true).map_err(|e| format!("zeroed: {e}"))?;
            }
            loc.transitions += 6;
            // every level written, in an order that is not sequential
            if d > 0 {
                let target = pat(2, d, r);
                let mut z = x.clone();
                let step = if d % 2 == 0 { d / 2 + 1 - (d / 2) % 2 } else { 2 };
                let step = if gcd(step, d) == 1 { step } else { 1 };
                for j in 0..d {
                    let l = (j * step) % d;
                    z.set_cell_at_level(l, <T::D as Dm>::mk(target[l]));
                }
                is(&z, &target, true).map_err(|e| format!("after writing all levels: {e}"))?;
                loc.transitions += d as u64;
            }
            for l in levels(d, T::DIM) {
                let c = (v[l] + 1 + (l % (r - 1)) as u8) % r as u8;
                let mut y = x.clone();
                y.set_cell_at_level(l, <T::D as Dm>::mk(c));
                let w = model::set(&v, l, c);
                ensure!(<T::D as Dm>::num(&y.get_cell_at_level(l)) == c, "{}: depth {d}: level {l} after writing {c}", T::NAME);
                is(&y, &w, d <= 1100).map_err(|e| format!("after writing {c} at level {l}: {e}"))?;
                // one differing cell, however deep, decides order and equality
                let o = model::cmp(&w, &v);
                ensure!(y.cmp(&x) == o && x.cmp(&y) == o.reverse() && y != x && y.partial_cmp(&x) == Some(o), "{}: depth {d}: comparison with the index that differs at level {l}", T::NAME);
                // the tree around that level
                let a = x.with_depth(l).ok_or_else(|| format!("with_depth({l}) of depth {d} refused"))?;
                is(&a, &v[..l], d <= 1100).map_err(|e| format!("ancestor at depth {l} of depth {d}: {e}"))?;
                let b = x.ancestor(nz(d - l)).ok_or_else(|| format!("ancestor({}) of depth {d} refused", d - l))?;
                ensure!(a == b, "{}: depth {d}: with_depth({l}) and ancestor({}) differ", T::NAME, d - l);
                ensure!(a < x && x > a && a < y, "{}: depth {d}: the ancestor at depth {l} is not before its descendant", T::NAME);
                let e = a.descendant(&cells::<T>(&v[l..])).ok_or("descendant refused")?;
                is(&e, &v, d <= 1100).map_err(|e| format!("ancestor at depth {l} extended to depth {d} again: {e}"))?;
                let ch = a.child(<T::D as Dm>::mk(c)).ok_or("child refused")?;
                is(&ch, &w[..l + 1], false).map_err(|e| format!("child {c} at depth {}: {e}", l + 1))?;
                loc.transitions += 5;
            }
            for m in [1usize, 2, 3, 5, 8, 9, 300] {
                let more: Vec<u8> = (0..m).map(|j| ((j * 3 + 1) % r) as u8).collect();
                let y = x.descendant(&cells::<T>(&more)).ok_or("descendant refused")?;
                let w = model::descendant(&v, &more, None).unwrap();
                is(&y, &w, true).map_err(|e| format!("descendant by {m} cells of depth {d}: {e}"))?;
                ensure!(y > x, "{}: depth {d}: descendant is not after its ancestor", T::NAME);
                is(&y.ancestor(nz(m)).ok_or("ancestor refused")?, &v, false)?;
                loc.transitions += 2;
            }
            ensure!(x.ancestor(nz(d + 1)).is_none() && x.with_depth(d + 1).is_none(), "{}: depth {d}: an ancestor above the root", T::NAME);
            for l in [d, d + 1, d + 256, d + 65536] {
                must_panic(&format!("{}: reading level {l} of depth {d}", T::NAME), || x.get_cell_at_level(l))?;
            }
            // too deep for every fixed-capacity type
            for j in 0..T::CONVS {
                match (x.conv(j), T::conv_model(j, &v)) {
                    (Ok(y), Ok(w)) => is(&y, &w, true).map_err(|e| format!("conversion {j}: {e}"))?,
                    (Err(e), Err(cap)) => ensure!(limit_of(&e) == Some(cap), "{}: depth {d}: conversion {j} fails with {e}, expected capacity {cap}", T::NAME),
                    (g, w) => return Err(format!("{}: depth {d}: conversion to {} and back {}, expected {}", T::NAME, T::conv_name(j), g.is_ok(), w.is_ok())),
                }
                loc.transitions += 1;
            }
            same(&x, &v).map_err(|e| format!("afterwards: {e}"))?;
            loc.states += 1;
            loc.traces += 1;
            loc.sample(|| format!("{}: depth {d}, pattern {k}", T::NAME));
            Ok(())
        });
    }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Growing one child at a time, and shrinking again one parent at a time
fn grow<T: VarIx>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let max = ctx.pick(1100, 9000usize);
    ctx.unit(format!("{}/step by step", T::NAME), 3, false, move |k, loc| {
        let v = pat(k + 1, max, r);
        let mut x = T::default();
        for d in 0..max {
            let y = x.child(<T::D as Dm>::mk(v[d])).ok_or("child refused")?;
            ensure!(y.depth() == d + 1, "{}: child of depth {d} has depth {}", T::NAME, y.depth());
            ensure!(<T::D as Dm>::num(&y.get_cell_at_level(d)) == v[d], "{}: last cell at depth {}", T::NAME, d + 1);
            ensure!(y.parent().as_ref() == Some(&x), "{}: parent of child at depth {}", T::NAME, d + 1);
            if d % 64 < 3 {
                is(&y, &v[..d + 1], true)?;
            }
            ensure!(x < y, "{}: order at depth {d}", T::NAME);
            x = y;
            loc.transitions += 2;
        }
        is(&x, &v, true)?;
        while let Some(p) = x.parent() {
            let d = p.depth();
            ensure!(d + 1 == x.depth(), "{}: parent of depth {} has depth {d}", T::NAME, x.depth());
            if d % 64 < 2 {
                is(&p, &v[..d], true)?;
            }
            x = p;
            loc.transitions += 1;
        }
        is(&x, &[], true)?;
        loc.states += 2 * max as u64;
        loc.traces += 1;
        Ok(())
    });
}

/// Indices with more levels than 32 bits can count. Nothing here looks at all of the levels: most of the
/// bytes are never written, so that they take up no memory.
#[cfg(target_pointer_width = "64")]
fn gigantic<T: Conv>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let full = u32::MAX as usize + 1;
    let ds = [full / 3 + 2, full / 2 + 5, full + 5, full + 9];
    ctx.unit(format!("{}/gigantic", T::NAME), 1, false, move |_, loc| {
        let small = T::zeroed_(1 << 24).ok_or("zeroed refused")?;
        let t = std::time::Instant::now();
        let _ = (small.ancestor(nz(1)), small.child(<T::D as Dm>::mk(1)));
        let bytewise = t.elapsed().as_millis() <= 40;
        drop(small);
        for d in ds {
            let at = |l: usize| format!("{}: level {l} of depth {d}", T::NAME);
            let mut x = T::zeroed_(d).ok_or("zeroed refused")?;
            ensure!(x.depth() == d, "{}: zeroed({d}) has depth {}", T::NAME, x.depth());
            // around the places where a level, a bit or a byte count outgrows 31 or 32 bits, from either end
            let mut ls: Vec<usize> = vec![];
            for c in [0, full / 2, full, full / 4, full / 2 / T::DIM, full / T::DIM, full / 8] {
                for l in c.saturating_sub(4)..c + 5 {
                    ls.extend([l, d.wrapping_sub(1).wrapping_sub(l)]);
                }
            }
            ls.extend(0..40);
            ls.retain(|l| *l < d);
            ls.sort_unstable();
            ls.dedup();
            for l in &ls {
                ensure!(<T::D as Dm>::num(&x.get_cell_at_level(*l)) == 0, "{}: not zero after zeroed", at(*l));
            }
            let val = |l: usize| ((l % 7 + l / 7 + l / 65537 + 1) % r) as u8;
            let cell_of = |l: usize| if ls.binary_search(&l).is_ok() { val(l) } else { 0 };
            let n = ls.len();
            // not in sequence; 11 is prime to every length it is used with or the order is a plain one
            let step = if gcd(11, n) == 1 { 11 } else { 1 };
            for j in 0..n {
                let l = ls[j * step % n];
                x.set_cell_at_level(l, <T::D as Dm>::mk(val(l)));
            }
            let seen = |x: &T, depth: usize, what: &str| -> Outcome {
                ensure!(x.depth() == depth, "{}: {what}: depth {}, expected {depth}", T::NAME, x.depth());
                for l in &ls {
                    for l in [l.wrapping_sub(1), *l, l + 1] {
                        if l < depth.min(d) {
                            let c = <T::D as Dm>::num(&x.get_cell_at_level(l));
                            ensure!(c == cell_of(l), "{}: {what}: cell {c}, expected {}", at(l), cell_of(l));
                        }
                    }
                }
                Ok(())
            };
            seen(&x, d, "after writing")?;
            let head = x.iterate(45);
            ensure!(head == (0..45).map(cell_of).collect::<Vec<_>>(), "{}: depth {d}: the first cells are {head:?}", T::NAME);
            loc.transitions += 4 * n as u64;
            // ancestors far above
            for k in [0, 1, 2, 3, 5, 8, 17, 43, 1000] {
                let want: Vec<u8> = (0..k).map(cell_of).collect();
                let a = x.with_depth(k).ok_or_else(|| format!("with_depth({k}) of depth {d} refused"))?;
                is(&a, &want, k < 100).map_err(|e| format!("with_depth({k}) of depth {d}: {e}"))?;
                let b = x.ancestor(nz(d - k)).ok_or_else(|| format!("ancestor({}) of depth {d} refused", d - k))?;
                ensure!(a == b, "{}: depth {d}: with_depth({k}) and ancestor({}) differ", T::NAME, d - k);
                ensure!(a < x && x > a, "{}: depth {d}: the ancestor at depth {k} is not before its descendant", T::NAME);
                loc.transitions += 3;
            }
            // Nothing says that these may not look at every cell. If they do, it would take minutes here.
            if bytewise {
                for g in [1, 3, 8, d - full / 4] {
                    let a = x.ancestor(nz(g)).ok_or_else(|| format!("ancestor({g}) of depth {d} refused"))?;
                    seen(&a, d - g, &format!("ancestor({g})"))?;
                    loc.transitions += 1;
                }
                let c = 1 + (d % (r - 1)) as u8;
                for (y, more) in [
                    (x.child(<T::D as Dm>::mk(c)).ok_or("child refused")?, 1),
                    (x.descendant(&cells::<T>(&[c; 9])).ok_or("descendant refused")?, 9),
                ] {
                    seen(&y, d + more, "below")?;
                    for l in d..d + more {
                        ensure!(<T::D as Dm>::num(&y.get_cell_at_level(l)) == c, "{}: {more} levels below depth {d}: level {l} is not {c}", T::NAME);
                    }
                    loc.transitions += 1;
                }
            }
            // one differing cell near the root decides the order
            let mut y = x.clone();
            let v = val(17);
            y.set_cell_at_level(17, <T::D as Dm>::mk((v + 1) % r as u8));
            let o = ((v + 1) % r as u8).cmp(&v);
            ensure!(y.cmp(&x) == o && x.cmp(&y) == o.reverse() && y != x, "{}: depth {d}: comparison with the index that differs at level 17", T::NAME);
            drop(y);
            ensure!(x.ancestor(nz(d + 1)).is_none() && x.with_depth(d + 1).is_none() && x.ancestor(nz(d + full)).is_none() && x.with_depth(d + full).is_none(), "{}: depth {d}: an ancestor above the root", T::NAME);
            let mut y = T::zeroed_(d).ok_or("zeroed refused")?;
            for l in [d, d + 1, d + 256, d + full / 2, d + full] {
                must_panic(&format!("{}: reading level {l} of depth {d}", T::NAME), || x.get_cell_at_level(l))?;
                must_panic(&format!("{}: writing level {l} of depth {d}", T::NAME), || y.set_cell_at_level(l, <T::D as Dm>::mk(1)))?;
                loc.transitions += 2;
            }
            seen(&x, d, "afterwards")?;
            loc.states += n as u64;
            loc.traces += 1;
            loc.sample(|| format!("{}: depth {d}, {n} levels{}", T::NAME, if bytewise { "" } else { ", without nodes of that depth made from it" }));
        }
        Ok(())
    });
}
#[cfg(not(target_pointer_width = "64"))]
fn gigantic<T: Conv>(_: &mut Ctx) {}

fn main() {
    let mut ctx = Ctx::from_args("M30");
    gigantic::<D2D>(&mut ctx);
    gigantic::<D3D>(&mut ctx);
    deep::<D2D>(&mut ctx);
    deep::<D3D>(&mut ctx);
    grow::<D2D>(&mut ctx);
    grow::<D3D>(&mut ctx);
    ctx.finish()
}
