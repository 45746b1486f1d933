//! M05: equal means same cells, whatever the history; hashes agree
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::ops::*;
use mcore::*;
use std::cmp::Ordering;

fn equal<T: Ix>(how: &dyn Fn() -> String, a: &T, b: &T) -> Outcome {
    let v = || show(&reads(b));
    ensure!(a == b, "{}: {} (result of {}) is not == the index built from the same cells", T::NAME, v(), how());
    ensure!(b == a, "{}: {} built from cells is not == the result of {}", T::NAME, v(), how());
    ensure!(!(a != b), "{}: {} (result of {}) is != itself", T::NAME, v(), how());
    ensure!(a.cmp(b) == Ordering::Equal && b.cmp(a) == Ordering::Equal, "{}: {} (result of {}) compares as {:?} to the index built from the same cells", T::NAME, v(), how(), a.cmp(b));
    ensure!(hash(a) == hash(b), "{}: {} (result of {}) and the equal index built from cells have different hashes", T::NAME, v(), how());
    ensure!(hash_stream(a) == hash_stream(b), "{}: {} (result of {}) and the equal index built from cells feed a hasher differently", T::NAME, v(), how());
    Ok(())
}

/// Every single operation from every node ends in something equal to the freshly built result
fn one_step<T: Conv>(ctx: &mut Ctx) {
    let wide = T::BITS != 8 && T::BITS != 16;
    for (d, f) in fams::<T>(if wide { ctx.pick(Density::Light, Density::Medium) } else { Density::Medium }, ctx.pick(1 << 10, 1 << 15)) {
        let (n, full) = (f.len(), f.is_full());
        let span = if full || ctx.thorough() { usize::MAX } else { 3 };
        ctx.unit(format!("{}/one step/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            loc.states += 1;
            for op in ops_of::<T>(&v, span) {
                if let Some(w) = step::<T>(&v, &op) {
                    let y = apply(&x, &op).ok_or_else(|| format!("{}: {op} on {} was refused", T::NAME, show(&v)))?;
                    equal(&|| format!("{op} on {}", show(&v)), &y, &built::<T>(&w)?)?;
                    loc.transitions += 1;
                }
            }
            loc.sample(|| format!("{}: every operation on {} compared with a fresh build", T::NAME, show(&v)));
            Ok(())
        });
    }
}

/// All pairs of different ways to reach each node: histories of up to three operations from several starts, grouped by result
fn histories<T: Conv + Arr>(ctx: &mut Ctx) {
    let max = max_explored::<T>();
    let r = radix::<T>();
    let thorough = ctx.thorough();
    let depths: Vec<usize> = (0..=max).chain(deep_depths::<T>(ctx.thorough())).collect();
    let n = depths.len() as u64;
    ctx.unit(format!("{}/ways to reach a node", T::NAME), n, false, move |i, loc| {
        let d = depths[i as usize];
        let targets: Vec<Vec<u8>> = [(0, 0), (0, r - 1), (3, 1), (1, 0)].iter().map(|(a, b)| (0..d).map(|l| ((a * l + b) % r) as u8).collect()).collect();
        for w in targets {
            let fresh = built::<T>(&w)?;
            loc.states += 1;
            let mut made: Vec<(String, T)> = vec![];
            // write every level over every background, in both directions
            for bg in [0u8, (r - 1) as u8] {
                for rev in [false, true] {
                    let mut x = built::<T>(&vec![bg; d])?;
                    for k in 0..d {
                        let l = if rev { d - 1 - k } else { k };
                        x.set_cell_at_level(l, <T::D as Dm>::mk(w[l]));
                    }
                    made.push((format!("writing all levels over cells {bg} (reverse: {rev})"), x));
                }
            }
            // zeroed and default
            if let Some(mut x) = T::zeroed_(d) {
                for l in 0..d {
                    x.set_cell_at_level(l, <T::D as Dm>::mk(w[l]));
                }
                made.push(("writing all levels of a zeroed index".into(), x));
            }
            if w.iter().all(|c| *c == 0) {
                if let Some(x) = T::zeroed_(d) {
                    made.push(("zeroed".into(), x));
                }
            }
            let mut x = T::default();
            for c in &w {
                x = x.child(<T::D as Dm>::mk(*c)).ok_or("child refused")?;
            }
            made.push(("children from the default root".into(), x));
            made.push(("descendant of the default root".into(), T::default().descendant(&cells::<T>(&w)).ok_or("descendant refused")?));
            // from every shallower zeroed index: all levels written, then descend
            for k in (0..=d).filter(|k| d <= max || k % 37 == 0 || k + 2 > d || [127, 128, 255, 256].contains(k)) {
                if let Some(mut x) = T::zeroed_(k) {
                    for l in 0..k {
                        x.set_cell_at_level(l, <T::D as Dm>::mk(w[l]));
                    }
                    made.push((format!("zeroed({k}), written, then descendant"), x.descendant(&cells::<T>(&w[k..])).ok_or("descendant refused")?));
                }
            }
            // from every deeper index: back up
            for k in 1..=T::CAP.map_or(20, |c| c - d).min(if thorough { 64 } else { 20 }) {
                for c in [0u8, (r - 1) as u8, 1] {
                    let mut v = w.clone();
                    v.resize(d + k, c);
                    let y = built::<T>(&v)?;
                    made.push((format!("ancestor({k}) of the node {k} levels deeper through cells {c}"), y.ancestor(nz(k)).ok_or("ancestor refused")?));
                    made.push((format!("with_depth({d}) of the node {k} levels deeper through cells {c}"), y.with_depth(d).ok_or("with_depth refused")?));
                    if let Some(mut z) = T::zeroed_(d + k) {
                        for l in 0..d {
                            z.set_cell_at_level(l, <T::D as Dm>::mk(w[l]));
                        }
                        made.push((format!("zeroed({}), written, then ancestor({k})", d + k), z.ancestor(nz(k)).ok_or("ancestor refused")?));
                    }
                }
            }
            if let Some(x) = T::array(&w) {
                made.push(("building from an array".into(), x.map_err(|e| e.to_string())?));
            }
            // from deeper indices that were themselves built from arrays
            for k in 1..=9 {
                let mut v = w.clone();
                v.resize(d + k, 1);
                if let Some(Ok(x)) = T::array(&v) {
                    made.push((format!("ancestor({k}) of an index built from an array"), x.ancestor(nz(k)).ok_or("ancestor refused")?));
                }
            }
            let inv = built::<T>(&model::inverted(&w))?;
            made.push(("inverted".into(), inv.inverted()));
            made.push(("inverted twice".into(), fresh.inverted().inverted()));
            made.push(("clone".into(), fresh.clone()));
            for k in 0..T::CONVS {
                if T::conv_model(k, &w).ok().as_ref() == Some(&w) {
                    made.push((format!("conversion to {} and back", T::conv_name(k)), fresh.conv(k).map_err(|e| e.to_string())?));
                }
            }
            if d <= grid_limit::<T>() {
                for o in 0..model::orderings(T::DIM) {
                    let g = model::grid(T::DIM, o, &w).map(|c| c as usize);
                    made.push((format!("grid coordinates {g:?} ordering {o}"), T::from_grid(g, d, o).map_err(|e| e.to_string())?));
                }
            }
            for (how, x) in &made {
                equal(&|| how.clone(), x, &fresh)?;
            }
            // and with each other
            for (ha, a) in &made {
                for (hb, b) in &made {
                    ensure!(a == b && hash(a) == hash(b), "{}: {} made by {ha} differs from {} made by {hb}", T::NAME, show(&reads(a)), show(&reads(b)));
                    loc.evals += 1;
                }
            }
            loc.traces += made.len() as u64;
            loc.transitions += (made.len() * made.len()) as u64;
            loc.sample(|| format!("{}: {} reached in {} ways", T::NAME, show(&w), made.len()));
        }
        Ok(())
    });
}

/// Different nodes are never equal: pairs that differ in a single level, or by zero cells at the end
fn unequal<T: Ix>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let wide = max_explored::<T>() > 32;
    for (d, f) in fams::<T>(if wide { Density::Light } else { ctx.pick(Density::Light, Density::Medium) }, ctx.pick(1 << 8, 1 << 14)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/unequal/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            loc.states += 1;
            let differ = |y: &T, w: &[u8]| -> Outcome {
                ensure!(x != *y && !(x == *y) && *y != x, "{}: {} and {} are equal", T::NAME, show(&v), show(w));
                ensure!(x.cmp(y) != Ordering::Equal && y.cmp(&x) != Ordering::Equal, "{}: {} and {} compare as Equal", T::NAME, show(&v), show(w));
                Ok(())
            };
            for l in 0..d {
                for c in 0..r as u8 {
                    if c != v[l] {
                        let w = model::set(&v, l, c);
                        differ(&built::<T>(&w)?, &w)?;
                        loc.transitions += 1;
                    }
                }
            }
            if T::KIND != Kind::Fixed {
                for k in d + 1..=T::CAP.unwrap_or(d + 20) {
                    for c in [0u8, (r - 1) as u8] {
                        let mut w = v.clone();
                        w.resize(k, c);
                        differ(&built::<T>(&w)?, &w)?;
                        loc.transitions += 1;
                    }
                }
            }
            loc.traces += 1;
            Ok(())
        });
    }
}

/// All pairs of nodes of the smallest types and of the upper part of the trees
fn all_pairs<T: Ix>(ctx: &mut Ctx) {
    let depth = match (T::KIND, T::DIM) {
        (Kind::Fixed, _) if T::BITS > 8 => return,
        (_, 2) => ctx.pick(4, 6).min(max_explored::<T>()),
        _ => ctx.pick(3, 4).min(max_explored::<T>()),
    };
    let r = radix::<T>() as u64;
    let mut nodes = vec![];
    for d in (if T::KIND == Kind::Fixed { depth } else { 0 })..=depth {
        for k in 0..r.pow(d as u32) {
            nodes.push((0..d).map(|l| ((k / r.pow((d - 1 - l) as u32)) % r) as u8).collect::<Vec<u8>>());
        }
    }
    let n = nodes.len() as u64;
    let objs: Vec<Result<T, String>> = nodes.iter().map(|v| observe(|| built::<T>(v)).and_then(|x| x)).collect();
    ctx.unit(format!("{}/all pairs", T::NAME), n, Some(depth) == T::CAP, move |i, loc| {
        let a = objs[i as usize].as_ref().map_err(|e| e.clone())?;
        for (j, b) in objs.iter().enumerate() {
            let b = b.as_ref().map_err(|e| e.clone())?;
            let eq = i as usize == j;
            ensure!((a == b) == eq && (a != b) != eq, "{}: == of {} and {} is {}", T::NAME, show(&nodes[i as usize]), show(&nodes[j]), a == b);
            ensure!((a.cmp(b) == Ordering::Equal) == eq, "{}: cmp of {} and {} is {:?}", T::NAME, show(&nodes[i as usize]), show(&nodes[j]), a.cmp(b));
            loc.evals += 1;
        }
        loc.states += 1;
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M05");
    each_var!(one_step(&mut ctx));
    each_var!(histories(&mut ctx));
    each_ix!(unequal(&mut ctx));
    each_ix!(all_pairs(&mut ctx));
    ctx.finish()
}
