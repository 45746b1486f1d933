//! M15: displayed slices
use mcore::engine::*;
use mcore::fam::{Density, Fam};
use mcore::ix::*;
use mcore::*;
use morton_index::helper::make_displayable;
use morton_index::MortonIndexNaming;
use std::sync::Arc;

const NAMINGS: [MortonIndexNaming; 3] = [MortonIndexNaming::CellConcatenation, MortonIndexNaming::CellConcatenationWithRoot, MortonIndexNaming::GridIndex];

fn name(dim: usize, k: usize, v: &[u8]) -> String {
    match k {
        0 => model::name_concat(v),
        1 => model::name_root(v),
        _ => model::name_grid(dim, v),
    }
}

fn want(dim: usize, k: usize, vs: &[&Vec<u8>]) -> String {
    let mut s = String::from("[");
    for (i, v) in vs.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&name(dim, k, v));
    }
    s.push(']');
    s
}

fn one<T: Ix>(vs: &[&Vec<u8>], loc: &mut Loc) -> Outcome {
    let xs: Vec<T> = vs.iter().map(|v| built::<T>(v)).collect::<Result<_, _>>()?;
    for (k, naming) in NAMINGS.iter().enumerate() {
        if k == 2 && vs.iter().any(|v| v.len() > UBITS) {
            continue; // these have no grid coordinates
        }
        let w = want(T::DIM, k, vs);
        let d = make_displayable(&xs, *naming);
        let shows = [format!("{d}"), format!("{d:?}"), d.to_string()];
        for (how, got) in ["Display", "Debug", "to_string"].iter().zip(shows) {
            ensure!(got == w, "{}: {how} of a slice of {} indices with naming {naming:?} is {}, expected {}", T::NAME, vs.len(), short(&got), short(&w));
            loc.transitions += 1;
        }
        // naming each index alone gives the same pieces
        ensure!(w.matches(", ").count() == vs.len().saturating_sub(1), "model");
        for (x, v) in xs.iter().zip(vs) {
            ensure!(x.to_string(*naming) == name(T::DIM, k, v), "{}: name of {}", T::NAME, show(v));
        }
    }
    loc.states += 1;
    Ok(())
}

fn short(s: &str) -> String {
    if s.len() > 300 {
        format!("{:?}... ({} characters)", &s[..300], s.len())
    } else {
        format!("{s:?}")
    }
}

fn pool<T: Ix>() -> Vec<Vec<u8>> {
    let r = radix::<T>();
    let max = max_explored::<T>().min(UBITS);
    let ds: Vec<usize> = if T::KIND == Kind::Fixed { vec![max] } else { vec![0, 1, 2.min(max), max] };
    let mut out: Vec<Vec<u8>> = vec![];
    for d in ds {
        for c in 0..2 {
            out.push((0..d).map(|l| ((3 * l + c * (r - 1)) % r) as u8).collect());
        }
    }
    out.dedup();
    out
}

fn slices<T: Ix>(ctx: &mut Ctx) {
    let pool = Arc::new(pool::<T>());
    let k = pool.len() as u64;
    let max = ctx.pick(4, 6);
    // all slices over the pool up to this length, and their mutual comparisons
    let mut total = 0;
    for len in 0..=max {
        total += k.pow(len);
    }
    let p = pool.clone();
    ctx.unit(format!("{}/all slices to length {max}", T::NAME), total, true, move |i, loc| {
        let mut i = i;
        let mut len = 0;
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        let mut vs: Vec<&Vec<u8>> = vec![];
        for _ in 0..len {
            vs.push(&p[(i % k) as usize]);
            i /= k;
        }
        one::<T>(&vs, loc)?;
        loc.sample(|| want(T::DIM, 1, &vs));
        Ok(())
    });
    // longer slices
    let lens: Vec<usize> = (0..=ctx.pick(70, 300)).chain([255, 256, 257, 1000, 4096]).collect();
    let n = lens.len() as u64;
    let p = pool.clone();
    ctx.unit(format!("{}/long slices", T::NAME), n, false, move |i, loc| {
        let vs: Vec<&Vec<u8>> = (0..lens[i as usize]).map(|j| &p[(j * 7 + j / 3) % p.len()]).collect();
        one::<T>(&vs, loc)
    });
    // comparisons
    let p = pool;
    let cmax = ctx.pick(2, 3);
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..cmax {
        let mut next = vec![];
        for s in &last {
            for j in 0..k as usize {
                let mut t = s.clone();
                t.push(j);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    let n = all.len() as u64;
    ctx.unit(format!("{}/comparisons to length {cmax}", T::NAME), n, true, move |i, loc| {
        let mk = |s: &Vec<usize>| -> Result<Vec<T>, String> { s.iter().map(|j| built::<T>(&p[*j])).collect() };
        let a = mk(&all[i as usize])?;
        for t in &all {
            let b = mk(t)?;
            let w = a.iter().map(|x| norm::<T>(&reads(x))).collect::<Vec<_>>();
            let z = b.iter().map(|x| norm::<T>(&reads(x))).collect::<Vec<_>>();
            let want = w.cmp(&z);
            // the naming has no influence on comparisons
            let (da, db) = (make_displayable(&a, NAMINGS[(i % 3) as usize]), make_displayable(&b, NAMINGS[((i / 3) % 3) as usize]));
            let got = da.cmp(&db);
            ensure!(got == want, "{}: displayable slices {da} and {db} compare as {got:?}, the slices as {want:?}", T::NAME);
            ensure!(da.partial_cmp(&db) == Some(want), "{}: partial_cmp of {da} and {db} is {:?}", T::NAME, da.partial_cmp(&db));
            ensure!((da == db) == want.is_eq() && (da != db) == want.is_ne(), "{}: {da} == {db} is {}", T::NAME, da == db);
            ensure!((da < db) == want.is_lt() && (da > db) == want.is_gt() && (da <= db) == want.is_le() && (da >= db) == want.is_ge(), "{}: operators on {da} and {db}", T::NAME);
            loc.transitions += 4;
        }
        loc.states += 1;
        Ok(())
    });
    // very deep nodes, next to shallow ones
    let depths = deep_depths::<T>(ctx.thorough());
    ctx.unit(format!("{}/very deep", T::NAME), depths.len() as u64, false, move |i, loc| {
        let r = radix::<T>();
        let mk = |d: usize| -> Vec<u8> { (0..d).map(|l| ((3 * l + l / 8 + 1) % r) as u8).collect() };
        let (a, b, c) = (mk(depths[i as usize]), mk(3), mk(0));
        one::<T>(&[&a], loc)?;
        one::<T>(&[&a, &b], loc)?;
        one::<T>(&[&c, &a, &a, &b], loc)
    });
    // every single node
    let f = Arc::new(Fam::structured_only(radix::<T>(), max_explored::<T>(), Density::Light));
    let n = f.len();
    ctx.unit(format!("{}/single", T::NAME), n, false, move |i, loc| {
        let mut v = vec![];
        f.get(i, &mut v);
        let v = &v;
        if T::KIND == Kind::Dynamic && v.len() > UBITS {
            let v = &v[..UBITS].to_vec();
            return one::<T>(&[v, v], loc);
        }
        one::<T>(&[v], loc)
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M15");
    each_ix!(slices(&mut ctx));
    ctx.finish()
}
