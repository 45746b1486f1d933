//! M34: operations commute with conversion between storage kinds
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::morton_index::MortonIndex;
use mcore::ix::*;
use mcore::ops::*;
use mcore::*;

/// Do on the static index and on the converted dynamic one; convert the results
fn commute<W: Width>(ctx: &mut Ctx)
where
    W::Static: Conv,
    W::Dyn: Conv,
{
    let small = <W::Static as Ix>::BITS <= 16;
    let dens = if small { Density::Medium } else { ctx.pick(Density::Light, Density::Medium) };
    for (d, f) in fams::<W::Static>(dens, ctx.pick(1 << 10, 1 << 15)) {
        let (n, full) = (f.len(), f.is_full());
        let span = if full || ctx.thorough() { usize::MAX } else { 3 };
        ctx.unit(format!("{}/static and dynamic/d{d}", W::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let s = built::<W::Static>(&v)?;
            let y = W::s2d(s.clone());
            for op in ops_of::<W::Static>(&v, span) {
                // their own conversions are numbered differently
                if matches!(op, Op::Conv(_)) {
                    continue;
                }
                if matches!(op, Op::Grid(_)) && d > grid_limit::<W::Dyn>() {
                    continue;
                }
                let a = apply(&s, &op);
                let b = apply(&y, &op);
                loc.transitions += 1;
                match (a, b) {
                    (Some(a), Some(b)) => {
                        ensure!(W::s2d(a.clone()) == b, "{}: {op} on {} and conversion to dynamic do not commute: {} and {}", W::NAME, show(&v), show(&reads(&a)), show(&reads(&b)));
                        let back = W::d2s(b).map_err(|e| format!("{}: {op} on {}: the result does not convert back: {e}", W::NAME, show(&v)))?;
                        ensure!(back == a && hash_stream(&back) == hash_stream(&a), "{}: {op} on {} and conversion to static do not commute", W::NAME, show(&v));
                    }
                    (None, None) => {}
                    (None, Some(b)) => {
                        // only the capacity of the static type may make a difference
                        let cap = <W::Static as Ix>::CAP.unwrap();
                        ensure!(b.depth() > cap, "{}: {op} on {} is refused by the static index only", W::NAME, show(&v));
                        match W::d2s(b) {
                            Ok(_) => return Err(format!("{}: {op} on {}: beyond the capacity, but converts", W::NAME, show(&v))),
                            Err(e) => ensure!(limit_of(&e) == Some(cap), "{}: {op} on {}: {e:?}", W::NAME, show(&v)),
                        }
                    }
                    (Some(_), None) => return Err(format!("{}: {op} on {} is refused by the dynamic index only", W::NAME, show(&v))),
                }
            }
            loc.states += 1;
            loc.sample(|| format!("{}: every operation on {} before and after conversion", W::NAME, show(&v)));
            Ok(())
        });
    }
}

/// Order, names and grid coordinates before and after conversion
fn observations<W: Width>(ctx: &mut Ctx) {
    let cap = <W::Static as Ix>::CAP.unwrap();
    let r = radix::<W::Static>();
    let mut vs: Vec<Vec<u8>> = vec![];
    let per = ctx.pick(12, 60);
    for (_, f) in fams::<W::Static>(Density::Light, 1 << 6) {
        let mut v = vec![];
        let step = (f.len() / per).max(1);
        for i in (0..f.len()).step_by(step as usize) {
            f.get(i, &mut v);
            vs.push(v.clone());
        }
    }
    // close relatives, on both sides of the byte boundaries
    for d in 1..=cap {
        for c in 0..r as u8 {
            let mut v = vec![0; d];
            v[d - 1] = c;
            vs.push(v);
        }
    }
    vs.sort();
    vs.dedup();
    let n = vs.len() as u64;
    ctx.unit(format!("{}/observations", W::NAME), n, false, move |i, loc| {
        let v = &vs[i as usize];
        let s = built::<W::Static>(v)?;
        let y = W::s2d(s.clone());
        let f = W::s2f(s.clone());
        let fv = W::f2d(f.clone());
        let fs = W::f2s(f.clone());
        for naming in [mcore::ix::morton_index::MortonIndexNaming::CellConcatenation, mcore::ix::morton_index::MortonIndexNaming::CellConcatenationWithRoot, mcore::ix::morton_index::MortonIndexNaming::GridIndex] {
            if v.len() <= UBITS {
                ensure!(s.to_string(naming) == y.to_string(naming), "{}: {} is named {} as static and {} as dynamic index", W::NAME, show(v), s.to_string(naming), y.to_string(naming));
            }
            if cap <= UBITS {
                let names = [f.to_string(naming), fv.to_string(naming), fs.to_string(naming)];
                ensure!(names[0] == names[1] && names[0] == names[2], "{}: {} at full depth has the names {names:?} as fixed, dynamic and static index", W::NAME, show(v));
            }
        }
        if cap <= UBITS {
            for o in 0..model::orderings(<W::Static as Ix>::DIM) {
                ensure!(s.to_grid(o) == y.to_grid(o), "{}: {} lies at {:?} as static and {:?} as dynamic index", W::NAME, show(v), s.to_grid(o), y.to_grid(o));
                ensure!(f.to_grid(o) == fv.to_grid(o) && f.to_grid(o) == fs.to_grid(o), "{}: {} at full depth lies at {:?}, {:?}, {:?} as fixed, dynamic, static index", W::NAME, show(v), f.to_grid(o), fv.to_grid(o), fs.to_grid(o));
            }
        }
        ensure!(W::d2f(fv.clone()).ok().as_ref() == Some(&f) && W::s2f(fs.clone()) == f, "{}: {} at full depth does not convert back", W::NAME, show(v));
        loc.states += 1;
        for w in &vs {
            let t = built::<W::Static>(w)?;
            let z = W::s2d(t.clone());
            ensure!(s.cmp(&t) == y.cmp(&z) && (s == t) == (y == z) && (s < t) == (y < z), "{}: {} and {} compare as {:?} as static and {:?} as dynamic indices", W::NAME, show(v), show(w), s.cmp(&t), y.cmp(&z));
            let g = W::s2f(t);
            let (gd, gs) = (W::f2d(g.clone()), W::f2s(g.clone()));
            ensure!(f.cmp(&g) == fv.cmp(&gd) && f.cmp(&g) == fs.cmp(&gs) && (f == g) == (fv == gd) && (f == g) == (fs == gs),
                "{}: {} and {} at full depth compare as {:?}, {:?}, {:?} as fixed, dynamic, static indices", W::NAME, show(v), show(w), f.cmp(&g), fv.cmp(&gd), fs.cmp(&gs));
            loc.evals += 2;
        }
        loc.sample(|| format!("{}: {} compared with {n} nodes, in all storage kinds", W::NAME, show(v)));
        Ok(())
    });
}

fn both<W: Width>(ctx: &mut Ctx)
where
    W::Static: Conv,
    W::Dyn: Conv,
{
    commute::<W>(ctx);
    observations::<W>(ctx);
}

fn main() {
    let mut ctx = Ctx::from_args("M34");
    each_width!(both(&mut ctx));
    ctx.finish()
}
