//! M11: the grid cells of ancestors contain those of their descendants, children tile their parent
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;

fn nest<T: VarIx>(ctx: &mut Ctx) {
    let dens = ctx.pick(if max_explored::<T>() > 32 { Density::Light } else { Density::Medium }, Density::Dense);
    for (d, f) in fams::<T>(dens, ctx.pick(1 << 11, 1 << 20)) {
        if d > UBITS {
            continue;
        }
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/nesting/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            loc.states += 1;
            let ords = model::orderings(T::DIM);
            for ord in 0..ords {
                let g = x.to_grid(ord);
                for up in 1..=d {
                    let a = x.ancestor(nz(up)).ok_or_else(|| format!("{}: {} has no ancestor({up})", T::NAME, show(&v)))?;
                    let h = a.to_grid(ord);
                    let want = g.map(|c| c.checked_shr(up as u32).unwrap_or(0));
                    ensure!(h == want, "{}: ancestor({up}) of {} lies at {h:x?}, the node itself at {g:x?} (ordering {ord})", T::NAME, show(&v));
                    loc.transitions += 1;
                }
                if d < UBITS && T::CAP.map_or(true, |c| d < c) {
                    let mut seen = [false; 8];
                    for c in 0..radix::<T>() as u8 {
                        let y = x.child(<T::D as Dm>::mk(c)).ok_or_else(|| format!("{}: {} has no child {c}", T::NAME, show(&v)))?;
                        let h = y.to_grid(ord);
                        ensure!((0..3).all(|a| h[a] >> 1 == g[a]), "{}: child {c} of {} lies at {h:x?}, its parent at {g:x?} (ordering {ord})", T::NAME, show(&v));
                        let k = h[0] & 1 | (h[1] & 1) << 1 | (h[2] & 1) << 2;
                        ensure!(!seen[k], "{}: two children of {} lie at {h:x?} (ordering {ord})", T::NAME, show(&v));
                        seen[k] = true;
                        // a node has the place of its cell in every depth
                        let o = model::offset(T::DIM, ord, c);
                        ensure!((0..3).all(|a| (h[a] & 1) as u128 == o[a]), "{}: child {c} of {} lies at {h:x?} (ordering {ord})", T::NAME, show(&v));
                        loc.transitions += 1;
                    }
                }
            }
            loc.sample(|| format!("{}: all ancestors and children of {} in all orderings", T::NAME, show(&v)));
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M11");
    each_var!(nest(&mut ctx));
    ctx.finish()
}
