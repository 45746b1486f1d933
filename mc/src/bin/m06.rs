//! M06: ancestors are exact prefixes
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;
use std::sync::Arc;

fn up<T: VarIx>(ctx: &mut Ctx) {
    let ext = Arc::new(extremes(T::CAP.unwrap_or(1 << 20), T::DIM));
    for (d, f) in fams::<T>(ctx.pick(if max_explored::<T>() > 32 { Density::Light } else { Density::Medium }, Density::Dense), ctx.pick(1 << 12, 1 << 20)) {
        let (n, full) = (f.len(), f.is_full());
        let ext = ext.clone();
        ctx.unit(format!("{}/ancestors/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            loc.states += 1;
            let check = |what: &str, got: Option<T>, want: Option<&[u8]>| -> Outcome {
                match (got, want) {
                    (None, None) => Ok(()),
                    (Some(y), None) => Err(format!("{}: {what} of {} gave {}, it must give nothing", T::NAME, show(&v), show(&reads(&y)))),
                    (None, Some(_)) => Err(format!("{}: {what} of {} gave nothing", T::NAME, show(&v))),
                    (Some(y), Some(w)) => {
                        same(&y, w).map_err(|e| format!("{what} of {}: {e}", show(&v)))?;
                        ensure!(y == built::<T>(w)?, "{}: {what} of {} has the right cells but is not equal to {}", T::NAME, show(&v), show(w));
                        Ok(())
                    }
                }
            };
            let far: &[usize] = if i % 16 == 0 { &ext } else { &[] };
            for g in (1..d + 4).chain(far.iter().copied().filter(|e| *e > d + 3)) {
                check(&format!("ancestor({g})"), x.ancestor(nz(g)), if g <= d { Some(&v[..d - g]) } else { None })?;
                loc.transitions += 1;
            }
            for k in (0..d + 4).chain(far.iter().copied().filter(|e| *e > d + 3)) {
                check(&format!("with_depth({k})"), x.with_depth(k), if k <= d { Some(&v[..k]) } else { None })?;
                loc.transitions += 1;
            }
            check("parent", x.parent(), if d > 0 { Some(&v[..d - 1]) } else { None })?;
            // parent chain up to and beyond the root
            let mut y = Some(x.clone());
            for k in (0..d).rev() {
                y = y.and_then(|y| y.parent());
                check(&format!("the parent chain up to depth {k}"), y.clone(), Some(&v[..k]))?;
                loc.transitions += 1;
            }
            check("the parent of the root", y.and_then(|y| y.parent()), None)?;
            loc.transitions += 2;
            loc.traces += 1;
            loc.sample(|| format!("{}: all ancestors of {}", T::NAME, show(&v)));
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M06");
    each_var!(up(&mut ctx));
    ctx.finish()
}
