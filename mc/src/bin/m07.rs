//! M07: descendants append exactly the given cells
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;

fn down<T: VarIx>(ctx: &mut Ctx) {
    let r = radix::<T>();
    for (d, f) in fams::<T>(ctx.pick(Density::Light, Density::Dense), ctx.pick(1 << 10, 1 << 17)) {
        let (n, full) = (f.len(), f.is_full());
        let thorough = ctx.thorough();
        ctx.unit(format!("{}/descendants/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            loc.states += 1;
            let check = |what: &str, got: Option<T>, more: &[u8]| -> Outcome {
                let want = model::descendant(&v, more, T::CAP);
                match (got, want) {
                    (None, None) => Ok(()),
                    (Some(y), None) => Err(format!("{}: {what}({}) of {} (depth {d}) succeeded with depth {}, beyond the capacity", T::NAME, show(more), show(&v), y.depth())),
                    (None, Some(_)) => Err(format!("{}: {what}({}) of {} (depth {d}) gave nothing", T::NAME, show(more), show(&v))),
                    (Some(y), Some(w)) => {
                        same(&y, &w).map_err(|e| format!("{what}({}) of {}: {e}", show(more), show(&v)))?;
                        ensure!(y == built::<T>(&w)?, "{}: {what}({}) of {} has the right cells but is not equal to {}", T::NAME, show(more), show(&v), show(&w));
                        Ok(())
                    }
                }
            };
            for c in 0..r as u8 {
                check("child", x.child(<T::D as Dm>::mk(c)), &[c])?;
                loc.transitions += 1;
            }
            // all short lists for a part of the nodes, lists reaching the capacity and beyond for all of them
            let full_lists = if thorough || i < 8 { 3 } else if i % 8 == 0 { 2 } else { 1 };
            for len in 0..=full_lists {
                for k in 0..r.pow(len as u32) {
                    let m: Vec<u8> = (0..len).map(|j| ((k / r.pow(j as u32)) % r) as u8).collect();
                    check("descendant", x.descendant(&cells::<T>(&m)), &m)?;
                    loc.transitions += 1;
                }
            }
            let mut lens: Vec<usize> = vec![4, 5, 7, 8, 9];
            match T::CAP {
                Some(c) => {
                    let room = c - d;
                    lens.extend([room.saturating_sub(1), room, room + 1, room + 2, c, c + 1]);
                    if i < 4 {
                        lens.extend(room + 3..room + 9);
                        lens.extend([255 - d.min(255), 256 - d.min(256), 256, 256 + room, 257 + room, 512 + room, 65536, 65536 + room]);
                    }
                }
                None => {
                    lens.extend([16, 17, 31, 33]);
                    if i < 4 {
                        lens.extend([64, 65, 100, 300]);
                        // results around the depths at which a byte or a 16-bit bit count runs over
                        lens.extend([128, 255, 256, 257, 511, 512, 513, 1024].iter().filter(|k| **k >= d).map(|k| k - d));
                    }
                }
            }
            lens.sort();
            lens.dedup();
            for l in lens {
                for (a, b) in [(0, r - 1), (5, 3), (0, 0)] {
                    let m: Vec<u8> = (0..l).map(|j| ((a * j + b) % r) as u8).collect();
                    check("descendant", x.descendant(&cells::<T>(&m)), &m)?;
                    loc.transitions += 1;
                }
            }
            // step by step equals all at once
            let mut y = x.clone();
            let mut w = v.clone();
            for j in 0..T::CAP.map_or(9, |c| c - d) {
                let c = ((3 * j + 2) % r) as u8;
                w.push(c);
                y = y.child(<T::D as Dm>::mk(c)).ok_or_else(|| format!("{}: child {c} below {} was refused", T::NAME, show(&w[..w.len() - 1])))?;
                loc.transitions += 1;
            }
            same(&y, &w).map_err(|e| format!("children one by one from {}: {e}", show(&v)))?;
            ensure!(Some(&y) == x.descendant(&cells::<T>(&w[d..])).as_ref(), "{}: children one by one and descendant differ below {}", T::NAME, show(&v));
            loc.traces += 1;
            loc.sample(|| format!("{}: children and descendants of {}", T::NAME, show(&v)));
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M07");
    each_var!(down(&mut ctx));
    ctx.finish()
}
