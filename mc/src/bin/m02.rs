//! M02: writing one level changes that level and nothing else
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;
use std::sync::Arc;

/// Every write to every level of every index of the family
fn single<T: Ix>(ctx: &mut Ctx) {
    // a wide index has up to 64 levels x 4 cells to write, each checked at 64 levels
    let wide = max_explored::<T>() > 32 && !ctx.thorough();
    for (d, f) in fams::<T>(if wide { Density::Light } else { ctx.pick(Density::Medium, Density::Dense) }, ctx.pick(1 << 15, 1 << 18)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/write/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            loc.states += 1;
            for level in 0..d {
                for c in 0..radix::<T>() as u8 {
                    let want = model::set(&v, level, c);
                    let mut y = x.clone();
                    y.set_cell_at_level(level, <T::D as Dm>::mk(c));
                    let ctxt = |e: String| format!("after writing {c} at level {level} of {}: {e}", show(&v));
                    same(&y, &want).map_err(ctxt)?;
                    ensure!(y == built::<T>(&want)?, "{}: {} after writing {c} at level {level} is not equal to a freshly built {}", T::NAME, show(&v), show(&want));
                    if level % 8 == (i % 8) as usize {
                        let mut y = x.clone();
                        unsafe { y.set_cell_at_level_unchecked(level, <T::D as Dm>::mk(c)) };
                        same(&y, &want).map_err(ctxt)?;
                    }
                    loc.transitions += 1;
                }
            }
            loc.traces += 1;
            loc.sample(|| format!("{}: every (level, cell) written into {}", T::NAME, show(&v)));
            Ok(())
        });
    }
}

/// Every sequence of writes of a bounded length, from extreme backgrounds
fn seqs<T: Ix>(ctx: &mut Ctx) {
    let depths: Vec<usize> = match T::KIND {
        Kind::Fixed => vec![T::CAP.unwrap()],
        _ => (1..=max_explored::<T>()).collect(),
    };
    let len_small = ctx.pick(4, 6);
    for d in depths {
        let r = radix::<T>();
        let acts = d * r;
        // longest sequence length whose tree of histories stays within the budget
        let budget: u64 = ctx.pick(60_000, 20_000_000);
        let mut k = 2;
        while k < len_small && (acts as u64).pow(k as u32 + 1) <= budget {
            k += 1;
        }
        let bgs: Arc<Vec<Vec<u8>>> = Arc::new(vec![vec![0; d], vec![(r - 1) as u8; d], (0..d).map(|l| ((3 * l + 1) % r) as u8).collect()]);
        // item = (background, first action)
        let n = (bgs.len() * acts) as u64;
        ctx.unit(format!("{}/writes{}/d{}", T::NAME, k, d), n, false, move |i, loc| {
            let bg = &bgs[i as usize / acts];
            let first = i as usize % acts;
            fn rec<T: Ix>(x: &T, v: &[u8], hist: &mut Vec<usize>, left: usize, r: usize, loc: &mut Loc) -> Outcome {
                let a = *hist.last().unwrap();
                let (level, c) = (a / r, (a % r) as u8);
                let mut y = x.clone();
                y.set_cell_at_level(level, <T::D as Dm>::mk(c));
                let want = model::set(v, level, c);
                loc.transitions += 1;
                if left == 0 {
                    loc.traces += 1;
                    same(&y, &want).map_err(|e| {
                        format!("after the writes (level,cell) {:?}: {e}", hist.iter().map(|a| (a / r, a % r)).collect::<Vec<_>>())
                    })?;
                    return Ok(());
                }
                // only histories in which the next write touches another level, or the same one again with a new value
                for b in 0..v.len() * r {
                    if b == a {
                        continue;
                    }
                    hist.push(b);
                    rec::<T>(&y, &want, hist, left - 1, r, loc)?;
                    hist.pop();
                }
                Ok(())
            }
            let x = built::<T>(bg)?;
            loc.states += 1;
            let mut h = vec![first];
            rec::<T>(&x, bg, &mut h, k - 1, r, loc)?;
            loc.sample(|| format!("{}: all write sequences of length {k} starting with (level {}, cell {}) from {}", T::NAME, first / r, first % r, show(bg)));
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M02");
    each_ix!(single(&mut ctx));
    each_ix!(seqs(&mut ctx));
    ctx.finish()
}
