//! M12: fixed-depth, static and dynamic types of all widths, and the fast path, agree on grid coordinates
use mcore::engine::*;
use mcore::ix::*;
use mcore::*;
use morton_index::dimensions::{Dim2D, Dim3D, OctantOrdering};
use std::sync::Arc;

fn mask(d: usize) -> usize {
    if d >= UBITS {
        usize::MAX
    } else {
        (1 << d) - 1
    }
}

/// Full-width coordinate patterns
fn patterns(more: bool) -> Vec<usize> {
    let mut p = vec![0, usize::MAX, 0x5555_5555_5555_5555u64 as usize, 0xAAAA_AAAA_AAAA_AAAAu64 as usize, 0x0F0F_33CC_A5C3_9669u64 as usize];
    for k in 0..UBITS {
        p.push(1 << k);
        if more {
            p.push(!(1 << k));
            p.push(mask(k));
            p.push(!mask(k));
            p.push(3usize.rotate_left(k as u32));
        }
    }
    p.sort_unstable();
    p.dedup();
    p
}

type Got = Vec<(&'static str, Result<Vec<u8>, String>)>;

fn from<T: Ix>(g: [usize; 3], d: usize, ord: usize) -> (&'static str, Result<Vec<u8>, String>) {
    let r = observe(|| T::from_grid(g, d, ord).map(|x| reads(&x)).map_err(|e| e.to_string()));
    (T::NAME, r.unwrap_or_else(|p| Err(format!("panic: {p}"))))
}

macro_rules! all_of {
    ($out:ident, $g:ident, $d:ident, $o:ident, $($t:ty)*) => { $(
        let applies = match <$t as Ix>::KIND {
            Kind::Fixed => <$t as Ix>::CAP == Some($d),
            Kind::Static => <$t as Ix>::CAP.unwrap() >= $d,
            Kind::Dynamic => $d <= UBITS / 2,
        };
        if applies {
            $out.push(from::<$t>($g, $d, $o));
        }
    )* };
}

fn every2(g: [usize; 3], d: usize, ord: usize) -> Got {
    let mut out = vec![];
    all_of!(out, g, d, ord, D2D S2D8 S2D16 S2D32 S2D64 S2Dus S2D128 F2D8 F2D16 F2D32 F2D64 F2Dus F2D128);
    out
}
fn every3(g: [usize; 3], d: usize, ord: usize) -> Got {
    let mut out = vec![];
    all_of!(out, g, d, ord, D3D S3D8 S3D16 S3D32 S3D64 S3Dus S3D128 F3D8 F3D16 F3D32 F3D64 F3Dus F3D128);
    out
}

fn agree(got: Got, g: [usize; 3], d: usize, ord: usize, loc: &mut Loc) -> Outcome {
    let (n0, r0) = &got[0];
    for (n, r) in &got {
        if r.is_err() || r != r0 {
            let s = |r: &Result<Vec<u8>, String>| match r {
                Ok(v) => show(v),
                Err(e) => e.clone(),
            };
            return Err(format!("from_grid_index({g:x?}, depth {d}, ordering {ord}): {n0} gives {}, {n} gives {}", s(r0), s(r)));
        }
        loc.transitions += 1;
    }
    loc.states += 1;
    Ok(())
}

fn kinds<D: Dm>(ctx: &mut Ctx) {
    let deepest = if D::DIM == 2 { 64.min(UBITS) } else { 42 };
    let p = Arc::new(patterns(ctx.thorough()));
    let small: Arc<Vec<usize>> = Arc::new(if D::DIM == 2 { (*p).clone() } else { [0, usize::MAX, 0xA5C3_9669u64 as usize | 1 << 40, 1 << 7, 1 << 8, 1 << 20, 1 << 21, 1 << 31, 0x00FF_00FF_0F0F_5533u64 as usize].to_vec() });
    let ords = model::orderings(D::DIM);
    ctx.unit(format!("{}D/all kinds", D::DIM), (deepest as u64 + 1) * ords as u64, false, move |i, loc| {
        let (d, ord) = (i as usize / ords, i as usize % ords);
        for &x in p.iter() {
            for &y in small.iter() {
                for &z in if D::DIM == 3 { &small[..] } else { &[0][..] } {
                    let sel: &[[usize; 3]] = if D::DIM == 3 { &[[x, y, z], [y, x, z], [z, y, x]] } else { &[[x, y, 0]] };
                    for &g in sel {
                        // the values within the grid, and beyond it
                        let m = mask(d);
                        agree(if D::DIM == 2 { every2(g, d, ord) } else { every3(g, d, ord) }, g, d, ord, loc)?;
                        let gm = g.map(|c| c & m);
                        if gm != g {
                            agree(if D::DIM == 2 { every2(gm, d, ord) } else { every3(gm, d, ord) }, gm, d, ord, loc)?;
                        }
                    }
                }
            }
        }
        loc.sample(|| format!("all {}D types that hold depth {d}, ordering {ord}", D::DIM));
        Ok(())
    });
}

fn fast_one(g: [usize; 3], o: OctantOrdering, loc: &mut Loc) -> Outcome {
    let v = <Dim3D as Dm>::grid(g);
    let (a, b) = (F3D64::from_grid_index_fast(v, o), F3D64::from_grid_index(v, o));
    if a != b {
        return Err(format!("from_grid_index_fast({g:x?}) is {}, from_grid_index is {}", show(&reads(&a)), show(&reads(&b))));
    }
    loc.transitions += 2;
    Ok(())
}

fn fast(ctx: &mut Ctx) {
    // one-hot bits and other patterns on all three axes
    let p = Arc::new(patterns(ctx.thorough()));
    let n = p.len() as u64;
    ctx.unit("fast/patterns", n * n, false, move |i, loc| {
        let (x, y) = (p[(i / n) as usize], p[(i % n) as usize]);
        for &z in p.iter() {
            for o in 0..6 {
                fast_one([x, y, z], Dim3D::ord(o), loc)?;
            }
            loc.states += 1;
        }
        loc.sample(|| format!("x = {x:x}, y = {y:x}, all z patterns, all orderings"));
        Ok(())
    });
    ctx.unit("fast/every byte of a coordinate", 256, true, |i, loc| {
        for k in [0, 4, 8, 13, 16] {
            for fill in [0, usize::MAX, 0x15_A3C9] {
                for axis in 0..3 {
                    let mut g = [fill; 3];
                    g[axis] = fill & !(0xFF << k) | (i as usize) << k;
                    for o in 0..6 {
                        fast_one(g, Dim3D::ord(o), loc)?;
                    }
                    loc.states += 1;
                }
            }
        }
        Ok(())
    });
    // every value of the 21 bits of one axis, the other axes empty, full, or mirrored
    let bits = ctx.pick(18, 21);
    ctx.unit("fast/every value of one axis", 1 << 10, ctx.thorough(), move |i, loc| {
        let block = 1usize << (bits - 10);
        for k in 0..block {
            // quick: the low and the high bits of the 21 vary, the middle follows
            let raw = i as usize * block + k;
            let c = if bits == 21 { raw } else { raw | raw >> 3 << 6 & 0x1F_FFFF };
            for o in [0, 3, 5] {
                fast_one([c, 0, usize::MAX], Dim3D::ord(o), loc)?;
                fast_one([0, c, !c], Dim3D::ord(o), loc)?;
                fast_one([!c, usize::MAX ^ (c << 1), c], Dim3D::ord(o), loc)?;
            }
            loc.states += 1;
        }
        loc.sample(|| format!("{block} consecutive values from {:x}", i as usize * block));
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M12");
    kinds::<Dim2D>(&mut ctx);
    kinds::<Dim3D>(&mut ctx);
    fast(&mut ctx);
    ctx.finish()
}
