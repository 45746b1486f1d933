//! M27: the generic storage descriptions with any dimensionality
use mcore::engine::*;
use mcore::ix::morton_index::dimensions::Dimension;
use mcore::ix::morton_index::{DynamicStorage, Error, FixedDepthStorage, StaticStorage, StorageType};
use mcore::word::{low, Word};
use mcore::*;

pub struct Space<const N: usize>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell<const N: usize>(u8);
#[derive(Default)]
pub struct Ord0;

impl<const N: usize> Dimension for Space<N> {
    type Cell = Cell<N>;
    type GridIndex = [usize; N];
    type CellOrdering = Ord0;
    const DIMENSIONALITY: usize = N;
}
impl<const N: usize> TryFrom<usize> for Cell<N> {
    type Error = Error;
    fn try_from(v: usize) -> Result<Self, Error> {
        if v < 1 << N {
            Ok(Cell(v as u8))
        } else {
            Err(Error::CellIndexOutOfRange)
        }
    }
}
impl<const N: usize> From<Cell<N>> for usize {
    fn from(c: Cell<N>) -> usize {
        c.0 as usize
    }
}

/// Backgrounds: cell at every level
fn backgrounds(n: usize, depth: usize, more: bool) -> Vec<Vec<u8>> {
    let r = 1usize << n;
    let mut out = vec![];
    let mut muls = vec![0, 1, 3];
    if more {
        muls.extend([5, 7, 11]);
    }
    for a in muls {
        for c in [0, r - 1, r / 2, 1] {
            out.push((0..depth).map(|l| ((a * l + c) % r) as u8).collect::<Vec<u8>>());
        }
    }
    out.sort();
    out.dedup();
    out
}

fn check_all<const N: usize>(what: &dyn Fn() -> String, want: &[u8], read: impl Fn(usize) -> Cell<N>) -> Outcome {
    for (l, w) in want.iter().enumerate() {
        let g = read(l).0;
        if g != *w {
            return Err(format!("{}: level {l} reads {g}, expected {w}; levels are {want:?}", what()));
        }
    }
    Ok(())
}

fn words<const N: usize, B: Word>(ctx: &mut Ctx) {
    fn one<const N: usize, B: Word, S: StorageType<Dimension = Space<N>> + 'static>(ctx: &mut Ctx, kind: &'static str) {
        let cap = B::W / N;
        let more = ctx.thorough();
        let bgs = backgrounds(N, cap, more);
        let n = bgs.len() as u64 * cap.max(1) as u64;
        ctx.unit(format!("{N}D/{kind}/{}", B::WNAME), n, false, move |i, loc| {
            let what = || format!("{N}D {kind} storage in {}", B::WNAME);
            ensure!(S::MAX_LEVELS == cap, "{}: MAX_LEVELS is {}, expected {cap}", what(), S::MAX_LEVELS);
            ensure!(S::max_depth() == Some(cap), "{}: max_depth() is {:?}", what(), S::max_depth());
            ensure!(S::DIMENSIONALITY == N, "{}: DIMENSIONALITY is {}", what(), S::DIMENSIONALITY);
            let bg = &bgs[(i / cap as u64) as usize];
            let level = (i % cap as u64) as usize;
            let mut w = B::default();
            // write the background in an order that depends on the level
            for k in 0..cap {
                let l = (k + level) % cap;
                unsafe { S::set_cell_at_level_unchecked(&mut w, l, Cell::<N>(bg[l])) };
            }
            check_all::<N>(&what, bg, |l| unsafe { S::get_cell_at_level_unchecked(&w, l) })?;
            // bits that belong to no level stay zero
            ensure!(w.val() & low(B::W - cap * N) == 0, "{}: writing levels sets unused bits: {w:#x?}", what());
            for v in 0..1u16 << N {
                let mut x = w;
                unsafe { S::set_cell_at_level_unchecked(&mut x, level, Cell::<N>(v as u8)) };
                let mut want = bg.clone();
                want[level] = v as u8;
                check_all::<N>(&|| format!("{} after writing {v} at level {level}", what()), &want, |l| unsafe { S::get_cell_at_level_unchecked(&x, l) })?;
                unsafe { S::set_cell_at_level_unchecked(&mut x, level, Cell::<N>(bg[level])) };
                ensure!(x == w, "{}: writing {v} and then {} at level {level} leaves {x:#x?}, not {w:#x?}", what(), bg[level]);
                loc.transitions += 2;
            }
            loc.states += 1;
            loc.sample(|| format!("{N}D {kind} {}: every cell at level {level} over {bg:?}", B::WNAME));
            Ok(())
        });
    }
    if B::W >= N {
        one::<N, B, FixedDepthStorage<Space<N>, B>>(ctx, "fixed");
        one::<N, B, StaticStorage<Space<N>, B>>(ctx, "static");
    }
}

/// All words of up to 16 bits, read through the description
fn complete<const N: usize, B: Word>(ctx: &mut Ctx) {
    let cap = B::W / N;
    ctx.unit(format!("{N}D/read all words/{}", B::WNAME), 256, true, move |i, loc| {
        let block = (1u128 << B::W) / 256;
        for w in i as u128 * block..(i as u128 + 1) * block {
            let x = B::of(w);
            for l in 0..cap {
                let want = (w >> (B::W - (l + 1) * N) & low(N)) as u8;
                let f: Cell<N> = unsafe { FixedDepthStorage::<Space<N>, B>::get_cell_at_level_unchecked(&x, l) };
                let s: Cell<N> = unsafe { StaticStorage::<Space<N>, B>::get_cell_at_level_unchecked(&x, l) };
                ensure!(f.0 == want && s.0 == want, "{N}D {}: level {l} of {w:#x} reads {} and {}, expected {want}", B::WNAME, f.0, s.0);
                loc.transitions += 2;
            }
            loc.states += 1;
        }
        Ok(())
    });
}

fn dynamic<const N: usize>(ctx: &mut Ctx) {
    type S<const N: usize> = DynamicStorage<Space<N>>;
    let max = ctx.pick(40, 140u64);
    let more = ctx.thorough();
    ctx.unit(format!("{N}D/dynamic"), max + 1, false, move |i, loc| {
        let what = || format!("{N}D dynamic storage of depth {i}");
        ensure!(S::<N>::max_depth().is_none() && S::<N>::MAX_LEVELS == 0, "{}: has a depth limit", what());
        ensure!(S::<N>::DIMENSIONALITY == N, "{}: DIMENSIONALITY", what());
        let d = i as usize;
        let size = (d * N + 7) / 8;
        for bg in backgrounds(N, d, more) {
            for rev in [false, true] {
                let mut b = vec![0u8; size];
                for k in 0..d {
                    let l = if rev { d - 1 - k } else { k };
                    unsafe { S::<N>::set_cell_at_level_unchecked(&mut b, l, Cell::<N>(bg[l])) };
                }
                check_all::<N>(&what, &bg, |l| unsafe { S::<N>::get_cell_at_level_unchecked(&b, l) })?;
                ensure!(b.len() == size, "{}: the vector has {} bytes now", what(), b.len());
                if rev {
                    continue;
                }
                for level in 0..d {
                    for v in [0u16, 1, 1 << (N - 1), (1 << N) - 1, (0x5A & ((1 << N) - 1)) as u16] {
                        let mut x = b.clone();
                        unsafe { S::<N>::set_cell_at_level_unchecked(&mut x, level, Cell::<N>(v as u8)) };
                        let mut want = bg.clone();
                        want[level] = v as u8;
                        check_all::<N>(&|| format!("{} after writing {v} at level {level}", what()), &want, |l| unsafe { S::<N>::get_cell_at_level_unchecked(&x, l) })?;
                        unsafe { S::<N>::set_cell_at_level_unchecked(&mut x, level, Cell::<N>(bg[level])) };
                        ensure!(x == b, "{}: writing {v} and then {} at level {level} leaves other bytes", what(), bg[level]);
                        loc.transitions += 2;
                    }
                }
            }
            loc.states += 1;
        }
        loc.sample(|| format!("{N}D dynamic: every level of depth {d}"));
        Ok(())
    });
}

fn dims<const N: usize>(ctx: &mut Ctx) {
    words::<N, u8>(ctx);
    words::<N, u16>(ctx);
    words::<N, u32>(ctx);
    words::<N, u64>(ctx);
    words::<N, u128>(ctx);
    words::<N, usize>(ctx);
    complete::<N, u8>(ctx);
    complete::<N, u16>(ctx);
    dynamic::<N>(ctx);
}

fn main() {
    let mut ctx = Ctx::from_args("M27");
    dims::<1>(&mut ctx);
    dims::<2>(&mut ctx);
    dims::<3>(&mut ctx);
    dims::<4>(&mut ctx);
    dims::<5>(&mut ctx);
    dims::<6>(&mut ctx);
    dims::<7>(&mut ctx);
    dims::<8>(&mut ctx);
    ctx.finish()
}
