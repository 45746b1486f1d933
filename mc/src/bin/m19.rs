//! M19: bit ranges of machine words
use mcore::engine::*;
use mcore::ix::UBITS;
use mcore::word::{low, patterns, Word};
use mcore::*;
use std::sync::Arc;

fn get<B: Word>(w: u128, a: usize, b: usize) -> Outcome {
    let want = if a >= 128 { 0 } else { (w >> a) & low(b - a) };
    let x = B::of(w);
    let got = unsafe { x.get_bits(a..b) }.val();
    if got != want {
        return Err(format!("{}: bits {a}..{b} of {w:#x} are {got:#x}, expected {want:#x}", B::WNAME));
    }
    if b - a <= UBITS {
        let got = unsafe { x.get_bits_as_usize(a..b) } as u128;
        if got != want {
            return Err(format!("{}: bits {a}..{b} of {w:#x} as usize are {got:#x}, expected {want:#x}", B::WNAME));
        }
    }
    Ok(())
}

/// `a` inside the word, `v` fits the range
fn set<B: Word>(w: u128, a: usize, b: usize, v: u128) -> Outcome {
    let m = low(b - a) << a;
    let want = (w & !m) | (v << a);
    let mut x = B::of(w);
    unsafe { x.set_bits(a..b, B::of(v)) };
    if x.val() != want {
        return Err(format!("{}: setting bits {a}..{b} of {w:#x} to {v:#x} gives {:#x}, expected {want:#x}", B::WNAME, x.val()));
    }
    let back = unsafe { x.get_bits(a..b) }.val();
    if back != v {
        return Err(format!("{}: bits {a}..{b} read {back:#x} after they were set to {v:#x}", B::WNAME));
    }
    if b - a <= UBITS {
        let mut y = B::of(w);
        unsafe { y.set_bits_from_usize(a..b, v as usize) };
        if y != x {
            return Err(format!("{}: setting bits {a}..{b} of {w:#x} from the usize {v:#x} gives {:#x}, expected {want:#x}", B::WNAME, y.val()));
        }
    }
    Ok(())
}

fn ranges(w: usize) -> Vec<(usize, usize)> {
    (0..=w).flat_map(|a| (a..=w).map(move |b| (a, b))).collect()
}

fn words<B: Word>(ctx: &mut Ctx) {
    let rs = Arc::new(ranges(B::W));
    let n = rs.len() as u64;
    let thorough = ctx.thorough();
    // complete spaces: reading from every word of up to 16 bits
    if B::W <= 16 {
        let r = rs.clone();
        ctx.unit(format!("{}/get: all words, all ranges", B::WNAME), n, true, move |i, loc| {
            let (a, b) = r[i as usize];
            for w in 0..1u128 << B::W {
                get::<B>(w, a, b)?;
            }
            loc.states += 1 << B::W;
            loc.transitions += 1 << B::W;
            Ok(())
        });
        let r = rs.clone();
        let all = B::W == 8;
        ctx.unit(format!("{}/set: all words, all ranges", B::WNAME), n, all, move |i, loc| {
            let (a, b) = r[i as usize];
            if a == B::W {
                return Ok(());
            }
            let vals: Vec<u128> = if all || thorough && b - a <= 8 {
                (0..=low(b - a)).collect()
            } else {
                let mut v: Vec<u128> = [0, u128::MAX, 1, 0x5AC3, 1 << (b - a).max(1) - 1].iter().map(|v| v & low(b - a)).collect();
                v.sort_unstable();
                v.dedup();
                v
            };
            for w in 0..1u128 << B::W {
                for v in &vals {
                    set::<B>(w, a, b, *v)?;
                }
            }
            loc.states += 1 << B::W;
            loc.transitions += (1 << B::W) * vals.len() as u64;
            loc.sample(|| format!("{}: {} values into bits {a}..{b} of every word", B::WNAME, vals.len()));
            Ok(())
        });
        if !all {
            // every value into every range, over patterns
            let r = rs.clone();
            ctx.unit(format!("{}/set: all values, all ranges", B::WNAME), n, false, move |i, loc| {
                let (a, b) = r[i as usize];
                if a == B::W {
                    return Ok(());
                }
                for w in [0, 0xFFFF, 0xA5C3, 0x1234] {
                    for v in 0..=low(b - a) {
                        set::<B>(w, a, b, v)?;
                        loc.transitions += 1;
                    }
                }
                Ok(())
            });
        }
        return;
    }
    let p = Arc::new(patterns(B::W, thorough));
    let r = rs;
    ctx.unit(format!("{}/patterns, all ranges", B::WNAME), n, false, move |i, loc| {
        let (a, b) = r[i as usize];
        for &w in p.iter() {
            get::<B>(w, a, b)?;
        }
        loc.states += p.len() as u64;
        loc.transitions += p.len() as u64;
        if a < B::W {
            let mut vals: Vec<u128> = p.iter().step_by(if thorough { 1 } else { 3 }).map(|v| v & low(b - a)).collect();
            vals.push(low(b - a));
            vals.sort_unstable();
            vals.dedup();
            for &w in p.iter().step_by(if thorough { 1 } else { 3 }) {
                for &v in &vals {
                    set::<B>(w, a, b, v)?;
                    loc.transitions += 1;
                }
            }
        }
        loc.sample(|| format!("{}: bits {a}..{b}, {} words", B::WNAME, p.len()));
        Ok(())
    });
}

fn consts(ctx: &mut Ctx) {
    fn c<B: Word>(loc: &mut Loc) -> Outcome {
        ensure!(B::BITS == B::W, "{}: BITS is {}", B::WNAME, B::BITS);
        ensure!(B::of(1).size() == B::W / 8, "{}: size() is {}", B::WNAME, B::of(1).size());
        loc.transitions += 2;
        Ok(())
    }
    ctx.unit("widths", 1, true, |_, loc| {
        c::<u8>(loc)?;
        c::<u16>(loc)?;
        c::<u32>(loc)?;
        c::<u64>(loc)?;
        c::<u128>(loc)?;
        c::<usize>(loc)
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M19");
    each_word!(words(&mut ctx));
    consts(&mut ctx);
    ctx.finish()
}
