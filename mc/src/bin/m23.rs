//! M23: alignment
use mcore::engine::*;
use mcore::word::{low, patterns, Word};
use mcore::*;
use std::sync::Arc;

/// Some(smallest multiple of a not below v) if it is representable
fn want(v: u128, a: u128, w: usize) -> Option<u128> {
    if a == 0 {
        return Some(v);
    }
    let q = v / a + (v % a != 0) as u128;
    q.checked_mul(a).filter(|r| *r <= low(w))
}

fn one<B: Word>(v: u128, a: u128, loc: &mut Loc) -> Outcome {
    let Some(w) = want(v, a, B::W) else { return Ok(()) };
    loc.transitions += 1;
    let got = match observe(|| B::of(v).align_to(B::of(a)).val()) {
        Ok(g) => g,
        Err(p) => return Err(format!("{}: {v}.align_to({a}) panics ({p}), expected {w}", B::WNAME)),
    };
    if got != w {
        return Err(format!("{}: {v}.align_to({a}) is {got}, expected {w}", B::WNAME));
    }
    Ok(())
}

fn idem<B: Word>(v: u128, a: u128) -> Outcome {
    if want(v, a, B::W).is_some() {
        let x = B::of(v).align_to(B::of(a));
        ensure!(x.align_to(B::of(a)) == x, "{}: aligning {v} to {a} twice differs from aligning it once", B::WNAME);
    }
    Ok(())
}

fn types<B: Word>(ctx: &mut Ctx) {
    if B::W <= 16 {
        ctx.unit(format!("{}/all alignments and values", B::WNAME), 1 << B::W, B::W == 8 || ctx.thorough(), {
            let step = if B::W == 8 || ctx.thorough() { 1u128 } else { 0 };
            move |a, loc| {
                let a = a as u128;
                if step == 1 {
                    for v in 0..1u128 << B::W {
                        one::<B>(v, a, loc)?;
                    }
                } else {
                    // around the first and last multiples, and every multiple of 251
                    for v in (0..1u128 << B::W).step_by(251) {
                        one::<B>(v, a, loc)?;
                    }
                    for k in [0u128, 1, 2, 3, 65535 / a.max(1) - 1, 65535 / a.max(1)] {
                        for o in 0..3u128 {
                            one::<B>((k.wrapping_mul(a) + o).wrapping_sub(1) & 0xFFFF, a, loc)?;
                        }
                    }
                    for v in 65520..65536u128 {
                        one::<B>(v, a, loc)?;
                    }
                }
                idem::<B>(a / 3, a)?;
                idem::<B>(a + 1 & low(B::W), a)?;
                loc.states += 1;
                loc.sample(|| format!("{}: all values aligned to {a}", B::WNAME));
                Ok(())
            }
        });
    }
    let p = Arc::new(patterns(B::W, true));
    let n = p.len() as u64;
    ctx.unit(format!("{}/patterns", B::WNAME), n, false, move |i, loc| {
        let mut als: Vec<u128> = (0..300).collect();
        for q in p.iter() {
            for d in 0..3 {
                als.push(q.wrapping_add(d).wrapping_sub(1) & low(B::W));
            }
        }
        for d in 0..3u128 {
            let v = p[i as usize].wrapping_add(d).wrapping_sub(1) & low(B::W);
            for &a in &als {
                one::<B>(v, a, loc)?;
                idem::<B>(v, a)?;
                // next to the multiples of a around v
                if a > 0 {
                    let base = v - v % a;
                    for x in [base, base.wrapping_add(1), base.wrapping_add(a) & low(B::W), base.wrapping_add(a).wrapping_sub(1) & low(B::W)] {
                        one::<B>(x & low(B::W), a, loc)?;
                    }
                    // the last multiple in the type, and what lies below it
                    let last = low(B::W) - low(B::W) % a;
                    one::<B>(last, a, loc)?;
                    one::<B>(last - 1.min(last), a, loc)?;
                    one::<B>(last - (a - 1).min(last), a, loc)?;
                }
            }
        }
        loc.states += 1;
        loc.sample(|| format!("{}: {:#x} to {} alignments", B::WNAME, p[i as usize], als.len()));
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M23");
    each_word!(types(&mut ctx));
    ctx.finish()
}
