//! M21: the bit-spreading helpers
use mcore::engine::*;
use mcore::ix::morton_index::number::*;
use mcore::*;

/// Bit i of the low `n` bits goes to position `step * i + at`
#[inline]
fn spread(v: u64, n: usize, step: usize, at: usize) -> u64 {
    let mut r = 0u64;
    for i in 0..n {
        r |= (v >> i & 1) << (step * i + at);
    }
    r
}

fn main() {
    let mut ctx = Ctx::from_args("M21");
    ctx.unit("u8, zero before every bit", 256, true, |i, loc| {
        let (g, w) = (add_zero_before_every_bit_u8(i as u8) as u64, spread(i, 4, 2, 0));
        ensure!(g == w, "add_zero_before_every_bit_u8({i:#b}) is {g:#b}, expected {w:#b}");
        loc.states += 1;
        loc.transitions += 1;
        Ok(())
    });
    ctx.unit("u8, zero behind every bit", 256, true, |i, loc| {
        let (g, w) = (add_zero_behind_every_bit_u8(i as u8) as u64, spread(i, 4, 2, 1));
        ensure!(g == w, "add_zero_behind_every_bit_u8({i:#b}) is {g:#b}, expected {w:#b}");
        loc.states += 1;
        loc.transitions += 1;
        Ok(())
    });
    ctx.unit("u16, zero before every bit", 1 << 16, true, |i, loc| {
        let (g, w) = (add_zero_before_every_bit_u16(i as u16) as u64, spread(i, 8, 2, 0));
        ensure!(g == w, "add_zero_before_every_bit_u16({i:#b}) is {g:#b}, expected {w:#b}");
        loc.states += 1;
        loc.transitions += 1;
        loc.sample(|| format!("add_zero_before_every_bit_u16({i:#x}) = {g:#x}"));
        Ok(())
    });
    ctx.unit("u8, two zeroes before every bit", 256, true, |i, loc| {
        let (g, w) = (add_two_zeroes_before_every_bit_u8(i as u8) as u64, spread(i, 8, 3, 0));
        ensure!(g == w, "add_two_zeroes_before_every_bit_u8({i:#b}) is {g:#b}, expected {w:#b}");
        loc.states += 1;
        loc.transitions += 1;
        Ok(())
    });
    // quick: all 21-bit inputs under several contents of the ignored bits; thorough: all 2^32 inputs
    let block = 1u64 << 14;
    let blocks = ctx.pick(1u64 << 7, 1 << 18);
    let more = !ctx.thorough();
    ctx.unit("u32, two zeroes before every bit", blocks, ctx.thorough(), move |i, loc| {
        for v in i * block..(i + 1) * block {
            let w = spread(v, 21, 3, 0);
            for junk in if more { &[0u64, 0xFFE0_0000, 0x5540_0000, 0x0020_0000, 0x8000_0000][..] } else { &[0][..] } {
                let x = (v | junk) as u32;
                let g = add_two_zeroes_before_every_bit_u32(x);
                ensure!(g == w, "add_two_zeroes_before_every_bit_u32({x:#b}) is {g:#b}, expected {w:#b}");
                loc.transitions += 1;
            }
            loc.states += 1;
        }
        loc.sample(|| format!("u32 inputs from {:#x}", i * block));
        Ok(())
    });
    ctx.finish()
}
