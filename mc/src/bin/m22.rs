//! M22: conversions of words
use mcore::engine::*;
use mcore::ix::morton_index::number::{Bits, Endianness};
use mcore::ix::UBITS;
use mcore::word::{low, patterns, Word};
use mcore::*;
use std::sync::Arc;

fn word<B: Word>(v: u128) -> Outcome {
    let x = B::of(v);
    unsafe {
        let into = [
            ("as_u8", x.as_u8() as u128, 8),
            ("as_u16", x.as_u16() as u128, 16),
            ("as_u32", x.as_u32() as u128, 32),
            ("as_u64", x.as_u64() as u128, 64),
            ("as_u128", x.as_u128(), 128),
            ("as_usize", x.as_usize() as u128, UBITS),
        ];
        for (n, got, w) in into {
            let want = x.val() & low(w);
            ensure!(got == want, "{}: {n} of {x:#x?} is {got:#x}, expected {want:#x}", B::WNAME);
        }
        let from = [
            ("from_u8", B::from_u8(v as u8).val(), 8),
            ("from_u16", B::from_u16(v as u16).val(), 16),
            ("from_u32", B::from_u32(v as u32).val(), 32),
            ("from_u64", B::from_u64(v as u64).val(), 64),
            ("from_u128", B::from_u128(v).val(), 128),
            ("from_usize", B::from_usize(v as usize).val(), UBITS),
        ];
        for (n, got, w) in from {
            let want = v & low(w) & low(B::W);
            ensure!(got == want, "{}: {n}({:#x}) is {got:#x}, expected {want:#x}", B::WNAME, v & low(w));
        }
        let bytes = x.as_u8_slice().to_vec();
        ensure!(bytes == x.native(), "{}: the bytes of {x:#x?} are {bytes:x?}, expected {:x?}", B::WNAME, x.native());
        let back = B::from_u8_slice(&bytes, NATIVE);
        ensure!(back == x, "{}: {x:#x?} from its own bytes is {back:#x?}", B::WNAME);
        let mut y = B::default();
        y.as_u8_slice_mut().copy_from_slice(&bytes);
        ensure!(y == x, "{}: writing the bytes of {x:#x?} gives {y:#x?}", B::WNAME);
        // a byte vector and back
        let vec = Vec::<u8>::from_u8_slice(&bytes, NATIVE);
        ensure!(vec == bytes, "Vec<u8>: from_u8_slice of {bytes:x?} is {vec:x?}");
    }
    Ok(())
}

#[cfg(target_endian = "little")]
const NATIVE: Endianness = Endianness::LittleEndian;
#[cfg(target_endian = "big")]
const NATIVE: Endianness = Endianness::BigEndian;

fn vectors(v: u128) -> Outcome {
    unsafe {
        macro_rules! there_and_back {
            ($($from:ident $as:ident $t:ty),*) => { $(
                let w = v as $t;
                let bytes = Vec::<u8>::$from(w);
                ensure!(bytes == w.to_ne_bytes(), "Vec<u8>: {}({w:#x}) is {bytes:x?}", stringify!($from));
                ensure!(bytes.size() == std::mem::size_of::<$t>(), "Vec<u8>: size() after {}", stringify!($from));
                ensure!(bytes.as_u8_slice() == w.to_ne_bytes(), "Vec<u8>: as_u8_slice after {}", stringify!($from));
                let mut copy = vec![0u8; bytes.len()];
                copy.as_u8_slice_mut().copy_from_slice(&bytes);
                ensure!(copy == bytes, "Vec<u8>: as_u8_slice_mut after {}", stringify!($from));
                ensure!(bytes.clone().as_u8() == bytes[0], "Vec<u8>: as_u8 of {bytes:x?}");
                let back = bytes.$as();
                ensure!(back == w, "Vec<u8>: {} after {} of {w:#x} is {back:#x}", stringify!($as), stringify!($from));
            )* };
        }
        there_and_back!(from_u8 as_u8 u8, from_u16 as_u16 u16, from_u32 as_u32 u32, from_u64 as_u64 u64, from_u128 as_u128 u128, from_usize as_usize usize);
    }
    Ok(())
}

fn values<B: Word>(ctx: &mut Ctx) {
    let thorough = ctx.thorough();
    if B::W <= 16 || thorough && B::W == 32 {
        let (blocks, size) = if B::W == 32 { (1u64 << 18, 1u64 << 14) } else { (256, (1u64 << B::W) / 256) };
        ctx.unit(format!("{}/all values", B::WNAME), blocks, true, move |i, loc| {
            for v in i * size..(i + 1) * size {
                word::<B>(v as u128)?;
                loc.transitions += 14;
                loc.states += 1;
            }
            Ok(())
        });
    }
    // pairs of patterns also in the parts that a narrower type does not have
    let p = Arc::new(patterns(128, thorough));
    let n = p.len() as u64;
    ctx.unit(format!("{}/patterns", B::WNAME), n, false, move |i, loc| {
        for q in p.iter() {
            for v in [p[i as usize] ^ q, p[i as usize] & q, p[i as usize].wrapping_add(*q)] {
                word::<B>(v)?;
                loc.transitions += 14;
                loc.states += 1;
            }
        }
        loc.sample(|| format!("{}: conversions of {:#x} combined with {} patterns", B::WNAME, p[i as usize], p.len()));
        Ok(())
    });
}

fn contents(len: usize, k: usize) -> Vec<u8> {
    (0..len)
        .map(|i| match k {
            0 => i as u8 + 1,
            1 => 0xFF - i as u8,
            2 => (i as u8).wrapping_mul(37) ^ 0xC5,
            3 => 0x80,
            4 => 0,
            k => {
                if i == (k - 5) % len.max(1) {
                    0xA7
                } else {
                    0
                }
            }
        })
        .collect()
}

fn slices<B: Word>(ctx: &mut Ctx) {
    let max = ctx.pick(40, 300u64);
    ctx.unit(format!("{}/from slices of 0 to {max} bytes", B::WNAME), max + 1, false, move |i, loc| {
        let len = i as usize;
        for k in 0..5 + len.min(20) {
            let bytes = contents(len, k);
            let mut padded = bytes.clone();
            padded.resize(B::W / 8, 0);
            let le = padded.iter().rev().fold(0u128, |s, b| s << 8 | *b as u128);
            let be = padded.iter().fold(0u128, |s, b| s << 8 | *b as u128);
            for (n, want, got) in [("little", le, unsafe { B::from_u8_slice(&bytes, Endianness::LittleEndian) }), ("big", be, unsafe { B::from_u8_slice(&bytes, Endianness::BigEndian) })] {
                ensure!(got.val() == want, "{}: the {n}-endian value of {bytes:x?} is {:#x}, expected {want:#x}", B::WNAME, got.val());
                loc.transitions += 1;
            }
            loc.states += 1;
        }
        loc.sample(|| format!("{}: {len} bytes, both endiannesses", B::WNAME));
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M22");
    each_word!(values(&mut ctx));
    each_word!(slices(&mut ctx));
    ctx.unit("all slices of up to two bytes", 1 << 8, true, |i, loc| {
        for j in 0..=255u8 {
            let b = [i as u8, j];
            unsafe {
                for (s, n) in [(&b[..1], 1), (&b[..], 2)] {
                    let le = s.iter().rev().fold(0u128, |t, x| t << 8 | *x as u128);
                    fn be<B: Word>(s: &[u8]) -> u128 {
                        let mut p = s.to_vec();
                        p.resize(B::W / 8, 0);
                        p.iter().fold(0u128, |t, x| t << 8 | *x as u128)
                    }
                    macro_rules! chk {
                        ($($t:ty)*) => { $(
                            ensure!(<$t>::from_u8_slice(s, Endianness::LittleEndian) as u128 == le & low(<$t as Word>::W), "{}: little-endian value of {s:x?}", stringify!($t));
                            ensure!(<$t>::from_u8_slice(s, Endianness::BigEndian) as u128 == be::<$t>(s), "{}: big-endian value of {s:x?}", stringify!($t));
                        )* };
                    }
                    chk!(u8 u16 u32 u64 u128 usize);
                    loc.transitions += 12;
                    let _ = n;
                }
            }
            loc.states += 2;
        }
        Ok(())
    });
    let p = Arc::new(patterns(128, true));
    let n = p.len() as u64;
    ctx.unit("Vec<u8>/words to bytes and back", n, false, move |i, loc| {
        for q in p.iter() {
            vectors(p[i as usize] ^ q)?;
            loc.transitions += 12;
            loc.states += 1;
        }
        Ok(())
    });
    ctx.unit("Vec<u8>/from slices", 65, false, |i, loc| {
        for k in 0..5 {
            let b = contents(i as usize, k);
            let mut r = b.clone();
            r.reverse();
            let (le, be) = unsafe { (Vec::<u8>::from_u8_slice(&b, Endianness::LittleEndian), Vec::<u8>::from_u8_slice(&b, Endianness::BigEndian)) };
            let (wl, wb) = if cfg!(target_endian = "little") { (&b, &r) } else { (&r, &b) };
            ensure!(le == *wl && be == *wb, "Vec<u8>: from_u8_slice of {b:x?} is {le:x?} / {be:x?}");
            loc.transitions += 2;
        }
        loc.states += 1;
        Ok(())
    });
    ctx.finish()
}
