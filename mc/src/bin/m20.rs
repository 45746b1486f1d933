//! M20: bit ranges of byte vectors
use mcore::engine::*;
use mcore::ix::morton_index::number::Bits;
use mcore::ix::UBITS;
use mcore::*;
use std::sync::Arc;

fn bit(v: &[u8], i: usize) -> bool {
    v[i / 8] >> (i % 8) & 1 == 1
}

/// The bits a..b, packed from the lowest on
fn slice(v: &[u8], a: usize, b: usize) -> Vec<u8> {
    let mut out = vec![0u8; (b - a + 7) / 8];
    for i in a..b {
        if bit(v, i) {
            out[(i - a) / 8] |= 1 << ((i - a) % 8);
        }
    }
    out
}

fn get(v: &Vec<u8>, a: usize, b: usize) -> Outcome {
    let want = slice(v, a, b);
    let got = unsafe { v.get_bits(a..b) };
    if got != want {
        return Err(format!("bits {a}..{b} of {v:x?} are {got:x?}, expected {want:x?}"));
    }
    if b - a <= UBITS {
        let w = want.iter().rev().fold(0u128, |s, x| s << 8 | *x as u128);
        let got = unsafe { v.get_bits_as_usize(a..b) };
        if got as u128 != w {
            return Err(format!("bits {a}..{b} of {v:x?} as usize are {got:#x}, expected {w:#x}"));
        }
    }
    Ok(())
}

/// `val`: at least as many bytes as the range needs, no bits beyond the range
fn set(v: &Vec<u8>, a: usize, b: usize, val: &Vec<u8>, usize_too: bool) -> Outcome {
    let mut want = v.clone();
    for i in a..b {
        let m = 1 << (i % 8);
        if bit(val, i - a) {
            want[i / 8] |= m;
        } else {
            want[i / 8] &= !m;
        }
    }
    let mut x = v.clone();
    unsafe { x.set_bits(a..b, val.clone()) };
    if x != want {
        return Err(format!("setting bits {a}..{b} of {v:x?} to {val:x?} gives {x:x?}, expected {want:x?}"));
    }
    let back = unsafe { x.get_bits(a..b) };
    if back[..] != val[..(b - a + 7) / 8] {
        return Err(format!("bits {a}..{b} of {x:x?} read {back:x?} after they were set to {val:x?}"));
    }
    if usize_too && b - a <= UBITS {
        let u = val.iter().rev().fold(0u128, |s, x| s << 8 | *x as u128) as usize;
        let mut y = v.clone();
        unsafe { y.set_bits_from_usize(a..b, u) };
        if y != want {
            return Err(format!("setting bits {a}..{b} of {v:x?} from the usize {u:#x} gives {y:x?}, expected {want:x?}"));
        }
    }
    Ok(())
}

/// Cut the pattern to the range
fn fit(p: &[u8], bits: usize, extra: usize) -> Vec<u8> {
    let n = (bits + 7) / 8;
    let mut v: Vec<u8> = (0..n).map(|i| p[i % p.len()]).collect();
    if bits % 8 != 0 {
        v[n - 1] &= 0xFF >> (8 - bits % 8);
    }
    v.resize((n + extra).max(1), 0);
    v
}

fn pats(len: usize, more: bool) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for b in [0u8, 0xFF, 0x55, 0xAA, 0x96, 0x81, 0x7E] {
        out.push(vec![b; len]);
    }
    out.push((0..len).map(|i| (i as u8).wrapping_mul(37) ^ 0xC5).collect());
    out.push((0..len).map(|i| if i % 2 == 0 { 0xFF } else { 0 }).collect());
    if more {
        for k in 0..len * 8 {
            let mut v = vec![0u8; len];
            v[k / 8] |= 1 << (k % 8);
            out.push(v.clone());
            out.push(v.iter().map(|x| !x).collect());
        }
    }
    out
}

fn main() {
    let mut ctx = Ctx::from_args("M20");
    let thorough = ctx.thorough();
    // complete: vectors of up to two bytes
    for len in 1..=2usize {
        let rs: Arc<Vec<(usize, usize)>> = Arc::new((0..=len * 8).flat_map(|a| (a..=len * 8).map(move |b| (a, b))).collect());
        let n = rs.len() as u64;
        ctx.unit(format!("all vectors of {len} bytes"), n, len == 1, move |i, loc| {
            let (a, b) = rs[i as usize];
            for w in 0..1u32 << (8 * len) {
                let v = w.to_le_bytes()[..len].to_vec();
                get(&v, a, b)?;
                let vals: Vec<Vec<u8>> = if len == 1 || thorough && b - a <= 6 {
                    (0..1u32 << (b - a)).map(|x| fit(&x.to_le_bytes(), b - a, 0)).collect()
                } else {
                    [[0u8, 0], [0xFF, 0xFF], [0x5A, 0xC3]].iter().map(|x| fit(x, b - a, 0)).collect()
                };
                if a < len * 8 {
                    for val in &vals {
                        set(&v, a, b, val, true)?;
                        loc.transitions += 1;
                    }
                }
                loc.transitions += 1;
            }
            loc.states += 1 << (8 * len);
            loc.sample(|| format!("bits {a}..{b} of every vector of {len} bytes"));
            Ok(())
        });
    }
    // every range of longer vectors
    let max = ctx.pick(20, 40);
    for len in 3..=max {
        let rs: Arc<Vec<(usize, usize)>> = Arc::new((0..=len * 8).flat_map(|a| (a..=len * 8).map(move |b| (a, b))).collect());
        let n = rs.len() as u64;
        let ps = Arc::new(pats(len, thorough && len <= 12 || len <= 4));
        ctx.unit(format!("patterns of {len} bytes, all ranges"), n, false, move |i, loc| {
            let (a, b) = rs[i as usize];
            for v in ps.iter() {
                get(v, a, b)?;
                loc.transitions += 1;
            }
            if a < len * 8 {
                for (k, v) in ps.iter().enumerate().filter(|(k, _)| *k < 9) {
                    for p in [&[0u8][..], &[0xFF], &[0x5A, 0xC3, 0x01, 0x80], &[0x69]] {
                        for extra in [0usize, 1, 9] {
                            if (extra == 0) || k < 3 {
                                set(v, a, b, &fit(p, b - a, extra), extra == 0)?;
                                loc.transitions += 1;
                            }
                        }
                    }
                }
            }
            loc.states += ps.len() as u64;
            loc.sample(|| format!("bits {a}..{b} of {} vectors of {len} bytes", ps.len()));
            Ok(())
        });
    }
    // long vectors: ranges whose ends lie where a narrow bit or byte count would go wrong
    let lens: Vec<usize> = if thorough {
        (21..=80).chain([127, 128, 129, 255, 256, 257, 511, 513, 8191, 8192, 8193, 8200]).collect()
    } else {
        vec![31, 32, 33, 40, 64, 65, 128, 129, 256, 257, 300, 8192, 8193]
    };
    for len in lens {
        let end = len * 8;
        let mut at: Vec<usize> = vec![0, 1, 3, 7, 8, 9, 63, 64, 65];
        for c in [128, 256, 512, 2048, 2056, 4096, 32768, 65536, end] {
            at.extend([c - 9, c - 8, c - 3, c - 1, c, c + 1, c + 5, c + 8]);
        }
        at.retain(|a| *a <= end);
        at.sort_unstable();
        at.dedup();
        let n = at.len() as u64;
        let (at, ps) = (Arc::new(at), Arc::new(pats(len, false)));
        let few = len > 1000;
        ctx.unit(format!("long vectors of {len} bytes"), n * n, false, move |i, loc| {
            let (a, b) = (at[(i / n) as usize], at[(i % n) as usize]);
            if a > b {
                return Ok(());
            }
            for v in ps.iter().skip(if few { 6 } else { 0 }) {
                get(v, a, b)?;
                loc.transitions += 1;
                if a < end {
                    for p in [&[0xFFu8][..], &[0x5A, 0xC3, 0x01, 0x80, 0x3D]] {
                        set(v, a, b, &fit(p, b - a, 0), true)?;
                        loc.transitions += 1;
                    }
                }
            }
            loc.states += 1;
            loc.sample(|| format!("bits {a}..{b} of vectors of {len} bytes"));
            Ok(())
        });
    }
    ctx.unit("size", 300, false, |i, loc| {
        let v = vec![7u8; i as usize];
        ensure!(v.size() == i as usize, "size() of {} bytes is {}", i, v.size());
        loc.transitions += 1;
        Ok(())
    });
    ctx.finish()
}
