//! The operations of the library executed for a bounded, enumerated set of inputs, each summarised by a digest of
//! everything observed. No expectation is attached: two executions of the same probe in different environments (build
//! profile, platform) must agree, and no execution may trip the interpreter.
use crate::engine::observe;
use crate::fam::{Density, Fam};
use crate::ix::*;
use crate::ops::*;
use crate::word::{low, Word};
use crate::{each_static, each_width, each_word, model};
use morton_index::dimensions::{Octant, Quadrant};
use morton_index::helper::make_displayable;
use morton_index::number::{
    add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, add_zero_before_every_bit_u16, add_zero_before_every_bit_u8,
    add_zero_behind_every_bit_u8, Bits, Endianness,
};
use morton_index::MortonIndexNaming::*;
use morton_index::{DynamicStorage, DynamicStorage2D, DynamicStorage3D, Error, FixedDepthStorage, MortonIndex3D, StaticStorage, StaticStorage3D, StorageType, VariableDepthStorage};

#[derive(Clone, Copy)]
pub struct Cfg {
    /// 1: quick, 2: thorough; interpreted: 0: quick, 3: thorough
    pub size: usize,
    /// Coordinates, and depths of grids, are limited to this many bits
    pub coord: usize,
    /// Leave out what legitimately depends on the platform: usize-wide types, byte views of words, hashes, Debug
    pub portable: bool,
}

pub struct Digest(u64, u64);
impl Digest {
    pub fn new() -> Digest {
        Digest(0xcbf29ce484222325, 0)
    }
    #[inline]
    pub fn put(&mut self, v: u64) {
        self.1 += 1;
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.put(b.len() as u64 + 0x1000);
        for c in b {
            self.put(*c as u64);
        }
    }
    pub fn wide(&mut self, v: u128) {
        self.put(v as u64);
        self.put((v >> 64) as u64);
    }
    /// A call that may panic: the panic is the result
    pub fn call<T>(&mut self, f: impl FnOnce() -> T, put: impl FnOnce(&mut Digest, T)) {
        match observe(f) {
            Ok(v) => put(self, v),
            Err(_) => self.put(0xDEAD),
        }
    }
    pub fn index<T: Ix>(&mut self, x: &T) {
        let d = x.depth();
        self.put(d as u64);
        for l in 0..d {
            self.put(<T::D as Dm>::num(&x.get_cell_at_level(l)) as u64);
        }
    }
    pub fn get(&self) -> u64 {
        self.0
    }
    /// Number of observations in it
    pub fn puts(&self) -> u64 {
        self.1
    }
}

pub struct Group {
    pub name: String,
    pub n: u64,
    pub f: Box<dyn Fn(u64, &mut Digest) + Send + Sync>,
}

fn group(g: &mut Vec<Group>, name: String, n: u64, f: impl Fn(u64, &mut Digest) + Send + Sync + 'static) {
    g.push(Group { name, n, f: Box::new(f) });
}

/// An enumerated set of nodes, of several depths
struct Nodes {
    r: usize,
    /// interpreted: two nodes per depth, made when they are asked for
    lazy: Vec<usize>,
    list: Vec<Vec<u8>>,
}
impl Nodes {
    fn new(r: usize, depths: &[usize], size: usize) -> Nodes {
        if size == 0 || size == 3 {
            return Nodes { r, lazy: depths.to_vec(), list: vec![] };
        }
        let keep = if size == 1 { 24 } else { u64::MAX };
        let mut list = vec![];
        let mut buf = vec![];
        for d in depths {
            let f = Fam::new(r, *d, Density::Light, 64);
            let step = (f.len() / keep).max(1);
            let mut i = 0;
            while i < f.len() {
                f.get(i, &mut buf);
                list.push(buf.clone());
                i += step;
            }
        }
        Nodes { r, lazy: vec![], list }
    }
    fn len(&self) -> u64 {
        (self.list.len() + 2 * self.lazy.len()) as u64
    }
    fn get(&self, i: u64) -> Vec<u8> {
        let i = i as usize;
        if self.lazy.is_empty() {
            return self.list[i].clone();
        }
        let (d, r) = (self.lazy[i / 2], self.r);
        // the first is not periodic in the bytes, the second ends in non-zero bits everywhere
        if i % 2 == 0 {
            (0..d).map(|l| ((3 * l + 1 + l / 8) % r) as u8).collect()
        } else {
            vec![(r - 1) as u8; d]
        }
    }
}

/// Depths a variable-depth index is put to
fn depths_of<T: Ix>(size: usize) -> Vec<usize> {
    let max = match size {
        0 => T::CAP.unwrap_or(17),
        3 => T::CAP.unwrap_or(35),
        _ => max_explored::<T>(),
    };
    if size > 0 || max <= 10 {
        return (0..=max).collect();
    }
    let mut v: Vec<usize> = (0..=9).chain([max - 1, max]).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Numbers beyond every depth, equally many on every platform
fn far() -> [usize; 8] {
    [255, 256, 257, 65536, 1 << (UBITS / 2), usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX]
}

/// Types that only exist as another name of one of the others on a 64-bit platform
fn skipped(c: Cfg, name: &str) -> bool {
    (c.portable || c.size == 0 || c.size == 3) && (name.ends_with("us") || name == "usize")
}

fn common<T: Ix>(c: Cfg, x: &T, v: &[u8], g: &mut Digest) {
    let d = v.len();
    g.index(x);
    for l in 0..d {
        g.put(<T::D as Dm>::num(&unsafe { x.get_cell_at_level_unchecked(l) }) as u64);
    }
    g.bytes(&x.iterate(d + 2));
    for o in x.iter_past_end(2) {
        g.put(o.map_or(99, |c| c as u64));
    }
    g.bytes(x.to_string(CellConcatenation).as_bytes());
    g.bytes(x.to_string(CellConcatenationWithRoot).as_bytes());
    if d <= c.coord {
        g.bytes(x.to_string(GridIndex).as_bytes());
        for o in 0..model::orderings(T::DIM) {
            for a in x.to_grid(o) {
                g.put(a as u64);
            }
        }
        g.bytes(make_displayable(&[x.clone(), x.clone()], GridIndex).to_string().as_bytes());
    }
    g.index(&x.inverted());
    if !c.portable {
        g.put(hash(x));
        g.bytes(dbg(x).as_bytes());
    }
    // refused access
    for l in (d..d + 3).chain(far()) {
        if l < d || c.size == 0 && l > d && l < usize::MAX {
            continue;
        }
        g.call(|| x.get_cell_at_level(l), |g, c| g.put(<T::D as Dm>::num(&c) as u64));
        let mut y = x.clone();
        g.call(|| y.set_cell_at_level(l, <T::D as Dm>::mk(1)), |g, _| g.put(7));
        g.index(&y);
    }
    // order against relatives
    let m = (radix::<T>() - 1) as u8;
    for l in (0..d).filter(|l| c.size > 0 || *l < 1 || l + 2 > d || l % 13 == 3) {
        for n in [(v[l] + 1) & m, v[l].wrapping_sub(1) & m] {
            if c.size == 0 && n < v[l] {
                continue;
            }
            let mut w = v.to_vec();
            w[l] = n;
            match build::<T>(&w) {
                Ok(y) => {
                    g.put(x.cmp(&y) as i8 as u8 as u64);
                    g.put((*x == y) as u64 + 2 * (*x < y) as u64);
                    let mut z = x.clone();
                    z.set_cell_at_level(l, <T::D as Dm>::mk(n));
                    g.put((z == y) as u64);
                    g.index(&z);
                    let mut z = x.clone();
                    unsafe { z.set_cell_at_level_unchecked(l, <T::D as Dm>::mk(n)) };
                    g.put((z == y) as u64);
                }
                Err(_) => g.put(5),
            }
        }
    }
}

fn fixed<T: Ix>(c: Cfg, out: &mut Vec<Group>) {
    if skipped(c, T::NAME) {
        return;
    }
    let cap = T::CAP.unwrap();
    let ns = Nodes::new(radix::<T>(), &[cap], c.size);
    group(out, format!("{}/nodes", T::NAME), ns.len(), move |i, g| {
        let v = &ns.get(i);
        g.call(|| build::<T>(v), |g, r| match r {
            Ok(x) => common(c, &x, v, g),
            Err(_) => g.put(6),
        });
    });
    group(out, format!("{}/short and long", T::NAME), cap as u64 + 3, move |i, g| {
        let v: Vec<u8> = (0..i as usize).map(|l| ((l + 1) % radix::<T>()) as u8).collect();
        g.call(|| build::<T>(&v), |g, r| match r {
            Ok(x) => g.index(&x),
            Err(e) => g.put(limit_of(&e).unwrap_or(9999) as u64),
        });
        g.index(&T::default());
    });
}

fn variable<T: Conv>(c: Cfg, out: &mut Vec<Group>) {
    if skipped(c, T::NAME) {
        return;
    }
    let r = radix::<T>();
    {
        let ns = Nodes::new(r, &depths_of::<T>(c.size), c.size);
        group(out, format!("{}/nodes", T::NAME), ns.len(), move |i, g| {
            let v = &ns.get(i);
            let d = v.len();
            g.call(|| build::<T>(v), |g, x| match x {
                Ok(x) => {
                    common(c, &x, v, g);
                    let span = [1, 4, 4, 2][c.size];
                    for op in ops_of::<T>(v, span) {
                        if let Op::Grid(_) = op {
                            let lim = match T::CAP {
                                None => c.coord / 2,
                                Some(cap) => cap.min(c.coord),
                            };
                            if d > lim {
                                continue;
                            }
                        }
                        g.call(|| apply(&x, &op), |g, y| match y {
                            Some(y) => {
                                g.index(&y);
                                g.put(x.cmp(&y) as i8 as u8 as u64);
                                g.put((x == y) as u64);
                                if !c.portable {
                                    g.put(hash(&y));
                                }
                            }
                            None => g.put(3),
                        });
                    }
                    g.index(&x);
                }
                Err(_) => g.put(6),
            });
        });
    }
    let cap = T::CAP.unwrap_or(40);
    group(out, format!("{}/zeroed, long, extreme", T::NAME), cap as u64 + 3, move |i, g| {
        let d = i as usize;
        g.call(|| T::zeroed_(d), |g, x| match x {
            Some(x) => g.index(&x),
            None => g.put(4),
        });
        let v: Vec<u8> = (0..d).map(|l| ((l + 1) % r) as u8).collect();
        g.call(|| build::<T>(&v), |g, x| match x {
            Ok(x) => {
                g.index(&x);
                for k in far() {
                    g.call(|| x.ancestor(nz(k)), |g, y| g.put(y.is_some() as u64));
                    g.call(|| x.with_depth(k), |g, y| g.put(y.is_some() as u64));
                }
            }
            Err(e) => g.put(limit_of(&e).unwrap_or(9999) as u64),
        });
        g.index(&T::default());
    });
}

fn coords(bits: usize, k: usize, size: usize) -> Vec<[usize; 3]> {
    let m = if bits >= UBITS { usize::MAX } else { (1usize << bits) - 1 };
    let a = 0x9E37_79B9_7F4A_7C15u64 as usize & m;
    let b = 0x0123_4567_89AB_CDEFu64 as usize & m;
    let mut v = vec![[m, 0, m & 0x5555_5555], [a, b, a ^ b]];
    if size > 0 {
        v.extend([[0, 0, 0], [m, m, m], [b, a, m]]);
    }
    if size == 1 || size == 2 {
        for j in 0..bits {
            v.push([1 << j, m ^ (1 << j), a.rotate_left(j as u32) & m]);
        }
        v.push([k & m, (k * 37) & m, (k * 1001) & m]);
    }
    v
}

fn grids<T: Ix>(c: Cfg, out: &mut Vec<Group>) {
    if skipped(c, T::NAME) {
        return;
    }
    // such fixed-depth types refuse, at compile time or run time
    if T::KIND == Kind::Fixed && T::CAP.unwrap() > c.coord {
        return;
    }
    let mut ds: Vec<usize> = match T::KIND {
        Kind::Fixed => vec![T::CAP.unwrap()],
        // deeper ones are refused, at a depth that depends on the width of usize
        Kind::Dynamic => (0..=c.coord / 2).collect(),
        Kind::Static => (0..=T::CAP.unwrap() + 2).collect(),
    };
    if c.size == 0 {
        let max = *ds.last().unwrap();
        ds.retain(|d| *d < 10 || d + 4 > max || d % 8 == 0);
    }
    if T::KIND != Kind::Fixed {
        ds.extend(far());
    }
    let os = model::orderings(T::DIM) as u64;
    group(out, format!("{}/from grid", T::NAME), ds.len() as u64 * os, move |i, g| {
        let d = ds[(i / os) as usize];
        for q in coords(c.coord, i as usize, c.size) {
            g.call(|| T::from_grid(q, d, (i % os) as usize), |g, x| match x {
                Ok(x) => {
                    g.index(&x);
                    if let Ok(y) = build::<T>(&reads(&x)) {
                        g.put((x == y) as u64);
                        g.put(x.cmp(&y) as i8 as u8 as u64);
                    }
                }
                Err(e) => g.put(limit_of(&e).unwrap_or(9999) as u64),
            });
        }
    });
}

fn conversions<W: Width>(c: Cfg, out: &mut Vec<Group>) {
    if skipped(c, W::NAME) {
        return;
    }
    let cap = W::Static::CAP.unwrap();
    let r = radix::<W::Static>();
    let mut ds: Vec<usize> = (0..=cap + 3).collect();
    if c.size == 0 {
        ds.retain(|d| *d < 9 || d + 3 > cap || d % 8 == 5);
    }
    {
        let ns = Nodes::new(r, &ds, c.size);
        group(out, format!("{}/conversions", W::NAME), ns.len(), move |i, g| {
            let v = &ns.get(i);
            g.call(|| build::<W::Dyn>(v).ok().unwrap(), |g, x| {
                g.call(|| W::d2f(x.clone()), |g, y| match y {
                    Ok(y) => {
                        g.index(&y);
                        g.index(&W::f2s(y.clone()));
                        g.index(&W::f2d(y));
                    }
                    Err(e) => g.put(limit_of(&e).unwrap_or(9999) as u64),
                });
                g.call(|| W::d2s(x.clone()), |g, y| match y {
                    Ok(y) => {
                        g.index(&y);
                        g.index(&W::s2f(y.clone()));
                        let z = W::s2d(y);
                        g.put((z == x) as u64);
                    }
                    Err(e) => g.put(limit_of(&e).unwrap_or(9999) as u64),
                });
            });
        });
    }
}

fn word_bits<B: Word>(c: Cfg, out: &mut Vec<Group>) {
    if skipped(c, B::WNAME) {
        return;
    }
    let ends: Vec<usize> = (0..=B::W).filter(|e| c.size == 1 || c.size == 2 || c.size == 3 && B::W <= 32 || *e < 10 || *e + 3 > B::W || *e % 13 == 0).collect();
    let pats: Vec<u128> = vec![0, low(B::W), 0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210 & low(B::W)];
    group(out, format!("{}/bit ranges", B::WNAME), B::W as u64, move |a, g| {
        let a = a as usize;
        for &b in ends.iter().filter(|b| **b >= a) {
            for &p in &pats {
                let x = B::of(p);
                unsafe {
                    g.call(|| x.get_bits(a..b), |g, v| g.wide(v.val()));
                    if b - a <= c.coord {
                        g.call(|| x.get_bits_as_usize(a..b), |g, v| g.put(v as u64));
                    }
                    for q in [0, low(b - a), 0x55AA_33CC_0FF0_1234_89AB_CDEF_7654_3210 & low(b - a)] {
                        let mut y = x;
                        g.call(|| y.set_bits(a..b, B::of(q)), |_, _| {});
                        g.wide(y.val());
                        if b - a <= c.coord {
                            let mut y = x;
                            g.call(|| y.set_bits_from_usize(a..b, q as usize), |_, _| {});
                            g.wide(y.val());
                        }
                    }
                }
            }
        }
    });
    group(out, format!("{}/conversions", B::WNAME), 9, move |k, g| {
        let v = [0, 1, u128::MAX, 0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210, 0x80, 0x8000, 1 << 31, 1 << 63, 1 << 127][k as usize];
        unsafe {
            let x = B::of(v);
            for w in [x.as_u8() as u128, x.as_u16() as u128, x.as_u32() as u128, x.as_u64() as u128, x.as_u128()] {
                g.wide(w);
            }
            if !c.portable {
                g.wide(x.as_usize() as u128);
                g.bytes(x.as_u8_slice());
                let mut y = B::default();
                y.as_u8_slice_mut().copy_from_slice(x.as_u8_slice());
                g.wide(y.val());
            }
            for w in [B::from_u8(v as u8), B::from_u16(v as u16), B::from_u32(v as u32), B::from_u64(v as u64), B::from_u128(v)] {
                g.wide(w.val());
            }
            let all: Vec<u8> = (1..=40).collect();
            for n in 0..=20 {
                g.wide(B::from_u8_slice(&all[..n], Endianness::LittleEndian).val());
                g.wide(B::from_u8_slice(&all[..n], Endianness::BigEndian).val());
            }
            g.put(x.size() as u64);
        }
    });
    group(out, format!("{}/align", B::WNAME), 66, move |i, g| {
        let al = i as u128 + 1;
        if (c.size == 0 || c.size == 3) && !al.is_power_of_two() && al != 3 {
            return;
        }
        for v in (0..20).chain([100, 127, 128]).chain((0..70).map(|k| low(B::W) - k)) {
            if c.size == 0 && v % 5 != 0 {
                continue;
            }
            // only where the result can be represented
            let up = v.checked_add(al - 1).map(|s| s / al * al);
            if let (true, Some(_)) = (al <= low(B::W), up.filter(|u| *u <= low(B::W))) {
                g.call(|| B::of(v).align_to(B::of(al)), |g, r| g.wide(r.val()));
            }
            g.call(|| B::of(v).align_to(B::of(0)), |g, r| g.wide(r.val()));
        }
    });
}

fn vec_bits(c: Cfg, out: &mut Vec<Group>) {
    let max = [4, 12, 20, 6][c.size];
    for len in 1..=max {
        group(out, format!("Vec<u8>/bit ranges/{len} bytes"), len as u64 * 8, move |a, g| {
            let a = a as usize;
            for b in a..=len * 8 {
                if c.size == 0 && len > 3 && b - a > 9 && b % 8 > 1 && b - a < 30 {
                    continue;
                }
                for p in [0x9Du8, 0, 0xFF] {
                    if c.size == 0 && p == 0 {
                        continue;
                    }
                    // exactly the bytes that are there: no spare capacity
                    let x: Vec<u8> = (0..len).map(|k| p.rotate_left(3 * k as u32)).collect::<Vec<u8>>().into_boxed_slice().into_vec();
                    unsafe {
                        g.call(|| x.get_bits(a..b), |g, v| g.bytes(&v));
                        let usz = b - a <= c.coord;
                        if usz {
                            g.call(|| x.get_bits_as_usize(a..b), |g, v| g.put(v as u64));
                        }
                        let n = (b - a + 7) / 8;
                        for q in [0x6Bu8, 0, 0xFF] {
                            if c.size == 0 && q == 0xFF - p {
                                continue;
                            }
                            let mut val: Vec<u8> = (0..n).map(|k| q.rotate_left(k as u32)).collect();
                            if (b - a) % 8 != 0 {
                                val[n - 1] &= 0xFF >> (8 - (b - a) % 8);
                            }
                            let as_u = val.iter().rev().fold(0u128, |s, x| s << 8 | *x as u128) as usize;
                            if !val.is_empty() {
                                let mut y = x.clone();
                                g.call(|| y.set_bits(a..b, val), |_, _| {});
                                g.bytes(&y);
                            }
                            if usz {
                                let mut y = x.clone();
                                g.call(|| y.set_bits_from_usize(a..b, as_u), |_, _| {});
                                g.bytes(&y);
                            }
                        }
                    }
                }
            }
        });
    }
    if !c.portable {
        group(out, "Vec<u8>/conversions".to_string(), 5, move |k, g| {
            let v = [0, u128::MAX, 0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210, 1, 1 << 127][k as usize];
            unsafe {
                g.bytes(&Vec::<u8>::from_u8(v as u8));
                g.bytes(&Vec::<u8>::from_u16(v as u16));
                g.bytes(&Vec::<u8>::from_u32(v as u32));
                g.bytes(&Vec::<u8>::from_u64(v as u64));
                g.bytes(&Vec::<u8>::from_u128(v));
                g.bytes(&Vec::<u8>::from_usize(v as usize));
                g.put(Vec::<u8>::from_u16(v as u16).as_u16() as u64);
                g.put(Vec::<u8>::from_u32(v as u32).as_u32() as u64);
                g.put(Vec::<u8>::from_u64(v as u64).as_u64());
                g.wide(Vec::<u8>::from_u128(v).as_u128());
                g.put(Vec::<u8>::from_usize(v as usize).as_usize() as u64);
                g.put(Vec::<u8>::from_u8(v as u8).as_u8() as u64);
                let mut y = vec![0u8; 16];
                y.as_u8_slice_mut().copy_from_slice(&v.to_ne_bytes());
                g.bytes(y.as_u8_slice());
                g.put(y.size() as u64);
                g.bytes(&Vec::<u8>::from_u8_slice(&y, Endianness::LittleEndian));
            }
        });
    }
}

fn raw<B: Word>(c: Cfg, out: &mut Vec<Group>) {
    if skipped(c, B::WNAME) {
        return;
    }
    use morton_index::FixedDepthStorage3D;
    let cap = B::W / 3;
    let unused = B::W % 3;
    group(out, format!("{}/raw", B::WNAME), cap as u64 + 1, move |d, g| {
        for p in [low(B::W), 0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210, 0xFACE_8D1E_55AA_C0DE_1357_9BDF_2468_ACE0] {
            let w = p & low(B::W) & !low(unused);
            let x = MortonIndex3D::<FixedDepthStorage3D<B>>::from_raw_index(B::of(w));
            for o in x.cells() {
                g.put(crate::ix::O.iter().position(|k| *k == o).unwrap() as u64);
            }
            let w = w & !low(B::W - 3 * d as usize);
            let y = MortonIndex3D::<StaticStorage3D<B>>::from_raw_index(B::of(w), d as u8);
            for o in y.cells() {
                g.put(crate::ix::O.iter().position(|k| *k == o).unwrap() as u64);
            }
        }
    });
}

fn misc(c: Cfg, out: &mut Vec<Group>) {
    group(out, "spreading".to_string(), 64, move |i, g| {
        for k in 0..4u64 {
            let b = (i * 4 + k) as u8;
            g.put(add_zero_before_every_bit_u8(b) as u64);
            g.put(add_zero_behind_every_bit_u8(b) as u64);
            g.put(add_two_zeroes_before_every_bit_u8(b) as u64);
            g.put(add_zero_before_every_bit_u16((b as u16) << 8 | !b as u16) as u64);
            g.put(add_two_zeroes_before_every_bit_u32((b as u32) << 14 | !b as u32));
        }
    });
    group(out, "cells".to_string(), 1, move |_, g| {
        for v in (0..20usize).chain(far()) {
            g.put(Quadrant::try_from(v).map_or(77, |q| q.index() as u64));
            g.put(Octant::try_from(v).map_or(77, |q| q.index() as u64));
        }
    });
    if c.coord >= 21 {
        group(out, "fast 3D".to_string(), 6, move |o, g| {
            for q in coords(c.coord, 0, c.size) {
                let v = morton_index::nalgebra::Vector3::new(q[0], q[1], q[2]);
                let x = F3D64::from_grid_index_fast(v, <morton_index::dimensions::Dim3D as Dm>::ord(o as usize));
                g.index(&x);
            }
        });
    }
    // bit packing for other dimensionalities is reached through the storage descriptions
    fn packed<S: StorageType, B: Bits + Clone>(mut b: B, depth: usize, g: &mut Digest)
    where
        <S::Dimension as morton_index::dimensions::Dimension>::Cell: Into<usize> + TryFrom<usize>,
    {
        let n = 1usize << S::DIMENSIONALITY;
        for l in 0..depth {
            if let Ok(cell) = <S::Dimension as morton_index::dimensions::Dimension>::Cell::try_from((l * 5 + 1) % n) {
                unsafe { S::set_cell_at_level_unchecked(&mut b, l, cell) };
            }
        }
        for l in 0..depth {
            g.put(Into::<usize>::into(unsafe { S::get_cell_at_level_unchecked(&b, l) }) as u64);
        }
        g.put(S::max_depth().unwrap_or(0) as u64);
    }
    group(out, "storage descriptions".to_string(), 20, move |d, g| {
        use morton_index::dimensions::{Dim2D, Dim3D};
        let d = d as usize;
        packed::<DynamicStorage<Dim2D>, Vec<u8>>(vec![0u8; (2 * d + 7) / 8].into_boxed_slice().into_vec(), d, g);
        packed::<DynamicStorage<Dim3D>, Vec<u8>>(vec![0u8; (3 * d + 7) / 8].into_boxed_slice().into_vec(), d, g);
        packed::<FixedDepthStorage<Dim2D, u64>, u64>(0, d, g);
        packed::<StaticStorage<Dim3D, u64>, u64>(0, d, g);
    });
}

/// `bits_mut` is safe, so a dynamic storage can be left with fewer or more bytes than its cells need. What it contains then is
/// anybody's guess, and it may panic, but memory has to stay out of it
fn damaged<D: Dm, S: VariableDepthStorage<D, Bits = Vec<u8>> + Clone + for<'a> TryFrom<&'a [D::Cell], Error = Error>>(name: &str, out: &mut Vec<Group>)
where
    for<'a> &'a S: IntoIterator<Item = D::Cell>,
{
    group(out, format!("{name}/bytes taken away or added"), 11 * 4, move |i, g| {
        let (d, len) = ((i / 4) as usize, (i % 4) as usize);
        let v: Vec<D::Cell> = (0..d).map(|l| D::mk(((3 * l + 1) % (1 << D::DIM)) as u8)).collect();
        let Ok(whole) = S::try_from(v.as_slice()) else { return };
        let n = whole.bits().len();
        let len = [0, n / 2, n.saturating_sub(1), n + 1][len];
        let mut x = whole.clone();
        x.bits_mut().resize(len, 0xA5);
        x.bits_mut().shrink_to_fit();
        for skip in 0..d {
            g.call(|| (&x).into_iter().skip(skip).map(|c| D::num(&c) as u64).sum::<u64>(), |g, s| g.put(s));
        }
        g.call(|| (x.cmp(&whole), whole.cmp(&x), x == whole, whole < x), |g, o| g.put((o.0 as i8 + o.1 as i8) as u8 as u64 + u64::from(o.2) + u64::from(o.3)));
        g.call(|| (format!("{x:?}").len(), hash(&x)), |g, o| g.put(o.0 as u64));
        for k in 1..d + 2 {
            g.call(|| x.ancestor(nz(k)), |g, y| g.put(y.map_or(0, |y| y.bits().len() as u64)));
            g.call(|| x.descendant(&(0..k).map(|_| D::mk(1)).collect::<Vec<_>>()), |g, y| g.put(y.map_or(0, |y| y.bits().len() as u64)));
        }
    });
}

/// A depth that no word can hold, with any bits, is accepted by the safe `from_raw_index`: nothing is promised about the
/// result but that it stays out of the memory
fn overdeep<B: Word>(c: Cfg, out: &mut Vec<Group>) {
    if skipped(c, B::WNAME) {
        return;
    }
    use morton_index::{MortonIndex, VariableDepthMortonIndex};
    group(out, format!("{}/raw, deeper than the word", B::WNAME), 3, move |i, g| {
        let cap = B::W / 3;
        let depth = [cap + 1, B::W, 255][i as usize];
        let x = MortonIndex3D::<StaticStorage3D<B>>::from_raw_index(B::of(low(B::W)), depth as u8);
        let y = MortonIndex3D::<StaticStorage3D<B>>::from_raw_index(B::of(0), (cap as u8).max(1) - 1);
        for l in [0, cap, depth - 1] {
            g.call(|| x.get_cell_at_level(l).index(), |g, c| g.put(c as u64));
            g.call(|| x.cells().nth(l).map(|c| c.index()), |g, c| g.put(c.map_or(99, |c| c as u64)));
            let mut z = x;
            g.call(|| z.set_cell_at_level(l, Octant::Five), |g, _| g.put(1));
        }
        g.call(|| (x.cmp(&y), y.cmp(&x), x == y), |g, o| g.put(o.0 as i8 as u8 as u64 + u64::from(o.2)));
        g.call(|| MortonIndex::to_string(&x, CellConcatenation).len(), |g, n| g.put(n as u64));
        g.call(|| x.inverted().depth(), |g, n| g.put(n as u64));
        g.call(|| x.ancestor(nz(depth - 1)).map(|y| y.depth()), |g, n| g.put(n.map_or(999, |n| n as u64)));
        g.call(|| x.descendant(&[Octant::One]).map(|y| y.depth()), |g, n| g.put(n.map_or(999, |n| n as u64)));
        g.call(|| MortonIndex3D::<DynamicStorage3D>::from(x).depth(), |g, n| g.put(n as u64));
        g.call(|| MortonIndex3D::<morton_index::FixedDepthStorage3D<B>>::from(x).depth(), |g, n| g.put(n as u64));
    });
}

pub fn groups(c: Cfg) -> Vec<Group> {
    let mut out = vec![];
    let o = &mut out;
    fixed::<F2D8>(c, o);
    fixed::<F2D16>(c, o);
    fixed::<F2D32>(c, o);
    fixed::<F2D64>(c, o);
    fixed::<F2D128>(c, o);
    fixed::<F2Dus>(c, o);
    fixed::<F3D8>(c, o);
    fixed::<F3D16>(c, o);
    fixed::<F3D32>(c, o);
    fixed::<F3D64>(c, o);
    fixed::<F3D128>(c, o);
    fixed::<F3Dus>(c, o);
    each_static!(variable(c, o));
    variable::<D2D>(c, o);
    variable::<D3D>(c, o);
    crate::each_ix!(grids(c, o));
    each_width!(conversions(c, o));
    each_word!(word_bits(c, o));
    vec_bits(c, o);
    each_word!(raw(c, o));
    misc(c, o);
    // whether such a storage panics depends on the build profile, hence not in the comparison of profiles
    if !c.portable && (c.size == 0 || c.size == 3) {
        damaged::<morton_index::dimensions::Dim2D, DynamicStorage2D>("DynamicStorage2D", o);
        damaged::<morton_index::dimensions::Dim3D, DynamicStorage3D>("DynamicStorage3D", o);
        each_word!(overdeep(c, o));
    }
    out
}
