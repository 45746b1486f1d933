//! M38: the index types work over any machine word that implements `Bits`, not just the built-in ones
//!
//! The modules of the harness are compiled into this program once more, because the words below have to be known to them.
#![allow(dead_code, unused_macros)]
#[path = "../engine.rs"]
pub mod engine;
#[path = "../fam.rs"]
pub mod fam;
#[macro_use]
#[path = "../ix.rs"]
pub mod ix;
#[path = "../json.rs"]
pub mod json;
#[path = "../model.rs"]
pub mod model;
#[macro_use]
#[path = "../ops.rs"]
pub mod ops;

use engine::*;
use fam::{Density, Fam};
use ix::morton_index::dimensions::*;
use ix::morton_index::number::{Bits, Endianness};
use ix::morton_index::{
    Error, FixedDepthStorage2D, FixedDepthStorage3D, MortonIndex, MortonIndex2D, MortonIndex3D, MortonIndexNaming, StaticStorage2D, StaticStorage3D,
};
use ix::*;
use ops::*;
use std::cmp::Ordering;
use std::ops::Range;
use std::sync::Arc;

/// An unsigned integer of N bytes (at most 16), least significant byte first
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Uint<const N: usize>([u8; N]);

impl<const N: usize> Uint<N> {
    const MASK: u128 = if N >= 16 { u128::MAX } else { (1 << (8 * N)) - 1 };
    fn of(v: u128) -> Self {
        let b = v.to_le_bytes();
        Uint(std::array::from_fn(|i| b[i]))
    }
    fn val(&self) -> u128 {
        let mut b = [0; 16];
        b[..N].copy_from_slice(&self.0);
        u128::from_le_bytes(b)
    }
}
impl<const N: usize> Default for Uint<N> {
    fn default() -> Self {
        Uint([0; N])
    }
}
impl<const N: usize> PartialOrd for Uint<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for Uint<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.val().cmp(&o.val())
    }
}
impl<const N: usize> std::fmt::Debug for Uint<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.val())
    }
}

fn ones(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1 << n) - 1
    }
}

impl<const N: usize> Bits for Uint<N> {
    const BITS: usize = N * 8;
    unsafe fn get_bits(&self, r: Range<usize>) -> Self {
        Self::of(self.val().checked_shr(r.start as u32).unwrap_or(0) & ones(r.len()))
    }
    unsafe fn get_bits_as_usize(&self, r: Range<usize>) -> usize {
        self.get_bits(r).val() as usize
    }
    unsafe fn set_bits(&mut self, r: Range<usize>, new_value: Self) {
        let m = ones(r.len()).checked_shl(r.start as u32).unwrap_or(0);
        let n = new_value.val().checked_shl(r.start as u32).unwrap_or(0);
        // like the built-in words, which do not cut the value to the range
        *self = Self::of((self.val() & !m) | n);
    }
    unsafe fn set_bits_from_usize(&mut self, r: Range<usize>, new_value: usize) {
        self.set_bits(r, Self::of(new_value as u128 & Self::MASK))
    }
    unsafe fn as_u8(self) -> u8 {
        self.val() as u8
    }
    unsafe fn as_u16(self) -> u16 {
        self.val() as u16
    }
    unsafe fn as_u32(self) -> u32 {
        self.val() as u32
    }
    unsafe fn as_u64(self) -> u64 {
        self.val() as u64
    }
    unsafe fn as_u128(self) -> u128 {
        self.val()
    }
    unsafe fn as_usize(self) -> usize {
        self.val() as usize
    }
    unsafe fn as_u8_slice(&self) -> &[u8] {
        &self.0
    }
    unsafe fn as_u8_slice_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
    unsafe fn from_u8(v: u8) -> Self {
        Self::of(v as u128)
    }
    unsafe fn from_u16(v: u16) -> Self {
        Self::of(v as u128)
    }
    unsafe fn from_u32(v: u32) -> Self {
        Self::of(v as u128)
    }
    unsafe fn from_u64(v: u64) -> Self {
        Self::of(v as u128)
    }
    unsafe fn from_u128(v: u128) -> Self {
        Self::of(v)
    }
    unsafe fn from_usize(v: usize) -> Self {
        Self::of(v as u128)
    }
    unsafe fn from_u8_slice(bytes: &[u8], e: Endianness) -> Self {
        let mut b = [0; N];
        for (x, y) in b.iter_mut().zip(bytes) {
            *x = *y;
        }
        if e == Endianness::BigEndian {
            b.reverse();
        }
        Uint(b)
    }
    fn size(&self) -> usize {
        N
    }
}

pub type U24 = Uint<3>;
pub type U40 = Uint<5>;
pub type U56 = Uint<7>;
pub type U72 = Uint<9>;
pub type U112 = Uint<14>;

macro_rules! word {
    ($u:ident $f2:ident $s2:ident $w2:ident $f3:ident $s3:ident $w3:ident) => {
        fixed_ix!($f2, Dim2D, MortonIndex2D, FixedDepthStorage2D, $u);
        static_ix!($s2, Dim2D, MortonIndex2D, StaticStorage2D, $u);
        fixed_ix!($f3, Dim3D, MortonIndex3D, FixedDepthStorage3D, $u);
        static_ix!($s3, Dim3D, MortonIndex3D, StaticStorage3D, $u);
        width!($w2, Dim2D, $f2, $s2, D2D);
        width!($w3, Dim3D, $f3, $s3, D3D);
        static_conv!($w2 $w3);
    };
}
word!(U24 F2D24 S2D24 W2D24 F3D24 S3D24 W3D24);
word!(U40 F2D40 S2D40 W2D40 F3D40 S3D40 W3D40);
word!(U56 F2D56 S2D56 W2D56 F3D56 S3D56 W3D56);
word!(U72 F2D72 S2D72 W2D72 F3D72 S3D72 W3D72);
word!(U112 F2D112 S2D112 W2D112 F3D112 S3D112 W3D112);

macro_rules! each_width {
    ($f:ident ( $($a:expr),* )) => {
        $f::<W2D24>($($a),*);
        $f::<W2D40>($($a),*);
        $f::<W2D56>($($a),*);
        $f::<W2D72>($($a),*);
        $f::<W2D112>($($a),*);
        $f::<W3D24>($($a),*);
        $f::<W3D40>($($a),*);
        $f::<W3D56>($($a),*);
        $f::<W3D72>($($a),*);
        $f::<W3D112>($($a),*);
    };
}

/// Building, reading, iterating, naming, writing every level with every cell, and refusing one cell too many
fn nodes<T: Ix>(ctx: &mut Ctx) {
    let cap = T::CAP.unwrap();
    for (d, f) in fams::<T>(ctx.pick(Density::Medium, Density::Dense), ctx.pick(1 << 10, 1 << 18)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/nodes/d{d}", T::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            same_all(&x, &v)?;
            for l in 0..d {
                for c in 0..radix::<T>() as u8 {
                    let mut y = x.clone();
                    y.set_cell_at_level(l, <T::D as Dm>::mk(c));
                    let w = model::set(&v, l, c);
                    same(&y, &w).map_err(|e| format!("writing cell {c} at level {l} of {}: {e}", show(&v)))?;
                    ensure!((y == x) == (w == v) && (y.cmp(&x) == model::cmp(&w, &v)), "{}: {} and {} compare wrong", T::NAME, show(&w), show(&v));
                    ensure!(w != v || hash_stream(&y) == hash_stream(&x), "{}: equal indices of {} hash differently", T::NAME, show(&v));
                    loc.transitions += 1;
                }
            }
            for (naming, want) in [
                (MortonIndexNaming::CellConcatenation, model::name_concat(&v)),
                (MortonIndexNaming::CellConcatenationWithRoot, model::name_root(&v)),
            ] {
                let got = x.to_string(naming);
                ensure!(got == want, "{}: the name of {} is {got:?}, expected {want:?}", T::NAME, show(&v));
            }
            loc.states += 1;
            loc.traces += 1;
            loc.sample(|| format!("{}: {} read, and every level written", T::NAME, show(&v)));
            Ok(())
        });
    }
    ctx.unit(format!("{}/one cell too many", T::NAME), 40, false, move |i, loc| {
        let d = cap + 1 + i as usize;
        match build::<T>(&vec![1; d]) {
            Ok(x) => return Err(format!("{}: building from {d} cells succeeded and gave depth {}", T::NAME, x.depth())),
            Err(e) => ensure!(limit_of(&e) == Some(cap), "{}: building from {d} cells: {e:?}, expected the depth limit {cap}", T::NAME),
        }
        let x = built::<T>(&norm::<T>(&vec![1; cap.saturating_sub(i as usize)]))?;
        let l = x.depth() + (i as usize) % 3;
        must_panic(&format!("{}: reading level {l} of an index of depth {}", T::NAME, x.depth()), || x.get_cell_at_level(l))?;
        must_panic(&format!("{}: writing level {l} of an index of depth {}", T::NAME, x.depth()), || {
            let mut y = x.clone();
            y.set_cell_at_level(l, <T::D as Dm>::mk(0));
        })?;
        loc.states += 1;
        loc.transitions += 3;
        Ok(())
    });
}

/// Coordinates of every node, and back
fn grid<T: Ix>(ctx: &mut Ctx) {
    for (d, f) in fams::<T>(ctx.pick(Density::Light, Density::Dense), ctx.pick(1 << 10, 1 << 18)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/grid/d{d}", T::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            for ord in 0..model::orderings(T::DIM) {
                let m = model::grid(T::DIM, ord, &v);
                let m = [m[0] as usize, m[1] as usize, m[2] as usize];
                let g = x.to_grid(ord);
                ensure!(g == m, "{}: the coordinates of {} in ordering {ord} are {g:x?}, expected {m:x?}", T::NAME, show(&v));
                let junk = if d < UBITS { usize::MAX << d } else { 0 };
                for j in [0, junk] {
                    let g = [m[0] | j, m[1] | j, if T::DIM == 3 { m[2] | j } else { 0 }];
                    let y = T::from_grid(g, d, ord).map_err(|e| format!("{}: from_grid_index({g:x?}, depth {d}, ordering {ord}) failed: {e}", T::NAME))?;
                    same(&y, &v).map_err(|e| format!("from_grid_index({g:x?}, depth {d}, ordering {ord}): {e}"))?;
                    ensure!(y == x && hash_stream(&y) == hash_stream(&x), "{}: from_grid_index({g:x?}, depth {d}, ordering {ord}) differs from the index built from its cells", T::NAME);
                }
                loc.transitions += 3;
            }
            loc.states += 1;
            Ok(())
        });
    }
}

/// Every operation on every node
fn steps<T: Conv>(ctx: &mut Ctx) {
    let cap = T::CAP.unwrap();
    for (d, f) in fams::<T>(ctx.pick(Density::Light, Density::Medium), ctx.pick(1 << 8, 1 << 15)) {
        let (n, full) = (f.len(), f.is_full());
        let span = ctx.pick(3, usize::MAX);
        ctx.unit(format!("{}/operations/d{d}", T::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            for op in ops_of::<T>(&v, span) {
                loc.transitions += 1;
                match (apply(&x, &op), step::<T>(&v, &op)) {
                    (None, None) => {}
                    (Some(y), None) => return Err(format!("{}: {op} on {} succeeded ({}) but is impossible", T::NAME, show(&v), show(&reads(&y)))),
                    (None, Some(w)) => return Err(format!("{}: {op} on {} was refused, it must lead to {}", T::NAME, show(&v), show(&w))),
                    (Some(y), Some(w)) => {
                        same(&y, &w).map_err(|e| format!("{op} on {}: {e}", show(&v)))?;
                        let z = built::<T>(&w)?;
                        ensure!(y == z && y.cmp(&z).is_eq() && hash_stream(&y) == hash_stream(&z), "{}: {op} on {} differs from the index built from its cells", T::NAME, show(&v));
                    }
                }
            }
            loc.states += 1;
            loc.sample(|| format!("{}: all operations on {}", T::NAME, show(&v)));
            Ok(())
        });
    }
    ctx.unit(format!("{}/zeroed", T::NAME), cap as u64 + 3, true, move |i, loc| {
        let d = i as usize;
        loc.states += 1;
        loc.transitions += 1;
        match (T::zeroed_(d), d <= cap) {
            (Some(x), true) => same_all(&x, &vec![0; d]),
            (None, false) => Ok(()),
            (Some(x), false) => Err(format!("{}: zeroed({d}) gave an index of depth {}", T::NAME, x.depth())),
            (None, true) => Err(format!("{}: zeroed({d}) was refused", T::NAME)),
        }
    });
}

/// Order, equality and hashes of all pairs of nodes of the given families
fn pairs<T: Ix>(ctx: &mut Ctx) {
    let cap = T::CAP.unwrap();
    let mut vs: Vec<Vec<u8>> = vec![];
    let mut v = vec![];
    let depths: Vec<usize> = if T::KIND == Kind::Fixed { vec![cap] } else { (0..=cap).collect() };
    let keep = ctx.pick(40, 200) * if T::KIND == Kind::Fixed { 12 } else { 1 };
    for d in depths {
        let f = if radix::<T>().pow(d.min(3) as u32) <= 64 && d <= 3 { Fam::full(radix::<T>(), d) } else { Fam::structured_only(radix::<T>(), d, Density::Light) };
        for i in (0..f.len()).step_by((f.len() / keep).max(1) as usize) {
            f.get(i, &mut v);
            vs.push(v.clone());
        }
    }
    vs.sort_by(|a, b| model::cmp(a, b));
    vs.dedup();
    let n = vs.len() as u64;
    let objs: Arc<Vec<Result<T, String>>> = Arc::new(vs.iter().map(|v| observe(|| built::<T>(v)).and_then(|x| x)).collect());
    ctx.unit(format!("{}/all pairs", T::NAME), n, false, move |i, loc| {
        let a = objs[i as usize].as_ref().map_err(|e| e.clone())?;
        for (j, b) in objs.iter().enumerate() {
            let b = b.as_ref().map_err(|e| e.clone())?;
            let want = (i as usize).cmp(&j);
            ensure!(
                a.cmp(b) == want && a.partial_cmp(b) == Some(want) && (a == b) == want.is_eq(),
                "{}: {} and {} compare as {:?}, equal: {}; the order of the cells is {want:?}",
                T::NAME,
                show(&reads(a)),
                show(&reads(b)),
                a.cmp(b),
                a == b
            );
        }
        loc.states += 1;
        loc.evals += n;
        loc.distinct += n;
        Ok(())
    });
}

/// To the other storage kinds and back
fn conversions<W: Width>(ctx: &mut Ctx) {
    let cap = <W::Fixed as Ix>::CAP.unwrap();
    for d in 0..=cap + 3 {
        let f = fam(1 << W::D::DIM, d, ctx.pick(Density::Light, Density::Dense), ctx.pick(1 << 10, 1 << 18));
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/conversions/d{d}", W::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let y = built::<W::Dyn>(&v)?;
            loc.states += 1;
            loc.transitions += 2;
            let (fx, sx) = (W::d2f(y.clone()), W::d2s(y.clone()));
            if d > cap {
                for (to, e) in [("fixed", fx.err()), ("static", sx.err())] {
                    ensure!(e.as_ref().and_then(limit_of) == Some(cap), "{}: dynamic index of depth {d} to {to}: {e:?}, expected the depth limit {cap}", W::NAME);
                }
                return Ok(());
            }
            let how = |e: String| format!("converting {}: {e}", show(&v));
            let fx = fx.map_err(|e| how(e.to_string()))?;
            let sx = sx.map_err(|e| how(e.to_string()))?;
            let p = model::pad(&v, cap);
            same_all(&fx, &p).map_err(how)?;
            same_all(&sx, &v).map_err(how)?;
            same_all(&W::s2d(sx.clone()), &v).map_err(how)?;
            ensure!(W::s2d(sx.clone()) == y, "{}: {} converted to static and back differs from itself", W::NAME, show(&v));
            same_all(&W::s2f(sx), &p).map_err(how)?;
            same_all(&W::f2s(fx.clone()), &p).map_err(how)?;
            same_all(&W::f2d(fx.clone()), &p).map_err(how)?;
            ensure!(fx == built::<W::Fixed>(&v)?, "{}: {} converted to fixed differs from the index built from its cells", W::NAME, show(&v));
            loc.transitions += 4;
            loc.traces += 1;
            loc.sample(|| format!("{}: {} between the storage kinds", W::NAME, show(&v)));
            Ok(())
        });
    }
}

fn all<W: Width>(ctx: &mut Ctx)
where
    W::Static: Conv,
{
    nodes::<W::Fixed>(ctx);
    nodes::<W::Static>(ctx);
    grid::<W::Fixed>(ctx);
    grid::<W::Static>(ctx);
    steps::<W::Static>(ctx);
    pairs::<W::Fixed>(ctx);
    pairs::<W::Static>(ctx);
    conversions::<W>(ctx);
}

fn main() {
    let mut ctx = Ctx::from_args("M38");
    each_width!(all(&mut ctx));
    ctx.finish()
}
