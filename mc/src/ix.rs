//! Uniform access to every concrete index type of the library, using its public API only.
use crate::fam::{Density, Fam};
use morton_index::dimensions::*;
use morton_index::nalgebra::{Vector2, Vector3};
use morton_index::{
    DynamicMortonIndex2D, DynamicMortonIndex3D, Error, FixedDepthMortonIndex2D128, FixedDepthMortonIndex2D16, FixedDepthMortonIndex2D32,
    FixedDepthMortonIndex2D64, FixedDepthMortonIndex2D8, FixedDepthMortonIndex3D128, FixedDepthMortonIndex3D16, FixedDepthMortonIndex3D32,
    FixedDepthMortonIndex3D64, FixedDepthMortonIndex3D8, FixedDepthStorage2D, FixedDepthStorage3D, MortonIndex, MortonIndex2D,
    MortonIndex3D, StaticMortonIndex2D128, StaticMortonIndex2D16, StaticMortonIndex2D32, StaticMortonIndex2D64, StaticMortonIndex2D8,
    StaticMortonIndex3D128, StaticMortonIndex3D16, StaticMortonIndex3D32, StaticMortonIndex3D64, StaticMortonIndex3D8, StaticStorage2D,
    StaticStorage3D, VariableDepthMortonIndex,
};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex, OnceLock};

pub use morton_index;
pub use morton_index::nalgebra;

pub type Cell<T> = <<T as MortonIndex>::Dimension as Dimension>::Cell;
pub type Ord_<T> = <<T as MortonIndex>::Dimension as Dimension>::CellOrdering;

pub const UBITS: usize = usize::BITS as usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Fixed,
    Static,
    Dynamic,
}

pub const Q: [Quadrant; 4] = [Quadrant::Zero, Quadrant::One, Quadrant::Two, Quadrant::Three];
pub const O: [Octant; 8] = [
    Octant::Zero,
    Octant::One,
    Octant::Two,
    Octant::Three,
    Octant::Four,
    Octant::Five,
    Octant::Six,
    Octant::Seven,
];

/// The two dimensions of the library, seen by the harness
pub trait Dm: Dimension {
    const DIM: usize;
    fn mk(v: u8) -> Self::Cell;
    fn num(c: &Self::Cell) -> u8;
    fn ord(k: usize) -> Self::CellOrdering;
    fn grid(g: [usize; 3]) -> Self::GridIndex;
    fn ungrid(g: &Self::GridIndex) -> [usize; 3];
}

impl Dm for Dim2D {
    const DIM: usize = 2;
    fn mk(v: u8) -> Quadrant {
        Q[v as usize]
    }
    fn num(c: &Quadrant) -> u8 {
        match c {
            Quadrant::Zero => 0,
            Quadrant::One => 1,
            Quadrant::Two => 2,
            Quadrant::Three => 3,
        }
    }
    fn ord(k: usize) -> QuadrantOrdering {
        match k {
            0 => QuadrantOrdering::XY,
            1 => QuadrantOrdering::YX,
            _ => unreachable!(),
        }
    }
    fn grid(g: [usize; 3]) -> Vector2<usize> {
        Vector2::new(g[0], g[1])
    }
    fn ungrid(g: &Vector2<usize>) -> [usize; 3] {
        [g.x, g.y, 0]
    }
}

impl Dm for Dim3D {
    const DIM: usize = 3;
    fn mk(v: u8) -> Octant {
        O[v as usize]
    }
    fn num(c: &Octant) -> u8 {
        match c {
            Octant::Zero => 0,
            Octant::One => 1,
            Octant::Two => 2,
            Octant::Three => 3,
            Octant::Four => 4,
            Octant::Five => 5,
            Octant::Six => 6,
            Octant::Seven => 7,
        }
    }
    fn ord(k: usize) -> OctantOrdering {
        match k {
            0 => OctantOrdering::XYZ,
            1 => OctantOrdering::XZY,
            2 => OctantOrdering::YXZ,
            3 => OctantOrdering::YZX,
            4 => OctantOrdering::ZXY,
            5 => OctantOrdering::ZYX,
            _ => unreachable!(),
        }
    }
    fn grid(g: [usize; 3]) -> Vector3<usize> {
        Vector3::new(g[0], g[1], g[2])
    }
    fn ungrid(g: &Vector3<usize>) -> [usize; 3] {
        [g.x, g.y, g.z]
    }
}

pub trait Ix: MortonIndex + Clone + Default + Send + Sync + 'static {
    type D: Dm<Cell = Cell<Self>, CellOrdering = Ord_<Self>>;
    const NAME: &'static str;
    const DIM: usize;
    const KIND: Kind;
    /// Width of the word it is stored in (0 = unlimited)
    const BITS: usize;
    /// Highest number of levels
    const CAP: Option<usize>;

    fn build(c: &[Cell<Self>]) -> Result<Self, Error>;
    /// What the iterator yields, cut off after `limit`
    fn iterate(&self, limit: usize) -> Vec<u8>;
    /// `size_hint` before the first item, count(), last(), nth(k)
    fn iter_methods(&self, k: usize) -> ((usize, Option<usize>), usize, Option<u8>, Option<u8>);
    /// The iterator asked `extra` more times after it first returned None
    fn iter_past_end(&self, extra: usize) -> Vec<Option<u8>>;
    fn to_grid(&self, ord: usize) -> [usize; 3];
    /// Grid coordinates to index. `depth` is ignored by fixed-depth types. Dynamic types may panic.
    fn from_grid(g: [usize; 3], depth: usize, ord: usize) -> Result<Self, Error>;
}

pub trait VarIx: Ix + VariableDepthMortonIndex {
    /// None if refused; for static types `depth` must be at most 255
    fn zeroed_(depth: usize) -> Option<Self>;
}

pub fn cells<T: Ix>(v: &[u8]) -> Vec<Cell<T>> {
    v.iter().map(|&x| <T::D as Dm>::mk(x)).collect()
}

pub fn nums<T: Ix>(v: &[Cell<T>]) -> Vec<u8> {
    v.iter().map(<T::D as Dm>::num).collect()
}

/// Index with exactly these cells, or the refusal
pub fn build<T: Ix>(v: &[u8]) -> Result<T, Error> {
    // stack buffer: this is the hottest function of the harness
    let mut buf: [Cell<T>; 80] = std::array::from_fn(|_| <T::D as Dm>::mk(0));
    if v.len() <= 80 {
        for (b, &x) in buf.iter_mut().zip(v) {
            *b = <T::D as Dm>::mk(x);
        }
        T::build(&buf[..v.len()])
    } else {
        T::build(&cells::<T>(v))
    }
}

pub fn built<T: Ix>(v: &[u8]) -> Result<T, String> {
    build::<T>(v).map_err(|e| format!("{}: building from {} failed: {e}", T::NAME, show(v)))
}

/// Cells as a user reads them, level by level
pub fn reads<T: Ix>(x: &T) -> Vec<u8> {
    (0..x.depth()).map(|l| <T::D as Dm>::num(&x.get_cell_at_level(l))).collect()
}

/// The index has exactly the cells `want`, by depth and level-by-level reads
pub fn same<T: Ix>(x: &T, want: &[u8]) -> Result<(), String> {
    if x.depth() != want.len() {
        return Err(format!("{}: depth is {}, expected {} ({})", T::NAME, x.depth(), want.len(), show(want)));
    }
    for (l, w) in want.iter().enumerate() {
        let g = <T::D as Dm>::num(&x.get_cell_at_level(l));
        if g != *w {
            return Err(format!(
                "{}: cell at level {l} is {g}, expected {w}; cells {}, expected {}",
                T::NAME,
                show(&reads(x)),
                show(want)
            ));
        }
    }
    Ok(())
}

/// `same`, and the unchecked reads and the iterator agree too
pub fn same_all<T: Ix>(x: &T, want: &[u8]) -> Result<(), String> {
    same(x, want)?;
    for (l, w) in want.iter().enumerate() {
        let g = <T::D as Dm>::num(&unsafe { x.get_cell_at_level_unchecked(l) });
        if g != *w {
            return Err(format!("{}: unchecked cell at level {l} is {g}, expected {w} in {}", T::NAME, show(want)));
        }
    }
    let it = x.iterate(want.len() + 3);
    if it != want {
        return Err(format!("{}: the iterator yields {}, expected {}", T::NAME, show(&it), show(want)));
    }
    Ok(())
}

/// What a fixed-depth type makes of the cells: fill up with zero
pub fn norm<T: Ix>(v: &[u8]) -> Vec<u8> {
    match (T::KIND, T::CAP) {
        (Kind::Fixed, Some(c)) => crate::model::pad(v, c),
        _ => v.to_vec(),
    }
}

pub fn show(v: &[u8]) -> String {
    if v.len() > 200 {
        return format!("[{} cells: {}...]", v.len(), crate::model::name_concat(&v[..60]));
    }
    format!("[{}]", crate::model::name_concat(v))
}

pub fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A hasher that keeps everything it is fed: equal streams give equal hashes under any hasher
#[derive(Default)]
pub struct Stream(pub Vec<u8>);
impl Hasher for Stream {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xFE);
    }
}
pub fn hash_stream<T: Hash>(x: &T) -> Vec<u8> {
    let mut h = Stream::default();
    x.hash(&mut h);
    h.0
}

pub fn limit_of(e: &Error) -> Option<usize> {
    match e {
        Error::DepthLimitedExceeded { max_depth } => Some(*max_depth),
        _ => None,
    }
}

pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}

/// Levels a dynamic index is explored to
pub fn dyn_depth(dim: usize) -> usize {
    if dim == 2 {
        70
    } else {
        46
    }
}

/// Deepest node of this type that the structured exploration builds
pub fn max_explored<T: Ix>() -> usize {
    T::CAP.unwrap_or(dyn_depth(T::DIM))
}

pub fn radix<T: Ix>() -> usize {
    1 << T::DIM
}

/// Cell families, shared between types
pub fn fam(r: usize, depth: usize, d: Density, full_limit: u64) -> Arc<Fam> {
    type Key = (usize, usize, Density, u64);
    static CACHE: OnceLock<Mutex<HashMap<Key, Arc<Fam>>>> = OnceLock::new();
    let c = CACHE.get_or_init(Default::default);
    let key = (r, depth, d, full_limit);
    if let Some(f) = c.lock().unwrap().get(&key) {
        return f.clone();
    }
    let f = Arc::new(Fam::new(r, depth, d, full_limit));
    c.lock().unwrap().insert(key, f.clone());
    f
}

/// One family per depth at which this type can hold a node
pub fn fams<T: Ix>(d: Density, full_limit: u64) -> Vec<(usize, Arc<Fam>)> {
    // the node sets of the types with up to 16 bits are always complete
    let full_limit = if T::BITS == 8 || T::BITS == 16 { full_limit.max(1 << 16) } else { full_limit };
    match T::KIND {
        Kind::Fixed => {
            let c = T::CAP.unwrap();
            vec![(c, fam(radix::<T>(), c, d, full_limit))]
        }
        _ => {
            let mut v: Vec<_> = (0..=max_explored::<T>()).map(|n| (n, fam(radix::<T>(), n, d, full_limit))).collect();
            v.extend(deep_depths::<T>(d > Density::Medium).into_iter().map(|n| (n, fam(radix::<T>(), n, Density::Spot, 0))));
            v
        }
    }
}

/// Depths at which a level, bit or byte count of a dynamic index outgrows a small integer (M30 goes deeper still)
pub fn deep_depths<T: Ix>(more: bool) -> Vec<usize> {
    if T::KIND != Kind::Dynamic {
        vec![]
    } else if more {
        let mut v: Vec<usize> = [128, 256, 512, 1024].iter().flat_map(|c| c - 3..=c + 3).collect();
        v.extend([85, 86, 170, 171, 300, 341, 342, 682, 683]);
        v
    } else {
        vec![128, 255, 256, 257, 300, 513]
    }
}

/// Levels of a node of depth `d` at which a narrow level, bit or byte count would go wrong, and both ends
pub fn deep_levels(d: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2];
    for c in [8, 31, 32, 64, 85, 86, 128, 170, 171, 256, 341, 342, 512, 683] {
        v.extend([c - 1, c, c + 1]);
    }
    v.extend([d.saturating_sub(3), d.saturating_sub(2), d.saturating_sub(1)]);
    v.retain(|l| *l < d);
    v.sort_unstable();
    v.dedup();
    v
}

/// Numbers that are easy to get wrong when they are cast, multiplied or added to
pub fn extremes(cap: usize, dim: usize) -> Vec<usize> {
    let mut v = vec![];
    let near = |v: &mut Vec<usize>, base: usize, lo: usize, hi: usize| {
        for k in 0..=lo {
            v.push(base.wrapping_sub(k));
        }
        for k in 0..=hi {
            v.push(base.wrapping_add(k));
        }
    };
    let span = cap.min(70) + 2;
    near(&mut v, 1 << 8, 2, span);
    near(&mut v, 1 << 16, 2, span);
    near(&mut v, 1 << 31, 2, 2);
    near(&mut v, 1 << (UBITS / 2), 2, span);
    near(&mut v, 1 << (UBITS - 1), 2, span);
    near(&mut v, usize::MAX, span, 0);
    // (x + 1) * dim and x * dim wrap around to something small
    near(&mut v, usize::MAX / dim, 2, span);
    near(&mut v, usize::MAX / (2 * dim) + 1, 2, span);
    near(&mut v, usize::MAX / 8, 2, 4);
    v.sort_unstable();
    v.dedup();
    v
}

/// Building from a Rust array of the same length, for the lengths that were compiled in
pub trait Arr: Ix {
    fn array(v: &[u8]) -> Option<Result<Self, Error>>;
}
macro_rules! arr {
    ($($t:ty),* ; $l:tt) => { $(
        impl Arr for $t { arr!(@f $l); }
    )* };
    (@f [$($n:literal)*]) => {
        fn array(v: &[u8]) -> Option<Result<Self, Error>> {
            match v.len() {
                $($n => Some({
                    let a: [Cell<Self>; $n] = std::array::from_fn(|i| <<Self as Ix>::D as Dm>::mk(v[i]));
                    Self::try_from(a)
                }),)*
                _ => None,
            }
        }
    };
}
arr!(F2D8, S2D8; [0 1 2 3 4 5 6 7 8 9 256 257]);
arr!(F2D16, S2D16; [0 1 2 3 4 5 6 7 8 9 10 16 17 256 257]);
arr!(F2D32, S2D32; [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 32 33 256 257]);
arr!(F2D64, S2D64, F2Dus, S2Dus; [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 64 256 257]);
arr!(F2D128, S2D128, D2D; [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 128 256 257]);
arr!(F3D8, S3D8; [0 1 2 3 4 5 256 257]);
arr!(F3D16, S3D16; [0 1 2 3 4 5 6 7 10 11 256 257]);
arr!(F3D32, S3D32; [0 1 2 3 4 5 6 7 8 9 10 11 12 20 21 256 257]);
arr!(F3D64, S3D64, F3Dus, S3Dus; [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 42 43 256 257]);
arr!(F3D128, S3D128, D3D; [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 84 85 256 257]);


macro_rules! common_ix {
    ($t:ty, $d:ty, $name:expr, $kind:expr, $bits:expr, $cap:expr) => {
        type D = $d;
        const NAME: &'static str = $name;
        const DIM: usize = <$d as Dm>::DIM;
        const KIND: Kind = $kind;
        const BITS: usize = $bits;
        const CAP: Option<usize> = $cap;
        #[inline]
        fn build(c: &[Cell<Self>]) -> Result<Self, Error> {
            <$t>::try_from(c)
        }
        fn iterate(&self, limit: usize) -> Vec<u8> {
            self.cells().take(limit).map(|c| <$d as Dm>::num(&c)).collect()
        }
        fn iter_methods(&self, k: usize) -> ((usize, Option<usize>), usize, Option<u8>, Option<u8>) {
            (
                self.cells().size_hint(),
                self.cells().count(),
                self.cells().last().map(|c| <$d as Dm>::num(&c)),
                self.cells().nth(k).map(|c| <$d as Dm>::num(&c)),
            )
        }
        fn iter_past_end(&self, extra: usize) -> Vec<Option<u8>> {
            let mut it = self.cells();
            for _ in 0..self.depth() {
                it.next();
            }
            (0..extra).map(|_| it.next().map(|c| <$d as Dm>::num(&c))).collect()
        }
        fn to_grid(&self, ord: usize) -> [usize; 3] {
            <$d as Dm>::ungrid(&self.to_grid_index(<$d as Dm>::ord(ord)))
        }
    };
}

macro_rules! fixed_grid {
    (u128, $alias:ident, $d:ty, $g:ident, $o:ident) => {{
        // 32-bit coordinates cannot address these grids: the library refuses at compile time (3D) or run time (2D)
        #[cfg(target_pointer_width = "64")]
        return Ok(<$alias>::from_grid_index(<$d as Dm>::grid($g), <$d as Dm>::ord($o)));
        #[cfg(not(target_pointer_width = "64"))]
        unreachable!()
    }};
    ($b:ident, $alias:ident, $d:ty, $g:ident, $o:ident) => {
        Ok(<$alias>::from_grid_index(<$d as Dm>::grid($g), <$d as Dm>::ord($o)))
    };
}
macro_rules! fixed_ix {
    ($alias:ident, $d:ty, $idx:ident, $store:ident, $b:ident) => {
        pub type $alias = $idx<$store<$b>>;
        impl Ix for $alias {
            common_ix!(
                $alias, $d, stringify!($alias), Kind::Fixed,
                std::mem::size_of::<$b>() * 8,
                Some(std::mem::size_of::<$b>() * 8 / <$d as Dm>::DIM)
            );
            #[allow(unused_variables)]
            fn from_grid(g: [usize; 3], _depth: usize, ord: usize) -> Result<Self, Error> {
                fixed_grid!($b, $alias, $d, g, ord)
            }
        }
    };
}
macro_rules! static_ix {
    ($alias:ident, $d:ty, $idx:ident, $store:ident, $b:ty) => {
        pub type $alias = $idx<$store<$b>>;
        impl Ix for $alias {
            common_ix!(
                $alias, $d, stringify!($alias), Kind::Static,
                std::mem::size_of::<$b>() * 8,
                Some(std::mem::size_of::<$b>() * 8 / <$d as Dm>::DIM)
            );
            fn from_grid(g: [usize; 3], depth: usize, ord: usize) -> Result<Self, Error> {
                <$alias>::from_grid_index(<$d as Dm>::grid(g), depth, <$d as Dm>::ord(ord))
            }
        }
        impl VarIx for $alias {
            fn zeroed_(depth: usize) -> Option<Self> {
                assert!(depth <= 255);
                <$alias>::zeroed(depth as u8)
            }
        }
    };
}
macro_rules! dynamic_ix {
    ($alias:ident, $d:ty, $t:ty) => {
        pub type $alias = $t;
        impl Ix for $alias {
            common_ix!($alias, $d, stringify!($alias), Kind::Dynamic, 0, None);
            fn from_grid(g: [usize; 3], depth: usize, ord: usize) -> Result<Self, Error> {
                Ok(<$alias>::from_grid_index(<$d as Dm>::grid(g), depth, <$d as Dm>::ord(ord)))
            }
        }
        impl VarIx for $alias {
            fn zeroed_(depth: usize) -> Option<Self> {
                Some(<$alias>::zeroed(depth))
            }
        }
    };
}

fixed_ix!(F2D8, Dim2D, MortonIndex2D, FixedDepthStorage2D, u8);
fixed_ix!(F2D16, Dim2D, MortonIndex2D, FixedDepthStorage2D, u16);
fixed_ix!(F2D32, Dim2D, MortonIndex2D, FixedDepthStorage2D, u32);
fixed_ix!(F2D64, Dim2D, MortonIndex2D, FixedDepthStorage2D, u64);
fixed_ix!(F2D128, Dim2D, MortonIndex2D, FixedDepthStorage2D, u128);
fixed_ix!(F2Dus, Dim2D, MortonIndex2D, FixedDepthStorage2D, usize);
static_ix!(S2D8, Dim2D, MortonIndex2D, StaticStorage2D, u8);
static_ix!(S2D16, Dim2D, MortonIndex2D, StaticStorage2D, u16);
static_ix!(S2D32, Dim2D, MortonIndex2D, StaticStorage2D, u32);
static_ix!(S2D64, Dim2D, MortonIndex2D, StaticStorage2D, u64);
static_ix!(S2D128, Dim2D, MortonIndex2D, StaticStorage2D, u128);
static_ix!(S2Dus, Dim2D, MortonIndex2D, StaticStorage2D, usize);
dynamic_ix!(D2D, Dim2D, DynamicMortonIndex2D);
fixed_ix!(F3D8, Dim3D, MortonIndex3D, FixedDepthStorage3D, u8);
fixed_ix!(F3D16, Dim3D, MortonIndex3D, FixedDepthStorage3D, u16);
fixed_ix!(F3D32, Dim3D, MortonIndex3D, FixedDepthStorage3D, u32);
fixed_ix!(F3D64, Dim3D, MortonIndex3D, FixedDepthStorage3D, u64);
fixed_ix!(F3D128, Dim3D, MortonIndex3D, FixedDepthStorage3D, u128);
fixed_ix!(F3Dus, Dim3D, MortonIndex3D, FixedDepthStorage3D, usize);
static_ix!(S3D8, Dim3D, MortonIndex3D, StaticStorage3D, u8);
static_ix!(S3D16, Dim3D, MortonIndex3D, StaticStorage3D, u16);
static_ix!(S3D32, Dim3D, MortonIndex3D, StaticStorage3D, u32);
static_ix!(S3D64, Dim3D, MortonIndex3D, StaticStorage3D, u64);
static_ix!(S3D128, Dim3D, MortonIndex3D, StaticStorage3D, u128);
static_ix!(S3Dus, Dim3D, MortonIndex3D, StaticStorage3D, usize);
dynamic_ix!(D3D, Dim3D, DynamicMortonIndex3D);

/// The three storage kinds of one word width
pub trait Width: 'static {
    type Fixed: Ix<D = Self::D>;
    type Static: VarIx<D = Self::D>;
    type Dyn: VarIx<D = Self::D>;
    type D: Dm;
    const NAME: &'static str;
    fn f2s(x: Self::Fixed) -> Self::Static;
    fn f2d(x: Self::Fixed) -> Self::Dyn;
    fn s2f(x: Self::Static) -> Self::Fixed;
    fn s2d(x: Self::Static) -> Self::Dyn;
    fn d2f(x: Self::Dyn) -> Result<Self::Fixed, Error>;
    fn d2s(x: Self::Dyn) -> Result<Self::Static, Error>;
}

macro_rules! width {
    ($w:ident, $d:ty, $f:ty, $s:ty, $dy:ty) => {
        pub struct $w;
        impl Width for $w {
            type Fixed = $f;
            type Static = $s;
            type Dyn = $dy;
            type D = $d;
            const NAME: &'static str = stringify!($w);
            fn f2s(x: $f) -> $s {
                x.into()
            }
            fn f2d(x: $f) -> $dy {
                x.into()
            }
            fn s2f(x: $s) -> $f {
                x.into()
            }
            fn s2d(x: $s) -> $dy {
                x.into()
            }
            fn d2f(x: $dy) -> Result<$f, Error> {
                x.try_into()
            }
            fn d2s(x: $dy) -> Result<$s, Error> {
                x.try_into()
            }
        }
    };
}
width!(W2D8, Dim2D, F2D8, S2D8, D2D);
width!(W2D16, Dim2D, F2D16, S2D16, D2D);
width!(W2D32, Dim2D, F2D32, S2D32, D2D);
width!(W2D64, Dim2D, F2D64, S2D64, D2D);
width!(W2D128, Dim2D, F2D128, S2D128, D2D);
width!(W2Dus, Dim2D, F2Dus, S2Dus, D2D);
width!(W3D8, Dim3D, F3D8, S3D8, D3D);
width!(W3D16, Dim3D, F3D16, S3D16, D3D);
width!(W3D32, Dim3D, F3D32, S3D32, D3D);
width!(W3D64, Dim3D, F3D64, S3D64, D3D);
width!(W3D128, Dim3D, F3D128, S3D128, D3D);
width!(W3Dus, Dim3D, F3Dus, S3Dus, D3D);

/// The aliases the library exports must be these types
#[allow(dead_code)]
fn aliases() {
    fn eq<T>(_: fn() -> T, _: fn() -> T) {}
    eq::<F2D8>(Default::default, FixedDepthMortonIndex2D8::default);
    eq::<F2D16>(Default::default, FixedDepthMortonIndex2D16::default);
    eq::<F2D32>(Default::default, FixedDepthMortonIndex2D32::default);
    eq::<F2D64>(Default::default, FixedDepthMortonIndex2D64::default);
    eq::<F2D128>(Default::default, FixedDepthMortonIndex2D128::default);
    eq::<S2D8>(Default::default, StaticMortonIndex2D8::default);
    eq::<S2D16>(Default::default, StaticMortonIndex2D16::default);
    eq::<S2D32>(Default::default, StaticMortonIndex2D32::default);
    eq::<S2D64>(Default::default, StaticMortonIndex2D64::default);
    eq::<S2D128>(Default::default, StaticMortonIndex2D128::default);
    eq::<F3D8>(Default::default, FixedDepthMortonIndex3D8::default);
    eq::<F3D16>(Default::default, FixedDepthMortonIndex3D16::default);
    eq::<F3D32>(Default::default, FixedDepthMortonIndex3D32::default);
    eq::<F3D64>(Default::default, FixedDepthMortonIndex3D64::default);
    eq::<F3D128>(Default::default, FixedDepthMortonIndex3D128::default);
    eq::<S3D8>(Default::default, StaticMortonIndex3D8::default);
    eq::<S3D16>(Default::default, StaticMortonIndex3D16::default);
    eq::<S3D32>(Default::default, StaticMortonIndex3D32::default);
    eq::<S3D64>(Default::default, StaticMortonIndex3D64::default);
    eq::<S3D128>(Default::default, StaticMortonIndex3D128::default);
}

/// `each_ix!(f(args))`: call the generic function for every index type
#[macro_export]
macro_rules! each_ix {
    ($f:ident ( $($a:expr),* )) => {
        $f::<$crate::ix::F2D8>($($a),*);
        $f::<$crate::ix::F2D16>($($a),*);
        $f::<$crate::ix::F2D32>($($a),*);
        $f::<$crate::ix::F2D64>($($a),*);
        $f::<$crate::ix::F2D128>($($a),*);
        $f::<$crate::ix::F2Dus>($($a),*);
        $f::<$crate::ix::F3D8>($($a),*);
        $f::<$crate::ix::F3D16>($($a),*);
        $f::<$crate::ix::F3D32>($($a),*);
        $f::<$crate::ix::F3D64>($($a),*);
        $f::<$crate::ix::F3D128>($($a),*);
        $f::<$crate::ix::F3Dus>($($a),*);
        $crate::each_var!($f($($a),*));
    };
}
#[macro_export]
macro_rules! each_var {
    ($f:ident ( $($a:expr),* )) => {
        $crate::each_static!($f($($a),*));
        $f::<$crate::ix::D2D>($($a),*);
        $f::<$crate::ix::D3D>($($a),*);
    };
}
#[macro_export]
macro_rules! each_static {
    ($f:ident ( $($a:expr),* )) => {
        $f::<$crate::ix::S2D8>($($a),*);
        $f::<$crate::ix::S2D16>($($a),*);
        $f::<$crate::ix::S2D32>($($a),*);
        $f::<$crate::ix::S2D64>($($a),*);
        $f::<$crate::ix::S2D128>($($a),*);
        $f::<$crate::ix::S2Dus>($($a),*);
        $f::<$crate::ix::S3D8>($($a),*);
        $f::<$crate::ix::S3D16>($($a),*);
        $f::<$crate::ix::S3D32>($($a),*);
        $f::<$crate::ix::S3D64>($($a),*);
        $f::<$crate::ix::S3D128>($($a),*);
        $f::<$crate::ix::S3Dus>($($a),*);
    };
}
#[macro_export]
macro_rules! each_width {
    ($f:ident ( $($a:expr),* )) => {
        $f::<$crate::ix::W2D8>($($a),*);
        $f::<$crate::ix::W2D16>($($a),*);
        $f::<$crate::ix::W2D32>($($a),*);
        $f::<$crate::ix::W2D64>($($a),*);
        $f::<$crate::ix::W2D128>($($a),*);
        $f::<$crate::ix::W2Dus>($($a),*);
        $f::<$crate::ix::W3D8>($($a),*);
        $f::<$crate::ix::W3D16>($($a),*);
        $f::<$crate::ix::W3D32>($($a),*);
        $f::<$crate::ix::W3D64>($($a),*);
        $f::<$crate::ix::W3D128>($($a),*);
        $f::<$crate::ix::W3Dus>($($a),*);
    };
}

pub fn dbg<T: Debug>(x: &T) -> String {
    format!("{x:?}")
}
