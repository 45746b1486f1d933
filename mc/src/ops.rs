//! The operations of a variable-depth index as transitions, on the implementation and on the model.
use crate::ix::*;
use crate::model;
use morton_index::Error;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Set(usize, u8),
    Child(u8),
    Desc(Vec<u8>),
    Parent,
    Anc(usize),
    WithDepth(usize),
    Invert,
    Clone,
    /// conversion number k to another storage kind and back
    Conv(usize),
    /// to grid coordinates with this ordering and back
    Grid(usize),
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Op::Set(l, c) => write!(f, "set(level {l}, cell {c})"),
            Op::Child(c) => write!(f, "child({c})"),
            Op::Desc(v) => write!(f, "descendant({})", show(v)),
            Op::Parent => write!(f, "parent"),
            Op::Anc(g) => write!(f, "ancestor({g})"),
            Op::WithDepth(d) => write!(f, "with_depth({d})"),
            Op::Invert => write!(f, "inverted"),
            Op::Clone => write!(f, "clone"),
            Op::Conv(k) => write!(f, "convert({k})"),
            Op::Grid(o) => write!(f, "grid and back(ordering {o})"),
        }
    }
}

pub fn hist(ops: &[Op]) -> String {
    ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("; ")
}

/// Conversions to another storage kind and back
pub trait Conv: VarIx {
    const CONVS: usize;
    /// What the conversion does, for messages
    fn conv_name(k: usize) -> &'static str;
    fn conv(&self, k: usize) -> Result<Self, Error>;
    /// Abstract effect; Err = refused because deeper than this limit
    fn conv_model(k: usize, v: &[u8]) -> Result<Vec<u8>, usize>;
}

macro_rules! static_conv {
    ($($w:ident)*) => { $(
        impl Conv for <$w as Width>::Static {
            const CONVS: usize = 2;
            fn conv_name(k: usize) -> &'static str {
                ["dynamic", "fixed"][k]
            }
            fn conv(&self, k: usize) -> Result<Self, Error> {
                match k {
                    0 => $w::d2s($w::s2d(self.clone())),
                    _ => Ok($w::f2s($w::s2f(self.clone()))),
                }
            }
            fn conv_model(k: usize, v: &[u8]) -> Result<Vec<u8>, usize> {
                match k {
                    0 => Ok(v.to_vec()),
                    _ => Ok(model::pad(v, Self::CAP.unwrap())),
                }
            }
        }
    )* };
}
static_conv!(W2D8 W2D16 W2D32 W2D64 W2D128 W2Dus W3D8 W3D16 W3D32 W3D64 W3D128 W3Dus);

macro_rules! dyn_conv {
    ($t:ty, $($k:literal $w:ident)*) => {
        impl Conv for $t {
            const CONVS: usize = 10;
            fn conv_name(k: usize) -> &'static str {
                ["static 8", "static 16", "static 32", "static 64", "static 128", "fixed 8", "fixed 16", "fixed 32", "fixed 64", "fixed 128"][k]
            }
            fn conv(&self, k: usize) -> Result<Self, Error> {
                match k {
                    $($k => $w::d2s(self.clone()).map($w::s2d),)*
                    $(x if x == $k + 5 => $w::d2f(self.clone()).map($w::f2d),)*
                    _ => unreachable!(),
                }
            }
            fn conv_model(k: usize, v: &[u8]) -> Result<Vec<u8>, usize> {
                let cap = (8usize << (k % 5)) / Self::DIM;
                if v.len() > cap {
                    Err(cap)
                } else if k < 5 {
                    Ok(v.to_vec())
                } else {
                    Ok(model::pad(v, cap))
                }
            }
        }
    };
}
dyn_conv!(D2D, 0 W2D8 1 W2D16 2 W2D32 3 W2D64 4 W2D128);
dyn_conv!(D3D, 0 W3D8 1 W3D16 2 W3D32 3 W3D64 4 W3D128);

/// None = refused
pub fn apply<T: Conv>(x: &T, op: &Op) -> Option<T> {
    match op {
        Op::Set(l, c) => {
            if *l >= x.depth() {
                return None;
            }
            let mut y = x.clone();
            y.set_cell_at_level(*l, <T::D as Dm>::mk(*c));
            Some(y)
        }
        Op::Child(c) => x.child(<T::D as Dm>::mk(*c)),
        Op::Desc(v) => x.descendant(&cells::<T>(v)),
        Op::Parent => x.parent(),
        Op::Anc(g) => x.ancestor(nz(*g)),
        Op::WithDepth(d) => x.with_depth(*d),
        Op::Invert => Some(x.inverted()),
        Op::Clone => Some(x.clone()),
        Op::Conv(k) => x.conv(*k).ok(),
        Op::Grid(o) => T::from_grid(x.to_grid(*o), x.depth(), *o).ok(),
    }
}

pub fn step<T: Conv>(v: &[u8], op: &Op) -> Option<Vec<u8>> {
    match op {
        Op::Set(l, c) => (*l < v.len()).then(|| model::set(v, *l, *c)),
        Op::Child(c) => model::descendant(v, &[*c], T::CAP),
        Op::Desc(m) => model::descendant(v, m, T::CAP),
        Op::Parent => model::ancestor(v, 1),
        Op::Anc(g) => model::ancestor(v, *g),
        Op::WithDepth(d) => model::with_depth(v, *d),
        Op::Invert => Some(model::inverted(v)),
        Op::Clone => Some(v.to_vec()),
        Op::Conv(k) => T::conv_model(*k, v).ok(),
        Op::Grid(_) => Some(v.to_vec()),
    }
}

/// Deepest node for which grid coordinates can be computed and turned back into an index
pub fn grid_limit<T: Ix>() -> usize {
    match T::KIND {
        Kind::Dynamic => UBITS / 2,
        _ => UBITS,
    }
}

/// Every operation that can be asked of a node, possible or not.
/// `span`: how far from the root and from the node itself levels are varied (usize::MAX = everywhere)
pub fn ops_of<T: Conv>(v: &[u8], span: usize) -> Vec<Op> {
    let d = v.len();
    let r = 1u8 << T::DIM;
    let near = |l: usize| l < span || d - l <= span || l % 8 == 0 && span > 1;
    let mut o = vec![];
    for l in (0..d).filter(|l| near(*l)) {
        for c in 0..r {
            o.push(Op::Set(l, c));
        }
    }
    for c in 0..r {
        o.push(Op::Child(c));
    }
    o.push(Op::Desc(vec![]));
    for a in [0, r - 1] {
        for b in [1, r - 2] {
            o.push(Op::Desc(vec![a, b]));
            o.push(Op::Desc(vec![b, a, r / 2, r - 1]));
        }
    }
    if let Some(c) = T::CAP {
        // exactly to capacity, and one more
        let room = c.saturating_sub(d);
        for n in [room, room + 1] {
            o.push(Op::Desc((0..n).map(|i| ((5 * i + 3) % r as usize) as u8).collect()));
        }
    } else {
        o.push(Op::Desc((0..19).map(|i| ((5 * i + 3) % r as usize) as u8).collect()));
    }
    o.push(Op::Parent);
    for g in (1..=d + 2).filter(|g| near((*g).min(d))) {
        o.push(Op::Anc(g));
    }
    for g in [256, 256 + d, (1 << (UBITS / 2)) + 1, usize::MAX] {
        o.push(Op::Anc(g));
    }
    for k in (0..=d + 2).filter(|k| near((*k).min(d))) {
        o.push(Op::WithDepth(k));
    }
    o.push(Op::WithDepth(usize::MAX));
    o.push(Op::Invert);
    o.push(Op::Clone);
    for k in 0..T::CONVS {
        o.push(Op::Conv(k));
    }
    if d <= grid_limit::<T>() {
        for k in 0..model::orderings(T::DIM) {
            o.push(Op::Grid(k));
        }
    }
    o
}
