//! Index types a user could write: cells in a vector, nothing but the required trait methods implemented.
use crate::ix::*;
use morton_index::dimensions::*;
use morton_index::nalgebra::{Vector2, Vector3};
use morton_index::{MortonIndex, MortonIndexNaming, VariableDepthMortonIndex};
use std::num::NonZeroUsize;

/// Number of levels these types accept
pub const USER_CAP: usize = 700;

/// Depths that are explored
pub fn user_depths() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=11).collect();
    v.extend([31, 32, 33, 64, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, USER_CAP - 1, USER_CAP]);
    v
}

pub trait User: MortonIndex + VariableDepthMortonIndex + Clone + Send + Sync + 'static {
    const DIM: usize;
    const NAME: &'static str;
    fn of(v: &[u8]) -> Self;
    fn to(&self) -> Vec<u8>;
    fn cell(v: u8) -> Cell<Self>;
}

macro_rules! user {
    ($t:ident, $d:ty, $cell:ty, $ord:ty, $gv:ty) => {
        /// The generations/levels the provided methods ask for are taken literally
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
        pub struct $t(pub Vec<$cell>);
        impl MortonIndex for $t {
            type Dimension = $d;
            fn get_cell_at_level(&self, level: usize) -> $cell {
                self.0[level]
            }
            unsafe fn get_cell_at_level_unchecked(&self, level: usize) -> $cell {
                self.0[level]
            }
            fn set_cell_at_level(&mut self, level: usize, cell: $cell) {
                self.0[level] = cell;
            }
            unsafe fn set_cell_at_level_unchecked(&mut self, level: usize, cell: $cell) {
                self.0[level] = cell;
            }
            fn depth(&self) -> usize {
                self.0.len()
            }
            fn to_string(&self, naming: MortonIndexNaming) -> String {
                match naming {
                    MortonIndexNaming::CellConcatenation => crate::model::name_concat(&self.to()),
                    MortonIndexNaming::CellConcatenationWithRoot => crate::model::name_root(&self.to()),
                    MortonIndexNaming::GridIndex => crate::model::name_grid(<$d as Dm>::DIM, &self.to()),
                }
            }
            fn to_grid_index(&self, ordering: $ord) -> $gv {
                let k = (0..crate::model::orderings(<$d as Dm>::DIM)).find(|k| dbg(&<$d as Dm>::ord(*k)) == dbg(&ordering)).unwrap();
                let g = crate::model::grid(<$d as Dm>::DIM, k, &self.to());
                <$d as Dm>::grid([g[0] as usize, g[1] as usize, g[2] as usize])
            }
        }
        impl VariableDepthMortonIndex for $t {
            fn ancestor(&self, generations: NonZeroUsize) -> Option<Self> {
                crate::model::ancestor(&self.to(), generations.get()).map(|v| Self::of(&v))
            }
            fn descendant(&self, cells: &[$cell]) -> Option<Self> {
                if self.0.len() + cells.len() > USER_CAP {
                    return None;
                }
                let mut v = self.0.clone();
                v.extend_from_slice(cells);
                Some($t(v))
            }
        }
        impl User for $t {
            const DIM: usize = <$d as Dm>::DIM;
            const NAME: &'static str = stringify!($t);
            fn of(v: &[u8]) -> Self {
                $t(v.iter().map(|x| <$d as Dm>::mk(*x)).collect())
            }
            fn to(&self) -> Vec<u8> {
                self.0.iter().map(|x| <$d as Dm>::num(x)).collect()
            }
            fn cell(v: u8) -> $cell {
                <$d as Dm>::mk(v)
            }
        }
    };
}
user!(Vec2, Dim2D, Quadrant, QuadrantOrdering, Vector2<usize>);
user!(Vec3, Dim3D, Octant, OctantOrdering, Vector3<usize>);

/// User-defined storages for the library's index types: one cell per element of a vector, nothing packed
pub mod stores {
    use super::*;
    use morton_index::number::Bits;
    use morton_index::{MortonIndex2D, MortonIndex3D, Storage, StorageType, VariableDepthStorage};

    macro_rules! store {
        ($t:ident, $st:ident, $alias:ident, $idx:ident, $d:ty, $cell:ty) => {
            pub struct $st;
            impl StorageType for $st {
                type Dimension = $d;
                const MAX_LEVELS: usize = USER_CAP;
                const DIMENSIONALITY: usize = <$d as Dm>::DIM;
                fn max_depth() -> Option<usize> {
                    Some(USER_CAP)
                }
                unsafe fn get_cell_at_level_unchecked<T: Bits>(bits: &T, level: usize) -> $cell {
                    <$d as Dm>::mk(bits.as_u8_slice()[level])
                }
                unsafe fn set_cell_at_level_unchecked<T: Bits>(bits: &mut T, level: usize, cell: $cell) {
                    bits.as_u8_slice_mut()[level] = <$d as Dm>::num(&cell);
                }
            }
            #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Default)]
            pub struct $t(Vec<u8>);
            impl Storage<$d> for $t {
                type StorageType = $st;
                type Bits = Vec<u8>;
                fn bits(&self) -> &Vec<u8> {
                    &self.0
                }
                fn bits_mut(&mut self) -> &mut Vec<u8> {
                    &mut self.0
                }
                fn depth(&self) -> usize {
                    self.0.len()
                }
            }
            impl VariableDepthStorage<$d> for $t {
                fn ancestor(&self, generations: NonZeroUsize) -> Option<Self> {
                    crate::model::ancestor(&self.0, generations.get()).map($t)
                }
                fn descendant(&self, cells: &[$cell]) -> Option<Self> {
                    let more: Vec<u8> = cells.iter().map(<$d as Dm>::num).collect();
                    crate::model::descendant(&self.0, &more, Some(USER_CAP)).map($t)
                }
            }
            impl<'a> TryFrom<&'a [$cell]> for $t {
                type Error = morton_index::Error;
                fn try_from(c: &'a [$cell]) -> Result<Self, morton_index::Error> {
                    if c.len() > USER_CAP {
                        return Err(morton_index::Error::DepthLimitedExceeded { max_depth: USER_CAP });
                    }
                    Ok($t(c.iter().map(<$d as Dm>::num).collect()))
                }
            }
            pub type $alias = $idx<$t>;
            impl User for $alias {
                const DIM: usize = <$d as Dm>::DIM;
                const NAME: &'static str = stringify!($alias);
                fn of(v: &[u8]) -> Self {
                    let c: Vec<$cell> = v.iter().map(|x| <$d as Dm>::mk(*x)).collect();
                    $alias::try_from(&c[..]).unwrap()
                }
                fn to(&self) -> Vec<u8> {
                    (0..self.depth()).map(|l| <$d as Dm>::num(&self.get_cell_at_level(l))).collect()
                }
                fn cell(v: u8) -> $cell {
                    <$d as Dm>::mk(v)
                }
            }
        };
    }
    store!(Store2, Store2Type, UserStored2, MortonIndex2D, Dim2D, Quadrant);
    store!(Store3, Store3Type, UserStored3, MortonIndex3D, Dim3D, Octant);
}
