//! The reference model: a node of a quadtree (R = 4) or octree (R = 8) is its sequence of cells, root first.
//! Every function is the obvious definition; nothing is packed, shifted or cached.
use std::cmp::Ordering;

/// Axis order of the orderings, by index: which axis (0 = x, 1 = y, 2 = z) bit 0, 1, 2 of a cell number belongs to.
/// 2D: XY, YX. 3D: XYZ, XZY, YXZ, YZX, ZXY, ZYX (the axis named first owns bit 0).
pub const ORD2: [[usize; 2]; 2] = [[0, 1], [1, 0]];
pub const ORD3: [[usize; 3]; 6] = [
    [0, 1, 2],
    [0, 2, 1],
    [1, 0, 2],
    [1, 2, 0],
    [2, 0, 1],
    [2, 1, 0],
];

pub fn radix(dim: usize) -> usize {
    1 << dim
}

pub fn orderings(dim: usize) -> usize {
    match dim {
        2 => 2,
        3 => 6,
        _ => unreachable!(),
    }
}

fn axis_of_bit(dim: usize, ord: usize, bit: usize) -> usize {
    match dim {
        2 => ORD2[ord][bit],
        3 => ORD3[ord][bit],
        _ => unreachable!(),
    }
}

/// Offset of a child cell inside its parent, per axis
pub fn offset(dim: usize, ord: usize, cell: u8) -> [u128; 3] {
    let mut o = [0u128; 3];
    for bit in 0..dim {
        if cell & (1 << bit) != 0 {
            o[axis_of_bit(dim, ord, bit)] = 1;
        }
    }
    o
}

/// Grid coordinates of a node: start at (0,0,0) and descend, doubling and adding the offset of the child
pub fn grid(dim: usize, ord: usize, cells: &[u8]) -> [u128; 3] {
    let mut g = [0u128; 3];
    for &c in cells {
        let o = offset(dim, ord, c);
        for a in 0..3 {
            g[a] = g[a] * 2 + o[a];
        }
    }
    g
}

/// Node at `depth` that contains the grid cell `g` (coordinates reduced modulo the grid size)
pub fn from_grid(dim: usize, ord: usize, g: [u128; 3], depth: usize) -> Vec<u8> {
    let mut cells = Vec::with_capacity(depth);
    for level in 0..depth {
        let mut c = 0u8;
        for bit in 0..dim {
            let a = axis_of_bit(dim, ord, bit);
            if (g[a] >> (depth - 1 - level)) & 1 == 1 {
                c |= 1 << bit;
            }
        }
        cells.push(c);
    }
    cells
}

/// Lexicographic, prefixes first
pub fn cmp(a: &[u8], b: &[u8]) -> Ordering {
    for i in 0..a.len().min(b.len()) {
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
    }
    if a.len() < b.len() {
        Ordering::Less
    } else if a.len() > b.len() {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}

pub fn ancestor(cells: &[u8], generations: usize) -> Option<Vec<u8>> {
    if generations > cells.len() {
        None
    } else {
        Some(cells[..cells.len() - generations].to_vec())
    }
}

pub fn with_depth(cells: &[u8], depth: usize) -> Option<Vec<u8>> {
    if depth > cells.len() {
        None
    } else {
        Some(cells[..depth].to_vec())
    }
}

pub fn descendant(cells: &[u8], more: &[u8], cap: Option<usize>) -> Option<Vec<u8>> {
    if let Some(c) = cap {
        if cells.len() + more.len() > c {
            return None;
        }
    }
    let mut v = cells.to_vec();
    v.extend_from_slice(more);
    Some(v)
}

pub fn inverted(cells: &[u8]) -> Vec<u8> {
    let mut v = cells.to_vec();
    v.reverse();
    v
}

pub fn set(cells: &[u8], level: usize, v: u8) -> Vec<u8> {
    let mut c = cells.to_vec();
    c[level] = v;
    c
}

pub fn pad(cells: &[u8], depth: usize) -> Vec<u8> {
    let mut c = cells.to_vec();
    while c.len() < depth {
        c.push(0);
    }
    c
}

pub fn name_concat(cells: &[u8]) -> String {
    let mut s = String::new();
    for c in cells {
        s.push((b'0' + c) as char);
    }
    s
}

pub fn name_root(cells: &[u8]) -> String {
    let mut s = String::from("r");
    s.push_str(&name_concat(cells));
    s
}

pub fn name_grid(dim: usize, cells: &[u8]) -> String {
    let g = grid(dim, 0, cells);
    let mut s = cells.len().to_string();
    for a in 0..dim {
        s.push('-');
        s.push_str(&g[a].to_string());
    }
    s
}
