//! Enumerated families of cell sequences of one length.
//!
//! `Full` is every sequence of that length. `List` is the union of structured families, sorted and without duplicates:
//!   spot   : a handful of sequences without structure that a byte layout could hide (for very deep nodes)
//!   light  : constant, affine (a*level+c mod R), one cell differing from a constant background, period 2
//!   medium : + every content of a sliding window on both constant extremes as background, period 3
//!   dense  : + wider windows, two cells differing from the background at every pair of levels
//!   deep   : + still wider windows, three cells differing at every triple of levels
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Density {
    Spot,
    Light,
    Medium,
    Dense,
    Deep,
}

pub enum Fam {
    Full { radix: usize, depth: usize, n: u64 },
    List { depth: usize, v: Vec<u8>, n: u64 },
}

impl Fam {
    pub fn full(radix: usize, depth: usize) -> Fam {
        Fam::Full { radix, depth, n: (radix as u64).pow(depth as u32) }
    }
    /// All sequences if there are at most `full_limit`, the structured families otherwise
    pub fn new(radix: usize, depth: usize, d: Density, full_limit: u64) -> Fam {
        let bits = depth * (radix.trailing_zeros() as usize);
        if depth == 0 || bits < 63 && (1u64 << bits) <= full_limit {
            return Fam::full(radix, depth);
        }
        let mut v: Vec<Vec<u8>> = structured(radix, depth, d);
        v.sort_unstable();
        v.dedup();
        let n = v.len() as u64;
        Fam::List { depth, v: v.concat(), n }
    }
    pub fn len(&self) -> u64 {
        match self {
            Fam::Full { n, .. } => *n,
            Fam::List { n, .. } => *n,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, Fam::Full { .. })
    }
    pub fn get(&self, i: u64, buf: &mut Vec<u8>) {
        buf.clear();
        match self {
            Fam::Full { radix, depth, .. } => {
                let sh = radix.trailing_zeros();
                let mask = (*radix as u64) - 1;
                for l in 0..*depth {
                    buf.push(((i >> (sh as usize * (depth - 1 - l))) & mask) as u8);
                }
            }
            Fam::List { depth, v, .. } => {
                let i = i as usize;
                buf.extend_from_slice(&v[i * depth..(i + 1) * depth]);
            }
        }
    }
}

fn structured(r: usize, d: usize, dens: Density) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    let m = (r - 1) as u8;
    if dens == Density::Spot {
        out.push(vec![0; d]);
        out.push(vec![m; d]);
        out.push((0..d).map(|l| ((l * 7 + l / 8 + l / 251 + 1) % r) as u8).collect());
        out.push((0..d).map(|l| if l == 0 || l + 1 == d { m - 1 } else { 0 }).collect());
        return out;
    }
    for a in 0..r {
        for c in 0..r {
            out.push((0..d).map(|l| ((a * l + c) % r) as u8).collect());
        }
    }
    for bg in [0u8, m] {
        for p in 0..d {
            for v in 0..r as u8 {
                let mut x = vec![bg; d];
                x[p] = v;
                out.push(x);
            }
        }
    }
    for a in 0..r as u8 {
        for b in 0..r as u8 {
            out.push((0..d).map(|l| if l % 2 == 0 { a } else { b }).collect());
        }
    }
    if dens >= Density::Medium {
        windows(r, d, if r == 4 { 3 } else { 2 }, &mut out);
        for k in 0..r * r * r {
            let w = [(k % r) as u8, ((k / r) % r) as u8, (k / r / r) as u8];
            out.push((0..d).map(|l| w[l % 3]).collect());
        }
    }
    if dens >= Density::Dense {
        windows(r, d, if r == 4 { 4 } else { 3 }, &mut out);
        for bg in [0u8, m] {
            for p in 0..d {
                for q in p + 1..d {
                    for v in 0..r as u8 {
                        if v == bg {
                            continue;
                        }
                        for w in 0..r as u8 {
                            if w == bg {
                                continue;
                            }
                            let mut x = vec![bg; d];
                            x[p] = v;
                            x[q] = w;
                            out.push(x);
                        }
                    }
                }
            }
        }
    }
    if dens >= Density::Deep {
        windows(r, d, if r == 4 { 6 } else { 4 }, &mut out);
        for bg in [0u8, m] {
            for p in 0..d {
                for q in p + 1..d {
                    for s in q + 1..d {
                        for v in [1u8, m / 2 + 1, m - bg] {
                            let mut x = vec![bg; d];
                            x[p] = v;
                            x[q] = v;
                            x[s] = v;
                            out.push(x);
                        }
                    }
                }
            }
        }
    }
    out
}

fn windows(r: usize, d: usize, k: usize, out: &mut Vec<Vec<u8>>) {
    let k = k.min(d);
    let n = r.pow(k as u32);
    for bg in [0u8, (r - 1) as u8] {
        for p in 0..=(d - k) {
            for w in 0..n {
                let mut x = vec![bg; d];
                let mut y = w;
                for j in 0..k {
                    x[p + j] = (y % r) as u8;
                    y /= r;
                }
                out.push(x);
            }
        }
    }
}

impl Fam {
    /// The structured families, even where the complete set would be small enough
    pub fn structured_only(radix: usize, depth: usize, d: Density) -> Fam {
        Fam::new(radix, depth, d, 0)
    }
}
