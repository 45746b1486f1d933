//! M33: subtrees are contiguous intervals of the order
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;

/// The first node after the whole subtree of `v`; None if nothing comes after it
fn after(v: &[u8], r: usize) -> Option<Vec<u8>> {
    let mut w = v.to_vec();
    while let Some(c) = w.pop() {
        if (c as usize) + 1 < r {
            w.push(c + 1);
            return Some(w);
        }
    }
    None
}

/// The last node within the subtree at this depth
fn last(v: &[u8], r: usize, depth: usize) -> Vec<u8> {
    let mut w = v.to_vec();
    w.resize(depth.max(v.len()), (r - 1) as u8);
    w
}

struct Sub<T> {
    v: Vec<u8>,
    x: T,
    end: Option<T>,
}

impl<T: VarIx> Sub<T> {
    fn new(v: &[u8]) -> Result<Self, String> {
        let x = built::<T>(v)?;
        let end = after(v, radix::<T>()).map(|w| built::<T>(&w)).transpose()?;
        Ok(Sub { v: v.to_vec(), x, end })
    }
    /// Is `y` (with cells `w`) where it belongs, inside the interval or outside?
    fn check(&self, w: &[u8], y: &T) -> Outcome {
        let inside = w.len() >= self.v.len() && w[..self.v.len()] == self.v[..];
        let between = self.x <= *y && self.end.as_ref().map_or(true, |e| y < e);
        ensure!(between == inside, "{}: {} is {} the subtree of {}, but {} the interval of its indices", T::NAME, show(w), if inside { "in" } else { "outside" }, show(&self.v), if between { "inside" } else { "outside" });
        let above = y.with_depth(self.v.len()) == Some(self.x.clone());
        ensure!(above == inside, "{}: {} is {} the subtree of {}, but its ancestor at that depth is {}it", T::NAME, show(w), if inside { "in" } else { "outside" }, show(&self.v), if above { "" } else { "not " });
        let side = if inside { w == self.v } else { false };
        ensure!((self.x == *y) == side, "{}: {} == {} is {}", T::NAME, show(w), show(&self.v), self.x == *y);
        Ok(())
    }
}

fn tree(r: usize, max: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut at = 0;
    while at < out.len() {
        if out[at].len() < max {
            for c in 0..r as u8 {
                let mut w = out[at].clone();
                w.push(c);
                out.push(w);
            }
        }
        at += 1;
    }
    out
}

/// Every node of a whole tree against every other
fn pairs<T: VarIx>(ctx: &mut Ctx) {
    let top = match (T::BITS, T::DIM) {
        (8, _) => max_explored::<T>(),
        (_, 2) => ctx.pick(5, 6),
        _ => ctx.pick(3, 4),
    };
    let nodes = tree(radix::<T>(), top);
    let n = nodes.len() as u64;
    let objs: Vec<Result<T, String>> = nodes.iter().map(|v| observe(|| built::<T>(v)).and_then(|x| x)).collect();
    ctx.unit(format!("{}/all pairs to depth {top}", T::NAME), n, T::CAP == Some(top), move |i, loc| {
        let s = Sub::<T>::new(&nodes[i as usize])?;
        for (w, y) in nodes.iter().zip(&objs) {
            s.check(w, y.as_ref().map_err(|e| e.clone())?)?;
            loc.evals += 1;
        }
        loc.states += 1;
        loc.sample(|| format!("{}: the interval of {} against all {n} nodes", T::NAME, show(&s.v)));
        Ok(())
    });
}

/// Nodes at and next to the ends of the intervals, at every depth
fn ends<T: VarIx>(ctx: &mut Ctx) {
    let r = radix::<T>();
    let m = (r - 1) as u8;
    let thorough = ctx.thorough();
    for (d, f) in fams::<T>(ctx.pick(Density::Light, Density::Medium), ctx.pick(1 << 8, 1 << 14)) {
        let cap = T::CAP.unwrap_or(d + 26).max(d);
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/ends of intervals/d{d}", T::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let s = Sub::<T>::new(&v)?;
            let mut others: Vec<Vec<u8>> = vec![v.clone(), vec![]];
            // within: first and last nodes of the subtree at every depth below
            for k in d..=cap {
                if thorough || k <= d + 10 || k + 2 > cap || k % 8 == 0 {
                    let mut a = v.clone();
                    a.resize(k, 0);
                    others.push(a);
                    others.push(last(&v, r, k));
                }
            }
            // before and after: the neighbours in the walk, with everything below them
            for l in 0..d {
                if d > 24 && l > 3 && l + 4 < d && (l + i as usize) % 5 != 0 {
                    continue;
                }
                others.push(v[..l].to_vec());
                for c in [v[l].wrapping_sub(1), v[l] + 1] {
                    if c <= m {
                        let mut a = v[..l].to_vec();
                        a.push(c);
                        for k in [l + 1, d, d + 1, cap] {
                            if k > l && k <= cap {
                                for fill in [0, m] {
                                    let mut b = a.clone();
                                    b.resize(k, fill);
                                    others.push(b);
                                }
                            }
                        }
                    }
                }
            }
            for w in &others {
                s.check(w, &built::<T>(w)?)?;
                loc.transitions += 1;
            }
            loc.states += 1;
            loc.sample(|| format!("{}: {} nodes in and around the subtree of {}", T::NAME, others.len(), show(&v)));
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M33");
    each_var!(pairs(&mut ctx));
    each_var!(ends(&mut ctx));
    ctx.finish()
}
