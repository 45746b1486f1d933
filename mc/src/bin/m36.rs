//! M36: fixed-depth and static indices take up their word and nothing on the heap; dynamic ones what their cells need
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell as Slot;
use std::hash::Hasher;
use std::hint::black_box;

/// Counts, per thread
struct Counting;

thread_local! {
    static CALLS: Slot<u64> = const { Slot::new(0) };
    static LIVE: Slot<i64> = const { Slot::new(0) };
}

fn count(bytes: i64, call: u64) {
    let _ = CALLS.try_with(|c| c.set(c.get() + call));
    let _ = LIVE.try_with(|c| c.set(c.get() + bytes));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64, 1);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// Number of allocations while this runs
fn calls<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let before = CALLS.with(|c| c.get());
    let r = f();
    (r, CALLS.with(|c| c.get()) - before)
}

/// Bytes that are held after this has run and are not part of the result, and bytes that the result holds
fn held<R>(f: impl FnOnce() -> R) -> (i64, i64) {
    let a = LIVE.with(|c| c.get());
    let r = f();
    let b = LIVE.with(|c| c.get());
    drop(black_box(r));
    let c = LIVE.with(|c| c.get());
    (c - a, b - c)
}

struct Null(u64);
impl Hasher for Null {
    fn write(&mut self, b: &[u8]) {
        self.0 = b.iter().fold(self.0, |h, x| h.wrapping_mul(31) ^ *x as u64);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

macro_rules! heapless {
    ($loc:ident, $v:expr, $name:expr, $what:expr, $f:expr) => {{
        let (r, n) = calls(|| black_box($f));
        ensure!(n == 0, "{}: {} of {} allocates memory ({n} times)", $name, $what, show($v));
        $loc.transitions += 1;
        r
    }};
}

/// Everything that fixed-depth and static indices have in common
fn word<T: Ix>(ctx: &mut Ctx) {
    if T::KIND == Kind::Dynamic {
        return;
    }
    let word = T::BITS / 8;
    ctx.unit(format!("{}/size", T::NAME), 1, true, move |_, loc| {
        let n = std::mem::size_of::<T>();
        match T::KIND {
            Kind::Fixed => ensure!(n == word, "{}: takes up {n} bytes, its word has {word}", T::NAME),
            // word and depth
            _ => ensure!(n > word && n <= 2 * word, "{}: takes up {n} bytes, its word has {word}", T::NAME),
        }
        ensure!(!std::mem::needs_drop::<T>(), "{}: owns something", T::NAME);
        loc.states += 1;
        loc.transitions += 1;
        Ok(())
    });
    for (d, f) in fams::<T>(ctx.pick(Density::Light, Density::Dense), ctx.pick(1 << 10, 1 << 16)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/queries/d{d}", T::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let cs = cells::<T>(&v);
            let long = cells::<T>(&vec![1; T::CAP.unwrap() + 1]);
            let x = heapless!(loc, &v, T::NAME, "building", T::build(&cs)).map_err(|e| e.to_string())?;
            let y = built::<T>(&norm::<T>(&vec![1; d]))?;
            heapless!(loc, &v, T::NAME, "refusing a building attempt beside that", T::build(&long).is_err());
            heapless!(loc, &v, T::NAME, "default beside that", T::default());
            heapless!(loc, &v, T::NAME, "clone", x.clone());
            heapless!(loc, &v, T::NAME, "comparison", (x.cmp(&y), x == y, x < y, x.partial_cmp(&y)));
            heapless!(loc, &v, T::NAME, "hash", {
                let mut h = Null(7);
                x.hash(&mut h);
                h.finish()
            });
            heapless!(loc, &v, T::NAME, "iteration", x.iter_methods(d / 2));
            heapless!(loc, &v, T::NAME, "inverted", x.inverted());
            for l in 0..x.depth() {
                heapless!(loc, &v, T::NAME, "reading and writing", {
                    let mut z = x.clone();
                    z.set_cell_at_level(l, <T::D as Dm>::mk(1));
                    z.get_cell_at_level(l)
                });
            }
            let d = x.depth();
            if d <= ops::grid_limit::<T>() {
                for o in 0..model::orderings(T::DIM) {
                    let g = heapless!(loc, &v, T::NAME, "to_grid_index", x.to_grid(o));
                    heapless!(loc, &v, T::NAME, "from_grid_index", T::from_grid(g, d, o).is_ok());
                }
                if T::KIND == Kind::Static {
                    heapless!(loc, &v, T::NAME, "refusing a grid depth beside that", T::from_grid([1; 3], T::CAP.unwrap() + 1, 0).is_err());
                }
            }
            loc.states += 1;
            loc.sample(|| format!("{}: no allocation in any operation on {}", T::NAME, show(&v)));
            Ok(())
        });
    }
}

fn steps<T: VarIx>(ctx: &mut Ctx) {
    if T::KIND == Kind::Dynamic {
        return;
    }
    for (d, f) in fams::<T>(ctx.pick(Density::Light, Density::Dense), ctx.pick(1 << 10, 1 << 16)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/steps/d{d}", T::NAME), n, full, move |i, loc| {
            let r = radix::<T>();
            let cap = T::CAP.unwrap();
            let mut v = vec![];
            f.get(i, &mut v);
            let more = cells::<T>(&(0..cap + 2).map(|k| ((3 * k + 1) % r) as u8).collect::<Vec<_>>());
            let x = built::<T>(&v)?;
            heapless!(loc, &v, T::NAME, "parent", x.parent());
            for c in 0..r as u8 {
                heapless!(loc, &v, T::NAME, "child", x.child(<T::D as Dm>::mk(c)));
            }
            for k in 0..=cap + 2 {
                heapless!(loc, &v, T::NAME, "descendant", x.descendant(&more[..k.min(more.len())]));
                heapless!(loc, &v, T::NAME, "with_depth", x.with_depth(k));
                heapless!(loc, &v, T::NAME, "ancestor", x.ancestor(nz(k + 1)));
                heapless!(loc, &v, T::NAME, "zeroed beside that", T::zeroed_(k));
            }
            loc.states += 1;
            loc.sample(|| format!("{}: no allocation in any step from {}", T::NAME, show(&v)));
            Ok(())
        });
    }
}

/// Between fixed-depth and static indices
fn words<W: Width>(ctx: &mut Ctx) {
    for (d, f) in fams::<W::Static>(ctx.pick(Density::Light, Density::Dense), ctx.pick(1 << 10, 1 << 16)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/conversion/d{d}", W::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<W::Static>(&v)?;
            let y = heapless!(loc, &v, W::NAME, "conversion to fixed depth", W::s2f(x.clone()));
            heapless!(loc, &v, W::NAME, "conversion to static", W::f2s(y.clone()));
            let z = W::s2d(x.clone());
            // nothing is left over when a dynamic index is converted
            let (left, _) = held(|| W::d2s(z.clone()).is_ok());
            let (more, _) = held(|| W::d2f(z.clone()).is_ok());
            ensure!(left == 0 && more == 0, "{}: converting the dynamic index {} leaves {left} and {more} bytes behind", W::NAME, show(&v));
            let (left, has) = held(|| W::s2d(x.clone()));
            fits::<W::Dyn>("conversion to dynamic", &v, d, left, has)?;
            let (left, has) = held(|| W::f2d(y.clone()));
            fits::<W::Dyn>("conversion from fixed to dynamic", &v, W::Static::CAP.unwrap(), left, has)?;
            loc.states += 1;
            loc.transitions += 4;
            Ok(())
        });
    }
}

fn fits<T: Ix>(what: &str, v: &[u8], depth: usize, left: i64, has: i64) -> Outcome {
    ensure!(left == 0, "{}: {what} of {} leaves {left} bytes behind", T::NAME, show(v));
    let need = ((depth * T::DIM + 7) / 8) as i64;
    // vectors may be a little larger than what is in them
    ensure!(has >= need && has <= 2 * need + 64, "{}: {what} of {} holds {has} bytes for {need} bytes of cells", T::NAME, show(v));
    Ok(())
}

fn dynamic<T: VarIx>(ctx: &mut Ctx) {
    if T::KIND != Kind::Dynamic {
        return;
    }
    for (d, f) in fams::<T>(ctx.pick(Density::Light, Density::Dense), ctx.pick(1 << 8, 1 << 14)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/dynamic/d{d}", T::NAME), n, full, move |i, loc| {
            let r = radix::<T>();
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            let cs = cells::<T>(&v);
            let mut see = |what: String, depth: usize, h: (i64, i64)| {
                loc.transitions += 1;
                fits::<T>(&what, &v, depth, h.0, h.1)
            };
            see("building".into(), d, held(|| T::build(&cs)))?;
            see("zeroed beside that".into(), d, held(|| T::zeroed_(d)))?;
            see("clone".into(), d, held(|| x.clone()))?;
            see("inverted".into(), d, held(|| x.inverted()))?;
            if d > 0 {
                see("parent".into(), d - 1, held(|| x.parent()))?;
            }
            for k in (1..=d).filter(|k| d <= 40 || *k < 12 || k % 9 == 0 || k + 12 > d) {
                see(format!("ancestor({k})"), d - k, held(|| x.ancestor(nz(k))))?;
                see(format!("with_depth({k})"), k, held(|| x.with_depth(k)))?;
            }
            let more = cells::<T>(&(0..64).map(|k| ((3 * k + 1) % r) as u8).collect::<Vec<_>>());
            for k in [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33, 64] {
                see(format!("descendant of {k} cells"), d + k, held(|| x.descendant(&more[..k])))?;
            }
            // queries leave nothing behind
            let (a, b) = held(|| {
                let y = black_box((x.cmp(&x), x == x, x.iter_methods(d / 2)));
                let mut h = Null(7);
                x.hash(&mut h);
                let mut z = x.clone();
                for l in 0..d {
                    z.set_cell_at_level(l, <T::D as Dm>::mk(1));
                    black_box(z.get_cell_at_level(l));
                }
                if d <= ops::grid_limit::<T>() {
                    for o in 0..model::orderings(T::DIM) {
                        black_box(T::from_grid(z.to_grid(o), d, o).is_ok());
                    }
                }
                drop(z);
                (y.1, h.finish())
            });
            ensure!(a == 0 && b == 0, "{}: queries and writes of {} leave {a} bytes behind", T::NAME, show(&v));
            loc.states += 1;
            loc.sample(|| format!("{}: memory held after every step from {}", T::NAME, show(&v)));
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M36");
    each_ix!(word(&mut ctx));
    each_var!(steps(&mut ctx));
    each_width!(words(&mut ctx));
    each_var!(dynamic(&mut ctx));
    ctx.finish()
}
