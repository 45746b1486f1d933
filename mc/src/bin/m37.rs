//! M37: results depend on the operands only, not on what was computed before or is computed elsewhere
use mcore::engine::*;
use mcore::ix::morton_index::align::Alignable;
use mcore::ix::morton_index::helper::make_displayable;
use mcore::ix::morton_index::number::*;
use mcore::ix::morton_index::MortonIndexNaming::*;
use mcore::ix::*;
use mcore::*;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, OnceLock};

/// A computation on fixed operands; the result is condensed to a number
struct Act {
    name: String,
    run: Box<dyn Fn() -> u64 + Send + Sync>,
}

type Acts = Vec<Act>;

fn digest<H: Hash>(x: H) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.0
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn seen<T: Ix>(x: &T) -> u64 {
    let mut h = Fnv(x.depth() as u64 ^ 0xcbf29ce484222325);
    for l in 0..x.depth() {
        h.write(&[<T::D as Dm>::num(&x.get_cell_at_level(l))]);
    }
    h.0
}

fn opt<T: Ix>(x: Option<T>) -> u64 {
    x.map_or(1, |x| seen(&x))
}

/// Close relatives: what a result remembered by some part of the operands only would confuse
fn pool<T: Ix>(many: bool) -> Vec<Vec<u8>> {
    let r = radix::<T>() as u8;
    let cap = T::CAP.unwrap_or(35);
    let mut ds = match T::KIND {
        Kind::Fixed => vec![cap],
        _ => vec![0, 1, 2, 3.min(cap), cap / 2, cap - 1, cap],
    };
    if T::KIND == Kind::Dynamic {
        ds.extend([4, 8, 12, 16, 17, 32, 64, 260]);
    }
    ds.sort();
    ds.dedup();
    let mut out = vec![];
    for d in ds {
        let base: Vec<u8> = (0..d).map(|l| ((3 * l + 1) % r as usize) as u8).collect();
        out.push(base.clone());
        for l in [0, d / 2, d.wrapping_sub(1)] {
            if l < d {
                let mut v = base.clone();
                v[l] = (v[l] + 1) % r;
                out.push(v);
            }
        }
        out.push(vec![0; d]);
        if many {
            out.push(vec![r - 1; d]);
            let mut v = base.clone();
            v.reverse();
            out.push(v);
        }
    }
    out.sort();
    out.dedup();
    out
}

fn queries<T: Ix>(acts: &mut Acts, many: bool) {
    let vs = pool::<T>(many);
    let r = radix::<T>() as u8;
    for (k, v) in vs.iter().enumerate() {
        let Ok(Ok(x)) = observe(|| built::<T>(v)) else { continue };
        let d = v.len();
        let mut add = |what: String, run: Box<dyn Fn() -> u64 + Send + Sync>| acts.push(Act { name: format!("{}: {what} of {}", T::NAME, show(v)), run });
        let w = v.clone();
        add("building".into(), Box::new(move || opt(built::<T>(&w).ok())));
        let y = x.clone();
        add("reading".into(), Box::new(move || seen(&y)));
        let y = x.clone();
        add("iterating".into(), Box::new(move || digest((y.iterate(1000), y.iter_methods(d / 2)))));
        let y = x.clone();
        add("hash".into(), Box::new(move || hash(&y)));
        for n in [CellConcatenation, CellConcatenationWithRoot, GridIndex] {
            if d <= UBITS || !matches!(n, GridIndex) {
                let y = x.clone();
                add(format!("{n:?}"), Box::new(move || digest(y.to_string(n))));
            }
        }
        let y = x.clone();
        let z = [x.clone(), x.clone()];
        add("slice display".into(), Box::new(move || digest(make_displayable(&z[..1 + y.depth() % 2], CellConcatenation).to_string())));
        if d <= ops::grid_limit::<T>() {
            for o in 0..model::orderings(T::DIM) {
                let y = x.clone();
                add(format!("grid coordinates, ordering {o},"), Box::new(move || digest(y.to_grid(o))));
                let g = match observe(|| x.to_grid(o)) {
                    Ok(g) => g,
                    Err(_) => continue,
                };
                add(format!("from the grid coordinates, ordering {o},"), Box::new(move || opt(T::from_grid(g, d, o).ok())));
            }
        }
        for (j, w) in vs.iter().enumerate() {
            if j + 1 >= k && j <= k + 1 || j + 1 == vs.len() || many && j % 5 == 0 {
                let (Ok(Ok(z)), y) = (observe(|| built::<T>(w)), x.clone()) else { continue };
                add(format!("comparison with {}", show(w)), Box::new(move || y.cmp(&z) as u64 ^ (u64::from(y == z) << 8) ^ (u64::from(y < z) << 9)));
            }
        }
        for l in [0, d / 2, d.wrapping_sub(1)] {
            if l < d {
                let y = x.clone();
                let c = (v[l] + 1) % r;
                add(format!("writing level {l}"), Box::new(move || {
                    let mut z = y.clone();
                    z.set_cell_at_level(l, <T::D as Dm>::mk(c));
                    seen(&z)
                }));
            }
        }
        let y = x.clone();
        add("inverted".into(), Box::new(move || seen(&y.inverted())));
    }
}

fn steps<T: VarIx>(acts: &mut Acts, many: bool) {
    let r = radix::<T>() as u8;
    for v in pool::<T>(many) {
        let Ok(Ok(x)) = observe(|| built::<T>(&v)) else { continue };
        let d = v.len();
        let mut add = |what: String, run: Box<dyn Fn() -> u64 + Send + Sync>| acts.push(Act { name: format!("{}: {what} of {}", T::NAME, show(&v)), run });
        let y = x.clone();
        add("parent".into(), Box::new(move || opt(y.parent())));
        for c in [0, r - 1] {
            let y = x.clone();
            add(format!("child({c})"), Box::new(move || opt(y.child(<T::D as Dm>::mk(c)))));
        }
        for m in [vec![1, 2], vec![2, 1], vec![3, 0, 1, 2, 3]] {
            let (y, c) = (x.clone(), m.clone());
            add(format!("descendant({})", show(&m)), Box::new(move || opt(y.descendant(&cells::<T>(&c)))));
        }
        for g in [2, d / 2, d, d + 1] {
            if g > 0 {
                let y = x.clone();
                add(format!("ancestor({g})"), Box::new(move || opt(y.ancestor(nz(g)))));
            }
            let y = x.clone();
            add(format!("with_depth({g})"), Box::new(move || opt(y.with_depth(g))));
        }
        if d < 256 {
            add("zeroed at the depth".into(), Box::new(move || opt(T::zeroed_(d))));
        }
    }
}

fn conversions<W: Width>(acts: &mut Acts, many: bool) {
    for v in pool::<W::Static>(many) {
        let Ok(Ok(x)) = observe(|| built::<W::Static>(&v)) else { continue };
        let mut add = |what: &str, run: Box<dyn Fn() -> u64 + Send + Sync>| acts.push(Act { name: format!("{}: {what} of {}", W::NAME, show(&v)), run });
        let y = x.clone();
        add("static to dynamic", Box::new(move || seen(&W::s2d(y.clone()))));
        let y = x.clone();
        add("static to fixed", Box::new(move || seen(&W::s2f(y.clone()))));
        let Ok(z) = observe(|| W::s2d(x.clone())) else { continue };
        let y = z.clone();
        add("dynamic to static", Box::new(move || opt(W::d2s(y.clone()).ok())));
        add("dynamic to fixed", Box::new(move || opt(W::d2f(z.clone()).ok())));
        let Ok(f) = observe(|| W::s2f(x.clone())) else { continue };
        let y = f.clone();
        add("fixed to dynamic", Box::new(move || seen(&W::f2d(y.clone()))));
        add("fixed to static", Box::new(move || seen(&W::f2s(f.clone()))));
    }
}

fn helpers(acts: &mut Acts) {
    let xs = [0u64, 1, 2, 3, 0xFF, 0x100, 0x1234, 0x1FFFFF, 0x155555, 0xFFFF_FFFF];
    for x in xs {
        let mut add = |what: String, run: Box<dyn Fn() -> u64 + Send + Sync>| acts.push(Act { name: what, run });
        add(format!("spreading the bits of {x:x}"), Box::new(move || {
            digest((add_zero_before_every_bit_u8(x as u8), add_zero_behind_every_bit_u8(x as u8), add_zero_before_every_bit_u16(x as u16), add_two_zeroes_before_every_bit_u8(x as u8), add_two_zeroes_before_every_bit_u32(x as u32)))
        }));
        for a in [0u64, 1, 3, 8, 4096] {
            add(format!("align {x} to {a}"), Box::new(move || digest((x.align_to(a), (x as u32).align_to(a as u32), (x as u128).align_to(a as u128)))));
        }
        for (s, e) in [(0usize, 8usize), (3, 11), (5, 32), (0, 32), (16, 17)] {
            add(format!("bits {s}..{e} of {x:x}"), Box::new(move || unsafe {
                let v = x.to_le_bytes().to_vec();
                let mut y = x;
                y.set_bits(s..e, 1);
                let mut w = v.clone();
                w.set_bits_from_usize(s..e, 1);
                digest((Bits::get_bits(&x, s..e), v.get_bits(s..e), v.get_bits_as_usize(s..e), y, w, (x as u32).get_bits(s..e), (x as u128).get_bits(s..e)))
            }));
        }
    }
}

fn all(many: bool) -> Acts {
    let mut acts = vec![];
    each_ix!(queries(&mut acts, many));
    each_var!(steps(&mut acts, many));
    each_width!(conversions(&mut acts, many));
    helpers(&mut acts);
    acts
}

fn run(a: &Act) -> Result<u64, String> {
    // a panic is a result like any other: what is right is for other properties to say
    Ok(observe(|| (a.run)()).unwrap_or(u64::MAX))
}

fn main() {
    let mut ctx = Ctx::from_args("M37");
    let acts: Arc<Acts> = Arc::new(all(ctx.thorough()));
    let n = acts.len() as u64;
    // What each computation gave when it ran first
    let first: Arc<Vec<OnceLock<u64>>> = Arc::new((0..n).map(|_| OnceLock::new()).collect());
    let check = {
        let (acts, first) = (acts.clone(), first.clone());
        move |k: usize, before: &dyn Fn() -> String| -> Outcome {
            let got = run(&acts[k])?;
            let want = *first[k].get_or_init(|| got);
            ensure!(got == want, "{}: another result than before, now after {}", acts[k].name, before());
            Ok(())
        }
    };
    let check = Arc::new(check);
    {
        let check = check.clone();
        ctx.unit("one after the other, three times".to_string(), 1, true, move |_, loc| {
            for round in 0..3 {
                for k in 0..n as usize {
                    let k = if round == 1 { n as usize - 1 - k } else { k };
                    check(k, &|| "all others".into())?;
                    loc.transitions += 1;
                }
            }
            loc.states += n;
            Ok(())
        });
    }
    {
        let (acts, check) = (acts.clone(), check.clone());
        ctx.unit("all ordered pairs".to_string(), n, true, move |a, loc| {
            for b in 0..n as usize {
                check(a as usize, &|| format!("{}", acts[b.max(1) - 1].name))?;
                check(b, &|| acts[a as usize].name.clone())?;
                loc.transitions += 2;
            }
            loc.traces += n;
            loc.sample(|| format!("{} before each of {n} other computations", acts[a as usize].name));
            Ok(())
        });
    }
    // Threads that start without any history
    {
        let (acts, check) = (acts.clone(), check.clone());
        ctx.unit("in a new thread".to_string(), n, true, move |a, loc| {
            let c = check.clone();
            let name = acts[a as usize].name.clone();
            std::thread::spawn(move || c(a as usize, &|| "nothing in this thread".into())).join().map_err(|_| format!("{name}: panicked in a new thread"))??;
            loc.transitions += 1;
            Ok(())
        });
    }
    ctx.finish()
}
