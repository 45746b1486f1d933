//! M31: provided trait methods on user-defined index types, and the library's index types on user-defined storages
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::morton_index::helper::make_displayable;
use mcore::ix::morton_index::MortonIndexNaming;
use mcore::ix::morton_index::MortonIndexNaming::*;
use mcore::ix::*;
use mcore::user::stores::*;
use mcore::user::*;
use mcore::*;

fn opt<U: User>(what: &str, v: &[u8], got: Option<U>, want: Option<Vec<u8>>) -> Outcome {
    let got = got.map(|x| x.to());
    ensure!(got == want, "{}: {what} of {} is {:?}, expected {:?}", U::NAME, show(v), got, want);
    Ok(())
}

fn density(d: usize, most: Density) -> Density {
    if d <= 11 {
        most
    } else {
        Density::Spot
    }
}

/// All step sizes and depths to one beyond the depth; for deep nodes the critical ones
fn steps(d: usize) -> impl Iterator<Item = usize> {
    let mut v: Vec<usize> = if d <= 40 { (0..=d + 2).collect() } else { deep_levels(d).into_iter().flat_map(|l| [l, d - l]).chain([d, d + 1, d + 2]).collect() };
    v.sort_unstable();
    v.dedup();
    v.into_iter()
}

fn levels(d: usize) -> Vec<usize> {
    if d <= 40 {
        (0..d).collect()
    } else {
        deep_levels(d)
    }
}

fn provided<U: User>(ctx: &mut Ctx) {
    let ext = [255usize, 256, 257, 65535, 65536, (u32::MAX as usize), (u32::MAX as usize) + 1, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    for d in user_depths() {
        let f = fam(1 << U::DIM, d, density(d, ctx.pick(Density::Medium, Density::Deep)), ctx.pick(1 << 14, 1 << 22));
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/provided/d{}", U::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = U::of(&v);
            ensure!(x.to() == v && x.depth() == d, "{}: {} reads {}", U::NAME, show(&v), show(&x.to()));
            opt("parent", &v, x.parent(), model::ancestor(&v, 1))?;
            for k in steps(d).chain(ext) {
                opt(&format!("with_depth({k})"), &v, x.with_depth(k), model::with_depth(&v, k))?;
            }
            for g in steps(d).filter(|g| *g > 0).chain(ext) {
                opt(&format!("ancestor({g})"), &v, x.ancestor(nz(g)), model::ancestor(&v, g))?;
            }
            for c in 0..1u8 << U::DIM {
                let want = model::descendant(&v, &[c], Some(USER_CAP));
                let y = x.child(U::cell(c));
                if let Some(y) = &y {
                    opt(&format!("parent of child({c})"), &v, y.parent(), Some(v.clone()))?;
                    ensure!(*y > x, "{}: child {c} of {} is not after it", U::NAME, show(&v));
                }
                opt(&format!("child({c})"), &v, y, want)?;
            }
            opt("inverted", &v, Some(x.inverted()), Some(model::inverted(&v)))?;
            opt("inverted twice", &v, Some(x.inverted().inverted()), Some(v.clone()))?;
            opt("the node after all of it", &v, Some(x), Some(v.clone()))?;
            loc.states += 1;
            loc.transitions += (2 * d + 27 + (1 << U::DIM)) as u64;
            loc.sample(|| format!("{}: parent, child, with_depth, inverted of {}", U::NAME, show(&v)));
            Ok(())
        });
    }
}

fn slices<U: User>(ctx: &mut Ctx) {
    let max = ctx.pick(40, 200u64);
    ctx.unit(format!("{}/displayed", U::NAME), max, false, move |n, loc| {
        for a in 0..4usize {
            let vs: Vec<Vec<u8>> = (0..n as usize).map(|k| (0..(k * (a + 1)) % 12).map(|l| ((l + k + a) % (1 << U::DIM)) as u8).collect()).collect();
            let xs: Vec<U> = vs.iter().map(|v| U::of(v)).collect();
            for naming in [CellConcatenation, CellConcatenationWithRoot, GridIndex] {
                let names: Vec<String> = vs.iter().map(|v| name::<U>(naming, v)).collect();
                let want = format!("[{}]", names.join(", "));
                let got = make_displayable(&xs, naming).to_string();
                ensure!(got == want, "{}: {n} indices with {naming:?} display as {got}, expected {want}", U::NAME);
                loc.transitions += 1;
            }
        }
        loc.states += 1;
        Ok(())
    });
}

fn name<U: User>(n: MortonIndexNaming, v: &[u8]) -> String {
    match n {
        CellConcatenation => model::name_concat(v),
        CellConcatenationWithRoot => model::name_root(v),
        GridIndex => model::name_grid(U::DIM, v),
    }
}

/// The rest of the index interface over a storage of the user
fn stored<U: User>(ctx: &mut Ctx) {
    for d in user_depths() {
        let f = fam(1 << U::DIM, d, density(d, Density::Medium), ctx.pick(1 << 12, 1 << 20));
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/index over it/d{}", U::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = U::of(&v);
            for naming in [CellConcatenation, CellConcatenationWithRoot, GridIndex] {
                if d > UBITS && matches!(naming, GridIndex) {
                    continue;
                }
                let (got, want) = (x.to_string(naming), name::<U>(naming, &v));
                ensure!(got == want, "{}: {} is named {got}, expected {want}", U::NAME, show(&v));
            }
            for l in levels(d) {
                for c in 0..1u8 << U::DIM {
                    let mut y = x.clone();
                    y.set_cell_at_level(l, U::cell(c));
                    opt(&format!("writing {c} at level {l}"), &v, Some(y.clone()), Some(model::set(&v, l, c)))?;
                    let w = c.cmp(&v[l]);
                    ensure!(y.cmp(&x) == w && x.cmp(&y) == w.reverse() && (x == y) == w.is_eq(), "{}: {} compared with {}", U::NAME, show(&v), show(&y.to()));
                    ensure!(hash_stream(&y) == hash_stream(&U::of(&model::set(&v, l, c))), "{}: hash after writing {c} at level {l} of {}", U::NAME, show(&v));
                    loc.transitions += 1;
                }
            }
            for l in [d, d + 1, 255, 256, 256 + d, usize::MAX] {
                if l >= d {
                    must_panic("reading at or below the depth", || x.get_cell_at_level(l))?;
                    let mut y = x.clone();
                    must_panic("writing at or below the depth", || y.set_cell_at_level(l, U::cell(0)))?;
                    ensure!(y == x, "{}: refused write changed {}", U::NAME, show(&v));
                }
            }
            loc.states += 1;
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M31");
    provided::<Vec2>(&mut ctx);
    provided::<Vec3>(&mut ctx);
    provided::<UserStored2>(&mut ctx);
    provided::<UserStored3>(&mut ctx);
    slices::<Vec2>(&mut ctx);
    slices::<Vec3>(&mut ctx);
    slices::<UserStored2>(&mut ctx);
    slices::<UserStored3>(&mut ctx);
    stored::<UserStored2>(&mut ctx);
    stored::<UserStored3>(&mut ctx);
    ctx.finish()
}
