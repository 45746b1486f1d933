//! M35: the storages, used without an index around them
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::morton_index::{DynamicStorage2D, DynamicStorage3D, Error, FixedDepthStorage2D, FixedDepthStorage3D, StaticStorage2D, StaticStorage3D, Storage, StorageType, VariableDepthStorage};
use mcore::ix::*;
use mcore::*;
use std::cmp::Ordering;

/// A storage and the index type over it
trait St: Ix {
    type S: Storage<Self::D> + Clone + Send + Sync + 'static;
    fn store(c: &[Cell<Self>]) -> Result<Self::S, Error>;
    /// From an array of this length, where it was compiled in
    fn array(c: &[Cell<Self>]) -> Option<Result<Self::S, Error>>;
    fn iterate(s: &Self::S, limit: usize) -> Vec<u8>;
    /// ancestor/descendant for variable-depth storages; the outer None: no such operation
    fn up(s: &Self::S, g: usize) -> Option<Option<Self::S>>;
    fn down(s: &Self::S, c: &[Cell<Self>]) -> Option<Option<Self::S>>;
    /// Bits of the word that is stored; None for byte vectors
    fn put_bits(to: &mut Self::S, from: &Self::S);
    fn same_bits(a: &Self::S, b: &Self::S) -> bool;
}

macro_rules! st {
    (@var yes, $s:ident, $g:ident) => { Some(VariableDepthStorage::ancestor($s, nz($g))) };
    (@var no, $s:ident, $g:ident) => {{ let _ = ($s, $g); None }};
    (@dn yes, $s:ident, $c:ident) => { Some(VariableDepthStorage::descendant($s, $c)) };
    (@dn no, $s:ident, $c:ident) => {{ let _ = ($s, $c); None }};
    ($($alias:ident $s:ty, $v:ident;)*) => { $(
        impl St for $alias {
            type S = $s;
            fn store(c: &[Cell<Self>]) -> Result<$s, Error> {
                <$s>::try_from(c)
            }
            fn array(c: &[Cell<Self>]) -> Option<Result<$s, Error>> {
                fn to<const N: usize>(c: &[Cell<$alias>]) -> [Cell<$alias>; N] {
                    std::array::from_fn(|i| c[i])
                }
                Some(match c.len() {
                    0 => <$s>::try_from(to::<0>(c)),
                    1 => <$s>::try_from(to::<1>(c)),
                    2 => <$s>::try_from(to::<2>(c)),
                    3 => <$s>::try_from(to::<3>(c)),
                    4 => <$s>::try_from(to::<4>(c)),
                    5 => <$s>::try_from(to::<5>(c)),
                    7 => <$s>::try_from(to::<7>(c)),
                    8 => <$s>::try_from(to::<8>(c)),
                    9 => <$s>::try_from(to::<9>(c)),
                    16 => <$s>::try_from(to::<16>(c)),
                    17 => <$s>::try_from(to::<17>(c)),
                    24 => <$s>::try_from(to::<24>(c)),
                    32 => <$s>::try_from(to::<32>(c)),
                    33 => <$s>::try_from(to::<33>(c)),
                    64 => <$s>::try_from(to::<64>(c)),
                    65 => <$s>::try_from(to::<65>(c)),
                    257 => <$s>::try_from(to::<257>(c)),
                    _ => return None,
                })
            }
            fn iterate(s: &$s, limit: usize) -> Vec<u8> {
                let mut out = vec![];
                for c in s {
                    if out.len() == limit {
                        break;
                    }
                    out.push(<<$alias as Ix>::D as Dm>::num(&c));
                }
                out
            }
            fn up(s: &$s, g: usize) -> Option<Option<$s>> {
                st!(@var $v, s, g)
            }
            fn down(s: &$s, c: &[Cell<Self>]) -> Option<Option<$s>> {
                st!(@dn $v, s, c)
            }
            fn put_bits(to: &mut $s, from: &$s) {
                *to.bits_mut() = from.bits().clone();
            }
            fn same_bits(a: &$s, b: &$s) -> bool {
                a.bits() == b.bits()
            }
        }
    )* };
}
st! {
    F2D8 FixedDepthStorage2D<u8>, no;
    F2D16 FixedDepthStorage2D<u16>, no;
    F2D32 FixedDepthStorage2D<u32>, no;
    F2D64 FixedDepthStorage2D<u64>, no;
    F2D128 FixedDepthStorage2D<u128>, no;
    F2Dus FixedDepthStorage2D<usize>, no;
    S2D8 StaticStorage2D<u8>, yes;
    S2D16 StaticStorage2D<u16>, yes;
    S2D32 StaticStorage2D<u32>, yes;
    S2D64 StaticStorage2D<u64>, yes;
    S2D128 StaticStorage2D<u128>, yes;
    S2Dus StaticStorage2D<usize>, yes;
    D2D DynamicStorage2D, yes;
    F3D8 FixedDepthStorage3D<u8>, no;
    F3D16 FixedDepthStorage3D<u16>, no;
    F3D32 FixedDepthStorage3D<u32>, no;
    F3D64 FixedDepthStorage3D<u64>, no;
    F3D128 FixedDepthStorage3D<u128>, no;
    F3Dus FixedDepthStorage3D<usize>, no;
    S3D8 StaticStorage3D<u8>, yes;
    S3D16 StaticStorage3D<u16>, yes;
    S3D32 StaticStorage3D<u32>, yes;
    S3D64 StaticStorage3D<u64>, yes;
    S3D128 StaticStorage3D<u128>, yes;
    S3Dus StaticStorage3D<usize>, yes;
    D3D DynamicStorage3D, yes;
}

fn cell<T: St>(s: &T::S, l: usize) -> u8 {
    <T::D as Dm>::num(&unsafe { s.get_cell_at_level_unchecked(l) })
}

fn holds<T: St>(what: &dyn Fn() -> String, s: &T::S, want: &[u8]) -> Outcome {
    ensure!(s.depth() == want.len(), "{} storage: {}: depth {}, expected {}", T::NAME, what(), s.depth(), want.len());
    for (l, c) in want.iter().enumerate() {
        let got = cell::<T>(s, l);
        ensure!(got == *c, "{} storage: {}: cell {got} at level {l}, expected {c} ({})", T::NAME, what(), show(want));
    }
    let it = <T as St>::iterate(s, want.len() + 3);
    ensure!(it == want, "{} storage: {}: iterates as {}, expected {}", T::NAME, what(), show(&it), show(want));
    let fresh = T::store(&cells::<T>(want)).map_err(|e| format!("{} storage: building {}: {e}", T::NAME, show(want)))?;
    ensure!(*s == fresh && fresh == *s && s.cmp(&fresh).is_eq() && hash_stream(s) == hash_stream(&fresh), "{} storage: {}: has the right cells but differs from a fresh one", T::NAME, what());
    Ok(())
}

fn nodes<T: St>(ctx: &mut Ctx) {
    let thorough = ctx.thorough();
    for (d, f) in fams::<T>(ctx.pick(Density::Light, Density::Dense), ctx.pick(1 << 10, 1 << 17)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/storage/d{d}", T::NAME), n, full, move |i, loc| {
            let r = radix::<T>();
            let mut v = vec![];
            f.get(i, &mut v);
            let s = T::store(&cells::<T>(&v)).map_err(|e| format!("{} storage: {} is refused: {e}", T::NAME, show(&v)))?;
            holds::<T>(&|| format!("made from {}", show(&v)), &s, &v)?;
            if let Some(a) = T::array(&cells::<T>(&v)) {
                holds::<T>(&|| format!("made from the array {}", show(&v)), &a.map_err(|e| e.to_string())?, &v)?;
            }
            loc.states += 1;
            loc.transitions += 2;
            // writes
            for l in (0..d).filter(|l| thorough || d <= 12 || *l < 2 || l + 2 >= d || (l + i as usize) % 4 == 0) {
                for c in 0..r as u8 {
                    let mut y = s.clone();
                    unsafe { y.set_cell_at_level_unchecked(l, <T::D as Dm>::mk(c)) };
                    holds::<T>(&|| format!("{} with {c} written at level {l}", show(&v)), &y, &model::set(&v, l, c))?;
                    ensure!(y.cmp(&s) == c.cmp(&v[l]) && (y == s) == (c == v[l]), "{} storage: {} with {c} written at level {l} compares as {:?} to before", T::NAME, show(&v), y.cmp(&s));
                    let mut z = y.clone();
                    ensure!(z == y, "{} storage: a clone of {} with {c} written at level {l} differs", T::NAME, show(&v));
                    z.clone_from(&s);
                    ensure!(z == s && z.depth() == d, "{} storage: {} cloned onto another", T::NAME, show(&v));
                    // the raw bits carry all cells: put back, everything is as before
                    T::put_bits(&mut y, &s);
                    ensure!(y == s && T::same_bits(&y, &s), "{} storage: bits of {} put back after writing {c} at level {l}", T::NAME, show(&v));
                    loc.transitions += 2;
                }
            }
            // cloned onto storages of other depths
            for e in [0, 1, d.saturating_sub(2), d.saturating_sub(1), d + 1, d + 2] {
                if T::KIND != Kind::Fixed && !T::CAP.is_some_and(|c| e > c) {
                    let mut y = T::store(&cells::<T>(&vec![r as u8 - 1; e])).map_err(|e| e.to_string())?;
                    y.clone_from(&s);
                    holds::<T>(&|| format!("cloned from {} onto one of depth {e}", show(&v)), &y, &v)?;
                    loc.transitions += 1;
                }
            }
            // steps
            for g in (1..d + 3).chain([255, 256, 256 + d, usize::MAX]) {
                let Some(got) = T::up(&s, g) else { break };
                match (got, model::ancestor(&v, g)) {
                    (Some(y), Some(w)) => holds::<T>(&|| format!("ancestor({g}) of {}", show(&v)), &y, &w)?,
                    (None, None) => {}
                    (a, b) => return Err(format!("{} storage: ancestor({g}) of {}: depth {:?}, expected {:?}", T::NAME, show(&v), a.map(|y| y.depth()), b.map(|w| w.len()))),
                }
                loc.transitions += 1;
            }
            let room = T::CAP.map_or(9, |c| c - d);
            for len in [0, 1, 2, 3, 4, 7, 8, room.saturating_sub(1), room, room + 1, 256, 256 + room] {
                let more: Vec<u8> = (0..len).map(|k| ((3 * k + i as usize) % r) as u8).collect();
                let Some(got) = T::down(&s, &cells::<T>(&more)) else { break };
                match (got, model::descendant(&v, &more, T::CAP)) {
                    (Some(y), Some(w)) => holds::<T>(&|| format!("descendant({}) of {}", show(&more), show(&v)), &y, &w)?,
                    (None, None) => {}
                    (a, b) => return Err(format!("{} storage: descendant({}) of {}: depth {:?}, expected {:?}", T::NAME, show(&more), show(&v), a.map(|y| y.depth()), b.map(|w| w.len()))),
                }
                loc.transitions += 1;
            }
            holds::<T>(&|| format!("{} after everything", show(&v)), &s, &v)?;
            loc.sample(|| format!("{}: storage of {}", T::NAME, show(&v)));
            Ok(())
        });
    }
    // capacity, defaults, refusals
    ctx.unit(format!("{}/capacity", T::NAME), 1, true, |_, loc| {
        type Ty<T> = <<T as St>::S as Storage<<T as Ix>::D>>::StorageType;
        ensure!(T::S::max_depth() == T::CAP && <Ty<T> as StorageType>::max_depth() == T::CAP, "{} storage: max_depth is {:?} and {:?}, expected {:?}", T::NAME, T::S::max_depth(), <Ty<T> as StorageType>::max_depth(), T::CAP);
        ensure!(<Ty<T> as StorageType>::MAX_LEVELS == T::CAP.unwrap_or(0), "{} storage: MAX_LEVELS is {}", T::NAME, <Ty<T> as StorageType>::MAX_LEVELS);
        ensure!(<Ty<T> as StorageType>::DIMENSIONALITY == T::DIM, "{} storage: DIMENSIONALITY is {}", T::NAME, <Ty<T> as StorageType>::DIMENSIONALITY);
        let dflt = if T::KIND == Kind::Fixed { vec![0; T::CAP.unwrap()] } else { vec![] };
        holds::<T>(&|| "default".into(), &T::S::default(), &dflt)?;
        for l in 0..300 {
            for c in 0..radix::<T>() as u8 {
                let v = vec![c; l];
                let cs = cells::<T>(&v);
                for (how, got) in [("slice", Some(T::store(&cs))), ("array", T::array(&cs))] {
                    match (got, T::CAP) {
                        (None, _) => {}
                        (Some(Ok(s)), cap) => {
                            ensure!(cap.map_or(true, |c| l <= c), "{} storage: a {how} of {l} cells is accepted", T::NAME);
                            holds::<T>(&|| format!("made from a {how} of {l} cells {c}"), &s, &norm::<T>(&v))?;
                        }
                        (Some(Err(e)), cap) => ensure!(cap.map_or(false, |c| l > c) && limit_of(&e) == cap, "{} storage: a {how} of {l} cells is refused: {e:?}", T::NAME),
                    }
                    loc.transitions += 1;
                }
            }
        }
        loc.states += 1;
        Ok(())
    });
}

/// Order and equality of storages is that of their cells
fn pairs<T: St>(ctx: &mut Ctx) {
    let mut vs: Vec<Vec<u8>> = vec![];
    let per = ctx.pick(12, 60);
    for (_, f) in fams::<T>(Density::Light, 1 << 6) {
        let mut v = vec![];
        let step = (f.len() / per).max(1);
        for i in (0..f.len()).step_by(step as usize) {
            f.get(i, &mut v);
            vs.push(v.clone());
        }
    }
    let n = vs.len() as u64;
    ctx.unit(format!("{}/storage pairs", T::NAME), n, false, move |i, loc| {
        let v = &vs[i as usize];
        let a = T::store(&cells::<T>(v)).map_err(|e| e.to_string())?;
        for w in &vs {
            let b = T::store(&cells::<T>(w)).map_err(|e| e.to_string())?;
            let want = model::cmp(v, w);
            ensure!(
                a.cmp(&b) == want && a.partial_cmp(&b) == Some(want) && (a == b) == want.is_eq() && (a != b) == want.is_ne(),
                "{} storage: {} and {} compare as {:?}, expected {want:?}", T::NAME, show(v), show(w), a.cmp(&b)
            );
            ensure!((a < b) == (want == Ordering::Less) && (a <= b) == (want != Ordering::Greater) && (a > b) == (want == Ordering::Greater) && (a >= b) == (want != Ordering::Less), "{} storage: operators on {} and {}", T::NAME, show(v), show(w));
            loc.evals += 1;
        }
        loc.states += 1;
        Ok(())
    });
}

fn all<T: St>(ctx: &mut Ctx) {
    nodes::<T>(ctx);
    pairs::<T>(ctx);
}

fn main() {
    let mut ctx = Ctx::from_args("M35");
    each_ix!(all(&mut ctx));
    macro_rules! max_levels {
        ($($t:ident)*) => { $(
            ctx.unit(concat!(stringify!($t), "/MAX_LEVELS"), 1, true, |_, loc| {
                ensure!(<$t>::MAX_LEVELS == <$t as Ix>::CAP.unwrap(), "{}::MAX_LEVELS is {}", stringify!($t), <$t>::MAX_LEVELS);
                loc.states += 1;
                loc.transitions += 1;
                Ok(())
            });
        )* };
    }
    macro_rules! masks {
        ($($t:ident)*) => { $(
            ctx.unit(concat!(stringify!($t), "/MAX_LEVELS_BITMASK"), 1, true, |_, loc| {
                let want = (1u128 << <$t as Ix>::CAP.unwrap()) - 1;
                ensure!(<$t>::MAX_LEVELS_BITMASK as u128 == want, "{}::MAX_LEVELS_BITMASK is {:x}", stringify!($t), <$t>::MAX_LEVELS_BITMASK);
                loc.states += 1;
                loc.transitions += 1;
                Ok(())
            });
        )* };
    }
    masks!(F3D8 F3D16 F3D32 F3D64 F3Dus);
    max_levels!(F3D8 F3D16 F3D32 F3D64 F3Dus S3D8 S3D16 S3D32 S3D64 S3D128 S3Dus);
    ctx.finish()
}
