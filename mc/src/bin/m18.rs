//! M18: 3D indices from raw words
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::word::Word;
use mcore::*;

trait Raw: Ix {
    type B: Word;
    fn raw(w: Self::B, depth: usize) -> Self;
}
macro_rules! raw {
    ($($f:ident $s:ident $b:ty),*) => { $(
        impl Raw for $f {
            type B = $b;
            fn raw(w: $b, _depth: usize) -> Self {
                $f::from_raw_index(w)
            }
        }
        impl Raw for $s {
            type B = $b;
            fn raw(w: $b, depth: usize) -> Self {
                $s::from_raw_index(w, depth as u8)
            }
        }
    )* };
}
raw!(F3D8 S3D8 u8, F3D16 S3D16 u16, F3D32 S3D32 u32, F3D64 S3D64 u64, F3D128 S3D128 u128, F3Dus S3Dus usize);

/// The word with these cells from its most significant end on, and zero after them
fn word<T: Raw>(v: &[u8]) -> u128 {
    let mut w = 0u128;
    for (l, c) in v.iter().enumerate() {
        w |= (*c as u128) << (T::B::W - 3 * (l + 1));
    }
    w
}

fn one<T: Raw>(v: &[u8]) -> Outcome {
    let w = T::B::of(word::<T>(v));
    let x = T::raw(w, v.len());
    same_all(&x, v).map_err(|e| format!("from_raw_index({w:x?}, depth {}): {e}", v.len()))?;
    let y = built::<T>(v)?;
    ensure!(x == y && y == x && x.cmp(&y).is_eq() && hash_stream(&x) == hash_stream(&y), "{}: from_raw_index({w:x?}, depth {}) has the right cells but differs from the index built from them", T::NAME, v.len());
    Ok(())
}

fn raws<T: Raw>(ctx: &mut Ctx) {
    for (d, f) in fams::<T>(ctx.pick(Density::Dense, Density::Deep), ctx.pick(1 << 15, 1 << 24)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/raw words/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            one::<T>(&v)?;
            // changing one level of an index made from a word changes nothing else
            let l = i as usize % d.max(1);
            if d > 0 {
                let c = (i % 8) as u8;
                let mut x = T::raw(T::B::of(word::<T>(&v)), d);
                x.set_cell_at_level(l, <T::D as Dm>::mk(c));
                same(&x, &model::set(&v, l, c))?;
                ensure!(x == T::raw(T::B::of(word::<T>(&model::set(&v, l, c))), d), "{}: {} with level {l} set to {c} differs from the index of the changed word", T::NAME, show(&v));
                loc.transitions += 1;
            }
            loc.states += 1;
            loc.transitions += 1;
            loc.sample(|| format!("{}: word {:x} is {}", T::NAME, word::<T>(&v), show(&v)));
            Ok(())
        });
    }
    // pairs of words order like the indices built from the cells
    let fs = fams::<T>(Density::Light, 1 << 6);
    let mut vs: Vec<Vec<u8>> = vec![];
    for (_, f) in fs {
        let mut v = vec![];
        let step = (f.len() / 24).max(1);
        for i in (0..f.len()).step_by(step as usize) {
            f.get(i, &mut v);
            vs.push(v.clone());
        }
    }
    let vs = std::sync::Arc::new(vs);
    let n = vs.len() as u64;
    ctx.unit(format!("{}/pairs of raw words", T::NAME), n, false, move |i, loc| {
        let a = &vs[i as usize];
        let x = T::raw(T::B::of(word::<T>(a)), a.len());
        for b in vs.iter() {
            let y = T::raw(T::B::of(word::<T>(b)), b.len());
            ensure!(x.cmp(&y) == model::cmp(a, b), "{}: indices from the raw words of {} and {} compare as {:?}", T::NAME, show(a), show(b), x.cmp(&y));
            ensure!((x == y) == (a == b), "{}: == of the indices from the raw words of {} and {}", T::NAME, show(a), show(b));
            loc.transitions += 1;
        }
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M18");
    raws::<F3D8>(&mut ctx);
    raws::<F3D16>(&mut ctx);
    raws::<F3D32>(&mut ctx);
    raws::<F3D64>(&mut ctx);
    raws::<F3D128>(&mut ctx);
    raws::<F3Dus>(&mut ctx);
    raws::<S3D8>(&mut ctx);
    raws::<S3D16>(&mut ctx);
    raws::<S3D32>(&mut ctx);
    raws::<S3D64>(&mut ctx);
    raws::<S3D128>(&mut ctx);
    raws::<S3Dus>(&mut ctx);
    ctx.finish()
}
