//! M16: inversion
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::user::*;
use mcore::*;

fn inv<T: Ix>(ctx: &mut Ctx) {
    for (d, f) in fams::<T>(ctx.pick(Density::Medium, Density::Deep), ctx.pick(1 << 14, 1 << 22)) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/inverted/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<T>(&v)?;
            let w = model::inverted(&v);
            let y = x.inverted();
            same_all(&y, &w).map_err(|e| format!("inverted of {}: {e}", show(&v)))?;
            same(&x, &v).map_err(|e| format!("{} after inverting it: {e}", show(&v)))?;
            let fresh = built::<T>(&w)?;
            ensure!(y == fresh && y.cmp(&fresh).is_eq() && hash_stream(&y) == hash_stream(&fresh), "{}: inverted of {} has the right cells but differs from the index built from them", T::NAME, show(&v));
            let z = y.inverted();
            ensure!(z == x, "{}: inverting {} twice gives {}", T::NAME, show(&v), show(&reads(&z)));
            same(&y, &w)?;
            loc.states += 1;
            loc.transitions += 2;
            loc.traces += 1;
            loc.sample(|| format!("{}: {} inverted is {}", T::NAME, show(&v), show(&w)));
            Ok(())
        });
    }
}

fn user<U: User>(ctx: &mut Ctx) {
    for d in 0..=if U::DIM == 2 { 9 } else { 6 } {
        let f = fam(1 << U::DIM, d, Density::Medium, 1 << 12);
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/inverted/d{}", U::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = U::of(&v);
            let y = x.inverted();
            ensure!(y.to() == model::inverted(&v), "{}: inverted of {} is {}", U::NAME, show(&v), show(&y.to()));
            ensure!(x.to() == v, "{}: inverting {} changed it", U::NAME, show(&v));
            ensure!(y.inverted() == x, "{}: inverting {} twice gives {}", U::NAME, show(&v), show(&y.inverted().to()));
            loc.states += 1;
            loc.transitions += 2;
            Ok(())
        });
    }
}

fn main() {
    let mut ctx = Ctx::from_args("M16");
    each_ix!(inv(&mut ctx));
    user::<Vec2>(&mut ctx);
    user::<Vec3>(&mut ctx);
    ctx.finish()
}
