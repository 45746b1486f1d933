//! M13: conversions between the storage kinds keep the cells
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;
use mcore::ix::morton_index::MortonIndex;

fn like<T: Ix>(how: &str, v: &[u8], x: &T, want: &[u8]) -> Outcome {
    same_all(x, want).map_err(|e| format!("{how} of {}: {e}", show(v)))?;
    let y = built::<T>(want)?;
    ensure!(*x == y && x.cmp(&y).is_eq() && hash_stream(x) == hash_stream(&y), "{}: {how} of {} has the right cells but differs from the index built from them", T::NAME, show(v));
    Ok(())
}

fn width<W: Width>(ctx: &mut Ctx) {
    let cap = <W::Fixed as Ix>::CAP.unwrap();
    let dens = ctx.pick(Density::Medium, Density::Dense);
    let lim = ctx.pick(1 << 12, 1 << 21);
    // fixed-depth to the others and back
    for (d, f) in fams::<W::Fixed>(dens, lim) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/from fixed/d{d}", W::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let x = built::<W::Fixed>(&v)?;
            let s = W::f2s(x.clone());
            like("fixed to static", &v, &s, &v)?;
            like("fixed to static to fixed", &v, &W::s2f(s.clone()), &v)?;
            like("fixed to static to dynamic", &v, &W::s2d(s), &v)?;
            let y = W::f2d(x.clone());
            like("fixed to dynamic", &v, &y, &v)?;
            like("fixed to dynamic to fixed", &v, &W::d2f(y.clone()).map_err(|e| format!("{}: dynamic back to fixed of {}: {e}", W::NAME, show(&v)))?, &v)?;
            like("fixed to dynamic to static", &v, &W::d2s(y).map_err(|e| format!("{}: dynamic to static of {}: {e}", W::NAME, show(&v)))?, &v)?;
            loc.states += 1;
            loc.transitions += 6;
            loc.traces += 1;
            loc.sample(|| format!("{}: fixed {} to static and dynamic and back", W::NAME, show(&v)));
            Ok(())
        });
    }
    // static of every depth
    for (d, f) in fams::<W::Static>(dens, lim) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/from static/d{d}", W::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            let p = model::pad(&v, cap);
            let x = built::<W::Static>(&v)?;
            like("static to fixed", &v, &W::s2f(x.clone()), &p)?;
            like("static to fixed to static", &v, &W::f2s(W::s2f(x.clone())), &p)?;
            let y = W::s2d(x.clone());
            like("static to dynamic", &v, &y, &v)?;
            like("static to dynamic to static", &v, &W::d2s(y.clone()).map_err(|e| format!("{}: dynamic back to static of {}: {e}", W::NAME, show(&v)))?, &v)?;
            like("static to dynamic to fixed", &v, &W::d2f(y).map_err(|e| format!("{}: dynamic to fixed of {}: {e}", W::NAME, show(&v)))?, &p)?;
            same(&x, &v)?;
            loc.states += 1;
            loc.transitions += 5;
            loc.traces += 1;
            loc.sample(|| format!("{}: static {} to fixed and dynamic and back", W::NAME, show(&v)));
            Ok(())
        });
    }
    // dynamic of every depth, also those that are refused
    for d in 0..=cap + 6 {
        let f = fam(1 << W::D::DIM, d, dens, lim);
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/from dynamic/d{d}", W::NAME), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            from_dyn::<W>(&v, cap, loc)
        });
    }
    let mut deep: Vec<usize> = (cap + 7..cap + 40).collect();
    for b in [128usize, 256, 512, 65536] {
        deep.extend(b - 2..b + cap + 3);
    }
    deep.retain(|d| *d > cap);
    let n = deep.len() as u64;
    ctx.unit(format!("{}/much too deep", W::NAME), n, false, move |i, loc| {
        let r = 1 << W::D::DIM;
        for (a, c) in [(0, 0), (0, r - 1), (3, 1)] {
            let v: Vec<u8> = (0..deep[i as usize]).map(|l| ((a * l + c) % r) as u8).collect();
            from_dyn::<W>(&v, cap, loc)?;
        }
        Ok(())
    });
}

fn from_dyn<W: Width>(v: &[u8], cap: usize, loc: &mut Loc) -> Outcome {
    let y = built::<W::Dyn>(v)?;
    loc.states += 1;
    loc.transitions += 2;
    let (f, s) = (W::d2f(y.clone()), W::d2s(y.clone()));
    if v.len() <= cap {
        let f = f.map_err(|e| format!("{}: dynamic to fixed of {}: {e}", W::NAME, show(v)))?;
        like("dynamic to fixed", v, &f, &model::pad(v, cap))?;
        like("dynamic to fixed to dynamic", v, &W::f2d(f), &model::pad(v, cap))?;
        let s = s.map_err(|e| format!("{}: dynamic to static of {}: {e}", W::NAME, show(v)))?;
        like("dynamic to static", v, &s, v)?;
        let back = W::s2d(s);
        like("dynamic to static to dynamic", v, &back, v)?;
        ensure!(back == y, "{}: {} converted to static and back differs from itself", W::NAME, show(v));
        loc.transitions += 2;
        loc.traces += 1;
        loc.sample(|| format!("{}: dynamic {} to fixed and static and back", W::NAME, show(v)));
    } else {
        for (to, r) in [("fixed", f.map(|x| x.depth())), ("static", s.map(|x| x.depth()))] {
            match r {
                Ok(d) => return Err(format!("{}: dynamic index of depth {} converted to {to} without an error, result has depth {d}", W::NAME, v.len())),
                Err(e) => {
                    ensure!(limit_of(&e) == Some(cap), "{}: dynamic index of depth {} to {to}: {e:?}, expected the depth limit {cap}", W::NAME, v.len());
                    // in words as well
                    let text = e.to_string();
                    ensure!(text.split(|c: char| !c.is_ascii_digit()).any(|n| n.parse() == Ok(cap)), "{}: dynamic index of depth {} to {to}: the message {text:?} does not name the capacity {cap}", W::NAME, v.len());
                }
            }
        }
        loc.sample(|| format!("{}: dynamic {} is refused", W::NAME, show(v)));
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::from_args("M13");
    each_width!(width(&mut ctx));
    ctx.finish()
}
