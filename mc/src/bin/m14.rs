//! M14: the names of a node
use mcore::engine::*;
use mcore::fam::Density;
use mcore::ix::*;
use mcore::*;
use morton_index::MortonIndexNaming::{CellConcatenation, CellConcatenationWithRoot, GridIndex};
use std::collections::HashMap;

fn one<T: Ix>(v: &[u8], loc: &mut Loc) -> Outcome {
    let x = built::<T>(v)?;
    let mut wants = vec![("CellConcatenation", CellConcatenation, model::name_concat(v)), ("CellConcatenationWithRoot", CellConcatenationWithRoot, model::name_root(v))];
    if v.len() <= UBITS {
        wants.push(("GridIndex", GridIndex, model::name_grid(T::DIM, v)));
    }
    for (n, naming, want) in wants {
        let got = x.to_string(naming);
        ensure!(got == want, "{}: the {n} name of {} is {got:?}, expected {want:?}", T::NAME, show(v));
        loc.transitions += 1;
    }
    loc.states += 1;
    loc.sample(|| format!("{}: {:?}", T::NAME, x.to_string(CellConcatenationWithRoot)));
    Ok(())
}


fn nodes<T: Ix>(ctx: &mut Ctx) {
    let dens = ctx.pick(Density::Medium, Density::Dense);
    let lim = ctx.pick(1 << 14, 1 << 21);
    for (d, f) in fams::<T>(dens, lim) {
        let (n, full) = (f.len(), f.is_full());
        ctx.unit(format!("{}/names/d{}", T::NAME, d), n, full, move |i, loc| {
            let mut v = vec![];
            f.get(i, &mut v);
            one::<T>(&v, loc)
        });
    }
}

/// No two nodes of the upper levels share a name (checked without the model)
fn unique<T: VarIx>(ctx: &mut Ctx) {
    let max = if T::DIM == 2 { 7 } else { 5 }.min(max_explored::<T>());
    ctx.unit(format!("{}/unique names to depth {max}", T::NAME), 3, true, move |i, loc| {
        let naming = [CellConcatenation, CellConcatenationWithRoot, GridIndex][i as usize];
        let mut seen: HashMap<String, Vec<u8>> = HashMap::new();
        let mut todo = vec![T::default()];
        while let Some(x) = todo.pop() {
            let s = x.to_string(naming);
            let v = reads(&x);
            loc.states += 1;
            loc.transitions += 1;
            if let Some(o) = seen.insert(s.clone(), v.clone()) {
                return Err(format!("{}: {} and {} are both named {s:?}", T::NAME, show(&o), show(&v)));
            }
            if v.len() < max {
                for c in 0..radix::<T>() as u8 {
                    todo.push(x.child(<T::D as Dm>::mk(c)).ok_or_else(|| format!("{}: {} has no child", T::NAME, show(&v)))?);
                }
            }
        }
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M14");
    each_ix!(nodes(&mut ctx));
    each_var!(unique(&mut ctx));
    ctx.finish()
}
