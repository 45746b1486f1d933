//! M17: cells and orderings
use mcore::engine::*;
use mcore::ix::morton_index::{dimensions::*, Error};
use mcore::ix::*;
use mcore::*;
use std::fmt::Debug;
use std::hash::Hash;

trait Cl: Copy + Ord + Debug + Hash + TryFrom<usize, Error = Error> + Into<usize> + Send + Sync + 'static {
    const DIM: usize;
    const NAME: &'static str;
    fn all() -> Vec<Self>;
    fn idx(&self) -> usize;
    fn by_ref(&self) -> usize;
    fn place(self, ord: usize) -> [usize; 3];
    fn place_default(self) -> [usize; 3];
}
impl Cl for Quadrant {
    const DIM: usize = 2;
    const NAME: &'static str = "Quadrant";
    fn all() -> Vec<Self> {
        Q.to_vec()
    }
    fn idx(&self) -> usize {
        self.index()
    }
    fn by_ref(&self) -> usize {
        self.into()
    }
    fn place(self, ord: usize) -> [usize; 3] {
        Dim2D::ungrid(&Dim2D::ord(ord).to_index(self))
    }
    fn place_default(self) -> [usize; 3] {
        let a = Dim2D::ungrid(&QuadrantOrdering::default().to_index(self));
        let b = Dim2D::ungrid(&<<Dim2D as Dimension>::CellOrdering as Default>::default().to_index(self));
        assert_eq!(a, b);
        a
    }
}
impl Cl for Octant {
    const DIM: usize = 3;
    const NAME: &'static str = "Octant";
    fn all() -> Vec<Self> {
        O.to_vec()
    }
    fn idx(&self) -> usize {
        self.index()
    }
    fn by_ref(&self) -> usize {
        self.into()
    }
    fn place(self, ord: usize) -> [usize; 3] {
        Dim3D::ungrid(&Dim3D::ord(ord).to_index(self))
    }
    fn place_default(self) -> [usize; 3] {
        let a = Dim3D::ungrid(&OctantOrdering::default().to_index(self));
        let b = Dim3D::ungrid(&<<Dim3D as Dimension>::CellOrdering as Default>::default().to_index(self));
        assert_eq!(a, b);
        a
    }
}

fn number<C: Cl>(k: usize) -> Outcome {
    let all = C::all();
    match C::try_from(k) {
        Ok(c) => {
            ensure!(k < all.len(), "{}: number {k} gives {c:?}, it must be rejected", C::NAME);
            ensure!(c == all[k], "{}: number {k} gives {c:?}, expected {:?}", C::NAME, all[k]);
        }
        Err(e) => {
            ensure!(k >= all.len(), "{}: number {k} is rejected", C::NAME);
            ensure!(matches!(e, Error::CellIndexOutOfRange), "{}: number {k} is rejected with {e:?}, expected CellIndexOutOfRange", C::NAME);
        }
    }
    Ok(())
}

fn cells_of<C: Cl>(ctx: &mut Ctx) {
    let r = 1usize << C::DIM;
    let block = 1usize << 14;
    let blocks = ctx.pick(1u64 << 8, 1 << 18);
    ctx.unit(format!("{}/numbers from 0", C::NAME), blocks, true, move |i, loc| {
        for k in i as usize * block..(i as usize + 1) * block {
            number::<C>(k)?;
            loc.transitions += 1;
        }
        loc.states += 1;
        Ok(())
    });
    // numbers that become a valid cell when they are truncated
    ctx.unit(format!("{}/numbers with high bits", C::NAME), UBITS as u64, true, move |i, loc| {
        for j in 0..UBITS {
            for low in 0..32 {
                number::<C>((1usize << i | 1usize << j).wrapping_add(low))?;
                number::<C>((1usize << i | 1usize << j).wrapping_sub(low))?;
                number::<C>((usize::MAX << i).wrapping_add(low))?;
                number::<C>(!(1usize << i | 1usize << j).wrapping_add(low))?;
                loc.transitions += 4;
            }
        }
        loc.states += 1;
        loc.sample(|| format!("{}: {:x} is rejected", C::NAME, 1u64 << 63 | 1 << i));
        Ok(())
    });
    ctx.unit(format!("{}/cells", C::NAME), r as u64, true, move |i, loc| {
        let all = C::all();
        ensure!(all.len() == r, "model");
        let c = all[i as usize];
        let k = i as usize;
        let by_value: usize = c.into();
        ensure!(by_value == k && c.by_ref() == k && c.idx() == k, "{}: {c:?} has numbers {by_value}, {}, {}, expected {k}", C::NAME, c.by_ref(), c.idx());
        for (j, d) in all.iter().enumerate() {
            ensure!(c.cmp(d) == k.cmp(&j) && c.partial_cmp(d) == Some(k.cmp(&j)), "{}: {c:?} compares to {d:?} as {:?}", C::NAME, c.cmp(d));
            ensure!((c == *d) == (k == j) && (c < *d) == (k < j) && (c >= *d) == (k >= j), "{}: operators on {c:?} and {d:?}", C::NAME);
            if k == j {
                ensure!(hash_stream(&c) == hash_stream(d), "{}: hash of {c:?}", C::NAME);
            }
            loc.transitions += 1;
        }
        for ord in 0..model::orderings(C::DIM) {
            let (p, w) = (c.place(ord), model::offset(C::DIM, ord, k as u8));
            ensure!((0..3).all(|a| p[a] as u128 == w[a]), "{}: ordering {ord} puts {c:?} at {:?}, expected {:?}", C::NAME, &p[..C::DIM], &w[..C::DIM]);
            // one to one
            for d in &all {
                ensure!(*d == c || d.place(ord) != p, "{}: ordering {ord} puts {c:?} and {d:?} at the same place", C::NAME);
                loc.transitions += 1;
            }
        }
        ensure!(c.place_default() == c.place(0), "{}: the default ordering puts {c:?} at {:?}", C::NAME, c.place_default());
        loc.states += 1;
        loc.sample(|| format!("{}: {c:?} is number {k}, at {:?} by default", C::NAME, c.place_default()));
        Ok(())
    });
}

fn shifts(ctx: &mut Ctx) {
    ctx.unit("OctantOrdering/axis shifts", 6, true, |i, loc| {
        let o = Dim3D::ord(i as usize);
        let (x, y, z) = o.get_bit_shifts_for_xyz();
        let mut s = [x, y, z];
        for k in 0..8usize {
            let p = Dim3D::ungrid(&o.to_index(O[k]));
            for (a, sh) in s.iter().enumerate() {
                ensure!(*sh < 3, "axis shift {sh} of {o:?}");
                ensure!((k >> sh) & 1 == p[a], "{o:?}: octant {k} lies at {p:?}, but the axis shifts are {s:?}");
                loc.transitions += 1;
            }
            let back = p[0] << x | p[1] << y | p[2] << z;
            ensure!(back == k, "{o:?}: composing {p:?} with the axis shifts {s:?} gives {back}, not {k}");
        }
        s.sort_unstable();
        ensure!(s == [0, 1, 2], "{o:?}: axis shifts {x},{y},{z} are not a permutation");
        loc.states += 1;
        Ok(())
    });
    ctx.unit("dimensionality", 1, true, |_, loc| {
        ensure!(Dim2D::DIMENSIONALITY == 2 && Dim3D::DIMENSIONALITY == 3, "DIMENSIONALITY is {} and {}", Dim2D::DIMENSIONALITY, Dim3D::DIMENSIONALITY);
        let d = OctantOrdering::default().get_bit_shifts_for_xyz();
        ensure!(d == (0, 1, 2), "axis shifts of the default octant ordering are {d:?}");
        loc.states += 1;
        loc.transitions += 3;
        Ok(())
    });
}

fn main() {
    let mut ctx = Ctx::from_args("M17");
    cells_of::<Quadrant>(&mut ctx);
    cells_of::<Octant>(&mut ctx);
    shifts(&mut ctx);
    ctx.finish()
}
