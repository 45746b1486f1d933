//! M26: results do not depend on the build profile. Run in several profiles; the digests are compared by the driver.
use mcore::engine::*;
use mcore::ix::UBITS;
use mcore::probe::*;

fn main() {
    let mut ctx = Ctx::from_args("M26");
    let cfg = Cfg { size: ctx.pick(1, 2), coord: UBITS, portable: false };
    for g in groups(cfg) {
        let f = g.f;
        ctx.unit(g.name, g.n, false, move |i, loc| {
            let mut d = Digest::new();
            f(i, &mut d);
            loc.digest(d.get());
            loc.states += 1;
            loc.evals += d.puts();
            loc.sample(|| format!("item {i}: {} observations, digest {:016x}", d.puts(), d.get()));
            Ok(())
        });
    }
    ctx.finish()
}
