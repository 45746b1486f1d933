//! M24 / M25: the probe at interpreter size. Arguments: <coordinate bits> <portable 0|1> <shard> <of> [size] [trace]
use mcore::probe::*;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |k: usize| a.get(k).and_then(|s| s.parse::<u64>().ok());
    let (coord, portable, shard, of) = (n(0).unwrap() as usize, n(1).unwrap() == 1, n(2).unwrap(), n(3).unwrap());
    let size = n(4).unwrap_or(0) as usize;
    let trace = a.iter().any(|s| s == "trace");
    mcore::engine::install_hook();
    let mut k = 0;
    let mut total = 0;
    for g in groups(Cfg { size, coord, portable }) {
        for i in 0..g.n {
            k += 1;
            if k % of != shard {
                continue;
            }
            if trace {
                println!("B {}#{}", g.name, i);
            }
            let mut d = Digest::new();
            if mcore::engine::observe(|| (g.f)(i, &mut d)).is_err() {
                d.put(0xBAD);
            }
            total += d.puts();
            println!("R {}#{} {:016x}", g.name, i, d.get());
        }
    }
    println!("END {total}");
}
