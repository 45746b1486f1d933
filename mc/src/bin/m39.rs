//! M39: indices can be shared between threads
use mcore::engine::*;
use mcore::ix::morton_index::helper::make_displayable;
use mcore::ix::morton_index::number::{add_two_zeroes_before_every_bit_u32, add_zero_before_every_bit_u16, Bits};
use mcore::ix::morton_index::MortonIndexNaming::*;
use mcore::ix::*;
use mcore::sched::{self, Job};
use mcore::*;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn digest<H: Hash>(x: H) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    x.hash(&mut h);
    h.0
}

fn seen<T: Ix>(x: &T) -> u64 {
    let mut r = x.depth() as u64;
    for l in 0..x.depth() {
        r = r.wrapping_mul(31) + <T::D as Dm>::num(&x.get_cell_at_level(l)) as u64;
    }
    r
}

fn opt<T: Ix>(x: Option<T>) -> u64 {
    x.map_or(1, |x| seen(&x))
}

/// An index that several threads look at, and what else is needed to work with it
struct Obj<T: Ix> {
    x: T,
    /// Another one
    z: T,
    cells: Vec<u8>,
    grids: Vec<[usize; 3]>,
    d: usize,
    k: usize,
}

type Op<T> = (String, Box<dyn Fn(&Obj<T>) -> u64 + Send + Sync>);

fn objects<T: Ix>() -> Vec<Obj<T>> {
    let r = radix::<T>();
    let d = match T::KIND {
        Kind::Fixed => T::CAP.unwrap(),
        _ => T::CAP.unwrap_or(5).min(5),
    };
    (0..2)
        .map(|k| {
            let mut v: Vec<u8> = (0..d).map(|l| ((3 * l + 1) % r) as u8).collect();
            if k == 1 {
                v[d / 2] = (v[d / 2] + 1) % r as u8;
            }
            let x = built::<T>(&v).unwrap_or_default();
            v[d - 1] = (v[d - 1] + 1) % r as u8;
            let z = built::<T>(&v).unwrap_or_default();
            v[d - 1] = (v[d - 1] + r as u8 - 1) % r as u8;
            let grids = (0..model::orderings(T::DIM)).map(|o| if d <= ops::grid_limit::<T>() { observe(|| x.to_grid(o)).unwrap_or_default() } else { [1, 2, 3] }).collect();
            Obj { x, z, cells: v, grids, d, k }
        })
        .collect()
}

fn queries<T: Ix>() -> Vec<Op<T>> {
    let mut ops: Vec<Op<T>> = vec![];
    let mut add = |n: &str, f: Box<dyn Fn(&Obj<T>) -> u64 + Send + Sync>| ops.push((n.to_string(), f));
    add("building", Box::new(|o| opt(T::build(&cells::<T>(&o.cells)).ok())));
    add("reading", Box::new(|o| seen(&o.x)));
    add("iterating", Box::new(|o| digest(o.x.iterate(100))));
    add("hash", Box::new(|o| digest(&o.x)));
    add("name", Box::new(|o| digest(o.x.to_string(CellConcatenation))));
    add("name with root", Box::new(|o| digest(o.x.to_string(CellConcatenationWithRoot))));
    add("comparison", Box::new(|o| o.x.cmp(&o.z) as u64 ^ (u64::from(o.x == o.z) << 8)));
    add("inverted", Box::new(|o| seen(&o.x.inverted())));
    add("writing a copy", Box::new(|o| {
        let mut y = o.x.clone();
        y.set_cell_at_level(o.d / 2, <T::D as Dm>::mk(2 + o.k as u8));
        seen(&y)
    }));
    add("slice display", Box::new(|o| digest(make_displayable(std::slice::from_ref(&o.x), CellConcatenation).to_string())));
    let d = match T::KIND {
        Kind::Fixed => T::CAP.unwrap(),
        _ => 0,
    };
    if d <= ops::grid_limit::<T>() {
        add("grid name", Box::new(|o| digest(o.x.to_string(GridIndex))));
        for k in [0, model::orderings(T::DIM) - 1] {
            add(&format!("grid coordinates, ordering {k}"), Box::new(move |o| digest(o.x.to_grid(k))));
            add(&format!("from grid coordinates, ordering {k}"), Box::new(move |o| opt(T::from_grid(o.grids[k], o.d, k).ok())));
        }
    }
    ops
}

fn steps<T: VarIx>() -> Vec<Op<T>> {
    let mut ops = queries::<T>();
    let mut add = |n: &str, f: Box<dyn Fn(&Obj<T>) -> u64 + Send + Sync>| ops.push((n.to_string(), f));
    add("parent", Box::new(|o| opt(o.x.parent())));
    add("with_depth", Box::new(|o| opt(o.x.with_depth(o.d / 2))));
    add("ancestor", Box::new(|o| opt(o.x.ancestor(nz(2 + o.k)))));
    add("child", Box::new(|o| opt(o.x.child(<T::D as Dm>::mk(1 + o.k as u8)))));
    add("descendant", Box::new(|o| opt(o.x.descendant(&cells::<T>(&o.cells[..2])))));
    add("zeroed", Box::new(|o| opt(T::zeroed_(o.d - o.k))));
    ops
}

/// First operation, second one, on the same index or on two
struct Pair {
    a: String,
    b: String,
    job: [Job; 2],
}

/// All pairs in which the first operation is number `i`
fn pairs<T: Ix>(ops: Vec<Op<T>>, i: usize, all: bool) -> Vec<Pair> {
    let objs: Vec<Arc<Obj<T>>> = objects::<T>().into_iter().map(Arc::new).collect();
    let ops: Vec<Arc<Op<T>>> = ops.into_iter().map(Arc::new).collect();
    let job = |j: usize, k: usize| -> Job {
        let (f, o) = (ops[j].clone(), objs[k].clone());
        Arc::new(move || (f.1)(&o))
    };
    let mut out = vec![];
    for j in 0..ops.len() {
        for k in [1, 0] {
            // without `all`, the pairs that are most closely related: the same operation on another index, and
            // all operations on the same one if it could keep something for itself (which one that is `Copy` cannot)
            if all || i == j && k == 1 || T::KIND == Kind::Dynamic && k == 0 {
                out.push(Pair { a: format!("{}: {}", T::NAME, ops[i].0), b: format!("{} of {}", ops[j].0, ["the same index", "another index"][k]), job: [job(i, 0), job(j, k)] });
            }
        }
    }
    out
}

/// Where something common to all types might be remembered
fn helpers(i: usize) -> Vec<Pair> {
    let f: Vec<(&str, fn(u64) -> u64)> = vec![
        ("spreading, 8 bits", |x| unsafe { number_spread(x) }),
        ("spreading, 32 bits", |x| add_two_zeroes_before_every_bit_u32(x as u32)),
        ("spreading, 16 bits", |x| add_zero_before_every_bit_u16(x as u16).into()),
        ("bits of a word", |x| unsafe {
            let mut y = x;
            y.set_bits(3..17, 5);
            Bits::get_bits(&x, 3..17) ^ y << 16
        }),
        ("bits of bytes", |x| unsafe {
            let mut v = x.to_le_bytes().to_vec();
            v.set_bits(3..17, vec![5, 1]);
            digest((v.get_bits(3..30), v.get_bits_as_usize(5..40)))
        }),
    ];
    let mut out = vec![];
    for j in 0..f.len() {
        let (fa, fb) = (f[i].1, f[j].1);
        out.push(Pair { a: f[i].0.into(), b: format!("{} of another value", f[j].0), job: [Arc::new(move || fa(0x1234_5678)), Arc::new(move || fb(0x9876_5432))] });
    }
    out
}

unsafe fn number_spread(x: u64) -> u64 {
    mcore::ix::morton_index::number::add_two_zeroes_before_every_bit_u8(x as u8).into()
}

fn conversions<W: Width>(i: usize) -> Vec<Pair> {
    let r = radix::<W::Static>();
    let d = W::Static::CAP.unwrap().min(5);
    let mut jobs: Vec<(&str, [Job; 2])> = vec![];
    let o: Vec<_> = (0..2)
        .map(|k| {
            let v: Vec<u8> = (0..d).map(|l| ((3 * l + 1 + if l == d / 2 { k } else { 0 }) % r) as u8).collect();
            let s = built::<W::Static>(&v).unwrap_or_default();
            Arc::new((s.clone(), observe(|| W::s2d(s.clone())).unwrap_or_default(), observe(|| W::s2f(s)).unwrap_or_default()))
        })
        .collect();
    macro_rules! conv {
        ($n:expr, $f:expr) => {
            jobs.push((
                $n,
                [0, 1].map(|k| {
                    let o = o[k].clone();
                    Arc::new(move || $f(&*o)) as Job
                }),
            ));
        };
    }
    type Os<W> = (<W as Width>::Static, <W as Width>::Dyn, <W as Width>::Fixed);
    conv!("static to dynamic", |o: &Os<W>| seen(&W::s2d(o.0.clone())));
    conv!("static to fixed", |o: &Os<W>| seen(&W::s2f(o.0.clone())));
    conv!("dynamic to static", |o: &Os<W>| opt(W::d2s(o.1.clone()).ok()));
    conv!("dynamic to fixed", |o: &Os<W>| opt(W::d2f(o.1.clone()).ok()));
    conv!("fixed to static", |o: &Os<W>| seen(&W::f2s(o.2.clone())));
    conv!("fixed to dynamic", |o: &Os<W>| seen(&W::f2d(o.2.clone())));
    (0..jobs.len())
        .map(|j| Pair { a: format!("{}: {}", W::NAME, jobs[i].0), b: format!("{} of another index", jobs[j].0), job: [jobs[i].1[0].clone(), jobs[j].1[1].clone()] })
        .collect()
}

/// A process of its own for each group: nothing else runs in it but the two threads, and it has no history
struct Group {
    name: String,
    n: usize,
    make: Box<dyn Fn(usize, bool) -> Vec<Pair> + Send + Sync>,
}

fn group_q<T: Ix>(g: &mut Vec<Group>) {
    g.push(Group { name: format!("{}/operations", T::NAME), n: queries::<T>().len(), make: Box::new(|i, all| pairs::<T>(queries(), i, all)) });
}

fn group_v<T: VarIx>(g: &mut Vec<Group>) {
    g.push(Group { name: format!("{}/operations", T::NAME), n: steps::<T>().len(), make: Box::new(|i, all| pairs::<T>(steps(), i, all)) });
}

fn group_c<W: Width>(g: &mut Vec<Group>) {
    g.push(Group { name: format!("{}/conversions", W::NAME), n: 6, make: Box::new(|i, _| conversions::<W>(i)) });
}

fn groups() -> Vec<Group> {
    let mut g = vec![];
    group_v::<D2D>(&mut g);
    group_v::<D3D>(&mut g);
    each_static!(group_v(&mut g));
    each_fixed(&mut g);
    each_width!(group_c(&mut g));
    g.push(Group { name: "helpers".into(), n: 5, make: Box::new(|i, _| helpers(i)) });
    g
}

fn each_fixed(g: &mut Vec<Group>) {
    group_q::<F2D8>(g);
    group_q::<F2D16>(g);
    group_q::<F2D32>(g);
    group_q::<F2D64>(g);
    group_q::<F2D128>(g);
    group_q::<F3D8>(g);
    group_q::<F3D16>(g);
    group_q::<F3D32>(g);
    group_q::<F3D64>(g);
    group_q::<F3D128>(g);
}

/// The controlled process: prints one line of numbers, or what went wrong
fn slave(group: usize, i: usize, all: bool, secs: u64) -> ! {
    install_hook();
    let g = groups().swap_remove(group);
    if !sched::available() {
        println!("UNAVAILABLE");
        std::process::exit(0);
    }
    let until = Instant::now() + Duration::from_secs(secs);
    let (mut n, mut sum, mut cut) = (0u64, sched::Explored::default(), 0u64);
    let mut sample = String::new();
    for p in (g.make)(i, all) {
        match sched::explore(&p.job[0], &p.job[1], 60_000, 1, until) {
            Ok(e) => {
                n += 1;
                cut += u64::from(!e.complete);
                sum.schedules += e.schedules;
                sum.switches += e.switches;
                sum.blocked += e.blocked;
                sum.points += e.points;
                if sample.is_empty() {
                    sample = format!("{} / {}: {} instructions, {} schedules{}", p.a, p.b, e.points, e.schedules, if e.complete { "" } else { ", not all" });
                }
            }
            Err(e) => {
                println!("WRONG {} / {}: {e}", p.a, p.b);
                std::process::exit(0);
            }
        }
    }
    println!("OK {n} {cut} {} {} {} {}", sum.points, sum.schedules, sum.switches, sum.blocked);
    println!("{sample}");
    std::process::exit(0);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--slave") {
        let num = |k: usize| args[k].parse::<u64>().expect("number");
        slave(num(2) as usize, num(3) as usize, num(4) > 0, num(5));
    }
    let mut ctx = Ctx::from_args("M39");
    let all = ctx.thorough();
    let secs = 60u64;
    let exe = std::env::current_exe().unwrap_or_else(|e| panic!("{e}"));
    for (k, g) in groups().into_iter().enumerate() {
        let exe = exe.clone();
        ctx.unit(g.name, g.n as u64, true, move |i, loc| {
            let out = std::process::Command::new(&exe)
                .args(["--slave", &k.to_string(), &i.to_string(), &u8::from(all).to_string(), &secs.to_string()])
                .output()
                .unwrap_or_else(|e| {
                    eprintln!("cannot run the process: {e}");
                    std::process::exit(2)
                });
            let text = String::from_utf8_lossy(&out.stdout);
            let mut lines = text.lines();
            let first = lines.next().unwrap_or("");
            if first == "UNAVAILABLE" {
                return Ok(());
            }
            ensure!(!first.starts_with("WRONG "), "{}", &first[6..]);
            let nums: Vec<u64> = first.strip_prefix("OK ").unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
            ensure!(nums.len() == 6, "the process that runs the two threads ended with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr).lines().next().unwrap_or(""));
            loc.states += nums[2];
            loc.transitions += nums[4];
            loc.traces += nums[3];
            loc.evals += nums[0];
            loc.sample(|| format!("{}{}", lines.next().unwrap_or(""), if nums[1] > 0 { format!(" ({} of the {} pairs not completely)", nums[1], nums[0]) } else { String::new() }));
            Ok(())
        });
    }
    ctx.finish()
}
