//! Work distribution, counting, panics as observations, and verdicts.
//!
//! A check declares *units*: a name, a number of items, and a function that decides item `i`. Every item of every unit is
//! executed (nothing is sampled); the items are only distributed over threads. An item that returns `Err` or panics is a
//! violation; the lowest item of each unit is reported, so verdicts and replays do not depend on the scheduling.
use crate::json::esc;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Outcome = Result<(), String>;
type ItemFn = Box<dyn Fn(u64, &mut Loc) -> Outcome + Send + Sync>;

pub struct Unit {
    name: String,
    n: u64,
    exhaustive: bool,
    f: ItemFn,
}

/// Counters of one worker
#[derive(Default, Clone)]
pub struct Loc {
    /// distinct model states (nodes, words, ...) the implementation was put into
    pub states: u64,
    /// operations executed on the implementation and compared with the model
    pub transitions: u64,
    /// complete operation histories replayed on the implementation from scratch
    pub traces: u64,
    /// single evaluations of the property
    pub evals: u64,
    /// evaluations that are distinct and not trivial
    pub distinct: u64,
    /// items executed to the end
    items: u64,
    pub samples: Vec<String>,
    nsamples: usize,
    digest: u64,
}

impl Loc {
    /// Offer a written-out case; only a few are kept
    #[inline]
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.nsamples < 2 {
            self.nsamples += 1;
            let s = f();
            self.samples.push(s);
        }
    }
    /// Result digest of the current item (only used to compare build profiles)
    pub fn digest(&mut self, d: u64) {
        self.digest = d;
    }
    fn add(&mut self, o: &Loc) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.evals += o.evals;
        self.distinct += o.distinct;
        self.items += o.items;
    }
}

struct Viol {
    unit: usize,
    item: u64,
    msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub jobs: usize,
    out: Option<String>,
    replay: Option<(String, u64)>,
    journal: Option<String>,
    digests: Option<String>,
    known: HashSet<String>,
    hang_s: u64,
    units: Vec<Unit>,
    notes: Vec<String>,
    started: Instant,
}

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) > 0 {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = msg + &at);
        } else {
            default(info);
        }
    }));
}

/// Run the implementation; `Err` carries the panic message
pub fn observe<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn must_panic<T, F: FnOnce() -> T>(what: &str, f: F) -> Outcome {
    match observe(f) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{what} was carried out, but it must be refused with a panic")),
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

impl Ctx {
    pub fn from_args(prop: &str) -> Ctx {
        install_hook();
        let mut c = Ctx {
            prop: prop.to_string(),
            tier: Tier::Quick,
            jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
            out: None,
            replay: None,
            journal: None,
            digests: None,
            known: HashSet::new(),
            hang_s: 120,
            units: vec![],
            notes: vec![],
            started: Instant::now(),
        };
        let args: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < args.len() {
            let val = || args.get(i + 1).cloned().unwrap_or_else(|| die("missing argument value"));
            match args[i].as_str() {
                "--tier" => {
                    c.tier = match val().as_str() {
                        "quick" => Tier::Quick,
                        "thorough" => Tier::Thorough,
                        _ => die("bad tier"),
                    }
                }
                "--jobs" => c.jobs = val().parse().unwrap_or_else(|_| die("bad jobs")),
                "--out" => c.out = Some(val()),
                "--journal" => c.journal = Some(val()),
                "--digests" => c.digests = Some(val()),
                "--hang" => c.hang_s = val().parse().unwrap_or_else(|_| die("bad hang")),
                "--known" => {
                    c.known.insert(val());
                }
                "--replay" => {
                    let v = val();
                    let (u, n) = v.rsplit_once('#').unwrap_or_else(|| die("bad replay"));
                    c.replay = Some((u.to_string(), n.parse().unwrap_or_else(|_| die("bad replay"))));
                }
                _ => die("unknown argument"),
            }
            i += 2;
        }
        c
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// `q` in the quick tier, `t` in the thorough tier
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }

    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }

    pub fn unit<F>(&mut self, name: impl Into<String>, n: u64, exhaustive: bool, f: F)
    where
        F: Fn(u64, &mut Loc) -> Outcome + Send + Sync + 'static,
    {
        let name = name.into();
        assert!(!self.units.iter().any(|u| u.name == name), "duplicate unit {name}");
        if let Some((u, _)) = &self.replay {
            if *u != name && !u.starts_with('@') {
                return;
            }
        }
        self.units.push(Unit { name, n, exhaustive, f: Box::new(f) });
    }

    /// Execute everything and end the process: 0 = held, 1 = violation, 2 = engine error
    pub fn finish(self) -> ! {
        if let Some((u, item)) = &self.replay {
            // by name, or by position (as in the journal)
            let unit = match u.strip_prefix('@') {
                Some(k) => k.parse::<usize>().ok().and_then(|k| self.units.get(k)),
                None => self.units.iter().find(|x| x.name == *u),
            };
            let Some(unit) = unit else { die("no such unit") };
            println!("UNIT {}", unit.name);
            if *item >= unit.n {
                die("no such item");
            }
            let mut loc = Loc::default();
            let r = observe(|| (unit.f)(*item, &mut loc)).unwrap_or_else(|p| Err(format!("unexpected panic: {p}")));
            match r {
                Ok(()) => {
                    println!("REPLAY OK {u}#{item}");
                    for s in loc.samples {
                        println!("  {s}");
                    }
                    println!("  digest {:016x}", loc.digest);
                    std::process::exit(0);
                }
                Err(m) => {
                    println!("REPLAY VIOLATION {u}#{item}: {m}");
                    std::process::exit(1);
                }
            }
        }

        // chunk list over all units, in order
        struct Chunk {
            unit: usize,
            from: u64,
            to: u64,
        }
        let mut chunks: Vec<Chunk> = vec![];
        for (ui, u) in self.units.iter().enumerate() {
            let size = (u.n / (self.jobs as u64 * 32)).max(1);
            let mut a = 0;
            while a < u.n {
                let b = (a + size).min(u.n);
                chunks.push(Chunk { unit: ui, from: a, to: b });
                a = b;
            }
        }
        let next = AtomicUsize::new(0);
        let min_viol: Vec<AtomicU64> = self.units.iter().map(|_| AtomicU64::new(u64::MAX)).collect();
        let viols: Mutex<Vec<Viol>> = Mutex::new(vec![]);
        let knowns: Mutex<Vec<String>> = Mutex::new(vec![]);
        let per_unit: Vec<Mutex<Loc>> = self.units.iter().map(|_| Mutex::new(Loc::default())).collect();
        let digests: Vec<Vec<AtomicU64>> = if self.digests.is_some() {
            self.units.iter().map(|u| (0..u.n).map(|_| AtomicU64::new(0)).collect()).collect()
        } else {
            vec![]
        };
        // position of every worker: (unit + 1, item, seconds since start), for the watchdog and the journal
        let slots: Vec<[AtomicU64; 3]> = (0..self.jobs).map(|_| [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]).collect();
        let done = AtomicUsize::new(0);
        let journal = self.journal.as_ref().map(|p| std::fs::File::create(p).unwrap_or_else(|_| die("journal")));

        std::thread::scope(|s| {
            for w in 0..self.jobs {
                let (next, chunks, min_viol, viols, knowns, per_unit, slots, digests, me, done, journal) =
                    (&next, &chunks, &min_viol, &viols, &knowns, &per_unit, &slots, &digests, &self, &done, &journal);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        loop {
                            let ci = next.fetch_add(1, Relaxed);
                            if ci >= chunks.len() {
                                break;
                            }
                            let c = &chunks[ci];
                            let u = &me.units[c.unit];
                            let mut loc = Loc::default();
                            if c.from > 0 {
                                loc.nsamples = 2;
                            }
                            for i in c.from..c.to {
                                if i > min_viol[c.unit].load(Relaxed) {
                                    break;
                                }
                                slots[w][1].store(i, Relaxed);
                                slots[w][2].store(me.started.elapsed().as_secs(), Relaxed);
                                slots[w][0].store(c.unit as u64 + 1, Relaxed);
                                if let Some(j) = journal {
                                    use std::os::unix::fs::FileExt;
                                    let line = format!("{:>8} {:>20}\n", c.unit, i);
                                    let _ = j.write_at(line.as_bytes(), 30 * w as u64);
                                }
                                let r = observe(|| (u.f)(i, &mut loc))
                                    .unwrap_or_else(|p| Err(format!("unexpected panic: {p}")));
                                if me.digests.is_some() {
                                    let mut d = loc.digest;
                                    if r.is_err() {
                                        d = d.wrapping_add(0x9e3779b97f4a7c15);
                                    }
                                    digests[c.unit][i as usize].store(d, Relaxed);
                                    loc.digest = 0;
                                }
                                loc.items += 1;
                                if let Err(msg) = r {
                                    if me.known.contains(&format!("{}#{}", u.name, i)) {
                                        knowns.lock().unwrap().push(format!("{}#{}: {}", u.name, i, msg));
                                        continue;
                                    }
                                    min_viol[c.unit].fetch_min(i, Relaxed);
                                    viols.lock().unwrap().push(Viol { unit: c.unit, item: i, msg });
                                    break;
                                }
                            }
                            slots[w][0].store(0, Relaxed);
                            let mut g = per_unit[c.unit].lock().unwrap();
                            g.add(&loc);
                            g.samples.extend(loc.samples);
                        }
                        done.fetch_add(1, Relaxed);
                    })
                    .unwrap_or_else(|_| die("cannot start a thread"));
            }
            // watchdog
            while done.load(Relaxed) < self.jobs {
                std::thread::sleep(Duration::from_millis(5));
                let now = self.started.elapsed().as_secs();
                for sl in &slots {
                    let u = sl[0].load(Relaxed);
                    if u > 0 && now > sl[2].load(Relaxed) + self.hang_s {
                        let (ui, item) = (u as usize - 1, sl[1].load(Relaxed));
                        let v = Viol { unit: ui, item, msg: format!("did not terminate within {} s", self.hang_s) };
                        viols.lock().unwrap().push(v);
                        self.report(&mut viols.lock().unwrap(), &knowns.lock().unwrap(), &per_unit);
                        std::process::exit(1);
                    }
                }
            }
        });

        if let Some(p) = &self.digests {
            use std::io::Write;
            let f = std::fs::File::create(p).unwrap_or_else(|_| die("digests"));
            let mut f = std::io::BufWriter::new(f);
            for (ui, u) in self.units.iter().enumerate() {
                writeln!(f, "U {} {}", u.name, u.n).unwrap();
                for d in &digests[ui] {
                    writeln!(f, "{:016x}", d.load(Relaxed)).unwrap();
                }
            }
        }
        let mut v = viols.into_inner().unwrap();
        let n = self.report(&mut v, &knowns.into_inner().unwrap(), &per_unit);
        std::process::exit(if n == 0 { 0 } else { 1 });
    }

    fn report(&self, viols: &mut Vec<Viol>, knowns: &[String], per_unit: &[Mutex<Loc>]) -> usize {
        viols.sort_by_key(|v| (v.unit, v.item));
        viols.dedup_by_key(|v| v.unit);
        for v in viols.iter().take(20) {
            println!("FAIL {}#{}: {}", self.units[v.unit].name, v.item, v.msg);
        }
        for k in knowns {
            println!("KNOWN {k}");
        }
        let mut tot = Loc::default();
        let mut units = vec![];
        let mut samples = vec![];
        let mut complete = true;
        for (ui, u) in self.units.iter().enumerate() {
            let g = per_unit[ui].lock().unwrap();
            tot.add(&g);
            complete &= u.exhaustive;
            units.push(format!(
                "{{\"unit\":{},\"items\":{},\"complete_space\":{},\"transitions\":{},\"evaluations\":{}}}",
                esc(&u.name),
                u.n,
                u.exhaustive,
                g.transitions,
                g.evals
            ));
            if let Some(s) = g.samples.first() {
                samples.push(format!("{}: {}", u.name, s));
            }
        }
        // keep at most 12 samples, spread over the units
        let step = (samples.len() / 12).max(1);
        let samples: Vec<String> = samples.iter().step_by(step).take(12).map(|s| esc(s)).collect();
        let v: Vec<String> = viols
            .iter()
            .map(|v| format!("{{\"unit\":{},\"item\":{},\"msg\":{}}}", esc(&self.units[v.unit].name), v.item, esc(&v.msg)))
            .collect();
        let k: Vec<String> = knowns.iter().map(|s| esc(s)).collect();
        let n: Vec<String> = self.notes.iter().map(|s| esc(s)).collect();
        let out = format!(
            "{{\"prop\":{},\"tier\":\"{}\",\"states\":{},\"transitions\":{},\"traces\":{},\"evaluations\":{},\"distinct\":{},\"items\":{},\n\"complete\":{},\"wall_s\":{:.3},\n\"samples\":[{}],\n\"notes\":[{}],\n\"known\":[{}],\n\"violations\":[{}],\n\"units\":[{}]}}\n",
            esc(&self.prop),
            if self.thorough() { "thorough" } else { "quick" },
            tot.states,
            tot.transitions,
            tot.traces,
            tot.evals,
            tot.distinct,
            tot.items,
            complete,
            self.started.elapsed().as_secs_f64(),
            samples.join(","),
            n.join(","),
            k.join(","),
            v.join(","),
            units.join(",\n")
        );
        if let Some(p) = &self.out {
            std::fs::write(p, out).unwrap_or_else(|_| die("cannot write result"));
        }
        println!(
            "{} units={} states={} transitions={} traces={} evals={} violations={} wall={:.2}s",
            self.prop,
            self.units.len(),
            tot.states,
            tot.transitions,
            tot.traces,
            tot.evals,
            viols.len(),
            self.started.elapsed().as_secs_f64()
        );
        viols.len()
    }
}

pub fn die(m: &str) -> ! {
    eprintln!("engine error: {m}");
    std::process::exit(2);
}
