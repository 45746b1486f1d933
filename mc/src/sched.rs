//! A scheduler for two threads that run the real, compiled code. The processor's single-step mode records each
//! machine instruction of the first one; then, for every instruction of that trace, the first one is stopped in front
//! of it by a breakpoint (the right one of several passes), and the second one runs from start to end before
//! the first one goes on. These are all schedules of the two with one preemption.
use crate::engine::observe;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicU8, Ordering::*};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub type Job = Arc<dyn Fn() -> u64 + Send + Sync>;

/// Where the second thread runs
#[derive(Clone, Copy, PartialEq)]
pub enum Stop {
    /// Nowhere: record the instructions
    Never,
    /// In front of the instruction at this address, when it is reached for the n-th time (from 0)
    At(u64, u64),
    /// After each instruction
    Always,
}

#[derive(Default, Clone)]
pub struct Explored {
    /// Executions of the first thread under control
    pub schedules: u64,
    /// Instructions at which it could be stopped
    pub points: u64,
    /// Executions of the second thread in between
    pub switches: u64,
    /// How often the second one could not finish there, because it waited for the first
    pub blocked: u64,
    pub complete: bool,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
static MODE: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(0);
static LOW: AtomicU64 = AtomicU64::new(0);
static HIGH: AtomicU64 = AtomicU64::new(u64::MAX);
static REQUESTED: AtomicU64 = AtomicU64::new(0);
static SERVED: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);
/// Breakpoint: address, the byte that belongs there, passes to go, whether it is being stepped over
static ADDRESS: AtomicU64 = AtomicU64::new(0);
static ORIGINAL: AtomicU8 = AtomicU8::new(0);
static PASSES: AtomicU64 = AtomicU64::new(0);
static STEPPING: AtomicBool = AtomicBool::new(false);
/// Addresses of the recorded instructions
static TRACE: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
const RECORD: u64 = 0;
const ALWAYS: u64 = 1;
const BREAK: u64 = 2;

/// How long the second thread may take before it is taken to wait for the first
const PATIENCE: Duration = Duration::from_millis(50);

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod arch {
    use super::*;
    const SIGTRAP: i32 = 5;
    const TRAP_FLAG: u64 = 0x100;
    const TRAP_TRACE: i32 = 2;

    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
        fn sched_yield() -> i32;
        fn mprotect(start: *mut u8, len: usize, prot: i32) -> i32;
    }

    /// Let the second thread run; false if it waits for something
    fn switch() -> bool {
        let want = REQUESTED.fetch_add(1, SeqCst) + 1;
        let mut spins = 0u32;
        let mut since: Option<Instant> = None;
        while SERVED.load(SeqCst) < want {
            spins += 1;
            if spins % 256 == 0 {
                unsafe { sched_yield() };
                let t = *since.get_or_insert_with(Instant::now);
                if t.elapsed() > PATIENCE {
                    BLOCKED.fetch_add(1, Relaxed);
                    return false;
                }
            }
            std::hint::spin_loop();
        }
        true
    }

    const INT3: u8 = 0xCC;
    unsafe fn poke(address: u64, byte: u8) {
        (address as *mut u8).write_volatile(byte);
    }

    extern "C" fn on_trap(_: i32, info: *mut u8, context: *mut u8) {
        // flags, link, stack (24 bytes), then the registers: 16 is the instruction pointer, 17 the flags
        let regs = unsafe { context.add(40) as *mut u64 };
        let (ip, flags) = unsafe { (&mut *regs.add(16), &mut *regs.add(17)) };
        let code = unsafe { *(info as *const i32).add(2) };
        let address = ADDRESS.load(SeqCst);
        if code != TRAP_TRACE {
            // the breakpoint
            if *ip != address + 1 {
                // not one of ours: what a trap does otherwise
                std::process::abort();
            }
            *ip = address;
            if unsafe { (address as *const u8).read_volatile() } != INT3 {
                return;
            }
            unsafe { poke(address, ORIGINAL.load(SeqCst)) };
            if PASSES.load(Relaxed) == 0 {
                COUNT.fetch_add(1, Relaxed);
                switch();
            } else {
                PASSES.fetch_sub(1, Relaxed);
                STEPPING.store(true, SeqCst);
                *flags |= TRAP_FLAG;
            }
            return;
        }
        if MODE.load(Relaxed) == BREAK {
            *flags &= !TRAP_FLAG;
            if STEPPING.swap(false, SeqCst) {
                unsafe { poke(address, INT3) };
            }
            return;
        }
        if !ACTIVE.load(Relaxed) {
            *flags &= !TRAP_FLAG;
            return;
        }
        if *ip < LOW.load(Relaxed) || *ip >= HIGH.load(Relaxed) {
            return;
        }
        let n = COUNT.fetch_add(1, Relaxed);
        if MODE.load(Relaxed) == ALWAYS {
            if !switch() {
                *flags &= !TRAP_FLAG;
            }
        } else {
            let t = TRACE.load(Relaxed);
            if !t.is_null() {
                unsafe { *t.add(n as usize) = *ip };
            }
        }
        if n + 1 >= LIMIT.load(Relaxed) {
            *flags &= !TRAP_FLAG;
        }
    }

    pub fn install() -> bool {
        const SA_SIGINFO: i32 = 4;
        let act = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        let (low, high) = (LOW.load(Relaxed), HIGH.load(Relaxed));
        // breakpoints are written into the program
        unsafe { high != u64::MAX && mprotect(low as *mut u8, (high - low) as usize, 7) == 0 && sigaction(SIGTRAP, &act, std::ptr::null_mut()) == 0 }
    }

    pub fn with_breakpoint(address: u64, passes: u64, f: &dyn Fn() -> u64) -> u64 {
        struct Clear;
        impl Drop for Clear {
            fn drop(&mut self) {
                STEPPING.store(false, SeqCst);
                unsafe { poke(ADDRESS.load(SeqCst), ORIGINAL.load(SeqCst)) };
            }
        }
        PASSES.store(passes, SeqCst);
        ORIGINAL.store(unsafe { (address as *const u8).read_volatile() }, SeqCst);
        ADDRESS.store(address, SeqCst);
        let _clear = Clear;
        unsafe { poke(address, INT3) };
        f()
    }

    #[inline(never)]
    pub fn stepped(f: &dyn Fn() -> u64) -> u64 {
        unsafe {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
        let r = f();
        unsafe {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
        r
    }
    pub fn relax() {
        unsafe { sched_yield() };
    }
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod arch {
    pub fn install() -> bool {
        false
    }
    pub fn stepped(f: &dyn Fn() -> u64) -> u64 {
        f()
    }
    pub fn with_breakpoint(_: u64, _: u64, f: &dyn Fn() -> u64) -> u64 {
        f()
    }
    pub fn relax() {}
}

/// The text of this program: instructions of shared libraries are executed, but nothing is scheduled there
fn text() -> Option<(u64, u64)> {
    let exe = std::fs::read_link("/proc/self/exe").ok()?;
    let maps = std::fs::read_to_string("/proc/self/maps").ok()?;
    for l in maps.lines() {
        let mut p = l.split_whitespace();
        let (range, perm, path) = (p.next()?, p.next()?, p.nth(3));
        if perm.contains('x') && path == exe.to_str() {
            let (a, b) = range.split_once('-')?;
            return Some((u64::from_str_radix(a, 16).ok()?, u64::from_str_radix(b, 16).ok()?));
        }
    }
    None
}

/// Whether single-stepping works here. To be called once, before anything else.
pub fn available() -> bool {
    if let Some((a, b)) = text() {
        LOW.store(a, Relaxed);
        HIGH.store(b, Relaxed);
    }
    arch::install() && trace(&|| std::hint::black_box(3) * 5, 1000).len() > 1
}

fn run(job: &dyn Fn() -> u64, stop: Stop, limit: u64) -> Result<u64, String> {
    COUNT.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
    let mode = match stop {
        Stop::Never => RECORD,
        Stop::At(..) => BREAK,
        Stop::Always => ALWAYS,
    };
    MODE.store(mode, Relaxed);
    observe(|| match stop {
        Stop::At(address, pass) => arch::with_breakpoint(address, pass, job),
        _ => {
            ACTIVE.store(true, SeqCst);
            let r = arch::stepped(job);
            ACTIVE.store(false, SeqCst);
            r
        }
    })
    .map_err(|p| {
        ACTIVE.store(false, SeqCst);
        format!("panicked: {p}")
    })
}

/// Addresses of the instructions of a job, up to a limit
pub fn trace(job: &dyn Fn() -> u64, limit: u64) -> Vec<u64> {
    let mut t = vec![0u64; limit as usize + 1];
    TRACE.store(t.as_mut_ptr(), SeqCst);
    let _ = run(job, Stop::Never, limit);
    TRACE.store(std::ptr::null_mut(), SeqCst);
    t.truncate((COUNT.load(Relaxed) as usize).min(limit as usize));
    t
}

/// All schedules of `a` and `b` in which `b` runs once at some point within `a`, and the one in which it runs again
/// at every point. Both must give what they give alone.
pub fn explore(a: &Job, b: &Job, limit: u64, every: u64, until: Instant) -> Result<Explored, String> {
    let alone = |j: &Job| observe(|| j()).unwrap_or(u64::MAX - 1);
    let (wa, wb) = (alone(a), alone(b));
    let mut ex = Explored::default();
    alone(a);
    let path = trace(&**a, limit);
    ex.points = path.len() as u64;
    ex.complete = ex.points > 0 && ex.points < limit && every == 1;
    let quit = Arc::new(AtomicBool::new(false));
    REQUESTED.store(0, SeqCst);
    SERVED.store(0, SeqCst);
    BLOCKED.store(0, SeqCst);
    let wrong = Arc::new(AtomicU64::new(wb));
    let other = {
        let (b, quit, wrong) = (b.clone(), quit.clone(), wrong.clone());
        std::thread::spawn(move || {
            let mut idle = 0u32;
            while !quit.load(Relaxed) {
                if SERVED.load(SeqCst) < REQUESTED.load(SeqCst) {
                    let r = observe(|| b()).unwrap_or(u64::MAX - 1);
                    if r != wb {
                        wrong.store(r, SeqCst);
                    }
                    SERVED.fetch_add(1, SeqCst);
                    idle = 0;
                } else {
                    idle += 1;
                    if idle > 400 {
                        arch::relax();
                    }
                    std::hint::spin_loop();
                }
            }
        })
    };
    let mut res = Ok(());
    let one = |stop: Stop, ex: &mut Explored| -> Result<(), String> {
        let r = run(&**a, stop, limit).unwrap_or(u64::MAX - 1);
        // if it could not finish before, it can now
        let t = Instant::now();
        while SERVED.load(SeqCst) < REQUESTED.load(SeqCst) {
            arch::relax();
            if t.elapsed() > Duration::from_secs(20) {
                return Err("the second one does not finish although the first one has".into());
            }
        }
        ex.schedules += 1;
        let at = || match stop {
            Stop::At(ip, pass) => format!("in front of one of the {} instructions ({:#x} behind the start of the program, pass {pass})", ex.points, ip - LOW.load(Relaxed)),
            _ => format!("after every one of {} instructions", ex.points),
        };
        if r != wa {
            return Err(format!("the first one gives another result than alone when the second one runs {}", at()));
        }
        if wrong.load(SeqCst) != wb {
            return Err(format!("the second one gives another result than alone when it runs {} of the first", at()));
        }
        Ok(())
    };
    'all: {
        let mut passed: std::collections::HashMap<u64, u64> = Default::default();
        for (k, ip) in path.iter().enumerate() {
            let pass = passed.entry(*ip).or_insert(0);
            *pass += 1;
            if k as u64 % every != 0 {
                continue;
            }
            if Instant::now() > until || BLOCKED.load(Relaxed) > 20 {
                ex.complete = false;
                break;
            }
            // what is remembered of the last computation, if anything, is the first one's
            alone(a);
            if let Err(e) = one(Stop::At(*ip, *pass - 1), &mut ex) {
                res = Err(e);
                break 'all;
            }
            if COUNT.load(Relaxed) == 0 {
                if k < 12 || k + 12 >= path.len() {
                    // on the way into the job or out of it
                    ex.points -= 1;
                } else {
                    // it took another path and did not get there
                    ex.complete = false;
                }
            }
        }
        if BLOCKED.load(Relaxed) == 0 {
            res = one(Stop::Always, &mut ex);
        }
    }
    quit.store(true, Relaxed);
    ex.switches = SERVED.load(SeqCst);
    ex.blocked = BLOCKED.load(SeqCst);
    if res.is_ok() || SERVED.load(SeqCst) == REQUESTED.load(SeqCst) {
        let _ = other.join();
    }
    res.map(|_| ex)
}
