//! Stateless exploration of a choice tree over the real code.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub type Step = (u16, u16); // (choice, arity)
pub const MAX_TRACE: usize = 20000;

/// One per worker, in memory shared with the driver process.
#[repr(C)]
pub struct Slot {
    pub active: AtomicU64,
    pub section: AtomicU64,
    pub len: AtomicU64,
    pub started_ms: AtomicU64,
    pub execs: AtomicU64,
    pub msg_len: AtomicU64,
    pub msg: [u8; 1024],
    pub trace: [Step; MAX_TRACE],
}

pub struct Violation;

/// Listed findings: (key that identifies the failing case in a violation message, times met).
pub static KNOWN: std::sync::OnceLock<Vec<(String, AtomicU64)>> = std::sync::OnceLock::new();

/// Oracle classes. A checker binary enables those that belong to its property; what the others see
/// is ignored there.
pub const MEM: u32 = 1; // allocation discipline, writes outside storage
pub const LEAK: u32 = 2; // memory still allocated at the end
pub const TOK: u32 = 4; // destruction exactly once
pub const CONTENT: u32 = 8; // what is read equals the model
pub const OFFSET: u32 = 16; // offsets, addresses in a sequence
pub const VALID: u32 = 32; // checked indexing
pub const GROWTH: u32 = 64; // storage requests
pub const LAYOUT: u32 = 128; // sizes, field placement
pub const ITER: u32 = 256; // iterator protocol
pub const UTF8: u32 = 512;
pub const CALLS: u32 = 1024; // order and number of user callbacks
pub const TOKLEAK: u32 = 2048; // a value never destroyed
static MASK: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn set_mask(m: u32) {
    MASK.store(m, Relaxed);
}
pub fn on(class: u32) -> bool {
    MASK.load(Relaxed) & class != 0
}

struct Cx {
    prefix: Vec<Step>,
    trace: Vec<Step>,
    dev_used: usize,
    dev_max: usize,
    ops: u64,
    section: usize,
    slot: *mut Slot,
    visited: *const Visited,
    logging: bool,
    log: Vec<String>,
    leaks_ok: bool,
    toks_ok: bool,
    pruned: bool,
}

thread_local! {
    static CX: Cell<*mut Cx> = const { Cell::new(std::ptr::null_mut()) };
    static RAW: Cell<Option<(&'static str, usize, usize)>> = const { Cell::new(None) };
    static VIOL: RefCell<Option<String>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_EXEC: Cell<bool> = const { Cell::new(false) };
    static ABORTED: Cell<bool> = const { Cell::new(false) };
}

/// Payload that stands for the process ending through `handle_alloc_error`.
pub struct Aborted;
/// The standard allocation-error abort: the execution ends here; nothing after it counts.
pub fn process_ends() -> ! {
    crate::alloc::ST.with(|s| s.check_live());
    ABORTED.with(|a| a.set(true));
    crate::tok::arm(0);
    crate::alloc::ST.with(|s| s.fault.set(None));
    crate::alloc::host(|| std::panic::resume_unwind(Box::new(Aborted)))
}

fn cx() -> &'static mut Cx {
    let p = CX.with(|c| c.get());
    assert!(!p.is_null(), "choice outside an execution");
    unsafe { &mut *p }
}

pub fn in_exec() -> bool {
    IN_EXEC.with(|c| c.get())
}

/// First violation wins; callable from inside the allocator (does not allocate).
pub fn record_raw(class: u32, kind: &'static str, a: usize, b: usize) {
    if !on(class) {
        return;
    }
    if !IN_EXEC.with(|c| c.get()) || ABORTED.with(|c| c.get()) {
        return;
    }
    RAW.with(|r| {
        if r.get().is_none() {
            r.set(Some((kind, a, b)));
            let p = CX.with(|c| c.get());
            if !p.is_null() {
                unsafe { put_msg((*p).slot, kind.as_bytes()) }
            }
        }
    });
}
unsafe fn put_msg(s: *mut Slot, m: &[u8]) {
    if s.is_null() || (*s).msg_len.load(Relaxed) != 0 {
        return;
    }
    let n = m.len().min(1000);
    std::ptr::copy_nonoverlapping(m.as_ptr(), std::ptr::addr_of_mut!((*s).msg) as *mut u8, n);
    (*s).msg_len.store(n as u64, Relaxed);
}
/// Record a violation without unwinding (usable in destructors and callbacks).
pub fn record(msg: impl FnOnce() -> String) {
    crate::alloc::host(|| {
        if RAW.with(|r| r.get()).is_some() || ABORTED.with(|c| c.get()) {
            return;
        }
        VIOL.with(|v| {
            let mut v = v.borrow_mut();
            if v.is_none() {
                let m = msg();
                unsafe { put_msg(cx().slot, m.as_bytes()) }
                *v = Some(m);
            }
        })
    })
}
pub fn record_c(class: u32, msg: impl FnOnce() -> String) {
    if on(class) {
        record(msg)
    }
}
pub fn violated() -> bool {
    RAW.with(|r| r.get()).is_some() || VIOL.with(|v| v.borrow().is_some())
}
pub fn fail(msg: String) -> ! {
    record(|| msg);
    crate::alloc::host(|| resume_unwind(Box::new(Violation)))
}
/// Stop now if anything (allocator, ledger) recorded a violation.
pub fn stop_if_violated() {
    if violated() {
        crate::alloc::host(|| resume_unwind(Box::new(Violation)))
    }
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { $crate::alloc::host(|| $crate::explore::fail(format!($($t)*))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { $crate::fail!($($t)*) } };
}
/// check / check_eq gated on an oracle class
#[macro_export]
macro_rules! gcheck {
    ($k:expr, $c:expr, $($t:tt)*) => { if $crate::explore::on($k) && !$c { $crate::fail!($($t)*) } };
}
#[macro_export]
macro_rules! gcheck_eq {
    ($k:expr, $a:expr, $b:expr, $($t:tt)*) => { if $crate::explore::on($k) { $crate::check_eq!($a, $b, $($t)*) } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($t:tt)*) => { { let (a, b) = (&$a, &$b); if a != b {
        $crate::fail!("{}: got {:?}, expected {:?}", format!($($t)*), a, b) } } };
}

/// The single seam for nondeterminism.
pub fn choose(n: usize) -> usize {
    assert!(n >= 1 && n < 65536);
    if n == 1 {
        return 0;
    }
    crate::alloc::host(|| {
        let c = cx();
        let i = c.trace.len();
        let ch = if i < c.prefix.len() {
            let (ch, ar) = c.prefix[i];
            if ar as usize != n {
                eprintln!("ENGINE ERROR: replay diverged at {} (arity {} vs {}) in section {}", i, ar, n, c.section);
                std::process::exit(2);
            }
            ch
        } else {
            0
        };
        c.trace.push((ch, n as u16));
        if i < MAX_TRACE && !c.slot.is_null() {
            unsafe {
                let s = c.slot;
                *(std::ptr::addr_of_mut!((*s).trace) as *mut Step).add(i) = (ch, n as u16);
                (*s).len.store(i as u64 + 1, Release);
            }
        } else if i >= MAX_TRACE {
            eprintln!("ENGINE ERROR: execution too long");
            std::process::exit(2);
        }
        ch as usize
    })
}
/// A deviation from the default answer 0; at most `dev_max` non-zero answers per execution.
pub fn choose_dev(n: usize) -> usize {
    let c = cx();
    if c.dev_used >= c.dev_max {
        return 0;
    }
    let r = choose(n);
    if r > 0 {
        cx().dev_used += 1;
    }
    r
}
pub fn dev_used() -> usize {
    cx().dev_used
}
pub fn set_dev_max(n: usize) {
    cx().dev_max = n;
}
pub fn dev_max() -> usize {
    cx().dev_max
}
pub fn op() {
    cx().ops += 1;
}
pub fn allow_leaks() {
    cx().leaks_ok = true;
}
pub fn allow_live_tokens() {
    cx().toks_ok = true;
}
pub fn leaks_allowed() -> bool {
    cx().leaks_ok
}
pub fn logging() -> bool {
    cx().logging
}
pub fn log(f: impl FnOnce() -> String) {
    let c = cx();
    if c.logging {
        crate::alloc::host(|| {
            let s = f();
            cx().log.push(s)
        });
    }
}

pub struct H(pub u64, pub u64);
impl H {
    pub fn new(seed: u64) -> H {
        H(0xcbf29ce484222325 ^ seed, 0x9E3779B97F4A7C15)
    }
    #[inline]
    pub fn u(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
        self.1 = (self.1.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.u(u64::from_le_bytes(x));
        }
        self.u(b.len() as u64);
    }
    pub fn get(&self) -> u64 {
        let mut z = self.0 ^ self.1.rotate_left(32);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub struct Visited {
    shards: Vec<Mutex<HashMap<u64, u32, BuildId>>>,
}
#[derive(Default, Clone)]
pub struct BuildId;
pub struct IdH(u64);
impl std::hash::BuildHasher for BuildId {
    type Hasher = IdH;
    fn build_hasher(&self) -> IdH {
        IdH(0)
    }
}
impl std::hash::Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
impl Visited {
    pub fn new() -> Visited {
        Visited { shards: (0..64).map(|_| Mutex::new(HashMap::default())).collect() }
    }
    /// true if the state was seen with at least this much remaining depth
    fn seen(&self, h: u64, rem: u32) -> bool {
        let mut g = self.shards[(h >> 58) as usize].lock().unwrap();
        match g.entry(h) {
            std::collections::hash_map::Entry::Occupied(mut e) => {
                if *e.get() >= rem {
                    return true;
                }
                e.insert(rem);
                false
            }
            std::collections::hash_map::Entry::Vacant(e) => {
                e.insert(rem);
                false
            }
        }
    }
    pub fn len(&self) -> usize {
        self.shards.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}

/// Report a canonical state with `rem` operations still to do. Returns true when the rest of this
/// execution is already covered by another execution that reached the same state with at least as
/// much left to do (never while still replaying the prefix).
pub fn state(h: u64, rem: usize) -> bool {
    crate::alloc::host(|| {
        let c = cx();
        let mut k = H::new(c.section as u64);
        k.u(h);
        k.u(c.dev_used as u64);
        if c.trace.len() < c.prefix.len() {
            return false;
        }
        let s = unsafe { (*c.visited).seen(k.get(), rem as u32) };
        if s && c.trace.len() >= c.prefix.len() && rem > 0 {
            c.pruned = true;
            return true;
        }
        false
    })
}

pub struct Outcome {
    pub trace: Vec<Step>,
    pub viol: Option<String>,
    pub log: Vec<String>,
    pub ops: u64,
    pub dev_used: usize,
    pub pruned: bool,
}

pub struct Section {
    pub name: String,
    pub dev: usize,
    pub body: Box<dyn Fn() + Send + Sync>,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::host(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<panic>".to_string()
            };
            let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var_os("MC_VERBOSE").is_some() || !in_exec() {
                eprintln!("panic: {} at {}", m, l);
            }
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
        })
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

pub fn now_ms() -> u64 {
    use std::time::{SystemTime, UNIX_EPOCH};
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

pub fn exec(sec: &Section, idx: usize, prefix: &[Step], slot: *mut Slot, visited: &Visited, logging: bool) -> Outcome {
    let mut c = Cx {
        prefix: prefix.to_vec(),
        trace: Vec::with_capacity(prefix.len() + 16),
        dev_used: 0,
        dev_max: sec.dev,
        ops: 0,
        section: idx,
        slot,
        visited,
        logging,
        log: vec![],
        leaks_ok: false,
        toks_ok: false,
        pruned: false,
    };
    unsafe {
        if !slot.is_null() {
            (*slot).section.store(idx as u64, Relaxed);
            (*slot).len.store(0, Relaxed);
            (*slot).msg_len.store(0, Relaxed);
            (*slot).started_ms.store(now_ms_coarse(), Relaxed);
            (*slot).active.store(1, Release);
        }
    }
    RAW.with(|r| r.set(None));
    VIOL.with(|v| *v.borrow_mut() = None);
    crate::tok::reset();
    ABORTED.with(|a| a.set(false));
    CX.with(|p| p.set(&mut c));
    IN_EXEC.with(|p| p.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| (sec.body)()));
    crate::alloc::ST.with(|s| {
        s.tracking.set(false);
        s.fault.set(None);
        s.poison.set(0xA5);
    });
    if let Err(p) = r {
        if !p.is::<Violation>() && !ABORTED.with(|a| a.get()) {
            let m = last_panic();
            record(|| format!("unexpected panic: {}", m));
        }
        drop_payload(p);
    }
    let v = violated() || ABORTED.with(|a| a.get());
    if !v {
        if !c.toks_ok {
            crate::tok::end_check();
        }
        crate::alloc::ST.with(|s| s.drain(c.leaks_ok));
    } else {
        crate::alloc::ST.with(|s| s.drain(true));
    }
    IN_EXEC.with(|p| p.set(false));
    CX.with(|p| p.set(std::ptr::null_mut()));
    unsafe {
        if !slot.is_null() {
            (*slot).active.store(0, Release);
            (*slot).execs.fetch_add(1, Relaxed);
        }
    }
    let viol = match VIOL.with(|v| v.borrow_mut().take()) {
        Some(m) => Some(m),
        None => RAW.with(|r| r.take()).map(|(k, a, b)| format!("{} {}/{}", k, a, b)),
    };
    if viol.is_none() && !c.pruned && c.trace.len() < c.prefix.len() {
        eprintln!("ENGINE ERROR: replay ended before its prefix in section {}", sec.name);
        std::process::exit(2);
    }
    Outcome { trace: c.trace, viol, log: c.log, ops: c.ops, dev_used: c.dev_used, pruned: c.pruned }
}

fn drop_payload(p: Box<dyn Any + Send>) {
    let _ = catch_unwind(AssertUnwindSafe(|| drop(p)));
}

/// Run `f`, returning None if it panicked (with anything but a recorded violation).
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    let tr = crate::alloc::ST.with(|s| s.tracking.get());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) => {
            crate::alloc::ST.with(|s| s.tracking.set(tr));
            let v = p.is::<Violation>();
            if p.is::<Aborted>() {
                resume_unwind(p);
            }
            crate::alloc::host(|| drop_payload(p));
            if v {
                crate::alloc::host(|| resume_unwind(Box::new(Violation)))
            }
            None
        }
    }
}

static COARSE: AtomicU64 = AtomicU64::new(0);
fn now_ms_coarse() -> u64 {
    COARSE.load(Relaxed)
}
pub fn tick() {
    COARSE.store(now_ms(), Relaxed);
}

#[derive(Default, Clone)]
pub struct SecStats {
    pub execs: u64,
    pub ops: u64,
    pub max_len: u64,
    pub pruned: u64,
    pub deviated: u64,
}
pub struct Found {
    pub section: usize,
    pub trace: Vec<Step>,
    pub msg: String,
}
pub struct Report {
    pub stats: Vec<SecStats>,
    pub found: Option<Found>,
    pub capped: bool,
    pub states: usize,
}

type Job = (usize, Box<[Step]>);

pub fn expand(out: &mut Vec<Job>, sec: usize, plen: usize, trace: &[Step]) {
    // Deepest alternatives last so the LIFO stack explores them first (small memory).
    for i in plen..trace.len() {
        let (ch, ar) = trace[i];
        debug_assert_eq!(ch, 0);
        for a in (ch + 1..ar).rev() {
            let mut v = Vec::with_capacity(i + 1);
            v.extend_from_slice(&trace[..i]);
            v.push((a, ar));
            out.push((sec, v.into_boxed_slice()));
        }
    }
}

pub fn run_threads(secs: &[Section], slots: *mut Slot, nthreads: usize, deadline: Instant) -> Report {
    let visited = Visited::new();
    let stats: Vec<[AtomicU64; 5]> = secs.iter().map(|_| Default::default()).collect();
    let global: Mutex<(Vec<Job>, usize)> = Mutex::new(((0..secs.len()).rev().map(|i| (i, Vec::new().into_boxed_slice())).collect(), 0));
    let cv = Condvar::new();
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    tick();
    let slots_addr = slots as usize;
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (visited, stats, global, cv, idle, stop, capped, found) =
                (&visited, &stats, &global, &cv, &idle, &stop, &capped, &found);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let slot = if slots_addr == 0 { std::ptr::null_mut() } else { unsafe { (slots_addr as *mut Slot).add(t) } };
                let mut local: Vec<Job> = vec![];
                let mut n = 0u64;
                loop {
                    let job = match local.pop() {
                        Some(j) => j,
                        None => {
                            let mut g = global.lock().unwrap();
                            idle.fetch_add(1, SeqCst);
                            loop {
                                if stop.load(Relaxed) {
                                    return;
                                }
                                if let Some(j) = g.0.pop() {
                                    idle.fetch_sub(1, SeqCst);
                                    break j;
                                }
                                if idle.load(SeqCst) == nthreads {
                                    stop.store(true, SeqCst);
                                    cv.notify_all();
                                    return;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                            }
                        }
                    };
                    if stop.load(Relaxed) {
                        return;
                    }
                    n += 1;
                    if n % 64 == 0 {
                        if Instant::now() > deadline {
                            capped.store(true, SeqCst);
                            stop.store(true, SeqCst);
                            return;
                        }
                    }
                    let (si, pre) = job;
                    let o = exec(&secs[si], si, &pre, slot, visited, false);
                    let st = &stats[si];
                    st[0].fetch_add(1, Relaxed);
                    st[1].fetch_add(o.ops, Relaxed);
                    st[2].fetch_max(o.trace.len() as u64, Relaxed);
                    st[3].fetch_add(o.pruned as u64, Relaxed);
                    st[4].fetch_add((o.dev_used > 0) as u64, Relaxed);
                    let known = o.viol.as_ref().and_then(|m| KNOWN.get().and_then(|k| k.iter().position(|(key, _)| m.contains(key.as_str()))));
                    if let Some(k) = known {
                        KNOWN.get().unwrap()[k].1.fetch_add(1, Relaxed);
                    } else if let Some(msg) = o.viol {
                        let mut f = found.lock().unwrap();
                        let better = match &*f { None => true, Some(x) => x.section > si };
                        if better {
                            *f = Some(Found { section: si, trace: o.trace, msg });
                        }
                        stop.store(true, SeqCst);
                        return;
                    }
                    expand(&mut local, si, pre.len(), &o.trace);
                    if idle.load(Relaxed) > 0 && local.len() > 1 {
                        let mut g = global.lock().unwrap();
                        if g.0.len() < nthreads {
                            let k = (local.len() / 2).max(1);
                            g.0.extend(local.drain(..k));
                            cv.notify_all();
                        }
                    }
                }
            }).unwrap();
        }
        // coarse clock + deadline
        let (stop, capped) = (&stop, &capped);
        s.spawn(move || {
            while !stop.load(Relaxed) {
                tick();
                if Instant::now() > deadline + Duration::from_secs(5) {
                    capped.store(true, SeqCst);
                    stop.store(true, SeqCst);
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        });
    });
    let states = visited.len();
    Report {
        stats: stats.iter().map(|s| SecStats {
            execs: s[0].load(Relaxed), ops: s[1].load(Relaxed), max_len: s[2].load(Relaxed),
            pruned: s[3].load(Relaxed), deviated: s[4].load(Relaxed) }).collect(),
        found: found.into_inner().unwrap(),
        capped: capped.load(SeqCst),
        states,
    }
}

/// The whole tree of each section, depth first, on this thread. Calls `each` before an execution.
pub fn run_plain(secs: &[Section], each: &mut dyn FnMut(usize, &[Step])) -> (Vec<SecStats>, usize, Option<Found>) {
    let visited = Visited::new();
    let mut stats = vec![SecStats::default(); secs.len()];
    for (si, sec) in secs.iter().enumerate() {
        let mut q: Vec<Job> = vec![(si, Vec::new().into_boxed_slice())];
        while let Some((_, pre)) = q.pop() {
            each(si, &pre);
            let o = exec(sec, si, &pre, std::ptr::null_mut(), &visited, false);
            let st = &mut stats[si];
            st.execs += 1;
            st.ops += o.ops;
            st.max_len = st.max_len.max(o.trace.len() as u64);
            st.pruned += o.pruned as u64;
            if let Some(msg) = o.viol {
                return (stats, visited.len(), Some(Found { section: si, trace: o.trace, msg }));
            }
            expand(&mut q, si, pre.len(), &o.trace);
        }
    }
    (stats, visited.len(), None)
}
