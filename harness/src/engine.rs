//! Exhaustive choice-tree explorer.
//!
//! A check is a deterministic function of the choices it draws from [`Ctx::pick`]. The explorer
//! runs it once for every leaf of the resulting choice tree (depth-first, replay-from-root,
//! distributed over worker threads by handing out unexplored sibling prefixes). Nothing is
//! sampled: unless a violation stops the run, every leaf has been executed on the real code.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable identification of the failing case (matched against the known-findings file).
    pub key: String,
    pub msg: String,
}

impl Fail {
    pub fn new(key: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { key: key.into(), msg: msg.into() }
    }
}

impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail { key: msg.clone(), msg }
    }
}

pub type Res = Result<(), Fail>;

macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::from(format!($($t)*))) };
}
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail::from(format!($($t)*))); } };
}

#[allow(unused_imports)]
pub(crate) use {ensure, fail};

pub struct Ctx {
    path: Vec<(u16, u16)>, // (choice, arity)
    prefix_len: usize,     // choices to replay
    pos: usize,
    pub steps: u64,
    outcome: u64,
    pub want_sample: bool,
    pub sample: Option<String>,
    slot: *mut u16,
    pub thorough: bool,
}

const SLOT: usize = 512; // u16s per worker slot

impl Ctx {
    /// Draw one of `n` alternatives; every alternative is eventually explored.
    #[inline]
    pub fn pick(&mut self, n: usize) -> usize {
        debug_assert!(n > 0 && n < u16::MAX as usize);
        if n == 1 {
            return 0;
        }
        let c = if self.pos < self.prefix_len {
            let (c, _) = self.path[self.pos];
            self.path[self.pos].1 = n as u16;
            if c as usize >= n {
                panic!("non-deterministic check: replayed choice {} of {}", c, n);
            }
            c
        } else {
            self.path.push((0, n as u16));
            0
        };
        if !self.slot.is_null() && self.pos + 3 < SLOT {
            // SAFETY: the slot belongs to this worker and is SLOT long
            unsafe {
                self.slot.add(2 + self.pos).write_volatile(c);
                self.slot.add(1).write_volatile(self.pos as u16 + 1);
            }
        }
        self.pos += 1;
        c as usize
    }

    #[inline]
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }

    #[inline]
    pub fn of<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.pick(items.len());
        &items[i]
    }

    /// Count transitions: events/operations executed on the implementation.
    #[inline]
    pub fn step(&mut self, n: usize) {
        self.steps += n as u64;
    }

    /// Record an observed outcome, so vacuous explorations are visible in the evidence.
    #[inline]
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = Fnv(self.outcome ^ 0xcbf29ce484222325);
        t.hash(&mut h);
        self.outcome = h.finish();
    }

    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

pub type RunFn = Box<dyn Fn(&mut Ctx) -> Res + Sync + Send>;

pub struct Suite {
    pub name: &'static str,
    pub bounds: String,
    pub run: RunFn,
}

pub fn suite(name: &'static str, bounds: impl Into<String>, run: impl Fn(&mut Ctx) -> Res + Sync + Send + 'static) -> Suite {
    Suite { name, bounds: bounds.into(), run: Box::new(run) }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub outcomes: u64,
    pub outcomes_capped: bool,
    pub samples: Vec<String>,
    pub violations: Vec<(Vec<u16>, Fail)>,
    pub known: Vec<(String, u64)>,
    pub complete: bool,
    pub wall: f64,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "<non-string panic>".into());
            let file = info.location().map(|l| l.file().rsplit("/repo/").next().unwrap_or("").to_string()).unwrap_or_default();
            PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{} (in {})", msg, file)));
        } else {
            default(info);
        }
    }));
}

/// Run `f`, turning a panic of the code under test into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn run_one(s: &Suite, ctx: &mut Ctx) -> Res {
    match no_panic(|| (s.run)(ctx)) {
        Ok(r) => r,
        Err(p) => Err(Fail { key: format!("panic: {}", p), msg: format!("panic: {}", p) }),
    }
}

struct Shared {
    queue: Mutex<(Vec<Vec<u16>>, usize)>, // (prefixes, busy workers)
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    execs: AtomicU64,
}

pub struct Slots {
    pub base: *mut u16,
    pub workers: usize,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

impl Slots {
    pub fn none(workers: usize) -> Slots {
        Slots { base: std::ptr::null_mut(), workers }
    }
    /// Worker positions live in a shared file mapping so that the parent can name the failing
    /// execution even if the code under test takes the whole process down.
    pub fn create(path: &str, workers: usize) -> Slots {
        use std::os::fd::AsRawFd;
        let len = workers * SLOT * 2;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot file");
        f.set_len(len as u64).expect("slot file size");
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            return Slots::none(workers);
        }
        Slots { base: p as *mut u16, workers }
    }
    /// Read (suite, path) of every worker from a slot file.
    pub fn read(path: &str) -> Vec<(usize, Vec<u16>)> {
        let mut out = Vec::new();
        if let Ok(b) = std::fs::read(path) {
            for w in b.chunks(SLOT * 2) {
                let v: Vec<u16> = w.chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect();
                if v[0] != 0 {
                    let n = v[1] as usize;
                    out.push((v[0] as usize - 1, v[2..(2 + n).min(SLOT)].to_vec()));
                }
            }
        }
        out
    }
    fn of(&self, w: usize) -> *mut u16 {
        if self.base.is_null() { self.base } else { unsafe { self.base.add(w * SLOT) } }
    }
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9 /* RLIMIT_AS */, &[bytes, bytes]);
    }
}

pub struct Known {
    pub key: String,
    pub text: String,
}

pub const MAX_VIOLATIONS: usize = 3;

pub fn explore(s: &Suite, suite_id: usize, slots: &Slots, known: &[Known], deadline: Option<Instant>, thorough: bool) -> Stats {
    let t0 = Instant::now();
    let workers = slots.workers;
    let shared = Shared {
        queue: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        execs: AtomicU64::new(0),
    };
    let timed_out = AtomicBool::new(false);
    let total = Mutex::new((Stats::default(), HashSet::<u64>::new()));

    std::thread::scope(|sc| {
        for w in 0..workers {
            let shared = &shared;
            let total = &total;
            let timed_out = &timed_out;
            let slot = SendPtr(slots.of(w));
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let slot = slot;
                let slot = slot.0;
                let mut st = Stats::default();
                let mut outs: HashSet<u64> = HashSet::new();
                'work: loop {
                    // take a prefix
                    let prefix = {
                        let mut q = shared.queue.lock().unwrap();
                        loop {
                            if shared.stop.load(Ordering::Relaxed) {
                                break 'work;
                            }
                            if let Some(p) = q.0.pop() {
                                q.1 += 1;
                                break p;
                            }
                            if q.1 == 0 {
                                shared.cv.notify_all();
                                break 'work;
                            }
                            shared.idle.fetch_add(1, Ordering::Relaxed);
                            q = shared.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                            shared.idle.fetch_sub(1, Ordering::Relaxed);
                        }
                    };
                    let fixed = prefix.len();
                    let mut ctx = Ctx {
                        path: prefix.iter().map(|c| (*c, 0)).collect(),
                        prefix_len: fixed,
                        pos: 0,
                        steps: 0,
                        outcome: 0,
                        want_sample: false,
                        sample: None,
                        slot,
                        thorough,
                    };
                    // `floor`: choices below this index are not ours to advance
                    let mut floor = fixed;
                    loop {
                        ctx.pos = 0;
                        ctx.outcome = 0;
                        ctx.sample = None;
                        // keep a few samples: early, and then sparsely
                        ctx.want_sample = st.samples.len() < 2 && (st.execs % 997 == 3 || (st.execs == 0 && w == 0));
                        if !slot.is_null() {
                            unsafe {
                                slot.add(1).write_volatile(0);
                                slot.write_volatile(suite_id as u16 + 1);
                            }
                        }
                        let replayed = ctx.prefix_len;
                        let r = run_one(s, &mut ctx);
                        let used = ctx.pos;
                        ctx.path.truncate(used);
                        st.execs += 1;
                        st.states += (used.saturating_sub(replayed)) as u64 + 1;
                        if outs.len() < 200_000 {
                            if ctx.outcome != 0 {
                                outs.insert(ctx.outcome);
                            }
                        } else {
                            st.outcomes_capped = true;
                        }
                        if let Some(smp) = ctx.sample.take() {
                            st.samples.push(format!("{} choices={:?}", smp, ctx.path.iter().map(|c| c.0).collect::<Vec<_>>()));
                        }
                        if let Err(f) = r {
                            if let Some(k) = known.iter().find(|k| k.key == f.key) {
                                match st.known.iter_mut().find(|(t, _)| *t == k.text) {
                                    Some(e) => e.1 += 1,
                                    None => st.known.push((k.text.clone(), 1)),
                                }
                            } else {
                                st.violations.push((ctx.path.iter().map(|c| c.0).collect(), f));
                                if st.violations.len() >= MAX_VIOLATIONS {
                                    shared.stop.store(true, Ordering::Relaxed);
                                }
                                // stop soon after the first violation
                                shared.execs.fetch_add(1 << 40, Ordering::Relaxed);
                            }
                        }
                        if st.execs & 0xff == 0 {
                            if shared.execs.load(Ordering::Relaxed) >= 1 << 40 && st.execs & 0xfff == 0 {
                                shared.stop.store(true, Ordering::Relaxed);
                            }
                            if let Some(d) = deadline {
                                if Instant::now() > d {
                                    timed_out.store(true, Ordering::Relaxed);
                                    shared.stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        if shared.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        // donate work when others are idle
                        if shared.idle.load(Ordering::Relaxed) > 0 {
                            if let Some(i) = (floor..ctx.path.len()).find(|&i| ctx.path[i].0 + 1 < ctx.path[i].1) {
                                let mut q = shared.queue.lock().unwrap();
                                let (c, n) = ctx.path[i];
                                for alt in (c + 1..n).rev() {
                                    let mut p: Vec<u16> = ctx.path[..i].iter().map(|c| c.0).collect();
                                    p.push(alt);
                                    q.0.push(p);
                                }
                                drop(q);
                                shared.cv.notify_all();
                                floor = i + 1;
                            }
                        }
                        // advance depth-first
                        let mut i = ctx.path.len();
                        let mut advanced = false;
                        while i > floor {
                            i -= 1;
                            let (c, n) = ctx.path[i];
                            if c + 1 < n {
                                ctx.path.truncate(i + 1);
                                ctx.path[i].0 = c + 1;
                                ctx.prefix_len = i + 1;
                                advanced = true;
                                break;
                            }
                        }
                        if !advanced {
                            break;
                        }
                    }
                    st.transitions += ctx.steps;
                    if !slot.is_null() {
                        unsafe { slot.write_volatile(0) };
                    }
                    let mut q = shared.queue.lock().unwrap();
                    q.1 -= 1;
                    if q.1 == 0 && q.0.is_empty() {
                        shared.cv.notify_all();
                    }
                }
                if !slot.is_null() {
                    unsafe { slot.write_volatile(0) };
                }
                let mut t = total.lock().unwrap();
                t.0.states += st.states;
                t.0.transitions += st.transitions;
                t.0.execs += st.execs;
                t.0.outcomes_capped |= st.outcomes_capped;
                t.0.samples.extend(st.samples);
                t.0.violations.extend(st.violations);
                for (k, n) in st.known {
                    match t.0.known.iter_mut().find(|(t, _)| *t == k) {
                        Some(e) => e.1 += n,
                        None => t.0.known.push((k, n)),
                    }
                }
                t.1.extend(outs);
            }).expect("spawn worker");
        }
    });

    let (mut st, outs) = total.into_inner().unwrap();
    st.outcomes = outs.len() as u64;
    st.samples.truncate(4);
    st.violations.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    st.violations.truncate(MAX_VIOLATIONS);
    st.complete = !timed_out.load(Ordering::Relaxed) && st.violations.is_empty();
    st.wall = t0.elapsed().as_secs_f64();
    st
}

struct SendPtr(*mut u16);
unsafe impl Send for SendPtr {}

/// Re-run exactly one recorded execution.
pub fn replay(s: &Suite, choices: &[u16], thorough: bool) -> (Res, Option<String>) {
    let mut ctx = Ctx {
        path: choices.iter().map(|c| (*c, 0)).collect(),
        prefix_len: choices.len(),
        pos: 0,
        steps: 0,
        outcome: 0,
        want_sample: true,
        sample: None,
        slot: std::ptr::null_mut(),
        thorough,
    };
    let r = run_one(s, &mut ctx);
    (r, ctx.sample)
}
