//! The simulator: coroutine threads, seeded scheduler, simulated clock, wakers,
//! recorded choices and the event log.

use crate::heap;
use crate::rng::{mix, Rng};
use crate::weak::{Moment, Weak};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use futures_signals_sim_std::sim::{Hooks, Mem, Op};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type Tid = usize;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    /// Which clause was broken (kept while minimising).
    pub class: String,
    pub msg: String,
    pub step: u64,
}

// ------------------------------------------------------------------ choices

/// Every decision about *what* a run does, drawn from the seed or from a replay file.
pub struct Choices {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub log: Vec<u64>,
    scale: usize,
    scale_max: usize,
    /// the length of a long vector
    pub long: usize,
}

impl Choices {
    pub fn seeded(seed: u64) -> Self {
        Choices { rng: Some(Rng::new(seed)), replay: vec![], log: vec![], scale: 0, scale_max: 48, long: 64 }
    }

    pub fn replay(v: Vec<u64>) -> Self {
        Choices { rng: None, replay: v, log: vec![], scale: 0, scale_max: 48, long: 64 }
    }

    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => match self.replay.get(self.log.len()) {
                Some(&v) => v % n.max(1),
                None => 0,
            },
        };
        heap::outside(|| self.log.push(v));
        v
    }

    pub fn u(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }

    /// True with probability p/100.
    pub fn pct(&mut self, p: u64) -> bool {
        // 0 (the simplest choice) means false
        let v = self.below(100);
        v >= 100 - p.min(100)
    }

    /// Index drawn with the given weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        0
    }

    /// How large this run is: mostly 1, seldom a multiple of the usual sizes. Some mistakes
    /// only show beyond a threshold, or after many changes.
    pub fn scale(&mut self) -> usize {
        if self.scale == 0 {
            self.scale = [1, 6, 48][self.weighted(&[975, 22, 3])].min(self.scale_max);
            if self.scale > 1 {
                sim().cap *= (self.scale * self.scale) as u64;
                probe(if self.scale > 6 { "a huge run" } else { "a large run" });
            }
        }
        self.scale
    }

    /// For scenarios whose work grows with the square of their size.
    pub fn moderate(&mut self) {
        self.scale_max = 6;
    }

    /// For scenarios whose work grows with a power of their size.
    pub fn modest(&mut self) {
        self.scale_max = 3;
        self.long = 24;
    }

    /// Below `n` times the size of the run.
    pub fn many(&mut self, n: usize) -> usize {
        let s = self.scale();
        self.u(n * s)
    }

    /// At most `cap`.
    pub fn many_capped(&mut self, n: usize, cap: usize) -> usize {
        let s = self.scale();
        self.u((n * s).min(cap).max(n))
    }

    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.u(xs.len())]
    }
}

// ---------------------------------------------------------------- scheduling

#[derive(Clone, Debug)]
pub enum Policy {
    /// Switch away with probability p/256 at every scheduling point.
    Random { p: u64 },
    /// Random priorities, lowered at the given steps.
    Pct { changes: Vec<u64> },
    /// Only switch when the current thread cannot run.
    RunToBlock,
    /// Random, but only at operation boundaries (user-level points).
    Coarse { p: u64 },
    /// Follow the recorded decisions.
    Replay(HashMap<u64, Tid>),
}

pub enum Schedule {
    Seeded(u64),
    Replay(Vec<(u64, Tid)>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    Blocked(usize),
    Parked,
    Quiesce,
    Done,
}

struct Thr {
    co: Option<Box<Coroutine<(), (), (), DefaultStack>>>,
    yielder: *const Yielder<(), ()>,
    st: St,
    name: String,
    op: Op,
    /// only wakers of this generation count (when `fresh_wakers`)
    gen: u64,
    woken: bool,
    /// how often one of its wakers was woken
    wakes: u64,
    prio: u64,
    /// background threads may be parked forever
    daemon: bool,
    /// suspended between two of its operations: no wake of it is under way
    idle: bool,
}

#[derive(Clone, Default, Debug)]
pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub clock: u64,
    pub observations: u64,
    /// how close it came to counting as a livelock, in thousandths
    pub near_cap: u64,
}

/// Counters over all runs of a process.
#[derive(Default)]
pub struct Stats {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
}

pub struct Sim {
    threads: Vec<Thr>,
    cur: Tid,
    next: Option<Tid>,
    policy: Policy,
    rng: Rng,
    pub choices: *mut Choices,
    pub overrides: Vec<(u64, Tid)>,
    pub stats: RunStats,
    steps: u64,
    violation: Option<Violation>,
    abandon: bool,
    /// > 0: no other thread may run
    alone: u32,
    hash: u64,
    ev_seq: u64,
    tracing: bool,
    pub trace: Vec<String>,
    clock: u64,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    clock_tid: Option<Tid>,
    addrs: HashMap<usize, u64>,
    pub last_lock: usize,
    fresh_wakers: bool,
    writer_priority: bool,
    weak_cas: bool,
    after_points: bool,
    arc_points: bool,
    held_points: bool,
    live: Vec<i32>,
    live_wakers: i64,
    /// the thread which is in `must_panic`
    panic_allowed: Option<Tid>,
    weak: Option<Box<Weak>>,
    cap: u64,
}

thread_local! {
    static SIM: Cell<*mut Sim> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    pub static STATS: RefCell<Stats> = RefCell::new(Stats::default());
    static RUN_ID: Cell<u64> = const { Cell::new(0) };
}

fn sim_opt() -> Option<&'static mut Sim> {
    let p = SIM.with(|s| s.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

pub fn sim() -> &'static mut Sim {
    sim_opt().expect("no simulation")
}

impl Sim {
    fn runnable(&self, t: Tid) -> bool {
        self.threads[t].st == St::Runnable
    }

    fn mixh(&mut self, v: u64) {
        self.hash = mix(self.hash ^ v);
    }

    fn default_next(&self) -> Option<Tid> {
        if self.runnable(self.cur) {
            return Some(self.cur);
        }
        let n = self.threads.len();
        (1..=n).map(|i| (self.cur + i) % n).find(|&t| self.runnable(t))
    }

    /// The scheduling decision of this step.
    fn choose(&mut self, user_point: bool, spin: bool) -> Option<Tid> {
        let def = self.default_next()?;
        let step = self.steps;
        let cur_ok = self.runnable(self.cur);
        let n = self.threads.len();
        let chosen = match &mut self.policy {
            Policy::Replay(m) => match m.get(&step) {
                Some(&t) if t < n && self.threads[t].st == St::Runnable => t,
                _ => def,
            },
            Policy::RunToBlock => {
                if cur_ok && !spin {
                    def
                } else {
                    Self::uniform(&self.threads, &mut self.rng)
                }
            }
            Policy::Random { p } => {
                if cur_ok && !spin && self.rng.below(256) >= *p {
                    def
                } else {
                    Self::uniform(&self.threads, &mut self.rng)
                }
            }
            Policy::Coarse { p } => {
                if cur_ok && !spin && (!user_point || self.rng.below(256) >= *p) {
                    def
                } else {
                    Self::uniform(&self.threads, &mut self.rng)
                }
            }
            Policy::Pct { changes } => {
                if spin || changes.contains(&step) {
                    let low = self.threads.iter().map(|t| t.prio).min().unwrap_or(1);
                    self.threads[self.cur].prio = low.saturating_sub(1);
                }
                let mut best = def;
                let mut bp = None;
                for (i, t) in self.threads.iter().enumerate() {
                    if t.st == St::Runnable && bp.map_or(true, |b| t.prio > b) {
                        best = i;
                        bp = Some(t.prio);
                    }
                }
                best
            }
        };
        if chosen != def {
            heap::outside(|| self.overrides.push((step, chosen)));
        }
        if chosen != self.cur {
            self.stats.switches += 1;
            if cur_ok {
                self.stats.preemptions += 1;
            }
        }
        Some(chosen)
    }

    fn uniform(threads: &[Thr], rng: &mut Rng) -> Tid {
        let k = threads.iter().filter(|t| t.st == St::Runnable).count() as u64;
        let i = rng.below(k) as usize;
        threads.iter().enumerate().filter(|(_, t)| t.st == St::Runnable).nth(i).unwrap().0
    }

}

// The functions below may switch to another simulated thread, which uses the
// simulator through `sim()` as well: they must not hold a `&mut Sim` argument.

fn suspend() {
    let y = {
        let s = sim();
        s.threads[s.cur].yielder
    };
    unsafe { (*y).suspend(()) };
}

fn note_step(op: u64, addr: usize) {
    let s = sim();
    s.steps += 1;
    let c = s.cur as u64;
    // Addresses are not part of the hash: they depend on the allocator's history.
    s.mixh((c << 48) ^ (op << 40));
    if s.tracing && op < 100 {
        heap::outside(|| {
            let id = if addr == 0 {
                0
            } else {
                let n = s.addrs.len() as u64 + 1;
                *s.addrs.entry(addr).or_insert(n)
            };
            let name = &s.threads[s.cur].name;
            s.trace.push(format!("{:>5} {:<10} sync {} #{}", s.steps, name, op_name(op), id));
        });
    }
    if s.steps > s.cap {
        let cap = s.cap;
        fail_now("livelock", format!("no quiescence after {} scheduling points", cap));
    }
}

/// A scheduling point of the current thread.
fn point(op: u64, addr: usize, user: bool, spin: bool) {
    note_step(op, addr);
    let s = sim();
    if s.alone > 0 {
        return;
    }
    if let Some(next) = s.choose(user, spin) {
        if next != s.cur {
            s.next = Some(next);
            suspend();
        }
    }
}

fn block(st: St, op: Op) {
    let s = sim();
    if s.alone > 0 {
        panic!("blocked while it must be alone");
    }
    let cur = s.cur;
    s.threads[cur].st = st;
    s.threads[cur].op = op;
    s.steps += 1;
    s.next = None;
    suspend();
}

fn fail_now(class: &str, msg: String) {
    let s = sim();
    if s.violation.is_none() {
        s.violation = Some(Violation { class: class.to_string(), msg, step: s.steps });
    }
    s.abandon = true;
    // The whole run is abandoned: this coroutine is never resumed.
    loop {
        suspend();
    }
}

pub fn op_name(op: u64) -> &'static str {
    match op {
        0 => "mutex.lock",
        1 => "rwlock.read",
        2 => "rwlock.write",
        3 => "unlock",
        4 => "atomic.load",
        5 => "atomic.store",
        6 => "atomic.rmw",
        7 => "after-write",
        8 => "fence",
        9 => "condvar",
        10 => "spin",
        11 => "arc",
        12 => "before-unlock",
        _ => "user",
    }
}

// -------------------------------------------------------------------- hooks

fn active() -> Option<&'static mut Sim> {
    match sim_opt() {
        Some(s) if !s.abandon && !std::thread::panicking() => Some(s),
        _ => None,
    }
}

fn hook_point(op: Op, addr: usize) {
    if let Some(s) = active() {
        match op {
            Op::Unlock | Op::AfterWrite => {
                if s.after_points {
                    point(op as u64, addr, false, false);
                }
            }
            Op::Held => {
                if s.held_points {
                    point(op as u64, addr, false, false);
                }
            }
            Op::Arc => {
                if s.arc_points {
                    point(op as u64, addr, false, false);
                }
            }
            Op::Spin => {
                point(op as u64, addr, false, true);
            }
            Op::MutexLock | Op::RwRead | Op::RwWrite => {
                s.last_lock = addr;
                point(op as u64, addr, false, false);
            }
            _ => point(op as u64, addr, false, false),
        }
    }
}

fn hook_block(addr: usize, op: Op) -> bool {
    match active() {
        Some(_s) => {
            probe("lock-contended");
            block(St::Blocked(addr), op);
            true
        }
        None => false,
    }
}

fn hook_wake(addr: usize) {
    if let Some(s) = sim_opt() {
        for t in s.threads.iter_mut() {
            if t.st == St::Blocked(addr) {
                t.st = St::Runnable;
            }
        }
    }
}

fn hook_wp() -> bool {
    sim_opt().map_or(false, |s| s.writer_priority)
}

fn hook_weak_fail() -> bool {
    match active() {
        Some(s) if s.weak_cas => {
            let r = choices().pct(30);
            if r {
                fault("weak-cas-failed-spuriously");
            }
            r
        }
        _ => false,
    }
}

fn hook_memory(m: Mem) -> u64 {
    if let Some(s) = active() {
        let t = s.cur;
        if let Some(w) = &mut s.weak {
            return w.op(t, m);
        }
    }
    match m {
        Mem::Load { cur, .. } => cur,
        _ => 0,
    }
}

/// Switches to weak memory, for the rest of this run, at its start. Returns whether it is simulated
/// (a library which synchronises with foreign primitives is simulated with strong memory).
pub fn weak_memory(budget: u32, pct: u64) -> bool {
    let s = sim();
    assert!(s.threads.len() == 1);
    if !futures_signals_sim_std::sim::ARC || cfg!(dst_foreign_sync) {
        return false;
    }
    s.weak = Some(Box::new(Weak::new(1, budget, pct)));
    futures_signals_sim_std::sim::set_weak_memory(true);
    true
}

/// The present moment of this thread (with weak memory).
pub fn moment() -> Option<Moment> {
    let s = sim_opt()?;
    let t = s.cur;
    s.weak.as_ref().map(|w| w.now(t))
}

/// Whether that moment happened before.
pub fn known(m: Option<Moment>) -> bool {
    match (m, active()) {
        (Some(m), Some(s)) => {
            let t = s.cur;
            s.weak.as_ref().map_or(true, |w| w.knows(t, m))
        }
        _ => true,
    }
}

/// Publishes what this thread did to whoever calls `hb_acquire` (harness objects which are
/// synchronised in a real program).
pub fn hb_release(key: usize) {
    if let Some(s) = active() {
        let t = s.cur;
        if let Some(w) = &mut s.weak {
            w.release(t, key);
        }
    }
}

pub fn hb_acquire(key: usize) {
    if let Some(s) = active() {
        let t = s.cur;
        if let Some(w) = &mut s.weak {
            w.acquire(t, key);
        }
    }
}

pub fn install() {
    futures_signals_sim_std::sim::install(Some(Hooks {
        point: hook_point,
        block: hook_block,
        wake: hook_wake,
        writer_priority: hook_wp,
        weak_fail: hook_weak_fail,
        memory: hook_memory,
    }));
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        match sim_opt() {
            Some(s) if s.panic_allowed.is_some() && s.panic_allowed == Some(cur()) => {}
            Some(s) => {
                if s.violation.is_none() {
                    let class = if is_harness(&loc) {
                        "harness-panic"
                    } else {
                        "panic"
                    };
                    s.violation = Some(Violation {
                        class: class.to_string(),
                        msg: format!("panicked at {}: {}", loc, msg),
                        step: s.steps,
                    });
                    crate::runner::note_panic(class, &loc, &msg);
                }
                s.abandon = true;
            }
            None => {
                eprintln!("dst: panicked at {}: {}", loc, msg);
            }
        }
    }));
}

fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/")
}

// ------------------------------------------------------------- simulator API

/// Injects a call which has to panic (a misuse). Returns whether it did.
/// Nothing is scheduled while it unwinds.
pub fn must_panic(f: impl FnOnce()) -> bool {
    let s = sim_opt().expect("in a run");
    s.panic_allowed = Some(cur());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if let Some(s) = sim_opt() {
        s.panic_allowed = None;
    }
    r.is_err()
}

/// Fails the run. Never returns.
pub fn fail(class: &str, msg: String) -> ! {
    fail_now(class, msg);
    unreachable!()
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            $crate::engine::fail($class, format!($($arg)*));
        }
    };
}

/// A scheduling point in simulated user code.
pub fn pause() {
    if active().is_some() {
        point(100, 0, true, false);
    }
}

/// Runs `f` without letting other threads run (only for set-up which shares nothing).
pub fn alone<T>(f: impl FnOnce() -> T) -> T {
    sim().alone += 1;
    let r = f();
    sim().alone -= 1;
    r
}

/// Records an observation in the event log (and thereby in the determinism hash).
pub fn ev(v: u64) {
    if let Some(s) = sim_opt() {
        s.mixh(v ^ 0x5555_0000_0000_0000);
        s.stats.observations += 1;
    }
}

/// A human readable line for the replay trace.
pub fn note<F: FnOnce() -> String>(f: F) {
    if let Some(s) = sim_opt() {
        if s.tracing {
            let what = f();
            heap::outside(|| s.trace.push(format!("{:>5} {:<10} {}", s.steps, s.threads[s.cur].name, what)));
        }
    }
}

/// A global, strictly increasing event stamp.
pub fn stamp() -> u64 {
    let s = sim();
    s.ev_seq += 1;
    s.ev_seq
}

pub fn fault(name: &'static str) {
    heap::outside(|| STATS.with(|s| *s.borrow_mut().faults.entry(name).or_insert(0) += 1));
}

pub fn probe(name: &'static str) {
    heap::outside(|| STATS.with(|s| *s.borrow_mut().probes.entry(name).or_insert(0) += 1));
}

pub fn choices() -> &'static mut Choices {
    unsafe { &mut *sim().choices }
}

pub fn last_lock() -> usize {
    sim().last_lock
}

pub fn now() -> u64 {
    sim().clock
}

fn take_stack() -> DefaultStack {
    heap::outside(|| {
        STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(256 * 1024).expect("stack"))
    })
}

fn keep_stack(st: DefaultStack) {
    heap::outside(|| STACKS.with(|s| s.borrow_mut().push(st)));
}

/// Starts a simulated thread.
pub fn spawn<F: FnOnce() + 'static>(name: &str, f: F) -> Tid {
    spawn_with(name, false, f)
}

pub fn spawn_with<F: FnOnce() + 'static>(name: &str, daemon: bool, f: F) -> Tid {
    let s = sim();
    let tid = s.threads.len();
    let prio = 1_000_000 + s.rng.below(1_000_000);
    let co = Coroutine::with_stack(take_stack(), move |y: &Yielder<(), ()>, ()| {
        sim().threads[tid].yielder = y;
        sim().threads[tid].idle = false;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        if r.is_err() {
            let s = sim();
            if s.violation.is_none() {
                s.violation = Some(Violation { class: "panic".into(), msg: "panic".into(), step: s.steps });
            }
            s.abandon = true;
        }
    });
    s.threads.push(Thr {
        co: Some(Box::new(co)),
        yielder: std::ptr::null(),
        st: St::Runnable,
        name: name.to_string(),
        op: Op::Spin,
        gen: 0,
        woken: false,
        wakes: 0,
        prio,
        daemon,
        idle: true,
    });
    s.mixh(0xAA00 ^ tid as u64);
    let parent = s.cur;
    if let Some(w) = &mut s.weak {
        w.thread(tid, Some(parent));
    }
    tid
}

/// Suspends the controller until nothing else can run. All other threads must
/// then be finished or parked in an executor; a thread stuck on a lock is a deadlock.
pub fn quiesce() {
    idle(|| block(St::Quiesce, Op::Spin));
    let s = sim();
    let t = s.cur;
    if let Some(w) = &mut s.weak {
        w.join_all(t);
    }
}

fn idle<R>(f: impl FnOnce() -> R) -> R {
    let cur = cur();
    sim().threads[cur].idle = true;
    let r = f();
    sim().threads[cur].idle = false;
    r
}

/// A scheduling point between two operations of the current thread.
pub fn between() {
    idle(pause)
}

/// Whether the current task really goes to sleep now: it has not been woken, and no other
/// thread is in the middle of an operation which may be about to wake it.
pub fn rests() -> bool {
    let s = sim();
    !s.threads[s.cur].woken && s.threads.iter().enumerate().all(|(i, t)| i == s.cur || t.idle || t.st == St::Done)
}

pub fn is_parked(t: Tid) -> bool {
    sim().threads[t].st == St::Parked
}

pub fn is_done(t: Tid) -> bool {
    sim().threads[t].st == St::Done
}

pub fn cur() -> Tid {
    sim().cur
}

pub fn steps() -> u64 {
    sim().steps
}

// ------------------------------------------------------------------- wakers

struct TaskWaker {
    made: Option<Moment>,
    run: u64,
    tid: Tid,
    gen: u64,
}

impl Drop for TaskWaker {
    fn drop(&mut self) {
        if RUN_ID.with(|r| r.get()) == self.run {
            if let Some(s) = sim_opt() {
                s.live_wakers -= 1;
            }
            self.visible("dropped");
        }
    }
}

/// How many wakers handed out in this run have not been dropped yet.
pub fn live_wakers() -> i64 {
    sim().live_wakers
}

impl TaskWaker {
    fn visible(&self, what: &str) {
        check!(known(self.made), "unsynchronised", "a waker is {} by a thread to which nothing has made it visible", what);
    }
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }

    fn wake_by_ref(self: &Arc<Self>) {
        if RUN_ID.with(|r| r.get()) != self.run {
            return;
        }
        if active().is_some() {
            point(101, 0, true, false);
        }
        if let Some(s) = sim_opt() {
            let fresh = s.fresh_wakers;
            let t = &mut s.threads[self.tid];
            t.wakes += 1;
            self.visible("woken");
            let t = &mut s.threads[self.tid];
            if t.gen == self.gen || !fresh {
                t.woken = true;
                if t.st == St::Parked {
                    t.st = St::Runnable;
                }
                let by = s.cur;
                if let Some(w) = &mut s.weak {
                    w.wake(by, self.tid);
                }
            } else {
                fault("stale-waker-ignored");
            }
            let (tid, gen) = (self.tid, self.gen);
            note(|| format!("wakes task {} (waker generation {})", sim().threads[tid].name, gen));
        }
    }
}

/// A new waker for the current simulated thread. With fresh wakers on, earlier ones go stale.
pub fn new_waker() -> Waker {
    let s = sim();
    let cur = s.cur;
    s.live_wakers += 1;
    let t = &mut s.threads[cur];
    t.gen += 1;
    Waker::from(Arc::new(TaskWaker { made: moment(), run: RUN_ID.with(|r| r.get()), tid: cur, gen: t.gen }))
}

/// This run may take more scheduling points than others before it counts as a livelock.
pub fn patience(n: u64) {
    sim().cap = n;
}

pub fn clear_woken() {
    let s = sim();
    let cur = s.cur;
    s.threads[cur].woken = false;
    if let Some(w) = &mut s.weak {
        w.wakes_up(cur);
    }
}

pub fn is_woken(t: Tid) -> bool {
    sim().threads[t].woken
}

/// How often the wakers of a thread were woken so far.
pub fn wakes(t: Tid) -> u64 {
    sim().threads[t].wakes
}

/// Waits until the current thread's waker is woken.
pub fn park() {
    let s = sim();
    let cur = s.cur;
    while !s.threads[cur].woken {
        note(|| "parks".into());
        idle(|| block(St::Parked, Op::Spin));
    }
    s.threads[cur].woken = false;
}

/// Wakes a parked thread from harness code (not through a waker).
pub fn kick(t: Tid) {
    let s = sim();
    s.threads[t].woken = true;
    if s.threads[t].st == St::Parked {
        s.threads[t].st = St::Runnable;
    }
    let by = s.cur;
    if let Some(w) = &mut s.weak {
        w.wake(by, t);
    }
}

// -------------------------------------------------------------------- clock

pub struct Sleep {
    at: u64,
    key: Option<(u64, u64)>,
}

/// Completes when the simulated clock has advanced by `ms`.
pub fn sleep(ms: u64) -> Sleep {
    Sleep { at: now() + ms, key: None }
}

impl Future for Sleep {
    type Output = ();

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        pause();
        let s = sim();
        if let Some(k) = self.key.take() {
            s.timers.remove(&k);
        }
        if s.clock >= self.at {
            return Poll::Ready(());
        }
        s.timer_seq += 1;
        let key = (self.at, s.timer_seq);
        s.timers.insert(key, cx.waker().clone());
        self.key = Some(key);
        match s.clock_tid {
            Some(t) => kick(t),
            None => {
                let t = spawn_with("clock", true, clock_main);
                sim().clock_tid = Some(t);
            }
        }
        Poll::Pending
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let (Some(k), Some(s)) = (self.key.take(), sim_opt()) {
            if !s.abandon {
                s.timers.remove(&k);
            }
        }
    }
}

/// The simulated clock is one more thread: the scheduler decides when time passes.
fn clock_main() {
    loop {
        let s = sim();
        match s.timers.pop_first() {
            None => park(),
            Some(((at, _), w)) => {
                if at > s.clock {
                    s.stats.clock += at - s.clock;
                    s.clock = at;
                }
                note(|| format!("clock -> {} ms", at));
                fault("timer-fired");
                w.wake();
                between();
            }
        }
    }
}

// ----------------------------------------------------------- tracked values

/// Registers a value whose lifetime is tracked; returns its id.
pub fn track() -> usize {
    let s = sim();
    heap::outside(|| s.live.push(1));
    s.live.len() - 1
}

pub fn track_clone(id: usize) {
    if let Some(s) = sim_opt() {
        if !s.abandon {
            s.live[id] += 1;
        }
    }
}

pub fn track_drop(id: usize) {
    if let Some(s) = sim_opt() {
        if !s.abandon {
            if id < s.live.len() {
                s.live[id] -= 1;
                if s.live[id] < 0 && !std::thread::panicking() {
                    fail_now("double-drop", format!("value {} was dropped more than once", id));
                }
            }
        }
    }
}

/// How many blocks and bytes are allocated by this run.
pub fn memory() -> (usize, usize) {
    heap::in_use()
}

pub fn live_count(id: usize) -> i32 {
    sim().live[id]
}

pub fn live_total() -> i64 {
    sim().live.iter().map(|&x| x as i64).sum()
}

pub fn leaked() -> Vec<usize> {
    sim().live.iter().enumerate().filter(|(_, &n)| n != 0).map(|(i, _)| i).collect()
}

// ------------------------------------------------------------------ running

#[derive(Clone)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub choices: Vec<u64>,
    pub overrides: Vec<(u64, Tid)>,
    pub hash: u64,
    pub stats: RunStats,
    pub trace: Vec<String>,
    pub policy: String,
}

pub type Body = fn();

/// Executes one simulated run: `body` is the controller.
pub fn run(body: Body, choices: Choices, schedule: Schedule, tracing: bool) -> Outcome {
    heap::enter();
    let mut inner = run_inner(body, choices, schedule, tracing);
    let bad = heap::leave();
    // Nothing of the arena may outlive the run.
    let mut o = inner.clone();
    if o.violation.is_none() {
        if let Some(what) = bad.or_else(heap::check_freed) {
            o.violation = Some(Violation { class: "memory".into(), msg: what.into(), step: o.stats.steps });
        }
    }
    inner.violation = None;
    o
}

fn run_inner(body: Body, choices: Choices, schedule: Schedule, tracing: bool) -> Outcome {
    let mut choices = Box::new(choices);
    RUN_ID.with(|r| r.set(r.get() + 1));

    let (mut rng, replay) = match schedule {
        Schedule::Seeded(s) => (Rng::new(s), None),
        Schedule::Replay(v) => (Rng::new(1), Some(v)),
    };
    let policy = match replay {
        Some(v) => Policy::Replay(v.into_iter().collect()),
        None => match rng.below(16) {
            0 => Policy::RunToBlock,
            1..=2 => Policy::Coarse { p: 128 },
            3..=8 => Policy::Random { p: [192, 128, 64, 32, 16, 8][rng.below(6) as usize] },
            _ => {
                let d = 1 + rng.below(4);
                let scale = 8u64 << rng.below(7);
                Policy::Pct { changes: (0..d).map(|_| 1 + rng.below(scale)).collect() }
            }
        },
    };
    let policy_name = format!("{:?}", policy);

    // Environment switches are part of the recorded choices.
    let fresh_wakers = choices.pct(60);
    let writer_priority = choices.pct(60);
    let after_points = choices.pct(40);
    let arc_points = choices.pct(35);
    let held_points = choices.pct(25);
    let weak_cas = choices.pct(30);

    let mut s = Box::new(Sim {
        threads: Vec::with_capacity(16),
        cur: 0,
        next: None,
        policy,
        rng,
        choices: &mut *choices as *mut Choices,
        overrides: vec![],
        stats: RunStats::default(),
        steps: 0,
        violation: None,
        abandon: false,
        alone: 0,
        hash: 0x1234,
        ev_seq: 0,
        tracing,
        trace: vec![],
        clock: 0,
        timers: BTreeMap::new(),
        timer_seq: 0,
        clock_tid: None,
        addrs: HashMap::new(),
        last_lock: 0,
        fresh_wakers,
        writer_priority,
        weak_cas,
        after_points,
        arc_points,
        held_points,
        live: vec![],
        live_wakers: 0,
        panic_allowed: None,
        weak: None,
        cap: 300_000,
    });
    futures_signals_sim_std::sim::set_weak_memory(false);
    SIM.with(|p| p.set(&mut *s as *mut Sim));
    spawn("main", body);

    loop {
        let s = sim();
        if s.violation.is_some() {
            break;
        }
        if s.threads[0].st == St::Done {
            break;
        }
        let t = match s.next.take() {
            Some(t) => t,
            None => match s.choose(true, false) {
                Some(t) => t,
                None => {
                    // Nothing can run.
                    let stuck: Vec<String> = s
                        .threads
                        .iter()
                        .filter(|t| matches!(t.st, St::Blocked(_)))
                        .map(|t| format!("{} ({})", t.name, op_name(t.op as u64)))
                        .collect();
                    if !stuck.is_empty() {
                        s.violation = Some(Violation {
                            class: "deadlock".into(),
                            msg: format!("deadlock: blocked forever on locks: {}", stuck.join(", ")),
                            step: s.steps,
                        });
                        s.abandon = true;
                        break;
                    }
                    if s.threads[0].st == St::Quiesce {
                        s.threads[0].st = St::Runnable;
                        0
                    } else {
                        s.violation = Some(Violation {
                            class: "harness".into(),
                            msg: "controller parked".into(),
                            step: s.steps,
                        });
                        break;
                    }
                }
            },
        };
        s.cur = t;
        s.mixh(0x7700_0000 ^ t as u64);
        let co: *mut Coroutine<(), (), (), DefaultStack> = &mut **s.threads[t].co.as_mut().expect("coroutine");
        match unsafe { (*co).resume(()) } {
            CoroutineResult::Yield(()) => {}
            CoroutineResult::Return(()) => {
                let s = sim();
                s.threads[t].st = St::Done;
                s.next = None;
                let co = s.threads[t].co.take().unwrap();
                keep_stack(co.into_stack());
            }
        }
    }

    let s_ref = sim();
    if s_ref.violation.is_some() {
        s_ref.abandon = true;
    } else {
        // Only daemons may be left.
        let left: Vec<usize> = s_ref
            .threads
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st != St::Done && !t.daemon)
            .map(|(i, _)| i)
            .collect();
        if !left.is_empty() {
            let names: Vec<String> = left.iter().map(|&i| s_ref.threads[i].name.clone()).collect();
            s_ref.violation = Some(Violation {
                class: "harness".into(),
                msg: format!("threads left behind: {:?}", names),
                step: s_ref.steps,
            });
        }
        s_ref.abandon = true;
    }

    s.stats.steps = s.steps;
    s.stats.near_cap = s.steps * 1000 / s.cap;
    // Coroutines which did not finish are abandoned without unwinding: after a
    // violation everything they own is leaked; daemons own nothing.
    for t in s.threads.drain(..) {
        if let Some(mut co) = t.co {
            unsafe { co.force_reset() };
            keep_stack(co.into_stack());
        }
    }
    if s.violation.is_some() {
        std::mem::forget(std::mem::take(&mut s.timers));
    }
    s.timers.clear();
    SIM.with(|p| p.set(std::ptr::null_mut()));

    Outcome {
        violation: s.violation.take(),
        choices: std::mem::take(&mut choices.log),
        overrides: std::mem::take(&mut s.overrides),
        hash: s.hash,
        stats: s.stats.clone(),
        trace: std::mem::take(&mut s.trace),
        policy: policy_name,
    }
}

// --------------------------------------------------------- small conveniences

pub type Shared<T> = Rc<RefCell<T>>;

pub fn shared<T>(t: T) -> Shared<T> {
    Rc::new(RefCell::new(t))
}

pub fn short<T: Debug>(v: &T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 300 {
        format!("{}...", &s[..300])
    } else {
        s
    }
}

#[allow(unused)]
pub type Queue<T> = VecDeque<T>;
