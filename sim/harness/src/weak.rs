//! The memory model of runs which simulate weak memory: vector clocks for happens-before, and for
//! every atomic the history of its values, from which a load may be given any value which is not
//! older than what its thread knows of (as an ARM or POWER machine, or the compiler, may do).
//!
//! Operations are executed in the order of the schedule and stores take effect at once; what is weak
//! are loads (of values which have been overwritten meanwhile) and the edges of happens-before.
//! SeqCst operations are all ordered among each other.  Both are stronger than what C++20 allows:
//! whatever fails here is allowed to fail by the real model.

use crate::engine::{choices, fault, note};
use futures_signals_sim_std::sim::Mem;
use std::collections::HashMap;
use std::sync::atomic::Ordering;

pub const THREADS: usize = 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Clock([u32; THREADS]);

impl Clock {
    const ZERO: Clock = Clock([0; THREADS]);

    fn join(&mut self, o: &Clock) {
        for i in 0..THREADS {
            self.0[i] = self.0[i].max(o.0[i]);
        }
    }
}

/// A moment of a thread.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Moment {
    tid: u16,
    epoch: u32,
}

struct Msg {
    val: u64,
    by: Moment,
    /// what who reads it with Acquire knows then
    rel: Clock,
}

struct Loc {
    msgs: Vec<Msg>,
    /// who read which message when (a later read must not go back)
    reads: Vec<(Moment, usize)>,
}

pub struct Weak {
    clocks: Vec<Clock>,
    /// what an Acquire fence makes known
    pending: Vec<Clock>,
    /// what a Release fence has released
    fenced: Vec<Clock>,
    woken: Vec<Clock>,
    sc: Clock,
    locs: HashMap<usize, Loc>,
    objs: HashMap<usize, Clock>,
    /// how many more loads may be given a stale value (so that loops end)
    pub budget: u32,
    pub pct: u64,
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}

fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

impl Weak {
    pub fn new(threads: usize, budget: u32, pct: u64) -> Weak {
        let mut w = Weak {
            clocks: vec![],
            pending: vec![],
            fenced: vec![],
            woken: vec![],
            sc: Clock::ZERO,
            locs: HashMap::new(),
            objs: HashMap::new(),
            budget,
            pct,
        };
        for t in 0..threads {
            w.thread(t, None);
        }
        w
    }

    /// A thread is started.
    pub fn thread(&mut self, t: usize, parent: Option<usize>) {
        assert!(t < THREADS, "too many threads for the memory model");
        assert!(t == self.clocks.len());
        let mut c = match parent {
            Some(p) => self.clocks[p],
            None => Clock::ZERO,
        };
        c.0[t] = 1;
        self.clocks.push(c);
        self.pending.push(Clock::ZERO);
        self.fenced.push(Clock::ZERO);
        self.woken.push(Clock::ZERO);
        if let Some(p) = parent {
            self.tick(p);
        }
    }

    fn tick(&mut self, t: usize) {
        self.clocks[t].0[t] += 1;
    }

    pub fn now(&self, t: usize) -> Moment {
        Moment { tid: t as u16, epoch: self.clocks[t].0[t] }
    }

    /// Whether thread `t` knows of everything which was done up to that moment.
    pub fn knows(&self, t: usize, m: Moment) -> bool {
        self.clocks[t].0[m.tid as usize] >= m.epoch
    }

    pub fn wake(&mut self, by: usize, task: usize) {
        let c = self.clocks[by];
        self.woken[task].join(&c);
        self.tick(by);
    }

    pub fn wakes_up(&mut self, t: usize) {
        let c = self.woken[t];
        self.clocks[t].join(&c);
    }

    /// The controller waits for everybody.
    pub fn join_all(&mut self, t: usize) {
        for i in 0..self.clocks.len() {
            let c = self.clocks[i];
            self.clocks[t].join(&c);
            self.tick(i);
        }
    }

    pub fn acquire(&mut self, t: usize, key: usize) {
        if let Some(c) = self.objs.get(&key) {
            self.clocks[t].join(c);
        }
    }

    pub fn release(&mut self, t: usize, key: usize) {
        let c = self.clocks[t];
        self.objs.entry(key).or_insert(Clock::ZERO).join(&c);
        self.tick(t);
    }

    /// The history of an atomic, whose latest value is `cur`.
    fn loc(&mut self, addr: usize, cur: u64) -> &mut Loc {
        let l = self.locs.entry(addr).or_insert_with(|| Loc { msgs: vec![], reads: vec![] });
        if l.msgs.last().map_or(true, |m| m.val != cur) {
            // Initialised, or written through `&mut`: everybody who can get at it knows.
            l.msgs.clear();
            l.reads.clear();
            l.msgs.push(Msg { val: cur, by: Moment { tid: 0, epoch: 0 }, rel: Clock::ZERO });
        }
        l
    }

    fn sc_before(&mut self, t: usize, o: Ordering) {
        if o == Ordering::SeqCst {
            let c = self.sc;
            self.clocks[t].join(&c);
        }
    }

    fn sc_after(&mut self, t: usize, o: Ordering) {
        if o == Ordering::SeqCst {
            let c = self.clocks[t];
            self.sc.join(&c);
            self.tick(t);
        }
    }

    fn read(&mut self, t: usize, addr: usize, i: usize, o: Ordering) {
        let now = self.now(t);
        let l = self.locs.get_mut(&addr).unwrap();
        match l.reads.iter_mut().find(|r| r.0 == now) {
            Some(r) => r.1 = r.1.max(i),
            None => l.reads.push((now, i)),
        }
        let rel = l.msgs[i].rel;
        if acquires(o) {
            self.clocks[t].join(&rel);
        } else {
            self.pending[t].join(&rel);
        }
    }

    pub fn op(&mut self, t: usize, m: Mem) -> u64 {
        match m {
            Mem::Load { addr, cur, order } => {
                self.sc_before(t, order);
                let clock = self.clocks[t];
                let knows = |m: &Moment| clock.0[m.tid as usize] >= m.epoch;
                let (budget, pct) = (self.budget, self.pct);
                let l = self.loc(addr, cur);
                let last = l.msgs.len() - 1;
                let mut i = last;
                if budget > 0 && last > 0 {
                    let a = l.msgs.iter().rposition(|m| knows(&m.by)).unwrap_or(0);
                    let b = l.reads.iter().filter(|r| knows(&r.0)).map(|r| r.1).max().unwrap_or(0);
                    let floor = a.max(b);
                    if floor < last && choices().pct(pct) {
                        // 0 is the one before the last
                        i = last - 1 - choices().u(last - floor);
                        let val = l.msgs[i].val;
                        fault("stale-atomic-load");
                        note(|| format!("atomic load is given an overwritten value: {} instead of {}", val, cur));
                        self.budget -= 1;
                    }
                }
                let val = self.locs[&addr].msgs[i].val;
                self.read(t, addr, i, order);
                self.sc_after(t, order);
                val
            }
            Mem::Saw { addr, cur, order } => {
                self.sc_before(t, order);
                let i = self.loc(addr, cur).msgs.len() - 1;
                self.read(t, addr, i, order);
                self.sc_after(t, order);
                cur
            }
            Mem::Store { addr, old, new, order } => {
                self.sc_before(t, order);
                let rel = if releases(order) { self.clocks[t] } else { self.fenced[t] };
                let by = self.now(t);
                self.loc(addr, old).msgs.push(Msg { val: new, by, rel });
                self.sc_after(t, order);
                self.tick(t);
                0
            }
            Mem::Rmw { addr, old, new, order } => {
                self.sc_before(t, order);
                let i = self.loc(addr, old).msgs.len() - 1;
                self.read(t, addr, i, order);
                let mut rel = if releases(order) { self.clocks[t] } else { self.fenced[t] };
                let by = self.now(t);
                let l = self.locs.get_mut(&addr).unwrap();
                // a release sequence goes on through it
                rel.join(&l.msgs[i].rel);
                l.msgs.push(Msg { val: new, by, rel });
                self.sc_after(t, order);
                self.tick(t);
                0
            }
            Mem::Fence(o) => {
                if acquires(o) {
                    let c = self.pending[t];
                    self.clocks[t].join(&c);
                }
                self.sc_before(t, o);
                if releases(o) {
                    self.fenced[t] = self.clocks[t];
                }
                self.sc_after(t, o);
                self.tick(t);
                0
            }
            Mem::Acquire(k) => {
                self.acquire(t, k);
                0
            }
            Mem::Release(k) => {
                self.release(t, k);
                0
            }
        }
    }
}
