//! Memory does not grow with the history (C33).

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::scen::compose::{plain, Tree};
use futures_signals::cancelable_future;
use futures_signals::signal::{channel, Broadcaster, Mutable, Sender, Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, SignalMap};
use futures_signals::signal_vec::{MutableVec, MutableVecLockMut, SignalVec, VecDiff};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// A real input and what it contains between two cycles.
pub enum Source {
    Sig(Mutable<u64>, u64),
    Chan(Sender<u64>, u64),
    Vec(MutableVec<u64>, Vec<u64>),
    Map(MutableBTreeMap<u64, u64>, BTreeMap<u64, u64>),
}

#[derive(Clone)]
enum Change {
    Set(u64),
    Vec(VecDiff<u64>),
    Map(MapDiff<u64, u64>),
}

impl Source {
    fn apply(&self, d: &Change) {
        match (self, d) {
            (Source::Sig(m, _), Change::Set(v)) => m.set(*v),
            (Source::Chan(s, _), Change::Set(v)) => {
                let _ = s.send(*v);
            }
            (Source::Vec(m, _), Change::Vec(d)) => MutableVecLockMut::apply_vec_diff(&mut m.lock_mut(), clone_diff(d)),
            (Source::Map(m, _), Change::Map(d)) => {
                let mut l = m.lock_mut();
                match d {
                    MapDiff::Replace { entries } => l.replace(entries.iter().copied().collect()),
                    MapDiff::Insert { key, value } | MapDiff::Update { key, value } => {
                        l.insert(*key, *value);
                    },
                    MapDiff::Remove { key } => {
                        l.remove(key);
                    },
                    MapDiff::Clear {} => l.clear(),
                }
            }
            _ => unreachable!(),
        }
    }

    /// Some changes, at the end of which it contains what it did before, and has told its consumers so.
    fn cycle(&self, c: &mut Choices) -> Vec<Change> {
        let n = c.u(5);
        match self {
            Source::Sig(_, v) | Source::Chan(_, v) => {
                let mut out: Vec<Change> = (0..n).map(|k| Change::Set(v + 1000 + 8 * k as u64 + c.below(8))).collect();
                out.push(Change::Set(*v));
                out
            }
            Source::Vec(_, v) => {
                let g = DiffGen::draw(c);
                let mut model = v.clone();
                let mut k = 0;
                let mut out: Vec<Change> = (0..n)
                    .map(|_| {
                        Change::Vec(g.next(c, &mut model, |c| {
                            k += 1;
                            50_000 + 8 * k + c.below(8)
                        }))
                    })
                    .collect();
                match c.u(3) {
                    0 => out.push(Change::Vec(VecDiff::Replace { values: v.clone() })),
                    1 => {
                        for i in (0..model.len()).rev() {
                            out.push(Change::Vec(VecDiff::RemoveAt { index: i }));
                        }
                        for (i, v) in v.iter().enumerate() {
                            out.push(Change::Vec(VecDiff::InsertAt { index: i, value: *v }));
                        }
                    }
                    _ => {
                        out.push(Change::Vec(VecDiff::Clear {}));
                        for v in v {
                            out.push(Change::Vec(VecDiff::Push { value: *v }));
                        }
                    }
                }
                // in any case a change
                out.push(Change::Vec(VecDiff::Push { value: 1 }));
                out.push(Change::Vec(VecDiff::Pop {}));
                out
            }
            Source::Map(_, v) => {
                let mut out: Vec<Change> = (0..n)
                    .map(|k| {
                        Change::Map(match c.u(6) {
                            0 => MapDiff::Clear {},
                            1 => MapDiff::Replace { entries: (0..c.below(4)).map(|k| (k, 70_000 + c.below(8))).collect() },
                            2 | 3 => MapDiff::Remove { key: c.below(6) },
                            _ => MapDiff::Insert { key: c.below(6), value: 60_000 + 8 * k as u64 + c.below(8) },
                        })
                    })
                    .collect();
                if c.pct(50) {
                    out.push(Change::Map(MapDiff::Replace { entries: v.iter().map(|(k, v)| (*k, *v)).collect() }));
                } else {
                    for k in 0..6 {
                        out.push(Change::Map(MapDiff::Remove { key: k }));
                    }
                    for (k, v) in v {
                        out.push(Change::Map(MapDiff::Insert { key: *k, value: *v }));
                    }
                }
                out.push(Change::Map(MapDiff::Insert { key: 77, value: 1 }));
                out.push(Change::Map(MapDiff::Remove { key: 77 }));
                out
            }
        }
    }
}

/// The blocks and bytes in use at the end of each cycle.
struct Watch {
    what: String,
    /// so many cycles to begin with, twice as many each time it seems to grow
    cycles: usize,
    stage: u32,
    /// the most at the end of one of the early cycles (then: of the last ones of the stage before)
    early: (usize, usize),
    /// the least, and the most, at the end of one of the last cycles
    late: Option<[(usize, usize); 2]>,
    at: usize,
}

/// The first cycles may still allocate what is then kept.
const WARM: usize = 3;

/// A buffer may at last reach its full size in a late cycle: what grows with the
/// history goes on growing.
const STAGES: u32 = 4;

impl Watch {
    fn draw(c: &mut Choices, what: String) -> Watch {
        let cycles = match c.weighted(&[90, 9, 1]) {
            0 => 48,
            1 => 96,
            _ => 400,
        };
        patience(100_000_000);
        Watch { what, cycles, stage: 0, early: (0, 0), late: None, at: 0 }
    }

    /// Called at the end of each cycle; whether there is to be another one.
    fn again(&mut self) -> bool {
        let (b, n) = memory();
        ev(b as u64);
        note(|| format!("cycle {}: {} blocks, {} bytes", self.at, b, n));
        let part = self.cycles / 4;
        if self.stage == 0 && self.at >= WARM && self.at < part {
            self.early = (self.early.0.max(b), self.early.1.max(n));
        } else if self.at >= self.cycles - part {
            let [(x, y), (u, v)] = self.late.unwrap_or([(usize::MAX, usize::MAX), (0, 0)]);
            self.late = Some([(x.min(b), y.min(n)), (u.max(b), v.max(n))]);
        }
        self.at += 1;
        if self.at < self.cycles {
            return true;
        }
        let (b0, n0) = self.early;
        let [(b1, n1), top] = self.late.unwrap();
        if b1 <= b0 + 3 && n1 <= n0 + 512 {
            return false;
        }
        probe("a longer look");
        check!(
            self.stage < STAGES,
            "growth",
            "{}: the same changes go on and on, but {} allocations of {} bytes are alive after {} cycles, {} of {} bytes some cycles before: they grow with the history",
            self.what,
            b1,
            n1,
            self.cycles,
            b0,
            n0
        );
        self.early = top;
        self.late = None;
        self.stage += 1;
        self.cycles *= 2;
        true
    }
}

pub fn cycles() {
    let c = choices();
    c.modest();
    let (tree, text, sources, keep) = plain(c);
    let mut d = Drive::draw(c, false);
    d.cancel_after = None;
    let task = match tree {
        Tree::Vec(mut s) => Task::spawn("task", d, move |cx| s.as_mut().poll_vec_change(cx), |_: Obs<VecDiff<u64>>, _, _| {}),
        Tree::Sig(mut s) => Task::spawn("task", d, move |cx| s.as_mut().poll_change(cx), |_: Obs<u64>, _, _| {}),
    };
    // The same changes in the same order, but at times of the scheduler's choice.
    let mut program: Vec<(usize, Change)> = vec![];
    let mut queues: Vec<(usize, std::collections::VecDeque<Change>)> = sources.iter().enumerate().map(|(i, s)| (i, s.cycle(c).into())).collect();
    while !queues.is_empty() {
        let k = c.u(queues.len());
        let n = c.range(1, 3);
        for _ in 0..n {
            if let Some(d) = queues[k].1.pop_front() {
                program.push((queues[k].0, d));
            }
        }
        if queues[k].1.is_empty() {
            queues.remove(k);
        }
    }
    let rests = c.pct(40);
    let mut pokes = if c.pct(30) { c.range(1, 3) } else { 0 };
    if c.pct(6) {
        // only polled again and again
        program.clear();
        pokes = 3;
    }
    let mut w = Watch::draw(c, format!("composition{}", text));
    quiesce();
    loop {
        for (k, d) in &program {
            between();
            note(|| format!("source {} changes", k));
            sources[*k].apply(d);
            if rests {
                quiesce();
            }
        }
        for _ in 0..pokes {
            if task.running() {
                fault("spurious-poll");
                kick(task.tid);
                if rests {
                    quiesce();
                }
                between();
            }
        }
        quiesce();
        if !w.again() {
            break;
        }
    }
    stop_all(std::slice::from_ref(&task));
    drop(sources);
    drop(keep);
    quiesce();
}

// -------------------------------------------------------------------- churn

type Consumer = Box<dyn FnMut(&mut Context<'_>) -> Poll<()>>;

fn sig<S: Signal + 'static>(s: S) -> Consumer {
    let mut s = Box::pin(s);
    Box::new(move |cx| s.as_mut().poll_change(cx).map(|_| ()))
}

/// Something which consumers can subscribe to, and which can change.
#[derive(Clone)]
enum Hub {
    Mutable(Mutable<u64>),
    Broadcast(Mutable<u64>, Broadcaster<Pin<Box<dyn Signal<Item = u64>>>>),
    Vec(MutableVec<u64>, u64),
    Map(MutableBTreeMap<u64, u64>, u64),
}

impl Hub {
    fn draw(c: &mut Choices) -> Hub {
        match c.u(4) {
            0 => Hub::Mutable(Mutable::new(0)),
            1 => {
                let m = Mutable::new(0);
                let s: Pin<Box<dyn Signal<Item = u64>>> = Box::pin(m.signal());
                Hub::Broadcast(m, Broadcaster::new(s))
            }
            // the kind of changes: 0 for all of them
            2 => Hub::Vec(MutableVec::new_with_values(vec![1, 2]), c.below(13)),
            _ => Hub::Map(MutableBTreeMap::with_values(BTreeMap::from([(1, 1)])), c.below(7)),
        }
    }

    fn name(&self) -> &'static str {
        match self {
            Hub::Mutable(_) => "Mutable",
            Hub::Broadcast(..) => "Broadcaster",
            Hub::Vec(..) => "MutableVec",
            Hub::Map(..) => "MutableBTreeMap",
        }
    }

    fn change(&self, k: u64) {
        match self {
            Hub::Mutable(m) | Hub::Broadcast(m, _) => match k % 4 {
                0 => m.set_neq(k / 8),
                1 => {
                    m.replace(k);
                }
                2 => m.lock_mut().add_assign(k),
                _ => m.set(k),
            },
            Hub::Vec(m, kind) => {
                let mut l = m.lock_mut();
                match if *kind == 0 { 1 + k % 12 } else { *kind } {
                    1 => l.set(0, k),
                    2 => l.replace(vec![k, 2]),
                    3 => l.swap(0, 1),
                    4 => {
                        l.push(k);
                        let _ = l.pop();
                    }
                    5 => {
                        l.insert(0, k);
                        l.remove(0);
                    }
                    6 => {
                        l.push(k);
                        l.retain(|v| *v != k);
                        l.replace(vec![1, 2]);
                    }
                    7 => l.move_from_to(0, 1),
                    9 => l.set_cloned(0, k),
                    10 => l.replace_cloned(vec![k, 2]),
                    11 => {
                        l.push_cloned(k);
                        let _ = l.pop();
                    }
                    12 => {
                        l.insert_cloned(0, k);
                        l.remove(0);
                    }
                    _ => {
                        l.clear();
                        l.push(k);
                        l.push(k);
                    }
                }
            }
            Hub::Map(m, kind) => {
                let mut l = m.lock_mut();
                match if *kind == 0 { 1 + k % 6 } else { *kind } {
                    1 => {
                        l.insert(1, k);
                    }
                    2 => l.replace(BTreeMap::from([(1, k)])),
                    3 => {
                        l.insert(7, k);
                        l.remove(&7);
                    }
                    4 => {
                        l.insert_cloned(1, k);
                    }
                    5 => l.replace_cloned(BTreeMap::from([(1, k)])),
                    _ => {
                        l.clear();
                        l.insert(1, k);
                    }
                }
            }
        }
    }

    /// At least one change.
    fn touch(&self) {
        match self {
            Hub::Mutable(m) | Hub::Broadcast(m, _) => m.set(0),
            _ => self.change(1000),
        }
    }

    fn subscribe(&self, k: usize) -> Consumer {
        match self {
            Hub::Mutable(m) => match k % 4 {
                0 => sig(m.signal()),
                1 => sig(m.signal_cloned()),
                2 => sig(m.read_only().signal()),
                _ => sig(m.signal_ref(|v| *v).dedupe()),
            },
            Hub::Broadcast(_, b) => match k % 4 {
                0 => sig(b.signal()),
                1 => sig(b.signal_cloned()),
                2 => sig(b.clone().signal_ref(|v| *v)),
                _ => sig(b.signal()),
            },
            Hub::Vec(m, _) => {
                let mut s = Box::pin(if k % 2 == 0 { m.signal_vec() } else { m.signal_vec_cloned() });
                Box::new(move |cx| s.as_mut().poll_vec_change(cx).map(|_| ()))
            }
            Hub::Map(m, _) => match k % 3 {
                0 => {
                    let mut s = Box::pin(if k % 2 == 0 { m.signal_map() } else { m.signal_map_cloned() });
                    Box::new(move |cx| s.as_mut().poll_map_change(cx).map(|_| ()))
                }
                1 => {
                    let mut s = Box::pin(m.signal_vec_keys());
                    Box::new(move |cx| s.as_mut().poll_vec_change(cx).map(|_| ()))
                }
                _ => {
                    let mut s = Box::pin(m.entries_cloned());
                    Box::new(move |cx| s.as_mut().poll_vec_change(cx).map(|_| ()))
                }
            },
        }
    }
}

trait AddAssign {
    fn add_assign(self, k: u64);
}

impl AddAssign for futures_signals::signal::MutableLockMut<'_, u64> {
    fn add_assign(mut self, k: u64) {
        *self = self.wrapping_add(k);
    }
}

fn poll_once(s: &mut Consumer) -> bool {
    clear_woken();
    let w = new_waker();
    s(&mut Context::from_waker(&w)).is_ready()
}

fn drain(s: &mut Consumer) {
    for _ in 0..1000 {
        if !poll_once(s) {
            return;
        }
    }
}

/// A thread which does something again and again, whenever it is told to.
struct Worker {
    tid: Tid,
    go: Rc<Cell<Phase>>,
}

#[derive(Clone, Copy, PartialEq)]
enum Phase {
    Wait,
    Work,
    Rest,
    Stop,
}

impl Worker {
    fn spawn(name: &str, mut f: impl FnMut(Phase) + 'static) -> Worker {
        let go = Rc::new(Cell::new(Phase::Wait));
        let g2 = go.clone();
        let tid = spawn(name, move || loop {
            match g2.replace(Phase::Wait) {
                // (may also be woken by a consumer which it does not poll now)
                Phase::Wait => park(),
                Phase::Stop => break,
                p => f(p),
            }
        });
        Worker { tid, go }
    }

    fn tell(&self, p: Phase) {
        self.go.set(p);
        kick(self.tid);
    }
}

pub fn churn() {
    let c = choices();
    match c.weighted(&[8, 1, 1]) {
        0 => churn_hub(c),
        1 => churn_channel(c),
        _ => churn_cancel(c),
    }
}

fn rounds(mut w: Watch, workers: Vec<Worker>, mut flush: impl FnMut()) {
    quiesce();
    loop {
        for t in &workers {
            t.tell(Phase::Work);
        }
        quiesce();
        flush();
        for t in &workers {
            t.tell(Phase::Rest);
        }
        quiesce();
        if !w.again() {
            break;
        }
    }
    for t in &workers {
        t.tell(Phase::Stop);
    }
    quiesce();
}

fn churn_hub(c: &mut Choices) {
    let hub = Hub::draw(c);
    let mut workers = vec![];
    for _ in 0..c.range(1, 2) {
        let h = hub.clone();
        let plan: Vec<(usize, usize)> = (0..c.range(1, 3)).map(|_| (c.u(12), c.u(4))).collect();
        let keeps = c.u(2);
        let mut kept: Vec<Consumer> = vec![];
        workers.push(Worker::spawn("churner", move |p| {
            if p == Phase::Rest {
                for s in kept.iter_mut() {
                    drain(s);
                }
                return;
            }
            for &(kind, polls) in &plan {
                between();
                let mut s = h.subscribe(kind);
                for _ in 0..polls {
                    between();
                    poll_once(&mut s);
                }
                between();
                kept.push(s);
                while kept.len() > keeps {
                    let old = kept.remove(0);
                    drop(old);
                }
            }
        }));
    }
    let h = hub.clone();
    let plan: Vec<u64> = (0..c.u(4)).map(|_| c.below(64)).collect();
    workers.push(Worker::spawn("writer", move |p| {
            if p == Phase::Rest {
                return;
            }
        for &k in &plan {
            between();
            h.change(k);
        }
    }));
    let what = format!("{} whose consumers come and go", hub.name());
    let w = Watch::draw(c, what);
    let mut own = hub.subscribe(c.u(12));
    rounds(w, workers, || {
        drain(&mut own);
        hub.touch();
        drain(&mut own);
    });
}

fn churn_channel(c: &mut Choices) {
    let (sender, receiver) = channel(vec![0u64]);
    let mut workers = vec![];
    for _ in 0..c.range(1, 2) {
        let s = sender.clone();
        let n = c.range(1, 3);
        let clones = c.pct(50);
        workers.push(Worker::spawn("sender", move |p| {
            if p == Phase::Rest {
                return;
            }
            for k in 0..n {
                between();
                if clones {
                    let s = s.clone();
                    let _ = s.send(vec![k as u64]);
                } else {
                    let _ = s.send(vec![k as u64]);
                }
            }
        }));
    }
    let polls = c.u(3);
    let mut s = sig(receiver);
    workers.push(Worker::spawn("receiver", move |p| {
            if p == Phase::Rest {
                return;
            }
        for _ in 0..polls {
            between();
            poll_once(&mut s);
        }
    }));
    let w = Watch::draw(c, "channel whose values are replaced".into());
    rounds(w, workers, || {});
    drop(sender);
}

fn churn_cancel(c: &mut Choices) {
    let polled = Rc::new(Cell::new(0u64));
    let p2 = polled.clone();
    let (handle, future) = cancelable_future(
        poll_fn(move |_| {
            p2.set(p2.get() + 1);
            Poll::<()>::Pending
        }),
        || (),
    );
    let mut future = Box::pin(future);
    let n = c.range(1, 4);
    let worker = Worker::spawn("task", move |p| {
            if p == Phase::Rest {
                return;
            }
        for _ in 0..n {
            between();
            clear_woken();
            let w = new_waker();
            let _ = future.as_mut().poll(&mut Context::from_waker(&w));
        }
    });
    let w = Watch::draw(c, "cancelable future which is polled again and again".into());
    rounds(w, vec![worker], || {});
    drop(handle);
}
