//! Inputs and watchers shared by the combinator scenarios.
//!
//! An input is fed by producer threads and read by the combinator under test. Scripted
//! inputs know what they have delivered, so that the output can be judged whenever its
//! task comes to rest; real inputs (MutableVec, Mutable, channel) are judged at quiescence.

use crate::check;
use crate::engine::*;
use crate::kit::*;
use futures_signals::signal::{channel, Mutable, Sender, Signal};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, SignalMap};
use futures_signals::signal_vec::{MutableVec, MutableVecLockMut, SignalVec, VecDiff};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type Action = Box<dyn FnOnce()>;

pub trait Input {
    /// Plans the next change.
    fn step(&mut self, c: &mut Choices) -> Action;
    fn end(&mut self) -> Action;
    fn ended(&self) -> bool;
    /// Makes one more change right now, outside of the plan.
    fn poke(&self) {}
    /// Asked when a poll begins. The result tells whether its reader has asked it
    /// for all the changes which were complete at that time.
    fn mark(&self) -> Option<Box<dyn Fn() -> bool>> {
        None
    }
    /// How much it has handed out.
    fn items(&self) -> u64 {
        0
    }
}

/// Values `unique * 8 + key`: the key gives ties, the rest identity.
#[derive(Clone)]
pub struct Values(Rc<Cell<u64>>);

impl Values {
    pub fn new() -> Values {
        Values(Rc::new(Cell::new(0)))
    }

    pub fn next(&self, c: &mut Choices) -> u64 {
        self.0.set(self.0.get() + 1);
        self.0.get() * 8 + c.below(5)
    }
}

pub fn key(v: u64) -> u64 {
    v % 8
}

// --------------------------------------------------------------------- taps

/// What a combinator has been told by one of its inputs.
pub struct Told<S> {
    pub state: S,
    pub ended: bool,
    pub dropped: bool,
    pub name: &'static str,
    /// how much was handed out
    pub items: u64,
    /// changes which were made completely
    done: u64,
    /// how many of them had been made when it was last polled
    seen: u64,
    busy: bool,
}

pub type ToldRef<S> = Shared<Told<S>>;

fn told<S>(name: &'static str, state: S) -> ToldRef<S> {
    shared(Told { state, ended: false, dropped: false, name, items: 0, done: 0, seen: 0, busy: false })
}

/// Sits between an input and the combinator: records what goes through, and checks
/// that the combinator keeps to the rules.
pub struct Tap<I, S> {
    inner: I,
    told: ToldRef<S>,
}

impl<I, S> Unpin for Tap<I, S> {}

impl<I, S> Drop for Tap<I, S> {
    fn drop(&mut self) {
        self.told.borrow_mut().dropped = true;
    }
}

impl<I, S> Tap<I, S> {
    fn enter(&self) {
        let mut t = self.told.borrow_mut();
        let n = t.name;
        if t.ended {
            drop(t);
            fail("polled-after-end", format!("input {} was polled again after it had ended", n));
        }
        if t.busy {
            drop(t);
            fail("concurrent-poll", format!("input {} is polled by two threads at once", n));
        }
        t.busy = true;
        t.seen = t.done;
    }

    fn leave<T>(&self, p: &Poll<Option<T>>) {
        let mut t = self.told.borrow_mut();
        t.busy = false;
        t.ended = matches!(p, Poll::Ready(None));
        t.items += matches!(p, Poll::Ready(Some(_))) as u64;
    }
}

#[derive(Default)]
pub struct VecTold {
    pub now: Vec<u64>,
    /// every value which was handed out, in order
    pub seen: Vec<u64>,
    /// the values which were replaced by an UpdateAt
    pub updated: Vec<u64>,
}

impl<I: SignalVec<Item = u64> + Unpin> SignalVec for Tap<I, VecTold> {
    type Item = u64;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<VecDiff<u64>>> {
        self.enter();
        let r = Pin::new(&mut self.inner).poll_vec_change(cx);
        self.leave(&r);
        if let Poll::Ready(Some(d)) = &r {
            let t = &mut self.told.borrow_mut().state;
            match d {
                VecDiff::Replace { values } => t.seen.extend(values.iter().copied()),
                VecDiff::UpdateAt { value, index } => {
                    t.seen.push(*value);
                    if let Some(old) = t.now.get(*index) {
                        t.updated.push(*old);
                    }
                }
                VecDiff::InsertAt { value, .. } | VecDiff::Push { value } => t.seen.push(*value),
                _ => {}
            }
            apply_vec(&mut t.now, clone_diff(d), "input");
        }
        r
    }
}

impl<T: Copy + Debug, I: Signal<Item = T> + Unpin> Signal for Tap<I, Vec<T>> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        self.enter();
        let r = Pin::new(&mut self.inner).poll_change(cx);
        self.leave(&r);
        if let Poll::Ready(Some(v)) = &r {
            note(|| format!("{} tells {:?}", self.told.borrow().name, v));
            self.told.borrow_mut().state.push(*v);
        }
        r
    }
}

#[derive(Default)]
pub struct MapTold {
    pub now: BTreeMap<u64, u64>,
    pub seen: Vec<u64>,
}

impl<I: SignalMap<Key = u64, Value = u64> + Unpin> SignalMap for Tap<I, MapTold> {
    type Key = u64;
    type Value = u64;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<MapDiff<u64, u64>>> {
        self.enter();
        let r = Pin::new(&mut self.inner).poll_map_change(cx);
        self.leave(&r);
        if let Poll::Ready(Some(d)) = &r {
            let t = &mut self.told.borrow_mut().state;
            match d {
                MapDiff::Replace { entries } => t.seen.extend(entries.iter().map(|e| e.1)),
                MapDiff::Insert { value, .. } | MapDiff::Update { value, .. } => t.seen.push(*value),
                _ => {}
            }
            apply_map(&mut t.now, clone_map_diff(d), "input");
        }
        r
    }
}

// ------------------------------------------------------------------ vectors

enum VFeed {
    Script(SrcRef<VecDiff<u64>>),
    Mutable(Rc<RefCell<Option<MutableVec<u64>>>>),
}

pub struct VecIn {
    pub plan: Vec<u64>,
    pub told: ToldRef<VecTold>,
    feed: VFeed,
    gen: DiffGen,
    ended: bool,
    mk: Rc<dyn Fn(&mut Choices) -> u64>,
}

pub type VecInRef = Shared<VecIn>;

impl VecIn {
    /// `real`: percentage of inputs which are a real MutableVec.
    pub fn draw(c: &mut Choices, name: &'static str, real: u64, mk: Rc<dyn Fn(&mut Choices) -> u64>) -> (VecInRef, DynVec<u64>) {
        let gen = DiffGen::draw(c);
        let told = told(name, VecTold::default());
        let mut v: (VecIn, DynVec<u64>) = if c.pct(real) {
            let n = c.many(4);
            let init: Vec<u64> = (0..n).map(|_| mk(c)).collect();
            let m = MutableVec::new_with_values(init.clone());
            let out: DynVec<u64> = if c.pct(50) { Box::pin(m.signal_vec()) } else { Box::pin(m.signal_vec_cloned()) };
            (
                VecIn {
                    plan: init,
                    told: told.clone(),
                    feed: VFeed::Mutable(Rc::new(RefCell::new(Some(m)))),
                    gen,
                    ended: false,
                    mk,
                },
                out,
            )
        } else {
            let s = src(name);
            s.borrow_mut().stutter = draw_stutter(c, 25);
            let out: DynVec<u64> = Box::pin(VecSrc { s: s.clone(), state: shared(vec![]), seen: shared(vec![]) });
            (
                VecIn {
                    plan: vec![],
                    told: told.clone(),
                    feed: VFeed::Script(s),
                    gen,
                    ended: false,
                    mk,
                },
                out,
            )
        };
        for _ in 0..c.u(4) {
            (v.0.step(c))();
        }
        (shared(v.0), Box::pin(Tap { inner: v.1, told }))
    }

    /// What the combinator has been told of this input.
    /// A dropped reader of a MutableVec is only noticed at its next change.
    pub fn keeps_wakers(&self) -> bool {
        matches!(self.feed, VFeed::Mutable(_))
    }

    pub fn known(&self) -> Vec<u64> {
        self.told.borrow().state.now.clone()
    }

    pub fn dropped(&self) -> bool {
        self.told.borrow().dropped
    }
}

impl Input for VecIn {
    fn items(&self) -> u64 {
        self.told.borrow().items
    }

    fn step(&mut self, c: &mut Choices) -> Action {
        if self.ended {
            return Box::new(|| {});
        }
        let mk = self.mk.clone();
        match &self.feed {
            VFeed::Script(s) => {
                let d = self.gen.next(c, &mut self.plan, |c| mk(c));
                probe(diff_name(&d));
                let s = s.clone();
                Box::new(move || push(&s, d))
            }
            VFeed::Mutable(m) => {
                let m = m.clone();
                let n = self.plan.len();
                let op = if n > 0 { c.weighted(&[12, 1, 1, 1, 1, 1]) } else { 0 };
                let (i, j) = if n > 0 { (c.u(n), c.u(n)) } else { (0, 0) };
                let mut diffs = vec![];
                match op {
                    0 => {
                        for _ in 0..c.range(1, 2) {
                            diffs.push(self.gen.next(c, &mut self.plan, |c| mk(c)));
                        }
                    }
                    1 => self.plan.swap(i, j),
                    2 => self.plan.reverse(),
                    3 => self.plan.retain(|v| key(*v) < 3),
                    4 => self.plan.truncate(i),
                    _ => {
                        self.plan.drain(i.min(j)..i.max(j));
                    }
                }
                Box::new(move || {
                    let m = m.borrow().clone();
                    if let Some(m) = m {
                        let mut l = m.lock_mut();
                        match op {
                            0 => {
                                for d in diffs {
                                    MutableVecLockMut::apply_vec_diff(&mut l, d);
                                }
                            }
                            1 => l.swap(i, j),
                            2 => l.reverse(),
                            3 => l.retain(|v| key(*v) < 3),
                            4 => l.truncate(i),
                            _ => {
                                l.drain(i.min(j)..i.max(j));
                            }
                        }
                        note(|| format!("MutableVec is now {:?}", l.as_slice()));
                    }
                })
            }
        }
    }

    fn end(&mut self) -> Action {
        self.ended = true;
        match &self.feed {
            VFeed::Script(s) => {
                let s = s.clone();
                Box::new(move || close(&s))
            }
            VFeed::Mutable(m) => {
                let m = m.clone();
                Box::new(move || {
                    note(|| "drops the MutableVec".into());
                    let m = m.borrow_mut().take();
                    drop(m);
                })
            }
        }
    }

    fn poke(&self) {
        if let VFeed::Mutable(m) = &self.feed {
            if let Some(m) = &*m.borrow() {
                m.lock_mut().push(0);
            }
        }
    }

    fn ended(&self) -> bool {
        self.ended
    }
}

/// Harness-side map over a SignalVec (so that nested inputs do not depend on the library's own).
pub struct Adapt<S, F> {
    pub s: S,
    pub f: F,
}

impl<S, F> Unpin for Adapt<S, F> {}

impl<T, S: SignalVec + Unpin, F: FnMut(S::Item) -> T> SignalVec for Adapt<S, F> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<VecDiff<T>>> {
        let this = &mut *self;
        let f = &mut this.f;
        Pin::new(&mut this.s).poll_vec_change(cx).map(|o| {
            o.map(|d| match d {
                VecDiff::Replace { values } => VecDiff::Replace { values: values.into_iter().map(f).collect() },
                VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index, value: f(value) },
                VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index, value: f(value) },
                VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index },
                VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index, new_index },
                VecDiff::Push { value } => VecDiff::Push { value: f(value) },
                VecDiff::Pop {} => VecDiff::Pop {},
                VecDiff::Clear {} => VecDiff::Clear {},
            })
        })
    }
}

// ------------------------------------------------------------------- signals

enum SFeed<T> {
    Script(SrcRef<T>),
    Mutable(Rc<RefCell<Option<Mutable<T>>>>),
    Channel(Rc<RefCell<Option<Sender<T>>>>),
}

pub struct SigIn<T> {
    /// the value the input will have once all planned changes are done
    pub plan: Option<T>,
    /// everything which was handed out
    pub told: ToldRef<Vec<T>>,
    /// whether every planned value must be handed out, or some may be skipped
    pub exact: bool,
    /// everything which was planned
    pub sent: Vec<T>,
    feed: SFeed<T>,
    ended: bool,
    mk: Rc<dyn Fn(&mut Choices) -> T>,
}

pub type SigInRef<T> = Shared<SigIn<T>>;

#[derive(Clone, Copy)]
pub struct SigOpts {
    /// percentage of inputs which are a real Mutable or channel
    pub real: u64,
    /// must have a value at once
    pub firm: bool,
    /// percentage of scripted inputs which skip values nobody asked for
    pub coalesce: u64,
}

impl<T: Copy + Debug + 'static> SigIn<T> {
    pub fn draw(c: &mut Choices, name: &'static str, o: SigOpts, mk: Rc<dyn Fn(&mut Choices) -> T>) -> (SigInRef<T>, DynSignal<T>) {
        let init = mk(c);
        let told = told(name, vec![]);
        let (i, out): (SigIn<T>, DynSignal<T>) = if c.pct(o.real) {
            let (feed, out): (SFeed<T>, DynSignal<T>) = if c.pct(30) {
                let (s, r) = channel(init);
                (SFeed::Channel(Rc::new(RefCell::new(Some(s)))), Box::pin(r))
            } else {
                let m = Mutable::new(init);
                let s = m.signal();
                (SFeed::Mutable(Rc::new(RefCell::new(Some(m)))), Box::pin(s))
            };
            let i = SigIn { plan: Some(init), told: told.clone(), exact: false, sent: vec![init], feed, ended: false, mk };
            (i, out)
        } else {
            let skips = c.pct(o.coalesce);
            let s = if skips { src_coalescing(name) } else { src(name) };
            s.borrow_mut().firm = o.firm;
            s.borrow_mut().stutter = draw_stutter(c, 25);
            let empty = !o.firm && c.pct(20);
            if !empty {
                push(&s, init);
            }
            let out = SignalSrc { s: s.clone() };
            let i = SigIn {
                plan: if empty { None } else { Some(init) },
                told: told.clone(),
                exact: !skips,
                sent: if empty { vec![] } else { vec![init] },
                feed: SFeed::Script(s),
                ended: false,
                mk,
            };
            (i, Box::pin(out))
        };
        (shared(i), Box::pin(Tap { inner: out, told }))
    }

    /// The last value which the combinator got.
    pub fn known(&self) -> Option<T> {
        self.told.borrow().state.last().copied()
    }

    pub fn log(&self) -> Vec<T> {
        self.told.borrow().state.clone()
    }

    pub fn dropped(&self) -> bool {
        self.told.borrow().dropped
    }

    /// True when its reader knows that it has ended.
    pub fn told_end(&self) -> bool {
        self.told.borrow().ended
    }

    pub fn set(&mut self, v: T) -> Action {
        if self.ended {
            return Box::new(|| {});
        }
        self.plan = Some(v);
        self.sent.push(v);
        let told = self.told.clone();
        let f: Action = match &self.feed {
            SFeed::Script(s) => {
                let s = s.clone();
                Box::new(move || push(&s, v))
            }
            SFeed::Mutable(m) => {
                let m = m.clone();
                Box::new(move || {
                    let m = m.borrow().clone();
                    if let Some(m) = m {
                        note(|| format!("Mutable <- {:?}", v));
                        m.set(v);
                    }
                })
            }
            SFeed::Channel(m) => {
                let m = m.clone();
                Box::new(move || {
                    let m = m.borrow().clone();
                    if let Some(m) = m {
                        note(|| format!("channel <- {:?}", v));
                        let _ = m.send(v);
                    }
                })
            }
        };
        Box::new(move || {
            f();
            told.borrow_mut().done += 1;
        })
    }
}

impl<T: Copy + Debug + 'static> Input for SigIn<T> {
    fn step(&mut self, c: &mut Choices) -> Action {
        if self.ended {
            return Box::new(|| {});
        }
        let v = (self.mk)(c);
        self.set(v)
    }

    fn end(&mut self) -> Action {
        self.ended = true;
        match &self.feed {
            SFeed::Script(s) => {
                let s = s.clone();
                Box::new(move || close(&s))
            }
            SFeed::Mutable(m) => {
                let m = m.clone();
                Box::new(move || {
                    note(|| "drops the Mutable".into());
                    let m = m.borrow_mut().take();
                    drop(m);
                })
            }
            SFeed::Channel(m) => {
                let m = m.clone();
                Box::new(move || {
                    note(|| "drops the Sender".into());
                    let m = m.borrow_mut().take();
                    drop(m);
                })
            }
        }
    }

    fn ended(&self) -> bool {
        self.ended
    }

    fn mark(&self) -> Option<Box<dyn Fn() -> bool>> {
        let told = self.told.clone();
        let n = told.borrow().done;
        Some(Box::new(move || {
            let t = told.borrow();
            t.ended || t.dropped || t.seen >= n
        }))
    }

    fn items(&self) -> u64 {
        self.told.borrow().items
    }
}

impl<T: Copy + Debug + 'static> SigIn<T> {
    /// A scripted input which is always ready when it has something.
    pub fn calm(&self) {
        if let SFeed::Script(s) = &self.feed {
            s.borrow_mut().stutter = 0;
        }
    }

    /// How many of the `sent` values were really sent so far (scripted inputs).
    pub fn pushed(&self) -> Option<usize> {
        match &self.feed {
            SFeed::Script(s) => Some(s.borrow().pushed as usize),
            _ => None,
        }
    }
}

/// Harness-side map over a Signal.
pub struct SigAdapt<S, F> {
    pub s: S,
    pub f: F,
}

impl<S, F> Unpin for SigAdapt<S, F> {}

impl<T, S: Signal + Unpin, F: FnMut(S::Item) -> T> Signal for SigAdapt<S, F> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let this = &mut *self;
        let f = &mut this.f;
        Pin::new(&mut this.s).poll_change(cx).map(|o| o.map(f))
    }
}

/// Skips repeated values: a Mutable which changes during a poll may yield its value twice.
pub struct Distinct<S> {
    pub s: S,
    pub last: Option<u64>,
}

impl<S: Signal<Item = u64> + Unpin> Signal for Distinct<S> {
    type Item = u64;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        loop {
            match Pin::new(&mut self.s).poll_change(cx) {
                Poll::Ready(Some(v)) if self.last == Some(v) => continue,
                Poll::Ready(Some(v)) => {
                    self.last = Some(v);
                    return Poll::Ready(Some(v));
                }
                x => return x,
            }
        }
    }
}

/// A Signal seen as a Stream.
pub struct AsStream<S>(pub S);

impl<S: Signal + Unpin> futures_core::Stream for AsStream<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        Pin::new(&mut self.0).poll_change(cx)
    }
}

/// A Stream seen as a Signal (so that it can be watched).
pub struct FromStreamOut<S>(pub S);

impl<S: futures_core::Stream + Unpin> Signal for FromStreamOut<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        Pin::new(&mut self.0).poll_next(cx)
    }
}

/// A Future seen as a Signal: its output, then the end.
pub struct FutureOut<F>(pub Option<Pin<Box<F>>>);

impl<F> Unpin for FutureOut<F> {}

impl<F: std::future::Future> Signal for FutureOut<F> {
    type Item = F::Output;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<F::Output>> {
        match self.0.as_mut() {
            None => Poll::Ready(None),
            Some(f) => match f.as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(v) => {
                    self.0 = None;
                    Poll::Ready(Some(v))
                }
            },
        }
    }
}

// ------------------------------------------------------------------- futures

/// The futures which closures of a combinator return, completed by a producer.
pub struct FutPool {
    pub all: Vec<FutRef<u64>>,
    pub tags: Vec<u64>,
    closed: bool,
    /// bit k: the k-th future is complete from the start
    instant: u64,
}

pub type FutPoolRef = Shared<FutPool>;

impl FutPool {
    pub fn draw(c: &mut Choices) -> FutPoolRef {
        let instant = if c.pct(50) { c.below(1 << 8) } else { 0 };
        shared(FutPool { all: vec![], tags: vec![], closed: false, instant })
    }

    /// A new future, whose output will be `tag`.
    pub fn make(&mut self, tag: u64) -> SimFuture<u64> {
        let f = fut();
        let k = self.all.len();
        if self.closed || (k < 60 && (self.instant >> k) & 1 == 1) {
            probe("future-ready-at-once");
            f.borrow_mut().value = Some(tag);
        }
        self.all.push(f.clone());
        self.tags.push(tag);
        SimFuture(f)
    }

    pub fn open(f: &FutRef<u64>) -> bool {
        let f = f.borrow();
        !f.done && f.value.is_none()
    }

    /// Whether somebody still waits for one.
    pub fn waiting(&self) -> bool {
        self.all.iter().any(|f| Self::open(f) && !f.borrow().dropped)
    }
}

fn complete_one(p: &FutPoolRef, k: usize) {
    let (f, tag) = {
        let p = p.borrow();
        (p.all[k].clone(), p.tags[k])
    };
    note(|| format!("future {} completes with {}", k, tag));
    fault("future-completes");
    complete(&f, tag);
}

/// What feeds the futures (the pool itself is shared with the closures).
pub struct FutFeed(pub FutPoolRef);

impl Input for FutFeed {
    fn step(&mut self, c: &mut Choices) -> Action {
        let p = self.0.clone();
        let r = c.below(1000) as usize;
        let newest = c.pct(60);
        Box::new(move || {
            let open: Vec<usize> = {
                let p = p.borrow();
                (0..p.all.len()).filter(|k| FutPool::open(&p.all[*k])).collect()
            };
            if open.is_empty() {
                return;
            }
            let k = if newest { *open.last().unwrap() } else { open[r % open.len()] };
            complete_one(&p, k);
        })
    }

    fn end(&mut self) -> Action {
        let p = self.0.clone();
        Box::new(move || {
            p.borrow_mut().closed = true;
            let n = p.borrow().all.len();
            for k in 0..n {
                if FutPool::open(&p.borrow().all[k]) {
                    complete_one(&p, k);
                    pause();
                }
            }
        })
    }

    fn ended(&self) -> bool {
        let p = self.0.borrow();
        p.closed
    }
}

// ---------------------------------------------------------------------- maps

enum MFeed {
    Script(SrcRef<MapDiff<u64, u64>>),
    Mutable(Rc<RefCell<Option<MutableBTreeMap<u64, u64>>>>),
}

/// Keys 0..6, values from `mk`.
pub struct MapIn {
    pub plan: BTreeMap<u64, u64>,
    pub told: ToldRef<MapTold>,
    feed: MFeed,
    weights: [u32; 5],
    ended: bool,
    mk: Rc<dyn Fn(&mut Choices) -> u64>,
}

pub type MapInRef = Shared<MapIn>;

impl MapIn {
    pub fn draw(c: &mut Choices, name: &'static str, real: u64, mk: Rc<dyn Fn(&mut Choices) -> u64>) -> (MapInRef, DynMap<u64, u64>) {
        let mut weights = [6, 5, 4, 1, 1];
        if c.pct(40) {
            for w in weights.iter_mut() {
                if c.pct(30) {
                    *w *= 4;
                }
            }
        }
        let told = told(name, MapTold::default());
        let (mut i, out): (MapIn, DynMap<u64, u64>) = if c.pct(real) {
            let n = c.many(4);
            let init: BTreeMap<u64, u64> = (0..n).map(|_| (c.many(6) as u64, mk(c))).collect();
            let m = MutableBTreeMap::with_values(init.clone());
            let out: DynMap<u64, u64> = if c.pct(50) { Box::pin(m.signal_map()) } else { Box::pin(m.signal_map_cloned()) };
            (
                MapIn {
                    plan: init,
                    told: told.clone(),
                    feed: MFeed::Mutable(Rc::new(RefCell::new(Some(m)))),
                    weights,
                    ended: false,
                    mk,
                },
                out,
            )
        } else {
            let s = src(name);
            s.borrow_mut().stutter = draw_stutter(c, 25);
            (
                MapIn {
                    plan: BTreeMap::new(),
                    told: told.clone(),
                    feed: MFeed::Script(s.clone()),
                    weights,
                    ended: false,
                    mk,
                },
                Box::pin(MapSrc { s, state: shared(BTreeMap::new()), seen: shared(vec![]) }),
            )
        };
        for _ in 0..c.u(4) {
            (i.step(c))();
        }
        (shared(i), Box::pin(Tap { inner: out, told }))
    }

    pub fn keeps_wakers(&self) -> bool {
        matches!(self.feed, MFeed::Mutable(_))
    }

    pub fn known(&self) -> BTreeMap<u64, u64> {
        self.told.borrow().state.now.clone()
    }

    pub fn dropped(&self) -> bool {
        self.told.borrow().dropped
    }
}

impl Input for MapIn {
    fn step(&mut self, c: &mut Choices) -> Action {
        if self.ended {
            return Box::new(|| {});
        }
        let k = c.many(6) as u64;
        let d = match c.weighted(&self.weights) {
            0 | 1 => {
                let v = (self.mk)(c);
                if self.plan.contains_key(&k) {
                    MapDiff::Update { key: k, value: v }
                } else {
                    MapDiff::Insert { key: k, value: v }
                }
            }
            2 => {
                if self.plan.is_empty() {
                    let v = (self.mk)(c);
                    MapDiff::Insert { key: k, value: v }
                } else {
                    let keys: Vec<u64> = self.plan.keys().copied().collect();
                    MapDiff::Remove { key: keys[c.u(keys.len())] }
                }
            }
            3 => {
                let n = c.many(4);
                let m: BTreeMap<u64, u64> = (0..n).map(|_| (c.many(6) as u64, (self.mk)(c))).collect();
                MapDiff::Replace { entries: m.into_iter().collect() }
            }
            _ => MapDiff::Clear {},
        };
        apply_map(&mut self.plan, clone_map_diff(&d), "generator");
        match &self.feed {
            MFeed::Script(s) => {
                let s = s.clone();
                Box::new(move || push(&s, d))
            }
            MFeed::Mutable(m) => {
                let m = m.clone();
                let cloned = c.pct(50);
                Box::new(move || {
                    let m = m.borrow().clone();
                    if let Some(m) = m {
                        let mut l = m.lock_mut();
                        match d {
                            MapDiff::Replace { entries } => {
                                let e = entries.into_iter().collect();
                                if cloned {
                                    l.replace_cloned(e)
                                } else {
                                    l.replace(e)
                                }
                            }
                            MapDiff::Insert { key, value } | MapDiff::Update { key, value } => {
                                if cloned {
                                    l.insert_cloned(key, value);
                                } else {
                                    l.insert(key, value);
                                }
                            }
                            MapDiff::Remove { key } => {
                                l.remove(&key);
                            }
                            MapDiff::Clear {} => l.clear(),
                        }
                        note(|| format!("MutableBTreeMap is now {:?}", &*l));
                    }
                })
            }
        }
    }

    fn end(&mut self) -> Action {
        self.ended = true;
        match &self.feed {
            MFeed::Script(s) => {
                let s = s.clone();
                Box::new(move || close(&s))
            }
            MFeed::Mutable(m) => {
                let m = m.clone();
                Box::new(move || {
                    let m = m.borrow_mut().take();
                    drop(m);
                })
            }
        }
    }

    fn poke(&self) {
        if let MFeed::Mutable(m) = &self.feed {
            if let Some(m) = &*m.borrow() {
                m.lock_mut().insert(99, 0);
            }
        }
    }

    fn ended(&self) -> bool {
        self.ended
    }
}

// -------------------------------------------------------------------- pools

/// Many inputs behind one producer: nested inputs which come and go.
pub struct Pool<I: Input> {
    pub members: Vec<Shared<I>>,
    /// stays alive until told to end
    pub closed: bool,
    pub end_pct: u64,
}

impl<I: Input> Pool<I> {
    pub fn new(end_pct: u64) -> Shared<Pool<I>> {
        shared(Pool { members: vec![], closed: false, end_pct })
    }
}

impl<I: Input + 'static> Input for Pool<I> {
    fn step(&mut self, c: &mut Choices) -> Action {
        let live: Vec<Shared<I>> = self.members.iter().filter(|m| !m.borrow().ended()).cloned().collect();
        if live.is_empty() {
            return Box::new(|| {});
        }
        // mostly recent ones
        let n = live.len();
        let k = if c.pct(60) { n - 1 - c.u(n.min(3)) } else { c.u(n) };
        if c.pct(self.end_pct) {
            live[k].borrow_mut().end()
        } else {
            live[k].borrow_mut().step(c)
        }
    }

    fn end(&mut self) -> Action {
        self.closed = true;
        let acts: Vec<Action> =
            self.members.iter().filter(|m| !m.borrow().ended()).map(|m| m.borrow_mut().end()).collect();
        Box::new(move || {
            for a in acts {
                a();
                between();
            }
        })
    }

    fn ended(&self) -> bool {
        self.members.iter().all(|m| m.borrow().ended())
    }
}

// ------------------------------------------------------------------- driving

pub struct Plan {
    pub max_rounds: usize,
    pub max_steps: usize,
    /// percentage of rounds in which an input ends early
    pub early_end: u64,
}

impl Default for Plan {
    fn default() -> Self {
        Plan { max_rounds: 3, max_steps: 4, early_end: 15 }
    }
}

/// Feeds the inputs from producer threads, in rounds separated by quiescence, and
/// finally ends them one after the other.
pub fn feed(c: &mut Choices, p: Plan, inputs: &[Shared<dyn Input>], mut quiet: impl FnMut()) {
    let rounds = c.range(1, p.max_rounds);
    let together = c.pct(25);
    if c.pct(30) {
        quiesce();
        quiet();
    }
    for _ in 0..rounds {
        let mut threads: Vec<Vec<Action>> = vec![];
        for i in inputs {
            let mut acts = vec![];
            let n = if p.max_steps > 1 { p.max_steps * c.scale() } else { p.max_steps };
            for _ in 0..c.u(n + 1) {
                acts.push(alone(|| i.borrow_mut().step(c)));
            }
            if c.pct(p.early_end) {
                if !i.borrow().ended() {
                    acts.push(i.borrow_mut().end());
                    fault("input-ends-early");
                }
            }
            threads.push(acts);
        }
        if together {
            threads = vec![threads.into_iter().flatten().collect()];
        }
        for (k, acts) in threads.into_iter().enumerate() {
            if acts.is_empty() {
                continue;
            }
            spawn(["producer0", "producer1", "producer2", "producer3"][k.min(3)], move || {
                for a in acts {
                    between();
                    a();
                }
            });
        }
        quiesce();
        quiet();
    }
    // the last input to end is drawn: the others first
    let mut order: Vec<usize> = (0..inputs.len()).collect();
    if order.len() > 1 {
        let k = c.u(order.len());
        order.rotate_left(k);
    }
    let last_change = c.pct(40);
    for k in order {
        if inputs[k].borrow().ended() {
            continue;
        }
        // sometimes a last change right before the end
        let pre = if last_change { Some(alone(|| inputs[k].borrow_mut().step(c))) } else { None };
        let a = inputs[k].borrow_mut().end();
        spawn("ender", move || {
            if let Some(p) = pre {
                p();
            }
            a()
        });
        quiesce();
        quiet();
    }
    // A last change may have made new nested inputs.
    for i in inputs {
        if !i.borrow().ended() {
            let a = i.borrow_mut().end();
            spawn("ender", a);
            quiesce();
            quiet();
        }
    }
}

/// Whether every input has ended.
pub fn all_ended(inputs: &[Shared<dyn Input>]) -> bool {
    inputs.iter().all(|i| i.borrow().ended())
}

// ------------------------------------------------------------------ watching

/// The consumer of a SignalVec: replays its diffs.
pub struct VecWatch<T> {
    pub task: Task,
    pub replay: Shared<Vec<T>>,
    pub diffs: Rc<Cell<u64>>,
}

/// `at_rest` is called when the task is about to sleep (false) or has ended (true).
pub fn watch_vec<T: Clone + Debug + 'static>(
    name: &str,
    d: Drive,
    mut out: DynVec<T>,
    at_rest: impl Fn(&[T], bool) + 'static,
) -> VecWatch<T> {
    let replay: Shared<Vec<T>> = shared(vec![]);
    let diffs = Rc::new(Cell::new(0));
    let (r2, d2) = (replay.clone(), diffs.clone());
    let task = Task::spawn(
        name,
        d,
        move |cx| out.as_mut().poll_vec_change(cx),
        move |o, _, _| match o {
            Obs::Item(d) => {
                note(|| format!("gets {:?}", d));
                ev(h(&d));
                d2.set(d2.get() + 1);
                apply_vec(&mut r2.borrow_mut(), d, "output");
                note(|| format!("has {:?}", r2.borrow()));
            }
            Obs::Pending => {
                if rests() {
                    at_rest(&r2.borrow(), false);
                }
            }
            Obs::End => {
                note(|| "sees the end".into());
                at_rest(&r2.borrow(), true);
            }
        },
    );
    VecWatch { task, replay, diffs }
}

/// The consumer of a Signal.
pub struct SigWatch<T> {
    pub task: Task,
    pub log: Shared<Vec<T>>,
}

/// `on_item` is called for each value, `at_rest` as for `watch_vec`.
pub fn watch_sig<T: Clone + Debug + 'static>(
    name: &str,
    d: Drive,
    mut out: DynSignal<T>,
    on_item: impl Fn(&T) + 'static,
    at_rest: impl Fn(&[T], bool) + 'static,
) -> SigWatch<T> {
    let log: Shared<Vec<T>> = shared(vec![]);
    let l2 = log.clone();
    let task = Task::spawn(
        name,
        d,
        move |cx| out.as_mut().poll_change(cx),
        move |o, _, _| match o {
            Obs::Item(v) => {
                note(|| format!("sees {:?}", v));
                ev(h(&v));
                on_item(&v);
                l2.borrow_mut().push(v);
            }
            Obs::Pending => {
                if rests() {
                    at_rest(&l2.borrow(), false);
                }
            }
            Obs::End => {
                note(|| "sees the end".into());
                at_rest(&l2.borrow(), true);
            }
        },
    );
    SigWatch { task, log }
}

/// Checks that a value which is yielded is not older than any change of the inputs
/// which was complete before the poll began.
pub struct Fresh<S> {
    pub s: S,
    pub inputs: Vec<Shared<dyn Input>>,
    pub what: &'static str,
}

impl<S> Unpin for Fresh<S> {}

impl<S> Fresh<S> {
    fn marks(&self) -> Vec<Box<dyn Fn() -> bool>> {
        self.inputs.iter().filter_map(|i| i.borrow().mark()).collect()
    }
    fn judge<T>(&self, r: &Poll<Option<T>>, marks: Vec<Box<dyn Fn() -> bool>>) {
        if matches!(r, Poll::Ready(Some(_))) {
            for (k, m) in marks.iter().enumerate() {
                check!(m(), "stale-item", "{}: it yields something without having looked at input {}, which had changed before the poll began", self.what, k);
            }
        }
    }
}

impl<S: Signal + Unpin> Signal for Fresh<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let m = self.marks();
        let r = Pin::new(&mut self.s).poll_change(cx);
        self.judge(&r, m);
        r
    }
}

impl<S: SignalVec + Unpin> SignalVec for Fresh<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<VecDiff<S::Item>>> {
        let m = self.marks();
        let r = Pin::new(&mut self.s).poll_vec_change(cx);
        self.judge(&r, m);
        r
    }
}

/// Checks that, after the first one, a value is only yielded if an input has yielded something since.
pub struct Fed<S> {
    s: S,
    items: Box<dyn Fn() -> u64>,
    last: Option<u64>,
    what: &'static str,
}

impl<S> Unpin for Fed<S> {}

impl<T: 'static, S: Signal<Item = T> + Unpin + 'static> Fed<S> {
    pub fn wrap(s: S, what: &'static str, items: impl Fn() -> u64 + 'static) -> DynSignal<T> {
        Box::pin(Fed { s, items: Box::new(items), last: None, what })
    }
}

impl<S: Signal + Unpin> Signal for Fed<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let r = Pin::new(&mut self.s).poll_change(cx);
        if matches!(r, Poll::Ready(Some(_))) {
            let n = (self.items)();
            check!(self.last.is_none_or(|l| n > l), "repeated", "{}: it yields something although nothing was yielded by its input since its last value", self.what);
            self.last = Some(n);
        }
        r
    }
}

/// The consumer of a SignalMap.
pub struct MapWatch<V> {
    pub task: Task,
    pub replay: Shared<BTreeMap<u64, V>>,
}

pub fn watch_map<V: Clone + Debug + 'static>(
    name: &str,
    d: Drive,
    mut out: DynMap<u64, V>,
    at_rest: impl Fn(&BTreeMap<u64, V>, bool) + 'static,
) -> MapWatch<V> {
    let replay: Shared<BTreeMap<u64, V>> = shared(BTreeMap::new());
    let r2 = replay.clone();
    let task = Task::spawn(
        name,
        d,
        move |cx| out.as_mut().poll_map_change(cx),
        move |o, _, _| match o {
            Obs::Item(d) => {
                note(|| format!("gets {:?}", d));
                ev(h(&d));
                apply_map(&mut r2.borrow_mut(), d, "output");
            }
            Obs::Pending => {
                if rests() {
                    at_rest(&r2.borrow(), false);
                }
            }
            Obs::End => {
                note(|| "sees the end".into());
                at_rest(&r2.borrow(), true);
            }
        },
    );
    MapWatch { task, replay }
}

/// The checks every stage shares at quiescence: alive or ended as it must be, and right.
pub fn judge<T: PartialEq + Debug>(task: &Task, must_end: bool, got: &T, want: &T, what: &str) {
    if task.cancelled() {
        return;
    }
    if must_end {
        check!(task.ended(), "not-ended", "{}: its inputs have ended, but it is parked", what);
    } else {
        check!(!task.ended(), "ended-early", "{}: it ended although an input is alive", what);
    }
    check!(
        got == want,
        "stale",
        "{}: everything is quiet and its task is {}, it shows {:?} but its inputs give {:?}",
        what,
        if task.ended() { "finished" } else { "parked" },
        got,
        want
    );
}

/// The check when a task comes to rest, for inputs which know what they delivered.
pub fn rest<T: PartialEq + Debug>(got: &T, want: &T, what: &str) {
    check!(
        got == want,
        "wrong",
        "{}: its task goes to sleep showing {:?}, but what it got from its inputs gives {:?}",
        what,
        got,
        want
    );
}
