//! Building blocks shared by the scenarios: simulated executors, scripted sources,
//! the linearizability checker, tracked values and executable models.

use crate::check;
use crate::engine::*;
use crate::weak::Moment;
use futures_core::Stream;
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap};
use futures_signals::signal_vec::{SignalVec, VecDiff};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::future::Future;
use std::hash::Hash;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

// ----------------------------------------------------------------- executor

#[derive(Clone, Debug)]
pub enum Obs<T> {
    Item(T),
    Pending,
    End,
}

/// How a simulated executor treats its task.
#[derive(Clone, Debug, Default)]
pub struct Drive {
    /// bit i: after the i-th Pending, poll again without having been woken
    pub spurious: u64,
    /// drop the task after this many polls
    pub cancel_after: Option<u32>,
    /// extra scheduling points between being woken and polling
    pub lag: u32,
    /// set (and kicked) by the controller to stop the task
    pub stop: Rc<Cell<bool>>,
}

impl Drive {
    pub fn draw(c: &mut Choices, may_cancel: bool) -> Drive {
        let spurious = if c.pct(30) { c.below(1 << 12) } else { 0 };
        let cancel_after = if may_cancel && c.pct(25) { Some(c.below(6) as u32) } else { None };
        let lag = if c.pct(20) { c.below(4) as u32 } else { 0 };
        Drive { spurious, cancel_after, lag, stop: Rc::new(Cell::new(false)) }
    }
}

/// Runs a poll function to its end like an executor would. Returns true if it ended
/// by itself, false if it was cancelled.
pub fn drive<T>(
    d: &Drive,
    mut poll: impl FnMut(&mut Context<'_>) -> Poll<Option<T>>,
    mut on: impl FnMut(Obs<T>, u64, u64),
) -> bool {
    let mut polls = 0u32;
    let mut pendings = 0u32;
    loop {
        if let Some(n) = d.cancel_after {
            if polls >= n {
                fault("task-dropped");
                note(|| "drops its task".into());
                return false;
            }
        }
        if d.stop.get() {
            return false;
        }
        for _ in 0..d.lag {
            between();
        }
        clear_woken();
        let w = new_waker();
        let inv = stamp();
        polls += 1;
        let r = poll(&mut Context::from_waker(&w));
        let ret = stamp();
        drop(w);
        match r {
            Poll::Ready(Some(v)) => on(Obs::Item(v), inv, ret),
            Poll::Ready(None) => {
                on(Obs::End, inv, ret);
                return true;
            }
            Poll::Pending => {
                on(Obs::Pending, inv, ret);
                let k = pendings;
                pendings += 1;
                if k < 60 && (d.spurious >> k) & 1 == 1 {
                    fault("spurious-poll");
                } else {
                    park();
                }
            }
        }
        between();
    }
}

// ------------------------------------------------------------ tracked values

/// A value with identity whose copies are counted: leaks and double drops are visible.
pub struct Tok {
    pub v: u64,
    id: usize,
    made: Option<Moment>,
    reads: RefCell<Vec<Option<Moment>>>,
}

impl Tok {
    pub fn new(v: u64) -> Tok {
        Tok { v, id: track(), made: moment(), reads: RefCell::new(vec![]) }
    }

    /// With weak memory: its contents have to be visible to this thread.
    pub fn touch(&self, what: &str) {
        if self.made.is_some() {
            check!(known(self.made), "unsynchronised", "value {} is {} by a thread to which nothing has made it visible", self.v, what);
            self.reads.borrow_mut().push(moment());
        }
    }

    pub fn id(&self) -> usize {
        self.id
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        self.touch("cloned");
        track_clone(self.id);
        Tok { v: self.v, id: self.id, made: moment(), reads: RefCell::new(vec![]) }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if self.made.is_some() {
            self.touch("dropped");
            let r = self.reads.borrow().iter().all(|&m| known(m));
            check!(r, "unsynchronised", "value {} is dropped, and nothing orders this after it was read", self.v);
        }
        track_drop(self.id);
    }
}

impl Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "t{}", self.v)
    }
}

impl Hash for Tok {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.v == o.v
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}

pub fn check_no_leak(what: &str) {
    let l = leaked();
    check!(l.is_empty(), "leak", "{}: {} tracked value(s) still alive: {:?}", what, l.len(), &l[..l.len().min(8)]);
}

// --------------------------------------------------------- linearizability

#[derive(Clone, Debug)]
pub struct Event<O> {
    pub inv: u64,
    pub ret: u64,
    pub op: O,
}

pub trait Spec {
    type Op: Debug;
    type State: Clone + Eq + Hash + Debug;
    /// The state after `op`, if the operation could have had its result in `st`.
    fn step(&self, st: &Self::State, op: &Self::Op) -> Option<Self::State>;
    /// A second legal outcome, for operations which are not deterministic.
    fn alternative(&self, _st: &Self::State, _op: &Self::Op) -> Option<Self::State> {
        None
    }
}

/// Is there an order of all events, consistent with real time, which the model explains?
/// Returns the set of possible final states, or None. (Wing & Gong with memoisation.)
pub fn linearize<S: Spec>(spec: &S, threads: &[Vec<Event<S::Op>>], init: &[S::State]) -> Option<Vec<S::State>> {
    let n = threads.len();
    let mut seen: HashSet<(Vec<u16>, S::State)> = HashSet::new();
    let mut finals: Vec<S::State> = vec![];
    let mut stack: Vec<(Vec<u16>, S::State)> = vec![];
    for s in init {
        stack.push((vec![0; n], s.clone()));
    }
    while let Some((pos, st)) = stack.pop() {
        if !seen.insert((pos.clone(), st.clone())) {
            continue;
        }
        if seen.len() > 200_000 {
            // Too big to decide: treat as explained (never an alarm), but count it.
            probe("linearizability-search-cap");
            return Some(vec![]);
        }
        let mut done = true;
        let mut min_ret = u64::MAX;
        for t in 0..n {
            if let Some(e) = threads[t].get(pos[t] as usize) {
                done = false;
                min_ret = min_ret.min(e.ret);
            }
        }
        if done {
            if !finals.contains(&st) {
                finals.push(st);
            }
            continue;
        }
        for t in 0..n {
            if let Some(e) = threads[t].get(pos[t] as usize) {
                if e.inv <= min_ret {
                    for next in [spec.alternative(&st, &e.op), spec.step(&st, &e.op)].into_iter().flatten() {
                        let mut p = pos.clone();
                        p[t] += 1;
                        stack.push((p, next));
                    }
                }
            }
        }
    }
    if finals.is_empty() {
        None
    } else {
        Some(finals)
    }
}

pub fn show_history<O: Debug>(threads: &[Vec<Event<O>>]) -> String {
    let mut all: Vec<(u64, String)> = vec![];
    for (t, evs) in threads.iter().enumerate() {
        for e in evs {
            all.push((e.inv, format!("[{}..{}] thread{} {:?}", e.inv, e.ret, t, e.op)));
        }
    }
    all.sort();
    all.into_iter().map(|x| x.1).collect::<Vec<_>>().join("; ")
}

// --------------------------------------------------------- scripted sources

/// State shared between a scripted source and its producer.
pub struct Src<D> {
    pub queue: VecDeque<D>,
    pub closed: bool,
    pub ended: bool,
    pub dropped: bool,
    waker: Option<Waker>,
    pub polls: u64,
    /// how many items were handed out
    pub delivered: u64,
    /// how many items were pushed
    pub pushed: u64,
    /// the last poll returned Pending, and the source has not been polled since
    pub name: &'static str,
    /// bit k: the k-th poll which could be ready returns Pending, and wakes at once
    pub stutter: u64,
    /// the first poll must not stutter (sources which must have a value at once)
    pub firm: bool,
    coalesce: bool,
    pub yielding: bool,
    busy: bool,
}

pub type SrcRef<D> = Shared<Src<D>>;

/// The reading side is gone.
fn forget_waker<D>(s: &SrcRef<D>) {
    let w = {
        let mut s = s.borrow_mut();
        s.dropped = true;
        s.waker.take()
    };
    drop(w);
}

pub fn src<D>(name: &'static str) -> SrcRef<D> {
    shared(Src {
        queue: VecDeque::new(),
        closed: false,
        ended: false,
        dropped: false,
        waker: None,
        polls: 0,
        delivered: 0,
        pushed: 0,
        name,
        stutter: 0,
        firm: false,
        coalesce: false,
        yielding: true,
        busy: false,
    })
}

pub fn src_coalescing<D>(name: &'static str) -> SrcRef<D> {
    let s = src(name);
    s.borrow_mut().coalesce = true;
    s
}

/// Which polls of a source return Pending although it could be ready.
pub fn draw_stutter(c: &mut Choices, pct: u64) -> u64 {
    if !c.pct(pct) {
        return 0;
    }
    match c.u(3) {
        0 => (1 << c.u(5)) - 1,
        1 => c.below(1 << 10),
        _ => c.below(1 << 30) & c.below(1 << 30),
    }
}

pub fn push<D: Debug>(s: &SrcRef<D>, d: D) {
    note(|| format!("{} <- {:?}", s.borrow().name, d));
    let w = {
        let mut s = s.borrow_mut();
        if s.coalesce {
            s.queue.clear();
        }
        s.queue.push_back(d);
        s.pushed += 1;
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

pub fn close<D>(s: &SrcRef<D>) {
    note(|| format!("{} <- end", s.borrow().name));
    let w = {
        let mut s = s.borrow_mut();
        s.closed = true;
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

pub fn poll_src<D: Debug>(s: &SrcRef<D>, cx: &mut Context<'_>) -> Poll<Option<D>> {
    if s.borrow().yielding {
        if s.borrow().busy {
            fail("concurrent-poll", format!("input {} is polled by two threads at once", s.borrow().name));
        }
        s.borrow_mut().busy = true;
        pause();
        s.borrow_mut().busy = false;
    }
    let mut st = s.borrow_mut();
    if st.ended {
        let n = st.name;
        drop(st);
        fail("polled-after-end", format!("input {} was polled again after it had ended", n));
    }
    st.polls += 1;
    if st.stutter > 0 && !(st.firm && st.delivered == 0) && (st.closed || !st.queue.is_empty()) {
        // A legal source: not ready yet, but wakes its task right away.
        let yes = st.stutter & 1 == 1;
        st.stutter >>= 1;
        if yes {
            drop(st);
            fault("source-stutter");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
    }
    match st.queue.pop_front() {
        Some(d) => {
            st.delivered += 1;
            note(|| format!("{} delivers {:?}", st.name, d));
            Poll::Ready(Some(d))
        }
        None if st.closed => {
            st.ended = true;
            note(|| format!("{} ends", st.name));
            Poll::Ready(None)
        }
        None => {
            let old = st.waker.replace(cx.waker().clone());
            drop(st);
            drop(old);
            Poll::Pending
        }
    }
}

macro_rules! source {
    ($name:ident) => {
        pub struct $name<D> {
            pub s: SrcRef<D>,
        }
        impl<D> Unpin for $name<D> {}
        impl<D> $name<D> {
            pub fn new(s: &SrcRef<D>) -> Self {
                $name { s: s.clone() }
            }
        }
        impl<D> Drop for $name<D> {
            fn drop(&mut self) {
                forget_waker(&self.s);
            }
        }
        impl<D> Debug for $name<D> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Source")
            }
        }
    };
}

source!(SignalSrc);
source!(StreamSrc);

impl<D: Debug> Signal for SignalSrc<D> {
    type Item = D;
    fn poll_change(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<D>> {
        poll_src(&self.s, cx)
    }
}

impl<D: Debug> Stream for StreamSrc<D> {
    type Item = D;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<D>> {
        poll_src(&self.s, cx)
    }
}

/// A scripted vector source: remembers what it has delivered.
pub struct VecSrc<T> {
    pub s: SrcRef<VecDiff<T>>,
    pub state: Shared<Vec<T>>,
    /// every value delivered so far
    pub seen: Shared<Vec<T>>,
}

impl<T> Unpin for VecSrc<T> {}

impl<T> Debug for VecSrc<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("VecSrc")
    }
}

impl<T> Drop for VecSrc<T> {
    fn drop(&mut self) {
        forget_waker(&self.s);
    }
}

impl<T: Clone + Debug> SignalVec for VecSrc<T> {
    type Item = T;
    fn poll_vec_change(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<VecDiff<T>>> {
        let r = poll_src(&self.s, cx);
        if let Poll::Ready(Some(d)) = &r {
            match d {
                VecDiff::Replace { values } => self.seen.borrow_mut().extend(values.iter().cloned()),
                VecDiff::InsertAt { value, .. } | VecDiff::UpdateAt { value, .. } | VecDiff::Push { value } => {
                    self.seen.borrow_mut().push(value.clone())
                }
                _ => {}
            }
            apply_vec(&mut self.state.borrow_mut(), clone_diff(d), "input");
        }
        r
    }
}

/// A scripted map source.
pub struct MapSrc<K, V> {
    pub s: SrcRef<MapDiff<K, V>>,
    pub state: Shared<BTreeMap<K, V>>,
    /// every value delivered so far
    pub seen: Shared<Vec<V>>,
}

impl<K, V> Unpin for MapSrc<K, V> {}

impl<K, V> Debug for MapSrc<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("MapSrc")
    }
}

impl<K, V> Drop for MapSrc<K, V> {
    fn drop(&mut self) {
        forget_waker(&self.s);
    }
}

impl<K: Clone + Ord + Debug, V: Clone + Debug> SignalMap for MapSrc<K, V> {
    type Key = K;
    type Value = V;
    fn poll_map_change(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<MapDiff<K, V>>> {
        let r = poll_src(&self.s, cx);
        if let Poll::Ready(Some(d)) = &r {
            match d {
                MapDiff::Replace { entries } => self.seen.borrow_mut().extend(entries.iter().map(|e| e.1.clone())),
                MapDiff::Insert { value, .. } | MapDiff::Update { value, .. } => self.seen.borrow_mut().push(value.clone()),
                _ => {}
            }
            apply_map(&mut self.state.borrow_mut(), clone_map_diff(d), "input");
        }
        r
    }
}

/// A future which completes when the producer says so.
pub struct FutState<T> {
    pub value: Option<T>,
    pub waker: Option<Waker>,
    pub polls: u64,
    pub done: bool,
    pub dropped: bool,
}

pub type FutRef<T> = Shared<FutState<T>>;

pub fn fut<T>() -> FutRef<T> {
    shared(FutState { value: None, waker: None, polls: 0, done: false, dropped: false })
}

/// A simulated future synchronises like one with a lock.
pub fn fut_sync<T>(f: &FutRef<T>) {
    let key = Rc::as_ptr(f) as *const () as usize;
    hb_acquire(key);
    hb_release(key);
}

pub fn complete<T>(f: &FutRef<T>, v: T) {
    fut_sync(f);
    let w = {
        let mut f = f.borrow_mut();
        f.value = Some(v);
        f.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

pub struct SimFuture<T>(pub FutRef<T>);

impl<T> Unpin for SimFuture<T> {}

impl<T> Drop for SimFuture<T> {
    fn drop(&mut self) {
        fut_sync(&self.0);
        let w = {
            let mut f = self.0.borrow_mut();
            f.dropped = true;
            f.waker.take()
        };
        drop(w);
    }
}

impl<T> Future for SimFuture<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        pause();
        fut_sync(&self.0);
        let mut st = self.0.borrow_mut();
        st.polls += 1;
        if st.done {
            drop(st);
            fail("polled-after-end", "a future was polled again after it had completed".into());
        }
        match st.value.take() {
            Some(v) => {
                st.done = true;
                Poll::Ready(v)
            }
            None => {
                let old = st.waker.replace(cx.waker().clone());
                drop(st);
                drop(old);
                Poll::Pending
            }
        }
    }
}

/// A future without its result. (Not an `async` block: the panic of one which is polled
/// after its end has its location in the harness.)
pub struct Done<T>(pub SimFuture<T>);

impl<T> Future for Done<T> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx).map(|_| ())
    }
}

// -------------------------------------------------------------------- diffs

pub fn clone_diff<T: Clone>(d: &VecDiff<T>) -> VecDiff<T> {
    match d {
        VecDiff::Replace { values } => VecDiff::Replace { values: values.clone() },
        VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index: *index, value: value.clone() },
        VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index: *index, value: value.clone() },
        VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index: *index },
        VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index: *old_index, new_index: *new_index },
        VecDiff::Push { value } => VecDiff::Push { value: value.clone() },
        VecDiff::Pop {} => VecDiff::Pop {},
        VecDiff::Clear {} => VecDiff::Clear {},
    }
}

pub fn clone_map_diff<K: Clone, V: Clone>(d: &MapDiff<K, V>) -> MapDiff<K, V> {
    match d {
        MapDiff::Replace { entries } => MapDiff::Replace { entries: entries.clone() },
        MapDiff::Insert { key, value } => MapDiff::Insert { key: key.clone(), value: value.clone() },
        MapDiff::Update { key, value } => MapDiff::Update { key: key.clone(), value: value.clone() },
        MapDiff::Remove { key } => MapDiff::Remove { key: key.clone() },
        MapDiff::Clear {} => MapDiff::Clear {},
    }
}

/// Applies a diff; a diff which does not fit the current contents is a violation.
pub fn apply_vec<T: Debug>(v: &mut Vec<T>, d: VecDiff<T>, what: &str) {
    let n = v.len();
    match d {
        VecDiff::Replace { values } => *v = values,
        VecDiff::InsertAt { index, value } => {
            check!(index <= n, "bad-diff", "{}: InsertAt {} into {} elements", what, index, n);
            v.insert(index, value)
        }
        VecDiff::UpdateAt { index, value } => {
            check!(index < n, "bad-diff", "{}: UpdateAt {} in {} elements", what, index, n);
            v[index] = value
        }
        VecDiff::RemoveAt { index } => {
            check!(index < n, "bad-diff", "{}: RemoveAt {} from {} elements", what, index, n);
            v.remove(index);
        }
        VecDiff::Move { old_index, new_index } => {
            check!(
                old_index < n && new_index < n,
                "bad-diff",
                "{}: Move {} -> {} in {} elements",
                what,
                old_index,
                new_index,
                n
            );
            let x = v.remove(old_index);
            v.insert(new_index, x);
        }
        VecDiff::Push { value } => v.push(value),
        VecDiff::Pop {} => {
            check!(n > 0, "bad-diff", "{}: Pop from an empty vector", what);
            v.pop();
        }
        VecDiff::Clear {} => v.clear(),
    }
}

pub fn apply_map<K: Ord + Debug, V: Debug>(m: &mut BTreeMap<K, V>, d: MapDiff<K, V>, what: &str) {
    match d {
        MapDiff::Replace { entries } => {
            let n = entries.len();
            *m = entries.into_iter().collect();
            check!(m.len() == n, "bad-diff", "{}: Replace with a repeated key", what);
        }
        MapDiff::Insert { key, value } => {
            check!(!m.contains_key(&key), "bad-diff", "{}: Insert of the present key {:?}", what, key);
            m.insert(key, value);
        }
        MapDiff::Update { key, value } => {
            check!(m.contains_key(&key), "bad-diff", "{}: Update of the absent key {:?}", what, key);
            m.insert(key, value);
        }
        MapDiff::Remove { key } => {
            check!(m.contains_key(&key), "bad-diff", "{}: Remove of the absent key {:?}", what, key);
            m.remove(&key);
        }
        MapDiff::Clear {} => m.clear(),
    }
}

/// The contents which a consumer showed, in order; empty before its first diff.
pub struct Trail<T> {
    pub shown: RefCell<Vec<T>>,
    /// the history's length before and after the consumer was made
    pub made: (usize, Cell<usize>),
}

/// Did the consumer go through everything in the history since it was made, in order?
/// With `exact` it also showed nothing else. `empty` is what it shows before its first diff.
pub fn check_trail<T: Clone + PartialEq + Debug>(t: &Trail<T>, hist: &[T], empty: &T, exact: bool, whole: bool) {
    let mut dedup = vec![];
    for v in t.shown.borrow().iter() {
        if dedup.last() != Some(v) {
            dedup.push(v.clone());
        }
    }
    let fits = |shown: &[T], h: &[T]| {
        let mut s = shown.iter();
        let mut last: Option<&T> = None;
        for x in h {
            if last == Some(x) {
                continue;
            }
            last = Some(x);
            loop {
                match s.next() {
                    // it was stopped here
                    None => return !whole,
                    Some(y) if y == x => break,
                    Some(_) if exact => return false,
                    Some(_) => {}
                }
            }
        }
        !exact || s.next().is_none()
    };
    let (lo, hi) = (t.made.0, t.made.1.get().min(hist.len()));
    let ok = dedup.is_empty() && !whole
        || (lo.saturating_sub(1)..hi.max(lo)).any(|k| {
            let h = &hist[k..];
            if h[0] == *empty {
                let mut s = vec![empty.clone()];
                s.extend(dedup.iter().cloned());
                s.dedup();
                fits(&s, h)
            } else {
                dedup.first() == Some(&h[0]) && fits(&dedup, h)
            }
        });
    check!(
        ok,
        "skipped",
        "a consumer which was made when the history had {}..{} entries showed {:?}, but the history is {:?}",
        lo,
        hi,
        dedup,
        hist
    );
}

/// A random diff that is valid for `model`, which it updates.
pub struct DiffGen {
    pub weights: [u32; 8],
    pub max_len: usize,
    /// the length of Replace is below this
    pub max_replace: usize,
}

impl DiffGen {
    /// Swarm style: each run uses its own mix of diffs.
    pub fn draw(c: &mut Choices) -> DiffGen {
        let mut weights = [4, 6, 4, 4, 4, 2, 1, 2];
        if c.pct(50) {
            for w in weights.iter_mut() {
                if c.pct(30) {
                    *w = 0;
                } else if c.pct(20) {
                    *w *= 4;
                }
            }
        }
        if weights.iter().sum::<u32>() == 0 {
            weights[0] = 1;
        }
        // Some algorithms only start to differ beyond a certain length (sorting: 20 values)
        let s = c.scale();
        if c.pct(if s > 1 { 60 } else { 3 }) {
            probe("a long vector");
            weights[7] = weights[7].max(2);
            let n = if s > 6 { 5 } else { 1 };
            return DiffGen { weights, max_len: c.long * n, max_replace: (c.long - 4) * n };
        }
        DiffGen { weights, max_len: 7, max_replace: 5 }
    }

    pub fn next<T: Clone + Debug>(&self, c: &mut Choices, model: &mut Vec<T>, mut value: impl FnMut(&mut Choices) -> T) -> VecDiff<T> {
        let n = model.len();
        let mut k = c.weighted(&self.weights);
        if n == 0 && matches!(k, 2 | 3 | 4 | 5) {
            k = 0;
        }
        if n >= self.max_len && matches!(k, 0 | 1) {
            k = 3;
        }
        let d = match k {
            0 => VecDiff::Push { value: value(c) },
            1 => VecDiff::InsertAt { index: c.u(n + 1), value: value(c) },
            2 => VecDiff::UpdateAt { index: c.u(n), value: value(c) },
            3 => VecDiff::RemoveAt { index: c.u(n) },
            4 => VecDiff::Move { old_index: c.u(n), new_index: c.u(n) },
            5 => VecDiff::Pop {},
            6 => VecDiff::Clear {},
            _ => {
                let m = c.u(self.max_replace);
                VecDiff::Replace { values: (0..m).map(|_| value(c)).collect() }
            }
        };
        apply_vec(model, clone_diff(&d), "generator");
        d
    }
}

pub fn diff_name<T>(d: &VecDiff<T>) -> &'static str {
    match d {
        VecDiff::Replace { .. } => "Replace",
        VecDiff::InsertAt { .. } => "InsertAt",
        VecDiff::UpdateAt { .. } => "UpdateAt",
        VecDiff::RemoveAt { .. } => "RemoveAt",
        VecDiff::Move { .. } => "Move",
        VecDiff::Push { .. } => "Push",
        VecDiff::Pop {} => "Pop",
        VecDiff::Clear {} => "Clear",
    }
}

/// Hash of a value through its Debug text (for the event log).
pub fn h<T: Debug>(v: &T) -> u64 {
    struct W(u64);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x1000_0000_01b3);
            }
            Ok(())
        }
    }
    let mut w = W(0xcbf2_9ce4_8422_2325);
    let _ = std::fmt::write(&mut w, format_args!("{:?}", v));
    crate::rng::mix(w.0)
}

/// A consumer thread and what the controller needs to know about it.
#[derive(Clone)]
pub struct Task {
    pub tid: Tid,
    pub drive: Drive,
    /// None: still running, Some(true): ended by itself, Some(false): cancelled or stopped
    pub end: Rc<Cell<Option<bool>>>,
}

impl Task {
    pub fn spawn<T: 'static>(
        name: &str,
        d: Drive,
        poll: impl FnMut(&mut Context<'_>) -> Poll<Option<T>> + 'static,
        on: impl FnMut(Obs<T>, u64, u64) + 'static,
    ) -> Task {
        let end = Rc::new(Cell::new(None));
        let (d2, e2) = (d.clone(), end.clone());
        let tid = spawn(name, move || {
            let mut poll = poll;
            let r = drive(&d2, &mut poll, on);
            drop(poll);
            e2.set(Some(r));
        });
        Task { tid, drive: d, end }
    }

    pub fn running(&self) -> bool {
        self.end.get().is_none()
    }

    pub fn ended(&self) -> bool {
        self.end.get() == Some(true)
    }

    pub fn cancelled(&self) -> bool {
        self.end.get() == Some(false)
    }

    /// How often its wakers were woken.
    pub fn wakes(&self) -> u64 {
        wakes(self.tid)
    }

    /// Makes the executor drop the task (used by the controller at the end of a run).
    pub fn stop(&self) {
        if self.running() {
            self.drive.stop.set(true);
            kick(self.tid);
        }
    }
}

pub fn stop_all(ts: &[Task]) {
    for t in ts {
        t.stop();
    }
    quiesce();
}

/// Counts the objects of a kind which are alive.
#[derive(Clone, Default)]
pub struct Census(Rc<Cell<i64>>);

impl Census {
    pub fn alive(&self) -> i64 {
        self.0.get()
    }
    pub fn of<S>(&self, s: S) -> Counted<S> {
        self.0.set(self.0.get() + 1);
        Counted { s, n: self.0.clone() }
    }
}

/// A Signal, SignalVec or Future which is counted.
pub struct Counted<S> {
    s: S,
    n: Rc<Cell<i64>>,
}

impl<S> Unpin for Counted<S> {}

impl<S> Drop for Counted<S> {
    fn drop(&mut self) {
        self.n.set(self.n.get() - 1);
    }
}

impl<S> Debug for Counted<S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Counted")
    }
}

impl<S: Signal + Unpin> Signal for Counted<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        Pin::new(&mut self.s).poll_change(cx)
    }
}

impl<S: SignalVec + Unpin> SignalVec for Counted<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<VecDiff<S::Item>>> {
        Pin::new(&mut self.s).poll_vec_change(cx)
    }
}

impl<S: Future + Unpin> Future for Counted<S> {
    type Output = S::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<S::Output> {
        Pin::new(&mut self.s).poll(cx)
    }
}

pub type DynSignal<T> = Pin<Box<dyn Signal<Item = T>>>;
pub type DynVec<T> = Pin<Box<dyn SignalVec<Item = T>>>;
pub type DynMap<K, V> = Pin<Box<dyn SignalMap<Key = K, Value = V>>>;

pub fn rc<T>(t: T) -> Rc<T> {
    Rc::new(t)
}

// ----------------------------------------------------------------- wrappers

/// Polls what it owns through a `&mut`.
pub struct ByRef<S>(pub S);

impl<S> Unpin for ByRef<S> {}

impl<S: Signal + Unpin> Signal for ByRef<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        Pin::new(&mut &mut self.0).poll_change(cx)
    }
}

impl<S: SignalVec + Unpin> SignalVec for ByRef<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<VecDiff<S::Item>>> {
        Pin::new(&mut &mut self.0).poll_vec_change(cx)
    }
}

impl<S: SignalMap + Unpin> SignalMap for ByRef<S> {
    type Key = S::Key;
    type Value = S::Value;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<MapDiff<S::Key, S::Value>>> {
        Pin::new(&mut &mut self.0).poll_map_change(cx)
    }
}

/// Polls what it owns through the `poll_..._unpin` methods.
pub struct ByUnpin<S>(pub S);

impl<S> Unpin for ByUnpin<S> {}

impl<S: Signal + Unpin> Signal for ByUnpin<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        futures_signals::signal::SignalExt::poll_change_unpin(&mut self.0, cx)
    }
}

impl<S: SignalVec + Unpin> SignalVec for ByUnpin<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<VecDiff<S::Item>>> {
        futures_signals::signal_vec::SignalVecExt::poll_vec_change_unpin(&mut self.0, cx)
    }
}

impl<S: SignalMap + Unpin> SignalMap for ByUnpin<S> {
    type Key = S::Key;
    type Value = S::Value;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<MapDiff<S::Key, S::Value>>> {
        futures_signals::signal_map::SignalMapExt::poll_map_change_unpin(&mut self.0, cx)
    }
}

/// Every simulated thread is on one OS thread.
pub struct Sendy<S>(pub S);

unsafe impl<S> Send for Sendy<S> {}
impl<S> Unpin for Sendy<S> {}

impl<S: Signal + Unpin> Signal for Sendy<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        Pin::new(&mut self.0).poll_change(cx)
    }
}

impl<S: SignalVec + Unpin> SignalVec for Sendy<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<VecDiff<S::Item>>> {
        Pin::new(&mut self.0).poll_vec_change(cx)
    }
}

impl<S: SignalMap + Unpin> SignalMap for Sendy<S> {
    type Key = S::Key;
    type Value = S::Value;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<MapDiff<S::Key, S::Value>>> {
        Pin::new(&mut self.0).poll_map_change(cx)
    }
}

/// The same, behind the k-th of the library's transparent wrappers.
pub fn wrap_sig<T: Debug + 'static>(k: usize, s: DynSignal<T>) -> DynSignal<T> {
    use futures_signals::signal::SignalExt;
    match k {
        0 => Box::pin(ByRef(s)),
        1 => Box::pin(Box::new(s) as Box<dyn Signal<Item = T> + Unpin>),
        2 => Box::pin(Pin::new(Box::new(s))),
        3 => Sendy(s).boxed(),
        4 => s.boxed_local(),
        5 => Box::pin(s.debug()),
        6 => Box::pin(ByUnpin(s)),
        _ => s,
    }
}

pub fn wrap_vec<T: Debug + 'static>(k: usize, s: DynVec<T>) -> DynVec<T> {
    use futures_signals::signal_vec::SignalVecExt;
    match k {
        0 => Box::pin(ByRef(s)),
        1 => Box::pin(Box::new(s) as Box<dyn SignalVec<Item = T> + Unpin>),
        2 => Box::pin(Pin::new(Box::new(s))),
        3 => Sendy(s).boxed(),
        4 => s.boxed_local(),
        5 => Box::pin(s.debug()),
        6 => Box::pin(ByUnpin(s)),
        _ => s,
    }
}

pub fn wrap_map<K: 'static, V: 'static>(k: usize, s: DynMap<K, V>) -> DynMap<K, V> {
    use futures_signals::signal_map::SignalMapExt;
    match k {
        0 => Box::pin(ByRef(s)),
        1 => Box::pin(Box::new(s) as Box<dyn SignalMap<Key = K, Value = V> + Unpin>),
        2 => Box::pin(Pin::new(Box::new(s))),
        3 => Sendy(s).boxed(),
        4 => s.boxed_local(),
        5 => Box::pin(ByUnpin(s)),
        _ => s,
    }
}

/// A future which wakes itself some times before it is ready.
pub struct Yields<T> {
    n: u32,
    out: Option<T>,
}

impl<T> Yields<T> {
    pub fn new(n: u32, out: T) -> Yields<T> {
        Yields { n, out: Some(out) }
    }
}

impl<T> Unpin for Yields<T> {}

impl<T> Future for Yields<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        pause();
        if self.n > 0 {
            self.n -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match self.out.take() {
            Some(v) => Poll::Ready(v),
            None => fail("polled-after-end", "a future was polled again after it had completed".into()),
        }
    }
}
