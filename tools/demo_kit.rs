// Helpers of the demonstrations (copied beside each of them).
#![allow(dead_code, unused_imports)]
use futures_signals::signal::Signal;
use futures_signals::signal_map::{MapDiff, SignalMap};
use futures_signals::signal_vec::{SignalVec, VecDiff};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};

/// Counts its wakes.
#[derive(Default)]
pub struct Count(pub AtomicUsize);

impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn counter() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count::default());
    let w = Waker::from(c.clone());
    (c, w)
}

impl Count {
    pub fn get(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
}

/// A waker which runs something when it is cloned, and something when it is woken.
pub struct Hook {
    pub on_clone: Mutex<Option<Box<dyn FnOnce() + Send>>>,
    pub on_wake: Mutex<Option<Box<dyn FnMut() + Send>>>,
    pub wakes: AtomicUsize,
}

impl Hook {
    pub fn new() -> Arc<Self> {
        Arc::new(Hook { on_clone: Mutex::new(None), on_wake: Mutex::new(None), wakes: AtomicUsize::new(0) })
    }
    pub fn waker(self: &Arc<Self>) -> Waker {
        unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(self.clone()) as *const (), &VTABLE)) }
    }
    fn woken(&self) {
        self.wakes.fetch_add(1, Ordering::SeqCst);
        let f = self.on_wake.lock().unwrap().take();
        if let Some(mut f) = f {
            f();
            let mut l = self.on_wake.lock().unwrap();
            if l.is_none() {
                *l = Some(f);
            }
        }
    }
}

static VTABLE: RawWakerVTable = RawWakerVTable::new(
    |p| unsafe {
        let h = &*(p as *const Hook);
        let f = h.on_clone.lock().unwrap().take();
        if let Some(f) = f {
            f();
        }
        Arc::increment_strong_count(p as *const Hook);
        RawWaker::new(p, &VTABLE)
    },
    |p| unsafe {
        let h = Arc::from_raw(p as *const Hook);
        h.woken();
    },
    |p| unsafe { (*(p as *const Hook)).woken() },
    |p| unsafe { drop(Arc::from_raw(p as *const Hook)) },
);

struct Inner<T> {
    queue: VecDeque<T>,
    ended: bool,
    told_end: bool,
    dropped: bool,
    polls: usize,
    waker: Option<Waker>,
}

/// The writing side of a scripted source.
pub struct Feed<T>(Arc<Mutex<Inner<T>>>);

/// A Signal, SignalVec or SignalMap which yields what is fed to it.
/// It must not be polled after its end.
pub struct Src<T>(Arc<Mutex<Inner<T>>>);

impl<T> Clone for Feed<T> {
    fn clone(&self) -> Self {
        Feed(self.0.clone())
    }
}

impl<T> Unpin for Src<T> {}

impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        if let Ok(mut i) = self.0.lock() {
            i.dropped = true;
        }
    }
}

pub fn source<T>() -> (Feed<T>, Src<T>) {
    let i = Arc::new(Mutex::new(Inner { queue: VecDeque::new(), ended: false, told_end: false, dropped: false, polls: 0, waker: None }));
    (Feed(i.clone()), Src(i))
}

impl<T> Feed<T> {
    pub fn push(&self, v: T) -> &Self {
        let w = {
            let mut i = self.0.lock().unwrap();
            i.queue.push_back(v);
            i.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
        self
    }
    pub fn end(&self) -> &Self {
        let w = {
            let mut i = self.0.lock().unwrap();
            i.ended = true;
            i.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
        self
    }
    pub fn dropped(&self) -> bool {
        self.0.lock().unwrap().dropped
    }
    pub fn polls(&self) -> usize {
        self.0.lock().unwrap().polls
    }
    pub fn told_end(&self) -> bool {
        self.0.lock().unwrap().told_end
    }
}

impl<T> Src<T> {
    fn next(&mut self, cx: &mut Context) -> Poll<Option<T>> {
        let mut i = self.0.lock().unwrap();
        i.polls += 1;
        if i.told_end {
            drop(i);
            panic!("polled after its end");
        }
        match i.queue.pop_front() {
            Some(v) => Poll::Ready(Some(v)),
            None if i.ended => {
                i.told_end = true;
                Poll::Ready(None)
            }
            None => {
                i.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// The same source as a Signal, SignalVec, SignalMap, Stream or Future.
pub struct Sig<T>(pub Src<T>);
pub struct Diffs<T>(pub Src<VecDiff<T>>);
pub struct MapDiffs<K, V>(pub Src<MapDiff<K, V>>);
pub struct Fut<T>(pub Src<T>);

impl<T> Signal for Sig<T> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.0.next(cx)
    }
}

impl<T> SignalVec for Diffs<T> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> {
        self.0.next(cx)
    }
}

impl<K, V> SignalMap for MapDiffs<K, V> {
    type Key = K;
    type Value = V;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<K, V>>> {
        self.0.next(cx)
    }
}

impl<T> Future for Fut<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<T> {
        match self.0.next(cx) {
            Poll::Ready(v) => Poll::Ready(v.expect("a value")),
            Poll::Pending => Poll::Pending,
        }
    }
}

pub fn sig<T>() -> (Feed<T>, Sig<T>) {
    let (f, s) = source();
    (f, Sig(s))
}

pub fn diffs<T>() -> (Feed<VecDiff<T>>, Diffs<T>) {
    let (f, s) = source();
    (f, Diffs(s))
}

pub fn map_diffs<K, V>() -> (Feed<MapDiff<K, V>>, MapDiffs<K, V>) {
    let (f, s) = source();
    (f, MapDiffs(s))
}

pub fn fut<T>() -> (Feed<T>, Fut<T>) {
    let (f, s) = source();
    (f, Fut(s))
}

/// Replays a VecDiff, which must be valid.
pub fn apply<T: std::fmt::Debug>(v: &mut Vec<T>, d: VecDiff<T>) {
    match d {
        VecDiff::Replace { values } => *v = values,
        VecDiff::InsertAt { index, value } => v.insert(index, value),
        VecDiff::UpdateAt { index, value } => v[index] = value,
        VecDiff::RemoveAt { index } => drop(v.remove(index)),
        VecDiff::Move { old_index, new_index } => {
            let x = v.remove(old_index);
            v.insert(new_index, x)
        }
        VecDiff::Push { value } => v.push(value),
        VecDiff::Pop {} => drop(v.pop().expect("Pop of an empty vector")),
        VecDiff::Clear {} => v.clear(),
    }
}

pub fn apply_map<K: Ord, V>(m: &mut BTreeMap<K, V>, d: MapDiff<K, V>) {
    match d {
        MapDiff::Replace { entries } => *m = entries.into_iter().collect(),
        MapDiff::Insert { key, value } => assert!(m.insert(key, value).is_none(), "Insert of a present key"),
        MapDiff::Update { key, value } => assert!(m.insert(key, value).is_some(), "Update of an absent key"),
        MapDiff::Remove { key } => assert!(m.remove(&key).is_some(), "Remove of an absent key"),
        MapDiff::Clear {} => m.clear(),
    }
}

/// Polls until Pending or the end. Returns whether it has ended.
pub fn drain<S: SignalVec>(s: &mut Pin<Box<S>>, w: &Waker, v: &mut Vec<S::Item>) -> bool
where
    S::Item: std::fmt::Debug,
{
    loop {
        match s.as_mut().poll_vec_change(&mut Context::from_waker(w)) {
            Poll::Ready(Some(d)) => apply(v, d),
            Poll::Ready(None) => return true,
            Poll::Pending => return false,
        }
    }
}

pub fn drain_map<S: SignalMap>(s: &mut Pin<Box<S>>, w: &Waker, m: &mut BTreeMap<S::Key, S::Value>) -> bool
where
    S::Key: Ord,
{
    loop {
        match s.as_mut().poll_map_change(&mut Context::from_waker(w)) {
            Poll::Ready(Some(d)) => apply_map(m, d),
            Poll::Ready(None) => return true,
            Poll::Pending => return false,
        }
    }
}

pub fn drain_sig<S: Signal>(s: &mut Pin<Box<S>>, w: &Waker, v: &mut Vec<S::Item>) -> bool {
    loop {
        match s.as_mut().poll_change(&mut Context::from_waker(w)) {
            Poll::Ready(Some(x)) => v.push(x),
            Poll::Ready(None) => return true,
            Poll::Pending => return false,
        }
    }
}

pub fn poll_sig<S: Signal>(s: &mut Pin<Box<S>>, w: &Waker) -> Poll<Option<S::Item>> {
    s.as_mut().poll_change(&mut Context::from_waker(w))
}

/// Runs on another thread; fails the demonstration if it takes too long.
pub fn within(secs: u64, f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || {
        f();
        let _ = tx.send(());
    });
    match rx.recv_timeout(std::time::Duration::from_secs(secs)) {
        Ok(()) => {
            let _ = h.join();
        }
        Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
            std::process::exit(1);
        }
        Err(_) => {
            eprintln!("it hangs");
            std::process::exit(1);
        }
    }
}
