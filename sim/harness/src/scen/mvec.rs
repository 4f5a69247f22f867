//! MutableVec: concurrent replay and convergence (C08), refinement of Vec (C09).

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::scen::stage::Values;
use futures_signals::signal_vec::{MutableVec, MutableVecLockMut, SignalVecExt, VecDiff};
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::ops::Bound;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Op {
    Push(u64),
    Insert(usize, u64),
    Set(usize, u64),
    Remove(usize),
    Pop,
    Clear,
    Move(usize, usize),
    Swap(usize, usize),
    Reverse,
    Retain(u64),
    Drain(usize, usize, usize, usize),
    Truncate(usize),
    Extend(Vec<u64>),
    Replace(Vec<u64>),
    Apply(usize, usize, usize, Vec<u64>),
    Reserve,
    Misuse(usize, usize, usize),
}

fn draw_op(c: &mut Choices, vals: &Values, w: &[u32]) -> Op {
    let (i, j) = (c.many(8), c.many(8));
    match c.weighted(w) {
        0 => Op::Push(vals.next(c)),
        1 => Op::Insert(i, vals.next(c)),
        2 => Op::Set(i, vals.next(c)),
        3 => Op::Remove(i),
        4 => Op::Pop,
        5 => Op::Clear,
        6 => Op::Move(i, j),
        7 => Op::Replace((0..if c.pct(2) { c.u(40) } else { c.many(5) }).map(|_| vals.next(c)).collect()),
        8 => Op::Reserve,
        // those below may send several diffs
        9 => Op::Swap(i, j),
        10 => Op::Reverse,
        11 => Op::Retain(c.below(32)),
        12 => Op::Drain(i, j, c.u(6), c.u(9)),
        13 => Op::Truncate(i),
        14 => Op::Extend((0..c.many(4)).map(|_| vals.next(c)).collect()),
        16 => Op::Misuse(c.u(9), i, j),
        _ => Op::Apply(c.u(8), i, j, (0..4).map(|_| vals.next(c)).collect()),
    }
}

const SINGLE: [u32; 9] = [8, 6, 5, 5, 3, 1, 5, 2, 1];
const ALL: [u32; 17] = [8, 6, 5, 4, 3, 1, 5, 2, 1, 4, 2, 3, 3, 2, 2, 4, 2];

fn op_weights(c: &mut Choices, single: bool) -> Vec<u32> {
    let mut w: Vec<u32> = if single { SINGLE.to_vec() } else { ALL.to_vec() };
    if c.pct(40) {
        for x in w.iter_mut() {
            if c.pct(25) {
                *x *= 5;
            }
        }
    }
    w
}

/// The methods which exist twice: for Copy and for Clone values.
trait Flavour<A> {
    fn push(l: &mut MutableVecLockMut<'_, A>, v: A);
    fn insert(l: &mut MutableVecLockMut<'_, A>, i: usize, v: A);
    fn set(l: &mut MutableVecLockMut<'_, A>, i: usize, v: A);
    fn replace(l: &mut MutableVecLockMut<'_, A>, v: Vec<A>);
}

struct Copied;
struct Cloned;

impl<A: Copy> Flavour<A> for Copied {
    fn push(l: &mut MutableVecLockMut<'_, A>, v: A) {
        l.push(v)
    }
    fn insert(l: &mut MutableVecLockMut<'_, A>, i: usize, v: A) {
        l.insert(i, v)
    }
    fn set(l: &mut MutableVecLockMut<'_, A>, i: usize, v: A) {
        l.set(i, v)
    }
    fn replace(l: &mut MutableVecLockMut<'_, A>, v: Vec<A>) {
        l.replace(v)
    }
}

impl<A: Clone> Flavour<A> for Cloned {
    fn push(l: &mut MutableVecLockMut<'_, A>, v: A) {
        l.push_cloned(v)
    }
    fn insert(l: &mut MutableVecLockMut<'_, A>, i: usize, v: A) {
        l.insert_cloned(i, v)
    }
    fn set(l: &mut MutableVecLockMut<'_, A>, i: usize, v: A) {
        l.set_cloned(i, v)
    }
    fn replace(l: &mut MutableVecLockMut<'_, A>, v: Vec<A>) {
        l.replace_cloned(v)
    }
}

/// Does `op` to the real vector and to the model; both must agree on every result.
/// Returns whether observers may hear of it.
fn apply<A: Clone + PartialEq + Debug, F: Flavour<A>>(
    l: &mut MutableVecLockMut<'_, A>,
    model: &mut Vec<A>,
    op: &Op,
    mk: &dyn Fn(u64) -> A,
) -> bool {
    let n = model.len();
    let same = |a: &Option<A>, b: &Option<A>| check!(a == b, "result", "{:?}: returned {:?}, expected {:?}", op, a, b);
    match op {
        Op::Push(v) => {
            let v = mk(*v);
            model.push(v.clone());
            F::push(l, v);
            true
        }
        Op::Insert(i, v) => {
            let i = i % (n + 1);
            let v = mk(*v);
            model.insert(i, v.clone());
            F::insert(l, i, v);
            true
        }
        Op::Set(i, v) => {
            if n == 0 {
                return false;
            }
            let v = mk(*v);
            model[i % n] = v.clone();
            F::set(l, i % n, v);
            true
        }
        Op::Remove(i) => {
            if n == 0 {
                return false;
            }
            let want = model.remove(i % n);
            let got = l.remove(i % n);
            same(&Some(got), &Some(want));
            true
        }
        Op::Pop => {
            let want = model.pop();
            let got = l.pop();
            same(&got, &want);
            n > 0
        }
        Op::Clear => {
            model.clear();
            l.clear();
            n > 0
        }
        Op::Move(i, j) => {
            if n == 0 {
                return false;
            }
            let v = model.remove(i % n);
            model.insert(j % n, v);
            l.move_from_to(i % n, j % n);
            i % n != j % n
        }
        Op::Swap(i, j) => {
            if n == 0 {
                return false;
            }
            model.swap(i % n, j % n);
            l.swap(i % n, j % n);
            i % n != j % n
        }
        Op::Reverse => {
            model.reverse();
            l.reverse();
            n > 1
        }
        Op::Retain(mask) => {
            let mut k = 0;
            let mut order = vec![];
            let old = model.clone();
            model.retain(|_| {
                k += 1;
                (mask >> (k % 5)) & 1 == 0
            });
            let mut k = 0;
            l.retain(|v| {
                order.push(v.clone());
                k += 1;
                (mask >> (k % 5)) & 1 == 0
            });
            check!(order == old, "result", "retain asked about {:?}, the vector was {:?}", order, old);
            model.len() != n
        }
        Op::Drain(i, j, take, form) => {
            let (a, b) = (i % (n + 1), j % (n + 1));
            let (mut a, mut b) = (a.min(b), a.max(b));
            let mut got = vec![];
            {
                let mut d = match form {
                    0 => l.drain(a..b),
                    1 if b > a => l.drain(a..=b - 1),
                    2 => {
                        b = n;
                        l.drain(a..)
                    }
                    3 => {
                        a = 0;
                        l.drain(..b)
                    }
                    4 => {
                        a = 0;
                        b = n;
                        l.drain(..)
                    }
                    // excluded starts
                    5 if a > 0 => l.drain((Bound::Excluded(a - 1), Bound::Excluded(b))),
                    6 if a > 0 => {
                        b = n;
                        l.drain((Bound::Excluded(a - 1), Bound::Unbounded))
                    }
                    7 if a > 0 && b > 0 => l.drain((Bound::Excluded(a - 1), Bound::Included(b - 1))),
                    8 if b > 0 => {
                        a = 0;
                        l.drain(..=b - 1)
                    }
                    _ => l.drain((Bound::Included(a), Bound::Excluded(b))),
                };
                // from both ends
                for k in 0..*take {
                    got.extend(if (k + form) % 3 == 2 { d.next_back() } else { d.next() });
                }
            }
            let mut rest = model.drain(a..b);
            let mut want: Vec<A> = vec![];
            for k in 0..*take {
                want.extend(if (k + form) % 3 == 2 { rest.next_back() } else { rest.next() });
            }
            drop(rest);
            check!(got == want, "result", "drain({}..{}) of {} elements gave {:?}, expected {:?}", a, b, n, got, want);
            a != b
        }
        Op::Truncate(k) => {
            model.truncate(*k);
            l.truncate(*k);
            model.len() != n
        }
        Op::Extend(vs) => {
            let vs: Vec<A> = vs.iter().map(|v| mk(*v)).collect();
            model.extend(vs.iter().cloned());
            let some = !vs.is_empty();
            l.extend(vs);
            some
        }
        Op::Replace(vs) => {
            let vs: Vec<A> = vs.iter().map(|v| mk(*v)).collect();
            *model = vs.clone();
            F::replace(l, vs);
            true
        }
        Op::Apply(kind, i, j, vs) => {
            let value = mk(vs[0]);
            let d = match kind {
                0 => VecDiff::Push { value },
                1 => VecDiff::InsertAt { index: i % (n + 1), value },
                2 if n > 0 => VecDiff::UpdateAt { index: i % n, value },
                3 if n > 0 => VecDiff::RemoveAt { index: i % n },
                4 if n > 0 => VecDiff::Move { old_index: i % n, new_index: j % n },
                5 if n > 0 => VecDiff::Pop {},
                6 => VecDiff::Clear {},
                _ => VecDiff::Replace { values: vs.iter().take(*i % 5).map(|v| mk(*v)).collect() },
            };
            let silent = match &d {
                VecDiff::Clear {} => n == 0,
                VecDiff::Move { old_index, new_index } => old_index == new_index,
                _ => false,
            };
            clone_diff(&d).apply_to_vec(model);
            MutableVecLockMut::apply_vec_diff(l, d);
            !silent
        }
        Op::Reserve => {
            l.reserve(3);
            l.reserve_exact(2);
            l.shrink_to_fit();
            check!(l.capacity() >= n, "result", "capacity {} for {} elements", l.capacity(), n);
            false
        }
        // An index which is out of bounds panics, as for a Vec, and must not do anything else.
        Op::Misuse(kind, i, j) => {
            fault("index-out-of-bounds");
            let (bad, ok) = (n + i, if n > 0 { j % n } else { 0 });
            let v = mk(0);
            let panics = must_panic(|| match kind {
                0 => drop(l.remove(bad)),
                1 => F::insert(l, bad + 1, v),
                2 => F::set(l, bad, v),
                3 => drop(l.drain(ok..bad + 1)),
                4 => drop(l.drain((Bound::Included(ok + 1), Bound::Excluded(ok)))),
                5 if n > 0 => l.swap(ok, bad),
                6 if n > 0 => l.swap(bad, ok),
                7 if n > 0 => l.move_from_to(ok, bad),
                _ => l.move_from_to(bad, bad + 1),
            });
            check!(panics, "result", "{:?} of {} elements did not panic", op, n);
            false
        }
    }
}

// --------------------------------------------------------------------- C08

struct World {
    model: RefCell<Vec<u64>>,
    /// every content the vector has had
    hist: RefCell<Vec<Vec<u64>>>,
    busy: Cell<u32>,
    handles: Cell<i64>,
}

struct Reader {
    task: Task,
    replay: Shared<Vec<u64>>,
    trail: Rc<Trail<Vec<u64>>>,
}

fn consumer(c: &mut Choices, w: &Rc<World>, m: &MutableVec<u64>, name: &str, single: bool) -> Reader {
    let d = Drive::draw(c, true);
    let kind = c.u(3);
    let replay: Shared<Vec<u64>> = shared(vec![]);
    let (r2, w2) = (replay.clone(), w.clone());
    // where it may be in the history: not before its creation
    let pos = Cell::new(w.hist.borrow().len() - 1);
    let trail = Rc::new(Trail { shown: Default::default(), made: (w.hist.borrow().len(), Cell::new(usize::MAX)) });
    let t2 = trail.clone();
    let on = move |o: Obs<VecDiff<u64>>, _, _| match o {
        Obs::Item(d) => {
            note(|| format!("gets {:?}", d));
            ev(h(&d));
            let mut r = r2.borrow_mut();
            apply_vec(&mut r, d, "MutableVec signal");
            t2.shown.borrow_mut().push(r.clone());
            if single {
                let hist = w2.hist.borrow();
                let at = (pos.get()..hist.len()).find(|&k| hist[k] == *r);
                // The change which is being made right now is not in the history yet.
                if let Some(k) = at {
                    pos.set(k);
                } else {
                    check!(
                        w2.busy.get() > 0,
                        "order",
                        "shows {:?}, but since its last value the vector went through {:?}",
                        r,
                        &hist[pos.get()..]
                    );
                }
            }
        }
        Obs::Pending => {
            if !is_woken(cur()) && w2.busy.get() == 0 {
                let m = w2.model.borrow();
                check!(*r2.borrow() == *m, "stale", "goes to sleep showing {:?}, but the vector holds {:?}", r2.borrow(), m);
            }
        }
        Obs::End => {
            note(|| "sees the end".into());
            check!(w2.handles.get() <= 0, "ended-early", "ended although the MutableVec is alive");
            let m = w2.model.borrow();
            check!(*r2.borrow() == *m, "stale", "ends showing {:?}, but the vector held {:?}", r2.borrow(), m);
        }
    };
    let task = match kind {
        0 => {
            let mut s = Box::pin(m.signal_vec());
            trail.made.1.set(w.hist.borrow().len());
            Task::spawn(name, d, move |cx| futures_signals::signal_vec::SignalVec::poll_vec_change(s.as_mut(), cx), on)
        }
        1 => {
            let mut s = Box::pin(m.signal_vec_cloned());
            trail.made.1.set(w.hist.borrow().len());
            Task::spawn(name, d, move |cx| futures_signals::signal_vec::SignalVec::poll_vec_change(s.as_mut(), cx), on)
        }
        _ => {
            let mut s = Box::pin(m.signal_vec().to_stream());
            trail.made.1.set(w.hist.borrow().len());
            Task::spawn(name, d, move |cx| s.as_mut().poll_next(cx), on)
        }
    };
    Reader { task, replay, trail }
}

/// Takes a handle out and drops it; counts it only when it is gone.
fn release(w: &World, m: MutableVec<u64>) {
    // counted first: its signals may end as soon as the last one is being dropped
    w.handles.set(w.handles.get() - 1);
    drop(m);
}

pub fn c08() {
    let c = choices();
    let vals = Values::new();
    let single = c.pct(50);
    let weights = op_weights(c, single);
    let init: Vec<u64> = (0..c.many(5)).map(|_| vals.next(c)).collect();
    let m = match c.u(5) {
        0 => MutableVec::new_with_values(init.clone()),
        1 => MutableVec::from(init.clone()),
        2 => match serde_json::from_str(&serde_json::to_string(&init).unwrap()) {
            Ok(m) => m,
            Err(e) => fail("content", format!("{:?} is not deserialized: {}", init, e)),
        },
        k => {
            let m = if k == 3 { MutableVec::with_capacity(c.u(4)) } else { MutableVec::default() };
            m.lock_mut().extend(init.clone());
            m
        }
    };
    let w = Rc::new(World {
        model: RefCell::new(init.clone()),
        hist: RefCell::new(vec![init]),
        busy: Cell::new(0),
        handles: Cell::new(1),
    });
    let consumers: Shared<Vec<Reader>> = shared(vec![]);
    for k in 0..c.range(1, 2) {
        let t = consumer(c, &w, &m, ["reader0", "reader1"][k], single);
        consumers.borrow_mut().push(t);
    }
    let quiet = |w: &World| {
        for k in consumers.borrow().iter() {
            let (t, r) = (&k.task, &k.replay);
            check_trail(&k.trail, &w.hist.borrow(), &vec![], single, !t.cancelled());
            if t.cancelled() {
                continue;
            }
            if w.handles.get() > 0 {
                check!(!t.ended(), "ended-early", "a signal ended although the MutableVec is alive");
            } else {
                check!(t.ended(), "not-ended", "the MutableVec is gone, but its signal is parked");
            }
            check!(
                *r.borrow() == *w.model.borrow(),
                "stale",
                "everything is quiet, a signal shows {:?} but the vector holds {:?}",
                r.borrow(),
                w.model.borrow()
            );
        }
    };
    let rounds = c.range(1, 3);
    let mut main = Some(m);
    for round in 0..rounds {
        let last = round + 1 == rounds;
        for k in 0..c.range(1, 3) {
            let m = main.as_ref().unwrap().clone();
            w.handles.set(w.handles.get() + 1);
            let w = w.clone();
            let batches: Vec<Vec<Op>> = (0..c.many(4)).map(|_| (0..c.range(1, 3)).map(|_| draw_op(c, &vals, &weights)).collect()).collect();
            let cloned = c.pct(50);
            let look = c.pct(30);
            let late = c.pct(20);
            let cs = consumers.clone();
            spawn(["writer0", "writer1", "writer2"][k], move || {
                for (bi, b) in batches.iter().enumerate() {
                    pause();
                    {
                        let mut l = m.lock_mut();
                        for op in b {
                            w.busy.set(w.busy.get() + 1);
                            {
                                let mut model = w.model.borrow_mut();
                                if cloned {
                                    apply::<u64, Cloned>(&mut l, &mut model, op, &|v| v);
                                } else {
                                    apply::<u64, Copied>(&mut l, &mut model, op, &|v| v);
                                }
                                note(|| format!("{:?} -> {:?}", op, model));
                                w.hist.borrow_mut().push(model.clone());
                            }
                            w.busy.set(w.busy.get() - 1);
                            pause();
                            check!(
                                l.as_slice() == &w.model.borrow()[..],
                                "content",
                                "the guard shows {:?}, the model {:?}",
                                l.as_slice(),
                                w.model.borrow()
                            );
                        }
                    }
                    if look {
                        let l = m.lock_ref();
                        pause();
                        check!(
                            l.as_slice() == &w.model.borrow()[..],
                            "content",
                            "a reader sees {:?} while the vector holds {:?}",
                            l.as_slice(),
                            w.model.borrow()
                        );
                        drop(l);
                        let lo = w.hist.borrow().len() - 1;
                        let json = bi % 2 == 0;
                        let text = if json { serde_json::to_string(&m).unwrap_or_default() } else { format!("{:?}", m) };
                        let fits =
                            |m: &Vec<u64>| text == if json { serde_json::to_string(m).unwrap() } else { format!("MutableVec({:?})", m) };
                        let hist = w.hist.borrow();
                        // within one operation with several steps readers are kept out
                        check!(hist[lo..].iter().any(fits), "content", "the vector is shown as {}, but it went through {:?}", text, &hist[lo..]);
                    }
                    if late && bi == 0 {
                        let t = consumer(choices(), &w, &m, "late-reader", single);
                        cs.borrow_mut().push(t);
                    }
                }
                release(&w, m);
            });
        }
        if last && c.pct(50) {
            let (m, w) = (main.take().unwrap(), w.clone());
            spawn("dropper", move || {
                pause();
                release(&w, m);
            });
        }
        quiesce();
        quiet(&w);
    }
    if let Some(m) = main.take() {
        let w2 = w.clone();
        spawn("dropper", move || release(&w2, m));
        quiesce();
        quiet(&w);
    }
    let all: Vec<Task> = consumers.borrow().iter().map(|x| x.task.clone()).collect();
    stop_all(&all);
}

// --------------------------------------------------------------------- C09

struct Observer<A> {
    task: Task,
    replay: Shared<Vec<A>>,
    diffs: Rc<Cell<u64>>,
}

fn observe<A: Clone + Debug + 'static>(c: &mut Choices, s: futures_signals::signal_vec::MutableSignalVec<A>) -> Observer<A> {
    let mut d = Drive::draw(c, false);
    d.cancel_after = if c.pct(10) { Some(c.below(6) as u32) } else { None };
    let replay: Shared<Vec<A>> = shared(vec![]);
    let diffs = Rc::new(Cell::new(0));
    let (r2, d2) = (replay.clone(), diffs.clone());
    let mut s = Box::pin(s);
    let task = Task::spawn(
        "observer",
        d,
        move |cx| futures_signals::signal_vec::SignalVec::poll_vec_change(s.as_mut(), cx),
        move |o, _, _| match o {
            Obs::Item(d) => {
                note(|| format!("gets {:?}", d));
                ev(h(&d));
                d2.set(d2.get() + 1);
                apply_vec(&mut r2.borrow_mut(), d, "MutableVec signal");
            }
            _ => {}
        },
    );
    Observer { task, replay, diffs }
}

fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn refine<A: Clone + Ord + std::hash::Hash + Debug + 'static, F: Flavour<A>>(
    mk: &dyn Fn(u64) -> A,
    signal: &dyn Fn(&MutableVec<A>) -> futures_signals::signal_vec::MutableSignalVec<A>,
    json: &dyn Fn(&MutableVec<A>, &Vec<A>),
) {
    let c = choices();
    let vals = Values::new();
    let weights = op_weights(c, false);
    let init: Vec<A> = (0..c.many(5)).map(|_| mk(vals.next(c))).collect();
    let mut model = init.clone();
    let m = match c.u(5) {
        0 => MutableVec::from(init),
        1 => MutableVec::new_with_values(init),
        k => {
            let m = match k {
                2 => MutableVec::with_capacity(c.u(4)),
                3 => MutableVec::new(),
                _ => MutableVec::default(),
            };
            check!(m.lock_ref().is_empty(), "content", "a new MutableVec is not empty");
            m.lock_mut().extend(init);
            m
        }
    };
    let other = m.clone();
    let mut obs: Vec<Observer<A>> = vec![];
    for _ in 0..c.u(3) {
        obs.push(observe(c, signal(&m)));
    }
    for step in 0..1 + c.many(10) {
        let op = draw_op(c, &vals, &weights);
        let calm = c.pct(60);
        if calm {
            quiesce();
        }
        let before: Vec<(u64, u64)> = obs.iter().map(|o| (o.diffs.get(), o.task.wakes())).collect();
        let heard = {
            let mut l = if c.pct(50) { m.lock_mut() } else { other.lock_mut() };
            note(|| format!("{:?}", op));
            let heard = apply::<A, F>(&mut l, &mut model, &op, mk);
            check!(l.as_slice() == &model[..] && l.len() == model.len(), "content", "{:?}: the vector holds {:?}, expected {:?}", op, l.as_slice(), model);
            heard
        };
        {
            let l = m.lock_ref();
            check!(*l == model[..], "content", "{:?}: a reader sees {:?}, expected {:?}", op, l.as_slice(), model);
            let (a, b) = (c.u(model.len() + 1), c.u(model.len() + 1));
            let (a, b) = (a.min(b), a.max(b));
            check!(
                l[a..b] == model[a..b] && l[..] == model[..] && l[a..] == model[a..] && l[..b] == model[..b],
                "content",
                "slices of the guard differ from those of {:?}",
                model
            );
            let bs: &[A] = std::borrow::Borrow::borrow(&l);
            let rs: &[A] = l.as_ref();
            check!(bs == &model[..] && rs == &model[..] && l == &model[..], "content", "views of the guard differ from {:?}", model);
            check!(hash(&l) == hash(&model[..]), "content", "the guard's hash is not that of {:?}", model);
            let o = other.lock_ref();
            check!(l == o && l.cmp(&o).is_eq() && l.partial_cmp(&o).map_or(false, |x| x.is_eq()), "content", "two guards of one vector differ");
            drop(o);
            for (i, v) in model.iter().enumerate() {
                check!(l[i] == *v && l.get(i) == Some(v), "content", "index {} is {:?}, expected {:?}", i, l[i], v);
            }
        }
        let text = format!("{:?}", m);
        check!(text == format!("MutableVec({:?})", model), "content", "{:?} is shown as {}", model, text);
        json(&m, &model);
        if calm {
            quiesce();
            for (o, b) in obs.iter().zip(before) {
                if o.task.cancelled() {
                    continue;
                }
                check!(*o.replay.borrow() == model, "stale", "{:?}: an observer shows {:?}, expected {:?}", op, o.replay.borrow(), model);
                if !heard {
                    check!(o.diffs.get() == b.0, "noise", "{:?} changed nothing, but {} diff(s) were sent", op, o.diffs.get() - b.0);
                    check!(o.task.wakes() == b.1, "noise", "{:?} changed nothing, but woke an observer", op);
                }
            }
        }
        if step < 3 && c.pct(20) {
            obs.push(observe(c, signal(&other)));
        }
    }
    quiesce();
    for o in obs.iter().filter(|o| !o.task.cancelled()) {
        check!(*o.replay.borrow() == model, "stale", "an observer shows {:?}, expected {:?}", o.replay.borrow(), model);
        check!(!o.task.ended(), "ended-early", "an observer ended although the MutableVec is alive");
    }
    drop(m);
    drop(other);
    quiesce();
    for o in obs.iter().filter(|o| !o.task.cancelled()) {
        check!(o.task.ended(), "not-ended", "the MutableVec is gone, but an observer waits");
    }
    let all: Vec<Task> = obs.iter().map(|o| o.task.clone()).collect();
    stop_all(&all);
    drop(obs);
    drop(model);
    check_no_leak("MutableVec and its signals are gone");
}

pub fn c09_copied() {
    refine::<u64, Copied>(&|v| v, &|m| m.signal_vec(), &|m, model| {
        let text = serde_json::to_string(m).unwrap_or_default();
        check!(text == serde_json::to_string(model).unwrap(), "content", "{:?} is serialized as {}", model, text);
        match serde_json::from_str::<MutableVec<u64>>(&text) {
            Ok(x) => check!(x.lock_ref()[..] == model[..], "content", "{} is deserialized as {:?}", text, x),
            Err(e) => fail("content", format!("{} is not deserialized: {}", text, e)),
        }
    });
}

pub fn c09_cloned() {
    refine::<Tok, Cloned>(&Tok::new, &|m| m.signal_vec_cloned(), &|_, _| {});
}
