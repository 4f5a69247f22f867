//! MutableBTreeMap: its signal_map (C10) and the sorted views (C11).

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::scen::stage::Values;
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, MutableBTreeMapLockMut, SignalMap};
use futures_signals::signal_vec::{SignalVec, SignalVecExt, VecDiff};
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Op {
    Insert(u64, u64),
    Remove(u64),
    Clear,
    Replace(Vec<(u64, u64)>),
}

fn draw_op(c: &mut Choices, vals: &Values, w: &[u32], keys: u64) -> Op {
    match c.weighted(w) {
        0 => Op::Insert(c.below(keys), vals.next(c)),
        1 => Op::Remove(c.below(keys)),
        2 => Op::Clear,
        _ => Op::Replace((0..c.many(5)).map(|_| (c.below(keys), vals.next(c))).collect()),
    }
}

trait Flavour<K, V> {
    fn insert(l: &mut MutableBTreeMapLockMut<'_, K, V>, k: K, v: V) -> Option<V>;
    fn replace(l: &mut MutableBTreeMapLockMut<'_, K, V>, v: BTreeMap<K, V>);
}

struct Copied;
struct Cloned;

impl<K: Ord + Copy, V: Copy> Flavour<K, V> for Copied {
    fn insert(l: &mut MutableBTreeMapLockMut<'_, K, V>, k: K, v: V) -> Option<V> {
        l.insert(k, v)
    }
    fn replace(l: &mut MutableBTreeMapLockMut<'_, K, V>, v: BTreeMap<K, V>) {
        l.replace(v)
    }
}

impl<K: Ord + Clone, V: Clone> Flavour<K, V> for Cloned {
    fn insert(l: &mut MutableBTreeMapLockMut<'_, K, V>, k: K, v: V) -> Option<V> {
        l.insert_cloned(k, v)
    }
    fn replace(l: &mut MutableBTreeMapLockMut<'_, K, V>, v: BTreeMap<K, V>) {
        l.replace_cloned(v)
    }
}

/// Does `op` to the real map and to the model. Returns whether observers may hear of it.
fn apply<K: Ord + Clone + Debug, V: Clone + PartialEq + Debug, F: Flavour<K, V>>(
    l: &mut MutableBTreeMapLockMut<'_, K, V>,
    model: &mut BTreeMap<K, V>,
    op: &Op,
    mk: &dyn Fn(u64) -> K,
    mv: &dyn Fn(u64) -> V,
) -> bool {
    match op {
        Op::Insert(k, v) => {
            let v = mv(*v);
            let want = model.insert(mk(*k), v.clone());
            let got = F::insert(l, mk(*k), v);
            check!(got == want, "result", "{:?}: returned {:?}, expected {:?}", op, got, want);
            true
        }
        Op::Remove(k) => {
            let want = model.remove(&mk(*k));
            let got = l.remove(&mk(*k));
            check!(got == want, "result", "{:?}: returned {:?}, expected {:?}", op, got, want);
            want.is_some()
        }
        Op::Clear => {
            let some = !model.is_empty();
            model.clear();
            l.clear();
            some
        }
        Op::Replace(e) => {
            let new: BTreeMap<K, V> = e.iter().map(|(k, v)| (mk(*k), mv(*v))).collect();
            *model = new.clone();
            F::replace(l, new);
            true
        }
    }
}

struct World {
    model: RefCell<BTreeMap<u64, u64>>,
    hist: RefCell<Vec<BTreeMap<u64, u64>>>,
    busy: Cell<u32>,
    handles: Cell<i64>,
}

/// What a consumer shows, in a form that can be compared with the map.
type View = Vec<(u64, u64)>;

struct Consumer {
    task: Task,
    view: Shared<View>,
    keys_only: bool,
    trail: Rc<Trail<View>>,
}

fn want(m: &BTreeMap<u64, u64>, keys_only: bool) -> View {
    m.iter().map(|(k, v)| (*k, if keys_only { 0 } else { *v })).collect()
}

fn consumer(c: &mut Choices, w: &Rc<World>, m: &MutableBTreeMap<u64, u64>, name: &str, views: bool) -> Consumer {
    let d = Drive::draw(c, true);
    let view: Shared<View> = shared(vec![]);
    let pos = Rc::new(Cell::new(w.hist.borrow().len() - 1));
    let kind = c.u(3);
    let keys_only = views && kind == 0;
    let trail = Rc::new(Trail { shown: Default::default(), made: (w.hist.borrow().len(), Cell::new(usize::MAX)) });
    let judge = {
        let trail = trail.clone();
        let (view, w, pos) = (view.clone(), w.clone(), pos.clone());
        move |o: Obs<()>| match o {
            Obs::Item(()) => {
                let r = view.borrow();
                note(|| format!("shows {:?}", r));
                trail.shown.borrow_mut().push(r.clone());
                let hist = w.hist.borrow();
                match (pos.get()..hist.len()).find(|&k| want(&hist[k], keys_only) == *r) {
                    Some(k) => pos.set(k),
                    None => check!(
                        w.busy.get() > 0,
                        "order",
                        "shows {:?}, but since its last value the map went through {:?}",
                        r,
                        &hist[pos.get()..]
                    ),
                }
            }
            Obs::Pending => {
                if !is_woken(cur()) && w.busy.get() == 0 {
                    let m = w.model.borrow();
                    check!(*view.borrow() == want(&m, keys_only), "stale", "goes to sleep showing {:?}, but the map holds {:?}", view.borrow(), m);
                }
            }
            Obs::End => {
                note(|| "sees the end".into());
                check!(w.handles.get() <= 0, "ended-early", "ended although the MutableBTreeMap is alive");
                let m = w.model.borrow();
                check!(*view.borrow() == want(&m, keys_only), "stale", "ends showing {:?}, but the map held {:?}", view.borrow(), m);
            }
        }
    };
    let task = if views {
        let v2 = view.clone();
        if kind == 0 {
            let keys = RefCell::new(vec![]);
            let on = move |o: Obs<VecDiff<u64>>, _, _| match o {
                Obs::Item(d) => {
                    note(|| format!("gets {:?}", d));
                    ev(h(&d));
                    apply_vec(&mut keys.borrow_mut(), d, "keys");
                    *v2.borrow_mut() = keys.borrow().iter().map(|k| (*k, 0)).collect();
                    judge(Obs::Item(()))
                }
                Obs::Pending => judge(Obs::Pending),
                Obs::End => judge(Obs::End),
            };
            if c.pct(30) {
                let mut s = Box::pin(m.signal_vec_keys().to_stream());
                trail.made.1.set(w.hist.borrow().len());
            Task::spawn(name, d, move |cx| s.as_mut().poll_next(cx), on)
            } else {
                let mut s = Box::pin(m.signal_vec_keys());
                trail.made.1.set(w.hist.borrow().len());
            Task::spawn(name, d, move |cx| s.as_mut().poll_vec_change(cx), on)
            }
        } else {
            let mut s = Box::pin(if kind == 1 { m.entries_cloned() } else { m.signal_vec_entries() });
            let on = move |o: Obs<VecDiff<(u64, u64)>>, _, _| match o {
                Obs::Item(d) => {
                    note(|| format!("gets {:?}", d));
                    ev(h(&d));
                    apply_vec(&mut v2.borrow_mut(), d, "entries");
                    judge(Obs::Item(()))
                }
                Obs::Pending => judge(Obs::Pending),
                Obs::End => judge(Obs::End),
            };
            trail.made.1.set(w.hist.borrow().len());
            Task::spawn(name, d, move |cx| s.as_mut().poll_vec_change(cx), on)
        }
    } else {
        let v2 = view.clone();
        let replay = RefCell::new(BTreeMap::new());
        let on = move |o: Obs<MapDiff<u64, u64>>, _, _| match o {
            Obs::Item(d) => {
                note(|| format!("gets {:?}", d));
                ev(h(&d));
                apply_map(&mut replay.borrow_mut(), d, "MutableBTreeMap signal");
                *v2.borrow_mut() = want(&replay.borrow(), false);
                judge(Obs::Item(()))
            }
            Obs::Pending => judge(Obs::Pending),
            Obs::End => judge(Obs::End),
        };
        let mut s = Box::pin(if kind == 0 { m.signal_map() } else { m.signal_map_cloned() });
        trail.made.1.set(w.hist.borrow().len());
        Task::spawn(name, d, move |cx| s.as_mut().poll_map_change(cx), on)
    };
    Consumer { task, view, keys_only, trail }
}

fn release(w: &World, m: MutableBTreeMap<u64, u64>) {
    w.handles.set(w.handles.get() - 1);
    drop(m);
}

fn concurrent(views: bool) {
    let c = choices();
    let vals = Values::new();
    let weights: Vec<u32> = vec![8, 5, 1, if c.pct(50) { 3 } else { 1 }];
    let keys = 2 + c.many(6) as u64;
    let init: BTreeMap<u64, u64> = (0..c.many(5)).map(|_| (c.below(keys), vals.next(c))).collect();
    let m = match c.u(5) {
        0 => MutableBTreeMap::with_values(init.clone()),
        1 => MutableBTreeMap::from(init.clone()),
        2 => match serde_json::from_str(&serde_json::to_string(&init).unwrap()) {
            Ok(m) => m,
            Err(e) => fail("content", format!("{:?} is not deserialized: {}", init, e)),
        },
        k => {
            let m = if k == 3 { MutableBTreeMap::new() } else { MutableBTreeMap::default() };
            check!(m.lock_ref().is_empty(), "content", "a new MutableBTreeMap is not empty");
            for (k, v) in init.iter() {
                m.lock_mut().insert(*k, *v);
            }
            m
        }
    };
    let w = Rc::new(World {
        model: RefCell::new(init.clone()),
        hist: RefCell::new(vec![init]),
        busy: Cell::new(0),
        handles: Cell::new(1),
    });
    let consumers: Shared<Vec<Consumer>> = shared(vec![]);
    for k in 0..c.range(1, 2) {
        let t = consumer(c, &w, &m, ["reader0", "reader1"][k], views);
        consumers.borrow_mut().push(t);
    }
    let quiet = |w: &World| {
        for k in consumers.borrow().iter() {
            let hist: Vec<View> = w.hist.borrow().iter().map(|m| want(m, k.keys_only)).collect();
            check_trail(&k.trail, &hist, &vec![], true, !k.task.cancelled());
            if k.task.cancelled() {
                continue;
            }
            if w.handles.get() > 0 {
                check!(!k.task.ended(), "ended-early", "a signal ended although the MutableBTreeMap is alive");
            } else {
                check!(k.task.ended(), "not-ended", "the MutableBTreeMap is gone, but its signal is parked");
            }
            let m = w.model.borrow();
            check!(
                *k.view.borrow() == want(&m, k.keys_only),
                "stale",
                "everything is quiet, a signal shows {:?} but the map holds {:?}",
                k.view.borrow(),
                m
            );
        }
    };
    let rounds = c.range(1, 3);
    let mut main = Some(m);
    for round in 0..rounds {
        for k in 0..c.range(1, 3) {
            let m = main.as_ref().unwrap().clone();
            w.handles.set(w.handles.get() + 1);
            let w = w.clone();
            let batches: Vec<Vec<Op>> =
                (0..c.many(4)).map(|_| (0..c.range(1, 3)).map(|_| draw_op(c, &vals, &weights, keys)).collect()).collect();
            let cloned = c.pct(50);
            let look = c.pct(30);
            let late = c.pct(20);
            let cs = consumers.clone();
            spawn(["writer0", "writer1", "writer2"][k], move || {
                for (bi, b) in batches.iter().enumerate() {
                    pause();
                    {
                        let mut l = m.lock_mut();
                        for op in b {
                            w.busy.set(w.busy.get() + 1);
                            {
                                let mut model = w.model.borrow_mut();
                                if cloned {
                                    apply::<u64, u64, Cloned>(&mut l, &mut model, op, &|k| k, &|v| v);
                                } else {
                                    apply::<u64, u64, Copied>(&mut l, &mut model, op, &|k| k, &|v| v);
                                }
                                note(|| format!("{:?} -> {:?}", op, model));
                                w.hist.borrow_mut().push(model.clone());
                            }
                            w.busy.set(w.busy.get() - 1);
                            pause();
                            check!(*l == *w.model.borrow(), "content", "the guard shows {:?}, the model {:?}", &*l, w.model.borrow());
                        }
                    }
                    if look {
                        let l = m.lock_ref();
                        pause();
                        let model = w.model.borrow();
                        check!(*l == *model, "content", "a reader sees {:?} while the map holds {:?}", &*l, model);
                        drop(model);
                        drop(l);
                        let lo = w.hist.borrow().len() - 1;
                        let json = bi % 2 == 0;
                        let text = if json { serde_json::to_string(&m).unwrap_or_default() } else { format!("{:?}", m) };
                        let fits = |m: &BTreeMap<u64, u64>| {
                            text == if json { serde_json::to_string(m).unwrap() } else { format!("MutableBTreeMap({:?})", m) }
                        };
                        let hist = w.hist.borrow();
                        check!(hist[lo..].iter().any(fits), "content", "the map is shown as {}, but it went through {:?}", text, &hist[lo..]);
                    }
                    if late && bi == 0 {
                        let t = consumer(choices(), &w, &m, "late-reader", views);
                        cs.borrow_mut().push(t);
                    }
                }
                release(&w, m);
            });
        }
        if round + 1 == rounds && c.pct(50) {
            let (m, w) = (main.take().unwrap(), w.clone());
            spawn("dropper", move || {
                pause();
                release(&w, m);
            });
        }
        quiesce();
        quiet(&w);
    }
    if let Some(m) = main.take() {
        let w2 = w.clone();
        spawn("dropper", move || release(&w2, m));
        quiesce();
        quiet(&w);
    }
    let all: Vec<Task> = consumers.borrow().iter().map(|x| x.task.clone()).collect();
    stop_all(&all);
}

pub fn c10() {
    concurrent(false)
}

pub fn c11() {
    concurrent(true)
}

/// Sequential refinement with counted keys and values: results, silence of no-ops, leaks.
pub fn c10_counted() {
    let c = choices();
    let vals = Values::new();
    let keys = 2 + c.many(5) as u64;
    let init: BTreeMap<Tok, Tok> = (0..c.many(4)).map(|_| (Tok::new(c.below(keys)), Tok::new(vals.next(c)))).collect();
    let mut model = init.clone();
    let m = MutableBTreeMap::from(init);
    let other = m.clone();
    let mut obs: Vec<(Task, Shared<BTreeMap<Tok, Tok>>, Rc<Cell<u64>>)> = vec![];
    let observe = |c: &mut Choices| {
        let d = Drive::draw(c, true);
        let replay: Shared<BTreeMap<Tok, Tok>> = shared(BTreeMap::new());
        let diffs = Rc::new(Cell::new(0));
        let (r2, d2) = (replay.clone(), diffs.clone());
        let mut s = Box::pin(m.signal_map_cloned());
        let t = Task::spawn(
            "observer",
            d,
            move |cx| s.as_mut().poll_map_change(cx),
            move |o, _, _| {
                if let Obs::Item(d) = o {
                    note(|| format!("gets {:?}", d));
                    ev(h(&d));
                    d2.set(d2.get() + 1);
                    apply_map(&mut r2.borrow_mut(), d, "MutableBTreeMap signal");
                }
            },
        );
        (t, replay, diffs)
    };
    for _ in 0..c.u(3) {
        let o = observe(c);
        obs.push(o);
    }
    for step in 0..1 + c.many(8) {
        let op = draw_op(c, &vals, &[8, 5, 2, 2], keys);
        let calm = c.pct(60);
        if calm {
            quiesce();
        }
        let before: Vec<(u64, u64)> = obs.iter().map(|o| (o.2.get(), o.0.wakes())).collect();
        let heard = {
            let mut l = if c.pct(50) { m.lock_mut() } else { other.lock_mut() };
            note(|| format!("{:?}", op));
            let heard = apply::<Tok, Tok, Cloned>(&mut l, &mut model, &op, &Tok::new, &Tok::new);
            check!(*l == model && l.len() == model.len(), "content", "{:?}: the map holds {:?}, expected {:?}", op, &*l, model);
            heard
        };
        {
            let l = m.lock_ref();
            check!(*l == model, "content", "{:?}: a reader sees {:?}, expected {:?}", op, &*l, model);
            for (k, v) in model.iter() {
                check!(l.get(k) == Some(v) && l[k] == *v, "content", "key {:?} gives {:?}, expected {:?}", k, l.get(k), v);
            }
            let o = other.lock_ref();
            check!(l == o && l.cmp(&o).is_eq() && l.partial_cmp(&o).map_or(false, |x| x.is_eq()), "content", "two guards of one map differ");
            check!(l == model && l.partial_cmp(&model).map_or(false, |x| x.is_eq()), "content", "a guard differs from {:?}", model);
        }
        if calm {
            quiesce();
            for (o, b) in obs.iter().zip(before) {
                if o.0.cancelled() {
                    continue;
                }
                check!(*o.1.borrow() == model, "stale", "{:?}: an observer shows {:?}, expected {:?}", op, o.1.borrow(), model);
                if !heard {
                    check!(o.2.get() == b.0, "noise", "{:?} changed nothing, but {} diff(s) were sent", op, o.2.get() - b.0);
                    check!(o.0.wakes() == b.1, "noise", "{:?} changed nothing, but woke an observer", op);
                }
            }
        }
        if step < 3 && c.pct(20) {
            let o = observe(c);
            obs.push(o);
        }
    }
    quiesce();
    for o in obs.iter().filter(|o| !o.0.cancelled()) {
        check!(*o.1.borrow() == model, "stale", "an observer shows {:?}, expected {:?}", o.1.borrow(), model);
        check!(!o.0.ended(), "ended-early", "an observer ended although the MutableBTreeMap is alive");
    }
    drop(m);
    drop(other);
    quiesce();
    for o in obs.iter().filter(|o| !o.0.cancelled()) {
        check!(o.0.ended(), "not-ended", "the MutableBTreeMap is gone, but an observer waits");
    }
    let all: Vec<Task> = obs.iter().map(|o| o.0.clone()).collect();
    stop_all(&all);
    drop(obs);
    drop(model);
    check_no_leak("MutableBTreeMap and its signals are gone");
}
