//! SignalVec combinators over one or two inputs (C12, C13, C14, C15, C20).

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::scen::stage::*;
use futures_signals::signal::{ReadOnlyMutable, Signal, SignalExt};
use futures_signals::signal_vec::{SignalVec, SignalVecExt, VecDiff};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;

pub fn maker(vals: &Values) -> Rc<dyn Fn(&mut Choices) -> u64> {
    let v = vals.clone();
    Rc::new(move |c| v.next(c))
}

pub fn dynin<I: Input + 'static>(i: &Shared<I>) -> Shared<dyn Input> {
    i.clone()
}

/// A SignalVec under test, and what it must show.
pub struct Case<T> {
    pub what: &'static str,
    pub inputs: Vec<Shared<dyn Input>>,
    pub out: DynVec<T>,
    /// from what its inputs have delivered
    pub known: Rc<dyn Fn() -> Vec<T>>,
    /// from what was planned
    pub plan: Rc<dyn Fn() -> Vec<T>>,
    /// called whenever the task comes to rest
    pub rest: Rc<dyn Fn()>,
    /// whether it must have ended, once everything is quiet
    pub over: Rc<dyn Fn() -> bool>,
}

impl<T: Clone + Debug + PartialEq + 'static> Case<T> {
    pub fn run(self, c: &mut Choices, p: Plan) -> VecWatch<T> {
        let what = self.what;
        let d = Drive::draw(c, true);
        let (known, rest_hook) = (self.known, self.rest);
        let k = if c.pct(10) { c.u(7) } else { 9 };
        let w = watch_vec("task", d, wrap_vec(k, self.out), move |got, _end| {
            rest(&got.to_vec(), &known(), what);
            rest_hook();
        });
        let (plan, inputs, over) = (self.plan, self.inputs, self.over);
        feed(c, p, &inputs, || {
            judge(&w.task, over(), &*w.replay.borrow(), &plan(), what);
        });
        stop_all(std::slice::from_ref(&w.task));
        w
    }
}

pub fn all_over(inputs: &[Shared<dyn Input>]) -> Rc<dyn Fn() -> bool> {
    let v = inputs.to_vec();
    Rc::new(move || all_ended(&v))
}

pub fn no_hook() -> Rc<dyn Fn()> {
    Rc::new(|| {})
}

/// The closure must have been called once per delivered value, in that order.
fn called_once(i: &VecInRef, log: &Shared<Vec<u64>>, what: &'static str) -> Rc<dyn Fn()> {
    let (told, log) = (i.borrow().told.clone(), log.clone());
    Rc::new(move || {
        let t = told.borrow();
        check!(
            t.state.seen == *log.borrow(),
            "closure-calls",
            "{}: its closure was called with {:?}, it received {:?}",
            what,
            log.borrow(),
            t.state.seen
        );
    })
}

// --------------------------------------------------------------------- C12

pub fn c12() {
    let c = choices();
    let vals = Values::new();
    let (i, s) = VecIn::draw(c, "input", 35, maker(&vals));
    let log: Shared<Vec<u64>> = shared(vec![]);
    let l = log.clone();
    let mask = c.below(32);
    let keep = move |v: u64| (mask >> key(v)) & 1 == 0;
    let (what, out, f): (_, DynVec<u64>, Rc<dyn Fn(&[u64]) -> Vec<u64>>) = match c.u(3) {
        0 => (
            "map",
            Box::pin(s.map(move |v| {
                l.borrow_mut().push(v);
                v + 1000
            })),
            Rc::new(|v| v.iter().map(|v| v + 1000).collect()),
        ),
        1 => (
            "filter",
            Box::pin(s.filter(move |v| {
                l.borrow_mut().push(*v);
                keep(*v)
            })),
            Rc::new(move |v| v.iter().copied().filter(|v| keep(*v)).collect()),
        ),
        _ => (
            "filter_map",
            Box::pin(s.filter_map(move |v| {
                l.borrow_mut().push(v);
                if keep(v) {
                    Some(v + 1000)
                } else {
                    None
                }
            })),
            Rc::new(move |v| v.iter().copied().filter(|v| keep(*v)).map(|v| v + 1000).collect()),
        ),
    };
    let (f2, i2, i3) = (f.clone(), i.clone(), i.clone());
    let rest = called_once(&i, &log, what);
    Case {
        what,
        inputs: vec![dynin(&i)],
        out,
        known: Rc::new(move || f(&i2.borrow().known())),
        plan: Rc::new(move || f2(&i3.borrow().plan)),
        rest,
        over: all_over(&[dynin(&i)]),
    }
    .run(c, Plan::default());
}

// --------------------------------------------------------------------- C13

pub fn c13() {
    let c = choices();
    let vals = Values::new();
    let (i, s) = VecIn::draw(c, "input", 35, maker(&vals));
    let rev = c.pct(30);
    let cmp = move |a: &u64, b: &u64| if rev { key(*b).cmp(&key(*a)) } else { key(*a).cmp(&key(*b)) };
    let f = move |v: &[u64]| {
        let mut v = v.to_vec();
        v.sort_by(cmp);
        v
    };
    let (i2, i3) = (i.clone(), i.clone());
    Case {
        what: "sort_by_cloned",
        inputs: vec![dynin(&i)],
        out: Box::pin(s.sort_by_cloned(cmp)),
        known: Rc::new(move || f(&i2.borrow().known())),
        plan: Rc::new(move || f(&i3.borrow().plan)),
        rest: no_hook(),
        over: all_over(&[dynin(&i)]),
    }
    .run(c, Plan { max_rounds: 3, max_steps: 5, early_end: 15 });
}

// --------------------------------------------------------------------- C14

type Handle = ReadOnlyMutable<Option<usize>>;

#[derive(Clone)]
struct Entry {
    handles: Vec<Handle>,
    value: u64,
}

impl Debug for Entry {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}@{:?}", self.value, self.handles.iter().map(|h| h.get()).collect::<Vec<_>>())
    }
}

pub fn c14() {
    let c = choices();
    c.moderate();
    patience(3_000_000);
    let vals = Values::new();
    let (i, s) = VecIn::draw(c, "input", 35, maker(&vals));
    let d = Drive::draw(c, true);
    let live: Shared<Vec<Entry>> = shared(vec![]);
    let gone: Shared<Vec<Entry>> = shared(vec![]);
    // consumers of some of the indexes
    let subs: Shared<Vec<(Handle, SigWatch<Option<usize>>)>> = shared(vec![]);
    let mut budget = c.u(4);
    let (l2, g2, s2, i2) = (live.clone(), gone.clone(), subs.clone(), i.clone());
    let mut out = Box::pin(s.enumerate());
    let task = Task::spawn(
        "task",
        d,
        move |cx| out.as_mut().poll_vec_change(cx),
        move |o: Obs<VecDiff<(Handle, u64)>>, _, _| {
            let mut fresh = vec![];
            let mut entry = |x: (Handle, u64)| {
                fresh.push(x.0.clone());
                Entry { handles: vec![x.0], value: x.1 }
            };
            let mut l = l2.borrow_mut();
            match o {
                Obs::Item(d) => {
                    note(|| format!("gets {}", diff_name(&d)));
                    let n = l.len();
                    let mut removed = vec![];
                    match d {
                        VecDiff::Replace { values } => {
                            removed.append(&mut l);
                            *l = values.into_iter().map(&mut entry).collect();
                        }
                        VecDiff::Clear {} => removed.append(&mut l),
                        VecDiff::RemoveAt { index } => {
                            check!(index < n, "bad-diff", "enumerate: RemoveAt {} of {}", index, n);
                            removed.push(l.remove(index));
                        }
                        VecDiff::Pop {} => {
                            check!(n > 0, "bad-diff", "enumerate: Pop of an empty vector");
                            removed.extend(l.pop());
                        }
                        VecDiff::UpdateAt { index, value } => {
                            check!(index < n, "bad-diff", "enumerate: UpdateAt {} of {}", index, n);
                            let e = entry(value);
                            l[index].value = e.value;
                            l[index].handles.extend(e.handles);
                        }
                        other => {
                            let d = match other {
                                VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index, value: entry(value) },
                                VecDiff::Push { value } => VecDiff::Push { value: entry(value) },
                                VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index, new_index },
                                _ => unreachable!(),
                            };
                            apply_vec(&mut l, d, "enumerate");
                        }
                    }
                    g2.borrow_mut().extend(removed);
                    ev(h(&*l));
                    // right after each change all indexes are right
                    for (k, e) in l.iter().enumerate() {
                        for x in &e.handles {
                            check!(x.get() == Some(k), "index", "enumerate: the value {} is at {}, its index says {:?}", e.value, k, x.get());
                        }
                    }
                    for e in g2.borrow().iter() {
                        for x in &e.handles {
                            check!(x.get().is_none(), "index", "enumerate: the value {} was removed, its index says {:?}", e.value, x.get());
                        }
                    }
                    drop(l);
                    for x in fresh {
                        if budget > 0 {
                            budget -= 1;
                            let sig: DynSignal<Option<usize>> = Box::pin(x.signal());
                            let w = watch_sig("index", Drive::default(), sig, |_| {}, |_, _| {});
                            s2.borrow_mut().push((x, w));
                        }
                    }
                }
                Obs::Pending | Obs::End => {
                    if matches!(o, Obs::Pending) && !rests() {
                        return;
                    }
                    let got: Vec<u64> = l.iter().map(|e| e.value).collect();
                    rest(&got, &i2.borrow().known(), "enumerate");
                }
            }
        },
    );
    let inputs = [dynin(&i)];
    let subscribers = |dead: bool| {
        for (x, w) in subs.borrow().iter() {
            let now = x.get();
            let log = w.log.borrow();
            check!(log.last() == Some(&now), "index-stale", "an index is {:?}, its signal ended up with {:?}", now, &*log);
            let over = now.is_none() || dead;
            check!(w.task.ended() == over, "index-end", "an index is {:?} (task gone: {}), its signal has ended: {}", now, dead, w.task.ended());
        }
    };
    feed(c, Plan { max_rounds: 3, max_steps: 5, early_end: 15 }, &inputs, || {
        let got: Vec<u64> = live.borrow().iter().map(|e| e.value).collect();
        judge(&task, all_ended(&inputs), &got, &i.borrow().plan, "enumerate");
        subscribers(!task.running());
    });
    stop_all(std::slice::from_ref(&task));
    quiesce();
    subscribers(true);
}

// --------------------------------------------------------------------- C15

pub fn c15() {
    let c = choices();
    let vals = Values::new();
    let real = if c.pct(70) { 0 } else { 60 };
    let (a, sa) = VecIn::draw(c, "left", real, maker(&vals));
    let (b, sb) = VecIn::draw(c, "right", real, maker(&vals));
    let (a2, b2, a3, b3) = (a.clone(), b.clone(), a.clone(), b.clone());
    Case {
        what: "chain",
        inputs: vec![dynin(&a), dynin(&b)],
        out: Box::pin(sa.chain(sb)),
        known: Rc::new(move || {
            let mut v = a2.borrow().known();
            v.extend(b2.borrow().known());
            v
        }),
        plan: Rc::new(move || {
            let mut v = a3.borrow().plan.clone();
            v.extend(b3.borrow().plan.iter());
            v
        }),
        rest: no_hook(),
        over: all_over(&[dynin(&a), dynin(&b)]),
    }
    .run(c, Plan { max_rounds: 3, max_steps: 4, early_end: 20 });
}

// --------------------------------------------------------------------- C20

/// A Signal made from one SignalVec: every value it yields is f(what was delivered).
fn aggregate<T: Clone + Debug + PartialEq + 'static>(
    c: &mut Choices,
    what: &'static str,
    i: VecInRef,
    out: DynSignal<T>,
    f: impl Fn(&[u64]) -> T + Clone + 'static,
    distinct: bool,
) {
    let d = Drive::draw(c, true);
    let (i2, i3, f2, f3) = (i.clone(), i.clone(), f.clone(), f.clone());
    let last: Rc<RefCell<Option<T>>> = rc(RefCell::new(None));
    let i4 = i.clone();
    let out = Fed::wrap(out, what, move || i4.borrow().items());
    let w = watch_sig(
        "task",
        d,
        out,
        move |v| {
            rest(v, &f2(&i2.borrow().known()), what);
            if distinct {
                check!(last.borrow().as_ref() != Some(v), "repeat", "{}: yields {:?} twice in a row", what, v);
                *last.borrow_mut() = Some(v.clone());
            }
        },
        move |log, _| {
            check!(!log.is_empty(), "no-value", "{}: its task rests without having got a value", what);
            rest(log.last().unwrap(), &f3(&i3.borrow().known()), what);
        },
    );
    let inputs = [dynin(&i)];
    feed(c, Plan::default(), &inputs, || {
        let got = w.log.borrow().last().cloned();
        judge(&w.task, all_ended(&inputs), &got, &Some(f(&i.borrow().plan)), what);
    });
    stop_all(std::slice::from_ref(&w.task));
}

pub fn c20() {
    let c = choices();
    let vals = Values::new();
    let (i, s) = VecIn::draw(c, "input", 35, maker(&vals));
    match c.u(5) {
        0 => aggregate(c, "len", i, Box::pin(s.len()), |v| v.len(), false),
        1 => aggregate(c, "is_empty", i, Box::pin(s.is_empty()), |v| v.is_empty(), true),
        2 => aggregate(c, "sum", i, Box::pin(s.sum()), |v| v.iter().sum::<u64>(), false),
        3 => {
            aggregate(
                c,
                "to_signal_map",
                i,
                Box::pin(s.to_signal_map(|v| v.iter().rev().copied().collect::<Vec<u64>>())),
                |v| v.iter().rev().copied().collect::<Vec<u64>>(),
                false,
            )
        }
        _ => aggregate(c, "to_signal_cloned", i, Box::pin(s.to_signal_cloned()), |v| v.to_vec(), false),
    }
}

#[allow(unused)]
fn _types(s: DynSignal<u64>) -> impl Signal<Item = u64> {
    s.map(|x| x)
}
