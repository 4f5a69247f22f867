//! Signal combinators (C21 - C28).

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::scen::nested::Keyed;
use crate::scen::stage::*;
use crate::scen::vecs::{all_over, dynin, maker, no_hook, Case};
use futures_signals::signal::{self, and, not, or, Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, SignalMapExt};
use futures_signals::signal_vec::{self, SignalVecExt, VecDiff};
use futures_signals::{map_mut, map_ref};
use std::cell::Cell;
use std::fmt::Debug;
use std::future::Future;
use std::rc::Rc;

/// A few values, so that repetitions happen.
fn few() -> Rc<dyn Fn(&mut Choices) -> u64> {
    Rc::new(|c| c.below(4))
}

fn bools() -> Rc<dyn Fn(&mut Choices) -> bool> {
    Rc::new(|c| c.pct(50))
}

fn opts(c: &mut Choices) -> SigOpts {
    SigOpts { real: if c.pct(60) { 0 } else { 70 }, firm: true, coalesce: 40 }
}

// ------------------------------------------------------------ exact sequences

/// A Signal whose values are an exact function of what its inputs have told it.
pub struct Exact<O> {
    pub what: &'static str,
    pub inputs: Vec<Shared<dyn Input>>,
    pub out: DynSignal<O>,
    /// what it must have yielded so far
    pub want: Rc<dyn Fn() -> Vec<O>>,
    /// whether its inputs have told it everything which was planned
    pub caught_up: Rc<dyn Fn() -> bool>,
    /// whether it must have ended, once everything is quiet
    pub over: Rc<dyn Fn() -> bool>,
    pub extra: Rc<dyn Fn()>,
}

impl<O: Clone + Debug + PartialEq + 'static> Exact<O> {
    pub fn run(self, c: &mut Choices, p: Plan) {
        let what = self.what;
        let d = Drive::draw(c, true);
        let n = Rc::new(Cell::new(0usize));
        let (w2, e2) = (self.want.clone(), self.extra.clone());
        let want = self.want.clone();
        let w = watch_sig(
            "task",
            d,
            self.out,
            move |v| {
                let k = n.get();
                n.set(k + 1);
                let want = want();
                check!(
                    want.get(k) == Some(v),
                    "wrong",
                    "{}: value number {} is {:?}, but what it got from its inputs gives {:?}",
                    what,
                    k,
                    v,
                    want
                );
            },
            move |log, _| {
                rest(&log.to_vec(), &w2(), what);
                e2();
            },
        );
        let (over, caught_up) = (self.over, self.caught_up);
        feed(c, p, &self.inputs, || {
            if w.task.cancelled() {
                return;
            }
            let end = over();
            check!(w.task.ended() == end, "end", "{}: it must have ended: {}, it has: {}", what, end, w.task.ended());
            check!(end || caught_up(), "stale", "{}: everything is quiet, but it has not seen the last change of its inputs", what);
        });
        stop_all(std::slice::from_ref(&w.task));
    }
}

/// For combinators with one signal as input.
fn one<T: Copy + Debug + PartialEq + 'static, O: Clone + Debug + PartialEq + 'static>(
    c: &mut Choices,
    what: &'static str,
    i: &SigInRef<T>,
    out: DynSignal<O>,
    f: impl Fn(&[T]) -> Vec<O> + 'static,
    stopped: impl Fn(&[T]) -> bool + Clone + 'static,
    extra: Rc<dyn Fn()>,
) {
    let (i2, i3, i4) = (i.clone(), i.clone(), i.clone());
    let stopped2 = stopped.clone();
    Exact {
        what,
        inputs: vec![dynin(i)],
        out,
        want: Rc::new(move || f(&i2.borrow().log())),
        caught_up: Rc::new(move || {
            let i = i3.borrow();
            i.known() == i.plan || stopped(&i.log())
        }),
        over: Rc::new(move || {
            let i = i4.borrow();
            i.ended() || stopped2(&i.log())
        }),
        extra,
    }
    .run(c, Plan { max_rounds: 3, max_steps: 5, early_end: 15 });
}

fn calls<T: Copy + Debug + PartialEq + 'static>(
    what: &'static str,
    i: &SigInRef<T>,
    log: &Shared<Vec<T>>,
    f: impl Fn(&[T]) -> Vec<T> + 'static,
) -> Rc<dyn Fn()> {
    let (i, log) = (i.clone(), log.clone());
    Rc::new(move || {
        let want = f(&i.borrow().log());
        check!(
            *log.borrow() == want,
            "closure-calls",
            "{}: its closure was called with {:?}, for its input that should be {:?}",
            what,
            log.borrow(),
            want
        );
    })
}

fn dedupe<T: Clone + PartialEq>(v: &[T]) -> Vec<T> {
    let mut o: Vec<T> = vec![];
    for x in v {
        if o.last() != Some(x) {
            o.push(x.clone());
        }
    }
    o
}

fn never<T>(_: &[T]) -> bool {
    false
}

// --------------------------------------------------------------------- C22

pub fn c22() {
    let c = choices();
    let kind = c.u(11);
    if kind == 0 {
        let o = opts(c);
        let (i, s) = SigIn::draw(c, "input", o, bools());
        return one(c, "not", &i, Box::pin(not(s)), |v| v.iter().map(|x| !x).collect(), never, no_hook());
    }
    let o = opts(c);
    let (i, s) = SigIn::draw(c, "input", o, few());
    let log: Shared<Vec<u64>> = shared(vec![]);
    let l = log.clone();
    let mask = c.below(16);
    let keep = move |v: u64| if (mask >> v) & 1 == 1 { Some(v + 100) } else { None };
    let same = |v: &[u64]| v.to_vec();
    match kind {
        1 => {
            let e = calls("map", &i, &log, same);
            let out = s.map(move |v| {
                l.borrow_mut().push(v);
                v + 100
            });
            one(c, "map", &i, Box::pin(out), |v| v.iter().map(|v| v + 100).collect(), never, e)
        }
        2 => {
            let e = calls("inspect", &i, &log, same);
            let out = s.inspect(move |v| l.borrow_mut().push(*v));
            one(c, "inspect", &i, Box::pin(out), same, never, e)
        }
        3 => one(c, "eq", &i, Box::pin(s.eq(1)), |v| dedupe(&v.iter().map(|v| *v == 1).collect::<Vec<_>>()), never, no_hook()),
        4 => one(c, "neq", &i, Box::pin(s.neq(1)), |v| dedupe(&v.iter().map(|v| *v != 1).collect::<Vec<_>>()), never, no_hook()),
        5 => one(c, "dedupe", &i, Box::pin(s.dedupe()), |v| dedupe(v), never, no_hook()),
        6 => one(c, "dedupe_cloned", &i, Box::pin(s.dedupe_cloned()), |v| dedupe(v), never, no_hook()),
        7 => {
            let e = calls("dedupe_map", &i, &log, |v| dedupe(v));
            let out = s.dedupe_map(move |v| {
                l.borrow_mut().push(*v);
                *v + 100
            });
            one(c, "dedupe_map", &i, Box::pin(out), |v| dedupe(v).iter().map(|v| v + 100).collect(), never, e)
        }
        8 | 9 => {
            let e = calls("filter_map", &i, &log, same);
            let out = s.filter_map(move |v| {
                l.borrow_mut().push(v);
                keep(v)
            });
            let f = move |v: &[u64]| {
                let mut o = vec![];
                for (k, v) in v.iter().enumerate() {
                    match keep(*v) {
                        Some(v) => o.push(Some(v)),
                        None if k == 0 => o.push(None),
                        None => {}
                    }
                }
                o
            };
            one(c, "filter_map", &i, Box::pin(out), f, never, e)
        }
        _ => {
            // references, boxes and pins pass everything through
            let out: DynSignal<u64> = match c.u(3) {
                0 => Box::pin(s.boxed_local()),
                1 => Box::pin(Box::new(s)),
                _ => {
                    let r: &'static mut DynSignal<u64> = Box::leak(Box::new(s));
                    Box::pin(r)
                }
            };
            one(c, "boxed signal", &i, out, same, never, no_hook())
        }
    }
}

// --------------------------------------------------------------------- C23

fn until(test: impl Fn(u64) -> bool + Clone + 'static) -> (impl Fn(&[u64]) -> Vec<u64> + 'static, impl Fn(&[u64]) -> bool + Clone + 'static) {
    let t2 = test.clone();
    (
        move |v: &[u64]| match v.iter().position(|x| test(*x)) {
            Some(k) => v[..=k].to_vec(),
            None => v.to_vec(),
        },
        move |v: &[u64]| v.iter().any(|x| t2(*x)),
    )
}

pub fn c23() {
    let c = choices();
    let o = opts(c);
    let (i, s) = SigIn::draw(c, "input", o, few());
    match c.u(5) {
        0 => {
            let (f, stop) = until(|v| v == 3);
            let log: Shared<Vec<u64>> = shared(vec![]);
            let l = log.clone();
            let (f2, _) = until(|v| v == 3);
            let e = calls("stop_if", &i, &log, f2);
            let out = s.stop_if(move |v| {
                l.borrow_mut().push(*v);
                *v == 3
            });
            one(c, "stop_if", &i, Box::pin(out), f, stop, e)
        }
        1 => one(c, "first", &i, Box::pin(s.first()), |v| v[..v.len().min(1)].to_vec(), |v| !v.is_empty(), no_hook()),
        2 => {
            let (_, stop) = until(|v| v == 3);
            let i2 = i.clone();
            let out = FutureOut(Some(Box::pin(s.wait_for(3))));
            let f = move |v: &[u64]| {
                if v.contains(&3) {
                    vec![Some(3)]
                } else if i2.borrow().told_end() {
                    vec![None]
                } else {
                    vec![]
                }
            };
            one(c, "wait_for", &i, Box::pin(out), f, stop, no_hook())
        }
        3 => {
            let i2 = i.clone();
            let out = FutureOut(Some(Box::pin(s.to_future())));
            let f = move |v: &[u64]| if i2.borrow().told_end() { vec![*v.last().unwrap()] } else { vec![] };
            one(c, "to_future", &i, Box::pin(out), f, never, no_hook())
        }
        _ => one(c, "to_stream", &i, Box::pin(FromStreamOut(s.to_stream())), |v| v.to_vec(), never, no_hook()),
    }
}

/// for_each: one callback per item, in order, each future finished before the next.
fn each<F: Future<Output = ()> + 'static>(
    c: &mut Choices,
    what: &'static str,
    inputs: Vec<Shared<dyn Input>>,
    pool: FutPoolRef,
    fut: F,
    received: impl Fn() -> bool + 'static,
    caught_up: impl Fn() -> bool,
) {
    let d = Drive::draw(c, true);
    let p2 = pool.clone();
    let w = watch_sig(
        "task",
        d,
        Box::pin(FutureOut(Some(Box::pin(fut)))) as DynSignal<()>,
        |_| {},
        move |_, end| {
            let idle = !p2.borrow().all.iter().any(|f| !f.borrow().done);
            check!(received(), "lost", "{}: its callback was not called for everything which its input delivered", what);
            check!(!end || idle, "end", "{}: it finished before the future of its callback", what);
        },
    );
    let only = inputs[0].clone();
    let pool2 = pool.clone();
    feed(c, Plan { max_rounds: 3, max_steps: 5, early_end: 15 }, &inputs, || {
        if w.task.cancelled() {
            return;
        }
        let waits = pool2.borrow().all.iter().any(FutPool::open);
        if !waits {
            check!(caught_up(), "stale", "{}: everything is quiet, but it has not read its whole input", what);
        }
        let over = only.borrow().ended() && !waits;
        check!(w.task.ended() == over, "end", "{}: it must have finished: {}, it has: {}", what, over, w.task.ended());
    });
    stop_all(std::slice::from_ref(&w.task));
}

pub fn c23_each() {
    let c = choices();
    let pool = FutPool::draw(c);
    let vals = Values::new();
    let p2 = pool.clone();
    let seen: Shared<Vec<String>> = shared(vec![]);
    let s2 = seen.clone();
    let call = move |text: String| {
        if let Some(f) = p2.borrow().all.last() {
            check!(f.borrow().done, "overlap", "for_each calls its callback before the last future is done");
        }
        note(|| format!("callback {}", text));
        s2.borrow_mut().push(text);
        let n = p2.borrow().all.len() as u64;
        let f = p2.borrow_mut().make(n);
        Done(f)
    };
    let feedf: Shared<dyn Input> = shared(FutFeed(pool.clone()));
    match c.u(3) {
        0 => {
            let o = opts(c);
            let (i, s) = SigIn::draw(c, "input", o, maker(&vals));
            let (i2, i3, n) = (i.clone(), i.clone(), seen.clone());
            let fut = s.for_each(move |v| call(format!("{:?}", v)));
            each(
                c,
                "for_each",
                vec![dynin(&i), feedf],
                pool,
                fut,
                move || *n.borrow() == i2.borrow().log().iter().map(|v| format!("{:?}", v)).collect::<Vec<_>>(),
                move || i3.borrow().known() == i3.borrow().plan,
            )
        }
        1 => {
            let (i, s) = VecIn::draw(c, "input", 35, maker(&vals));
            let replay: Shared<Vec<u64>> = shared(vec![]);
            let (r2, i2, i3) = (replay.clone(), i.clone(), i.clone());
            let fut = s.for_each(move |d: VecDiff<u64>| {
                let t = format!("{:?}", d);
                apply_vec(&mut r2.borrow_mut(), d, "for_each");
                call(t)
            });
            each(
                c,
                "SignalVec for_each",
                vec![dynin(&i), feedf],
                pool,
                fut,
                move || *replay.borrow() == i2.borrow().known(),
                move || i3.borrow().known() == i3.borrow().plan,
            )
        }
        _ => {
            let (i, s) = MapIn::draw(c, "input", 35, maker(&vals));
            let replay = shared(std::collections::BTreeMap::new());
            let (r2, i2, i3) = (replay.clone(), i.clone(), i.clone());
            let fut = s.for_each(move |d: MapDiff<u64, u64>| {
                let t = format!("{:?}", d);
                apply_map(&mut *r2.borrow_mut(), d, "for_each");
                call(t)
            });
            each(
                c,
                "SignalMap for_each",
                vec![dynin(&i), feedf],
                pool,
                fut,
                move || *replay.borrow() == i2.borrow().known(),
                move || i3.borrow().known() == i3.borrow().plan,
            )
        }
    }
}

// --------------------------------------------------------------------- C24

fn latest<O: Clone + Debug + PartialEq + 'static>(
    c: &mut Choices,
    what: &'static str,
    inputs: Vec<Shared<dyn Input>>,
    out: DynSignal<O>,
    known: impl Fn() -> O + Clone + 'static,
    plan: impl Fn() -> O,
    calls: Option<Rc<Cell<usize>>>,
) {
    let d = Drive::draw(c, true);
    let (k2, k3) = (known.clone(), known);
    let i2 = inputs.clone();
    let w = watch_sig(
        "task",
        d,
        Fed::wrap(Fresh { s: out, inputs: inputs.clone(), what }, what, move || i2.iter().map(|i| i.borrow().items()).sum()),
        move |v| rest(v, &k2(), what),
        move |log, _| {
            check!(!log.is_empty(), "no-value", "{}: its task rests without having got a value", what);
            rest(log.last().unwrap(), &k3(), what);
            if let Some(n) = &calls {
                check!(n.get() == log.len(), "closure-calls", "{}: {} calls of its closure for {} values", what, n.get(), log.len());
            }
        },
    );
    feed(c, Plan::default(), &inputs, || {
        let got = w.log.borrow().last().cloned();
        judge(&w.task, all_ended(&inputs), &got, &Some(plan()), what);
    });
    stop_all(std::slice::from_ref(&w.task));
}

pub fn c24() {
    let c = choices();
    let o = opts(c);
    if c.pct(35) {
        let (a, sa) = SigIn::draw(c, "left", o, bools());
        let (b, sb) = SigIn::draw(c, "right", o, bools());
        let inputs = vec![dynin(&a), dynin(&b)];
        let is_and = c.pct(50);
        let f = move |x: bool, y: bool| if is_and { x && y } else { x || y };
        let out: DynSignal<bool> = if is_and { Box::pin(and(sa, sb)) } else { Box::pin(or(sa, sb)) };
        let (a2, b2) = (a.clone(), b.clone());
        let known = move || f(a2.borrow().known().unwrap(), b2.borrow().known().unwrap());
        let plan = move || f(a.borrow().plan.unwrap(), b.borrow().plan.unwrap());
        return latest(c, if is_and { "and" } else { "or" }, inputs, out, known, plan, None);
    }
    let vals = Values::new();
    let n = c.range(1, 4);
    let mut ins = vec![];
    let mut sigs = vec![];
    for k in 0..n {
        let (i, s) = SigIn::draw(c, ["in0", "in1", "in2", "in3"][k], o, maker(&vals));
        ins.push(i);
        sigs.push(s);
    }
    let inputs: Vec<Shared<dyn Input>> = ins.iter().map(dynin).collect();
    let calls = Rc::new(Cell::new(0));
    let k = calls.clone();
    let tick = move || k.set(k.get() + 1);
    let mut it = sigs.into_iter();
    let mut next = || it.next().unwrap();
    let short = c.pct(30);
    let (what, out): (&'static str, DynSignal<Vec<u64>>) = match n {
        1 => {
            let a = next();
            ("map_ref of 1", Box::pin(map_ref! { let a = a => { tick(); vec![*a] } }))
        }
        2 if short => {
            let (a, b) = (next(), next());
            ("map_ref of 2", Box::pin(map_ref!(a, b => { tick(); vec![*a, *b] })))
        }
        2 => {
            let (a, b) = (next(), next());
            ("map_mut of 2", Box::pin(map_mut! { let a = a, let b = b => { tick(); vec![*a, *b] } }))
        }
        3 if short => {
            let (a, b, c) = (next(), next(), next());
            ("map_mut of 3", Box::pin(map_mut!(a, b, c => { tick(); vec![*a, *b, *c] })))
        }
        3 => {
            let (a, b, c) = (next(), next(), next());
            ("map_ref of 3", Box::pin(map_ref! { let a = a, let b = b, let c = c => { tick(); vec![*a, *b, *c] } }))
        }
        _ => {
            let (a, b, c, d) = (next(), next(), next(), next());
            (
                "map_ref of 4",
                Box::pin(map_ref! { let a = a, let b = b, let c = c, let d = d => { tick(); vec![*a, *b, *c, *d] } }),
            )
        }
    };
    let i2 = ins.clone();
    let known = move || i2.iter().map(|i| i.borrow().known().unwrap_or(u64::MAX)).collect::<Vec<u64>>();
    let plan = move || ins.iter().map(|i| i.borrow().plan.unwrap()).collect::<Vec<u64>>();
    latest(c, what, inputs, out, known, plan, Some(calls));
}

// --------------------------------------------------------------------- C25

pub fn c25() {
    let c = choices();
    let vals = Values::new();
    let (k, mk) = Keyed::new(c, maker(&vals), &vals);
    let o = SigOpts { real: 30, firm: true, coalesce: 40 };
    let (outer, so) = SigIn::draw(c, "outer", o, mk);
    let so: DynSignal<u64> = Box::pin(Distinct { s: so, last: None });
    let get = k.get();
    let (what, out): (_, DynSignal<u64>) = match c.u(3) {
        0 => ("switch", Box::pin(so.switch(get))),
        1 => ("flatten", Box::pin(SigAdapt { s: so, f: get }.flatten())),
        _ => ("map + flatten", Box::pin(so.map(get).flatten())),
    };
    let out: DynSignal<u64> = Box::pin(Fresh { s: out, inputs: vec![dynin(&outer)], what });
    let (o2, v2) = (outer.clone(), k.vals.clone());
    let out = Fed::wrap(out, what, move || o2.borrow().items() + v2.borrow().values().map(|i| i.borrow().items()).sum::<u64>());
    let d = Drive::draw(c, true);
    let (o2, v2, o3, v3) = (outer.clone(), k.vals.clone(), outer.clone(), k.vals.clone());
    let w = watch_sig(
        "task",
        d,
        out,
        move |v| {
            let id = o2.borrow().known().expect("told");
            let want = v2.borrow()[&id].borrow().known();
            rest(&Some(*v), &want, what);
        },
        move |log, _| {
            let o = o3.borrow();
            let id = o.known().expect("told");
            let vals = v3.borrow();
            let want = vals[&id].borrow().known();
            check!(want.is_some(), "not-polled", "{}: it rests without having polled the current inner signal", what);
            rest(&log.last().copied(), &want, what);
            for old in o.log() {
                if old != id {
                    check!(vals[&old].borrow().dropped(), "leak", "{}: the old inner signal {} is still alive", what, old);
                }
            }
        },
    );
    let inputs = [dynin(&outer), dynin(&k.pool)];
    feed(c, Plan::default(), &inputs, || {
        let o = outer.borrow();
        let vals = k.vals.borrow();
        let inner = vals[&o.plan.unwrap()].borrow();
        let got = w.log.borrow().last().copied();
        judge(&w.task, o.ended() && inner.ended(), &got, &inner.plan, what);
    });
    stop_all(std::slice::from_ref(&w.task));
}

// --------------------------------------------------------------------- C26

pub fn c26() {
    let c = choices();
    let vals = Values::new();
    let o = SigOpts { real: if c.pct(60) { 0 } else { 70 }, firm: c.pct(70), coalesce: 40 };
    let (i, s) = SigIn::draw(c, "input", o, maker(&vals));
    let pool = FutPool::draw(c);
    let p2 = pool.clone();
    let out: DynSignal<Option<u64>> =
        Box::pin(Fresh { s: Box::pin(s.map_future(move |v| p2.borrow_mut().make(v))), inputs: vec![dynin(&i)], what: "map_future" });
    let d = Drive::draw(c, true);
    let (i2, i3, p3) = (i.clone(), i.clone(), pool.clone());
    let count = Cell::new(0);
    let last: Cell<Option<u64>> = Cell::new(None);
    let w = watch_sig(
        "task",
        d,
        out,
        move |v| {
            count.set(count.get() + 1);
            match v {
                None => check!(count.get() == 1, "wrong", "map_future yields None again"),
                Some(v) => {
                    let want = i2.borrow().known();
                    check!(Some(*v) == want, "wrong", "map_future yields the result for {}, its input is {:?}", v, want);
                    check!(last.get() != Some(*v), "repeat", "map_future yields the same result twice");
                    last.set(Some(*v));
                }
            }
        },
        move |log, _| {
            let p = p3.borrow();
            let told = i3.borrow().log();
            check!(p.tags == told, "closure-calls", "map_future: its closure was called with {:?}, its input was {:?}", p.tags, told);
            check!(!log.is_empty(), "no-value", "map_future: its task rests without having got a value");
            for (k, f) in p.all.iter().enumerate() {
                let f = f.borrow();
                if k + 1 < p.all.len() {
                    check!(f.dropped, "leak", "map_future: an old future is still alive");
                } else {
                    check!(f.polls > 0, "not-polled", "map_future rests without having polled its future");
                    check!(f.done || !f.dropped, "dropped", "map_future dropped the current future");
                    if f.done {
                        rest(&log.last().copied(), &Some(Some(p.tags[k])), "map_future");
                    }
                }
            }
        },
    );
    let inputs: [Shared<dyn Input>; 2] = [dynin(&i), shared(FutFeed(pool.clone()))];
    feed(c, Plan { max_rounds: 3, max_steps: 5, early_end: 15 }, &inputs, || {
        if w.task.cancelled() {
            return;
        }
        let i = i.borrow();
        check!(i.known() == i.plan, "stale", "map_future: everything is quiet, but it has not read its whole input");
        let waits = pool.borrow().waiting();
        if !waits && i.plan.is_some() {
            let got = w.log.borrow().last().copied();
            check!(got == Some(i.plan), "stale", "map_future: its future is complete, it shows {:?} instead of {:?}", got, i.plan);
        }
        let over = i.ended() && !waits;
        check!(w.task.ended() == over, "end", "map_future: it must have ended: {}, it has: {}", over, w.task.ended());
    });
    stop_all(std::slice::from_ref(&w.task));
    check!(!pool.borrow().all.iter().any(|f| !f.borrow().dropped), "leak", "map_future: its task is gone, but a future is alive");
}

// --------------------------------------------------------------------- C27

pub fn c27() {
    let c = choices();
    let vals = Values::new();
    let o = opts(c);
    let (i, s) = SigIn::draw(c, "input", o, maker(&vals));
    let pool = FutPool::draw(c);
    let p2 = pool.clone();
    let out: DynSignal<u64> = Box::pin(s.throttle(move || {
        let f = p2.borrow_mut().make(0);
        Done(f)
    }));
    let i2 = i.clone();
    let out = Fed::wrap(out, "throttle", move || i2.borrow().items());
    let d = Drive::draw(c, true);
    let (i2, i3, p2, p3) = (i.clone(), i.clone(), pool.clone(), pool.clone());
    let n = Cell::new(0usize);
    let w = watch_sig(
        "task",
        d,
        out,
        move |v| {
            let k = n.get();
            n.set(k + 1);
            let told = i2.borrow().log();
            check!(told.get(k) == Some(v), "wrong", "throttle yields {}, its input was {:?}", v, told);
            check!(told.len() == k + 1, "wrong", "throttle yields {}, but its input was already {:?}", v, told);
            let p = p2.borrow();
            check!(p.all.len() == k + 1, "closure-calls", "throttle has made {} futures for {} values", p.all.len(), k + 1);
            if k > 0 {
                check!(p.all[k - 1].borrow().done, "early", "throttle yields a value although the future of the last one has not completed");
            }
        },
        move |log, _| {
            let p = p3.borrow();
            rest(&log.to_vec(), &i3.borrow().log(), "throttle");
            check!(p.all.len() == log.len(), "closure-calls", "throttle has made {} futures for {} values", p.all.len(), log.len());
            for f in &p.all {
                let f = f.borrow();
                check!(f.polls > 0, "not-polled", "throttle rests without having polled its future");
                check!(!f.done || f.dropped, "leak", "throttle keeps a future which has completed");
            }
        },
    );
    let inputs: [Shared<dyn Input>; 2] = [dynin(&i), shared(FutFeed(pool.clone()))];
    feed(c, Plan { max_rounds: 3, max_steps: 5, early_end: 15 }, &inputs, || {
        if w.task.cancelled() {
            return;
        }
        let i = i.borrow();
        let waits = pool.borrow().waiting();
        let got = w.log.borrow().last().copied();
        if !waits {
            check!(got == i.plan, "stale", "throttle: its delay is over, it shows {:?} instead of {:?}", got, i.plan);
            check!(w.task.ended() == i.ended(), "end", "throttle: it must have ended: {}, it has: {}", i.ended(), w.task.ended());
        } else if w.task.ended() {
            // it may end before the delay is over, but not with a value pending
            check!(i.ended() && got == i.plan, "end", "throttle: it ended early");
        }
    });
    stop_all(std::slice::from_ref(&w.task));
    check!(!pool.borrow().all.iter().any(|f| !f.borrow().dropped), "leak", "throttle: its task is gone, but a future is alive");
}

/// The same with a simulated clock: at most one value per interval.
pub fn c27_clock() {
    let c = choices();
    let vals = Values::new();
    let o = opts(c);
    let (i, s) = SigIn::draw(c, "input", o, maker(&vals));
    let ms = c.range(1, 50) as u64;
    let out: DynSignal<u64> = Box::pin(s.throttle(move || sleep(ms)));
    let d = Drive::draw(c, true);
    let times: Shared<Vec<u64>> = shared(vec![]);
    let (t2, i2) = (times.clone(), i.clone());
    let w = watch_sig(
        "task",
        d,
        out,
        move |v| {
            let now = now();
            if let Some(last) = t2.borrow().last() {
                check!(now >= last + ms, "early", "throttle({} ms) yields at {} ms and again at {} ms", ms, last, now);
            }
            t2.borrow_mut().push(now);
            let known = i2.borrow().known();
            check!(known == Some(*v), "wrong", "throttle yields {}, its input was already {:?}", v, known);
        },
        |_, _| {},
    );
    let inputs = [dynin(&i)];
    feed(c, Plan { max_rounds: 3, max_steps: 5, early_end: 15 }, &inputs, || {
        let i = i.borrow();
        let got = w.log.borrow().last().copied();
        judge(&w.task, i.ended(), &got, &i.plan, "throttle");
    });
    stop_all(std::slice::from_ref(&w.task));
}

// --------------------------------------------------------------------- C21

pub fn c21() {
    let c = choices();
    let vals = Values::new();
    let pool: Shared<Pool<VecIn>> = Pool::new(20);
    let streams: Shared<Vec<Option<DynVec<u64>>>> = shared(vec![]);
    let inner_real = if c.pct(60) { 0 } else { 60 };
    let inner_mk = maker(&vals);
    let (p2, s2) = (pool.clone(), streams.clone());
    let mk: Rc<dyn Fn(&mut Choices) -> u64> = Rc::new(move |c| {
        let (i, s) = VecIn::draw(c, "inner", inner_real, inner_mk.clone());
        let mut st = s2.borrow_mut();
        st.push(Some(s));
        p2.borrow_mut().members.push(i);
        st.len() as u64 - 1
    });
    let o = SigOpts { real: 30, firm: c.pct(70), coalesce: 40 };
    let (outer, so) = SigIn::draw(c, "outer", o, mk);
    let so: DynSignal<u64> = Box::pin(Distinct { s: so, last: None });
    // the inner vectors which were asked for
    let used: Shared<Vec<u64>> = shared(vec![]);
    let (s3, u2) = (streams.clone(), used.clone());
    let out: DynVec<u64> = Box::pin(so.switch_signal_vec(move |id: u64| {
        u2.borrow_mut().push(id);
        match s3.borrow_mut()[id as usize].take() {
            Some(s) => s,
            None => fail("closure-calls", format!("the closure was called again for the value {}", id)),
        }
    }));
    let (o2, p2) = (outer.clone(), pool.clone());
    let (o3, p3) = (outer.clone(), pool.clone());
    let (o4, p4) = (outer.clone(), pool.clone());
    let (o5, p5, u5) = (outer.clone(), pool.clone(), used.clone());
    Case {
        what: "switch_signal_vec",
        inputs: vec![dynin(&outer), dynin(&pool)],
        out,
        known: Rc::new(move || match o2.borrow().known() {
            Some(id) => p2.borrow().members[id as usize].borrow().known(),
            None => vec![],
        }),
        plan: Rc::new(move || match o3.borrow().plan {
            Some(id) => p3.borrow().members[id as usize].borrow().plan.clone(),
            None => vec![],
        }),
        rest: Rc::new(move || {
            let now = o5.borrow().known();
            check!(u5.borrow().last().copied() == now, "closure-calls", "switch_signal_vec has not switched to its input's last value");
            for id in u5.borrow().iter() {
                if Some(*id) != now {
                    check!(p5.borrow().members[*id as usize].borrow().dropped(), "leak", "switch_signal_vec keeps an old SignalVec");
                }
            }
        }),
        over: Rc::new(move || {
            let o = o4.borrow();
            o.ended() && o.plan.map_or(true, |id| p4.borrow().members[id as usize].borrow().ended())
        }),
    }
    .run(c, Plan::default());
}

// --------------------------------------------------------------------- C28

pub fn c28() {
    let c = choices();
    let vals = Values::new();
    match c.u(8) {
        0 => {
            // from_future
            let pool = FutPool::draw(c);
            let f = pool.borrow_mut().make(7);
            let at_once = !FutPool::open(&pool.borrow().all[0]);
            let first = Rc::new(Cell::new(None));
            let p2 = pool.clone();
            let f2 = first.clone();
            let out = signal::from_future(f);
            let p3 = pool.clone();
            let p4 = pool.clone();
            let p5 = pool.clone();
            Exact {
                what: "from_future",
                inputs: vec![shared(FutFeed(pool.clone()))],
                out: Box::pin(SigAdapt {
                    s: Box::pin(out),
                    f: move |v: Option<u64>| {
                        if f2.get().is_none() {
                            f2.set(Some(v.is_some()));
                        }
                        v
                    },
                }),
                want: Rc::new(move || {
                    let done = p2.borrow().all[0].borrow().done;
                    check!(!at_once || first.get() != Some(false), "wrong", "from_future is None at first, but its future is complete");
                    match (first.get(), done) {
                        // It must have yielded something before it rests
                        (None, true) => vec![Some(7)],
                        (None, false) => vec![None],
                        (Some(true), true) => vec![Some(7)],
                        (Some(true), false) => vec![],
                        (Some(false), true) => vec![None, Some(7)],
                        (Some(false), false) => vec![None],
                    }
                }),
                caught_up: Rc::new(move || FutPool::open(&p3.borrow().all[0])),
                over: Rc::new(move || !FutPool::open(&p4.borrow().all[0])),
                extra: Rc::new(move || {
                    let p = p5.borrow();
                    let f = p.all[0].borrow();
                    check!(!f.done || f.dropped, "leak", "from_future keeps a future which has completed");
                }),
            }
            .run(c, Plan { max_rounds: 2, max_steps: 1, early_end: 15 });
        }
        1 | 2 => {
            // Signal from a Stream
            let o = SigOpts { real: if c.pct(70) { 0 } else { 60 }, firm: false, coalesce: 40 };
            let (i, s) = SigIn::draw(c, "stream", o, maker(&vals));
            let out: DynSignal<Option<u64>> = Box::pin(signal::from_stream(AsStream(s)));
            let d = Drive::draw(c, true);
            let (i2, i3) = (i.clone(), i.clone());
            let n = Cell::new(0);
            let w = watch_sig(
                "task",
                d,
                out,
                move |v| {
                    n.set(n.get() + 1);
                    check!(v.is_some() || n.get() == 1, "wrong", "from_stream yields None again");
                    rest(v, &i2.borrow().known(), "from_stream");
                },
                move |log, _| {
                    check!(!log.is_empty(), "no-value", "from_stream: its task rests without having got a value");
                    rest(log.last().unwrap(), &i3.borrow().known(), "from_stream");
                },
            );
            let inputs = [dynin(&i)];
            feed(c, Plan::default(), &inputs, || {
                let i = i.borrow();
                let got = w.log.borrow().last().copied();
                judge(&w.task, i.ended(), &got, &Some(i.plan), "from_stream");
            });
            stop_all(std::slice::from_ref(&w.task));
        }
        3 => {
            // SignalVec from a Stream: every value is pushed
            let o = SigOpts { real: 0, firm: false, coalesce: 0 };
            let (i, s) = SigIn::draw(c, "stream", o, maker(&vals));
            let (i2, i3) = (i.clone(), i.clone());
            Case {
                what: "SignalVec from_stream",
                inputs: vec![dynin(&i)],
                out: Box::pin(signal_vec::from_stream(AsStream(s))),
                known: Rc::new(move || i2.borrow().log()),
                plan: Rc::new(move || i3.borrow().sent.clone()),
                rest: no_hook(),
                over: all_over(&[dynin(&i)]),
            }
            .run(c, Plan::default());
        }
        4 => {
            // Signal of Vecs to SignalVec
            let o = opts(c);
            let (i, s) = SigIn::draw(c, "input", o, maker(&vals));
            fn vec_of(v: u64) -> Vec<u64> {
                let n = if v % 8 == 4 { v * 29 % 90 } else { v % 4 };
                (0..n).map(|k| v * 100 + k).collect()
            }
            let (i2, i3) = (i.clone(), i.clone());
            Case {
                what: "to_signal_vec",
                inputs: vec![dynin(&i)],
                out: Box::pin(SigAdapt { s, f: vec_of }.to_signal_vec()),
                known: Rc::new(move || i2.borrow().known().map(vec_of).unwrap_or_default()),
                plan: Rc::new(move || i3.borrow().plan.map(vec_of).unwrap_or_default()),
                rest: no_hook(),
                over: all_over(&[dynin(&i)]),
            }
            .run(c, Plan::default());
        }
        5 => {
            // option, result
            let o = opts(c);
            let (i, s) = SigIn::draw(c, "input", o, maker(&vals));
            if c.pct(50) {
                let out = signal::option(Some(s));
                one(c, "option", &i, Box::pin(out), |v| v.iter().map(|v| Some(*v)).collect(), never, no_hook())
            } else {
                let out = signal::result::<_, ()>(Ok(s));
                one(c, "result", &i, Box::pin(out), |v| v.iter().map(|v| Ok(*v)).collect(), never, no_hook())
            }
        }
        6 => {
            // always and its relatives: one value, then the end, without being woken
            let out: DynSignal<u64> = match c.u(3) {
                0 => Box::pin(signal::always(5u64)),
                1 => Box::pin(signal::option(None::<DynSignal<u64>>).map(|v| if v.is_none() { 5 } else { 0 })),
                _ => Box::pin(signal::result(Err::<DynSignal<u64>, u64>(5)).map(|v| v.unwrap_err())),
            };
            let d = Drive::draw(c, true);
            let w = watch_sig("task", d, out, |v| check!(*v == 5, "wrong", "always(5) yields {}", v), |_, _| {});
            quiesce();
            check!(w.task.cancelled() || (w.task.ended() && w.log.borrow().len() == 1), "end", "always: it yielded {:?}, ended: {}", w.log.borrow(), w.task.ended());
            stop_all(std::slice::from_ref(&w.task));
        }
        _ => {
            let vec: Vec<u64> = (0..c.many(4) as u64).collect();
            let (v2, v3) = (vec.clone(), vec.clone());
            let told = shared(false);
            let t2 = told.clone();
            let out = Adapt {
                s: signal_vec::always(vec),
                f: move |v| {
                    *t2.borrow_mut() = true;
                    v
                },
            };
            Case {
                what: "SignalVec always",
                inputs: vec![],
                out: Box::pin(out),
                known: Rc::new(move || v2.clone()),
                plan: Rc::new(move || v3.clone()),
                rest: no_hook(),
                over: Rc::new(|| true),
            }
            .run(c, Plan { max_rounds: 1, max_steps: 1, early_end: 0 });
        }
    }
}

/// sample_stream_cloned: one pair per item of the stream, with a fresh value of the signal.
pub fn c28_sample() {
    let c = choices();
    let vals = Values::new();
    let (si, ss) = SigIn::draw(c, "signal", SigOpts { real: 0, firm: true, coalesce: 40 }, maker(&vals));
    si.borrow().calm();
    let (ti, ts) = SigIn::draw(c, "stream", SigOpts { real: 0, firm: false, coalesce: 0 }, maker(&vals));
    let mut out = Box::pin(FromStreamOut(Box::pin(ss.sample_stream_cloned(AsStream(ts)))));
    let d = Drive::draw(c, true);
    let log: Shared<Vec<(u64, u64)>> = shared(vec![]);
    let pushed = Rc::new(Cell::new(0));
    let (l2, s2, s3, t2, p2) = (log.clone(), si.clone(), si.clone(), ti.clone(), pushed.clone());
    let task = Task::spawn(
        "task",
        d,
        move |cx| {
            p2.set(s3.borrow().pushed().unwrap());
            out.as_mut().poll_change(cx)
        },
        move |o: Obs<(u64, u64)>, _, _| match o {
            Obs::Item((v, x)) => {
                note(|| format!("sees {:?}", (v, x)));
                ev(h(&(v, x)));
                l2.borrow_mut().push((v, x));
                let told = t2.borrow().log();
                check!(told.last() == Some(&x) && told.len() == l2.borrow().len(), "wrong", "sample_stream_cloned: the stream gave {:?}, it yields {}", told, x);
                let s = s2.borrow();
                check!(s.known() == Some(v), "wrong", "sample_stream_cloned yields {}, but got {:?} from its signal", v, s.known());
                let at = s.sent.iter().position(|y| *y == v).unwrap();
                check!(at + 1 >= pushed.get(), "stale", "sample_stream_cloned yields {}, but its signal had newer values: {:?}", v, &s.sent[..pushed.get()]);
            }
            _ => {
                if matches!(o, Obs::Pending) && !rests() {
                    return;
                }
                check!(t2.borrow().log().len() == l2.borrow().len(), "lost", "sample_stream_cloned: an item of the stream was lost");
            }
        },
    );
    let inputs = [dynin(&si), dynin(&ti)];
    feed(c, Plan::default(), &inputs, || {
        let t = ti.borrow();
        let got: Vec<u64> = log.borrow().iter().map(|x| x.1).collect();
        judge(&task, t.ended(), &got, &t.sent, "sample_stream_cloned");
    });
    stop_all(std::slice::from_ref(&task));
}
