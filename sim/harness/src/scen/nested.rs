//! SignalVec combinators over nested inputs (C16, C17, C18, C19).

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::scen::stage::*;
use crate::scen::vecs::{dynin, maker, no_hook, Case};
use futures_signals::signal_vec::SignalVecExt;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// --------------------------------------------------------------------- C16

pub fn c16() {
    let c = choices();
    patience(3_000_000);
    let vals = Values::new();
    let pool: Shared<Pool<VecIn>> = Pool::new(15);
    // one entry per inner vector: the vector itself is taken when it is delivered
    let streams: Shared<Vec<Option<DynVec<u64>>>> = shared(vec![]);
    let inner_real = if c.pct(70) { 0 } else { 60 };
    let inner_mk = maker(&vals);
    let (p2, s2) = (pool.clone(), streams.clone());
    let mk: Rc<dyn Fn(&mut Choices) -> u64> = Rc::new(move |c| {
        let (i, s) = VecIn::draw(c, "inner", inner_real, inner_mk.clone());
        let mut st = s2.borrow_mut();
        st.push(Some(s));
        p2.borrow_mut().members.push(i);
        st.len() as u64 - 1
    });
    let (outer, so) = VecIn::draw(c, "outer", 30, mk);
    let s3 = streams.clone();
    let out: DynVec<u64> = Box::pin(
        Adapt {
            s: so,
            f: move |id: u64| s3.borrow_mut()[id as usize].take().expect("an inner vector is delivered once"),
        }
        .flatten(),
    );
    let (o2, p2) = (outer.clone(), pool.clone());
    let (o3, p3) = (outer.clone(), pool.clone());
    let (o4, p4) = (outer.clone(), pool.clone());
    Case {
        what: "flatten",
        inputs: vec![dynin(&outer), dynin(&pool)],
        out,
        known: Rc::new(move || {
            let p = p2.borrow();
            o2.borrow().known().iter().flat_map(|id| p.members[*id as usize].borrow().known()).collect()
        }),
        plan: Rc::new(move || {
            let p = p3.borrow();
            o3.borrow().plan.iter().flat_map(|id| p.members[*id as usize].borrow().plan.clone()).collect()
        }),
        rest: no_hook(),
        over: Rc::new(move || {
            let p = p4.borrow();
            let o = o4.borrow();
            o.ended() && o.plan.iter().all(|id| p.members[*id as usize].borrow().ended())
        }),
    }
    .run(c, Plan::default());
}

// ---------------------------------------------------------------- C17, C18

/// A vector whose values each have a signal.
pub struct Keyed<T: Copy + std::fmt::Debug + 'static> {
    pub vals: Shared<BTreeMap<u64, SigInRef<T>>>,
    pub pool: Shared<Pool<SigIn<T>>>,
    streams: Shared<BTreeMap<u64, DynSignal<T>>>,
}

impl<T: Copy + std::fmt::Debug + 'static> Keyed<T> {
    pub fn new(c: &mut Choices, value: Rc<dyn Fn(&mut Choices) -> T>, vals: &Values) -> (Keyed<T>, Rc<dyn Fn(&mut Choices) -> u64>) {
        let k = Keyed { vals: shared(BTreeMap::new()), pool: Pool::new(20), streams: shared(BTreeMap::new()) };
        let o = SigOpts { real: if c.pct(60) { 0 } else { 70 }, firm: true, coalesce: 40 };
        let (v2, p2, s2, n) = (k.vals.clone(), k.pool.clone(), k.streams.clone(), vals.clone());
        let mk: Rc<dyn Fn(&mut Choices) -> u64> = Rc::new(move |c| {
            let v = n.next(c);
            let (i, s) = SigIn::draw(c, "inner", o, value.clone());
            v2.borrow_mut().insert(v, i.clone());
            s2.borrow_mut().insert(v, s);
            p2.borrow_mut().members.push(i);
            v
        });
        (k, mk)
    }

    pub fn get(&self) -> impl Fn(u64) -> DynSignal<T> + 'static {
        let s = self.streams.clone();
        move |v| match s.borrow_mut().remove(&v) {
            Some(s) => s,
            None => fail("closure-calls", format!("the closure was called again for the value {}", v)),
        }
    }
}

fn signals_over<T: Copy + std::fmt::Debug + 'static>(o: &VecInRef, k: &Keyed<T>) -> Rc<dyn Fn() -> bool> {
    let (o, vals) = (o.clone(), k.vals.clone());
    Rc::new(move || o.borrow().ended() && o.borrow().plan.iter().all(|v| vals.borrow()[v].borrow().ended()))
}

/// The signals of values which are gone must be gone too, and the others not.
fn signals_kept<T: Copy + std::fmt::Debug + 'static>(o: &VecInRef, k: &Keyed<T>, what: &'static str) -> Rc<dyn Fn()> {
    let (o, vals) = (o.clone(), k.vals.clone());
    Rc::new(move || {
        let now: BTreeSet<u64> = o.borrow().known().into_iter().collect();
        let o = o.borrow();
        let t = o.told.borrow();
        for v in &t.state.seen {
            let vals = vals.borrow();
            let s = vals[v].borrow();
            if now.contains(v) {
                check!(!s.dropped() || s.told_end(), "dropped", "{}: the signal of {} was dropped, but the value is there", what, v);
            } else {
                check!(s.dropped(), "leak", "{}: the value {} is gone, but its signal is still alive", what, v);
            }
        }
    })
}

pub fn c17() {
    let c = choices();
    patience(3_000_000);
    let vals = Values::new();
    let (k, mk) = Keyed::new(c, maker(&vals), &vals);
    let (o, s) = VecIn::draw(c, "outer", 30, mk);
    let get = k.get();
    let out: DynVec<u64> = Box::pin(s.map_signal(move |v| get(v)));
    let (o2, v2, o3, v3) = (o.clone(), k.vals.clone(), o.clone(), k.vals.clone());
    Case {
        what: "map_signal",
        inputs: vec![dynin(&o), dynin(&k.pool)],
        out,
        // a signal which was never polled has no value: nothing would equal that
        known: Rc::new(move || o2.borrow().known().iter().map(|v| v2.borrow()[v].borrow().known().unwrap_or(u64::MAX)).collect()),
        plan: Rc::new(move || o3.borrow().plan.iter().map(|v| v3.borrow()[v].borrow().plan.unwrap()).collect()),
        rest: signals_kept(&o, &k, "map_signal"),
        over: signals_over(&o, &k),
    }
    .run(c, Plan::default());
}

pub fn c18() {
    let c = choices();
    patience(3_000_000);
    let vals = Values::new();
    let (k, mk) = Keyed::new(c, Rc::new(|c| c.pct(60)), &vals);
    let (o, s) = VecIn::draw(c, "outer", 30, mk);
    let get = k.get();
    let out: DynVec<u64> = Box::pin(s.filter_signal_cloned(move |v| get(*v)));
    let (o2, v2, o3, v3) = (o.clone(), k.vals.clone(), o.clone(), k.vals.clone());
    Case {
        what: "filter_signal_cloned",
        inputs: vec![dynin(&o), dynin(&k.pool)],
        out,
        known: Rc::new(move || {
            o2.borrow().known().into_iter().filter(|v| v2.borrow()[v].borrow().known().expect("polled")).collect()
        }),
        plan: Rc::new(move || o3.borrow().plan.iter().copied().filter(|v| v3.borrow()[v].borrow().plan.unwrap()).collect()),
        rest: signals_kept(&o, &k, "filter_signal_cloned"),
        over: signals_over(&o, &k),
    }
    .run(c, Plan::default());
}

// --------------------------------------------------------------------- C19

/// The futures of delay_remove, completed by a producer.
struct Futures {
    all: Shared<BTreeMap<u64, FutRef<()>>>,
    order: Shared<Vec<u64>>,
    planned: BTreeSet<u64>,
}

impl Input for Futures {
    fn step(&mut self, c: &mut Choices) -> Action {
        // any value which was ever handed out: mostly the removed ones are interesting,
        // but some futures are complete before their value is removed
        let open: Vec<u64> = self.order.borrow().iter().copied().filter(|v| !self.planned.contains(v)).collect();
        if open.is_empty() {
            return Box::new(|| {});
        }
        let v = open[c.u(open.len())];
        self.planned.insert(v);
        let f = self.all.borrow()[&v].clone();
        Box::new(move || {
            note(|| format!("the future of {} completes", v));
            complete(&f, ())
        })
    }

    fn end(&mut self) -> Action {
        let open: Vec<u64> = self.order.borrow().iter().copied().filter(|v| !self.planned.contains(v)).collect();
        self.planned.extend(open.iter().copied());
        let fs: Vec<FutRef<()>> = open.iter().map(|v| self.all.borrow()[v].clone()).collect();
        Box::new(move || {
            for f in fs {
                pause();
                complete(&f, ());
            }
        })
    }

    fn ended(&self) -> bool {
        self.order.borrow().iter().all(|v| self.planned.contains(v))
    }
}

pub fn c19() {
    let c = choices();
    c.moderate();
    patience(3_000_000);
    let vals = Values::new();
    let all: Shared<BTreeMap<u64, FutRef<()>>> = shared(BTreeMap::new());
    let order: Shared<Vec<u64>> = shared(vec![]);
    let (a2, o2, n) = (all.clone(), order.clone(), vals.clone());
    let mk: Rc<dyn Fn(&mut Choices) -> u64> = Rc::new(move |c| {
        let v = n.next(c);
        a2.borrow_mut().insert(v, fut());
        o2.borrow_mut().push(v);
        v
    });
    let (i, s) = VecIn::draw(c, "input", 35, mk);
    let futures = shared(Futures { all: all.clone(), order, planned: BTreeSet::new() });
    let (a3, called) = (all.clone(), shared(BTreeSet::<u64>::new()));
    let out: DynVec<u64> = Box::pin(s.delay_remove(move |v| {
        if !called.borrow_mut().insert(*v) {
            fail("closure-calls", format!("the closure was called again for the value {}", v));
        }
        SimFuture(a3.borrow()[v].clone())
    }));
    // What must be there: the values of the input in order, and the removed ones whose
    // future has not completed.
    let (i2, a2) = (i.clone(), all.clone());
    let look = move |got: &[u64], quiet: bool| {
        let i = i2.borrow();
        let now = i.known();
        let live: Vec<u64> = got.iter().copied().filter(|v| now.contains(v)).collect();
        rest(&live, &now, "delay_remove (values which are in the input)");
        let told = i.told.borrow();
        let all = a2.borrow();
        let mut count: BTreeMap<u64, usize> = BTreeMap::new();
        for v in got {
            *count.entry(*v).or_insert(0) += 1;
            check!(told.state.seen.contains(v), "wrong", "delay_remove shows {}, which it never received", v);
        }
        for v in &told.state.seen {
            let n = count.get(v).copied().unwrap_or(0);
            let f = all[v].borrow();
            if now.contains(v) {
                check!(n == 1, "wrong", "delay_remove shows {} {} times", v, n);
                check!(f.polls == 0, "early-poll", "delay_remove polled the future of {}, which is still in its input", v);
            } else if told.state.updated.contains(v) && n == 0 {
                // replaced by an update: nothing lingers
                check!(f.dropped, "leak", "delay_remove: {} is gone, but its future is alive", v);
            } else {
                // complete, but its wake-up is still on the way: that counts as open
                let open = !f.done && (f.value.is_none() || !quiet);
                check!(
                    n == open as usize,
                    "wrong",
                    "delay_remove shows {} {} times: it was removed, and its future is {}",
                    v,
                    n,
                    if open { "not complete" } else { "complete" }
                );
                check!(open || f.dropped, "leak", "delay_remove: {} is gone, but its future is alive", v);
                check!(!open || f.polls > 0, "not-polled", "delay_remove waits for the future of {} without having polled it", v);
            }
        }
    };
    let d = Drive::draw(c, true);
    let look = Rc::new(look);
    let l2 = look.clone();
    let w = watch_vec("task", d, out, move |got, _| l2(got, false));
    let inputs = [dynin(&i), dynin(&futures)];
    feed(c, Plan { max_rounds: 3, max_steps: 5, early_end: 12 }, &inputs, || {
        if w.task.cancelled() {
            return;
        }
        look(&w.replay.borrow(), true);
        let i = i.borrow();
        check!(i.known() == i.plan, "stale", "delay_remove: everything is quiet, but it has not read its whole input");
        let lingering = w.replay.borrow().iter().any(|v| !i.plan.contains(v));
        let over = i.ended() && !lingering;
        check!(
            w.task.ended() == over,
            "end",
            "delay_remove: its input has ended: {}, values linger: {}, it has ended: {}",
            i.ended(),
            lingering,
            w.task.ended()
        );
    });
    stop_all(std::slice::from_ref(&w.task));
}
