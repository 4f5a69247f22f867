//! SignalMap combinators (C29).

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::scen::nested::Keyed;
use crate::scen::stage::*;
use crate::scen::vecs::{dynin, maker};
use futures_signals::signal_map::{self, SignalMapExt};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

struct MapCase {
    what: &'static str,
    inputs: Vec<Shared<dyn Input>>,
    out: DynMap<u64, u64>,
    known: Rc<dyn Fn() -> BTreeMap<u64, u64>>,
    plan: Rc<dyn Fn() -> BTreeMap<u64, u64>>,
    rest: Rc<dyn Fn()>,
    over: Rc<dyn Fn() -> bool>,
}

impl MapCase {
    fn run(self, c: &mut Choices) {
        let what = self.what;
        let d = Drive::draw(c, true);
        let (known, hook) = (self.known, self.rest);
        let k = if c.pct(15) { c.u(6) } else { 9 };
        let w = watch_map("task", d, wrap_map(k, self.out), move |got, _| {
            rest(got, &known(), what);
            hook();
        });
        let (plan, inputs, over) = (self.plan, self.inputs, self.over);
        feed(c, Plan::default(), &inputs, || {
            judge(&w.task, over(), &*w.replay.borrow(), &plan(), what);
        });
        stop_all(std::slice::from_ref(&w.task));
    }
}

pub fn c29() {
    let c = choices();
    let vals = Values::new();
    match c.u(10) {
        0 | 1 => {
            let (i, s) = MapIn::draw(c, "input", 40, maker(&vals));
            let log: Shared<Vec<u64>> = shared(vec![]);
            let l = log.clone();
            let out = s.map_value(move |v| {
                l.borrow_mut().push(v);
                v + 1000
            });
            fn f(m: &BTreeMap<u64, u64>) -> BTreeMap<u64, u64> {
                m.iter().map(|(k, v)| (*k, v + 1000)).collect()
            }
            let (i2, i3, i4, i5) = (i.clone(), i.clone(), i.clone(), i.clone());
            MapCase {
                what: "map_value",
                inputs: vec![dynin(&i)],
                out: Box::pin(out),
                known: Rc::new(move || f(&i2.borrow().known())),
                plan: Rc::new(move || f(&i3.borrow().plan)),
                rest: Rc::new(move || {
                    let i = i5.borrow();
                    let t = i.told.borrow();
                    check!(t.state.seen == *log.borrow(), "closure-calls", "map_value: its closure was called with {:?}, it received {:?}", log.borrow(), t.state.seen);
                }),
                over: Rc::new(move || i4.borrow().ended()),
            }
            .run(c);
        }
        2..=5 => {
            let (k, mk) = Keyed::new(c, maker(&vals), &vals);
            let (i, s) = MapIn::draw(c, "outer", 35, mk);
            let get = k.get();
            let out = s.map_value_signal(move |v| get(v));
            let (i2, i3, i4, i5) = (i.clone(), i.clone(), i.clone(), i.clone());
            let (v2, v3, v4, v5) = (k.vals.clone(), k.vals.clone(), k.vals.clone(), k.vals.clone());
            MapCase {
                what: "map_value_signal",
                inputs: vec![dynin(&i), dynin(&k.pool)],
                out: Box::pin(out),
                known: Rc::new(move || {
                    i2.borrow().known().iter().map(|(k, v)| (*k, v2.borrow()[v].borrow().known().unwrap_or(u64::MAX))).collect()
                }),
                plan: Rc::new(move || i3.borrow().plan.iter().map(|(k, v)| (*k, v3.borrow()[v].borrow().plan.unwrap())).collect()),
                rest: Rc::new(move || {
                    let i = i5.borrow();
                    let now: BTreeSet<u64> = i.known().values().copied().collect();
                    let t = i.told.borrow();
                    for v in &t.state.seen {
                        let vals = v5.borrow();
                        let s = vals[v].borrow();
                        if now.contains(v) {
                            check!(!s.dropped() || s.told_end(), "dropped", "map_value_signal: the signal of {} was dropped, but the value is there", v);
                        } else {
                            check!(s.dropped(), "leak", "map_value_signal: the value {} is gone, but its signal is still alive", v);
                        }
                    }
                }),
                over: Rc::new(move || {
                    let i = i4.borrow();
                    i.ended() && i.plan.values().all(|v| v4.borrow()[v].borrow().ended())
                }),
            }
            .run(c);
        }
        6..=8 => {
            let (i, s) = MapIn::draw(c, "input", 40, maker(&vals));
            let key = c.many(6) as u64;
            let out: DynSignal<Option<u64>> = Box::pin(s.key_cloned(key));
            let d = Drive::draw(c, true);
            let (i2, i3) = (i.clone(), i.clone());
            let w = watch_sig(
                "task",
                d,
                out,
                move |v| rest(v, &i2.borrow().known().get(&key).copied(), "key_cloned"),
                move |log, _| {
                    check!(!log.is_empty(), "no-value", "key_cloned: its task rests without having got a value");
                    rest(log.last().unwrap(), &i3.borrow().known().get(&key).copied(), "key_cloned");
                },
            );
            let inputs = [dynin(&i)];
            feed(c, Plan::default(), &inputs, || {
                let i = i.borrow();
                let got = w.log.borrow().last().copied();
                judge(&w.task, i.ended(), &got, &Some(i.plan.get(&key).copied()), "key_cloned");
            });
            stop_all(std::slice::from_ref(&w.task));
        }
        _ => {
            let m: BTreeMap<u64, u64> = (0..c.many(4) as u64).map(|k| (k, k + 10)).collect();
            let (m2, m3) = (m.clone(), m.clone());
            MapCase {
                what: "SignalMap always",
                inputs: vec![],
                out: Box::pin(signal_map::always(m)),
                known: Rc::new(move || m2.clone()),
                plan: Rc::new(move || m3.clone()),
                rest: Rc::new(|| {}),
                over: Rc::new(|| true),
            }
            .run(c);
        }
    }
}
