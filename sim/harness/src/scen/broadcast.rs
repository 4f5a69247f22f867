//! C06: Broadcaster.

use crate::check;
use crate::engine::*;
use crate::kit::*;
use futures_signals::signal::{channel, Broadcaster, Mutable, Sender, SignalExt};
use futures_signals::signal::Signal;
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// What feeds the broadcaster.
#[derive(Clone)]
enum Feed {
    Mutable(Rc<RefCell<Option<Mutable<u64>>>>),
    Script(SrcRef<u64>),
    Channel(Rc<RefCell<Option<Sender<u64>>>>),
}

impl Feed {
    fn send(&self, v: u64) {
        match self {
            Feed::Mutable(m) => {
                let m = m.borrow().clone();
                if let Some(m) = m {
                    m.set(v);
                }
            }
            Feed::Script(s) => push(s, v),
            Feed::Channel(s) => {
                let s = s.borrow().clone();
                if let Some(s) = s {
                    let _ = s.send(v);
                }
            }
        }
    }

    fn end(&self) {
        match self {
            Feed::Mutable(m) => {
                let m = m.borrow_mut().take();
                drop(m);
            }
            Feed::Script(s) => close(s),
            Feed::Channel(s) => {
                let s = s.borrow_mut().take();
                drop(s);
            }
        }
    }
}

/// Gives every item of the input its own number, and sees to it that it is polled by
/// one thread at a time and never after its end.
struct Tap {
    s: DynSignal<u64>,
    st: Rc<TapState>,
}

#[derive(Default)]
struct TapState {
    /// the items so far: item i is shown as i + 1
    items: RefCell<Vec<u64>>,
    busy: Cell<bool>,
    ended: Cell<bool>,
}

impl Signal for Tap {
    type Item = u64;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        let st = self.st.clone();
        check!(!st.busy.get(), "concurrent-poll", "the input is polled by two threads at once");
        check!(!st.ended.get(), "polled-after-end", "the input was polled again after it had ended");
        st.busy.set(true);
        let r = self.s.as_mut().poll_change(cx);
        st.busy.set(false);
        match r {
            Poll::Ready(Some(v)) => {
                st.items.borrow_mut().push(v);
                Poll::Ready(Some(st.items.borrow().len() as u64))
            }
            Poll::Ready(None) => {
                st.ended.set(true);
                Poll::Ready(None)
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

struct Cons {
    /// numbers of the items it saw
    seen: Rc<RefCell<Vec<u64>>>,
    task: Task,
}

type In = Tap;

fn subscribe(b: &Broadcaster<In>, kind: usize, d: Drive, id: usize, firm: bool) -> Cons {
    let mut sig: DynSignal<u64> = match kind {
        0 => Box::pin(b.signal()),
        1 => Box::pin(b.signal_cloned()),
        2 => Box::pin(b.signal_ref(|v| {
            pause();
            *v
        })),
        3 => Box::pin(b.clone().signal()),
        _ => Box::pin(Broadcaster::new(b.signal()).signal()),
    };
    note(|| format!("subscribes consumer {} kind {}", id, kind));
    let seen: Rc<RefCell<Vec<u64>>> = Default::default();
    let s2 = seen.clone();
    let mut first = true;
    let task = Task::spawn(
        &format!("consumer{}", id),
        d,
        move |cx| sig.as_mut().poll_change(cx),
        move |o, _, _| {
            if std::mem::replace(&mut first, false) && firm {
                check!(
                    matches!(o, Obs::Item(_)),
                    "first-poll",
                    "the first poll of consumer {} gave {:?} although the input has a value",
                    id,
                    o
                );
            }
            match o {
            Obs::Item(v) => {
                note(|| format!("sees {}", v));
                ev(v);
                s2.borrow_mut().push(v);
            }
            Obs::End => note(|| "sees the end".into()),
            Obs::Pending => {}
            }
        },
    );
    Cons { seen, task }
}

pub fn c06() {
    let c = choices();
    let kind = c.u(4);
    let mut cur = Some(1u64);
    // is a value there at once?
    let mut firm = true;
    let (feed, input): (Feed, DynSignal<u64>) = match kind {
        0 => {
            let m = Mutable::new(1);
            let s = m.signal();
            (Feed::Mutable(Rc::new(RefCell::new(Some(m)))), Box::pin(s))
        }
        1 => {
            let s = src("input");
            if c.pct(70) {
                push(&s, 1);
            } else {
                cur = None;
                firm = false;
            }
            let stutter = draw_stutter(c, 30);
            s.borrow_mut().stutter = stutter;
            firm &= stutter == 0;
            (Feed::Script(s.clone()), Box::pin(SignalSrc::new(&s)))
        }
        2 => {
            let (s, r) = channel(1);
            (Feed::Channel(Rc::new(RefCell::new(Some(s)))), Box::pin(r))
        }
        _ => {
            let m = Mutable::new(1_000_001);
            let s = m.signal().map(|x| if x > 1_000_000 { x - 1_000_000 } else { x });
            (Feed::Mutable(Rc::new(RefCell::new(Some(m)))), Box::pin(s))
        }
    };
    let tap: Rc<TapState> = Default::default();
    let input = Tap { s: input, st: tap.clone() };
    let b = if c.pct(80) { Broadcaster::new(input) } else { input.broadcast() };
    let crowd = c.pct(5);
    let (nc, max) = if crowd { (4 + c.many_capped(5, 70), 2 + 8 * c.scale().min(10)) } else { (c.range(1, 3), 5) };
    let mut kinds: Vec<usize> = (0..max).map(|_| c.weighted(&[3, 2, 2, 1, 1])).collect();
    let mut drives: Vec<Drive> = (0..max).map(|_| Drive::draw(c, true)).collect();
    let rounds = c.range(1, 3);
    let late_in: Vec<bool> = (0..rounds).map(|_| c.pct(35)).collect();
    let mut next = 1u64;
    let plan: Vec<Vec<u64>> = (0..rounds)
        .map(|_| {
            (0..c.many(4))
                .map(|_| {
                    next += 1;
                    next
                })
                .collect()
        })
        .collect();
    let end_round = if c.pct(50) { Some(c.u(rounds)) } else { None };
    let drop_b = c.pct(30);

    let cons: Shared<Vec<Cons>> = shared(vec![]);
    for k in 0..nc {
        let x = subscribe(&b, kinds.pop().unwrap(), drives.pop().unwrap(), k, firm);
        cons.borrow_mut().push(x);
    }
    let mut b = Some(b);
    let mut ended = false;
    for r in 0..rounds {
        // At most two late subscribers, created by another thread while writes happen.
        if late_in[r] && !kinds.is_empty() && cons.borrow().len() < max {
            if let Some(b) = &b {
                let tap = tap.clone();
                let (b, kind, d, cons) = (b.clone(), kinds.pop().unwrap(), drives.pop().unwrap(), cons.clone());
                let id = 10 + r;
                fault("late-subscriber");
                spawn("late", move || {
                    pause();
                    let x = subscribe(&b, kind, d, id, firm || !tap.items.borrow().is_empty());
                    cons.borrow_mut().push(x);
                });
            }
        }
        let vs = plan[r].clone();
        if !ended {
            if let Some(&v) = vs.last() {
                cur = Some(v);
            }
            let f = feed.clone();
            let fin = end_round == Some(r);
            spawn("writer", move || {
                for v in vs {
                    pause();
                    f.send(v);
                }
                if fin {
                    pause();
                    f.end();
                }
            });
            ended = fin;
        }
        if drop_b && r + 1 == rounds {
            let x = b.take();
            spawn("dropper", move || drop(x));
        }
        quiesce();
        verify(&cons, &tap, cur, ended);
    }
    if !ended {
        let f = feed.clone();
        spawn("writer", move || f.end());
        quiesce();
        verify(&cons, &tap, cur, true);
    }
    if let Some(b) = &b {
        // A signal made after the end.
        let over = tap.ended.get();
        let x = subscribe(b, 0, Drive::default(), 99, firm || !tap.items.borrow().is_empty());
        quiesce();
        check!(x.task.ended(), "not-ended", "a signal made after the input's end never ends");
        let n = tap.items.borrow().len();
        let seen = x.seen.borrow();
        check!(
            seen.last().copied() == (if n > 0 { Some(n as u64) } else { None }) && (!over || seen.len() <= 1),
            "stale",
            "a signal made after the input's end saw the items {:?} of {}",
            seen,
            n
        );
        check!(tap.items.borrow().last().copied() == cur, "stale", "the input was not polled until its end");
    }
    let ts: Vec<Task> = cons.borrow().iter().map(|c| c.task.clone()).collect();
    stop_all(&ts);
}

fn verify(cons: &Shared<Vec<Cons>>, tap: &TapState, cur: Option<u64>, ended: bool) {
    let items = tap.items.borrow();
    for (k, c) in cons.borrow().iter().enumerate() {
        let seen = c.seen.borrow();
        for w in seen.windows(2) {
            check!(w[0] < w[1], "order", "consumer {} saw the items {:?} of the input: {} after {}", k, seen, w[1], w[0]);
        }
        if c.task.cancelled() {
            continue;
        }
        if ended {
            check!(c.task.ended(), "not-ended", "the input has ended but consumer {} is parked (saw {:?})", k, seen);
        } else {
            check!(c.task.running(), "ended-early", "consumer {} ended although the input is alive", k);
        }
        let last = seen.last().map(|&i| items[i as usize - 1]);
        check!(
            last == cur && seen.last().map_or(true, |&i| i as usize == items.len()),
            "stale",
            "the input's latest value is {:?} (item {}), consumer {} is {} having seen the items {:?}, last {:?}",
            cur,
            items.len(),
            k,
            if ended { "finished" } else { "parked" },
            seen,
            last
        );
    }
}
