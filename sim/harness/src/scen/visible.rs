//! C32: what a thread did before it changed something is visible to whoever is told of it, with
//! weak memory: loads may be given overwritten values, and happens-before is tracked.

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::weak::Moment;
use discard::{Discard, DiscardOnDrop};
use futures_signals::cancelable_future;
use futures_signals::signal::{channel, Broadcaster, Mutable, ReadOnlyMutable, Sender, Signal, SignalExt};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::rc::Rc;
use std::task::Poll;

fn weak(c: &mut Choices) {
    let budget = c.u(7) as u32;
    let pct = c.pick(&[30, 10, 60, 90]);
    weak_memory(budget, pct);
}

/// What the harness knows of a run, of which the simulated threads know only what happened before.
#[derive(Default)]
struct Book {
    /// the moment right before a value was given to the library
    given: RefCell<HashMap<u64, Option<Moment>>>,
    /// before and after the calls which close it for good
    closes: RefCell<Vec<(Option<Moment>, Cell<Option<Moment>>)>>,
    /// before the drop of each handle
    drops: RefCell<Vec<Option<Moment>>>,
    handles: Cell<usize>,
}

type BookRef = Rc<Book>;

impl Book {
    fn give(&self, v: u64) {
        self.given.borrow_mut().insert(v, moment());
    }

    fn received(&self, v: u64, by: &str) {
        let m = self.given.borrow().get(&v).copied().flatten();
        check!(known(m), "unsynchronised", "{} is shown {}, but not what its writer did before", by, v);
    }

    fn ended(&self, by: &str) {
        if moment().is_none() || self.closes.borrow().iter().any(|m| known(m.0)) {
            return;
        }
        let d = self.drops.borrow();
        check!(d.len() == self.handles.get(), "ended-early", "{} ends, but only {} of {} handles were dropped", by, d.len(), self.handles.get());
        check!(d.iter().all(|&m| known(m)), "unsynchronised", "{} ends, but what a dropper of its handles did before is not visible", by);
    }

    fn handle(&self) {
        self.handles.set(self.handles.get() + 1);
    }

    fn gone(&self) {
        self.drops.borrow_mut().push(moment());
    }

    /// Tells other threads (by a lock, say) how far this one is.
    fn publish(&self) {
        hb_release(0x10);
    }

    fn look(&self) {
        hb_acquire(0x10);
    }
}

fn consume<S>(name: &str, s: S, d: Drive, book: &BookRef) -> (Task, Rc<RefCell<Vec<u64>>>)
where
    S: Signal + 'static,
    S::Item: IntoValue,
{
    let mut s = Box::pin(s);
    let seen: Rc<RefCell<Vec<u64>>> = Default::default();
    let (s2, b, n) = (seen.clone(), book.clone(), name.to_string());
    let t = Task::spawn(
        name,
        d,
        move |cx| s.as_mut().poll_change(cx),
        move |o, _, _| match o {
            Obs::Item(x) => {
                let v = x.value();
                note(|| format!("is shown {}", v));
                ev(v);
                b.received(v, &n);
                s2.borrow_mut().push(v);
            }
            Obs::Pending => {}
            Obs::End => {
                note(|| "sees the end".into());
                ev(0xE0D);
                b.ended(&n);
            }
        },
    );
    (t, seen)
}

trait IntoValue {
    fn value(self) -> u64;
}

impl IntoValue for Tok {
    fn value(self) -> u64 {
        self.touch("received");
        self.v
    }
}

impl IntoValue for u64 {
    fn value(self) -> u64 {
        self
    }
}

// ------------------------------------------------------------------ channel

pub fn channels() {
    let c = choices();
    weak(c);
    let book: BookRef = Default::default();
    book.give(0);
    let (s, r) = channel(Tok::new(0));
    let nt = c.range(1, 3);
    let closing = c.pct(40);
    let w = [8u32, 2, 3, 2, 2, if closing { 2 } else { 0 }];
    let plans: Vec<Vec<usize>> = (0..nt).map(|_| (0..c.range(1, 4)).map(|_| c.weighted(&w)).collect()).collect();
    let keep: Vec<bool> = (0..nt).map(|_| c.pct(30)).collect();
    let keep_main = c.pct(30);
    let d = Drive::draw(c, false);
    let (task, seen) = consume("receiver", r, d, &book);
    let left: Shared<Vec<Sender<Tok>>> = shared(vec![]);
    for (t, ops) in plans.into_iter().enumerate() {
        let s = s.clone();
        book.handle();
        let (b, left, keep) = (book.clone(), left.clone(), keep[t]);
        spawn(&format!("sender{}", t), move || {
            let mut hs = vec![s];
            let mut next = 1000 * (t as u64 + 1);
            for op in ops {
                if hs.is_empty() {
                    break;
                }
                pause();
                match op {
                    0 => {
                        next += 1;
                        let x = Tok::new(next);
                        b.give(next);
                        let over = b.closes.borrow().iter().any(|m| m.1.get().is_some() && known(m.1.get()));
                        let r = hs[hs.len() - 1].send(x);
                        note(|| format!("sends {}: {}", next, r.is_ok()));
                        if r.is_ok() {
                            check!(!over || moment().is_none(), "send-after-close", "send succeeds although its thread knows of the close");
                        } else {
                            check!(!b.closes.borrow().is_empty(), "wrong-result", "send fails on an open channel");
                        }
                    }
                    1 => {
                        b.handle();
                        let x = hs[hs.len() - 1].clone();
                        hs.push(x);
                    }
                    2 => {
                        b.gone();
                        note(|| "drops a sender".into());
                        let x = hs.pop();
                        drop(x);
                    }
                    3 => b.publish(),
                    4 => b.look(),
                    _ => {
                        let i = b.closes.borrow().len();
                        b.closes.borrow_mut().push((moment(), Cell::new(None)));
                        note(|| "closes".into());
                        hs[hs.len() - 1].close();
                        // what follows happens after it
                        let m = moment();
                        b.closes.borrow()[i].1.set(m);
                    }
                }
            }
            if keep {
                left.borrow_mut().append(&mut hs);
            }
            while let Some(x) = hs.pop() {
                b.gone();
                drop(x);
            }
        });
    }
    book.handle();
    let mut s = Some(s);
    if !keep_main {
        book.gone();
        drop(s.take());
    }
    quiesce();
    let closed = !book.closes.borrow().is_empty();
    let open = !closed && (s.is_some() || !left.borrow().is_empty());
    if open {
        check!(task.running(), "ended-early", "the receiver ended although a sender is open");
        check!(live_total() == 0, "stale", "the receiver is parked, but {} value(s) which were sent were neither received nor replaced (it saw {:?})", live_total(), seen.borrow());
    } else {
        check!(task.ended(), "not-ended", "the channel is closed, but the receiver is parked (it saw {:?})", seen.borrow());
    }
    for t in 0..nt as u64 {
        let mine: Vec<u64> = seen.borrow().iter().copied().filter(|v| v / 1000 == t + 1).collect();
        check!(mine.windows(2).all(|w| w[0] < w[1]), "order", "the receiver saw {:?} of one sender", mine);
    }
    for x in s.take().into_iter().chain(std::mem::take(&mut *left.borrow_mut())) {
        book.gone();
        drop(x);
    }
    quiesce();
    check!(task.ended(), "not-ended", "all senders are dropped, but the receiver is parked");
    check_no_leak("channel");
}

// ------------------------------------------------------------------ Mutable

#[derive(Clone)]
struct Late {
    ro: ReadOnlyMutable<Tok>,
    book: BookRef,
    cons: Shared<Vec<(Task, Rc<RefCell<Vec<u64>>>)>>,
}

fn watch(m: &ReadOnlyMutable<Tok>, kind: usize, d: Drive, book: &BookRef, n: usize) -> (Task, Rc<RefCell<Vec<u64>>>) {
    let name = format!("consumer{}", n);
    match kind {
        0 => consume(&name, m.signal_cloned(), d, book),
        _ => consume(
            &name,
            m.signal_ref(|t| {
                t.touch("seen");
                pause();
                t.v
            }),
            d,
            book,
        ),
    }
}

pub fn mutables() {
    let c = choices();
    weak(c);
    let book: BookRef = Default::default();
    book.give(0);
    let m = Mutable::new(Tok::new(0));
    book.handle();
    let nt = c.range(1, 3);
    // another one, to swap with
    book.give(9);
    let other = Mutable::new(Tok::new(9));
    let w = [6u32, 2, 2, 2, 3, 1, 1, 1, 1, 1];
    let plans: Vec<Vec<usize>> = (0..nt).map(|_| (0..c.range(1, 4)).map(|_| c.weighted(&w)).collect()).collect();
    let keep: Vec<bool> = (0..nt).map(|_| c.pct(25)).collect();
    let keep_main = c.pct(25);
    let nc = c.range(1, 3);
    let mut drives: Vec<(usize, Drive)> = (0..nc + 3).map(|_| (c.u(2), Drive::draw(c, true))).collect();
    let late = Late { ro: m.read_only(), book: book.clone(), cons: shared(vec![]) };
    for i in 0..nc {
        let (k, d) = drives.pop().unwrap();
        let x = watch(&late.ro, k, d, &book, i);
        late.cons.borrow_mut().push(x);
    }
    let left: Shared<Vec<Mutable<Tok>>> = shared(vec![]);
    for (t, ops) in plans.into_iter().enumerate() {
        let h = m.clone();
        book.handle();
        let (b, left, keep, late, other) = (book.clone(), left.clone(), keep[t], late.clone(), other.clone());
        let mut drive = drives.pop();
        spawn(&format!("writer{}", t), move || {
            let mut hs = vec![h];
            let mut next = 1000 * (t as u64 + 1);
            for op in ops {
                if hs.is_empty() {
                    break;
                }
                pause();
                next += 1;
                let h = &hs[hs.len() - 1];
                match op {
                    0 => {
                        let x = Tok::new(next);
                        b.give(next);
                        note(|| format!("sets {}", next));
                        h.set(x);
                    }
                    1 => {
                        let x = Tok::new(next);
                        b.give(next);
                        note(|| format!("replaces by {}", next));
                        let old = h.replace(x);
                        b.received(old.v, "replace");
                        old.touch("replaced");
                    }
                    2 => {
                        let mut l = h.lock_mut();
                        l.touch("locked");
                        let x = Tok::new(next);
                        b.give(next);
                        note(|| format!("locks and assigns {}", next));
                        *l = x;
                    }
                    3 => {
                        let x = h.clone();
                        b.handle();
                        hs.push(x);
                    }
                    4 => {
                        note(|| "drops a handle".into());
                        b.gone();
                        let x = hs.pop();
                        drop(x);
                    }
                    5 => {
                        let x = h.get_cloned();
                        b.received(x.v, "get_cloned");
                    }
                    6 => b.publish(),
                    7 => b.look(),
                    8 => {
                        note(|| "swaps".into());
                        h.swap(&other);
                    }
                    _ => {
                        if let Some((k, d)) = drive.take() {
                            fault("late-subscriber");
                            let x = watch(&late.ro, k, d, &b, 10 + t);
                            late.cons.borrow_mut().push(x);
                        }
                    }
                }
            }
            if keep {
                left.borrow_mut().append(&mut hs);
            }
            while let Some(x) = hs.pop() {
                note(|| "drops a handle".into());
                b.gone();
                drop(x);
            }
        });
    }
    let mut m = Some(m);
    if !keep_main {
        book.gone();
        drop(m.take());
    }
    quiesce();
    let open = m.is_some() || !left.borrow().is_empty();
    let cur = late.ro.lock_ref().v;
    for (k, (t, seen)) in late.cons.borrow().iter().enumerate() {
        let seen = seen.borrow();
        if t.cancelled() {
            continue;
        }
        check!(seen.last() == Some(&cur), "stale", "the value is {}, but consumer {} rests having seen {:?}", cur, k, seen);
        check!(t.running() == open, if open { "ended-early" } else { "not-ended" }, "consumer {} {}", k, if open { "ended although a handle is alive" } else { "is parked although all handles are gone" });
    }
    for x in m.take().into_iter().chain(std::mem::take(&mut *left.borrow_mut())) {
        book.gone();
        drop(x);
    }
    quiesce();
    for (k, (t, _)) in late.cons.borrow().iter().enumerate() {
        check!(!t.running(), "not-ended", "consumer {} is parked although all handles are gone", k);
    }
    drop(late);
    drop(other);
    check_no_leak("Mutable");
}

// -------------------------------------------------------------- Broadcaster

enum Writer {
    Mutable(Mutable<Tok>),
    Channel(Sender<Tok>),
}

pub fn broadcasters() {
    let c = choices();
    weak(c);
    let book: BookRef = Default::default();
    book.give(0);
    book.handle();
    let (w, input): (Writer, DynSignal<Tok>) = if c.pct(50) {
        let m = Mutable::new(Tok::new(0));
        let s = m.signal_cloned();
        (Writer::Mutable(m), Box::pin(s))
    } else {
        let (s, r) = channel(Tok::new(0));
        (Writer::Channel(s), Box::pin(r))
    };
    let b = if c.pct(80) { Broadcaster::new(input) } else { input.broadcast() };
    let nc = c.range(1, 3);
    let n = c.range(0, 4);
    let fin = c.pct(60);
    let late = c.pct(40);
    let mut kinds: Vec<(usize, Drive)> = (0..nc + 1).map(|_| (c.u(2), Drive::draw(c, true))).collect();
    let cons: Shared<Vec<(Task, Rc<RefCell<Vec<u64>>>)>> = shared(vec![]);
    let make = |b: &Broadcaster<DynSignal<Tok>>, (k, d): (usize, Drive), book: &BookRef, n: usize| {
        let name = format!("consumer{}", n);
        match k {
            0 => consume(&name, b.signal_cloned(), d, book),
            _ => consume(
                &name,
                b.signal_ref(|t| {
                    t.touch("seen");
                    pause();
                    t.v
                }),
                d,
                book,
            ),
        }
    };
    for i in 0..nc {
        let x = make(&b, kinds.pop().unwrap(), &book, i);
        cons.borrow_mut().push(x);
    }
    let kept: Shared<Option<Writer>> = shared(None);
    let (bk, k2) = (book.clone(), kept.clone());
    spawn("writer", move || {
        for i in 0..n {
            pause();
            let v = 1 + i as u64;
            let x = Tok::new(v);
            bk.give(v);
            note(|| format!("sets {}", v));
            match &w {
                Writer::Mutable(m) => m.set(x),
                Writer::Channel(s) => {
                    let _ = s.send(x);
                }
            }
        }
        pause();
        if fin {
            bk.gone();
            note(|| "drops the handle".into());
            drop(w);
        } else {
            *k2.borrow_mut() = Some(w);
        }
    });
    if late {
        let (b, d, book, cons) = (b.clone(), kinds.pop().unwrap(), book.clone(), cons.clone());
        fault("late-subscriber");
        spawn("late", move || {
            pause();
            let x = make(&b, d, &book, 9);
            cons.borrow_mut().push(x);
        });
    }
    drop(b);
    quiesce();
    for round in 0..2 {
        let ended = fin || round == 1;
        for (k, (t, seen)) in cons.borrow().iter().enumerate() {
            let seen = seen.borrow();
            if t.cancelled() {
                continue;
            }
            check!(seen.last() == Some(&(n as u64)), "stale", "the input's value is {}, but consumer {} rests having seen {:?}", n, k, seen);
            check!(seen.windows(2).all(|w| w[0] < w[1]), "order", "consumer {} saw {:?}", k, seen);
            check!(t.running() != ended, if ended { "not-ended" } else { "ended-early" }, "consumer {} {}", k, if ended { "is parked although the input has ended" } else { "ended although the input is alive" });
        }
        if ended {
            break;
        }
        let w = kept.borrow_mut().take();
        book.gone();
        drop(w);
        quiesce();
    }
    check_no_leak("Broadcaster");
}

// --------------------------------------------------------- CancelableFuture

pub fn cancels() {
    let c = choices();
    weak(c);
    let how = c.u(3);
    let complete_it = c.pct(40);
    let pauses = (c.u(4), c.u(4));
    let d = Drive::draw(c, false);
    let f: FutRef<Tok> = fut();
    let tok = Tok::new(2);
    let before: Rc<Cell<Option<Moment>>> = Default::default();
    let begun: Rc<Cell<bool>> = Default::default();
    let after: Rc<Cell<Option<Moment>>> = Default::default();
    let (b2, g2) = (before.clone(), begun.clone());
    let (handle, future) = cancelable_future(SimFuture(f.clone()), move || {
        check!(g2.get(), "not-cancelled", "the cancellation callback ran although the handle is alive");
        check!(known(b2.get()), "unsynchronised", "the cancellation callback runs, but what was done before the discard is not visible");
        tok.touch("returned");
        tok
    });
    let mut future = Box::pin(future);
    let result: Rc<Cell<Option<u64>>> = Default::default();
    let (r2, a2, f2) = (result.clone(), after.clone(), f.clone());
    let mut over = false;
    let task = Task::spawn(
        "task",
        d,
        move |cx| {
            if over {
                return Poll::Ready(None);
            }
            // this thread knows of the discard
            let told = a2.get().is_some() && known(a2.get());
            let polls = f2.borrow().polls;
            let r = future.as_mut().poll(cx);
            if told {
                check!(f2.borrow().polls == polls, "polled-after-cancel", "the inner future was polled by a thread which knows of the discard");
            }
            if r.is_ready() {
                over = true;
            }
            r.map(Some)
        },
        move |o: Obs<Tok>, _, _| {
            if let Obs::Item(t) = o {
                t.touch("received");
                note(|| format!("finishes with {}", t.v));
                ev(t.v);
                r2.set(Some(t.v));
            }
        },
    );
    if how < 2 {
        let (b, g, a) = (before.clone(), begun.clone(), after.clone());
        spawn("canceller", move || {
            for _ in 0..pauses.0 {
                pause();
            }
            note(|| "discards".into());
            g.set(true);
            b.set(moment());
            if how == 0 {
                drop(handle);
            } else {
                DiscardOnDrop::leak(handle).discard();
            }
            a.set(moment());
        });
    } else {
        let _ = DiscardOnDrop::leak(handle);
    }
    let f3 = f.clone();
    spawn("producer", move || {
        for _ in 0..pauses.1 {
            pause();
        }
        if complete_it {
            note(|| "completes".into());
            complete(&f3, Tok::new(1));
        }
    });
    quiesce();
    match result.get() {
        None => {
            check!(how == 2, "not-cancelled", "the handle was discarded, but the task is parked");
            check!(!complete_it, "not-completed", "the inner future is complete, but the task is parked");
        }
        Some(1) => check!(complete_it, "wrong-result", "the inner result without completion"),
        Some(_) => check!(begun.get(), "not-cancelled", "cancelled although the handle is alive"),
    }
    task.stop();
    quiesce();
    let old = f.borrow_mut().value.take();
    drop(old);
    check_no_leak("cancelable_future");
}
