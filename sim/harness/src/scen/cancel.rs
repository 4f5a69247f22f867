//! C07: CancelableFuture.

use crate::check;
use crate::engine::*;
use crate::kit::*;
use discard::{Discard, DiscardOnDrop};
use futures_signals::{cancelable_future, CancelableFutureHandle};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::rc::Rc;
use std::task::Poll;

pub fn c07() {
    let c = choices();
    let how = c.u(4); // 0: drop the handle, 1: discard it, 2: leak it (never cancelled), 3: keep it until after completion
    let complete_it = c.pct(50);
    let ready_at_once = c.pct(10);
    let drive = Drive::draw(c, true);
    let canceller_pauses = c.u(5);
    let producer_pauses = c.u(5);
    let wakes = c.u(3);

    let f: FutRef<Tok> = fut();
    if ready_at_once {
        f.borrow_mut().value = Some(Tok::new(1));
    }
    let called = Rc::new(Cell::new(0u32));
    let inner_gone_at_call = Rc::new(Cell::new(true));
    let polls_after_cancel = Rc::new(Cell::new(0u64));
    let cancelled_at: Rc<Cell<Option<u64>>> = Default::default();
    let cancel_begun: Rc<Cell<bool>> = Default::default();
    let polls_at_cancel: Rc<Cell<u64>> = Default::default();
    let _ = &polls_after_cancel;

    let (c2, f2, g2, b2) = (called.clone(), f.clone(), inner_gone_at_call.clone(), cancel_begun.clone());
    let (handle, future) = cancelable_future(SimFuture(f.clone()), move || {
        c2.set(c2.get() + 1);
        g2.set(f2.borrow().dropped);
        check!(b2.get(), "not-cancelled", "the cancellation callback ran although the handle is alive");
        Tok::new(2)
    });
    let mut future = Box::pin(future);
    let result: Rc<RefCell<Option<(u64, u64, u64)>>> = Default::default();
    let r2 = result.clone();
    let ca = cancelled_at.clone();
    let f3 = f.clone();
    let inner_polls_at_start = Rc::new(Cell::new(0u64));
    let ip = inner_polls_at_start.clone();
    let started_after_cancel = Rc::new(Cell::new(false));
    let sac = started_after_cancel.clone();
    let fin = Rc::new(Cell::new(false));
    let task = Task::spawn(
        "task",
        drive,
        move |cx| {
            if fin.get() {
                return Poll::Ready(None);
            }
            sac.set(ca.get().is_some());
            ip.set(f3.borrow().polls);
            let r = future.as_mut().poll(cx);
            if sac.get() {
                // cancelled before this poll began
                check!(
                    f3.borrow().polls == ip.get(),
                    "polled-after-cancel",
                    "the inner future was polled although cancellation had been requested before"
                );
                match &r {
                    Poll::Ready(t) => {
                        check!(t.v == 2, "not-cancelled", "the inner result was returned by a poll which began after the cancellation")
                    }
                    Poll::Pending => fail("not-cancelled", "a poll which began after the cancellation returned Pending".into()),
                }
            }
            r.map(|t| {
                fin.set(true);
                Some(t)
            })
        },
        move |o: Obs<Tok>, inv, ret| {
            if let Obs::Item(t) = o {
                note(|| format!("completes with {:?}", t));
                ev(t.v);
                *r2.borrow_mut() = Some((t.v, inv, ret));
            }
        },
    );
    let kept: Shared<Option<DiscardOnDrop<CancelableFutureHandle>>> = shared(None);
    let k2 = kept.clone();
    let (ca, cb, pc, f4) = (cancelled_at.clone(), cancel_begun.clone(), polls_at_cancel.clone(), f.clone());
    if how == 0 || how == 1 {
        spawn("canceller", move || {
            for _ in 0..canceller_pauses {
                pause();
            }
            note(|| "cancels".into());
            cb.set(true);
            if how == 0 {
                drop(handle);
            } else {
                DiscardOnDrop::leak(handle).discard();
            }
            ca.set(Some(stamp()));
            pc.set(f4.borrow().polls);
            note(|| "cancelled".into());
        });
    } else if how == 2 {
        let _ = DiscardOnDrop::leak(handle);
    } else {
        *k2.borrow_mut() = Some(handle);
    }
    let f5 = f.clone();
    spawn("producer", move || {
        for _ in 0..wakes {
            // a spurious wake from the inner future
            let w = f5.borrow_mut().waker.take();
            if let Some(w) = w {
                fault("inner-spurious-wake");
                w.wake();
            }
            pause();
        }
        for _ in 0..producer_pauses {
            pause();
        }
        if complete_it && !ready_at_once {
            note(|| "inner completes".into());
            complete(&f5, Tok::new(1));
        }
    });
    quiesce();

    let res = *result.borrow();
    let cancelled = cancelled_at.get().is_some();
    if !task.cancelled() {
        match res {
            None => {
                check!(!cancelled, "not-cancelled", "the handle was discarded, but the task is parked forever");
                check!(!complete_it && !ready_at_once, "not-completed", "the inner future is complete, but the task is parked forever");
            }
            Some((v, _, _)) => {
                if v == 1 {
                    probe("completed");
                    check!(complete_it || ready_at_once, "wrong-result", "inner result without completion");
                    check!(called.get() == 0, "both", "the callback ran although the inner result was returned");
                } else {
                    probe("cancelled");
                    check!(cancel_begun.get(), "not-cancelled", "cancelled although the handle is alive");
                    check!(called.get() == 1, "callback", "the callback ran {} times", called.get());
                    check!(inner_gone_at_call.get(), "callback", "the inner future was still alive when the callback ran");
                }
            }
        }
    }
    check!(called.get() <= 1, "callback", "the callback ran {} times", called.get());
    // A handle which outlives its future does nothing when it is dropped.
    if kept.borrow().is_some() {
        let alive = task.running();
        cancel_begun.set(true);
        let h = kept.borrow_mut().take();
        spawn("canceller", move || drop(h));
        quiesce();
        if alive {
            check!(!task.running(), "not-cancelled", "the handle was dropped while the task was parked, but it is still parked");
            if task.ended() {
                check!(called.get() == 1, "callback", "cancelled, but the callback ran {} times", called.get());
            }
        } else if res.is_some() {
            check!(called.get() == 0, "callback", "dropping the handle after completion ran the callback");
        }
    }
    task.stop();
    quiesce();
    check!(
        task.running() || f.borrow().dropped,
        "leak",
        "the cancelable future is gone, but its inner future was not dropped"
    );
    f.borrow_mut().value = None;
    check_no_leak("cancelable_future");
    let old = f.borrow_mut().waker.take();
    drop(old);
    check!(live_wakers() == 0, "leak", "{} waker(s) still alive", live_wakers());
}
