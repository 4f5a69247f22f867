//! C04, C05: channel.

use crate::check;
use crate::engine::*;
use crate::kit::*;
use futures_signals::signal::{channel, Receiver, Sender, Signal};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Ev {
    /// value, accepted, and whether it overlapped a close / the receiver's drop
    Send(u64, bool, bool, bool),
    Close,
    CloneSender,
    DropSender,
    DropReceiver,
    Item(u64),
    Pending,
    End,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    slot: Option<u64>,
    senders: i32,
    closed: bool,
    receiver: bool,
}

struct Chan;

impl Spec for Chan {
    type Op = Ev;
    type State = St;

    fn step(&self, st: &St, op: &Ev) -> Option<St> {
        let mut s = st.clone();
        let open = !s.closed && s.senders > 0;
        match *op {
            Ev::Send(v, true, race_close, race_drop) => {
                if open && s.receiver {
                    s.slot = Some(v);
                } else if !(race_close && !open || race_drop && !s.receiver) {
                    return None;
                }
            }
            Ev::Send(_, false, _, _) => {
                if open && s.receiver {
                    return None;
                }
            }
            Ev::Close => s.closed = true,
            Ev::CloneSender => s.senders += 1,
            Ev::DropSender => s.senders -= 1,
            Ev::DropReceiver => {
                s.receiver = false;
                s.slot = None;
            }
            Ev::Item(v) => {
                if s.slot != Some(v) {
                    return None;
                }
                s.slot = None;
            }
            Ev::Pending => {
                if s.slot.is_some() || !open {
                    return None;
                }
            }
            Ev::End => {
                if s.slot.is_some() || open {
                    return None;
                }
            }
        }
        Some(s)
    }

    /// A send which races with close may still get its value delivered.
    fn alternative(&self, st: &St, op: &Ev) -> Option<St> {
        match *op {
            Ev::Send(v, true, true, _) if st.closed && st.receiver => {
                let mut s = st.clone();
                s.slot = Some(v);
                Some(s)
            }
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Send(u64),
    Close,
    Clone,
    Drop,
    Pause,
}

type Log = Rc<RefCell<Vec<Event<Ev>>>>;

fn draw_ops(c: &mut Choices, next: &mut u64, n: usize, w: &[u32]) -> Vec<Op> {
    (0..n)
        .map(|_| {
            *next += 1;
            match c.weighted(w) {
                0 => Op::Send(*next),
                1 => Op::Clone,
                2 => Op::Drop,
                3 => Op::Pause,
                _ => Op::Close,
            }
        })
        .collect()
}

fn exec(op: &Op, hs: &mut Vec<Sender<Tok>>, log: &Log) {
    if hs.is_empty() {
        return;
    }
    pause();
    let inv = stamp();
    let e = match op {
        Op::Send(v) => {
            let t = Tok::new(*v);
            let id = t.id();
            match hs[hs.len() - 1].send(t) {
                Ok(()) => Ev::Send(*v, true, false, false),
                Err(t) => {
                    check!(t.id() == id && t.v == *v, "wrong-value", "send({}) gave back {}", v, t.v);
                    Ev::Send(*v, false, false, false)
                }
            }
        }
        Op::Close => {
            hs[hs.len() - 1].close();
            Ev::Close
        }
        Op::Clone => {
            let x = hs[hs.len() - 1].clone();
            hs.push(x);
            Ev::CloneSender
        }
        Op::Drop => {
            let x = hs.pop();
            drop(x);
            Ev::DropSender
        }
        Op::Pause => return,
    };
    let ret = stamp();
    note(|| format!("{:?}", e));
    log.borrow_mut().push(Event { inv, ret, op: e });
}

struct Cons {
    log: Log,
    last: Rc<Cell<Option<u64>>>,
    got: Rc<RefCell<Vec<u64>>>,
    task: Task,
}

struct Dropper {
    r: Option<Pin<Box<Receiver<Tok>>>>,
    log: Log,
}

impl Drop for Dropper {
    fn drop(&mut self) {
        let inv = stamp();
        drop(self.r.take());
        let ret = stamp();
        self.log.borrow_mut().push(Event { inv, ret, op: Ev::DropReceiver });
    }
}

fn consume(r: Receiver<Tok>, d: Drive) -> Cons {
    let log: Log = Default::default();
    let last: Rc<Cell<Option<u64>>> = Default::default();
    let got: Rc<RefCell<Vec<u64>>> = Default::default();
    let (l1, l2, l3, l4) = (log.clone(), log.clone(), last.clone(), got.clone());
    let mut dr = Dropper { r: Some(Box::pin(r)), log: l1 };
    let task = Task::spawn(
        "receiver",
        d,
        move |cx| dr.r.as_mut().unwrap().as_mut().poll_change(cx),
        move |o, inv, ret| {
            let op = match o {
                Obs::Item(t) => {
                    note(|| format!("receives {:?}", t));
                    ev(t.v);
                    l3.set(Some(t.v));
                    l4.borrow_mut().push(t.v);
                    Ev::Item(t.v)
                }
                Obs::Pending => Ev::Pending,
                Obs::End => {
                    note(|| "sees the end".into());
                    ev(0xE0D);
                    Ev::End
                }
            };
            l2.borrow_mut().push(Event { inv, ret, op });
        },
    );
    Cons { log, last, got, task }
}

/// Marks the sends which overlap a close or the drop of the receiver.
fn mark_races(ths: &mut [Vec<Event<Ev>>]) {
    let spans = |f: &dyn Fn(&Ev) -> bool, ths: &[Vec<Event<Ev>>]| -> Vec<(u64, u64)> {
        ths.iter().flatten().filter(|e| f(&e.op)).map(|e| (e.inv, e.ret)).collect()
    };
    let closes = spans(&|e| matches!(e, Ev::Close), ths);
    let drops = spans(&|e| matches!(e, Ev::DropReceiver), ths);
    // An operation in flight keeps the channel's memory alive, so that a send which
    // overlaps it may still succeed after the receiver is gone.
    let busy = spans(&|e| !matches!(e, Ev::Item(_) | Ev::Pending | Ev::End), ths);
    for e in ths.iter_mut().flatten() {
        let (inv, ret) = (e.inv, e.ret);
        if let Ev::Send(_, true, a, b) = &mut e.op {
            *a = closes.iter().any(|s| s.0 <= ret && inv <= s.1);
            *b = drops.iter().any(|s| s.0 <= ret && inv <= s.1)
                || busy.iter().any(|s| *s != (inv, ret) && s.0 <= ret && inv <= s.1);
            if *a {
                probe("send-races-close");
            }
        }
    }
}

fn run_channel(conserve: bool) {
    let c = choices();
    let (s, r) = channel(Tok::new(1));
    let closing = c.pct(50);
    let w = [8u32, 2, 3, 1, if closing { 2 } else { 0 }];
    let mut next = 10;
    let nt = c.range(1, 3);
    let plan: Vec<Vec<Op>> = (0..nt)
        .map(|_| {
            let n = 1 + c.many(if nt == 3 { 3 } else { 4 });
            draw_ops(c, &mut next, n, &w)
        })
        .collect();
    let drive = Drive::draw(c, true);
    let never_polled = conserve && c.pct(15);
    // Whether each thread drops what it has left at its end, and whether the main sender stays.
    let keep = c.pct(50);
    let drop_at_end: Vec<bool> = (0..nt).map(|_| !keep || c.pct(50)).collect();

    let mut logs: Vec<Log> = (0..nt + 1).map(|_| Default::default()).collect();
    let init = St { slot: Some(1), senders: 1 + nt as i32, closed: false, receiver: true };
    let mut senders: Vec<Sender<Tok>> = (0..nt).map(|_| s.clone()).collect();
    let mut parked_receiver = None;
    let cons = if never_polled {
        parked_receiver = Some(r);
        None
    } else {
        Some(consume(r, drive))
    };
    if let Some(c) = &cons {
        logs.push(c.log.clone());
    }
    let left: Shared<Vec<Sender<Tok>>> = shared(vec![]);
    for (t, ops) in plan.into_iter().enumerate() {
        let mut hs = vec![senders.pop().unwrap()];
        let log = logs[t].clone();
        let (left, dr) = (left.clone(), drop_at_end[t]);
        spawn(&format!("sender{}", t), move || {
            for op in &ops {
                exec(op, &mut hs, &log);
            }
            while dr && !hs.is_empty() {
                exec(&Op::Drop, &mut hs, &log);
            }
            left.borrow_mut().extend(hs);
        });
    }
    let mut main_hs = vec![s];
    if !keep {
        exec(&Op::Drop, &mut main_hs, &logs[nt]);
    }
    quiesce();

    let closed = logs.iter().any(|l| l.borrow().iter().any(|e| matches!(e.op, Ev::Close)));
    let open = !closed && (!main_hs.is_empty() || !left.borrow().is_empty());
    if let Some(cons) = &cons {
        if cons.task.running() {
            check!(open || conserve, "not-ended", "no sender is left or the channel was closed, but the receiver is parked (last value {:?})", cons.last.get());
            if conserve {
                let l = live_total();
                check!(l <= 1, "leak", "the receiver is parked and has dropped what it got, but {} values are still alive", l);
            }
        } else if cons.task.ended() {
            probe("receiver-ended");
            check!(!open || conserve, "ended-early", "the receiver ended although a sender is open");
        }
    }

    let mut ths: Vec<Vec<Event<Ev>>> = logs.iter().map(|l| std::mem::take(&mut *l.borrow_mut())).collect();
    mark_races(&mut ths);
    let states = if conserve {
        // exactly-once bookkeeping
        let mut fate: std::collections::BTreeMap<u64, (u32, u32)> = Default::default();
        for e in ths.iter().flatten() {
            match e.op {
                Ev::Send(v, ok, _, _) => {
                    let f = fate.entry(v).or_default();
                    if !ok {
                        f.1 += 1;
                    }
                }
                Ev::Item(v) => fate.entry(v).or_default().0 += 1,
                _ => {}
            }
        }
        for (v, (got, back)) in fate {
            check!(got + back <= 1, "duplicated", "value {} was delivered {} time(s) and returned {} time(s)", v, got, back);
        }
        vec![init.clone()]
    } else {
        match linearize(&Chan, &ths, &[init.clone()]) {
            Some(f) => f,
            None => fail("order", format!("no sequential order explains this history: {}", show_history(&ths))),
        }
    };
    if !conserve && !states.is_empty() {
        // The value which was accepted last has been seen.
        if let Some(cons) = &cons {
            if cons.task.running() {
                check!(
                    states.iter().any(|s| s.slot.is_none()),
                    "stale",
                    "the receiver is parked but the last value was not delivered (possible states {:?})",
                    states
                );
            }
        }
    }

    // Second phase, without concurrency: what a closed or open channel does next.
    let mut probe_hs: Vec<Sender<Tok>> = vec![];
    probe_hs.append(&mut main_hs);
    probe_hs.append(&mut *left.borrow_mut());
    if let Some(cons) = &cons {
        if !probe_hs.is_empty() {
            let extra = probe_hs[0].clone();
            let t = Tok::new(7_000);
            let before = cons.got.borrow().len();
            let was_running = cons.task.running();
            let r = extra.send(t);
            quiesce();
            if conserve {
            } else if closed || !was_running {
                check!(r.is_err(), "send-after-close", "send succeeded after the channel was closed (or its receiver was dropped)");
                probe("send-after-close");
            } else {
                check!(r.is_ok(), "wrong-result", "send failed on an open channel");
                check!(
                    cons.task.cancelled() || cons.got.borrow().len() == before + 1 && cons.last.get() == Some(7_000),
                    "stale",
                    "a value sent while the receiver was parked was not received"
                );
            }
            drop(r);
            drop(extra);
        }
        // dropping the remaining senders ends it
        drop(probe_hs);
        quiesce();
        check!(!cons.task.running() || conserve, "not-ended", "all senders are dropped, but the receiver is parked");
        cons.task.stop();
        quiesce();
        if cons.task.ended() && !closed && !conserve {
            // covered by the model: End is only possible after the last value
            probe("ended-after-last-sender");
        }
    } else {
        drop(probe_hs);
    }
    if conserve {
        if parked_receiver.is_some() {
            let n = live_total();
            check!(n == 1, "leak", "an unread channel holds {} values instead of its latest one", n);
        }
        drop(parked_receiver);
        drop(cons);
        check_no_leak("channel");
        check!(live_wakers() == 0, "leak", "{} waker(s) are still alive after the channel is gone", live_wakers());
    }
}

pub fn c04() {
    run_channel(false)
}

pub fn c05() {
    run_channel(true)
}
