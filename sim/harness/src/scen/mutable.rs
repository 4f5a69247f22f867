//! C01, C02, C03: Mutable and its signals.

use crate::check;
use crate::engine::*;
use crate::kit::*;
use futures_signals::signal::{Mutable, ReadOnlyMutable, SignalExt};
use std::cell::RefCell;
use std::rc::Rc;

const MAXC: usize = 5;

#[derive(Clone, Debug)]
enum Ev {
    Set(usize, u64),
    Replace(usize, u64, u64),
    SetIf(usize, u64, bool, u64),
    SetNeq(usize, u64),
    Update(usize, u64, u64),
    Get(usize, u64),
    Swap(usize, usize),
    CloneHandle(usize),
    DropHandle(usize),
    Item(usize, usize, u64),
    Pending(usize, usize),
    End(usize, usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    val: [u64; 2],
    handles: [i32; 2],
    /// bit c: the cell of consumer c was mutated since consumer c's last item
    dirty: u32,
}

/// The sequential model of two observable cells.
struct Cells {
    cell_of: [usize; MAXC],
}

impl Cells {
    fn mutate(&self, st: &mut St, cell: usize) {
        for c in 0..MAXC {
            if self.cell_of[c] == cell {
                st.dirty |= 1 << c;
            }
        }
    }
}

impl Spec for Cells {
    type Op = Ev;
    type State = St;

    fn step(&self, st: &St, op: &Ev) -> Option<St> {
        let mut s = st.clone();
        match *op {
            Ev::Set(c, v) => {
                s.val[c] = v;
                self.mutate(&mut s, c);
            }
            Ev::Replace(c, v, old) | Ev::Update(c, v, old) => {
                if s.val[c] != old {
                    return None;
                }
                s.val[c] = v;
                self.mutate(&mut s, c);
            }
            Ev::SetIf(c, v, yes, old) => {
                if s.val[c] != old {
                    return None;
                }
                if yes {
                    s.val[c] = v;
                    self.mutate(&mut s, c);
                }
            }
            Ev::SetNeq(c, v) => {
                if s.val[c] != v {
                    s.val[c] = v;
                    self.mutate(&mut s, c);
                }
            }
            Ev::Get(c, v) => {
                if s.val[c] != v {
                    return None;
                }
            }
            Ev::Swap(a, b) => {
                s.val.swap(a, b);
                if a == b {
                    s.val = st.val;
                }
                self.mutate(&mut s, a);
                self.mutate(&mut s, b);
            }
            Ev::CloneHandle(c) => s.handles[c] += 1,
            Ev::DropHandle(c) => s.handles[c] -= 1,
            Ev::Item(c, k, v) => {
                if s.val[c] != v {
                    return None;
                }
                s.dirty &= !(1 << k);
            }
            Ev::Pending(_, k) => {
                if s.dirty & (1 << k) != 0 {
                    return None;
                }
            }
            Ev::End(c, k) => {
                if s.handles[c] != 0 || s.dirty & (1 << k) != 0 {
                    return None;
                }
            }
        }
        Some(s)
    }
}

/// One thread's planned operation.
#[derive(Clone, Debug)]
enum Op {
    Set(usize, u64),
    Replace(usize, u64),
    ReplaceWith(usize, u64, bool),
    SetIf(usize, u64, bool),
    SetNeq(usize, u64),
    LockMut(usize, u64),
    LockMutNothing(usize),
    Get(usize),
    GetCloned(usize),
    LockRef(usize, bool),
    ReadOnlyGet(usize),
    Show(usize, u8),
    Swap(usize, usize),
    CloneHandle(usize),
    DropHandle(usize),
    Subscribe(usize),
    Pause,
}

struct Consumer {
    cell: usize,
    kind: usize,
    drive: Drive,
    events: Rc<RefCell<Vec<Event<Ev>>>>,
    last: Rc<RefCell<Option<u64>>>,
    items: Rc<RefCell<u64>>,
    task: RefCell<Option<Task>>,
}

impl Consumer {
    fn draw(c: &mut Choices, cell: usize, may_cancel: bool) -> Rc<Consumer> {
        Rc::new(Consumer {
            cell,
            kind: c.u(5),
            drive: Drive::draw(c, may_cancel),
            events: Default::default(),
            last: Default::default(),
            items: Default::default(),
            task: RefCell::new(None),
        })
    }

    /// Creates the signal in the current thread and polls it in a new one.
    fn start(&self, id: usize, ro: &ReadOnlyMutable<u64>) {
        let sig: DynSignal<u64> = match self.kind {
            0 => Box::pin(ro.signal()),
            1 => Box::pin(ro.signal_cloned()),
            2 => Box::pin(ro.signal_ref(|v| {
                pause();
                *v
            })),
            3 => Box::pin(ro.clone().signal()),
            _ => Box::pin(ro.signal_ref(|v| *v + 1_000_000).map(|v| v - 1_000_000)),
        };
        note(|| format!("subscribes consumer {} (cell {}, kind {})", id, self.cell, self.kind));
        let mut sig = sig;
        let (events, last, items, cell) = (self.events.clone(), self.last.clone(), self.items.clone(), self.cell);
        let t = Task::spawn(
            &format!("consumer{}", id),
            self.drive.clone(),
            move |cx| sig.as_mut().poll_change(cx),
            move |o, inv, ret| {
                let op = match o {
                    Obs::Item(v) => {
                        note(|| format!("sees {}", v));
                        ev(v);
                        *last.borrow_mut() = Some(v);
                        *items.borrow_mut() += 1;
                        Ev::Item(cell, id, v)
                    }
                    Obs::Pending => Ev::Pending(cell, id),
                    Obs::End => {
                        note(|| "sees the end".into());
                        ev(0xE0D);
                        Ev::End(cell, id)
                    }
                };
                events.borrow_mut().push(Event { inv, ret, op });
            },
        );
        *self.task.borrow_mut() = Some(t);
    }

    fn task(&self) -> Option<Task> {
        self.task.borrow().clone()
    }
}

struct World {
    consumers: Vec<Rc<Consumer>>,
    events: Vec<Rc<RefCell<Vec<Event<Ev>>>>>,
}

/// Executes one operation with the thread's own handles and records it.
fn exec(op: &Op, hs: &mut [Vec<Mutable<u64>>; 2], w: &World, me: usize) {
    let rec = |inv: u64, e: Ev| {
        let ret = stamp();
        note(|| format!("{:?}", e));
        w.events[me].borrow_mut().push(Event { inv, ret, op: e });
    };
    let cell = match *op {
        Op::Set(c, _)
        | Op::Replace(c, _)
        | Op::ReplaceWith(c, _, _)
        | Op::SetIf(c, _, _)
        | Op::SetNeq(c, _)
        | Op::LockMut(c, _)
        | Op::LockMutNothing(c)
        | Op::Get(c)
        | Op::GetCloned(c)
        | Op::LockRef(c, _)
        | Op::ReadOnlyGet(c)
        | Op::Show(c, _)
        | Op::Swap(c, _)
        | Op::CloneHandle(c)
        | Op::DropHandle(c) => c,
        Op::Subscribe(k) => w.consumers[k].cell,
        Op::Pause => {
            pause();
            return;
        }
    };
    if hs[cell].is_empty() {
        return;
    }
    if let Op::Swap(_, b) = *op {
        if hs[b].is_empty() {
            return;
        }
    }
    pause();
    let inv = stamp();
    let m = &hs[cell][hs[cell].len() - 1];
    match *op {
        Op::Set(c, v) => {
            m.set(v);
            rec(inv, Ev::Set(c, v));
        }
        Op::Replace(c, v) => {
            let old = m.replace(v);
            ev(old);
            rec(inv, Ev::Replace(c, v, old));
        }
        Op::ReplaceWith(c, v, scribble) => {
            let mut seen = 0;
            let old = m.replace_with(|x| {
                pause();
                seen = *x;
                if scribble {
                    // what the closure leaves behind is what is returned
                    *x = *x + 5_000_000;
                }
                v
            });
            ev(old);
            let expect = if scribble { seen + 5_000_000 } else { seen };
            check!(old == expect, "wrong-result", "replace_with returned {} but the closure left {} in the cell", old, expect);
            rec(inv, Ev::Replace(c, v, seen));
        }
        Op::SetIf(c, v, yes) => {
            let mut seen = None;
            m.set_if(v, |a, b| {
                pause();
                seen = Some((*a, *b));
                yes
            });
            match seen {
                Some((a, b)) => {
                    check!(b == v, "wrong-result", "set_if passed {} instead of the new value {}", b, v);
                    rec(inv, Ev::SetIf(c, v, yes, a));
                }
                None => fail("wrong-result", "set_if did not call its predicate".into()),
            }
        }
        Op::SetNeq(c, v) => {
            m.set_neq(v);
            rec(inv, Ev::SetNeq(c, v));
        }
        Op::LockMut(c, v) => {
            let old;
            {
                let mut g = m.lock_mut();
                old = *g;
                pause();
                *g = v;
                pause();
            }
            rec(inv, Ev::Update(c, v, old));
        }
        Op::LockMutNothing(c) => {
            let v = {
                let g = m.lock_mut();
                pause();
                *g
            };
            rec(inv, Ev::Get(c, v));
        }
        Op::Get(c) => {
            let v = m.get();
            ev(v);
            rec(inv, Ev::Get(c, v));
        }
        Op::GetCloned(c) => {
            let v = m.get_cloned();
            ev(v);
            rec(inv, Ev::Get(c, v));
        }
        Op::LockRef(c, hold) => {
            let v = {
                let g = m.lock_ref();
                let v = *g;
                if hold {
                    pause();
                    check!(*g == v, "wrong-result", "the value changed from {} to {} under lock_ref", v, *g);
                }
                v
            };
            ev(v);
            rec(inv, Ev::Get(c, v));
        }
        Op::ReadOnlyGet(c) => {
            let v = m.read_only().get();
            ev(v);
            rec(inv, Ev::Get(c, v));
        }
        Op::Show(c, how) => {
            let (got, v) = shown(m, how);
            ev(v);
            note(|| format!("shown as {}", got));
            rec(inv, Ev::Get(c, v));
        }
        Op::Swap(a, b) => {
            let n = hs[b].len();
            // the same handle, or another clone of the same Mutable, is fine too
            m.swap(&hs[b][if a == b { 0 } else { n - 1 }]);
            rec(inv, Ev::Swap(a, b));
        }
        Op::CloneHandle(c) => {
            let x = m.clone();
            rec(inv, Ev::CloneHandle(c));
            hs[c].push(x);
        }
        Op::DropHandle(c) => {
            let x = hs[c].pop();
            drop(x);
            rec(inv, Ev::DropHandle(c));
        }
        Op::Subscribe(k) => {
            let ro = m.read_only();
            w.consumers[k].start(k, &ro);
        }
        Op::Pause => {}
    }
}

/// A text made from a Mutable, and the value in it.
fn shown(m: &Mutable<u64>, how: u8) -> (String, u64) {
    let (got, pre, post) = match how {
        0 => (format!("{:?}", m), "Mutable(", ")"),
        1 => (format!("{:?}", m.read_only()), "ReadOnlyMutable(", ")"),
        _ => (serde_json::to_string(m).unwrap_or_default(), "", ""),
    };
    let v = got.strip_prefix(pre).and_then(|s| s.strip_suffix(post)).and_then(|s| s.parse().ok());
    match v {
        Some(v) => (got, v),
        None => fail("wrong-result", format!("a Mutable<u64> shows itself as {:?}", got)),
    }
}

/// A new Mutable, made in one of the ways there are.
fn make(c: &mut Choices, v: u64) -> Mutable<u64> {
    match c.weighted(&[6, 1, 1, 1]) {
        0 => Mutable::new(v),
        1 => Mutable::from(v),
        2 => {
            let m: Mutable<u64> = Mutable::default();
            check!(m.get() == 0, "wrong-result", "Mutable::default() holds {}", m.get());
            m.set(v);
            m
        }
        _ => match serde_json::from_str(&v.to_string()) {
            Ok(m) => m,
            Err(e) => fail("wrong-result", format!("a Mutable<u64> cannot be deserialized from {}: {}", v, e)),
        },
    }
}

/// Two Mutables, the one at the lower address first (so that lock order does not
/// depend on the allocator).
fn two_mutables() -> [Mutable<u64>; 2] {
    let a = Mutable::new(1);
    let b = Mutable::new(2);
    drop(a.lock_ref());
    let pa = last_lock();
    drop(b.lock_ref());
    let pb = last_lock();
    let (a, b) = if pa <= pb { (a, b) } else { (b, a) };
    a.set(1);
    b.set(2);
    [a, b]
}

/// A poll yields only if something was changed since the poll before it began.
fn no_repeats(w: &World) {
    let mut changes: Vec<(usize, u64, u64)> = vec![];
    for e in &w.events {
        for e in e.borrow().iter() {
            match e.op {
                Ev::Set(c, _) | Ev::Replace(c, _, _) | Ev::SetIf(c, _, true, _) | Ev::SetNeq(c, _) | Ev::Update(c, _, _) => {
                    changes.push((c, e.inv, e.ret))
                }
                Ev::Swap(a, b) => {
                    changes.push((a, e.inv, e.ret));
                    changes.push((b, e.inv, e.ret));
                }
                _ => {}
            }
        }
    }
    for cons in &w.consumers {
        for p in cons.events.borrow().windows(2) {
            if let Ev::Item(cell, k, v) = p[1].op {
                check!(
                    changes.iter().any(|&(c, inv, ret)| c == cell && inv <= p[1].ret && ret >= p[0].inv),
                    "repeated",
                    "consumer {} was given {} by a poll [{}..{}], but nothing was changed since its poll [{}..{}] before",
                    k,
                    v,
                    p[1].inv,
                    p[1].ret,
                    p[0].inv,
                    p[0].ret
                );
            }
        }
    }
}

fn lin_check(spec: &Cells, w: &World, init: &[St], class: &str) -> Vec<St> {
    let mut ths: Vec<Vec<Event<Ev>>> = vec![];
    for e in &w.events {
        ths.push(std::mem::take(&mut *e.borrow_mut()));
    }
    for c in &w.consumers {
        ths.push(std::mem::take(&mut *c.events.borrow_mut()));
    }
    match linearize(spec, &ths, init) {
        Some(f) if f.is_empty() => vec![],
        Some(f) => f,
        None => fail(
            class,
            format!("no sequential order explains this history (start {:?}): {}", init[0], show_history(&ths)),
        ),
    }
}

fn cell_of(cs: &[Rc<Consumer>]) -> [usize; MAXC] {
    let mut r = [9; MAXC];
    for (i, c) in cs.iter().enumerate() {
        r[i] = c.cell;
    }
    r
}

/// C01: convergence, order, no lost wake-up.
pub fn c01() {
    let c = choices();
    let m = make(c, 1);
    let n_init = c.range(0, 2);
    let n_late = c.range(if n_init == 0 { 1 } else { 0 }, 2);
    let consumers: Vec<Rc<Consumer>> = (0..n_init + n_late).map(|_| Consumer::draw(c, 0, true)).collect();
    let rounds = c.range(1, 3);
    let mut next = 10u64;
    let mut late = n_init..n_init + n_late;
    // plan
    let mut plan: Vec<Vec<Vec<Op>>> = vec![];
    for r in 0..rounds {
        let nt = c.range(1, 3);
        let mut ths = vec![];
        for t in 0..nt {
            let n = c.range(1, 4);
            let mut ops = vec![];
            for _ in 0..n {
                next += 1;
                let v = next;
                ops.push(match c.weighted(&[6, 3, 2, 2, 3, 2, 1, 1, 1, 1, 1]) {
                    0 => Op::Set(0, v),
                    1 => Op::Replace(0, v),
                    2 => Op::ReplaceWith(0, v, false),
                    3 => Op::SetIf(0, v, true),
                    4 => Op::LockMut(0, v),
                    5 => Op::SetNeq(0, v),
                    6 => Op::SetIf(0, v, false),
                    7 => Op::LockMutNothing(0),
                    8 => Op::LockRef(0, true),
                    9 => Op::Show(0, c.u(3) as u8),
                    _ => Op::Pause,
                });
            }
            if t == 0 && (r == rounds - 1 || c.pct(50)) {
                while let Some(k) = late.next() {
                    let at = c.u(ops.len() + 1);
                    ops.insert(at, Op::Subscribe(k));
                    if r != rounds - 1 {
                        break;
                    }
                }
            }
            ths.push(ops);
        }
        plan.push(ths);
    }
    let spec = Cells { cell_of: cell_of(&consumers) };
    let w = Rc::new(World { consumers, events: (0..3).map(|_| Default::default()).collect() });
    for k in 0..n_init {
        w.consumers[k].start(k, &m.read_only());
    }
    let handles = 1;
    let mut states = vec![St { val: [1, 0], handles: [handles, 0], dirty: (1 << MAXC) - 1 }];
    for ths in plan {
        for (t, ops) in ths.into_iter().enumerate() {
            let h = m.clone();
            let w = w.clone();
            spawn(&format!("writer{}", t), move || {
                let mut hs = [vec![h], vec![]];
                for op in &ops {
                    exec(op, &mut hs, &w, t);
                }
            });
        }
        quiesce();
        let cur = m.get();
        for (k, cons) in w.consumers.iter().enumerate() {
            if let Some(t) = cons.task() {
                if t.running() {
                    let last = *cons.last.borrow();
                    check!(
                        last == Some(cur),
                        "stale",
                        "everything is quiet, the Mutable holds {}, but consumer {} is parked having last seen {:?}",
                        cur,
                        k,
                        last
                    );
                } else if t.ended() {
                    fail("ended-early", format!("consumer {} ended although a Mutable handle is alive", k));
                }
            }
        }
        no_repeats(&w);
        states = lin_check(&spec, &w, &states, "order");
        if states.is_empty() {
            break;
        }
        check!(states.iter().any(|s| s.val[0] == cur), "order", "final value {} is not explained by the history", cur);
    }
    let ts: Vec<Task> = w.consumers.iter().filter_map(|c| c.task()).collect();
    stop_all(&ts);
}

/// C01, C02: a crowd of consumers which come and go, one writer.
pub fn crowd() {
    let c = choices();
    let m = make(c, 1);
    let nc = 5 + c.many_capped(10, 100);
    let consumers: Vec<Rc<Consumer>> = (0..nc)
        .map(|_| {
            let k = Consumer::draw(c, 0, false);
            // about a third of them go away again
            if c.pct(35) {
                let mut k = Rc::try_unwrap(k).ok().unwrap();
                k.drive.cancel_after = Some(c.below(4) as u32);
                return Rc::new(k);
            }
            k
        })
        .collect();
    let rounds = c.range(1, 4);
    let mut born = 0;
    let w = Rc::new(World { consumers, events: (0..2).map(|_| Default::default()).collect() });
    let mut next = 1u64;
    for r in 0..rounds {
        let here = if r + 1 == rounds { nc - born } else { c.u(nc - born + 1) };
        let before = c.u(here + 1);
        for k in born..born + before {
            w.consumers[k].start(k, &m.read_only());
        }
        let mut ops: Vec<Op> = (0..c.many(4))
            .map(|_| {
                next += 1;
                match c.weighted(&[6, 1, 2, 1]) {
                    0 => Op::Set(0, next),
                    1 => Op::Replace(0, next),
                    2 => Op::LockMut(0, next),
                    _ => Op::SetNeq(0, next),
                }
            })
            .collect();
        for k in born + before..born + here {
            let at = c.u(ops.len() + 1);
            ops.insert(at, Op::Subscribe(k));
        }
        born += here;
        let (h, w2) = (m.clone(), w.clone());
        spawn("writer", move || {
            let mut hs = [vec![h], vec![]];
            for op in &ops {
                exec(op, &mut hs, &w2, 0);
            }
        });
        // stopped at any moment of the round
        if c.pct(50) {
            let ts: Vec<Task> = w.consumers[..born].iter().filter_map(|c| c.task()).collect();
            let (n, first) = (c.range(1, 3), c.u(nc));
            spawn("stopper", move || {
                for i in 0..n {
                    pause();
                    if let Some(t) = ts.get((first + i * 3) % ts.len().max(1)) {
                        fault("task-dropped");
                        t.stop();
                    }
                }
            });
        }
        quiesce();
        let cur = m.get();
        for (k, cons) in w.consumers.iter().enumerate() {
            if let Some(t) = cons.task() {
                let last = *cons.last.borrow();
                check!(!t.ended(), "ended-early", "consumer {} ended although a Mutable handle is alive", k);
                check!(
                    !t.running() || last == Some(cur),
                    "stale",
                    "everything is quiet, the Mutable holds {}, but consumer {} of {} is parked having last seen {:?}",
                    cur,
                    k,
                    nc,
                    last
                );
            }
        }
    }
    no_repeats(&w);
    let ro = m.read_only();
    spawn("owner", move || drop(m));
    quiesce();
    let fin = ro.get();
    for (k, cons) in w.consumers.iter().enumerate() {
        let t = cons.task().unwrap();
        check!(
            !t.running(),
            "not-ended",
            "every Mutable handle is gone, but consumer {} of {} is parked (last seen {:?}, final value {})",
            k,
            nc,
            *cons.last.borrow(),
            fin
        );
        check!(
            !t.ended() || *cons.last.borrow() == Some(fin),
            "final-missed",
            "consumer {} ended having last seen {:?}, but the final value is {}",
            k,
            *cons.last.borrow(),
            fin
        );
        let mut seen = 0;
        for e in cons.events.borrow().iter() {
            if let Ev::Item(_, _, v) = e.op {
                check!(v >= seen, "order", "consumer {} saw {} after {}", k, v, seen);
                seen = v;
            }
        }
    }
}

/// C02: signals end exactly when every Mutable handle is gone, after the final value.
pub fn c02() {
    let c = choices();
    let m = make(c, 1);
    let n_init = c.range(1, 3);
    let n_late = c.range(0, 1);
    let consumers: Vec<Rc<Consumer>> = (0..n_init + n_late).map(|_| Consumer::draw(c, 0, true)).collect();
    let nt = c.range(1, 3);
    let mut next = 10u64;
    let mut plan: Vec<Vec<Op>> = vec![];
    for t in 0..nt {
        let n = c.range(0, 4);
        let mut ops = vec![];
        for _ in 0..n {
            next += 1;
            let v = next;
            ops.push(match c.weighted(&[4, 3, 3, 1, 1, 1, 1]) {
                0 => Op::Set(0, v),
                1 => Op::CloneHandle(0),
                2 => Op::DropHandle(0),
                3 => Op::Replace(0, v),
                4 => Op::LockMut(0, v),
                5 => Op::Get(0),
                _ => Op::Pause,
            });
        }
        if t == 0 && n_late > 0 {
            let at = c.u(ops.len() + 1);
            ops.insert(at, Op::Subscribe(n_init));
        }
        plan.push(ops);
    }
    let keep = c.pct(30);
    let extra_ro = c.pct(50);
    let ro = m.read_only();
    let spec = Cells { cell_of: cell_of(&consumers) };
    let w = Rc::new(World { consumers, events: (0..4).map(|_| Default::default()).collect() });
    for k in 0..n_init {
        w.consumers[k].start(k, &ro);
    }
    let handles: Vec<Mutable<u64>> = plan.iter().map(|_| m.clone()).collect();
    let states = vec![St { val: [1, 0], handles: [1 + handles.len() as i32, 0], dirty: (1 << MAXC) - 1 }];
    for (t, (ops, h)) in plan.into_iter().zip(handles).enumerate() {
        let w = w.clone();
        spawn(&format!("thread{}", t), move || {
            let mut hs = [vec![h], vec![]];
            for op in &ops {
                exec(op, &mut hs, &w, t);
            }
            while !hs[0].is_empty() {
                exec(&Op::DropHandle(0), &mut hs, &w, t);
            }
        });
    }
    let mut m = Some(m);
    if !keep {
        // the first handle is dropped concurrently, too
        let h = m.take();
        let w = w.clone();
        spawn("owner", move || {
            let mut hs = [vec![h.unwrap()], vec![]];
            exec(&Op::DropHandle(0), &mut hs, &w, 3);
        });
    }
    quiesce();
    if let Some(h) = m.take() {
        for (k, cons) in w.consumers.iter().enumerate() {
            if cons.task().map_or(false, |t| t.ended()) {
                fail("ended-early", format!("consumer {} ended although a Mutable handle is alive", k));
            }
        }
        no_repeats(&w);
        let states2 = lin_check(&spec, &w, &states, "end-order");
        let given: Vec<u64> = w.consumers.iter().map(|c| *c.items.borrow()).collect();
        probe("last-handle-dropped-while-quiet");
        let w2 = w.clone();
        spawn("owner", move || {
            let mut hs = [vec![h], vec![]];
            exec(&Op::DropHandle(0), &mut hs, &w2, 3);
        });
        quiesce();
        for (k, (cons, n)) in w.consumers.iter().zip(given).enumerate() {
            check!(
                *cons.items.borrow() == n,
                "repeated",
                "consumer {} was given {:?} once more because the last handle was dropped",
                k,
                *cons.last.borrow()
            );
        }
        finish_c02(&w, &spec, &states2, &ro, extra_ro);
    } else {
        finish_c02(&w, &spec, &states, &ro, extra_ro);
    }
}

fn finish_c02(w: &Rc<World>, spec: &Cells, states: &[St], ro: &ReadOnlyMutable<u64>, extra: bool) {
    let fin = ro.get();
    for (k, cons) in w.consumers.iter().enumerate() {
        if let Some(t) = cons.task() {
            check!(
                !t.running(),
                "not-ended",
                "every Mutable handle is gone, but consumer {} is parked (last seen {:?}, final value {})",
                k,
                *cons.last.borrow(),
                fin
            );
            if t.ended() {
                probe("consumer-ended");
                let last = *cons.last.borrow();
                check!(
                    last == Some(fin),
                    "final-missed",
                    "consumer {} ended having last seen {:?}, but the final value is {}",
                    k,
                    last,
                    fin
                );
            }
        }
    }
    // cloning and dropping handles changes nothing
    no_repeats(w);
    if !states.is_empty() {
        lin_check(spec, w, states, "end-order");
    }
    if extra {
        // A signal made after the end: the final value, then the end.
        let late = Consumer::draw(choices(), 0, false);
        late.start(MAXC - 1, ro);
        quiesce();
        let t = late.task().unwrap();
        check!(t.ended(), "not-ended", "a signal made after the last handle was dropped never ends");
        check!(
            *late.items.borrow() == 1 && *late.last.borrow() == Some(fin),
            "final-missed",
            "a signal made after the last handle was dropped yielded {} item(s), last {:?}, final value {}",
            late.items.borrow(),
            late.last.borrow(),
            fin
        );
    }
}

fn any_op(c: &mut Choices, next: &mut u64, known: &mut Vec<u64>) -> Op {
    *next += 1;
    let v = *next;
    let cell = c.u(2);
    let op = match c.weighted(&[3, 3, 3, 3, 3, 4, 2, 3, 1, 2, 1, 5, 2, 1]) {
        0 => Op::Set(cell, v),
        1 => Op::Replace(cell, v),
        2 => Op::ReplaceWith(cell, v, c.pct(50)),
        3 => Op::SetIf(cell, v, c.pct(60)),
        4 => {
            // often a value which some cell may hold
            let v = if c.pct(60) && !known.is_empty() { known[c.u(known.len())] } else { v };
            Op::SetNeq(cell, v)
        }
        5 => Op::LockMut(cell, v),
        6 => Op::LockMutNothing(cell),
        7 => Op::Get(cell),
        8 => Op::GetCloned(cell),
        9 => Op::LockRef(cell, c.pct(50)),
        10 => Op::ReadOnlyGet(cell),
        11 => Op::Swap(cell, if c.pct(75) { 1 - cell } else { cell }),
        12 => Op::Show(cell, c.u(3) as u8),
        _ => Op::Pause,
    };
    known.push(v);
    op
}

/// C03: a linearizable cell which never deadlocks.
pub fn c03() {
    let c = choices();
    let ms = two_mutables();
    let nc = c.u(3);
    let consumers: Vec<Rc<Consumer>> = (0..nc)
        .map(|_| {
            let cell = c.u(2);
            Consumer::draw(c, cell, true)
        })
        .collect();
    let nt = c.range(2, 3);
    let mut next = 10;
    let mut known = vec![1, 2];
    let plan: Vec<Vec<Op>> =
        (0..nt).map(|_| (0..c.range(1, if nt == 3 { 3 } else { 5 })).map(|_| any_op(c, &mut next, &mut known)).collect()).collect();
    let spec = Cells { cell_of: cell_of(&consumers) };
    let w = Rc::new(World { consumers, events: (0..3).map(|_| Default::default()).collect() });
    for k in 0..nc {
        w.consumers[k].start(k, &ms[w.consumers[k].cell].read_only());
    }
    let states = vec![St { val: [1, 2], handles: [1, 1], dirty: (1 << MAXC) - 1 }];
    for (t, ops) in plan.into_iter().enumerate() {
        let w = w.clone();
        let mut hs = [vec![ms[0].clone(), ms[0].clone()], vec![ms[1].clone(), ms[1].clone()]];
        spawn(&format!("thread{}", t), move || {
            for op in &ops {
                exec(op, &mut hs, &w, t);
            }
        });
    }
    quiesce();
    let fin = [ms[0].get(), ms[1].get()];
    ev(fin[0] * 1000 + fin[1]);
    // Consumers' observations belong to C01: here only the operations count.
    for cons in &w.consumers {
        cons.events.borrow_mut().clear();
    }
    let states = lin_check(&spec, &w, &states, "not-linearizable");
    if !states.is_empty() {
        check!(
            states.iter().any(|s| s.val == fin),
            "not-linearizable",
            "final values {:?} are not explained by any order of the operations (possible: {:?})",
            fin,
            states.iter().map(|s| s.val).collect::<Vec<_>>()
        );
    }
    let ts: Vec<Task> = w.consumers.iter().filter_map(|c| c.task()).collect();
    stop_all(&ts);
}

/// C03: consumers are notified by every mutation and by nothing else.
pub fn c03_notify() {
    let c = choices();
    let ms = two_mutables();
    let nc = c.range(1, 3);
    let consumers: Vec<Rc<Consumer>> = (0..nc)
        .map(|_| {
            let cell = c.u(2);
            Consumer::draw(c, cell, false)
        })
        .collect();
    let n = c.range(1, 6);
    let mut next = 10;
    let mut known = vec![1, 2];
    let ops: Vec<Op> = (0..n).map(|_| any_op(c, &mut next, &mut known)).collect();
    let w = Rc::new(World { consumers, events: (0..3).map(|_| Default::default()).collect() });
    for k in 0..nc {
        w.consumers[k].start(k, &ms[w.consumers[k].cell].read_only());
    }
    quiesce();
    let mut val = [1u64, 2];
    for op in ops {
        // set_neq with the value the cell holds
        let op = match op {
            Op::SetNeq(cell, v) if v % 2 == 0 => Op::SetNeq(cell, val[cell]),
            o => o,
        };
        let before: Vec<u64> = w.consumers.iter().map(|c| *c.items.borrow()).collect();
        let wakes = |k: usize| w.consumers[k].task().map_or(0, |t| t.wakes());
        let woken: Vec<u64> = (0..nc).map(wakes).collect();
        let o2 = op.clone();
        let w2 = w.clone();
        let mut hs = [vec![ms[0].clone(), ms[0].clone()], vec![ms[1].clone(), ms[1].clone()]];
        spawn("writer", move || exec(&o2, &mut hs, &w2, 0));
        quiesce();
        let mut touched = [false, false];
        match op {
            Op::Set(k, v) | Op::Replace(k, v) | Op::ReplaceWith(k, v, _) | Op::LockMut(k, v) | Op::SetIf(k, v, true) => {
                val[k] = v;
                touched[k] = true;
            }
            Op::SetNeq(k, v) if v != val[k] => {
                val[k] = v;
                touched[k] = true;
            }
            Op::Swap(a, b) => {
                if a != b {
                    val.swap(0, 1);
                }
                touched[a] = true;
                touched[b] = true;
            }
            _ => {}
        }
        check!(
            [ms[0].get(), ms[1].get()] == val,
            "wrong-result",
            "after {:?} the cells hold {:?} instead of {:?}",
            op,
            [ms[0].get(), ms[1].get()],
            val
        );
        for (k, cons) in w.consumers.iter().enumerate() {
            let d = *cons.items.borrow() - before[k];
            if touched[cons.cell] {
                // swapping a Mutable with itself changes nothing: notifying is allowed, not required
                let required = !matches!(op, Op::Swap(a, b) if a == b);
                check!(
                    (d >= 1 || !required) && *cons.last.borrow() == Some(val[cons.cell]),
                    "not-notified",
                    "{:?} mutated cell {}, but consumer {} got {} item(s) and last saw {:?}",
                    op,
                    cons.cell,
                    k,
                    d,
                    cons.last.borrow()
                );
            } else {
                probe("no-op-while-parked");
                check!(
                    d == 0,
                    "spurious-notification",
                    "{:?} did not mutate cell {}, but consumer {} was given {} item(s)",
                    op,
                    cons.cell,
                    k,
                    d
                );
                check!(
                    wakes(k) == woken[k],
                    "spurious-wake",
                    "{:?} did not mutate cell {}, but woke consumer {}",
                    op,
                    cons.cell,
                    k
                );
            }
        }
    }
    let ts: Vec<Task> = w.consumers.iter().filter_map(|c| c.task()).collect();
    stop_all(&ts);
}
