//! Random compositions of combinators (C30, C31).

use crate::check;
use crate::engine::*;
use crate::kit::*;
use crate::scen::growth::Source;
use crate::scen::stage::*;
use crate::scen::vecs::{dynin, maker};
use futures_signals::map_mut;
use futures_signals::map_ref;
use futures_signals::signal::{self, always, and, not, or, Broadcaster, Mutable, ReadOnlyMutable, SignalExt};
use futures_signals::signal_map::{MutableBTreeMap, SignalMapExt};
use futures_signals::signal_vec::{self, MutableVec, MutableVecLockMut, SignalVecExt};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

// -------------------------------------------------------------------- cells

/// Inner signals and vectors which really change: the closures of a composition
/// pick one of them for each value they get.
struct Cells {
    sigs: Vec<CellSig>,
    vecs: Vec<CellVec>,
}

enum CellSig {
    Mutable { m: Shared<Option<Mutable<u64>>>, ro: ReadOnlyMutable<u64>, plan: u64, ended: bool },
    Split { i: SigInRef<u64>, b: Broadcaster<DynSignal<u64>> },
}

struct CellVec {
    m: Shared<Option<MutableVec<u64>>>,
    last: Shared<Vec<u64>>,
    gen: DiffGen,
    plan: Vec<u64>,
    ended: bool,
}

impl CellSig {
    fn draw(c: &mut Choices, vals: &Values) -> CellSig {
        if c.pct(30) {
            let o = SigOpts { real: 40, firm: true, coalesce: 40 };
            let (i, s) = SigIn::draw(c, "cell", o, maker(vals));
            CellSig::Split { i, b: Broadcaster::new(s) }
        } else {
            let plan = vals.next(c);
            let m = Mutable::new(plan);
            CellSig::Mutable { ro: m.read_only(), m: shared(Some(m)), plan, ended: false }
        }
    }

    /// The second step is done without the cells being borrowed.
    fn signal(&self) -> Box<dyn FnOnce() -> DynSignal<u64>> {
        match self {
            CellSig::Mutable { ro, .. } => {
                let ro = ro.clone();
                Box::new(move || Box::pin(ro.signal()))
            }
            CellSig::Split { b, .. } => {
                let b = b.clone();
                Box::new(move || Box::pin(b.signal()))
            }
        }
    }

    fn plan(&self) -> u64 {
        match self {
            CellSig::Mutable { plan, .. } => *plan,
            CellSig::Split { i, .. } => i.borrow().plan.unwrap(),
        }
    }

    fn ended(&self) -> bool {
        match self {
            CellSig::Mutable { ended, .. } => *ended,
            CellSig::Split { i, .. } => i.borrow().ended(),
        }
    }
}

impl CellVec {
    fn draw(c: &mut Choices, vals: &Values) -> CellVec {
        let plan: Vec<u64> = (0..c.u(3)).map(|_| vals.next(c)).collect();
        CellVec {
            m: shared(Some(MutableVec::new_with_values(plan.clone()))),
            last: shared(vec![]),
            gen: DiffGen::draw(c),
            plan,
            ended: false,
        }
    }

    fn signal_vec(&self) -> Box<dyn FnOnce() -> DynVec<u64>> {
        let (m, last) = (self.m.clone(), self.last.clone());
        Box::new(move || {
            let h = m.borrow().clone();
            match h {
                Some(h) => Box::pin(h.signal_vec()),
                None => Box::pin(signal_vec::always(last.borrow().clone())),
            }
        })
    }
}

type CellsRef = Rc<(Shared<Cells>, Values)>;

struct CellsFeed(CellsRef);

impl CellsFeed {
    fn end_sig(c: &mut Cells, k: usize) -> Action {
        match &mut c.sigs[k] {
            CellSig::Mutable { m, ended, .. } => {
                *ended = true;
                let m = m.clone();
                Box::new(move || {
                    note(|| "drops the Mutable of a cell".into());
                    let m = m.borrow_mut().take();
                    drop(m);
                })
            }
            CellSig::Split { i, .. } => i.borrow_mut().end(),
        }
    }

    fn end_vec(c: &mut Cells, k: usize) -> Action {
        let v = &mut c.vecs[k];
        v.ended = true;
        let (m, last) = (v.m.clone(), v.last.clone());
        Box::new(move || {
            note(|| "drops the MutableVec of a cell".into());
            let h = m.borrow().clone();
            if let Some(h) = h {
                let now = h.lock_ref().to_vec();
                *last.borrow_mut() = now;
                let own = m.borrow_mut().take();
                drop(own);
                drop(h);
            }
        })
    }
}

impl Input for CellsFeed {
    fn step(&mut self, c: &mut Choices) -> Action {
        let cells = &mut *(self.0).0.borrow_mut();
        let n = cells.sigs.len();
        let k = c.u(n + cells.vecs.len());
        let early = c.pct(12);
        if k < n {
            if early && !cells.sigs[k].ended() {
                return Self::end_sig(cells, k);
            }
            match &mut cells.sigs[k] {
                CellSig::Mutable { ended: true, .. } => Box::new(|| {}),
                CellSig::Mutable { m, plan, .. } => {
                    let v = (self.0).1.next(c);
                    let m = m.clone();
                    *plan = v;
                    Box::new(move || {
                        let h = m.borrow().clone();
                        if let Some(h) = h {
                            note(|| format!("cell <- {}", v));
                            h.set(v);
                        }
                    })
                }
                CellSig::Split { i, .. } => i.borrow_mut().step(c),
            }
        } else {
            let k = k - n;
            if cells.vecs[k].ended {
                return Box::new(|| {});
            }
            if early {
                return Self::end_vec(cells, k);
            }
            let v = &mut cells.vecs[k];
            let vals = &(self.0).1;
            let d = v.gen.next(c, &mut v.plan, |c| vals.next(c));
            let m = v.m.clone();
            Box::new(move || {
                let h = m.borrow().clone();
                if let Some(h) = h {
                    note(|| format!("cell: {:?}", d));
                    MutableVecLockMut::apply_vec_diff(&mut h.lock_mut(), d);
                }
            })
        }
    }

    fn end(&mut self) -> Action {
        let cells = &mut *(self.0).0.borrow_mut();
        let mut acts: Vec<Action> = vec![];
        for k in 0..cells.sigs.len() {
            if !cells.sigs[k].ended() {
                acts.push(Self::end_sig(cells, k));
            }
        }
        for k in 0..cells.vecs.len() {
            if !cells.vecs[k].ended {
                acts.push(Self::end_vec(cells, k));
            }
        }
        Box::new(move || {
            for a in acts {
                a();
                between();
            }
        })
    }

    fn ended(&self) -> bool {
        let cells = (self.0).0.borrow();
        cells.sigs.iter().all(|s| s.ended()) && cells.vecs.iter().all(|v| v.ended)
    }

    fn poke(&self) {
        let hs: Vec<MutableVec<u64>> = (self.0).0.borrow().vecs.iter().filter_map(|v| v.m.borrow().clone()).collect();
        for h in hs {
            h.lock_mut().push(0);
        }
    }
}

/// What the composition shows, from what its inputs told it and from what was planned.
struct Node<O, T> {
    out: O,
    known: Rc<dyn Fn() -> T>,
    plan: Rc<dyn Fn() -> T>,
}

type VNode = Node<DynVec<u64>, Vec<u64>>;
type SNode = Node<DynSignal<u64>, u64>;

fn step<A: 'static, P: 'static, B: 'static, O, Q: 'static>(n: Node<O, A>, out: impl FnOnce(O) -> Q, f: impl Fn(A) -> B + Clone + 'static) -> Node<Q, B>
where
    P: 'static,
{
    let (k, p, f2) = (n.known, n.plan, f.clone());
    Node { out: out(n.out), known: Rc::new(move || f(k())), plan: Rc::new(move || f2(p())) }
}

struct Gen {
    inputs: Vec<Shared<dyn Input>>,
    dropped: Vec<Rc<dyn Fn() -> bool>>,
    vals: Values,
    text: String,
    /// how many combinators it may still use
    budget: usize,
    /// kept alive, never polled
    idle: Vec<DynSignal<u64>>,
    /// the inner signals and futures which are alive
    inner: Census,
    /// an input keeps the waker of a dropped reader until its next change
    lingers: bool,
    cells: Option<CellsRef>,
    wide: u32,
    /// the subtree which is being made uses cells
    used: bool,
    /// what a task must show when it rests is only known once everything is quiet
    fuzzy: bool,
    /// the inputs are real and nothing is kept about what they did
    plain: Option<Shared<Vec<Source>>>,
    /// further consumers of the Broadcasters, if they are wanted
    siblings: Option<Vec<Sibling>>,
}

struct Sibling {
    task: Task,
    log: Shared<Vec<u64>>,
    plan: Rc<dyn Fn() -> u64>,
    lo: usize,
    hi: usize,
    used: bool,
}

/// `must`: everything it depends on has ended; `may`: all but the inner signals have.
fn verdict<T: PartialEq + Debug>(task: &Task, must: bool, may: bool, got: &T, want: &T, what: &str) {
    let end = must || (may && task.ended());
    judge(task, end, got, want, what);
}

const BIG: u64 = 1 << 40;

fn fold(v: &[u64]) -> u64 {
    v.iter().fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(*x)) % BIG
}

fn some_values(v: u64) -> Vec<u64> {
    (0..v % 3).map(|k| (v + k * 8) % BIG).collect()
}

impl Gen {
    fn new() -> Gen {
        Gen { inputs: vec![], dropped: vec![], vals: Values::new(), text: String::new(), budget: 0, idle: vec![], inner: Census::default(), lingers: false, cells: None, wide: 0, used: false, fuzzy: false, plain: None, siblings: None }
    }

    fn leaves(&self) -> usize {
        self.plain.as_ref().map_or(self.inputs.len(), |p| p.borrow().len())
    }

    fn cells(&mut self, c: &mut Choices) -> CellsRef {
        self.used = true;
        self.fuzzy = true;
        if let (None, Some(p)) = (&self.cells, &self.plain) {
            let mut cells = Cells { sigs: vec![], vecs: vec![] };
            for _ in 0..3 {
                let v = self.vals.next(c);
                let m = Mutable::new(v);
                cells.sigs.push(CellSig::Mutable { ro: m.read_only(), m: shared(None), plan: v, ended: false });
                p.borrow_mut().push(Source::Sig(m, v));
            }
            for _ in 0..2 {
                let v: Vec<u64> = (0..c.u(3)).map(|_| self.vals.next(c)).collect();
                let m = MutableVec::new_with_values(v.clone());
                cells.vecs.push(CellVec { m: shared(Some(m.clone())), last: shared(vec![]), gen: DiffGen::draw(c), plan: vec![], ended: false });
                p.borrow_mut().push(Source::Vec(m, v));
            }
            self.cells = Some(Rc::new((shared(cells), self.vals.clone())));
        }
        if self.cells.is_none() {
            let cells = Cells {
                sigs: (0..3).map(|_| CellSig::draw(c, &self.vals)).collect(),
                vecs: (0..2).map(|_| CellVec::draw(c, &self.vals)).collect(),
            };
            self.cells = Some(Rc::new((shared(cells), self.vals.clone())));
        }
        self.cells.clone().unwrap()
    }

    /// The function from a value to its inner signal, and from a value to what that shows.
    fn cell_sig(&mut self, c: &mut Choices, plus: u64) -> (impl Fn(u64) -> DynSignal<u64> + Clone + 'static, impl Fn(u64) -> u64 + Clone + 'static) {
        let cells = if c.pct(50) { Some(self.cells(c)) } else { None };
        let (k1, n) = (cells.clone(), self.inner.clone());
        (
            move |v: u64| -> DynSignal<u64> {
                match &k1 {
                    None => Box::pin(n.of(always(v + plus))),
                    Some(k) => {
                        let s = k.0.borrow().sigs[key(v) as usize % 3].signal();
                        let s = s();
                        Box::pin(n.of(SigAdapt { s, f: move |x| (v + x * 8 + plus) % BIG }))
                    }
                }
            },
            move |v: u64| match &cells {
                None => v + plus,
                Some(k) => (v + k.0.borrow().sigs[key(v) as usize % 3].plan() * 8 + plus) % BIG,
            },
        )
    }

    fn cell_vec(&mut self, c: &mut Choices) -> (impl Fn(u64) -> DynVec<u64> + Clone + 'static, impl Fn(u64) -> Vec<u64> + Clone + 'static) {
        let cells = if c.pct(50) { Some(self.cells(c)) } else { None };
        if cells.is_some() {
            self.lingers = true;
        }
        let (k1, n) = (cells.clone(), self.inner.clone());
        (
            move |v: u64| -> DynVec<u64> {
                match &k1 {
                    None => Box::pin(n.of(signal_vec::always(some_values(v)))),
                    Some(k) => {
                        let s = k.0.borrow().vecs[key(v) as usize % 2].signal_vec();
                        let s = s();
                        Box::pin(n.of(s))
                    }
                }
            },
            move |v: u64| match &cells {
                None => some_values(v),
                Some(k) => k.0.borrow().vecs[key(v) as usize % 2].plan.clone(),
            },
        )
    }

    fn wrap(&mut self, c: &mut Choices) -> usize {
        if c.pct(15) {
            self.text.push_str(" wrapped");
            c.u(7)
        } else {
            9
        }
    }

    fn vec(&mut self, c: &mut Choices) -> VNode {
        let n = self.raw_vec(c);
        let k = self.wrap(c);
        Node { out: wrap_vec(k, n.out), known: n.known, plan: n.plan }
    }

    fn sig(&mut self, c: &mut Choices) -> SNode {
        let n = self.raw_sig(c);
        let k = self.wrap(c);
        Node { out: wrap_sig(k, n.out), known: n.known, plan: n.plan }
    }

    fn map(&mut self, c: &mut Choices) -> Node<DynMap<u64, u64>, BTreeMap<u64, u64>> {
        let n = self.raw_map(c);
        let k = self.wrap(c);
        Node { out: wrap_map(k, n.out), known: n.known, plan: n.plan }
    }

    fn raw_vec(&mut self, c: &mut Choices) -> VNode {
        if self.budget == 0 || self.leaves() > 3 {
            if let Some(p) = &self.plain {
                if c.pct(15) {
                    let v: BTreeMap<u64, u64> = (0..c.u(4)).map(|k| (k as u64, self.vals.next(c))).collect();
                    let m = MutableBTreeMap::with_values(v.clone());
                    let out: DynVec<u64> = match c.u(3) {
                        0 => Box::pin(m.signal_vec_keys()),
                        1 => Box::pin(m.entries_cloned().map(|(k, v)| k + v)),
                        _ => Box::pin(m.signal_vec_entries().map(|(_, v)| v)),
                    };
                    p.borrow_mut().push(Source::Map(m, v));
                    self.text.push_str(" view of a MutableBTreeMap");
                    return Node { out, known: Rc::new(Vec::new), plan: Rc::new(Vec::new) };
                }
                let v: Vec<u64> = (0..c.u(5)).map(|_| self.vals.next(c)).collect();
                let m = MutableVec::new_with_values(v.clone());
                let out = Box::pin(m.signal_vec());
                p.borrow_mut().push(Source::Vec(m, v));
                self.text.push_str(" MutableVec");
                return Node { out, known: Rc::new(Vec::new), plan: Rc::new(Vec::new) };
            }
            let (i, s) = VecIn::draw(c, "vec", 35, maker(&self.vals));
            self.inputs.push(dynin(&i));
            let i4 = i.clone();
            self.dropped.push(Rc::new(move || i4.borrow().dropped()));
            self.lingers |= i.borrow().keeps_wakers();
            self.text.push_str(" vec");
            let (i2, i3) = (i.clone(), i);
            return Node { out: s, known: Rc::new(move || i2.borrow().known()), plan: Rc::new(move || i3.borrow().plan.clone()) };
        }
        self.budget -= 1;
        let mut op = c.u(18);
        if matches!(op, 7 | 12 | 14 | 16) {
            // each of these multiplies the values
            self.wide += 1;
            if self.wide > 2 {
                op = 1;
            }
        }
        let names = [
            "map", "filter", "filter_map", "sort", "chain", "enumerate", "map_signal", "flatten", "filter_signal", "delay_remove",
            "to_signal_cloned.to_signal_vec", "to_signal_map.to_signal_vec", "switch_signal_vec", "broadcast.to_signal_vec", "flatten pairs",
            "keys", "entries", "box",
        ];
        self.text.push(' ');
        self.text.push_str(names[op]);
        let mask = c.below(256);
        let keep = move |v: u64| (mask >> key(v)) & 1 == 1;
        let n = self.inner.clone();
        match op {
            0 => step::<_, (), _, _, _>(
                self.vec(c),
                |s| Box::pin(s.map(|v| v + 8)) as DynVec<u64>,
                |v: Vec<u64>| v.into_iter().map(|v| v + 8).collect(),
            ),
            1 => step::<_, (), _, _, _>(
                self.vec(c),
                |s| Box::pin(s.filter(move |v| keep(*v))) as DynVec<u64>,
                move |v: Vec<u64>| v.into_iter().filter(|v| keep(*v)).collect(),
            ),
            2 => step::<_, (), _, _, _>(
                self.vec(c),
                |s| Box::pin(s.filter_map(move |v| if keep(v) { Some(v + 16) } else { None })) as DynVec<u64>,
                move |v: Vec<u64>| v.into_iter().filter(|v| keep(*v)).map(|v| v + 16).collect(),
            ),
            3 => step::<_, (), _, _, _>(
                self.vec(c),
                |s| Box::pin(s.sort_by_cloned(|a, b| key(*a).cmp(&key(*b)))) as DynVec<u64>,
                |mut v: Vec<u64>| {
                    v.sort_by_key(|v| key(*v));
                    v
                },
            ),
            4 => {
                let (a, b) = (self.vec(c), self.vec(c));
                let (ka, kb, pa, pb) = (a.known, b.known, a.plan, b.plan);
                let cat = |mut a: Vec<u64>, b: Vec<u64>| {
                    a.extend(b);
                    a
                };
                Node {
                    out: Box::pin(a.out.chain(b.out)),
                    known: Rc::new(move || cat(ka(), kb())),
                    plan: Rc::new(move || cat(pa(), pb())),
                }
            }
            5 => step::<_, (), _, _, _>(self.vec(c), |s| Box::pin(s.enumerate().map(|x| x.1)) as DynVec<u64>, |v| v),
            6 => {
                let (f, g) = self.cell_sig(c, 24);
                step::<_, (), _, _, _>(
                    self.vec(c),
                    |s| Box::pin(s.map_signal(f)) as DynVec<u64>,
                    move |v: Vec<u64>| v.into_iter().map(&g).collect(),
                )
            }
            7 => {
                let (f, g) = self.cell_vec(c);
                step::<_, (), _, _, _>(
                    self.vec(c),
                    |s| Box::pin(s.map(f).flatten()) as DynVec<u64>,
                    move |v: Vec<u64>| v.into_iter().flat_map(&g).collect(),
                )
            }
            8 => {
                let (f, g) = self.cell_sig(c, 0);
                step::<_, (), _, _, _>(
                    self.vec(c),
                    |s| Box::pin(s.filter_signal_cloned(move |v| n.of(SigAdapt { s: f(*v), f: move |x| keep(x / 8) }))) as DynVec<u64>,
                    move |v: Vec<u64>| v.into_iter().filter(|v| keep(g(*v) / 8)).collect(),
                )
            }
            9 => {
                let k = c.u(3) as u32;
                step::<_, (), _, _, _>(self.vec(c), |s| Box::pin(s.delay_remove(move |_| n.of(Yields::new(k, ())))) as DynVec<u64>, |v| v)
            }
            10 => step::<_, (), _, _, _>(self.vec(c), |s| Box::pin(s.to_signal_cloned().to_signal_vec()) as DynVec<u64>, |v| v),
            11 => step::<_, (), _, _, _>(
                self.vec(c),
                |s| Box::pin(s.to_signal_map(|v| v.iter().rev().copied().collect::<Vec<u64>>()).to_signal_vec()) as DynVec<u64>,
                |mut v: Vec<u64>| {
                    v.reverse();
                    v
                },
            ),
            12 => {
                let (f, g) = self.cell_vec(c);
                step::<_, (), _, _, _>(self.sig(c), |s| Box::pin(s.switch_signal_vec(f)) as DynVec<u64>, g)
            }
            13 => step::<_, (), _, _, _>(
                self.vec(c),
                |s| {
                    let b = Broadcaster::new(s.to_signal_cloned());
                    if keep(0) {
                        Box::pin(b.signal_cloned().to_signal_vec()) as DynVec<u64>
                    } else {
                        Box::pin(b.signal_ref(|v| v.clone()).to_signal_vec()) as DynVec<u64>
                    }
                },
                |v| v,
            ),
            14 => step::<_, (), _, _, _>(
                self.vec(c),
                |s| {
                    Box::pin(s.map(move |v| n.of(signal_vec::always(vec![v]).chain(n.of(signal_vec::always(vec![v + 8]))))).flatten()) as DynVec<u64>
                },
                |v: Vec<u64>| v.into_iter().flat_map(|v| vec![v, v + 8]).collect(),
            ),
            15 => step::<_, (), _, _, _>(
                self.map(c),
                |m| Box::pin(MapToVec { m, key: 2 }.to_signal_vec()) as DynVec<u64>,
                |m| m.get(&2).copied().into_iter().collect(),
            ),
            16 => step::<_, (), _, _, _>(
                self.sig(c),
                |s| Box::pin(s.map(some_values).to_signal_vec()) as DynVec<u64>,
                some_values,
            ),
            _ => step::<_, (), _, _, _>(self.vec(c), |s| Box::pin(Box::new(s.boxed_local())) as DynVec<u64>, |v| v),
        }
    }

    fn raw_map(&mut self, c: &mut Choices) -> Node<DynMap<u64, u64>, BTreeMap<u64, u64>> {
        let n = match &self.plain {
            Some(p) => {
                let v: BTreeMap<u64, u64> = (0..c.u(4)).map(|k| (k as u64, self.vals.next(c))).collect();
                let m = MutableBTreeMap::with_values(v.clone());
                let out = Box::pin(m.signal_map());
                p.borrow_mut().push(Source::Map(m, v));
                self.text.push_str(" MutableBTreeMap");
                Node { out: out as DynMap<u64, u64>, known: Rc::new(BTreeMap::new) as Rc<dyn Fn() -> _>, plan: Rc::new(BTreeMap::new) as Rc<dyn Fn() -> _> }
            }
            None => {
                let (i, s) = MapIn::draw(c, "map", 40, maker(&self.vals));
                self.inputs.push(dynin(&i));
                let i4 = i.clone();
                self.dropped.push(Rc::new(move || i4.borrow().dropped()));
                self.lingers |= i.borrow().keeps_wakers();
                self.text.push_str(" btreemap");
                let (i2, i3) = (i.clone(), i);
                Node { out: s, known: Rc::new(move || i2.borrow().known()) as Rc<dyn Fn() -> _>, plan: Rc::new(move || i3.borrow().plan.clone()) as Rc<dyn Fn() -> _> }
            }
        };
        match c.u(3) {
            0 => n,
            1 => step::<_, (), _, _, _>(
                n,
                |m| Box::pin(m.map_value(|v| v + 8)) as DynMap<u64, u64>,
                |m: BTreeMap<u64, u64>| m.into_iter().map(|(k, v)| (k, v + 8)).collect(),
            ),
            _ => {
                let (f, g) = self.cell_sig(c, 16);
                step::<_, (), _, _, _>(
                    n,
                    move |m| Box::pin(m.map_value_signal(f)) as DynMap<u64, u64>,
                    move |m: BTreeMap<u64, u64>| m.into_iter().map(|(k, v)| (k, g(v))).collect(),
                )
            }
        }
    }

    fn raw_sig(&mut self, c: &mut Choices) -> SNode {
        if self.budget == 0 || self.leaves() > 3 {
            if let Some(p) = &self.plain {
                let v = self.vals.next(c);
                let out: DynSignal<u64> = if c.pct(70) {
                    let m = Mutable::new(v);
                    let out = m.signal();
                    p.borrow_mut().push(Source::Sig(m, v));
                    self.text.push_str(" Mutable");
                    Box::pin(out)
                } else {
                    let (s, r) = signal::channel(v);
                    p.borrow_mut().push(Source::Chan(s, v));
                    self.text.push_str(" channel");
                    Box::pin(r)
                };
                return Node { out, known: Rc::new(|| 0), plan: Rc::new(|| 0) };
            }
            let o = SigOpts { real: 35, firm: true, coalesce: 40 };
            let (i, s) = SigIn::draw(c, "signal", o, maker(&self.vals));
            self.inputs.push(dynin(&i));
            let i4 = i.clone();
            self.dropped.push(Rc::new(move || i4.borrow().dropped()));
            self.text.push_str(" signal");
            let (i2, i3) = (i.clone(), i);
            return Node { out: s, known: Rc::new(move || i2.borrow().known().unwrap_or(0)), plan: Rc::new(move || i3.borrow().plan.unwrap()) };
        }
        self.budget -= 1;
        let op = c.u(22);
        let names = [
            "map", "dedupe", "map_ref", "switch", "flatten", "map_future", "throttle", "stop_if", "broadcast", "from_stream", "len", "sum",
            "to_signal_cloned", "is_empty", "key_cloned", "option", "eq and neq", "filter_map", "inspect.not", "map_mut", "or", "dedupe_map",
        ];
        self.text.push(' ');
        self.text.push_str(names[op]);
        let n = self.inner.clone();
        match op {
            0 => step::<_, (), _, _, _>(self.sig(c), |s| Box::pin(s.map(|v| v + 1)) as DynSignal<u64>, |v| v + 1),
            1 => step::<_, (), _, _, _>(self.sig(c), |s| Box::pin(s.map(|v| v / 16).dedupe()) as DynSignal<u64>, |v| v / 16),
            2 => {
                let (a, b) = (self.sig(c), self.sig(c));
                let (ka, kb, pa, pb) = (a.known, b.known, a.plan, b.plan);
                let (sa, sb) = (a.out, b.out);
                Node {
                    out: Box::pin(map_ref!(sa, sb => fold(&[*sa, *sb]))),
                    known: Rc::new(move || fold(&[ka(), kb()])),
                    plan: Rc::new(move || fold(&[pa(), pb()])),
                }
            }
            3 => {
                let (f, g) = self.cell_sig(c, 2);
                step::<_, (), _, _, _>(self.sig(c), |s| Box::pin(s.switch(f)) as DynSignal<u64>, g)
            }
            4 => {
                let (f, g) = self.cell_sig(c, 3);
                step::<_, (), _, _, _>(self.sig(c), |s| Box::pin(s.map(f).flatten()) as DynSignal<u64>, g)
            }
            5 => {
                let k = c.u(3) as u32;
                step::<_, (), _, _, _>(
                    self.sig(c),
                    |s| Box::pin(s.map_future(move |v| n.of(Yields::new(k, v + 4))).map(|v| v.unwrap_or(1))) as DynSignal<u64>,
                    |v| v + 4,
                )
            }
            6 => {
                let k = c.u(3) as u32;
                step::<_, (), _, _, _>(self.sig(c), |s| Box::pin(s.throttle(move || n.of(Yields::new(k, ())))) as DynSignal<u64>, |v| v)
            }
            7 => step::<_, (), _, _, _>(self.sig(c), |s| Box::pin(s.stop_if(|_| false)) as DynSignal<u64>, |v| v),
            8 => {
                let (lo, used) = (self.inputs.len(), std::mem::replace(&mut self.used, false));
                let n = self.sig(c);
                let hi = self.inputs.len();
                let b = Broadcaster::new(n.out);
                if c.pct(30) {
                    self.idle.push(Box::pin(b.signal()));
                }
                if let Some(v) = &mut self.siblings {
                    for _ in 0..c.u(3) {
                        let s: DynSignal<u64> = match c.u(3) {
                            0 => Box::pin(b.signal()),
                            1 => Box::pin(b.signal_cloned()),
                            _ => Box::pin(b.signal_ref(|v| *v)),
                        };
                        let d = Drive::draw(c, true);
                        let w = watch_sig("sibling", d, s, |_| {}, |_, _| {});
                        self.fuzzy = true;
                        v.push(Sibling { task: w.task, log: w.log, plan: n.plan.clone(), lo, hi, used: self.used });
                    }
                }
                self.used |= used;
                Node { out: Box::pin(b.signal()), known: n.known, plan: n.plan }
            }
            9 => step::<_, (), _, _, _>(
                self.sig(c),
                |s| Box::pin(signal::from_stream(s.to_stream()).map(|v| v.unwrap_or(0))) as DynSignal<u64>,
                |v| v,
            ),
            10 => step::<_, (), _, _, _>(self.vec(c), |s| Box::pin(s.len().map(|n| n as u64)) as DynSignal<u64>, |v: Vec<u64>| v.len() as u64),
            11 => step::<_, (), _, _, _>(self.vec(c), |s| Box::pin(s.sum()) as DynSignal<u64>, |v: Vec<u64>| v.iter().sum()),
            12 => step::<_, (), _, _, _>(self.vec(c), |s| Box::pin(s.to_signal_cloned().map(|v| fold(&v))) as DynSignal<u64>, |v: Vec<u64>| fold(&v)),
            13 => step::<_, (), _, _, _>(self.vec(c), |s| Box::pin(s.is_empty().map(|e| e as u64)) as DynSignal<u64>, |v: Vec<u64>| v.is_empty() as u64),
            14 => step::<_, (), _, _, _>(
                self.map(c),
                |m| Box::pin(m.key_cloned(1).map(|v| v.unwrap_or(3))) as DynSignal<u64>,
                |m| m.get(&1).copied().unwrap_or(3),
            ),
            15 => step::<_, (), _, _, _>(
                self.sig(c),
                |s| Box::pin(signal::option(Some(signal::result::<_, ()>(Ok(s)))).map(|v| v.unwrap().unwrap())) as DynSignal<u64>,
                |v| v,
            ),
            16 => {
                let (a, b) = (self.sig(c), self.sig(c));
                let (ka, kb, pa, pb) = (a.known, b.known, a.plan, b.plan);
                let f = |a: u64, b: u64| (a % 4 == 1 && b % 4 != 1) as u64;
                Node {
                    out: Box::pin(and(a.out.map(|v| v % 4).eq(1), b.out.map(|v| v % 4).neq(1)).map(|v| v as u64)),
                    known: Rc::new(move || f(ka(), kb())),
                    plan: Rc::new(move || f(pa(), pb())),
                }
            }
            18 => step::<_, (), _, _, _>(
                self.sig(c),
                |s| Box::pin(not(s.inspect(|_| {}).map(|v| v % 2 == 0)).map(|v| v as u64)) as DynSignal<u64>,
                |v| v % 2,
            ),
            19 => {
                let (a, b) = (self.sig(c), self.sig(c));
                let (ka, kb, pa, pb) = (a.known, b.known, a.plan, b.plan);
                let (sa, sb) = (a.out, b.out);
                Node {
                    out: Box::pin(map_mut!(sa, sb => fold(&[*sb, *sa]))),
                    known: Rc::new(move || fold(&[kb(), ka()])),
                    plan: Rc::new(move || fold(&[pb(), pa()])),
                }
            }
            20 => {
                let (a, b) = (self.sig(c), self.sig(c));
                let (ka, kb, pa, pb) = (a.known, b.known, a.plan, b.plan);
                let f = |a: u64, b: u64| (a % 2 == 1 || b % 2 == 1) as u64;
                Node {
                    out: Box::pin(or(a.out.map(|v| v % 2 == 1), b.out.map(|v| v % 2 == 1)).map(|v| v as u64)),
                    known: Rc::new(move || f(ka(), kb())),
                    plan: Rc::new(move || f(pa(), pb())),
                }
            }
            21 => step::<_, (), _, _, _>(self.sig(c), |s| Box::pin(s.dedupe_map(|v| *v + 6)) as DynSignal<u64>, |v| v + 6),
            _ => step::<_, (), _, _, _>(
                self.sig(c),
                |s| Box::pin(s.filter_map(|v| Some(v + 5)).map(|v| v.unwrap())) as DynSignal<u64>,
                |v| v + 5,
            ),
        }
    }
}

/// One key of a map as a Signal of Vecs.
struct MapToVec {
    m: DynMap<u64, u64>,
    key: u64,
}

impl MapToVec {
    fn to_signal_vec(self) -> impl signal_vec::SignalVec<Item = u64> {
        self.m.key_cloned(self.key).map(|v| v.into_iter().collect::<Vec<u64>>()).to_signal_vec()
    }
}

fn run<T: Clone + Debug + PartialEq + 'static>(
    c: &mut Choices,
    g: Gen,
    known: Rc<dyn Fn() -> T>,
    plan: Rc<dyn Fn() -> T>,
    watch: impl FnOnce(Drive, Box<dyn Fn(T)>) -> (Task, Box<dyn Fn() -> Option<T>>),
    release: bool,
) {
    let what: &'static str = "composition";
    note(|| format!("composition:{}", g.text));
    let d = Drive::draw(c, true);
    let fuzzy = g.fuzzy;
    let (task, got) = watch(
        d,
        Box::new(move |got| {
            if !fuzzy {
                rest(&got, &known(), what)
            }
        }),
    );
    let Gen { mut inputs, dropped, text, mut idle, inner, lingers, cells, siblings, .. } = g;
    let main = inputs.len();
    if let Some(k) = &cells {
        probe("composition-with-cells");
        let i: Shared<dyn Input> = shared(CellsFeed(k.clone()));
        inputs.push(i);
    }
    let siblings = siblings.unwrap_or_default();
    if !siblings.is_empty() {
        probe("composition-with-siblings");
    }
    let gone = |when: &str| {
        check!(inner.alive() == 0, "leak", "composition{}: {} of its inner signals and futures are still alive {}", text, inner.alive(), when);
        for f in &dropped {
            check!(f(), "leak", "composition{}: an input is still alive {}", text, when);
        }
    };
    let mut idle_dropped = false;
    feed(c, Plan { max_rounds: 3, max_steps: 4, early_end: 15 }, &inputs, || {
        if release && !task.running() {
            if !idle_dropped {
                check!(
                    lingers || live_wakers() == 0,
                    "leak",
                    "composition{}: its task is gone, but {} of its wakers are alive",
                    text,
                    live_wakers()
                );
                idle.clear();
                idle_dropped = true;
            }
            gone("although its task is gone");
        }
        let quiet = all_ended(&inputs[main..]);
        for s in &siblings {
            let over = all_ended(&inputs[s.lo..s.hi]);
            let got = s.log.borrow().last().copied();
            verdict(&s.task, over && (quiet || !s.used), over, &got, &Some((s.plan)()), &text);
        }
        let over = all_ended(&inputs[..main]);
        verdict(&task, over && quiet, over, &got(), &Some(plan()), &text);
    });
    stop_all(std::slice::from_ref(&task));
    for s in &siblings {
        s.task.stop();
    }
    quiesce();
    if release {
        gone("although its task is gone");
        for i in &inputs {
            i.borrow().poke();
        }
        check!(
            live_wakers() == 0,
            "leak",
            "composition{}: its task is gone and its inputs have changed since, but {} of its wakers are alive",
            text,
            live_wakers()
        );
    }
    idle.clear();
    if release {
        gone("although its task is gone");
        drop(inputs);
        check!(live_wakers() == 0, "leak", "composition{}: its task and its inputs are gone, but {} wakers are alive", text, live_wakers());
    }
}

fn compose(release: bool) {
    let c = choices();
    c.modest();
    patience(10_000_000);
    let mut g = Gen::new();
    g.budget = if c.pct(8) { c.range(7, 12) } else { c.range(1, 6) };
    if !release {
        g.siblings = Some(vec![]);
    }
    if c.pct(55) {
        let n = g.vec(c);
        let out = n.out;
        run(
            c,
            g,
            n.known,
            n.plan,
            move |d, rest| {
                let w = watch_vec("task", d, out, move |v, _| rest(v.to_vec()));
                let r = w.replay.clone();
                (w.task, Box::new(move || Some(r.borrow().clone())))
            },
            release,
        );
    } else {
        let n = g.sig(c);
        let out = n.out;
        run(
            c,
            g,
            n.known,
            n.plan,
            move |d, rest| {
                let w = watch_sig(
                    "task",
                    d,
                    out,
                    |_| {},
                    move |log, _| {
                        check!(!log.is_empty(), "no-value", "composition: its task rests without having got a value");
                        rest(*log.last().unwrap())
                    },
                );
                let l = w.log.clone();
                (w.task, Box::new(move || l.borrow().last().copied()))
            },
            release,
        );
    }
}

pub fn c30() {
    compose(false)
}

pub fn c31() {
    compose(true)
}

pub enum Tree {
    Vec(DynVec<u64>),
    Sig(DynSignal<u64>),
}

/// A random composition over real inputs, what it consists of, its inputs, and what must be kept.
pub fn plain(c: &mut Choices) -> (Tree, String, Vec<Source>, Box<dyn std::any::Any>) {
    let mut g = Gen::new();
    g.budget = c.range(1, 6);
    let p = shared(vec![]);
    g.plain = Some(p.clone());
    let t = if c.pct(55) { Tree::Vec(g.vec(c).out) } else { Tree::Sig(g.sig(c).out) };
    let sources = p.borrow_mut().drain(..).collect();
    (t, std::mem::take(&mut g.text), sources, Box::new(g.idle))
}
