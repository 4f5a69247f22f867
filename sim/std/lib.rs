//! Simulated `std` for futures-signals.
//!
//! When futures-signals is built with `--cfg futures_signals_sim` its crate root
//! contains `extern crate futures_signals_sim_std as std;`, so that every
//! `std::...` path in the library resolves to this crate.  Everything is
//! re-exported from the real `std`, except for the primitives which are sources
//! of scheduling nondeterminism (locks, atomics, condition variables, yielding):
//! those call into a hook table installed by the simulator, which decides who
//! runs next.  There is no real blocking anywhere in this crate: a simulated
//! thread which has to wait is suspended by the simulator.
//!
//! All simulated threads are coroutines on one OS thread, so plain `Cell`s
//! protect the lock state.
//!
//! With `--cfg sim_arc` the reference counts of `Arc` are scheduling points as well
//! (that needs unstable features; `build.sh` falls back to the real `Arc` if the library
//! uses it in a way which this one does not support).
#![allow(clippy::all)]
#![cfg_attr(sim_arc, feature(coerce_unsized, unsize, dispatch_from_dyn))]

pub use ::std::*;

/// The seam between the simulated primitives and the simulator.
pub mod sim {
    use ::std::cell::Cell;
    use ::std::sync::atomic::Ordering;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[repr(u8)]
    pub enum Op {
        MutexLock = 0,
        RwRead,
        RwWrite,
        Unlock,
        Load,
        Store,
        Rmw,
        AfterWrite,
        Fence,
        Cond,
        Spin,
        Arc,
        /// Right before a lock is released: others can see that it is held
        Held,
    }

    /// What the memory model has to know, in runs which simulate weak memory: the operations
    /// on atomics, and the happens-before edges of locks and reference counts.
    #[derive(Clone, Copy, Debug)]
    pub enum Mem {
        /// The latest value is `cur`; the load returns what the hook returns.
        Load { addr: usize, cur: u64, order: Ordering },
        Store { addr: usize, old: u64, new: u64, order: Ordering },
        Rmw { addr: usize, old: u64, new: u64, order: Ordering },
        Fence(Ordering),
        /// A compare-exchange failed, having read the latest value.
        Saw { addr: usize, cur: u64, order: Ordering },
        /// Everything which was released to this object happened before.
        Acquire(usize),
        Release(usize),
    }

    #[derive(Clone, Copy)]
    pub struct Hooks {
        /// A scheduling point: the simulator may run other simulated threads here.
        pub point: fn(Op, usize),
        /// The current simulated thread cannot proceed until `wake(addr)`.
        /// Returns `false` if there is no simulation to wait for.
        pub block: fn(usize, Op) -> bool,
        /// Everybody blocked on `addr` may try again.
        pub wake: fn(usize),
        /// Whether a waiting writer blocks new readers (in this run).
        pub writer_priority: fn() -> bool,
        /// Whether a weak compare-exchange fails spuriously here.
        pub weak_fail: fn() -> bool,
        /// Called only in runs with `set_weak_memory(true)`.
        pub memory: fn(Mem) -> u64,
    }

    thread_local! {
        static HOOKS: Cell<Option<Hooks>> = const { Cell::new(None) };
        static WEAK: Cell<bool> = const { Cell::new(false) };
    }

    /// Whether the reference counts of `Arc` are simulated: without them there are happens-before
    /// edges which this crate does not see.
    pub const ARC: bool = cfg!(sim_arc);

    pub fn set_weak_memory(on: bool) {
        WEAK.with(|w| w.set(on));
    }

    #[inline]
    pub(crate) fn weak() -> bool {
        WEAK.with(|w| w.get())
    }

    #[inline]
    pub(crate) fn memory(m: impl FnOnce() -> Mem, otherwise: u64) -> u64 {
        if weak() {
            if let Some(h) = HOOKS.with(|h| h.get()) {
                return (h.memory)(m());
            }
        }
        otherwise
    }

    #[inline]
    pub(crate) fn acquire(addr: usize) {
        memory(|| Mem::Acquire(addr), 0);
    }

    #[inline]
    pub(crate) fn release(addr: usize) {
        memory(|| Mem::Release(addr), 0);
    }

    pub fn install(hooks: Option<Hooks>) {
        HOOKS.with(|h| h.set(hooks));
    }

    #[inline]
    pub(crate) fn point(op: Op, addr: usize) {
        if let Some(h) = HOOKS.with(|h| h.get()) {
            (h.point)(op, addr);
        }
    }

    #[inline]
    pub(crate) fn block(addr: usize, op: Op) -> bool {
        match HOOKS.with(|h| h.get()) {
            Some(h) => (h.block)(addr, op),
            None => false,
        }
    }

    #[inline]
    pub(crate) fn wake(addr: usize) {
        if let Some(h) = HOOKS.with(|h| h.get()) {
            (h.wake)(addr);
        }
    }

    #[inline]
    pub(crate) fn weak_fail() -> bool {
        match HOOKS.with(|h| h.get()) {
            Some(h) => (h.weak_fail)(),
            None => false,
        }
    }

    #[inline]
    pub(crate) fn writer_priority() -> bool {
        match HOOKS.with(|h| h.get()) {
            Some(h) => (h.writer_priority)(),
            None => false,
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;

    pub fn spin_loop() {
        crate::sim::point(crate::sim::Op::Spin, 0);
    }
}

pub mod thread {
    pub use ::std::thread::*;

    pub fn yield_now() {
        crate::sim::point(crate::sim::Op::Spin, 0);
    }

    pub fn sleep(_: ::std::time::Duration) {
        crate::sim::point(crate::sim::Op::Spin, 0);
    }
}

pub mod sync {
    pub use ::std::sync::*;

    #[cfg(sim_arc)]
    pub use crate::arc::{Arc, Weak};

    use crate::sim::{self, Op};
    use ::std::cell::{Cell, UnsafeCell};
    use ::std::fmt;
    use ::std::marker::PhantomData;
    use ::std::ops::{Deref, DerefMut};

    // ---------------------------------------------------------------- Mutex

    pub struct Mutex<T: ?Sized> {
        locked: Cell<bool>,
        poisoned: Cell<bool>,
        value: UnsafeCell<T>,
    }

    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
    impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

    #[must_use]
    pub struct MutexGuard<'a, T: ?Sized + 'a> {
        lock: &'a Mutex<T>,
        panicking: bool,
        _not_send: PhantomData<*const ()>,
    }

    unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

    impl<T> Mutex<T> {
        pub const fn new(value: T) -> Self {
            Self { locked: Cell::new(false), poisoned: Cell::new(false), value: UnsafeCell::new(value) }
        }

        pub fn into_inner(self) -> LockResult<T> {
            let p = self.poisoned.get();
            let v = self.value.into_inner();
            if p { Err(PoisonError::new(v)) } else { Ok(v) }
        }
    }

    impl<T: ?Sized> Mutex<T> {
        fn addr(&self) -> usize {
            &self.locked as *const _ as usize
        }

        fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
            self.locked.set(true);
            sim::acquire(self.addr());
            let g = MutexGuard { lock: self, panicking: ::std::thread::panicking(), _not_send: PhantomData };
            if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
        }

        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            sim::point(Op::MutexLock, self.addr());
            while self.locked.get() {
                if !sim::block(self.addr(), Op::MutexLock) {
                    break;
                }
            }
            self.guard()
        }

        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            sim::point(Op::MutexLock, self.addr());
            if self.locked.get() {
                Err(TryLockError::WouldBlock)
            } else {
                self.guard().map_err(TryLockError::Poisoned)
            }
        }

        pub fn is_poisoned(&self) -> bool {
            self.poisoned.get()
        }

        pub fn clear_poison(&self) {
            self.poisoned.set(false);
        }

        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            let p = self.poisoned.get();
            let v = self.value.get_mut();
            if p { Err(PoisonError::new(v)) } else { Ok(v) }
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            let mut d = f.debug_struct("Mutex");
            if self.locked.get() {
                d.field("data", &format_args!("<locked>"));
            } else {
                let v: &T = unsafe { &*self.value.get() };
                d.field("data", &v);
            }
            d.field("poisoned", &self.poisoned.get());
            d.finish_non_exhaustive()
        }
    }

    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }

    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }

    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.lock.value.get() }
        }
    }

    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.lock.value.get() }
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if !self.panicking && ::std::thread::panicking() {
                self.lock.poisoned.set(true);
            }
            let addr = self.lock.addr();
            sim::point(Op::Held, addr);
            sim::release(addr);
            self.lock.locked.set(false);
            sim::wake(addr);
            sim::point(Op::Unlock, addr);
        }
    }

    // --------------------------------------------------------------- RwLock

    pub struct RwLock<T: ?Sized> {
        /// -1: write locked, otherwise the number of readers
        state: Cell<isize>,
        waiting_writers: Cell<usize>,
        poisoned: Cell<bool>,
        value: UnsafeCell<T>,
    }

    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
    impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}

    #[must_use]
    pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
        lock: &'a RwLock<T>,
        _not_send: PhantomData<*const ()>,
    }

    #[must_use]
    pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
        lock: &'a RwLock<T>,
        panicking: bool,
        _not_send: PhantomData<*const ()>,
    }

    unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

    impl<T> RwLock<T> {
        pub const fn new(value: T) -> Self {
            Self {
                state: Cell::new(0),
                waiting_writers: Cell::new(0),
                poisoned: Cell::new(false),
                value: UnsafeCell::new(value),
            }
        }

        pub fn into_inner(self) -> LockResult<T> {
            let p = self.poisoned.get();
            let v = self.value.into_inner();
            if p { Err(PoisonError::new(v)) } else { Ok(v) }
        }
    }

    impl<T: ?Sized> RwLock<T> {
        fn addr(&self) -> usize {
            &self.state as *const _ as usize
        }

        fn read_guard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            self.state.set(self.state.get() + 1);
            sim::acquire(self.addr());
            let g = RwLockReadGuard { lock: self, _not_send: PhantomData };
            if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
        }

        fn write_guard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            self.state.set(-1);
            sim::acquire(self.addr());
            // what readers did
            sim::acquire(self.addr() + 1);
            let g = RwLockWriteGuard { lock: self, panicking: ::std::thread::panicking(), _not_send: PhantomData };
            if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
        }

        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            sim::point(Op::RwRead, self.addr());
            while self.state.get() < 0
                || (self.state.get() > 0 && self.waiting_writers.get() > 0 && sim::writer_priority())
            {
                if !sim::block(self.addr(), Op::RwRead) {
                    self.state.set(0);
                    break;
                }
            }
            self.read_guard()
        }

        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            sim::point(Op::RwWrite, self.addr());
            while self.state.get() != 0 {
                self.waiting_writers.set(self.waiting_writers.get() + 1);
                let go = sim::block(self.addr(), Op::RwWrite);
                self.waiting_writers.set(self.waiting_writers.get() - 1);
                if !go {
                    break;
                }
            }
            self.write_guard()
        }

        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            sim::point(Op::RwRead, self.addr());
            if self.state.get() < 0 {
                Err(TryLockError::WouldBlock)
            } else {
                self.read_guard().map_err(TryLockError::Poisoned)
            }
        }

        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            sim::point(Op::RwWrite, self.addr());
            if self.state.get() != 0 {
                Err(TryLockError::WouldBlock)
            } else {
                self.write_guard().map_err(TryLockError::Poisoned)
            }
        }

        pub fn is_poisoned(&self) -> bool {
            self.poisoned.get()
        }

        pub fn clear_poison(&self) {
            self.poisoned.set(false);
        }

        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            let p = self.poisoned.get();
            let v = self.value.get_mut();
            if p { Err(PoisonError::new(v)) } else { Ok(v) }
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            let mut d = f.debug_struct("RwLock");
            if self.state.get() < 0 {
                d.field("data", &format_args!("<locked>"));
            } else {
                let v: &T = unsafe { &*self.value.get() };
                d.field("data", &v);
            }
            d.field("poisoned", &self.poisoned.get());
            d.finish_non_exhaustive()
        }
    }

    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }

    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }

    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
            let lock = s.lock;
            ::std::mem::forget(s);
            sim::release(lock.addr());
            lock.state.set(1);
            sim::wake(lock.addr());
            RwLockReadGuard { lock, _not_send: PhantomData }
        }
    }

    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.lock.value.get() }
        }
    }

    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.lock.value.get() }
        }
    }

    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.lock.value.get() }
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            let addr = self.lock.addr();
            sim::point(Op::Held, addr);
            sim::release(addr + 1);
            let s = self.lock.state.get();
            if s > 0 {
                self.lock.state.set(s - 1);
            }
            sim::wake(addr);
            sim::point(Op::Unlock, addr);
        }
    }

    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if !self.panicking && ::std::thread::panicking() {
                self.lock.poisoned.set(true);
            }
            let addr = self.lock.addr();
            sim::point(Op::Held, addr);
            sim::release(addr);
            self.lock.state.set(0);
            sim::wake(addr);
            sim::point(Op::Unlock, addr);
        }
    }

    // -------------------------------------------------------------- Condvar

    pub struct Condvar {
        generation: Cell<usize>,
        wake_one: Cell<usize>,
    }

    unsafe impl Send for Condvar {}
    unsafe impl Sync for Condvar {}

    impl Condvar {
        pub const fn new() -> Self {
            Self { generation: Cell::new(0), wake_one: Cell::new(0) }
        }

        fn addr(&self) -> usize {
            self as *const _ as usize
        }

        pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let lock = guard.lock;
            let generation = self.generation.get();
            sim::release(lock.addr());
            lock.locked.set(false);
            sim::wake(lock.addr());
            ::std::mem::forget(guard);
            while self.generation.get() == generation {
                if !sim::block(self.addr(), Op::Cond) {
                    break;
                }
            }
            lock.lock()
        }

        pub fn wait_while<'a, T, F>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>>
        where
            F: FnMut(&mut T) -> bool,
        {
            while condition(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }

        /// Wakes everybody: spurious wake-ups are allowed by `Condvar`.
        pub fn notify_one(&self) {
            self.wake_one.set(self.wake_one.get() + 1);
            self.notify_all();
        }

        pub fn notify_all(&self) {
            sim::point(Op::Cond, self.addr());
            self.generation.set(self.generation.get() + 1);
            sim::wake(self.addr());
        }
    }

    impl Default for Condvar {
        fn default() -> Self {
            Condvar::new()
        }
    }

    impl fmt::Debug for Condvar {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Condvar { .. }")
        }
    }

    // -------------------------------------------------------------- atomics

    pub mod atomic {
        pub use ::std::sync::atomic::*;

        use crate::sim::{memory, point, weak, Mem, Op};
        use ::std::fmt;
        use ::std::sync::atomic as real;

        pub fn fence(order: Ordering) {
            point(Op::Fence, 0);
            memory(|| Mem::Fence(order), 0);
        }

        macro_rules! common {
            ($ty:ty, $to:expr, $from:expr) => {
                #[inline]
                fn addr(&self) -> usize {
                    self as *const _ as *const () as usize
                }

                #[inline]
                fn wrote(&self, old: $ty, order: Ordering) {
                    if weak() {
                        let (addr, old, new) = (self.addr(), $to(old), $to(self.0.load(Ordering::SeqCst)));
                        memory(|| Mem::Rmw { addr, old, new, order }, 0);
                    }
                }

                pub fn load(&self, o: Ordering) -> $ty {
                    point(Op::Load, self.addr());
                    let cur = self.0.load(o);
                    if weak() {
                        let (addr, cur) = (self.addr(), $to(cur));
                        return $from(memory(|| Mem::Load { addr, cur, order: o }, cur));
                    }
                    cur
                }

                pub fn store(&self, v: $ty, o: Ordering) {
                    point(Op::Store, self.addr());
                    if weak() {
                        let (addr, old, new) = (self.addr(), $to(self.0.load(Ordering::SeqCst)), $to(v));
                        memory(|| Mem::Store { addr, old, new, order: o }, 0);
                    }
                    self.0.store(v, o);
                    point(Op::AfterWrite, self.addr());
                }

                pub fn swap(&self, v: $ty, o: Ordering) -> $ty {
                    point(Op::Rmw, self.addr());
                    let r = self.0.swap(v, o);
                    self.wrote(r, o);
                    point(Op::AfterWrite, self.addr());
                    r
                }

                pub fn compare_exchange(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                    point(Op::Rmw, self.addr());
                    let r = self.0.compare_exchange(a, b, s, f);
                    match r {
                        Ok(old) => self.wrote(old, s),
                        Err(cur) => self.saw(cur, f),
                    }
                    point(Op::AfterWrite, self.addr());
                    r
                }

                /// A compare-exchange which failed has read the latest value.
                #[inline]
                fn saw(&self, cur: $ty, o: Ordering) {
                    if weak() {
                        let (addr, cur) = (self.addr(), $to(cur));
                        memory(|| Mem::Saw { addr, cur, order: o }, 0);
                    }
                }

                pub fn compare_exchange_weak(&self, a: $ty, b: $ty, s: Ordering, f: Ordering) -> Result<$ty, $ty> {
                    if crate::sim::weak_fail() {
                        let cur = self.load(f);
                        return Err(cur);
                    }
                    self.compare_exchange(a, b, s, f)
                }

                #[allow(deprecated)]
                pub fn compare_and_swap(&self, a: $ty, b: $ty, o: Ordering) -> $ty {
                    point(Op::Rmw, self.addr());
                    let r = self.0.compare_and_swap(a, b, o);
                    if r == a {
                        self.wrote(r, o);
                    } else {
                        self.saw(r, Ordering::SeqCst);
                    }
                    point(Op::AfterWrite, self.addr());
                    r
                }

                /// As in `std`: a load followed by a compare-exchange loop.
                pub fn fetch_update<F>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$ty, $ty>
                where
                    F: FnMut($ty) -> Option<$ty>,
                {
                    let mut prev = self.load(f);
                    while let Some(next) = g(prev) {
                        match self.compare_exchange_weak(prev, next, s, f) {
                            Ok(x) => return Ok(x),
                            Err(x) => prev = x,
                        }
                    }
                    Err(prev)
                }

                pub fn try_update<F>(&self, s: Ordering, f: Ordering, g: F) -> Result<$ty, $ty>
                where
                    F: FnMut($ty) -> Option<$ty>,
                {
                    self.fetch_update(s, f, g)
                }

                pub fn update<F>(&self, s: Ordering, f: Ordering, mut g: F) -> $ty
                where
                    F: FnMut($ty) -> $ty,
                {
                    match self.fetch_update(s, f, |x| Some(g(x))) {
                        Ok(x) => x,
                        Err(x) => x,
                    }
                }
            };
        }

        macro_rules! value {
            ($ty:ty) => {
                pub fn get_mut(&mut self) -> &mut $ty {
                    self.0.get_mut()
                }

                pub fn into_inner(self) -> $ty {
                    self.0.into_inner()
                }
            };
        }

        macro_rules! fetch {
            ($ty:ty, $($name:ident),*) => { $(
                pub fn $name(&self, v: $ty, o: Ordering) -> $ty {
                    point(Op::Rmw, self.addr());
                    let r = self.0.$name(v, o);
                    self.wrote(r, o);
                    point(Op::AfterWrite, self.addr());
                    r
                }
            )* };
        }

        macro_rules! integer {
            ($($name:ident $ty:ty;)*) => { $(
                #[repr(transparent)]
                #[derive(Default)]
                pub struct $name(real::$name);

                impl $name {
                    pub const fn new(v: $ty) -> Self {
                        Self(real::$name::new(v))
                    }
                    common!($ty, |x: $ty| x as u64, |x: u64| x as $ty);
                    value!($ty);
                    fetch!($ty, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
                }

                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }

                impl From<$ty> for $name {
                    fn from(v: $ty) -> Self {
                        Self::new(v)
                    }
                }
            )* };
        }

        integer! {
            AtomicUsize usize;
            AtomicIsize isize;
            AtomicU8 u8;
            AtomicU16 u16;
            AtomicU32 u32;
            AtomicU64 u64;
            AtomicI8 i8;
            AtomicI16 i16;
            AtomicI32 i32;
            AtomicI64 i64;
        }

        #[repr(transparent)]
        #[derive(Default)]
        pub struct AtomicBool(real::AtomicBool);

        impl AtomicBool {
            pub const fn new(v: bool) -> Self {
                Self(real::AtomicBool::new(v))
            }
            common!(bool, |x: bool| x as u64, |x: u64| x != 0);
            value!(bool);
            fetch!(bool, fetch_and, fetch_nand, fetch_or, fetch_xor);

            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }

        impl fmt::Debug for AtomicBool {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }

        impl From<bool> for AtomicBool {
            fn from(v: bool) -> Self {
                Self::new(v)
            }
        }

        #[repr(transparent)]
        pub struct AtomicPtr<T>(real::AtomicPtr<T>);

        impl<T> AtomicPtr<T> {
            pub const fn new(v: *mut T) -> Self {
                Self(real::AtomicPtr::new(v))
            }
            common!(*mut T, |x: *mut T| x as usize as u64, |x: u64| x as usize as *mut T);
            value!(*mut T);
        }

        impl<T> Default for AtomicPtr<T> {
            fn default() -> Self {
                Self::new(::std::ptr::null_mut())
            }
        }

        impl<T> fmt::Debug for AtomicPtr<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }

        impl<T> From<*mut T> for AtomicPtr<T> {
            fn from(v: *mut T) -> Self {
                Self::new(v)
            }
        }
    }
}

// -------------------------------------------------------------------- Arc

#[cfg(sim_arc)]
mod arc {
    use crate::sim::{self, point, Op};
    use ::std::borrow::Borrow;
    use ::std::cmp::Ordering;
    use ::std::fmt;
    use ::std::hash::{Hash, Hasher};
    use ::std::marker::Unsize;
    use ::std::mem::ManuallyDrop;
    use ::std::ops::{CoerceUnsized, Deref, DispatchFromDyn};
    use ::std::pin::Pin;
    use ::std::sync as real;

    /// Whoever drops one of these, or looks at its counts, may be interrupted right there.
    #[repr(transparent)]
    pub struct Arc<T: ?Sized>(real::Arc<T>);

    #[repr(transparent)]
    pub struct Weak<T: ?Sized>(real::Weak<T>);

    impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
    impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}
    impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}

    fn at<T: ?Sized>(p: *const T) {
        point(Op::Arc, p as *const () as usize);
    }

    /// The key of the happens-before edges through the reference count.
    fn count<T: ?Sized>(p: *const T) -> usize {
        (p as *const () as usize).wrapping_neg()
    }

    impl<T> Arc<T> {
        pub fn new(value: T) -> Self {
            Arc(real::Arc::new(value))
        }

        pub fn pin(value: T) -> Pin<Arc<T>> {
            unsafe { Pin::new_unchecked(Self::new(value)) }
        }

        pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
            Arc(real::Arc::new_cyclic(|w| {
                // `Weak` is transparent
                let w: &Weak<T> = unsafe { &*(w as *const real::Weak<T> as *const Weak<T>) };
                f(w)
            }))
        }

        pub fn try_unwrap(this: Self) -> Result<T, Self> {
            at(Arc::as_ptr(&this));
            real::Arc::try_unwrap(this.owner()).map_err(Arc)
        }

        pub fn into_inner(this: Self) -> Option<T> {
            at(Arc::as_ptr(&this));
            real::Arc::into_inner(this.owner())
        }
    }

    impl<T: Clone> Arc<T> {
        pub fn make_mut(this: &mut Self) -> &mut T {
            at(Arc::as_ptr(this));
            sim::acquire(count(Arc::as_ptr(this)));
            real::Arc::make_mut(&mut this.0)
        }

        pub fn unwrap_or_clone(this: Self) -> T {
            at(Arc::as_ptr(&this));
            real::Arc::unwrap_or_clone(this.owner())
        }
    }

    impl<T: ?Sized> Arc<T> {
        /// Gives up this reference, which may be the last one.
        fn owner(self) -> real::Arc<T> {
            self.leave();
            self.into_real()
        }

        #[inline]
        fn leave(&self) {
            if sim::weak() {
                let key = count(Arc::as_ptr(self));
                sim::release(key);
                if real::Arc::strong_count(&self.0) == 1 {
                    sim::acquire(key);
                }
            }
        }

        fn into_real(self) -> real::Arc<T> {
            let this = ManuallyDrop::new(self);
            unsafe { ::std::ptr::read(&this.0) }
        }

        pub fn into_raw(this: Self) -> *const T {
            real::Arc::into_raw(this.into_real())
        }

        pub unsafe fn from_raw(ptr: *const T) -> Self {
            Arc(unsafe { real::Arc::from_raw(ptr) })
        }

        pub fn as_ptr(this: &Self) -> *const T {
            real::Arc::as_ptr(&this.0)
        }

        pub fn ptr_eq(this: &Self, other: &Self) -> bool {
            real::Arc::ptr_eq(&this.0, &other.0)
        }

        pub fn downgrade(this: &Self) -> Weak<T> {
            Weak(real::Arc::downgrade(&this.0))
        }

        pub fn strong_count(this: &Self) -> usize {
            at(Arc::as_ptr(this));
            let n = real::Arc::strong_count(&this.0);
            at(Arc::as_ptr(this));
            n
        }

        pub fn weak_count(this: &Self) -> usize {
            at(Arc::as_ptr(this));
            let n = real::Arc::weak_count(&this.0);
            at(Arc::as_ptr(this));
            n
        }

        pub fn get_mut(this: &mut Self) -> Option<&mut T> {
            at(Arc::as_ptr(this));
            sim::acquire(count(Arc::as_ptr(this)));
            real::Arc::get_mut(&mut this.0)
        }
    }

    impl<T: ?Sized> Drop for Arc<T> {
        fn drop(&mut self) {
            at(Arc::as_ptr(self));
            self.leave();
        }
    }

    impl<T: ?Sized> Clone for Arc<T> {
        fn clone(&self) -> Self {
            Arc(self.0.clone())
        }
    }

    impl<T: ?Sized> Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }

    impl<T: ?Sized> AsRef<T> for Arc<T> {
        fn as_ref(&self) -> &T {
            &self.0
        }
    }

    impl<T: ?Sized> Borrow<T> for Arc<T> {
        fn borrow(&self) -> &T {
            &self.0
        }
    }

    impl<T: ?Sized> Unpin for Arc<T> {}

    impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(&**self, f)
        }
    }

    impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Display::fmt(&**self, f)
        }
    }

    impl<T: ?Sized> fmt::Pointer for Arc<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Pointer::fmt(&self.0, f)
        }
    }

    impl<T: Default> Default for Arc<T> {
        fn default() -> Self {
            Arc::new(T::default())
        }
    }

    impl<T> From<T> for Arc<T> {
        fn from(t: T) -> Self {
            Arc::new(t)
        }
    }

    impl<T: ?Sized> From<Box<T>> for Arc<T> {
        fn from(t: Box<T>) -> Self {
            Arc(real::Arc::from(t))
        }
    }

    impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
        fn eq(&self, other: &Self) -> bool {
            **self == **other
        }
    }

    impl<T: ?Sized + Eq> Eq for Arc<T> {}

    impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
        fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
            (**self).partial_cmp(&**other)
        }
    }

    impl<T: ?Sized + Ord> Ord for Arc<T> {
        fn cmp(&self, other: &Self) -> Ordering {
            (**self).cmp(&**other)
        }
    }

    impl<T: ?Sized + Hash> Hash for Arc<T> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            (**self).hash(h)
        }
    }

    impl<T> Weak<T> {
        pub const fn new() -> Self {
            Weak(real::Weak::new())
        }
    }

    impl<T: ?Sized> Weak<T> {
        pub fn upgrade(&self) -> Option<Arc<T>> {
            point(Op::Arc, self.0.as_ptr() as *const () as usize);
            let r = self.0.upgrade().map(Arc);
            if let Some(r) = &r {
                sim::acquire(count(Arc::as_ptr(r)));
            }
            r
        }

        pub fn strong_count(&self) -> usize {
            point(Op::Arc, self.0.as_ptr() as *const () as usize);
            let n = self.0.strong_count();
            point(Op::Arc, self.0.as_ptr() as *const () as usize);
            n
        }

        pub fn weak_count(&self) -> usize {
            self.0.weak_count()
        }

        pub fn ptr_eq(&self, other: &Self) -> bool {
            self.0.ptr_eq(&other.0)
        }

        pub fn as_ptr(&self) -> *const T {
            self.0.as_ptr()
        }
    }

    impl<T: ?Sized> Clone for Weak<T> {
        fn clone(&self) -> Self {
            Weak(self.0.clone())
        }
    }

    impl<T> Default for Weak<T> {
        fn default() -> Self {
            Weak::new()
        }
    }

    impl<T: ?Sized> fmt::Debug for Weak<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("(Weak)")
        }
    }
}

/// What `futures_util::task` offers for wakers made of an `Arc`, for the simulated one.
#[cfg(sim_arc)]
pub mod sim_task {
    use crate::sync::Arc;
    use ::std::marker::PhantomData;
    use ::std::mem::ManuallyDrop;
    use ::std::ops::Deref;
    use ::std::task::{RawWaker, RawWakerVTable, Waker};

    pub trait ArcWake: Send + Sync {
        fn wake_by_ref(arc_self: &Arc<Self>);
    }

    struct Table<W>(PhantomData<W>);

    impl<W: ArcWake + 'static> Table<W> {
        const TABLE: RawWakerVTable = RawWakerVTable::new(Self::clone, Self::wake, Self::wake_by_ref, Self::drop);

        unsafe fn clone(p: *const ()) -> RawWaker {
            let a = ManuallyDrop::new(unsafe { Arc::from_raw(p as *const W) });
            let b: ManuallyDrop<Arc<W>> = a.clone();
            let _ = b;
            RawWaker::new(p, &Self::TABLE)
        }

        unsafe fn wake(p: *const ()) {
            let a: Arc<W> = unsafe { Arc::from_raw(p as *const W) };
            ArcWake::wake_by_ref(&a);
        }

        unsafe fn wake_by_ref(p: *const ()) {
            let a = ManuallyDrop::new(unsafe { Arc::from_raw(p as *const W) });
            ArcWake::wake_by_ref(&*a);
        }

        unsafe fn drop(p: *const ()) {
            drop(unsafe { Arc::from_raw(p as *const W) });
        }
    }

    pub fn waker<W: ArcWake + 'static>(a: Arc<W>) -> Waker {
        let p = Arc::into_raw(a) as *const ();
        unsafe { Waker::from_raw(RawWaker::new(p, &Table::<W>::TABLE)) }
    }

    pub struct WakerRef<'a> {
        waker: ManuallyDrop<Waker>,
        _of: PhantomData<&'a ()>,
    }

    impl Deref for WakerRef<'_> {
        type Target = Waker;
        fn deref(&self) -> &Waker {
            &self.waker
        }
    }

    pub fn waker_ref<W: ArcWake + 'static>(a: &Arc<W>) -> WakerRef<'_> {
        let p = Arc::as_ptr(a) as *const ();
        let waker = unsafe { Waker::from_raw(RawWaker::new(p, &Table::<W>::TABLE)) };
        WakerRef { waker: ManuallyDrop::new(waker), _of: PhantomData }
    }
}
