From c7bd281e5c29c0fe47eb9cd3cce9f1a6ca23d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 01/15] sim: guarded hook (--cfg futures_signals_sim) which
 routes std through a simulated std

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3a64366..278577f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,12 @@
 #![warn(unreachable_pub)]
 // missing_docs
 #![deny(warnings, missing_debug_implementations, macro_use_extern_crate)]
+#![allow(unexpected_cfgs)]
+
+// Deterministic simulation: with `--cfg futures_signals_sim` every `std::` path of this crate
+// goes to a crate which re-exports `std` with simulated locks, atomics and threads.
+#[cfg(futures_signals_sim)]
+extern crate futures_signals_sim_std as std;
 
 ///! It is *very highly* recommended to read the tutorial.
 ///! It explains all of the concepts you will need to use Signals effectively.
-- 
2.43.0


From b878375ca7a2a9a5e3bbe794912109818d6d5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 02/15] fix: Mutable signals could miss a change, the final
 value, or the end when it happened during a poll

---
 src/signal/mutable.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index a05db35..afe919d 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -100,20 +100,30 @@ impl<A> MutableSignalState<A> {
     }
 
     fn poll_change<B, F>(&self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A) -> B {
-        if self.waker.is_changed() {
-            let value = {
-                let lock = self.state.lock.read().unwrap();
-                f(&lock.value)
-            };
-            Poll::Ready(Some(value))
+        if !self.waker.is_changed() {
+            // The waker must be registered *before* the final checks, otherwise a
+            // change (or drop) which happens in between would never wake the task.
+            self.waker.set_waker(cx);
 
-        } else if self.state.senders.load(Ordering::SeqCst) == 0 {
-            Poll::Ready(None)
+            // This must be checked *before* is_changed, otherwise the final value
+            // would be lost if it is set right before the last Mutable is dropped.
+            let is_done = self.state.senders.load(Ordering::SeqCst) == 0;
 
-        } else {
-            self.waker.set_waker(cx);
-            Poll::Pending
+            if !self.waker.is_changed() {
+                return if is_done {
+                    Poll::Ready(None)
+
+                } else {
+                    Poll::Pending
+                };
+            }
         }
+
+        let value = {
+            let lock = self.state.lock.read().unwrap();
+            f(&lock.value)
+        };
+        Poll::Ready(Some(value))
     }
 }
 
-- 
2.43.0


From ce473be8550e409ebefca5ee1c95aa377c55c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 03/15] fix: Mutable::swap could dead lock

---
 src/signal/mutable.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/signal/mutable.rs b/src/signal/mutable.rs
index afe919d..5573934 100644
--- a/src/signal/mutable.rs
+++ b/src/signal/mutable.rs
@@ -287,9 +287,26 @@ impl<A> Mutable<A> {
     }
 
     pub fn swap(&self, other: &Mutable<A>) {
-        // TODO can this dead lock ?
-        let mut state1 = self.state().lock.write().unwrap();
-        let mut state2 = other.state().lock.write().unwrap();
+        let ptr1 = Arc::as_ptr(self.state());
+        let ptr2 = Arc::as_ptr(other.state());
+
+        // Both are the same Mutable, so there is nothing to swap
+        if ptr1 == ptr2 {
+            return;
+        }
+
+        // The locks are always taken in the same order, otherwise
+        // `a.swap(&b)` and `b.swap(&a)` could dead lock
+        let (mut state1, mut state2) = if ptr1 < ptr2 {
+            let state1 = self.state().lock.write().unwrap();
+            let state2 = other.state().lock.write().unwrap();
+            (state1, state2)
+
+        } else {
+            let state2 = other.state().lock.write().unwrap();
+            let state1 = self.state().lock.write().unwrap();
+            (state1, state2)
+        };
 
         std::mem::swap(&mut state1.value, &mut state2.value);
 
-- 
2.43.0


From d45b0697fd9c622633cbc46e687a2179d3d6d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 04/15] fix: channel could be reopened (or never end) when
 close raced with clone or drop of another Sender

---
 src/signal/channel.rs | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index cb8d17d..863495d 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -22,20 +22,37 @@ impl<A> Inner<A> {
         self.senders.load(Ordering::Acquire) != 0
     }
 
+    // Once it reaches 0 the channel is closed, and it must stay closed.
+    #[inline]
+    fn update_senders<F>(&self, f: F) -> Option<usize> where F: Fn(usize) -> usize {
+        let mut old = self.senders.load(Ordering::Acquire);
+
+        while old != 0 {
+            match self.senders.compare_exchange_weak(old, f(old), Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => return Some(old),
+                Err(current) => old = current,
+            }
+        }
+
+        None
+    }
+
+    /// Does nothing if the channel was closed
     #[inline]
     fn add_sender(&self) {
-        self.senders.fetch_add(1, Ordering::AcqRel);
+        self.update_senders(|senders| senders + 1);
     }
 
     /// Returns `true` if it no longer has any senders
     #[inline]
     fn remove_sender(&self) -> bool {
-        self.senders.fetch_sub(1, Ordering::AcqRel) == 1
+        self.update_senders(|senders| senders - 1) == Some(1)
     }
 
+    /// Returns `true` if it had any senders
     #[inline]
-    fn remove_all_senders(&self) {
-        self.senders.store(0, Ordering::Release);
+    fn remove_all_senders(&self) -> bool {
+        self.update_senders(|_| 0).is_some()
     }
 
     fn notify(&self) {
@@ -70,8 +87,7 @@ impl<A> Sender<A> {
 
     pub fn close(&self) {
         if let Some(inner) = self.inner.upgrade() {
-            if inner.has_senders() {
-                inner.remove_all_senders();
+            if inner.remove_all_senders() {
                 inner.notify();
             }
         }
@@ -81,10 +97,7 @@ impl<A> Sender<A> {
 impl<A> Clone for Sender<A> {
     fn clone(&self) -> Self {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                inner.add_sender();
-            }
+            inner.add_sender();
         }
 
         Self {
@@ -96,12 +109,9 @@ impl<A> Clone for Sender<A> {
 impl<A> Drop for Sender<A> {
     fn drop(&mut self) {
         if let Some(inner) = self.inner.upgrade() {
-            // This might be `false` if the `close` method was called
-            if inner.has_senders() {
-                // If there aren't any more senders...
-                if inner.remove_sender() {
-                    inner.notify();
-                }
+            // If there aren't any more senders...
+            if inner.remove_sender() {
+                inner.notify();
             }
         }
     }
-- 
2.43.0


From 9891a9b847e77b31bea64ddf43da889aea46c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 05/15] fix: channel Receiver could miss a value or the end
 when it happened during a poll

---
 src/signal/channel.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/signal/channel.rs b/src/signal/channel.rs
index 863495d..7c1004d 100644
--- a/src/signal/channel.rs
+++ b/src/signal/channel.rs
@@ -133,12 +133,17 @@ impl<A> Signal for Receiver<A> {
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
         match self.inner.value.take() {
             None => {
-                if self.inner.has_senders() {
-                    self.inner.waker.store(Some(cx.waker().clone()));
-                    Poll::Pending
+                // The waker must be registered *before* the final checks, otherwise a
+                // send (or close) which happens in between would never wake the task.
+                self.inner.waker.store(Some(cx.waker().clone()));
 
-                } else {
-                    Poll::Ready(None)
+                // This must be checked *before* taking the value, otherwise the final value
+                // would be lost if it is sent right before the last Sender is dropped.
+                let has_senders = self.inner.has_senders();
+
+                match self.inner.value.take() {
+                    None if has_senders => Poll::Pending,
+                    a => Poll::Ready(a),
                 }
             },
 
-- 
2.43.0


From 9fa6790b651a6035d72fd6cd9800ef795820a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 06/15] fix: Broadcaster signals could miss a value or the end
 when it happened during a poll

---
 src/signal/broadcaster.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 08ac4a8..697e5b2 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -42,6 +42,10 @@ impl BroadcasterNotifier {
         });
     }
 
+    fn has_changed(&self) -> bool {
+        self.is_changed.load(Ordering::SeqCst)
+    }
+
     fn is_changed(&self) -> bool {
         self.is_changed.swap(false, Ordering::SeqCst)
     }
@@ -126,18 +130,23 @@ impl<A> BroadcasterSharedState<A> where A: Signal {
     }
 
     fn poll<B, F>(&self, f: F) -> B where F: FnOnce(&BroadcasterInnerState<A>) -> B {
-        if self.notifier.is_changed() {
-            let mut lock = self.inner.write().unwrap();
-
-            lock.poll_signal();
+        {
+            let lock = self.inner.read().unwrap();
 
-            f(&lock)
+            if !self.notifier.has_changed() {
+                return f(&lock);
+            }
+        }
 
-        } else {
-            let lock = self.inner.read().unwrap();
+        let mut lock = self.inner.write().unwrap();
 
-            f(&lock)
+        // This must be reset while holding the lock, otherwise other signals could
+        // see that it is unchanged, before the input Signal has been polled.
+        if self.notifier.is_changed() {
+            lock.poll_signal();
         }
+
+        f(&lock)
     }
 }
 
@@ -180,6 +189,10 @@ impl<A> BroadcasterState<A> where A: Signal {
     fn poll_change<B, F>(&mut self, cx: &mut Context, f: F) -> Poll<Option<B>> where F: FnOnce(&A::Item) -> B {
         let BroadcasterState { epoch, waker, shared_state } = self;
 
+        // This must be set before polling, otherwise a change which happens
+        // during the polling would be lost.
+        waker.set_waker(cx);
+
         shared_state.poll(|state| {
             // Value hasn't changed
             if state.epoch == *epoch {
@@ -187,7 +200,6 @@ impl<A> BroadcasterState<A> where A: Signal {
                     Poll::Ready(None)
 
                 } else {
-                    waker.set_waker(cx);
                     Poll::Pending
                 }
 
-- 
2.43.0


From 8e2708a909f9500194206352603f4388c9e68340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 07/15] fix: CancelableFuture could miss a cancel which
 happened during a poll

---
 src/future.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 6cbc88a..7622f4b 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -58,24 +58,27 @@ impl<A, B> Future for CancelableFuture<A, B>
     fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
         let CancelableFutureProj { state, mut future, when_cancelled } = self.project();
 
-        // TODO is this correct ?
-        if state.is_cancelled.load(Ordering::SeqCst) {
-            // This is necessary in order to prevent the future from calling `waker.wake()` later
-            future.set(None);
-            let callback = when_cancelled.take().unwrap();
-            // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
-            Poll::Ready(callback())
-
-        } else {
-            match future.as_pin_mut().unwrap().poll(cx) {
+        if !state.is_cancelled.load(Ordering::SeqCst) {
+            match future.as_mut().as_pin_mut().unwrap().poll(cx) {
                 Poll::Pending => {
-                    // TODO is this correct ?
-                    *state.waker.lock().unwrap() = Some(cx.waker().clone());
-                    Poll::Pending
+                    let mut lock = state.waker.lock().unwrap();
+
+                    // This must be checked while holding the lock, otherwise it would
+                    // never be woken up if it was cancelled during the poll.
+                    if !state.is_cancelled.load(Ordering::SeqCst) {
+                        *lock = Some(cx.waker().clone());
+                        return Poll::Pending;
+                    }
                 },
-                a => a,
+                a => return a,
             }
         }
+
+        // This is necessary in order to prevent the future from calling `waker.wake()` later
+        future.set(None);
+        let callback = when_cancelled.take().unwrap();
+        // TODO figure out how to call the callback immediately when discard is called, e.g. using two Arc<Mutex<>>
+        Poll::Ready(callback())
     }
 }
 
-- 
2.43.0


From 267b1fa22e6c6f598bc30f4a186dfc95c12c66b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 08/15] fix: filter, filter_map and filter_signal_cloned
 emitted a wrong old_index for a Move to the left

---
 src/signal_vec.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 4834620..b177de7 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1768,11 +1768,14 @@ impl<A, B, F> SignalVec for FilterSignalCloned<A, B, F>
                             let state = signals.remove(old_index);
                             let exists = state.exists;
 
+                            // This must happen before the insert, because it's the position in the old list
+                            let filtered_index = Self::find_index(signals, old_index);
+
                             signals.insert(new_index, state);
 
                             if exists {
                                 VecDiff::Move {
-                                    old_index: Self::find_index(signals, old_index),
+                                    old_index: filtered_index,
                                     new_index: Self::find_index(signals, new_index),
                                 }
 
@@ -2067,10 +2070,13 @@ fn poll_filter_map<A, S, F>(indexes: &mut Vec<bool>, mut signal: Pin<&mut S>, cx
                 // TODO unit tests for this
                 VecDiff::Move { old_index, new_index } => {
                     if indexes.remove(old_index) {
+                        // This must happen before the insert, because it's the position in the old list
+                        let filtered_index = find_index(indexes, old_index);
+
                         indexes.insert(new_index, true);
 
                         Poll::Ready(Some(VecDiff::Move {
-                            old_index: find_index(indexes, old_index),
+                            old_index: filtered_index,
                             new_index: find_index(indexes, new_index),
                         }))
 
-- 
2.43.0


From 29fcd6345f852a3e28d6d2c3e1dece2cf79f74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 09/15] fix: chain could miss changes or the end after a change
 which has no effect

---
 src/signal_vec.rs | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index b177de7..40f8818 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -790,10 +790,11 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_left(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    // Returns Poll::Pending if there is nothing left to process right now
+    fn process_left(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         match self.left.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx)) {
             Some(Poll::Ready(Some(change))) => {
-                match change {
+                Poll::Ready(match change {
                     VecDiff::Replace { values } => {
                         self.process_replace(values, cx)
                     },
@@ -835,14 +836,14 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
                     VecDiff::Clear {} => {
                         self.process_clear(cx)
                     },
-                }
+                })
             },
             Some(Poll::Ready(None)) => {
                 self.left.set(None);
-                None
+                Poll::Pending
             },
-            Some(Poll::Pending) => None,
-            None => None,
+            Some(Poll::Pending) => Poll::Pending,
+            None => Poll::Pending,
         }
     }
 
@@ -927,9 +928,17 @@ impl<'a, A, B> ChainProj<'a, A, B> where A: SignalVec, B: SignalVec<Item = A::It
         }
     }
 
-    fn process_right(&mut self, cx: &mut Context) -> Option<VecDiff<A::Item>> {
+    // Returns Poll::Pending if there is nothing left to process right now
+    fn process_right(&mut self, cx: &mut Context) -> Poll<Option<VecDiff<A::Item>>> {
         let change = self.right.as_mut().as_pin_mut().map(|s| s.poll_vec_change(cx));
-        self.process_right_change(change)
+
+        if let Some(Poll::Ready(Some(_))) = change {
+            Poll::Ready(self.process_right_change(change))
+
+        } else {
+            self.process_right_change(change);
+            Poll::Pending
+        }
     }
 }
 
@@ -947,18 +956,18 @@ impl<A, B> SignalVec for Chain<A, B>
                 return Poll::Ready(Some(change));
             }
 
-            if let Some(change) = this.process_left(cx) {
-                return Poll::Ready(Some(change));
-
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            match this.process_left(cx) {
+                Poll::Ready(Some(change)) => return Poll::Ready(Some(change)),
+                // The change might not have produced any output, so it has to poll again
+                Poll::Ready(None) => continue,
+                Poll::Pending => {},
             }
 
-            if let Some(change) = this.process_right(cx) {
-                return Poll::Ready(Some(change));
-
-            } else if let Some(change) = this.pending.pop_front() {
-                return Poll::Ready(Some(change));
+            match this.process_right(cx) {
+                Poll::Ready(Some(change)) => return Poll::Ready(Some(change)),
+                // The change might not have produced any output, so it has to poll again
+                Poll::Ready(None) => continue,
+                Poll::Pending => {},
             }
 
             if this.left.is_none() && this.right.is_none() {
-- 
2.43.0


From 8935909593fbb92598c55a2813e72b354e61bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 10/15] fix: is_empty could miss the end

---
 src/signal_vec.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 40f8818..345646b 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1899,16 +1899,20 @@ impl<A> Signal for IsEmpty<A> where A: SignalVec {
     type Item = bool;
 
     fn poll_change(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
-        let IsEmptyProj { len, old } = self.project();
+        let IsEmptyProj { mut len, old } = self.project();
 
-        match len.poll_change(cx) {
-            Poll::Ready(Some(len)) => {
-                let new = Some(len == 0);
+        match len.as_mut().poll_change(cx) {
+            Poll::Ready(Some(new_len)) => {
+                let new = Some(new_len == 0);
 
                 if *old != new {
                     *old = new;
                     Poll::Ready(new)
 
+                // The SignalVec has already ended, so nothing will wake up this Signal
+                } else if len.signal.is_none() {
+                    Poll::Ready(None)
+
                 } else {
                     Poll::Pending
                 }
-- 
2.43.0


From 910258a873e39c681ba4015c56ef8ffbdd1c446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 11/15] fix: flatten kept the values of inner SignalVecs which
 were removed, updated, or moved

---
 src/signal_vec.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 345646b..7581ef8 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -1014,6 +1014,28 @@ impl<A> FlattenState<A> where A: SignalVec {
         }
     }
 
+    // The position of the first value of the inner SignalVec
+    fn start(inner: &[Self], index: usize) -> usize {
+        inner[..index].iter().map(|state| state.len).sum()
+    }
+
+    fn remove_values(&self, start: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        for index in (0..self.len).rev() {
+            pending.push(VecDiff::RemoveAt { index: start + index });
+        }
+    }
+
+    fn move_values(&self, old_start: usize, new_start: usize, pending: &mut PendingBuilder<VecDiff<A::Item>>) {
+        for index in 0..self.len {
+            if old_start < new_start {
+                pending.push(VecDiff::Move { old_index: old_start, new_index: new_start + self.len - 1 });
+
+            } else if new_start < old_start {
+                pending.push(VecDiff::Move { old_index: old_start + index, new_index: new_start + index });
+            }
+        }
+    }
+
     fn poll(&mut self, cx: &mut Context) -> Option<Poll<Option<VecDiff<A::Item>>>> {
         self.signal_vec.as_mut().map(|s| s.poll_vec_change_unpin(cx))
     }
@@ -1154,20 +1176,28 @@ impl<A> SignalVec for Flatten<A>
                             this.inner.insert(index, FlattenState::new(value));
                         },
                         VecDiff::UpdateAt { index, value } => {
+                            let start = FlattenState::start(this.inner, index);
+                            this.inner[index].remove_values(start, &mut pending);
                             this.inner[index] = FlattenState::new(value);
                         },
                         VecDiff::RemoveAt { index } => {
-                            this.inner.remove(index);
+                            let start = FlattenState::start(this.inner, index);
+                            this.inner.remove(index).remove_values(start, &mut pending);
                         },
                         VecDiff::Move { old_index, new_index } => {
+                            let old_start = FlattenState::start(this.inner, old_index);
                             let value = this.inner.remove(old_index);
+                            let new_start = FlattenState::start(this.inner, new_index);
+                            value.move_values(old_start, new_start, &mut pending);
                             this.inner.insert(new_index, value);
                         },
                         VecDiff::Push { value } => {
                             this.inner.push(FlattenState::new(value));
                         },
                         VecDiff::Pop {} => {
-                            this.inner.pop().unwrap();
+                            let state = this.inner.pop().unwrap();
+                            let start = FlattenState::start(this.inner, this.inner.len());
+                            state.remove_values(start, &mut pending);
                         },
                         VecDiff::Clear {} => {
                             this.inner.clear();
-- 
2.43.0


From cca5060e3e304278c2b15e4a45faf06df0165878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 12/15] fix: switch_signal_vec kept stale values when it ended
 with an empty SignalVec

---
 src/signal/signal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signal/signal.rs b/src/signal/signal.rs
index a86328e..fbbd237 100644
--- a/src/signal/signal.rs
+++ b/src/signal/signal.rs
@@ -1728,7 +1728,8 @@ impl<A, B, C> SignalVec for SwitchSignalVec<A, B, C>
                 Some(Poll::Ready(None)) => {
                     signal_vec.set(None);
 
-                    if signal_done {
+                    // The values of the old SignalVec must be removed before ending
+                    if signal_done && *len == 0 {
                         Poll::Ready(None)
 
                     } else {
-- 
2.43.0


From 2d641c5bd1fb7f748bb72adbcafda1588fb8cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 13/15] fix: key_cloned polled its input again after it had
 ended

---
 src/signal_map.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/signal_map.rs b/src/signal_map.rs
index edc48d7..a650061 100644
--- a/src/signal_map.rs
+++ b/src/signal_map.rs
@@ -128,7 +128,7 @@ pub trait SignalMapExt: SignalMap {
               Self::Value: Clone,
               Self: Sized {
         MapWatchKeySignal {
-            signal_map: self,
+            signal_map: Some(self),
             watch_key: key,
             first: true,
         }
@@ -395,7 +395,7 @@ impl<A, B, F> SignalMap for MapValueSignal<A, B, F>
 #[derive(Debug)]
 pub struct MapWatchKeySignal<M> where M: SignalMap {
     #[pin]
-    signal_map: M,
+    signal_map: Option<M>,
     watch_key: M::Key,
     first: bool,
 }
@@ -412,8 +412,8 @@ impl<M> Signal for MapWatchKeySignal<M>
         let mut changed: Option<Option<M::Value>> = None;
 
         let is_done = loop {
-            break match signal_map.as_mut().poll_map_change(cx) {
-                Poll::Ready(some) => match some {
+            break match signal_map.as_mut().as_pin_mut().map(|signal_map| signal_map.poll_map_change(cx)) {
+                Some(Poll::Ready(some)) => match some {
                     Some(MapDiff::Replace { entries }) => {
                         changed = Some(
                             entries
@@ -440,12 +440,16 @@ impl<M> Signal for MapWatchKeySignal<M>
                         continue;
                     },
                     None => {
+                        signal_map.set(None);
                         true
                     },
                 },
-                Poll::Pending => {
+                Some(Poll::Pending) => {
                     false
                 },
+                None => {
+                    true
+                },
             }
         };
 
-- 
2.43.0


From 7b84442e1ede3a3c0e99ca2a49664ef51f62ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 14/15] fix: move_from_to and swap lost a value when the new
 index was out of bounds

---
 src/signal_vec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/signal_vec.rs b/src/signal_vec.rs
index 7581ef8..370a970 100644
--- a/src/signal_vec.rs
+++ b/src/signal_vec.rs
@@ -2947,6 +2947,13 @@ mod mutable_vec {
 
         fn move_from_to(&mut self, old_index: usize, new_index: usize) {
             if old_index != new_index {
+                let len = self.values.len();
+
+                // This must be checked before the value is removed, otherwise the value would be lost
+                if new_index >= len {
+                    panic!("move index (is {}) should be < len (is {})", new_index, len);
+                }
+
                 let value = self.values.remove(old_index);
                 self.values.insert(new_index, value);
                 self.notify(|| VecDiff::Move { old_index, new_index });
-- 
2.43.0


From 0beef7093c172d6fcfdc69eccd5f69c67189847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 15/15] sim: guarded hook (--cfg futures_signals_sim_arc) for
 simulated reference counts

---
 src/signal/broadcaster.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/signal/broadcaster.rs b/src/signal/broadcaster.rs
index 697e5b2..0d2f071 100644
--- a/src/signal/broadcaster.rs
+++ b/src/signal/broadcaster.rs
@@ -5,7 +5,11 @@ use std::fmt::Debug;
 use std::sync::{Arc, Mutex, RwLock, Weak};
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::task::{Poll, Waker, Context};
+#[cfg(not(futures_signals_sim_arc))]
 use futures_util::task::{self, ArcWake};
+// The reference counts of Arc are simulated too, so it needs its own version of ArcWake
+#[cfg(futures_signals_sim_arc)]
+use std::sim_task::{self as task, ArcWake};
 use crate::signal::ChangedWaker;
 
 
-- 
2.43.0

