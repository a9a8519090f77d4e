From 2a957f5ab21a129d5c6186097e5edb96c891c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 1/9] fix: make Timer::set_at and Timer::set_after fire only
 once

A timer that used to be an interval kept its period after set_at() or
set_after(), so it went on firing periodically although both are documented
to emit a single event.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f771098..4ed45f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,8 +369,9 @@ impl Timer {
     pub fn set_at(&mut self, instant: Instant) {
         self.clear();
 
-        // Update the timeout.
+        // Update the timeout and make sure that the timer only fires once.
         self.when = Some(instant);
+        self.period = Duration::MAX;
 
         if let Some((id, waker)) = self.id_and_waker.as_mut() {
             // Re-register the timer with the new timeout.
-- 
2.43.0


From 2f456999e60e318ad67eb9e5374ff05147b9c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 2/9] fix: remember the waker of a timer polled without a
 deadline

Timer::poll_next() ignored the waker if the timer had no deadline, so a task
that polled such a timer was never woken after set_after() and friends gave it
one (or a task that had polled it earlier was woken instead).
---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4ed45f4..60e74bf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -142,7 +142,7 @@ pub use reactor::{Readable, ReadableOwned, Writable, WritableOwned};
 pub struct Timer {
     /// This timer's ID and last waker that polled it.
     ///
-    /// When this field is set to `None`, this timer is not registered in the reactor.
+    /// When this field or `when` is set to `None`, this timer is not registered in the reactor.
     id_and_waker: Option<(usize, Waker)>,
 
     /// The next instant at which this timer fires.
@@ -514,6 +514,15 @@ impl Stream for Timer {
                     Some(_) => {}
                 }
             }
+        } else {
+            match &this.id_and_waker {
+                Some((_, w)) if w.will_wake(cx.waker()) => {}
+                _ => {
+                    // There is nothing to register in the reactor yet, but remember the waker so
+                    // that the task gets woken if the timer is set later.
+                    this.id_and_waker = Some((0, cx.waker().clone()));
+                }
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From 52ba7788c1e969668676b3a632e3871cdad1ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 3/9] fix: don't lose wakeups when re-registering a source
 fails in react()

An error from re-registering one source returned early from react(), which
dropped the wakers of timers and other sources collected so far, skipped the
remaining events and left the waiters of that source without any registered
interest. Remember the error, wake the waiters of the failing source and go on.
---
 src/reactor.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 474c62a..8e9ba43 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -308,6 +308,8 @@ impl ReactorLock<'_> {
 
             // At least one I/O event occurred.
             Ok(_) => {
+                let mut res = Ok(());
+
                 // Iterate over sources in the event list.
                 let sources = self.reactor.sources.lock().unwrap();
 
@@ -337,12 +339,21 @@ impl ReactorLock<'_> {
                             };
 
                             // Register interest in this event.
-                            source.registration.modify(&self.reactor.poller, event)?;
+                            if let Err(err) =
+                                source.registration.modify(&self.reactor.poller, event)
+                            {
+                                // The remaining tasks can't be notified about this event anymore,
+                                // so wake them now. They will run into this error on their own.
+                                for dir in [WRITE, READ] {
+                                    state[dir].drain_into(&mut wakers);
+                                }
+                                res = Err(err);
+                            }
                         }
                     }
                 }
 
-                Ok(())
+                res
             }
 
             // The syscall was interrupted.
-- 
2.43.0


From 47cb7e3ab60ca011ef4069cedb0c8a2debebb0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 4/9] fix: don't leave a waker behind when registering interest
 fails

If modifying the registration failed, the waker of the failed operation stayed
in the source. Later waiters for the same direction then believed that the
interest was already registered and were never woken.
---
 src/reactor.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 8e9ba43..14174b4 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -482,7 +482,12 @@ impl Source {
             };
 
             // Register interest in it.
-            self.registration.modify(&Reactor::get().poller, event)?;
+            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
+                // Nothing will wake this waker, so don't leave it behind.
+                state[dir].waker = None;
+                state[dir].ticks = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
@@ -658,11 +663,12 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             };
 
             // Indicate that we are interested in this event.
-            handle
-                .borrow()
-                .source
-                .registration
-                .modify(&Reactor::get().poller, event)?;
+            let source = &handle.borrow().source;
+            if let Err(err) = source.registration.modify(&Reactor::get().poller, event) {
+                // Nothing will wake this waker, so don't leave it behind.
+                state[*dir].wakers[i] = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From 45feabab1ce85a2d74638ae6215ef61184127476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 5/9] fix: don't wake or drop wakers while holding the lock of
 a source

Waking a waker that gets replaced in poll_readable()/poll_writable(), or
dropping the waker of a cancelled or re-polled readable()/writable() future,
runs foreign code. If that code uses the same Async handle (for example because
dropping the last waker drops a task which awaits that handle), it deadlocked.
---
 src/reactor.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 14174b4..b96cadd 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -460,15 +460,12 @@ impl Source {
         let was_empty = state[dir].is_empty();
 
         // Register the current task's waker.
-        if let Some(w) = state[dir].waker.take() {
+        if let Some(w) = &state[dir].waker {
             if w.will_wake(cx.waker()) {
-                state[dir].waker = Some(w);
                 return Poll::Pending;
             }
-            // Wake the previous waker because it's going to get replaced.
-            panic::catch_unwind(|| w.wake()).ok();
         }
-        state[dir].waker = Some(cx.waker().clone());
+        let prev = state[dir].waker.replace(cx.waker().clone());
         state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
 
         // Update interest in this I/O handle.
@@ -490,6 +487,13 @@ impl Source {
             }
         }
 
+        // Wake the previous waker because it got replaced. This runs foreign code, which is allowed
+        // to use this source, so the lock must be released first.
+        drop(state);
+        if let Some(w) = prev {
+            panic::catch_unwind(|| w.wake()).ok();
+        }
+
         Poll::Pending
     }
 
@@ -650,7 +654,7 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
                 i
             }
         };
-        state[*dir].wakers[i] = Some(cx.waker().clone());
+        let prev = state[*dir].wakers[i].replace(cx.waker().clone());
 
         // Update interest in this I/O handle.
         if was_empty {
@@ -671,6 +675,11 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             }
         }
 
+        // Dropping a waker runs foreign code, which is allowed to use this source, so the lock must
+        // be released first.
+        drop(state);
+        drop(prev);
+
         Poll::Pending
     }
 }
@@ -680,10 +689,12 @@ impl<H: Borrow<crate::Async<T>>, T> Drop for Ready<H, T> {
         // Remove our waker when dropped.
         if let Some(key) = self.index {
             let mut state = self.handle.borrow().source.state.lock().unwrap();
-            let wakers = &mut state[self.dir].wakers;
-            if wakers.contains(key) {
-                wakers.remove(key);
-            }
+            let removed = state[self.dir].wakers.try_remove(key);
+
+            // Dropping a waker runs foreign code, which is allowed to use this source, so the lock
+            // must be released first.
+            drop(state);
+            drop(removed);
         }
     }
 }
-- 
2.43.0


From 03521b7ca69c3faf71d221f2872005bdd838bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 6/9] fix: don't drop wakers while holding the timers lock

Dropping the waker of a removed timer runs foreign code. If that code drops or
resets enough timers to fill the operation queue (for example because it owned
the last reference to a task with many timers), it deadlocked.
---
 src/reactor.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index b96cadd..0f9d9d3 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -161,7 +161,11 @@ impl Reactor {
         {
             // If the queue is full, drain it and try again.
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            let removed = self.process_timer_ops(&mut timers);
+
+            // Drop the lock before dropping wakers.
+            drop(timers);
+            drop(removed);
         }
 
         // Notify that a timer has been inserted.
@@ -176,7 +180,11 @@ impl Reactor {
         while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
             // If the queue is full, drain it and try again.
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            let removed = self.process_timer_ops(&mut timers);
+
+            // Drop the lock before dropping wakers.
+            drop(timers);
+            drop(removed);
         }
     }
 
@@ -208,7 +216,7 @@ impl Reactor {
         let _enter = span.enter();
 
         let mut timers = self.timers.lock().unwrap();
-        self.process_timer_ops(&mut timers);
+        let removed = self.process_timer_ops(&mut timers);
 
         let now = Instant::now();
 
@@ -231,8 +239,9 @@ impl Reactor {
             Some(Duration::from_secs(0))
         };
 
-        // Drop the lock before waking.
+        // Drop the lock before waking or dropping wakers.
         drop(timers);
+        drop(removed);
 
         // Add wakers to the list.
         tracing::trace!("{} ready wakers", ready.len());
@@ -245,7 +254,15 @@ impl Reactor {
     }
 
     /// Processes queued timer operations.
-    fn process_timer_ops(&self, timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>) {
+    ///
+    /// Returns the wakers of removed timers. Dropping them runs foreign code, which is allowed to use
+    /// timers, so that must only happen after unlocking `timers`.
+    fn process_timer_ops(
+        &self,
+        timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>,
+    ) -> Vec<Waker> {
+        let mut removed = Vec::new();
+
         // Process only as much as fits into the queue, or else this loop could in theory run
         // forever.
         self.timer_ops
@@ -256,9 +273,11 @@ impl Reactor {
                     timers.insert((when, id), waker);
                 }
                 TimerOp::Remove(when, id) => {
-                    timers.remove(&(when, id));
+                    removed.extend(timers.remove(&(when, id)));
                 }
             });
+
+        removed
     }
 }
 
-- 
2.43.0


From 72912ad37bad57e4588bf89e845c86872bdd1691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 7/9] fix: make poll_readable() and poll_writable() resolve
 after a bounded number of polls

An event retrieved in the round that was current when the waker was registered
is not accepted, so the task is woken and polls again. That poll remembered the
current round anew, and if another thread was already waiting for I/O by then
(as the async-io thread usually is), the next event fell into that round and was
rejected, too. poll_readable() on a readable socket thus was a busy loop that only
ended by chance, after thousands of polls. Keep the ticks of the first poll.
---
 src/reactor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 0f9d9d3..9d0a339 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -485,7 +485,12 @@ impl Source {
             }
         }
         let prev = state[dir].waker.replace(cx.waker().clone());
-        state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
+
+        // Remember the ticks of the first poll only. If they were refreshed after an event of the round
+        // that was current at that time, the next event could fall into its own round again and again.
+        if state[dir].ticks.is_none() {
+            state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
+        }
 
         // Update interest in this I/O handle.
         if was_empty {
-- 
2.43.0


From d92d44f9d5603df479060c2d5f6601f3f621ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 8/9] fix: reset the parker of block_on() even if the future
 panics or calls wake while being dropped

---
 src/driver.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/driver.rs b/src/driver.rs
index 834fc0d..fe4e450 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -190,6 +190,13 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
             }
         };
 
+        // Ensure the cached parker is reset to the unnotified state for future block_on calls, in case
+        // this future calls wake and then immediately returns Poll::Ready, panics, or calls wake while
+        // being dropped.
+        let _reset = CallOnDrop(|| {
+            p.park_timeout(Duration::from_secs(0));
+        });
+
         pin!(future);
 
         let cx = &mut Context::from_waker(waker);
@@ -197,9 +204,6 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
         loop {
             // Poll the future.
             if let Poll::Ready(t) = future.as_mut().poll(cx) {
-                // Ensure the cached parker is reset to the unnotified state for future block_on calls,
-                // in case this future called wake and then immediately returned Poll::Ready.
-                p.park_timeout(Duration::from_secs(0));
                 tracing::trace!("completed");
                 return t;
             }
-- 
2.43.0


From 1496dc70425ac8e6378ff5d0b603d0671c6f5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 9/9] fix: don't lose the async-io thread if the reactor cannot
 be initialized

---
 src/driver.rs  | 19 +++++++++++--------
 src/reactor.rs |  5 ++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/driver.rs b/src/driver.rs
index fe4e450..8567cc4 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -17,9 +17,10 @@ use crate::reactor::Reactor;
 static BLOCK_ON_COUNT: AtomicUsize = AtomicUsize::new(0);
 
 /// Unparker for the "async-io" thread.
-fn unparker() -> &'static parking::Unparker {
-    static UNPARKER: OnceCell<parking::Unparker> = OnceCell::new();
+static UNPARKER: OnceCell<parking::Unparker> = OnceCell::new();
 
+/// Initializes the "async-io" thread.
+pub(crate) fn init() {
     UNPARKER.get_or_init_blocking(|| {
         let (parker, unparker) = parking::pair();
 
@@ -34,12 +35,14 @@ fn unparker() -> &'static parking::Unparker {
             .expect("cannot spawn async-io thread");
 
         unparker
-    })
+    });
 }
 
-/// Initializes the "async-io" thread.
-pub(crate) fn init() {
-    let _ = unparker();
+/// Unparks the "async-io" thread, if the reactor is in use.
+fn unpark() {
+    if let Some(unparker) = UNPARKER.get() {
+        unparker.unpark();
+    }
 }
 
 /// The main loop for the "async-io" thread.
@@ -118,7 +121,7 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
     // Make sure to decrement `BLOCK_ON_COUNT` at the end and wake the "async-io" thread.
     let _guard = CallOnDrop(|| {
         BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
-        unparker().unpark();
+        unpark();
     });
 
     // Creates a parker and an associated waker that unparks it.
@@ -269,7 +272,7 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
 
                         // Unpark the "async-io" thread in case no other thread is ready to start
                         // processing I/O events. This way we prevent a potential latency spike.
-                        unparker().unpark();
+                        unpark();
 
                         // Wait for a notification.
                         p.park();
diff --git a/src/reactor.rs b/src/reactor.rs
index 9d0a339..a12f4a6 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -96,9 +96,12 @@ impl Reactor {
         static REACTOR: OnceCell<Reactor> = OnceCell::new();
 
         REACTOR.get_or_init_blocking(|| {
+            // If this fails, there must not be an "async-io" thread yet, as it would run into the same
+            // failure and be gone for good.
+            let poller = Poller::new().expect("cannot initialize I/O event notification");
             crate::driver::init();
             Reactor {
-                poller: Poller::new().expect("cannot initialize I/O event notification"),
+                poller,
                 ticker: AtomicUsize::new(0),
                 sources: Mutex::new(Slab::new()),
                 events: Mutex::new(Events::new()),
-- 
2.43.0

