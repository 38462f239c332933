From 8f92728ce793d5c5d05ddf1e4d1e8fffa9f54708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 01/11] fix: set_at() and set_after() turn an interval timer
 into a one-shot timer

They are documented to make the timer emit an event once, but kept the period of an interval
timer, which then went on firing.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f771098..f29af83 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,8 +369,9 @@ impl Timer {
     pub fn set_at(&mut self, instant: Instant) {
         self.clear();
 
-        // Update the timeout.
+        // Update the timeout. The timer emits an event once, even if it was an interval before.
         self.when = Some(instant);
+        self.period = Duration::MAX;
 
         if let Some((id, waker)) = self.id_and_waker.as_mut() {
             // Re-register the timer with the new timeout.
-- 
2.43.0


From 16262560244c710410a41ef13791f5ff9dad52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 02/11] fix: remember the task that polls a timer which is not
 going to fire

set_*() keeps the task polling the timer registered. A timer that was created with never(), has
overflowed or has already fired did not record the task, so a later reset never woke it up, or woke
up a task that had polled it earlier.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f29af83..045628b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -514,6 +514,13 @@ impl Stream for Timer {
                     Some(_) => {}
                 }
             }
+        } else {
+            // Nothing to register in the reactor, but remember the task for when the timer is reset.
+            // Timers in the reactor never have ID 0.
+            match &this.id_and_waker {
+                Some((_, w)) if w.will_wake(cx.waker()) => {}
+                _ => this.id_and_waker = Some((0, cx.waker().clone())),
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From d15ad4c91e74a0264b405b24068a6524c21e0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 03/11] fix: poll_readable() and poll_writable() must not
 reject every event

Each call registered the wait anew, remembering the current reactor tick. With the reactor thread
already polling at that point, the event it then delivered was always considered too old, so that
the task kept being woken and polled without ever becoming ready.
---
 src/reactor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 474c62a..5e811df 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -456,9 +456,16 @@ impl Source {
             }
             // Wake the previous waker because it's going to get replaced.
             panic::catch_unwind(|| w.wake()).ok();
+            state[dir].ticks = None;
         }
         state[dir].waker = Some(cx.waker().clone());
-        state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
+
+        // If the last event was too old to be accepted, keep the ticks from when the wait began.
+        // Otherwise, a reactor that always gets to bump its ticker before we register interest would
+        // deliver only events that look too old.
+        if state[dir].ticks.is_none() {
+            state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
+        }
 
         // Update interest in this I/O handle.
         if was_empty {
-- 
2.43.0


From 106996c20693a66cd288e0ae2ba4f678481d4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 04/11] fix: do not wake or drop wakers while holding locks

poll_readable()/poll_writable() woke the replaced waker, waiting again
or dropping a Readable/Writable future dropped a waker, and processing
timer operations dropped wakers, all with the lock on the source or the
timers held. A waker that calls back into the same handle or into timers
deadlocked.
---
 src/reactor.rs | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 5e811df..9a4e90b 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -160,8 +160,9 @@ impl Reactor {
             .is_err()
         {
             // If the queue is full, drain it and try again.
+            let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            self.process_timer_ops(&mut timers, &mut removed);
         }
 
         // Notify that a timer has been inserted.
@@ -175,8 +176,9 @@ impl Reactor {
         // Push a remove operation.
         while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
             // If the queue is full, drain it and try again.
+            let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            self.process_timer_ops(&mut timers, &mut removed);
         }
     }
 
@@ -207,8 +209,9 @@ impl Reactor {
         let span = tracing::trace_span!("process_timers");
         let _enter = span.enter();
 
+        let mut removed = Vec::new();
         let mut timers = self.timers.lock().unwrap();
-        self.process_timer_ops(&mut timers);
+        self.process_timer_ops(&mut timers, &mut removed);
 
         let now = Instant::now();
 
@@ -245,7 +248,14 @@ impl Reactor {
     }
 
     /// Processes queued timer operations.
-    fn process_timer_ops(&self, timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>) {
+    ///
+    /// Wakers of removed timers are moved into `removed`, so that they can be dropped once the lock is
+    /// released: dropping a waker may drop a task, which may call back into the reactor.
+    fn process_timer_ops(
+        &self,
+        timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>,
+        removed: &mut Vec<Waker>,
+    ) {
         // Process only as much as fits into the queue, or else this loop could in theory run
         // forever.
         self.timer_ops
@@ -256,7 +266,7 @@ impl Reactor {
                     timers.insert((when, id), waker);
                 }
                 TimerOp::Remove(when, id) => {
-                    timers.remove(&(when, id));
+                    removed.extend(timers.remove(&(when, id)));
                 }
             });
     }
@@ -434,6 +444,10 @@ impl Source {
     ///
     /// If a different waker is already registered, it gets replaced and woken.
     fn poll_ready(&self, dir: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        // The waker that gets replaced. It may only be woken or dropped once the lock is released
+        // because both may call back into this source.
+        let mut replaced = None;
+
         let mut state = self.state.lock().unwrap();
 
         // Check if the reactor has delivered an event.
@@ -454,8 +468,7 @@ impl Source {
                 state[dir].waker = Some(w);
                 return Poll::Pending;
             }
-            // Wake the previous waker because it's going to get replaced.
-            panic::catch_unwind(|| w.wake()).ok();
+            replaced = Some(w);
             state[dir].ticks = None;
         }
         state[dir].waker = Some(cx.waker().clone());
@@ -481,6 +494,12 @@ impl Source {
             self.registration.modify(&Reactor::get().poller, event)?;
         }
 
+        // Wake the previous waker because it got replaced.
+        drop(state);
+        if let Some(w) = replaced {
+            panic::catch_unwind(|| w.wake()).ok();
+        }
+
         Poll::Pending
     }
 
@@ -618,6 +637,10 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             ..
         } = &mut *self;
 
+        // The waker that gets replaced. It may only be dropped once the lock is released because that
+        // may drop a task, which may call back into this source.
+        let _replaced;
+
         let mut state = handle.borrow().source.state.lock().unwrap();
 
         // Check if the reactor has delivered an event.
@@ -641,7 +664,7 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
                 i
             }
         };
-        state[*dir].wakers[i] = Some(cx.waker().clone());
+        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
 
         // Update interest in this I/O handle.
         if was_empty {
@@ -669,10 +692,12 @@ impl<H: Borrow<crate::Async<T>>, T> Drop for Ready<H, T> {
     fn drop(&mut self) {
         // Remove our waker when dropped.
         if let Some(key) = self.index {
+            // Release the lock before the waker gets dropped, which may call back into this source.
+            let _waker;
             let mut state = self.handle.borrow().source.state.lock().unwrap();
             let wakers = &mut state[self.dir].wakers;
             if wakers.contains(key) {
-                wakers.remove(key);
+                _waker = wakers.remove(key);
             }
         }
     }
-- 
2.43.0


From 0e1244480edf28d821058ce3211651fec7c9cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 05/11] fix: connecting to an empty Unix path reached the
 abstract socket with an empty name

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 045628b..f4f2874 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2225,6 +2225,8 @@ fn convert_path_to_socket_address(path: &Path) -> io::Result<rn::SocketAddrUnix>
         let path = path.as_os_str();
         match path.as_bytes().first() {
             Some(0) => rn::SocketAddrUnix::new_abstract_name(path.as_bytes().get(1..).unwrap())?,
+            // The address of an empty path is that of the abstract socket with an empty name.
+            None => return Err(rustix::io::Errno::INVAL.into()),
             _ => rn::SocketAddrUnix::new(path)?,
         }
     };
-- 
2.43.0


From 365e57531c595b53c06c2260d19d6487b59e07a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 06/11] fix: a wait that failed must fail again instead of
 hanging

---
 src/reactor.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 9a4e90b..1124002 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -491,7 +491,12 @@ impl Source {
             };
 
             // Register interest in it.
-            self.registration.modify(&Reactor::get().poller, event)?;
+            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
+                // No event is going to come. The next poll has to try again.
+                state[dir].waker = None;
+                state[dir].ticks = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         // Wake the previous waker because it got replaced.
@@ -677,11 +682,16 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             };
 
             // Indicate that we are interested in this event.
-            handle
+            if let Err(err) = handle
                 .borrow()
                 .source
                 .registration
-                .modify(&Reactor::get().poller, event)?;
+                .modify(&Reactor::get().poller, event)
+            {
+                // No event is going to come. The next poll has to try again.
+                state[*dir].wakers[i] = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From 639519ec05e05bc182f71f3804addb3aeacce1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 07/11] fix: a handle that cannot be re-armed lost the wakers
 of all others

---
 src/reactor.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 1124002..710e079 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -320,6 +320,7 @@ impl ReactorLock<'_> {
             Ok(_) => {
                 // Iterate over sources in the event list.
                 let sources = self.reactor.sources.lock().unwrap();
+                let mut res = Ok(());
 
                 for ev in self.events.iter() {
                     // Check if there is a source in the table with this key.
@@ -347,12 +348,20 @@ impl ReactorLock<'_> {
                             };
 
                             // Register interest in this event.
-                            source.registration.modify(&self.reactor.poller, event)?;
+                            if let Err(err) =
+                                source.registration.modify(&self.reactor.poller, event)
+                            {
+                                // Wake the remaining tasks too. They get the error when they try
+                                // to register interest again.
+                                state[READ].drain_into(&mut wakers);
+                                state[WRITE].drain_into(&mut wakers);
+                                res = Err(err);
+                            }
                         }
                     }
                 }
 
-                Ok(())
+                res
             }
 
             // The syscall was interrupted.
-- 
2.43.0


From 7012f2b768161c992bd6d8a2861ecfcb6d7c4f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 08/11] fix: a waker whose destructor panics killed the reactor

---
 src/reactor.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reactor.rs b/src/reactor.rs
index 710e079..ab04223 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -163,6 +163,8 @@ impl Reactor {
             let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
             self.process_timer_ops(&mut timers, &mut removed);
+            drop(timers);
+            drop_wakers(removed);
         }
 
         // Notify that a timer has been inserted.
@@ -179,6 +181,8 @@ impl Reactor {
             let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
             self.process_timer_ops(&mut timers, &mut removed);
+            drop(timers);
+            drop_wakers(removed);
         }
     }
 
@@ -236,6 +240,7 @@ impl Reactor {
 
         // Drop the lock before waking.
         drop(timers);
+        drop_wakers(removed);
 
         // Add wakers to the list.
         tracing::trace!("{} ready wakers", ready.len());
@@ -272,6 +277,14 @@ impl Reactor {
     }
 }
 
+/// Drops the wakers of removed timers.
+fn drop_wakers(wakers: Vec<Waker>) {
+    for waker in wakers {
+        // This may drop a task. Don't let a panicking destructor blow everything up.
+        panic::catch_unwind(|| drop(waker)).ok();
+    }
+}
+
 /// A lock on the reactor.
 pub(crate) struct ReactorLock<'a> {
     reactor: &'a Reactor,
-- 
2.43.0


From f6140ba74bd662bf3776117a7791ccb94b977f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:01 +0000
Subject: [PATCH 09/11] fix: a future that woke itself and panicked made the
 next block_on poll spuriously

---
 src/driver.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/driver.rs b/src/driver.rs
index 834fc0d..d37941e 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -190,6 +190,12 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
             }
         };
 
+        // Ensure the cached parker is reset to the unnotified state for future block_on calls,
+        // in case this future called wake and then immediately returned Poll::Ready or panicked.
+        let _reset = CallOnDrop(|| {
+            p.park_timeout(Duration::from_secs(0));
+        });
+
         pin!(future);
 
         let cx = &mut Context::from_waker(waker);
@@ -197,9 +203,6 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
         loop {
             // Poll the future.
             if let Poll::Ready(t) = future.as_mut().poll(cx) {
-                // Ensure the cached parker is reset to the unnotified state for future block_on calls,
-                // in case this future called wake and then immediately returned Poll::Ready.
-                p.park_timeout(Duration::from_secs(0));
                 tracing::trace!("completed");
                 return t;
             }
-- 
2.43.0


From fab6bf41ee84e362725507418a7cf79036268724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:46 +0000
Subject: [PATCH 10/11] fix: a failed first use left the process without the
 async-io thread

---
 src/driver.rs  |  9 ++++++---
 src/reactor.rs | 10 +++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/driver.rs b/src/driver.rs
index d37941e..0565fe8 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -16,10 +16,11 @@ use crate::reactor::Reactor;
 /// Number of currently active `block_on()` invocations.
 static BLOCK_ON_COUNT: AtomicUsize = AtomicUsize::new(0);
 
+/// Unparker for the "async-io" thread, once it has been started.
+static UNPARKER: OnceCell<parking::Unparker> = OnceCell::new();
+
 /// Unparker for the "async-io" thread.
 fn unparker() -> &'static parking::Unparker {
-    static UNPARKER: OnceCell<parking::Unparker> = OnceCell::new();
-
     UNPARKER.get_or_init_blocking(|| {
         let (parker, unparker) = parking::pair();
 
@@ -118,7 +119,9 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
     // Make sure to decrement `BLOCK_ON_COUNT` at the end and wake the "async-io" thread.
     let _guard = CallOnDrop(|| {
         BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
-        unparker().unpark();
+        if let Some(unparker) = UNPARKER.get() {
+            unparker.unpark();
+        }
     });
 
     // Creates a parker and an associated waker that unparks it.
diff --git a/src/reactor.rs b/src/reactor.rs
index ab04223..f75d60c 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -96,15 +96,19 @@ impl Reactor {
         static REACTOR: OnceCell<Reactor> = OnceCell::new();
 
         REACTOR.get_or_init_blocking(|| {
-            crate::driver::init();
-            Reactor {
+            let reactor = Reactor {
                 poller: Poller::new().expect("cannot initialize I/O event notification"),
                 ticker: AtomicUsize::new(0),
                 sources: Mutex::new(Slab::new()),
                 events: Mutex::new(Events::new()),
                 timers: Mutex::new(BTreeMap::new()),
                 timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
-            }
+            };
+
+            // Start the "async-io" thread last. If there is no poller, it would die trying to
+            // create one itself and be missing later on.
+            crate::driver::init();
+            reactor
         })
     }
 
-- 
2.43.0


From 29beb1bb57ece7df9e577f0368fb0dbb5054863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:59 +0000
Subject: [PATCH 11/11] fix: clone wakers before locking a source

A waker whose clone() panicked poisoned the lock of the source it was polled with: all later polls of that
handle, drops of its pending waits and the reactor itself then panicked too.
---
 src/reactor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index f75d60c..4654f65 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -470,6 +470,9 @@ impl Source {
     ///
     /// If a different waker is already registered, it gets replaced and woken.
     fn poll_ready(&self, dir: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        // Clone the waker before taking the lock because that may panic.
+        let waker = cx.waker().clone();
+
         // The waker that gets replaced. It may only be woken or dropped once the lock is released
         // because both may call back into this source.
         let mut replaced = None;
@@ -497,7 +500,7 @@ impl Source {
             replaced = Some(w);
             state[dir].ticks = None;
         }
-        state[dir].waker = Some(cx.waker().clone());
+        state[dir].waker = Some(waker);
 
         // If the last event was too old to be accepted, keep the ticks from when the wait began.
         // Otherwise, a reactor that always gets to bump its ticker before we register interest would
@@ -668,6 +671,9 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             ..
         } = &mut *self;
 
+        // Clone the waker before taking the lock because that may panic.
+        let waker = cx.waker().clone();
+
         // The waker that gets replaced. It may only be dropped once the lock is released because that
         // may drop a task, which may call back into this source.
         let _replaced;
@@ -695,7 +701,7 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
                 i
             }
         };
-        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
+        _replaced = state[*dir].wakers[i].replace(waker);
 
         // Update interest in this I/O handle.
         if was_empty {
-- 
2.43.0

