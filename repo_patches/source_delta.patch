From cea593af384b1493346fe54f8cf5c9ff07322100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 01/12] fix: buffer: refuse requests on a slot reserved before
 the worker went away

---
 tower/src/buffer/service.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index 9493f10..5ad6070 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -84,6 +84,21 @@ where
     }
 }
 
+impl<Req, F> Buffer<Req, F>
+where
+    Req: Send + 'static,
+    F: Send + 'static,
+{
+    /// Whether the worker stopped accepting requests.
+    ///
+    /// Note that `PollSender::is_closed` only tells whether the *sender* was
+    /// closed, which is not the case if a slot was reserved before the worker
+    /// went away.
+    fn is_closed(&self) -> bool {
+        self.tx.get_ref().map_or(true, |tx| tx.is_closed())
+    }
+}
+
 impl<Req, Rsp, F, E> Service<Req> for Buffer<Req, F>
 where
     F: Future<Output = Result<Rsp, E>> + Send + 'static,
@@ -96,7 +111,7 @@ where
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
         // First, check if the worker is still alive.
-        if self.tx.is_closed() {
+        if self.is_closed() {
             // If the inner service has errored, then we error here.
             return Poll::Ready(Err(self.get_worker_error()));
         }
@@ -110,6 +125,14 @@ where
     fn call(&mut self, request: Req) -> Self::Future {
         tracing::trace!("sending request to buffer worker");
 
+        // The slot may have been reserved before the worker went away. A message
+        // sent now might never be received, so refuse it and give the slot back.
+        if self.is_closed() {
+            tracing::trace!("buffer channel closed");
+            self.tx.abort_send();
+            return ResponseFuture::failed(self.get_worker_error());
+        }
+
         // get the current Span so that we can explicitly propagate it to the worker
         // if we didn't do this, events on the worker related to this span wouldn't be counted
         // towards that span since the worker would have no way of entering it.
-- 
2.43.0


From 09eee9f8f7cd0f1e1b621d0c508412745c2a5465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 02/12] fix: retry: keep the sub-second part of an exponential
 backoff's jitter

---
 tower/src/retry/backoff.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 38a5f69..969d321 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -159,10 +159,13 @@ impl<R: Rng> ExponentialBackoff<R> {
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-            let secs = (base.as_secs() as f64) * rand_jitter;
-            let nanos = (base.subsec_nanos() as f64) * rand_jitter;
+            let secs = base.as_secs_f64() * rand_jitter;
             let remaining = self.max - base;
-            time::Duration::new(secs as u64, nanos as u32).min(remaining)
+            if secs < remaining.as_secs_f64() {
+                time::Duration::from_secs_f64(secs).min(remaining)
+            } else {
+                remaining
+            }
         }
     }
 }
-- 
2.43.0


From 849f68b587e60fa52e7dcbfe0af8f973207be239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 03/12] fix: retry: accept a random factor of zero in
 ExponentialBackoff

---
 tower/src/retry/backoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 969d321..32a1a03 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -155,7 +155,7 @@ impl<R: Rng> ExponentialBackoff<R> {
         } else {
             let jitter_factor = self.rng.next_f64();
             debug_assert!(
-                jitter_factor > 0.0,
+                jitter_factor >= 0.0,
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-- 
2.43.0


From ac72ca1fa84640405e8072b26f7cef6f7b28b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 04/12] fix: retry: take TpsBudget's lock around a withdrawal,
 so concurrent ones cannot overdraw it

---
 tower/src/retry/budget/tps_budget.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index d694998..a1c98f9 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -111,9 +111,7 @@ impl TpsBudget {
         }
     }
 
-    fn expire(&self) {
-        let mut gen = self.generation.lock().expect("generation lock");
-
+    fn expire(&self, gen: &mut Generation) {
         let now = Instant::now();
         let diff = now.saturating_duration_since(gen.time);
         if diff < self.window {
@@ -151,14 +149,18 @@ impl TpsBudget {
     }
 
     fn put(&self, amt: isize) {
-        self.expire();
+        let mut gen = self.generation.lock().expect("generation lock");
+        self.expire(&mut gen);
         self.writer.fetch_add(amt, Ordering::SeqCst);
     }
 
     fn try_get(&self, amt: isize) -> bool {
         debug_assert!(amt >= 0);
 
-        self.expire();
+        // The lock is held until the tokens are taken: otherwise, concurrent callers could all
+        // spend the same balance.
+        let mut gen = self.generation.lock().expect("generation lock");
+        self.expire(&mut gen);
 
         let sum = self.sum();
         if sum >= amt {
-- 
2.43.0


From 1ce01944ec087d1a4af7f0e4ebd116a9a4c46582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 05/12] fix: steer: a clone waits for its own services to be
 ready

---
 tower/src/steer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tower/src/steer/mod.rs b/tower/src/steer/mod.rs
index d614196..dcdccab 100644
--- a/tower/src/steer/mod.rs
+++ b/tower/src/steer/mod.rs
@@ -177,7 +177,8 @@ where
         Self {
             router: self.router.clone(),
             services: self.services.clone(),
-            not_ready: self.not_ready.clone(),
+            // the cloned services have not been polled, whatever state the originals are in
+            not_ready: (0..self.services.len()).collect(),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From e6ce49a6132400906aa5338e5b94399ae12254a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 06/12] fix: reconnect: stay ready until a failed connection
 attempt was reported

---
 tower/src/reconnect/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tower/src/reconnect/mod.rs b/tower/src/reconnect/mod.rs
index 0062fe3..b04dccf 100644
--- a/tower/src/reconnect/mod.rs
+++ b/tower/src/reconnect/mod.rs
@@ -82,6 +82,11 @@ where
     type Future = ResponseFuture<S::Future, M::Error>;
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        if self.error.is_some() {
+            // stay ready until the next call has returned the connection error
+            return Poll::Ready(Ok(()));
+        }
+
         loop {
             match &mut self.state {
                 State::Idle => {
-- 
2.43.0


From da4fd11a16580548c9615d84d37f4db0165a8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 07/12] fix: do not poll the discovery stream of a balancer
 after it ended

---
 tower/src/balance/p2c/service.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index 30572fc..ec8081c 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -32,6 +32,7 @@ where
     D::Key: Hash,
 {
     discover: D,
+    discover_done: bool,
 
     services: ReadyCache<D::Key, D::Service, Req>,
     ready_index: Option<usize>,
@@ -73,6 +74,7 @@ where
         Self {
             rng,
             discover,
+            discover_done: false,
             services: ReadyCache::default(),
             ready_index: None,
 
@@ -107,13 +109,20 @@ where
         &mut self,
         cx: &mut Context<'_>,
     ) -> Poll<Option<Result<(), error::Discover>>> {
+        if self.discover_done {
+            // A stream must not be polled again after it ended.
+            return Poll::Ready(None);
+        }
         debug!("updating from discover");
         loop {
             match ready!(Pin::new(&mut self.discover).poll_discover(cx))
                 .transpose()
                 .map_err(|e| error::Discover(e.into()))?
             {
-                None => return Poll::Ready(None),
+                None => {
+                    self.discover_done = true;
+                    return Poll::Ready(None);
+                }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
                     self.services.evict(&key);
-- 
2.43.0


From 974ac6e87362e6bbde169cee6f21aa9ed9f5bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 08/12] fix: choose a balancer endpoint again after a removal

---
 tower/src/balance/p2c/service.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index ec8081c..abca957 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -125,7 +125,11 @@ where
                 }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
-                    self.services.evict(&key);
+                    if self.services.evict(&key) {
+                        // Another endpoint may have taken the place of the
+                        // removed one, so that the index is stale.
+                        self.ready_index = None;
+                    }
                 }
                 Some(Change::Insert(key, svc)) => {
                     trace!("insert");
@@ -216,8 +220,9 @@ where
     >;
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        // `ready_index` may have already been set by a prior invocation. These
-        // updates cannot disturb the order of existing ready services.
+        // `ready_index` may have already been set by a prior invocation.
+        // Removing an endpoint disturbs the order of existing ready services
+        // and clears it; the other updates leave the order as it is.
         let _ = self.update_pending_from_discover(cx)?;
         self.promote_pending_to_ready(cx);
 
-- 
2.43.0


From 170b72a3a65809ac2a429815ed2a3b6ed766b862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 09/12] fix: retry: keep the fraction of a retry that a
 TpsBudget deposit buys

---
 tower/src/retry/budget/tps_budget.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index a1c98f9..5c7b561 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -79,12 +79,14 @@ impl TpsBudget {
             // Withdrawals can only be made against the reserve, over time.
             (0, 1)
         } else if retry_percent <= 1.0 {
-            (1, (1.0 / retry_percent) as isize)
+            // The amounts are scaled, because 1.0 / retry_percent is not
+            // always a whole number.
+            (1000, (1000.0 / retry_percent).round() as isize)
         } else {
             // Support for when retry_percent is between 1.0 and 1000.0,
             // meaning for every deposit D, D * retry_percent withdrawals
             // can be made.
-            (1000, (1000.0 / retry_percent) as isize)
+            ((1000.0 * retry_percent).round() as isize, 1000)
         };
         let reserve = (min_per_sec as isize)
             .saturating_mul(ttl.as_secs() as isize) // ttl is between 1 and 60 seconds
-- 
2.43.0


From ea182155484a9c608fb0c09690afc2b16b423baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:21 +0000
Subject: [PATCH 10/12] fix: AsyncFilter::layer makes an AsyncFilter, not a
 Filter

It returned a FilterLayer, whose services need a synchronous predicate, so that
the documented use with an AsyncPredicate did not compile.
---
 tower/src/filter/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tower/src/filter/mod.rs b/tower/src/filter/mod.rs
index c53ba40..1ce257d 100644
--- a/tower/src/filter/mod.rs
+++ b/tower/src/filter/mod.rs
@@ -131,8 +131,8 @@ impl<T, U> AsyncFilter<T, U> {
     /// service with the given [`AsyncPredicate`].
     ///
     /// [`Layer`]: crate::Layer
-    pub fn layer(predicate: U) -> FilterLayer<U> {
-        FilterLayer::new(predicate)
+    pub fn layer(predicate: U) -> AsyncFilterLayer<U> {
+        AsyncFilterLayer::new(predicate)
     }
 
     /// Check a `Request` value against this filter's predicate.
-- 
2.43.0


From d348af3731427cc313af287f8ea426956b1786f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:20 +0000
Subject: [PATCH 11/12] fix: buffer requests sent while the worker goes away
 are answered

A call that found the worker alive could send its message after the worker,
and with it the receiving half of the channel, was dropped (its task was
aborted, or the service panicked). The message then stayed in the channel,
and the response future waited for as long as any clone of the buffer lived.
---
 tower/src/buffer/future.rs  | 14 +++++++++++++-
 tower/src/buffer/service.rs |  8 +++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/tower/src/buffer/future.rs b/tower/src/buffer/future.rs
index 4117890..8fbe966 100644
--- a/tower/src/buffer/future.rs
+++ b/tower/src/buffer/future.rs
@@ -2,7 +2,10 @@
 //!
 //! [`Buffer`]: crate::buffer::Buffer
 
-use super::{error::Closed, message};
+use super::{
+    error::{Closed, ServiceError},
+    message,
+};
 use futures_core::ready;
 use pin_project_lite::pin_project;
 use std::{
@@ -45,6 +48,15 @@ impl<T> ResponseFuture<T> {
         }
     }
 
+    pub(crate) fn received(response: Result<T, ServiceError>) -> Self {
+        match response {
+            Ok(fut) => ResponseFuture {
+                state: ResponseState::Poll { fut },
+            },
+            Err(err) => Self::failed(err.into()),
+        }
+    }
+
     pub(crate) fn failed(err: crate::BoxError) -> Self {
         ResponseFuture {
             state: ResponseState::Failed { error: Some(err) },
diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index 5ad6070..9996a82 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -140,9 +140,15 @@ where
 
         // If we've made it here, then a channel permit has already been
         // acquired, so we can freely allocate a oneshot.
-        let (tx, rx) = oneshot::channel();
+        let (tx, mut rx) = oneshot::channel();
 
         match self.tx.send_item(Message { request, span, tx }) {
+            // If the worker went away since the check above, the message might never be
+            // received. Unless the worker has answered it already, it will not do so.
+            Ok(_) if self.is_closed() => match rx.try_recv() {
+                Ok(response) => ResponseFuture::received(response),
+                Err(_) => ResponseFuture::failed(self.get_worker_error()),
+            },
             Ok(_) => ResponseFuture::new(rx),
             // If the channel is closed, propagate the error from the worker.
             Err(_) => {
-- 
2.43.0


From 228adb02bf037744fcf2bb69b6897144277620e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:16 +0000
Subject: [PATCH 12/12] fix: exponential backoff keeps doubling beyond 32
 iterations

The factor 2^n was saturated at 2^32 - 1, so that from the 33rd wait on a backoff
did not double any more although it was far below its maximum: with a
minimum of 3 ns and a maximum of 10 minutes all waits from then on were 12.9 s.
Compute the product in 128 bits.
---
 tower/src/retry/backoff.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 32a1a03..bb54b20 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -141,10 +141,18 @@ impl<R: Rng> ExponentialBackoff<R> {
             self.max > time::Duration::from_millis(0),
             "Maximum backoff must be non-zero"
         );
-        self.min
-            .checked_mul(2_u32.saturating_pow(self.iterations))
-            .unwrap_or(self.max)
-            .min(self.max)
+        // The factor does not fit 32 bits after 32 iterations, although the
+        // product may still be far below the maximum.
+        let factor = 2_u128.saturating_pow(self.iterations);
+        let nanos = self.min.as_nanos().saturating_mul(factor);
+        if nanos < self.max.as_nanos() {
+            time::Duration::new(
+                (nanos / 1_000_000_000) as u64,
+                (nanos % 1_000_000_000) as u32,
+            )
+        } else {
+            self.max
+        }
     }
 
     /// Returns a random, uniform duration on `[0, base*self.jitter]` no greater
-- 
2.43.0

