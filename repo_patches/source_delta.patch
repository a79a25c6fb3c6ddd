From 9af08b83f3affe5ad12be05b89bcb4d46f710229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:02 +0000
Subject: [PATCH 01/14] fix: fold of a single element whose index is not 0

---
 paladin-core/src/directive/indexed_stream/foldable.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index ddb5a63..93af015 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -156,6 +156,8 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
         let should_dispatch = Arc::new(Notify::new());
         // The running count of inputs.
         let count = Arc::new(AtomicUsize::new(0));
+        // The smallest index seen in the input; indices need not start at 0.
+        let first_idx = Arc::new(AtomicUsize::new(usize::MAX));
         // The size of the input is not known until every item in the input stream has
         // been received. We don't want to block result stream consumption waiting for
         // the initialization future to finish, as there may be a significant delay if
@@ -173,6 +175,7 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                 let dispatcher = dispatcher.clone();
                 let should_dispatch = should_dispatch.clone();
                 let count = count.clone();
+                let first_idx = first_idx.clone();
                 async move {
                     // Given that the operation is a monoid, and input type must match output type,
                     // we can safely place the input into a `TaskResult`.
@@ -183,6 +186,7 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                         output: item,
                     };
 
+                    first_idx.fetch_min(idx, Ordering::Relaxed);
                     let next_sum = count.fetch_add(1, Ordering::Relaxed) + 1;
                     if next_sum < 2 {
                         // Do not attempt a dispatch if we've seen fewer than two inputs.
@@ -201,6 +205,7 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
             })
             .and_then({
                 let count = count.clone();
+                let first_idx = first_idx.clone();
                 let dispatcher = dispatcher.clone();
                 let resolved_input_size = resolved_input_size.clone();
                 |_| {
@@ -218,9 +223,9 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                             // at this point, so we can safely dequeue it. If it doesn't, this is a
                             // logic error.
                             1 => Ok(dispatcher
-                                .dequeue(&0)
+                                .dequeue(&first_idx.load(Ordering::Relaxed))
                                 .await
-                                .expect("Expected dispatcher to have a single element at index 0")
+                                .expect("Expected dispatcher to have a single element")
                                 .output),
                             // Otherwise, we wait for the result stream to complete.
                             _ => futures::future::pending().await,
-- 
2.43.0


From ce29a22f169248b277caa8499512eab5d456d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:02 +0000
Subject: [PATCH 02/14] fix: fold hangs if every combination finishes before
 the input stream ends

---
 .../src/directive/indexed_stream/foldable.rs      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index 93af015..7031ed6 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -227,8 +227,19 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                                 .await
                                 .expect("Expected dispatcher to have a single element")
                                 .output),
-                            // Otherwise, we wait for the result stream to complete.
-                            _ => futures::future::pending().await,
+                            // Otherwise, we wait for the result stream to complete, unless every
+                            // element was already combined before the size of the input was known,
+                            // in which case the final result is waiting in the assembler.
+                            _ => {
+                                let first_idx = first_idx.load(Ordering::Relaxed);
+                                if let Some(result) = dispatcher.dequeue(&first_idx).await {
+                                    if result.is_final(size) {
+                                        return Ok(result.output);
+                                    }
+                                    dispatcher.queue(result).await;
+                                }
+                                futures::future::pending().await
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 8a5b0d3c25ffbc122c9bf67dfef1e8fa3a93c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:02 +0000
Subject: [PATCH 03/14] fix: fold overflows on an element with the largest
 index

---
 paladin-core/src/directive/indexed_stream/foldable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index 7031ed6..468fe7c 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -54,8 +54,8 @@ impl<Op: Operation> Contiguous for TaskOutput<Op, Metadata> {
 
     /// Check if the given [`TaskOutput`] is contiguous with the given one.
     fn is_contiguous(&self, other: &Self) -> bool {
-        self.metadata.range.end() + 1 == *other.metadata.range.start()
-            || *other.metadata.range.end() + 1 == *self.metadata.range.start()
+        self.metadata.range.end().checked_add(1) == Some(*other.metadata.range.start())
+            || other.metadata.range.end().checked_add(1) == Some(*self.metadata.range.start())
     }
 
     /// Get the key of the [`TaskOutput`].
-- 
2.43.0


From 1ac31dd9d745969c46a53970d55864c1279dff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:10 +0000
Subject: [PATCH 04/14] fix: wake the receiver of a coordinated channel when
 closing or acknowledging ends it

---
 .../coordinated_channel/coordinated_stream.rs        | 12 ++++++++++--
 paladin-core/src/channel/coordinated_channel/mod.rs  |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index d45ec4f..c05866b 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -95,6 +95,7 @@ impl CoordinatedAcker {
 
         if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
             self.waker.wake_by_ref();
+            self.state.receiver.wake();
         }
     }
 
@@ -124,6 +125,9 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
+        // The inner stream knows nothing of closure and acknowledgement, which may both
+        // end this stream later.
+        this.state.receiver.register(cx.waker());
         let item = this.inner.poll_next(cx);
 
         match item {
@@ -136,8 +140,12 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
                 // stream has terminated.
-                let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
-                if this.state.closed.load(Ordering::SeqCst) && num_pending_sends == 0 {
+                //
+                // Closure has to be checked first: sends may still happen before it, but not
+                // after.
+                if this.state.closed.load(Ordering::SeqCst)
+                    && this.state.num_pending_sends.load(Ordering::SeqCst) == 0
+                {
                     return Poll::Ready(None);
                 }
 
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index f88e6ca..3d321b8 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -17,7 +17,7 @@ use std::sync::{
     Arc,
 };
 
-use futures::Stream;
+use futures::{task::AtomicWaker, Stream};
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
@@ -32,6 +32,8 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// The task waiting for the next item or the end of the stream.
+    receiver: AtomicWaker,
 }
 
 impl ChannelState {
@@ -47,6 +49,7 @@ impl ChannelState {
         }
 
         self.closed.store(true, Ordering::SeqCst);
+        self.receiver.wake();
     }
 }
 
-- 
2.43.0


From 898185d8ee08049a120333014891c842e65c3f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:50 +0000
Subject: [PATCH 05/14] fix: a failed publish keeps the receiver of a
 coordinated channel from ending

---
 .../channel/coordinated_channel/coordinated_publisher.rs | 9 +++++----
 .../channel/coordinated_channel/coordinated_stream.rs    | 3 +--
 paladin-core/src/channel/coordinated_channel/mod.rs      | 9 +++++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index d28535f..e2b61ef 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -60,10 +60,11 @@ where
 
         self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
 
-        self.inner
-            .publish(payload)
-            .await
-            .map_err(CoordinatedPublisherError::Inner)?;
+        if let Err(err) = self.inner.publish(payload).await {
+            // Nothing was sent, so the receiver must not wait for it.
+            self.state.complete_send();
+            bail!(CoordinatedPublisherError::Inner(err));
+        }
 
         Ok(())
     }
diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index c05866b..72b232a 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -93,9 +93,8 @@ impl CoordinatedAcker {
             return;
         }
 
-        if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+        if self.state.complete_send() {
             self.waker.wake_by_ref();
-            self.state.receiver.wake();
         }
     }
 
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index 3d321b8..456a743 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -51,6 +51,15 @@ impl ChannelState {
         self.closed.store(true, Ordering::SeqCst);
         self.receiver.wake();
     }
+
+    /// A send is no longer pending. Returns true if it was the last one.
+    fn complete_send(&self) -> bool {
+        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+            self.receiver.wake();
+            return true;
+        }
+        false
+    }
 }
 
 /// State coordination between two distinct channel pipes (a
-- 
2.43.0


From 6e2ce1b445e0554f9d68768be41f97fa2d34f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:39 +0000
Subject: [PATCH 06/14] fix: a dropped runtime leaves its workers' background
 tasks running

---
 paladin-core/src/runtime/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index cdd8f6c..634b459 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -423,6 +423,16 @@ pub enum CommandIpc {
     Abort { routing_key: String },
 }
 
+/// Aborts a spawned task once dropped, including when the task that spawned it
+/// is itself aborted or fails.
+struct AbortOnDrop(JoinHandle<()>);
+
+impl Drop for AbortOnDrop {
+    fn drop(&mut self) {
+        self.0.abort();
+    }
+}
+
 impl WorkerRuntime {
     /// Initializes the [`WorkerRuntime`] with the provided [`Config`].
     pub async fn from_config(config: &Config, marker: Marker) -> Result<Self> {
@@ -670,7 +680,7 @@ impl WorkerRuntime {
         let terminated_jobs: Arc<DashMap<String, Instant>> = Default::default();
 
         // Spawn a task that will periodically clear the terminated jobs map.
-        let reaper = tokio::spawn({
+        let _reaper = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
             async move {
                 loop {
@@ -678,7 +688,7 @@ impl WorkerRuntime {
                     tokio::time::sleep(TERMINATION_CLEAR_INTERVAL).await;
                 }
             }
-        });
+        }));
 
         let identifier: String = get_random_routing_key();
 
@@ -689,7 +699,7 @@ impl WorkerRuntime {
         // Spawn a task that will listen for IPC termination signals and mark jobs as
         // terminated.
         let mut command_receiver = self.get_command_ipc_receiver().await?;
-        let remote_command_sig_term_handler = tokio::spawn({
+        let _remote_command_sig_term_handler = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
 
             async move {
@@ -705,7 +715,7 @@ impl WorkerRuntime {
                     }
                 }
             }
-        });
+        }));
 
         /// Helper to mark a job as terminated.
         ///
@@ -805,9 +815,6 @@ impl WorkerRuntime {
             }
         }
 
-        remote_command_sig_term_handler.abort();
-        reaper.abort();
-
         Ok(())
     }
 }
-- 
2.43.0


From ff838525bf8a13c1e492e7ec4789eccd42b09731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:51 +0000
Subject: [PATCH 07/14] fix: an AMQP message or delivery error stalls the
 messages behind it

---
 paladin-core/src/queue/amqp.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index df16277..1674097 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -45,7 +45,7 @@
 use std::{
     pin::Pin,
     sync::Arc,
-    task::{Context, Poll},
+    task::{ready, Context, Poll},
 };
 
 use anyhow::Result;
@@ -513,25 +513,28 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
     type Item = (PayloadTarget, AMQPAcker);
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        let this = self.project();
-        match this.inner.poll_next(cx) {
-            Poll::Ready(Some(Ok(delivery))) => {
-                let payload = this.serializer.from_bytes(&delivery.data);
-                match payload {
-                    Ok(payload) => Poll::Ready(Some((payload, AMQPAcker { delivery }))),
+        let mut this = self.project();
+        // A delivery that can't be yielded must not stall the ones behind it: reject it
+        // so that it no longer counts toward the prefetch limit, and keep polling.
+        loop {
+            match ready!(this.inner.as_mut().poll_next(cx)) {
+                Some(Ok(delivery)) => match this.serializer.from_bytes(&delivery.data) {
+                    Ok(payload) => return Poll::Ready(Some((payload, AMQPAcker { delivery }))),
                     Err(err) => {
                         error!("Error deserializing message, error: {err}");
-                        Poll::Pending
+                        tokio::spawn(async move {
+                            if let Err(err) = delivery.nack(Default::default()).await {
+                                error!("Error rejecting message, error: {err}");
+                            }
+                        });
                     }
+                },
+                Some(Err(err)) => {
+                    let err = anyhow::Error::from(err);
+                    error!("Error receiving message, error: {err}",);
                 }
+                None => return Poll::Ready(None),
             }
-            Poll::Ready(Some(Err(err))) => {
-                let err = anyhow::Error::from(err);
-                error!("Error receiving message, error: {err}",);
-                Poll::Pending
-            }
-            Poll::Ready(None) => Poll::Ready(None),
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From c4940c460e7b5cfed0b1a44c75dfc560d921d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:32 +0000
Subject: [PATCH 08/14] fix: an ignored failure makes the worker reject the
 rest of its job

---
 paladin-core/src/runtime/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 634b459..bc6053e 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -792,13 +792,17 @@ impl WorkerRuntime {
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
-                            mark_terminated(&terminated_jobs, routing_key.clone());
+                            let strategy = err.fatal_strategy();
+                            // An ignored failure does not terminate the job.
+                            if let FatalStrategy::Terminate = strategy {
+                                mark_terminated(&terminated_jobs, routing_key.clone());
+                            }
 
                             try_join!(
                                 acker.nack(),
                                 self.dispatch_fatal(ExecutionErr {
                                     routing_key,
-                                    strategy: err.fatal_strategy(),
+                                    strategy,
                                     err,
                                 })
                             )?;
-- 
2.43.0


From 57c3efeee07be6ab2c807d3904246adf32beaf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:43 +0000
Subject: [PATCH 09/14] fix: a task with an unknown operation id panics the
 worker

---
 paladin-core/src/task/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 780f81d..178bafb 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     __private::OPERATIONS,
-    operation::Operation,
+    operation::{FatalError, FatalStrategy, Operation},
     serializer::{Serializable, Serializer},
     AbortSignal,
 };
@@ -166,6 +166,13 @@ impl AnyTask {
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        OPERATIONS[self.operation_id as usize](self, abort).await
+        match OPERATIONS.get(self.operation_id as usize) {
+            Some(execute) => execute(self, abort).await,
+            None => FatalError::from_str(
+                &format!("unknown operation id {}", self.operation_id),
+                FatalStrategy::Terminate,
+            )
+            .into(),
+        }
     }
 }
-- 
2.43.0


From a46b8d4f91446d072ac58058022c890af97681f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 10/14] fix: operations are dispatched by link order instead of
 their identifier

---
 paladin-core/src/lib.rs          | 21 ++++++++++++++-------
 paladin-core/src/task/mod.rs     |  4 ++--
 paladin-opkind-derive/src/lib.rs | 10 +++++++---
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index 449e4c6..103211f 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -236,13 +236,20 @@ pub mod __private {
     #[doc(hidden)]
     pub use tracing;
 
+    /// The identifier of an operation and the function that executes it.
+    #[doc(hidden)]
+    pub type OperationEntry = (
+        u8,
+        fn(
+            crate::task::AnyTask,
+            abort: crate::AbortSignal,
+        ) -> futures::future::BoxFuture<
+            'static,
+            crate::operation::Result<crate::task::AnyTaskOutput>,
+        >,
+    );
+
     #[doc(hidden)]
     #[linkme::distributed_slice]
-    pub static OPERATIONS: [fn(
-        crate::task::AnyTask,
-        abort: crate::AbortSignal,
-    ) -> futures::future::BoxFuture<
-        'static,
-        crate::operation::Result<crate::task::AnyTaskOutput>,
-    >];
+    pub static OPERATIONS: [OperationEntry];
 }
diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 178bafb..0537e37 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -166,8 +166,8 @@ impl AnyTask {
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        match OPERATIONS.get(self.operation_id as usize) {
-            Some(execute) => execute(self, abort).await,
+        match OPERATIONS.iter().find(|(id, _)| *id == self.operation_id) {
+            Some((_, execute)) => execute(self, abort).await,
             None => FatalError::from_str(
                 &format!("unknown operation id {}", self.operation_id),
                 FatalStrategy::Terminate,
diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index d0de2ca..d4edd76 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -10,9 +10,10 @@
 //! A globally unique identifier is assigned to each operation. Then, a unique
 //! function that handles deserialization, execution, and re-serialization of
 //! the result is generated for each operation. A pointer to this function is
-//! registered with the distributed slice at the index of the operation's
-//! identifier. This allows execution function to be dereferenced by only the
-//! operation identifier, which is serialized with the task.
+//! registered with the distributed slice together with the operation's
+//! identifier, as the order of the slice is up to the linker. This allows
+//! execution function to be looked up by only the operation identifier, which
+//! is serialized with the task.
 //!
 //! This scheme allows the tasks sent to workers to be opaque, while still
 //! enabling efficient lookup and execution of the appropriate operation.
@@ -101,6 +102,7 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     let operation_id = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
     let function_name = Ident::new(&format!("__execute_{}", operation_id), name.span());
+    let entry_name = Ident::new(&format!("__EXECUTE_{}", operation_id), name.span());
 
     let expanded = quote! {
         impl #impl_generics #paladin_path::operation::RemoteExecute for #name #ty_generics #where_clause {
@@ -109,6 +111,8 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
 
         #[#paladin_path::__private::linkme::distributed_slice(#paladin_path::__private::OPERATIONS)]
         #linkme_path_override
+        static #entry_name: #paladin_path::__private::OperationEntry = (#operation_id, #function_name);
+
         fn #function_name(task: #paladin_path::task::AnyTask, abort: #paladin_path::AbortSignal,) -> #paladin_path::__private::futures::future::BoxFuture<
             'static,
             #paladin_path::operation::Result<#paladin_path::task::AnyTaskOutput>
-- 
2.43.0


From 9516de2057a708818d52cf7ca071d4086634cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 11/14] fix: an abort of everything is lost if another job is
 aborted right after it

---
 paladin-core/src/runtime/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index bc6053e..5fe63a5 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -708,8 +708,16 @@ impl WorkerRuntime {
                         CommandIpc::Abort { routing_key } => {
                             // Mark the job as terminated if it hasn't been already.
                             if mark_terminated(&terminated_jobs, routing_key.clone()) {
-                                // Notify any currently executing task about the termination.
-                                ipc_sig_term_tx.send_replace(routing_key.clone());
+                                // Notify any currently executing task about the termination. The
+                                // channel holds a single key: an abort of everything must not be
+                                // replaced before it is seen.
+                                ipc_sig_term_tx.send_if_modified(|key| {
+                                    let replace = *key != COMMAND_IPC_ABORT_ALL_KEY;
+                                    if replace {
+                                        *key = routing_key;
+                                    }
+                                    replace
+                                });
                             }
                         }
                     }
-- 
2.43.0


From 7a90898eac4e7bc7b10ee7f496a0c660699be3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 12/14] fix: a publish racing with close returns Ok although
 the receiver has already ended

---
 .../channel/coordinated_channel/coordinated_publisher.rs   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index e2b61ef..70d074b 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -54,12 +54,15 @@ where
     Inner: Publisher<T> + Sync,
 {
     async fn publish(&self, payload: &T) -> Result<()> {
+        // The send has to be counted before checking for closure: the receiver, which checks
+        // for closure first, could otherwise end in between.
+        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
+
         if self.state.closed.load(Ordering::SeqCst) {
+            self.state.complete_send();
             return err_closed();
         }
 
-        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
-
         if let Err(err) = self.inner.publish(payload).await {
             // Nothing was sent, so the receiver must not wait for it.
             self.state.complete_send();
-- 
2.43.0


From 364d72112b803232e20454569eca988fc9a7bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 13/14] fix: do not hold the connection's map entry while an
 AMQP queue is deleted

---
 paladin-core/src/queue/amqp.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 1674097..4999bbf 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -50,7 +50,7 @@ use std::{
 
 use anyhow::Result;
 use async_trait::async_trait;
-use dashmap::{mapref::entry::Entry, DashMap};
+use dashmap::DashMap;
 use futures::Stream;
 use lapin::{options::QueueDeleteOptions, types::FieldTable, ExchangeKind};
 use pin_project::pin_project;
@@ -308,19 +308,21 @@ impl Connection for AMQPConnection {
     }
 
     async fn delete_queue(&self, name: &str) -> Result<()> {
-        match self.queue_options.entry(name.to_string()) {
-            Entry::Occupied(options) => {
-                match options.get().syndication_mode {
-                    SyndicationMode::ExactlyOnce => self.delete_single(name).await?,
-                    SyndicationMode::Broadcast => self.delete_broadcast(name).await?,
-                };
+        // Do not hold on to the map's entry while waiting for the broker: that would
+        // block every other operation needing it, including those of this very thread.
+        let mode = self
+            .queue_options
+            .get(name)
+            .map(|options| options.syndication_mode);
 
-                options.remove();
+        match mode {
+            Some(SyndicationMode::ExactlyOnce) => self.delete_single(name).await?,
+            Some(SyndicationMode::Broadcast) | None => self.delete_broadcast(name).await?,
+        };
 
-                Ok(())
-            }
-            Entry::Vacant(_) => self.delete_broadcast(name).await,
-        }
+        self.queue_options.remove(name);
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 2c732e7dd50f6f41586303fa6aa4fe47480db800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 14/14] fix: release a channel that is dropped outside of the
 async runtime

Dropping the outputs of a map (or any leased channel) from synchronous code or
from another thread panicked, as the deletion of the result channel was spawned
on the current runtime and there is none. Spawn it on the runtime the channel
was acquired on in that case.
---
 paladin-core/src/channel/queue.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/paladin-core/src/channel/queue.rs b/paladin-core/src/channel/queue.rs
index 6afdf1a..ad10ef7 100644
--- a/paladin-core/src/channel/queue.rs
+++ b/paladin-core/src/channel/queue.rs
@@ -88,6 +88,7 @@
 
 use anyhow::Result;
 use async_trait::async_trait;
+use tokio::runtime::Handle;
 
 use crate::{
     channel::{Channel, ChannelFactory, ChannelType},
@@ -137,6 +138,9 @@ pub struct QueueChannel<Conn> {
     connection: Conn,
     identifier: String,
     channel_type: ChannelType,
+    /// The runtime the channel was acquired on. A channel may be released
+    /// outside of it.
+    runtime: Option<Handle>,
 }
 
 #[async_trait]
@@ -183,9 +187,11 @@ impl<
         let conn = self.connection.clone();
         let identifier = self.identifier.clone();
 
-        tokio::spawn(async move {
-            _ = conn.delete_queue(&identifier).await;
-        });
+        if let Some(runtime) = Handle::try_current().ok().or_else(|| self.runtime.clone()) {
+            runtime.spawn(async move {
+                _ = conn.delete_queue(&identifier).await;
+            });
+        }
     }
 }
 
@@ -202,6 +208,7 @@ where
             connection: self.connection.clone(),
             identifier,
             channel_type,
+            runtime: Handle::try_current().ok(),
         })
     }
 
@@ -215,6 +222,7 @@ where
                 connection: self.connection.clone(),
                 identifier,
                 channel_type,
+                runtime: Handle::try_current().ok(),
             },
         ))
     }
-- 
2.43.0

