From 02ac35d6013e7048a1a92513acc19c8210947f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 01/32] fix: return an error instead of panicking when decoding
 an ActorID from too few bytes

---
 src/actor/id.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 26f3fff..c627488 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -137,9 +137,10 @@ impl ActorID {
     pub fn from_bytes(bytes: &[u8]) -> Result<Self, ActorIDFromBytesError> {
         // Extract the ID
         let sequence_id = u64::from_le_bytes(
-            bytes[0..8]
-                .try_into()
-                .map_err(|_| ActorIDFromBytesError::MissingSequenceID)?,
+            bytes
+                .get(0..8)
+                .and_then(|bytes| bytes.try_into().ok())
+                .ok_or(ActorIDFromBytesError::MissingSequenceID)?,
         );
 
         // Extract the peer id
-- 
2.43.0


From 6a466added9e01e26a479c9353e65e941884c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 02/32] fix: make the deprecated wait_for_stop wait for
 shutdown instead of startup

---
 src/actor/actor_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 6dc7ee4..3a4ceb4 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -349,7 +349,7 @@ where
         note = "wait_for_stop has been renamed to wait_for_shutdown"
     )]
     pub async fn wait_for_stop(&self) {
-        self.wait_for_startup().await
+        self.wait_for_shutdown().await
     }
 
     /// Waits for the actor to finish shutdown, returning the shutdown result with a clone of the error.
-- 
2.43.0


From a85e355aee05ae155909672d4511c19b2ef231fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 03/32] fix: implement Recipient::downgrade, and Clone and
 Debug for every WeakRecipient

---
 src/actor/actor_ref.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 3a4ceb4..667f2df 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -1333,7 +1333,7 @@ impl<M: Send + 'static> WeakRecipient<M> {
     }
 }
 
-impl<A: Actor> Clone for WeakRecipient<A> {
+impl<M: Send + 'static> Clone for WeakRecipient<M> {
     fn clone(&self) -> Self {
         WeakRecipient {
             handler: dyn_clone::clone_box(&*self.handler),
@@ -1341,7 +1341,7 @@ impl<A: Actor> Clone for WeakRecipient<A> {
     }
 }
 
-impl<A: Actor> fmt::Debug for WeakRecipient<A> {
+impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut d = f.debug_struct("WeakRecipient");
         d.field("id", &self.handler.id());
@@ -1412,7 +1412,9 @@ where
 
     #[inline]
     fn downgrade(&self) -> WeakRecipient<M> {
-        todo!()
+        WeakRecipient {
+            handler: Box::new(self.downgrade()),
+        }
     }
 
     #[inline]
-- 
2.43.0


From c9d1fd4b6738a0419ff6bfbcb53dbdfc49feee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 04/32] fix: stop an actor once every ActorRef to it has been
 dropped

The actor's own task (and the dedicated thread of spawn_in_thread) kept a
strong mailbox sender alive until the actor stopped, so an actor whose refs
were all dropped kept running forever.
---
 src/actor/spawn.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index f468020..de5c34b 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -403,9 +403,8 @@ impl<A: Actor> PreparedActor<A> {
 
         std::thread::Builder::new()
             .name(A::name().to_string())
-            .spawn({
-                let actor_ref = self.actor_ref.clone();
-                move || handle.block_on(CURRENT_ACTOR_ID.scope(actor_ref.id(), self.run(actor)))
+            .spawn(move || {
+                handle.block_on(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
             })
             .unwrap()
     }
@@ -458,9 +457,14 @@ where
     }
 
     let (actor_ref, links, startup_semaphore) = {
-        // Downgrade actor ref
-        let weak_actor_ref = actor_ref.downgrade();
-        (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
+        // Downgrade actor ref, dropping the strong one so the actor can stop once all other refs are dropped
+        let strong_actor_ref = actor_ref;
+        let weak_actor_ref = strong_actor_ref.downgrade();
+        (
+            weak_actor_ref,
+            strong_actor_ref.links.clone(),
+            strong_actor_ref.startup_semaphore.clone(),
+        )
     };
 
     if let Err(err) = start_res {
-- 
2.43.0


From a1a104e23b8f3082f0643fb162c39fab4430d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 05/32] fix: scope the current actor id inside
 PreparedActor::run

Without it ActorRef::is_current was false for an actor run in the current
task, and messages it sent itself in on_start were not prioritised.
---
 src/actor/spawn.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index de5c34b..5385fc9 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -365,13 +365,17 @@ impl<A: Actor> PreparedActor<A> {
     /// # });
     /// ```
     pub async fn run(self, actor: A) -> (A, ActorStopReason) {
-        run_actor_lifecycle::<A, ActorBehaviour<A>>(
-            actor,
-            self.actor_ref,
-            self.mailbox_rx,
-            self.abort_registration,
-        )
-        .await
+        CURRENT_ACTOR_ID
+            .scope(
+                self.actor_ref.id(),
+                run_actor_lifecycle::<A, ActorBehaviour<A>>(
+                    actor,
+                    self.actor_ref,
+                    self.mailbox_rx,
+                    self.abort_registration,
+                ),
+            )
+            .await
     }
 
     /// Spawns the actor in a new background tokio task, returning the `JoinHandle`.
@@ -380,14 +384,14 @@ impl<A: Actor> PreparedActor<A> {
     pub fn spawn(self, actor: A) -> JoinHandle<(A, ActorStopReason)> {
         #[cfg(not(all(tokio_unstable, feature = "tracing")))]
         {
-            tokio::spawn(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
+            tokio::spawn(self.run(actor))
         }
 
         #[cfg(all(tokio_unstable, feature = "tracing"))]
         {
             tokio::task::Builder::new()
                 .name(A::name())
-                .spawn(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
+                .spawn(self.run(actor))
                 .unwrap()
         }
     }
@@ -403,9 +407,7 @@ impl<A: Actor> PreparedActor<A> {
 
         std::thread::Builder::new()
             .name(A::name().to_string())
-            .spawn(move || {
-                handle.block_on(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
-            })
+            .spawn(move || handle.block_on(self.run(actor)))
             .unwrap()
     }
 }
-- 
2.43.0


From a75ad2a6b89ce16c3062e0297a2b0f85a60952b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 06/32] fix: release wait_for_startup as soon as on_start has
 completed

The startup semaphore was only released when the StartupFinished signal was
received, so waiters hung forever when the mailbox was full at that point,
or when the actor was stopped or killed before receiving it.
---
 src/actor/spawn.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 5385fc9..eea077a 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -451,6 +451,11 @@ where
         }
     }
 
+    // The on_start hook has been fully processed, so anyone waiting for startup can proceed
+    actor_ref
+        .startup_semaphore
+        .add_permits(Semaphore::MAX_PERMITS);
+
     let mut startup_finished = false;
     if let Err(SendError::MailboxFull(())) =
         actor_ref.weak_signal_mailbox().signal_startup_finished()
@@ -458,19 +463,14 @@ where
         startup_finished = true;
     }
 
-    let (actor_ref, links, startup_semaphore) = {
+    let (actor_ref, links) = {
         // Downgrade actor ref, dropping the strong one so the actor can stop once all other refs are dropped
         let strong_actor_ref = actor_ref;
         let weak_actor_ref = strong_actor_ref.downgrade();
-        (
-            weak_actor_ref,
-            strong_actor_ref.links.clone(),
-            strong_actor_ref.startup_semaphore.clone(),
-        )
+        (weak_actor_ref, strong_actor_ref.links.clone())
     };
 
     if let Err(err) = start_res {
-        startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
         let reason = ActorStopReason::Panicked(err);
         let mut state = S::new_from_actor(actor, actor_ref.clone());
         let reason = state
@@ -507,12 +507,7 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = Abortable::new(
-        abortable_actor_loop(
-            &mut state,
-            &mut mailbox_rx,
-            startup_semaphore,
-            startup_finished,
-        ),
+        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
         abort_registration,
     )
     .await
@@ -599,7 +594,6 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: Arc<Semaphore>,
     startup_finished: bool,
 ) -> ActorStopReason
 where
@@ -612,7 +606,7 @@ where
         }
     }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx, &startup_semaphore).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -622,7 +616,6 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: &Semaphore,
 ) -> ActorStopReason
 where
     A: Actor,
@@ -631,7 +624,6 @@ where
     loop {
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
-                startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
                 }
-- 
2.43.0


From 60163968ab041eac99fe87ae1e83725813e952e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 07/32] fix: handle on_start messages first even when the
 mailbox is full at startup

With no room for the StartupFinished signal startup was considered finished
immediately, so external messages queued earlier were handled before the
messages the actor had sent to itself in on_start.
---
 src/actor/spawn.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index eea077a..c23993e 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -456,11 +456,13 @@ where
         .startup_semaphore
         .add_permits(Semaphore::MAX_PERMITS);
 
-    let mut startup_finished = false;
+    // If there's no room for the StartupFinished signal, then startup is finished after all signals which are
+    // already in the mailbox have been received, since they might contain messages sent during on_start.
+    let mut startup_signals_left = None;
     if let Err(SendError::MailboxFull(())) =
         actor_ref.weak_signal_mailbox().signal_startup_finished()
     {
-        startup_finished = true;
+        startup_signals_left = Some(mailbox_rx.len());
     }
 
     let (actor_ref, links) = {
@@ -507,7 +509,7 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = Abortable::new(
-        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
+        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_signals_left),
         abort_registration,
     )
     .await
@@ -594,19 +596,14 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_finished: bool,
+    mut startup_signals_left: Option<usize>,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
-    if startup_finished {
-        if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
-            return reason;
-        }
-    }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx, &mut startup_signals_left).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -616,12 +613,24 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
+    startup_signals_left: &mut Option<usize>,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
     loop {
+        match startup_signals_left {
+            Some(0) => {
+                *startup_signals_left = None;
+                if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
+                    return reason;
+                }
+            }
+            Some(n) => *n -= 1,
+            None => {}
+        }
+
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
-- 
2.43.0


From fd2d22d646838424012ed100ecf12472cb64835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 08/32] fix: keep startup messages and a pending stop when
 recovering from a panic

When a handler panicked while the messages buffered during startup were being
handled and on_panic continued, the remaining buffered messages were dropped,
and a stop signal being processed was forgotten.
---
 src/actor/kind.rs  | 22 ++++++++++++++++++++--
 src/actor/spawn.rs |  4 ++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 2bd8e69..eaadc45 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -1,4 +1,4 @@
-use std::{collections::VecDeque, mem, ops::ControlFlow, panic::AssertUnwindSafe};
+use std::{collections::VecDeque, ops::ControlFlow, panic::AssertUnwindSafe};
 
 use futures::{Future, FutureExt};
 
@@ -40,6 +40,8 @@ pub(crate) trait ActorState<A: Actor>: Sized {
 
     fn handle_stop(&mut self) -> impl Future<Output = ControlFlow<ActorStopReason>> + Send;
 
+    fn resume(&mut self) -> impl Future<Output = ControlFlow<ActorStopReason>> + Send;
+
     fn on_shutdown(
         &mut self,
         reason: ActorStopReason,
@@ -52,6 +54,7 @@ pub(crate) struct ActorBehaviour<A: Actor> {
     actor_ref: WeakActorRef<A>,
     state: A,
     finished_startup: bool,
+    stopping: bool,
     startup_buffer: VecDeque<Signal<A>>,
 }
 
@@ -65,6 +68,7 @@ where
             actor_ref,
             state: actor,
             finished_startup: false,
+            stopping: false,
             startup_buffer: VecDeque::new(),
         }
     }
@@ -75,7 +79,7 @@ where
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
         self.finished_startup = true;
-        for signal in mem::take(&mut self.startup_buffer).drain(..) {
+        while let Some(signal) = self.startup_buffer.pop_front() {
             match signal {
                 Signal::Message {
                     message,
@@ -151,12 +155,26 @@ where
 
     #[inline]
     async fn handle_stop(&mut self) -> ControlFlow<ActorStopReason> {
+        self.stopping = true;
         match self.handle_startup_finished().await {
             ControlFlow::Continue(_) => ControlFlow::Break(ActorStopReason::Normal),
             ControlFlow::Break(reason) => ControlFlow::Break(reason),
         }
     }
 
+    /// Resumes what was interrupted by a panic which the actor recovered from, so that neither messages buffered
+    /// during startup nor a received stop signal are lost.
+    #[inline]
+    async fn resume(&mut self) -> ControlFlow<ActorStopReason> {
+        if self.stopping {
+            self.handle_stop().await
+        } else if self.finished_startup {
+            self.handle_startup_finished().await
+        } else {
+            ControlFlow::Continue(())
+        }
+    }
+
     #[inline]
     async fn on_shutdown(&mut self, reason: ActorStopReason) -> ControlFlow<ActorStopReason> {
         match reason {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index c23993e..ca64649 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -619,6 +619,10 @@ where
     A: Actor,
     S: ActorState<A>,
 {
+    if let ControlFlow::Break(reason) = state.resume().await {
+        return reason;
+    }
+
     loop {
         match startup_signals_left {
             Some(0) => {
-- 
2.43.0


From 7a3507d611d01eb77e7dbb7a6bf249a28fa13148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 09/32] fix: call the Actor::on_message hook for messages being
 handled

---
 src/actor/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index eaadc45..22edeca 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -116,7 +116,7 @@ where
             return ControlFlow::Continue(());
         }
 
-        let res = AssertUnwindSafe(message.handle_dyn(&mut self.state, actor_ref, reply))
+        let res = AssertUnwindSafe(self.state.on_message(message, actor_ref, reply))
             .catch_unwind()
             .await;
         match res {
-- 
2.43.0


From d7c918ed192e133cb87bbfb25e5818fbc6bbd9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 10/32] fix: notify linked actors when an actor fails to start

The early return after a failed on_start skipped the link notifications, and
left the actor in the remote registry.
---
 src/actor/spawn.rs | 56 +++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index ca64649..6ea173c 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -472,48 +472,24 @@ where
         (weak_actor_ref, strong_actor_ref.links.clone())
     };
 
-    if let Err(err) = start_res {
-        let reason = ActorStopReason::Panicked(err);
-        let mut state = S::new_from_actor(actor, actor_ref.clone());
-        let reason = state
-            .on_shutdown(reason.clone())
-            .await
-            .break_value()
-            .unwrap_or(reason);
-        let mut actor = state.shutdown().await;
-        let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
-        match on_stop_res {
-            Ok(()) => {
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(None)
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-            Err(err) => {
-                let err = PanicError::new(Box::new(err));
-                invoke_actor_error_hook(&err);
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(Some(err))
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-        }
-        log_actor_stop_reason(id, name, &reason);
-        return (actor, reason);
-    }
-
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
-    let reason = Abortable::new(
-        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_signals_left),
-        abort_registration,
-    )
-    .await
-    .unwrap_or(ActorStopReason::Killed);
+    let reason = match start_res {
+        Ok(()) => Abortable::new(
+            abortable_actor_loop(&mut state, &mut mailbox_rx, startup_signals_left),
+            abort_registration,
+        )
+        .await
+        .unwrap_or(ActorStopReason::Killed),
+        Err(err) => {
+            let reason = ActorStopReason::Panicked(err);
+            state
+                .on_shutdown(reason.clone())
+                .await
+                .break_value()
+                .unwrap_or(reason)
+        }
+    };
 
     let mut actor = state.shutdown().await;
 
-- 
2.43.0


From b25739ce278fafd8a31ed2495ec1a4c8a20c3004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 11/32] fix: shut down cleanly when on_stop or on_panic panics

A panic in either hook unwound the actor's task, so linked actors were never
notified, the error hook wasn't called, and the shutdown result was never set.
---
 src/actor/kind.rs  | 14 ++++++++++----
 src/actor/spawn.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 22edeca..1abe214 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -181,12 +181,18 @@ where
             ActorStopReason::Normal => ControlFlow::Break(ActorStopReason::Normal),
             ActorStopReason::Killed => ControlFlow::Break(ActorStopReason::Killed),
             ActorStopReason::Panicked(err) => {
-                match self.state.on_panic(self.actor_ref.clone(), err).await {
-                    Ok(ControlFlow::Continue(())) => ControlFlow::Continue(()),
-                    Ok(ControlFlow::Break(reason)) => ControlFlow::Break(reason),
-                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
+                let res = AssertUnwindSafe(self.state.on_panic(self.actor_ref.clone(), err))
+                    .catch_unwind()
+                    .await;
+                match res {
+                    Ok(Ok(ControlFlow::Continue(()))) => ControlFlow::Continue(()),
+                    Ok(Ok(ControlFlow::Break(reason))) => ControlFlow::Break(reason),
+                    Ok(Err(err)) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
                         Box::new(err),
                     ))),
+                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
+                        PanicError::new_from_panic_any(err),
+                    )),
                 }
             }
             ActorStopReason::LinkDied { id, reason } => {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 6ea173c..024660d 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -538,7 +538,12 @@ where
         }
     }
 
-    let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
+    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
+        .catch_unwind()
+        .await
+        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
+        .map_err(PanicError::new_from_panic_any)
+        .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
     while let Some(()) = link_notification_futures.next().await {}
@@ -555,7 +560,6 @@ where
             }
         }
         Err(err) => {
-            let err = PanicError::new(Box::new(err));
             invoke_actor_error_hook(&err);
             if let Some(actor_ref) = actor_ref.upgrade() {
                 actor_ref
-- 
2.43.0


From 382f72a5ee8d6a54935f1c6b15fb57f4247c2fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 12/32] fix: keep draining the mailbox while notifying linked
 actors

Two linked actors with full bounded mailboxes stopping at the same time waited
forever for room in each other's mailbox.
---
 src/actor/spawn.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 024660d..3863adf 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -546,7 +546,20 @@ where
         .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
-    while let Some(()) = link_notification_futures.next().await {}
+    // Discard incoming signals whilst notifying links, otherwise actors with full mailboxes which are stopping at
+    // the same time would wait on each other forever.
+    let mut mailbox_open = true;
+    loop {
+        tokio::select! {
+            biased;
+            notified = link_notification_futures.next() => {
+                if notified.is_none() {
+                    break;
+                }
+            }
+            signal = mailbox_rx.recv(), if mailbox_open => mailbox_open = signal.is_some(),
+        }
+    }
     #[cfg(feature = "remote")]
     remote::REMOTE_REGISTRY.lock().await.remove(&id);
 
-- 
2.43.0


From cde28ab8b3ed0ea8bf8f45963e35417c4dd6b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 13/32] fix: lock links in a consistent order when linking and
 unlinking

Linking or unlinking two actors concurrently from both sides locked their
links in opposite orders, deadlocking both callers and the actors' shutdown.
---
 src/actor/actor_ref.rs | 43 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 667f2df..6f0cdce 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -516,8 +516,13 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = if self.locks_links_before(sibbling_ref) {
+            let this_links = self.links.lock().await;
+            (this_links, sibbling_ref.links.lock().await)
+        } else {
+            let sibbling_links = sibbling_ref.links.lock().await;
+            (self.links.lock().await, sibbling_links)
+        };
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -555,8 +560,13 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = if self.locks_links_before(sibbling_ref) {
+            let this_links = self.links.blocking_lock();
+            (this_links, sibbling_ref.links.blocking_lock())
+        } else {
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            (self.links.blocking_lock(), sibbling_links)
+        };
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -639,8 +649,13 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = if self.locks_links_before(sibbling_ref) {
+            let this_links = self.links.lock().await;
+            (this_links, sibbling_ref.links.lock().await)
+        } else {
+            let sibbling_links = sibbling_ref.links.lock().await;
+            (self.links.lock().await, sibbling_links)
+        };
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -677,8 +692,13 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = if self.locks_links_before(sibbling_ref) {
+            let this_links = self.links.blocking_lock();
+            (this_links, sibbling_ref.links.blocking_lock())
+        } else {
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            (self.links.blocking_lock(), sibbling_links)
+        };
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -816,6 +836,13 @@ where
         &self.mailbox_sender
     }
 
+    /// The links of two actors are always locked in the same order to avoid a deadlock when they're being linked or
+    /// unlinked from both sides concurrently.
+    #[inline]
+    fn locks_links_before<B: Actor>(&self, sibbling_ref: &ActorRef<B>) -> bool {
+        self.id.sequence_id() < sibbling_ref.id.sequence_id()
+    }
+
     #[inline]
     pub(crate) fn weak_signal_mailbox(&self) -> Box<dyn SignalMailbox> {
         Box::new(self.mailbox_sender.downgrade())
-- 
2.43.0


From d6d7c991ca82b85784ebc69458d3b4bcf758a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 14/32] fix: return errors instead of panicking when forwarding
 or enqueuing fails

The conversion of the channel errors downcast the message to the message type
of the returned SendError, which is (M, ReplySender) for the forward methods,
and () for the enqueue methods and stop_gracefully, and unwrapped the result.
---
 src/actor/actor_ref.rs |  5 ++-
 src/request/ask.rs     | 84 ++++++++++++++++++++++++++++++++++--------
 2 files changed, 73 insertions(+), 16 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 6f0cdce..b2b7da0 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -208,7 +208,10 @@ where
     /// before it shuts down. Any new messages sent after the stop signal will be ignored.
     #[inline]
     pub async fn stop_gracefully(&self) -> Result<(), SendError> {
-        Ok(self.mailbox_sender.send(Signal::Stop).await?)
+        self.mailbox_sender
+            .send(Signal::Stop)
+            .await
+            .map_err(|_| SendError::ActorNotRunning(()))
     }
 
     /// Kills the actor immediately.
diff --git a/src/request/ask.rs b/src/request/ask.rs
index fc3c652..66ed81c 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -4,7 +4,7 @@ use std::{
     pin, task,
     time::Duration,
 };
-use tokio::sync::oneshot;
+use tokio::sync::{mpsc, oneshot};
 
 #[cfg(feature = "remote")]
 use crate::{actor, remote};
@@ -200,10 +200,12 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(without_msg::<M, _>)?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal).await.map_err(without_msg::<M, _>)?;
                     }
                 }
 
@@ -220,7 +222,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(without_msg::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -267,16 +269,28 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(|err| match err {
+                                mpsc::error::SendTimeoutError::Timeout(signal) => {
+                                    SendError::Timeout(Some(into_forwarded(signal)))
+                                }
+                                mpsc::error::SendTimeoutError::Closed(signal) => {
+                                    SendError::ActorNotRunning(into_forwarded(signal))
+                                }
+                            })?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal)
+                            .await
+                            .map_err(|err| SendError::ActorNotRunning(into_forwarded(err.0)))?;
                     }
                 }
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(into_forwarded(err.0)))?;
                 Ok(())
             }
         }
@@ -307,11 +321,19 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(|err| match err {
+                    mpsc::error::TrySendError::Full(signal) => {
+                        SendError::MailboxFull(into_forwarded(signal))
+                    }
+                    mpsc::error::TrySendError::Closed(signal) => {
+                        SendError::ActorNotRunning(into_forwarded(signal))
+                    }
+                })?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(into_forwarded(err.0)))?;
                 Ok(())
             }
         }
@@ -408,7 +430,7 @@ where
 
         let fut = match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(without_msg::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -423,7 +445,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(without_msg::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -499,11 +521,13 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(into_forwarded(err.0)))?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(into_forwarded(err.0)))?;
                 Ok(())
             }
         }
@@ -553,7 +577,7 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal).map_err(without_msg::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -562,7 +586,7 @@ where
                 Ok(BlockingPendingReply { f })
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(without_msg::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -574,6 +598,36 @@ where
     }
 }
 
+/// Discards the message of a failed send for methods which return a [`SendError`] without one.
+fn without_msg<M, E>(err: E) -> SendError
+where
+    SendError<M>: From<E>,
+{
+    SendError::<M>::from(err).map_msg(|_| ())
+}
+
+/// Recovers the message and reply sender of a signal which failed to be forwarded.
+fn into_forwarded<A, M, R>(signal: Signal<A>) -> (M, ReplySender<R>)
+where
+    A: Actor,
+    M: 'static,
+{
+    match signal {
+        Signal::Message {
+            message,
+            reply: Some(tx),
+            ..
+        } => (
+            *message
+                .as_any()
+                .downcast()
+                .expect("the forwarded message should have type M"),
+            ReplySender::new(tx),
+        ),
+        _ => unreachable!("only messages with a reply sender are forwarded"),
+    }
+}
+
 impl<'a, A, M, Tm, Tr> IntoFuture for AskRequest<'a, A, M, Tm, Tr>
 where
     A: Actor + Message<M>,
-- 
2.43.0


From 4ab1546567f6382cdd52ead3836ecf7392b9ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 15/32] fix: receive handler errors through a chain of
 forwarded replies

A handler error which reached the caller through two or more forwards failed
to downcast, and panicked in the caller.
---
 src/reply.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/reply.rs b/src/reply.rs
index 75d8d10..fcbb343 100644
--- a/src/reply.rs
+++ b/src/reply.rs
@@ -292,18 +292,11 @@ where
         *ok.downcast().unwrap()
     }
 
-    /// The error is either from the inner `R`, or our outer `SendError`.
+    /// The error is either our outer `SendError`, or from the inner `R`, which might be a forwarded reply itself.
     /// We'll try both.
     fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
-        err.try_downcast::<N, R::Error>()
-            .map(|err| err.map_err(SendError::HandlerError))
-            .unwrap_or_else(|err| {
-                err.downcast::<M, SendError<M, R::Error>>().map_msg(|_| {
-                    unreachable!(
-                        "forwarded reply is only an error if it failed to forward the message"
-                    )
-                })
-            })
+        err.try_downcast::<N, Self::Error>()
+            .unwrap_or_else(|err| R::downcast_err::<N>(err).map_err(SendError::HandlerError))
     }
 }
 
-- 
2.43.0


From 2572b322e13fe909978dbb9b28fd3b5d3247937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 16/32] fix: return the worker's error when an ask request to
 an ActorPool fails

The error of the worker's ask is nested in the worker's reply, so downcasting
it to the handler's error type panicked in the caller.
---
 actors/src/pool.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index d53def0..68f17c3 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -41,6 +41,7 @@
 //! ```
 
 use std::{
+    any::Any,
     fmt,
     ops::ControlFlow,
     sync::{Arc, Weak},
@@ -50,7 +51,11 @@ use futures::{
     Future, FutureExt, TryFutureExt,
     future::{BoxFuture, join_all},
 };
-use kameo::{actor::spawn_with_mailbox, error::Infallible, prelude::*};
+use kameo::{
+    actor::spawn_with_mailbox,
+    error::{BoxSendError, Infallible},
+    prelude::*,
+};
 
 enum Factory<A: Actor> {
     Sync(Box<dyn FnMut() -> ActorRef<A> + Send + Sync + 'static>),
@@ -295,6 +300,31 @@ where
     fn into_value(self) -> Self::Value {
         unimplemented!("a WorkerReply cannot be converted to a value and is only a marker type")
     }
+
+    /// The error is the result of the worker's ask request, which is nested in the reply from the worker.
+    fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
+        // The message of the request is a `Dispatch<M>`
+        fn downcast_msg<M: 'static, N: 'static>(msg: M) -> Option<N> {
+            let msg: Box<dyn Any> = Box::new(Dispatch(msg));
+            msg.downcast().ok().map(|msg| *msg)
+        }
+
+        match err.try_downcast::<N, SendError<M, Self::Error>>() {
+            Ok(SendError::HandlerError(err)) => match err {
+                SendError::ActorNotRunning(msg) => downcast_msg(msg)
+                    .map(SendError::ActorNotRunning)
+                    .unwrap_or(SendError::ActorStopped),
+                SendError::ActorStopped => SendError::ActorStopped,
+                SendError::MailboxFull(msg) => downcast_msg(msg)
+                    .map(SendError::MailboxFull)
+                    .unwrap_or(SendError::ActorStopped),
+                SendError::HandlerError(err) => SendError::HandlerError(err),
+                SendError::Timeout(msg) => SendError::Timeout(msg.and_then(downcast_msg)),
+            },
+            Ok(err) => err.map_err(|_| unreachable!("handler errors are matched above")),
+            Err(err) => err.downcast(),
+        }
+    }
 }
 
 /// A message to be handled by a worker in an actor pool.
-- 
2.43.0


From e88c55bda6c2f8e2c4da465aad6556d73fff1462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 17/32] fix: size ActorPool worker mailboxes by the maximum
 capacity

The remaining capacity of the worker's mailbox was used, which panics when the
mailbox is already full when the factory returns it.
---
 actors/src/pool.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 68f17c3..93bf246 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -111,7 +111,7 @@ where
                     actor_ref: factory(),
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -140,7 +140,7 @@ where
             FutureExt::map(factory(), |actor_ref| {
                 let worker = Worker { actor_ref };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -207,7 +207,7 @@ where
             Factory::Sync(f) => {
                 let worker = Worker { actor_ref: f() };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -217,7 +217,7 @@ where
                     actor_ref: f().await,
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-- 
2.43.0


From dea2086fb47227d32f7445f49865a633494edc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 18/32] fix: replace ActorPool workers whose inner actor has
 stopped

Only the death of the pool's own wrapper was noticed, so once a worker actor
stopped, its wrapper failed every message it was given forever.
---
 actors/src/pool.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 93bf246..e5f956d 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -54,6 +54,7 @@ use futures::{
 use kameo::{
     actor::spawn_with_mailbox,
     error::{BoxSendError, Infallible},
+    mailbox::Signal,
     prelude::*,
 };
 
@@ -235,6 +236,19 @@ struct Worker<A: Actor> {
 
 impl<A: Actor> Actor for Worker<A> {
     type Error = Infallible;
+
+    async fn next(
+        &mut self,
+        _actor_ref: WeakActorRef<Self>,
+        mailbox_rx: &mut MailboxReceiver<Self>,
+    ) -> Option<Signal<Self>> {
+        // Stop when the inner actor has stopped, so that the pool replaces this worker
+        tokio::select! {
+            biased;
+            _ = self.actor_ref.wait_for_shutdown() => Some(Signal::Stop),
+            signal = mailbox_rx.recv() => signal,
+        }
+    }
 }
 
 /// A wrapper type which helps keep track of the load for each worker.
-- 
2.43.0


From a7cdef224aadd25d192a69d02328f441cf1ce10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 19/32] fix: replace a stopped ActorPool worker when
 dispatching to it

Dispatch retried the same stopped worker until it gave up, dropping the reply
sender and stopping the pool itself.
---
 actors/src/pool.rs | 60 +++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index e5f956d..39b1cac 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -52,7 +52,7 @@ use futures::{
     future::{BoxFuture, join_all},
 };
 use kameo::{
-    actor::spawn_with_mailbox,
+    actor::{spawn_link_with_mailbox, spawn_with_mailbox},
     error::{BoxSendError, Infallible},
     mailbox::Signal,
     prelude::*,
@@ -159,13 +159,31 @@ where
         }
     }
 
-    fn next_worker(&self) -> (&ActorRef<Worker<A>>, Weak<()>) {
+    fn next_worker(&self) -> (usize, &ActorRef<Worker<A>>, Weak<()>) {
         self.workers
             .iter()
-            .min_by_key(|(_, load)| Arc::weak_count(load))
-            .map(|(actor_ref, counter)| (actor_ref, Arc::downgrade(counter)))
+            .enumerate()
+            .min_by_key(|(_, (_, load))| Arc::weak_count(load))
+            .map(|(i, (actor_ref, counter))| (i, actor_ref, Arc::downgrade(counter)))
             .expect("ActorPool should have at least one worker")
     }
+
+    async fn replace_worker(&mut self, i: usize, pool_ref: &ActorRef<Self>) {
+        let worker = Worker {
+            actor_ref: match &mut self.factory {
+                Factory::Sync(f) => f(),
+                Factory::Async(f) => f().await,
+            },
+        };
+        let mailbox = match worker.actor_ref.mailbox_sender() {
+            MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
+            MailboxSender::Unbounded(_) => mailbox::unbounded(),
+        };
+        self.workers[i] = (
+            spawn_link_with_mailbox(pool_ref, worker, mailbox).await,
+            Arc::new(()),
+        );
+    }
 }
 
 impl<A> Actor for ActorPool<A>
@@ -204,27 +222,7 @@ where
             return Ok(ControlFlow::Continue(()));
         };
 
-        self.workers[i] = match &mut self.factory {
-            Factory::Sync(f) => {
-                let worker = Worker { actor_ref: f() };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            }
-            Factory::Async(f) => {
-                let worker = Worker {
-                    actor_ref: f().await,
-                };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            }
-        };
-        self.workers[i].0.link(&actor_ref).await;
+        self.replace_worker(i, &actor_ref).await;
 
         Ok(ControlFlow::Continue(()))
     }
@@ -360,7 +358,7 @@ where
     ) -> Self::Reply {
         let (_, mut reply_sender) = ctx.reply_sender();
         for _ in 0..self.workers.len() {
-            let (worker, counter) = self.next_worker();
+            let (i, worker, counter) = self.next_worker();
             match reply_sender {
                 Some(tx) => {
                     if let Err(err) = worker
@@ -377,6 +375,7 @@ where
                                 "message was forwarded, so the only error should be if the actor is not running"
                             ),
                         }
+                        self.replace_worker(i, &ctx.actor_ref()).await;
                         continue;
                     }
 
@@ -393,6 +392,7 @@ where
                                 "message was sent with `tell`, so the only error should be if the actor is not running"
                             ),
                         }
+                        self.replace_worker(i, &ctx.actor_ref()).await;
                         continue;
                     }
 
@@ -401,7 +401,13 @@ where
             }
         }
 
-        WorkerReply::Err(SendError::ActorNotRunning(msg))
+        match reply_sender {
+            Some(tx) => {
+                tx.send(Err(SendError::ActorNotRunning(msg)));
+                WorkerReply::Forwarded
+            }
+            None => WorkerReply::Err(SendError::ActorNotRunning(msg)),
+        }
     }
 }
 
-- 
2.43.0


From b989260c864d4644418ec8db747a7fd94550b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 20/32] fix: deserialize an ActorID from formats without
 borrowed bytes

---
 src/actor/id.rs | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index c627488..039e316 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -4,7 +4,10 @@ use std::hash::Hasher;
 use std::sync::atomic::Ordering;
 use std::{fmt, sync::atomic::AtomicUsize};
 
-use serde::{Deserialize, Serialize};
+use serde::{
+    de::{self, SeqAccess, Visitor},
+    Deserialize, Serialize,
+};
 
 use crate::error::ActorIDFromBytesError;
 #[cfg(feature = "remote")]
@@ -201,16 +204,50 @@ impl<'de> Deserialize<'de> for ActorID {
     where
         D: serde::Deserializer<'de>,
     {
-        let bytes = <&[u8]>::deserialize(deserializer)?;
-        let bytes_len = bytes.len();
+        // Formats differ in how bytes are represented: some have no borrowed bytes, or store them as a sequence
+        deserializer.deserialize_bytes(ActorIDVisitor)
+    }
+}
+
+struct ActorIDVisitor;
+
+impl<'de> Visitor<'de> for ActorIDVisitor {
+    type Value = ActorID;
+
+    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("the bytes of an actor ID")
+    }
+
+    fn visit_bytes<E>(self, bytes: &[u8]) -> Result<Self::Value, E>
+    where
+        E: de::Error,
+    {
         ActorID::from_bytes(bytes).map_err(|err| match err {
             ActorIDFromBytesError::MissingSequenceID => {
-                serde::de::Error::invalid_length(bytes_len, &"sequence ID")
+                E::invalid_length(bytes.len(), &"sequence ID")
             }
             #[cfg(feature = "remote")]
-            err @ ActorIDFromBytesError::ParsePeerID(_) => serde::de::Error::custom(err),
+            err @ ActorIDFromBytesError::ParsePeerID(_) => E::custom(err),
         })
     }
+
+    fn visit_str<E>(self, s: &str) -> Result<Self::Value, E>
+    where
+        E: de::Error,
+    {
+        self.visit_bytes(s.as_bytes())
+    }
+
+    fn visit_seq<S>(self, mut seq: S) -> Result<Self::Value, S::Error>
+    where
+        S: SeqAccess<'de>,
+    {
+        let mut bytes = Vec::new();
+        while let Some(byte) = seq.next_element()? {
+            bytes.push(byte);
+        }
+        self.visit_bytes(&bytes)
+    }
 }
 
 #[cfg(feature = "remote")]
-- 
2.43.0


From 56f8f9e4f922f53208669b237e5b064282ee0343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:46 +0000
Subject: [PATCH 21/32] fix: drop requests which arrive while an actor's
 mailbox is closing

---
 src/actor/spawn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 3863adf..ef8043b 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -583,6 +583,16 @@ where
         }
     }
 
+    // Requests being sent while the mailbox is closing can still end up in it after everything else was dropped.
+    // These need to be dropped too, otherwise whoever sent them would wait for a reply forever.
+    mailbox_rx.close();
+    let mut drain = async move { while mailbox_rx.recv().await.is_some() {} }.boxed();
+    if (&mut drain).now_or_never().is_none() {
+        if let Ok(handle) = Handle::try_current() {
+            handle.spawn(drain);
+        }
+    }
+
     (actor, reason)
 }
 
-- 
2.43.0


From 16dc99500084f8df15f21d40cea45d471e3e1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 22/32] fix: keep an ActorPool alive when a message told to it
 cannot be delivered

---
 actors/src/pool.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 39b1cac..d42ebff 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -357,7 +357,8 @@ where
         ctx: &mut Context<Self, Self::Reply>,
     ) -> Self::Reply {
         let (_, mut reply_sender) = ctx.reply_sender();
-        for _ in 0..self.workers.len() {
+        // Once every worker has been replaced, the message is still sent to a new one
+        for _ in 0..=self.workers.len() {
             let (i, worker, counter) = self.next_worker();
             match reply_sender {
                 Some(tx) => {
@@ -406,7 +407,8 @@ where
                 tx.send(Err(SendError::ActorNotRunning(msg)));
                 WorkerReply::Forwarded
             }
-            None => WorkerReply::Err(SendError::ActorNotRunning(msg)),
+            // Nobody waits for the error, which would stop the pool if it were returned
+            None => WorkerReply::Forwarded,
         }
     }
 }
-- 
2.43.0


From 0946930586b519f45808bbb4c8b79f9c0ab155e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 23/32] fix: call the actor error hook as soon as on_stop has
 failed

---
 src/actor/spawn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index ef8043b..e9a7cf3 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -544,6 +544,9 @@ where
         .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
         .map_err(PanicError::new_from_panic_any)
         .and_then(convert::identity);
+    if let Err(err) = &on_stop_res {
+        invoke_actor_error_hook(err);
+    }
     log_actor_stop_reason(id, name, &reason);
 
     // Discard incoming signals whilst notifying links, otherwise actors with full mailboxes which are stopping at
@@ -573,7 +576,6 @@ where
             }
         }
         Err(err) => {
-            invoke_actor_error_hook(&err);
             if let Some(actor_ref) = actor_ref.upgrade() {
                 actor_ref
                     .shutdown_error
-- 
2.43.0


From d98b5b22f2d56858d61f3c957c4dc99103e4a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 24/32] fix: treat a panic in a custom next hook as a panic of
 the actor

A panic in Actor::next unwound the actor's task, so that neither on_panic nor on_stop was called and linked
actors were never notified.
---
 src/actor/kind.rs  | 17 ++++++++++++++---
 src/actor/spawn.rs |  6 +++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 1abe214..5b02641 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -18,7 +18,7 @@ pub(crate) trait ActorState<A: Actor>: Sized {
     fn next(
         &mut self,
         mailbox_rx: &mut MailboxReceiver<A>,
-    ) -> impl Future<Output = Option<Signal<A>>> + Send;
+    ) -> impl Future<Output = ControlFlow<ActorStopReason, Option<Signal<A>>>> + Send;
 
     fn handle_startup_finished(
         &mut self,
@@ -73,8 +73,19 @@ where
         }
     }
 
-    async fn next(&mut self, mailbox_rx: &mut MailboxReceiver<A>) -> Option<Signal<A>> {
-        self.state.next(self.actor_ref.clone(), mailbox_rx).await
+    async fn next(
+        &mut self,
+        mailbox_rx: &mut MailboxReceiver<A>,
+    ) -> ControlFlow<ActorStopReason, Option<Signal<A>>> {
+        let res = AssertUnwindSafe(self.state.next(self.actor_ref.clone(), mailbox_rx))
+            .catch_unwind()
+            .await;
+        match res {
+            Ok(signal) => ControlFlow::Continue(signal),
+            Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
+                PanicError::new_from_panic_any(err),
+            )),
+        }
     }
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index e9a7cf3..0c73643 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -640,7 +640,11 @@ where
             None => {}
         }
 
-        match state.next(mailbox_rx).await {
+        let signal = match state.next(mailbox_rx).await {
+            ControlFlow::Continue(signal) => signal,
+            ControlFlow::Break(reason) => return reason,
+        };
+        match signal {
             Some(Signal::StartupFinished) => {
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
-- 
2.43.0


From 9e2faf3fc6afb04ac56cf694b032c5ba273d8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 25/32] fix: messages macro declares exactly the generics which
 the arguments use

A generic of the impl block used only in the return type, or used by several
arguments which aren't adjacent, was declared wrongly; one used only inside
another type's arguments (such as Vec<T>) wasn't declared.
---
 macros/src/messages.rs | 51 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 5a7de82..953aea3 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -6,8 +6,8 @@ use syn::{
     parse_quote, parse_quote_spanned,
     punctuated::Punctuated,
     spanned::Spanned,
-    Attribute, Field, FnArg, GenericParam, Generics, Ident, ImplItem, ItemImpl, Meta, ReturnType,
-    Signature, Token, Type, Visibility,
+    Attribute, Field, FnArg, GenericArgument, GenericParam, Generics, Ident, ImplItem, ItemImpl,
+    Meta, PathArguments, ReturnType, Signature, Token, Type, Visibility,
 };
 
 pub struct Messages {
@@ -165,11 +165,15 @@ impl Messages {
                                     generics.extend(contains_generic_in_param(&ty.ty, &impl_item_generics));
                                 }
                             }
-                            if let ReturnType::Type(_, ty) = &impl_item_fn.sig.output {
-                                generics.extend(contains_generic_in_param(ty, &impl_item_generics));
-                            }
 
-                            generics.dedup();
+                            // The message only has the arguments as fields, and each of its generics once.
+                            let mut message_generics = Vec::with_capacity(generics.len());
+                            for param in generics {
+                                if !message_generics.contains(&param) {
+                                    message_generics.push(param);
+                                }
+                            }
+                            let generics = message_generics;
                             let generics = if generics.is_empty() {
                                 impl_item_fn.sig.generics.clone()
                             } else {
@@ -473,7 +477,7 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
                 }
             }
 
-            vec![]
+            contains_generic_in_path(&path.path, generics)
         }
         Type::Ptr(ptr) => contains_generic_in_param(&ptr.elem, generics),
         Type::Reference(reference) => {
@@ -513,7 +517,7 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
                         }
                     }
 
-                    vec![]
+                    contains_generic_in_path(&trt.path, generics)
                 }
                 syn::TypeParamBound::Lifetime(lifetime) => {
                     let is_in_generics = generics
@@ -542,3 +546,34 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
         _ => vec![],
     }
 }
+
+fn contains_generic_in_path(path: &syn::Path, generics: &[GenericParam]) -> Vec<GenericParam> {
+    let mut params = Vec::new();
+    for segment in &path.segments {
+        match &segment.arguments {
+            PathArguments::None => {}
+            PathArguments::AngleBracketed(args) => {
+                for arg in &args.args {
+                    match arg {
+                        GenericArgument::Type(ty) => {
+                            params.extend(contains_generic_in_param(ty, generics));
+                        }
+                        GenericArgument::AssocType(assoc) => {
+                            params.extend(contains_generic_in_param(&assoc.ty, generics));
+                        }
+                        _ => {}
+                    }
+                }
+            }
+            PathArguments::Parenthesized(args) => {
+                for ty in &args.inputs {
+                    params.extend(contains_generic_in_param(ty, generics));
+                }
+                if let ReturnType::Type(_, ty) = &args.output {
+                    params.extend(contains_generic_in_param(ty, generics));
+                }
+            }
+        }
+    }
+    params
+}
-- 
2.43.0


From 5f550b3071e4b2f11bdd7123d45679f20ddd25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 26/32] fix: messages macro keeps a method's const parameters
 next to the impl's generics

---
 macros/src/messages.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 953aea3..c870b02 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -191,7 +191,11 @@ impl Messages {
                                     .chain(
                                         impl_item_fn.sig.generics.type_params().cloned().map(GenericParam::Type)
                                     );
-                                parse_quote! { <#( #lifetimes ),* #( #types, )*> }
+                                let consts = impl_item_fn.sig.generics
+                                    .const_params()
+                                    .cloned()
+                                    .map(GenericParam::Const);
+                                parse_quote! { <#( #lifetimes, )* #( #types, )* #( #consts, )*> }
                             };
 
                             match impl_item_fn.sig.inputs.first() {
-- 
2.43.0


From ce622746620f4a56272b1dd69d3f1bb016ab2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 27/32] fix: decide by peer id whether a remote request is for
 this node

Whether a request was served locally or sent over the network depended on whether any peer was connected: with peers, remote references to actors of this node failed to dial; without, requests to other nodes were answered with ActorNotRunning instead of dialing them.
---
 src/remote/swarm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 9715833..75346db 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -619,7 +619,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::ask(
                             actor_id,
@@ -657,7 +657,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::tell(
                             actor_id,
@@ -696,7 +696,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::link(
                             sibbling_id,
@@ -726,7 +726,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result =
                             remote::unlink(sibbling_id, sibbling_remote_id, actor_id).await;
@@ -750,7 +750,7 @@ impl ActorSwarmHandler {
                 stop_reason,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if notified_actor_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::signal_link_died(
                             dead_actor_id,
-- 
2.43.0


From 5ab9691605cd8cc6fdae21ad8e8baf2d53c29ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 28/32] fix: notify links of a disconnected peer only when its
 last connection closes

---
 src/remote/swarm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 75346db..906980e 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -788,7 +788,11 @@ impl ActorSwarmHandler {
         event: ActorSwarmEvent,
     ) {
         match event {
-            ActorSwarmEvent::ConnectionClosed { peer_id, .. } => {
+            ActorSwarmEvent::ConnectionClosed {
+                peer_id,
+                num_established: 0,
+                ..
+            } => {
                 tokio::spawn(async move {
                     let mut futures = FuturesUnordered::new();
                     for RemoteRegistryActorRef {
-- 
2.43.0


From 17584df29e420e10f1debba3229f0b49e15648c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 29/32] fix: return an error when a peer responds with another
 kind of response

The response comes from the network, yet an unexpected variant panicked the requesting task.
---
 src/remote/swarm.rs | 14 +++++++++++---
 src/request/ask.rs  |  2 +-
 src/request/tell.rs |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 906980e..8540ea8 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -431,7 +431,7 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::Link(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
@@ -452,7 +452,7 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::Unlink(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
@@ -478,12 +478,20 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::SignalLinkDied(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
 }
 
+/// The error for a peer responding with something other than what was requested.
+pub(crate) fn unexpected_response<E>() -> RemoteSendError<E> {
+    RemoteSendError::Io(Some(io::Error::new(
+        io::ErrorKind::InvalidData,
+        "unexpected response",
+    )))
+}
+
 /// A concrete implementation of the `SwarmBehaviour` trait.
 ///
 /// `ActorSwarmHandler` manages swarm-related operations, including handling
diff --git a/src/request/ask.rs b/src/request/ask.rs
index 66ed81c..29b444c 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -882,7 +882,7 @@ where
         remote::SwarmResponse::OutboundFailure(err) => {
             Err(err.map_err(|_| unreachable!("outbound failure doesn't contain handler errors")))
         }
-        _ => panic!("unexpected response"),
+        _ => Err(remote::unexpected_response()),
     }
 }
 
diff --git a/src/request/tell.rs b/src/request/tell.rs
index a65921f..166d203 100644
--- a/src/request/tell.rs
+++ b/src/request/tell.rs
@@ -402,7 +402,7 @@ where
         SwarmResponse::OutboundFailure(err) => {
             Err(err.map_err(|_| unreachable!("outbound failure doesn't contain handler errors")))
         }
-        _ => panic!("unexpected response"),
+        _ => Err(unexpected_response()),
     }
 }
 
-- 
2.43.0


From dad305a139143e5a84056109a2e83a68d7f4be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 30/32] fix: treat malformed and empty registration records as
 not found

Records come from the network. Decoding one which isn't an actor registration panicked the looking up task, or the swarm when looked up locally, for example for a name which was unregistered by another node.
---
 src/remote/swarm.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 8540ea8..2be70f2 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -330,14 +330,13 @@ impl ActorSwarm {
         async move {
             match reply_rx.await {
                 Ok(kad::PeerRecord { record, .. }) => {
-                    if record.value.is_empty() {
-                        return Ok(None);
-                    }
-
-                    let ActorRegistration {
+                    let Some(ActorRegistration {
                         actor_id,
                         remote_id,
-                    } = ActorRegistration::from_bytes(&record.value);
+                    }) = ActorRegistration::from_bytes(&record.value)
+                    else {
+                        return Ok(None);
+                    };
                     if A::REMOTE_ID != remote_id {
                         return Err(RegistryError::BadActorType);
                     }
@@ -583,7 +582,10 @@ impl ActorSwarmHandler {
                 let registration = swarm
                     .behaviour_mut()
                     .kademlia_get_record_local(&key)
-                    .map(|record| ActorRegistration::from_bytes(&record.value).into_owned());
+                    .and_then(|record| {
+                        ActorRegistration::from_bytes(&record.value)
+                            .map(ActorRegistration::into_owned)
+                    });
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
@@ -1226,11 +1228,14 @@ impl<'a> ActorRegistration<'a> {
         bytes
     }
 
-    fn from_bytes(bytes: &'a [u8]) -> Self {
-        let peer_id_bytes_len = u8::from_le_bytes(bytes[..1].try_into().unwrap()) as usize;
-        let actor_id = ActorID::from_bytes(&bytes[1..1 + 8 + peer_id_bytes_len]).unwrap();
-        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).unwrap();
-        ActorRegistration::new(actor_id, Cow::Borrowed(remote_id))
+    /// Returns `None` if the bytes aren't a registration, which is the case for the empty record of an unregistered
+    /// actor, and may be for anything else stored by other peers.
+    fn from_bytes(bytes: &'a [u8]) -> Option<Self> {
+        let (peer_id_bytes_len, bytes) = bytes.split_first()?;
+        let (actor_id, remote_id) = bytes.split_at_checked(8 + *peer_id_bytes_len as usize)?;
+        let actor_id = ActorID::from_bytes(actor_id).ok()?;
+        let remote_id = std::str::from_utf8(remote_id).ok()?;
+        Some(ActorRegistration::new(actor_id, Cow::Borrowed(remote_id)))
     }
 
     fn into_owned(self) -> ActorRegistration<'static> {
-- 
2.43.0


From fb70535ea86e5446027cf6f32c2a42ad3d3cf8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 31/32] fix: report a registration which the record store has
 no room for

Storing a record fails when this node's store is full, which panicked the swarm instead of failing the registration.
---
 src/remote/swarm.rs | 46 +++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 2be70f2..8cf69a6 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -1,5 +1,5 @@
 use core::task;
-use std::{borrow::Cow, collections::HashMap, io, pin, time::Duration};
+use std::{borrow::Cow, collections::HashMap, io, num::NonZero, pin, time::Duration};
 
 use futures::{ready, stream::FuturesUnordered, Future, FutureExt, StreamExt};
 use libp2p::{
@@ -483,6 +483,15 @@ impl ActorSwarm {
     }
 }
 
+/// The error for a record which this node's store has no room for.
+fn record_not_stored(key: kad::RecordKey) -> kad::PutRecordError {
+    kad::PutRecordError::QuorumFailed {
+        key,
+        success: vec![],
+        quorum: NonZero::<usize>::MIN,
+    }
+}
+
 /// The error for a peer responding with something other than what was requested.
 pub(crate) fn unexpected_response<E>() -> RemoteSendError<E> {
     RemoteSendError::Io(Some(io::Error::new(
@@ -589,19 +598,26 @@ impl ActorSwarmHandler {
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
+                let key = record.key.clone();
                 if swarm.network_info().num_peers() == 0 {
-                    let key = record.key.clone();
-                    swarm
+                    let res = swarm
                         .behaviour_mut()
                         .kademlia_put_record_local(record)
-                        .unwrap();
-                    let _ = reply.send(Ok(kad::PutRecordOk { key }));
+                        .map(|()| kad::PutRecordOk { key: key.clone() })
+                        .map_err(|_| record_not_stored(key));
+                    let _ = reply.send(res);
                 } else {
-                    let query_id = swarm
+                    match swarm
                         .behaviour_mut()
                         .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
-                    self.put_queries.insert(query_id, reply);
+                    {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(record_not_stored(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Unregister { key, reply } => {
@@ -610,12 +626,18 @@ impl ActorSwarmHandler {
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-                    let query_id = swarm
+                    let res = swarm
                         .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
+                        .kademlia_put_record(record, kad::Quorum::One);
                     swarm.behaviour_mut().kademlia_remove_record(&key);
-                    self.put_queries.insert(query_id, reply);
+                    match res {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(record_not_stored(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Ask {
-- 
2.43.0


From ef05d73ce4d98d2ba08b1a50606ac4050d573abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 32/32] fix: forget an unregistered name when no peers are
 connected

Records stored while no peers are connected have no publisher, and those of other nodes
another publisher, so Kademlia's remove_record left them where they were, and the name
was still found after having been unregistered.
---
 src/remote/swarm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 8cf69a6..f96dba3 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -622,7 +622,7 @@ impl ActorSwarmHandler {
             }
             SwarmCommand::Unregister { key, reply } => {
                 if swarm.network_info().num_peers() == 0 {
-                    swarm.behaviour_mut().kademlia_remove_record(&key);
+                    swarm.behaviour_mut().kademlia_remove_record_local(&key);
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-- 
2.43.0

