From 0fce93f68ac39b3a35970899363055eb5fe3ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 01/12] fix: count a call atomically with choosing its
 expectation

A mock method searched for an expectation that was not done yet, and counted
the call in a separate step.  Threads calling the same mock concurrently could
choose the same last slot, so one of them panicked with "called 2 times which
is more than the expected 1" even though a later expectation was there to take
the call.
---
 mockall/src/lib.rs                  | 18 +++++--
 mockall_derive/src/mock_function.rs | 74 ++++++++++++++++++-----------
 2 files changed, 60 insertions(+), 32 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 88b33dc..13c2241 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1574,6 +1574,11 @@ pub enum ExpectedCalls {
     TooFew,
 }
 
+/// The result of counting a call against an expectation: the error describes a
+/// call too many.
+#[doc(hidden)]
+pub type Claim = Result<(), String>;
+
 #[derive(Debug, Default)]
 #[doc(hidden)]
 pub struct Times{
@@ -1584,7 +1589,7 @@ pub struct Times{
 
 #[doc(hidden)]
 impl Times {
-    pub fn call(&self) -> Result<(), String> {
+    pub fn call(&self) -> Claim {
         let count = self.count.fetch_add(1, Ordering::Relaxed) + 1;
         if count >= self.range.0.end {
             if self.range.0.end == 1 {
@@ -1610,10 +1615,13 @@ impl Times {
         self.count.load(Ordering::Relaxed)
     }
 
-    /// Has this expectation already been called the maximum allowed number of
-    /// times?
-    pub fn is_done(&self) -> bool {
-        self.count.load(Ordering::Relaxed) >= self.range.0.end - 1
+    /// Like [`call`](Times::call), but if this expectation has already been
+    /// called the maximum allowed number of times, then return `None` and don't
+    /// count the call.
+    pub fn try_call(&self) -> Option<Claim> {
+        self.count.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |count| {
+            if count >= self.range.0.end - 1 { None } else { Some(count + 1) }
+        }).ok().map(|_| Ok(()))
     }
 
     /// Is it required that this expectation be called an exact number of times,
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 3a7a484..cfa06cf 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -953,8 +953,8 @@ impl ToTokens for Common<'_> {
             }
 
             impl #ig Common #tg #wc {
-                fn call(&self, desc: &str) {
-                    self.times.call()
+                fn call(&self, claim: ::mockall::Claim, desc: &str) {
+                    claim
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
                                 "{}", self.matcher.lock().unwrap());
@@ -976,8 +976,16 @@ impl ToTokens for Common<'_> {
                     self
                 }
 
-                fn is_done(&self) -> bool {
-                    self.times.is_done()
+                /// Count one call.  If this Expectation can't accept any more,
+                /// then return None unless it's the only candidate.  Callers in
+                /// other threads may compete, so checking for capacity and
+                /// consuming it must be a single step.
+                fn claim(&self, only: bool) -> Option<::mockall::Claim> {
+                    if only {
+                        Some(self.times.call())
+                    } else {
+                        self.times.try_call()
+                    }
                 }
 
                 #[allow(clippy::ptr_arg)]
@@ -1115,8 +1123,8 @@ impl ToTokens for CommonExpectationMethods<'_> {
                 self
             }
 
-            fn is_done(&self) -> bool {
-                self.common.is_done()
+            fn claim(&self, only: bool) -> Option<::mockall::Claim> {
+                self.common.claim(only)
             }
 
             /// Validate this expectation's matcher.
@@ -2025,10 +2033,12 @@ impl ToTokens for RefExpectation<'_> {
             #[allow(clippy::unused_unit)]
             impl #ig Expectation #tg #wc {
                 /// Call this [`Expectation`] as if it were the real method.
-                #v fn call #lg (&self, #(#argnames: #argty, )*) -> #output
+                #v fn call #lg (&self,
+                    __mockall_claim: ::mockall::Claim,
+                    #(#argnames: #argty, )*) -> #output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    self.common.call(__mockall_claim, &#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
                         let desc = std::format!(
                             "{}", self.common.matcher.lock().unwrap());
@@ -2090,11 +2100,13 @@ impl ToTokens for RefMutExpectation<'_> {
             #[allow(clippy::unused_unit)]
             impl #ig Expectation #tg #wc {
                 /// Simulating calling the real method for this expectation
-                #v fn call_mut #lg (&mut self, #(#argnames: #argty, )*)
+                #v fn call_mut #lg (&mut self,
+                    __mockall_claim: ::mockall::Claim,
+                    #(#argnames: #argty, )*)
                     -> &mut #owned_output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    self.common.call(__mockall_claim, &#desc);
                     let desc = std::format!(
                         "{}", self.common.matcher.lock().unwrap());
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
@@ -2181,10 +2193,12 @@ impl ToTokens for StaticExpectation<'_> {
             impl #ig Expectation #tg #wc {
                 /// Call this [`Expectation`] as if it were the real method.
                 #[doc(hidden)]
-                #v fn call #lg (&self, #(#argnames: #argty, )* ) -> #output
+                #v fn call #lg (&self,
+                    __mockall_claim: ::mockall::Claim,
+                    #(#argnames: #argty, )* ) -> #output
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    self.common.call(&#desc);
+                    self.common.call(__mockall_claim, &#desc);
                     self.rfunc.lock().unwrap().call_mut(#(#argnames, )*)
                         .unwrap_or_else(|message| {
                             let desc = std::format!(
@@ -2350,11 +2364,13 @@ impl ToTokens for RefExpectations<'_> {
                     -> Option<#output>
                 {
                     self.0.iter()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || self.0.len() == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call(#(#argnames),*)
+                        .filter(|__mockall_e|
+                              __mockall_e.matches(#(#predexprs, )*))
+                        .find_map(|__mockall_e|
+                              __mockall_e.claim(self.0.len() == 1)
+                                  .map(|__mockall_c| (__mockall_e, __mockall_c)))
+                        .map(move |(__mockall_e, __mockall_c)|
+                             __mockall_e.call(__mockall_c, #(#argnames),*)
                         )
                 }
 
@@ -2389,11 +2405,13 @@ impl ToTokens for RefMutExpectations<'_> {
                 {
                     let __mockall_n = self.0.len();
                     self.0.iter_mut()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || __mockall_n == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call_mut(#(#argnames, )*)
+                        .filter(|__mockall_e|
+                              __mockall_e.matches(#(#predexprs, )*))
+                        .find_map(|__mockall_e|
+                              __mockall_e.claim(__mockall_n == 1)
+                                  .map(|__mockall_c| (__mockall_e, __mockall_c)))
+                        .map(move |(__mockall_e, __mockall_c)|
+                             __mockall_e.call_mut(__mockall_c, #(#argnames, )*)
                         )
                 }
 
@@ -2427,11 +2445,13 @@ impl ToTokens for StaticExpectations<'_> {
                     -> Option<#output>
                 {
                     self.0.iter()
-                        .find(|__mockall_e|
-                              __mockall_e.matches(#(#predexprs, )*) &&
-                              (!__mockall_e.is_done() || self.0.len() == 1))
-                        .map(move |__mockall_e|
-                             __mockall_e.call(#(#argnames, )*)
+                        .filter(|__mockall_e|
+                              __mockall_e.matches(#(#predexprs, )*))
+                        .find_map(|__mockall_e|
+                              __mockall_e.claim(self.0.len() == 1)
+                                  .map(|__mockall_c| (__mockall_e, __mockall_c)))
+                        .map(move |(__mockall_e, __mockall_c)|
+                             __mockall_e.call(__mockall_c, #(#argnames, )*)
                         )
                 }
 
-- 
2.43.0


From 75f6e734c0cbfb4dca06957622f2cc3bfafc1ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 02/12] fix: make a call's progress in a Sequence atomic

Counting a call, checking that it is the sequence's turn and recording that the
expectation is satisfied were separate steps.  When two threads made the two
last calls of a times(2) expectation, both could see it satisfied, so one
panicked with a sequence violation and the sequence skipped a step.
---
 mockall/src/lib.rs                  | 41 ++++++++++++++++++++++-------
 mockall_derive/src/mock_function.rs | 31 ++++++++++++++--------
 2 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 13c2241..7d28875 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1153,6 +1153,9 @@ use std::{
           RangeToInclusive},
     sync::{
         Arc,
+        Mutex,
+        MutexGuard,
+        PoisonError,
         atomic::{AtomicUsize, Ordering}
     },
 };
@@ -1574,10 +1577,14 @@ pub enum ExpectedCalls {
     TooFew,
 }
 
-/// The result of counting a call against an expectation: the error describes a
-/// call too many.
+/// The result of counting a call against an expectation
 #[doc(hidden)]
-pub type Claim = Result<(), String>;
+pub struct Claim {
+    /// The error describes a call too many
+    pub times: Result<(), String>,
+    /// Progress of the expectation's sequence just before the call
+    pub level: usize,
+}
 
 #[derive(Debug, Default)]
 #[doc(hidden)]
@@ -1589,7 +1596,7 @@ pub struct Times{
 
 #[doc(hidden)]
 impl Times {
-    pub fn call(&self) -> Claim {
+    pub fn call(&self) -> Result<(), String> {
         let count = self.count.fetch_add(1, Ordering::Relaxed) + 1;
         if count >= self.range.0.end {
             if self.range.0.end == 1 {
@@ -1618,7 +1625,7 @@ impl Times {
     /// Like [`call`](Times::call), but if this expectation has already been
     /// called the maximum allowed number of times, then return `None` and don't
     /// count the call.
-    pub fn try_call(&self) -> Option<Claim> {
+    pub fn try_call(&self) -> Option<Result<(), String>> {
         self.count.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |count| {
             if count >= self.range.0.end - 1 { None } else { Some(count + 1) }
         }).ok().map(|_| Ok(()))
@@ -1693,20 +1700,36 @@ pub struct SeqHandle {
 }
 
 impl SeqHandle {
+    /// Keep other threads from making progress with the Sequence
+    pub fn lock(&self) -> MutexGuard<'_, ()> {
+        self.inner.lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
+    /// How many expectations of the Sequence have been fully satisfied?
+    pub fn level(&self) -> usize {
+        self.inner.satisfaction_level.load(Ordering::Relaxed)
+    }
+
+    /// Is it this expectation's turn when the Sequence has reached `level`?
+    pub fn is_next(&self, level: usize) -> bool {
+        self.seq == level
+    }
+
     /// Tell the Sequence that this expectation has been fully satisfied
     pub fn satisfy(&self) {
         self.inner.satisfy(self.seq);
     }
 
     /// Verify that this handle was called in the correct order
-    pub fn verify(&self, desc: &str) {
-        self.inner.verify(self.seq, desc);
+    pub fn verify(&self, level: usize, desc: &str) {
+        self.inner.verify(self.seq, level, desc);
     }
 }
 
 #[derive(Default)]
 struct SeqInner {
     satisfaction_level: AtomicUsize,
+    lock: Mutex<()>,
 }
 
 impl SeqInner {
@@ -1717,8 +1740,8 @@ impl SeqInner {
     }
 
     /// Verify that the call identified by `seq` was called in the correct order
-    fn verify(&self, seq: usize, desc: &str) {
-        assert_eq!(seq, self.satisfaction_level.load(Ordering::Relaxed),
+    fn verify(&self, seq: usize, level: usize, desc: &str) {
+        assert_eq!(seq, level,
             "{desc}: Method sequence violation")
     }
 }
diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index cfa06cf..1f82350 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -954,17 +954,14 @@ impl ToTokens for Common<'_> {
 
             impl #ig Common #tg #wc {
                 fn call(&self, claim: ::mockall::Claim, desc: &str) {
-                    claim
+                    claim.times
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
                                 "{}", self.matcher.lock().unwrap());
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                 m);
                         });
-                    self.verify_sequence(desc);
-                    if ::mockall::ExpectedCalls::TooFew != self.times.is_satisfied() {
-                        self.satisfy_sequence()
-                    }
+                    self.verify_sequence(claim.level, desc);
                 }
 
                 fn in_sequence(&mut self, __mockall_seq: &mut ::mockall::Sequence)
@@ -979,13 +976,25 @@ impl ToTokens for Common<'_> {
                 /// Count one call.  If this Expectation can't accept any more,
                 /// then return None unless it's the only candidate.  Callers in
                 /// other threads may compete, so checking for capacity and
-                /// consuming it must be a single step.
+                /// consuming it must be a single step, and so must making
+                /// progress in the sequence.
                 fn claim(&self, only: bool) -> Option<::mockall::Claim> {
-                    if only {
-                        Some(self.times.call())
+                    let __mockall_guard = self.seq_handle.as_ref()
+                        .map(|h| h.lock());
+                    let times = if only {
+                        self.times.call()
                     } else {
-                        self.times.try_call()
+                        self.times.try_call()?
+                    };
+                    let mut level = 0;
+                    if let Some(__mockall_handle) = &self.seq_handle {
+                        level = __mockall_handle.level();
+                        if times.is_ok() && __mockall_handle.is_next(level) &&
+                            ::mockall::ExpectedCalls::TooFew != self.times.is_satisfied() {
+                            self.satisfy_sequence()
+                        }
                     }
+                    Some(::mockall::Claim { times, level })
                 }
 
                 #[allow(clippy::ptr_arg)]
@@ -1035,9 +1044,9 @@ impl ToTokens for Common<'_> {
                         );
                 }
 
-                fn verify_sequence(&self, desc: &str) {
+                fn verify_sequence(&self, level: usize, desc: &str) {
                     if let Some(__mockall_handle) = &self.seq_handle {
-                        __mockall_handle.verify(desc)
+                        __mockall_handle.verify(level, desc)
                     }
                 }
             }
-- 
2.43.0


From 0f022b1eba9b15ad7cfd01779f1af67236aa93ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:22 +0000
Subject: [PATCH 03/12] fix: don't let a static method's poisoned mutex leak

If a call to a mocked static method panicked in a thread that does not own the
Context, then every later use of that method, even by unrelated tests, failed
with a PoisonError, and the Context's verification was replaced by that error.
The expectations are never left in an inconsistent state, so ignore the poison.
---
 mockall_derive/src/mock_function.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 1f82350..051304b 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -548,7 +548,8 @@ impl MockFunction {
                     let no_match_msg = #no_match_msg;
                     #deref {
                         let __mockall_guard = #outer_mod_path::get_expectations()
-                            .lock().unwrap();
+                            .lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner);
                         /*
                          * TODO: catch panics, then gracefully release the mutex
                          * so it won't be poisoned.  This requires bounding any
@@ -588,7 +589,7 @@ impl MockFunction {
                 #(#attrs)*
                 {
                     let __mockall_timeses = #inner_mod_ident::get_expectations().lock()
-                        .unwrap()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .checkpoint()
                         .collect::<Vec<_>>();
                 }
@@ -1628,7 +1629,7 @@ impl ToTokens for Context<'_> {
                 #v fn do_checkpoint() {
                     let __mockall_timeses = get_expectations()
                         .lock()
-                        .unwrap()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
                         .checkpoint()
                         .collect::<Vec<_>>();
                 }
@@ -1638,7 +1639,8 @@ impl ToTokens for Context<'_> {
                 #v fn expect #meth_ig ( &self,) -> ExpectationGuard #e_tg
                     #meth_wc
                 {
-                    ExpectationGuard::new(get_expectations().lock().unwrap())
+                    ExpectationGuard::new(get_expectations().lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner))
                 }
             }
             impl #ty_ig Default for Context #ty_tg #ty_wc {
-- 
2.43.0


From f04afa8b301ea0a8c48cf3b122b0f16671fee79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:42 +0000
Subject: [PATCH 04/12] fix: don't abort when a _st closure is dropped by the
 wrong thread while panicking

If a mock with an unsatisfied expectation that uses a _st closure was dropped in
another thread, or if it had two _st closures, or a return_once_st closure was
called from another thread, then fragile's second panic aborted the whole test
process, hiding the message of the first.
---
 mockall/src/lib.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 7d28875..e638678 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1162,9 +1162,6 @@ use std::{
 
 #[doc(hidden)]
 pub use downcast::{Any, Downcast};
-#[doc(hidden)]
-pub use fragile::Fragile;
-
 pub use predicates::{
     boolean::PredicateBooleanExt,
     prelude::{
@@ -1477,6 +1474,41 @@ pub struct DefaultReturner<O>(PhantomData<O>);
     }
 }
 
+/// Like [`fragile::Fragile`], but if it gets dropped in the wrong thread while
+/// that thread is already panicking then leak the value instead of panicking a
+/// second time, which would abort the process.
+#[doc(hidden)]
+pub struct Fragile<T>(Option<fragile::Fragile<T>>);
+
+impl<T> Fragile<T> {
+    pub fn new(t: T) -> Self {
+        Fragile(Some(fragile::Fragile::new(t)))
+    }
+
+    pub fn get(&self) -> &T {
+        self.0.as_ref().unwrap().get()
+    }
+
+    pub fn get_mut(&mut self) -> &mut T {
+        self.0.as_mut().unwrap().get_mut()
+    }
+
+    pub fn into_inner(mut self) -> T {
+        self.get();     // Panics, if in the wrong thread
+        self.0.take().unwrap().into_inner()
+    }
+}
+
+impl<T> Drop for Fragile<T> {
+    fn drop(&mut self) {
+        if let Some(f) = self.0.take() {
+            if !f.is_valid() && std::thread::panicking() {
+                std::mem::forget(f);
+            }
+        }
+    }
+}
+
 // Wrapper type to allow for better expectation messages for any type.
 // Will first try Debug, otherwise will print '?'
 #[doc(hidden)]
-- 
2.43.0


From d005e476c89cfdefb483bc5ebf4e803944615b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:07 +0000
Subject: [PATCH 05/12] fix: an expectation that is never called must not block
 its Sequence

.never() and .times(0) are exact call counts, so in_sequence accepts them, but
their slot in the sequence could not be satisfied, and every later call of the
sequence panicked with a sequence violation.
---
 mockall_derive/src/mock_function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 051304b..4598bdf 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -970,7 +970,11 @@ impl ToTokens for Common<'_> {
                 {
                     assert!(self.times.is_exact(),
                         "Only Expectations with an exact call count have sequences");
-                    self.seq_handle = Some(__mockall_seq.next_handle());
+                    // An expectation that will never be called is satisfied from
+                    // the start, so it must not hold up the others.
+                    if self.times.maximum() > 0 {
+                        self.seq_handle = Some(__mockall_seq.next_handle());
+                    }
                     self
                 }
 
-- 
2.43.0


From 4e219a4bf46dea0ab1ef10b6f6c858fca4bebeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 06/12] fix: clear a Context's expectations even if its mutex
 gets poisoned meanwhile

When a Context was dropped by a panicking thread, it cleared the poison and then
locked the mutex.  Another thread whose call panicked in between poisoned it
again, so the expectations were left behind for the next test.
---
 mockall_derive/src/mock_function.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 4598bdf..5b5ae74 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1663,7 +1663,9 @@ impl ToTokens for Context<'_> {
                         // double-panic.
                         let _ = get_expectations()
                             .lock()
-                            .map(|mut g| g.checkpoint().collect::<Vec<_>>());
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                            .checkpoint()
+                            .collect::<Vec<_>>();
                     } else {
                         // Verify expectations are satisfied
                         Self::do_checkpoint();
-- 
2.43.0


From c9ffe921f599d47d904fcbe4200258d53c074c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:09 +0000
Subject: [PATCH 07/12] fix: don't let a panicking matcher or return closure
 poison its expectation

After a return closure, a matcher, or a single-threaded closure used by the
wrong thread panics, later users of the same method got a PoisonError instead
of the documented behavior.  A poisoned matcher even broke calls that another
expectation should answer, and the mock's drop.
---
 mockall_derive/src/mock_function.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 5b5ae74..f945b91 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -958,7 +958,8 @@ impl ToTokens for Common<'_> {
                     claim.times
                         .unwrap_or_else(|m| {
                             let desc = std::format!(
-                                "{}", self.matcher.lock().unwrap());
+                                "{}", self.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                 m);
                         });
@@ -1005,7 +1006,9 @@ impl ToTokens for Common<'_> {
                 #[allow(clippy::ptr_arg)]
                 #[allow(clippy::ref_option)]
                 fn matches #lg (&self, #( #argnames: &#predty, )*) -> bool {
-                    self.matcher.lock().unwrap().matches(#(#argnames, )*)
+                    self.matcher.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                        .matches(#(#argnames, )*)
                 }
 
                 /// Forbid this expectation from ever being called.
@@ -1060,7 +1063,8 @@ impl ToTokens for Common<'_> {
                 fn drop(&mut self) {
                     if !::std::thread::panicking() {
                         let desc = std::format!(
-                            "{}", self.matcher.lock().unwrap());
+                            "{}", self.matcher.lock()
+                                .unwrap_or_else(::std::sync::PoisonError::into_inner));
                         match self.times.is_satisfied() {
                             ::mockall::ExpectedCalls::TooFew => {
                                 panic!("{}: Expectation({}) called {} time(s) which is fewer than expected {}",
@@ -2058,7 +2062,8 @@ impl ToTokens for RefExpectation<'_> {
                     self.common.call(__mockall_claim, &#desc);
                     self.rfunc.call().unwrap_or_else(|m| {
                         let desc = std::format!(
-                            "{}", self.common.matcher.lock().unwrap());
+                            "{}", self.common.matcher.lock()
+                                .unwrap_or_else(::std::sync::PoisonError::into_inner));
                         panic!("{}: Expectation({}) {}", #funcname, desc,
                             m);
                     })
@@ -2125,7 +2130,8 @@ impl ToTokens for RefMutExpectation<'_> {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(__mockall_claim, &#desc);
                     let desc = std::format!(
-                        "{}", self.common.matcher.lock().unwrap());
+                        "{}", self.common.matcher.lock()
+                            .unwrap_or_else(::std::sync::PoisonError::into_inner));
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                    m);
@@ -2216,10 +2222,13 @@ impl ToTokens for StaticExpectation<'_> {
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(__mockall_claim, &#desc);
-                    self.rfunc.lock().unwrap().call_mut(#(#argnames, )*)
+                    self.rfunc.lock()
+                        .unwrap_or_else(::std::sync::PoisonError::into_inner)
+                        .call_mut(#(#argnames, )*)
                         .unwrap_or_else(|message| {
                             let desc = std::format!(
-                                "{}", self.common.matcher.lock().unwrap());
+                                "{}", self.common.matcher.lock()
+                                    .unwrap_or_else(::std::sync::PoisonError::into_inner));
                             panic!("{}: Expectation({}) {}", #funcname, desc,
                                    message);
                         })
-- 
2.43.0


From 26edfe9b739c90ea199860cc42136171e8a46025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:35 +0000
Subject: [PATCH 08/12] fix: don't lose a return_once_st closure to a call from
 the wrong thread

---
 mockall_derive/src/mock_function.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index f945b91..572cda7 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1999,7 +1999,10 @@ impl ToTokens for StaticRfunc<'_> {
                                 unreachable!()
                             }
                         },
-                        Rfunc::OnceSt(_) => {
+                        Rfunc::OnceSt(__mockall_f) => {
+                            // Panic here if called from the wrong thread, so
+                            // the closure may still be used by the right one.
+                            let _ = __mockall_f.get();
                             if let Rfunc::OnceSt(mut __mockall_f) =
                                 mem::replace(self, Rfunc::Expired) {
                                 ::std::result::Result::Ok((__mockall_f.into_inner())(#(#argnames,)*))
-- 
2.43.0


From 1784a26ed87c48f78b2f9c8f1e0866051c7651c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 09/12] fix: unlock before dropping expectations when a Context
 drops while panicking

---
 mockall_derive/src/mock_function.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index 572cda7..c3479a4 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -1664,8 +1664,9 @@ impl ToTokens for Context<'_> {
                         #clear_poison
                         // Drain all expectations so other tests can run with a
                         // blank slate.  But ignore errors so we don't
-                        // double-panic.
-                        let _ = get_expectations()
+                        // double-panic.  Unlock the Mutex before dropping
+                        // them, in case that needs to call this function.
+                        let __mockall_timeses = get_expectations()
                             .lock()
                             .unwrap_or_else(::std::sync::PoisonError::into_inner)
                             .checkpoint()
-- 
2.43.0


From 7574439adc8a5d6a13dc89316e84335dc3ffc600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:05 +0000
Subject: [PATCH 10/12] fix: reject empty ranges like times(..0)

They used to be accepted, and then every call, and even a drop without any
call, failed with an arithmetic overflow.
---
 mockall/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index e638678..2e0c360 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1591,6 +1591,7 @@ impl From<RangeInclusive<usize>> for TimesRange {
 
 impl From<RangeTo<usize>> for TimesRange {
     fn from(r: RangeTo<usize>) -> TimesRange {
+        assert!(r.end > 0, "Backwards range");
         TimesRange(0..r.end)
     }
 }
-- 
2.43.0


From 97544d44ee92bde979eecaf2500488c62119e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:35 +0000
Subject: [PATCH 11/12] fix: accept usize::MAX as the end of an inclusive range

The conversion to a half-open range overflowed: times(1..=usize::MAX)
panicked in debug builds and, in release builds, allowed no calls at all.
---
 mockall/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mockall/src/lib.rs b/mockall/src/lib.rs
index 2e0c360..5901ade 100644
--- a/mockall/src/lib.rs
+++ b/mockall/src/lib.rs
@@ -1585,7 +1585,7 @@ impl From<RangeFull> for TimesRange {
 impl From<RangeInclusive<usize>> for TimesRange {
     fn from(r: RangeInclusive<usize>) -> TimesRange {
         assert!(r.end() >= r.start(), "Backwards range");
-        TimesRange(*r.start()..*r.end() + 1)
+        TimesRange(*r.start()..r.end().saturating_add(1))
     }
 }
 
@@ -1598,7 +1598,7 @@ impl From<RangeTo<usize>> for TimesRange {
 
 impl From<RangeToInclusive<usize>> for TimesRange {
     fn from(r: RangeToInclusive<usize>) -> TimesRange {
-        TimesRange(0..r.end + 1)
+        TimesRange(0..r.end.saturating_add(1))
     }
 }
 
-- 
2.43.0


From 02a8b3778ab727f195b84ebefcaf83b00ea937f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:01 +0000
Subject: [PATCH 12/12] fix: don't let a generated variable shadow an argument
 of the same name

---
 mockall_derive/src/mock_function.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mockall_derive/src/mock_function.rs b/mockall_derive/src/mock_function.rs
index c3479a4..d32e141 100644
--- a/mockall_derive/src/mock_function.rs
+++ b/mockall_derive/src/mock_function.rs
@@ -545,7 +545,7 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref {
                         let __mockall_guard = #outer_mod_path::get_expectations()
                             .lock()
@@ -558,7 +558,7 @@ impl MockFunction {
                         /* std::panic::catch_unwind(|| */
                         __mockall_guard.#call #tbf(#(#call_exprs,)*)
                         /*)*/
-                    }.expect(&no_match_msg)
+                    }.expect(&__mockall_no_match_msg)
                 }
             )
         } else {
@@ -569,9 +569,9 @@ impl MockFunction {
                 #no_mangle
                 #vis #sig {
                     use ::mockall::{ViaDebug, ViaNothing};
-                    let no_match_msg = #no_match_msg;
+                    let __mockall_no_match_msg = #no_match_msg;
                     #deref self.#substruct_obj #name.#call #tbf(#(#call_exprs,)*)
-                    .expect(&no_match_msg)
+                    .expect(&__mockall_no_match_msg)
                 }
 
             )
@@ -2133,12 +2133,12 @@ impl ToTokens for RefMutExpectation<'_> {
                 {
                     use ::mockall::{ViaDebug, ViaNothing};
                     self.common.call(__mockall_claim, &#desc);
-                    let desc = std::format!(
+                    let __mockall_desc = std::format!(
                         "{}", self.common.matcher.lock()
                             .unwrap_or_else(::std::sync::PoisonError::into_inner));
                     self.rfunc.call_mut(#(#argnames, )*).unwrap_or_else(|m| {
-                            panic!("{}: Expectation({}) {}", #funcname, desc,
-                                   m);
+                            panic!("{}: Expectation({}) {}", #funcname,
+                                   __mockall_desc, m);
                     })
                 }
 
-- 
2.43.0

