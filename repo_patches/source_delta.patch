From 3086e02c983088b7677805fa8a98f8b88dc81bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 01/82] fix: never reuse stream ids after clear(), old
 producers may still hold them

---
 src/runtime/stream_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index b8958ca..1bfbcad 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -174,8 +174,8 @@ impl StreamManager {
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
         self.metadata.lock().unwrap().clear();
-        // Reset next_id so stream IDs don't grow unbounded across reuses
-        *self.next_id.lock().unwrap() = 1;
+        // next_id is NOT reset: producers and readers of the previous request may
+        // still hold old IDs, which must never refer to a stream of a later one.
     }
 
     /// Count active streams
-- 
2.43.0


From 1e6505e68badc8858bafa77341d664d7ce7aefcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 02/82] fix: a read in flight does not resurrect the receiver
 of a closed stream

---
 src/runtime/stream_manager.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 1bfbcad..22b2852 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -137,7 +137,13 @@ impl StreamManager {
                         // Don't put back - stream is finished
                     }
                     StreamChunk::Data(_) => {
-                        self.receivers.lock().unwrap().insert(stream_id, rx);
+                        let mut receivers = self.receivers.lock().unwrap();
+
+                        // The stream may have been closed while this read was in flight;
+                        // then the receiver goes, so that writers see the closed channel.
+                        if self.metadata.lock().unwrap().contains_key(&stream_id) {
+                            receivers.insert(stream_id, rx);
+                        }
                     }
                 }
             }
@@ -159,9 +165,10 @@ impl StreamManager {
 
     /// Close and remove a stream
     pub fn close_stream(&self, stream_id: StreamId) {
+        // metadata first: a read in flight checks it before putting the receiver back
+        self.metadata.lock().unwrap().remove(&stream_id);
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
-        self.metadata.lock().unwrap().remove(&stream_id);
     }
 
     /// Get information about a stream (for debugging)
@@ -171,9 +178,9 @@ impl StreamManager {
 
     /// Clear all streams (used for context reuse between requests)
     pub fn clear(&self) {
+        self.metadata.lock().unwrap().clear();
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
-        self.metadata.lock().unwrap().clear();
         // next_id is NOT reset: producers and readers of the previous request may
         // still hold old IDs, which must never refer to a stream of a later one.
     }
-- 
2.43.0


From 94beaf7dd1496f1b04cb84c6e14e0a2315bc2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 03/82] fix: a release between a failed lock attempt and its
 registration no longer loses the wakeup

---
 src/async_waiter.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index 1ccc28a..de9ad40 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -45,6 +45,10 @@ impl AsyncWaiter {
     /// Uses `compare_exchange` for correctness even though current callers are
     /// single-threaded (all on the same LocalSet).
     pub fn try_lock(&self, cx: &mut Context<'_>) -> bool {
+        // The queue is held across the attempt and the registration: a release in
+        // between would find nobody to wake and this waiter would sleep forever.
+        let mut queue = self.queue.lock().unwrap();
+
         if self
             .locked
             .compare_exchange(false, true, Ordering::AcqRel, Ordering::Acquire)
@@ -52,16 +56,20 @@ impl AsyncWaiter {
         {
             true
         } else {
-            self.queue.lock().unwrap().push_back(cx.waker().clone());
+            queue.push_back(cx.waker().clone());
             false
         }
     }
 
     /// Release the turn. Wakes the next waiter in FIFO order.
     pub fn unlock(&self) {
-        self.locked.store(false, Ordering::Release);
+        let next = {
+            let mut queue = self.queue.lock().unwrap();
+            self.locked.store(false, Ordering::Release);
+            queue.pop_front()
+        };
 
-        if let Some(waker) = self.queue.lock().unwrap().pop_front() {
+        if let Some(waker) = next {
             waker.wake();
         }
     }
-- 
2.43.0


From 46d3c698a76ed9ff97d66c3be602d6a197528dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 04/82] fix: an ArrayBuffer request over the limit no longer
 touches the total (wrap-around, spurious denials)

---
 src/security/array_buffer_allocator.rs | 35 ++++++++++++--------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/security/array_buffer_allocator.rs b/src/security/array_buffer_allocator.rs
index 9571eac..3242255 100644
--- a/src/security/array_buffer_allocator.rs
+++ b/src/security/array_buffer_allocator.rs
@@ -69,6 +69,17 @@ impl CustomAllocator {
         unsafe { v8::new_rust_allocator(Arc::into_raw(self), vtable) }
     }
 
+    /// Add `n` bytes to the running total if they fit (atomic, thread-safe).
+    ///
+    /// A rejected request leaves the total untouched, so it can neither wrap it
+    /// around nor make concurrent requests that do fit fail.
+    fn reserve(&self, n: usize) -> Result<usize, usize> {
+        self.count
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |used| {
+                used.checked_add(n).filter(|total| *total <= self.max)
+            })
+    }
+
     /// Get current memory usage in bytes.
     #[allow(dead_code)]
     pub fn current_usage(&self) -> usize {
@@ -80,24 +91,15 @@ impl CustomAllocator {
 /// Returns a pointer to zeroed memory, or NULL if the limit is exceeded.
 #[allow(clippy::unnecessary_cast)]
 unsafe extern "C" fn allocate(allocator: &CustomAllocator, n: usize) -> *mut c_void {
-    // Optimistically add n bytes to our running total (atomic, thread-safe)
-    allocator.count.fetch_add(n, Ordering::SeqCst);
-
-    // Read the new total to check against the limit
-    let count_loaded = allocator.count.load(Ordering::SeqCst);
-
-    // If we've exceeded the limit, reject the allocation
-    if count_loaded > allocator.max {
+    // If we'd exceed the limit, reject the allocation
+    if let Err(used) = allocator.reserve(n) {
         eprintln!(
             "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
-            count_loaded / 1024 / 1024,
+            used.saturating_add(n) / 1024 / 1024,
             allocator.max / 1024 / 1024
         );
         // Set flag so the runtime knows why we failed
         allocator.memory_limit_hit.store(true, Ordering::SeqCst);
-        // IMPORTANT: rollback the count since we're not actually allocating
-        // Without this, failed allocations would permanently "use up" the quota
-        allocator.count.fetch_sub(n, Ordering::SeqCst);
         // Return NULL - V8 will throw RangeError: Array buffer allocation failed
         return std::ptr::null::<*mut [u8]>() as *mut c_void;
     }
@@ -115,18 +117,13 @@ unsafe extern "C" fn allocate(allocator: &CustomAllocator, n: usize) -> *mut c_v
 #[allow(clippy::unnecessary_cast)]
 #[allow(clippy::uninit_vec)]
 unsafe extern "C" fn allocate_uninitialized(allocator: &CustomAllocator, n: usize) -> *mut c_void {
-    allocator.count.fetch_add(n, Ordering::SeqCst);
-
-    let count_loaded = allocator.count.load(Ordering::SeqCst);
-
-    if count_loaded > allocator.max {
+    if let Err(used) = allocator.reserve(n) {
         eprintln!(
             "[openworkers-runtime-v8] ArrayBuffer allocation denied: {}MB exceeds limit of {}MB",
-            count_loaded / 1024 / 1024,
+            used.saturating_add(n) / 1024 / 1024,
             allocator.max / 1024 / 1024
         );
         allocator.memory_limit_hit.store(true, Ordering::SeqCst);
-        allocator.count.fetch_sub(n, Ordering::SeqCst);
         return std::ptr::null::<*mut [u8]>() as *mut c_void;
     }
 
-- 
2.43.0


From 8c89d3ee5aa0b708ce4762fe173b78e2660ff2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 05/82] fix: the count of deferred destructions no longer
 underflows when processing races with deferring

---
 src/gc/deferred_destruction.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/gc/deferred_destruction.rs b/src/gc/deferred_destruction.rs
index eb9a4b2..7bf558a 100644
--- a/src/gc/deferred_destruction.rs
+++ b/src/gc/deferred_destruction.rs
@@ -111,11 +111,17 @@ impl DeferredDestructionQueue {
     /// holding the isolate lock.
     pub fn defer<T: 'static>(&self, handle: v8::Global<T>) {
         let deferred = DeferredHandle::new(handle);
-        self.queue
-            .lock()
-            .expect("deferred destruction queue poisoned")
-            .push_back(deferred);
-        self.pending_count.fetch_add(1, Ordering::Release);
+
+        {
+            // Counted under the lock: a handle must not be processed (and subtracted)
+            // before it was added to the count.
+            let mut queue = self
+                .queue
+                .lock()
+                .expect("deferred destruction queue poisoned");
+            queue.push_back(deferred);
+            self.pending_count.fetch_add(1, Ordering::Release);
+        }
 
         tracing::trace!("Deferred V8 handle destruction (pending: {})", self.len());
     }
-- 
2.43.0


From c80d084557392e65453ee0655ef9ca72c78fb2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 06/82] fix: external memory guards report to the isolate they
 belong to, not to whichever is locked

---
 src/gc/external_memory.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/gc/external_memory.rs b/src/gc/external_memory.rs
index 606a789..168407a 100644
--- a/src/gc/external_memory.rs
+++ b/src/gc/external_memory.rs
@@ -88,14 +88,24 @@ impl ExternalMemoryGuard {
         if delta != 0 {
             self.amount += delta;
 
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(delta);
-
-                // Capture the pending delta if we didn't have one yet
-                if self.pending_delta.is_none() {
-                    self.pending_delta = Some(lock.pending_delta());
-                }
-            } else if let Some(ref pending) = self.pending_delta {
+            if let Some(ref pending) = self.pending_delta {
+                Self::report(pending, delta);
+            } else if let Some(lock) = JsLock::try_current() {
+                // First lock seen by this guard: nothing was reported so far
+                lock.adjust_external_memory(self.amount);
+                self.pending_delta = Some(lock.pending_delta());
+            }
+        }
+    }
+
+    /// Report `delta` to the isolate this guard belongs to: directly if that is the
+    /// currently locked one, otherwise through its deferred accumulator.
+    fn report(pending: &Arc<AtomicI64>, delta: i64) {
+        match JsLock::try_current() {
+            Some(lock) if Arc::ptr_eq(&lock.pending_delta(), pending) => {
+                lock.adjust_external_memory(delta)
+            }
+            _ => {
                 pending.fetch_add(delta, Ordering::SeqCst);
             }
         }
@@ -118,13 +128,10 @@ impl Drop for ExternalMemoryGuard {
     fn drop(&mut self) {
         if self.amount != 0 {
             // Subtract our tracked memory
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(-self.amount);
-            } else if let Some(ref pending) = self.pending_delta {
-                pending.fetch_add(-self.amount, Ordering::SeqCst);
+            if let Some(ref pending) = self.pending_delta {
+                Self::report(pending, -self.amount);
             }
-            // else: no lock and no captured isolate — memory tracking lost.
-            // This only happens for guards created without a JsLock (tests).
+            // else: no isolate was ever captured, so nothing was reported.
         }
     }
 }
-- 
2.43.0


From a0732ba8aaeaefd209c1c4effc1c8ac37aee9e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 07/82] fix: a CPU limit that fires while its enforcer is
 dropped can no longer terminate the next execution

---
 src/security/cpu_enforcer.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 4eebb9e..102bd5c 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -163,15 +163,6 @@ mod linux {
         terminated: Arc<AtomicBool>,
     }
 
-    impl Clone for EnforcerData {
-        fn clone(&self) -> Self {
-            Self {
-                isolate_handle: self.isolate_handle.clone(),
-                terminated: self.terminated.clone(),
-            }
-        }
-    }
-
     static ENFORCER_REGISTRY: std::sync::LazyLock<Mutex<HashMap<usize, EnforcerData>>> =
         std::sync::LazyLock::new(|| {
             spawn_signal_handler_thread();
@@ -230,13 +221,12 @@ mod linux {
                 // Extract enforcer_id from signal value (set in timer_create)
                 let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
 
-                // Lookup ONLY this specific enforcer in registry
-                let data = {
-                    let map = ENFORCER_REGISTRY.lock().unwrap();
-                    map.get(&enforcer_id).cloned()
-                };
+                // Lookup ONLY this specific enforcer in registry. The registry stays
+                // locked until the isolate was told to terminate: once an enforcer is
+                // dropped (unregistered), it can no longer hit the next execution.
+                let map = ENFORCER_REGISTRY.lock().unwrap();
 
-                if let Some(enforcer_data) = data {
+                if let Some(enforcer_data) = map.get(&enforcer_id) {
                     if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
                         eprintln!(
                             "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
-- 
2.43.0


From 8dc3e1237b66eebbcc702f3b424ba91769822c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 08/82] fix: the SIGALRM handler is registered before the first
 CPU timer is armed

---
 src/security/cpu_enforcer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 102bd5c..ddec208 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -193,14 +193,20 @@ mod linux {
         static SIGNAL_THREAD_SPAWNED: Once = Once::new();
 
         SIGNAL_THREAD_SPAWNED.call_once(|| {
+            let (ready_tx, ready_rx) = std::sync::mpsc::channel();
+
             std::thread::Builder::new()
                 .name("cpu-enforcer".into())
-                .spawn(signal_handler_thread)
+                .spawn(move || signal_handler_thread(ready_tx))
                 .expect("Failed to spawn CPU enforcer signal handler thread");
+
+            // SIGALRM kills the process until its handler is registered, so no timer
+            // may be armed before that.
+            let _ = ready_rx.recv();
         });
     }
 
-    fn signal_handler_thread() {
+    fn signal_handler_thread(ready: std::sync::mpsc::Sender<()>) {
         use futures::StreamExt;
         use signal_hook::consts::signal;
         use signal_hook::iterator::exfiltrator::raw::WithRawSiginfo;
@@ -216,6 +222,7 @@ mod linux {
             // Setup async-signal-safe SIGALRM handler with raw siginfo extraction
             let mut signals = SignalsInfo::with_exfiltrator([signal::SIGALRM], WithRawSiginfo)
                 .expect("Failed to register SIGALRM handler");
+            let _ = ready.send(());
 
             while let Some(siginfo) = signals.next().await {
                 // Extract enforcer_id from signal value (set in timer_create)
-- 
2.43.0


From 805555ed9b70f1741746557f9dfe1c395184079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 09/82] fix: cancelling or closing a ReadableStream ends
 pending reads, drops unread chunks and settles reader.closed

---
 src/runtime/streams.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index a3e69e3..2a815ed 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -49,8 +49,12 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._controller._abortController.abort(reason || 'Stream cancelled');
                 }
 
+                // Drop what was not read, end pending reads
+                this._controller._queue = [];
+
                 // Clear reader
                 if (this._reader) {
+                    this._reader._processQueue();
                     this._reader._closePending();
                     this._reader = null;
                 }
@@ -230,6 +234,21 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                 this._closeRequested = true;
                 this._queue.push({ type: 'close' });
                 this._processQueue();
+                this._closeIfDrained();
+            }
+
+            // Once everything before the close was read, the stream is closed
+            _closeIfDrained() {
+                if (this._queue.length === 0 || this._queue[0].type !== 'close') {
+                    return;
+                }
+
+                this._queue = [];
+                this._stream._state = 'closed';
+
+                if (this._stream._reader) {
+                    this._stream._reader._closePending();
+                }
             }
 
             error(error) {
@@ -287,6 +306,12 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._closedPromiseResolve = resolve;
                     this._closedPromiseReject = reject;
                 });
+
+                if (stream._state === 'closed') {
+                    this._closePending();
+                } else if (stream._state === 'errored') {
+                    this._errorPending(stream._storedError);
+                }
             }
 
             read() {
@@ -310,6 +335,7 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                         return Promise.resolve({ done: true, value: undefined });
                     }
 
+                    controller._closeIfDrained();
                     return Promise.resolve({ done: false, value: item.value });
                 }
 
-- 
2.43.0


From 90c4ff8d4adc02fab320fedab4a96905c3ddc05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 10/82] fix: TextEncoder.encodeInto counts and splits
 characters correctly, encode() of nothing is empty; TextDecoder honours the
 byte order mark

---
 src/runtime/text_encoding.rs | 41 ++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index d278535..1c64720 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -36,6 +36,7 @@ fn text_decode(
     // arg0: Uint8Array or ArrayBuffer
     // arg1: encoding label (string)
     // arg2: fatal (bool) — if true, throw on invalid sequences instead of replacing
+    // arg3: ignoreBOM (bool) — if true, keep a leading byte order mark in the output
 
     let input = args.get(0);
 
@@ -81,6 +82,13 @@ fn text_decode(
         false
     };
 
+    // Get ignoreBOM flag
+    let ignore_bom = if args.length() > 3 {
+        args.get(3).boolean_value(scope)
+    } else {
+        false
+    };
+
     // Look up encoding
     let encoding = match encoding_rs::Encoding::for_label(encoding_label.as_bytes()) {
         Some(enc) => enc,
@@ -99,10 +107,14 @@ fn text_decode(
         }
     };
 
+    let (decoded, had_errors) = if ignore_bom {
+        encoding.decode_without_bom_handling(&bytes)
+    } else {
+        encoding.decode_with_bom_removal(&bytes)
+    };
+
     let result = if fatal {
         // Fatal mode: return error on invalid sequences
-        let (decoded, had_errors) = encoding.decode_without_bom_handling(&bytes);
-
         if had_errors {
             let msg = v8::String::new(scope, "TextDecoder: invalid byte sequence").unwrap();
             let exc = v8::Exception::type_error(scope, msg);
@@ -112,8 +124,7 @@ fn text_decode(
 
         decoded.into_owned()
     } else {
-        // Replacement mode: replace invalid sequences with U+FFFD
-        let (decoded, _) = encoding.decode_without_bom_handling(&bytes);
+        // Replacement mode: invalid sequences were replaced with U+FFFD
         decoded.into_owned()
     };
 
@@ -147,15 +158,27 @@ pub const TEXT_ENCODING_JS: &str = r#"
             this.encoding = 'utf-8';
         }
 
-        encode(input) {
+        encode(input = '') {
             return __text_encode(input);
         }
 
         encodeInto(source, destination) {
             const encoded = __text_encode(source);
-            const len = Math.min(encoded.length, destination.length);
-            destination.set(encoded.subarray(0, len));
-            return { read: len, written: len };
+            let written = Math.min(encoded.length, destination.length);
+
+            // Never write a part of a character
+            while (written < encoded.length && (encoded[written] & 0xc0) === 0x80) {
+                written--;
+            }
+
+            // `read` counts UTF-16 code units of the source
+            let read = 0;
+            for (let i = 0; i < written; i++) {
+                if ((encoded[i] & 0xc0) !== 0x80) read += encoded[i] >= 0xf0 ? 2 : 1;
+            }
+
+            destination.set(encoded.subarray(0, written));
+            return { read, written };
         }
     };
 
@@ -204,7 +227,7 @@ pub const TEXT_ENCODING_JS: &str = r#"
                         ? new Uint8Array(input)
                         : input;
 
-            return __text_decode(bytes, this.#encoding, this.#fatal);
+            return __text_decode(bytes, this.#encoding, this.#fatal, this.#ignoreBOM);
         }
     };
 "#;
-- 
2.43.0


From 85c268db41c21e3f31aa928793244e2f4878c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 11/82] fix: atob rejects input that is not base64 instead of
 decoding it to zeros

---
 src/runtime/bindings/web_api.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index e8d5ac2..96c3532 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -419,7 +419,13 @@ pub fn setup_base64(scope: &mut v8::PinScope) {
         // atob: base64 → binary string
         // Returns a string where each char is one byte (latin-1), NOT UTF-8.
         globalThis.atob = function(base64) {
-            base64 = base64.replace(/[\s=]/g, '');
+            base64 = String(base64).replace(/[\t\n\f\r ]/g, '');
+            if (base64.length % 4 === 0) base64 = base64.replace(/==?$/, '');
+
+            if (base64.length % 4 === 1 || /[^A-Za-z0-9+\/_-]/.test(base64)) {
+                throw new DOMException('Invalid base64 input', 'InvalidCharacterError');
+            }
+
             const len = base64.length;
             const outLen = (len * 3) >>> 2;
             let result = '';
-- 
2.43.0


From efd386ff42e8f94ed259de299dfcc5a8afbf9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 12/82] fix: a wall-clock timeout wakes an execution that waits
 for I/O

---
 src/execution_context.rs      |  2 ++
 src/security/timeout_guard.rs | 41 ++++++++++++++++++++++++++++++-----
 src/worker.rs                 |  2 ++
 src/worker_future.rs          |  2 ++
 4 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0140b38..21a8d09 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1013,6 +1013,8 @@ impl ExecutionContext {
         let async_waiter = self.async_waiter.clone(); // Clone Rc (cheap) to avoid borrow on self
 
         std::future::poll_fn(|cx| {
+            wall_guard.wake_on_timeout(cx.waker());
+
             // -- Fair queue gate (if multiplexing enabled) --
             // When multiple requests share an isolate, only one can hold the
             // V8 Locker at a time. Others wait in FIFO order.
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 84dc07b..cf1474c 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -23,9 +23,10 @@
 //! The `IsolateHandle` is thread-safe and can be used from the watchdog thread
 //! to terminate execution in the main thread.
 
-use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc;
+use std::sync::{Arc, Mutex};
+use std::task::Waker;
 use std::thread;
 use std::time::Duration;
 
@@ -51,12 +52,18 @@ use std::time::Duration;
 pub struct TimeoutGuard {
     /// Channel to send cancellation signal to watchdog
     cancel_tx: Option<mpsc::Sender<()>>,
-    /// Handle to join the watchdog thread
-    thread_handle: Option<thread::JoinHandle<()>>,
+    /// Handle to the watchdog thread
+    thread_handle: Option<Watchdog>,
     /// Flag set when timeout is triggered
     triggered: Arc<AtomicBool>,
 }
 
+/// The watchdog thread and the task it wakes on timeout
+struct Watchdog {
+    thread: thread::JoinHandle<()>,
+    waker: Arc<Mutex<Option<Waker>>>,
+}
+
 impl TimeoutGuard {
     /// Create a new timeout guard with the given V8 isolate handle and timeout.
     ///
@@ -83,6 +90,8 @@ impl TimeoutGuard {
 
         let (cancel_tx, cancel_rx) = mpsc::channel::<()>();
         let triggered_clone = triggered.clone();
+        let waker: Arc<Mutex<Option<Waker>>> = Arc::new(Mutex::new(None));
+        let waker_clone = waker.clone();
 
         let thread_handle = thread::Builder::new()
             .name("timeout-watchdog".into())
@@ -103,6 +112,14 @@ impl TimeoutGuard {
                         );
                         triggered_clone.store(true, Ordering::SeqCst);
                         isolate_handle.terminate_execution();
+
+                        // The task may be waiting for I/O: without a wakeup it would
+                        // not notice the timeout until something else polls it.
+                        let waker = waker_clone.lock().unwrap().take();
+
+                        if let Some(waker) = waker {
+                            waker.wake();
+                        }
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
                     Err(mpsc::RecvTimeoutError::Disconnected) => {
@@ -114,7 +131,10 @@ impl TimeoutGuard {
 
         Self {
             cancel_tx: Some(cancel_tx),
-            thread_handle: Some(thread_handle),
+            thread_handle: Some(Watchdog {
+                thread: thread_handle,
+                waker,
+            }),
             triggered,
         }
     }
@@ -125,6 +145,15 @@ impl TimeoutGuard {
     pub fn was_triggered(&self) -> bool {
         self.triggered.load(Ordering::SeqCst)
     }
+
+    /// Wake the given task when the timeout triggers.
+    ///
+    /// Call this before checking `was_triggered()`, on every poll.
+    pub fn wake_on_timeout(&self, waker: &Waker) {
+        if let Some(watchdog) = &self.thread_handle {
+            *watchdog.waker.lock().unwrap() = Some(waker.clone());
+        }
+    }
 }
 
 impl Drop for TimeoutGuard {
@@ -136,9 +165,9 @@ impl Drop for TimeoutGuard {
         }
 
         // Wait for watchdog thread to finish
-        if let Some(handle) = self.thread_handle.take() {
+        if let Some(watchdog) = self.thread_handle.take() {
             // Join the thread - should complete quickly after cancellation
-            if let Err(e) = handle.join() {
+            if let Err(e) = watchdog.thread.join() {
                 eprintln!(
                     "[openworkers-runtime-v8] Timeout watchdog thread panicked: {:?}",
                     e
diff --git a/src/worker.rs b/src/worker.rs
index 82cef42..2e90074 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -750,6 +750,8 @@ impl Worker {
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
 
         std::future::poll_fn(|cx| {
+            wall_guard.wake_on_timeout(cx.waker());
+
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 4c2dbcd..2359e55 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -61,6 +61,8 @@ impl Future for WorkerFuture<'_> {
 
         let this = self.get_mut();
 
+        this.wall_guard.wake_on_timeout(cx.waker());
+
         // 1. Check termination (CPU/wall-clock guards)
         if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
             return Poll::Ready(Err("Execution terminated".to_string()));
-- 
2.43.0


From bdf56e232f8ebb227df2295a2d7cc8c6d08c7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 13/82] fix: the end of a response stream is delivered even
 when its buffer is full

---
 src/runtime/bindings/streams.rs |  4 ++--
 src/runtime/stream_manager.rs   | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 9281eb8..2d69aa6 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -138,9 +138,9 @@ fn response_stream_write(
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
 fn response_stream_end(scope: &mut v8::PinScope, state: &Rc<ResponseStreamState>, stream_id: u64) {
     let _ = scope;
-    let _ = state
+    state
         .manager
-        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done);
+        .finish_stream(stream_id, stream_manager::StreamChunk::Done);
 }
 
 /// Check if a response stream is closed
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 22b2852..8153b92 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -118,6 +118,21 @@ impl StreamManager {
         }
     }
 
+    /// Write the last chunk of a stream (Done or Error) without waiting.
+    /// When the buffer is full it follows as soon as there is room: a stream whose
+    /// last chunk got lost would never end for its reader.
+    pub fn finish_stream(&self, stream_id: StreamId, last: StreamChunk) {
+        let tx = self.senders.lock().unwrap().get(&stream_id).cloned();
+
+        if let Some(tx) = tx
+            && let Err(mpsc::error::TrySendError::Full(last)) = tx.try_send(last)
+        {
+            tokio::spawn(async move {
+                let _ = tx.send(last).await;
+            });
+        }
+    }
+
     /// Read the next chunk from a stream (async, called from scheduler)
     /// This temporarily takes ownership of the receiver to await on it
     pub async fn read_chunk(&self, stream_id: StreamId) -> Result<StreamChunk, String> {
-- 
2.43.0


From db9a708053bd7d80ca7fbccd94ee0b3fde0ed7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 14/82] fix: the body of a response whose execution was
 terminated ends with an error instead of never

---
 src/execution_context.rs | 5 +++++
 src/execution_helpers.rs | 5 +++++
 src/request_context.rs   | 7 +++++++
 src/runtime/mod.rs       | 3 +++
 src/worker.rs            | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 21a8d09..7f11415 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -879,6 +879,11 @@ impl ExecutionContext {
             }
         };
 
+        // Nothing will write to the open streams any more: their readers must not wait
+        if result.is_err() {
+            self.request.stream_manager.clear();
+        }
+
         // Determine termination reason by checking guards (in priority order)
         self.check_termination_reason(
             result,
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 5f522b7..a3aaa70 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -440,6 +440,11 @@ pub fn read_response_object(
                                     break;
                                 }
                                 None => {
+                                    // No Done: the execution that produced the body was
+                                    // terminated. The client must not take it for complete.
+                                    let _ = tx
+                                        .send(Err("Response stream ended unexpectedly".to_string()))
+                                        .await;
                                     break;
                                 }
                             }
diff --git a/src/request_context.rs b/src/request_context.rs
index c32e598..da8ca0a 100644
--- a/src/request_context.rs
+++ b/src/request_context.rs
@@ -105,3 +105,10 @@ impl RequestContext {
         }
     }
 }
+
+impl Drop for RequestContext {
+    fn drop(&mut self) {
+        // Nothing will write to the open streams any more: their readers must not wait
+        self.stream_manager.clear();
+    }
+}
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c6c5eb6..e8502f8 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -874,6 +874,9 @@ impl Runtime {
 impl Drop for Runtime {
     fn drop(&mut self) {
         let _ = self.scheduler_tx.send(SchedulerMessage::Shutdown);
+
+        // Nothing will write to the open streams any more: their readers must not wait
+        self.stream_manager.clear();
     }
 }
 
diff --git a/src/worker.rs b/src/worker.rs
index 2e90074..9c7f5cb 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -654,6 +654,11 @@ impl Worker {
             }
         };
 
+        // Nothing will write to the open streams any more: their readers must not wait
+        if result.is_err() {
+            self.runtime.stream_manager.clear();
+        }
+
         // Determine termination reason by checking guards (in priority order)
         self.check_termination_reason(
             result,
-- 
2.43.0


From b59a5a8ca69a28fb31ca8bb2336026e002941421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 15/82] fix: a forwarded upstream body reaches the client to
 its end although the request is over

---
 src/runtime/scheduler.rs      | 50 +++++++++++++++++++----------------
 src/runtime/stream_manager.rs |  6 +++++
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index b682cbe..d8b11d2 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -456,44 +456,48 @@ pub async fn run_event_loop(
 }
 
 /// Spawn a task that reads chunks from a response body stream and writes them
-/// to the stream manager. Cancelled when the request's CancellationToken fires.
+/// to the stream manager. When the request's CancellationToken fires, the stream is
+/// closed; the task goes on only if the stream was forwarded to the client, who
+/// still reads it (the body of a forwarded response outlives the request).
 fn spawn_stream_reader(
     mut rx: mpsc::Receiver<Result<bytes::Bytes, String>>,
     stream_id: stream_manager::StreamId,
     manager: Arc<StreamManager>,
     cancel: CancellationToken,
 ) {
+    let Some(tx) = manager.sender(stream_id) else {
+        return;
+    };
+
     tokio::spawn(async move {
+        let mut manager = Some(manager);
+
         loop {
             let chunk = tokio::select! {
                 biased;
-                _ = cancel.cancelled() => break,
+                _ = cancel.cancelled(), if manager.is_some() => {
+                    if let Some(manager) = manager.take() {
+                        manager.close_stream(stream_id);
+                    }
+
+                    continue;
+                }
+                // Nobody reads the stream any more
+                _ = tx.closed() => return,
                 r = rx.recv() => r,
             };
 
-            match chunk {
-                Some(Ok(bytes)) => {
-                    if manager
-                        .write_chunk(stream_id, stream_manager::StreamChunk::Data(bytes))
-                        .await
-                        .is_err()
-                    {
-                        break;
-                    }
-                }
-                Some(Err(e)) => {
-                    let _ = manager
-                        .write_chunk(stream_id, stream_manager::StreamChunk::Error(e))
-                        .await;
-                    return;
-                }
-                None => break,
+            let chunk = match chunk {
+                Some(Ok(bytes)) => stream_manager::StreamChunk::Data(bytes),
+                Some(Err(e)) => stream_manager::StreamChunk::Error(e),
+                None => stream_manager::StreamChunk::Done,
+            };
+            let last = !matches!(chunk, stream_manager::StreamChunk::Data(_));
+
+            if tx.send(chunk).await.is_err() || last {
+                return;
             }
         }
-
-        let _ = manager
-            .write_chunk(stream_id, stream_manager::StreamChunk::Done)
-            .await;
     });
 }
 
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 8153b92..51d4a52 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -178,6 +178,12 @@ impl StreamManager {
         self.receivers.lock().unwrap().remove(&stream_id)
     }
 
+    /// The sending side of a stream, for a producer that outlives the request: it stays
+    /// usable as long as somebody holds the receiver, even when the stream was closed.
+    pub fn sender(&self, stream_id: StreamId) -> Option<mpsc::Sender<StreamChunk>> {
+        self.senders.lock().unwrap().get(&stream_id).cloned()
+    }
+
     /// Close and remove a stream
     pub fn close_stream(&self, stream_id: StreamId) {
         // metadata first: a read in flight checks it before putting the receiver back
-- 
2.43.0


From 8599c9378db6f9f58a37a2d4c3e486a9e6d5cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 16/82] fix: a fetch handler that answers with something other
 than a Response gives a 500, not status 0

---
 src/worker.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 9c7f5cb..68d8196 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1341,6 +1341,11 @@ pub(crate) fn setup_event_listener(
 
         // Stream response body to Rust (only for true streaming responses)
         async function __streamResponseBody(response) {
+            // Anything else has no status, headers or body to send
+            if (!(response instanceof Response)) {
+                throw new TypeError('The fetch handler did not produce a Response');
+            }
+
             if (!response.body) {
                 return response;
             }
-- 
2.43.0


From ee3b3dab0a8f29f965b441402b39db867077f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 17/82] fix: ArrayBuffer and DataView chunks of a streamed
 response are not dropped

---
 src/worker.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 68d8196..44d5983 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1397,6 +1397,10 @@ pub(crate) fn setup_event_listener(
                     return new Uint8Array(value.buffer, value.byteOffset, value.byteLength);
                 }
 
+                if (value instanceof ArrayBuffer) {
+                    return new Uint8Array(value);
+                }
+
                 // Fallback: convert to string then encode
                 return encoder.encode(String(value));
             }
@@ -1414,9 +1418,10 @@ pub(crate) fn setup_event_listener(
 
                         if (done) break;
 
-                        if (value && value.length > 0) {
-                            const chunk = toUint8Array(value);
+                        // An ArrayBuffer or a DataView has no length: convert before looking
+                        const chunk = toUint8Array(value ?? '');
 
+                        if (chunk.length > 0) {
                             // Try to write, with backpressure handling
                             while (!__responseStreamWrite(streamId, chunk)) {
                                 // Check if stream was closed (client disconnected)
-- 
2.43.0


From 10dce12fc55e3ab5344ff958ea0914b125b66ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 18/82] fix: one rejected waitUntil() promise does not cut off
 the other background work

---
 src/worker.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 44d5983..3cd0c67 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1459,6 +1459,24 @@ pub(crate) fn setup_event_listener(
             return response;
         }
 
+        // Wait for all waitUntil() promises, also those announced while waiting. A
+        // rejection is reported only when the other background work is over.
+        async function __settleWaitUntil(promises) {
+            let failure = null;
+
+            for (let i = 0; i < promises.length; i++) {
+                try {
+                    await promises[i];
+                } catch (error) {
+                    failure ??= { error };
+                }
+            }
+
+            if (failure) {
+                throw failure.error;
+            }
+        }
+
         globalThis.addEventListener = function(type, handler) {
             if (type === 'fetch') {
                 globalThis.__fetchHandler = handler;
@@ -1537,7 +1555,7 @@ pub(crate) fn setup_event_listener(
 
                             // Then wait for all waitUntil promises to complete
                             if (waitUntilPromises.length > 0) {
-                                await Promise.all(waitUntilPromises);
+                                await __settleWaitUntil(waitUntilPromises);
                             }
                         } catch (error) {
                             console.error('[addEventListener] Error in fetch handler:', error);
@@ -1565,7 +1583,7 @@ pub(crate) fn setup_event_listener(
 
                         // Wait for all waitUntil promises to complete
                         if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
+                            await __settleWaitUntil(waitUntilPromises);
                         }
                     } finally {
                         globalThis.__requestComplete = true;
@@ -1613,7 +1631,7 @@ pub(crate) fn setup_event_listener(
 
                         // Wait for all waitUntil promises to complete
                         if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
+                            await __settleWaitUntil(waitUntilPromises);
                         }
                     } catch (error) {
                         console.error('[task] Handler error:', error);
@@ -1672,7 +1690,7 @@ pub(crate) fn setup_es_modules_handler(
 
                         // Wait for all waitUntil promises to complete (after response is set)
                         if (waitUntilPromises.length > 0) {
-                            await Promise.all(waitUntilPromises);
+                            await __settleWaitUntil(waitUntilPromises);
                         }
                     } catch (error) {
                         console.error('[ES Modules] Error in fetch handler:', error);
@@ -1717,7 +1735,7 @@ pub(crate) fn setup_es_modules_handler(
 
                     // Wait for all waitUntil promises to complete
                     if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
+                        await __settleWaitUntil(waitUntilPromises);
                     }
                 } finally {
                     globalThis.__requestComplete = true;
@@ -1779,7 +1797,7 @@ pub(crate) fn setup_es_modules_handler(
 
                     // Wait for all waitUntil promises
                     if (waitUntilPromises.length > 0) {
-                        await Promise.all(waitUntilPromises);
+                        await __settleWaitUntil(waitUntilPromises);
                     }
                 } catch (e) {
                     globalThis.__taskResult = {
-- 
2.43.0


From 3ff409697570506dcbe78d6bd69cc48d20febd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 19/82] fix: a fetch handler that does not answer gives a 500
 instead of keeping the client waiting

---
 src/worker.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 3cd0c67..17cd97d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1553,6 +1553,11 @@ pub(crate) fn setup_event_listener(
                                 await responsePromise;
                             }
 
+                            // A handler that never answers must not keep the client waiting
+                            if (!globalThis.__lastResponse) {
+                                globalThis.__lastResponse = new Response('The fetch handler did not produce a Response', { status: 500 });
+                            }
+
                             // Then wait for all waitUntil promises to complete
                             if (waitUntilPromises.length > 0) {
                                 await __settleWaitUntil(waitUntilPromises);
-- 
2.43.0


From 7b9f0184fc2af8254aa9c21e0ab844be727f69c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 20/82] fix: a response body whose source failed ends with an
 error for the client

---
 src/runtime/bindings/streams.rs | 20 ++++++++++++++------
 src/worker.rs                   |  5 ++++-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 2d69aa6..3c47bfe 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -134,13 +134,21 @@ fn response_stream_write(
         .is_ok()
 }
 
-/// End a response stream
+/// End a response stream, with an error if a message is given
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
-fn response_stream_end(scope: &mut v8::PinScope, state: &Rc<ResponseStreamState>, stream_id: u64) {
-    let _ = scope;
-    state
-        .manager
-        .finish_stream(stream_id, stream_manager::StreamChunk::Done);
+fn response_stream_end(
+    scope: &mut v8::PinScope,
+    state: &Rc<ResponseStreamState>,
+    stream_id: u64,
+    error: v8::Local<v8::Value>,
+) {
+    let last = if error.is_null_or_undefined() {
+        stream_manager::StreamChunk::Done
+    } else {
+        stream_manager::StreamChunk::Error(error.to_rust_string_lossy(scope))
+    };
+
+    state.manager.finish_stream(stream_id, last);
 }
 
 /// Check if a response stream is closed
diff --git a/src/worker.rs b/src/worker.rs
index 17cd97d..cc6c351 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1409,6 +1409,7 @@ pub(crate) fn setup_event_listener(
             (async () => {
                 let reader = null;
                 let cancelled = false;
+                let failure = null;
 
                 try {
                     reader = response.body.getReader();
@@ -1440,6 +1441,7 @@ pub(crate) fn setup_event_listener(
                     }
                 } catch (error) {
                     console.error('[streamResponseBody] Error:', error);
+                    failure = String(error?.message || error);
                 } finally {
                     // Cancel the reader to trigger the source's cancel() callback
                     if (reader && cancelled) {
@@ -1450,7 +1452,8 @@ pub(crate) fn setup_event_listener(
                         }
                     }
 
-                    __responseStreamEnd(streamId);
+                    // A body whose source failed must not look complete
+                    __responseStreamEnd(streamId, failure);
                     // Decrement counter when stream is fully consumed
                     globalThis.__activeResponseStreams--;
                 }
-- 
2.43.0


From 0108d7f597895898fb52ea0e88fd0018a643e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 21/82] Revert the 500 for handlers that do not answer:
 respondWith() may come from a later callback

---
 src/worker.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index cc6c351..a1ab49f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1556,11 +1556,6 @@ pub(crate) fn setup_event_listener(
                                 await responsePromise;
                             }
 
-                            // A handler that never answers must not keep the client waiting
-                            if (!globalThis.__lastResponse) {
-                                globalThis.__lastResponse = new Response('The fetch handler did not produce a Response', { status: 500 });
-                            }
-
                             // Then wait for all waitUntil promises to complete
                             if (waitUntilPromises.length > 0) {
                                 await __settleWaitUntil(waitUntilPromises);
-- 
2.43.0


From cd710ed32961214109c39c6ccb161a01fc86409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 22/82] fix: a fetch or task handler that throws null or
 undefined is answered like one that throws an error

---
 src/worker.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index a1ab49f..7326a50 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1504,7 +1504,7 @@ pub(crate) fn setup_event_listener(
                                     .catch(error => {
                                         console.error('[respondWith] Promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Promise rejected: ' + (error.message || error),
+                                            'Promise rejected: ' + (error?.message || error),
                                             { status: 500 }
                                         );
                                     });
@@ -1545,7 +1545,7 @@ pub(crate) fn setup_event_listener(
                                     .catch(error => {
                                         console.error('[addEventListener] Handler promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Handler promise rejected: ' + (error.message || error),
+                                            'Handler promise rejected: ' + (error?.message || error),
                                             { status: 500 }
                                         );
                                     });
@@ -1565,7 +1565,7 @@ pub(crate) fn setup_event_listener(
                             // Only set a 500 response if no response was already produced.
                             // A rejected waitUntil promise must NOT overwrite a valid response.
                             if (!globalThis.__lastResponse) {
-                                globalThis.__lastResponse = new Response('Handler exception: ' + (error.message || error), { status: 500 });
+                                globalThis.__lastResponse = new Response('Handler exception: ' + (error?.message || error), { status: 500 });
                             }
                         } finally {
                             globalThis.__requestComplete = true;
@@ -1640,7 +1640,7 @@ pub(crate) fn setup_event_listener(
                         console.error('[task] Handler error:', error);
                         globalThis.__taskResult = {
                             success: false,
-                            error: error.message || String(error)
+                            error: error?.message || String(error)
                         };
                     } finally {
                         globalThis.__requestComplete = true;
@@ -1699,7 +1699,7 @@ pub(crate) fn setup_es_modules_handler(
                         console.error('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
                             globalThis.__lastResponse = new Response(
-                                'Handler exception: ' + (error.message || error),
+                                'Handler exception: ' + (error?.message || error),
                                 { status: 500 }
                             );
                         }
@@ -1805,7 +1805,7 @@ pub(crate) fn setup_es_modules_handler(
                 } catch (e) {
                     globalThis.__taskResult = {
                         success: false,
-                        error: e.message || String(e)
+                        error: e?.message || String(e)
                     };
                 } finally {
                     globalThis.__requestComplete = true;
-- 
2.43.0


From e4f89828570d93434c2b2df6e6ed157dd3c5627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 23/82] fix: background work announced by a fetch handler that
 then fails runs to its end

---
 src/worker.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 7326a50..81ef1c5 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1556,17 +1556,20 @@ pub(crate) fn setup_event_listener(
                                 await responsePromise;
                             }
 
-                            // Then wait for all waitUntil promises to complete
-                            if (waitUntilPromises.length > 0) {
-                                await __settleWaitUntil(waitUntilPromises);
-                            }
                         } catch (error) {
                             console.error('[addEventListener] Error in fetch handler:', error);
                             // Only set a 500 response if no response was already produced.
-                            // A rejected waitUntil promise must NOT overwrite a valid response.
                             if (!globalThis.__lastResponse) {
                                 globalThis.__lastResponse = new Response('Handler exception: ' + (error?.message || error), { status: 500 });
                             }
+                        }
+
+                        // Then wait for all waitUntil promises to complete, also when the handler
+                        // failed. A rejected one must NOT overwrite a valid response.
+                        try {
+                            await __settleWaitUntil(waitUntilPromises);
+                        } catch (error) {
+                            console.error('[addEventListener] Error in waitUntil:', error);
                         } finally {
                             globalThis.__requestComplete = true;
                         }
@@ -1690,11 +1693,6 @@ pub(crate) fn setup_es_modules_handler(
                         // Process response body for streaming
                         const processed = await __streamResponseBody(response);
                         globalThis.__lastResponse = processed;
-
-                        // Wait for all waitUntil promises to complete (after response is set)
-                        if (waitUntilPromises.length > 0) {
-                            await __settleWaitUntil(waitUntilPromises);
-                        }
                     } catch (error) {
                         console.error('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
@@ -1703,6 +1701,14 @@ pub(crate) fn setup_es_modules_handler(
                                 { status: 500 }
                             );
                         }
+                    }
+
+                    // Wait for all waitUntil promises to complete (after response is set),
+                    // also when the handler failed
+                    try {
+                        await __settleWaitUntil(waitUntilPromises);
+                    } catch (error) {
+                        console.error('[ES Modules] Error in waitUntil:', error);
                     } finally {
                         globalThis.__requestComplete = true;
                     }
-- 
2.43.0


From c54320d1d9c0dbf69fe42ee413a150be29daf1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 24/82] fix: respondWith() of an unusable value after the
 handler returned is answered with a 500

---
 src/worker.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 81ef1c5..84f3a82 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1512,6 +1512,13 @@ pub(crate) fn setup_event_listener(
                                 responsePromise = __streamResponseBody(responseOrPromise)
                                     .then(response => {
                                         globalThis.__lastResponse = response;
+                                    })
+                                    .catch(error => {
+                                        console.error('[respondWith] Error:', error);
+                                        globalThis.__lastResponse = new Response(
+                                            'Handler exception: ' + (error?.message || error),
+                                            { status: 500 }
+                                        );
                                     });
                             }
                         }
-- 
2.43.0


From f788e8b9cefc81f7e1dc0d727fd1c1b7af582435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 25/82] fix: a client disconnect is noticed at once and its
 grace period ends although nothing else happens

---
 src/execution_context.rs      | 21 +++++++++++++++++----
 src/execution_helpers.rs      | 27 +++++++++++++++++++++++++--
 src/runtime/stream_manager.rs | 13 +++++++++++++
 src/worker.rs                 | 27 ++++++++++++++++++++++-----
 4 files changed, 77 insertions(+), 11 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 7f11415..6c94b3d 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -19,7 +19,7 @@ use crate::LockerManagedIsolate;
 use crate::async_waiter::AsyncWaiter;
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    poll_grace_period, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
@@ -821,17 +821,23 @@ impl ExecutionContext {
                     && !self.request.stream_manager.has_sender(stream_id)
                 {
                     *abort_signaled_at = Some(tokio::time::Instant::now());
-                    signal_client_disconnect(scope);
+                    signal_client_disconnect(scope, false);
                 }
 
                 // Check grace period
                 let grace_exceeded = abort_signaled_at
                     .as_ref()
-                    .map(|t| t.elapsed() > config.grace_period)
+                    .map(|t| t.elapsed() >= config.grace_period)
                     .unwrap_or(false);
 
+                if grace_exceeded && active_streams > 0 {
+                    signal_client_disconnect(scope, true);
+                }
+
                 // Exit if base condition met, OR if request complete and grace exceeded
-                base_exit || (request_complete && grace_exceeded)
+                base_exit
+                    || check_exit_condition(scope, global, exit_condition)
+                    || (request_complete && grace_exceeded)
             } else {
                 base_exit
             }
@@ -1013,6 +1019,7 @@ impl ExecutionContext {
         use std::task::Poll;
 
         let mut abort_signaled_at: Option<tokio::time::Instant> = None;
+        let mut grace_end = None;
         let mut pending_callbacks: Vec<crate::runtime::CallbackMessage> = Vec::with_capacity(16);
         let lmi_ptr = self.lmi_ptr; // Copy raw pointer (no persistent borrow on self)
         let async_waiter = self.async_waiter.clone(); // Clone Rc (cheap) to avoid borrow on self
@@ -1020,6 +1027,10 @@ impl ExecutionContext {
         std::future::poll_fn(|cx| {
             wall_guard.wake_on_timeout(cx.waker());
 
+            if abort_config.is_some() {
+                self.request.stream_manager.wake_on_close(cx.waker());
+            }
+
             // -- Fair queue gate (if multiplexing enabled) --
             // When multiple requests share an isolate, only one can hold the
             // V8 Locker at a time. Others wait in FIFO order.
@@ -1087,6 +1098,8 @@ impl ExecutionContext {
                 // during processing (e.g., promise chains, microtasks)
             }
 
+            poll_grace_period(cx, &mut grace_end, &abort_config, abort_signaled_at);
+
             // 6. Not done yet — release fair queue and V8 lock.
             //    V8 mutex released, other requests can run on this isolate.
             if let Some(ref waiter) = async_waiter {
diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index a3aaa70..45cf688 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -230,17 +230,40 @@ pub fn extract_headers_from_response(
     headers
 }
 
+/// Make sure that the event loop runs when the grace period after a client disconnect ends:
+/// nothing else may happen that would wake it.
+pub fn poll_grace_period(
+    cx: &mut std::task::Context<'_>,
+    grace_end: &mut Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
+    abort_config: &Option<AbortConfig>,
+    abort_signaled_at: Option<tokio::time::Instant>,
+) {
+    if let Some(config) = abort_config
+        && let Some(signaled_at) = abort_signaled_at
+    {
+        let end = grace_end.get_or_insert_with(|| {
+            Box::pin(tokio::time::sleep_until(signaled_at + config.grace_period))
+        });
+
+        if !end.is_elapsed() && std::future::Future::poll(end.as_mut(), cx).is_ready() {
+            cx.waker().wake_by_ref();
+        }
+    }
+}
+
 /// Signal to JS that the client has disconnected.
 /// Calls __signalClientDisconnect() which is always defined in setup_event_listener.
+/// With `force`, the body's source is cancelled: its grace period is over.
 #[inline]
-pub fn signal_client_disconnect(scope: &mut v8::ContextScope<v8::HandleScope>) {
+pub fn signal_client_disconnect(scope: &mut v8::ContextScope<v8::HandleScope>, force: bool) {
     let global = scope.get_current_context().global(scope);
     let fn_key = v8::String::new(scope, "__signalClientDisconnect").unwrap();
 
     if let Some(fn_val) = global.get(scope, fn_key.into())
         && let Ok(func) = v8::Local::<v8::Function>::try_from(fn_val)
     {
-        let _ = func.call(scope, global.into(), &[]);
+        let force = v8::Boolean::new(scope, force);
+        let _ = func.call(scope, global.into(), &[force.into()]);
     }
 }
 
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 51d4a52..4f144e0 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -1,6 +1,7 @@
 use bytes::Bytes;
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
+use std::task::Waker;
 use tokio::sync::mpsc;
 
 pub type StreamId = u64;
@@ -35,6 +36,8 @@ pub struct StreamManager {
     next_id: Arc<Mutex<StreamId>>,
     /// High water mark for new streams
     high_water_mark: usize,
+    /// Woken when a stream is closed (the execution reacts to client disconnects)
+    close_waker: Arc<Mutex<Option<Waker>>>,
 }
 
 impl StreamManager {
@@ -50,6 +53,7 @@ impl StreamManager {
             metadata: Arc::new(Mutex::new(HashMap::new())),
             next_id: Arc::new(Mutex::new(1)),
             high_water_mark,
+            close_waker: Arc::new(Mutex::new(None)),
         }
     }
 
@@ -190,6 +194,15 @@ impl StreamManager {
         self.metadata.lock().unwrap().remove(&stream_id);
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
+
+        if let Some(waker) = self.close_waker.lock().unwrap().take() {
+            waker.wake();
+        }
+    }
+
+    /// Wake this waker when a stream is closed
+    pub fn wake_on_close(&self, waker: &Waker) {
+        *self.close_waker.lock().unwrap() = Some(waker.clone());
     }
 
     /// Get information about a stream (for debugging)
diff --git a/src/worker.rs b/src/worker.rs
index 84f3a82..82ff15e 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -2,7 +2,7 @@
 
 use crate::execution_helpers::{
     AbortConfig, EventLoopExit, check_exit_condition, get_completion_state, get_response_stream_id,
-    read_response_object, signal_client_disconnect, trigger_fetch_handler,
+    poll_grace_period, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::runtime::{Runtime, run_event_loop};
 use crate::security::{CpuEnforcer, TimeoutGuard};
@@ -752,11 +752,16 @@ impl Worker {
         use std::task::Poll;
 
         let mut abort_signaled_at: Option<tokio::time::Instant> = None;
+        let mut grace_end = None;
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
 
         std::future::poll_fn(|cx| {
             wall_guard.wake_on_timeout(cx.waker());
 
+            if abort_config.is_some() {
+                self.runtime.stream_manager.wake_on_close(cx.waker());
+            }
+
             // 1. Check termination (CPU/wall-clock guards)
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
@@ -797,16 +802,22 @@ impl Worker {
                             && !self.runtime.stream_manager.has_sender(stream_id)
                         {
                             abort_signaled_at = Some(tokio::time::Instant::now());
-                            signal_client_disconnect(scope);
+                            signal_client_disconnect(scope, false);
                         }
 
                         // Check grace period
                         let grace_exceeded = abort_signaled_at
-                            .map(|t| t.elapsed() > config.grace_period)
+                            .map(|t| t.elapsed() >= config.grace_period)
                             .unwrap_or(false);
 
+                        if grace_exceeded && active_streams > 0 {
+                            signal_client_disconnect(scope, true);
+                        }
+
                         // Exit if base condition met, OR if request complete and grace exceeded
-                        base_exit || (request_complete && grace_exceeded)
+                        base_exit
+                            || check_exit_condition(scope, global, exit_condition)
+                            || (request_complete && grace_exceeded)
                     } else {
                         base_exit
                     }
@@ -822,6 +833,7 @@ impl Worker {
             }
 
             // 6. Not done yet - waker registered via poll_recv
+            poll_grace_period(cx, &mut grace_end, &abort_config, abort_signaled_at);
             Poll::Pending
         })
         .await
@@ -1329,8 +1341,13 @@ pub(crate) fn setup_event_listener(
 
         // Signal client disconnect to abort response streams
         // Called from Rust when consumer disconnects
-        globalThis.__signalClientDisconnect = function() {
+        // force: the grace period is over, cancel the source of the body
+        globalThis.__signalClientDisconnect = function(force) {
             const resp = globalThis.__lastResponse;
+            if (force) {
+                resp?.body?._reader?.cancel('Client disconnected').catch(() => {});
+                return;
+            }
             if (resp?.body?._controller?._abortController) {
                 const ctrl = resp.body._controller;
                 if (!ctrl.signal.aborted) {
-- 
2.43.0


From 71d7c99ebd97a80239f15b9190ddbc7633d89818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 26/82] fix: a late result of a previous request does not
 settle an operation of the next one in a warm context

---
 src/execution_context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 6c94b3d..678b015 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1502,7 +1502,8 @@ impl ExecutionContext {
         self.request.fetch_error_callbacks.borrow_mut().clear();
         self.request.stream_callbacks.borrow_mut().clear();
         self.request.ws_event_callbacks.borrow_mut().clear();
-        *self.request.next_callback_id.borrow_mut() = 1;
+        // next_callback_id is NOT reset: operations of the previous request may still be
+        // in flight, and their results must never settle an operation of a later one.
 
         Ok(())
     }
-- 
2.43.0


From c366e07cebb8b0c6115e274f312a3843dddbb345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 27/82] fix: text() and arrayBuffer() of a Response without a
 body give an empty result, as for a Request

---
 src/runtime/bindings/web_api.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 96c3532..6c55063 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1137,6 +1137,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return '';
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
@@ -1168,6 +1172,10 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 }
                 this.bodyUsed = true;
 
+                if (!this.body) {
+                    return new ArrayBuffer(0);
+                }
+
                 const reader = this.body.getReader();
                 const chunks = [];
 
-- 
2.43.0


From bfef0babd147fb83496a91e475adbb3c6e637ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 28/82] fix: arguments an operation cannot use reject its
 promise instead of leaving it pending, or taking the process down

---
 src/runtime/bindings/fetch.rs | 197 +++++++++++++++++++++++-----------
 1 file changed, 134 insertions(+), 63 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 044321a..6374836 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -6,6 +6,8 @@ use openworkers_core::{
 use serde::Deserialize;
 use std::cell::RefCell;
 use std::collections::HashMap;
+use std::panic::{AssertUnwindSafe, catch_unwind};
+use std::pin::pin;
 use std::rc::Rc;
 use tokio::sync::mpsc;
 use v8;
@@ -30,7 +32,7 @@ fn default_method() -> String {
 #[derive(Deserialize)]
 struct StorageParams {
     #[serde(default)]
-    key: String,
+    key: Option<String>,
     #[serde(default)]
     body: Option<serde_v8::JsBuffer>,
     #[serde(default)]
@@ -43,7 +45,7 @@ struct StorageParams {
 #[derive(Deserialize)]
 struct KvParams {
     #[serde(default)]
-    key: String,
+    key: Option<String>,
     #[serde(default)]
     value: Option<serde_json::Value>,
     #[serde(default, rename = "expiresIn")]
@@ -63,13 +65,80 @@ struct DatabaseParams {
     params: Vec<SqlParam>,
 }
 
-/// Parse JS options object into HttpRequest using serde_v8
+/// Throw a TypeError into JavaScript
+fn throw_type_error(scope: &mut v8::PinScope, message: &str) {
+    let message = v8::String::new(scope, message).unwrap();
+    let error = v8::Exception::type_error(scope, message);
+    scope.throw_exception(error);
+}
+
+/// Convert an argument using serde_v8
+///
+/// If that fails, an exception is thrown into JavaScript (and None returned), so that
+/// the promise of the caller rejects.
+fn parse_arg<T: serde::de::DeserializeOwned>(
+    scope: &mut v8::PinScope,
+    value: v8::Local<v8::Value>,
+) -> Option<T> {
+    let tc_scope = pin!(v8::TryCatch::new(scope));
+    let mut tc_scope = tc_scope.init();
+
+    // serde_v8 panics on some values (symbols, getters that throw)
+    let result = catch_unwind(AssertUnwindSafe(|| {
+        serde_v8::from_v8_any::<T>(&mut tc_scope, value).map_err(|e| e.to_string())
+    }));
+
+    if tc_scope.has_caught() {
+        tc_scope.rethrow();
+        return None;
+    }
+
+    match result {
+        Ok(Ok(value)) => Some(value),
+        Ok(Err(e)) => {
+            throw_type_error(&mut tc_scope, &format!("Invalid argument: {e}"));
+            tc_scope.rethrow();
+            None
+        }
+        Err(_) => {
+            throw_type_error(&mut tc_scope, "Invalid argument");
+            tc_scope.rethrow();
+            None
+        }
+    }
+}
+
+/// Convert an argument that holds arbitrary JSON data
+///
+/// JSON.stringify() deals with symbols, getters and circular structures.
+/// If it fails, an exception is thrown into JavaScript (and None returned).
+fn parse_json_arg<T: serde::de::DeserializeOwned>(
+    scope: &mut v8::PinScope,
+    value: v8::Local<v8::Value>,
+) -> Option<T> {
+    let json = v8::json::stringify(scope, value)?.to_rust_string_lossy(scope);
+
+    match serde_json::from_str(&json) {
+        Ok(value) => Some(value),
+        Err(e) => {
+            throw_type_error(scope, &format!("Invalid argument: {e}"));
+            None
+        }
+    }
+}
+
+/// Parse JS options object into HttpRequest
 fn parse_http_request(
     scope: &mut v8::PinScope,
     options: v8::Local<v8::Value>,
 ) -> Option<HttpRequest> {
-    let opts: FetchOptions = serde_v8::from_v8_any(scope, options).ok()?;
-    let method = opts.method.parse().unwrap_or(HttpMethod::Get);
+    let opts: FetchOptions = parse_arg(scope, options)?;
+
+    let Ok(method) = opts.method.parse::<HttpMethod>() else {
+        throw_type_error(scope, &format!("Unsupported method: {}", opts.method));
+        return None;
+    };
+
     let body = match opts.body {
         Some(buf) => RequestBody::Bytes(bytes::Bytes::from(buf.to_vec())),
         None => RequestBody::None,
@@ -83,6 +152,47 @@ fn parse_http_request(
     })
 }
 
+/// Build a storage operation; the error says what is wrong with the arguments
+fn storage_op(operation: &str, params: StorageParams) -> Result<StorageOp, String> {
+    let key = params.key.ok_or("A key is required");
+
+    Ok(match operation {
+        "get" => StorageOp::Get { key: key? },
+        "fetch" => StorageOp::Fetch { key: key? },
+        "put" => StorageOp::Put {
+            key: key?,
+            body: params.body.map(|b| b.to_vec()).unwrap_or_default(),
+        },
+        "head" => StorageOp::Head { key: key? },
+        "list" => StorageOp::List {
+            prefix: params.prefix,
+            limit: params.limit,
+        },
+        "delete" => StorageOp::Delete { key: key? },
+        _ => return Err(format!("Unknown storage operation: {operation}")),
+    })
+}
+
+/// Build a KV operation; the error says what is wrong with the arguments
+fn kv_op(operation: &str, params: KvParams) -> Result<KvOp, String> {
+    let key = params.key.ok_or("A key is required");
+
+    Ok(match operation {
+        "get" => KvOp::Get { key: key? },
+        "put" => KvOp::Put {
+            key: key?,
+            value: params.value.unwrap_or(serde_json::Value::Null),
+            expires_in: params.expires_in,
+        },
+        "delete" => KvOp::Delete { key: key? },
+        "list" => KvOp::List {
+            prefix: params.prefix,
+            limit: params.limit,
+        },
+        _ => return Err(format!("Unknown KV operation: {operation}")),
+    })
+}
+
 /// Register success callback and return callback ID
 fn register_callback(
     state: &FetchState,
@@ -142,7 +252,7 @@ where
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Some(binding_name) = parse_arg::<String>(scope, args.get(0)) else {
                 return;
             };
 
@@ -249,32 +359,21 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Some(binding_name) = parse_arg::<String>(scope, args.get(0)) else {
                 return;
             };
 
-            let Ok(operation) = serde_v8::from_v8_any::<String>(scope, args.get(1)) else {
+            let Some(operation) = parse_arg::<String>(scope, args.get(1)) else {
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<StorageParams>(scope, args.get(2)) else {
+            let Some(params) = parse_arg::<StorageParams>(scope, args.get(2)) else {
                 return;
             };
 
-            let storage_op = match operation.as_str() {
-                "get" => StorageOp::Get { key: params.key },
-                "fetch" => StorageOp::Fetch { key: params.key },
-                "put" => StorageOp::Put {
-                    key: params.key,
-                    body: params.body.map(|b| b.to_vec()).unwrap_or_default(),
-                },
-                "head" => StorageOp::Head { key: params.key },
-                "list" => StorageOp::List {
-                    prefix: params.prefix,
-                    limit: params.limit,
-                },
-                "delete" => StorageOp::Delete { key: params.key },
-                _ => return,
+            let storage_op = match storage_op(&operation, params) {
+                Ok(op) => op,
+                Err(e) => return throw_type_error(scope, &e),
             };
 
             if args.length() < 5 {
@@ -316,31 +415,21 @@ pub fn setup_fetch(
                 return;
             }
 
-            let Ok(binding_name) = serde_v8::from_v8_any::<String>(scope, args.get(0)) else {
+            let Some(binding_name) = parse_arg::<String>(scope, args.get(0)) else {
                 return;
             };
 
-            let Ok(operation) = serde_v8::from_v8_any::<String>(scope, args.get(1)) else {
+            let Some(operation) = parse_arg::<String>(scope, args.get(1)) else {
                 return;
             };
 
-            let Ok(params) = serde_v8::from_v8_any::<KvParams>(scope, args.get(2)) else {
+            let Some(params) = parse_json_arg::<KvParams>(scope, args.get(2)) else {
                 return;
             };
 
-            let kv_op = match operation.as_str() {
-                "get" => KvOp::Get { key: params.key },
-                "put" => KvOp::Put {
-                    key: params.key,
-                    value: params.value.unwrap_or(serde_json::Value::Null),
-                    expires_in: params.expires_in,
-                },
-                "delete" => KvOp::Delete { key: params.key },
-                "list" => KvOp::List {
-                    prefix: params.prefix,
-                    limit: params.limit,
-                },
-                _ => return,
+            let kv_op = match kv_op(&operation, params) {
+                Ok(op) => op,
+                Err(e) => return throw_type_error(scope, &e),
             };
 
             if args.length() < 5 {
@@ -407,34 +496,16 @@ pub fn setup_fetch(
 
             let error_fn: v8::Local<v8::Function> = error_cb.try_into().unwrap();
 
-            let binding_name = match serde_v8::from_v8_any::<String>(scope, args.get(0)) {
-                Ok(name) => name,
-                Err(e) => {
-                    let msg = format!("Failed to parse binding_name: {}", e);
-                    tracing::warn!("[v8-db] {}", msg);
-                    call_error(scope, error_fn, &msg);
-                    return;
-                }
+            let Some(binding_name) = parse_arg::<String>(scope, args.get(0)) else {
+                return;
             };
 
-            let operation = match serde_v8::from_v8_any::<String>(scope, args.get(1)) {
-                Ok(op) => op,
-                Err(e) => {
-                    let msg = format!("Failed to parse operation: {}", e);
-                    tracing::warn!("[v8-db] {}", msg);
-                    call_error(scope, error_fn, &msg);
-                    return;
-                }
+            let Some(operation) = parse_arg::<String>(scope, args.get(1)) else {
+                return;
             };
 
-            let params = match serde_v8::from_v8_any::<DatabaseParams>(scope, args.get(2)) {
-                Ok(p) => p,
-                Err(e) => {
-                    let msg = format!("Failed to parse params: {}", e);
-                    tracing::warn!("[v8-db] {}", msg);
-                    call_error(scope, error_fn, &msg);
-                    return;
-                }
+            let Some(params) = parse_json_arg::<DatabaseParams>(scope, args.get(2)) else {
+                return;
             };
 
             let database_op = match operation.as_str() {
-- 
2.43.0


From 4d537418bfdfc78852c70ccb52cba1940b482afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 29/82] fix: headers and bodies of every kind reach fetch(),
 and the fetch() of assets and worker bindings

---
 src/runtime/bindings/fetch.rs   | 44 ++++++++++++++++++---------------
 src/runtime/bindings/web_api.rs | 34 ++++++++++++++++++-------
 src/worker.rs                   | 39 +++++++++++------------------
 3 files changed, 63 insertions(+), 54 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 6374836..5c1a0cc 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -598,41 +598,45 @@ pub fn setup_fetch(
             return { body: result, boundary: boundary };
         }
 
-        globalThis.fetch = async function(input, options) {
+        // What the native side needs for a request: strings, and the body as bytes
+        globalThis.__prepareFetch = async function(input, options) {
             // Normalize input (handles Request, URL, string)
-            const normalized = __normalizeFetchInput(input, options);
-            let { url, method, headers, body } = normalized;
+            let { url, method, headers, body } = __normalizeFetchInput(input, options);
             let contentType = null;
 
-            // Handle ReadableStream body - buffer it first (returns Uint8Array)
             if (body instanceof ReadableStream) {
-                console.warn('[fetch] ReadableStream body detected - buffering entire stream before sending');
+                // Buffer it first (returns Uint8Array)
                 body = await __bufferBody(body);
-            }
-
-            // Handle FormData body - serialize to multipart/form-data
-            if (body instanceof FormData) {
+            } else if (body instanceof FormData) {
+                // Serialize to multipart/form-data
                 const serialized = await __serializeFormData(body);
                 body = serialized.body;
                 contentType = 'multipart/form-data; boundary=' + serialized.boundary;
-            }
-
-            // Handle URLSearchParams body - serialize to form-encoded string
-            if (body instanceof URLSearchParams) {
+            } else if (body instanceof URLSearchParams) {
+                // Serialize to form-encoded string
                 body = new TextEncoder().encode(body.toString());
-                if (!contentType) contentType = 'application/x-www-form-urlencoded;charset=UTF-8';
+                contentType = 'application/x-www-form-urlencoded;charset=UTF-8';
+            } else if (body instanceof Blob) {
+                contentType = body.type || null;
+                body = body._getBytes();
+            } else if (ArrayBuffer.isView(body)) {
+                body = new Uint8Array(body.buffer, body.byteOffset, body.byteLength);
+            } else if (body !== null && !(body instanceof ArrayBuffer)) {
+                // Anything else is sent as a string
+                body = new TextEncoder().encode(`${body}`);
             }
 
-            // Convert string/primitive body to Uint8Array for native consumption
-            if (body !== null && typeof body !== 'object') {
-                body = new TextEncoder().encode(String(body));
-            }
-
-            // Set Content-Type if not already set (FormData or URLSearchParams)
+            // Set Content-Type if not already set
             if (contentType && !headers['Content-Type'] && !headers['content-type']) {
                 headers['Content-Type'] = contentType;
             }
 
+            return { url, method, headers, body };
+        };
+
+        globalThis.fetch = async function(input, options) {
+            const { url, method, headers, body } = await __prepareFetch(input, options);
+
             // Check for WebSocket upgrade
             const upgradeKey = Object.keys(headers).find(
                 function(k) { return k.toLowerCase() === 'upgrade'; }
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 6c55063..b298a73 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1412,6 +1412,20 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 /// Returns: { url, method, headers, body }
 pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
     let code = r#"
+        // The bytes of a chunk read from a body stream
+        globalThis.__chunkBytes = function(chunk) {
+            if (typeof chunk === 'string') {
+                return new TextEncoder().encode(chunk);
+            }
+            if (ArrayBuffer.isView(chunk)) {
+                return new Uint8Array(chunk.buffer, chunk.byteOffset, chunk.byteLength);
+            }
+            if (chunk instanceof ArrayBuffer) {
+                return new Uint8Array(chunk);
+            }
+            throw new TypeError('A body stream must produce bytes or strings');
+        };
+
         // Buffer a ReadableStream body to Uint8Array
         globalThis.__bufferBody = async function(body) {
             if (!body || !(body instanceof ReadableStream)) {
@@ -1424,7 +1438,7 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
             while (true) {
                 const { done, value } = await reader.read();
                 if (done) break;
-                chunks.push(value);
+                chunks.push(__chunkBytes(value));
             }
 
             // Concatenate all chunks
@@ -1480,16 +1494,18 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
                 body = options.body !== undefined ? options.body : null;
             }
 
-            // Normalize Headers instance to plain object
-            if (headers instanceof Headers) {
-                const obj = {};
-                for (const [key, value] of headers) {
-                    obj[key] = value;
-                }
-                headers = obj;
+            // Normalize headers (instance, pairs or object) to a plain object of strings
+            if (Array.isArray(headers)) {
+                headers = new Headers(headers);
+            }
+
+            const entries = headers instanceof Headers ? headers : Object.entries(headers || {});
+            headers = {};
+            for (const [key, value] of entries) {
+                headers[key] = `${value}`;
             }
 
-            return { url, method, headers, body };
+            return { url, method: `${method}`.toUpperCase(), headers, body };
         };
     "#;
 
diff --git a/src/worker.rs b/src/worker.rs
index 82ff15e..1630a6b 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1193,9 +1193,7 @@ pub(crate) fn setup_env(
                     format!(
                         r#"{name}: {{
                             fetch: function(input, options) {{
-                                return new Promise((resolve, reject) => {{
-                                    const {{ url, method, headers, body }} = __normalizeFetchInput(input, options);
-                                    const fetchOptions = {{ url, method, headers, body }};
+                                return __prepareFetch(input, options).then((fetchOptions) => new Promise((resolve, reject) => {{
                                     __nativeBindingFetch({name}, fetchOptions, (meta) => {{
                                         const stream = __createNativeStream(meta.streamId);
                                         const response = new Response(stream, {{
@@ -1206,7 +1204,7 @@ pub(crate) fn setup_env(
                                         response.statusText = meta.statusText;
                                         resolve(response);
                                     }}, reject);
-                                }});
+                                }}));
                             }}
                         }}"#,
                     )
@@ -1282,27 +1280,18 @@ pub(crate) fn setup_env(
                     format!(
                         r#"{name}: {{
                             fetch: function(input, options) {{
-                                return new Promise((resolve, reject) => {{
-                                    const processRequest = async () => {{
-                                        const normalized = __normalizeFetchInput(input, options);
-                                        // Buffer ReadableStream body for serialization
-                                        normalized.body = await __bufferBody(normalized.body);
-                                        return normalized;
-                                    }};
-
-                                    processRequest().then((fetchOptions) => {{
-                                        __nativeBindingWorker({name}, fetchOptions, (meta) => {{
-                                            const stream = __createNativeStream(meta.streamId);
-                                            const response = new Response(stream, {{
-                                                status: meta.status,
-                                                headers: meta.headers
-                                            }});
-                                            response.ok = meta.status >= 200 && meta.status < 300;
-                                            response.statusText = meta.statusText;
-                                            resolve(response);
-                                        }}, reject);
-                                    }}).catch(reject);
-                                }});
+                                return __prepareFetch(input, options).then((fetchOptions) => new Promise((resolve, reject) => {{
+                                    __nativeBindingWorker({name}, fetchOptions, (meta) => {{
+                                        const stream = __createNativeStream(meta.streamId);
+                                        const response = new Response(stream, {{
+                                            status: meta.status,
+                                            headers: meta.headers
+                                        }});
+                                        response.ok = meta.status >= 200 && meta.status < 300;
+                                        response.statusText = meta.statusText;
+                                        resolve(response);
+                                    }}, reject);
+                                }}));
                             }}
                         }}"#,
                     )
-- 
2.43.0


From 642ff5beb642b9389cac39e024babfcf1e1b16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 30/82] fix: headers that cannot be read fail the WebSocket
 connection instead of aborting the process

---
 src/runtime/bindings/fetch.rs     | 2 +-
 src/runtime/bindings/websocket.rs | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/fetch.rs b/src/runtime/bindings/fetch.rs
index 5c1a0cc..8f77b2b 100644
--- a/src/runtime/bindings/fetch.rs
+++ b/src/runtime/bindings/fetch.rs
@@ -76,7 +76,7 @@ fn throw_type_error(scope: &mut v8::PinScope, message: &str) {
 ///
 /// If that fails, an exception is thrown into JavaScript (and None returned), so that
 /// the promise of the caller rejects.
-fn parse_arg<T: serde::de::DeserializeOwned>(
+pub(super) fn parse_arg<T: serde::de::DeserializeOwned>(
     scope: &mut v8::PinScope,
     value: v8::Local<v8::Value>,
 ) -> Option<T> {
diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 2607464..f99003d 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -9,6 +9,7 @@
 //! Connect resolve/reject callbacks reuse FetchState (same CallbackId pattern).
 //! Event dispatchers (message/close/error) use WebSocketEventState (keyed by WebSocketId).
 
+use super::fetch::parse_arg;
 use super::state::{FetchState, WebSocketEventState};
 use openworkers_core::WebSocketOutgoing;
 use std::cell::RefCell;
@@ -45,8 +46,10 @@ pub fn setup_websocket(
 
             // Parse headers object
             let headers = if args.get(1).is_object() {
-                serde_v8::from_v8_any::<HashMap<String, String>>(scope, args.get(1))
-                    .unwrap_or_default()
+                match parse_arg::<HashMap<String, String>>(scope, args.get(1)) {
+                    Some(headers) => headers,
+                    None => return,
+                }
             } else {
                 HashMap::new()
             };
-- 
2.43.0


From 0b3e2fe958e416de27d36ada05f15d4de6b2c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 31/82] fix: deriveBits() with an excessive length is refused
 instead of aborting the process

---
 src/runtime/crypto/pbkdf2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 51252c3..8375b8d 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -1,6 +1,9 @@
 use ring::pbkdf2;
 use v8;
 
+/// Most bytes a single deriveBits() call produces
+const MAX_LENGTH_BYTES: usize = 1024 * 1024;
+
 pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Object>) {
     // Native PBKDF2: __nativePbkdf2DeriveBits(hashAlgo, password, salt, iterations, lengthBits) -> ArrayBuffer
     let derive_fn = v8::Function::new(
@@ -57,6 +60,12 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
 
             let length_bytes = length_bits / 8;
 
+            // Nobody derives this much key material, and the allocation could not fail gracefully
+            if length_bytes > MAX_LENGTH_BYTES {
+                retval.set(v8::undefined(scope).into());
+                return;
+            }
+
             let algorithm = match hash_algo.to_uppercase().as_str() {
                 "SHA-1" => pbkdf2::PBKDF2_HMAC_SHA1,
                 "SHA-256" => pbkdf2::PBKDF2_HMAC_SHA256,
-- 
2.43.0


From 970c86256479d061b13b58cf4700fd4bd33f61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 32/82] fix: getRandomValues() fills every integer typed array,
 and a detached one no longer aborts the process

---
 src/runtime/crypto/random.rs | 83 +++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 25 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 882821d..71f429d 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -1,43 +1,76 @@
 use ring::rand;
 use v8;
 
+/// Most bytes a single getRandomValues() call fills
+const MAX_RANDOM_BYTES: usize = 65536;
+
+fn throw_error(scope: &mut v8::PinScope, message: &str) {
+    let message = v8::String::new(scope, message).unwrap();
+    let error = v8::Exception::type_error(scope, message);
+    scope.throw_exception(error);
+}
+
 pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::Local<v8::Object>) {
     let get_random_values_fn = v8::Function::new(
         scope,
         |scope: &mut v8::PinScope,
          args: v8::FunctionCallbackArguments,
          mut retval: v8::ReturnValue| {
-            if args.length() < 1 {
+            let array = args.get(0);
+
+            // Any integer typed array, as the Web Crypto API defines it
+            let is_integer = array.is_int8_array()
+                || array.is_uint8_array()
+                || array.is_uint8_clamped_array()
+                || array.is_int16_array()
+                || array.is_uint16_array()
+                || array.is_int32_array()
+                || array.is_uint32_array()
+                || array.is_big_int64_array()
+                || array.is_big_uint64_array();
+
+            let view = match v8::Local::<v8::TypedArray>::try_from(array) {
+                Ok(view) if is_integer => view,
+                _ => {
+                    throw_error(scope, "TypeMismatchError: not an integer typed array");
+                    return;
+                }
+            };
+
+            let len = view.byte_length();
+
+            if len > MAX_RANDOM_BYTES {
+                throw_error(scope, "QuotaExceededError: more than 65536 bytes requested");
                 return;
             }
 
-            let array = args.get(0);
+            let mut bytes = vec![0u8; len];
 
-            if let Ok(uint8_array) = v8::Local::<v8::Uint8Array>::try_from(array) {
-                let len = uint8_array.byte_length();
-                let mut bytes = vec![0u8; len];
-
-                // Fill with random bytes using ring
-                let rng = rand::SystemRandom::new();
-
-                if rand::SecureRandom::fill(&rng, &mut bytes).is_ok() {
-                    // Copy back to the typed array
-                    if let Some(buffer) = uint8_array.buffer(scope) {
-                        let backing_store = buffer.get_backing_store();
-                        let offset = uint8_array.byte_offset();
-
-                        unsafe {
-                            std::ptr::copy_nonoverlapping(
-                                bytes.as_ptr(),
-                                (backing_store.data().unwrap().as_ptr() as *mut u8).add(offset),
-                                len,
-                            );
-                        }
-                    }
-                }
+            // Fill with random bytes using ring
+            let rng = rand::SystemRandom::new();
+
+            if rand::SecureRandom::fill(&rng, &mut bytes).is_err() {
+                throw_error(scope, "OperationError: no random bytes available");
+                return;
+            }
+
+            // Copy back to the typed array (there is no data if it is empty or detached)
+            if let Some(data) = view
+                .buffer(scope)
+                .and_then(|buffer| buffer.get_backing_store().data())
+            {
+                let offset = view.byte_offset();
 
-                retval.set(array);
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        bytes.as_ptr(),
+                        (data.as_ptr() as *mut u8).add(offset),
+                        len,
+                    );
+                }
             }
+
+            retval.set(array);
         },
     )
     .unwrap();
-- 
2.43.0


From 13eefb3dc9b0a07c264aa19f1f458bee7b126d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 33/82] fix: a huge sparse header list does not keep the host
 busy

---
 src/execution_helpers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 45cf688..a0a3118 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -196,7 +196,13 @@ pub fn extract_headers_from_response(
                 // Check if value is an array (for special headers like set-cookie)
                 if let Ok(arr) = v8::Local::<v8::Array>::try_from(val_val) {
                     // Value is an array - push each element as a separate header
-                    for j in 0..arr.length() {
+                    // (own elements only: a huge length alone must not keep us busy)
+                    let elements = arr
+                        .get_own_property_names(scope, Default::default())
+                        .map(|names| names.length())
+                        .unwrap_or(0);
+
+                    for j in 0..arr.length().min(elements) {
                         if let Some(elem) = arr.get_index(scope, j)
                             && let Some(elem_str) = elem.to_string(scope)
                         {
-- 
2.43.0


From fdee7616c7f77db06806ecd63354b71da0c99a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 34/82] fix: an interval of 0 ms does not keep the event loop
 busy for ever

---
 src/runtime/scheduler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index d8b11d2..8464514 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -160,6 +160,8 @@ pub async fn run_event_loop(
 
                     SchedulerMessage::ScheduleInterval(id, interval_ms) => {
                         cancelled.remove(&id);
+                        // An interval of 0 ms would be due again at once, for ever
+                        let interval_ms = interval_ms.max(1);
                         timers.push(create_timer(id, interval_ms, true));
                     }
 
-- 
2.43.0


From 339552b8bb82a2bcef4e2d13c5c37f11447ca992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 35/82] fix: what a finished request left running does not go
 on while its context waits in the cache

---
 src/execution_context.rs |  7 +++++++
 src/runtime/scheduler.rs | 14 ++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 678b015..f7543a3 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -281,6 +281,13 @@ impl ExecutionContext {
     /// without aborting the event loop. The remaining EC fields (raw pointers,
     /// static refs, Arcs) are dropped normally.
     pub(crate) fn into_parts(self) -> (RequestContext, *mut v8::OwnedIsolate) {
+        // Timers and operations of the finished request must not go on while the
+        // context waits in the cache
+        let _ = self
+            .request
+            .scheduler_tx
+            .send(crate::runtime::SchedulerMessage::EndRequest);
+
         (self.request, self.isolate)
     }
 
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 8464514..74cb99c 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -67,6 +67,8 @@ pub enum SchedulerMessage {
     WebSocketAccept(WebSocketId),
     WebSocketSend(WebSocketId, WebSocketOutgoing),
     WebSocketClose(WebSocketId, u16, String),
+    /// The request is over, its context is kept for a later one: stop what it left running
+    EndRequest,
     Shutdown,
 }
 
@@ -139,6 +141,10 @@ pub async fn run_event_loop(
     let mut cancelled: HashSet<CallbackId> = HashSet::new();
     let mut shutdown = false;
 
+    // Token of the current request (cancelled with the context, or when the request ends)
+    let context_cancel = cancel;
+    let mut cancel = context_cancel.child_token();
+
     // WebSocket state: each WS gets a command channel, the spawned task owns the receiver
     let mut next_ws_id: WebSocketId = 1;
     let mut ws_commands: HashMap<WebSocketId, mpsc::UnboundedSender<WebSocketCommand>> =
@@ -426,6 +432,14 @@ pub async fn run_event_loop(
                         stream_manager.close_stream(stream_id);
                     }
 
+                    SchedulerMessage::EndRequest => {
+                        cancel.cancel();
+                        cancel = context_cancel.child_token();
+                        timers.clear();
+                        cancelled.clear();
+                        ws_commands.clear();
+                    }
+
                     SchedulerMessage::Shutdown => {
                         shutdown = true;
                     }
-- 
2.43.0


From 32ef02dcc963e877d72ac70669deb5edbb2258ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 36/82] fix: a request whose future is dropped halfway gives
 its isolate back to the pool

---
 src/pool.rs | 88 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 10ce28c..d1977c1 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -518,18 +518,23 @@ fn acquire_from_local_pool(owner_id: &str) -> Option<(Arc<TaggedIsolate>, bool)>
     })
 }
 
-/// Release an isolate back to the pool and reclaim overcommitted isolates.
-fn release_to_local_pool(isolate: &TaggedIsolate) {
-    isolate.release();
+/// An acquired slot of an isolate, given back to the pool when dropped: when the request
+/// is over, or when the future that executes it is dropped halfway.
+struct AcquiredSlot(Arc<TaggedIsolate>);
 
-    // Reclaim any overcommitted isolates that are now free
-    LOCAL_POOL.with(|pool_cell| {
-        let mut pool_opt = pool_cell.borrow_mut();
+impl Drop for AcquiredSlot {
+    fn drop(&mut self) {
+        self.0.release();
 
-        if let Some(pool) = pool_opt.as_mut() {
-            pool.cleanup_overlimit();
-        }
-    });
+        // Reclaim any overcommitted isolates that are now free
+        let _ = LOCAL_POOL.try_with(|pool_cell| {
+            if let Ok(mut pool_opt) = pool_cell.try_borrow_mut()
+                && let Some(pool) = pool_opt.as_mut()
+            {
+                pool.cleanup_overlimit();
+            }
+        });
+    }
 }
 
 // ============================================================================
@@ -586,6 +591,38 @@ fn drop_under_lock<T>(value: T, lmi_ptr: *mut LockerManagedIsolate) {
     }
 }
 
+/// An ExecutionContext that is dropped under the V8 Locker, also when the future that
+/// executes it is dropped halfway.
+struct LockedContext {
+    context: Option<ExecutionContext>,
+    lmi_ptr: *mut LockerManagedIsolate,
+}
+
+impl LockedContext {
+    fn new(context: ExecutionContext, lmi_ptr: *mut LockerManagedIsolate) -> Self {
+        Self {
+            context: Some(context),
+            lmi_ptr,
+        }
+    }
+
+    fn get(&mut self) -> &mut ExecutionContext {
+        self.context.as_mut().expect("context was taken")
+    }
+
+    fn into_inner(mut self) -> ExecutionContext {
+        self.context.take().expect("context was taken")
+    }
+}
+
+impl Drop for LockedContext {
+    fn drop(&mut self) {
+        if let Some(context) = self.context.take() {
+            drop_under_lock(context, self.lmi_ptr);
+        }
+    }
+}
+
 /// Execute a worker script using the isolate pool.
 ///
 /// This uses thread-local storage for zero-contention access to isolates.
@@ -620,6 +657,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // Fail-fast: try to acquire an isolate, return error if at capacity
     let (isolate_arc, is_hit) = acquire_from_local_pool(&owner_id)
         .ok_or_else(|| TerminationReason::Other("Pool at capacity".to_string()))?;
+    let _slot = AcquiredSlot(Arc::clone(&isolate_arc));
 
     if is_hit {
         CACHE_HITS.fetch_add(1, Ordering::Relaxed);
@@ -705,7 +743,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         );
 
         // Reconstruct EC from cached parts
-        let mut ec = ExecutionContext::from_cached(
+        let ec = ExecutionContext::from_cached(
             cached_isolate_ptr,
             lmi_ptr,
             platform,
@@ -714,15 +752,16 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             request,
             async_waiter.clone(),
         );
+        let mut ec = LockedContext::new(ec, lmi_ptr);
 
         if let Some(callback) = on_warm_hit {
             callback(&cached_ops);
         }
 
         // reset() acquires its own V8 lock internally
-        match ec.reset() {
+        match ec.get().reset() {
             Ok(()) => {
-                let result = ec.exec(task).await;
+                let result = ec.get().exec(task).await;
 
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
@@ -731,7 +770,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         result.as_ref().err(),
                     );
                     false
-                } else if let Err(reason) = ec.drain_waituntil().await {
+                } else if let Err(reason) = ec.get().drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
                         &worker_id[..8.min(worker_id.len())],
@@ -758,7 +797,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         None
                     };
 
-                    let (request, isolate_ptr) = ec.into_parts();
+                    let (request, isolate_ptr) = ec.into_inner().into_parts();
                     inner.cached_contexts.push(CachedContext {
                         request,
                         isolate_ptr,
@@ -775,10 +814,9 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         drop_under_lock(evicted, lmi_ptr);
                     }
                 } else {
-                    drop_under_lock(ec, lmi_ptr);
+                    drop(ec);
                 }
 
-                release_to_local_pool(&isolate_arc);
                 return result;
             }
             Err(e) => {
@@ -787,7 +825,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     e,
                 );
-                drop_under_lock(ec, lmi_ptr);
+                drop(ec);
                 // Fall through to cold path
             }
         }
@@ -821,12 +859,13 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     let (result, new_cached_context) = match ctx_result {
         Ok(mut ctx) => {
             ctx.async_waiter = async_waiter;
-            let result = ctx.exec(task).await;
+            let mut ctx = LockedContext::new(ctx, lmi_ptr);
+            let result = ctx.get().exec(task).await;
 
             if result.is_ok() {
-                match ctx.drain_waituntil().await {
+                match ctx.get().drain_waituntil().await {
                     Ok(()) => {
-                        let (request, isolate_ptr) = ctx.into_parts();
+                        let (request, isolate_ptr) = ctx.into_inner().into_parts();
                         (
                             result,
                             Some(CachedContext {
@@ -847,7 +886,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                             &worker_id[..8.min(worker_id.len())],
                             reason,
                         );
-                        drop_under_lock(ctx, lmi_ptr);
+                        drop(ctx);
                         (Ok(()), None)
                     }
                 }
@@ -857,7 +896,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     result.as_ref().err(),
                 );
-                drop_under_lock(ctx, lmi_ptr);
+                drop(ctx);
                 (result, None)
             }
         }
@@ -889,9 +928,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         }
     }
 
-    // Release the isolate back to the pool
-    release_to_local_pool(&isolate_arc);
-
     result
 }
 
-- 
2.43.0


From ab1939d4cad7f3ec72d4a3ea1bd41b18e29dfbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 37/82] fix: a pool configured to keep no contexts keeps none

---
 src/pool.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index d1977c1..daf3a84 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -907,20 +907,27 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     if let Some(cached) = new_cached_context {
         let mut inner = isolate_arc.inner.lock().await;
 
-        let evicted = if inner.cached_contexts.len() >= inner.max_cached {
-            // LRU eviction: replace least recently used context
-            inner
-                .cached_contexts
-                .iter()
-                .enumerate()
-                .min_by_key(|(_, c)| c.last_used)
-                .map(|(i, _)| i)
-                .map(|idx| inner.cached_contexts.swap_remove(idx))
+        let evicted = if inner.max_cached == 0 {
+            // Nothing is to be kept
+            Some(cached)
         } else {
-            None
+            let evicted = if inner.cached_contexts.len() >= inner.max_cached {
+                // LRU eviction: replace least recently used context
+                inner
+                    .cached_contexts
+                    .iter()
+                    .enumerate()
+                    .min_by_key(|(_, c)| c.last_used)
+                    .map(|(i, _)| i)
+                    .map(|idx| inner.cached_contexts.swap_remove(idx))
+            } else {
+                None
+            };
+
+            inner.cached_contexts.push(cached);
+            evicted
         };
 
-        inner.cached_contexts.push(cached);
         drop(inner);
 
         if let Some(evicted) = evicted {
-- 
2.43.0


From b8d0edee79e54033a7fa8f001fd181401321256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 38/82] fix: URLSearchParams finds names given as other values
 than strings

---
 src/runtime/bindings/web_api.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index b298a73..df5a34d 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -496,21 +496,25 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             delete(name) {
-                this._entries = this._entries.filter(([k]) => k !== name);
+                const strName = String(name);
+                this._entries = this._entries.filter(([k]) => k !== strName);
                 this._update();
             }
 
             get(name) {
-                const entry = this._entries.find(([k]) => k === name);
+                const strName = String(name);
+                const entry = this._entries.find(([k]) => k === strName);
                 return entry ? entry[1] : null;
             }
 
             getAll(name) {
-                return this._entries.filter(([k]) => k === name).map(([, v]) => v);
+                const strName = String(name);
+                return this._entries.filter(([k]) => k === strName).map(([, v]) => v);
             }
 
             has(name) {
-                return this._entries.some(([k]) => k === name);
+                const strName = String(name);
+                return this._entries.some(([k]) => k === strName);
             }
 
             set(name, value) {
-- 
2.43.0


From f647668052e432a975693149d57a1fc2a8e27e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 39/82] fix: URLSearchParams does not hand out its own entries,
 and sorts by code units

---
 src/runtime/bindings/web_api.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index df5a34d..bb5211b 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -544,7 +544,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             sort() {
-                this._entries.sort((a, b) => a[0].localeCompare(b[0]));
+                this._entries.sort((a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0));
                 this._update();
             }
 
@@ -555,7 +555,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             }
 
             *entries() {
-                yield* this._entries;
+                for (const [k, v] of this._entries) yield [k, v];
             }
 
             *keys() {
-- 
2.43.0


From 99df70f88b9d2c8a738f37a8d386ff6154b04816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 40/82] fix: URLSearchParams reads and writes every query
 string

A value lost what follows its second "=", "+" was not read as a space, and a
stray "%" (or a lone surrogate when writing) threw, also from new URL().
---
 src/runtime/bindings/web_api.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index bb5211b..ee553b3 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -465,8 +465,11 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                     const str = init.startsWith('?') ? init.slice(1) : init;
                     if (str) {
                         for (const pair of str.split('&')) {
-                            const [key, value = ''] = pair.split('=').map(decodeURIComponent);
-                            this._entries.push([key, value]);
+                            if (!pair) continue;
+                            const eq = pair.indexOf('=');
+                            const key = eq < 0 ? pair : pair.slice(0, eq);
+                            const value = eq < 0 ? '' : pair.slice(eq + 1);
+                            this._entries.push([this._decode(key), this._decode(value)]);
                         }
                     }
                 } else if (init instanceof URLSearchParams) {
@@ -482,6 +485,23 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                 }
             }
 
+            // Percent-decode a name or value; what is not an escape stands for itself
+            _decode(str) {
+                str = str.replace(/\+/g, ' ');
+                if (!str.includes('%')) return str;
+
+                const bytes = [];
+                for (const part of str.split(/(%[0-9a-f]{2})/i)) {
+                    if (/^%[0-9a-f]{2}$/i.test(part)) {
+                        bytes.push(parseInt(part.slice(1), 16));
+                    } else {
+                        for (const byte of new TextEncoder().encode(part)) bytes.push(byte);
+                    }
+                }
+
+                return new TextDecoder('utf-8', { ignoreBOM: true }).decode(new Uint8Array(bytes));
+            }
+
             _update() {
                 if (this._url) {
                     const qs = this.toString();
@@ -550,7 +570,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
 
             toString() {
                 return this._entries
-                    .map(([k, v]) => encodeURIComponent(k) + '=' + encodeURIComponent(v))
+                    .map((entry) => entry.map((s) => encodeURIComponent(s.toWellFormed())).join('='))
                     .join('&');
             }
 
-- 
2.43.0


From 4356c504aad6d7e980dfec395878258de640d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 41/82] fix: Headers and URLSearchParams are made from any
 iterable of pairs

---
 src/runtime/bindings/web_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index ee553b3..64c6bce 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -474,7 +474,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
                     }
                 } else if (init instanceof URLSearchParams) {
                     this._entries = init._entries.map(e => [...e]);
-                } else if (Array.isArray(init)) {
+                } else if (typeof init[Symbol.iterator] === 'function') {
                     for (const [key, value] of init) {
                         this._entries.push([String(key), String(value)]);
                     }
@@ -697,8 +697,8 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
                         for (const [key, value] of init.entries()) {
                             this.append(key, value);
                         }
-                    } else if (Array.isArray(init)) {
-                        // Array of [key, value] pairs
+                    } else if (typeof init[Symbol.iterator] === 'function') {
+                        // Iterable (array, Map, ...) of [key, value] pairs
                         for (const [key, value] of init) {
                             this.append(key, value);
                         }
-- 
2.43.0


From fc3e84a47e8f13e22fa9f1ba7e134d5e36e2810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 42/82] fix: Headers.getSetCookie returns a copy, and an empty
 cookie header too

---
 src/runtime/bindings/web_api.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 64c6bce..66ad37d 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -819,10 +819,10 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
             // getSetCookie returns all Set-Cookie headers as array
             getSetCookie() {
                 const value = this._map.get('set-cookie');
-                if (!value) return [];
-                // If it's already an array (multiple set-cookie headers), return it
+                if (value === undefined) return [];
+                // If it's already an array (multiple set-cookie headers), return a copy
                 // Otherwise wrap single value in array
-                return Array.isArray(value) ? value : [value];
+                return Array.isArray(value) ? [...value] : [value];
             }
         };
     "#;
-- 
2.43.0


From 93bf5fd15333bea3fa2419678c5ffad6b4935b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 43/82] fix: FormData stores strings, and set() keeps the place
 of the entry

---
 src/runtime/bindings/web_api.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 66ad37d..f13fa9c 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -135,7 +135,12 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 if (value instanceof Blob && filename === undefined && value instanceof File) {
                     filename = value.name;
                 }
-                this._entries.push([String(name), value, filename]);
+                this._entries.push(this._entry(name, value, filename));
+            }
+
+            // Everything but a Blob is stored as a string
+            _entry(name, value, filename) {
+                return [String(name), value instanceof Blob ? value : String(value), filename];
             }
 
             delete(name) {
@@ -164,10 +169,15 @@ pub fn setup_form_data(scope: &mut v8::PinScope) {
                 if (value instanceof Blob && filename === undefined && value instanceof File) {
                     filename = value.name;
                 }
-                // Remove all existing entries with this name
-                this._entries = this._entries.filter(([k]) => k !== strName);
-                // Add the new entry
-                this._entries.push([strName, value, filename]);
+                // The new entry takes the place of the first one with this name
+                const first = this._entries.findIndex(([k]) => k === strName);
+                const entry = this._entry(strName, value, filename);
+                if (first < 0) {
+                    this._entries.push(entry);
+                } else {
+                    this._entries = this._entries.filter(([k], i) => k !== strName || i === first);
+                    this._entries[first] = entry;
+                }
             }
 
             *entries() {
-- 
2.43.0


From 68ab29135006856882049e3542c56b2b5d7b1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 44/82] fix: a URL can be written as JSON

---
 src/runtime/bindings/web_api.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index f13fa9c..cc29397 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -687,6 +687,10 @@ pub fn setup_url(scope: &mut v8::PinScope) {
             toString() {
                 return this.href;
             }
+
+            toJSON() {
+                return this.href;
+            }
         };
     "#;
 
-- 
2.43.0


From e3c79d83f51be298674ad798c52dd507e772daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 45/82] fix: URL understands IPv6 hosts and user names with a
 stray "%"

---
 src/runtime/bindings/web_api.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index cc29397..382d755 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -650,14 +650,17 @@ pub fn setup_url(scope: &mut v8::PinScope) {
                 this.href = url;
 
                 // scheme://[userinfo@]host[:port][/path][?query][#hash]
-                const match = url.match(/^([a-z][a-z0-9+\-.]*):\/\/(?:([^@\/\?#]*)@)?([^:\/?#]*)(?::(\d+))?(\/[^\?#]*)?(\?[^#]*)?(#.*)?$/i);
+                const match = url.match(/^([a-z][a-z0-9+\-.]*):\/\/(?:([^@\/\?#]*)@)?(\[[^\]\/?#]*\]|[^:\/?#]*)(?::(\d+))?(\/[^\?#]*)?(\?[^#]*)?(#.*)?$/i);
 
                 if (match) {
                     this.protocol = match[1] + ':';
                     const userinfo = match[2] || '';
                     const colonIdx = userinfo.indexOf(':');
-                    this.username = decodeURIComponent(colonIdx >= 0 ? userinfo.slice(0, colonIdx) : userinfo);
-                    this.password = decodeURIComponent(colonIdx >= 0 ? userinfo.slice(colonIdx + 1) : '');
+                    const decode = (str) => {
+                        try { return decodeURIComponent(str); } catch { return str; }
+                    };
+                    this.username = decode(colonIdx >= 0 ? userinfo.slice(0, colonIdx) : userinfo);
+                    this.password = decode(colonIdx >= 0 ? userinfo.slice(colonIdx + 1) : '');
                     this.hostname = match[3];
                     this.port = match[4] || '';
                     this.host = this.hostname + (this.port ? ':' + this.port : '');
-- 
2.43.0


From f3c27d6f4215112ab2a4e1c78fe3a36855dee19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 46/82] fix: URL resolves relative references against the base

"?q", "#h", "//host", "../x" and bases with "/" in their query or without a path
gave wrong URLs.
---
 src/runtime/bindings/web_api.rs | 46 ++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 382d755..4878609 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -632,17 +632,22 @@ pub fn setup_url(scope: &mut v8::PinScope) {
                     // Handle relative URLs
                     const baseUrl = typeof base === 'string' ? base : base.href;
 
-                    if (url.startsWith('/')) {
-                        // Absolute path - use origin from base
-                        const match = baseUrl.match(/^([a-z][a-z0-9+\-.]*:\/\/[^\/]+)/i);
-                        url = match ? match[1] + url : url;
-                    } else if (!url.match(/^[a-z][a-z0-9+\-.]*:\/\//i)) {
-                        // Relative path - append to base directory
-                        const hasPath = baseUrl.match(/^[a-z][a-z0-9+\-.]*:\/\/[^\/]+\//i);
-                        if (hasPath) {
-                            url = baseUrl.replace(/\/[^\/]*$/, '/') + url;
+                    // scheme:, //authority, path, ?query
+                    const parts = baseUrl.match(/^([a-z][a-z0-9+\-.]*:)(\/\/[^\/?#]*)([^?#]*)(\?[^#]*)?/i);
+
+                    if (parts && !url.match(/^[a-z][a-z0-9+\-.]*:\/\//i)) {
+                        const [, scheme, authority, basePath, baseQuery = ''] = parts;
+                        const [, path, rest] = url.match(/^([^?#]*)([^]*)$/);
+
+                        if (path.startsWith('//')) {
+                            url = scheme + url;
+                        } else if (path) {
+                            // Absolute path, or relative to the directory of the base
+                            const full = path.startsWith('/') ? path : (basePath || '/').replace(/[^\/]*$/, '') + path;
+                            url = scheme + authority + this._removeDots(full) + rest;
                         } else {
-                            url = baseUrl + '/' + url;
+                            // Only a query or fragment (or nothing)
+                            url = scheme + authority + basePath + (rest.startsWith('?') ? '' : baseQuery) + rest;
                         }
                     }
                 }
@@ -687,6 +692,27 @@ pub fn setup_url(scope: &mut v8::PinScope) {
                 this.searchParams._url = this;
             }
 
+            // Resolve the "." and ".." segments of an absolute path
+            _removeDots(path) {
+                const segments = path.split('/').slice(1);
+                const result = [];
+
+                segments.forEach((segment, i) => {
+                    const last = i === segments.length - 1;
+
+                    if (segment === '..') {
+                        result.pop();
+                        if (last) result.push('');
+                    } else if (segment === '.') {
+                        if (last) result.push('');
+                    } else {
+                        result.push(segment);
+                    }
+                });
+
+                return '/' + result.join('/');
+            }
+
             toString() {
                 return this.href;
             }
-- 
2.43.0


From a48ac1a0d6f30502ae4cbd4445937dcde2fc4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 47/82] fix: the components and the href of a URL follow each
 other

Assigning pathname, hostname, ... left href (which fetch uses) unchanged, assigning
href left the components, and changing searchParams dropped user name and password.
---
 src/runtime/bindings/web_api.rs | 111 ++++++++++++++++++++++++--------
 1 file changed, 85 insertions(+), 26 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 4878609..cf197b3 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -515,8 +515,7 @@ pub fn setup_url_search_params(scope: &mut v8::PinScope) {
             _update() {
                 if (this._url) {
                     const qs = this.toString();
-                    this._url.search = qs ? '?' + qs : '';
-                    this._url.href = this._url.origin + this._url.pathname + this._url.search + this._url.hash;
+                    this._url._change({ search: qs ? '?' + qs : '' });
                 }
             }
 
@@ -652,44 +651,104 @@ pub fn setup_url(scope: &mut v8::PinScope) {
                     }
                 }
 
+                this.searchParams = new URLSearchParams();
                 this.href = url;
 
+                // Link searchParams back to this URL so mutations update href
+                this.searchParams._url = this;
+            }
+
+            get href() {
+                return this._href;
+            }
+
+            set href(url) {
+                this._href = url = String(url);
+
                 // scheme://[userinfo@]host[:port][/path][?query][#hash]
                 const match = url.match(/^([a-z][a-z0-9+\-.]*):\/\/(?:([^@\/\?#]*)@)?(\[[^\]\/?#]*\]|[^:\/?#]*)(?::(\d+))?(\/[^\?#]*)?(\?[^#]*)?(#.*)?$/i);
 
                 if (match) {
-                    this.protocol = match[1] + ':';
                     const userinfo = match[2] || '';
                     const colonIdx = userinfo.indexOf(':');
                     const decode = (str) => {
                         try { return decodeURIComponent(str); } catch { return str; }
                     };
-                    this.username = decode(colonIdx >= 0 ? userinfo.slice(0, colonIdx) : userinfo);
-                    this.password = decode(colonIdx >= 0 ? userinfo.slice(colonIdx + 1) : '');
-                    this.hostname = match[3];
-                    this.port = match[4] || '';
-                    this.host = this.hostname + (this.port ? ':' + this.port : '');
-                    this.pathname = match[5] || '/';
-                    this.search = match[6] || '';
-                    this.hash = match[7] || '';
-                    this.origin = this.protocol + '//' + this.host;
-                    this.searchParams = new URLSearchParams(this.search);
+                    this._parts = {
+                        protocol: match[1] + ':',
+                        username: decode(colonIdx >= 0 ? userinfo.slice(0, colonIdx) : userinfo),
+                        password: decode(colonIdx >= 0 ? userinfo.slice(colonIdx + 1) : ''),
+                        hostname: match[3],
+                        port: match[4] || '',
+                        pathname: match[5] || '/',
+                        search: match[6] || '',
+                        hash: match[7] || ''
+                    };
                 } else {
-                    this.protocol = '';
-                    this.username = '';
-                    this.password = '';
-                    this.host = '';
-                    this.hostname = '';
-                    this.port = '';
-                    this.pathname = url;
-                    this.search = '';
-                    this.hash = '';
-                    this.origin = '';
-                    this.searchParams = new URLSearchParams();
+                    this._parts = {
+                        protocol: '', username: '', password: '', hostname: '',
+                        port: '', pathname: url, search: '', hash: ''
+                    };
                 }
 
-                // Link searchParams back to this URL so mutations update href
-                this.searchParams._url = this;
+                this.searchParams._entries = new URLSearchParams(this._parts.search)._entries;
+            }
+
+            // Change components (of a URL that could be parsed) and rebuild href from all of them
+            _change(parts) {
+                if (!this._parts.protocol) return;
+
+                const p = Object.assign(this._parts, parts);
+                const password = p.password ? ':' + encodeURIComponent(p.password) : '';
+                const userinfo = p.username || password ? encodeURIComponent(p.username) + password + '@' : '';
+                this._href = p.protocol + '//' + userinfo + this.host + p.pathname + p.search + p.hash;
+            }
+
+            // value with its prefix ('?', '#' or '/'), unless it is empty
+            _prefixed(prefix, value) {
+                value = String(value);
+                return value === '' || value.startsWith(prefix) ? value : prefix + value;
+            }
+
+            get protocol() { return this._parts.protocol; }
+            set protocol(value) { this._change({ protocol: String(value).replace(/:?$/, ':') }); }
+
+            get username() { return this._parts.username; }
+            set username(value) { this._change({ username: String(value) }); }
+
+            get password() { return this._parts.password; }
+            set password(value) { this._change({ password: String(value) }); }
+
+            get hostname() { return this._parts.hostname; }
+            set hostname(value) { this._change({ hostname: String(value) }); }
+
+            get port() { return this._parts.port; }
+            set port(value) { this._change({ port: String(value) }); }
+
+            get host() {
+                const { hostname, port } = this._parts;
+                return hostname + (port ? ':' + port : '');
+            }
+
+            set host(value) {
+                const [, hostname, port] = String(value).match(/^(\[[^\]]*\]|[^:]*)(?::(\d+))?/);
+                this._change(port ? { hostname, port } : { hostname });
+            }
+
+            get pathname() { return this._parts.pathname; }
+            set pathname(value) { this._change({ pathname: this._prefixed('/', value) || '/' }); }
+
+            get search() { return this._parts.search; }
+            set search(value) {
+                this._change({ search: this._prefixed('?', value) });
+                this.searchParams._entries = new URLSearchParams(this._parts.search)._entries;
+            }
+
+            get hash() { return this._parts.hash; }
+            set hash(value) { this._change({ hash: this._prefixed('#', value) }); }
+
+            get origin() {
+                return this._parts.protocol && this._parts.protocol + '//' + this.host;
             }
 
             // Resolve the "." and ".." segments of an absolute path
-- 
2.43.0


From 972b1eea4ae4408a19064c8cb7a9c5591249cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 48/82] fix: Blobs, DataViews and typed arrays of any kind can
 be bodies

They were sent as text such as "[object Blob]" or "1,2,3".
---
 src/runtime/bindings/web_api.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index cf197b3..c406e9c 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -982,8 +982,8 @@ pub fn setup_request(scope: &mut v8::PinScope) {
             _initBody(body) {
                 if (body instanceof ReadableStream) {
                     this.body = body;
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
+                } else if (body instanceof Blob || body instanceof ArrayBuffer || ArrayBuffer.isView(body)) {
+                    const bytes = __chunkBytes(body instanceof Blob ? body._getBytes() : body);
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
@@ -1225,15 +1225,15 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 
                 // Support different body types - all wrapped in ReadableStream
                 // _isBuffered marks responses where body data is already fully available
-                // (created from string/Uint8Array/ArrayBuffer, not a user-provided stream)
+                // (created from string/ArrayBuffer/view/Blob, not a user-provided stream)
                 if (body instanceof ReadableStream) {
                     this.body = body;
                     this._isBuffered = false; // User-provided stream - must be streamed
                     if (body._nativeStreamId !== undefined) {
                         this._nativeStreamId = body._nativeStreamId;
                     }
-                } else if (body instanceof Uint8Array || body instanceof ArrayBuffer) {
-                    const bytes = body instanceof Uint8Array ? body : new Uint8Array(body);
+                } else if (body instanceof Blob || body instanceof ArrayBuffer || ArrayBuffer.isView(body)) {
+                    const bytes = __chunkBytes(body instanceof Blob ? body._getBytes() : body);
                     this.body = new ReadableStream({
                         start(controller) {
                             controller.enqueue(bytes);
-- 
2.43.0


From b63b7e865d22fba63ab3f33d3c312eadd91557fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 49/82] fix: text() and arrayBuffer() read streams of strings,
 buffers and any views

Only Uint8Array chunks came out right; text chunks became zero bytes.
---
 src/runtime/bindings/web_api.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index c406e9c..a2314a6 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1022,7 +1022,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     while (true) {
                         const { done, value } = await reader.read();
                         if (done) break;
-                        chunks.push(value);
+                        chunks.push(__chunkBytes(value));
                     }
                 } finally {
                     reader.releaseLock();
@@ -1151,7 +1151,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     while (true) {
                         const { done, value } = await reader.read();
                         if (done) break;
-                        chunks.push(value);
+                        chunks.push(__chunkBytes(value));
                     }
                 } finally {
                     reader.releaseLock();
@@ -1274,7 +1274,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     while (true) {
                         const { done, value } = await reader.read();
                         if (done) break;
-                        chunks.push(value);
+                        chunks.push(__chunkBytes(value));
                     }
                 } finally {
                     reader.releaseLock();
@@ -1309,7 +1309,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     while (true) {
                         const { done, value } = await reader.read();
                         if (done) break;
-                        chunks.push(value);
+                        chunks.push(__chunkBytes(value));
                     }
                 } finally {
                     reader.releaseLock();
-- 
2.43.0


From 4aaf298dd723bb6a7e075aea3c7be9274dbda924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 50/82] fix: a Blob shares no memory with its parts or with
 what it gives out

arrayBuffer() of a Blob made of a part of a buffer also returned the whole buffer.
---
 src/runtime/bindings/web_api.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index a2314a6..70c7b19 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -58,9 +58,9 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
                     if (part instanceof Blob) {
                         this._parts.push(...part._parts);
                     } else if (part instanceof ArrayBuffer) {
-                        this._parts.push(new Uint8Array(part));
+                        this._parts.push(new Uint8Array(part.slice(0)));
                     } else if (ArrayBuffer.isView(part)) {
-                        this._parts.push(new Uint8Array(part.buffer, part.byteOffset, part.byteLength));
+                        this._parts.push(new Uint8Array(part.buffer, part.byteOffset, part.byteLength).slice());
                     } else {
                         this._parts.push(new TextEncoder().encode(String(part)));
                     }
@@ -78,7 +78,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             }
 
             async arrayBuffer() {
-                return this._getBytes().buffer;
+                return this._getBytes().slice().buffer;
             }
 
             async text() {
@@ -86,7 +86,7 @@ pub fn setup_blob(scope: &mut v8::PinScope) {
             }
 
             stream() {
-                const bytes = this._getBytes();
+                const bytes = this._getBytes().slice();
                 return new ReadableStream({
                     start(controller) {
                         controller.enqueue(bytes);
-- 
2.43.0


From fe2cb81ea92ce3840e8a5d9f7d71972d7dda927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 51/82] fix: a response has headers of its own

---
 src/runtime/bindings/web_api.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 70c7b19..e3fed56 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1216,12 +1216,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                 this.type = init.type || 'default';
                 this.redirected = init.redirected || false;
 
-                // Convert headers to Headers instance
-                if (init.headers instanceof Headers) {
-                    this.headers = init.headers;
-                } else {
-                    this.headers = new Headers(init.headers);
-                }
+                // Own Headers instance
+                this.headers = new Headers(init.headers);
 
                 // Support different body types - all wrapped in ReadableStream
                 // _isBuffered marks responses where body data is already fully available
-- 
2.43.0


From a6ce409473b586653399923d12aef124487f5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 52/82] fix: Response.error() has status 0 and is not ok

---
 src/runtime/bindings/web_api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index e3fed56..2773c63 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1509,6 +1509,8 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                     status: 0,
                     type: 'error'
                 });
+                response.status = 0;
+                response.ok = false;
                 return response;
             }
         };
-- 
2.43.0


From d1e5da34da30e458107d14e31bb01d1354d92c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 53/82] fix: formData() reads empty names and file names, names
 after file names, and the boundary inside a field

A field whose name came after its file name got the wrong name, fields with an
empty name were lost, files with an empty name became text, and a field containing
the boundary in the middle of a line was cut there.
---
 src/runtime/bindings/web_api.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 2773c63..0cf1095 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1062,6 +1062,7 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     }
                     const boundary = '--' + (boundaryMatch[1] || boundaryMatch[2]);
                     const boundaryBytes = new TextEncoder().encode(boundary);
+                    const delimiterBytes = new TextEncoder().encode('\r\n' + boundary);
                     const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
                     const crlf = new Uint8Array([13, 10]); // \r\n
 
@@ -1098,20 +1099,21 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                         const headerText = new TextDecoder().decode(headerBytes);
 
                         // Find next boundary for body end
-                        const nextBoundary = findPattern(data, boundaryBytes, headerEnd + 4);
-                        const bodyEnd = nextBoundary !== -1 ? nextBoundary - 2 : data.length; // -2 for CRLF before boundary
+                        const delimiter = findPattern(data, delimiterBytes, headerEnd + 4);
+                        const bodyEnd = delimiter !== -1 ? delimiter : data.length;
+                        const nextBoundary = delimiter !== -1 ? delimiter + 2 : -1; // +2 for CRLF before boundary
 
                         // Extract body as bytes
                         const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
 
-                        const nameMatch = headerText.match(/name="([^"]+)"/);
+                        const nameMatch = headerText.match(/;\s*name="([^"]*)"/i);
                         if (!nameMatch) {
                             pos = nextBoundary;
                             continue;
                         }
 
                         const name = nameMatch[1];
-                        const filenameMatch = headerText.match(/filename="([^"]+)"/);
+                        const filenameMatch = headerText.match(/;\s*filename="([^"]*)"/i);
 
                         if (filenameMatch) {
                             const filename = filenameMatch[1];
@@ -1347,6 +1349,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
 
                     const boundary = '--' + (boundaryMatch[1] || boundaryMatch[2]);
                     const boundaryBytes = new TextEncoder().encode(boundary);
+                    const delimiterBytes = new TextEncoder().encode('\r\n' + boundary);
                     const crlfcrlf = new Uint8Array([13, 10, 13, 10]); // \r\n\r\n
 
                     const buffer = await this.arrayBuffer();
@@ -1383,13 +1386,14 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                         const headerText = new TextDecoder().decode(headerBytes);
 
                         // Find next boundary for body end
-                        const nextBoundary = findPattern(data, boundaryBytes, headerEnd + 4);
-                        const bodyEnd = nextBoundary !== -1 ? nextBoundary - 2 : data.length; // -2 for CRLF before boundary
+                        const delimiter = findPattern(data, delimiterBytes, headerEnd + 4);
+                        const bodyEnd = delimiter !== -1 ? delimiter : data.length;
+                        const nextBoundary = delimiter !== -1 ? delimiter + 2 : -1; // +2 for CRLF before boundary
 
                         // Extract body as bytes
                         const bodyBytes = data.slice(headerEnd + 4, bodyEnd);
 
-                        const nameMatch = headerText.match(/name="([^"]+)"/);
+                        const nameMatch = headerText.match(/;\s*name="([^"]*)"/i);
 
                         if (!nameMatch) {
                             pos = nextBoundary;
@@ -1397,7 +1401,7 @@ pub fn setup_response(scope: &mut v8::PinScope) {
                         }
 
                         const name = nameMatch[1];
-                        const filenameMatch = headerText.match(/filename="([^"]+)"/);
+                        const filenameMatch = headerText.match(/;\s*filename="([^"]*)"/i);
 
                         if (filenameMatch) {
                             const filename = filenameMatch[1];
-- 
2.43.0


From f8e100ebba88eeddc36e1cd60af642e42de9d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 54/82] fix: structuredClone refuses functions and symbols

---
 src/runtime/bindings/web_api.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 0cf1095..33dc5cd 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -301,6 +301,11 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
 
             // Use JSON for simple cases, but handle more types
             function clone(obj, seen = new Map()) {
+                // Functions and symbols cannot be cloned
+                if (typeof obj === 'function' || typeof obj === 'symbol') {
+                    throw new DOMException(`${String(obj)} could not be cloned.`, 'DataCloneError');
+                }
+
                 // Primitives
                 if (obj === null || typeof obj !== 'object') {
                     return obj;
-- 
2.43.0


From 0a4324f6dc262ee1c3944e3a6d4aae2915db6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 55/82] fix: structuredClone keeps shared references, errors,
 boxed values, DataView lengths and array holes

Dates, regular expressions, buffers and views that occur twice were copied twice
(views on one buffer got separate ones), errors lost everything, a DataView
reached to the end of its buffer, and an own "__proto__" key set the prototype.
---
 src/runtime/bindings/web_api.rs | 47 +++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 33dc5cd..ac66423 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -318,25 +318,49 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
 
                 // Date
                 if (obj instanceof Date) {
-                    return new Date(obj.getTime());
+                    const copy = new Date(obj.getTime());
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // RegExp
                 if (obj instanceof RegExp) {
-                    return new RegExp(obj.source, obj.flags);
+                    const copy = new RegExp(obj.source, obj.flags);
+                    seen.set(obj, copy);
+                    return copy;
+                }
+
+                // Boxed primitives
+                if (obj instanceof Number || obj instanceof String || obj instanceof Boolean) {
+                    const copy = Object(obj.valueOf());
+                    seen.set(obj, copy);
+                    return copy;
+                }
+
+                // Errors
+                if (obj instanceof Error) {
+                    const types = [EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError];
+                    const copy = new (types.find((type) => type.name === obj.name) || Error)(obj.message);
+                    seen.set(obj, copy);
+                    copy.stack = obj.stack;
+                    return copy;
                 }
 
                 // ArrayBuffer
                 if (obj instanceof ArrayBuffer) {
                     const copy = new ArrayBuffer(obj.byteLength);
                     new Uint8Array(copy).set(new Uint8Array(obj));
+                    seen.set(obj, copy);
                     return copy;
                 }
 
-                // TypedArrays
+                // TypedArrays and DataViews
                 if (ArrayBuffer.isView(obj)) {
-                    const TypedArrayConstructor = obj.constructor;
-                    return new TypedArrayConstructor(clone(obj.buffer, seen), obj.byteOffset, obj.length);
+                    const ViewConstructor = obj.constructor;
+                    const length = obj instanceof DataView ? obj.byteLength : obj.length;
+                    const copy = new ViewConstructor(clone(obj.buffer, seen), obj.byteOffset, length);
+                    seen.set(obj, copy);
+                    return copy;
                 }
 
                 // Map
@@ -363,8 +387,9 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
                 if (Array.isArray(obj)) {
                     const copy = [];
                     seen.set(obj, copy);
-                    for (let i = 0; i < obj.length; i++) {
-                        copy[i] = clone(obj[i], seen);
+                    copy.length = obj.length;
+                    for (const key of Object.keys(obj)) {
+                        copy[key] = clone(obj[key], seen);
                     }
                     return copy;
                 }
@@ -373,7 +398,13 @@ pub fn setup_structured_clone(scope: &mut v8::PinScope) {
                 const copy = {};
                 seen.set(obj, copy);
                 for (const key of Object.keys(obj)) {
-                    copy[key] = clone(obj[key], seen);
+                    // (not an assignment: the key may be "__proto__")
+                    Object.defineProperty(copy, key, {
+                        value: clone(obj[key], seen),
+                        writable: true,
+                        enumerable: true,
+                        configurable: true
+                    });
                 }
                 return copy;
             }
-- 
2.43.0


From c38d7f7939b16900f8e70f03f12368e162cd48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 56/82] fix: an abort reason may be any value but undefined

---
 src/runtime/bindings/web_api.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index ac66423..9fa91f5 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -254,7 +254,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
 
             static abort(reason) {
                 const signal = new AbortSignal();
-                signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                signal._abort(reason !== undefined ? reason : new DOMException('Aborted', 'AbortError'));
                 return signal;
             }
 
@@ -273,7 +273,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             abort(reason) {
-                this.signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                this.signal._abort(reason !== undefined ? reason : new DOMException('Aborted', 'AbortError'));
             }
         };
 
-- 
2.43.0


From e13d807406ae25556417250ff9a1baa9ee6a37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 57/82] fix: abort listeners are called once each, unless
 removed, and may be objects

---
 src/runtime/bindings/web_api.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 9fa91f5..fabf9b8 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -225,7 +225,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             addEventListener(type, listener) {
-                if (type === 'abort') {
+                if (type === 'abort' && listener && !this._listeners.includes(listener)) {
                     this._listeners.push(listener);
                 }
             }
@@ -247,8 +247,17 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
                 this.aborted = true;
                 this.reason = reason;
                 const event = { type: 'abort', target: this };
-                for (const listener of this._listeners) {
-                    try { listener(event); } catch (e) { console.error(e); }
+                for (const listener of [...this._listeners]) {
+                    // Removed by another listener
+                    if (!this._listeners.includes(listener)) continue;
+
+                    try {
+                        if (typeof listener === 'function') {
+                            listener.call(this, event);
+                        } else {
+                            listener.handleEvent(event);
+                        }
+                    } catch (e) { console.error(e); }
                 }
             }
 
-- 
2.43.0


From 7ccf2f67bea3320fb843b775ba9d639bd4e90ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 58/82] fix: an imported key keeps a copy of the key data

---
 src/runtime/crypto/ecdsa.rs  | 4 ++--
 src/runtime/crypto/hmac.rs   | 4 ++--
 src/runtime/crypto/pbkdf2.rs | 4 ++--
 src/runtime/crypto/rsa.rs    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index b85a682..560d694 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -247,9 +247,9 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                     if (algoName === 'ECDSA') {
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else {
                             reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                             return;
diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index 09aab2b..a2d2bc2 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -165,9 +165,9 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
 
                     let keyBytes;
                     if (keyData instanceof ArrayBuffer) {
-                        keyBytes = new Uint8Array(keyData);
+                        keyBytes = new Uint8Array(keyData.slice(0));
                     } else if (keyData instanceof Uint8Array) {
-                        keyBytes = keyData;
+                        keyBytes = new Uint8Array(keyData);
                     } else {
                         reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                         return;
diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 8375b8d..209d65d 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -110,9 +110,9 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
 
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else if (typeof keyData === 'string') {
                             keyBytes = new TextEncoder().encode(keyData);
                         } else {
diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index bceb9b2..19a0c6b 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -169,9 +169,9 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                     if (algoName === 'RSASSA-PKCS1-v1_5') {
                         let keyBytes;
                         if (keyData instanceof ArrayBuffer) {
-                            keyBytes = new Uint8Array(keyData);
+                            keyBytes = new Uint8Array(keyData.slice(0));
                         } else if (keyData instanceof Uint8Array) {
-                            keyBytes = keyData;
+                            keyBytes = new Uint8Array(keyData);
                         } else {
                             reject(new Error('Key data must be ArrayBuffer or Uint8Array'));
                             return;
-- 
2.43.0


From ef7156f1e85599a5a7547132971181acafec4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 59/82] fix: HMAC signs and verifies with HMAC keys only

---
 src/runtime/crypto/hmac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index a2d2bc2..d658b96 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -199,7 +199,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
@@ -238,7 +238,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
-- 
2.43.0


From 2ee314259b23ae22e11fee942dc6b81717dd4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 60/82] fix: deriveBits refuses lengths that are not a number
 of bytes

---
 src/runtime/crypto/pbkdf2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 209d65d..540f6b8 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -167,12 +167,18 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
                         return;
                     }
 
+                    const bits = Number(length);
+                    if (length === null || !(bits >= 0) || bits % 8 !== 0) {
+                        reject(new Error('Length must be a multiple of 8'));
+                        return;
+                    }
+
                     const hashName = typeof algorithm.hash === 'string'
                         ? algorithm.hash
                         : algorithm.hash.name;
 
                     const result = crypto.subtle.__nativePbkdf2DeriveBits(
-                        hashName, baseKey.__keyData, salt, iterations, length
+                        hashName, baseKey.__keyData, salt, iterations, bits
                     );
 
                     if (result) {
-- 
2.43.0


From 32861b71d4540bf889508d202eb65673294b3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 61/82] fix: ECDSA refuses hashes other than the one it uses

---
 src/runtime/crypto/ecdsa.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index 560d694..5b04c4c 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -305,6 +305,13 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        const hash = algorithm.hash;
+                        const hashName = hash && typeof hash === 'object' ? hash.name : hash;
+                        if (hashName && String(hashName).toUpperCase() !== 'SHA-256') {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         let dataBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
@@ -348,6 +355,13 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        const hash = algorithm.hash;
+                        const hashName = hash && typeof hash === 'object' ? hash.name : hash;
+                        if (hashName && String(hashName).toUpperCase() !== 'SHA-256') {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         let dataBytes, sigBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
-- 
2.43.0


From 3e418bdb570cfa37bd0f45bc29d49898413894b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 62/82] fix: RSA keys can be given as PKCS#8 and SPKI

---
 src/runtime/crypto/rsa.rs | 53 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index 19a0c6b..8b32094 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -1,6 +1,49 @@
 use ring::{rand, rsa, signature};
 use v8;
 
+/// AlgorithmIdentifier of RSA keys: rsaEncryption, NULL
+const RSA_ALGORITHM_ID: [u8; 13] = [
+    0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00,
+];
+
+/// Content of the DER value of the given tag at the start of the input, and what follows it
+fn der_value(input: &[u8], tag: u8) -> Option<(&[u8], &[u8])> {
+    let (&actual, rest) = input.split_first()?;
+    let (&first, mut rest) = rest.split_first()?;
+    let mut len = first as usize;
+
+    if actual != tag {
+        return None;
+    }
+
+    if first & 0x80 != 0 {
+        let count = (first & 0x7f) as usize;
+
+        if count > 4 {
+            return None;
+        }
+
+        let (digits, after) = rest.split_at_checked(count)?;
+        len = digits.iter().fold(0, |len, &d| len << 8 | d as usize);
+        rest = after;
+    }
+
+    rest.split_at_checked(len)
+}
+
+/// The RSAPublicKey inside a SubjectPublicKeyInfo
+fn spki_public_key(der: &[u8]) -> Option<&[u8]> {
+    let (info, after) = der_value(der, 0x30)?;
+    let (algorithm, key) = der_value(info, 0x30)?;
+    let (bits, rest) = der_value(key, 0x03)?;
+
+    if algorithm != RSA_ALGORITHM_ID || !rest.is_empty() || !after.is_empty() {
+        return None;
+    }
+
+    bits.strip_prefix(&[0])
+}
+
 pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Object>) {
     // Native RSA sign: __nativeRsaSign(hashAlgo, privateKeyDer, data) -> ArrayBuffer
     let sign_fn = v8::Function::new(
@@ -52,8 +95,10 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                 }
             };
 
-            // Load RSA key pair from DER
-            let key_pair = match rsa::KeyPair::from_der(&private_key_data) {
+            // Load RSA key pair from PKCS#8, or from a bare RSAPrivateKey
+            let key_pair = match rsa::KeyPair::from_pkcs8(&private_key_data)
+                .or_else(|_| rsa::KeyPair::from_der(&private_key_data))
+            {
                 Ok(kp) => kp,
                 Err(_) => {
                     retval.set(v8::undefined(scope).into());
@@ -142,7 +187,9 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                     }
                 };
 
-            let public_key = signature::UnparsedPublicKey::new(algorithm, &public_key_data);
+            // The key as SubjectPublicKeyInfo, or a bare RSAPublicKey
+            let public_key_der = spki_public_key(&public_key_data).unwrap_or(&public_key_data);
+            let public_key = signature::UnparsedPublicKey::new(algorithm, public_key_der);
             let is_valid = public_key.verify(&data, &sig_data).is_ok();
 
             retval.set(v8::Boolean::new(scope, is_valid).into());
-- 
2.43.0


From 370f3f53c8a77dbd55202f3b41325f8ae5eec3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 63/82] fix: what a task handler returns never replaces what it
 responded with

---
 src/worker.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 1630a6b..2436580 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1620,7 +1620,11 @@ pub(crate) fn setup_event_listener(
                         waitUntilPromises.push(Promise.resolve(promise));
                     };
 
+                    let responded = false;
+
                     event.respondWith = function(result) {
+                        responded = true;
+
                         if (result && typeof result === 'object') {
                             globalThis.__taskResult = {
                                 success: result.success !== false,
@@ -1636,7 +1640,7 @@ pub(crate) fn setup_event_listener(
                         const result = await handler(event);
 
                         // If handler returns a value and respondWith wasn't called, use it
-                        if (result !== undefined && globalThis.__taskResult.data === undefined) {
+                        if (result !== undefined && !responded) {
                             if (result && typeof result === 'object' && 'success' in result) {
                                 globalThis.__taskResult = {
                                     success: result.success !== false,
@@ -1785,7 +1789,11 @@ pub(crate) fn setup_es_modules_handler(
                     waitUntilPromises.push(Promise.resolve(promise));
                 };
 
+                let responded = false;
+
                 event.respondWith = function(result) {
+                    responded = true;
+
                     if (result && typeof result === 'object') {
                         globalThis.__taskResult = {
                             success: result.success !== false,
@@ -1805,7 +1813,7 @@ pub(crate) fn setup_es_modules_handler(
                     const result = await moduleTask(event, globalThis.env, ctx);
 
                     // If handler returns a value and respondWith wasn't called, use it
-                    if (result !== undefined && globalThis.__taskResult.data === undefined) {
+                    if (result !== undefined && !responded) {
                         if (result && typeof result === 'object' && 'success' in result) {
                             globalThis.__taskResult = {
                                 success: result.success !== false,
-- 
2.43.0


From 9e56d16d281858b28e20c92de8e311be54078392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 64/82] fix: a failing task handler is reported whatever it
 throws, and does not cut off announced work

---
 src/worker.rs | 61 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 2436580..5b36558 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1486,6 +1486,32 @@ pub(crate) fn setup_event_listener(
             }
         }
 
+        // Ends a task: waits for the announced work, also when the handler failed, and
+        // reports the first failure
+        async function __finishTask(promises, failure) {
+            try {
+                await __settleWaitUntil(promises);
+            } catch (error) {
+                failure ??= { error };
+            }
+
+            if (failure) {
+                let message = 'Unknown error';
+
+                try {
+                    message = String(failure.error?.message || failure.error);
+                } catch {}
+
+                globalThis.__taskResult = { success: false, error: message };
+            }
+
+            globalThis.__requestComplete = true;
+
+            if (failure) {
+                console.error('[task] Handler error:', failure.error);
+            }
+        }
+
         globalThis.addEventListener = function(type, handler) {
             if (type === 'fetch') {
                 globalThis.__fetchHandler = handler;
@@ -1636,6 +1662,8 @@ pub(crate) fn setup_event_listener(
                         }
                     };
 
+                    let failure = null;
+
                     try {
                         const result = await handler(event);
 
@@ -1651,20 +1679,11 @@ pub(crate) fn setup_event_listener(
                                 globalThis.__taskResult = { success: true, data: result };
                             }
                         }
-
-                        // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await __settleWaitUntil(waitUntilPromises);
-                        }
                     } catch (error) {
-                        console.error('[task] Handler error:', error);
-                        globalThis.__taskResult = {
-                            success: false,
-                            error: error?.message || String(error)
-                        };
-                    } finally {
-                        globalThis.__requestComplete = true;
+                        failure = { error };
                     }
+
+                    await __finishTask(waitUntilPromises, failure);
                 };
             }
         };
@@ -1809,6 +1828,8 @@ pub(crate) fn setup_es_modules_handler(
                     waitUntil: event.waitUntil
                 };
 
+                let failure = null;
+
                 try {
                     const result = await moduleTask(event, globalThis.env, ctx);
 
@@ -1824,19 +1845,11 @@ pub(crate) fn setup_es_modules_handler(
                             globalThis.__taskResult = { success: true, data: result };
                         }
                     }
-
-                    // Wait for all waitUntil promises
-                    if (waitUntilPromises.length > 0) {
-                        await __settleWaitUntil(waitUntilPromises);
-                    }
-                } catch (e) {
-                    globalThis.__taskResult = {
-                        success: false,
-                        error: e?.message || String(e)
-                    };
-                } finally {
-                    globalThis.__requestComplete = true;
+                } catch (error) {
+                    failure = { error };
                 }
+
+                await __finishTask(waitUntilPromises, failure);
             };
         }
 
-- 
2.43.0


From ddf6217814c91f1c9825473d7360801a22b31833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 65/82] fix: a scheduled handler that fails is not reported as
 a success

---
 src/worker.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 5b36558..0185be3 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1623,16 +1623,16 @@ pub(crate) fn setup_event_listener(
                         waitUntilPromises.push(Promise.resolve(promise));
                     };
 
+                    let failure = null;
+                    globalThis.__taskResult = { success: true };
+
                     try {
                         await handler(event);
-
-                        // Wait for all waitUntil promises to complete
-                        if (waitUntilPromises.length > 0) {
-                            await __settleWaitUntil(waitUntilPromises);
-                        }
-                    } finally {
-                        globalThis.__requestComplete = true;
+                    } catch (error) {
+                        failure = { error };
                     }
+
+                    await __finishTask(waitUntilPromises, failure);
                 };
             } else if (type === 'task') {
                 globalThis.__taskHandler = async function(event) {
@@ -1775,16 +1775,16 @@ pub(crate) fn setup_es_modules_handler(
                     }
                 };
 
+                let failure = null;
+                globalThis.__taskResult = { success: true };
+
                 try {
                     await moduleScheduled(event, globalThis.env, ctx);
-
-                    // Wait for all waitUntil promises to complete
-                    if (waitUntilPromises.length > 0) {
-                        await __settleWaitUntil(waitUntilPromises);
-                    }
-                } finally {
-                    globalThis.__requestComplete = true;
+                } catch (error) {
+                    failure = { error };
                 }
+
+                await __finishTask(waitUntilPromises, failure);
             };
         }
 
-- 
2.43.0


From acc5edb5674bc09c4bf95b7738e431b14700a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 66/82] fix: a task for a worker without a handler for it ends
 at once, as failed

---
 src/worker.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 0185be3..d281caa 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1791,7 +1791,7 @@ pub(crate) fn setup_es_modules_handler(
         // If export default exists but no scheduled, and no addEventListener handler, create a handler that throws
         if (typeof globalThis.default === 'object' && globalThis.default !== null && typeof globalThis.default.scheduled !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
             globalThis.__scheduledHandler = async function(event) {
-                throw new Error('Worker does not implement scheduled handler');
+                await __finishTask([], { error: new Error('Worker does not implement scheduled handler') });
             };
         }
 
@@ -1861,6 +1861,13 @@ pub(crate) fn setup_es_modules_handler(
             }
         }
 
+        // Nothing handles tasks
+        if (typeof globalThis.__taskHandler !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
+            globalThis.__taskHandler = async function(event) {
+                await __finishTask([], { error: new Error('Worker does not implement task handler') });
+            };
+        }
+
         // Final fallback: if __triggerFetch is still not defined (no addEventListener, no valid export default),
         // create a 501 handler. This handles cases like:
         // - globalThis.default = null
-- 
2.43.0


From bb0de47b8841d5109439933b0f8ad9c02b5dd199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 67/82] fix: the outcome of a worker's previous event is not
 taken for the next one's

---
 src/worker.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index d281caa..00926f9 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -631,6 +631,9 @@ impl Worker {
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
 
+        // What a previous event left behind must not be taken for the outcome of this one
+        self.reset_request_state();
+
         // Execute the task
         let result = match task {
             Event::Fetch(ref mut init) => {
@@ -671,6 +674,31 @@ impl Worker {
         // Guards are dropped here, cancelling any pending watchdogs
     }
 
+    /// Clear the JS globals that describe the outcome of an event.
+    fn reset_request_state(&mut self) {
+        use std::pin::pin;
+        let scope = pin!(v8::HandleScope::new(&mut self.runtime.isolate));
+        let mut scope = scope.init();
+        let context = v8::Local::new(&scope, &self.runtime.context);
+        let scope = &mut v8::ContextScope::new(&mut scope, context);
+
+        let global = context.global(scope);
+        let undefined = v8::undefined(scope);
+
+        for name in ["__lastResponse", "__lastResponseStreamId", "__taskResult"] {
+            let key = v8::String::new(scope, name).unwrap();
+            global.set(scope, key.into(), undefined.into());
+        }
+
+        let complete_key = v8::String::new(scope, "__requestComplete").unwrap();
+        let complete_val = v8::Boolean::new(scope, false);
+        global.set(scope, complete_key.into(), complete_val.into());
+
+        let streams_key = v8::String::new(scope, "__activeResponseStreams").unwrap();
+        let streams_val = v8::Integer::new(scope, 0);
+        global.set(scope, streams_key.into(), streams_val.into());
+    }
+
     /// Check termination reason based on execution result and guard states.
     ///
     /// Priority order:
-- 
2.43.0


From 264675a673b16b3af58a7a4f282aa4c5dfe1f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 68/82] fix: environment variables and bindings named __proto__
 reach the worker

---
 src/worker.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 00926f9..3e5d24b 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1203,11 +1203,17 @@ pub(crate) fn setup_env(
     env: &Option<std::collections::HashMap<String, String>>,
     bindings: &[openworkers_core::BindingInfo],
 ) -> Result<(), String> {
-    // Build JSON string for env vars
-    let env_json = env
-        .as_ref()
-        .map(|m| serde_json::to_string(m).unwrap_or_else(|_| "{}".to_string()))
-        .unwrap_or_else(|| "{}".to_string());
+    // Build env var definitions. Keys are computed: `"__proto__": value` would
+    // set the prototype instead of defining a property.
+    let mut defs: Vec<String> = env
+        .iter()
+        .flatten()
+        .map(|(key, value)| {
+            let key = serde_json::to_string(key).unwrap_or_else(|_| "\"\"".to_string());
+            let value = serde_json::to_string(value).unwrap_or_else(|_| "\"\"".to_string());
+            format!("[{key}]: {value}")
+        })
+        .collect();
 
     // Build binding object definitions
     let binding_defs: Vec<String> = bindings
@@ -1219,7 +1225,7 @@ pub(crate) fn setup_env(
                     // Assets binding has fetch() only
                     // Supports Request, URL, and string inputs (like standard fetch)
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             fetch: function(input, options) {{
                                 return __prepareFetch(input, options).then((fetchOptions) => new Promise((resolve, reject) => {{
                                     __nativeBindingFetch({name}, fetchOptions, (meta) => {{
@@ -1240,7 +1246,7 @@ pub(crate) fn setup_env(
                 openworkers_core::BindingType::Storage => {
                     // Storage binding has get/put/head/list/delete/fetch
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             get: (key) => __bindingCall(__nativeBindingStorage, {name}, 'get', {{ key }})
                                 .then(r => r.body ? new TextDecoder().decode(r.body) : null),
                             put: (key, value) => {{
@@ -1270,7 +1276,7 @@ pub(crate) fn setup_env(
                     // KV binding has get/put/delete/list
                     // Use IIFE to capture binding name as a string constant
                     format!(
-                        r#"{name}: (function() {{
+                        r#"[{name}]: (function() {{
                             const __n = {name};
                             return {{
                                 get: (key) => __bindingCall(__nativeBindingKv, __n, 'get', {{ key }}).then(r => r.value),
@@ -1294,7 +1300,7 @@ pub(crate) fn setup_env(
                     // Database binding has query method
                     // Use IIFE to capture binding name as a string constant
                     format!(
-                        r#"{name}: (function() {{
+                        r#"[{name}]: (function() {{
                             const __n = {name};
                             return {{
                                 query: (sql, params) => __bindingCall(__nativeBindingDatabase, __n, 'query', {{ sql, params: params || [] }}).then(r => r.rows)
@@ -1306,7 +1312,7 @@ pub(crate) fn setup_env(
                     // Worker binding has fetch method for worker-to-worker calls
                     // Supports Request, URL, and string inputs (like standard fetch)
                     format!(
-                        r#"{name}: {{
+                        r#"[{name}]: {{
                             fetch: function(input, options) {{
                                 return __prepareFetch(input, options).then((fetchOptions) => new Promise((resolve, reject) => {{
                                     __nativeBindingWorker({name}, fetchOptions, (meta) => {{
@@ -1328,21 +1334,17 @@ pub(crate) fn setup_env(
         })
         .collect();
 
-    let bindings_json = if binding_defs.is_empty() {
-        String::new()
-    } else {
-        format!(", {{{}}}", binding_defs.join(","))
-    };
+    defs.extend(binding_defs);
 
     // Set globalThis.env as read-only with both env vars and bindings
     let code = format!(
         r#"Object.defineProperty(globalThis, 'env', {{
-            value: Object.freeze(Object.assign({}{})),
+            value: Object.freeze({{{}}}),
             writable: false,
             enumerable: true,
             configurable: false
         }});"#,
-        env_json, bindings_json
+        defs.join(",")
     );
 
     evaluate_in_context(isolate, context, &code)
-- 
2.43.0


From 677141adb33ba4f5286f36f87aad68f4bf992d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 69/82] fix: the CPU limit does not count what other executions
 on the thread compute

---
 src/execution_context.rs     | 34 ++++++++++++-------
 src/security/cpu_enforcer.rs | 66 ++++++++++++++++++++++++++++++++++++
 src/security/mod.rs          |  2 +-
 src/worker.rs                | 26 ++++++++------
 4 files changed, 104 insertions(+), 24 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index f7543a3..4173593 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -24,7 +24,7 @@ use crate::execution_helpers::{
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
 use crate::runtime::{bindings, crypto, streams, text_encoding};
-use crate::security::{CpuEnforcer, TimeoutGuard};
+use crate::security::{CpuEnforcer, TimeoutGuard, metered};
 use openworkers_core::{
     Event, HttpResponse, OperationsHandle, RequestBody, ResponseBody, RuntimeLimits, Script,
     TerminationReason, WorkerCode,
@@ -875,20 +875,26 @@ impl ExecutionContext {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
                 ))?;
-                self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard)
-                    .await
+                metered(
+                    &cpu_guard,
+                    self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
+                )
+                .await
             }
             Event::Task(ref mut init) => {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                self.trigger_task_event(task_init, &wall_guard, &cpu_guard)
-                    .await
-                    .map(|_| HttpResponse {
-                        status: 200,
-                        headers: vec![],
-                        body: ResponseBody::None,
-                    })
+                metered(
+                    &cpu_guard,
+                    self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
+                )
+                .await
+                .map(|_| HttpResponse {
+                    status: 200,
+                    headers: vec![],
+                    body: ResponseBody::None,
+                })
             }
         };
 
@@ -925,9 +931,11 @@ impl ExecutionContext {
             TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
-        let result = self
-            .await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None)
-            .await;
+        let result = metered(
+            &cpu_guard,
+            self.await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None),
+        )
+        .await;
 
         self.check_termination_reason(
             result.map(|_| HttpResponse {
diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index ddec208..114b2a8 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -19,6 +19,9 @@
 //! 3. Signal handler thread (spawned once globally) receives the signal
 //! 4. Handler calls `isolate.terminate_execution()` to abort V8
 //!
+//! The thread may run other executions while this one waits: the timer runs only
+//! between `resume()` and `suspend()`, see `metered()`.
+//!
 //! The signal handler itself does NO locks, NO allocations - fully async-signal-safe.
 //! All complex logic happens in the dedicated signal processing thread.
 //!
@@ -38,6 +41,7 @@
 
 #[cfg(target_os = "linux")]
 mod linux {
+    use std::cell::Cell;
     use std::collections::HashMap;
     use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
     use std::sync::{Arc, Mutex, Once};
@@ -47,6 +51,8 @@ mod linux {
         timer_id: libc::timer_t,
         enforcer_id: usize,
         terminated: Arc<AtomicBool>,
+        /// CPU time left while the timer is suspended
+        left: Cell<Option<libc::timespec>>,
     }
 
     impl CpuEnforcer {
@@ -114,9 +120,34 @@ mod linux {
                 timer_id,
                 enforcer_id,
                 terminated,
+                left: Cell::new(None),
             })
         }
 
+        /// Stop counting CPU time: the thread goes on with something else.
+        pub fn suspend(&self) {
+            if self.left.get().is_some() {
+                return;
+            }
+
+            let disarmed: libc::itimerspec = unsafe { std::mem::zeroed() };
+            let mut left: libc::itimerspec = unsafe { std::mem::zeroed() };
+
+            if unsafe { libc::timer_settime(self.timer_id, 0, &disarmed, &mut left) } == 0 {
+                self.left.set(Some(left.it_value));
+            }
+        }
+
+        /// Count CPU time again, from where it was suspended.
+        pub fn resume(&self) {
+            if let Some(left) = self.left.take() {
+                let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
+                timer_spec.it_value = left;
+
+                unsafe { libc::timer_settime(self.timer_id, 0, &timer_spec, std::ptr::null_mut()) };
+            }
+        }
+
         /// Check if the CPU limit was exceeded and termination occurred.
         pub fn was_terminated(&self) -> bool {
             self.terminated.load(Ordering::SeqCst)
@@ -129,6 +160,7 @@ mod linux {
         pub fn reset(&self, timeout_ms: u64) -> Result<(), std::io::Error> {
             // Reset terminated flag
             self.terminated.store(false, Ordering::SeqCst);
+            self.left.set(None);
 
             // Rearm the timer
             let timeout_secs = timeout_ms / 1000;
@@ -279,8 +311,42 @@ impl CpuEnforcer {
         false
     }
 
+    /// No-op on non-Linux platforms.
+    pub fn suspend(&self) {}
+
+    /// No-op on non-Linux platforms.
+    pub fn resume(&self) {}
+
     /// No-op on non-Linux platforms.
     pub fn reset(&self, _timeout_ms: u64) -> Result<(), std::io::Error> {
         Ok(())
     }
 }
+
+// ============================================================================
+// Metering
+// ============================================================================
+
+/// Poll a future, counting its CPU time only: what the thread does between the
+/// polls is not charged to it.
+pub async fn metered<F: std::future::Future>(
+    enforcer: &Option<CpuEnforcer>,
+    future: F,
+) -> F::Output {
+    let mut future = std::pin::pin!(future);
+
+    std::future::poll_fn(|cx| {
+        if let Some(enforcer) = enforcer {
+            enforcer.resume();
+        }
+
+        let result = future.as_mut().poll(cx);
+
+        if let Some(enforcer) = enforcer {
+            enforcer.suspend();
+        }
+
+        result
+    })
+    .await
+}
diff --git a/src/security/mod.rs b/src/security/mod.rs
index f5ff419..d662653 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -36,7 +36,7 @@ mod timeout_guard;
 
 #[cfg(not(feature = "sandbox"))]
 pub use array_buffer_allocator::CustomAllocator;
-pub use cpu_enforcer::CpuEnforcer;
+pub use cpu_enforcer::{CpuEnforcer, metered};
 pub use cpu_timer::{CpuTimer, get_thread_cpu_time};
 pub use heap_limit::{HeapLimitState, install_heap_limit_callback};
 pub use timeout_guard::TimeoutGuard;
diff --git a/src/worker.rs b/src/worker.rs
index 3e5d24b..6c99417 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -5,7 +5,7 @@ use crate::execution_helpers::{
     poll_grace_period, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::runtime::{Runtime, run_event_loop};
-use crate::security::{CpuEnforcer, TimeoutGuard};
+use crate::security::{CpuEnforcer, TimeoutGuard, metered};
 use openworkers_core::{
     Event, HttpResponse, OperationsHandle, RequestBody, ResponseBody, RuntimeLimits, Script,
     TerminationReason, WorkerCode,
@@ -640,20 +640,26 @@ impl Worker {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
                 ))?;
-                self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard)
-                    .await
+                metered(
+                    &cpu_guard,
+                    self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
+                )
+                .await
             }
             Event::Task(ref mut init) => {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                self.trigger_task_event(task_init, &wall_guard, &cpu_guard)
-                    .await
-                    .map(|_| HttpResponse {
-                        status: 200,
-                        headers: vec![],
-                        body: ResponseBody::None,
-                    })
+                metered(
+                    &cpu_guard,
+                    self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
+                )
+                .await
+                .map(|_| HttpResponse {
+                    status: 200,
+                    headers: vec![],
+                    body: ResponseBody::None,
+                })
             }
         };
 
-- 
2.43.0


From 407da7a680f1dd8389840e1aefe5851e6b40d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 70/82] fix: a limit that expires while another request of the
 isolate runs does not terminate that one

---
 src/execution_context.rs      | 11 ++++--
 src/security/cpu_enforcer.rs  | 73 +++++++++++++++++++----------------
 src/security/mod.rs           | 31 ++++++++++++++-
 src/security/timeout_guard.rs | 45 ++++++++++++++++++++-
 src/worker.rs                 |  8 ++--
 5 files changed, 125 insertions(+), 43 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 4173593..7a21041 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -24,7 +24,7 @@ use crate::execution_helpers::{
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
 use crate::runtime::{bindings, crypto, streams, text_encoding};
-use crate::security::{CpuEnforcer, TimeoutGuard, metered};
+use crate::security::{CpuEnforcer, TimeoutGuard, enforced};
 use openworkers_core::{
     Event, HttpResponse, OperationsHandle, RequestBody, ResponseBody, RuntimeLimits, Script,
     TerminationReason, WorkerCode,
@@ -875,7 +875,8 @@ impl ExecutionContext {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
                 ))?;
-                metered(
+                enforced(
+                    &wall_guard,
                     &cpu_guard,
                     self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
                 )
@@ -885,7 +886,8 @@ impl ExecutionContext {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                metered(
+                enforced(
+                    &wall_guard,
                     &cpu_guard,
                     self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
                 )
@@ -931,7 +933,8 @@ impl ExecutionContext {
             TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
-        let result = metered(
+        let result = enforced(
+            &wall_guard,
             &cpu_guard,
             self.await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None),
         )
diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 114b2a8..d1e9cec 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -20,7 +20,7 @@
 //! 4. Handler calls `isolate.terminate_execution()` to abort V8
 //!
 //! The thread may run other executions while this one waits: the timer runs only
-//! between `resume()` and `suspend()`, see `metered()`.
+//! between `resume()` and `suspend()`, see `enforced()`.
 //!
 //! The signal handler itself does NO locks, NO allocations - fully async-signal-safe.
 //! All complex logic happens in the dedicated signal processing thread.
@@ -51,6 +51,9 @@ mod linux {
         timer_id: libc::timer_t,
         enforcer_id: usize,
         terminated: Arc<AtomicBool>,
+        isolate_handle: v8::IsolateHandle,
+        /// Whether the execution runs, as opposed to another one in its isolate
+        running: Arc<Mutex<bool>>,
         /// CPU time left while the timer is suspended
         left: Cell<Option<libc::timespec>>,
     }
@@ -93,7 +96,13 @@ mod linux {
             let terminated = Arc::new(AtomicBool::new(false));
 
             // Register in global registry
-            register_enforcer(enforcer_id, isolate_handle, terminated.clone());
+            let running = Arc::new(Mutex::new(true));
+            register_enforcer(
+                enforcer_id,
+                isolate_handle.clone(),
+                terminated.clone(),
+                running.clone(),
+            );
 
             // Arm the timer
             let timeout_secs = timeout_ms / 1000;
@@ -120,26 +129,44 @@ mod linux {
                 timer_id,
                 enforcer_id,
                 terminated,
+                isolate_handle,
+                running,
                 left: Cell::new(None),
             })
         }
 
-        /// Stop counting CPU time: the thread goes on with something else.
+        /// Stop counting CPU time: the thread goes on with something else, which is
+        /// not to be terminated in place of this execution.
         pub fn suspend(&self) {
-            if self.left.get().is_some() {
+            let mut running = self.running.lock().unwrap();
+
+            if !*running {
                 return;
             }
 
+            *running = false;
+
             let disarmed: libc::itimerspec = unsafe { std::mem::zeroed() };
             let mut left: libc::itimerspec = unsafe { std::mem::zeroed() };
 
             if unsafe { libc::timer_settime(self.timer_id, 0, &disarmed, &mut left) } == 0 {
                 self.left.set(Some(left.it_value));
             }
+
+            if self.was_terminated() {
+                self.isolate_handle.cancel_terminate_execution();
+            }
         }
 
         /// Count CPU time again, from where it was suspended.
         pub fn resume(&self) {
+            let mut running = self.running.lock().unwrap();
+            *running = true;
+
+            if self.was_terminated() {
+                self.isolate_handle.terminate_execution();
+            }
+
             if let Some(left) = self.left.take() {
                 let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
                 timer_spec.it_value = left;
@@ -193,6 +220,7 @@ mod linux {
     struct EnforcerData {
         isolate_handle: v8::IsolateHandle,
         terminated: Arc<AtomicBool>,
+        running: Arc<Mutex<bool>>,
     }
 
     static ENFORCER_REGISTRY: std::sync::LazyLock<Mutex<HashMap<usize, EnforcerData>>> =
@@ -205,6 +233,7 @@ mod linux {
         enforcer_id: usize,
         isolate_handle: v8::IsolateHandle,
         terminated: Arc<AtomicBool>,
+        running: Arc<Mutex<bool>>,
     ) {
         let mut map = ENFORCER_REGISTRY.lock().unwrap();
         map.insert(
@@ -212,6 +241,7 @@ mod linux {
             EnforcerData {
                 isolate_handle,
                 terminated,
+                running,
             },
         );
     }
@@ -266,12 +296,17 @@ mod linux {
                 let map = ENFORCER_REGISTRY.lock().unwrap();
 
                 if let Some(enforcer_data) = map.get(&enforcer_id) {
+                    let running = enforcer_data.running.lock().unwrap();
+
                     if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
                         eprintln!(
                             "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
                             enforcer_id
                         );
-                        enforcer_data.isolate_handle.terminate_execution();
+
+                        if *running {
+                            enforcer_data.isolate_handle.terminate_execution();
+                        }
                     }
                 } else {
                     // Timer fired but enforcer was already dropped (normal race condition)
@@ -322,31 +357,3 @@ impl CpuEnforcer {
         Ok(())
     }
 }
-
-// ============================================================================
-// Metering
-// ============================================================================
-
-/// Poll a future, counting its CPU time only: what the thread does between the
-/// polls is not charged to it.
-pub async fn metered<F: std::future::Future>(
-    enforcer: &Option<CpuEnforcer>,
-    future: F,
-) -> F::Output {
-    let mut future = std::pin::pin!(future);
-
-    std::future::poll_fn(|cx| {
-        if let Some(enforcer) = enforcer {
-            enforcer.resume();
-        }
-
-        let result = future.as_mut().poll(cx);
-
-        if let Some(enforcer) = enforcer {
-            enforcer.suspend();
-        }
-
-        result
-    })
-    .await
-}
diff --git a/src/security/mod.rs b/src/security/mod.rs
index d662653..f4fb47d 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -36,7 +36,36 @@ mod timeout_guard;
 
 #[cfg(not(feature = "sandbox"))]
 pub use array_buffer_allocator::CustomAllocator;
-pub use cpu_enforcer::{CpuEnforcer, metered};
+pub use cpu_enforcer::CpuEnforcer;
 pub use cpu_timer::{CpuTimer, get_thread_cpu_time};
 pub use heap_limit::{HeapLimitState, install_heap_limit_callback};
 pub use timeout_guard::TimeoutGuard;
+
+/// Poll a future with its limits in force while it is polled only: what the thread
+/// does between the polls is neither charged to it nor terminated in its place.
+pub async fn enforced<F: std::future::Future>(
+    wall_guard: &TimeoutGuard,
+    cpu_guard: &Option<CpuEnforcer>,
+    future: F,
+) -> F::Output {
+    let mut future = std::pin::pin!(future);
+
+    std::future::poll_fn(|cx| {
+        wall_guard.resume();
+
+        if let Some(cpu_guard) = cpu_guard {
+            cpu_guard.resume();
+        }
+
+        let result = future.as_mut().poll(cx);
+
+        if let Some(cpu_guard) = cpu_guard {
+            cpu_guard.suspend();
+        }
+
+        wall_guard.suspend();
+
+        result
+    })
+    .await
+}
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index cf1474c..9cc6fd9 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -62,6 +62,9 @@ pub struct TimeoutGuard {
 struct Watchdog {
     thread: thread::JoinHandle<()>,
     waker: Arc<Mutex<Option<Waker>>>,
+    isolate_handle: v8::IsolateHandle,
+    /// Whether the execution runs, as opposed to another one in its isolate
+    running: Arc<Mutex<bool>>,
 }
 
 impl TimeoutGuard {
@@ -92,6 +95,9 @@ impl TimeoutGuard {
         let triggered_clone = triggered.clone();
         let waker: Arc<Mutex<Option<Waker>>> = Arc::new(Mutex::new(None));
         let waker_clone = waker.clone();
+        let running = Arc::new(Mutex::new(true));
+        let running_clone = running.clone();
+        let watchdog_handle = isolate_handle.clone();
 
         let thread_handle = thread::Builder::new()
             .name("timeout-watchdog".into())
@@ -110,8 +116,15 @@ impl TimeoutGuard {
                             "[openworkers-runtime-v8] Wall-clock timeout after {}ms, terminating isolate",
                             timeout_ms
                         );
-                        triggered_clone.store(true, Ordering::SeqCst);
-                        isolate_handle.terminate_execution();
+
+                        {
+                            let running = running_clone.lock().unwrap();
+                            triggered_clone.store(true, Ordering::SeqCst);
+
+                            if *running {
+                                watchdog_handle.terminate_execution();
+                            }
+                        }
 
                         // The task may be waiting for I/O: without a wakeup it would
                         // not notice the timeout until something else polls it.
@@ -134,6 +147,8 @@ impl TimeoutGuard {
             thread_handle: Some(Watchdog {
                 thread: thread_handle,
                 waker,
+                isolate_handle,
+                running,
             }),
             triggered,
         }
@@ -146,6 +161,32 @@ impl TimeoutGuard {
         self.triggered.load(Ordering::SeqCst)
     }
 
+    /// The thread goes on with something else, which is not to be terminated in
+    /// place of this execution.
+    pub fn suspend(&self) {
+        if let Some(watchdog) = &self.thread_handle {
+            let mut running = watchdog.running.lock().unwrap();
+
+            if *running && self.was_triggered() {
+                watchdog.isolate_handle.cancel_terminate_execution();
+            }
+
+            *running = false;
+        }
+    }
+
+    /// This execution goes on.
+    pub fn resume(&self) {
+        if let Some(watchdog) = &self.thread_handle {
+            let mut running = watchdog.running.lock().unwrap();
+            *running = true;
+
+            if self.was_triggered() {
+                watchdog.isolate_handle.terminate_execution();
+            }
+        }
+    }
+
     /// Wake the given task when the timeout triggers.
     ///
     /// Call this before checking `was_triggered()`, on every poll.
diff --git a/src/worker.rs b/src/worker.rs
index 6c99417..028a17e 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -5,7 +5,7 @@ use crate::execution_helpers::{
     poll_grace_period, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::runtime::{Runtime, run_event_loop};
-use crate::security::{CpuEnforcer, TimeoutGuard, metered};
+use crate::security::{CpuEnforcer, TimeoutGuard, enforced};
 use openworkers_core::{
     Event, HttpResponse, OperationsHandle, RequestBody, ResponseBody, RuntimeLimits, Script,
     TerminationReason, WorkerCode,
@@ -640,7 +640,8 @@ impl Worker {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
                 ))?;
-                metered(
+                enforced(
+                    &wall_guard,
                     &cpu_guard,
                     self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
                 )
@@ -650,7 +651,8 @@ impl Worker {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                metered(
+                enforced(
+                    &wall_guard,
                     &cpu_guard,
                     self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
                 )
-- 
2.43.0


From 364e6465d2019d756b7b6eef0f7870d7b5ac0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 71/82] fix: hitting the memory limit is not reported for other
 requests of the isolate

---
 src/execution_context.rs | 53 ++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 7a21041..0899ae1 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -83,6 +83,20 @@ pub struct ExecutionContext {
     pub(crate) async_waiter: Option<Arc<AsyncWaiter>>,
 }
 
+/// Poll a future and tell whether the flag was raised meanwhile. The flag belongs to
+/// the isolate, which other requests may use between the polls.
+async fn watch_flag<F: Future>(flag: &AtomicBool, future: F) -> (F::Output, bool) {
+    let mut future = std::pin::pin!(future);
+    let mut raised = false;
+
+    std::future::poll_fn(|cx| {
+        let result = future.as_mut().poll(cx);
+        raised |= flag.swap(false, Ordering::SeqCst);
+        result.map(|output| (output, raised))
+    })
+    .await
+}
+
 impl ExecutionContext {
     /// Create a new execution context with a pooled isolate.
     ///
@@ -869,8 +883,10 @@ impl ExecutionContext {
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
+        let memory_limit_hit = Arc::clone(&self.memory_limit_hit);
+
         // Execute the task
-        let result = match task {
+        let (result, memory_limit_hit) = match task {
             Event::Fetch(ref mut init) => {
                 let fetch_init = init.take().ok_or(TerminationReason::Other(
                     "FetchInit already consumed".to_string(),
@@ -878,7 +894,10 @@ impl ExecutionContext {
                 enforced(
                     &wall_guard,
                     &cpu_guard,
-                    self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
+                    watch_flag(
+                        &memory_limit_hit,
+                        self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
+                    ),
                 )
                 .await
             }
@@ -886,17 +905,23 @@ impl ExecutionContext {
                 let task_init = init.take().ok_or(TerminationReason::Other(
                     "TaskInit already consumed".to_string(),
                 ))?;
-                enforced(
+                let (result, memory_limit_hit) = enforced(
                     &wall_guard,
                     &cpu_guard,
-                    self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
+                    watch_flag(
+                        &memory_limit_hit,
+                        self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
+                    ),
                 )
-                .await
-                .map(|_| HttpResponse {
+                .await;
+
+                let response = HttpResponse {
                     status: 200,
                     headers: vec![],
                     body: ResponseBody::None,
-                })
+                };
+
+                (result.map(|_| response), memory_limit_hit)
             }
         };
 
@@ -913,6 +938,7 @@ impl ExecutionContext {
                 .map(|g| g.was_terminated())
                 .unwrap_or(false),
             wall_guard.was_triggered(),
+            memory_limit_hit,
         )
         // Guards are dropped here, cancelling any pending watchdogs
     }
@@ -933,10 +959,15 @@ impl ExecutionContext {
             TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
         let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
 
-        let result = enforced(
+        let memory_limit_hit = Arc::clone(&self.memory_limit_hit);
+
+        let (result, memory_limit_hit) = enforced(
             &wall_guard,
             &cpu_guard,
-            self.await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None),
+            watch_flag(
+                &memory_limit_hit,
+                self.await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None),
+            ),
         )
         .await;
 
@@ -951,6 +982,7 @@ impl ExecutionContext {
                 .map(|g| g.was_terminated())
                 .unwrap_or(false),
             wall_guard.was_triggered(),
+            memory_limit_hit,
         )
     }
 
@@ -960,6 +992,7 @@ impl ExecutionContext {
         result: Result<HttpResponse, String>,
         cpu_limit_hit: bool,
         wall_timeout_hit: bool,
+        memory_limit_hit: bool,
     ) -> Result<(), TerminationReason> {
         // Check guards first (they caused termination)
         if cpu_limit_hit {
@@ -971,7 +1004,7 @@ impl ExecutionContext {
         }
 
         // Check memory limit flag
-        if self.memory_limit_hit.load(Ordering::SeqCst) {
+        if memory_limit_hit {
             return Err(TerminationReason::MemoryLimit);
         }
 
-- 
2.43.0


From c43ae476373ed1efff014e6a0ee2bb852f3e9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 72/82] fix: the limits hold while a worker is loaded and while
 its context is reset

A script that did not end (at the top level, in getters of its module, or in
what it left in the way of the reset of its context) kept the thread for ever.
---
 src/execution_context.rs |  56 ++++++++++++--------
 src/worker.rs            | 108 ++++++++++++++++++++++++++++-----------
 2 files changed, 112 insertions(+), 52 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0899ae1..b366a00 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -197,17 +197,22 @@ impl ExecutionContext {
             v8::Global::new(scope.as_ref(), context)
         };
 
-        // Setup addEventListener (placeholder - actual setup done during context creation)
-        Self::setup_event_listener(isolate, &context)?;
+        // The script is loaded within the limits of an execution
+        let isolate_handle = isolate.thread_safe_handle();
 
-        // Setup environment variables and bindings (placeholder)
-        Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
+        crate::worker::within_limits(isolate_handle, &limits, &memory_limit_hit, || {
+            // Setup addEventListener (placeholder - actual setup done during context creation)
+            Self::setup_event_listener(isolate, &context)?;
 
-        // Evaluate user script (placeholder)
-        Self::evaluate_script(isolate, &context, &script.code)?;
+            // Setup environment variables and bindings (placeholder)
+            Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
 
-        // Setup ES Modules handler (placeholder)
-        Self::setup_es_modules_handler(isolate, &context)?;
+            // Evaluate user script (placeholder)
+            Self::evaluate_script(isolate, &context, &script.code)?;
+
+            // Setup ES Modules handler (placeholder)
+            Self::setup_es_modules_handler(isolate, &context)
+        })?;
 
         // Start event loop in background (with optional Operations handle)
         // Use tokio::spawn (not spawn_local) so the event loop survives LocalSet drops.
@@ -1522,19 +1527,28 @@ impl ExecutionContext {
             (*self.isolate).cancel_terminate_execution();
         }
 
-        // 1. Reset JS globals (response, completion, streams, task result, timers)
-        self.evaluate(&WorkerCode::JavaScript(
-            r#"
-            globalThis.__lastResponse = undefined;
-            globalThis.__requestComplete = false;
-            globalThis.__lastResponseStreamId = undefined;
-            globalThis.__activeResponseStreams = 0;
-            globalThis.__taskResult = undefined;
-            globalThis.__timerCallbacks.clear();
-            globalThis.__intervalIds.clear();
-            "#
-            .to_string(),
-        ))?;
+        // 1. Reset JS globals (response, completion, streams, task result, timers),
+        // within the limits of an execution: the worker may have replaced any of them
+        let isolate_handle = unsafe { (*self.isolate).thread_safe_handle() };
+        let limits = self.limits.clone();
+        let memory_limit_hit = Arc::clone(&self.memory_limit_hit);
+
+        crate::worker::within_limits(isolate_handle, &limits, &memory_limit_hit, || {
+            self.evaluate(&WorkerCode::JavaScript(
+                r#"
+                globalThis.__lastResponse = undefined;
+                globalThis.__requestComplete = false;
+                globalThis.__lastResponseStreamId = undefined;
+                globalThis.__activeResponseStreams = 0;
+                globalThis.__taskResult = undefined;
+                globalThis.__timerCallbacks.clear();
+                globalThis.__intervalIds.clear();
+                "#
+                .to_string(),
+            ))
+            .map_err(TerminationReason::Exception)
+        })
+        .map_err(|reason| format!("{:?}", reason))?;
 
         // 2. Reset Rust-side abort flag
         self.request.aborted.store(false, Ordering::SeqCst);
diff --git a/src/worker.rs b/src/worker.rs
index 028a17e..d3bcdd8 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -454,6 +454,45 @@ impl WorkerBuilder {
     }
 }
 
+/// Run JavaScript of a worker outside of its events (loading it, clearing up after
+/// it) within the limits of an execution.
+pub(crate) fn within_limits<T>(
+    isolate_handle: v8::IsolateHandle,
+    limits: &RuntimeLimits,
+    memory_limit_hit: &AtomicBool,
+    run: impl FnOnce() -> Result<T, TerminationReason>,
+) -> Result<T, TerminationReason> {
+    let wall_guard = TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
+    let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
+
+    let result = run();
+
+    // The isolate is not to be terminated in place of this code
+    if let Some(ref cpu_guard) = cpu_guard {
+        cpu_guard.suspend();
+    }
+
+    wall_guard.suspend();
+
+    if cpu_guard
+        .as_ref()
+        .map(|g| g.was_terminated())
+        .unwrap_or(false)
+    {
+        return Err(TerminationReason::CpuTimeLimit);
+    }
+
+    if wall_guard.was_triggered() {
+        return Err(TerminationReason::WallClockTimeout);
+    }
+
+    if result.is_err() && memory_limit_hit.swap(false, Ordering::SeqCst) {
+        return Err(TerminationReason::MemoryLimit);
+    }
+
+    result
+}
+
 impl Default for WorkerBuilder {
     fn default() -> Self {
         Self::new()
@@ -534,37 +573,44 @@ impl Worker {
             worker_snapshot,
         );
 
-        // Setup addEventListener
-        setup_event_listener(&mut runtime.isolate, &runtime.context).map_err(|e| {
-            TerminationReason::InitializationError(format!(
-                "Failed to setup addEventListener: {}",
-                e
-            ))
-        })?;
-
-        // Setup environment variables and bindings
-        setup_env(
-            &mut runtime.isolate,
-            &runtime.context,
-            &script.env,
-            &script.bindings,
-        )
-        .map_err(|e| {
-            TerminationReason::InitializationError(format!("Failed to setup env: {}", e))
-        })?;
-
-        // Evaluate user script
-        runtime.evaluate(&script.code).map_err(|e| {
-            TerminationReason::Exception(format!("Script evaluation failed: {}", e))
-        })?;
-
-        // Setup ES Modules handler if `export default { fetch }` is used
-        // This takes priority over addEventListener('fetch', ...)
-        setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
-            TerminationReason::InitializationError(format!(
-                "Failed to setup ES modules handler: {}",
-                e
-            ))
+        // The script is loaded within the limits of an execution
+        let isolate_handle = runtime.isolate.thread_safe_handle();
+        let load_limits = runtime.limits.clone();
+        let memory_limit_hit = Arc::clone(&runtime.memory_limit_hit);
+
+        within_limits(isolate_handle, &load_limits, &memory_limit_hit, || {
+            // Setup addEventListener
+            setup_event_listener(&mut runtime.isolate, &runtime.context).map_err(|e| {
+                TerminationReason::InitializationError(format!(
+                    "Failed to setup addEventListener: {}",
+                    e
+                ))
+            })?;
+
+            // Setup environment variables and bindings
+            setup_env(
+                &mut runtime.isolate,
+                &runtime.context,
+                &script.env,
+                &script.bindings,
+            )
+            .map_err(|e| {
+                TerminationReason::InitializationError(format!("Failed to setup env: {}", e))
+            })?;
+
+            // Evaluate user script
+            runtime.evaluate(&script.code).map_err(|e| {
+                TerminationReason::Exception(format!("Script evaluation failed: {}", e))
+            })?;
+
+            // Setup ES Modules handler if `export default { fetch }` is used
+            // This takes priority over addEventListener('fetch', ...)
+            setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
+                TerminationReason::InitializationError(format!(
+                    "Failed to setup ES modules handler: {}",
+                    e
+                ))
+            })
         })?;
 
         // Get stream_manager for event loop
-- 
2.43.0


From 18b2e182677bca37b3d4aa3884f5d4960e522539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 73/82] fix: a WebSocket that was closed or lost gets its close
 event

---
 src/runtime/bindings/websocket.rs |  4 +++-
 src/runtime/scheduler.rs          | 34 +++++++++++++++++++------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index f99003d..f5f411e 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -303,10 +303,12 @@ pub fn setup_websocket(
 
                 __nativeWebSocketAccept(this._wsId, function(eventType, arg1, arg2) {
                     if (eventType === 'message') {
+                        // After close() no message is delivered
+                        if (self.readyState !== WS_OPEN && self.readyState !== WS_CONNECTING) return;
                         self._dispatch('message', { type: 'message', data: arg1 });
                     } else if (eventType === 'close') {
                         self.readyState = WS_CLOSED;
-                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: true });
+                        self._dispatch('close', { type: 'close', code: arg1, reason: arg2, wasClean: arg1 !== 1006 });
                     } else if (eventType === 'error') {
                         self._dispatch('error', { type: 'error', message: arg1 });
                     }
diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index 74cb99c..f7b10a1 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -605,7 +605,7 @@ enum WebSocketCommand {
 /// 1. Connects via OperationsHandler
 /// 2. Waits for Accept before pumping incoming messages
 /// 3. Forwards Send/Close commands to the WS
-/// 4. Delivers incoming messages as CallbackMessages
+/// 4. Delivers incoming messages as CallbackMessages, the end of the connection last
 #[allow(clippy::too_many_arguments)]
 async fn run_websocket(
     ws_id: WebSocketId,
@@ -645,6 +645,7 @@ async fn run_websocket(
     let send_tx = conn.send_tx;
     let mut recv_rx = conn.recv_rx;
     let mut accepted = false;
+    let mut closing = false;
 
     // Phase 2: Command loop — handle sends, receives, and accept
     loop {
@@ -653,7 +654,7 @@ async fn run_websocket(
 
             _ = cancel.cancelled() => break,
 
-            cmd = cmd_rx.recv() => {
+            cmd = cmd_rx.recv(), if !closing => {
                 let Some(cmd) = cmd else { break };
 
                 match cmd {
@@ -665,22 +666,29 @@ async fn run_websocket(
                     }
                     WebSocketCommand::Close(code, reason) => {
                         let _ = send_tx.send(WebSocketOutgoing::Close { code, reason });
-                        break;
+
+                        // The peer has yet to answer, which ends the connection
+                        closing = true;
+
+                        if !accepted {
+                            break;
+                        }
                     }
                 }
             }
 
             msg = recv_rx.recv(), if accepted => {
-                match msg {
-                    Some(incoming) => {
-                        let _ = callback_tx.send(
-                            CallbackMessage::WebSocketEvent(ws_id, incoming),
-                        );
-                    }
-                    None => {
-                        // Runner dropped the sender — connection is done
-                        break;
-                    }
+                // Without a sender the connection has gone without being closed
+                let incoming = msg.unwrap_or(WebSocketIncoming::Closed {
+                    code: 1006,
+                    reason: String::new(),
+                });
+                let closed = matches!(incoming, WebSocketIncoming::Closed { .. });
+
+                let _ = callback_tx.send(CallbackMessage::WebSocketEvent(ws_id, incoming));
+
+                if closed {
+                    break;
                 }
             }
         }
-- 
2.43.0


From f9cb34bf9d4421237343b710dd51a427cf02ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 74/82] fix: WebSocket listeners are called as EventTarget's
 are, and what cannot be converted is not sent

---
 src/runtime/bindings/websocket.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index f5f411e..77c090f 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -162,12 +162,11 @@ pub fn setup_websocket(
                 view.copy_contents(&mut buf);
                 WebSocketOutgoing::Binary(buf)
             } else {
-                // Fallback: convert to string
-                let s = data
-                    .to_string(scope)
-                    .map(|s| s.to_rust_string_lossy(scope))
-                    .unwrap_or_default();
-                WebSocketOutgoing::Text(s)
+                // Fallback: convert to string (which may throw)
+                let Some(s) = data.to_string(scope) else {
+                    return;
+                };
+                WebSocketOutgoing::Text(s.to_rust_string_lossy(scope))
             };
 
             let _ = state
@@ -348,7 +347,7 @@ pub fn setup_websocket(
             }
 
             addEventListener(type, listener) {
-                if (this._listeners[type]) {
+                if (this._listeners[type] && !this._listeners[type].includes(listener)) {
                     this._listeners[type].push(listener);
                 }
             }
@@ -367,8 +366,11 @@ pub fn setup_websocket(
 
                 const listeners = this._listeners[type];
                 if (listeners) {
-                    for (let i = 0; i < listeners.length; i++) {
-                        try { listeners[i].call(this, event); } catch(e) { console.error('WebSocket listener error:', e); }
+                    // Only the listeners there now, unless removed before their turn
+                    for (const listener of [...listeners]) {
+                        if (!this._listeners[type].includes(listener)) continue;
+
+                        try { listener.call(this, event); } catch(e) { console.error('WebSocket listener error:', e); }
                     }
                 }
             }
-- 
2.43.0


From e3e2cd40e31420b86f5b0098753a43fd588cfde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 75/82] fix: a KV expiry or list limit of 0 reaches the host

---
 src/worker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index d3bcdd8..c769d37 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1336,14 +1336,14 @@ pub(crate) fn setup_env(
                                 get: (key) => __bindingCall(__nativeBindingKv, __n, 'get', {{ key }}).then(r => r.value),
                                 put: (key, value, options) => {{
                                     const params = {{ key, value }};
-                                    if (options?.expiresIn) params.expiresIn = options.expiresIn;
+                                    if (options?.expiresIn !== undefined) params.expiresIn = options.expiresIn;
                                     return __bindingCall(__nativeBindingKv, __n, 'put', params).then(() => {{}});
                                 }},
                                 delete: (key) => __bindingCall(__nativeBindingKv, __n, 'delete', {{ key }}).then(() => {{}}),
                                 list: (options) => {{
                                     const params = {{}};
                                     if (options?.prefix) params.prefix = options.prefix;
-                                    if (options?.limit) params.limit = options.limit;
+                                    if (options?.limit !== undefined) params.limit = options.limit;
                                     return __bindingCall(__nativeBindingKv, __n, 'list', params).then(r => r.keys);
                                 }}
                             }};
-- 
2.43.0


From 7d87b954cbffd35135b3a8fb2a9847a5d251af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 76/82] fix: logging does not throw, whatever is logged

---
 src/runtime/bindings/console.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/runtime/bindings/console.rs b/src/runtime/bindings/console.rs
index 5ce6798..2a39c71 100644
--- a/src/runtime/bindings/console.rs
+++ b/src/runtime/bindings/console.rs
@@ -57,19 +57,24 @@ pub fn setup_console(scope: &mut v8::PinScope, log_callback: LogCallback) {
         scope,
         r#"
         function __formatArg(a) {
-            if (a instanceof Error) {
-                return a.stack || (a.name + ': ' + a.message);
-            }
+            try {
+                if (a instanceof Error) {
+                    return String(a.stack || (a.name + ': ' + a.message));
+                }
 
-            if (typeof a === 'object' && a !== null) {
-                try {
-                    return JSON.stringify(a);
-                } catch (e) {
-                    return String(a);
+                if (typeof a === 'object' && a !== null) {
+                    try {
+                        return JSON.stringify(a);
+                    } catch (e) {
+                        return String(a);
+                    }
                 }
-            }
 
-            return String(a);
+                return String(a);
+            } catch (e) {
+                // Logging never throws, whatever the argument does
+                return '[' + typeof a + ']';
+            }
         }
 
         globalThis.console = {
-- 
2.43.0


From 0a63d31a6baf24ac1c7b81803c1b1dbdb5144e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 77/82] fix: code stopped by its CPU limit while it waits ends
 the execution

---
 src/execution_context.rs | 9 +++++++++
 src/worker.rs            | 5 +++++
 src/worker_future.rs     | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index b366a00..0fd53f9 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1145,6 +1145,15 @@ impl ExecutionContext {
                     return Poll::Ready(Ok(()));
                 }
 
+                // The code that just ran may have hit a limit, which wakes nobody
+                if self.is_terminated(wall_guard, cpu_guard) {
+                    if let Some(ref waiter) = async_waiter {
+                        waiter.unlock();
+                    }
+
+                    return Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 // No callbacks processed in this round — no more work pending
                 if count == 0 || round == MAX_COALESCE_ROUNDS - 1 {
                     break;
diff --git a/src/worker.rs b/src/worker.rs
index c769d37..3d012da 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -909,6 +909,11 @@ impl Worker {
                     return Poll::Ready(Ok(()));
                 }
 
+                // The code that just ran may have hit a limit, which wakes nobody
+                if self.is_terminated(wall_guard, cpu_guard) {
+                    return Poll::Ready(Err("Execution terminated".to_string()));
+                }
+
                 if count == 0 || round == MAX_COALESCE_ROUNDS - 1 {
                     break;
                 }
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 2359e55..4258b68 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -88,6 +88,11 @@ impl Future for WorkerFuture<'_> {
                 return Poll::Ready(Ok(()));
             }
 
+            // The code that just ran may have hit a limit, which wakes nobody
+            if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+
             if count == 0 || round == MAX_COALESCE_ROUNDS - 1 {
                 break;
             }
-- 
2.43.0


From 573d37efab22c9293cb2056a40a1c7c6efd8a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 78/82] fix: WebSocket.close refuses a code that is no number

---
 src/runtime/bindings/websocket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 77c090f..79cd665 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -329,7 +329,7 @@ pub fn setup_websocket(
             }
 
             close(code, reason) {
-                if (code !== undefined && code !== 1000 && (code < 3000 || code > 4999)) {
+                if (code !== undefined && code !== 1000 && !(code >= 3000 && code <= 4999)) {
                     throw WebSocket.__err('InvalidAccessError', "Failed to execute 'close' on 'WebSocket': The code must be 1000 or in the range 3000-4999.");
                 }
                 if (reason !== undefined && new TextEncoder().encode(String(reason)).length > 123) {
-- 
2.43.0


From 3b6ec87878e498617ad542dbf1b68df348b88711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:21 +0000
Subject: [PATCH 79/82] fix: the heap limit ends an execution, not the process

Code that reached the heap limit in a timer or a promise was terminated, but nobody
noticed: the execution went on waiting until its wall-clock limit. An allocation
larger than the 2 MB of headroom (a Map or an array that grows) ended the process.
The raised limit stayed raised for whatever ran next in a pooled isolate, and a
response whose reading was cut short was sent to the client as complete.
---
 src/execution_context.rs      | 107 ++++++++++++++++++++--------
 src/locker_managed_isolate.rs |  13 +++-
 src/pool.rs                   |   3 +
 src/runtime/mod.rs            |   5 +-
 src/security/heap_limit.rs    |  89 +++++++++++++++++++++---
 src/security/mod.rs           |   2 +-
 src/worker.rs                 | 127 ++++++++++++++++++++++------------
 7 files changed, 257 insertions(+), 89 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0fd53f9..839e2dc 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -24,7 +24,7 @@ use crate::execution_helpers::{
 use crate::request_context::RequestContext;
 use crate::runtime::stream_manager;
 use crate::runtime::{bindings, crypto, streams, text_encoding};
-use crate::security::{CpuEnforcer, TimeoutGuard, enforced};
+use crate::security::{CpuEnforcer, TimeoutGuard, enforced, until_heap_limit};
 use openworkers_core::{
     Event, HttpResponse, OperationsHandle, RequestBody, ResponseBody, RuntimeLimits, Script,
     TerminationReason, WorkerCode,
@@ -200,19 +200,28 @@ impl ExecutionContext {
         // The script is loaded within the limits of an execution
         let isolate_handle = isolate.thread_safe_handle();
 
-        crate::worker::within_limits(isolate_handle, &limits, &memory_limit_hit, || {
-            // Setup addEventListener (placeholder - actual setup done during context creation)
-            Self::setup_event_listener(isolate, &context)?;
+        // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
+        let heap_terminated = unsafe { Arc::clone(&(*lmi_ptr).heap_limit_state.terminated) };
+
+        crate::worker::within_limits(
+            isolate_handle,
+            &limits,
+            &memory_limit_hit,
+            &heap_terminated,
+            || {
+                // Setup addEventListener (placeholder - actual setup done during context creation)
+                Self::setup_event_listener(isolate, &context)?;
 
-            // Setup environment variables and bindings (placeholder)
-            Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
+                // Setup environment variables and bindings (placeholder)
+                Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
 
-            // Evaluate user script (placeholder)
-            Self::evaluate_script(isolate, &context, &script.code)?;
+                // Evaluate user script (placeholder)
+                Self::evaluate_script(isolate, &context, &script.code)?;
 
-            // Setup ES Modules handler (placeholder)
-            Self::setup_es_modules_handler(isolate, &context)
-        })?;
+                // Setup ES Modules handler (placeholder)
+                Self::setup_es_modules_handler(isolate, &context)
+            },
+        )?;
 
         // Start event loop in background (with optional Operations handle)
         // Use tokio::spawn (not spawn_local) so the event loop survives LocalSet drops.
@@ -886,7 +895,7 @@ impl ExecutionContext {
             TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
 
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
-        let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
+        let cpu_guard = CpuEnforcer::new(isolate_handle.clone(), self.limits.max_cpu_time_ms);
 
         let memory_limit_hit = Arc::clone(&self.memory_limit_hit);
 
@@ -901,7 +910,11 @@ impl ExecutionContext {
                     &cpu_guard,
                     watch_flag(
                         &memory_limit_hit,
-                        self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
+                        until_heap_limit(
+                            self.heap_terminated(),
+                            isolate_handle,
+                            self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
+                        ),
                     ),
                 )
                 .await
@@ -915,7 +928,11 @@ impl ExecutionContext {
                     &cpu_guard,
                     watch_flag(
                         &memory_limit_hit,
-                        self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
+                        until_heap_limit(
+                            self.heap_terminated(),
+                            isolate_handle,
+                            self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
+                        ),
                     ),
                 )
                 .await;
@@ -962,7 +979,7 @@ impl ExecutionContext {
         // Fresh guards for background work — same limits as exec()
         let wall_guard =
             TimeoutGuard::new(isolate_handle.clone(), self.limits.max_wall_clock_time_ms);
-        let cpu_guard = CpuEnforcer::new(isolate_handle, self.limits.max_cpu_time_ms);
+        let cpu_guard = CpuEnforcer::new(isolate_handle.clone(), self.limits.max_cpu_time_ms);
 
         let memory_limit_hit = Arc::clone(&self.memory_limit_hit);
 
@@ -971,7 +988,16 @@ impl ExecutionContext {
             &cpu_guard,
             watch_flag(
                 &memory_limit_hit,
-                self.await_event_loop(&wall_guard, &cpu_guard, EventLoopExit::FullyComplete, None),
+                until_heap_limit(
+                    self.heap_terminated(),
+                    isolate_handle,
+                    self.await_event_loop(
+                        &wall_guard,
+                        &cpu_guard,
+                        EventLoopExit::FullyComplete,
+                        None,
+                    ),
+                ),
             ),
         )
         .await;
@@ -991,6 +1017,12 @@ impl ExecutionContext {
         )
     }
 
+    /// Raised when the heap limit terminates what the isolate runs
+    fn heap_terminated(&self) -> Arc<AtomicBool> {
+        // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
+        unsafe { Arc::clone(&(*self.lmi_ptr).heap_limit_state.terminated) }
+    }
+
     /// Check termination reason based on execution result and guard states
     fn check_termination_reason(
         &self,
@@ -1042,6 +1074,7 @@ impl ExecutionContext {
     ) -> bool {
         unsafe {
             (*self.isolate).is_execution_terminating()
+                || self.heap_terminated().load(Ordering::SeqCst)
                 || wall_guard.was_triggered()
                 || cpu_guard
                     .as_ref()
@@ -1137,21 +1170,21 @@ impl ExecutionContext {
                     &mut abort_signaled_at,
                 );
 
-                if should_exit {
+                // The code that just ran may have hit a limit, which wakes nobody
+                if self.is_terminated(wall_guard, cpu_guard) {
                     if let Some(ref waiter) = async_waiter {
                         waiter.unlock();
                     }
 
-                    return Poll::Ready(Ok(()));
+                    return Poll::Ready(Err("Execution terminated".to_string()));
                 }
 
-                // The code that just ran may have hit a limit, which wakes nobody
-                if self.is_terminated(wall_guard, cpu_guard) {
+                if should_exit {
                     if let Some(ref waiter) = async_waiter {
                         waiter.unlock();
                     }
 
-                    return Poll::Ready(Err("Execution terminated".to_string()));
+                    return Poll::Ready(Ok(()));
                 }
 
                 // No callbacks processed in this round — no more work pending
@@ -1294,6 +1327,11 @@ impl ExecutionContext {
             .await?
         };
 
+        // A response whose reading was cut short is none
+        if self.is_terminated(wall_guard, cpu_guard) {
+            return Err("Execution terminated".to_string());
+        }
+
         let _ = fetch_init.res_tx.send(response);
 
         // -- Phase 4: Wait for streams (lock-per-poll) --
@@ -1512,6 +1550,11 @@ impl ExecutionContext {
             .await
         };
 
+        // Nor is a result whose reading was cut short
+        if self.is_terminated(wall_guard, cpu_guard) {
+            return Err("Execution terminated".to_string());
+        }
+
         let _ = task_init.res_tx.send(task_result);
         Ok(())
     }
@@ -1542,9 +1585,16 @@ impl ExecutionContext {
         let limits = self.limits.clone();
         let memory_limit_hit = Arc::clone(&self.memory_limit_hit);
 
-        crate::worker::within_limits(isolate_handle, &limits, &memory_limit_hit, || {
-            self.evaluate(&WorkerCode::JavaScript(
-                r#"
+        let heap_terminated = self.heap_terminated();
+
+        crate::worker::within_limits(
+            isolate_handle,
+            &limits,
+            &memory_limit_hit,
+            &heap_terminated,
+            || {
+                self.evaluate(&WorkerCode::JavaScript(
+                    r#"
                 globalThis.__lastResponse = undefined;
                 globalThis.__requestComplete = false;
                 globalThis.__lastResponseStreamId = undefined;
@@ -1553,10 +1603,11 @@ impl ExecutionContext {
                 globalThis.__timerCallbacks.clear();
                 globalThis.__intervalIds.clear();
                 "#
-                .to_string(),
-            ))
-            .map_err(TerminationReason::Exception)
-        })
+                    .to_string(),
+                ))
+                .map_err(TerminationReason::Exception)
+            },
+        )
         .map_err(|reason| format!("{:?}", reason))?;
 
         // 2. Reset Rust-side abort flag
diff --git a/src/locker_managed_isolate.rs b/src/locker_managed_isolate.rs
index f413be5..787d23e 100644
--- a/src/locker_managed_isolate.rs
+++ b/src/locker_managed_isolate.rs
@@ -40,8 +40,7 @@ pub struct LockerManagedIsolate {
     /// Per-isolate (not global) to prevent cross-isolate contamination.
     pub pending_memory_delta: Arc<AtomicI64>,
     /// Heap limit state - must be kept alive for the isolate's lifetime
-    #[allow(dead_code)]
-    _heap_limit_state: Box<HeapLimitState>,
+    pub(crate) heap_limit_state: Box<HeapLimitState>,
 }
 
 impl LockerManagedIsolate {
@@ -115,7 +114,7 @@ impl LockerManagedIsolate {
             use_snapshot,
             deferred_destruction_queue: Arc::new(DeferredDestructionQueue::new()),
             pending_memory_delta: Arc::new(AtomicI64::new(0)),
-            _heap_limit_state: heap_limit_state,
+            heap_limit_state,
         }
     }
 
@@ -135,6 +134,14 @@ impl LockerManagedIsolate {
         (locker, js)
     }
 
+    /// Lower the heap limit again if a previous request hit it.
+    pub fn restore_heap_limit(&mut self) {
+        if self.heap_limit_state.is_raised() {
+            let mut locker = v8::Locker::new(&mut self.isolate);
+            self.heap_limit_state.restore(&mut locker);
+        }
+    }
+
     /// Check if memory limit was hit
     pub fn memory_limit_hit(&self) -> bool {
         self.memory_limit_hit
diff --git a/src/pool.rs b/src/pool.rs
index daf3a84..cce1e7d 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -720,6 +720,9 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // Reset memory limit flag
     memory_limit_hit.store(false, Ordering::SeqCst);
 
+    // A previous request may have made V8 raise the heap limit
+    unsafe { (*lmi_ptr).restore_heap_limit() };
+
     // ── Warm hit path ──────────────────────────────────────────────────
     if warm_hit {
         let CachedContext {
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e8502f8..2632c8f 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -154,8 +154,7 @@ pub struct Runtime {
     pub(crate) callback_notify: Arc<Notify>,
     /// Heap limit state - must be kept alive for the isolate's lifetime
     /// Dropped after isolate, so the callback pointer remains valid
-    #[allow(dead_code)]
-    _heap_limit_state: Box<HeapLimitState>,
+    pub(crate) heap_limit_state: Box<HeapLimitState>,
 }
 
 impl Runtime {
@@ -345,7 +344,7 @@ impl Runtime {
             memory_limit_hit,
             limits,
             callback_notify: callback_notify.clone(),
-            _heap_limit_state: heap_limit_state,
+            heap_limit_state,
         };
 
         (runtime, scheduler_rx, callback_tx, callback_notify)
diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index acaad8c..11eadf3 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -7,10 +7,11 @@
 //! ## How it works
 //!
 //! When V8's heap approaches the configured limit, it calls our callback.
-//! The callback calls `terminate_execution()` and returns a slightly increased
-//! limit (+2 MB headroom). The headroom is critical: V8 only checks the
-//! termination flag when returning to JS execution, not during GC. Without it,
-//! V8 sees "no room given" and calls `FatalProcessOutOfMemory` (process crash).
+//! The callback calls `terminate_execution()` and returns an increased limit.
+//! The headroom is critical: V8 only checks the termination flag when returning
+//! to JS execution, not during GC. Without room for the pending allocation, V8
+//! calls `FatalProcessOutOfMemory` (process crash). The limit is lowered again
+//! before the isolate runs its next event.
 //!
 //! This prevents a single misbehaving worker from crashing the entire runner.
 //!
@@ -21,7 +22,8 @@
 
 use std::ffi::{c_char, c_void};
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
+use std::task::Poll;
 
 use v8::IsolateHandle;
 
@@ -38,6 +40,10 @@ pub struct HeapLimitState {
     pub invocation_count: AtomicU32,
     /// Maximum heap size in bytes (absolute limit)
     pub max_heap_bytes: usize,
+    /// Set when the callback terminates what runs, until someone takes notice
+    pub terminated: Arc<AtomicBool>,
+    /// V8's own limit before the callback raised it (0: not raised)
+    raised_from: AtomicUsize,
 }
 
 impl HeapLimitState {
@@ -52,8 +58,62 @@ impl HeapLimitState {
             memory_limit_hit,
             invocation_count: AtomicU32::new(0),
             max_heap_bytes,
+            terminated: Arc::new(AtomicBool::new(false)),
+            raised_from: AtomicUsize::new(0),
         }
     }
+
+    /// Whether the callback raised the heap limit, see `restore()`.
+    pub fn is_raised(&self) -> bool {
+        self.raised_from.load(Ordering::SeqCst) != 0
+    }
+
+    /// Lower the heap limit again if the callback raised it, and call off its termination.
+    ///
+    /// `isolate` must be the one this state was installed on, locked and not running JS.
+    pub fn restore(&self, isolate: &mut v8::Isolate) {
+        let limit = self.raised_from.swap(0, Ordering::SeqCst);
+
+        if limit == 0 {
+            return;
+        }
+
+        self.terminated.store(false, Ordering::SeqCst);
+        isolate.cancel_terminate_execution();
+
+        // The limit cannot go below what is still on the heap
+        isolate.low_memory_notification();
+
+        let state_ptr = self as *const HeapLimitState as *mut c_void;
+        isolate.remove_near_heap_limit_callback(near_heap_limit_callback, limit);
+        isolate.add_near_heap_limit_callback(near_heap_limit_callback, state_ptr);
+    }
+}
+
+/// Poll a future until it is done, or until the heap limit terminated the code it ran:
+/// nothing else may be left to wake it.
+pub async fn until_heap_limit<T>(
+    terminated: Arc<AtomicBool>,
+    isolate_handle: IsolateHandle,
+    future: impl Future<Output = Result<T, String>>,
+) -> Result<T, String> {
+    let mut future = std::pin::pin!(future);
+
+    std::future::poll_fn(|cx| {
+        let result = future.as_mut().poll(cx);
+
+        if terminated.swap(false, Ordering::SeqCst) {
+            // Another execution of this isolate is not to be terminated in its place
+            isolate_handle.cancel_terminate_execution();
+
+            if result.is_pending() {
+                return Poll::Ready(Err("Execution terminated".to_string()));
+            }
+        }
+
+        result
+    })
+    .await
 }
 
 /// Headroom given to V8 after calling `terminate_execution()`.
@@ -61,15 +121,16 @@ impl HeapLimitState {
 /// V8 only checks the termination flag when returning to JS execution.
 /// If we return the same `current_heap_limit`, V8 considers the allocation
 /// failed and goes straight to `FatalProcessOutOfMemory` (process crash).
-/// By returning a slightly higher limit, V8 can complete the pending
-/// allocation, return to JS, and see the termination flag.
-const TERMINATION_HEADROOM: usize = 2 * 1024 * 1024; // 2 MB
+/// By returning a higher limit, V8 can complete the pending allocation, return
+/// to JS, and see the termination flag. The pending allocation may be the largest
+/// one V8 makes (a growing Map or array: 1 GB).
+const TERMINATION_HEADROOM: usize = (1024 + 64) * 1024 * 1024;
 
 /// Near-heap-limit callback for V8.
 ///
 /// This callback is invoked when V8's heap is approaching its limit.
-/// On first call, terminates execution and gives V8 a small headroom
-/// so it can unwind back to JS where `terminate_execution()` takes effect.
+/// Terminates execution and gives V8 headroom so it can unwind back to JS where
+/// `terminate_execution()` takes effect.
 ///
 /// # Safety
 ///
@@ -78,7 +139,7 @@ const TERMINATION_HEADROOM: usize = 2 * 1024 * 1024; // 2 MB
 pub unsafe extern "C" fn near_heap_limit_callback(
     data: *mut c_void,
     current_heap_limit: usize,
-    _initial_heap_limit: usize,
+    initial_heap_limit: usize,
 ) -> usize {
     // SAFETY: data is a valid pointer to HeapLimitState, passed from install_heap_limit_callback
     let state = unsafe { &*(data as *const HeapLimitState) };
@@ -95,6 +156,12 @@ pub unsafe extern "C" fn near_heap_limit_callback(
     // Set the memory limit flag so the runner knows why execution stopped
     state.memory_limit_hit.store(true, Ordering::SeqCst);
 
+    state
+        .raised_from
+        .store(initial_heap_limit, Ordering::SeqCst);
+
+    state.terminated.store(true, Ordering::SeqCst);
+
     // Terminate execution gracefully instead of letting V8 crash
     state.isolate_handle.terminate_execution();
 
diff --git a/src/security/mod.rs b/src/security/mod.rs
index f4fb47d..5c141cb 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -38,7 +38,7 @@ mod timeout_guard;
 pub use array_buffer_allocator::CustomAllocator;
 pub use cpu_enforcer::CpuEnforcer;
 pub use cpu_timer::{CpuTimer, get_thread_cpu_time};
-pub use heap_limit::{HeapLimitState, install_heap_limit_callback};
+pub use heap_limit::{HeapLimitState, install_heap_limit_callback, until_heap_limit};
 pub use timeout_guard::TimeoutGuard;
 
 /// Poll a future with its limits in force while it is polled only: what the thread
diff --git a/src/worker.rs b/src/worker.rs
index 3d012da..2124c88 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -5,7 +5,7 @@ use crate::execution_helpers::{
     poll_grace_period, read_response_object, signal_client_disconnect, trigger_fetch_handler,
 };
 use crate::runtime::{Runtime, run_event_loop};
-use crate::security::{CpuEnforcer, TimeoutGuard, enforced};
+use crate::security::{CpuEnforcer, TimeoutGuard, enforced, until_heap_limit};
 use openworkers_core::{
     Event, HttpResponse, OperationsHandle, RequestBody, ResponseBody, RuntimeLimits, Script,
     TerminationReason, WorkerCode,
@@ -460,6 +460,7 @@ pub(crate) fn within_limits<T>(
     isolate_handle: v8::IsolateHandle,
     limits: &RuntimeLimits,
     memory_limit_hit: &AtomicBool,
+    heap_terminated: &AtomicBool,
     run: impl FnOnce() -> Result<T, TerminationReason>,
 ) -> Result<T, TerminationReason> {
     let wall_guard = TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
@@ -486,7 +487,10 @@ pub(crate) fn within_limits<T>(
         return Err(TerminationReason::WallClockTimeout);
     }
 
-    if result.is_err() && memory_limit_hit.swap(false, Ordering::SeqCst) {
+    let heap_terminated = heap_terminated.swap(false, Ordering::SeqCst);
+
+    if heap_terminated || (result.is_err() && memory_limit_hit.load(Ordering::SeqCst)) {
+        memory_limit_hit.store(false, Ordering::SeqCst);
         return Err(TerminationReason::MemoryLimit);
     }
 
@@ -578,40 +582,48 @@ impl Worker {
         let load_limits = runtime.limits.clone();
         let memory_limit_hit = Arc::clone(&runtime.memory_limit_hit);
 
-        within_limits(isolate_handle, &load_limits, &memory_limit_hit, || {
-            // Setup addEventListener
-            setup_event_listener(&mut runtime.isolate, &runtime.context).map_err(|e| {
-                TerminationReason::InitializationError(format!(
-                    "Failed to setup addEventListener: {}",
-                    e
-                ))
-            })?;
-
-            // Setup environment variables and bindings
-            setup_env(
-                &mut runtime.isolate,
-                &runtime.context,
-                &script.env,
-                &script.bindings,
-            )
-            .map_err(|e| {
-                TerminationReason::InitializationError(format!("Failed to setup env: {}", e))
-            })?;
-
-            // Evaluate user script
-            runtime.evaluate(&script.code).map_err(|e| {
-                TerminationReason::Exception(format!("Script evaluation failed: {}", e))
-            })?;
-
-            // Setup ES Modules handler if `export default { fetch }` is used
-            // This takes priority over addEventListener('fetch', ...)
-            setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
-                TerminationReason::InitializationError(format!(
-                    "Failed to setup ES modules handler: {}",
-                    e
-                ))
-            })
-        })?;
+        let heap_terminated = Arc::clone(&runtime.heap_limit_state.terminated);
+
+        within_limits(
+            isolate_handle,
+            &load_limits,
+            &memory_limit_hit,
+            &heap_terminated,
+            || {
+                // Setup addEventListener
+                setup_event_listener(&mut runtime.isolate, &runtime.context).map_err(|e| {
+                    TerminationReason::InitializationError(format!(
+                        "Failed to setup addEventListener: {}",
+                        e
+                    ))
+                })?;
+
+                // Setup environment variables and bindings
+                setup_env(
+                    &mut runtime.isolate,
+                    &runtime.context,
+                    &script.env,
+                    &script.bindings,
+                )
+                .map_err(|e| {
+                    TerminationReason::InitializationError(format!("Failed to setup env: {}", e))
+                })?;
+
+                // Evaluate user script
+                runtime.evaluate(&script.code).map_err(|e| {
+                    TerminationReason::Exception(format!("Script evaluation failed: {}", e))
+                })?;
+
+                // Setup ES Modules handler if `export default { fetch }` is used
+                // This takes priority over addEventListener('fetch', ...)
+                setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
+                    TerminationReason::InitializationError(format!(
+                        "Failed to setup ES modules handler: {}",
+                        e
+                    ))
+                })
+            },
+        )?;
 
         // Get stream_manager for event loop
         let stream_manager = runtime.stream_manager.clone();
@@ -675,7 +687,13 @@ impl Worker {
         let wall_guard = TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
 
         // 2. CPU time limit (Linux only) - prevents CPU-bound infinite loops
-        let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
+        let cpu_guard = CpuEnforcer::new(isolate_handle.clone(), limits.max_cpu_time_ms);
+
+        // 3. Heap limit (shared by all events of the isolate)
+        self.runtime
+            .heap_limit_state
+            .restore(&mut self.runtime.isolate);
+        let heap_terminated = Arc::clone(&self.runtime.heap_limit_state.terminated);
 
         // What a previous event left behind must not be taken for the outcome of this one
         self.reset_request_state();
@@ -689,7 +707,11 @@ impl Worker {
                 enforced(
                     &wall_guard,
                     &cpu_guard,
-                    self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
+                    until_heap_limit(
+                        heap_terminated,
+                        isolate_handle,
+                        self.trigger_fetch_event(fetch_init, &wall_guard, &cpu_guard),
+                    ),
                 )
                 .await
             }
@@ -700,7 +722,11 @@ impl Worker {
                 enforced(
                     &wall_guard,
                     &cpu_guard,
-                    self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
+                    until_heap_limit(
+                        heap_terminated,
+                        isolate_handle,
+                        self.trigger_task_event(task_init, &wall_guard, &cpu_guard),
+                    ),
                 )
                 .await
                 .map(|_| HttpResponse {
@@ -806,6 +832,11 @@ impl Worker {
     #[inline]
     fn is_terminated(&self, wall_guard: &TimeoutGuard, cpu_guard: &Option<CpuEnforcer>) -> bool {
         self.runtime.isolate.is_execution_terminating()
+            || self
+                .runtime
+                .heap_limit_state
+                .terminated
+                .load(Ordering::SeqCst)
             || wall_guard.was_triggered()
             || cpu_guard
                 .as_ref()
@@ -905,15 +936,15 @@ impl Worker {
                     }
                 }; // V8 scopes dropped here
 
-                if should_exit {
-                    return Poll::Ready(Ok(()));
-                }
-
                 // The code that just ran may have hit a limit, which wakes nobody
                 if self.is_terminated(wall_guard, cpu_guard) {
                     return Poll::Ready(Err("Execution terminated".to_string()));
                 }
 
+                if should_exit {
+                    return Poll::Ready(Ok(()));
+                }
+
                 if count == 0 || round == MAX_COALESCE_ROUNDS - 1 {
                     break;
                 }
@@ -991,6 +1022,11 @@ impl Worker {
             )?
         };
 
+        // A response whose reading was cut short is none
+        if self.is_terminated(wall_guard, cpu_guard) {
+            return Err("Execution terminated".to_string());
+        }
+
         let _ = fetch_init.res_tx.send(response);
 
         // Wait for waitUntil promises AND active response streams to complete.
@@ -1162,6 +1198,11 @@ impl Worker {
             }
         };
 
+        // Nor is a result whose reading was cut short
+        if self.is_terminated(wall_guard, cpu_guard) {
+            return Err("Execution terminated".to_string());
+        }
+
         let _ = task_init.res_tx.send(task_result);
         Ok(())
     }
-- 
2.43.0


From 1a4ae2bbf81f2dd6ed93fa5ff34affc17e3e11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:39 +0000
Subject: [PATCH 80/82] fix: an execution that exceeded its limit runs nothing
 more

Terminating the code that runs does not stop the microtasks it queued, other timers
that are due, or getters the host reads next: each of them could loop for ever, with
no limit left to stop it.
---
 src/event_loop.rs             |  8 +++++-
 src/execution_context.rs      | 10 ++++++--
 src/security/cpu_enforcer.rs  | 38 +++++++++++++++++++++++++----
 src/security/heap_limit.rs    |  7 +++++-
 src/security/mod.rs           |  1 +
 src/security/termination.rs   | 46 +++++++++++++++++++++++++++++++++++
 src/security/timeout_guard.rs | 26 ++++++++++++++++++--
 src/worker.rs                 | 29 +++++++++++++---------
 src/worker_future.rs          |  4 ++-
 9 files changed, 145 insertions(+), 24 deletions(-)
 create mode 100644 src/security/termination.rs

diff --git a/src/event_loop.rs b/src/event_loop.rs
index 991ccfa..88875ac 100644
--- a/src/event_loop.rs
+++ b/src/event_loop.rs
@@ -42,14 +42,16 @@ pub trait EventLoopRuntime {
 /// * `cx` - The async task context (provides waker)
 /// * `runtime` - The runtime implementing EventLoopRuntime
 /// * `pending_callbacks` - Buffer for batching callbacks (reused across polls)
+/// * `is_terminated` - Whether the execution exceeded a limit: nothing more of it is run
 ///
 /// # Returns
 /// * `Ok(count)` - Number of callbacks processed, continue event loop
-/// * `Err(msg)` - Channel closed, event loop should exit
+/// * `Err(msg)` - Channel closed or execution terminated, event loop should exit
 pub fn drain_and_process<R: EventLoopRuntime>(
     cx: &mut Context<'_>,
     runtime: &mut R,
     pending_callbacks: &mut Vec<CallbackMessage>,
+    is_terminated: impl Fn(&R) -> bool,
 ) -> Result<usize, String> {
     // 1. Poll callback channel - TRUE ASYNC with waker
     //    This drains all available messages without blocking
@@ -70,6 +72,10 @@ pub fn drain_and_process<R: EventLoopRuntime>(
 
     for msg in pending_callbacks.drain(..) {
         runtime.process_callback(msg);
+
+        if is_terminated(runtime) {
+            return Err("Execution terminated".to_string());
+        }
     }
 
     // 3. V8 platform messages + microtask checkpoint
diff --git a/src/execution_context.rs b/src/execution_context.rs
index 839e2dc..d7e7286 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -216,7 +216,11 @@ impl ExecutionContext {
                 Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
 
                 // Evaluate user script (placeholder)
-                Self::evaluate_script(isolate, &context, &script.code)?;
+                let evaluated = Self::evaluate_script(isolate, &context, &script.code);
+
+                // What it left behind is not to run in place of the isolate's next request
+                isolate.perform_microtask_checkpoint();
+                evaluated?;
 
                 // Setup ES Modules handler (placeholder)
                 Self::setup_es_modules_handler(isolate, &context)
@@ -1152,7 +1156,9 @@ impl ExecutionContext {
             const MAX_COALESCE_ROUNDS: usize = 4;
 
             for round in 0..MAX_COALESCE_ROUNDS {
-                let count = match drain_and_process(cx, self, &mut pending_callbacks) {
+                let count = match drain_and_process(cx, self, &mut pending_callbacks, |ctx| {
+                    ctx.is_terminated(wall_guard, cpu_guard)
+                }) {
                     Ok(c) => c,
                     Err(e) => {
                         if let Some(ref waiter) = async_waiter {
diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index d1e9cec..b26cf59 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -41,11 +41,32 @@
 
 #[cfg(target_os = "linux")]
 mod linux {
+    use crate::security::termination::terminate;
     use std::cell::Cell;
     use std::collections::HashMap;
     use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
     use std::sync::{Arc, Mutex, Once};
 
+    /// How often to terminate an execution that goes on after its limit (CPU time)
+    const TERMINATE_AGAIN: libc::timespec = libc::timespec {
+        tv_sec: 0,
+        tv_nsec: 10_000_000,
+    };
+
+    /// Terminate the execution while it is the one that runs
+    fn terminate_while(
+        isolate_handle: &v8::IsolateHandle,
+        terminated: &Arc<AtomicBool>,
+        running: &Arc<Mutex<bool>>,
+    ) {
+        let terminated = Arc::clone(terminated);
+        let running = Arc::clone(running);
+
+        terminate(isolate_handle, move || {
+            *running.lock().unwrap() && terminated.load(Ordering::SeqCst)
+        });
+    }
+
     /// CPU time enforcer using POSIX timers.
     pub struct CpuEnforcer {
         timer_id: libc::timer_t,
@@ -111,6 +132,7 @@ mod linux {
             let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
             timer_spec.it_value.tv_sec = timeout_secs as i64;
             timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
+            timer_spec.it_interval = TERMINATE_AGAIN;
 
             let ret =
                 unsafe { libc::timer_settime(timer_id, 0, &timer_spec, std::ptr::null_mut()) };
@@ -164,12 +186,13 @@ mod linux {
             *running = true;
 
             if self.was_terminated() {
-                self.isolate_handle.terminate_execution();
+                terminate_while(&self.isolate_handle, &self.terminated, &self.running);
             }
 
             if let Some(left) = self.left.take() {
                 let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
                 timer_spec.it_value = left;
+                timer_spec.it_interval = TERMINATE_AGAIN;
 
                 unsafe { libc::timer_settime(self.timer_id, 0, &timer_spec, std::ptr::null_mut()) };
             }
@@ -196,7 +219,7 @@ mod linux {
             let mut timer_spec: libc::itimerspec = unsafe { std::mem::zeroed() };
             timer_spec.it_value.tv_sec = timeout_secs as i64;
             timer_spec.it_value.tv_nsec = timeout_nsecs as i64;
-            // it_interval stays 0 = one-shot timer
+            timer_spec.it_interval = TERMINATE_AGAIN;
 
             let ret =
                 unsafe { libc::timer_settime(self.timer_id, 0, &timer_spec, std::ptr::null_mut()) };
@@ -303,10 +326,15 @@ mod linux {
                             "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
                             enforcer_id
                         );
+                    }
 
-                        if *running {
-                            enforcer_data.isolate_handle.terminate_execution();
-                        }
+                    // Whatever runs instead of the terminated code is terminated as well
+                    if *running {
+                        terminate_while(
+                            &enforcer_data.isolate_handle,
+                            &enforcer_data.terminated,
+                            &enforcer_data.running,
+                        );
                     }
                 } else {
                     // Timer fired but enforcer was already dropped (normal race condition)
diff --git a/src/security/heap_limit.rs b/src/security/heap_limit.rs
index 11eadf3..2c67b02 100644
--- a/src/security/heap_limit.rs
+++ b/src/security/heap_limit.rs
@@ -27,6 +27,8 @@ use std::task::Poll;
 
 use v8::IsolateHandle;
 
+use super::termination::terminate;
+
 /// State passed to the near-heap-limit callback.
 ///
 /// This struct is heap-allocated and passed to V8 as a raw pointer.
@@ -163,7 +165,10 @@ pub unsafe extern "C" fn near_heap_limit_callback(
     state.terminated.store(true, Ordering::SeqCst);
 
     // Terminate execution gracefully instead of letting V8 crash
-    state.isolate_handle.terminate_execution();
+    let terminated = Arc::clone(&state.terminated);
+    terminate(&state.isolate_handle, move || {
+        terminated.load(Ordering::SeqCst)
+    });
 
     tracing::error!(
         "Heap limit exhausted after {} callbacks, terminating execution",
diff --git a/src/security/mod.rs b/src/security/mod.rs
index 5c141cb..8b74c88 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -32,6 +32,7 @@ mod array_buffer_allocator;
 mod cpu_enforcer;
 mod cpu_timer;
 mod heap_limit;
+mod termination;
 mod timeout_guard;
 
 #[cfg(not(feature = "sandbox"))]
diff --git a/src/security/termination.rs b/src/security/termination.rs
new file mode 100644
index 0000000..523985d
--- /dev/null
+++ b/src/security/termination.rs
@@ -0,0 +1,46 @@
+//! Termination of JavaScript that exceeded a limit.
+//!
+//! `terminate_execution()` ends the call that runs, and only that: once it returned,
+//! V8 runs the microtasks the call left behind, and whatever is called next.
+
+use std::ffi::c_void;
+use v8::{IsolateHandle, UnsafeRawIsolatePtr};
+
+/// What is left to terminate, as long as the predicate holds
+struct Again {
+    isolate_handle: IsolateHandle,
+    exceeded: Box<dyn Fn() -> bool + Send>,
+}
+
+/// Terminate what the isolate runs, and the microtasks it leaves behind.
+///
+/// `exceeded` tells whether it is still this execution that the isolate runs.
+pub(crate) fn terminate(
+    isolate_handle: &IsolateHandle,
+    exceeded: impl Fn() -> bool + Send + 'static,
+) {
+    let again = Box::into_raw(Box::new(Again {
+        isolate_handle: isolate_handle.clone(),
+        exceeded: Box::new(exceeded),
+    }));
+
+    // A termination leaves other interrupts pending: this one is for what runs next
+    if !isolate_handle.request_interrupt(terminate_again, again as *mut c_void) {
+        // SAFETY: the isolate is gone, nobody else has the pointer
+        drop(unsafe { Box::from_raw(again) });
+    }
+
+    isolate_handle.terminate_execution();
+}
+
+/// # Safety
+///
+/// Called by V8, once for each `request_interrupt()` above, with its data.
+unsafe extern "C" fn terminate_again(_isolate: UnsafeRawIsolatePtr, data: *mut c_void) {
+    // SAFETY: comes from `Box::into_raw()` above
+    let again = unsafe { Box::from_raw(data as *mut Again) };
+
+    if (again.exceeded)() {
+        again.isolate_handle.terminate_execution();
+    }
+}
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 9cc6fd9..a2e6506 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -30,6 +30,8 @@ use std::task::Waker;
 use std::thread;
 use std::time::Duration;
 
+use super::termination::terminate;
+
 /// RAII guard that spawns a watchdog thread to terminate V8 execution on timeout.
 ///
 /// The watchdog thread monitors execution time and calls `isolate.terminate_execution()`
@@ -67,6 +69,15 @@ struct Watchdog {
     running: Arc<Mutex<bool>>,
 }
 
+/// How often to terminate an execution that goes on after its timeout
+const TERMINATE_AGAIN: Duration = Duration::from_millis(10);
+
+/// Terminate the execution while it is the one that runs
+fn terminate_while(isolate_handle: &v8::IsolateHandle, running: &Arc<Mutex<bool>>) {
+    let running = Arc::clone(running);
+    terminate(isolate_handle, move || *running.lock().unwrap());
+}
+
 impl TimeoutGuard {
     /// Create a new timeout guard with the given V8 isolate handle and timeout.
     ///
@@ -122,7 +133,7 @@ impl TimeoutGuard {
                             triggered_clone.store(true, Ordering::SeqCst);
 
                             if *running {
-                                watchdog_handle.terminate_execution();
+                                terminate_while(&watchdog_handle, &running_clone);
                             }
                         }
 
@@ -133,6 +144,17 @@ impl TimeoutGuard {
                         if let Some(waker) = waker {
                             waker.wake();
                         }
+
+                        // What runs instead of the terminated code is terminated as well
+                        while let Err(mpsc::RecvTimeoutError::Timeout) =
+                            cancel_rx.recv_timeout(TERMINATE_AGAIN)
+                        {
+                            let running = running_clone.lock().unwrap();
+
+                            if *running {
+                                watchdog_handle.terminate_execution();
+                            }
+                        }
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
                     Err(mpsc::RecvTimeoutError::Disconnected) => {
@@ -182,7 +204,7 @@ impl TimeoutGuard {
             *running = true;
 
             if self.was_triggered() {
-                watchdog.isolate_handle.terminate_execution();
+                terminate_while(&watchdog.isolate_handle, &watchdog.running);
             }
         }
     }
diff --git a/src/worker.rs b/src/worker.rs
index 2124c88..93a5bf1 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -830,13 +830,13 @@ impl Worker {
     /// - Wall-clock timeout was triggered
     /// - CPU time limit was exceeded (Linux only)
     #[inline]
-    fn is_terminated(&self, wall_guard: &TimeoutGuard, cpu_guard: &Option<CpuEnforcer>) -> bool {
-        self.runtime.isolate.is_execution_terminating()
-            || self
-                .runtime
-                .heap_limit_state
-                .terminated
-                .load(Ordering::SeqCst)
+    fn is_terminated(
+        runtime: &Runtime,
+        wall_guard: &TimeoutGuard,
+        cpu_guard: &Option<CpuEnforcer>,
+    ) -> bool {
+        runtime.isolate.is_execution_terminating()
+            || runtime.heap_limit_state.terminated.load(Ordering::SeqCst)
             || wall_guard.was_triggered()
             || cpu_guard
                 .as_ref()
@@ -876,7 +876,7 @@ impl Worker {
             }
 
             // 1. Check termination (CPU/wall-clock guards)
-            if self.is_terminated(wall_guard, cpu_guard) {
+            if Self::is_terminated(&self.runtime, wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
 
@@ -885,7 +885,12 @@ impl Worker {
             const MAX_COALESCE_ROUNDS: usize = 4;
 
             for round in 0..MAX_COALESCE_ROUNDS {
-                let count = match drain_and_process(cx, &mut self.runtime, &mut pending_callbacks) {
+                let count = match drain_and_process(
+                    cx,
+                    &mut self.runtime,
+                    &mut pending_callbacks,
+                    |runtime| Self::is_terminated(runtime, wall_guard, cpu_guard),
+                ) {
                     Ok(c) => c,
                     Err(e) => return Poll::Ready(Err(e)),
                 };
@@ -937,7 +942,7 @@ impl Worker {
                 }; // V8 scopes dropped here
 
                 // The code that just ran may have hit a limit, which wakes nobody
-                if self.is_terminated(wall_guard, cpu_guard) {
+                if Self::is_terminated(&self.runtime, wall_guard, cpu_guard) {
                     return Poll::Ready(Err("Execution terminated".to_string()));
                 }
 
@@ -1023,7 +1028,7 @@ impl Worker {
         };
 
         // A response whose reading was cut short is none
-        if self.is_terminated(wall_guard, cpu_guard) {
+        if Self::is_terminated(&self.runtime, wall_guard, cpu_guard) {
             return Err("Execution terminated".to_string());
         }
 
@@ -1199,7 +1204,7 @@ impl Worker {
         };
 
         // Nor is a result whose reading was cut short
-        if self.is_terminated(wall_guard, cpu_guard) {
+        if Self::is_terminated(&self.runtime, wall_guard, cpu_guard) {
             return Err("Execution terminated".to_string());
         }
 
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 4258b68..8514ef3 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -73,7 +73,9 @@ impl Future for WorkerFuture<'_> {
         const MAX_COALESCE_ROUNDS: usize = 4;
 
         for round in 0..MAX_COALESCE_ROUNDS {
-            let count = match drain_and_process(cx, this.ctx, &mut this.pending_callbacks) {
+            let count = match drain_and_process(cx, this.ctx, &mut this.pending_callbacks, |ctx| {
+                ctx.is_terminated(this.wall_guard, this.cpu_guard)
+            }) {
                 Ok(c) => c,
                 Err(e) => return Poll::Ready(Err(e)),
             };
-- 
2.43.0


From 19b87c1be182aea6021495045641b226567521d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:59 +0000
Subject: [PATCH 81/82] fix: release an unread request body when its request is
 over

---
 src/execution_context.rs      |  3 +++
 src/runtime/stream_manager.rs | 46 +++++++++++++++++------------------
 src/worker.rs                 |  7 +++---
 3 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index d7e7286..b056461 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -320,6 +320,9 @@ impl ExecutionContext {
             .scheduler_tx
             .send(crate::runtime::SchedulerMessage::EndRequest);
 
+        // What it left unread is not waited for either
+        self.request.stream_manager.clear();
+
         (self.request, self.isolate)
     }
 
diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 4f144e0..0584392 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -239,36 +239,34 @@ impl StreamManager {
         rx: tokio::sync::mpsc::Receiver<Result<bytes::Bytes, String>>,
     ) -> StreamId {
         let stream_id = self.create_stream("request_body".to_string());
-        let stream_manager = self.clone();
+
+        // The pump holds a sender only: it stops as soon as nobody reads the stream any
+        // more, and goes on for a reader outside (a body answered to the client) that
+        // outlives the request.
+        let Some(tx) = self.sender(stream_id) else {
+            return stream_id;
+        };
 
         tokio::spawn(async move {
             let mut rx = rx;
 
-            while let Some(result) = rx.recv().await {
-                match result {
-                    Ok(bytes) => {
-                        if stream_manager
-                            .write_chunk(stream_id, StreamChunk::Data(bytes))
-                            .await
-                            .is_err()
-                        {
-                            // Stream closed by consumer
-                            break;
-                        }
-                    }
-                    Err(e) => {
-                        let _ = stream_manager
-                            .write_chunk(stream_id, StreamChunk::Error(e))
-                            .await;
-                        break;
-                    }
+            loop {
+                let chunk = tokio::select! {
+                    biased;
+                    // Stream closed by consumer
+                    _ = tx.closed() => return,
+                    result = rx.recv() => match result {
+                        Some(Ok(bytes)) => StreamChunk::Data(bytes),
+                        Some(Err(e)) => StreamChunk::Error(e),
+                        None => StreamChunk::Done,
+                    },
+                };
+                let last = !matches!(chunk, StreamChunk::Data(_));
+
+                if tx.send(chunk).await.is_err() || last {
+                    return;
                 }
             }
-
-            // Signal end of stream
-            let _ = stream_manager
-                .write_chunk(stream_id, StreamChunk::Done)
-                .await;
         });
 
         stream_id
diff --git a/src/worker.rs b/src/worker.rs
index 93a5bf1..6914fdb 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -737,10 +737,9 @@ impl Worker {
             }
         };
 
-        // Nothing will write to the open streams any more: their readers must not wait
-        if result.is_err() {
-            self.runtime.stream_manager.clear();
-        }
+        // Nothing will write to the open streams any more (their readers must not wait),
+        // and nothing will read them
+        self.runtime.stream_manager.clear();
 
         // Determine termination reason by checking guards (in priority order)
         self.check_termination_reason(
-- 
2.43.0


From a67dc69282dbeb54da28a3b009007e51d096ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:44 +0000
Subject: [PATCH 82/82] fix: a header named __proto__ is a header like any
 other

---
 src/execution_helpers.rs        | 4 ++--
 src/runtime/bindings/web_api.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index a0a3118..bd1dfb8 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -318,7 +318,7 @@ pub fn trigger_fetch_handler(
         for (key, value) in headers {
             let k = v8::String::new(scope, key).unwrap();
             let v = v8::String::new(scope, value).unwrap();
-            headers_obj.set(scope, k.into(), v.into());
+            headers_obj.create_data_property(scope, k.into(), v.into());
         }
 
         let headers_key = v8::String::new(scope, "headers").unwrap();
@@ -364,7 +364,7 @@ pub fn trigger_fetch_handler(
         for (key, value) in headers {
             let k = v8::String::new(scope, key).unwrap();
             let v = v8::String::new(scope, value).unwrap();
-            headers_obj.set(scope, k.into(), v.into());
+            headers_obj.create_data_property(scope, k.into(), v.into());
         }
 
         let headers_key = v8::String::new(scope, "headers").unwrap();
diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index fabf9b8..2b090f4 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -1673,7 +1673,7 @@ pub fn setup_fetch_helpers(scope: &mut v8::PinScope) {
             }
 
             const entries = headers instanceof Headers ? headers : Object.entries(headers || {});
-            headers = {};
+            headers = Object.create(null);
             for (const [key, value] of entries) {
                 headers[key] = `${value}`;
             }
-- 
2.43.0

