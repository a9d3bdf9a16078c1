From 334049727b1eeda377fee7df8253d9b4eddd5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 01/19] fix: poll: don't fail wait() when the notification byte
 is not in the pipe

notify() sets the flag before it writes to the pipe, and a concurrent
add/modify/delete may pop the byte. wait() then returned WouldBlock, which
also left Poller::notified set, so later notifications were lost.
---
 src/poll.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 45407c7..e0330ad 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -221,8 +221,11 @@ impl Poller {
             loop {
                 if self.notified.swap(false, Ordering::SeqCst) {
                     // `notify` will have sent a notification in case we were polling. We weren't,
-                    // so remove it.
-                    return self.notify.pop_notification();
+                    // so remove it. It is not an error if it isn't there: `notify` sets the flag
+                    // before it writes to the pipe, and `modify_fds` may have removed it already.
+                    // A notification that arrives late just makes `poll` go around once more.
+                    let _ = self.notify.pop_notification();
+                    return Ok(());
                 } else if self.waiting_operations.load(Ordering::SeqCst) == 0 {
                     break;
                 }
-- 
2.43.0


From f4f01468f250aafb0d56a62830ed1d38df5f87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 02/19] fix: poll: a modify() with an unsupported mode changes
 nothing

The key and the interest were replaced before the mode was rejected.
---
 src/poll.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index e0330ad..b35c993 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -156,6 +156,7 @@ impl Poller {
                 .fd_data
                 .get_mut(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
+            let remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
             let poll_fds_index = data.poll_fds_index;
 
@@ -165,7 +166,7 @@ impl Poller {
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
-            data.remove = cvt_mode_as_remove(mode)?;
+            data.remove = remove;
 
             Ok(())
         })
-- 
2.43.0


From 1f66819a6b5f452f913cc9dc9a973649cc217787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 03/19] fix: poll: honour priority interest

Event::with_priority() is documented to work with poll(), but the flag never
reached the system call.
---
 src/poll.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poll.rs b/src/poll.rs
index b35c993..4f0e452 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -353,6 +353,10 @@ fn poll_events(ev: Event) -> PollFlags {
         PollFlags::OUT | PollFlags::WRBAND
     } else {
         PollFlags::empty()
+    }) | (if ev.extra.is_pri() {
+        PollFlags::PRI
+    } else {
+        PollFlags::empty()
     })
 }
 
-- 
2.43.0


From 9f6ce4ebe268a2d5ab19146dcfb418d4ae1101fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 04/19] fix: poll: a oneshot event is not delivered again on
 hang-up or error

poll() reports POLLHUP and POLLERR whatever was requested, so a disarmed
descriptor kept producing events until it was modified or deleted.
---
 src/poll.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 4f0e452..07f3ccb 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -7,9 +7,9 @@ use std::sync::{Condvar, Mutex};
 use std::time::{Duration, Instant};
 
 #[cfg(not(target_os = "hermit"))]
-use rustix::fd::{AsFd, AsRawFd, BorrowedFd};
+use rustix::fd::{AsRawFd, BorrowedFd};
 #[cfg(target_os = "hermit")]
-use std::os::hermit::io::{AsFd, AsRawFd, BorrowedFd};
+use std::os::hermit::io::{AsRawFd, BorrowedFd};
 
 use syscall::{poll, PollFd, PollFlags};
 
@@ -191,11 +191,15 @@ impl Poller {
                 .remove(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
             fds.poll_fds.swap_remove(data.poll_fds_index);
-            if let Some(swapped_pollfd) = fds.poll_fds.get(data.poll_fds_index) {
-                fds.fd_data
-                    .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
-                    .unwrap()
-                    .poll_fds_index = data.poll_fds_index;
+
+            // The last entry has taken its place, if it wasn't the last one itself.
+            let last_index = fds.poll_fds.len();
+            if let Some(swapped) = fds
+                .fd_data
+                .values_mut()
+                .find(|data| data.poll_fds_index == last_index)
+            {
+                swapped.poll_fds_index = data.poll_fds_index;
             }
 
             Ok(())
@@ -282,10 +286,13 @@ impl Poller {
                             writable: revents.intersects(write_events()),
                             extra: EventExtra { flags: revents },
                         });
-                        // Remove interest if necessary
+                        // Remove interest if necessary. `poll` reports errors and hang-ups even
+                        // if nothing is requested, so the descriptor must not be polled at all:
+                        // ask for nothing on the notifier in its place until it is modified.
                         if fd_data.remove {
                             *poll_fd = PollFd::from_borrowed_fd(
-                                unsafe { BorrowedFd::borrow_raw(poll_fd.as_fd().as_raw_fd()) },
+                                // SAFETY: `notify.fd()` will remain valid until we drop `self`.
+                                unsafe { BorrowedFd::borrow_raw(self.notify.fd().as_raw_fd()) },
                                 PollFlags::empty(),
                             );
                         }
-- 
2.43.0


From c441f5ceab71f322edfdb8c29839d780bf4a68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 05/19] fix: kqueue: a failed add() leaves nothing registered

---
 src/kqueue.rs    | 8 +++++++-
 src/os/kqueue.rs | 8 ++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/kqueue.rs b/src/kqueue.rs
index 860bc5a..3ae574e 100644
--- a/src/kqueue.rs
+++ b/src/kqueue.rs
@@ -88,7 +88,13 @@ impl Poller {
         self.add_source(SourceId::Fd(fd))?;
 
         // File descriptors don't need to be added explicitly, so just modify the interest.
-        self.modify(BorrowedFd::borrow_raw(fd), ev, mode)
+        let borrowed = BorrowedFd::borrow_raw(fd);
+        self.modify(borrowed, ev, mode).map_err(|err| {
+            // Take back whatever has been registered.
+            let _ = self.modify(borrowed, Event::none(0), mode);
+            let _ = self.remove_source(SourceId::Fd(fd));
+            err
+        })
     }
 
     /// Modifies an existing file descriptor.
diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index 5045cb4..2168e1a 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -99,8 +99,12 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
     #[inline(always)]
     fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
         // No difference between adding and modifying in kqueue.
-        self.poller.add_source(filter.source_id())?;
-        self.modify_filter(filter, key, mode)
+        let source = filter.source_id();
+        self.poller.add_source(source)?;
+        self.modify_filter(filter, key, mode).map_err(|err| {
+            let _ = self.poller.remove_source(source);
+            err
+        })
     }
 
     fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
-- 
2.43.0


From 6981b6d3c8c4d3423f436cd5e78adee54009963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 06/19] fix: kqueue: registration changes by several threads
 don't mix

---
 src/kqueue.rs    | 106 +++++++++++++++++++++++++----------------------
 src/os/kqueue.rs |  34 +++++++--------
 2 files changed, 72 insertions(+), 68 deletions(-)

diff --git a/src/kqueue.rs b/src/kqueue.rs
index 3ae574e..a42b827 100644
--- a/src/kqueue.rs
+++ b/src/kqueue.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 use std::io;
 use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
-use std::sync::RwLock;
+use std::sync::Mutex;
 use std::time::Duration;
 
 use rustix::event::kqueue;
@@ -19,8 +19,9 @@ pub struct Poller {
 
     /// List of sources currently registered in this poller.
     ///
-    /// This is used to make sure the same source is not registered twice.
-    sources: RwLock<HashSet<SourceId>>,
+    /// This is used to make sure the same source is not registered twice. It is locked while a
+    /// registration changes, so that the set and the kqueue agree.
+    sources: Mutex<HashSet<SourceId>>,
 
     /// Notification pipe for waking up the poller.
     ///
@@ -55,7 +56,7 @@ impl Poller {
 
         let poller = Poller {
             kqueue_fd,
-            sources: RwLock::new(HashSet::new()),
+            sources: Mutex::new(HashSet::new()),
             notify: notify::Notify::new()?,
         };
 
@@ -85,20 +86,26 @@ impl Poller {
     ///
     /// The file descriptor must be valid and it must last until it is deleted.
     pub unsafe fn add(&self, fd: RawFd, ev: Event, mode: PollMode) -> io::Result<()> {
-        self.add_source(SourceId::Fd(fd))?;
-
-        // File descriptors don't need to be added explicitly, so just modify the interest.
         let borrowed = BorrowedFd::borrow_raw(fd);
-        self.modify(borrowed, ev, mode).map_err(|err| {
-            // Take back whatever has been registered.
-            let _ = self.modify(borrowed, Event::none(0), mode);
-            let _ = self.remove_source(SourceId::Fd(fd));
-            err
+        self.add_source(SourceId::Fd(fd), || {
+            // File descriptors don't need to be added explicitly, so just modify the interest.
+            self.set_interest(borrowed, ev, mode).map_err(|err| {
+                // Take back whatever has been registered.
+                let _ = self.set_interest(borrowed, Event::none(0), mode);
+                err
+            })
         })
     }
 
     /// Modifies an existing file descriptor.
     pub fn modify(&self, fd: BorrowedFd<'_>, ev: Event, mode: PollMode) -> io::Result<()> {
+        self.with_source(SourceId::Fd(fd.as_raw_fd()), || {
+            self.set_interest(fd, ev, mode)
+        })
+    }
+
+    /// Sets the filters of a file descriptor.
+    fn set_interest(&self, fd: BorrowedFd<'_>, ev: Event, mode: PollMode) -> io::Result<()> {
         let span = if !self.notify.has_fd(fd) {
             let span = tracing::trace_span!(
                 "add",
@@ -112,8 +119,6 @@ impl Poller {
         };
         let _enter = span.as_ref().map(|s| s.enter());
 
-        self.has_source(SourceId::Fd(fd.as_raw_fd()))?;
-
         let mode_flags = mode_to_flags(mode);
 
         let read_flags = if ev.readable {
@@ -178,57 +183,58 @@ impl Poller {
         Ok(())
     }
 
-    /// Add a source to the sources set.
+    /// Register a source that is not in the sources set, and add it.
     #[inline]
-    pub(crate) fn add_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .write()
-            .unwrap_or_else(|e| e.into_inner())
-            .insert(source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::AlreadyExists))
+    pub(crate) fn add_source(
+        &self,
+        source: SourceId,
+        register: impl FnOnce() -> io::Result<()>,
+    ) -> io::Result<()> {
+        let mut sources = self.sources.lock().unwrap_or_else(|e| e.into_inner());
+        if sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::AlreadyExists));
         }
+        register()?;
+        sources.insert(source);
+        Ok(())
     }
 
-    /// Tell if a source is currently inside the set.
+    /// Change the registration of a source that is in the sources set.
     #[inline]
-    pub(crate) fn has_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .read()
-            .unwrap_or_else(|e| e.into_inner())
-            .contains(&source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::NotFound))
+    pub(crate) fn with_source(
+        &self,
+        source: SourceId,
+        change: impl FnOnce() -> io::Result<()>,
+    ) -> io::Result<()> {
+        let sources = self.sources.lock().unwrap_or_else(|e| e.into_inner());
+        if !sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::NotFound));
         }
+        change()
     }
 
-    /// Remove a source from the sources set.
+    /// Deregister a source that is in the sources set, and remove it.
     #[inline]
-    pub(crate) fn remove_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .write()
-            .unwrap_or_else(|e| e.into_inner())
-            .remove(&source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::NotFound))
+    pub(crate) fn remove_source(
+        &self,
+        source: SourceId,
+        deregister: impl FnOnce() -> io::Result<()>,
+    ) -> io::Result<()> {
+        let mut sources = self.sources.lock().unwrap_or_else(|e| e.into_inner());
+        if !sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::NotFound));
         }
+        deregister()?;
+        sources.remove(&source);
+        Ok(())
     }
 
     /// Deletes a file descriptor.
     pub fn delete(&self, fd: BorrowedFd<'_>) -> io::Result<()> {
         // Simply delete interest in the file descriptor.
-        self.modify(fd, Event::none(0), PollMode::Oneshot)?;
-
-        self.remove_source(SourceId::Fd(fd.as_raw_fd()))
+        self.remove_source(SourceId::Fd(fd.as_raw_fd()), || {
+            self.set_interest(fd, Event::none(0), PollMode::Oneshot)
+        })
     }
 
     /// Waits for I/O events with an optional timeout.
diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index 2168e1a..d89e070 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -98,33 +98,31 @@ pub trait PollerKqueueExt<F: Filter>: PollerSealed {
 impl<F: Filter> PollerKqueueExt<F> for Poller {
     #[inline(always)]
     fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
-        // No difference between adding and modifying in kqueue.
-        let source = filter.source_id();
-        self.poller.add_source(source)?;
-        self.modify_filter(filter, key, mode).map_err(|err| {
-            let _ = self.poller.remove_source(source);
-            err
+        self.poller.add_source(filter.source_id(), || {
+            // No difference between adding and modifying in kqueue.
+            let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
+            self.poller.submit_changes([event])
         })
     }
 
     fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
-        self.poller.has_source(filter.source_id())?;
+        self.poller.with_source(filter.source_id(), || {
+            // Convert the filter into a kevent.
+            let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
 
-        // Convert the filter into a kevent.
-        let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
-
-        // Modify the filter.
-        self.poller.submit_changes([event])
+            // Modify the filter.
+            self.poller.submit_changes([event])
+        })
     }
 
     fn delete_filter(&self, filter: F) -> io::Result<()> {
-        // Convert the filter into a kevent.
-        let event = filter.filter(kqueue::EventFlags::DELETE, 0);
+        self.poller.remove_source(filter.source_id(), || {
+            // Convert the filter into a kevent.
+            let event = filter.filter(kqueue::EventFlags::DELETE, 0);
 
-        // Delete the filter.
-        self.poller.submit_changes([event])?;
-
-        self.poller.remove_source(filter.source_id())
+            // Delete the filter.
+            self.poller.submit_changes([event])
+        })
     }
 }
 
-- 
2.43.0


From 8c8abb1f3d36f1a0980d4502fc70941418692942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 07/19] fix: iocp: a change made while a wait begins takes
 effect

update_packet() looks at `polling` and queues the update if nobody is polling.
When a wait starts in between, it has drained the queue already: the change
was then not seen before the next wait, and with no other events this one slept on.
---
 src/iocp/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 3a66186..ed6c654 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -513,7 +513,15 @@ impl Poller {
 
             // Try to queue the update.
             match self.pending_updates.push(packet) {
-                Ok(()) => return Ok(()),
+                Ok(()) => {
+                    // If polling started in the meantime, the queue may have been drained before
+                    // our packet got there. Nobody else will look at it until the next poll.
+                    if self.polling.load(Ordering::SeqCst) {
+                        self.drain_update_queue(true)?;
+                    }
+
+                    return Ok(());
+                }
                 Err(p) => packet = p.into_inner(),
             }
 
-- 
2.43.0


From 97317b6f4e3db82d5f6f54573b0ded66128eddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 08/19] fix: iocp: no event for a waitable that was removed or
 disabled

The callback of the wait may be on its way, or its packet in the queue, when
the waitable is removed or its interest cleared. Its event was reported anyway
(with the old key, or as an event without any interest), and for oneshot
waitables that ended a wait for no reason.
---
 src/iocp/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index ed6c654..39a4bf7 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -858,6 +858,11 @@ impl PacketUnwrapped {
                             _ => unreachable!(),
                         };
 
+                        // If we have been removed in the meantime, there is nobody to tell.
+                        if handle.status.is_cancelled() {
+                            return;
+                        }
+
                         // Try to get the IOCP.
                         let iocp = match handle.port.upgrade() {
                             Some(iocp) => iocp,
@@ -962,6 +967,11 @@ impl PacketUnwrapped {
                 let mut handle = lock!(handle.lock());
                 let event = handle.interest;
 
+                // Ignore the packet if the handle was removed or if nobody is interested (anymore).
+                if handle.status.is_cancelled() || !(event.readable || event.writable) {
+                    return Ok(FeedEventResult::NoEvent);
+                }
+
                 // Clear the events if we are in one-shot mode.
                 if matches!(handle.mode, PollMode::Oneshot) {
                     handle.interest = Event::none(handle.interest.key);
@@ -1184,6 +1194,10 @@ impl WaitableStatus {
     fn is_idle(&self) -> bool {
         matches!(self, WaitableStatus::Idle)
     }
+
+    fn is_cancelled(&self) -> bool {
+        matches!(self, WaitableStatus::Cancelled)
+    }
 }
 
 /// The result of calling `feed_event`.
-- 
2.43.0


From 92ee412c039130a77b68a2029d9daeaa87006de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 09/19] fix: iocp: wait() doesn't spin on a failed socket
 nobody is interested in

Aborted connections were polled for whatever the interest, also if it is none or
only in priority data; as these report neither, the poll was repeated at once,
and wait() kept a processor busy until its timeout.
---
 src/iocp/mod.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 39a4bf7..5a232b5 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -198,7 +198,6 @@ impl Poller {
                 socket,
                 base_socket: base_socket(socket)?,
                 interest,
-                interest_error: true,
                 afd: self.afd_handle()?,
                 mode,
                 waiting_on_delete: false,
@@ -799,12 +798,11 @@ impl PacketUnwrapped {
                 let mut socket = lock!(socket.lock());
                 socket.interest = interest;
                 socket.mode = mode;
-                socket.interest_error = true;
 
                 // If there was a change, indicate that we need an update.
                 match socket.status {
                     SocketStatus::Polling { flags } => {
-                        let our_flags = event_to_afd_mask(socket.interest, socket.interest_error);
+                        let our_flags = event_to_afd_mask(socket.interest);
                         our_flags != flags
                     }
                     _ => true,
@@ -900,7 +898,7 @@ impl PacketUnwrapped {
             SocketStatus::Polling { flags } => {
                 // If we need to poll for events aside from what we are currently polling, we need
                 // to update the packet. Cancel the ongoing poll.
-                let our_flags = event_to_afd_mask(socket.interest, socket.interest_error);
+                let our_flags = event_to_afd_mask(socket.interest);
                 if our_flags != flags {
                     return self.cancel(socket);
                 }
@@ -917,7 +915,7 @@ impl PacketUnwrapped {
 
             SocketStatus::Idle => {
                 // Start a new poll.
-                let mask = event_to_afd_mask(socket.interest, socket.interest_error);
+                let mask = event_to_afd_mask(socket.interest);
                 let result = socket.afd.poll(self.clone(), socket.base_socket, mask);
 
                 match result {
@@ -1054,7 +1052,6 @@ impl PacketUnwrapped {
             // If we are in oneshot mode, remove the interest.
             if matches!(socket_state.mode, PollMode::Oneshot) {
                 socket_state.interest = Event::none(socket_state.interest.key);
-                socket_state.interest_error = false;
             }
 
             FeedEventResult::Event(event)
@@ -1126,9 +1123,6 @@ struct SocketState {
     /// The event that this socket is currently waiting on.
     interest: Event,
 
-    /// Whether to listen for error events.
-    interest_error: bool,
-
     /// The current poll mode.
     mode: PollMode,
 
@@ -1286,18 +1280,20 @@ impl WaitHandle {
 
 /// Translate an event to the mask expected by AFD.
 #[inline]
-fn event_to_afd_mask(event: Event, error: bool) -> afd::AfdPollMask {
-    event_properties_to_afd_mask(event.readable, event.writable, error) | event.extra.flags
+fn event_to_afd_mask(event: Event) -> afd::AfdPollMask {
+    event_properties_to_afd_mask(event.readable, event.writable) | event.extra.flags
 }
 
 /// Translate an event to the mask expected by AFD.
 #[inline]
-fn event_properties_to_afd_mask(readable: bool, writable: bool, error: bool) -> afd::AfdPollMask {
+fn event_properties_to_afd_mask(readable: bool, writable: bool) -> afd::AfdPollMask {
     use afd::AfdPollMask as AfdPoll;
 
     let mut mask = AfdPoll::empty();
 
-    if error || readable || writable {
+    // Errors are reported as both readable and writable. Don't poll for them if we report neither:
+    // the poll would complete again and again, with nothing to tell.
+    if readable || writable {
         mask |= AfdPoll::ABORT | AfdPoll::CONNECT_FAIL;
     }
 
-- 
2.43.0


From 3dc4c6e98a8499f1699a5fbc46009d76a16a81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 10/19] fix: iocp: a refused poll doesn't lose the source

When the system refused to start a poll (say, for lack of resources), the packet
stayed marked as in use and its reference was leaked, and the update was
forgotten: the source never reported anything again, even if the next attempt
would have worked. An add() that failed this way left the source in the table.
A packet that could not be posted was leaked, too.
---
 src/iocp/afd.rs  |  8 ++++++++
 src/iocp/mod.rs  | 27 ++++++++++++++++++++-------
 src/iocp/port.rs | 10 ++++++++--
 3 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/iocp/afd.rs b/src/iocp/afd.rs
index 5445874..8d8987e 100644
--- a/src/iocp/afd.rs
+++ b/src/iocp/afd.rs
@@ -493,6 +493,14 @@ where
             STATUS_SUCCESS => Ok(()),
             STATUS_PENDING => Err(io::ErrorKind::WouldBlock.into()),
             status => {
+                // The operation has not been started. No completion will give this reference to
+                // the packet back to us.
+                let packet = unsafe {
+                    (*iosb).Anonymous.Status = status;
+                    T::from_ptr(iosb.cast())
+                };
+                unsafe { packet.get().unlock() };
+
                 let real_code = unsafe { ntdll.RtlNtStatusToDosError(status) };
 
                 Err(io::Error::from_raw_os_error(real_code as i32))
diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 5a232b5..9fe97a7 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -226,8 +226,11 @@ impl Poller {
             }
         }
 
-        // Update the packet.
-        self.update_packet(socket_state)
+        // Update the packet. If that fails, the source was not added.
+        self.update_packet(socket_state).map_err(|e| {
+            self.delete(BorrowedSocket::borrow_raw(socket)).ok();
+            e
+        })
     }
 
     /// Update a source in the poller.
@@ -351,8 +354,11 @@ impl Poller {
             }
         }
 
-        // Update the packet.
-        self.update_packet(handle_state)
+        // Update the packet. If that fails, the waitable was not added.
+        self.update_packet(handle_state).map_err(|e| {
+            self.remove_waitable(handle).ok();
+            e
+        })
     }
 
     /// Update a waitable in the poller.
@@ -506,8 +512,7 @@ impl Poller {
         loop {
             // If we are currently polling, we need to update the packet immediately.
             if self.polling.load(Ordering::Acquire) {
-                packet.update()?;
-                return Ok(());
+                return self.update_or_requeue(packet);
             }
 
             // Try to queue the update.
@@ -545,7 +550,15 @@ impl Poller {
         self.pending_updates
             .try_iter()
             .take(max)
-            .try_for_each(|packet| packet.update())
+            .try_for_each(|packet| self.update_or_requeue(packet))
+    }
+
+    /// Update a packet. If that fails, queue it to try again before the next poll.
+    fn update_or_requeue(&self, packet: Packet) -> io::Result<()> {
+        packet.clone().update().map_err(|e| {
+            self.pending_updates.push(packet).ok();
+            e
+        })
     }
 
     /// Get a handle to the AFD reference.
diff --git a/src/iocp/port.rs b/src/iocp/port.rs
index f710c3a..7daa8d5 100644
--- a/src/iocp/port.rs
+++ b/src/iocp/port.rs
@@ -197,6 +197,7 @@ impl<T: CompletionHandle> IoCompletionPort<T> {
 
     /// Post a completion packet to this port.
     pub(super) fn post(&self, bytes_transferred: usize, id: usize, packet: T) -> io::Result<()> {
+        let packet = T::into_ptr(packet);
         let result = unsafe {
             PostQueuedCompletionStatus(
                 self.handle,
@@ -204,12 +205,17 @@ impl<T: CompletionHandle> IoCompletionPort<T> {
                     .try_into()
                     .expect("too many bytes transferred"),
                 id,
-                T::into_ptr(packet),
+                packet,
             )
         };
 
         if result == 0 {
-            Err(io::Error::last_os_error())
+            let error = io::Error::last_os_error();
+
+            // The packet was not queued, so take it back.
+            drop(unsafe { T::from_ptr(packet) });
+
+            Err(error)
         } else {
             Ok(())
         }
-- 
2.43.0


From 7562acfffc5952eb65f7b65e1d3e613c3959d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 11/19] fix: iocp: dropping a poller doesn't leak its sources

The polls of the registered sources went on after the poller was gone, each with
a reference to its packet and through it to the AFD handle, which was never
closed; so did removed sources and notifications that no wait had collected.
---
 src/iocp/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 9fe97a7..b90dd84 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -614,6 +614,27 @@ impl Poller {
     }
 }
 
+impl Drop for Poller {
+    fn drop(&mut self) {
+        // The system holds references to the packets of ongoing operations. Cancel these...
+        let sources = lock!(self.sources.get_mut())
+            .drain()
+            .map(|(_, source)| source);
+        let waitables = lock!(self.waitables.get_mut())
+            .drain()
+            .map(|(_, waitable)| waitable);
+        for packet in sources.chain(waitables) {
+            packet.begin_delete().ok();
+        }
+
+        // ...and take back what has been queued for us, to not leak it.
+        let mut completions = Vec::with_capacity(64);
+        while let Ok(1..) = self.port.wait(&mut completions, Some(Duration::ZERO)) {
+            completions.clear();
+        }
+    }
+}
+
 impl AsRawHandle for Poller {
     fn as_raw_handle(&self) -> RawHandle {
         self.port.as_raw_handle()
-- 
2.43.0


From 12f858fe0095e84cb3cde40feaa65b80ec333fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 12/19] fix: a failed notify() doesn't silence the ones that
 follow

When the backend could not send the notification, notify() returned the error
but left the notified flag set: until the next wait returned for some other
reason, every further call was taken for a repetition and did nothing.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f5cd993..58ae5a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -794,7 +794,11 @@ impl Poller {
             .compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst)
             .is_ok()
         {
-            self.poller.notify()?;
+            if let Err(e) = self.poller.notify() {
+                // Nothing was sent, so the next call has to try again.
+                self.notified.store(false, Ordering::SeqCst);
+                return Err(e);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From f8b132680973c10a089ce4308f05e148fee5e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 13/19] fix: iocp: a timeout of more than 49 days ends

Durations that don't fit into u32 milliseconds became INFINITE. Wait for as long
as one call can instead; Poller::wait() goes on waiting until its deadline.
---
 src/iocp/port.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iocp/port.rs b/src/iocp/port.rs
index 7daa8d5..70740f4 100644
--- a/src/iocp/port.rs
+++ b/src/iocp/port.rs
@@ -231,7 +231,9 @@ impl<T: CompletionHandle> IoCompletionPort<T> {
         packets.clear();
 
         let mut count = MaybeUninit::<u32>::uninit();
-        let timeout = timeout.map_or(INFINITE, dur2timeout);
+
+        // A timeout that is too long for one call is not infinite; the caller has to wait again.
+        let timeout = timeout.map_or(INFINITE, |timeout| dur2timeout(timeout).min(INFINITE - 1));
 
         let result = unsafe {
             GetQueuedCompletionStatusEx(
-- 
2.43.0


From b789958ed3d61f5ad26f49961c4baa9598615a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 14/19] fix: poll: a notify() after one that failed did not
 wake up wait()

The flag was left set by the failed call, so that the next call wrote nothing to the pipe.
---
 src/poll.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 07f3ccb..950bf3c 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -318,10 +318,11 @@ impl Poller {
         );
         let _enter = span.enter();
 
-        if !self.notified.swap(true, Ordering::SeqCst) {
-            self.notify.notify()?;
-            self.operations_complete.notify_one();
-        }
+        // Even if the flag is set already, the notification that set it may have failed to wake up
+        // `wait`.
+        self.notified.store(true, Ordering::SeqCst);
+        self.notify.notify()?;
+        self.operations_complete.notify_one();
 
         Ok(())
     }
-- 
2.43.0


From 958947f20e1e1b45ba49be52ed3c87cac3a8ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 15/19] fix: epoll: notify() hid that the notification could
 not be sent

The caller believed it was sent, and later calls were not sent either, since one seemed to be pending.
---
 src/epoll.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/epoll.rs b/src/epoll.rs
index 331874b..ee8c8ad 100644
--- a/src/epoll.rs
+++ b/src/epoll.rs
@@ -237,8 +237,7 @@ impl Poller {
         );
         let _enter = span.enter();
 
-        self.notifier.notify();
-        Ok(())
+        self.notifier.notify()
     }
 }
 
@@ -469,18 +468,19 @@ impl Notifier {
     }
 
     /// Notify the poller.
-    fn notify(&self) {
+    fn notify(&self) -> io::Result<()> {
         match self {
             #[cfg(not(target_os = "redox"))]
             Self::EventFd(fd) => {
                 let buf: [u8; 8] = 1u64.to_ne_bytes();
-                let _ = write(fd, &buf);
+                write(fd, &buf)?;
             }
 
             Self::Pipe { write_pipe, .. } => {
-                write(write_pipe, &[0; 1]).ok();
+                write(write_pipe, &[0; 1])?;
             }
         }
+        Ok(())
     }
 
     /// Clear the notification.
-- 
2.43.0


From 958cac73f47427309f9193be2b6ceb47ba7b9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 16/19] fix: do not block on an empty eventfd on Hermit

ESP-IDF's eventfds never block, Hermit's do unless told otherwise. Changing a
source takes its own notification back from the eventfd, and with it any other
that is there; a wait (or another change) that expects its notification there
then blocks for ever, holding the lock on the descriptors.
---
 src/poll.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index 950bf3c..9261b0d 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -493,7 +493,8 @@ mod syscall {
 
     /// Create an eventfd.
     pub(super) fn eventfd(count: u64, _flags: EventfdFlags) -> io::Result<OwnedFd> {
-        let fd = unsafe { hermit_abi::eventfd(count, 0) };
+        // Reading it must not block: the notification that is expected there may be gone already.
+        let fd = unsafe { hermit_abi::eventfd(count, hermit_abi::EFD_NONBLOCK) };
 
         if fd < 0 {
             Err(io::Error::from_raw_os_error(unsafe {
-- 
2.43.0


From fb0f2f0fabdfe4cb3b57b638d224af8ee4023798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 17/19] fix: do not block on an empty notification pipe on Vita

Taking a notification back from the pipe made the pipe blocking for that read.
When a wait in progress had removed the notification already, as it does when a
change interrupts it, the change blocked for ever with the lock held. Since the
notified flag is what counts, a notification that becomes readable later is
harmless.
---
 src/poll.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 9261b0d..e89d792 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -718,23 +718,9 @@ mod notify {
         pub(super) fn pop_notification(&self) -> Result<(), io::Error> {
             // Pipes on Vita do not guarantee that after `write` call succeeds, the
             // data becomes immediately available for reading on the other side of the pipe.
-            // To ensure that the notification is not lost, the read side of the pipe is temporarily
-            // switched to blocking for a single `read` call.
-            #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? & !rustix::fs::OFlags::NONBLOCK,
-            )?;
-
-            let result = read(&self.read_pipe, &mut [0; 1]);
-
-            #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? | rustix::fs::OFlags::NONBLOCK,
-            )?;
-
-            result?;
+            // This must not block until it is, since `wait` may have removed the notification
+            // already. One that becomes available later just makes `poll` go around once more.
+            read(&self.read_pipe, &mut [0; 1])?;
 
             Ok(())
         }
-- 
2.43.0


From 02f628d7002d1728a538ff25c7122e4a72c9bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 18/19] fix: free the callback of a wait that is cancelled
 (Windows)

Removing a waitable whose wait has not been satisfied leaked the boxed callback, and with it the
packet of the waitable. So did a failed RegisterWaitForSingleObject.
---
 src/iocp/mod.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index b90dd84..68118ca 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -895,15 +895,15 @@ impl PacketUnwrapped {
                             return;
                         }
 
+                        // Set us back into the idle state.
+                        handle.status = WaitableStatus::Idle;
+
                         // Try to get the IOCP.
                         let iocp = match handle.port.upgrade() {
                             Some(iocp) => iocp,
                             None => return,
                         };
 
-                        // Set us back into the idle state.
-                        handle.status = WaitableStatus::Idle;
-
                         // Push this packet.
                         drop(handle);
                         if let Err(e) = iocp.post(0, 0, packet) {
@@ -1243,12 +1243,25 @@ enum FeedEventResult {
 
 /// A handle for an ongoing wait operation.
 #[derive(Debug)]
-struct WaitHandle(RawHandle);
+struct WaitHandle {
+    /// The handle of the wait.
+    handle: RawHandle,
+
+    /// The boxed callback, which is freed by its call.
+    callback: *mut c_void,
+
+    /// Frees the callback if it is not called.
+    drop_callback: unsafe fn(*mut c_void),
+}
 
 impl Drop for WaitHandle {
     fn drop(&mut self) {
         unsafe {
-            UnregisterWait(self.0 as _);
+            // This fails if the callback has been called or is about to be. Otherwise there won't
+            // be any call, as the handle doesn't outlive the (only) call of the callback.
+            if UnregisterWait(self.handle as _) != 0 {
+                (self.drop_callback)(self.callback);
+            }
         }
     }
 }
@@ -1285,7 +1298,12 @@ impl WaitHandle {
             forget(_guard);
         }
 
+        unsafe fn drop_callback<F>(context: *mut c_void) {
+            drop(Box::from_raw(context as *mut F));
+        }
+
         let mut wait_handle = MaybeUninit::<RawHandle>::uninit();
+        let callback = Box::into_raw(Box::new(callback)) as *mut c_void;
 
         let mut flags = WT_EXECUTEONLYONCE;
         if long_wait {
@@ -1297,18 +1315,23 @@ impl WaitHandle {
                 wait_handle.as_mut_ptr().cast::<_>(),
                 handle as _,
                 Some(wait_callback::<F>),
-                Box::into_raw(Box::new(callback)) as _,
+                callback as _,
                 timeout.map_or(INFINITE, dur2timeout),
                 flags,
             )
         };
 
         if res == 0 {
-            return Err(io::Error::last_os_error());
+            let err = io::Error::last_os_error();
+            unsafe { drop_callback::<F>(callback) };
+            return Err(err);
         }
 
-        let wait_handle = unsafe { wait_handle.assume_init() };
-        Ok(Self(wait_handle))
+        Ok(Self {
+            handle: unsafe { wait_handle.assume_init() },
+            callback,
+            drop_callback: drop_callback::<F>,
+        })
     }
 }
 
-- 
2.43.0


From 49fbbcabe4cdc391668c24eba3e53dd789f19e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:16 +0000
Subject: [PATCH 19/19] fix: do not leak the packet of a waitable if the poller
 is dropped meanwhile

The callback of a wait posted the packet after it had released the lock of the waitable. A poller
dropped between the two has emptied its port already, so nobody takes the packet back.
---
 src/iocp/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 68118ca..b196291 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -904,9 +904,9 @@ impl PacketUnwrapped {
                             None => return,
                         };
 
-                        // Push this packet.
-                        drop(handle);
-                        if let Err(e) = iocp.post(0, 0, packet) {
+                        // Push this packet. The handle stays locked, so that it cannot be removed
+                        // and the poller cannot go away in the meantime.
+                        if let Err(e) = iocp.post(0, 0, packet.clone()) {
                             tracing::error!("failed to post completion packet: {}", e);
                         }
                     },
-- 
2.43.0

