From f8c55454240ec66584bc629b1fdebcbe3b3db610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 01/18] fix: announce a stream that is closed before its first
 write

Closing a new outbound stream without having written to it sent a bare FIN,
which the remote ignored. Send SYN together with FIN instead.
---
 yamux/src/connection/stream.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6eb6dd4..21ad01f 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -415,14 +415,17 @@ impl AsyncWrite for Stream {
             .sender
             .poll_ready(cx)
             .map_err(|_| self.write_zero_err())?);
-        let ack = if self.flag == Flag::Ack {
-            self.flag = Flag::None;
-            true
+        log::trace!("{}/{}: close", self.conn, self.id);
+        let cmd = if self.flag == Flag::Syn {
+            // The remote doesn't know about this stream yet, open and half-close it in one go.
+            let mut frame = Frame::close_stream(self.id, false).left();
+            self.add_flag(frame.header_mut());
+            StreamCommand::SendFrame(frame)
         } else {
-            false
+            let ack = self.flag == Flag::Ack;
+            self.flag = Flag::None;
+            StreamCommand::CloseStream { ack }
         };
-        log::trace!("{}/{}: close", self.conn, self.id);
-        let cmd = StreamCommand::CloseStream { ack };
         self.sender
             .start_send(cmd)
             .map_err(|_| self.write_zero_err())?;
-- 
2.43.0


From 133f9f52a2d8ef6cd1adee82590b4dca9ac9f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 02/18] fix: closing a write-closed stream again sends no
 second FIN

---
 yamux/src/connection/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 21ad01f..d4c6a97 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -408,8 +408,8 @@ impl AsyncWrite for Stream {
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
-        if self.is_closed() {
-            return Poll::Ready(Ok(()));
+        if !self.shared().state().can_write() {
+            return Poll::Ready(Ok(())); // already closed
         }
         ready!(self
             .sender
-- 
2.43.0


From 6402f252292337a7b93d99ba6a0086b297ac7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 03/18] fix: a window update carrying the ACK acknowledges the
 stream

---
 yamux/src/connection/stream.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index d4c6a97..6f7cd32 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -229,6 +229,13 @@ impl Stream {
 
         let mut frame = Frame::window_update(self.id, credit).right();
         self.add_flag(frame.header_mut());
+
+        // As in `poll_write`, queuing a frame that carries the ACK acknowledges the stream.
+        if frame.header().flags().contains(ACK) {
+            self.shared()
+                .update_state(self.conn, self.id, State::Open { acknowledged: true });
+        }
+
         let cmd = StreamCommand::SendFrame(frame);
         self.sender
             .start_send(cmd)
-- 
2.43.0


From 33467e42ca49ee8df331a1328b79687629460e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 04/18] fix: refuse inbound streams with the session id

---
 yamux/src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index ee17d39..6b8c1ca 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -889,7 +889,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             return id.is_session();
         }
         match self.mode {
-            Mode::Client => id.is_server(),
+            // The session ID is even but never names a stream.
+            Mode::Client => id.is_server() && !id.is_session(),
             Mode::Server => id.is_client(),
         }
     }
-- 
2.43.0


From 8b19b0e053d5afcccb0b97a690cc6b9057b6844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 05/18] fix: never send data frames larger than the maximum
 accepted body

With a split send size and a send window above 1 MiB a single write was sent
as one frame that the remote refuses with FrameTooLarge.
---
 yamux/src/connection/stream.rs | 4 +++-
 yamux/src/frame.rs             | 2 +-
 yamux/src/frame/io.rs          | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 6f7cd32..17bdf83 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -16,7 +16,7 @@ use crate::{
     connection::{self, rtt, StreamCommand},
     frame::{
         header::{Data, Header, StreamId, WindowUpdate},
-        Frame,
+        Frame, MAX_FRAME_BODY_LEN,
     },
     Config, DEFAULT_CREDIT,
 };
@@ -382,6 +382,8 @@ impl AsyncWrite for Stream {
             }
             let k = std::cmp::min(shared.send_window() as usize, buf.len());
             let k = std::cmp::min(k, self.config.split_send_size);
+            // The remote refuses larger frames.
+            let k = std::cmp::min(k, MAX_FRAME_BODY_LEN);
             shared
                 .consume_send_window(k as u32)
                 .expect("not exceed receive window");
diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index 1b95e08..846c516 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -16,7 +16,7 @@ use header::{Data, GoAway, Header, Ping, StreamId, WindowUpdate};
 use std::{convert::TryInto, num::TryFromIntError};
 
 pub use io::FrameDecodeError;
-pub(crate) use io::Io;
+pub(crate) use io::{Io, MAX_FRAME_BODY_LEN};
 
 /// A Yamux message frame consisting of header and body.
 #[derive(Clone, Debug, PartialEq, Eq)]
diff --git a/yamux/src/frame/io.rs b/yamux/src/frame/io.rs
index b3f3dc7..61af119 100644
--- a/yamux/src/frame/io.rs
+++ b/yamux/src/frame/io.rs
@@ -25,7 +25,7 @@ use std::{
 /// Limits the amount of bytes a remote can cause the local node to allocate at once when reading.
 ///
 /// Chosen based on intuition in past iterations.
-const MAX_FRAME_BODY_LEN: usize = crate::MIB;
+pub(crate) const MAX_FRAME_BODY_LEN: usize = crate::MIB;
 
 /// A [`Stream`] and writer of [`Frame`] values.
 #[derive(Debug)]
-- 
2.43.0


From 06f8538c8b03c24a6267fb63b1eb8fd5b536370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 06/18] fix: report errors of writing a frame to the socket

The error returned by poll_ready was ignored and, with a frame waiting to be
sent, the connection continued to write or read instead of failing.
---
 yamux/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 6b8c1ca..5766055 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -400,7 +400,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
     fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
         loop {
-            if self.socket.poll_ready_unpin(cx).is_ready() {
+            if self.socket.poll_ready_unpin(cx)?.is_ready() {
                 // Note `next_ping` does not register a waker and thus if not called regularly (idle
                 // connection) no ping is sent. This is deliberate as an idle connection does not
                 // need RTT measurements to increase its stream receive window.
-- 
2.43.0


From 7c5e2490438f10518a2044e8ab8bf66b816dafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 07/18] fix: failing to open another stream keeps the
 connection

Opening a stream beyond the configured maximum or without ids left shut down
the connection and with it all of its streams.
---
 yamux/src/connection.rs | 85 ++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 43 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 5766055..787be1c 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -97,52 +97,51 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Connection<T> {
     ///
     /// This function will fail if the current state does not allow opening new outbound streams.
     pub fn poll_new_outbound(&mut self, cx: &mut Context<'_>) -> Poll<Result<Stream>> {
-        loop {
-            match std::mem::replace(&mut self.inner, ConnectionState::Poisoned) {
-                ConnectionState::Active(mut active) => match active.poll_new_outbound(cx) {
-                    Poll::Ready(Ok(stream)) => {
-                        self.inner = ConnectionState::Active(active);
-                        return Poll::Ready(Ok(stream));
-                    }
-                    Poll::Pending => {
-                        self.inner = ConnectionState::Active(active);
-                        return Poll::Pending;
-                    }
-                    Poll::Ready(Err(e)) => {
-                        self.inner = ConnectionState::Cleanup(active.cleanup(e));
-                        continue;
-                    }
-                },
-                ConnectionState::Closing(mut inner) => match inner.poll_unpin(cx) {
-                    Poll::Ready(Ok(())) => {
-                        self.inner = ConnectionState::Closed;
-                        return Poll::Ready(Err(ConnectionError::Closed));
-                    }
-                    Poll::Ready(Err(e)) => {
-                        self.inner = ConnectionState::Closed;
-                        return Poll::Ready(Err(e));
-                    }
-                    Poll::Pending => {
-                        self.inner = ConnectionState::Closing(inner);
-                        return Poll::Pending;
-                    }
-                },
-                ConnectionState::Cleanup(mut inner) => match inner.poll_unpin(cx) {
-                    Poll::Ready(e) => {
-                        self.inner = ConnectionState::Closed;
-                        return Poll::Ready(Err(e));
-                    }
-                    Poll::Pending => {
-                        self.inner = ConnectionState::Cleanup(inner);
-                        return Poll::Pending;
-                    }
-                },
-                ConnectionState::Closed => {
+        match std::mem::replace(&mut self.inner, ConnectionState::Poisoned) {
+            ConnectionState::Active(mut active) => match active.poll_new_outbound(cx) {
+                Poll::Ready(Ok(stream)) => {
+                    self.inner = ConnectionState::Active(active);
+                    Poll::Ready(Ok(stream))
+                }
+                Poll::Pending => {
+                    self.inner = ConnectionState::Active(active);
+                    Poll::Pending
+                }
+                Poll::Ready(Err(e)) => {
+                    // We cannot open more streams but the existing ones are fine.
+                    self.inner = ConnectionState::Active(active);
+                    Poll::Ready(Err(e))
+                }
+            },
+            ConnectionState::Closing(mut inner) => match inner.poll_unpin(cx) {
+                Poll::Ready(Ok(())) => {
                     self.inner = ConnectionState::Closed;
-                    return Poll::Ready(Err(ConnectionError::Closed));
+                    Poll::Ready(Err(ConnectionError::Closed))
                 }
-                ConnectionState::Poisoned => unreachable!(),
+                Poll::Ready(Err(e)) => {
+                    self.inner = ConnectionState::Closed;
+                    Poll::Ready(Err(e))
+                }
+                Poll::Pending => {
+                    self.inner = ConnectionState::Closing(inner);
+                    Poll::Pending
+                }
+            },
+            ConnectionState::Cleanup(mut inner) => match inner.poll_unpin(cx) {
+                Poll::Ready(e) => {
+                    self.inner = ConnectionState::Closed;
+                    Poll::Ready(Err(e))
+                }
+                Poll::Pending => {
+                    self.inner = ConnectionState::Cleanup(inner);
+                    Poll::Pending
+                }
+            },
+            ConnectionState::Closed => {
+                self.inner = ConnectionState::Closed;
+                Poll::Ready(Err(ConnectionError::Closed))
             }
+            ConnectionState::Poisoned => unreachable!(),
         }
     }
 
-- 
2.43.0


From 1d9e87964581d0f408b99fff5b2daf488d595ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 08/18] fix: wake a waiting outbound open whenever the ACK
 backlog shrinks

It was only woken by an ACK, but streams also leave the backlog by being
closed, reset or dropped, and the connection may end.
---
 yamux/src/connection.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 787be1c..b8359b4 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -484,6 +484,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
+            // Streams also leave the ACK backlog by being closed, reset or dropped.
+            if self.new_outbound_stream_waker.is_some() && self.ack_backlog() < MAX_ACK_BACKLOG {
+                self.wake_new_outbound_stream();
+            }
+
             // If we make it this far, at least one of the above must have registered a waker.
             return Poll::Pending;
         }
@@ -579,9 +584,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                     .lock()
                     .update_state(self.id, id, State::Open { acknowledged: true });
             }
-            if let Some(waker) = self.new_outbound_stream_waker.take() {
-                waker.wake();
-            }
+            self.wake_new_outbound_stream();
         }
 
         let action = match frame.header().tag() {
@@ -896,8 +899,16 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 }
 
 impl<T> Active<T> {
+    /// Wake the task waiting in [`Active::poll_new_outbound`], if any.
+    fn wake_new_outbound_stream(&mut self) {
+        if let Some(waker) = self.new_outbound_stream_waker.take() {
+            waker.wake();
+        }
+    }
+
     /// Close and drop all `Stream`s and wake any pending `Waker`s.
     fn drop_all_streams(&mut self) {
+        self.wake_new_outbound_stream();
         for (id, s) in self.streams.drain() {
             let mut shared = s.lock();
             shared.update_state(self.id, id, State::Closed);
-- 
2.43.0


From 46eeac73c9a14fc97c8e20ed7ee0461efe365053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 09/18] fix: closing the connection ends its streams

Tasks reading from or writing to a stream were never woken by
Connection::poll_close, and reads failed with a write error instead of
returning the received data and end of stream.
---
 yamux/src/connection.rs        |  4 +++-
 yamux/src/connection/stream.rs | 37 ++++++++++++----------------------
 2 files changed, 16 insertions(+), 25 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index b8359b4..9ec2e9f 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -379,7 +379,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
     }
 
     /// Gracefully close the connection to the remote.
-    fn close(self) -> Closing<T> {
+    fn close(mut self) -> Closing<T> {
+        self.drop_all_streams();
+
         let pending_frames = self
             .pending_read_frame
             .into_iter()
diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 17bdf83..4a0037a 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -213,18 +213,17 @@ impl Stream {
 
     /// Send new credit to the sending side via a window update message if
     /// permitted.
-    fn send_window_update(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
+    fn send_window_update(&mut self, cx: &mut Context) -> Poll<()> {
         if !self.shared.lock().state.can_read() {
-            return Poll::Ready(Ok(()));
+            return Poll::Ready(());
         }
 
-        ready!(self
-            .sender
-            .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+        if ready!(self.sender.poll_ready(cx)).is_err() {
+            return Poll::Ready(()); // The connection is gone.
+        }
 
         let Some(credit) = self.shared.lock().next_window_update() else {
-            return Poll::Ready(Ok(()));
+            return Poll::Ready(());
         };
 
         let mut frame = Frame::window_update(self.id, credit).right();
@@ -236,12 +235,10 @@ impl Stream {
                 .update_state(self.conn, self.id, State::Open { acknowledged: true });
         }
 
-        let cmd = StreamCommand::SendFrame(frame);
-        self.sender
-            .start_send(cmd)
-            .map_err(|_| self.write_zero_err())?;
+        // An error means that the connection is gone, nobody needs the credit anymore.
+        let _ = self.sender.start_send(StreamCommand::SendFrame(frame));
 
-        Poll::Ready(Ok(()))
+        Poll::Ready(())
     }
 }
 
@@ -263,12 +260,8 @@ impl futures::stream::Stream for Stream {
             return Poll::Ready(None);
         }
 
-        match self.send_window_update(cx) {
-            Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
-            // Continue reading buffered data even though sending a window update blocked.
-            Poll::Pending => {}
-        }
+        // Continue reading buffered data even if sending a window update blocked.
+        let _ = self.send_window_update(cx);
 
         let mut shared = self.shared();
 
@@ -316,12 +309,8 @@ impl AsyncRead for Stream {
             return Poll::Ready(Ok(0));
         }
 
-        match self.send_window_update(cx) {
-            Poll::Ready(Ok(())) => {}
-            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
-            // Continue reading buffered data even though sending a window update blocked.
-            Poll::Pending => {}
-        }
+        // Continue reading buffered data even if sending a window update blocked.
+        let _ = self.send_window_update(cx);
 
         // Copy data from stream buffer.
         let mut shared = self.shared();
-- 
2.43.0


From 0f94e8cad665cdf09ec30cf5670a213adcbdb120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 10/18] fix: wake the connection for outbound streams next to
 existing ones

A stream opened by another task than the one driving the connection was only
noticed right away if it was the first one; otherwise its frames could stay
queued until something else woke the connection.
---
 yamux/src/connection.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 9ec2e9f..2ec6a7b 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -293,7 +293,7 @@ struct Active<T> {
 
     streams: IntMap<StreamId, Arc<Mutex<stream::Shared>>>,
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
-    no_streams_waker: Option<Waker>,
+    new_receiver_waker: Option<Waker>,
 
     pending_read_frame: Option<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
@@ -365,7 +365,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
             socket,
             streams: IntMap::default(),
             stream_receivers: SelectAll::default(),
-            no_streams_waker: None,
+            new_receiver_waker: None,
             next_id: match mode {
                 Mode::Client => 1,
                 Mode::Server => 2,
@@ -452,10 +452,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                         };
                         continue;
                     }
-                    Poll::Ready(None) => {
-                        self.no_streams_waker = Some(cx.waker().clone());
+                    Poll::Ready(None) | Poll::Pending => {
+                        // Receivers of new streams are not polled, and thus don't wake us,
+                        // before we are polled again.
+                        self.new_receiver_waker = Some(cx.waker().clone());
                     }
-                    Poll::Pending => {}
                 }
             }
 
@@ -821,7 +822,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
         let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.
         self.stream_receivers.push(TaggedStream::new(id, receiver));
-        if let Some(waker) = self.no_streams_waker.take() {
+        if let Some(waker) = self.new_receiver_waker.take() {
             waker.wake();
         }
 
@@ -841,7 +842,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
 
         let (sender, receiver) = mpsc::channel(10); // 10 is an arbitrary number.
         self.stream_receivers.push(TaggedStream::new(id, receiver));
-        if let Some(waker) = self.no_streams_waker.take() {
+        if let Some(waker) = self.new_receiver_waker.take() {
             waker.wake();
         }
 
-- 
2.43.0


From d8fb122c1ecf5b7b4e081ce249f7022f67c8893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 11/18] fix: reading and writing a stream from different tasks
 loses no wake-up

Both waited for queue room with the same Sender, which wakes only the last
task that polled it, so a blocked writer was forgotten once the task that
reads the stream had a window update to send.
---
 yamux/src/connection/stream.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 4a0037a..e47a65f 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -96,6 +96,9 @@ pub struct Stream {
     conn: connection::Id,
     config: Arc<Config>,
     sender: mpsc::Sender<StreamCommand>,
+    /// A `Sender` only wakes the last task that waited for it, so window updates, which are sent
+    /// by the reading task, have one of their own.
+    window_update_sender: mpsc::Sender<StreamCommand>,
     flag: Flag,
     shared: Arc<Mutex<Shared>>,
 }
@@ -129,6 +132,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Ack,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -153,6 +157,7 @@ impl Stream {
             id,
             conn,
             config: config.clone(),
+            window_update_sender: sender.clone(),
             sender,
             flag: Flag::Syn,
             shared: Arc::new(Mutex::new(Shared::new(
@@ -218,7 +223,7 @@ impl Stream {
             return Poll::Ready(());
         }
 
-        if ready!(self.sender.poll_ready(cx)).is_err() {
+        if ready!(self.window_update_sender.poll_ready(cx)).is_err() {
             return Poll::Ready(()); // The connection is gone.
         }
 
@@ -236,7 +241,9 @@ impl Stream {
         }
 
         // An error means that the connection is gone, nobody needs the credit anymore.
-        let _ = self.sender.start_send(StreamCommand::SendFrame(frame));
+        let _ = self
+            .window_update_sender
+            .start_send(StreamCommand::SendFrame(frame));
 
         Poll::Ready(())
     }
-- 
2.43.0


From 2ebb29f5bc8d47b654313f771baa9ca85a0aa802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 12/18] fix: keep reading while a reply waits to be sent

A connection that could not write a pong right away stopped reading. With
full transport buffers in both directions two connections, each with a pong
to send, waited for each other forever.
---
 yamux/src/connection.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index 2ec6a7b..c44714d 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -42,6 +42,10 @@ pub use stream::{Packet, State, Stream};
 /// Next connection identifier, used for debug logging.
 static NEXT_ID: AtomicU32 = AtomicU32::new(1);
 
+/// The maximum number of replies (`Pong` and `GoAway` frames) waiting to be sent with which we still
+/// read further frames.
+const MAX_PENDING_REPLIES: usize = 16;
+
 /// How the connection is used.
 #[derive(Copy, Clone, Debug, Hash, PartialEq, Eq)]
 pub enum Mode {
@@ -295,7 +299,8 @@ struct Active<T> {
     stream_receivers: SelectAll<TaggedStream<StreamId, mpsc::Receiver<StreamCommand>>>,
     new_receiver_waker: Option<Waker>,
 
-    pending_read_frame: Option<Frame<()>>,
+    /// Replies to received frames, at most [`MAX_PENDING_REPLIES`].
+    pending_read_frames: VecDeque<Frame<()>>,
     pending_write_frame: Option<Frame<()>>,
     new_outbound_stream_waker: Option<Waker>,
 
@@ -370,7 +375,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 Mode::Client => 1,
                 Mode::Server => 2,
             },
-            pending_read_frame: None,
+            pending_read_frames: VecDeque::new(),
             pending_write_frame: None,
             new_outbound_stream_waker: None,
             rtt: rtt::Rtt::new(),
@@ -383,7 +388,7 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
         self.drop_all_streams();
 
         let pending_frames = self
-            .pending_read_frame
+            .pending_read_frames
             .into_iter()
             .chain(self.pending_write_frame)
             .collect::<VecDeque<Frame<()>>>();
@@ -413,8 +418,8 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 // Privilege pending `Pong` and `GoAway` `Frame`s
                 // over `Frame`s from the receivers.
                 if let Some(frame) = self
-                    .pending_read_frame
-                    .take()
+                    .pending_read_frames
+                    .pop_front()
                     .or_else(|| self.pending_write_frame.take())
                 {
                     self.socket.start_send_unpin(frame)?;
@@ -460,7 +465,9 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                 }
             }
 
-            if self.pending_read_frame.is_none() {
+            // Keep reading while replies cannot be sent, otherwise two endpoints could end up both
+            // waiting for the other one to read. But don't let the remote queue without limit.
+            if self.pending_read_frames.len() < MAX_PENDING_REPLIES {
                 match self.socket.poll_next_unpin(cx) {
                     Poll::Ready(Some(frame)) => {
                         match self.on_frame(frame?)? {
@@ -471,11 +478,11 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Active<T> {
                             }
                             Action::Ping(f) => {
                                 log::trace!("{}/{}: pong", self.id, f.header().stream_id());
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                             Action::Terminate(f) => {
                                 log::trace!("{}: sending term", self.id);
-                                self.pending_read_frame.replace(f.into());
+                                self.pending_read_frames.push_back(f.into());
                             }
                         }
                         continue;
-- 
2.43.0


From 2c9e6652e283b039d45588a3a303b4bf93bdb41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 13/18] fix: two connections closing at the same time don't
 block each other

With full transport buffers in both directions both waited to write their
remaining frames while neither was reading.
---
 yamux/src/connection/closing.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 062d789..6e1e535 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -5,7 +5,7 @@ use crate::Result;
 use crate::{frame, StreamId};
 use futures::channel::mpsc;
 use futures::stream::{Fuse, SelectAll};
-use futures::{ready, AsyncRead, AsyncWrite, SinkExt, StreamExt};
+use futures::{AsyncRead, AsyncWrite, SinkExt, StreamExt};
 use std::collections::VecDeque;
 use std::future::Future;
 use std::pin::Pin;
@@ -36,6 +36,14 @@ where
             socket,
         }
     }
+
+    /// Read and discard what the remote sends.
+    ///
+    /// To be called when we cannot write, since the remote, when closing as well, might only read
+    /// once it has written everything itself.
+    fn discard_inbound(&mut self, cx: &mut Context<'_>) {
+        while let Poll::Ready(Some(Ok(_))) = self.socket.poll_next_unpin(cx) {}
+    }
 }
 
 impl<T> Future for Closing<T>
@@ -75,7 +83,10 @@ where
                     }
                 }
                 State::FlushingPendingFrames => {
-                    ready!(this.socket.poll_ready_unpin(cx))?;
+                    if this.socket.poll_ready_unpin(cx)?.is_pending() {
+                        this.discard_inbound(cx);
+                        return Poll::Pending;
+                    }
 
                     match this.pending_frames.pop_front() {
                         Some(frame) => this.socket.start_send_unpin(frame)?,
@@ -83,7 +94,10 @@ where
                     }
                 }
                 State::ClosingSocket => {
-                    ready!(this.socket.poll_close_unpin(cx))?;
+                    if this.socket.poll_close_unpin(cx)?.is_pending() {
+                        this.discard_inbound(cx);
+                        return Poll::Pending;
+                    }
 
                     return Poll::Ready(Ok(()));
                 }
-- 
2.43.0


From e2bc57095f551de9798fd35cd6ba21ae6b5453f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 14/18] fix: no overflow for extreme stream limits in the
 configuration

The product of the number of streams and the default window overflowed, so
that invalid limits were accepted and valid ones could panic.
---
 yamux/src/connection/stream/flow_control.rs | 24 +++++++++++++--------
 yamux/src/lib.rs                            | 15 +++++++++----
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/yamux/src/connection/stream/flow_control.rs b/yamux/src/connection/stream/flow_control.rs
index a21c89d..1d0d425 100644
--- a/yamux/src/connection/stream/flow_control.rs
+++ b/yamux/src/connection/stream/flow_control.rs
@@ -91,14 +91,19 @@ impl FlowController {
 
             // But one has to consider the configured connection limit:
             let new_max = {
-                let connection_limit: usize = self.max_receive_window as usize +
+                let connection_limit: usize = match self.config.max_connection_receive_window {
+                    None => usize::MAX,
+                    Some(limit) => {
+                        self.max_receive_window as usize +
                     // the overall configured conneciton limit
-                    (self.config.max_connection_receive_window.unwrap_or(usize::MAX)
+                    (limit
                     // minus the minimum amount of window guaranteed to each stream
                     - self.config.max_num_streams * DEFAULT_CREDIT as usize
                     // minus the amount of bytes beyond the minimum amount (`DEFAULT_CREDIT`)
                     // already allocated by this and other streams on the connection.
-                    - *accumulated_max_stream_windows);
+                    - *accumulated_max_stream_windows)
+                    }
+                };
 
                 cmp::min(new_max, connection_limit.try_into().unwrap_or(u32::MAX))
             };
@@ -146,12 +151,13 @@ impl FlowController {
             self.receive_window <= self.max_receive_window,
             "The current window never exceeds the maximum."
         );
-        assert!(
-            (self.max_receive_window - DEFAULT_CREDIT) as usize
-                <= config.max_connection_receive_window.unwrap_or(usize::MAX)
-                    - config.max_num_streams * DEFAULT_CREDIT as usize,
-            "The maximum never exceeds its maximum portion of the configured connection limit."
-        );
+        if let Some(limit) = config.max_connection_receive_window {
+            assert!(
+                (self.max_receive_window - DEFAULT_CREDIT) as usize
+                    <= limit - config.max_num_streams * DEFAULT_CREDIT as usize,
+                "The maximum never exceeds its maximum portion of the configured connection limit."
+            );
+        }
         assert!(
             (self.max_receive_window - DEFAULT_CREDIT) as usize
                 <= accumulated_max_stream_windows,
diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index 0e5c65e..e49ae96 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -127,8 +127,7 @@ impl Config {
         self.max_connection_receive_window = n;
 
         assert!(
-            self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+            self.each_stream_gets_default_credit(),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
@@ -141,8 +140,7 @@ impl Config {
         self.max_num_streams = n;
 
         assert!(
-            self.max_connection_receive_window.unwrap_or(usize::MAX)
-                >= self.max_num_streams * DEFAULT_CREDIT as usize,
+            self.each_stream_gets_default_credit(),
             "`max_connection_receive_window` must be `>= 256 KiB * max_num_streams` to allow each
             stream at least the Yamux default window size"
         );
@@ -150,6 +148,15 @@ impl Config {
         self
     }
 
+    fn each_stream_gets_default_credit(&self) -> bool {
+        let Some(limit) = self.max_connection_receive_window else {
+            return true;
+        };
+        self.max_num_streams
+            .checked_mul(DEFAULT_CREDIT as usize)
+            .is_some_and(|required| limit >= required)
+    }
+
     /// Allow or disallow streams to read from buffered data after
     /// the connection has been closed.
     pub fn set_read_after_close(&mut self, b: bool) -> &mut Self {
-- 
2.43.0


From 09da9c98a504f5da0cfe80f5e926b3d106c080d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 15/18] fix: a write waiting for queue room fails once the
 stream is reset

It was not woken by the reset, and waited even if the stream was closed for
writing already, until the transport accepted more data.
---
 yamux/src/connection/stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index e47a65f..93d620b 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -361,16 +361,21 @@ impl AsyncWrite for Stream {
         cx: &mut Context,
         buf: &[u8],
     ) -> Poll<io::Result<usize>> {
-        ready!(self
+        let ready = self
             .sender
             .poll_ready(cx)
-            .map_err(|_| self.write_zero_err())?);
+            .map_err(|_| self.write_zero_err())?;
         let body = {
             let mut shared = self.shared();
             if !shared.state().can_write() {
                 log::debug!("{}/{}: can no longer write", self.conn, self.id);
                 return Poll::Ready(Err(self.write_zero_err()));
             }
+            if ready.is_pending() {
+                // Besides room in the queue, also a reset of the stream ends the wait.
+                shared.writer = Some(cx.waker().clone());
+                return Poll::Pending;
+            }
             if shared.send_window() == 0 {
                 log::trace!("{}/{}: no more credit left", self.conn, self.id);
                 shared.writer = Some(cx.waker().clone());
-- 
2.43.0


From 241748ed215f1ea1055152979fb7d70f3deeadc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 16/18] Verification hook: start outbound ids anywhere (cfg
 yamux_verif)

---
 yamux/src/connection.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/yamux/src/connection.rs b/yamux/src/connection.rs
index c44714d..9de249e 100644
--- a/yamux/src/connection.rs
+++ b/yamux/src/connection.rs
@@ -250,6 +250,16 @@ impl<T: AsyncRead + AsyncWrite + Unpin> Connection<T> {
     }
 }
 
+#[cfg(yamux_verif)]
+impl<T> Connection<T> {
+    /// Verification hook: continue with the given id for the next outbound stream.
+    pub fn verif_set_next_id(&mut self, id: u32) {
+        if let ConnectionState::Active(active) = &mut self.inner {
+            active.next_id = id;
+        }
+    }
+}
+
 impl<T> Drop for Connection<T> {
     fn drop(&mut self) {
         match &mut self.inner {
-- 
2.43.0


From d8f62ae79c0bf518b0023097e4b11cbacf65dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 17/18] fix: closing a connection fails when reading the socket
 fails

Inbound frames are discarded while closing cannot write; a failure of the
socket seen there was ignored.
---
 yamux/src/connection/closing.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/yamux/src/connection/closing.rs b/yamux/src/connection/closing.rs
index 6e1e535..1c3fc26 100644
--- a/yamux/src/connection/closing.rs
+++ b/yamux/src/connection/closing.rs
@@ -1,5 +1,5 @@
 use crate::connection::StreamCommand;
-use crate::frame::Frame;
+use crate::frame::{Frame, FrameDecodeError};
 use crate::tagged_stream::TaggedStream;
 use crate::Result;
 use crate::{frame, StreamId};
@@ -8,6 +8,7 @@ use futures::stream::{Fuse, SelectAll};
 use futures::{AsyncRead, AsyncWrite, SinkExt, StreamExt};
 use std::collections::VecDeque;
 use std::future::Future;
+use std::io;
 use std::pin::Pin;
 use std::task::{Context, Poll};
 
@@ -40,9 +41,19 @@ where
     /// Read and discard what the remote sends.
     ///
     /// To be called when we cannot write, since the remote, when closing as well, might only read
-    /// once it has written everything itself.
-    fn discard_inbound(&mut self, cx: &mut Context<'_>) {
-        while let Poll::Ready(Some(Ok(_))) = self.socket.poll_next_unpin(cx) {}
+    /// once it has written everything itself. Only a failure of the socket is an error.
+    fn discard_inbound(&mut self, cx: &mut Context<'_>) -> Result<()> {
+        loop {
+            match self.socket.poll_next_unpin(cx) {
+                Poll::Ready(Some(Ok(_))) => {}
+                Poll::Ready(Some(Err(FrameDecodeError::Io(e))))
+                    if e.kind() != io::ErrorKind::UnexpectedEof =>
+                {
+                    return Err(e.into())
+                }
+                Poll::Ready(Some(Err(_))) | Poll::Ready(None) | Poll::Pending => return Ok(()),
+            }
+        }
     }
 }
 
@@ -84,7 +95,7 @@ where
                 }
                 State::FlushingPendingFrames => {
                     if this.socket.poll_ready_unpin(cx)?.is_pending() {
-                        this.discard_inbound(cx);
+                        this.discard_inbound(cx)?;
                         return Poll::Pending;
                     }
 
@@ -95,7 +106,7 @@ where
                 }
                 State::ClosingSocket => {
                     if this.socket.poll_close_unpin(cx)?.is_pending() {
-                        this.discard_inbound(cx);
+                        this.discard_inbound(cx)?;
                         return Poll::Pending;
                     }
 
-- 
2.43.0


From cc4c00ef1e85f3e5192040d106f1036372999bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:26 +0000
Subject: [PATCH 18/18] fix: a read into an empty buffer waits although there
 is data

---
 yamux/src/connection/stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yamux/src/connection/stream.rs b/yamux/src/connection/stream.rs
index 93d620b..1d9fea1 100644
--- a/yamux/src/connection/stream.rs
+++ b/yamux/src/connection/stream.rs
@@ -336,7 +336,8 @@ impl AsyncRead for Stream {
             }
         }
 
-        if n > 0 {
+        // A read into an empty buffer has nothing to wait for.
+        if n > 0 || buf.is_empty() {
             log::trace!("{}/{}: read {} bytes", self.conn, self.id, n);
             return Poll::Ready(Ok(n));
         }
-- 
2.43.0

