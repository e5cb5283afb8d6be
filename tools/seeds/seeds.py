#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from the list below (against /repo's HEAD)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
OUT = os.path.join(HERE, '..', '..', 'seeded')
C="yamux/src/connection.rs"; S="yamux/src/connection/stream.rs"; F="yamux/src/connection/stream/flow_control.rs"; I="yamux/src/frame/io.rs"
CL="yamux/src/connection/closing.rs"; K="yamux/src/chunks.rs"; R="yamux/src/connection/rtt.rs"; H="yamux/src/frame/header.rs"; L="yamux/src/lib.rs"; CU="yamux/src/connection/cleanup.rs"; T="yamux/src/tagged_stream.rs"; FR="yamux/src/frame.rs"
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append((id, prop, needs, breaks, edits, demo))

ON_DATA_RST = """    fn on_data(&mut self, frame: Frame<Data>) -> Action {
        let stream_id = frame.header().stream_id();

        if frame.header().flags().contains(header::RST) {
            // stream reset
            if let Some(s) = self.streams.get_mut(&stream_id) {
                let mut shared = s.lock();
"""
ON_WU_RST = """    fn on_window_update(&mut self, frame: &Frame<WindowUpdate>) -> Action {
        let stream_id = frame.header().stream_id();

        if frame.header().flags().contains(header::RST) {
            // stream reset
            if let Some(s) = self.streams.get_mut(&stream_id) {
                let mut shared = s.lock();
                shared.update_state(self.id, stream_id, State::Closed);
                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
"""
WR = """                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
"""

seed("c01-packet-after-partial-read", "C01",
 "a byte read that takes part of a frame, followed by a packet read of the rest",
 "the packet has the right length but the bytes of the front of the frame instead of its rest",
 [(S, "                vec = vec.split_off(off)\n", "                vec.truncate(vec.len() - off)\n")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    let d = pat(1000, 1);
    e.feed(&data(SYN, 1, &d));
    let mut s = e.inbound.pop().expect("inbound stream");
    let mut b = [0; 300];
    assert!(matches!(read(&mut s, &mut b, &nw()), Poll::Ready(Ok(300))));
    let mut got = b.to_vec();
    match packet(&mut s, &nw()) {
        Poll::Ready(Some(Ok(p))) => got.extend(p.as_ref()),
        r => panic!("{r:?}"),
    }
    assert!(got == d, "bytes differ from what was sent");
}
""")

seed("c02-reset-discards-received", "C02",
 "the peer drops its end (reset) while bytes it sent before are still unread",
 "a reset throws away what was received before it, so the reader sees the end before the data",
 [(C, ON_DATA_RST, ON_DATA_RST + "                while shared.buffer.pop().is_some() {}\n")],
 """
fn main() {
    let mut n = Net::new(Config::default(), Config::default());
    let mut s = n.a.open().unwrap();
    let d = pat(5000, 2);
    put(&mut s, &d);
    n.run();
    let mut r = n.b.inbound.pop().expect("inbound stream");
    drop(s);
    n.run();
    let (got, end) = read_all(&mut r);
    assert!(got == d && end, "read {} of {} bytes, end: {end}", got.len(), d.len());
}
""")

seed("c02-partial-read-then-closed", "C02",
 "a reader that took part of a chunk before the stream was closed on both sides, and then reads with a buffer larger than what is left",
 "the rest of the received data is lost and end-of-stream comes early",
 [(S, """        // Copy data from stream buffer.
        let mut shared = self.shared();
        let mut n = 0;
""", """        // Copy data from stream buffer.
        let mut shared = self.shared();
        if shared.state() == State::Closed && buf.len() > shared.buffer.len() {
            // The last read, no need to keep a chunk that was read before.
            if shared.buffer.front_mut().is_some_and(|c| c.offset() > 0) {
                shared.buffer.pop();
            }
        }
        let mut n = 0;
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    let d = pat(1000, 3);
    e.feed(&data(SYN, 1, &d));
    let mut s = e.inbound.pop().expect("inbound stream");
    let mut b = [0; 100];
    assert!(matches!(read(&mut s, &mut b, &nw()), Poll::Ready(Ok(100))));
    shut(&mut s);
    e.feed(&data(FIN, 1, b""));
    let (got, end) = read_all(&mut s);
    assert!(end && got == d[100..], "{} bytes of 900, end: {end}", got.len());
}
""")

seed("c02-fin-forgotten-on-reply", "C02",
 "a peer that half-closes a stream at once and an acceptor that replies before it reads to the end",
 "acknowledging the stream with the reply forgets the peer's FIN, so the reader never sees the end",
 [(S, "(RecvClosed, Open { .. }) => {}", "(RecvClosed, Open { .. }) => self.state = next,")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&data(SYN | FIN, 1, b"request"));
    let mut s = e.inbound.pop().expect("inbound stream");
    put(&mut s, b"reply");
    e.force();
    assert_eq!(read_all(&mut s), (b"request".to_vec(), true));
}
""")

seed("c03-no-credit-after-close", "C03",
 "an end that has closed its write half and reads more than one window from its peer",
 "no credit is returned any more, so the peer stalls",
 [(S, "        if !self.shared.lock().state.can_read() {",
      "        let state = self.shared.lock().state;\n        if !matches!(state, State::Open { .. }) {")],
 """
fn main() {
    let mut n = Net::new(Config::default(), Config::default());
    let mut s = n.a.open().unwrap();
    put(&mut s, b"x");
    n.run();
    let mut r = n.b.inbound.pop().expect("inbound stream");
    shut(&mut r);
    n.run();
    let (mut w, mut got) = (0, 0);
    for _ in 0..1000 {
        if let Poll::Ready(Ok(k)) = write(&mut s, &vec![1; 16 * 1024], &nw()) {
            w += k;
        }
        n.run();
        got += read_all(&mut r).0.len();
    }
    assert!(w > 4 * KIB256 && got == w + 1, "{w} written, {got} read");
    assert!(r.is_write_closed());
}
""")

seed("c04-reset-by-window-update", "C04",
 "a writer out of credit whose peer resets the stream with a window-update frame",
 "the waiting writer is never told and hangs",
 [(C, ON_WU_RST + WR, ON_WU_RST)],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    let f = Flag::new();
    let mut left = KIB256;
    while left > 0 {
        match write(&mut s, &vec![7; left], &f.waker()) {
            Poll::Ready(Ok(n)) => left -= n,
            Poll::Ready(Err(e)) => panic!("{e}"),
            Poll::Pending => e.force(),
        }
    }
    e.force();
    f.take();
    assert!(write(&mut s, b"more", &f.waker()).is_pending());
    e.feed(&wu(ACK, s.id().val(), 0));
    let _ = f.take();
    assert!(write(&mut s, b"more", &f.waker()).is_pending());
    e.feed(&wu(RST, s.id().val(), 0));
    assert!(f.take(), "the writer is not woken by the reset");
    assert!(matches!(write(&mut s, b"more", &f.waker()), Poll::Ready(Err(_))));
}
""")

seed("c05-opening-credit-lost", "C05",
 "a peer that grants extra credit in the window-update frame that opens a stream",
 "the extra credit is forgotten: a write with credit left waits for ever",
 [(C, "let stream = self.make_new_inbound_stream(stream_id, credit);",
      "let stream = self.make_new_inbound_stream(stream_id, credit.min(DEFAULT_CREDIT));")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&wu(SYN, 1, 1000));
    let mut s = e.inbound.pop().expect("inbound stream");
    let mut n = 0;
    for _ in 0..1000 {
        match write(&mut s, &vec![1; KIB256], &nw()) {
            Poll::Ready(Ok(k)) => n += k,
            Poll::Ready(Err(e)) => panic!("{e}"),
            Poll::Pending => e.force(),
        }
    }
    e.force();
    let sent: usize = e.sent().iter().map(|f| f.body.len()).sum();
    assert_eq!((n, sent), (KIB256 + 1000, KIB256 + 1000));
}
""")

seed("c05-update-beyond-range", "C05",
 "a window update that takes the send window beyond u32::MAX",
 "the update is clamped and accepted instead of refused as a protocol error",
 [(F, """            .checked_add(i)
            .ok_or(ConnectionError::InvalidWindowUpdate)?;""", "            .saturating_add(i);")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&data(SYN, 1, b"x"));
    let _s = e.inbound.pop().expect("inbound stream");
    e.sent();
    e.feed(&wu(0, 1, u32::MAX - KIB256 as u32));
    assert!(e.sent().is_empty(), "credit up to the limit is fine");
    e.feed(&wu(0, 1, 1));
    let f = e.sent();
    assert!(f.iter().any(|f| f.ty == GOAWAY && f.len == 1), "no protocol error: {f:?}");
}
""")

seed("c06-half-closed-unchecked", "C06",
 "a peer that overruns the window of a stream whose local end has closed its write half",
 "data beyond the granted window is accepted and buffered on half-closed streams",
 [(C, """            if let Err(_err) = shared.consume_receive_window(frame.body_len()) {
                log::error!(
                    "{}/{}: frame body larger""", """            // Whoever closed its end does not grant further credit.
            let half_closed = shared.state() == State::SendClosed;
            let overrun = shared.consume_receive_window(frame.body_len()).is_err();
            if overrun && !half_closed {
                log::error!(
                    "{}/{}: frame body larger""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&data(SYN, 1, &vec![1; KIB256]));
    let mut s = e.inbound.pop().expect("inbound stream");
    shut(&mut s);
    e.force();
    e.sent();
    e.feed(&data(0, 1, b"!"));
    let f = e.sent();
    assert!(f.iter().any(|f| f.ty == GOAWAY && f.len == 1), "no protocol error: {f:?}");
}
""")

seed("c06-credit-counts-unread", "C06",
 "a window update sent while a part of the received data is still unread, followed by a peer that uses more than the update granted",
 "the internal window is restored in full although less was granted, so surplus data is accepted",
 [(F, "        self.receive_window += next_window_update;", "        self.receive_window = self.max_receive_window;")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&data(SYN, 1, &vec![1; 200 * 1024]));
    let mut s = e.inbound.pop().expect("inbound stream");
    e.feed(&data(0, 1, &vec![1; 56 * 1024]));
    let mut b = vec![0; 200 * 1024];
    assert!(matches!(read(&mut s, &mut b, &nw()), Poll::Ready(Ok(n)) if n == b.len()));
    let mut one = [0; 1];
    assert!(matches!(read(&mut s, &mut one, &nw()), Poll::Ready(Ok(1))));
    e.force();
    let credit: u32 = e.sent().iter().filter(|f| f.ty == WU).map(|f| f.len).sum();
    assert!(credit >= 128 * 1024 && credit < KIB256 as u32, "credit {credit}");
    e.feed(&data(0, 1, &vec![2; credit as usize]));
    assert!(e.sent().iter().all(|f| f.ty != GOAWAY), "refused granted data");
    e.feed(&data(0, 1, b"!"));
    let f = e.sent();
    assert!(f.iter().any(|f| f.ty == GOAWAY && f.len == 1), "surplus accepted: {f:?}");
}
""")

RTT = """
/// Answer the probe so that a round trip of about `ms` is measured.
fn rtt(e: &mut Ep, ms: u64) {
    e.drive();
    let p = e.sent_all().into_iter().find(|f| f.ty == PING && !f.has(ACK)).expect("probe");
    std::thread::sleep(Duration::from_millis(ms));
    e.feed(&ping(ACK, p.len));
}
/// Send `n` bytes on the stream, read them, return the credit that comes back.
fn use_up(e: &mut Ep, s: &mut Stream, id: u32, n: usize) -> usize {
    let mut left = n;
    while left > 0 {
        let k = left.min(KIB256);
        e.feed(&data(0, id, &vec![5; k]));
        left -= k;
    }
    assert_eq!(read_all(s).0.len(), n);
    let _ = read(s, &mut [0], &nw());
    e.force();
    e.sent().iter().filter(|f| f.ty == WU && f.id == id).map(|f| f.len as usize).sum()
}
"""

seed("c07-growth-not-returned", "C07",
 "a stream whose window has grown more than twofold being dropped while another one wants to grow up to the connection limit",
 "the growth beyond one doubling is not returned to the connection, later streams cannot grow",
 [(F, "        *accumulated_max_stream_windows -= (self.max_receive_window - DEFAULT_CREDIT) as usize;",
      "        *accumulated_max_stream_windows -=\n            (self.max_receive_window.min(2 * DEFAULT_CREDIT) - DEFAULT_CREDIT) as usize;")],
 RTT + """
fn grow(e: &mut Ep, id: u32) -> usize {
    e.feed(&wu(SYN, id, 0));
    let mut s = e.inbound.pop().expect("inbound stream");
    let mut w = KIB256;
    for _ in 0..3 {
        let c = use_up(e, &mut s, id, w);
        w = c;
    }
    drop(s);
    e.force();
    w
}
fn main() {
    let mut c = Config::default();
    c.set_max_num_streams(2);
    c.set_max_connection_receive_window(Some(5 * KIB256));
    let mut e = Ep::new(c, Mode::Server);
    rtt(&mut e, 1500);
    let a = grow(&mut e, 1);
    let b = grow(&mut e, 3);
    assert_eq!((a, b), (4 * KIB256, 4 * KIB256), "windows of two streams, one after the other");
}
""")

seed("c08-update-time-without-rtt", "C08",
 "a window update sent before the first round-trip time is measured and another one shortly after it",
 "the time of the first update is not recorded, so the window does not grow although the previous update was less than two round-trips ago",
 [(F, "        self.last_window_update = Instant::now();\n        self.receive_window +=",
      "        if self.rtt.get().is_some() {\n            self.last_window_update = Instant::now();\n        }\n        self.receive_window +=")],
 RTT + """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.drive();
    let p = e.sent_all().into_iter().find(|f| f.ty == PING && !f.has(ACK)).expect("probe");
    e.feed(&wu(SYN, 1, 0));
    let mut s = e.inbound.pop().expect("inbound stream");
    std::thread::sleep(Duration::from_millis(1000));
    assert_eq!(use_up(&mut e, &mut s, 1, KIB256), KIB256, "no growth before an RTT is known");
    e.feed(&ping(ACK, p.len)); // about 1 s
    std::thread::sleep(Duration::from_millis(1300));
    // 1.3 s since the update, 2.3 s since the stream was opened.
    assert_eq!(use_up(&mut e, &mut s, 1, KIB256 / 2), KIB256 / 2 + KIB256, "the window doubles");
}
""")

seed("c08-credit-once-empty", "C08",
 "a reader of packets that has read half of the window while more packets wait",
 "the credit is only returned once everything received is read",
 [(S, """        // Continue reading buffered data even if sending a window update blocked.
        let _ = self.send_window_update(cx);

        let mut shared = self.shared();

        if let Some(bytes) = shared.buffer.pop() {""",
      """        if self.shared().buffer.len() == 0 {
            // Everything is read, continue even if sending a window update blocked.
            let _ = self.send_window_update(cx);
        }

        let mut shared = self.shared();

        if let Some(bytes) = shared.buffer.pop() {""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&wu(SYN, 1, 0));
    let mut s = e.inbound.pop().expect("inbound stream");
    e.sent();
    for _ in 0..25 {
        e.feed(&data(0, 1, &[1; 10 * 1024]));
    }
    for _ in 0..16 {
        assert!(matches!(packet(&mut s, &nw()), Poll::Ready(Some(Ok(p))) if p.as_ref().len() == 10 * 1024));
        e.force();
    }
    let c: u32 = e.sent().iter().filter(|f| f.ty == WU).map(|f| f.len).sum();
    assert!(c >= 130 * 1024, "160 of 250 KiB are read, credit returned: {c}");
}
""")

seed("c09-no-flush", "C09",
 "a transport that holds back what is written until it is flushed",
 "the connection waits without having flushed, so both ends wait for ever",
 [(C, """            match self.socket.poll_flush_unpin(cx)? {
                Poll::Ready(()) => {}
                Poll::Pending => {}
            }

            if self.pending_write_frame.is_none() {
""", """            if self.pending_write_frame.is_none() && self.streams.is_empty() {
                // Nothing more to come, pass on what is buffered.
                let _ = self.socket.poll_flush_unpin(cx)?;
            }

            if self.pending_write_frame.is_none() {
""")],
 """
fn main() {
    let mut n = Net::new(Config::default(), Config::default());
    n.a.io.0.lock().unwrap().buffered = true;
    n.b.io.0.lock().unwrap().buffered = true;
    let mut s = n.a.open().unwrap();
    put(&mut s, b"hello");
    n.run();
    let mut r = n.b.inbound.pop().expect("the stream never arrives");
    assert_eq!(read_all(&mut r).0, b"hello");
    put(&mut r, b"world");
    n.run();
    assert_eq!(read_all(&mut s).0, b"world");
}
""")

seed("c09-credit-with-fin", "C09",
 "a writer out of credit whose peer returns credit in a window update that also carries its FIN",
 "the waiting writer is not woken although it has credit",
 [(C, """            if let Some(w) = shared.writer.take() {
                w.wake()
            }
        } else {
            log::trace!(
                "{}/{}: window update""", """            if shared.state().can_read() {
                if let Some(w) = shared.writer.take() {
                    w.wake()
                }
            }
        } else {
            log::trace!(
                "{}/{}: window update""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    let f = Flag::new();
    let mut left = KIB256;
    while left > 0 {
        match write(&mut s, &vec![7; left], &f.waker()) {
            Poll::Ready(Ok(n)) => left -= n,
            Poll::Ready(Err(e)) => panic!("{e}"),
            Poll::Pending => e.force(),
        }
    }
    e.force();
    assert!(write(&mut s, b"more", &f.waker()).is_pending());
    e.force();
    let _ = f.take();
    assert!(write(&mut s, b"more", &f.waker()).is_pending());
    e.feed(&wu(ACK | FIN, s.id().val(), 100));
    assert!(f.take(), "credit has arrived, the writer is not woken");
    assert!(matches!(write(&mut s, b"more", &f.waker()), Poll::Ready(Ok(4))));
}
""")

seed("c10-stale-state-in-read", "C10",
 "a reader on another thread polling at the very moment the connection processes the peer's FIN",
 "the state is looked at in an earlier critical section than the buffer, so the reader goes to sleep after the wake-up it waits for",
 [(S, """        // Copy data from stream buffer.
        let mut shared = self.shared();
        let mut n = 0;
""", """        let can_read = self.shared().state().can_read();

        // Copy data from stream buffer.
        let mut shared = self.shared();
        let mut n = 0;
"""), (S, """            log::trace!("{}/{}: read {} bytes", self.conn, self.id, n);
            return Poll::Ready(Ok(n));
        }

        // Buffer is empty, let's check if we can expect to read more data.
        if !shared.state().can_read() {
""", """            log::trace!("{}/{}: read {} bytes", self.conn, self.id, n);
            return Poll::Ready(Ok(n));
        }

        // Buffer is empty, let's check if we can expect to read more data.
        if !can_read {
""")],
 """
/// One thread reads, the other one processes the FIN at some moment.
fn round(e: &mut Ep, id: u32, spin: u32) -> bool {
    e.feed(&wu(SYN, id, 0));
    let mut s = e.inbound.pop().expect("inbound stream");
    let done = Arc::new(AtomicBool::new(false));
    let go = Arc::new(AtomicBool::new(false));
    let (d, g) = (done.clone(), go.clone());
    let t = std::thread::spawn(move || {
        let mut b = [0; 16];
        g.store(true, Ordering::SeqCst);
        loop {
            let f = Flag::new();
            match read(&mut s, &mut b, &f.waker()) {
                Poll::Ready(Ok(0)) => return true,
                Poll::Ready(r) => panic!("{r:?}"),
                Poll::Pending => {
                    for _ in 0..20 {
                        if f.take() {
                            break;
                        }
                        if d.load(Ordering::SeqCst) {
                            // The FIN has been processed: either we see it or we were woken.
                            return f.take();
                        }
                        std::hint::spin_loop();
                    }
                }
            }
        }
    });
    while !go.load(Ordering::SeqCst) {
        std::hint::spin_loop()
    }
    for _ in 0..spin {
        std::hint::spin_loop()
    }
    e.feed(&data(FIN, id, b""));
    done.store(true, Ordering::SeqCst);
    let ok = t.join().expect("reader");
    e.force();
    e.sent();
    ok
}
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    let t = Instant::now();
    let mut i = 0;
    while t.elapsed() < Duration::from_secs(60) && i < 300_000 {
        assert!(round(&mut e, 2 * i + 1, i % 257), "round {i}: the reader is left waiting");
        i += 1;
    }
    eprintln!("{i} rounds");
}
""")

seed("c11-queue-without-bound", "C11",
 "an application that keeps writing small pieces on an outbound stream while the transport is stalled",
 "thousands of frames are queued per stream instead of a small fixed number",
 [(C, """mpsc::channel(10); // 10 is an arbitrary number.
        self.stream_receivers.push(TaggedStream::new(id, receiver));
        if let Some(waker) = self.new_receiver_waker.take() {
            waker.wake();
        }

        Stream::new_outbound""", """mpsc::channel(self.config.max_num_streams * 10);
        self.stream_receivers.push(TaggedStream::new(id, receiver));
        if let Some(waker) = self.new_receiver_waker.take() {
            waker.wake();
        }

        Stream::new_outbound""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.io.room(Some(0));
    e.drive();
    let mut s = e.open().unwrap();
    let mut n = 0;
    while n < 2000 {
        e.force();
        match write(&mut s, b"x", &nw()) {
            Poll::Ready(Ok(1)) => n += 1,
            Poll::Pending => break,
            r => panic!("{r:?}"),
        }
    }
    assert!(n < 64, "{n} frames accepted while nothing is sent");
}
""")

seed("c12-id-reused-after-drop", "C12",
 "an outbound stream that is dropped before the peer acknowledged it, with no other opened meanwhile, and opening another one",
 "the id of the dropped stream is handed out again although its frames are on the wire",
 [(C, """        log::trace!("{}: removing dropped stream {}", self.id, stream_id);
""", """        log::trace!("{}: removing dropped stream {}", self.id, stream_id);
        if self.next_id == stream_id.val().wrapping_add(2) && s.lock().is_pending_ack() {
            // Never used by the remote.
            self.next_id = stream_id.val();
        }
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut last = 0;
    for i in 0..10 {
        let mut s = e.open().unwrap();
        let id = s.id().val();
        assert!(id > last && id % 2 == 1, "id {id} after {last}");
        last = id;
        if i % 3 != 0 {
            put(&mut s, b"x");
        }
        e.force();
        drop(s);
        e.force();
    }
}
""")

seed("c13-largest-opening-body", "C13",
 "a peer whose opening frame carries exactly the initial window, 256 KiB",
 "the valid opening frame is refused with a protocol error",
 [(C, "            if frame.body().len() > DEFAULT_CREDIT as usize {", "            if frame.body().len() >= DEFAULT_CREDIT as usize {")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    let d = pat(KIB256, 9);
    e.feed(&data(SYN, 1, &d));
    assert!(e.sent().iter().all(|f| f.ty != GOAWAY), "refused");
    let mut s = e.inbound.pop().expect("no stream");
    assert!(read_all(&mut s).0 == d);
}
""")

seed("c13-id-in-use-when-closed", "C13",
 "a peer that opens a stream with the id of one that is closed on both sides but still held by the application",
 "a second stream replaces the first one instead of a protocol error",
 [(C, """            if self.streams.contains_key(&stream_id) {
                log::error!("{}/{}: stream already exists", self.id, stream_id);
                return Action::Terminate(Frame::protocol_error());
            }
            if self.streams.len() == self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::protocol_error());
""", """            let in_use = |s: &Arc<Mutex<stream::Shared>>| s.lock().state() != State::Closed;
            if self.streams.get(&stream_id).is_some_and(in_use) {
                log::error!("{}/{}: stream already exists", self.id, stream_id);
                return Action::Terminate(Frame::protocol_error());
            }
            if self.streams.len() == self.config.max_num_streams {
                log::error!("{}: maximum number of streams reached", self.id);
                return Action::Terminate(Frame::protocol_error());
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&data(SYN | FIN, 1, b"one"));
    let mut s = e.inbound.pop().expect("inbound stream");
    shut(&mut s);
    e.force();
    e.sent();
    e.feed(&wu(SYN, 1, 0));
    assert!(e.inbound.is_empty(), "a second stream with the id of a live one");
    assert!(e.sent().iter().any(|f| f.ty == GOAWAY && f.len == 1), "no protocol error");
    assert_eq!(read_all(&mut s).0, b"one");
}
""")

seed("c14-closed-streams-not-counted", "C14",
 "opening a stream at the limit while some of the live ones are closed but still held",
 "closed streams are not counted, so more streams than configured are live",
 [(C, "        if self.streams.len() >= self.config.max_num_streams {",
      "        let open = |s: &&Arc<Mutex<stream::Shared>>| s.lock().state() != State::Closed;\n        if self.streams.values().filter(open).count() >= self.config.max_num_streams {")],
 """
fn main() {
    let mut c = Config::default();
    c.set_max_num_streams(3);
    let mut e = Ep::new(c, Mode::Client);
    e.drive();
    let mut held = vec![];
    for _ in 0..3 {
        let mut s = e.open().unwrap();
        put(&mut s, b"x");
        held.push(s);
    }
    e.force();
    e.feed(&data(RST, held[1].id().val(), b""));
    assert!(held[1].is_closed());
    match e.open() {
        Err(ConnectionError::TooManyStreams) => {}
        r => panic!("a fourth stream: {r:?}"),
    }
    held.remove(0);
    e.force();
    assert!(e.open().is_ok(), "a dropped stream frees its slot");
}
""")

seed("c15-inbound-counted", "C15",
 "an endpoint that holds many inbound streams it has not acknowledged yet and opens streams itself",
 "inbound streams count towards the ACK backlog, so opening waits although few of the endpoint's own streams are unacknowledged",
 [(C, """            .filter(|(id, _)| match self.mode {
                Mode::Client => id.is_client(),
                Mode::Server => id.is_server(),
            })
""", "")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    for i in 0..200 {
        e.feed(&wu(SYN, 2 * i + 1, 0));
    }
    assert_eq!(e.inbound.len(), 200);
    let held: Vec<Stream> = (0..256).map(|_| e.open().expect("open")).collect();
    assert_eq!(held.len(), 256);
}
""")

seed("c15-finished-counted", "C15",
 "256 streams which the peer has acknowledged and half-closed",
 "half-closed streams keep counting as unacknowledged, so the next open waits for ever",
 [(C, "            .filter(|(_, s)| s.lock().is_pending_ack())",
      "            .filter(|(_, s)| {\n                let s = s.lock();\n                s.is_pending_ack() || s.state() == State::RecvClosed\n            })")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut held = vec![];
    for _ in 0..256 {
        let mut s = e.open().unwrap();
        put(&mut s, b"x");
        held.push(s);
    }
    e.force();
    for s in &held {
        e.feed(&data(ACK | FIN, s.id().val(), b"bye"));
    }
    assert!(held.iter().all(|s| !s.is_pending_ack()));
    held.push(e.open().expect("open"));
}
""")

seed("c17-probe-inside-a-frame", "C17",
 "a transport that takes a frame only in part while several replies are queued and a round-trip probe is due",
 "the probe replaces the unsent rest of the frame, so the peer finds garbage",
 [(C, "            if self.socket.poll_ready_unpin(cx)?.is_ready() {\n                // Note",
      """            let ready = self.socket.poll_ready_unpin(cx)?.is_ready();
            if !ready && self.pending_read_frames.len() > 1 {
                // Don't let a due probe wait behind the replies.
                if let Some(frame) = self.rtt.next_ping() {
                    self.socket.start_send_unpin(frame.into())?;
                    continue;
                }
            }
            if ready {
                // Note""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.drive();
    let p = e.sent_all().remove(0);
    assert!(p.ty == PING);
    e.feed(&ping(ACK, p.len));
    e.feed(&wu(SYN, 1, 0));
    let mut s = e.inbound.pop().expect("inbound stream");
    e.io.room(Some(500));
    put(&mut s, &pat(2000, 4));
    e.force();
    for i in 0..3 {
        e.feed(&ping(0, 100 + i));
    }
    std::thread::sleep(Duration::from_millis(10_100));
    e.force();
    e.io.room(None);
    e.drive();
    let f = e.sent();
    let body: Vec<u8> = f.iter().filter(|f| f.ty == DATA).flat_map(|f| f.body.clone()).collect();
    assert!(body == pat(2000, 4) && e.rx.is_empty(), "{} bytes, {} left", body.len(), e.rx.len());
    let a: Vec<u32> = f.iter().filter(|f| f.ty == PING).map(|f| f.len).collect();
    assert_eq!(a, [100, 101, 102]);
}
""")

seed("c17-first-frame-not-split", "C17",
 "a first write on a stream that is larger than the configured split size",
 "the frame that carries SYN or ACK is not split",
 [(S, "            let k = std::cmp::min(k, self.config.split_send_size);",
      "            let k = match self.flag {\n                Flag::None => std::cmp::min(k, self.config.split_send_size),\n                _ => k, // The first frame, open the stream with all there is.\n            };")],
 """
fn main() {
    let mut c = Config::default();
    c.set_split_send_size(1000);
    let mut e = Ep::new(c, Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    for _ in 0..3 {
        assert!(matches!(write(&mut s, &pat(5000, 1), &nw()), Poll::Ready(Ok(_))));
    }
    e.force();
    for f in e.sent() {
        assert!(f.body.len() <= 1000, "a body of {} bytes", f.body.len());
    }
}
""")

seed("c18-header-in-two-parts", "C18",
 "a transport that delivers all but the last byte of a frame header and the rest later",
 "a byte of the header is read twice, the stream of frames is misread from there on",
 [(I, """                    let buf = &mut buffer[*offset..header::HEADER_SIZE];
                    match ready!(Pin::new(&mut this.io).poll_read(cx, buf))? {
""", """                    let buf = &mut buffer[*offset..header::HEADER_SIZE];
                    let read = Pin::new(&mut this.io).poll_read(cx, buf);
                    if read.is_pending() && *offset + 1 == header::HEADER_SIZE {
                        // Read the tail of the header in one go.
                        *offset -= 1;
                    }
                    match ready!(read)? {
""")],
 """
fn main() {
    for cut in 1..17 {
        let mut e = Ep::new(Config::default(), Mode::Server);
        e.drive();
        e.sent_all();
        let d = data(SYN, 1, b"hello");
        e.feed(&d[..cut]);
        e.feed(&d[cut..]);
        e.feed(&ping(0, 77));
        let mut s = e.inbound.pop().unwrap_or_else(|| panic!("cut {cut}: no stream"));
        assert_eq!(read_all(&mut s).0, b"hello", "cut {cut}");
        let f = e.sent();
        assert!(f.len() == 1 && f[0].has(ACK) && f[0].len == 77, "cut {cut}: {f:?}");
    }
}
""")

seed("c18-allocation-before-check", "C18",
 "a frame header that announces a body of gigabytes",
 "memory for the announced body is reserved before the length is checked",
 [(I, """                        let body_len = header.len().val() as usize;

                        if body_len > MAX_FRAME_BODY_LEN {""", """                        let body_len = header.len().val() as usize;
                        let mut body = Vec::with_capacity(body_len);

                        if body_len > MAX_FRAME_BODY_LEN {"""),
  (I, "                            buffer: vec![0; body_len],", "                            buffer: {\n                                body.resize(body_len, 0);\n                                body\n                            },")],
 """
use std::alloc::{GlobalAlloc, Layout, System};
struct A;
static BIG: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BIG.fetch_max(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&hdr(DATA, SYN, 1, 1 << 30));
    assert!(matches!(e.end, End::Failed(_)), "{:?}", e.end);
    let n = BIG.load(Ordering::SeqCst);
    assert!(n < 16 << 20, "{n} bytes allocated at once");
}
""")

seed("c19-equal-pings-answered-once", "C19",
 "a peer that sends two pings with the same value before the first one is answered",
 "only one acknowledgement is sent for the two",
 [(C, """                            Action::Ping(f) => {
                                log::trace!("{}/{}: pong", self.id, f.header().stream_id());
                                self.pending_read_frames.push_back(f.into());
""", """                            Action::Ping(f) => {
                                log::trace!("{}/{}: pong", self.id, f.header().stream_id());
                                let f: Frame<()> = f.into();
                                let same = |p: &Frame<()>| {
                                    p.header().tag() == Tag::Ping
                                        && p.header().len() == f.header().len()
                                };
                                if self.pending_read_frames.back().is_some_and(same) {
                                    continue; // Already to be answered.
                                }
                                self.pending_read_frames.push_back(f);
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.drive();
    e.sent_all();
    e.io.room(Some(0));
    e.feed(&ping(0, 1));
    e.feed(&ping(0, 5));
    e.feed(&ping(0, 5));
    e.feed(&ping(0, 5));
    e.io.room(None);
    e.drive();
    let a: Vec<u32> = e.sent().iter().filter(|f| f.ty == PING && f.has(ACK)).map(|f| f.len).collect();
    assert_eq!(a, [1, 5, 5, 5]);
}
""")

seed("c19-interval-from-sending", "C19",
 "a probe whose answer takes seconds to arrive",
 "the ten seconds to the next probe are counted from sending the last one instead of from its answer",
 [(R, "            next: Instant::now() + PING_INTERVAL,", "            next: sent_at + PING_INTERVAL,")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let p = e.sent_all().remove(0);
    assert!(p.ty == PING && p.has(SYN));
    std::thread::sleep(Duration::from_secs(6));
    e.feed(&ping(ACK, p.len));
    std::thread::sleep(Duration::from_secs(5));
    e.force();
    let f = e.sent_all();
    assert!(f.is_empty(), "a probe 5 s after the last answer: {f:?}");
    std::thread::sleep(Duration::from_millis(5500));
    e.force();
    assert_eq!(e.sent_all().len(), 1, "no probe after 10 s");
}
""")

seed("c20-close-forgets-current-frame", "C20",
 "closing the connection while a frame taken from a stream waits for the transport",
 "the frame that waits is dropped, so accepted data is lost",
 [(C, "            .chain(self.pending_write_frame)\n", "            .chain(self.pending_write_frame.filter(|f| f.header().len().val() == 0))\n")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    e.io.room(Some(5));
    for i in 0..4 {
        put(&mut s, &[i; 10]);
        e.force();
    }
    assert!(e.close().is_pending());
    e.io.room(None);
    assert!(matches!(e.close(), Poll::Ready(Ok(()))));
    let f = e.sent();
    let body: Vec<u8> = f.iter().flat_map(|f| f.body.clone()).collect();
    let want: Vec<u8> = (0..4).flat_map(|i| [i; 10]).collect();
    assert_eq!(body, want);
    assert!(f.last().is_some_and(|f| f.ty == GOAWAY && f.len == 0));
}
""")

seed("c20-close-cut-short", "C20",
 "closing a connection with many streams that have queued frames, some of which were dropped",
 "draining the streams stops at the first dropped one once several frames are collected, the others' frames are lost",
 [(CL, "                        Poll::Ready(Some((_, None))) => {}",
       """                        Poll::Ready(Some((_, None))) if this.pending_frames.len() < 6 => {}
                        Poll::Ready(Some((_, None))) => {
                            // A stream has ended, send what we have.
                            this.pending_frames.push_back(Frame::term().into());
                            this.state = State::FlushingPendingFrames;
                        }""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut held: Vec<Stream> = (0..12).map(|_| e.open().unwrap()).collect();
    e.force();
    e.sent();
    for (i, s) in held.iter_mut().enumerate() {
        if i % 3 != 2 {
            put(s, b"one");
            put(s, b"two");
        }
    }
    let mut i = 0;
    held.retain(|_| {
        i += 1;
        i % 3 != 0
    });
    assert!(matches!(e.close(), Poll::Ready(Ok(()))));
    let f = e.sent();
    let body: usize = f.iter().map(|f| f.body.len()).sum();
    assert_eq!(body, 8 * 6, "{f:?}");
    assert_eq!(f.iter().filter(|f| f.ty == GOAWAY).count(), 1);
}
""")

seed("c21-connection-reset-is-clean", "C21",
 "a transport whose read fails because the peer reset the connection",
 "the failure is reported as a clean end",
 [(C, "                        match self.on_frame(frame?)? {",
      """                        let frame = frame.map_err(|e| match e {
                            crate::FrameDecodeError::Io(e)
                                if e.kind() == std::io::ErrorKind::ConnectionReset =>
                            {
                                ConnectionError::Closed
                            }
                            e => e.into(),
                        });
                        match self.on_frame(frame?)? {""")],
 """
fn main() {
    for k in [io::ErrorKind::ConnectionReset, io::ErrorKind::Other] {
        let mut e = Ep::new(Config::default(), Mode::Server);
        e.feed(&data(SYN, 1, b"abc"));
        let mut s = e.inbound.pop().expect("inbound stream");
        e.io.fail_read(k);
        e.drive();
        assert!(matches!(e.end, End::Failed(_)), "{k:?}: {:?}", e.end);
        assert_eq!(read_all(&mut s), (b"abc".to_vec(), true));
    }
}
""")

seed("c21-flush-error-ignored", "C21",
 "a transport whose flush fails",
 "the failure is ignored, the connection goes on and nobody is told",
 [(C, """            match self.socket.poll_flush_unpin(cx)? {
                Poll::Ready(()) => {}
                Poll::Pending => {}
            }

            if""", """            if let Poll::Ready(Err(e)) = self.socket.poll_flush_unpin(cx) {
                log::debug!("{}: flush failed: {e}", self.id);
            }

            if""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&data(SYN, 1, b"abc"));
    let mut s = e.inbound.pop().expect("inbound stream");
    e.io.0.lock().unwrap().flush_err = Some(io::ErrorKind::BrokenPipe);
    put(&mut s, b"reply");
    e.force();
    assert!(matches!(e.end, End::Failed(_)), "{:?}", e.end);
    assert!(matches!(write(&mut s, b"x", &nw()), Poll::Ready(Err(_))));
}
""")

seed("c22-ping-for-dropped-stream", "C22",
 "a ping scoped to an id the endpoint once used but whose stream is gone",
 "the ping is answered instead of ignored",
 [(C, "if stream_id == CONNECTION_ID || self.streams.contains_key(&stream_id) {",
      "if stream_id == CONNECTION_ID || stream_id.val() < self.next_id {")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    put(&mut s, b"x");
    e.force();
    drop(s);
    e.force();
    e.sent();
    e.feed(&hdr(PING, SYN, 1, 9));
    let f = e.sent();
    assert!(f.is_empty(), "{f:?}");
    e.feed(&ping(SYN, 10));
    assert_eq!(e.sent().len(), 1);
}
""")

seed("c22-large-data-for-dropped-stream", "C22",
 "data larger than 256 KiB in flight on a stream with a grown window that is dropped",
 "the frame ends the connection with a protocol error instead of being ignored",
 [(C, """        } else {
            log::trace!(
                "{}/{}: data frame for unknown stream""", """        } else if frame.body().len() > DEFAULT_CREDIT as usize {
            return Action::Terminate(Frame::protocol_error());
        } else {
            log::trace!(
                "{}/{}: data frame for unknown stream""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&data(SYN, 1, b"x"));
    drop(e.inbound.pop().expect("inbound stream"));
    e.force();
    e.sent();
    for n in [1, KIB256, KIB256 + 1, 600 * 1024] {
        e.feed(&data(0, 1, &vec![0; n]));
        let f = e.sent();
        assert!(f.is_empty(), "{n} bytes: {f:?}");
    }
}
""")

seed("c23-small-stream-counts-unchecked", "C23",
 "a window limit below 256 KiB per stream combined with fewer than four streams, set in this order",
 "the invalid configuration is accepted",
 [(L, """    pub fn set_max_num_streams(&mut self, n: usize) -> &mut Self {
        self.max_num_streams = n;
""", """    pub fn set_max_num_streams(&mut self, n: usize) -> &mut Self {
        if n < 4 && n <= self.max_num_streams {
            // Fewer streams never need more.
            self.max_num_streams = n;
            return self;
        }
        self.max_num_streams = n;
"""), (L, """        self.max_connection_receive_window = n;

        assert!(
            self.each_stream_gets_default_credit(),""", """        self.max_connection_receive_window = n;

        assert!(
            self.max_num_streams <= 1 || self.each_stream_gets_default_credit(),""")],
 """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let ok = |w: Option<usize>, n: usize| w.map_or(true, |w| w >= n * KIB256);
    let mut bad = vec![];
    for n in 0..6 {
        for w in [None, Some(0), Some(1), Some(KIB256 - 1), Some(KIB256), Some(2 * KIB256 - 1), Some(2 * KIB256), Some(4 * KIB256)] {
            let acc = std::panic::catch_unwind(|| {
                let mut c = Config::default();
                c.set_max_num_streams(n);
                c.set_max_connection_receive_window(w);
            })
            .is_ok();
            if acc != ok(w, n) {
                bad.push((n, w, acc));
            }
        }
    }
    if !bad.is_empty() {
        eprintln!("wrongly judged: {bad:?}");
        std::process::exit(1);
    }
}
""")

seed("c24-shared-state-kept", "C24",
 "many streams opened, used and dropped over the life of one connection",
 "the state of every stream that was dropped without a peer's FIN stays allocated",
 [(C, """        let s = self.streams.remove(&stream_id).expect("stream not found");
""", """        let s = self.streams.remove(&stream_id).expect("stream not found");
        if s.lock().state() == State::SendClosed {
            // Frames of the remote may be under way.
            std::mem::forget(s.clone());
        }
""")],
 """
use std::alloc::{GlobalAlloc, Layout, System};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn round(e: &mut Ep) {
    for _ in 0..1000 {
        let mut s = e.open().unwrap();
        put(&mut s, b"x");
        shut(&mut s);
        e.force();
        drop(s);
        e.force();
        drop(e.sent());
    }
}
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    round(&mut e);
    let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..5 {
        round(&mut e);
    }
    let b = LIVE.load(Ordering::SeqCst);
    assert!(b < a + 40_000, "{} bytes more after 5000 streams", b as isize - a as isize);
}
""")

seed("c25-replies-wait-for-data", "C25",
 "streams kept full of frames over a transport slower than they are, and a ping from the peer",
 "the answer waits for as long as any stream has frames queued",
 [(C, """                if let Some(frame) = self
                    .pending_read_frames
                    .pop_front()
                    .or_else(|| self.pending_write_frame.take())
                {""", """                if let Some(frame) = self
                    .pending_write_frame
                    .take()
                    .or_else(|| self.pending_read_frames.pop_front())
                {""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    put(&mut s, b"hello");
    e.force();
    drop(e.sent());
    e.feed(&wu(ACK, 1, 1 << 24));
    e.io.room(Some(0));
    let (mut before, mut answered) = (0, false);
    for k in 0..200 {
        while write(&mut s, &[k as u8; 100], &nw()).is_ready() {}
        e.force();
        if k == 20 {
            e.feed(&ping(SYN, 77));
        }
        e.io.room(Some(60));
        e.force();
        for f in e.sent() {
            if f.ty == PING {
                assert!(f.has(ACK) && f.len == 77);
                answered = true;
            } else if k >= 20 && !answered {
                before += 1;
            }
        }
    }
    assert!(answered && before < 32, "answered: {answered}, after {before} frames");
}
""")

seed("c25-probe-when-nothing-waits", "C25",
 "a stream kept full of frames over a transport slower than it is, at the time a round-trip probe is due",
 "no probe is sent while frames of streams are waiting, so a connection that is busy never measures its round-trip time",
 [(C, """                if let Some(frame) = self.rtt.next_ping() {
                    self.socket.start_send_unpin(frame.into())?;
                    continue;
                }
""", """                if self.pending_write_frame.is_none() {
                    if let Some(frame) = self.rtt.next_ping() {
                        self.socket.start_send_unpin(frame.into())?;
                        continue;
                    }
                }
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let p = e.sent_all().remove(0);
    assert!(p.ty == PING && p.has(SYN));
    e.feed(&ping(ACK, p.len));
    let mut s = e.open().unwrap();
    put(&mut s, b"hello");
    e.force();
    drop(e.sent_all());
    e.feed(&wu(ACK, 1, 1 << 24));
    e.io.room(Some(0));
    while write(&mut s, &[7; 100], &nw()).is_ready() {}
    e.force();
    std::thread::sleep(Duration::from_millis(10_500));
    let (mut before, mut probed) = (0, false);
    for k in 0..200 {
        while write(&mut s, &[k as u8; 100], &nw()).is_ready() {}
        e.force();
        e.io.room(Some(60));
        e.force();
        for f in e.sent_all() {
            if f.ty == PING {
                probed = true;
            } else if !probed {
                before += 1;
            }
        }
    }
    assert!(probed && before < 32, "probed: {probed}, after {before} frames");
}
""")

seed("c25-read-before-write", "C25",
 "a long burst of inbound frames while accepted frames wait to be sent",
 "nothing is sent until everything that has arrived is read",
 [(C, """        loop {
            if self.socket.poll_ready_unpin(cx)?.is_ready() {
                // Note""", """        let mut reading = true;
        loop {
            if !reading && self.socket.poll_ready_unpin(cx)?.is_ready() {
                // Note"""),
  (C, """                                self.pending_read_frames.push_back(f.into());
                            }
                        }
                        continue;
                    }
                    Poll::Ready(None) => {
                        return Poll::Ready(Err(ConnectionError::Closed));
                    }
                    Poll::Pending => {}
                }
            }
""", """                                self.pending_read_frames.push_back(f.into());
                            }
                        }
                        // Handle what has arrived in one go.
                        reading = self.pending_read_frames.is_empty();
                        continue;
                    }
                    Poll::Ready(None) => {
                        return Poll::Ready(Err(ConnectionError::Closed));
                    }
                    Poll::Pending => {}
                }
            }
            if reading {
                reading = false;
                continue;
            }
""")],
 """
/// Counts what is read before the first write.
struct Tap(Io, Arc<AtomicUsize>, Arc<AtomicUsize>);
impl AsyncRead for Tap {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let r = Pin::new(&mut self.0).poll_read(cx, buf);
        if let Poll::Ready(Ok(n)) = &r {
            self.1.fetch_add(*n, Ordering::SeqCst);
        }
        r
    }
}
impl AsyncWrite for Tap {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.2.fetch_max(self.1.swap(0, Ordering::SeqCst), Ordering::SeqCst);
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
}
fn main() {
    let (io, now, max) = (Io::new(), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let mut c = Connection::new(Tap(io.clone(), now.clone(), max.clone()), Config::default(), Mode::Client);
    let mut cx = Context::from_waker(futures::task::noop_waker_ref());
    assert!(c.poll_next_inbound(&mut cx).is_pending());
    let Poll::Ready(Ok(mut s)) = c.poll_new_outbound(&mut cx) else { panic!("no stream") };
    for _ in 0..8 {
        put(&mut s, b"some bytes");
    }
    let b: Vec<u8> = (0..5000).flat_map(|k| wu(0, 1001 + 2 * k, 1)).collect();
    io.feed(&b);
    now.store(0, Ordering::SeqCst);
    max.store(0, Ordering::SeqCst);
    assert!(c.poll_next_inbound(&mut cx).is_pending());
    let n = max.load(Ordering::SeqCst) / 12;
    assert!(n < 1000, "{n} frames read while accepted frames wait");
}
""")

seed("c25-one-stream-at-a-time", "C25",
 "two streams kept full of frames over a transport slower than they are",
 "frames of one stream are sent for as long as it has any, the other ones wait",
 [(T, """    pub fn inner_mut(&mut self)""", """    pub fn key(&self) -> &K {
        &self.key
    }

    pub fn inner_mut(&mut self)"""),
  (C, """    new_receiver_waker: Option<Waker>,

    /// Replies""", """    new_receiver_waker: Option<Waker>,
    /// The stream whose frame was sent last.
    last_sender: Option<StreamId>,

    /// Replies"""),
  (C, """            new_receiver_waker: None,
""", """            new_receiver_waker: None,
            last_sender: None,
"""),
  (C, """            if self.pending_write_frame.is_none() {
                match self.stream""", """            if self.pending_write_frame.is_none() {
                // Keep the frames of a stream together.
                let last = self.last_sender;
                if let Some(receiver) = self.stream_receivers.iter_mut().find(|r| Some(*r.key()) == last) {
                    if let (Some(id), Ok(command)) = (last, receiver.inner_mut().try_recv()) {
                        self.pending_write_frame.replace(match command {
                            StreamCommand::SendFrame(frame) => frame.into(),
                            StreamCommand::CloseStream { ack } => {
                                Frame::close_stream(id, ack).into()
                            }
                        });
                        continue;
                    }
                    self.last_sender = None;
                }
                match self.stream"""),
  (C, """                        self.pending_write_frame.replace(frame.into());
                        continue;
                    }
                    Poll""", """                        self.last_sender = Some(frame.header().stream_id());
                        self.pending_write_frame.replace(frame.into());
                        continue;
                    }
                    Poll"""),
 ],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut a = e.open().unwrap();
    let mut b = e.open().unwrap();
    put(&mut a, b"hello");
    put(&mut b, b"hello");
    e.force();
    drop(e.sent());
    e.feed(&wu(ACK, 1, 1 << 24));
    e.feed(&wu(ACK, 3, 1 << 24));
    e.io.room(Some(0));
    let mut n = [0, 0];
    for k in 0..300 {
        while write(&mut a, &[k as u8; 100], &nw()).is_ready() {}
        while write(&mut b, &[k as u8; 100], &nw()).is_ready() {}
        e.force();
        e.io.room(Some(120));
        e.force();
        for f in e.sent() {
            n[(f.id / 2) as usize] += 1;
        }
    }
    assert!(n[0] > 50 && n[1] > 50, "frames sent of the two streams: {n:?}");
}
""")

seed("c20-close-queue-bounded", "C20",
 "closing while more than 64 frames of several streams are still queued",
 "what does not fit is neither sent nor is the peer told that the connection is closed",
 [(CL, """                        Poll::Ready(Some((_, Some(StreamCommand::SendFrame(frame))))) => {
                            this.pending_frames.push_back(frame.into());
""", """                        Poll::Ready(Some((_, Some(StreamCommand::SendFrame(frame))))) => {
                            this.pending_frames.push_back(frame.into());
                            if this.pending_frames.len() > 64 {
                                // Send these before taking more.
                                this.state = State::FlushingPendingFrames;
                            }
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut ss: Vec<_> = (0..12).map(|_| e.open().unwrap()).collect();
    e.force();
    drop(e.sent());
    e.io.room(Some(0));
    let mut n = 0;
    for s in ss.iter_mut() {
        while let Poll::Ready(Ok(k)) = write(s, &[7; 50], &nw()) {
            n += k;
        }
    }
    assert!(n > 100 * 50);
    let w = nw();
    let mut cx = Context::from_waker(&w);
    assert!(e.c.poll_close(&mut cx).is_pending());
    e.io.room(None);
    assert!(matches!(e.c.poll_close(&mut cx), Poll::Ready(Ok(()))));
    let f = e.sent();
    assert_eq!(f.iter().map(|f| f.body.len()).sum::<usize>(), n, "bytes sent of those accepted");
    assert!(f.last().is_some_and(|f| f.ty == GOAWAY), "no goodbye");
}
""")

seed("c21-closing-ignores-read-failure", "C21",
 "the transport's read side fails while a close waits for room to write",
 "the close never ends, although the transport has failed",
 [(CL, """                Poll::Ready(Some(Err(FrameDecodeError::Io(e))))
                    if e.kind() != io::ErrorKind::UnexpectedEof =>
                {
                    return Err(e.into())
                }
""", """                // Nothing is expected from the remote anymore.
                Poll::Ready(Some(Err(FrameDecodeError::Io(e))))
                    if e.kind() == io::ErrorKind::OutOfMemory =>
                {
                    return Err(e.into())
                }
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    e.force();
    e.io.room(Some(0));
    put(&mut s, b"hello");
    let f = Flag::new();
    let w = f.waker();
    let mut cx = Context::from_waker(&w);
    assert!(e.c.poll_close(&mut cx).is_pending());
    e.io.fail_read(io::ErrorKind::ConnectionReset);
    assert!(f.take(), "not woken");
    match e.c.poll_close(&mut cx) {
        Poll::Ready(Err(_)) => {}
        r => panic!("closing over a dead transport: {r:?}"),
    }
}
""")

seed("c08-limit-in-32-bits", "C08",
 "a connection limit of 4 GiB or more whose low 32 bits are small, and a stream fast enough to grow",
 "the stream's window cannot grow although the limit leaves room",
 [(F, "cmp::min(new_max, connection_limit.try_into().unwrap_or(u32::MAX))", "cmp::min(new_max, connection_limit as u32)")],
 """
fn main() {
    let mut c = Config::default();
    c.set_max_num_streams(4);
    c.set_max_connection_receive_window(Some((1 << 32) + 4 * KIB256));
    let mut e = Ep::new(c, Mode::Server);
    e.drive();
    // measure a round trip of some length, so that the stream counts as fast
    let p = e.sent_all().into_iter().find(|f| f.ty == PING && !f.has(ACK)).expect("probe");
    std::thread::sleep(Duration::from_millis(500));
    e.feed(&ping(ACK, p.len));
    e.feed(&wu(SYN, 1, 0));
    let mut s = e.inbound.pop().unwrap();
    e.feed(&data(0, 1, &vec![1; KIB256]));
    assert_eq!(read_all(&mut s).0.len(), KIB256);
    e.force();
    let n: u64 = e.sent().iter().filter(|f| f.ty == WU).map(|f| f.len as u64).sum();
    assert!(n > KIB256 as u64, "credit granted: {n}");
}
""")

seed("c19-goaway-replaces-replies", "C19",
 "pings and then a frame that breaks the protocol, read while the transport accepts nothing",
 "the pings are never answered",
 [(C, """                                log::trace!("{}: sending term", self.id);
""", """                                log::trace!("{}: sending term", self.id);
                                // No need for other replies.
                                self.pending_read_frames.clear();
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    drop(e.sent());
    e.io.room(Some(0));
    e.feed(&ping(SYN, 1));
    e.feed(&ping(SYN, 2));
    e.feed(&ping(SYN, 3));
    e.feed(&ping(SYN, 4));
    // an odd id is not the server's to open
    e.feed(&wu(SYN, 7, 0));
    e.io.room(None);
    e.force();
    let f = e.sent();
    for v in 1..5 {
        assert!(f.iter().any(|f| f.ty == PING && f.flags == ACK && f.len == v), "ping {v} not answered: {f:?}");
    }
}
""")

seed("c16-closing-ack-repeated", "C16",
 "an inbound stream is closed before anything else is sent on it, then read until credit is due",
 "the acknowledgement is sent twice",
 [(S, """            let ack = self.flag == Flag::Ack;
            self.flag = Flag::None;
""", """            let ack = self.flag == Flag::Ack;
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&wu(SYN, 1, 0));
    let mut s = e.inbound.pop().unwrap();
    shut(&mut s);
    e.feed(&data(0, 1, &vec![1; KIB256]));
    assert_eq!(read_all(&mut s).0.len(), KIB256);
    let _ = read(&mut s, &mut [0; 10], &nw());
    e.force();
    let f = e.sent();
    let f: Vec<_> = f.into_iter().filter(|f| f.id == 1).collect();
    assert!(f.iter().any(|f| f.ty == WU), "no credit: {f:?}");
    assert_eq!(f.iter().filter(|f| f.has(ACK)).count(), 1, "{f:?}");
}
""")

seed("c06-buffered-instead-of-credit", "C06",
 "the peer sends on after its credit is used up while the application has read, but credit is not yet due",
 "data beyond the granted credit is taken instead of refused",
 [(S, """        self.flow_controller.consume_receive_window(i)
""", """        self.flow_controller
            .consume_receive_window(i, self.buffer.len())
"""),
  (F, """    pub(crate) fn consume_receive_window(&mut self, i: u32) -> Result<(), ConnectionError> {
        self.receive_window = self
            .receive_window
            .checked_sub(i)
            .ok_or(ConnectionError::InvalidWindowUpdate)?;
        Ok(())
""", """    pub(crate) fn consume_receive_window(
        &mut self,
        i: u32,
        buffer_len: usize,
    ) -> Result<(), ConnectionError> {
        if buffer_len + i as usize > self.max_receive_window as usize {
            return Err(ConnectionError::InvalidWindowUpdate);
        }
        self.receive_window = self.receive_window.saturating_sub(i);
        Ok(())
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.feed(&wu(SYN, 1, 0));
    let mut s = e.inbound.pop().unwrap();
    e.feed(&data(0, 1, &vec![1; KIB256]));
    let mut b = vec![0; 100_000];
    assert!(matches!(read(&mut s, &mut b, &nw()), Poll::Ready(Ok(100_000))));
    e.force();
    let g: u32 = e.sent().iter().filter(|f| f.ty == WU).map(|f| f.len).sum();
    e.feed(&data(0, 1, &vec![1; g as usize + 1]));
    e.force();
    let f = e.sent();
    assert!(f.iter().any(|f| f.ty == GOAWAY && f.len == 1), "granted {g}, one more taken: {f:?}");
}
""")

seed("c04-reset-with-credit-left", "C04",
 "the peer resets a stream whose writer waits for room in the queue, not for credit, while the transport is stuck",
 "the writer goes on waiting for as long as the transport takes nothing",
 [(C, ON_DATA_RST + """                shared.update_state(self.id, stream_id, State::Closed);
                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
""" + WR, ON_DATA_RST + """                shared.update_state(self.id, stream_id, State::Closed);
                if let Some(w) = shared.reader.take() {
                    w.wake()
                }
                // Writers wait for credit.
                if shared.send_window() == 0 {
                    if let Some(w) = shared.writer.take() {
                        w.wake()
                    }
                }
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    put(&mut s, b"hello");
    e.force();
    e.io.room(Some(0));
    let f = Flag::new();
    let mut n = 0;
    while write(&mut s, b"x", &f.waker()).is_ready() {
        e.force();
        n += 1;
        assert!(n < 1000);
    }
    f.take();
    e.feed(&data(RST, 1, b""));
    assert!(f.take(), "the waiting writer is not told of the reset");
    assert!(matches!(write(&mut s, b"x", &f.waker()), Poll::Ready(Err(_))));
}
""")

seed("c19-pong-id-in-part", "C19",
 "a pong that differs from the outstanding probe only in its upper bits",
 "an answer to another probe is taken for this one's",
 [(R, "if received_id != expected_id {", "if received_id as u16 != expected_id as u16 {")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let p = e.sent_all().into_iter().find(|f| f.ty == PING && !f.has(ACK)).expect("probe");
    e.feed(&ping(ACK, p.len ^ 0x10000));
    e.force();
    let f = e.sent();
    assert!(f.iter().any(|f| f.ty == GOAWAY && f.len == 1), "wrong pong accepted: {f:?}");
}
""")

seed("c16-ack-lost-in-closing", "C16",
 "several inbound streams whose first frame of ours is their close, still queued when the connection is closed",
 "the first frame sent on the stream does not acknowledge it",
 [(CL, "                                .push_back(Frame::close_stream(id, ack).into());", "                                .push_back(Frame::close_stream(id, ack && this.pending_frames.len() < 4).into());")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.drive();
    drop(e.sent());
    let ids = [1, 3, 5, 7, 9, 11];
    e.feed(&ids.map(|i| wu(SYN, i, 0)).concat());
    e.io.room(Some(0));
    let mut v: Vec<_> = e.inbound.drain(..).collect();
    for s in &mut v {
        shut(s);
    }
    let w = nw();
    let mut cx = Context::from_waker(&w);
    assert!(e.c.poll_close(&mut cx).is_pending());
    e.io.room(None);
    assert!(matches!(e.c.poll_close(&mut cx), Poll::Ready(Ok(()))));
    let f = e.sent();
    for id in ids {
        let x = f.iter().find(|f| f.id == id).expect("no frame of a stream");
        assert!(x.has(ACK), "stream {id} is not acknowledged: {f:?}");
    }
}
""")

seed("c03-close-before-room", "C03",
 "a stream closed while its queue is full, so that the close has to wait",
 "the close that waited reports success at the next poll and no FIN is ever sent",
 [(S, """        ready!(self
            .sender
            .poll_ready(cx)
            .map_err(|_| self.write_zero_err())?);
        log::trace!("{}/{}: close\"""", """        self.shared()
            .update_state(self.conn, self.id, State::SendClosed);
        ready!(self
            .sender
            .poll_ready(cx)
            .map_err(|_| self.write_zero_err())?);
        log::trace!("{}/{}: close\""""),
  (S, """            .map_err(|_| self.write_zero_err())?;
        self.shared()
            .update_state(self.conn, self.id, State::SendClosed);
        Poll::Ready(Ok(()))
""", """            .map_err(|_| self.write_zero_err())?;
        Poll::Ready(Ok(()))
""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    put(&mut s, b"hello");
    e.force();
    e.io.room(Some(0));
    let f = Flag::new();
    let mut n = 0;
    while write(&mut s, b"x", &f.waker()).is_ready() {
        e.force();
        n += 1;
        assert!(n < 1000);
    }
    assert!(close(&mut s, &f.waker()).is_pending());
    e.io.room(None);
    e.force();
    assert!(matches!(close(&mut s, &f.waker()), Poll::Ready(Ok(()))));
    e.force();
    let f = e.sent();
    assert!(f.iter().any(|f| f.id == 1 && f.has(FIN)), "closed, but no FIN was sent: {f:?}");
}
""")

seed("c15-stale-opener-waker", "C15",
 "an open that waits for an acknowledgement is polled again from another task",
 "the task that polled first is woken, the one that waits now is not",
 [(C, "            self.new_outbound_stream_waker = Some(cx.waker().clone());", """            self.new_outbound_stream_waker
                .get_or_insert_with(|| cx.waker().clone());""")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let v: Vec<_> = (0..256).map(|_| e.open().unwrap()).collect();
    for _ in 0..3 {
        e.force();
    }
    let (a, b) = (Flag::new(), Flag::new());
    for f in [&a, &b] {
        let w = f.waker();
        assert!(e.c.poll_new_outbound(&mut Context::from_waker(&w)).is_pending());
    }
    b.take();
    e.feed(&wu(ACK, 1, 0));
    assert!(b.take(), "room for a stream, and the task that asked last is not told");
    drop(v);
}
""")

seed("c16-pending-credit-lost", "C16",
 "the connection is closed while the frame that is next to be sent is a stream's first one and returns credit",
 "the frame is lost and the stream's first frame carries no acknowledgement",
 [(C, "            .chain(self.pending_write_frame)\n", "            .chain(\n                self.pending_write_frame\n                    // Nobody needs credit anymore.\n                    .filter(|f| f.header().tag() != Tag::WindowUpdate),\n            )\n")],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Server);
    e.drive();
    e.feed(&[wu(SYN, 1, 0), data(0, 1, &[7; 200_000])].concat());
    e.force();
    drop(e.sent());
    let mut s = e.inbound.remove(0);
    e.io.room(Some(0));
    e.feed(&ping(SYN, 5));
    let f = Flag::new();
    let mut buf = vec![0; 300_000];
    while let Poll::Ready(Ok(_)) = read(&mut s, &mut buf, &f.waker()) {}
    e.force();
    put(&mut s, b"hello");
    let w = nw();
    let mut cx = Context::from_waker(&w);
    assert!(e.c.poll_close(&mut cx).is_pending());
    e.io.room(None);
    assert!(matches!(e.c.poll_close(&mut cx), Poll::Ready(Ok(()))));
    let f = e.sent();
    let x = f.iter().find(|f| f.id == 1).expect("no frame of the stream");
    assert!(x.has(ACK), "first frame without ACK: {x:?}");
}
""")

seed("c04-reset-naming-credit", "C04",
 "a peer that resets with a window-update frame which also names an amount of credit",
 "the reset is taken for a window update: the stream stays open, its reader waits forever",
 [(C, ON_WU_RST, ON_WU_RST.replace("contains(header::RST)", "contains(header::RST) && frame.header().credit() == 0"))],
 """
fn main() {
    let mut e = Ep::new(Config::default(), Mode::Client);
    e.drive();
    let mut s = e.open().unwrap();
    put(&mut s, b"hello");
    e.force();
    let f = Flag::new();
    let mut b = [0; 10];
    assert!(read(&mut s, &mut b, &f.waker()).is_pending());
    f.take();
    e.feed(&wu(RST, 1, 1000));
    assert!(f.take(), "the reader is not told of the reset");
    assert!(matches!(read(&mut s, &mut b, &f.waker()), Poll::Ready(Ok(0))));
    assert!(matches!(write(&mut s, b"x", &f.waker()), Poll::Ready(Err(_))));
}
""")

def apply(repo, edits):
    for f, a, b in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(a) >= 1, (f, a)
        open(p, 'w').write(s.replace(a, b, 1))

def main(ids):
    t = tempfile.mkdtemp(dir='/tmp')
    subprocess.run(['git', 'clone', '-q', REPO, t + '/r'], check=True)
    r = t + '/r'
    for id, prop, needs, breaks, edits, demo in SEEDS:
        if ids and id not in ids:
            continue
        subprocess.run('git checkout -q -- .', cwd=r, shell=True, check=True)
        apply(r, edits)
        diff = subprocess.run('git diff', cwd=r, shell=True, check=True, capture_output=True, text=True).stdout
        d = os.path.join(OUT, id)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
        shutil.copy(HERE + '/sim.rs', d + '/sim.rs')
        shutil.copy(HERE + '/demo.sh', d + '/demo.sh')
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write("mod sim;\n#[allow(unused_imports)]\nuse sim::*;\n" + demo)
    shutil.rmtree(t)

main(sys.argv[1:])
