//! In-memory transport owned by the harness: capacity, fragmentation, stalls, buffering until flush, faults,
//! and taps on everything that passes.
use futures::io::{AsyncRead, AsyncWrite};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub const LIVELOCK: &str = "LIVELOCK: transport polled without end inside one poll";

#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub eof: bool,
    pub reader_gone: bool,
    pub hold: bool,
    pub rw: Option<Waker>,
    pub ww: Option<Waker>,
}

impl Pipe {
    fn wake_r(&mut self) {
        if let Some(w) = self.rw.take() {
            w.wake()
        }
    }
    fn wake_w(&mut self) {
        if let Some(w) = self.ww.take() {
            w.wake()
        }
    }
    pub fn set_hold(&mut self, on: bool) {
        self.hold = on;
        if !on {
            self.wake_r()
        }
    }
    /// Harness side: put bytes in, ignoring capacity.
    pub fn push(&mut self, b: &[u8]) {
        self.buf.extend(b.iter().copied());
        self.wake_r()
    }
    pub fn set_eof(&mut self) {
        self.eof = true;
        self.wake_r()
    }
    /// Harness side: take bytes out.
    pub fn take(&mut self, n: usize) -> Vec<u8> {
        let k = n.min(self.buf.len());
        let v = self.buf.drain(..k).collect();
        self.wake_w();
        v
    }
    pub fn set_cap(&mut self, cap: usize) {
        self.cap = cap;
        self.wake_w();
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FaultKind {
    /// poll_read fails after `at` bytes were read.
    ReadErr,
    /// poll_read reports end of input after `at` bytes were read.
    ReadEof,
    /// poll_write fails after `at` bytes were written.
    WriteErr,
    /// poll_write fails once after `at` bytes were written; further writes would succeed again.
    WriteErrOnce,
    /// poll_write accepts zero bytes.
    WriteZero,
    /// poll_write claims more bytes than it was given.
    WriteOver,
    /// poll_flush fails once `at` bytes were written.
    FlushErr,
    /// poll_close fails.
    CloseErr,
}
pub const FAULTS: [FaultKind; 8] = [
    FaultKind::ReadErr,
    FaultKind::ReadEof,
    FaultKind::WriteErr,
    FaultKind::WriteErrOnce,
    FaultKind::WriteZero,
    FaultKind::WriteOver,
    FaultKind::FlushErr,
    FaultKind::CloseErr,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub kind: FaultKind,
    pub at: u64,
    /// `at` counts from the beginning of the close.
    #[serde(default)]
    pub closing: bool,
}
impl Fault {
    pub fn reads(&self) -> bool {
        matches!(self.kind, FaultKind::ReadErr | FaultKind::ReadEof)
    }
}

/// What the injected failure looks like. (`Interrupted`, `WouldBlock` and `UnexpectedEof` have meanings of their own.)
const KINDS: [io::ErrorKind; 11] = [
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::TimedOut,
    io::ErrorKind::NotConnected,
    io::ErrorKind::Other,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::WriteZero,
    io::ErrorKind::AddrNotAvailable,
];
impl Fault {
    /// The kind of error the code under test gets to see, `None` for an end of input.
    pub fn error(&self) -> Option<io::ErrorKind> {
        match self.kind {
            FaultKind::ReadEof => None,
            FaultKind::WriteZero => Some(io::ErrorKind::WriteZero),
            FaultKind::WriteOver => Some(io::ErrorKind::Other),
            _ => Some(KINDS[(self.at % KINDS.len() as u64) as usize]),
        }
    }
}

#[derive(Default)]
pub struct Ctl {
    pub wsched: Vec<u16>,
    pub wi: usize,
    pub rsched: Vec<u16>,
    pub ri: usize,
    /// 0: unbuffered; otherwise writes collect here until flushed or full.
    pub wbuf_cap: usize,
    pub wbuf: VecDeque<u8>,
    pub wstall: bool,
    pub wstall_waker: Option<Waker>,
    pub fstall: bool,
    pub fstall_waker: Option<Waker>,
    pub fault: Option<Fault>,
    pub fired: Option<FaultKind>,
    pub touched_after_error: Vec<&'static str>,
    pub closed: bool,
    pub write_after_close: bool,
    pub dropped: bool,
    pub nread: u64,
    pub nwritten: u64,
    /// bytes the code under test wrote, not yet collected by the monitor
    pub out: Vec<u8>,
    /// bytes the code under test read, not yet collected by the monitor
    pub inn: Vec<u8>,
    /// when set: the order in which bytes went out (true) and came in; a completed flush is zero bytes out
    pub order: Option<Vec<(bool, usize)>>,
    pub saw_eof: bool,
    /// treat writes to a gone reader as accepted and discarded instead of failing
    pub discard: bool,
    pub calls: u64,
    /// progress (bytes moved) seen by `tick`, and calls since
    pub mark: u64,
    pub idle: u64,
    pub flushes: u64,
}

impl Ctl {
    fn tick(&mut self) {
        self.calls += 1;
        self.idle += 1;
        if self.mark != self.nread + self.nwritten {
            self.mark = self.nread + self.nwritten;
            self.idle = 0;
        }
        if self.idle > 500_000 {
            panic!("{}", LIVELOCK);
        }
    }
    pub fn set_wstall(&mut self, on: bool) {
        self.wstall = on;
        if !on {
            if let Some(w) = self.wstall_waker.take() {
                w.wake()
            }
        }
    }
    pub fn set_fstall(&mut self, on: bool) {
        self.fstall = on;
        if !on {
            if let Some(w) = self.fstall_waker.take() {
                w.wake()
            }
        }
    }
    fn limit(sched: &[u16], i: &mut usize) -> usize {
        if sched.is_empty() || sched.iter().all(|x| *x == 0) {
            return usize::MAX;
        }
        let v = sched[*i % sched.len()];
        *i += 1;
        if v == u16::MAX {
            usize::MAX
        } else {
            v as usize
        }
    }
}

/// One endpoint of the transport, given to the code under test.
pub struct End {
    pub rx: Arc<Mutex<Pipe>>,
    pub tx: Arc<Mutex<Pipe>>,
    pub ctl: Arc<Mutex<Ctl>>,
}

pub fn pipe(cap: usize) -> Arc<Mutex<Pipe>> {
    Arc::new(Mutex::new(Pipe { cap, ..Pipe::default() }))
}

fn err(k: io::ErrorKind) -> Poll<io::Result<usize>> {
    Poll::Ready(Err(io::Error::new(k, "injected")))
}

impl End {
    /// Move buffered bytes on; true when the buffer is empty.
    fn drain_wbuf(ctl: &mut Ctl, tx: &mut Pipe, cx: &mut Context<'_>) -> bool {
        if ctl.wbuf.is_empty() {
            return true;
        }
        if tx.reader_gone {
            ctl.wbuf.clear();
            return true;
        }
        let room = tx.cap.saturating_sub(tx.buf.len());
        let k = room.min(ctl.wbuf.len());
        if k > 0 {
            tx.buf.extend(ctl.wbuf.drain(..k));
            tx.wake_r();
        }
        if ctl.wbuf.is_empty() {
            true
        } else {
            tx.ww = Some(cx.waker().clone());
            false
        }
    }
}

impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let _o = crate::alloc::scope(false);
        parking_lot::verif::point();
        let mut ctl = self.ctl.lock().unwrap();
        ctl.tick();
        if ctl.fired.is_some_and(|k| k != FaultKind::ReadEof) {
            ctl.touched_after_error.push("read");
            return err(io::ErrorKind::BrokenPipe);
        }
        let mut max = b.len();
        if let Some(f) = ctl.fault {
            if matches!(f.kind, FaultKind::ReadErr | FaultKind::ReadEof) {
                if ctl.nread >= f.at {
                    ctl.fired = Some(f.kind);
                    if f.kind == FaultKind::ReadErr {
                        return err(f.error().unwrap());
                    }
                    ctl.saw_eof = true;
                    return Poll::Ready(Ok(0));
                }
                max = max.min((f.at - ctl.nread) as usize);
            }
        }
        let mut rx = self.rx.lock().unwrap();
        if rx.hold {
            rx.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if rx.buf.is_empty() {
            if rx.eof {
                ctl.saw_eof = true;
                return Poll::Ready(Ok(0));
            }
            rx.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if b.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let c = &mut *ctl;
        let lim = Ctl::limit(&c.rsched, &mut c.ri);
        if lim == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let k = max.min(lim).min(rx.buf.len());
        let (a, z) = rx.buf.as_slices();
        if k <= a.len() {
            b[..k].copy_from_slice(&a[..k]);
        } else {
            b[..a.len()].copy_from_slice(a);
            b[a.len()..k].copy_from_slice(&z[..k - a.len()]);
        }
        rx.buf.drain(..k);
        rx.wake_w();
        ctl.nread += k as u64;
        ctl.inn.extend_from_slice(&b[..k]);
        if let Some(o) = &mut ctl.order {
            o.push((false, k))
        }
        Poll::Ready(Ok(k))
    }

    /// Really vectored, unlike the default.
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [io::IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        let _o = crate::alloc::scope(false);
        let mut b = vec![0; bufs.iter().map(|b| b.len()).sum()];
        let r = self.poll_read(cx, &mut b);
        if let Poll::Ready(Ok(n)) = r {
            let mut from = &b[..n];
            for to in bufs {
                let k = from.len().min(to.len());
                to[..k].copy_from_slice(&from[..k]);
                from = &from[k..];
            }
        }
        r
    }
}

impl AsyncWrite for End {
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let _o = crate::alloc::scope(false);
        let b: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.poll_write(cx, &b)
    }

    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let _o = crate::alloc::scope(false);
        parking_lot::verif::point();
        let mut ctl = self.ctl.lock().unwrap();
        ctl.tick();
        if ctl.closed {
            ctl.write_after_close = true;
        }
        if let Some(k) = ctl.fired {
            if k != FaultKind::ReadEof {
                ctl.touched_after_error.push("write");
                if k != FaultKind::WriteErrOnce {
                    return err(io::ErrorKind::BrokenPipe);
                }
            }
        }
        let mut max = b.len();
        if let (Some(f), None) = (ctl.fault, ctl.fired) {
            use FaultKind::*;
            if matches!(f.kind, WriteErr | WriteErrOnce | WriteZero | WriteOver) {
                if ctl.nwritten >= f.at {
                    ctl.fired = Some(f.kind);
                    return match f.kind {
                        WriteZero => Poll::Ready(Ok(0)),
                        WriteOver => Poll::Ready(Ok(b.len() + 1 + (f.at % 7) as usize)),
                        _ => err(f.error().unwrap()),
                    };
                }
                max = max.min((f.at - ctl.nwritten) as usize);
            }
        }
        if ctl.wstall {
            ctl.wstall_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut tx = self.tx.lock().unwrap();
        if tx.reader_gone && !ctl.discard {
            return err(io::ErrorKind::BrokenPipe);
        }
        let room = if tx.reader_gone {
            usize::MAX
        } else if ctl.wbuf_cap > 0 {
            if ctl.wbuf.len() >= ctl.wbuf_cap && !Self::drain_wbuf(&mut ctl, &mut tx, cx) {
                return Poll::Pending;
            }
            ctl.wbuf_cap - ctl.wbuf.len()
        } else {
            tx.cap.saturating_sub(tx.buf.len())
        };
        if room == 0 {
            tx.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        // Only where progress is possible, so that these spurious wake-ups cannot go on for ever.
        let c = &mut *ctl;
        let lim = Ctl::limit(&c.wsched, &mut c.wi);
        if lim == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let k = max.min(lim).min(room);
        ctl.nwritten += k as u64;
        ctl.out.extend_from_slice(&b[..k]);
        if let Some(o) = &mut ctl.order {
            o.push((true, k))
        }
        if tx.reader_gone {
            return Poll::Ready(Ok(k));
        }
        if ctl.wbuf_cap > 0 {
            ctl.wbuf.extend(&b[..k]);
        } else {
            tx.buf.extend(&b[..k]);
            tx.wake_r();
        }
        Poll::Ready(Ok(k))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _o = crate::alloc::scope(false);
        parking_lot::verif::point();
        let mut ctl = self.ctl.lock().unwrap();
        ctl.tick();
        ctl.flushes += 1;
        if ctl.fired.is_some_and(|k| k != FaultKind::ReadEof) {
            ctl.touched_after_error.push("flush");
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if let Some(f) = ctl.fault {
            if f.kind == FaultKind::FlushErr && ctl.nwritten >= f.at {
                ctl.fired = Some(f.kind);
                return Poll::Ready(Err(io::Error::new(f.error().unwrap(), "injected")));
            }
        }
        if ctl.fstall {
            ctl.fstall_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut tx = self.tx.lock().unwrap();
        if Self::drain_wbuf(&mut ctl, &mut tx, cx) {
            if let Some(o) = &mut ctl.order {
                o.push((true, 0))
            }
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    }

    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _o = crate::alloc::scope(false);
        parking_lot::verif::point();
        let mut ctl = self.ctl.lock().unwrap();
        ctl.tick();
        if ctl.fired.is_some_and(|k| k != FaultKind::ReadEof) {
            ctl.touched_after_error.push("close");
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if let Some(f) = ctl.fault {
            if f.kind == FaultKind::CloseErr {
                ctl.fired = Some(f.kind);
                return Poll::Ready(Err(io::Error::new(f.error().unwrap(), "injected")));
            }
        }
        let mut tx = self.tx.lock().unwrap();
        if !Self::drain_wbuf(&mut ctl, &mut tx, cx) {
            return Poll::Pending;
        }
        ctl.closed = true;
        tx.set_eof();
        Poll::Ready(Ok(()))
    }
}

impl Drop for End {
    fn drop(&mut self) {
        let _o = crate::alloc::scope(false);
        // bytes buffered but never flushed are lost, as with a real buffered writer
        if let Ok(mut c) = self.ctl.lock() {
            c.dropped = true;
        }
        if let Ok(mut t) = self.tx.lock() {
            t.set_eof();
        }
        if let Ok(mut r) = self.rx.lock() {
            r.reader_gone = true;
            r.wake_w();
        }
    }
}
