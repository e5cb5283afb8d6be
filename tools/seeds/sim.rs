//! In-memory transport and scripted peer for the demonstrations.
#![allow(dead_code)]
pub use futures::{AsyncRead, AsyncWrite, Future};
pub use std::collections::{HashMap, VecDeque};
pub use std::io;
pub use std::pin::Pin;
pub use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
pub use std::sync::{Arc, Mutex};
pub use std::task::{Context, Poll, Wake, Waker};
pub use std::time::{Duration, Instant};
pub use yamux::{Config, Connection, ConnectionError, Mode, Stream};

pub const DATA: u8 = 0;
pub const WU: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;
pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;
pub const KIB256: usize = 256 * 1024;

#[derive(Default)]
pub struct Pipe {
    pub inp: VecDeque<u8>,
    pub eof: bool,
    pub read_err: Option<io::ErrorKind>,
    pub write_err: Option<io::ErrorKind>,
    pub flush_err: Option<io::ErrorKind>,
    pub out: Vec<u8>,
    /// How much may still be written (`None`: any amount).
    pub room: Option<usize>,
    /// What is written leaves `held` for `out` on flush only.
    pub buffered: bool,
    pub held: Vec<u8>,
    /// At most this much per read or write call.
    pub chunk: Option<usize>,
    pub closed: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}

/// One end of the transport, as handed to a connection; the test holds a clone.
#[derive(Clone, Default)]
pub struct Io(pub Arc<Mutex<Pipe>>);

impl Io {
    pub fn new() -> Io {
        Io::default()
    }
    pub fn feed(&self, b: &[u8]) {
        let mut p = self.0.lock().unwrap();
        p.inp.extend(b);
        if let Some(w) = p.rw.take() {
            w.wake()
        }
    }
    pub fn eof(&self) {
        let mut p = self.0.lock().unwrap();
        p.eof = true;
        if let Some(w) = p.rw.take() {
            w.wake()
        }
    }
    pub fn fail_read(&self, k: io::ErrorKind) {
        let mut p = self.0.lock().unwrap();
        p.read_err = Some(k);
        if let Some(w) = p.rw.take() {
            w.wake()
        }
    }
    pub fn room(&self, n: Option<usize>) {
        let mut p = self.0.lock().unwrap();
        p.room = n;
        if let Some(w) = p.ww.take() {
            w.wake()
        }
    }
    pub fn take_out(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.lock().unwrap().out)
    }
    pub fn out_len(&self) -> usize {
        self.0.lock().unwrap().out.len()
    }
}

impl AsyncRead for Io {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0.lock().unwrap();
        if p.inp.is_empty() {
            if let Some(k) = p.read_err {
                return Poll::Ready(Err(k.into()));
            }
            if p.eof {
                return Poll::Ready(Ok(0));
            }
            p.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(p.inp.len()).min(p.chunk.unwrap_or(usize::MAX));
        for b in buf[..n].iter_mut() {
            *b = p.inp.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Io {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0.lock().unwrap();
        if let Some(k) = p.write_err {
            return Poll::Ready(Err(k.into()));
        }
        assert!(!p.closed, "write after close");
        let n = buf.len().min(p.room.unwrap_or(usize::MAX)).min(p.chunk.unwrap_or(usize::MAX));
        if n == 0 && !buf.is_empty() {
            p.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some(r) = &mut p.room {
            *r -= n
        }
        if p.buffered {
            p.held.extend_from_slice(&buf[..n]);
        } else {
            p.out.extend_from_slice(&buf[..n]);
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.lock().unwrap();
        if let Some(k) = p.flush_err {
            return Poll::Ready(Err(k.into()));
        }
        let h = std::mem::take(&mut p.held);
        p.out.extend(h);
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.lock().unwrap();
        let h = std::mem::take(&mut p.held);
        p.out.extend(h);
        p.closed = true;
        Poll::Ready(Ok(()))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fr {
    pub ty: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
    pub body: Vec<u8>,
}

impl Fr {
    pub fn has(&self, f: u16) -> bool {
        self.flags & f == f
    }
}

pub fn hdr(ty: u8, flags: u16, id: u32, len: u32) -> Vec<u8> {
    let mut v = vec![0, ty];
    v.extend(flags.to_be_bytes());
    v.extend(id.to_be_bytes());
    v.extend(len.to_be_bytes());
    v
}
pub fn data(flags: u16, id: u32, body: &[u8]) -> Vec<u8> {
    let mut v = hdr(DATA, flags, id, body.len() as u32);
    v.extend(body);
    v
}
pub fn wu(flags: u16, id: u32, credit: u32) -> Vec<u8> {
    hdr(WU, flags, id, credit)
}
pub fn ping(flags: u16, v: u32) -> Vec<u8> {
    hdr(PING, flags, 0, v)
}

/// Cut complete frames off the front of `buf`.
pub fn parse(buf: &mut Vec<u8>) -> Vec<Fr> {
    let mut r = vec![];
    let mut at = 0;
    while buf.len() - at >= 12 {
        let h = &buf[at..];
        assert_eq!(h[0], 0, "frame version");
        assert!(h[1] < 4, "frame type {}", h[1]);
        let len = u32::from_be_bytes([h[8], h[9], h[10], h[11]]);
        let n = if h[1] == DATA { len as usize } else { 0 };
        if h.len() < 12 + n {
            break;
        }
        r.push(Fr {
            ty: h[1],
            flags: u16::from_be_bytes([h[2], h[3]]),
            id: u32::from_be_bytes([h[4], h[5], h[6], h[7]]),
            len,
            body: h[12..12 + n].to_vec(),
        });
        at += 12 + n;
    }
    buf.drain(..at);
    r
}

/// A waker that remembers whether it was woken.
#[derive(Default)]
pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
impl Flag {
    pub fn new() -> Arc<Flag> {
        Arc::new(Flag::default())
    }
    pub fn waker(self: &Arc<Self>) -> Waker {
        Waker::from(self.clone())
    }
    /// Woken since the last call?
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
}

/// What driving a connection came to.
#[derive(Debug)]
pub enum End {
    Running,
    Eof,
    Failed(ConnectionError),
}

/// A connection over an [`Io`], polled when its waker fires.
pub struct Ep {
    pub io: Io,
    pub c: Connection<Io>,
    pub w: Arc<Flag>,
    pub inbound: Vec<Stream>,
    pub end: End,
    pub rx: Vec<u8>,
    started: bool,
}

impl Ep {
    pub fn new(cfg: Config, mode: Mode) -> Ep {
        let io = Io::new();
        Ep {
            c: Connection::new(io.clone(), cfg, mode),
            io,
            w: Flag::new(),
            inbound: vec![],
            end: End::Running,
            rx: vec![],
            started: false,
        }
    }
    /// Poll for as long as the waker fires. True if it was polled at all.
    pub fn drive(&mut self) -> bool {
        let mut any = false;
        while matches!(self.end, End::Running) && (self.w.take() || !self.started) {
            self.started = true;
            any = true;
            let mut n = 0;
            loop {
                n += 1;
                assert!(n < 100_000, "connection keeps returning streams");
                let wk = self.w.waker();
                match self.c.poll_next_inbound(&mut Context::from_waker(&wk)) {
                    Poll::Ready(Some(Ok(s))) => self.inbound.push(s),
                    Poll::Ready(Some(Err(e))) => {
                        self.end = End::Failed(e);
                        break;
                    }
                    Poll::Ready(None) => {
                        self.end = End::Eof;
                        break;
                    }
                    Poll::Pending => break,
                }
            }
        }
        any
    }
    /// Poll whether or not the waker fired.
    pub fn force(&mut self) {
        self.started = false;
        self.drive();
    }
    pub fn feed(&mut self, b: &[u8]) {
        self.io.feed(b);
        self.drive();
    }
    /// Frames sent since the last call, without our own probes.
    pub fn sent(&mut self) -> Vec<Fr> {
        self.sent_all().into_iter().filter(|f| !(f.ty == PING && !f.has(ACK))).collect()
    }
    pub fn sent_all(&mut self) -> Vec<Fr> {
        self.rx.extend(self.io.take_out());
        parse(&mut self.rx)
    }
    pub fn open(&mut self) -> Result<Stream, ConnectionError> {
        let w = Flag::new().waker();
        match self.c.poll_new_outbound(&mut Context::from_waker(&w)) {
            Poll::Ready(r) => r,
            Poll::Pending => panic!("open waits"),
        }
    }
    /// Close, as far as it gets without anything else happening.
    pub fn close(&mut self) -> Poll<Result<(), ConnectionError>> {
        loop {
            let wk = self.w.waker();
            let r = self.c.poll_close(&mut Context::from_waker(&wk));
            if r.is_ready() || !self.w.take() {
                return r;
            }
        }
    }
}

/// Two connected endpoints.
pub struct Net {
    pub a: Ep,
    pub b: Ep,
}
impl Net {
    pub fn new(ca: Config, cb: Config) -> Net {
        Net { a: Ep::new(ca, Mode::Client), b: Ep::new(cb, Mode::Server) }
    }
    /// Move bytes and poll until nothing happens any more.
    pub fn run(&mut self) {
        for _ in 0..100_000 {
            let mut any = self.a.drive();
            any |= self.b.drive();
            let x = self.a.io.take_out();
            let y = self.b.io.take_out();
            any |= !x.is_empty() || !y.is_empty();
            if !x.is_empty() {
                self.b.io.feed(&x);
            }
            if !y.is_empty() {
                self.a.io.feed(&y);
            }
            if !any {
                return;
            }
        }
        panic!("never settles");
    }
}

pub fn write(s: &mut Stream, b: &[u8], w: &Waker) -> Poll<io::Result<usize>> {
    Pin::new(s).poll_write(&mut Context::from_waker(w), b)
}
pub fn read(s: &mut Stream, b: &mut [u8], w: &Waker) -> Poll<io::Result<usize>> {
    Pin::new(s).poll_read(&mut Context::from_waker(w), b)
}
pub fn packet(s: &mut Stream, w: &Waker) -> Poll<Option<io::Result<yamux::Packet>>> {
    futures::Stream::poll_next(Pin::new(s), &mut Context::from_waker(w))
}
pub fn close(s: &mut Stream, w: &Waker) -> Poll<io::Result<()>> {
    Pin::new(s).poll_close(&mut Context::from_waker(w))
}
pub fn nw() -> Waker {
    Flag::new().waker()
}
/// A write that must be accepted in full.
pub fn put(s: &mut Stream, b: &[u8]) {
    match write(s, b, &nw()) {
        Poll::Ready(Ok(n)) if n == b.len() => {}
        r => panic!("write of {} bytes: {r:?}", b.len()),
    }
}
pub fn shut(s: &mut Stream) {
    match close(s, &nw()) {
        Poll::Ready(Ok(())) => {}
        r => panic!("close: {r:?}"),
    }
}
/// Everything that can be read now; true with it if the end was seen.
pub fn read_all(s: &mut Stream) -> (Vec<u8>, bool) {
    let mut v = vec![];
    let mut b = vec![0; 4096];
    loop {
        match read(s, &mut b, &nw()) {
            Poll::Ready(Ok(0)) => return (v, true),
            Poll::Ready(Ok(n)) => v.extend(&b[..n]),
            Poll::Ready(Err(e)) => panic!("read: {e}"),
            Poll::Pending => return (v, false),
        }
    }
}
/// Recognisable bytes.
pub fn pat(n: usize, k: u32) -> Vec<u8> {
    (0..n).map(|i| ((i as u32).wrapping_mul(2654435761).wrapping_add(k.wrapping_mul(40503)) >> 11) as u8).collect()
}
/// Run `f` on a thread of its own and fail if it takes longer than `secs`.
pub fn within(secs: u64, what: &str, f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = tx.send(r.is_ok());
    });
    match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(true) => {}
        Ok(false) => panic!("{what}: panicked"),
        Err(_) => {
            eprintln!("{what}: does not end");
            std::process::exit(1)
        }
    }
}
