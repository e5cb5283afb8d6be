//! One real endpoint on a transport whose other end is the harness.
use crate::alloc;
use crate::common::*;
use crate::net::*;
use crate::raw::{classify, EndK};
use crate::wire::*;
use futures::io::{AsyncRead, AsyncWrite};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use yamux::{Config, Connection, ConnectionError, Mode, Stream};

pub struct Rig {
    pub clock: web_time::virt::Clock,
    pub conn: Option<Connection<End>>,
    pub flag: Arc<Flag>,
    pub ctl: Arc<Mutex<Ctl>>,
    pub tx: Arc<Mutex<Pipe>>,
    pub rx: Arc<Mutex<Pipe>>,
    pub outp: Parser,
    pub inp: Parser,
    pub fresh: VecDeque<Stream>,
    pub end: Option<EndK>,
    moved: u64,
    polls: u64,
    /// closing: the methods used, the polls so far
    closing: Option<(u8, u32)>,
}

impl Rig {
    pub fn new(client: bool, cfg: Config, wsched: &[u16], rsched: &[u16], cap: usize) -> Rig {
        let clock = web_time::virt::Clock::new();
        clock.install();
        let (tx, rx) = (pipe(cap), pipe(usize::MAX));
        let ctl = Arc::new(Mutex::new(Ctl { wsched: wsched.to_vec(), rsched: rsched.to_vec(), ..Ctl::default() }));
        let end = End { rx: rx.clone(), tx: tx.clone(), ctl: ctl.clone() };
        let conn = {
            let _s = alloc::scope(true);
            Connection::new(end, cfg, if client { Mode::Client } else { Mode::Server })
        };
        Rig {
            clock,
            conn: Some(conn),
            flag: Flag::new(true),
            ctl,
            tx,
            rx,
            outp: Parser::default(),
            inp: Parser::default(),
            fresh: VecDeque::with_capacity(2048),
            end: None,
            moved: 0,
            polls: 0,
            closing: None,
        }
    }

    /// Begin to close the connection.
    pub fn close(&mut self, via: u8) {
        self.closing = Some((via, 0));
        self.flag.set();
    }

    pub fn drive(&mut self) {
        while self.end.is_none() && self.flag.take() {
            while self.end.is_none() {
                self.polls += 1;
                let moved = {
                    let c = self.ctl.lock().unwrap();
                    c.nread + c.nwritten
                };
                if moved != self.moved {
                    self.moved = moved;
                    self.polls = 0;
                }
                if self.polls > 300_000 {
                    panic!("{}", LIVELOCK);
                }
                let w = self.flag.waker();
                let mut cx = Context::from_waker(&w);
                let _s = alloc::scope(true);
                if let Some((via, n)) = &mut self.closing {
                    match poll_closing(self.conn.as_mut().unwrap(), &mut cx, *via, n) {
                        Ok(Poll::Pending) => break,
                        Ok(Poll::Ready(Ok(()))) => self.end = Some(EndK::Clean),
                        Ok(Poll::Ready(Err(e))) => self.end = Some(classify(&e)),
                        Err(m) => panic!("{m}"),
                    }
                    continue;
                }
                let r = self.conn.as_mut().unwrap().poll_next_inbound(&mut cx);
                match r {
                    Poll::Pending => break,
                    Poll::Ready(Some(Ok(s))) => {
                        let _o = alloc::scope(false);
                        self.fresh.push_back(s)
                    }
                    Poll::Ready(Some(Err(e))) => {
                        let k = classify(&e);
                        drop(e);
                        self.end = Some(k)
                    }
                    Poll::Ready(None) => self.end = Some(EndK::Clean),
                }
            }
        }
    }

    pub fn feed(&mut self, b: &[u8]) {
        self.rx.lock().unwrap().push(b);
    }

    /// Frames written since the last call.
    pub fn out(&mut self) -> Vec<Fr> {
        let b = std::mem::take(&mut self.ctl.lock().unwrap().out);
        let mut v = vec![];
        self.outp.feed(&b, &mut v);
        v
    }
    /// Frames read since the last call.
    pub fn inn(&mut self) -> Vec<Fr> {
        let b = std::mem::take(&mut self.ctl.lock().unwrap().inn);
        let mut v = vec![];
        self.inp.feed(&b, &mut v);
        v
    }
    /// Discard what the transport holds, so that it never blocks.
    pub fn drain(&mut self) {
        let mut t = self.tx.lock().unwrap();
        let n = t.buf.len();
        t.take(n);
    }

    pub fn open(&mut self, f: &Arc<Flag>) -> Poll<Result<Stream, ConnectionError>> {
        let w = f.waker();
        let mut cx = Context::from_waker(&w);
        let _s = alloc::scope(true);
        self.conn.as_mut().unwrap().poll_new_outbound(&mut cx)
    }
}

pub fn write(h: &mut Stream, f: &Arc<Flag>, b: &[u8]) -> Poll<Result<usize, std::io::ErrorKind>> {
    let w = f.waker();
    let mut cx = Context::from_waker(&w);
    let _s = alloc::scope(true);
    Pin::new(h).poll_write(&mut cx, b).map_err(|e| e.kind())
}
pub fn read(h: &mut Stream, f: &Arc<Flag>, b: &mut [u8]) -> Poll<Result<usize, std::io::ErrorKind>> {
    let w = f.waker();
    let mut cx = Context::from_waker(&w);
    let _s = alloc::scope(true);
    Pin::new(h).poll_read(&mut cx, b).map_err(|e| e.kind())
}
pub fn close(h: &mut Stream, f: &Arc<Flag>) -> Poll<Result<(), std::io::ErrorKind>> {
    let w = f.waker();
    let mut cx = Context::from_waker(&w);
    let _s = alloc::scope(true);
    Pin::new(h).poll_close(&mut cx).map_err(|e| e.kind())
}
pub fn discard<T>(x: T) {
    let _s = alloc::scope(true);
    drop(x);
}
