//! W2: one real endpoint against a scripted peer, with an exact reference model of what the endpoint must do.
//! After every action the endpoint is driven until none of its tasks is woken, and what it emitted, returned and
//! reports is compared with the model.
use crate::common::*;
use crate::net::*;
use crate::wire::*;
use futures::io::{AsyncRead, AsyncWrite};
use futures::stream::Stream as _;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use yamux::{Connection, ConnectionError, FrameDecodeError, HeaderDecodeError, Mode, Stream};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Size {
    /// this many bytes, at most what the window has left
    N(u32),
    /// exactly what the window has left (at most the largest body)
    Fill,
    /// what the window has left, less this
    FillLess(u32),
    /// half of the window, plus or minus
    Half(i8),
    /// more than the window has left by this
    Over(u32),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Credit {
    N(u32),
    /// up to the largest representable allowance, less this
    Max(u32),
    /// beyond the largest representable allowance by 1 + this
    Overflow(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum IdKind {
    Next,
    Skip(u8),
    /// an id used before and finished
    Reuse(u8),
    WrongParity(u8),
    Zero,
    InUse(u8),
    /// an id the endpoint itself opened and still uses
    OwnInUse(u8),
    Top(u8),
}
/// A peer frame, resolved against the model when sent.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pf {
    Syn { wu: bool, id: IdKind, size: Size, credit: Credit, fin: bool },
    Data { st: u8, size: Size, fin: bool, ack: bool },
    Wu { st: u8, credit: Credit, fin: bool, ack: bool },
    Rst {
        st: u8,
        wu: bool,
        /// credit named in a window update that resets
        #[serde(default)]
        len: u32,
        /// other flags the reset carries
        #[serde(default)]
        flags: u16,
    },
    Ping { v: u32, syn: bool, sid: u8 },
    Pong { kind: u8, d: u32 },
    GoAway { code: u32 },
    Unknown { ty: u8, which: u8, len: u16, flags: u8 },
    Bad { kind: u8, v: u8, len: u32 },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    Open { n: u16 },
    Write { st: u8, n: u32 },
    WriteAll { st: u8, n: u32 },
    Read { st: u8, buf: u32 },
    ReadAll { st: u8, buf: u32 },
    Packet { st: u8, n: u8 },
    Close { st: u8 },
    Flush { st: u8 },
    Drop { st: u8 },
    Adv { us: u32 },
    /// The peer fills the window (or half of it) and everything is read, again and again; the clock advances by
    /// `rel` hundredths of the round-trip time in between.
    Pump { st: u8, rounds: u8, rel: u8, half: bool },
    /// frames, and the share (of 255) of their bytes delivered before the rest
    Peer { fr: Vec<Pf>, cut: u8 },
    CloseConn,
    /// Let the window grow as far as it goes, reading all the time so that little is buffered.
    PumpTop { st: u8, rel: u8 },
    /// end of input after all but `less` bytes of a last frame
    Eof { less: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct RawCase {
    pub client: bool,
    pub cfg: Cfg,
    pub wsched: Vec<u16>,
    pub rsched: Vec<u16>,
    pub acts: Vec<Act>,
    /// How many own ids are left (needs the hook; without it the case starts at the first id).
    #[serde(default)]
    pub ids_left: Option<u8>,
    /// every poll comes with a new waker, and only the latest one counts
    #[serde(default)]
    pub fresh: bool,
    /// The methods a closing connection is polled through.
    #[serde(default)]
    pub via: u8,
}

#[derive(Clone, Debug)]
enum Exp {
    Data { len: u64, flags: u16, off: u64 },
    Fin { flags: u16 },
    Wu { credit: u64, flags: u16 },
    Rst,
    /// reset of a stream the peer never heard of: may be omitted
    OptRst,
    FinOrRst,
}

struct Ms {
    id: u32,
    outbound: bool,
    h: Option<Stream>,
    live: bool,
    announced: bool,
    /// the peer acknowledged (outbound), or we sent our first frame (inbound)
    acked: bool,
    fin_in: bool,
    rst_in: bool,
    closed: bool,
    /// received and unread
    chunks: VecDeque<u64>,
    buffered: u64,
    rd: u64,
    recvd: u64,
    /// credit the peer has left
    rwin: u64,
    max: u64,
    last_wu: u64,
    credit: u64,
    written: u64,
    exp: VecDeque<Exp>,
    rflag: Arc<Flag>,
    wflag: Arc<Flag>,
    rpend: bool,
    wpend: bool,
}

impl Ms {
    fn new(id: u32, outbound: bool, now: u64) -> Ms {
        Ms {
            id,
            outbound,
            h: None,
            live: true,
            announced: !outbound,
            acked: false,
            fin_in: false,
            rst_in: false,
            closed: false,
            chunks: VecDeque::new(),
            buffered: 0,
            rd: 0,
            recvd: 0,
            rwin: WINDOW,
            max: WINDOW,
            last_wu: now,
            credit: WINDOW,
            written: 0,
            exp: VecDeque::new(),
            rflag: Flag::new(false),
            wflag: Flag::new(false),
            rpend: false,
            wpend: false,
        }
    }
    fn first_flag(&mut self) -> u16 {
        if self.outbound {
            if self.announced {
                0
            } else {
                self.announced = true;
                SYN
            }
        } else if self.acked {
            0
        } else {
            self.acked = true;
            ACK
        }
    }
    fn pending_ack(&self) -> bool {
        !self.acked && !self.fin_in && !self.rst_in && !self.closed
    }
    fn push(&mut self, n: u64) {
        if n > 0 {
            self.chunks.push_back(n);
        }
        self.buffered += n;
        self.recvd += n;
        self.rwin -= n;
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum EndK {
    Clean,
    Version(u8),
    Type(u8),
    Either(u8, u8),
    TooLarge(usize),
    Truncated,
    Other(String),
}
impl EndK {
    pub fn fits(&self, got: &EndK) -> bool {
        match (self, got) {
            (EndK::Either(v, _), EndK::Version(x)) => v == x,
            (EndK::Either(_, t), EndK::Type(x)) => t == x,
            (a, b) => a == b,
        }
    }
}
pub fn classify(e: &ConnectionError) -> EndK {
    match e {
        ConnectionError::Decode(FrameDecodeError::Header(HeaderDecodeError::Version(v))) => EndK::Version(*v),
        ConnectionError::Decode(FrameDecodeError::Header(HeaderDecodeError::Type(v))) => EndK::Type(*v),
        ConnectionError::Decode(FrameDecodeError::FrameTooLarge(n)) => EndK::TooLarge(*n),
        ConnectionError::Decode(FrameDecodeError::Io(e)) | ConnectionError::Io(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => EndK::Truncated,
        e => EndK::Other(format!("{e}")),
    }
}

struct World {
    o: Outcome,
    trace: bool,
    client: bool,
    cfg: Cfg,
    clock: web_time::virt::Clock,
    conn: Option<Connection<End>>,
    flag: Arc<Flag>,
    oflag: Arc<Flag>,
    opend: bool,
    ctl: Arc<Mutex<Ctl>>,
    tx: Arc<Mutex<Pipe>>,
    rx: Arc<Mutex<Pipe>>,
    outp: Parser,
    sts: Vec<Ms>,
    exp_in: VecDeque<usize>,
    exp_pongs: VecDeque<u32>,
    /// "" : none expected; otherwise what for
    exp_goaway: Option<(String, bool)>,
    goaway_seen: Option<u32>,
    exp_end: Option<(String, EndK)>,
    end: Option<EndK>,
    closing: bool,
    close_res: Option<Result<(), String>>,
    probe: Option<(u32, u64)>,
    /// when the connection was last polled
    last_poll: u64,
    last_answer: Option<u64>,
    rtt: Option<u64>,
    last_own: u32,
    no_ids: bool,
    next_peer: u32,
    pump_left: u64,
    used_peer: Vec<u32>,
    cur: String,
    polls: u64,
    moved: u64,
    fresh: bool,
    via: u8,
    close_polls: u32,
}

fn stop(w: &World) -> bool {
    !w.o.viol.is_empty()
}

impl World {
    fn now(&self) -> u64 {
        web_time::virt::now_nanos()
    }
    fn t(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.o.trace.push(s);
        }
    }
    /// Attribution: what an action exercises, plus what the deviation is about.
    fn v(&mut self, props: &str, tag: &'static str, msg: String) {
        let p = format!("{props} {}", self.cur);
        self.o.v(p, tag, msg);
    }
    fn drive(&mut self) {
        while self.flag.take() {
            if self.end.is_some() {
                return;
            }
            loop {
                self.polls += 1;
                let moved = {
                    let c = self.ctl.lock().unwrap();
                    c.nread + c.nwritten
                };
                if moved != self.moved {
                    self.moved = moved;
                    self.polls = 0;
                }
                if self.polls > 300_000 {
                    panic!("{}", LIVELOCK);
                }
                if self.fresh {
                    self.flag = Flag::new(false);
                }
                let w = self.flag.waker();
                let mut cx = Context::from_waker(&w);
                let conn = self.conn.as_mut().unwrap();
                if self.closing {
                    let r = match poll_closing(conn, &mut cx, self.via, &mut self.close_polls) {
                        Ok(r) => r,
                        Err(m) => {
                            self.v("C20", "close.contradiction", m.to_string());
                            Poll::Ready(Ok(()))
                        }
                    };
                    match r {
                        Poll::Pending => break,
                        Poll::Ready(r) => {
                            self.close_res = Some(r.map_err(|e| e.to_string()));
                            self.end = Some(EndK::Clean);
                            return;
                        }
                    }
                }
                self.last_poll = web_time::virt::now_nanos();
                match conn.poll_next_inbound(&mut cx) {
                    Poll::Pending => break,
                    Poll::Ready(Some(Ok(s))) => {
                        let id = s.id().val();
                        self.t(|| format!("    accepted {id}"));
                        match self.exp_in.front().copied() {
                            Some(i) if self.sts[i].id == id => {
                                self.exp_in.pop_front();
                                self.sts[i].h = Some(s);
                            }
                            x => {
                                let x = x.map(|i| self.sts[i].id);
                                self.v("C13 C14", "inbound.unexpected", format!("inbound stream {id} handed out, expected {x:?}"));
                                return;
                            }
                        }
                    }
                    Poll::Ready(Some(Err(e))) => {
                        self.t(|| format!("    connection ended: {e}"));
                        self.end = Some(classify(&e));
                        return;
                    }
                    Poll::Ready(None) => {
                        self.t(|| "    connection ended".into());
                        self.end = Some(EndK::Clean);
                        return;
                    }
                }
            }
        }
    }

    /// Collect what the endpoint emitted and compare with the model.
    fn compare(&mut self) {
        let out: Vec<u8> = {
            let mut c = self.ctl.lock().unwrap();
            std::mem::take(&mut c.out)
        };
        // keep the pipe empty so that it never blocks the endpoint
        let n = self.tx.lock().unwrap().buf.len();
        self.tx.lock().unwrap().take(n);
        self.ctl.lock().unwrap().inn.clear();
        let mut v = vec![];
        self.outp.feed(&out, &mut v);
        if let Some(b) = self.outp.bad.clone() {
            self.v("C17", "wire.malformed", b);
            return;
        }
        for f in v {
            self.t(|| format!("    -> {}", f.brief()));
            self.frame(f);
            if stop(self) {
                return;
            }
        }
        if self.outp.partial() && self.exp_end.is_none() {
            self.v("C17 C09", "wire.partial", "an incomplete frame was left on an idle transport".into());
        }
    }

    fn frame(&mut self, f: Fr) {
        let d = f.brief();
        let now = self.now();
        match f.ty {
            PING if f.flags == ACK && f.id == 0 => match self.exp_pongs.pop_front() {
                Some(x) if x == f.len => {}
                x => self.v("C19", "pong.wrong", format!("{d} sent, expected answer {x:?}")),
            },
            PING if f.flags == SYN && f.id == 0 => {
                if self.probe.is_some() {
                    self.v("C19", "probe.outstanding", format!("{d} sent while one is unanswered"));
                }
                if self.last_answer.is_some_and(|t| now - t < 10_000_000_000) {
                    self.v("C19", "probe.early", format!("{d} sent {} ns after the last answer", now - self.last_answer.unwrap()));
                }
                self.probe = Some((f.len, now));
                self.o.label("probe");
            }
            PING => self.v("C17 C19", "ping.form", d),
            GOAWAY => {
                if f.id != 0 || f.flags != 0 {
                    self.v("C17", "goaway.form", d.clone());
                }
                self.goaway_seen = Some(f.len);
                match &self.exp_goaway {
                    None if self.closing && f.len == 0 => {}
                    None => self.v("", "goaway.unexpected", format!("{d} sent although the peer did nothing wrong")),
                    Some((props, protocol)) => {
                        if (*protocol && f.len != 1) || f.len == 0 {
                            let p = props.clone();
                            self.v(&p, "goaway.code", format!("{d}, expected {}", if *protocol { "code 1" } else { "an error code" }));
                        }
                    }
                }
            }
            _ => {
                let Some(i) = self.sts.iter().rposition(|s| s.id == f.id) else {
                    self.v("C16 C22", "frame.unknown_stream", format!("{d} for a stream that does not exist"));
                    return;
                };
                let s = &mut self.sts[i];
                let mut e = s.exp.pop_front();
                if matches!(e, Some(Exp::OptRst)) && !f.has(RST) {
                    e = s.exp.pop_front();
                }
                let ok = match &e {
                    Some(Exp::Data { len, flags, off }) => {
                        let len_ok = f.ty == DATA && f.body.len() as u64 == *len;
                        if len_ok && f.flags == *flags {
                            if let Some(p) = pat::check(pat::key(0, f.id), *off, &f.body) {
                                let m = format!("{d} differs from the accepted bytes at offset {p}");
                                self.v(if self.closing { "C01 C20" } else { "C01" }, "wire.payload", m);
                            }
                        }
                        len_ok && f.flags == *flags
                    }
                    Some(Exp::Fin { flags }) => f.len == 0 && f.ty <= WU && f.flags == FIN | *flags,
                    Some(Exp::Wu { credit, flags }) => {
                        if f.ty == WU && f.flags == *flags && f.len as u64 != *credit {
                            let m = format!("{d} sent, expected credit {credit}");
                            self.v("C08 C07", "credit.amount", m);
                            return;
                        }
                        f.ty == WU && f.flags == *flags
                    }
                    Some(Exp::Rst) | Some(Exp::OptRst) => f.len == 0 && f.flags & !(SYN | ACK) == RST,
                    Some(Exp::FinOrRst) => f.len == 0 && (f.flags & !ACK == FIN || f.flags & !(ACK | FIN) == RST),
                    None => false,
                };
                if !ok {
                    let s = &self.sts[i];
                    let flags_only = match &e {
                        Some(Exp::Data { len, .. }) => f.ty == DATA && f.body.len() as u64 == *len,
                        Some(Exp::Wu { .. }) => f.ty == WU,
                        Some(Exp::Fin { .. }) => f.has(FIN),
                        _ => false,
                    };
                    let props = if flags_only {
                        if s.outbound {
                            "C16"
                        } else {
                            "C16 C15"
                        }
                    } else if f.ty == WU {
                        "C08"
                    } else if f.has(RST) {
                        "C04 C16"
                    } else if f.has(FIN) {
                        "C16 C03"
                    } else if f.body.is_empty() {
                        "C16"
                    } else {
                        "C01 C16"
                    };
                    self.v(props, "frame.unexpected", format!("{d} sent, expected {e:?}"));
                }
            }
        }
    }

    /// After settling: nothing expected may be missing, every waiting task must have been woken if it can go on.
    fn settled(&mut self) {
        self.drive();
        if stop(self) {
            return;
        }
        self.compare();
        if stop(self) {
            return;
        }
        if let Some((props, end)) = self.exp_end.clone() {
            match &self.end {
                None => self.v(&props, "end.missing", format!("the connection goes on, expected {end:?}")),
                Some(g) if !end.fits(g) => {
                    let g = g.clone();
                    self.v(&props, "end.wrong", format!("the connection ended with {g:?}, expected {end:?}"))
                }
                _ => {}
            }
        } else if let (Some(g), false) = (self.end.clone(), self.closing) {
            self.v("C21", "end.unexpected", format!("the connection ended with {g:?}"));
        }
        if stop(self) {
            return;
        }
        if self.end.is_none() || self.closing {
            if let (Some((p, _)), None) = (self.exp_goaway.clone(), self.goaway_seen) {
                self.v(&p, "goaway.missing", "no GoAway was sent".into());
            }
            let now = self.now();
            let due = self.last_answer.is_none_or(|t| now - t > 10_000_000_000);
            if due && self.probe.is_none() && self.last_poll == now && !self.closing && self.exp_end.is_none() {
                let m = format!("the endpoint has been polled, but no probe sent; the last one was answered at {:?}", self.last_answer);
                self.v("C19", "probe.missing", m);
            }
            if !self.exp_pongs.is_empty() {
                let m = format!("pings not answered: {:?}", self.exp_pongs);
                self.v("C19", "pong.missing", m);
            }
            if let Some(i) = self.exp_in.front() {
                let m = format!("inbound stream {} was not handed out", self.sts[*i].id);
                self.v("C13", "inbound.missing", m);
            }
            for i in 0..self.sts.len() {
                let s = &self.sts[i];
                if let Some(e) = s.exp.iter().find(|e| !matches!(e, Exp::OptRst)) {
                    let props = match e {
                        Exp::Wu { .. } if s.closed => "C08 C09 C03",
                        Exp::Data { .. } => "C01 C09",
                        Exp::Fin { .. } => "C02 C03 C09",
                        Exp::Wu { .. } => "C08 C09",
                        _ => "C04 C09",
                    };
                    let m = format!("stream {}: {e:?} was not sent", s.id);
                    self.v(props, "frame.missing", m);
                    return;
                }
            }
        }
        for s in self.sts.iter_mut() {
            s.exp.clear();
        }
        self.wakes();
        self.status();
        self.windows();
    }

    fn ended(&self) -> bool {
        self.end.is_some()
    }

    fn wakes(&mut self) {
        let ended = self.ended();
        let mut bad = vec![];
        for s in self.sts.iter_mut() {
            if s.rpend && (s.buffered > 0 || s.fin_in || s.rst_in || ended) {
                if !s.rflag.get() {
                    bad.push((if ended { "C09 C20 C21" } else { "C09 C02" }, "wake.reader", format!("the task waiting to read stream {} was not woken", s.id)));
                }
                s.rpend = false;
            }
            if s.wpend && (s.credit > 0 || s.rst_in || ended) {
                if !s.wflag.get() {
                    bad.push((
                        if ended { "C09 C20 C21" } else if s.rst_in { "C09 C04" } else { "C09 C05" },
                        "wake.writer",
                        format!("the task waiting to write stream {} was not woken", s.id),
                    ));
                }
                s.wpend = false;
            }
        }
        if self.opend && (ended || self.backlog() < 256) {
            if !self.oflag.get() {
                bad.push((if ended { "C09 C20 C21" } else { "C09 C15" }, "wake.opener", "the task waiting to open was not woken".into()));
            }
            self.opend = false;
        }
        for (p, t, m) in bad {
            self.v(p, t, m);
        }
    }

    fn backlog(&self) -> usize {
        self.sts.iter().filter(|s| s.live && s.outbound && s.pending_ack()).count()
    }

    fn status(&mut self) {
        let ended = self.ended();
        let mut bad = vec![];
        for s in &self.sts {
            let Some(h) = &s.h else { continue };
            let closed = s.rst_in || ended || (s.fin_in && s.closed);
            let wclosed = s.closed && !closed;
            let ack = s.pending_ack() && !ended;
            if h.is_closed() != closed {
                bad.push(("C03", "status.closed", format!("stream {}: is_closed() is {}", s.id, h.is_closed())));
            }
            if h.is_write_closed() != wclosed {
                bad.push(("C03", "status.write_closed", format!("stream {}: is_write_closed() is {}", s.id, h.is_write_closed())));
            }
            if h.is_pending_ack() != ack {
                bad.push(("C15", "status.pending_ack", format!("stream {}: is_pending_ack() is {}", s.id, h.is_pending_ack())));
            }
        }
        for (p, t, m) in bad {
            self.v(p, t, m);
        }
    }

    /// C07 on the history itself, not on the model's idea of the windows.
    fn windows(&mut self) {
        let sum: u64 = self.sts.iter().filter(|s| s.live).map(|s| s.rwin + s.buffered).sum();
        if let Some(l) = self.cfg.limit() {
            if sum > l as u64 {
                self.v("C07", "window.sum", format!("{sum} bytes of receive window outstanding, configured maximum {l}"));
            }
        }
    }

    // ---- application actions ----

    fn pick(&self, st: u8, f: impl Fn(&Ms) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.sts.len()).filter(|i| f(&self.sts[*i])).collect();
        if v.is_empty() {
            None
        } else if st == 255 {
            v.last().copied()
        } else {
            Some(v[st as usize % v.len()])
        }
    }

    fn live(&self) -> usize {
        self.sts.iter().filter(|s| s.live).count()
    }

    fn open(&mut self) -> bool {
        let full = self.live() >= self.cfg.max_streams as usize;
        let backlog = self.backlog() >= 256;
        // the very last id of a parity may or may not be handed out
        let next = self.last_own as u64 + if self.last_own == 0 && self.client { 1 } else { 2 };
        let used_up = next > u32::MAX as u64;
        let last = next + 2 > u32::MAX as u64;
        if self.fresh {
            self.oflag = Flag::new(false);
        }
        let w = self.oflag.waker();
        let mut cx = Context::from_waker(&w);
        self.oflag.take();
        self.opend = false;
        let r = self.conn.as_mut().unwrap().poll_new_outbound(&mut cx);
        match r {
            Poll::Ready(Ok(s)) => {
                let id = s.id().val();
                self.t(|| format!("    opened {id}"));
                self.o.label("opened");
                if full {
                    self.v("C14", "open.beyond_limit", format!("stream {id} opened beyond the limit of {}", self.cfg.max_streams));
                }
                if backlog {
                    self.v("C15", "open.beyond_backlog", format!("stream {id} opened although 256 are unacknowledged"));
                }
                if id == 0 || (id % 2 == 1) != self.client || id <= self.last_own || self.no_ids {
                    self.v("C12", "open.id", format!("opened stream got id {id} after {}", self.last_own));
                }
                self.last_own = id;
                if last {
                    self.o.label("last-id");
                }
                let mut m = Ms::new(id, true, self.now());
                m.h = Some(s);
                self.sts.push(m);
                true
            }
            Poll::Ready(Err(ConnectionError::NoMoreStreamIds)) if (used_up || last) && !full && !backlog => {
                self.o.label("ids-used-up");
                self.t(|| "    open: no more ids".into());
                self.no_ids = true;
                false
            }
            Poll::Ready(Err(ConnectionError::TooManyStreams)) if full => {
                self.o.label("open-limit");
                self.t(|| "    open: too many streams".into());
                false
            }
            Poll::Pending if backlog && !full => {
                self.o.label("open-backlog");
                self.t(|| "    open: waits".into());
                self.opend = true;
                false
            }
            Poll::Ready(Err(e)) => {
                self.v("C14 C12", "open.err", format!("opening a stream failed: {e} ({} live, {} unacknowledged)", self.live(), self.backlog()));
                false
            }
            Poll::Pending => {
                self.v(if full { "C14 C15 C09" } else { "C15 C09" }, "open.waits", format!("opening a stream waits ({} live, {} unacknowledged)", self.live(), self.backlog()));
                false
            }
        }
    }

    /// One write poll; returns bytes accepted, None when it did not accept.
    fn write(&mut self, i: usize, n: usize) -> Option<usize> {
        let s = &mut self.sts[i];
        let id = s.id;
        let buf = pat::fill(pat::key(0, id), s.written, n);
        if self.fresh {
            s.wflag = Flag::new(false);
        }
        let w = s.wflag.waker();
        let mut cx = Context::from_waker(&w);
        s.wflag.take();
        s.wpend = false;
        let r = Pin::new(s.h.as_mut().unwrap()).poll_write(&mut cx, &buf);
        let refuse = s.closed || s.rst_in;
        let credit = s.credit;
        match r {
            Poll::Ready(Ok(k)) => {
                let most = (n as u64).min(credit).min(self.cfg.split() as u64).min(MAX_BODY as u64);
                self.t(|| format!("    wrote {k} of {n} on {id}"));
                if refuse {
                    let p = if self.sts[i].closed { "C03" } else { "C04" };
                    self.v(p, "write.accepted", format!("write on {id} accepted although the stream is closed for writing"));
                    return None;
                }
                if k as u64 > credit {
                    self.v("C05", "credit.exceeded", format!("write of {k} bytes on {id} accepted with credit {credit}"));
                    return None;
                }
                if k as u64 > most || (k == 0 && n > 0) {
                    self.v("C01 C05 C17", "write.count", format!("write of {n} bytes on {id} accepted {k}, at most {most} possible"));
                    return None;
                }
                if k == 0 && credit == 0 {
                    self.v("C05", "write.nocredit", format!("write on {id} went through without credit"));
                    return None;
                }
                let s = &mut self.sts[i];
                s.credit -= k as u64;
                let flags = s.first_flag();
                s.exp.push_back(Exp::Data { len: k as u64, flags, off: s.written });
                s.written += k as u64;
                if s.credit == 0 {
                    self.o.label("credit-exhausted");
                }
                Some(k)
            }
            Poll::Ready(Err(e)) => {
                self.t(|| format!("    write on {id} failed: {e}"));
                if !refuse {
                    self.v("C03 C04 C05", "write.err", format!("write on {id} failed: {e}"));
                } else {
                    self.o.label("write-refused");
                }
                None
            }
            Poll::Pending => {
                self.t(|| format!("    write on {id} waits"));
                if refuse {
                    let p = if self.sts[i].closed { "C03" } else { "C04" };
                    self.v(p, "write.hangs", format!("write on {id} waits although the stream is closed for writing"));
                } else if credit > 0 {
                    let p = if self.sts[i].fin_in { "C05 C09 C03" } else { "C05 C09" };
                    self.v(p, "write.waits", format!("write on {id} waits with credit {credit}"));
                } else {
                    self.sts[i].wpend = true;
                    self.o.label("write-waits");
                }
                None
            }
        }
    }

    /// The credit a read poll has to return now.
    fn read_credit(&mut self, i: usize) {
        let now = self.now();
        let acc: u64 = self.sts.iter().filter(|s| s.live).map(|s| s.max - WINDOW).sum();
        let avail = self.cfg.limit().map(|l| l as u64 - self.cfg.max_streams as u64 * WINDOW - acc);
        let rtt = self.rtt;
        let s = &mut self.sts[i];
        if s.fin_in || s.rst_in || self.end.is_some() {
            return;
        }
        let consumed = s.max - s.rwin - s.buffered;
        if consumed < s.max / 2 {
            return;
        }
        self.o.label("window-update");
        if rtt.is_some_and(|r| now - s.last_wu < 2 * r) {
            let want = (s.max * 2).min(u32::MAX as u64);
            let new = avail.map_or(want, |a| want.min(s.max + a));
            if new < want {
                self.o.label("window-capped");
            }
            if new > s.max {
                self.o.label("window-grown");
            }
            s.max = new;
        } else if s.max > WINDOW || rtt.is_some() {
            self.o.label("window-kept");
        }
        let credit = s.max - s.rwin - s.buffered;
        s.rwin += credit;
        s.last_wu = now;
        let flags = s.first_flag();
        s.exp.push_back(Exp::Wu { credit, flags });
    }

    /// One read poll; returns Some(n) for n bytes, Some(0) for end of stream, None when pending.
    fn read(&mut self, i: usize, buf: usize, packet: bool) -> Option<usize> {
        self.read_credit(i);
        let ended = self.end.is_some();
        let cut = ended && !self.cfg.rac;
        let s = &mut self.sts[i];
        let id = s.id;
        let eof = s.fin_in || s.rst_in || ended;
        if self.fresh {
            s.rflag = Flag::new(false);
        }
        let w = s.rflag.waker();
        let mut cx = Context::from_waker(&w);
        s.rflag.take();
        s.rpend = false;
        let h = s.h.as_mut().unwrap();
        let r: Poll<Result<Option<Vec<u8>>, std::io::Error>> = if packet {
            match Pin::new(h).poll_next(&mut cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(None) => Poll::Ready(Ok(None)),
                Poll::Ready(Some(Ok(p))) => Poll::Ready(Ok(Some(p.as_ref().to_vec()))),
                Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e)),
            }
        } else {
            let mut b = vec![0u8; buf];
            match Pin::new(h).poll_read(&mut cx, &mut b) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Ok(0)) => Poll::Ready(Ok(None)),
                Poll::Ready(Ok(k)) => {
                    b.truncate(k);
                    Poll::Ready(Ok(Some(b)))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            }
        };
        let endp = if ended { " C20 C21" } else { "" };
        match r {
            Poll::Ready(Ok(Some(b))) => {
                let k = b.len();
                self.t(|| format!("    read {k} on {id}"));
                if cut {
                    self.v("C21 C20", "read.after_end", format!("read on {id} returned data after the end, though configured not to"));
                    return None;
                }
                let s = &self.sts[i];
                if k as u64 > s.buffered {
                    let m = format!("read on {id} returned {k} bytes but only {} were received", s.buffered);
                    self.v("C01 C06", "read.surplus", m);
                    return None;
                }
                if let Some(p) = pat::check(pat::key(1, id), s.rd, &b) {
                    let m = format!("read on {id}: byte {} is not the one sent", s.rd + p as u64);
                    self.v("C01", "read.bytes", m);
                    return None;
                }
                let s = &mut self.sts[i];
                s.rd += k as u64;
                s.buffered -= k as u64;
                self.o.label("bytes-read");
                Some(k)
            }
            Poll::Ready(Ok(None)) => {
                self.t(|| format!("    eof on {id}"));
                let s = &self.sts[i];
                if cut {
                    return Some(0);
                }
                if s.buffered > 0 {
                    let m = format!("end of stream on {id} with {} bytes unread", s.buffered);
                    self.v(&format!("C02 C01{endp}"), "eof.early", m);
                } else if !eof {
                    self.v("C02", "eof.spurious", format!("end of stream on {id} although the peer did not finish"));
                } else {
                    self.o.label("eof");
                }
                Some(0)
            }
            Poll::Ready(Err(e)) => {
                self.v(&format!("C02 C01{endp}"), "read.err", format!("read on {id} failed: {e}"));
                None
            }
            Poll::Pending => {
                self.t(|| format!("    read on {id} waits"));
                let s = &self.sts[i];
                if s.buffered > 0 {
                    let m = format!("read on {id} waits with {} bytes received", s.buffered);
                    self.v(&format!("C01 C09{endp}"), "read.waits", m);
                } else if eof {
                    self.v(&format!("C02 C09{endp}"), "eof.missing", format!("read on {id} waits although the stream has ended"));
                } else {
                    self.sts[i].rpend = true;
                    self.o.label("read-waits");
                }
                None
            }
        }
    }

    fn close_stream(&mut self, i: usize) {
        let s = &mut self.sts[i];
        let id = s.id;
        let w = s.wflag.waker();
        let mut cx = Context::from_waker(&w);
        let r = Pin::new(s.h.as_mut().unwrap()).poll_close(&mut cx);
        self.t(|| format!("    close {id}: {r:?}"));
        let s = &mut self.sts[i];
        match r {
            Poll::Ready(Ok(())) => {
                if !s.closed && !s.rst_in {
                    let flags = s.first_flag();
                    s.exp.push_back(Exp::Fin { flags });
                    s.closed = true;
                    s.wpend = false;
                    if s.fin_in {
                        self.o.label("closed-both");
                    }
                } else {
                    self.o.label("closed-again");
                }
            }
            r => self.v("C03", "close.err", format!("closing {id}: {r:?}")),
        }
    }

    fn drop_stream(&mut self, i: usize) {
        let s = &mut self.sts[i];
        let id = s.id;
        s.h = None;
        s.live = false;
        s.rpend = false;
        s.wpend = false;
        if s.rst_in || s.closed {
        } else if s.fin_in {
            s.exp.push_back(Exp::FinOrRst);
        } else if s.announced {
            s.exp.push_back(Exp::Rst);
        } else {
            s.exp.push_back(Exp::OptRst);
        }
        if !s.outbound {
            self.used_peer.push(id);
        }
        self.o.label("dropped");
        self.t(|| format!("    drop {id}"));
    }

    // ---- the peer ----

    /// Resolve a frame; None when it makes no sense now. Sets the expectations. Second: fatal.
    fn resolve(&mut self, p: &Pf) -> Option<(Vec<u8>, bool)> {
        let now = self.now();
        match p {
            Pf::Syn { wu, id, size, credit, fin } => {
                let parity = if self.client { 0 } else { 1 };
                let id = match id {
                    IdKind::Next => self.next_peer,
                    IdKind::Skip(k) => self.next_peer.checked_add(2 * *k as u32)?,
                    IdKind::Reuse(k) => {
                        let v: Vec<u32> = self.used_peer.iter().copied().filter(|id| !self.sts.iter().any(|s| s.live && s.id == *id)).collect();
                        if v.is_empty() {
                            return None;
                        }
                        v[*k as usize % v.len()]
                    }
                    IdKind::WrongParity(k) => 2 * *k as u32 + if self.client { 1 } else { 2 },
                    IdKind::Zero => 0,
                    IdKind::InUse(k) => self.pick(*k, |s| s.live && !s.outbound && !s.rst_in && !s.fin_in).map(|i| self.sts[i].id)?,
                    IdKind::OwnInUse(k) => self.pick(*k, |s| s.live && s.outbound).map(|i| self.sts[i].id)?,
                    IdKind::Top(k) => u32::MAX - (1 - parity) - 2 * *k as u32,
                };
                let valid = id != 0 && (id % 2 == 1) != self.client;
                let in_use = self.sts.iter().any(|s| s.live && s.id == id);
                let full = self.live() >= self.cfg.max_streams as usize;
                let (fr, too_much) = if *wu {
                    let c = match credit {
                        Credit::N(n) => (*n as u64).min(u32::MAX as u64 - WINDOW),
                        Credit::Max(l) => u32::MAX as u64 - WINDOW - (*l as u64).min(1 << 20),
                        Credit::Overflow(l) => (u32::MAX as u64 - WINDOW + 1 + *l as u64).min(u32::MAX as u64),
                    };
                    let mut f = Fr::new(WU, SYN, id, c as u32);
                    if *fin {
                        f.flags |= FIN
                    }
                    (f, c > u32::MAX as u64 - WINDOW)
                } else {
                    let n = match size {
                        Size::N(n) => (*n as u64).min(WINDOW),
                        Size::Fill => WINDOW,
                        Size::FillLess(n) => WINDOW - (*n as u64).min(WINDOW),
                        Size::Half(d) => (WINDOW / 2).wrapping_add_signed(*d as i64),
                        Size::Over(n) => (WINDOW + *n as u64).clamp(WINDOW + 1, MAX_BODY as u64),
                    };
                    let mut f = Fr::data(SYN, id, pat::fill(pat::key(1, id), 0, n as usize));
                    if *fin {
                        f.flags |= FIN
                    }
                    (f, n > WINDOW)
                };
                self.t(|| format!("    <- {}", fr.brief()));
                if !valid || in_use || too_much {
                    self.o.label(if !valid { "syn-bad-id" } else if in_use { "syn-in-use" } else { "syn-too-much" });
                    let props = if too_much && valid && !in_use { if *wu { "C13 C05" } else { "C13 C06" } } else { "C13" };
                    self.exp_goaway = Some((props.into(), !full));
                    self.cur += " C13";
                    return Some((fr.encode(), true));
                }
                if full {
                    self.o.label("syn-limit");
                    self.exp_goaway = Some(("C14".into(), false));
                    self.cur += " C14";
                    return Some((fr.encode(), true));
                }
                self.cur += " C13";
                if self.live() + 1 == self.cfg.max_streams as usize {
                    self.cur += " C14";
                }
                if id >= self.next_peer {
                    self.next_peer = id.checked_add(2).unwrap_or(id);
                }
                let mut m = Ms::new(id, false, now);
                m.fin_in = *fin;
                if *wu {
                    m.credit += fr.len as u64
                } else {
                    m.push(fr.body.len() as u64)
                }
                self.sts.push(m);
                self.exp_in.push_back(self.sts.len() - 1);
                self.o.label("syn");
                Some((fr.encode(), false))
            }
            Pf::Data { st, size, fin, ack } => {
                let i = self.pick(*st, |s| s.live && s.announced && !s.fin_in && !s.rst_in)?;
                let s = &mut self.sts[i];
                let n = match size {
                    Size::N(n) => (*n as u64).min(s.rwin),
                    Size::Fill => s.rwin,
                    Size::FillLess(n) => s.rwin.saturating_sub(*n as u64),
                    Size::Half(d) => (s.max / 2).saturating_add_signed(*d as i64).min(s.rwin),
                    Size::Over(n) => s.rwin + *n as u64 + 1,
                };
                if n > MAX_BODY as u64 && matches!(size, Size::Over(_)) {
                    return None;
                }
                let n = n.min(MAX_BODY as u64);
                let over = n > s.rwin;
                let mut f = Fr::data(0, s.id, pat::fill(pat::key(1, s.id), s.recvd, n as usize));
                if *fin {
                    f.flags |= FIN;
                }
                if *ack && s.outbound && !s.acked {
                    f.flags |= ACK;
                    s.acked = true;
                    self.cur += " C15";
                }
                self.cur += " C06";
                let s = &mut self.sts[i];
                if over {
                    self.exp_goaway = Some(("C06".into(), true));
                    self.o.label("data-beyond-window");
                } else {
                    s.push(n);
                    if *fin {
                        s.fin_in = true;
                        self.cur += " C02";
                        self.o.label("fin-in");
                    }
                    if self.sts[i].rwin == 0 {
                        self.o.label("window-filled");
                    }
                }
                self.t(|| format!("    <- {}", f.brief()));
                Some((f.encode(), over))
            }
            Pf::Wu { st, credit, fin, ack } => {
                let i = self.pick(*st, |s| s.live && s.announced && !s.rst_in)?;
                let s = &mut self.sts[i];
                let room = u32::MAX as u64 - s.credit;
                let c = match credit {
                    Credit::N(n) => (*n as u64).min(room),
                    Credit::Max(l) => room.saturating_sub(*l as u64),
                    Credit::Overflow(l) => (room + 1 + *l as u64).min(u32::MAX as u64),
                };
                let over = c > room;
                if matches!(credit, Credit::Overflow(_)) && !over {
                    return None;
                }
                let mut f = Fr::new(WU, 0, s.id, c as u32);
                let fin = *fin && !s.fin_in;
                if fin {
                    f.flags |= FIN;
                }
                if *ack && s.outbound && !s.acked && !s.fin_in {
                    f.flags |= ACK;
                    s.acked = true;
                    self.cur += " C15";
                }
                self.cur += " C05";
                let s = &mut self.sts[i];
                if over {
                    self.exp_goaway = Some(("C05".into(), true));
                    self.o.label("credit-overflow");
                } else {
                    s.credit += c;
                    if fin {
                        s.fin_in = true;
                        self.cur += " C02";
                        self.o.label("fin-in");
                    }
                    self.o.label("credit-in");
                }
                self.t(|| format!("    <- {}", f.brief()));
                Some((f.encode(), over))
            }
            Pf::Rst { st, wu, len, flags } => {
                let i = self.pick(*st, |s| s.live && s.announced && !s.rst_in)?;
                let s = &mut self.sts[i];
                s.rst_in = true;
                let f = Fr::new(if *wu { WU } else { DATA }, RST | flags, s.id, if *wu { *len } else { 0 });
                if s.outbound && flags & ACK != 0 {
                    s.acked = true;
                }
                if *wu && *len > 0 {
                    self.o.label("reset-with-credit");
                }
                self.cur += " C04";
                self.o.label("reset");
                self.t(|| format!("    <- {}", f.brief()));
                Some((f.encode(), false))
            }
            Pf::Ping { v, syn, sid } => {
                let id = if *sid < 128 { 0 } else { self.pick(*sid, |s| s.live && s.announced).map(|i| self.sts[i].id)? };
                let f = Fr::new(PING, if *syn { SYN } else { 0 }, id, *v);
                self.exp_pongs.push_back(*v);
                self.cur += " C19";
                self.o.label("ping");
                self.t(|| format!("    <- {}", f.brief()));
                Some((f.encode(), false))
            }
            Pf::Pong { kind, d } => {
                self.cur += " C19";
                let (v, ok) = match (kind % 4, self.probe) {
                    (0 | 1, Some((id, _))) => (id, true),
                    (0 | 1, None) => return None,
                    (2, Some((id, _))) => (id.wrapping_add(1).wrapping_add(*d % 1000), *d == u32::MAX),
                    (3, Some((id, _))) if d % 2 == 1 => (id ^ 1 << (d >> 1) % 32, false),
                    (3, Some((id, _))) => (id.wrapping_sub(1), false),
                    // nothing outstanding: a repeated or invented answer
                    (_, None) => (d % 4, false),
                    _ => unreachable!(),
                };
                let f = Fr::new(PING, ACK, 0, v);
                self.t(|| format!("    <- {}", f.brief()));
                if ok {
                    let (_, at) = self.probe.take().unwrap();
                    self.rtt = Some(now - at);
                    self.last_answer = Some(now);
                    self.o.label("pong-ok");
                    Some((f.encode(), false))
                } else {
                    self.exp_goaway = Some(("C19".into(), true));
                    self.o.label("pong-bad");
                    Some((f.encode(), true))
                }
            }
            Pf::GoAway { code } => {
                let f = Fr::new(GOAWAY, 0, 0, *code);
                self.t(|| format!("    <- {}", f.brief()));
                self.exp_end = Some(("C21".into(), EndK::Clean));
                self.cur += " C21";
                self.o.label("goaway-in");
                Some((f.encode(), true))
            }
            Pf::Unknown { ty, which, len, flags } => {
                // an id no live stream has
                let dead: Vec<u32> = self.sts.iter().filter(|s| !s.live).map(|s| s.id).filter(|id| !self.sts.iter().any(|s| s.live && s.id == *id)).collect();
                let id = match which % 5 {
                    0 | 1 if !dead.is_empty() => dead[*which as usize / 5 % dead.len()],
                    2 => self.last_own.wrapping_add(2 * (1 + *which as u32 / 5) + if self.last_own == 0 && self.client { 1 } else { 0 }),
                    3 => self.next_peer.saturating_add(2 * (*which as u32 / 5)),
                    4 if *ty % 3 != 2 => 0,
                    _ => u32::MAX - *which as u32,
                };
                if self.sts.iter().any(|s| s.live && s.id == id) {
                    return None;
                }
                let fl = [0, FIN, RST, ACK, 0, FIN | ACK][*flags as usize % 6];
                let f = match ty % 3 {
                    0 => Fr::data(fl, id, vec![0xEE; if *len > 60_000 { 300_000 } else { *len as usize % 3000 }]),
                    1 => Fr::new(WU, fl, id, if *len > 30_000 { u32::MAX - *len as u32 } else { *len as u32 }),
                    _ => {
                        if id == 0 {
                            return None;
                        }
                        Fr::new(PING, if fl & FIN != 0 { 0 } else { SYN }, id, *len as u32)
                    }
                };
                self.cur += " C22";
                self.o.label("unknown-frame");
                self.t(|| format!("    <- {} (unknown)", f.brief()));
                Some((f.encode(), false))
            }
            Pf::Bad { kind, v, len } => {
                self.cur += " C18 C21";
                let mut f = Fr::new(DATA, 0, 1, 0);
                let e = match kind % 4 {
                    0 => {
                        f.ver = (*v).max(1);
                        f.ty = (*len % 4) as u8;
                        EndK::Version(f.ver)
                    }
                    1 => {
                        f.ty = (*v).max(4);
                        EndK::Type(f.ty)
                    }
                    2 => {
                        f.ver = (*v).max(1);
                        f.ty = 4 + (*len % 252) as u8;
                        EndK::Either(f.ver, f.ty)
                    }
                    _ => {
                        f.len = (MAX_BODY as u32).saturating_add(1).saturating_add(if *v < 64 { 0 } else { *len });
                        EndK::TooLarge(f.len as usize)
                    }
                };
                self.t(|| format!("    <- ver {} type {} len {}", f.ver, f.ty, f.len));
                self.exp_end = Some(("C18 C21".into(), e));
                self.o.label("bad-frame");
                Some((f.encode(), true))
            }
        }
    }

    fn peer(&mut self, fr: &[Pf], cut: u8) {
        let mut bytes = vec![];
        let mut fatal = false;
        for p in fr {
            if let Some((b, f)) = self.resolve(p) {
                bytes.extend(b);
                if f {
                    fatal = true;
                    break;
                }
            }
        }
        let _ = fatal;
        if cut > 0 {
            let k = bytes.len() * cut as usize / 256;
            self.rx.lock().unwrap().push(&bytes[..k]);
            self.drive();
            self.rx.lock().unwrap().push(&bytes[k..]);
        } else {
            self.rx.lock().unwrap().push(&bytes);
        }
    }

    /// The connection has ended: everything must complete, and the transport must be left alone.
    fn post_end(&mut self) {
        self.cur = if self.closing { "C20".into() } else { "C21".into() };
        if self.closing {
            if let Some(Err(e)) = self.close_res.clone() {
                self.v("", "close.err", format!("closing the connection failed: {e}"));
            }
            let c = self.ctl.lock().unwrap();
            let (closed, wac) = (c.closed, c.write_after_close);
            drop(c);
            if self.goaway_seen != Some(0) {
                self.v("", "close.goaway", format!("closed with GoAway {:?}", self.goaway_seen));
            }
            if !closed || wac {
                self.v("", "close.transport", format!("transport closed {closed}, written after close {wac}"));
            }
        }
        let before = {
            let c = self.ctl.lock().unwrap();
            (c.calls, c.nwritten)
        };
        let w = self.flag.waker();
        let mut cx = Context::from_waker(&w);
        let conn = self.conn.as_mut().unwrap();
        let r = conn.poll_new_outbound(&mut cx);
        if !matches!(r, Poll::Ready(Err(ConnectionError::Closed))) {
            let m = match r {
                Poll::Pending => "waits".to_string(),
                Poll::Ready(Ok(_)) => "succeeds".to_string(),
                Poll::Ready(Err(e)) => format!("fails with {e}"),
            };
            self.v("", "end.open", format!("opening a stream on the ended connection {m}"));
        }
        for _ in 0..2 {
            let conn = self.conn.as_mut().unwrap();
            match conn.poll_next_inbound(&mut cx) {
                Poll::Ready(None) => {}
                Poll::Pending => self.v("", "end.inbound", "polling for inbound streams waits after the end".into()),
                Poll::Ready(Some(Ok(_))) => self.v("C13", "end.inbound", "an inbound stream after the end".into()),
                Poll::Ready(Some(Err(e))) => self.v("", "end.inbound", format!("the cause of the end was reported again: {e}")),
            }
        }
        let conn = self.conn.as_mut().unwrap();
        match conn.poll_close(&mut cx) {
            Poll::Ready(Ok(())) => {}
            r => self.v("", "end.close", format!("closing the ended connection: {r:?}")),
        }
        for i in 0..self.sts.len() {
            if self.sts[i].h.is_none() {
                continue;
            }
            let mut n = 0;
            while !stop(self) {
                let packet = n % 3 == 1;
                n += 1;
                match self.read(i, 5000, packet) {
                    Some(0) => {
                        if self.sts[i].buffered == 0 || !self.cfg.rac || n > 100_000 {
                            break;
                        }
                    }
                    Some(_) => {}
                    None => break,
                }
            }
            if stop(self) {
                return;
            }
            let id = self.sts[i].id;
            let wk = self.sts[i].wflag.waker();
            let mut cx = Context::from_waker(&wk);
            let h = self.sts[i].h.as_mut().unwrap();
            match Pin::new(h).poll_write(&mut cx, &[1]) {
                Poll::Ready(Err(_)) => {}
                r => self.v("", "end.write", format!("write on {id} after the end: {r:?}")),
            }
            let h = self.sts[i].h.as_mut().unwrap();
            if Pin::new(h).poll_flush(&mut cx).is_pending() {
                self.v("", "end.flush", format!("flush on {id} waits after the end"));
            }
            let h = self.sts[i].h.as_mut().unwrap();
            if Pin::new(h).poll_close(&mut cx).is_pending() {
                self.v("", "end.close_stream", format!("close of {id} waits after the end"));
            }
        }
        let after = {
            let c = self.ctl.lock().unwrap();
            (c.calls, c.nwritten)
        };
        if before != after {
            self.v("", "end.transport", "the transport was used after the connection had ended".into());
        }
    }

    /// After an error GoAway: what was accepted before must be untouched.
    fn post_goaway(&mut self) {
        for i in 0..self.sts.len() {
            if self.sts[i].h.is_none() {
                continue;
            }
            let mut n = 0;
            while !stop(self) {
                n += 1;
                match self.read(i, 7000, n % 4 == 3) {
                    Some(0) if self.sts[i].buffered > 0 => {}
                    Some(0) => break,
                    Some(_) => {}
                    None => break,
                }
            }
            self.sts[i].exp.clear();
        }
    }

    fn read_all(&mut self, i: usize, buf: usize) {
        self.read_all_by(i, buf, 0)
    }

    /// `packets`: every so many reads are of a packet.
    fn read_all_by(&mut self, i: usize, buf: usize, packets: usize) {
        for k in 0..3000 {
            match self.read(i, buf, packets > 0 && k % packets == packets - 1) {
                Some(0) | None => break,
                _ => {}
            }
            if stop(self) {
                return;
            }
            self.settled();
            if stop(self) {
                return;
            }
        }
    }

    fn act(&mut self, a: &Act) {
        match a {
            Act::Open { n } => {
                self.cur = "C12".into();
                for _ in 0..*n {
                    if !self.open() || stop(self) {
                        break;
                    }
                }
            }
            Act::Write { st, n } => {
                if let Some(i) = self.pick(*st, |s| s.h.is_some()) {
                    self.write(i, *n as usize);
                }
            }
            Act::WriteAll { st, n } => {
                let Some(i) = self.pick(*st, |s| s.h.is_some()) else { return };
                let mut left = *n as usize;
                let mut rounds = 0;
                while left > 0 && rounds < 400 {
                    rounds += 1;
                    match self.write(i, left) {
                        Some(k) => left -= k,
                        None => break,
                    }
                    if stop(self) {
                        return;
                    }
                    self.settled();
                    if stop(self) || self.ended() {
                        return;
                    }
                }
            }
            Act::Read { st, buf } => {
                if let Some(i) = self.pick(*st, |s| s.h.is_some()) {
                    self.read(i, *buf as usize, false);
                }
            }
            Act::ReadAll { st, buf } => {
                let Some(i) = self.pick(*st, |s| s.h.is_some()) else { return };
                self.read_all(i, *buf as usize);
            }
            Act::Pump { st, rounds, rel, half } => {
                let Some(i) = self.pick(*st, |s| s.h.is_some() && s.live && s.announced && !s.fin_in && !s.rst_in) else { return };
                for _ in 0..*rounds {
                    let want = if *half { self.sts[i].max / 2 } else { self.sts[i].max };
                    // enough for windows of 64 MiB, and little enough for the memory of this machine
                    let mut n = want.min(self.sts[i].rwin).min(self.pump_left);
                    self.pump_left -= n;
                    while n > 0 {
                        let k = n.min(MAX_BODY as u64);
                        n -= k;
                        let s = &mut self.sts[i];
                        let f = Fr::data(0, s.id, pat::fill(pat::key(1, s.id), s.recvd, k as usize));
                        s.push(k);
                        self.rx.lock().unwrap().push(&f.encode());
                        self.settled();
                        if stop(self) || self.ended() {
                            return;
                        }
                    }
                    self.o.label("window-filled");
                    if let Some(r) = self.rtt {
                        self.clock.advance(Duration::from_nanos(r * *rel as u64 / 100));
                        self.flag.set();
                    }
                    let (buf, packets) = [(1 << 18, 0), (1 << 21, 0), (77_777, 2), (5000, 1)][*rel as usize % 4];
                    self.read_all_by(i, buf, packets);
                    if stop(self) || self.ended() {
                        return;
                    }
                }
                if self.sts[i].max >= 8 * WINDOW {
                    self.o.label("window-grown-often");
                }
            }
            Act::PumpTop { st, rel } => {
                let Some(i) = self.pick(*st, |s| s.h.is_some() && s.live && s.announced && !s.fin_in && !s.rst_in) else { return };
                for _ in 0..24 {
                    let max = self.sts[i].max;
                    let mut n = max.div_ceil(2).min(self.sts[i].rwin);
                    while n > 0 {
                        let k = n.min(MAX_BODY as u64);
                        n -= k;
                        let s = &mut self.sts[i];
                        let f = Fr::data(0, s.id, pat::fill(pat::key(1, s.id), s.recvd, k as usize));
                        s.push(k);
                        self.rx.lock().unwrap().push(&f.encode());
                        self.settled();
                        if stop(self) || self.ended() {
                            return;
                        }
                        if let (0, Some(r)) = (n, self.rtt) {
                            self.clock.advance(Duration::from_nanos(r * *rel as u64 / 100));
                            self.flag.set();
                        }
                        self.read_all(i, 1 << 18);
                        if stop(self) || self.ended() {
                            return;
                        }
                    }
                    if self.sts[i].max == max {
                        break;
                    }
                }
                if self.sts[i].max >= 1 << 31 {
                    self.o.label("window-at-the-top");
                }
            }
            Act::Packet { st, n } => {
                let Some(i) = self.pick(*st, |s| s.h.is_some()) else { return };
                for _ in 0..*n {
                    let before = self.sts[i].buffered;
                    match self.read(i, 0, true) {
                        Some(0) if before == 0 => break,
                        None => break,
                        _ => {}
                    }
                    if stop(self) {
                        return;
                    }
                    self.settled();
                    if stop(self) {
                        return;
                    }
                }
            }
            Act::Close { st } => {
                if let Some(i) = self.pick(*st, |s| s.h.is_some()) {
                    self.close_stream(i);
                }
            }
            Act::Flush { st } => {
                if let Some(i) = self.pick(*st, |s| s.h.is_some()) {
                    let w = self.sts[i].wflag.waker();
                    let mut cx = Context::from_waker(&w);
                    let id = self.sts[i].id;
                    let h = self.sts[i].h.as_mut().unwrap();
                    match Pin::new(h).poll_flush(&mut cx) {
                        Poll::Ready(Ok(())) => {}
                        r => self.v("C09", "flush", format!("flush of {id} on an idle transport: {r:?}")),
                    }
                }
            }
            Act::Drop { st } => {
                if let Some(i) = self.pick(*st, |s| s.h.is_some()) {
                    self.drop_stream(i);
                }
            }
            Act::Adv { us } => {
                self.clock.advance(Duration::from_micros(*us as u64));
                // the connection sees the time when polled next
                self.flag.set();
            }
            Act::Peer { fr, cut } => self.peer(fr, *cut),
            Act::CloseConn => {
                self.cur = "C20".into();
                self.closing = true;
                self.flag.set();
                self.o.label("closed-conn");
            }
            Act::Eof { less } => {
                self.cur = "C18 C21".into();
                let body = 1 + *less as usize;
                let f = Fr::data(0, 77, vec![7; body]).encode();
                if *less == 0 {
                    self.exp_end = Some(("C18 C21".into(), EndK::Clean));
                    self.o.label("eof-on-boundary");
                } else {
                    let k = f.len().saturating_sub(*less as usize).max(1);
                    self.rx.lock().unwrap().push(&f[..k]);
                    self.exp_end = Some(("C18 C21".into(), EndK::Truncated));
                    self.o.label("eof-truncated");
                }
                self.rx.lock().unwrap().set_eof();
            }
        }
    }
}

pub fn run(c: &RawCase, trace: bool) -> Outcome {
    let clock = web_time::virt::Clock::new();
    clock.install();
    let (tx, rx) = (pipe(usize::MAX), pipe(usize::MAX));
    let ctl = Arc::new(Mutex::new(Ctl { wsched: c.wsched.clone(), rsched: c.rsched.clone(), ..Ctl::default() }));
    let end = End { rx: rx.clone(), tx: tx.clone(), ctl: ctl.clone() };
    #[allow(unused_mut)]
    let mut conn = Connection::new(end, c.cfg.build(), if c.client { Mode::Client } else { Mode::Server });
    #[allow(unused_mut)]
    let mut last_own = 0;
    #[cfg(yamux_verif)]
    if let Some(k) = c.ids_left {
        let top = if c.client { u32::MAX } else { u32::MAX - 1 };
        let id = top - 2 * k as u32;
        conn.verif_set_next_id(id);
        last_own = id - 2;
    }
    let mut w = World {
        o: Outcome::default(),
        trace,
        client: c.client,
        cfg: c.cfg.clone(),
        clock,
        conn: Some(conn),
        flag: Flag::new(true),
        oflag: Flag::new(false),
        opend: false,
        ctl,
        tx,
        rx,
        outp: Parser::default(),
        sts: vec![],
        exp_in: VecDeque::new(),
        exp_pongs: VecDeque::new(),
        exp_goaway: None,
        goaway_seen: None,
        exp_end: None,
        end: None,
        closing: false,
        close_res: None,
        probe: None,
        last_poll: 0,
        last_answer: None,
        rtt: None,
        last_own,
        no_ids: false,
        next_peer: if c.client { 2 } else { 1 },
        pump_left: 160 << 20,
        used_peer: vec![],
        cur: String::new(),
        polls: 0,
        moved: 0,
        fresh: c.fresh,
        via: c.via,
        close_polls: 0,
    };
    w.settled();
    for a in &c.acts {
        if stop(&w) || w.ended() {
            break;
        }
        w.cur.clear();
        w.t(|| format!("  {a:?}"));
        w.act(a);
        if stop(&w) {
            break;
        }
        w.settled();
        if stop(&w) {
            break;
        }
        if w.exp_goaway.is_some() {
            w.post_goaway();
            break;
        }
        if w.ended() {
            w.post_end();
            break;
        }
    }
    w.o
}
