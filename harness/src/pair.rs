//! W1: two real connections back to back under a generated application, transport, schedule and fault.
use crate::common::*;
use crate::mon::Mon;
use crate::net::*;
use crate::wire::*;
use futures::io::{AsyncRead, AsyncWrite};
use futures::Stream as _;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use std::io::{self, IoSlice, IoSliceMut};
use std::pin::Pin;
use std::sync::atomic::AtomicU64;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use web_time::virt::Clock;
use yamux::{Connection, ConnectionError, Mode, Stream};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Open { s: u8, n: u16 },
    Write { s: u8, st: u8, n: u32, chunk: u32 },
    Flush { s: u8, st: u8 },
    Close { s: u8, st: u8 },
    Read { s: u8, st: u8, n: u32, buf: u32 },
    Packets { s: u8, st: u8, n: u8 },
    ReadEof { s: u8, st: u8, buf: u32, packets: bool },
    Drop { s: u8, st: u8 },
    Run { k: u8 },
    Quiesce,
    Advance { us: u32 },
    StallW { s: u8, on: bool },
    StallF { s: u8, on: bool },
    Hold { s: u8, on: bool },
    CloseConn {
        s: u8,
        /// right before it, something on every stream that the connection does not get to send first
        #[serde(default)]
        words: u8,
    },
    DropConn { s: u8 },
    /// something on every `step`-th stream: a write of `n` bytes, then (`end` % 4) nothing, a close, a drop, any of them
    Burst { s: u8, step: u8, n: u8, end: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct PairCase {
    pub cfg: [Cfg; 2],
    pub cap: [u32; 2],
    pub wsched: [Vec<u16>; 2],
    pub rsched: [Vec<u16>; 2],
    pub wbuf: [u32; 2],
    pub group: [u8; 2],
    pub ops: Vec<Op>,
    pub tape: Vec<u8>,
    pub fault: Option<(u8, Fault)>,
    pub finale: u8,
    /// `words` of the close in the finale
    #[serde(default)]
    pub words: u8,
    /// every poll with a waker of its own that outdates the one before
    #[serde(default)]
    pub fresh: bool,
}

#[derive(Clone, Debug)]
enum WOp {
    Write { left: usize, chunk: usize, once: bool },
    Flush,
    Close,
}
#[derive(Clone, Debug)]
enum ROp {
    Read { left: usize, buf: usize },
    Packets { left: usize },
    ToEof { buf: usize, packets: bool },
}

struct St {
    id: u32,
    outbound: bool,
    s: Option<Stream>,
    wprog: VecDeque<WOp>,
    rprog: VecDeque<ROp>,
    wpend: bool,
    rpend: bool,
    acc: u64,
    calls: u64,
    closed: bool,
    wfail: bool,
    rd: u64,
    eof: bool,
    dropped: bool,
    drop_settled: bool,
    wtask: usize,
    rtask: usize,
    wepoch: Arc<AtomicU64>,
    repoch: Arc<AtomicU64>,
    finale: bool,
    was_blocked: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum End2 {
    Clean,
    Error(String),
    Dropped,
}

#[derive(Clone, Copy, Debug)]
enum Ent {
    Conn,
    Opener,
    R(usize),
    W(usize),
}

struct Side {
    conn: Option<Connection<End>>,
    client: bool,
    cfg: Cfg,
    group: u8,
    ctl: Arc<Mutex<Ctl>>,
    tx: Arc<Mutex<Pipe>>,
    rx: Arc<Mutex<Pipe>>,
    mon: Mon,
    sts: Vec<St>,
    idx: HashMap<u32, usize>,
    flags: Vec<Arc<Flag>>,
    epochs: [Arc<AtomicU64>; 2],
    ents: Vec<Vec<Ent>>,
    ended: Option<End2>,
    closing: bool,
    close_done: Option<Result<(), String>>,
    close_polls: u32,
    pings_at_close: usize,
    open_want: usize,
    open_pend: bool,
    accepted: usize,
    last_id: u32,
    // snapshot at the moment of closing
    at_close: Option<HashMap<u32, (u64, bool)>>,
}

pub struct World {
    side: Vec<Side>,
    clock: Clock,
    ch: Choices,
    via: u8,
    fresh: bool,
    pub o: Outcome,
    trace: bool,
    steps: u64,
    moved: u64,
    fault: Option<(u8, Fault)>,
    errors_seen: bool,
    quiet_checks: u32,
}

const STEP_LIMIT: u64 = 100_000;

fn io_kind(e: &ConnectionError) -> Option<std::io::ErrorKind> {
    match e {
        ConnectionError::Io(e) | ConnectionError::Decode(yamux::FrameDecodeError::Io(e)) => Some(e.kind()),
        _ => None,
    }
}

fn brief_err(e: &ConnectionError) -> String {
    format!("{e:?}")
}

impl World {
    pub fn new(c: &PairCase, trace: bool) -> World {
        let clock = Clock::new();
        clock.install();
        let pipes = [pipe((c.cap[0] as usize).max(1)), pipe((c.cap[1] as usize).max(1))];
        let mut side = vec![];
        for s in 0..2usize {
            let ctl = Arc::new(Mutex::new(Ctl {
                wsched: c.wsched[s].clone(),
                rsched: c.rsched[s].clone(),
                wbuf_cap: c.wbuf[s] as usize,
                fault: c.fault.filter(|(k, f)| *k as usize == s && !f.closing).map(|(_, f)| f),
                ..Ctl::default()
            }));
            let end = End { rx: pipes[1 - s].clone(), tx: pipes[s].clone(), ctl: ctl.clone() };
            let client = s == 0;
            let conn = Connection::new(end, c.cfg[s].build(), if client { Mode::Client } else { Mode::Server });
            let mut sd = Side {
                conn: Some(conn),
                client,
                cfg: c.cfg[s].clone(),
                group: c.group[s] % 5,
                ctl,
                tx: pipes[s].clone(),
                rx: pipes[1 - s].clone(),
                mon: Mon::new(s, client, c.cfg[s].split()),
                sts: vec![],
                idx: HashMap::new(),
                flags: vec![],
                epochs: Default::default(),
                ents: vec![],
                ended: None,
                closing: false,
                close_done: None,
                close_polls: 0,
                pings_at_close: 0,
                open_want: 0,
                open_pend: false,
                accepted: 0,
                last_id: 0,
                at_close: None,
            };
            sd.new_task(vec![Ent::Conn], true);
            if sd.group == 0 || sd.group == 4 {
                sd.new_task(vec![Ent::Opener], false);
            } else {
                sd.ents[0].push(Ent::Opener);
            }
            side.push(sd);
        }
        World {
            side,
            clock,
            ch: Choices::new(c.tape.clone()),
            via: (c.finale >> 5) & 3,
            fresh: c.fresh,
            o: Outcome::default(),
            trace,
            steps: 0,
            moved: 0,
            fault: c.fault,
            errors_seen: false,
            quiet_checks: 0,
        }
    }

    fn t(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.o.trace.push(s);
        }
    }

    fn sync(&mut self, s: usize) {
        let now = self.clock.nanos();
        let (out, inn) = {
            let mut c = self.side[s].ctl.lock().unwrap();
            (std::mem::take(&mut c.out), std::mem::take(&mut c.inn))
        };
        let mut fi = vec![];
        let mut fo = vec![];
        let sd = &mut self.side[s];
        sd.mon.on_in(&inn, now, &mut fi);
        sd.mon.on_out(&out, now, &mut self.o, &mut fo);
        for f in &fo {
            // without ACK, a first FIN may only announce a drop, which follows no accepted close
            if matches!(f.ty, DATA | WU) && f.has(FIN) && !f.has(ACK) && !sd.mon.own(f.id) {
                let m = sd.mon.get(f.id);
                if m.sent_frames == 0 && m.sent_wu == 0 && !m.sent_ack && sd.idx.get(&f.id).is_some_and(|i| sd.sts[*i].closed) {
                    self.o.v("C16 C15", "wire.no_ack", format!("side {s}: {} closes accepted stream {} without ever acknowledging it", f.brief(), f.id));
                }
            }
        }
        if self.trace {
            for f in fi {
                self.o.trace.push(format!("    {s} <- {}", f.brief()));
            }
            for f in fo {
                self.o.trace.push(format!("    {s} -> {}", f.brief()));
            }
        }
    }

    fn add_stream(&mut self, s: usize, st: Stream, outbound: bool) -> usize {
        let id = st.id().val();
        let sd = &mut self.side[s];
        let i = sd.sts.len();
        let (rtask, wtask) = match sd.group {
            0 | 3 => {
                let r = sd.new_task(vec![Ent::R(i)], false);
                let w = sd.new_task(vec![Ent::W(i)], false);
                (r, w)
            }
            1 | 4 => {
                let r = sd.new_task(vec![Ent::W(i), Ent::R(i)], false);
                (r, r)
            }
            _ => {
                sd.ents[0].push(Ent::R(i));
                sd.ents[0].push(Ent::W(i));
                (0, 0)
            }
        };
        if sd.idx.insert(id, i).is_some() {
            self.o.v("C12 C13", "id.reused", format!("side {s}: stream id {id} handed out twice"));
        }
        let sd = &mut self.side[s];
        sd.sts.push(St {
            id,
            outbound,
            s: Some(st),
            wprog: VecDeque::new(),
            rprog: VecDeque::new(),
            wpend: false,
            rpend: false,
            acc: 0,
            calls: 0,
            closed: false,
            wfail: false,
            rd: 0,
            eof: false,
            dropped: false,
            drop_settled: false,
            wtask,
            rtask,
            wepoch: Arc::default(),
            repoch: Arc::default(),
            finale: false,
            was_blocked: false,
        });
        i
    }

    /// A reason, visible to the harness, for the connection of side `s` to end.
    fn end_cause(&self, s: usize) -> bool {
        let sd = &self.side[s];
        let c = sd.ctl.lock().unwrap();
        c.fired.is_some() || sd.mon.goaway_in.is_some() || c.saw_eof || sd.tx.lock().unwrap().reader_gone || sd.closing
    }

    fn on_end(&mut self, s: usize, r: Option<ConnectionError>) {
        self.sync(s);
        self.t(|| format!("  side {s}: connection ended: {r:?}"));
        let cause = self.end_cause(s);
        if !cause {
            self.o.v("*", "conn.unexpected_end", format!("side {s}: connection ended with {r:?} although nothing failed or closed"));
        } else {
            let sd = &self.side[s];
            let (fired, eof, partial) = {
                let c = sd.ctl.lock().unwrap();
                (c.fired, c.saw_eof, sd.mon.inp.partial())
            };
            let gone = sd.tx.lock().unwrap().reader_gone;
            let hard = fired.is_some_and(|k| k != FaultKind::ReadEof);
            let ga = sd.mon.goaway_in.is_some();
            if hard && !ga && r.is_none() {
                self.o.v("C21", "conn.cause_lost", format!("side {s}: transport fault {fired:?} reported as a clean end"));
            }
            let kind = hard.then(|| sd.ctl.lock().unwrap().fault.and_then(|f| f.error())).flatten();
            if let (Some(e), true) = (&r, kind.is_some()) {
                if io_kind(e) != kind {
                    self.o.v("C21", "conn.wrong_cause", format!("side {s}: the transport failed with {kind:?}, reported as {e:?}"));
                }
            }
            if !hard && ga && !gone && r.is_some() {
                self.o.v("C21 C20", "conn.goaway_as_error", format!("side {s}: GoAway reported as {r:?}"));
            }
            if !hard && !ga && !gone && eof {
                if !partial && r.is_some() {
                    self.o.v("C21 C18", "conn.eof_as_error", format!("side {s}: end of input on a frame boundary reported as {r:?}"));
                }
                if partial && !matches!(&r, Some(ConnectionError::Decode(_))) {
                    self.o.v("C21 C18", "conn.truncation_missed", format!("side {s}: input ended inside a frame, reported as {r:?}"));
                }
            }
        }
        let sd = &mut self.side[s];
        sd.mon.in_stopped = true;
        sd.ended = Some(match &r {
            None => End2::Clean,
            Some(e) => End2::Error(brief_err(e)),
        });
        self.after_end(s);
    }

    /// The connection is over: every later call must say so.
    fn after_end(&mut self, s: usize) {
        let f = Flag::new(false);
        let w = f.waker();
        let mut cx = Context::from_waker(&w);
        let p = if self.side[s].closing && !matches!(self.side[s].close_done, Some(Err(_))) { "C20" } else { "C21 C20" };
        let Some(conn) = self.side[s].conn.as_mut() else { return };
        match conn.poll_next_inbound(&mut cx) {
            Poll::Ready(None) => {}
            x => self.o.v(p, "conn.not_ended", format!("side {s}: poll_next_inbound after the end: {x:?}")),
        }
        let conn = self.side[s].conn.as_mut().unwrap();
        match conn.poll_new_outbound(&mut cx) {
            Poll::Ready(Err(ConnectionError::Closed)) => {}
            x => self.o.v(p, "conn.open_after_end", format!("side {s}: poll_new_outbound after the end: {x:?}")),
        }
        let conn = self.side[s].conn.as_mut().unwrap();
        match conn.poll_close(&mut cx) {
            Poll::Ready(Ok(())) => {}
            x => self.o.v(p, "conn.close_after_end", format!("side {s}: poll_close after the end: {x:?}")),
        }
    }

    fn poll_conn(&mut self, s: usize, budget: usize) -> bool {
        let waker = next_waker(&self.side[s].flags[0], self.fresh.then_some(&self.side[s].epochs[0]));
        let mut cx = Context::from_waker(&waker);
        let mut left = budget;
        loop {
            let sd = &mut self.side[s];
            let Some(conn) = sd.conn.as_mut() else { return false };
            if sd.closing {
                if sd.close_done.is_some() {
                    return false;
                }
                let r = match poll_closing(conn, &mut cx, self.via, &mut sd.close_polls) {
                    Ok(r) => r,
                    Err(m) => {
                        self.o.v("C20", "close.contradiction", format!("side {s}: {m}"));
                        Poll::Ready(Ok(()))
                    }
                };
                match r {
                    Poll::Pending => {
                        self.sync(s);
                        return false;
                    }
                    Poll::Ready(r) => {
                        self.sync(s);
                        self.t(|| format!("  side {s}: close completed: {r:?}"));
                        self.side[s].close_done = Some(r.as_ref().map(|_| ()).map_err(brief_err));
                        self.check_closed(s, r);
                        return false;
                    }
                }
            }
            if sd.ended.is_some() {
                return false;
            }
            match conn.poll_next_inbound(&mut cx) {
                Poll::Pending => {
                    self.sync(s);
                    return false;
                }
                Poll::Ready(None) => {
                    self.on_end(s, None);
                    return false;
                }
                Poll::Ready(Some(Err(e))) => {
                    self.on_end(s, Some(e));
                    return false;
                }
                Poll::Ready(Some(Ok(st))) => {
                    self.sync(s);
                    let id = st.id().val();
                    let k = self.side[s].accepted;
                    let want = self.side[s].mon.syn_in.get(k).copied();
                    if want != Some(id) {
                        self.o.v("C13", "inbound.order", format!("side {s}: inbound stream {id} handed out, expected {want:?}"));
                    }
                    self.side[s].accepted += 1;
                    self.t(|| format!("  side {s}: accepted {id}"));
                    self.add_stream(s, st, false);
                }
            }
            left -= 1;
            if left == 0 {
                return true;
            }
        }
    }

    /// poll_close completed on side `s`.
    fn check_closed(&mut self, s: usize, r: Result<(), ConnectionError>) {
        let sd = &self.side[s];
        let faulted = {
            let c = sd.ctl.lock().unwrap();
            c.fired.is_some_and(|k| k != FaultKind::ReadEof)
        };
        let gone = sd.tx.lock().unwrap().reader_gone;
        let fired = sd.ctl.lock().unwrap().fired;
        match fired {
            Some(FaultKind::ReadErr) => self.o.label("closing-fault-read"),
            Some(FaultKind::ReadEof) => self.o.label("closing-eof"),
            Some(_) => self.o.label("closing-fault-write"),
            None => {}
        }
        let sd = &self.side[s];
        match &r {
            Err(e) => {
                if !faulted && !gone {
                    self.o.v("C20", "close.err", format!("side {s}: poll_close failed without a transport fault: {e:?}"));
                }
                let kind = faulted.then(|| sd.ctl.lock().unwrap().fault.and_then(|f| f.error())).flatten();
                if kind.is_some() && io_kind(e) != kind {
                    self.o.v("C21 C20", "close.wrong_cause", format!("side {s}: the transport failed with {kind:?}, reported as {e:?}"));
                }
            }
            Ok(()) => {
                if faulted {
                    self.o.v("C21 C20", "close.fault_lost", format!("side {s}: poll_close succeeded although the transport failed"));
                }
                if !gone && !faulted {
                    let mut bad = vec![];
                    let mut pongs = None;
                    if let Some(snap) = &sd.at_close {
                        for (id, (acc, fin)) in snap {
                            let m = sd.mon.get(*id);
                            if m.sent_data != *acc {
                                bad.push(format!("stream {id}: accepted {acc} bytes before the close, {} on the wire", m.sent_data));
                            }
                            if *fin && !m.sent_fin && !m.sent_rst {
                                bad.push(format!("stream {id}: close accepted but no FIN on the wire"));
                            }
                        }
                    }
                    if sd.mon.pongs_out < sd.pings_at_close {
                        pongs = Some((sd.mon.pongs_out, sd.pings_at_close));
                    }
                    if sd.mon.goaway_out != Some(0) {
                        bad.push(format!("GoAway on the wire: {:?}", sd.mon.goaway_out));
                    }
                    if sd.mon.outp.partial() {
                        bad.push("last frame incomplete".into());
                    }
                    let (closed, wac, wb) = {
                        let c = sd.ctl.lock().unwrap();
                        (c.closed, c.write_after_close, c.wbuf.len())
                    };
                    if !closed {
                        bad.push("transport not closed".into());
                    }
                    if wac {
                        bad.push("transport written after its close".into());
                    }
                    if wb > 0 {
                        bad.push("bytes left in the transport's write buffer".into());
                    }
                    self.o.label("closed-cleanly");
                    if let Some((n, m)) = pongs {
                        self.o.v("C19 C20", "close.pongs", format!("side {s}: {n} of {m} pings received before the close were answered"));
                    }
                    for b in bad {
                        self.o.v("C20", "close.lossy", format!("side {s}: {b}"));
                    }
                }
            }
        }
        self.side[s].ended = Some(match &r {
            Ok(()) => End2::Clean,
            Err(e) => End2::Error(brief_err(e)),
        });
        self.after_end(s);
    }

    /// Streams of `s` that are open and unacknowledged: (certainly, at most).
    fn unacked(&self, s: usize) -> (usize, usize) {
        let sd = &self.side[s];
        let (mut lo, mut hi) = (0, 0);
        for st in sd.sts.iter().filter(|t| t.outbound) {
            let open = !st.closed && sd.mon.st.get(&st.id).is_none_or(|m| !m.got_ack && !m.got_fin && !m.got_rst);
            if open {
                if !st.dropped {
                    lo += 1;
                    hi += 1;
                } else if !st.drop_settled {
                    hi += 1;
                }
            }
        }
        (lo, hi)
    }
    fn live(&self, s: usize) -> (usize, usize) {
        let sd = &self.side[s];
        let lo = sd.sts.iter().filter(|t| !t.dropped).count();
        let hi = sd.sts.iter().filter(|t| !t.dropped || !t.drop_settled).count();
        (lo, hi)
    }

    fn poll_opener(&mut self, s: usize, budget: usize) -> bool {
        let task = if self.side[s].group == 0 || self.side[s].group == 4 { 1 } else { 0 };
        let waker = next_waker(&self.side[s].flags[task], self.fresh.then_some(&self.side[s].epochs[1]));
        let mut cx = Context::from_waker(&waker);
        let mut left = budget;
        self.side[s].open_pend = false;
        while self.side[s].open_want > 0 {
            if self.side[s].closing || self.side[s].conn.is_none() {
                self.side[s].open_want = 0;
                return false;
            }
            let (lo, hi) = self.unacked(s);
            let (llo, lhi) = self.live(s);
            let max = self.side[s].cfg.max_streams as usize;
            let ended = self.side[s].ended.is_some();
            match self.side[s].conn.as_mut().unwrap().poll_new_outbound(&mut cx) {
                Poll::Pending => {
                    if hi < 256 && !ended {
                        self.o.v("C15", "open.blocked", format!("side {s}: open waits with at most {hi} unacknowledged streams"));
                    }
                    if ended {
                        self.o.v("C20 C21", "open.pending_after_end", format!("side {s}: open waits on an ended connection"));
                    }
                    self.o.label("backlog-hit");
                    self.side[s].open_pend = true;
                    return false;
                }
                Poll::Ready(Err(e)) => {
                    self.side[s].open_want = 0;
                    match e {
                        ConnectionError::Closed if ended => {}
                        ConnectionError::TooManyStreams if !ended && lhi >= max => {
                            self.o.label("too-many");
                        }
                        e => {
                            if !self.end_cause(s) {
                                self.o.v("C14 C12 C09", "open.err", format!("side {s}: open failed with {e:?} ({llo} live streams, limit {max})"));
                            }
                        }
                    }
                    return false;
                }
                Poll::Ready(Ok(st)) => {
                    let id = st.id().val();
                    if ended {
                        self.o.v("C20 C21", "open.after_end", format!("side {s}: open succeeded on an ended connection"));
                    }
                    if lo >= 256 {
                        self.o.v("C15", "open.beyond_backlog", format!("side {s}: open succeeded with {lo} unacknowledged streams"));
                    }
                    if llo >= max {
                        self.o.v("C14", "open.beyond_limit", format!("side {s}: open succeeded with {llo} live streams, limit {max}"));
                    }
                    if id == 0 || (id % 2 == 1) != self.side[s].client || id <= self.side[s].last_id {
                        self.o.v("C12", "id.order", format!("side {s}: opened id {id} after {}", self.side[s].last_id));
                    }
                    self.side[s].last_id = id;
                    self.side[s].open_want -= 1;
                    self.t(|| format!("  side {s}: opened {id}"));
                    self.add_stream(s, st, true);
                }
            }
            left -= 1;
            if left == 0 {
                return self.side[s].open_want > 0;
            }
        }
        false
    }

    fn peer_of(&self, s: usize, id: u32) -> Option<&St> {
        let p = &self.side[1 - s];
        p.idx.get(&id).map(|i| &p.sts[*i])
    }

    fn poll_writer(&mut self, s: usize, i: usize, budget: usize) -> bool {
        let waker = next_waker(&self.side[s].flags[self.side[s].sts[i].wtask], self.fresh.then_some(&self.side[s].sts[i].wepoch));
        let mut cx = Context::from_waker(&waker);
        let mut left = budget;
        self.side[s].sts[i].wpend = false;
        loop {
            let sd = &mut self.side[s];
            let ended = sd.ended.is_some() || sd.closing;
            let st = &mut sd.sts[i];
            let id = st.id;
            let got_rst = sd.mon.st.get(&id).is_some_and(|m| m.got_rst);
            let allowance = sd.mon.allowance(id);
            let Some(stream) = st.s.as_mut() else { return false };
            let Some(op) = st.wprog.front_mut() else { return false };
            match op {
                WOp::Write { left: todo, chunk, once } => {
                    let n = (*todo).min((*chunk).max(1));
                    let buf = pat::fill(pat::key(s, id), st.acc, n);
                    let r = if st.calls % 5 == 4 && n > 1 {
                        let (a, b) = buf.split_at(n / 3);
                        Pin::new(stream).poll_write_vectored(&mut cx, &[IoSlice::new(a), IoSlice::new(&[]), IoSlice::new(b)])
                    } else {
                        Pin::new(stream).poll_write(&mut cx, &buf)
                    };
                    match r {
                        Poll::Pending => {
                            st.wpend = true;
                            st.was_blocked = true;
                            if st.closed || ended || got_rst {
                                self.o.v("C03 C20 C21 C04", "write.hangs", format!("side {s}: write on {id} waits although it can only fail"));
                            }
                            return false;
                        }
                        Poll::Ready(Ok(k)) => {
                            if k > n || (k == 0 && n > 0) {
                                self.o.v("C01 C05", "write.count", format!("side {s}: write of {n} bytes on {id} reported {k}"));
                                return false;
                            }
                            st.acc += k as u64;
                            st.calls += 1;
                            *todo -= k;
                            if *todo == 0 || *once {
                                st.wprog.pop_front();
                            }
                            let acc = st.acc;
                            if st.closed {
                                self.o.v("C03", "write.after_close", format!("side {s}: write on {id} accepted after its close"));
                            }
                            if ended {
                                self.o.v("C20 C21", "write.after_end", format!("side {s}: write on {id} accepted after the connection ended"));
                            }
                            if got_rst {
                                self.o.v("C04", "write.after_reset", format!("side {s}: write on {id} accepted after the peer's reset"));
                            }
                            if acc > allowance {
                                self.o.v("C05", "credit.exceeded", format!("side {s}: stream {id} accepted {acc} bytes with credit {allowance}"));
                            }
                            self.t(|| format!("  side {s}: wrote {k} on {id} (total {acc})"));
                        }
                        Poll::Ready(Err(e)) => {
                            let legit = st.closed || ended || got_rst;
                            if e.kind() != io::ErrorKind::WriteZero && legit {
                                // the kind is not part of any promise
                            }
                            if st.closed {
                                self.o.label("write-after-close-refused");
                            }
                            if got_rst {
                                self.o.label("write-after-reset-refused");
                            }
                            let st = &mut self.side[s].sts[i];
                            st.wfail = true;
                            while matches!(st.wprog.front(), Some(WOp::Write { .. })) {
                                st.wprog.pop_front();
                            }
                            if !legit {
                                self.o.v("C04 C03 C05 C01", "write.err", format!("side {s}: write on {id} failed: {e}"));
                            }
                            self.t(|| format!("  side {s}: write on {id} failed: {e}"));
                        }
                    }
                }
                WOp::Flush => match Pin::new(stream).poll_flush(&mut cx) {
                    Poll::Pending => {
                        st.wpend = true;
                        return false;
                    }
                    Poll::Ready(r) => {
                        st.wprog.pop_front();
                        if let Err(e) = r {
                            if !ended && !got_rst {
                                self.o.v("C09 C03", "flush.err", format!("side {s}: flush on {id} failed: {e}"));
                            }
                        }
                    }
                },
                WOp::Close => match Pin::new(stream).poll_close(&mut cx) {
                    Poll::Pending => {
                        st.wpend = true;
                        return false;
                    }
                    Poll::Ready(r) => {
                        st.wprog.pop_front();
                        self.t(|| format!("  side {s}: close on {id}: {r:?}"));
                        let st = &mut self.side[s].sts[i];
                        match r {
                            Ok(()) => {
                                if !ended && !got_rst {
                                    st.closed = true
                                }
                            }
                            Err(e) => {
                                if !ended {
                                    self.o.v("C03 C02", "close.stream_err", format!("side {s}: close of {id} failed: {e}"));
                                }
                            }
                        }
                    }
                },
            }
            left -= 1;
            if left == 0 {
                return !self.side[s].sts[i].wprog.is_empty();
            }
        }
    }

    fn got_bytes(&mut self, s: usize, i: usize, b: &[u8]) {
        let st = &self.side[s].sts[i];
        let (id, rd, eof) = (st.id, st.rd, st.eof);
        let n = b.len();
        if eof {
            self.o.v("C02 C01", "eof.unstable", format!("side {s}: {n} bytes read on {id} after its end of stream"));
        }
        if let Some(p) = pat::check(pat::key(1 - s, id), rd, b) {
            self.o.v("C01", "bytes.mismatch", format!("side {s}: stream {id} offset {}: not the byte the peer wrote", rd + p as u64));
        }
        let acc = self.peer_of(s, id).map(|p| p.acc).unwrap_or(0);
        if rd + n as u64 > acc {
            self.o.v("C01", "bytes.excess", format!("side {s}: stream {id} delivered {} bytes, peer wrote {acc}", rd + n as u64));
        }
        if (self.side[s].ended.is_some() || self.side[s].closing) && !self.side[s].cfg.rac {
            self.o.v("C20 C21", "rac.data", format!("side {s}: stream {id} returned data after the connection ended with read_after_close off"));
        }
        self.side[s].sts[i].rd += n as u64;
        self.o.label("bytes-delivered");
        self.t(|| format!("  side {s}: read {n} on {id} (total {})", rd + n as u64));
    }

    fn got_eof(&mut self, s: usize, i: usize) {
        let st = &self.side[s].sts[i];
        let (id, rd) = (st.id, st.rd);
        let sd = &self.side[s];
        if !st.eof {
            if sd.ended.is_some() || sd.closing {
                let have = sd.mon.get(id).got_data;
                if sd.cfg.rac && rd != have {
                    self.o.v("C20 C21", "eof.lost_after_end", format!("side {s}: stream {id} ended after {rd} of {have} received bytes"));
                }
                if !sd.cfg.rac {
                    self.o.label("rac-off-eof");
                }
                self.o.label("eof-after-conn-end");
            } else {
                match self.peer_of(s, id) {
                    Some(p) if p.closed || p.dropped => {
                        if rd != p.acc {
                            let (acc, d) = (p.acc, p.dropped && !p.closed);
                            self.o.v(if d { "C02 C04" } else { "C02 C01" }, "eof.early", format!("side {s}: end of stream on {id} after {rd} of {acc} bytes"));
                        }
                        self.o.label("eof-by-peer");
                        if rd > 0 {
                            self.o.label("eof-after-data");
                        }
                    }
                    p => {
                        let acc = p.map(|p| p.acc);
                        self.o.v("C02 C04", "eof.spurious", format!("side {s}: end of stream on {id} after {rd} bytes while the peer's end is open (accepted {acc:?})"));
                    }
                }
            }
        }
        self.side[s].sts[i].eof = true;
        self.t(|| format!("  side {s}: eof on {id}"));
    }

    fn poll_reader(&mut self, s: usize, i: usize, budget: usize) -> bool {
        let waker = next_waker(&self.side[s].flags[self.side[s].sts[i].rtask], self.fresh.then_some(&self.side[s].sts[i].repoch));
        let mut cx = Context::from_waker(&waker);
        let mut left = budget;
        self.side[s].sts[i].rpend = false;
        loop {
            let st = &mut self.side[s].sts[i];
            let (id, rd0) = (st.id, st.rd);
            let Some(stream) = st.s.as_mut() else { return false };
            let Some(op) = st.rprog.front().cloned() else { return false };
            let (packets, bufn) = match &op {
                ROp::Read { left, buf } => (false, (*buf).max(1).min(*left)),
                ROp::Packets { .. } => (true, 0),
                ROp::ToEof { buf, packets } => (*packets, (*buf).max(1)),
            };
            // a read into an empty buffer has nothing to wait for once there is data
            if !packets && (rd0 % 4 == 3 || rd0 == 0 && bufn % 2 == 1) {
                let r = Pin::new(&mut *stream).poll_read(&mut cx, &mut []);
                let sd = &self.side[s];
                let unread = sd.mon.get(id).got_data > rd0 && sd.ended.is_none();
                match r {
                    Poll::Ready(Ok(0)) => {}
                    Poll::Pending if !unread => {}
                    Poll::Pending => self.o.v("C09", "read.nothing", format!("side {s}: read of no bytes on {id} waits with more than {rd0} bytes received")),
                    r => self.o.v("C01", "read.count", format!("side {s}: read of no bytes on {id} returns {r:?}")),
                }
                self.o.label("empty-read");
            }
            let Some(stream) = self.side[s].sts[i].s.as_mut() else { return false };
            let mut buf = vec![];
            let r: Poll<Option<io::Result<usize>>> = if packets {
                match Pin::new(stream).poll_next(&mut cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(None) => Poll::Ready(None),
                    Poll::Ready(Some(Err(e))) => Poll::Ready(Some(Err(e))),
                    Poll::Ready(Some(Ok(p))) => {
                        buf = p.as_ref().to_vec();
                        Poll::Ready(Some(Ok(buf.len())))
                    }
                }
            } else {
                // small buffers over long transfers only cost time
                buf = vec![0xEE; bufn.max(1)];
                let r = if rd0 % 5 == 4 && buf.len() > 1 {
                    let k = buf.len() / 3;
                    let (a, b) = buf.split_at_mut(k);
                    Pin::new(stream).poll_read_vectored(&mut cx, &mut [IoSliceMut::new(a), IoSliceMut::new(&mut []), IoSliceMut::new(b)])
                } else {
                    Pin::new(stream).poll_read(&mut cx, &mut buf)
                };
                match r {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Ok(0)) => Poll::Ready(None),
                    Poll::Ready(Ok(n)) => Poll::Ready(Some(Ok(n))),
                    Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                }
            };
            match r {
                Poll::Pending => {
                    let sd = &mut self.side[s];
                    sd.sts[i].rpend = true;
                    let m = sd.mon.get(id);
                    let rd = sd.sts[i].rd;
                    if (m.got_data > rd && sd.ended.is_none()) || sd.sts[i].eof {
                        self.o.v("C09 C02 C01", "read.hangs", format!("side {s}: read on {id} waits with {} of {} received bytes read, eof {}", rd, m.got_data, self.side[s].sts[i].eof));
                    }
                    return false;
                }
                Poll::Ready(Some(Err(e))) => {
                    self.side[s].sts[i].rprog.clear();
                    self.o.v("C02 C20 C21", "read.err", format!("side {s}: read on {id} failed: {e}"));
                    return false;
                }
                Poll::Ready(None) => {
                    self.got_eof(s, i);
                    let st = &mut self.side[s].sts[i];
                    match st.rprog.front_mut() {
                        Some(ROp::Packets { left }) if *left > 1 => *left -= 1,
                        _ => {
                            st.rprog.pop_front();
                        }
                    }
                }
                Poll::Ready(Some(Ok(n))) => {
                    if !packets && n > buf.len() {
                        self.o.v("C01", "read.count", format!("side {s}: read reported {n} of a {} byte buffer", buf.len()));
                        return false;
                    }
                    if packets && n == 0 {
                        self.o.label("empty-packet");
                    }
                    self.got_bytes(s, i, &buf[..n]);
                    let st = &mut self.side[s].sts[i];
                    match st.rprog.front_mut() {
                        Some(ROp::Read { left, .. }) => {
                            *left -= n.min(*left);
                            if *left == 0 {
                                st.rprog.pop_front();
                            }
                        }
                        Some(ROp::Packets { left }) => {
                            *left -= 1;
                            if *left == 0 {
                                st.rprog.pop_front();
                            }
                        }
                        _ => {}
                    }
                }
            }
            left -= 1;
            if left == 0 {
                return !self.side[s].sts[i].rprog.is_empty();
            }
        }
    }

    /// Run one woken task; false when none is woken.
    fn step(&mut self) -> bool {
        let mut woken: Vec<(usize, usize)> = vec![];
        for s in 0..2 {
            for (t, f) in self.side[s].flags.iter().enumerate() {
                if f.get() {
                    woken.push((s, t));
                }
            }
        }
        if woken.is_empty() {
            return false;
        }
        let (s, t) = woken[self.ch.next(woken.len())];
        self.steps += 1 + self.side[s].ents[t].len() as u64 / 8;
        if self.steps > STEP_LIMIT {
            let mut moved: u64 = self.side.iter().map(|s| s.ctl.lock().unwrap()).map(|c| c.nread + c.nwritten).sum();
            for t in self.side.iter().flat_map(|s| &s.sts) {
                moved += 1 + t.acc + t.rd + t.calls + (t.wprog.len() + t.rprog.len()) as u64 * 0x1_0001 + t.eof as u64 + t.closed as u64 + t.dropped as u64 + t.wfail as u64;
            }
            if moved != self.moved {
                self.moved = moved;
                self.steps = 0;
            }
        }
        if self.steps > STEP_LIMIT {
            panic!("{LIVELOCK} (scheduler)");
        }
        self.side[s].flags[t].take();
        let ents = self.side[s].ents[t].clone();
        let b = self.ch.byte();
        let budget = match b % 8 {
            0 => 1,
            1 => 2,
            2 => 5,
            _ => usize::MAX,
        };
        let rot = (b as usize / 8) % ents.len().max(1);
        let mut again = false;
        for k in 0..ents.len() {
            let e = ents[(k + rot) % ents.len()];
            again |= match e {
                Ent::Conn => self.poll_conn(s, budget),
                Ent::Opener => self.poll_opener(s, budget),
                Ent::R(i) => self.poll_reader(s, i, budget),
                Ent::W(i) => self.poll_writer(s, i, budget),
            };
            if self.stop() {
                return false;
            }
        }
        if again {
            self.side[s].flags[t].set();
        }
        true
    }

    fn stop(&self) -> bool {
        !self.o.viol.is_empty()
    }

    /// Nothing between side `s` and its peer is being held up by the harness, and both connections are driven.
    fn unobstructed(&self, s: usize) -> bool {
        let c = self.side[s].ctl.lock().unwrap();
        !c.wstall && !c.fstall && !self.side[1 - s].rx.lock().unwrap().hold
    }

    fn quiesce(&mut self) {
        while self.step() {}
        if self.stop() {
            return;
        }
        for s in 0..2 {
            self.sync(s);
            let obstructed = !self.unobstructed(s);
            for st in self.side[s].sts.iter_mut() {
                if st.dropped && !obstructed {
                    st.drop_settled = true
                }
            }
        }
        self.quiet_check();
    }

    /// Liveness at quiescence: no task is woken, so whatever still waits must really have nothing to go on.
    fn quiet_check(&mut self) {
        self.quiet_checks += 1;
        let free = self.unobstructed(0) && self.unobstructed(1);
        let mut viol: Vec<(&'static str, &'static str, String)> = vec![];
        for s in 0..2 {
            let sd = &self.side[s];
            let ended = sd.ended.is_some() || sd.closing;
            let peer = &self.side[1 - s];
            let peer_ended = peer.ended.is_some() || peer.closing;
            // a connection that must have ended
            if sd.ended.is_none() && !sd.closing {
                let c = sd.ctl.lock().unwrap();
                if c.fired.is_some() || sd.mon.goaway_in.is_some() || c.saw_eof {
                    viol.push(("C21 C20", "conn.lingers", format!("side {s}: connection still waits although its transport ended (fault {:?}, GoAway {:?}, eof {})", c.fired, sd.mon.goaway_in, c.saw_eof)));
                }
            }
            if free && sd.closing && sd.close_done.is_none() {
                viol.push(("C20 C09", "stall.close", format!("side {s}: closing the connection never completes")));
            }
            if free && !ended && !peer_ended {
                let left = sd.tx.lock().unwrap().buf.len() + sd.ctl.lock().unwrap().wbuf.len();
                if left > 0 {
                    viol.push(("C09 C17", "stall.transport", format!("side {s}: {left} bytes sent are not read (or not flushed) and no task is woken")));
                }
                if sd.mon.outp.partial() {
                    viol.push(("C09 C17", "stall.partial", format!("side {s}: a frame was left incomplete on the wire")));
                }
                if peer.accepted != peer.mon.syn_in.len() || (peer.mon.syn_in.len() != sd.mon.syn_out.len() && peer.mon.goaway_in.is_none()) {
                    viol.push(("C13 C09", "inbound.missing", format!("side {}: {} streams announced to it, {} handed out", 1 - s, sd.mon.syn_out.len(), peer.accepted)));
                }
                if sd.mon.pongs_out != sd.mon.pings_in.len() {
                    viol.push(("C19 C09", "stall.pong", format!("side {s}: {} pings received, {} answered", sd.mon.pings_in.len(), sd.mon.pongs_out)));
                }
            }
            if sd.open_pend {
                let (_, mut hi) = self.unacked(s);
                if !self.unobstructed(s) {
                    // a close takes effect for the opener when the connection gets to send it
                    hi += sd.sts.iter().filter(|t| t.outbound && t.closed && sd.mon.st.get(&t.id).is_none_or(|m| !m.sent_fin && !m.got_ack && !m.got_fin && !m.got_rst)).count();
                }
                if ended {
                    viol.push(("C09 C21 C20 C15", "stall.opener_end", format!("side {s}: an open still waits although the connection ended")));
                } else if hi < 256 {
                    viol.push(("C15 C09", "stall.opener", format!("side {s}: an open still waits although only {hi} streams are unacknowledged")));
                }
            }
            for st in &sd.sts {
                let id = st.id;
                let m = sd.mon.get(id);
                if st.dropped {
                    if m.sent_rst && st.closed {
                        viol.push(("C16 C04", "rst.after_close", format!("side {s}: stream {id} was closed, yet its drop reset it")));
                    }
                    continue;
                }
                if m.sent_rst {
                    viol.push(("C04", "rst.spurious", format!("side {s}: stream {id} was reset without being dropped")));
                }
                if st.rpend {
                    if ended {
                        viol.push(("C09 C20 C21", "stall.reader_end", format!("side {s}: a read on {id} still waits although the connection ended")));
                    } else if m.got_rst {
                        viol.push(("C09 C04 C02", "stall.reader_reset", format!("side {s}: a read on {id} still waits although the peer reset it")));
                    } else if m.got_data > st.rd {
                        viol.push(("C09 C02 C01", "stall.reader_data", format!("side {s}: a read on {id} waits at {} although {} bytes arrived", st.rd, m.got_data)));
                    } else if m.got_fin {
                        viol.push(("C09 C02", "stall.reader_eof", format!("side {s}: a read on {id} still waits although the peer's FIN arrived")));
                    } else if free && !peer_ended {
                        if let Some(p) = self.peer_of(s, id) {
                            if p.acc > st.rd {
                                viol.push(("C09 C02 C01", "stall.reader", format!("side {s}: a read on {id} waits at {} although the peer's writes accepted {}", st.rd, p.acc)));
                            } else if p.closed {
                                viol.push(("C02 C09", "stall.reader_fin", format!("side {s}: a read on {id} waits although the peer closed")));
                            } else if p.dropped {
                                viol.push(("C04 C02 C09", "stall.reader_drop", format!("side {s}: a read on {id} waits although the peer dropped the stream")));
                            }
                        }
                        if self.peer_of(s, id).is_none() && m.sent_syn {
                            viol.push(("C13 C09", "stall.unknown", format!("side {s}: stream {id} was announced but the peer never got it")));
                        }
                    }
                }
                if st.wpend {
                    let what = st.wprog.front();
                    if ended {
                        viol.push(("C09 C20 C21", "stall.writer_end", format!("side {s}: {what:?} on {id} still waits although the connection ended")));
                    } else if m.got_rst && (free || matches!(what, Some(WOp::Write { .. }))) {
                        viol.push(("C09 C04", "stall.writer_reset", format!("side {s}: {what:?} on {id} still waits although the peer reset it")));
                    } else if free && !peer_ended {
                        match what {
                            Some(WOp::Write { .. }) => {
                                let credit = sd.mon.allowance(id) - st.acc.min(sd.mon.allowance(id));
                                if credit > 0 {
                                    viol.push((if m.got_fin { "C05 C09 C03" } else { "C05 C09" }, "stall.writer", format!("side {s}: a write on {id} waits with {credit} bytes of credit")));
                                } else if let Some(p) = self.peer_of(s, id) {
                                    if p.rpend && p.rd == st.acc {
                                        viol.push(("C08 C09", "stall.credit", format!("side {s}: a write on {id} is out of credit although the peer read everything and waits for more")));
                                    }
                                    if p.dropped && !p.closed {
                                        viol.push(("C04 C09", "stall.writer_drop", format!("side {s}: a write on {id} waits although the peer dropped the stream")));
                                    }
                                }
                            }
                            _ => viol.push(("C09", "stall.flush", format!("side {s}: {what:?} on {id} still waits"))),
                        }
                    }
                }
            }
        }
        for (p, t, m) in viol {
            self.o.v(p, t, m);
        }
    }

    /// Cheap invariants, checked at every operation boundary.
    fn invariants(&mut self) {
        let mut viol: Vec<(&'static str, &'static str, String)> = vec![];
        for s in 0..2 {
            self.sync(s);
            let sd = &self.side[s];
            if !sd.ctl.lock().unwrap().touched_after_error.is_empty() {
                let t = sd.ctl.lock().unwrap().touched_after_error.clone();
                viol.push(("C21", "transport.touched", format!("side {s}: the transport was used again after its failure: {t:?}")));
            }
            if sd.ended.is_some() || sd.closing {
                continue;
            }
            if sd.ctl.lock().unwrap().write_after_close {
                viol.push(("C20", "transport.write_after_close", format!("side {s}: written after close")));
            }
            if let Some(c) = sd.mon.goaway_out {
                viol.push(("*", "goaway.unexpected", format!("side {s}: sent GoAway {c} to a well-behaved peer")));
            }
            let mut sum = 0u64;
            let mut total_live = 0;
            for st in &sd.sts {
                let m = sd.mon.st.get(&st.id);
                let z = Default::default();
                let m = m.unwrap_or(&z);
                // frames accepted but not yet on the wire
                let queued = st.calls.saturating_sub(m.sent_frames);
                if queued > 64 && st.acc > m.sent_data {
                    viol.push(("C11", "backlog.frames", format!("side {s}: stream {} has {queued} accepted writes waiting", st.id)));
                }
                let Some(stream) = &st.s else { continue };
                total_live += 1;
                sum += WINDOW + m.sent_wu - st.rd.min(WINDOW + m.sent_wu);
                let fin = m.got_fin;
                let rst = m.got_rst;
                let open = !st.closed && !fin && !rst;
                let closed = (st.closed && fin) || rst;
                let (ic, iw, ip) = (stream.is_closed(), stream.is_write_closed(), stream.is_pending_ack());
                if ic != closed {
                    viol.push(("C03", "status.closed", format!("side {s}: stream {}: is_closed {ic}, but local close {}, FIN received {fin}, RST received {rst}", st.id, st.closed)));
                }
                if iw != (st.closed && !closed) {
                    viol.push(("C03", "status.write_closed", format!("side {s}: stream {}: is_write_closed {iw}, but local close {}, FIN received {fin}, RST received {rst}", st.id, st.closed)));
                }
                let pend = if st.outbound { Some(open && !m.got_ack) } else if !open || st.calls > 0 || m.sent_ack { Some(false) } else if st.rd < WINDOW / 2 { Some(true) } else { None };
                if pend.is_some_and(|p| p != ip) {
                    viol.push(("C15", "status.pending_ack", format!("side {s}: stream {} (outbound {}): is_pending_ack {ip}, ACK received {}, ACK sent {}, writes {}", st.id, st.outbound, m.got_ack, m.sent_ack, st.calls)));
                }
            }
            if let Some(l) = sd.cfg.limit() {
                if sum > l as u64 {
                    viol.push(("C07", "window.sum", format!("side {s}: {sum} bytes granted and unread over {total_live} streams, limit {l}")));
                }
            }
        }
        for (p, t, m) in viol {
            self.o.v(p, t, m);
        }
    }

    fn pick(&self, s: usize, st: u8) -> Option<usize> {
        let live: Vec<usize> = self.side[s].sts.iter().enumerate().filter(|(_, t)| !t.dropped).map(|(i, _)| i).collect();
        if live.is_empty() {
            None
        } else {
            Some(live[st as usize * live.len() / 256])
        }
    }

    fn drop_stream(&mut self, s: usize, i: usize) {
        let st = &mut self.side[s].sts[i];
        if st.s.is_none() {
            return;
        }
        st.s = None;
        st.dropped = true;
        st.wpend = false;
        st.rpend = false;
        st.wprog.clear();
        st.rprog.clear();
        let id = st.id;
        self.o.label("dropped-stream");
        self.t(|| format!("  side {s}: drop {id}"));
    }

    fn start_close(&mut self, s: usize) {
        let sd = &mut self.side[s];
        if sd.closing || sd.ended.is_some() || sd.conn.is_none() {
            return;
        }
        sd.closing = true;
        sd.open_want = 0;
        sd.open_pend = false;
        sd.at_close = Some(sd.sts.iter().map(|t| (t.id, (t.acc, t.closed))).collect());
        self.sync(s);
        let sd = &mut self.side[s];
        sd.mon.in_stopped = true;
        sd.pings_at_close = sd.mon.pings_in.len();
        if let Some((_, f)) = self.fault.filter(|(k, f)| *k as usize == s && f.closing) {
            let mut c = sd.ctl.lock().unwrap();
            let base = if f.reads() { c.nread } else { c.nwritten };
            c.fault = Some(Fault { at: base + f.at, ..f });
        }
        self.t(|| format!("  side {s}: close connection"));
        self.poll_conn(s, usize::MAX);
    }

    fn drop_conn(&mut self, s: usize) {
        self.sync(s);
        let sd = &mut self.side[s];
        if sd.conn.is_none() {
            return;
        }
        sd.conn = None;
        let unfinished = sd.closing && sd.close_done.is_none();
        if sd.ended.is_none() {
            sd.ended = Some(End2::Dropped);
        }
        sd.mon.in_stopped = true;
        sd.closing = false;
        sd.open_want = 0;
        sd.open_pend = false;
        if unfinished {
            self.o.label("dropped-closing");
        }
        self.t(|| format!("  side {s}: drop connection"));
    }

    fn apply(&mut self, op: &Op) {
        self.t(|| format!("{op:?}"));
        match op {
            Op::Open { s, n } => {
                let s = *s as usize % 2;
                let sd = &mut self.side[s];
                if sd.ended.is_none() && !sd.closing {
                    sd.open_want = (sd.open_want + *n as usize).min(600);
                    let t = if sd.group == 0 || sd.group == 4 { 1 } else { 0 };
                    sd.flags[t].set();
                }
            }
            Op::Write { s, st, n, chunk } => {
                let s = *s as usize % 2;
                if let Some(i) = self.pick(s, *st) {
                    let t = &mut self.side[s].sts[i];
                    t.wprog.push_back(WOp::Write { left: *n as usize, chunk: *chunk as usize, once: *n == 0 });
                    let f = t.wtask;
                    self.side[s].flags[f].set();
                }
            }
            Op::Flush { s, st } => {
                let s = *s as usize % 2;
                if let Some(i) = self.pick(s, *st) {
                    let t = &mut self.side[s].sts[i];
                    t.wprog.push_back(WOp::Flush);
                    let f = t.wtask;
                    self.side[s].flags[f].set();
                }
            }
            Op::Close { s, st } => {
                let s = *s as usize % 2;
                if let Some(i) = self.pick(s, *st) {
                    let t = &mut self.side[s].sts[i];
                    t.wprog.push_back(WOp::Close);
                    let f = t.wtask;
                    self.side[s].flags[f].set();
                    self.o.label("closed-stream");
                }
            }
            Op::Read { s, st, n, buf } => {
                let s = *s as usize % 2;
                if let Some(i) = self.pick(s, *st) {
                    let t = &mut self.side[s].sts[i];
                    t.rprog.push_back(ROp::Read { left: (*n).max(1) as usize, buf: (*buf).max(*n / 2000) as usize });
                    let f = t.rtask;
                    self.side[s].flags[f].set();
                }
            }
            Op::Packets { s, st, n } => {
                let s = *s as usize % 2;
                if let Some(i) = self.pick(s, *st) {
                    let t = &mut self.side[s].sts[i];
                    t.rprog.push_back(ROp::Packets { left: (*n).max(1) as usize });
                    let f = t.rtask;
                    self.side[s].flags[f].set();
                }
            }
            Op::ReadEof { s, st, buf, packets } => {
                let s = *s as usize % 2;
                if let Some(i) = self.pick(s, *st) {
                    let t = &mut self.side[s].sts[i];
                    t.rprog.push_back(ROp::ToEof { buf: *buf as usize, packets: *packets });
                    let f = t.rtask;
                    self.side[s].flags[f].set();
                }
            }
            Op::Drop { s, st } => {
                let s = *s as usize % 2;
                if let Some(i) = self.pick(s, *st) {
                    self.drop_stream(s, i);
                }
            }
            Op::Run { k } => {
                for _ in 0..*k {
                    if !self.step() {
                        break;
                    }
                }
            }
            Op::Quiesce => self.quiesce(),
            Op::Advance { us } => self.clock.advance(Duration::from_micros(*us as u64)),
            Op::StallW { s, on } => {
                self.side[*s as usize % 2].ctl.lock().unwrap().set_wstall(*on);
                self.o.label("stall");
            }
            Op::StallF { s, on } => {
                self.side[*s as usize % 2].ctl.lock().unwrap().set_fstall(*on);
                self.o.label("stall");
            }
            Op::Hold { s, on } => {
                self.side[*s as usize % 2].rx.lock().unwrap().set_hold(*on);
                self.o.label("stall");
            }
            Op::CloseConn { s, words } => {
                self.last_words(*s as usize % 2, *words);
                self.start_close(*s as usize % 2)
            }
            Op::DropConn { s } => self.drop_conn(*s as usize % 2),
            Op::Burst { s, step, n, end } => {
                let s = *s as usize % 2;
                let mut drops = vec![];
                let sd = &mut self.side[s];
                for (k, i) in (0..sd.sts.len()).filter(|i| sd.sts[*i].s.is_some()).collect::<Vec<_>>().into_iter().enumerate() {
                    if k % (*step as usize).max(1) != 0 {
                        continue;
                    }
                    let t = &mut sd.sts[i];
                    let what = if *end % 4 == 3 { (k as u8).wrapping_mul(7) % 5 } else { *end % 4 };
                    if *n > 0 && what != 4 {
                        t.wprog.push_back(WOp::Write { left: *n as usize, chunk: (*n as usize).min(100), once: false });
                    }
                    match what {
                        1 => {
                            t.wprog.push_back(WOp::Close);
                            self.o.label("closed-stream");
                        }
                        2 => drops.push(i),
                        _ => {}
                    }
                    let f = t.wtask;
                    sd.flags[f].set();
                }
                if !drops.is_empty() {
                    self.step();
                    for i in drops {
                        self.drop_stream(s, i);
                    }
                }
                self.o.label("burst");
            }
        }
    }

    /// Writes, closes and drops on every stream, without the connection being polled in between.
    fn last_words(&mut self, s: usize, words: u8) {
        if words == 0 || self.side[s].closing || self.side[s].ended.is_some() || self.side[s].conn.is_none() {
            return;
        }
        for i in 0..self.side[s].sts.len() {
            let t = &mut self.side[s].sts[i];
            let what = (words / 64).wrapping_add((words / 8).wrapping_mul(i as u8)) % 4;
            if t.s.is_none() {
                continue;
            }
            if what != 3 && words % 8 > 0 {
                t.wprog.push_back(WOp::Write { left: (words % 8) as usize * 20, chunk: 50, once: false });
            }
            match what {
                1 => t.wprog.push_back(WOp::Close),
                2 if i % 4 == 3 => {
                    self.drop_stream(s, i);
                    continue;
                }
                _ => {}
            }
            if !t.wprog.is_empty() {
                self.poll_writer(s, i, usize::MAX);
            }
            if self.stop() {
                return;
            }
        }
        self.o.label("last-words");
    }

    fn unstall(&mut self) {
        for s in 0..2 {
            let mut c = self.side[s].ctl.lock().unwrap();
            c.set_wstall(false);
            c.set_fstall(false);
            drop(c);
            self.side[s].rx.lock().unwrap().set_hold(false);
        }
    }

    /// Every live stream: finish its programs, close, read to the end.
    fn finish_streams(&mut self, rounds: usize) {
        for _ in 0..rounds {
            let mut any = false;
            for s in 0..2 {
                for i in 0..self.side[s].sts.len() {
                    let st = &mut self.side[s].sts[i];
                    if st.s.is_none() || st.finale {
                        continue;
                    }
                    any = true;
                    st.finale = true;
                    st.wprog.push_back(WOp::Close);
                    let packets = st.id % 4 < 2;
                    st.rprog.push_back(ROp::ToEof { buf: 4096 + (st.id as usize * 37) % 9000, packets });
                    let (a, b) = (st.wtask, st.rtask);
                    self.side[s].flags[a].set();
                    self.side[s].flags[b].set();
                }
            }
            self.quiesce();
            if self.stop() || !any {
                return;
            }
            // a stream whose peer closed and then dropped it may wait for credit that never comes (known finding K1)
            for s in 0..2 {
                for i in 0..self.side[s].sts.len() {
                    let st = &self.side[s].sts[i];
                    if st.wpend && self.peer_of(s, st.id).is_some_and(|p| p.dropped && p.closed) {
                        self.o.label("excluded-K1");
                        self.drop_stream(s, i);
                    }
                }
            }
        }
    }

    fn check_finished(&mut self) {
        let mut viol: Vec<(&'static str, &'static str, String)> = vec![];
        for s in 0..2 {
            if self.side[s].ended.is_some() || self.side[1 - s].ended.is_some() || self.side[s].closing || self.side[1 - s].closing {
                return;
            }
            for st in &self.side[s].sts {
                let Some(p) = self.peer_of(s, st.id) else {
                    if !st.dropped {
                        viol.push(("C02 C13", "finish.unseen", format!("side {s}: stream {} was closed but the peer never saw it", st.id)));
                    }
                    continue;
                };
                if st.dropped {
                    continue;
                }
                if !st.eof {
                    viol.push(("C02", "finish.no_eof", format!("side {s}: stream {} never reached its end", st.id)));
                }
                if st.rd != p.acc {
                    viol.push(("C01 C02", "finish.short", format!("side {s}: stream {} delivered {} of {} bytes", st.id, st.rd, p.acc)));
                }
                if st.wpend || !st.wprog.is_empty() {
                    viol.push(("C09", "finish.writer", format!("side {s}: stream {} still has {:?}", st.id, st.wprog.front())));
                }
            }
        }
        for (p, t, m) in viol {
            self.o.v(p, t, m);
        }
    }

    pub fn run(&mut self, c: &PairCase) {
        for op in &c.ops {
            self.apply(op);
            if self.stop() {
                return;
            }
            self.invariants();
            if self.stop() {
                return;
            }
        }
        for s in 0..2 {
            if self.side[s].sts.iter().any(|t| t.was_blocked) {
                self.o.label("writer-blocked");
            }
        }
        self.unstall();
        self.t(|| format!("finale {}", c.finale));
        self.quiesce();
        if self.stop() {
            return;
        }
        let alive = self.side.iter().all(|x| x.ended.is_none() && !x.closing);
        match c.finale % 4 {
            // close one side with the streams in whatever state they are
            1 if alive => {
                let s = (c.finale as usize / 4) % 2;
                self.last_words(s, c.words);
                self.start_close(s);
                if (c.finale as usize / 8) % 2 == 1 {
                    self.start_close(1 - s);
                }
            }
            2 if alive && c.fault.is_none() => {
                // drop every stream, everything must settle
                for s in 0..2 {
                    for i in 0..self.side[s].sts.len() {
                        self.drop_stream(s, i);
                    }
                }
                self.quiesce();
                // streams announced late
                for s in 0..2 {
                    for i in 0..self.side[s].sts.len() {
                        self.drop_stream(s, i);
                    }
                }
            }
            3 if alive && c.fault.is_none() => {
                self.drop_conn((c.finale as usize / 4) % 2);
            }
            _ => {}
        }
        self.quiesce();
        if self.stop() {
            return;
        }
        self.invariants();
        if self.stop() {
            return;
        }
        self.finish_streams(64);
        if self.stop() {
            return;
        }
        self.invariants();
        self.check_finished();
        if self.stop() {
            return;
        }
        if let Some((s, _)) = self.fault {
            if self.side[s as usize].ctl.lock().unwrap().fired.is_some() {
                self.o.label("fault-fired");
            }
        }
        // what the closing side had accepted must reach a peer that kept reading
        for s in 0..2 {
            let p = 1 - s;
            if self.side[s].at_close.is_none() || self.side[s].close_done != Some(Ok(())) || c.fault.is_some() {
                continue;
            }
            if self.side[p].closing || self.side[p].at_close.is_some() || self.side[p].ended != Some(End2::Clean) || !self.side[p].cfg.rac {
                continue;
            }
            let snap = self.side[s].at_close.clone().unwrap();
            let mut viol = vec![];
            for st in &self.side[p].sts {
                if st.dropped {
                    continue;
                }
                if let Some((acc, _)) = snap.get(&st.id) {
                    if st.rd != *acc {
                        viol.push(format!("side {p}: stream {}: {} of {acc} bytes accepted before the peer closed the connection", st.id, st.rd));
                    } else if *acc > 0 {
                        self.o.label("close-delivered");
                    }
                }
            }
            for m in viol {
                self.o.v("C20", "close.undelivered", m);
            }
        }
        if self.stop() {
            return;
        }
        // orderly end of the whole connection
        let both = c.finale & 0x80 != 0;
        let first = (c.finale as usize / 16) % 2;
        self.last_words(first, c.words);
        if self.stop() {
            return;
        }
        self.start_close(first);
        if both {
            self.start_close(1 - first);
        }
        if self.stop() {
            return;
        }
        self.quiesce();
        if self.stop() {
            return;
        }
        self.invariants();
        if self.errors_seen {
            self.o.label("errors");
        }
    }
}

impl Side {
    fn new_task(&mut self, e: Vec<Ent>, on: bool) -> usize {
        self.flags.push(Flag::new(on));
        self.ents.push(e);
        self.flags.len() - 1
    }
}

pub fn run(c: &PairCase, trace: bool) -> Outcome {
    parking_lot::verif::install(Some(Arc::new(parking_lot::verif::SingleThread)));
    let mut w = std::mem::ManuallyDrop::new(World::new(c, trace));
    w.run(c);
    let o = std::mem::take(&mut w.o);
    // dropping everything must be quiet too
    let _ = std::mem::ManuallyDrop::into_inner(w);
    parking_lot::verif::install(None);
    o
}
