//! W5: back-pressure. One real endpoint whose transport accepts a few bytes and then nothing, while its application
//! writes, its peer floods it, and its application does not read.
use crate::alloc;
use crate::common::*;
use crate::raw::EndK;
use crate::rig::*;
use crate::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::sync::Arc;
use std::task::Poll;
use yamux::Stream;

/// "A small fixed number": far above what is needed, far below what a flood would reach.
const MAX_FRAMES: u64 = 64;
const MAX_REPLIES: u64 = 64;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FOp {
    Write { st: u8, n: u32, times: u16 },
    /// on every stream
    WriteEach { n: u32, times: u16 },
    Pings {
        n: u16,
        /// how often each value is repeated
        #[serde(default)]
        rep: u8,
    },
    /// opening frames with an invalid id
    BadSyn { n: u16 },
    Data { st: u8, n: u32, times: u16 },
    /// frames without payload for a live stream
    Empty { st: u8, n: u16, wu: bool },
    /// frames for streams that do not exist
    Noise { n: u16, kind: u8 },
    Close { st: u8 },
    /// read what there is
    Read { st: u8 },
    Drop { st: u8 },
    Room { n: u32 },
    Adv { us: u32 },
    /// the peer answers the outstanding round-trip probe
    Pong,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FloodCase {
    pub client: bool,
    pub cfg: Cfg,
    pub outs: u8,
    pub ins: u8,
    pub cap: u32,
    pub rsched: Vec<u16>,
    pub ops: Vec<FOp>,
    /// close the connection while the transport accepts nothing; which methods are polled
    #[serde(default)]
    pub close: Option<u8>,
}

pub fn flood() -> BoxedStrategy<FloodCase> {
    prop_oneof![15 => floods(), 1 => owed_credit()].boxed()
}

/// Credit is due while the transport is stuck, something may be ahead of it, more follows it, the connection is closed.
fn owed_credit() -> BoxedStrategy<FloodCase> {
    let cfg = (prop_oneof![1u32..50, Just(16_384u32)], any::<bool>()).prop_map(|(split, rac)| Cfg { split, rac, ..Cfg::default() });
    let data = (700u32..20_000, 150u16..400);
    (any::<bool>(), cfg, 0u8..2, 1u8..3, prop_oneof![Just(0u32), 1u32..40], (any::<u8>(), 0u16..3, data, 0u32..100, any::<bool>()), prop_oneof![3 => (0u8..4).prop_map(Some), 1 => Just(None)])
        .prop_map(|(client, cfg, outs, ins, cap, (st, pings, (n, times), len, fin), close)| {
            let mut ops = vec![FOp::Data { st, n, times }, FOp::Pings { n: pings, rep: 0 }, FOp::Read { st }];
            if len > 0 {
                ops.push(FOp::Write { st, n: len, times: 1 });
            }
            if fin {
                ops.push(FOp::Close { st });
            }
            FloodCase { client, cfg, outs, ins, cap, rsched: vec![], ops, close }
        })
        .boxed()
}

fn floods() -> BoxedStrategy<FloodCase> {
    let st = || prop_oneof![Just(0u8), any::<u8>()];
    let size = || prop_oneof![3 => 1u32..100, 2 => 100u32..20_000, 1 => Just(1u32)];
    let op = prop_oneof![
        8 => (st(), size(), prop_oneof![1u16..20, 50u16..400]).prop_map(|(st, n, times)| FOp::Write { st, n, times }),
        2 => (size(), 1u16..16).prop_map(|(n, times)| FOp::WriteEach { n, times }),
        5 => (prop_oneof![1u16..30, 500u16..3000], prop_oneof![3 => Just(0u8), 1 => 1u8..4, 1 => Just(255u8)]).prop_map(|(n, rep)| FOp::Pings { n, rep }),
        1 => prop_oneof![1u16..30, 500u16..3000].prop_map(|n| FOp::BadSyn { n }),
        3 => (st(), size(), prop_oneof![20 => 1u16..20, 20 => 50u16..400, 1 => 1000u16..20_000]).prop_map(|(st, n, times)| FOp::Data { st, n: if times >= 1000 { n % 4 + 1 } else { n }, times }),
        2 => (st(), prop_oneof![1u16..30, 500u16..3000], any::<bool>()).prop_map(|(st, n, wu)| FOp::Empty { st, n, wu }),
        2 => (prop_oneof![1u16..30, 500u16..3000], any::<u8>()).prop_map(|(n, kind)| FOp::Noise { n, kind }),
        1 => st().prop_map(|st| FOp::Close { st }),
        2 => st().prop_map(|st| FOp::Read { st }),
        1 => st().prop_map(|st| FOp::Drop { st }),
        2 => prop_oneof![1u32..40, 100u32..30_000].prop_map(|n| FOp::Room { n }),
        2 => prop_oneof![2 => Just(10_000_000u32), 1 => Just(9_999_999u32), 1 => 0u32..30_000_000].prop_map(|us| FOp::Adv { us }),
        2 => Just(FOp::Pong),
    ];
    let cfg = (prop_oneof![1u32..50, 50u32..3000, Just(16_384u32)], any::<bool>(), prop_oneof![Just(Some(0u64)), Just(Some(1u64 << 29)), Just(None)])
        .prop_map(|(split, rac, extra_window)| Cfg { split, rac, extra_window, ..Cfg::default() });
    let rs = prop_oneof![3 => Just(vec![]), 1 => vec(1u16..50, 1..4)];
    (any::<bool>(), cfg, prop_oneof![15 => 0u8..5, 1 => 5u8..60], 0u8..4, prop_oneof![Just(0u32), 1u32..40, 100u32..5000], rs, vec(op, 1..9), prop_oneof![2 => Just(None), 1 => (0u8..4).prop_map(Some)])
        .prop_map(|(client, cfg, outs, ins, cap, rsched, mut ops, close)| {
            // more than half a window is read before anything else
            if let FOp::Data { st, n, times: 50..=400 } = ops[0] {
                ops.splice(0..1, [FOp::Data { st, n: n.max(700), times: 400 }, FOp::Read { st }]);
            }
            FloodCase { client, cfg, outs, ins, cap, rsched, ops, close }
        })
        .boxed()
}

struct S {
    id: u32,
    h: Option<Stream>,
    flag: Arc<Flag>,
    wpend: bool,
    acc_frames: u64,
    acc: u64,
    sent_frames: u64,
    sent: u64,
    credit: u64,
    win: u64,
    /// received, and read of it
    held: u64,
    got: u64,
    chunks: u64,
    closed: bool,
    fin: bool,
    /// something was sent on it
    spoke: bool,
}

struct W {
    o: Outcome,
    r: Rig,
    s: Vec<S>,
    pings_read: VecDeque<u32>,
    probe: Option<u32>,
    answered: Option<u64>,
    pongs_fed: u32,
    bad_read: u64,
    bad: bool,
    closing: bool,
    goaway: bool,
    base: i64,
    client: bool,
    trace: bool,
}

impl W {
    fn settle(&mut self) {
        self.r.drive();
        while let Some(h) = self.r.fresh.pop_front() {
            let id = h.id().val();
            match self.s.iter_mut().find(|s| s.id == id && s.h.is_none() && s.acc == 0) {
                Some(s) => s.h = Some(h),
                None => {
                    if !self.bad {
                        self.o.v("C13 C22", "inbound.unexpected", format!("inbound stream {id} nobody opened"));
                    }
                    discard(h);
                }
            }
        }
        let inn = self.r.inn();
        // what is read while closing is thrown away
        for f in inn.into_iter().filter(|_| !self.closing) {
            if f.ty == PING && f.flags == SYN && f.id == 0 {
                self.pings_read.push_back(f.len);
            } else if f.ty == PING && f.flags == ACK {
                // fed only while its probe is outstanding
                self.probe = None;
                self.pongs_fed = 0;
                self.answered = Some(web_time::virt::now_nanos());
            } else if f.has(SYN) && f.ty <= WU && !self.s.iter().any(|s| s.id == f.id) {
                self.bad_read += 1;
            }
        }
        for f in self.r.out() {
            match f.ty {
                PING if f.flags == ACK => match self.pings_read.pop_front() {
                    Some(v) if v == f.len => {}
                    x => self.o.v("C19", "pong.wrong", format!("{} sent, expected answer {x:?}", f.brief())),
                },
                PING => {
                    let early = self.answered.is_some_and(|t| web_time::virt::now_nanos() < t + 10_000_000_000);
                    if f.flags != SYN || f.id != 0 || self.probe.is_some() || early {
                        let m = format!("{} with {:?} outstanding, the last one answered at {:?}", f.brief(), self.probe, self.answered);
                        self.o.v("C19 C17", "probe", m);
                    }
                    self.probe = Some(f.len);
                    if self.answered.is_some() {
                        self.o.label("probe");
                    }
                }
                GOAWAY if self.closing && f.len == 0 && !self.goaway => {
                    self.goaway = true;
                    if !self.pings_read.is_empty() {
                        let m = format!("{} pings received before the close were not answered", self.pings_read.len());
                        self.o.v("C19 C20", "close.pongs", m);
                    }
                    if self.bad_read > 0 {
                        let m = format!("{} GoAways owed before the close were not sent", self.bad_read);
                        self.o.v("C20 C13", "close.replies", m);
                    }
                }
                _ if self.goaway => self.o.v("C20 C16", "close.after_goaway", f.brief()),
                GOAWAY => {
                    if self.bad_read == 0 {
                        self.o.v("C22 C11", "goaway.unexpected", f.brief());
                    }
                    self.bad_read = self.bad_read.saturating_sub(1);
                }
                _ => {
                    let Some(s) = self.s.iter_mut().find(|s| s.id == f.id) else {
                        self.o.v("C16 C22", "frame.unknown_stream", f.brief());
                        continue;
                    };
                    if f.ty == DATA && !f.body.is_empty() {
                        if pat::check(pat::key(0, f.id), s.sent, &f.body).is_some() || s.sent + f.body.len() as u64 > s.acc {
                            self.o.v(if self.closing { "C01 C20" } else { "C01" }, "wire.payload", format!("{} is not what was accepted", f.brief()));
                        }
                        s.sent += f.body.len() as u64;
                        s.sent_frames += 1;
                    }
                    let mine = (s.id % 2 == 1) == self.client;
                    if !s.spoke && !f.has(RST) && !f.has(if mine { SYN } else { ACK }) && !(s.h.is_none() && f.has(FIN)) {
                        self.o.v("C16", "wire.first", format!("first frame of a stream: {}", f.brief()));
                    }
                    if s.spoke && f.flags & (SYN | ACK) != 0 {
                        self.o.v("C16", "wire.first", format!("not the first frame of its stream: {}", f.brief()));
                    }
                    s.spoke = true;
                    if f.ty == WU {
                        s.win += f.len as u64;
                    }
                    if f.has(FIN) || f.has(RST) {
                        s.fin = true;
                    }
                }
            }
        }
        if let Some(b) = self.r.outp.bad.clone() {
            self.o.v("C17", "wire.malformed", b);
        }
        if self.r.end.is_some() && !self.bad && !self.closing {
            self.o.v("C21 C22", "end.unexpected", format!("the connection ended: {:?}", self.r.end));
        }
        let unsent = self.pings_read.len() as u64 + self.bad_read;
        if unsent > MAX_REPLIES {
            self.o.v("C11", "replies.unbounded", format!("{unsent} frames that call for a reply were read while the transport accepts nothing"));
        }
        // memory
        let mut allow: i64 = 24 * 1024;
        for s in &self.s {
            allow += (s.acc.saturating_sub(s.sent) + s.held - s.got.min(s.held)) as i64 * 2 + (s.chunks as i64) * 100 + MAX_FRAMES as i64 * 128 + 2048;
        }
        allow += unsent as i64 * 256 + 1024 * 24;
        let used = alloc::lib() - self.base;
        if used > allow {
            self.o.v("C11 C24 C22", "memory", format!("{used} bytes held, {allow} explained by the data it has to keep"));
        }
        if self.trace {
            let t = format!("    unsent replies {unsent}, memory {used} of {allow}");
            self.o.trace.push(t);
        }
    }
    fn pick(&self, st: u8) -> Option<usize> {
        let v: Vec<usize> = (0..self.s.len()).filter(|i| self.s[*i].h.is_some()).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[st as usize % v.len()])
        }
    }
    fn read_all(&mut self, i: usize, whole: bool) {
        let s = &mut self.s[i];
        let Some(h) = s.h.as_mut() else { return };
        if s.held > s.got {
            self.o.label(if whole { "held-data-read" } else { "read-while-stuck" });
        }
        let f = Flag::new(false);
        let mut got = s.got;
        let mut buf = vec![0u8; if s.id & 4 == 0 { 3000 } else { 70_000 }];
        loop {
            match read(h, &f, &mut buf) {
                Poll::Ready(Ok(n)) if n > 0 => {
                    if let Some(p) = pat::check(pat::key(1, s.id), got, &buf[..n]) {
                        self.o.v("C01", "bytes.mismatch", format!("stream {} offset {}: not the byte the peer sent", s.id, got + p as u64));
                        return;
                    }
                    got += n as u64;
                }
                Poll::Pending => break,
                r => {
                    self.o.v("C01 C02", "read.end", format!("reading stream {} after {got} of {} bytes: {r:?}", s.id, s.held));
                    return;
                }
            }
        }
        s.got = got;
        if whole && got != s.held {
            self.o.v("C01", "bytes.lost", format!("stream {}: {got} of {} received bytes could be read", s.id, s.held));
        }
    }
    fn write(&mut self, i: usize, n: usize, split: usize) -> bool {
        let s = &mut self.s[i];
        let b = pat::fill(pat::key(0, s.id), s.acc, n);
        s.flag.take();
        s.wpend = false;
        match write(s.h.as_mut().unwrap(), &s.flag, &b) {
            Poll::Ready(Ok(k)) => {
                if s.closed || k == 0 || k > split || k as u64 > s.credit {
                    let m = format!("write of {n} on {} accepted {k} (credit {}, closed {})", s.id, s.credit, s.closed);
                    self.o.v("C03 C05 C17", "write.count", m);
                    return false;
                }
                s.credit -= k as u64;
                s.acc += k as u64;
                s.acc_frames += 1;
                if s.acc_frames.saturating_sub(s.sent_frames) > MAX_FRAMES {
                    let m = format!("{} frames accepted on stream {} while the transport takes none", s.acc_frames - s.sent_frames, s.id);
                    self.o.v("C11", "frames.unbounded", m);
                    return false;
                }
                true
            }
            Poll::Ready(Err(e)) => {
                if !s.closed && !self.bad {
                    let m = format!("write on {} failed: {e}", s.id);
                    self.o.v("C11 C04", "write.err", m);
                }
                false
            }
            Poll::Pending => {
                s.wpend = true;
                self.o.label("write-waits-for-room");
                false
            }
        }
    }
}

pub fn run(c: &FloodCase, trace: bool) -> Outcome {
    let base0 = alloc::lib();
    let r = Rig::new(c.client, c.cfg.build(), &[], &c.rsched, usize::MAX);
    let mut w = W {
        o: Outcome::default(),
        r,
        s: vec![],
        pings_read: VecDeque::new(),
        probe: None,
        answered: None,
        pongs_fed: 0,
        bad_read: 0,
        bad: false,
        closing: false,
        goaway: false,
        base: base0,
        client: c.client,
        trace,
    };
    w.settle();
    let mk = |id, h| S {
        id,
        h,
        flag: Flag::new(false),
        wpend: false,
        acc_frames: 0,
        acc: 0,
        sent_frames: 0,
        sent: 0,
        credit: WINDOW,
        win: WINDOW,
        held: 0,
        got: 0,
        chunks: 0,
        closed: false,
        fin: false,
        spoke: false,
    };
    for _ in 0..c.outs {
        let f = Flag::new(false);
        match w.r.open(&f) {
            Poll::Ready(Ok(h)) => w.s.push(mk(h.id().val(), Some(h))),
            _ => {
                w.o.v("C15", "open", "opening a stream on a fresh connection failed".into());
                return w.o;
            }
        }
    }
    for k in 0..c.ins {
        let id = k as u32 * 2 + if c.client { 2 } else { 1 };
        w.s.push(mk(id, None));
        w.r.feed(&Fr::new(WU, SYN, id, 0).encode());
    }
    w.settle();
    w.r.drain();
    w.r.tx.lock().unwrap().set_cap(c.cap as usize);
    let mut ctr = 0u32;
    for op in &c.ops {
        if !w.o.viol.is_empty() {
            return w.o;
        }
        if trace {
            w.o.trace.push(format!("  {op:?}"));
        }
        match op {
            FOp::Write { st, n, times } => {
                let Some(i) = w.pick(*st) else { continue };
                for _ in 0..*times {
                    if !w.write(i, *n as usize, c.cfg.split()) {
                        break;
                    }
                    w.settle();
                    if !w.o.viol.is_empty() {
                        return w.o;
                    }
                }
            }
            FOp::WriteEach { n, times } => {
                for i in 0..w.s.len() {
                    for _ in 0..*times {
                        if w.s[i].h.is_none() || !w.write(i, *n as usize, c.cfg.split()) {
                            break;
                        }
                    }
                }
                w.settle();
            }
            FOp::Pings { n, rep } => {
                let mut b = vec![];
                for k in 0..*n {
                    if k % (*rep as u16 + 1) == 0 {
                        ctr = ctr.wrapping_mul(1664525).wrapping_add(1013904223);
                    }
                    b.extend(Fr::new(PING, SYN, 0, ctr).encode());
                }
                w.r.feed(&b);
                w.settle();
                if *n >= 500 {
                    w.o.label("ping-flood");
                }
            }
            FOp::BadSyn { n } => {
                let id = if c.client { 1001 } else { 1002 };
                let b: Vec<u8> = (0..*n).flat_map(|k| Fr::new((k % 2) as u8, SYN, if k % 5 == 0 { 0 } else { id }, 0).encode()).collect();
                w.bad = true;
                w.r.feed(&b);
                w.settle();
                if *n >= 500 {
                    w.o.label("bad-open-flood");
                }
            }
            FOp::Data { st, n, times } => {
                let Some(i) = w.pick(*st) else { continue };
                let mut b = vec![];
                for _ in 0..*times {
                    let s = &mut w.s[i];
                    let k = (*n as u64).min(s.win);
                    if k == 0 {
                        break;
                    }
                    b.extend(Fr::data(0, s.id, pat::fill(pat::key(1, s.id), s.held, k as usize)).encode());
                    s.win -= k;
                    s.held += k;
                    s.chunks += 1;
                }
                w.r.feed(&b);
                w.settle();
                w.o.label("unread-data");
            }
            FOp::Empty { st, n, wu } => {
                let Some(i) = w.pick(*st) else { continue };
                let id = w.s[i].id;
                let b: Vec<u8> = (0..*n).flat_map(|_| Fr::new(if *wu { WU } else { DATA }, 0, id, 0).encode()).collect();
                w.r.feed(&b);
                w.settle();
                if *n >= 500 {
                    w.o.label("empty-flood");
                }
            }
            FOp::Noise { n, kind } => {
                let b: Vec<u8> = (0..*n)
                    .flat_map(|k| {
                        let id = 2001 + 2 * k as u32 + (*kind as u32 & 1);
                        match kind / 2 % 4 {
                            0 => Fr::data(0, id, vec![9; (k % 60) as usize]),
                            1 => Fr::new(WU, 0, id, 77),
                            2 => Fr::new(k as u8 % 2, FIN, id, 0),
                            _ => Fr::new(PING, SYN, id, 5),
                        }
                        .encode()
                    })
                    .collect();
                // pings of unknown streams are not answered
                w.r.feed(&b);
                w.settle();
                if *n >= 500 {
                    w.o.label("noise-flood");
                }
            }
            FOp::Close { st } => {
                let Some(i) = w.pick(*st) else { continue };
                let s = &mut w.s[i];
                if s.wpend || s.closed {
                    continue;
                }
                match close(s.h.as_mut().unwrap(), &s.flag) {
                    Poll::Ready(Ok(())) => s.closed = true,
                    // waits for queue room: not closed yet
                    Poll::Pending => {}
                    Poll::Ready(Err(e)) => {
                        if !w.bad {
                            let m = format!("close of {} failed: {e}", s.id);
                            w.o.v("C03", "close.err", m);
                        }
                    }
                }
                w.settle();
            }
            FOp::Read { st } => {
                let Some(i) = w.pick(*st) else { continue };
                w.read_all(i, false);
                if !w.o.viol.is_empty() {
                    return w.o;
                }
                w.settle();
            }
            FOp::Drop { st } => {
                let Some(i) = w.pick(*st) else { continue };
                let h = w.s[i].h.take();
                discard(h);
                w.settle();
            }
            FOp::Adv { us } => w.r.clock.advance(std::time::Duration::from_micros(*us as u64)),
            FOp::Pong => {
                if let (Some(v), 0) = (w.probe, w.pongs_fed) {
                    w.pongs_fed = 1;
                    w.r.feed(&Fr::new(PING, ACK, 0, v).encode());
                    w.settle();
                }
            }
            FOp::Room { n } => {
                let mut t = w.r.tx.lock().unwrap();
                t.take(*n as usize);
                drop(t);
                w.settle();
            }
        }
    }
    if !w.o.viol.is_empty() {
        return w.o;
    }
    if let (Some(via), None) = (c.close, &w.r.end) {
        w.closing = true;
        let queued: u64 = w.s.iter().map(|s| s.acc_frames - s.sent_frames).sum();
        if queued > 100 {
            w.o.label("closed-many-queued");
        }
        let unsent = w.pings_read.len();
        w.r.close(via);
        w.settle();
        w.r.tx.lock().unwrap().set_cap(usize::MAX);
        w.settle();
        if !w.o.viol.is_empty() {
            return w.o;
        }
        w.o.label("closed-conn");
        if unsent > 0 {
            w.o.label("closed-owing-replies");
        }
        let (closed, wac) = {
            let c = w.r.ctl.lock().unwrap();
            (c.closed, c.write_after_close)
        };
        if w.r.end != Some(EndK::Clean) {
            w.o.v("C20", "close.stuck", format!("closing with the transport free again: {:?}", w.r.end));
        } else if !w.goaway || !closed || wac || w.r.outp.partial() {
            let m = format!("closed with GoAway {}, transport closed {closed}, written after close {wac}, partial frame {}", w.goaway, w.r.outp.partial());
            w.o.v("C20", "close.transport", m);
        }
        for s in &w.s {
            if s.sent != s.acc {
                w.o.v("C20", "close.lossy", format!("stream {}: {} of {} accepted bytes sent", s.id, s.sent, s.acc));
            }
            if s.closed && !s.fin {
                w.o.v("C20", "close.lossy", format!("stream {}: close accepted, but no FIN", s.id));
            }
        }
        return w.o;
    }
    // the transport accepts again
    w.r.tx.lock().unwrap().set_cap(usize::MAX);
    w.settle();
    w.r.drain();
    w.r.flag.set();
    w.settle();
    if !w.o.viol.is_empty() || w.r.end.is_some() {
        return w.o;
    }
    let now = web_time::virt::now_nanos();
    if w.probe.is_none() && w.answered.is_none_or(|t| now > t + 10_000_000_000) {
        let m = format!("polled with room to write, but no probe sent; the last one was answered at {:?}", w.answered);
        w.o.v("C19", "probe.missing", m);
    }
    let unread = w.r.rx.lock().unwrap().buf.len();
    if unread > 0 {
        w.o.v("C09 C11", "read.stuck", format!("{unread} bytes left unread although nothing holds the endpoint back"));
    }
    if !w.pings_read.is_empty() && !w.bad {
        let m = format!("{} pings not answered", w.pings_read.len());
        w.o.v("C19 C09", "pong.missing", m);
    }
    for i in 0..w.s.len() {
        let s = &w.s[i];
        if s.sent != s.acc {
            let m = format!("stream {}: {} of {} accepted bytes sent", s.id, s.sent, s.acc);
            w.o.v("C09 C01", "data.missing", m);
        } else if s.wpend && s.h.is_some() && s.credit > 0 && !s.flag.get() {
            let m = format!("the task waiting to write stream {} was not woken when there was room again", s.id);
            w.o.v("C09 C11", "wake.writer", m);
        }
    }
    // what was held unread is all there
    for i in 0..w.s.len() {
        w.read_all(i, true);
        if !w.o.viol.is_empty() {
            return w.o;
        }
    }
    // and the credit for it is returned
    w.settle();
    for s in &w.s {
        if s.h.is_some() && s.win * 2 <= WINDOW {
            let m = format!("everything on stream {} is read, and the peer is left with a credit of {}", s.id, s.win);
            w.o.v("C08 C09", "credit.withheld", m);
        }
    }
    w.o
}
