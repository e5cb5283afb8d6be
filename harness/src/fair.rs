//! W8: many streams, replies, probes and inbound traffic compete for one connection; nobody may be starved.
use crate::common::*;
use crate::rig::*;
use crate::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::task::Poll;
use yamux::Stream;

/// Frames of others between two frames of a stream that has frames queued: this many per live stream, ...
const ROUND: u64 = 8;
/// ... and this many besides.
const SLACK: u64 = 48;
/// Stream frames that may still go out before a reply or a due probe.
const AHEAD: u64 = 16;
/// Frames that may be read in one go while there is something to send.
const BURST: u64 = 512;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum In {
    Pings { n: u16 },
    Data { n: u16, len: u8 },
    Credit { n: u16 },
    Noise { n: u16 },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Step {
    /// which streams write until they have to wait (bit set), and with which size
    pub busy: u16,
    pub size: u16,
    /// bytes the transport takes; `None`: everything
    pub room: Option<u16>,
    pub inn: Vec<In>,
    pub open: bool,
    /// a stream to close or drop
    pub end: Option<(u8, bool)>,
    pub adv: u32,
    pub pong: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FairCase {
    pub client: bool,
    pub split: u32,
    pub outs: u8,
    pub ins: u8,
    pub wbuf: u16,
    pub wsched: Vec<u16>,
    pub rsched: Vec<u16>,
    pub steps: Vec<Step>,
    pub laps: u8,
}

pub fn fair() -> BoxedStrategy<FairCase> {
    let n = || prop_oneof![4 => 1u16..6, 1 => 6u16..60];
    let inn = prop_oneof![
        4 => n().prop_map(|n| In::Pings { n }),
        2 => (n(), 0u8..40).prop_map(|(n, len)| In::Data { n, len }),
        1 => n().prop_map(|n| In::Credit { n }),
        1 => n().prop_map(|n| In::Noise { n }),
    ];
    let big = (1000u16..2500, 0u8..4, 0u8..12).prop_map(|(n, k, len)| match k {
        0 => In::Data { n, len },
        1 => In::Credit { n },
        2 => In::Noise { n },
        _ => In::Pings { n },
    });
    let busy = prop_oneof![3 => Just(u16::MAX), 2 => any::<u16>(), 1 => Just(0u16)];
    let size = prop_oneof![4 => 1u16..40, 1 => 40u16..400];
    let step = (
        busy,
        size,
        prop_oneof![8 => (1u16..200).prop_map(Some), 1 => Just(None)],
        vec(inn, 0..2),
        prop_oneof![30 => Just(None), 1 => big.prop_map(Some)],
        proptest::bool::weighted(0.05),
        prop_oneof![20 => Just(None), 1 => (any::<u8>(), any::<bool>()).prop_map(Some)],
        prop_oneof![6 => Just(0u32), 1 => Just(10_000_000u32), 1 => 0u32..20_000_000],
        any::<bool>(),
    )
        .prop_map(|(busy, size, room, mut inn, big, open, end, adv, pong)| {
            // a burst comes with something to send and room for it
            let (room, busy) = if big.is_some() { (None, busy | 1) } else { (room, busy) };
            inn.extend(big);
            Step { busy, size, room, inn, open, end, adv, pong }
        });
    let ws = prop_oneof![3 => Just(vec![]), 1 => vec(prop_oneof![1u16..40, Just(u16::MAX)], 1..4)];
    let wbuf = prop_oneof![2 => Just(0u16), 1 => 1u16..300, 1 => 300u16..20_000];
    (any::<bool>(), prop_oneof![3 => 1u32..60, 1 => 60u32..20_000], 1u8..9, 0u8..4, wbuf, ws.clone(), ws, vec(step, 1..10), prop_oneof![2 => 1u8..6, 1 => 6u8..40])
        .prop_map(|(client, split, outs, ins, wbuf, wsched, rsched, steps, laps)| {
            // repeated bursts would only take time
            let laps = if steps.iter().any(|s| s.room.is_none()) { laps.min(4) } else { laps };
            FairCase { client, split, outs, ins, wbuf, wsched, rsched, steps, laps }
        })
        .boxed()
}

struct S {
    id: u32,
    h: Option<Stream>,
    flag: Arc<Flag>,
    /// frames accepted for sending (data, close) and seen
    acc: u64,
    sent: u64,
    bytes: u64,
    /// frames of other streams since the last one of this stream, or since it has frames to send
    waited: u64,
    win: u64,
    closed: bool,
    gone: bool,
}

struct W {
    o: Outcome,
    r: Rig,
    s: Vec<S>,
    pings: std::collections::VecDeque<(u32, u64)>,
    probe: Option<u32>,
    pong_fed: bool,
    answered: u64,
    due_for: u64,
    read_since: u64,
    unflushed_since: Option<u64>,
    stream_frames: u64,
}

impl W {
    fn backlog(&self) -> bool {
        self.s.iter().any(|s| s.acc > s.sent)
    }
    /// `free`: the transport took everything at any time
    fn settle(&mut self, free: bool) {
        self.read_since = 0;
        self.unflushed_since = None;
        self.r.drive();
        while let Some(h) = self.r.fresh.pop_front() {
            let id = h.id().val();
            if let Some(s) = self.s.iter_mut().find(|s| s.id == id && s.h.is_none()) {
                s.h = Some(h)
            }
        }
        let (out, inn, order) = {
            let mut c = self.r.ctl.lock().unwrap();
            (std::mem::take(&mut c.out), std::mem::take(&mut c.inn), c.order.replace(vec![]).unwrap_or_default())
        };
        let (mut i, mut j) = (0, 0);
        let mut fs = vec![];
        let now = web_time::virt::now_nanos();
        for (is_out, n) in order {
            fs.clear();
            if is_out {
                if n == 0 {
                    self.unflushed_since = None;
                    continue;
                }
                self.r.outp.feed(&out[i..i + n], &mut fs);
                i += n;
                self.unflushed_since.get_or_insert(0);
                for f in &fs {
                    self.sent(f, now);
                }
                continue;
            }
            self.r.inp.feed(&inn[j..j + n], &mut fs);
            j += n;
            for f in &fs {
                if f.ty == PING && f.flags == SYN && f.id == 0 {
                    self.pings.push_back((f.len, 0));
                }
                if f.ty == PING && f.flags == ACK {
                    self.probe = None;
                    self.pong_fed = false;
                    self.answered = now;
                }
                if !free {
                    continue;
                }
                if self.backlog() {
                    self.read_since += 1;
                    if self.read_since > BURST {
                        let m = format!("{} frames read in one go while accepted frames wait and the transport takes everything", self.read_since);
                        self.o.v("C25 C09", "starved.output", m);
                        return;
                    }
                }
                if let Some(u) = &mut self.unflushed_since {
                    *u += 1;
                    if *u > BURST {
                        let m = format!("{u} frames read in one go while what was written is not flushed");
                        self.o.v("C25 C09", "starved.flush", m);
                        return;
                    }
                }
            }
        }
        if let Some(b) = self.r.outp.bad.clone() {
            self.o.v("C17", "wire.malformed", b);
        }
        if self.r.end.is_some() {
            self.o.v("C21 C22", "end.unexpected", format!("the connection ended: {:?}", self.r.end));
        }
    }
    fn sent(&mut self, f: &Fr, now: u64) {
        match f.ty {
            PING if f.flags == ACK => match self.pings.pop_front() {
                Some((v, _)) if v == f.len => self.o.label("ping-answered"),
                x => self.o.v("C19", "pong.wrong", format!("{} sent, expected answer {x:?}", f.brief())),
            },
            PING => {
                self.probe = Some(f.len);
                self.due_for = 0;
            }
            GOAWAY => self.o.v("C22", "goaway.unexpected", f.brief()),
            _ => {
                self.stream_frames += 1;
                let n = self.s.iter().filter(|s| !s.gone).count() as u64;
                let mut bad = None;
                for s in &mut self.s {
                    if s.id == f.id {
                        s.sent += 1;
                        s.waited = 0;
                        self.read_since = 0;
                    } else if s.acc > s.sent {
                        s.waited += 1;
                        if s.waited > ROUND * n + SLACK {
                            bad = Some((s.id, s.waited));
                        }
                    } else {
                        s.waited = 0;
                    }
                }
                if let Some((id, k)) = bad {
                    self.o.v("C25", "starved.stream", format!("{k} frames of other streams were sent while stream {id} had frames queued ({n} streams)"));
                }
                for p in &mut self.pings {
                    p.1 += 1;
                    if p.1 > AHEAD {
                        self.o.v("C25 C19", "starved.reply", format!("{} frames of streams were sent since the ping {} was read and not answered", p.1, p.0));
                        break;
                    }
                }
                if self.pings.iter().any(|p| p.1 > 0) {
                    self.o.label("ping-behind-data");
                }
                if self.probe.is_none() && now >= self.answered + 10_000_000_000 {
                    self.due_for += 1;
                    if self.due_for > AHEAD {
                        self.o.v("C25 C08", "starved.probe", format!("{} frames of streams were sent while a round-trip probe was due", self.due_for));
                    }
                } else {
                    self.due_for = 0;
                }
            }
        }
    }
    /// Write until the stream has to wait.
    fn top_up(&mut self, i: usize, size: usize, split: usize) {
        let s = &mut self.s[i];
        if s.closed || s.h.is_none() {
            return;
        }
        let mut left = 300;
        loop {
            s.flag.take();
            let b = pat::fill(pat::key(0, s.id), s.bytes, size);
            match write(s.h.as_mut().unwrap(), &s.flag, &b) {
                Poll::Ready(Ok(k)) => {
                    if k == 0 || k > split {
                        let m = format!("write of {size} on {} accepted {k}", s.id);
                        self.o.v("C05 C17", "write.count", m);
                        return;
                    }
                    s.bytes += k as u64;
                    s.acc += 1;
                }
                Poll::Ready(Err(e)) => {
                    let m = format!("write on {} failed: {e}", s.id);
                    self.o.v("C04 C25", "write.err", m);
                    return;
                }
                Poll::Pending => return,
            }
            left -= 1;
            if left == 0 {
                let m = format!("300 frames accepted on stream {} in one go", s.id);
                self.o.v("C11", "frames.unbounded", m);
                return;
            }
        }
    }
    fn open(&mut self) {
        let f = Flag::new(false);
        if let Poll::Ready(Ok(h)) = self.r.open(&f) {
            let id = h.id().val();
            self.s.push(stream(id, Some(h)));
            // plenty of credit
            self.r.feed(&Fr::new(WU, ACK, id, 1 << 27).encode());
        } else {
            self.o.v("C14 C15", "open.refused", "opening a stream within the limits did not succeed".into());
        }
    }
}
fn stream(id: u32, h: Option<Stream>) -> S {
    S { id, h, flag: Flag::new(false), acc: 0, sent: 0, bytes: 0, waited: 0, win: WINDOW, closed: false, gone: false }
}

pub fn run(c: &FairCase, trace: bool) -> Outcome {
    let cfg = Cfg { split: c.split, ..Cfg::default() };
    let r = Rig::new(c.client, cfg.build(), &c.wsched, &c.rsched, usize::MAX);
    {
        let mut k = r.ctl.lock().unwrap();
        k.order = Some(vec![]);
        k.wbuf_cap = c.wbuf as usize;
    }
    let mut w = W {
        o: Outcome::default(),
        r,
        s: vec![],
        pings: Default::default(),
        probe: None,
        pong_fed: false,
        answered: 0,
        due_for: 0,
        read_since: 0,
        unflushed_since: None,
        stream_frames: 0,
    };
    // the first probe is sent at once
    w.settle(true);
    w.answered = web_time::virt::now_nanos();
    for _ in 0..c.outs {
        w.open();
    }
    for k in 0..c.ins as u32 {
        let id = if c.client { 2 } else { 1 } + 2 * k;
        w.s.push(stream(id, None));
        w.r.feed(&Fr::new(WU, SYN, id, 1 << 27).encode());
    }
    w.settle(true);
    w.r.drain();
    if !w.o.viol.is_empty() {
        return w.o;
    }
    let split = cfg.split();
    let mut ctr = 7u32;
    for lap in 0..c.laps.max(1) {
        for (si, st) in c.steps.iter().enumerate() {
            w.r.clock.advance(std::time::Duration::from_micros(st.adv as u64));
            if st.open && w.s.len() < 200 {
                w.open();
            }
            for i in 0..w.s.len() {
                if st.busy & (1 << (i % 16)) != 0 {
                    w.top_up(i, st.size.max(1) as usize, split);
                }
            }
            if let Some((k, close_it)) = st.end {
                let i = k as usize % w.s.len();
                if w.s[i].h.is_some() && w.s.iter().filter(|s| s.h.is_some()).count() > 1 {
                    if close_it {
                        let s = &mut w.s[i];
                        if !s.closed && matches!(close(s.h.as_mut().unwrap(), &s.flag), Poll::Ready(Ok(()))) {
                            s.closed = true;
                            s.acc += 1;
                        }
                    } else {
                        discard(w.s[i].h.take());
                        // its reset or close is one more frame, or none
                        w.s[i].gone = true;
                    }
                }
            }
            let mut b = vec![];
            if st.pong {
                if let (Some(v), false) = (w.probe, w.pong_fed) {
                    w.pong_fed = true;
                    b.extend(Fr::new(PING, ACK, 0, v).encode());
                }
            }
            let mut big = 0;
            for x in &st.inn {
                match x {
                    In::Pings { n } => {
                        for _ in 0..*n {
                            ctr = ctr.wrapping_mul(1664525).wrapping_add(1013904223);
                            b.extend(Fr::new(PING, SYN, 0, ctr).encode());
                        }
                        big = big.max(*n);
                    }
                    In::Data { n, len } => {
                        let k = w.s.len();
                        for q in 0..*n as usize {
                            let s = &mut w.s[q % k];
                            if s.h.is_some() && s.win >= *len as u64 {
                                s.win -= *len as u64;
                                b.extend(Fr::data(0, s.id, vec![1; *len as usize]).encode());
                            }
                        }
                        big = big.max(*n);
                    }
                    In::Credit { n } => {
                        let k = w.s.len();
                        for q in 0..*n as usize {
                            b.extend(Fr::new(WU, 0, w.s[q % k].id, 0).encode());
                        }
                        big = big.max(*n);
                    }
                    In::Noise { n } => {
                        for q in 0..*n as u32 {
                            b.extend(Fr::new((q % 2) as u8, 0, 100_001 + q, 0).encode());
                        }
                        big = big.max(*n);
                    }
                }
            }
            w.r.feed(&b);
            match st.room {
                Some(n) => {
                    let mut t = w.r.tx.lock().unwrap();
                    let held = t.buf.len();
                    t.set_cap(held);
                    drop(t);
                    // a few bytes at a time
                    w.settle(false);
                    let mut t = w.r.tx.lock().unwrap();
                    t.set_cap(held + n as usize);
                    drop(t);
                    w.settle(false);
                    w.r.drain();
                }
                None => {
                    w.r.tx.lock().unwrap().set_cap(usize::MAX);
                    let had = w.backlog();
                    w.settle(true);
                    w.r.drain();
                    if big >= 1000 && had {
                        w.o.label("inbound-burst");
                    }
                }
            }
            if w.s.iter().filter(|s| s.acc > s.sent).count() >= 2 {
                w.o.label("contended");
            }
            if trace {
                let left: Vec<u64> = w.s.iter().map(|s| s.acc.saturating_sub(s.sent)).collect();
                let t = format!("  lap {lap} step {si}: {} stream frames sent, queued {left:?}, unanswered pings {}", w.stream_frames, w.pings.len());
                w.o.trace.push(t);
            }
            if !w.o.viol.is_empty() {
                return w.o;
            }
        }
    }
    if w.stream_frames > 200 {
        w.o.label("many-frames");
    }
    // everything goes out in the end
    w.r.tx.lock().unwrap().set_cap(usize::MAX);
    w.settle(true);
    w.r.drain();
    w.settle(true);
    if !w.o.viol.is_empty() {
        return w.o;
    }
    for s in &w.s {
        if s.sent < s.acc {
            let m = format!("stream {}: {} of {} accepted frames sent", s.id, s.sent, s.acc);
            w.o.v("C09 C01 C25", "data.missing", m);
            break;
        }
    }
    if !w.pings.is_empty() {
        let m = format!("{} pings not answered", w.pings.len());
        w.o.v("C19 C25", "pong.missing", m);
    }
    w.o
}
