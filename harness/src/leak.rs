//! W6: streams opened, used and dropped over and over on one connection. What the endpoint holds must not grow, and
//! the slots of finished streams must be free again.
use crate::alloc;
use crate::common::*;
use crate::rig::*;
use crate::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use yamux::Stream;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum LStep {
    Write(u32),
    Data(u32),
    Fin,
    Rst,
    Wu(u32),
    Ack,
    Read,
    Close,
    Drop,
    Adv(u32),
    /// let the endpoint run (otherwise it does so at the end of the cycle only)
    Settle,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct LeakCase {
    pub client: bool,
    pub split: u32,
    pub rac: bool,
    /// 0: none, 1: an outbound, 2: an inbound stream stays open throughout
    pub keeper: u8,
    /// per stream of a cycle: inbound?, and how the peer ends it after all (0 nothing, 1 FIN, 2 RST)
    pub kinds: Vec<(bool, u8)>,
    pub steps: Vec<(u8, LStep)>,
}

pub fn leak() -> BoxedStrategy<LeakCase> {
    let step = prop_oneof![
        4 => prop_oneof![1u32..100, 100u32..40_000].prop_map(LStep::Write),
        4 => prop_oneof![1u32..100, 100u32..40_000, Just(140_000u32)].prop_map(LStep::Data),
        2 => Just(LStep::Fin),
        1 => Just(LStep::Rst),
        1 => (0u32..100_000).prop_map(LStep::Wu),
        2 => Just(LStep::Ack),
        3 => Just(LStep::Read),
        2 => Just(LStep::Close),
        1 => Just(LStep::Drop),
        1 => (0u32..1_000_000).prop_map(LStep::Adv),
        6 => Just(LStep::Settle),
    ];
    (any::<bool>(), prop_oneof![Just(16_384u32), 1000u32..5000], any::<bool>(), 0u8..3, vec((any::<bool>(), 0u8..3), 1..4), vec((any::<u8>(), step), 0..16))
        .prop_map(|(client, split, rac, keeper, kinds, steps)| LeakCase { client, split, rac, keeper, kinds, steps })
        .boxed()
}

struct L {
    id: u32,
    h: Option<Stream>,
    flag: Arc<Flag>,
    sent: u64,
    fin: bool,
}

struct W {
    r: Rig,
    o: Outcome,
    next_peer: u32,
}

impl W {
    fn settle(&mut self) {
        self.r.drive();
        for f in self.r.out() {
            if f.ty == GOAWAY {
                self.o.v("C14 C24 C13", "slot.refused", "an inbound stream was refused although streams below the limit are live".to_string());
            }
            if f.ty == PING && f.flags == SYN {
                // measured round trips let windows grow
                self.r.feed(&Fr::new(PING, ACK, 0, f.len).encode());
                self.r.drive();
            }
        }
        self.r.inn();
        self.r.drain();
    }
    fn open(&mut self, inbound: bool) -> Option<L> {
        let flag = Flag::new(false);
        if inbound {
            let id = self.next_peer;
            self.next_peer += 2;
            self.r.feed(&Fr::new(WU, SYN, id, 0).encode());
            self.settle();
            match self.r.fresh.pop_front() {
                Some(h) => Some(L { id, h: Some(h), flag, sent: 0, fin: false }),
                None => {
                    self.o.v("C13 C14 C24", "slot.inbound", "a valid inbound stream below the limit was not handed out".into());
                    None
                }
            }
        } else {
            match self.r.open(&flag) {
                Poll::Ready(Ok(h)) => Some(L { id: h.id().val(), h: Some(h), flag, sent: 0, fin: false }),
                r => {
                    let m = match r {
                        Poll::Pending => "waits".to_string(),
                        Poll::Ready(Err(e)) => e.to_string(),
                        _ => unreachable!(),
                    };
                    self.o.v("C14 C24 C15", "slot.outbound", format!("opening a stream below the limit: {m}"));
                    None
                }
            }
        }
    }
    fn cycle(&mut self, c: &LeakCase) -> bool {
        let mut v: Vec<L> = vec![];
        for (inb, _) in &c.kinds {
            match self.open(*inb) {
                Some(l) => v.push(l),
                None => return false,
            }
        }
        for (st, s) in &c.steps {
            let i = *st as usize % v.len();
            let l = &mut v[i];
            match s {
                LStep::Write(n) => {
                    if let Some(h) = &mut l.h {
                        let _ = write(h, &l.flag, &vec![7; *n as usize]);
                    }
                }
                LStep::Data(n) => {
                    let k = (*n as u64).min(WINDOW - l.sent.min(WINDOW));
                    if !l.fin && k > 0 {
                        l.sent += k;
                        let f = Fr::data(0, l.id, vec![1; k as usize]).encode();
                        self.r.feed(&f);
                    }
                }
                LStep::Fin => {
                    if !l.fin {
                        l.fin = true;
                        let f = Fr::new(DATA, FIN, l.id, 0).encode();
                        self.r.feed(&f);
                    }
                }
                LStep::Rst => {
                    l.fin = true;
                    let f = Fr::new(DATA, RST, l.id, 0).encode();
                    self.r.feed(&f);
                }
                LStep::Wu(n) => {
                    if !l.fin {
                        let f = Fr::new(WU, 0, l.id, *n).encode();
                        self.r.feed(&f);
                    }
                }
                LStep::Ack => {
                    if !l.fin {
                        let f = Fr::new(WU, ACK, l.id, 0).encode();
                        self.r.feed(&f);
                    }
                }
                LStep::Read => {
                    if let Some(h) = &mut l.h {
                        let mut b = vec![0u8; 200_000];
                        let _ = read(h, &l.flag, &mut b);
                    }
                }
                LStep::Close => {
                    if let Some(h) = &mut l.h {
                        let _ = close(h, &l.flag);
                    }
                }
                LStep::Drop => {
                    let h = l.h.take();
                    discard(h);
                }
                LStep::Adv(us) => {
                    self.r.clock.advance(Duration::from_micros(*us as u64));
                    self.r.flag.set();
                }
                LStep::Settle => self.settle(),
            }
        }
        for l in v.iter_mut() {
            let h = l.h.take();
            discard(h);
        }
        self.settle();
        for (l, (_, end)) in v.iter().zip(&c.kinds) {
            if *end > 0 && !l.fin {
                let f = Fr::new(DATA, if *end == 1 { FIN } else { RST }, l.id, 0).encode();
                self.r.feed(&f);
            }
        }
        self.settle();
        if self.r.end.is_some() {
            self.o.v("C24 C22", "end.unexpected", format!("the connection ended: {:?}", self.r.end));
        }
        self.o.viol.is_empty()
    }
}

pub fn run(c: &LeakCase, trace: bool) -> Outcome {
    let max = c.kinds.len() as u32 + (c.keeper > 0) as u32;
    let cfg = Cfg { max_streams: max, extra_window: Some(4 << 20), rac: c.rac, split: c.split };
    let base = alloc::lib();
    let r = Rig::new(c.client, cfg.build(), &[], &[], usize::MAX);
    let mut w = W { r, o: Outcome::default(), next_peer: if c.client { 2 } else { 1 } };
    w.settle();
    let keeper = match c.keeper {
        0 => None,
        k => match w.open(k == 2) {
            Some(l) => Some(l),
            None => return w.o,
        },
    };
    w.settle();
    let mut marks = vec![];
    for k in 0..72 {
        if !w.cycle(c) {
            return w.o;
        }
        if k % 24 == 23 {
            marks.push(alloc::lib() - base);
        }
    }
    if marks[1] > marks[0] && marks[2] > marks[1] {
        for _ in 0..200 {
            if !w.cycle(c) {
                return w.o;
            }
        }
        let last = alloc::lib() - base;
        if last > marks[2] {
            w.o.v("C24", "leak", format!("memory held after 24, 48, 72, 272 cycles: {}, {}, {}, {last} bytes", marks[0], marks[1], marks[2]));
        }
    }
    if trace {
        w.o.trace.push(format!("memory {marks:?}"));
    }
    w.o.label("cycles");
    if c.steps.len() > 2 {
        w.o.label("used-streams");
    }
    if let Some(k) = keeper {
        discard(k.h);
    }
    let conn = w.r.conn.take();
    discard(conn);
    w.r.fresh.clear();
    let rest = alloc::lib() - base;
    if rest > 2048 {
        w.o.v("C24", "leak.end", format!("{rest} bytes still held after the connection and all streams were dropped"));
    }
    w.o
}
