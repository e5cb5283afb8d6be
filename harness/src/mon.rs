//! Wire monitor of one endpoint: watches what it sends and what it has received, independent of its internals.
use crate::common::Outcome;
use crate::wire::*;
use std::collections::HashMap;

#[derive(Default, Debug, Clone)]
pub struct MS {
    // sent by the endpoint
    pub sent_any: bool,
    pub sent_syn: bool,
    pub sent_ack: bool,
    pub sent_fin: bool,
    pub sent_rst: bool,
    pub sent_data: u64,
    pub sent_frames: u64,
    pub sent_wu: u64,
    // received by the endpoint (complete frames)
    pub got_syn: bool,
    pub got_ack: bool,
    pub got_fin: bool,
    pub got_rst: bool,
    pub got_data: u64,
    pub got_wu: u64,
}

pub struct Mon {
    pub side: usize,
    pub client: bool,
    pub max_body: usize,
    pub check_payload: bool,
    pub outp: Parser,
    pub inp: Parser,
    pub st: HashMap<u32, MS>,
    /// ids in the order their SYN was received / sent
    pub syn_in: Vec<u32>,
    pub syn_out: Vec<u32>,
    pub pings_in: Vec<u32>,
    pub pongs_out: usize,
    pub pongs_in: u64,
    pub probe: Option<u32>,
    pub last_answer: Option<u64>,
    pub probes: u64,
    pub goaway_out: Option<u32>,
    pub goaway_in: Option<u32>,
    pub in_bytes: u64,
    /// stop interpreting input (connection ended or closing)
    pub in_stopped: bool,
    pub failed: bool,
}

impl Mon {
    pub fn new(side: usize, client: bool, split: usize) -> Mon {
        Mon {
            side,
            client,
            max_body: split.clamp(1, MAX_BODY),
            check_payload: true,
            outp: Parser::default(),
            inp: Parser::default(),
            st: HashMap::new(),
            syn_in: vec![],
            syn_out: vec![],
            pings_in: vec![],
            pongs_out: 0,
            pongs_in: 0,
            probe: None,
            last_answer: None,
            probes: 0,
            goaway_out: None,
            goaway_in: None,
            in_bytes: 0,
            in_stopped: false,
            failed: false,
        }
    }
    pub fn own(&self, id: u32) -> bool {
        id != 0 && (id % 2 == 1) == self.client
    }
    pub fn get(&self, id: u32) -> MS {
        self.st.get(&id).cloned().unwrap_or_default()
    }
    /// Credit the endpoint may still use on `id`, given what it has received.
    pub fn allowance(&self, id: u32) -> u64 {
        WINDOW + self.st.get(&id).map(|s| s.got_wu).unwrap_or(0)
    }

    pub fn on_in(&mut self, b: &[u8], now: u64, frames: &mut Vec<Fr>) {
        if self.in_stopped || b.is_empty() {
            return;
        }
        self.in_bytes += b.len() as u64;
        let mut v = vec![];
        self.inp.feed(b, &mut v);
        for f in v {
            if self.goaway_in.is_some() {
                break;
            }
            match f.ty {
                DATA | WU => {
                    if f.has(SYN) {
                        self.syn_in.push(f.id);
                    }
                    let s = self.st.entry(f.id).or_default();
                    s.got_syn |= f.has(SYN);
                    s.got_ack |= f.has(ACK);
                    s.got_fin |= f.has(FIN);
                    s.got_rst |= f.has(RST);
                    if f.ty == DATA {
                        s.got_data += f.body.len() as u64
                    } else {
                        s.got_wu += f.len as u64
                    }
                }
                PING => {
                    if f.has(ACK) {
                        if self.probe == Some(f.len) {
                            self.probe = None;
                            self.last_answer = Some(now);
                        }
                        self.pongs_in += 1;
                    } else {
                        self.pings_in.push(f.len)
                    }
                }
                _ => self.goaway_in = Some(f.len),
            }
            frames.push(f);
        }
    }

    pub fn on_out(&mut self, b: &[u8], now: u64, o: &mut Outcome, frames: &mut Vec<Fr>) {
        if b.is_empty() || self.failed {
            return;
        }
        let side = self.side;
        let mut v = vec![];
        self.outp.feed(b, &mut v);
        for f in v {
            self.frame_out(&f, now, o);
            frames.push(f);
        }
        if let Some(e) = &self.outp.bad {
            if !self.failed {
                self.failed = true;
                o.v("C17 C01", "wire.malformed", format!("side {side}: {e}"));
            }
        }
    }

    fn frame_out(&mut self, f: &Fr, now: u64, o: &mut Outcome) {
        let side = self.side;
        let d = f.brief();
        if self.goaway_out == Some(0) {
            o.v("C20 C16", "wire.after_goaway", format!("side {side}: {d} sent after the closing GoAway"));
        }
        match f.ty {
            PING => {
                if f.id != 0 || !(f.flags == SYN || f.flags == ACK) {
                    o.v("C17 C19", "wire.ping_form", format!("side {side}: {d}"));
                }
                if f.flags == ACK {
                    match self.pings_in.get(self.pongs_out) {
                        Some(x) if *x == f.len => self.pongs_out += 1,
                        x => o.v("C19", "wire.pong", format!("side {side}: answered {} but the next unanswered ping is {x:?}", f.len)),
                    }
                } else {
                    if let Some(p) = self.probe {
                        o.v("C19", "wire.probe_outstanding", format!("side {side}: probe {} sent while probe {p} is unanswered", f.len));
                    }
                    if let Some(t) = self.last_answer {
                        if now - t < 10_000_000_000 {
                            o.v("C19", "wire.probe_early", format!("side {side}: probe sent {} ns after the last answer", now - t));
                        }
                    }
                    self.probe = Some(f.len);
                    self.probes += 1;
                }
            }
            GOAWAY => {
                if f.id != 0 || f.flags != 0 || f.len > 2 {
                    o.v("C17", "wire.goaway_form", format!("side {side}: {d}"));
                }
                if self.goaway_out.is_none() || f.len == 0 {
                    self.goaway_out = Some(f.len);
                }
            }
            _ => {
                let own = self.own(f.id);
                let s = self.st.entry(f.id).or_default();
                if f.id == 0 {
                    o.v("C17 C16 C12", "wire.stream_zero", format!("side {side}: {d}"));
                    return;
                }
                if f.flags & !0xf != 0 || f.flags & (SYN | ACK) == SYN | ACK || (f.has(RST) && f.flags != RST && f.flags != RST | ACK) {
                    o.v("C17", "wire.flags", format!("side {side}: {d}"));
                }
                if f.ty == DATA && f.body.len() > self.max_body {
                    o.v("C17", "wire.body_too_long", format!("side {side}: {d}, allowed {}", self.max_body));
                }
                let first = !s.sent_any;
                let bare_rst = f.ty == DATA && f.has(RST) && f.body.is_empty();
                let bare_fin = f.ty == DATA && f.has(FIN) && f.body.is_empty();
                if own {
                    if first && !f.has(SYN) && !bare_rst {
                        o.v("C16", "wire.no_syn", format!("side {side}: first frame of an opened stream is {d}"));
                    }
                    if !first && f.has(SYN) {
                        o.v("C16", "wire.second_syn", format!("side {side}: {d}"));
                    }
                    if f.has(ACK) {
                        o.v("C16", "wire.ack_by_opener", format!("side {side}: {d}"));
                    }
                    if f.has(SYN) {
                        self.syn_out.push(f.id);
                    }
                } else {
                    if !s.got_syn {
                        o.v("C16", "wire.unknown_stream", format!("side {side}: {d} for a stream the peer never opened"));
                    }
                    if f.has(SYN) {
                        o.v("C16", "wire.syn_by_acceptor", format!("side {side}: {d}"));
                    }
                    if first && !f.has(ACK) && !bare_rst && !bare_fin {
                        o.v("C16 C15", "wire.no_ack", format!("side {side}: first frame of an accepted stream is {d}"));
                    }
                    if !first && f.has(ACK) {
                        o.v("C16 C15", "wire.second_ack", format!("side {side}: {d}"));
                    }
                }
                let s = self.st.get_mut(&f.id).unwrap();
                if s.sent_rst {
                    o.v("C16", "wire.after_rst", format!("side {side}: {d}"));
                }
                if s.sent_fin && (!f.body.is_empty() || f.has(FIN)) {
                    o.v("C16 C03", "wire.after_fin", format!("side {side}: {d}"));
                }
                if f.ty == DATA && !f.body.is_empty() {
                    if self.check_payload {
                        let k = pat::key(side, f.id);
                        if let Some(p) = pat::check(k, s.sent_data, &f.body) {
                            o.v("C01", "wire.payload", format!("side {side}: {d} differs from the accepted bytes at stream offset {}", s.sent_data + p as u64));
                        }
                    }
                    s.sent_data += f.body.len() as u64;
                    s.sent_frames += 1;
                    if s.sent_data > WINDOW + s.got_wu {
                        o.v("C05", "credit.exceeded_wire", format!("side {side}: stream {} sent {} bytes with credit {}", f.id, s.sent_data, WINDOW + s.got_wu));
                    }
                }
                if f.ty == WU {
                    s.sent_wu += f.len as u64;
                }
                s.sent_any = true;
                s.sent_syn |= f.has(SYN);
                s.sent_ack |= f.has(ACK);
                s.sent_fin |= f.has(FIN);
                s.sent_rst |= f.has(RST);
            }
        }
    }
}
