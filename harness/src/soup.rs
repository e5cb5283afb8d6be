//! W4: arbitrary bytes from the peer, delivered twice with different fragmentation. The endpoint must not panic, spin
//! or allocate without bound, must behave the same both times, and must end exactly as the bytes say.
use crate::alloc;
use crate::common::*;
use crate::raw::EndK;
use crate::rig::*;
use crate::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::task::Poll;
use yamux::Stream;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Piece {
    Bytes(Vec<u8>),
    /// header fields, and the bytes that follow it (None: as many as announced)
    Frame { ver: u8, ty: u8, flags: u16, id: u32, len: u32, body: Option<u16> },
    /// a well-formed frame with one header byte changed
    Flip { ty: u8, flags: u16, id: u32, len: u16, at: u8, to: u8 },
    /// the application reads, writes and closes
    App { close: u8, drop: u8, write: u16 },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SoupCase {
    pub client: bool,
    pub rac: bool,
    pub max_streams: u32,
    pub opens: u8,
    pub pieces: Vec<Piece>,
    pub eof: bool,
    pub frag_a: Vec<u16>,
    pub frag_b: Vec<u16>,
}

pub fn soup() -> BoxedStrategy<SoupCase> {
    prop_oneof![3 => soup_with(true), 2 => soup_with(false)].boxed()
}

/// `calm`: headers are valid, only their combination is arbitrary.
fn soup_with(calm: bool) -> BoxedStrategy<SoupCase> {
    let w = |x: u32| if calm { 0 } else { x };
    fn union<T: std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
        proptest::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
    }
    let id = || prop_oneof![14 => 1u32..7, 1 => Just(0u32), 1 => 0u32..100, 1 => any::<u32>(), 1 => (u32::MAX - 4)..=u32::MAX];
    let flags = || {
        prop_oneof![
            5 => Just(0u16),
            5 => Just(SYN),
            2 => Just(ACK),
            2 => Just(FIN),
            1 => Just(RST),
            1 => 0u16..16,
            1 => any::<u16>(),
        ]
    };
    let ver = move || union(vec![(60, Just(0u8).boxed()), (w(1), any::<u8>().boxed())]);
    let ty = move || union(vec![(20, Just(0u8).boxed()), (12, Just(1u8).boxed()), (8, Just(2u8).boxed()), (w(1), Just(3u8).boxed()), (w(1), any::<u8>().boxed())]);
    let dlen = move || {
        union(vec![
            (30, (0u32..40).boxed()),
            (8, (0u32..5000).boxed()),
            (1, prop_oneof![Just(262_144u32), Just(262_145), Just(1_048_576)].boxed()),
            (w(2), prop_oneof![any::<u32>(), Just(1_048_577), Just(u32::MAX), Just(1u32 << 31)].boxed()),
        ])
    };
    let olen = || prop_oneof![10 => 0u32..5000, 2 => any::<u32>(), 1 => (u32::MAX - 300_000)..=u32::MAX];
    let body = move || union(vec![(20, Just(None).boxed()), (w(1), (0u16..60).prop_map(Some).boxed())]);
    let frame = (ver(), ty(), flags(), id(), dlen(), olen(), body())
        .prop_map(|(ver, ty, flags, id, dl, ol, body)| Piece::Frame { ver, ty, flags, id, len: if ty == DATA { dl } else { ol }, body });
    let piece = union(vec![
        (24, frame.boxed()),
        (w(2), (0u8..4, flags(), id(), 0u16..300, 0u8..12, any::<u8>()).prop_map(|(ty, flags, id, len, at, to)| Piece::Flip { ty, flags, id, len, at, to }).boxed()),
        (w(1), vec(any::<u8>(), 0..40).prop_map(Piece::Bytes).boxed()),
        (4, (any::<u8>(), any::<u8>(), 0u16..300).prop_map(|(close, drop, write)| Piece::App { close, drop, write }).boxed()),
    ]);
    let frag = || {
        prop_oneof![
            2 => Just(vec![]),
            3 => vec(prop_oneof![3 => 1u16..5, 2 => 5u16..30, 1 => 100u16..2000], 1..6),
            1 => Just(vec![1u16]),
        ]
    };
    (any::<bool>(), any::<bool>(), prop_oneof![1 => Just(0u32), 3 => 1u32..6, 3 => Just(512u32)], 0u8..4, vec(piece, 1..40), any::<bool>(), frag(), frag())
        .prop_map(|(client, rac, max_streams, opens, pieces, eof, frag_a, frag_b)| SoupCase {
            client,
            rac,
            max_streams,
            opens,
            pieces,
            eof,
            frag_a,
            frag_b,
        })
        .boxed()
}

impl Piece {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Piece::Bytes(b) => b.clone(),
            Piece::Frame { ver, ty, flags, id, len, body } => {
                let mut f = Fr::new(*ty, *flags, *id, *len);
                f.ver = *ver;
                let mut v = f.encode();
                v.truncate(12);
                let n = match body {
                    Some(n) => *n as usize,
                    None if *ty == DATA && *ver == 0 && *len as usize <= MAX_BODY => *len as usize,
                    None => 0,
                };
                v.extend((0..n).map(|i| i as u8));
                v
            }
            Piece::Flip { ty, flags, id, len, at, to } => {
                let n = if *ty == DATA { *len as usize } else { 0 };
                let mut v = Fr::new(*ty, *flags, *id, *len as u32).encode();
                v.truncate(12);
                v.extend((0..n).map(|i| i as u8));
                v[*at as usize % 12] = *to;
                v
            }
            Piece::App { .. } => vec![],
        }
    }
}

/// What the bytes mean for the life of the connection.
fn verdict(b: &[u8], eof: bool) -> Option<EndK> {
    let mut i = 0;
    loop {
        let left = &b[i..];
        if left.len() < 12 {
            return match (eof, left.is_empty()) {
                (true, true) => Some(EndK::Clean),
                (true, false) => Some(EndK::Truncated),
                _ => None,
            };
        }
        let len = u32::from_be_bytes([left[8], left[9], left[10], left[11]]);
        match (left[0], left[1]) {
            (0, 0) => {
                if len as usize > MAX_BODY {
                    return Some(EndK::TooLarge(len as usize));
                }
                if left.len() < 12 + len as usize {
                    return if eof { Some(EndK::Truncated) } else { None };
                }
                i += 12 + len as usize;
            }
            (0, 3) => return Some(EndK::Clean),
            (0, t) if t > 3 => return Some(EndK::Type(t)),
            (v, t) if v > 0 && t > 3 => return Some(EndK::Either(v, t)),
            (v, _) if v > 0 => return Some(EndK::Version(v)),
            _ => i += 12,
        }
    }
}

#[derive(Default, PartialEq, Debug, Clone)]
struct Seen {
    accepted: Vec<u32>,
    app: Vec<String>,
    /// frames sent per phase
    out: Vec<Vec<String>>,
    end: Option<String>,
}

struct St {
    id: u32,
    h: Option<Stream>,
    flag: Arc<Flag>,
}

fn one(c: &SoupCase, frag: &[u16], o: &mut Outcome, trace: bool) -> (Seen, Option<EndK>) {
    let cfg = Cfg { max_streams: c.max_streams, rac: c.rac, extra_window: Some(1 << 20), split: 1000 };
    let base = alloc::lib();
    let mut r = Rig::new(c.client, cfg.build(), &[], &[], usize::MAX);
    let mut seen = Seen::default();
    let mut sts: Vec<St> = vec![];
    let mut fed = 0i64;
    r.drive();
    r.out();
    r.drain();
    for _ in 0..c.opens {
        let flag = Flag::new(false);
        if let Poll::Ready(Ok(h)) = r.open(&flag) {
            sts.push(St { id: h.id().val(), h: Some(h), flag });
        }
    }
    alloc::reset_max();
    let mut fi = 0;
    let mut phase: Vec<u8> = vec![];
    let n = c.pieces.len();
    for k in 0..=n {
        let app = match c.pieces.get(k) {
            Some(p @ Piece::App { .. }) => Some(p.clone()),
            None => None,
            Some(p) => {
                phase.extend(p.bytes());
                continue;
            }
        };
        // deliver this phase
        let b = std::mem::take(&mut phase);
        fed += b.len() as i64;
        let mut i = 0;
        let last = app.is_none();
        while i < b.len() {
            let m = if frag.is_empty() { b.len() } else { (frag[fi % frag.len()].max(1) as usize).max(b.len() / 2500) };
            fi += 1;
            let e = (i + m).min(b.len());
            r.feed(&b[i..e]);
            i = e;
            if i == b.len() && last && c.eof && fi % 2 == 0 {
                // the end of input arrives together with the last bytes
                break;
            }
            r.drive();
        }
        if last && c.eof {
            r.rx.lock().unwrap().set_eof();
        }
        r.drive();
        while let Some(h) = r.fresh.pop_front() {
            seen.accepted.push(h.id().val());
            sts.push(St { id: h.id().val(), h: Some(h), flag: Flag::new(false) });
        }
        let show = |f: &Fr| if f.ty == PING && f.flags == SYN { "probe".to_string() } else { format!("{} {:x}", f.brief(), hash64(&f.body)) };
        let fr = r.out();
        r.inn();
        r.drain();
        seen.out.push(fr.iter().map(show).collect());
        if r.outp.bad.is_some() {
            o.v("C17", "wire.malformed", format!("{:?}", r.outp.bad));
        }
        let max = alloc::max_single();
        if max > MAX_BODY + (64 << 10) {
            o.v("C18", "alloc.single", format!("a single allocation of {max} bytes"));
        }
        let held = alloc::lib() - base;
        let allow = (MAX_BODY as i64) + fed * 24 + (64 << 10) + 8192 * (sts.len() as i64 + 2);
        if held > allow {
            o.v("C18 C11 C24", "alloc.total", format!("{held} bytes held after {fed} bytes of input"));
        }
        if trace {
            let m = format!("  phase {k}: out {:?}, end {:?}, held {held}", seen.out.last().unwrap(), r.end);
            o.trace.push(m);
        }
        if let Some(Piece::App { close: cl, drop: dr, write: wr }) = app {
            for (i, s) in sts.iter_mut().enumerate() {
                let Some(h) = &mut s.h else { continue };
                let mut got = vec![];
                let e = loop {
                    let mut buf = [0u8; 777];
                    match read(h, &s.flag, &mut buf) {
                        Poll::Ready(Ok(0)) => break "eof",
                        Poll::Ready(Ok(k)) => got.extend_from_slice(&buf[..k]),
                        Poll::Ready(Err(_)) => break "err",
                        Poll::Pending => break "wait",
                    }
                };
                seen.app.push(format!("read {} {} {:x} {e}", s.id, got.len(), hash64(&got)));
                if wr > 0 {
                    let r = match write(h, &s.flag, &vec![3; wr as usize]) {
                        Poll::Ready(Ok(k)) => k as i64,
                        Poll::Ready(Err(_)) => -1,
                        Poll::Pending => -2,
                    };
                    seen.app.push(format!("write {} {r}", s.id));
                }
                if cl as usize % 6 == i {
                    let r = close(h, &s.flag);
                    seen.app.push(format!("close {} {}", s.id, matches!(r, Poll::Ready(Ok(())))));
                }
                if dr as usize % 8 == i {
                    let h = s.h.take();
                    discard(h);
                }
            }
            r.flag.set();
            r.drive();
        }
        seen.app.push(sts.iter().map(|s| s.h.as_ref().map_or("-".to_string(), |h| format!("{}{}{}", h.is_closed() as u8, h.is_write_closed() as u8, h.is_pending_ack() as u8))).collect::<Vec<_>>().join(","));
        if r.end.is_some() {
            break;
        }
    }
    if r.end.is_some() {
        for s in sts.iter_mut() {
            let Some(h) = &mut s.h else { continue };
            let mut n = 0;
            let e = loop {
                let mut buf = [0u8; 3000];
                match read(h, &s.flag, &mut buf) {
                    Poll::Ready(Ok(0)) => break "eof",
                    Poll::Ready(Ok(k)) => n += k,
                    Poll::Ready(Err(_)) => break "err",
                    Poll::Pending => break "wait",
                }
            };
            if e == "wait" {
                o.v("C21", "read.hangs", format!("reading stream {} waits after the connection has ended", s.id));
            }
            seen.app.push(format!("finally {} {n} {e}", s.id));
        }
    }
    seen.end = r.end.as_ref().map(|e| format!("{e:?}"));
    (seen, r.end.clone())
}

pub fn run(c: &SoupCase, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    let (a, ea) = one(c, &c.frag_a, &mut o, trace);
    let (b, eb) = one(c, &c.frag_b, &mut o, trace);
    // the verdict counts bytes up to the piece at which the connection ended only
    let all: Vec<u8> = c.pieces.iter().flat_map(|p| p.bytes()).collect();
    let want = verdict(&all, c.eof);
    for e in [&ea, &eb] {
        match (&want, e) {
            (None, None) => {}
            (Some(w), Some(g)) if w.fits(g) => {}
            _ => o.v("C18 C21", "end.wrong", format!("the connection ended with {e:?}, the input calls for {want:?}")),
        }
    }
    match &want {
        None => o.label("goes-on"),
        Some(EndK::Clean) => o.label("ends-clean"),
        Some(EndK::Truncated) => o.label("truncated"),
        Some(EndK::TooLarge(_)) => o.label("too-large"),
        Some(_) => o.label("bad-header"),
    }
    if !a.accepted.is_empty() {
        o.label("streams-accepted");
    }
    if c.frag_a != c.frag_b {
        o.label("two-fragmentations");
    }
    if a.accepted != b.accepted {
        o.v("C18 C13", "frag.accepted", format!("streams accepted {:?} or {:?}, depending on fragmentation", a.accepted, b.accepted));
    } else if a.app != b.app {
        let i = a.app.iter().zip(&b.app).position(|(x, y)| x != y).unwrap_or(0);
        o.v("C18", "frag.app", format!("the application sees {:?} or {:?}, depending on fragmentation", a.app.get(i), b.app.get(i)));
    } else {
        for (i, (x, y)) in a.out.iter().zip(&b.out).enumerate() {
            // replies still queued when the connection ends may be lost
            let ended = want.is_some() && i + 1 == a.out.len().min(b.out.len());
            let same = if ended { x.iter().zip(y).all(|(p, q)| p == q) } else { x == y };
            if !same {
                o.v("C18", "frag.output", format!("phase {i}: sends {x:?} or {y:?}, depending on fragmentation"));
                break;
            }
        }
    }
    o
}
