//! W3: two real endpoints, each driven by its own OS thread, and streams used on further OS threads. One thread runs
//! at a time; it can be preempted at every lock operation of the code under test, at every transport call and
//! between operations, where the case says so.
use crate::common::*;
use crate::mon::Mon;
use crate::net::*;
use crate::wire::*;
use futures::io::{AsyncRead, AsyncWrite};
use futures::stream::Stream as _;
use parking_lot::verif;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use yamux::{Connection, ConnectionError, Mode, Stream};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TOp {
    Write(u32),
    TryRead(u32),
    Packet,
    Flush,
    Query,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TEnd {
    pub ops: Vec<TOp>,
    /// close and read to the end before dropping
    pub close: bool,
    /// write and read on two threads
    pub split: bool,
    pub buf: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TStream {
    pub opener: u8,
    pub first: u32,
    pub ends: [TEnd; 2],
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ThreadCase {
    pub cfg: [Cfg; 2],
    pub cap: [u32; 2],
    pub wsched: Vec<u16>,
    pub rsched: Vec<u16>,
    pub streams: Vec<TStream>,
    /// close the connection from this side once so many operations were done
    pub early: Option<(u8, u16)>,
    /// drop the connection instead, that many polls into the close
    #[serde(default)]
    pub drop_at: Option<u8>,
    /// preempt at this decision in favour of this thread
    pub pre: Vec<(u16, u8)>,
    /// preempt with probability rate/256 at every decision
    pub rate: u8,
    pub seed: u32,
    /// (thread, n): whenever this thread is at its n-th decision inside an operation, everybody else goes first for as
    /// long as they can
    #[serde(default)]
    pub lag: Vec<(u8, u8)>,
    /// a slow first round trip (us), and no more streams allowed than there are
    #[serde(default)]
    pub rtt: Option<u32>,
}

pub fn threads() -> BoxedStrategy<ThreadCase> {
    cases(false)
}
/// Several streams whose windows want to grow at the same time.
pub fn growing() -> BoxedStrategy<ThreadCase> {
    cases(true)
}

fn cases(grow: bool) -> BoxedStrategy<ThreadCase> {
    let n = || prop_oneof![5 => 1u32..200, 2 => 200u32..6000, 1 => 10_000u32..60_000];
    let op = move || {
        prop_oneof![
            5 => n().prop_map(TOp::Write),
            4 => (1u32..5000).prop_map(TOp::TryRead),
            1 => Just(TOp::Packet),
            1 => Just(TOp::Flush),
            1 => Just(TOp::Query),
        ]
    };
    let end = move || (vec(op(), 0..6), any::<bool>(), prop::bool::weighted(0.35), prop_oneof![1u32..300, 1000u32..70_000]).prop_map(|(ops, close, split, buf)| TEnd { ops, close, split, buf });
    let plain = (0u8..2, n(), end(), end()).prop_map(|(opener, first, a, b)| TStream { opener, first, ends: [a, b] });
    // more than a window in one or both directions, read to the end by a thread of its own
    let much = move || {
        (vec(prop_oneof![4 => (40_000u32..120_000).prop_map(TOp::Write), 1 => Just(TOp::Flush), 1 => (1000u32..50_000).prop_map(TOp::TryRead)], 1..4), any::<bool>(), 10_000u32..200_000)
            .prop_map(|(ops, close, buf)| TEnd { ops, close, split: true, buf })
    };
    let little = move || (vec(op(), 0..3), 10_000u32..200_000).prop_map(|(ops, buf)| TEnd { ops, close: true, split: true, buf });
    let bulk = (0u8..2, n(), much(), prop_oneof![much(), little()], any::<bool>()).prop_map(|(opener, first, mut a, mut b, swap)| {
        a.close = true;
        if swap {
            std::mem::swap(&mut a, &mut b);
        }
        TStream { opener, first, ends: [a, b] }
    });
    let st = if grow { bulk.boxed() } else { prop_oneof![4 => plain, 1 => bulk].boxed() };
    let rtt = if grow { (1000u32..2_000_000).prop_map(Some).boxed() } else { Just(None).boxed() };
    let cfg = move || {
        let split = if grow { prop_oneof![Just(16_384u32), 16_384u32..200_000].boxed() } else { prop_oneof![2 => 20u32..200, 2 => 200u32..3000, 2 => Just(16_384u32)].boxed() };
        if grow {
            return (split, 0u64..800_000).prop_map(|(split, x)| Cfg { split, extra_window: Some(x), ..Cfg::default() }).boxed();
        }
        (split, prop_oneof![1 => Just(Some(0u64)), 1 => Just(Some(1u64 << 20)), 2 => Just(Some(1u64 << 29))])
            .prop_map(|(split, extra_window)| Cfg { split, extra_window, ..Cfg::default() })
            .boxed()
    };
    let cap = move || prop_oneof![if grow { 0 } else { 2 } => 1u32..60, 3 => 60u32..5000, 2 => Just(1u32 << 20)];
    let sched = || prop_oneof![3 => Just(vec![]), 1 => vec(prop_oneof![1 => Just(0u16), 3 => 1u16..100, 2 => Just(u16::MAX)], 1..5)];
    let pre = vec((prop_oneof![3 => 0u16..400, 2 => 0u16..4000], any::<u8>()), 0..12);
    let rate = prop_oneof![3 => Just(0u8), 2 => 1u8..20, 2 => 20u8..128];
    let lag = prop_oneof![2 => Just(vec![]), 3 => vec((any::<u8>(), 0u8..14), 1..3)];
    (
        [cfg(), cfg()],
        [cap(), cap()],
        sched(),
        sched(),
        vec(st, if grow { 2..4 } else { 1..4 }),
        prop_oneof![3 => Just(None), 1 => (0u8..2, 0u16..30).prop_map(Some)],
        pre,
        rate,
        (any::<u32>(), lag, rtt, prop_oneof![2 => Just(None), 1 => (0u8..5).prop_map(Some)]),
    )
        .prop_map(|(mut cfg, cap, wsched, rsched, streams, early, pre, rate, (seed, lag, rtt, drop_at))| {
            if rtt.is_some() {
                for c in cfg.iter_mut() {
                    c.max_streams = streams.len() as u32;
                }
            }
            ThreadCase { cfg, cap, wsched, rsched, streams, early, pre, rate, seed, lag, rtt, drop_at }
        })
        .boxed()
}

// ---- scheduler ----

#[derive(Clone)]
enum TState {
    Ready,
    Blocked(usize),
    Parked(Arc<Flag>),
    Done,
}
struct Inner {
    cur: usize,
    st: Vec<TState>,
    dead: Option<String>,
    k: u64,
    rng: u64,
    switches: u64,
    inside: u64,
    held: u64,
    lagged: u64,
    /// goes on only once nobody else can
    low: Vec<bool>,
    /// decisions since the thread's operation began
    within: Vec<u32>,
}
struct Sched {
    lag: Vec<(u8, u8)>,
    m: Mutex<Inner>,
    cv: Vec<Condvar>,
    done: Condvar,
    pre: Vec<(u16, u8)>,
    rate: u8,
    dead: AtomicBool,
}
const POINTS: u64 = 3_000_000;

impl Sched {
    fn runnable(g: &Inner) -> Vec<usize> {
        (0..g.st.len())
            .filter(|i| match &g.st[*i] {
                TState::Ready => true,
                TState::Parked(f) => f.get(),
                _ => false,
            })
            .collect()
    }
    /// Those to choose from: the ones held back only when there is nobody else.
    fn eligible(g: &Inner) -> Vec<usize> {
        let r = Self::runnable(g);
        let v: Vec<usize> = r.iter().copied().filter(|i| !g.low[*i]).collect();
        if v.is_empty() {
            r
        } else {
            v
        }
    }
    fn rnd(g: &mut Inner, n: usize) -> usize {
        g.rng ^= g.rng << 13;
        g.rng ^= g.rng >> 7;
        g.rng ^= g.rng << 17;
        ((g.rng >> 20) % n as u64) as usize
    }
    fn kill(&self, g: &mut Inner, why: String) {
        if g.dead.is_none() {
            g.dead = Some(why);
        }
        self.dead.store(true, SeqCst);
        for c in &self.cv {
            c.notify_all();
        }
        self.done.notify_all();
    }
    /// Give the baton on; `me` cannot go on.
    fn hand_over(&self, g: &mut Inner) {
        let r = Self::eligible(g);
        if r.is_empty() {
            if g.st.iter().all(|s| matches!(s, TState::Done)) {
                self.done.notify_all();
                return;
            }
            let d: Vec<String> = g
                .st
                .iter()
                .enumerate()
                .filter_map(|(i, s)| match s {
                    TState::Blocked(_) => Some(format!("thread {i} waits for a lock")),
                    TState::Parked(_) => Some(format!("thread {i} waits to be woken")),
                    _ => None,
                })
                .collect();
            self.kill(g, d.join(", "));
            return;
        }
        let k = if self.rate > 0 { Self::rnd(g, r.len()) } else { r.iter().position(|i| *i > g.cur).unwrap_or(0) };
        g.cur = r[k];
        g.switches += 1;
        self.cv[g.cur].notify_one();
    }
    fn wait(&self, mut g: std::sync::MutexGuard<'_, Inner>, me: usize) {
        while g.cur != me && g.dead.is_none() {
            g = self.cv[me].wait(g).unwrap();
        }
        if g.dead.is_some() {
            drop(g);
            verif::install(None);
            return;
        }
        g.st[me] = TState::Ready;
        g.low[me] = false;
    }
    /// An operation of `me` begins.
    fn begin(&self, me: usize) {
        self.m.lock().unwrap().within[me] = 0;
    }
    fn point(&self, me: usize, inside: bool) {
        if std::thread::panicking() || self.dead.load(SeqCst) {
            return;
        }
        let mut g = self.m.lock().unwrap();
        if g.dead.is_some() {
            return;
        }
        let k = g.k;
        g.k += 1;
        if k > POINTS {
            self.kill(&mut g, "LIVELOCK: no end of scheduling decisions".into());
            drop(g);
            verif::install(None);
            return;
        }
        let n = g.st.len();
        let within = g.within[me];
        g.within[me] += 1;
        if self.lag.iter().any(|(t, p)| *t as usize % n == me && *p as u32 == if me < 2 { within % 14 } else { within }) {
            g.low[me] = true;
            let r = Self::eligible(&g);
            if !r.contains(&me) {
                g.lagged += 1;
                g.inside += inside as u64;
                self.hand_over(&mut g);
                self.wait(g, me);
                return;
            }
            g.low[me] = false;
        }
        let mut to = None;
        for (at, t) in &self.pre {
            if *at as u64 == k {
                to = Some(*t as usize % n);
            }
        }
        if to.is_none() && self.rate > 0 && Self::rnd(&mut g, 256) < self.rate as usize {
            let r = Self::eligible(&g);
            let x = Self::rnd(&mut g, r.len());
            to = Some(r[x]);
        }
        let Some(t) = to else { return };
        if t == me || !Self::runnable(&g).contains(&t) {
            return;
        }
        g.cur = t;
        g.switches += 1;
        g.inside += inside as u64;
        self.cv[t].notify_one();
        self.wait(g, me);
    }
    /// `me` holds a lock. Not one of the counted decisions.
    fn held(&self, me: usize) {
        if self.rate == 0 || std::thread::panicking() || self.dead.load(SeqCst) {
            return;
        }
        let mut g = self.m.lock().unwrap();
        if g.dead.is_some() || Self::rnd(&mut g, 1024) >= self.rate as usize {
            return;
        }
        let r = Self::eligible(&g);
        let t = r[Self::rnd(&mut g, r.len())];
        if t == me {
            return;
        }
        g.cur = t;
        g.switches += 1;
        g.held += 1;
        self.cv[t].notify_one();
        self.wait(g, me);
    }
    fn start(&self, me: usize) {
        let g = self.m.lock().unwrap();
        self.wait(g, me)
    }
    /// Wait until the flag is raised. False: give up.
    fn park(&self, me: usize, f: &Arc<Flag>) -> bool {
        if self.dead.load(SeqCst) {
            return false;
        }
        if !f.get() {
            let mut g = self.m.lock().unwrap();
            g.st[me] = TState::Parked(f.clone());
            self.hand_over(&mut g);
            self.wait(g, me);
        } else {
            self.point(me, false);
        }
        f.take();
        !self.dead.load(SeqCst)
    }
    fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.st[me] = TState::Done;
        if g.dead.is_none() {
            self.hand_over(&mut g);
        }
        self.done.notify_all();
    }
}

struct Ctlr {
    s: Arc<Sched>,
    me: usize,
}
impl verif::Controller for Ctlr {
    fn before_lock(&self, _: usize) {
        self.s.point(self.me, true)
    }
    fn held(&self, _: usize) {
        self.s.held(self.me)
    }
    fn blocked(&self, addr: usize) {
        if std::thread::panicking() || self.s.dead.load(SeqCst) {
            // no longer scheduled: the holder is on its way out, unless it is this thread itself
            std::thread::sleep(Duration::from_millis(1));
            return;
        }
        let mut g = self.s.m.lock().unwrap();
        g.st[self.me] = TState::Blocked(addr);
        self.s.hand_over(&mut g);
        let dead = g.dead.is_some();
        self.s.wait(g, self.me);
        if dead {
            panic!("deadlock: mutex");
        }
    }
    fn after_unlock(&self, addr: usize) {
        if std::thread::panicking() || self.s.dead.load(SeqCst) {
            return;
        }
        let mut g = self.s.m.lock().unwrap();
        for s in g.st.iter_mut() {
            if matches!(s, TState::Blocked(a) if *a == addr) {
                *s = TState::Ready;
            }
        }
        drop(g);
        self.s.point(self.me, true)
    }
}

// ---- the world ----

type Slot = Arc<parking_lot::Mutex<Option<Stream>>>;

struct EndSt {
    slot: Slot,
    /// raised when the stream is there, or never will be
    ready: Vec<Arc<Flag>>,
    gone: AtomicBool,
    acc: AtomicU64,
    rd: AtomicU64,
    eof: AtomicBool,
    werr: AtomicBool,
    dropping: AtomicBool,
    left: AtomicUsize,
}
struct Shared {
    s: Arc<Sched>,
    c: ThreadCase,
    clock: web_time::virt::Clock,
    /// [stream][side]
    ends: Vec<[EndSt; 2]>,
    ids: Mutex<Vec<u32>>,
    viol: Mutex<Vec<(String, &'static str, String)>>,
    wants: [Mutex<Vec<usize>>; 2],
    dflag: [Arc<Flag>; 2],
    closing: [AtomicBool; 2],
    over: [AtomicBool; 2],
    ended_early: AtomicBool,
    workers: AtomicUsize,
    ops: AtomicUsize,
    labels: Mutex<Vec<&'static str>>,
}

impl Shared {
    fn v(&self, p: &str, t: &'static str, m: String) {
        self.viol.lock().unwrap().push((p.into(), t, m));
    }
    fn label(&self, l: &'static str) {
        let mut g = self.labels.lock().unwrap();
        if !g.contains(&l) {
            g.push(l)
        }
    }
    fn op(&self, me: usize) -> bool {
        let n = self.ops.fetch_add(1, SeqCst);
        if let Some((side, at)) = self.c.early {
            if n == at as usize && !self.closing[side as usize].swap(true, SeqCst) {
                self.ended_early.store(true, SeqCst);
                self.dflag[side as usize].set();
                self.label("early-close");
            }
        }
        self.s.point(me, false);
        self.s.begin(me);
        !self.s.dead.load(SeqCst)
    }
}

fn driver(w: &Arc<Shared>, me: usize, side: usize, end: End, ctl: Arc<Mutex<Ctl>>, mon: &mut Mon, o: &mut Outcome) {
    let mode = if side == 0 { Mode::Client } else { Mode::Server };
    let mut conn = Connection::new(end, w.c.cfg[side].build(), mode);
    let f = w.dflag[side].clone();
    let mut opened: Vec<usize> = vec![];
    let mut closed_ok = false;
    let mut close_polls = 0u8;
    let tap = |mon: &mut Mon, o: &mut Outcome| {
        let (out, inn, ord) = {
            let mut c = ctl.lock().unwrap();
            (std::mem::take(&mut c.out), std::mem::take(&mut c.inn), c.order.replace(vec![]).unwrap_or_default())
        };
        let now = web_time::virt::now_nanos();
        let mut fr = vec![];
        let (mut i, mut j) = (0, 0);
        let grants = ord.iter().any(|x| x.0 && x.1 > 0);
        for (is_out, n) in ord {
            if is_out {
                mon.on_out(&out[j..j + n], now, o, &mut fr);
                j += n;
            } else {
                mon.on_in(&inn[i..i + n], now, &mut fr);
                i += n;
            }
        }
        // granted and not consumed, over the streams held
        let cfg = &w.c.cfg[side];
        if let (true, Some(limit)) = (grants && w.c.rtt.is_some(), cfg.limit()) {
            let ids = w.ids.lock().unwrap().clone();
            let mut sum = 0u64;
            for (k, e) in w.ends.iter().enumerate() {
                let id = ids[k];
                let held = e[side].slot.lock().is_some();
                if id != 0 && held && !e[side].dropping.load(SeqCst) {
                    let wu = mon.st.get(&id).map_or(0, |m| m.sent_wu);
                    let out = (WINDOW + wu).saturating_sub(e[side].rd.load(SeqCst));
                    if out > WINDOW {
                        w.label("thread-window-grown");
                    }
                    sum += out;
                }
            }
            if sum > limit as u64 {
                w.v("C07 C10", "thread.windows", format!("side {side} has granted {sum} bytes, the limit is {limit}"));
            }
        }
    };
    let mut wakes = 0;
    'run: loop {
        if !w.s.park(me, &f) {
            break;
        }
        w.clock.advance(Duration::from_micros(300));
        wakes += 1;
        if let (2, Some(us)) = (wakes, w.c.rtt) {
            w.clock.advance(Duration::from_micros(us as u64));
        }
        let wk = f.waker();
        let mut cx = Context::from_waker(&wk);
        loop {
            if w.s.dead.load(SeqCst) {
                break 'run;
            }
            // opening requests
            if !w.closing[side].load(SeqCst) {
                let reqs = std::mem::take(&mut *w.wants[side].lock().unwrap());
                for k in reqs {
                    let e = &w.ends[k][side];
                    match conn.poll_new_outbound(&mut cx) {
                        Poll::Ready(Ok(s)) => {
                            w.ids.lock().unwrap()[k] = s.id().val();
                            opened.push(k);
                            *e.slot.lock() = Some(s);
                        }
                        Poll::Ready(Err(e2)) => {
                            if !w.ended_early.load(SeqCst) {
                                w.v("C10 C14", "thread.open", format!("opening a stream failed: {e2}"));
                            }
                            e.gone.store(true, SeqCst);
                        }
                        Poll::Pending => {
                            w.v("C10 C15", "thread.open", "opening a stream waits".into());
                            e.gone.store(true, SeqCst);
                        }
                    }
                    for f in &e.ready {
                        f.set()
                    }
                }
            }
            if w.closing[side].load(SeqCst) {
                if let (Some(n), true) = (w.c.drop_at, w.c.early.is_some_and(|x| x.0 as usize == side)) {
                    if w.ended_early.load(SeqCst) && close_polls >= n {
                        w.label(if n > 0 { "dropped-closing" } else { "dropped-conn" });
                        break 'run;
                    }
                    close_polls = close_polls.saturating_add(1);
                }
                let r = conn.poll_close(&mut cx);
                tap(mon, o);
                match r {
                    Poll::Pending => break,
                    Poll::Ready(r) => {
                        if let Err(e) = r {
                            w.v("C20 C10", "thread.close", format!("closing the connection failed: {e}"));
                        }
                        closed_ok = true;
                        break 'run;
                    }
                }
            }
            let r = conn.poll_next_inbound(&mut cx);
            tap(mon, o);
            match r {
                Poll::Pending => break,
                Poll::Ready(None) => break 'run,
                Poll::Ready(Some(Err(e))) => {
                    // the peer closing while data is under way is an unclean end at most for early closing
                    let broken = matches!(e, ConnectionError::Io(_)) || w.c.drop_at.is_some() && matches!(e, ConnectionError::Decode(_));
                    if !w.ended_early.load(SeqCst) || !broken {
                        w.v("C10 C21", "thread.err", format!("connection of side {side} failed: {e}"));
                    }
                    break 'run;
                }
                Poll::Ready(Some(Ok(s))) => {
                    let id = s.id().val();
                    let k = w.ids.lock().unwrap().iter().position(|x| *x == id);
                    match k {
                        Some(k) if w.c.streams[k].opener as usize != side => {
                            *w.ends[k][side].slot.lock() = Some(s);
                            for f in &w.ends[k][side].ready {
                                f.set()
                            }
                        }
                        _ => {
                            w.v("C13 C10", "thread.inbound", format!("inbound stream {id} that nobody opened"));
                        }
                    }
                }
            }
        }
    }
    if !w.s.dead.load(SeqCst) {
        if !w.ended_early.load(SeqCst) && w.workers.load(SeqCst) > 0 {
            w.v("C10 C21", "thread.end", format!("the connection of side {side} ended while in use"));
        }
        // nobody waits any longer
        w.over[side].store(true, SeqCst);
        for (k, e) in w.ends.iter().enumerate() {
            let have = e[side].slot.lock().is_some();
            if !have {
                w.ends[k][side].gone.store(true, SeqCst);
            }
            for f in &e[side].ready {
                f.set()
            }
        }
        let _ = closed_ok;
    }
    tap(mon, o);
    drop(conn);
}

fn worker(w: &Arc<Shared>, me: usize, k: usize, side: usize, half: u8) {
    // half: 0 both, 1 writer, 2 reader
    let t = &w.c.streams[k];
    let opener = t.opener as usize == side;
    let e = &w.ends[k][side];
    let other = &w.ends[k][1 - side];
    let cfg = &t.ends[if opener { 0 } else { 1 }];
    let ready = &e.ready[(half == 2) as usize];
    let f = Flag::new(false);
    let wk = f.waker();
    let mut cx = Context::from_waker(&wk);
    if opener && half != 2 {
        w.wants[side].lock().unwrap().push(k);
        w.dflag[side].set();
        if w.over[side].load(SeqCst) {
            e.gone.store(true, SeqCst);
        }
    }
    loop {
        if e.gone.load(SeqCst) {
            return;
        }
        if e.slot.lock().is_some() {
            break;
        }
        if w.over[side].load(SeqCst) || !w.s.park(me, ready) {
            return;
        }
    }
    let id = w.ids.lock().unwrap()[k];
    let early = || w.ended_early.load(SeqCst);
    let mut closed = false;
    let write = |n: u32, cx: &mut Context<'_>| -> bool {
        let mut left = n as usize;
        while left > 0 {
            if !w.op(me) {
                return false;
            }
            let off = e.acc.load(SeqCst);
            let b = pat::fill(pat::key(side, id), off, left);
            let r = {
                let mut g = e.slot.lock();
                Pin::new(g.as_mut().unwrap()).poll_write(cx, &b)
            };
            match r {
                Poll::Ready(Ok(0)) => {
                    w.v("C10 C01", "thread.write0", format!("write on {id} accepted nothing"));
                    return false;
                }
                Poll::Ready(Ok(x)) => {
                    e.acc.fetch_add(x as u64, SeqCst);
                    left -= x;
                    if x > w.c.cfg[side].split() {
                        w.v("C17 C10", "thread.split", format!("write on {id} accepted {x}"));
                    }
                }
                Poll::Ready(Err(_)) => {
                    e.werr.store(true, SeqCst);
                    if !other.dropping.load(SeqCst) && !early() {
                        w.v("C10 C04", "thread.write_err", format!("write on {id} failed although the peer holds its end"));
                    }
                    return false;
                }
                Poll::Pending => {
                    w.label("thread-write-waits");
                    if !w.s.park(me, &f) {
                        return false;
                    }
                }
            }
        }
        true
    };
    // -1: end, -2: nothing, -3: give up
    let read1 = |n: usize, packet: bool, cx: &mut Context<'_>| -> i64 {
        if !w.op(me) {
            return -3;
        }
        // the peer may only accept more meanwhile
        let r: Poll<Result<Option<Vec<u8>>, std::io::Error>> = {
            let mut g = e.slot.lock();
            let h = g.as_mut().unwrap();
            if packet {
                match Pin::new(h).poll_next(cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(None) => Poll::Ready(Ok(None)),
                    Poll::Ready(Some(Ok(p))) => Poll::Ready(Ok(Some(p.as_ref().to_vec()))),
                    Poll::Ready(Some(Err(x))) => Poll::Ready(Err(x)),
                }
            } else {
                let mut b = vec![0; n.max(1)];
                match Pin::new(h).poll_read(cx, &mut b) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Ok(0)) => Poll::Ready(Ok(None)),
                    Poll::Ready(Ok(x)) => {
                        b.truncate(x);
                        Poll::Ready(Ok(Some(b)))
                    }
                    Poll::Ready(Err(x)) => Poll::Ready(Err(x)),
                }
            }
        };
        match r {
            Poll::Pending => -2,
            Poll::Ready(Err(x)) => {
                w.v("C10 C02", "thread.read_err", format!("read on {id} failed: {x}"));
                -1
            }
            Poll::Ready(Ok(None)) => {
                e.eof.store(true, SeqCst);
                -1
            }
            Poll::Ready(Ok(Some(b))) => {
                let off = e.rd.load(SeqCst);
                if let Some(p) = pat::check(pat::key(1 - side, id), off, &b) {
                    w.v("C10 C01", "thread.data", format!("stream {id}: byte {} read by side {side} is not the byte written", off + p as u64));
                }
                if e.eof.load(SeqCst) {
                    w.v("C10 C02", "thread.after_eof", format!("stream {id}: data after the end of stream"));
                }
                e.rd.fetch_add(b.len() as u64, SeqCst);
                w.label("thread-data");
                b.len() as i64
            }
        }
    };
    let mut ok = true;
    if half != 2 && opener {
        ok = write(t.first.max(1), &mut cx);
    }
    let mut sum = t.first as u64;
    for op in &cfg.ops {
        if w.s.dead.load(SeqCst) {
            break;
        }
        match op {
            TOp::Write(n) if half != 2 => {
                // without a thread that reads to the end, both ends must not be able to fill both windows
                let small = half == 0 || !cfg.close;
                if small && sum + *n as u64 > 200_000 {
                    continue;
                }
                sum += *n as u64;
                let n = if small { *n } else { *n * 6 };
                if ok && !write(n, &mut cx) {
                    ok = false;
                }
            }
            TOp::TryRead(n) if half != 1 => {
                read1(*n as usize, false, &mut cx);
            }
            TOp::Packet if half != 1 => {
                read1(0, true, &mut cx);
            }
            TOp::Flush if half != 2 => loop {
                if !w.op(me) {
                    break;
                }
                let r = Pin::new(e.slot.lock().as_mut().unwrap()).poll_flush(&mut cx);
                if r.is_ready() || !w.s.park(me, &f) {
                    break;
                }
            },
            TOp::Query => {
                let g = e.slot.lock();
                let h = g.as_ref().unwrap();
                let (c, wc) = (h.is_closed(), h.is_write_closed());
                drop(g);
                if !closed && (wc || c) && !early() && !other.dropping.load(SeqCst) && half == 0 {
                    w.v("C10 C03", "thread.status", format!("stream {id}: closed {c}, write-closed {wc} without having been closed"));
                }
            }
            _ => {}
        }
    }
    if half != 2 && cfg.close && !w.s.dead.load(SeqCst) {
        loop {
            if !w.op(me) {
                break;
            }
            let r = Pin::new(e.slot.lock().as_mut().unwrap()).poll_close(&mut cx);
            match r {
                Poll::Ready(r) => {
                    if let Err(x) = r {
                        if !early() && !other.dropping.load(SeqCst) {
                            w.v("C10 C03", "thread.close_stream", format!("closing {id} failed: {x}"));
                        }
                    }
                    break;
                }
                Poll::Pending => {
                    if !w.s.park(me, &f) {
                        break;
                    }
                }
            }
        }
        closed = true;
    }
    let _ = closed;
    if half != 1 && cfg.close {
        let mut n = 0;
        loop {
            n += 1;
            match read1(cfg.buf as usize, n % 3 == 0, &mut cx) {
                -1 | -3 => break,
                -2 => {
                    w.label("thread-read-waits");
                    if !w.s.park(me, &f) {
                        break;
                    }
                }
                _ => {}
            }
        }
    }
    if w.s.dead.load(SeqCst) {
        return;
    }
    if e.left.fetch_sub(1, SeqCst) == 1 {
        w.op(me);
        e.dropping.store(true, SeqCst);
        let h = e.slot.lock().take();
        drop(h);
    }
}

/// Bound the number of steps: nothing is smaller than a fixed share of what is transferred.
fn scale(c: &ThreadCase) -> ThreadCase {
    let mut c = c.clone();
    let mut total = 0u32;
    for t in &c.streams {
        total += t.first;
        for e in &t.ends {
            for op in &e.ops {
                if let TOp::Write(n) = op {
                    total += if e.split { *n * 6 } else { *n };
                }
            }
        }
    }
    for k in 0..2 {
        c.cap[k] = c.cap[k].max(total / 300);
        c.cfg[k].split = c.cfg[k].split.max(total / 100);
    }
    for v in [&mut c.wsched, &mut c.rsched] {
        for x in v.iter_mut() {
            if *x > 0 {
                *x = (*x).max((total / 500).min(u16::MAX as u32) as u16);
            }
        }
    }
    for t in &mut c.streams {
        for e in &mut t.ends {
            e.buf = e.buf.max(total / 300);
        }
    }
    c
}

pub fn run(c: &ThreadCase, trace: bool) -> Outcome {
    let c = &scale(c);
    let clock = web_time::virt::Clock::new();
    clock.install();
    // threads: 0, 1 drivers; then workers
    let mut jobs: Vec<(usize, usize, u8)> = vec![];
    for (k, t) in c.streams.iter().enumerate() {
        for side in 0..2 {
            let e = &t.ends[if t.opener as usize == side { 0 } else { 1 }];
            if e.split {
                jobs.push((k, side, 1));
                jobs.push((k, side, 2));
            } else {
                jobs.push((k, side, 0));
            }
        }
    }
    let n = 2 + jobs.len();
    let sched = Arc::new(Sched {
        m: Mutex::new(Inner { cur: 0, st: vec![TState::Ready; n], dead: None, k: 0, rng: (c.seed as u64) << 8 | 0x9E37, switches: 0, inside: 0, held: 0, lagged: 0, low: vec![false; n], within: vec![0; n] }),
        lag: c.lag.clone(),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
        pre: c.pre.clone(),
        rate: c.rate,
        dead: AtomicBool::new(false),
    });
    let mk = |split: bool| EndSt {
        slot: Arc::new(parking_lot::Mutex::new(None)),
        ready: vec![Flag::new(false), Flag::new(false)],
        gone: AtomicBool::new(false),
        acc: AtomicU64::new(0),
        rd: AtomicU64::new(0),
        eof: AtomicBool::new(false),
        werr: AtomicBool::new(false),
        dropping: AtomicBool::new(false),
        left: AtomicUsize::new(1 + split as usize),
    };
    let ends = c
        .streams
        .iter()
        .map(|t| {
            let s = |side: usize| mk(t.ends[if t.opener as usize == side { 0 } else { 1 }].split);
            [s(0), s(1)]
        })
        .collect();
    let w = Arc::new(Shared {
        s: sched.clone(),
        c: c.clone(),
        clock: clock.clone(),
        ends,
        ids: Mutex::new(vec![0; c.streams.len()]),
        viol: Mutex::new(vec![]),
        wants: [Mutex::new(vec![]), Mutex::new(vec![])],
        dflag: [Flag::new(true), Flag::new(true)],
        closing: [AtomicBool::new(false), AtomicBool::new(false)],
        over: [AtomicBool::new(false), AtomicBool::new(false)],
        ended_early: AtomicBool::new(false),
        workers: AtomicUsize::new(jobs.len()),
        ops: AtomicUsize::new(0),
        labels: Mutex::new(vec![]),
    });
    let pipes = [pipe(c.cap[0].max(1) as usize), pipe(c.cap[1].max(1) as usize)];
    let mut handles = vec![];
    let (otx, orx) = std::sync::mpsc::channel::<(usize, Outcome, Option<(String, String)>)>();
    for me in 0..n {
        let w = w.clone();
        let otx = otx.clone();
        let clock = clock.clone();
        let sched = sched.clone();
        let job = if me >= 2 { Some(jobs[me - 2]) } else { None };
        let end = if me < 2 {
            let ctl = Arc::new(Mutex::new(Ctl { wsched: c.wsched.clone(), rsched: c.rsched.clone(), discard: true, order: Some(vec![]), ..Ctl::default() }));
            Some((End { rx: pipes[1 - me].clone(), tx: pipes[me].clone(), ctl: ctl.clone() }, ctl))
        } else {
            None
        };
        let b = std::thread::Builder::new().stack_size(512 * 1024);
        handles.push(
            b.spawn(move || {
                clock.install();
                let mut o = Outcome::default();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    verif::install(Some(Arc::new(Ctlr { s: sched.clone(), me })));
                    sched.start(me);
                    match (job, end) {
                        (Some((k, side, half)), _) => worker(&w, me, k, side, half),
                        (None, Some((end, ctl))) => {
                            let mut mon = Mon::new(me, me == 0, w.c.cfg[me].split());
                            driver(&w, me, me, end, ctl, &mut mon, &mut o)
                        }
                        _ => unreachable!(),
                    }
                }));
                let p = crate::runner::take_panic();
                verif::install(None);
                if r.is_err() {
                    let mut g = sched.m.lock().unwrap();
                    sched.kill(&mut g, "panic".into());
                }
                if me >= 2 && w.workers.fetch_sub(1, SeqCst) == 1 && !w.closing[0].swap(true, SeqCst) {
                    w.dflag[0].set();
                }
                // a worker that gave up must not keep its end
                drop(w);
                sched.finish(me);
                let _ = otx.send((me, o, if r.is_err() { p } else { None }));
            })
            .unwrap(),
        );
    }
    let mut o = Outcome::default();
    let mut left = n;
    let mut panics = vec![];
    let mut alive = vec![true; n];
    while left > 0 {
        match orx.recv_timeout(Duration::from_secs(60)) {
            Ok((i, oo, p)) => {
                left -= 1;
                alive[i] = false;
                o.viol.extend(oo.viol);
                if let Some(p) = p {
                    panics.push(p)
                }
            }
            Err(_) => break,
        }
    }
    if left > 0 {
        // cannot happen unless a thread spins outside the scheduler's sight
        o.viol.clear();
        o.v("*", "thread.hang", format!("threads {:?} do not end", (0..n).filter(|i| alive[*i]).collect::<Vec<_>>()));
        return o;
    }
    for h in handles {
        let _ = h.join();
    }
    let (dead, switches, inside, points, lagged, held) = {
        let g = sched.m.lock().unwrap();
        (g.dead.clone(), g.switches, g.inside, g.k, g.lagged, g.held)
    };
    if lagged > 0 {
        o.label("thread-held-back");
    }
    for (p, t, m) in w.viol.lock().unwrap().drain(..) {
        o.v(p, t, m);
    }
    for (loc, msg) in &panics {
        if msg == "deadlock: mutex" {
            continue;
        }
        o.viol.insert(0, crate::runner::panic_violation(loc, msg));
    }
    if let (Some(d), true) = (&dead, panics.is_empty() || panics.iter().all(|p| p.1 == "deadlock: mutex")) {
        if d.contains("lock") {
            o.v("C10 C09", "thread.deadlock", d.clone());
        } else if d != "panic" {
            o.v("C10 C09", "thread.stuck", format!("nobody runs: {d}"));
        }
    }
    if dead.is_none() && o.viol.is_empty() {
        let early = w.ended_early.load(SeqCst);
        for (k, e) in w.ends.iter().enumerate() {
            for side in 0..2 {
                let (acc, rd) = (e[side].acc.load(SeqCst), e[1 - side].rd.load(SeqCst));
                if rd > acc {
                    o.v("C10 C01", "thread.extra", format!("stream #{k}: {rd} bytes read, {acc} written by side {side}"));
                }
                if e[1 - side].eof.load(SeqCst) && !early && rd < acc {
                    o.v("C10 C02 C01", "thread.lost", format!("stream #{k}: end of stream after {rd} of the {acc} bytes written by side {side}"));
                }
            }
        }
    }
    if switches > 20 {
        o.label("thread-switches");
    }
    if held > 0 {
        o.label("preempted-holding");
    }
    if inside > 0 {
        o.label("preempted-inside");
    }
    for l in w.labels.lock().unwrap().iter() {
        o.label(l);
    }
    if trace {
        o.trace.push(format!("{points} decisions, {switches} switches, {inside} inside the code under test, {dead:?}"));
        for (k, e) in w.ends.iter().enumerate() {
            for side in 0..2 {
                o.trace.push(format!("  stream {k} side {side}: wrote {:?} read {:?} eof {:?} gone {:?}", e[side].acc, e[side].rd, e[side].eof, e[side].gone));
            }
        }
    }
    o
}
