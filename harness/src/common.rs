//! Shared pieces: violations, outcomes, wakers, choice tape, configuration of the code under test.
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Wake, Waker};

#[derive(Clone, Debug)]
pub struct Violation {
    pub tag: &'static str,
    /// Space separated property ids, or "*".
    pub props: String,
    pub msg: String,
}

impl Violation {
    pub fn is_for(&self, prop: &str) -> bool {
        self.props == "*" || self.props.split(' ').any(|p| p == prop)
    }
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub viol: Vec<Violation>,
    pub labels: Vec<&'static str>,
    /// Human readable trace (replay only).
    pub trace: Vec<String>,
}

impl Outcome {
    pub fn v(&mut self, props: impl Into<String>, tag: &'static str, msg: String) {
        if self.viol.len() < 16 {
            self.viol.push(Violation { tag, props: props.into(), msg });
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
}

/// A task's wake flag.
#[derive(Default)]
pub struct Flag {
    pub on: AtomicBool,
    pub wakes: AtomicU64,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.on.store(true, Ordering::SeqCst);
        self.wakes.fetch_add(1, Ordering::SeqCst);
    }
}
impl Flag {
    pub fn new(on: bool) -> Arc<Flag> {
        Arc::new(Flag { on: AtomicBool::new(on), wakes: AtomicU64::new(0) })
    }
    pub fn set(&self) {
        self.on.store(true, Ordering::SeqCst)
    }
    pub fn get(&self) -> bool {
        self.on.load(Ordering::SeqCst)
    }
    pub fn take(&self) -> bool {
        self.on.swap(false, Ordering::SeqCst)
    }
    pub fn waker(self: &Arc<Self>) -> Waker {
        Waker::from(self.clone())
    }
}

/// One who waits within a task: only the waker of the latest poll counts, as the contract of `Poll` says.
pub struct Waits {
    task: Arc<Flag>,
    epoch: Arc<AtomicU64>,
    mine: u64,
}
impl Wake for Waits {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.epoch.load(Ordering::SeqCst) == self.mine {
            self.task.wake_by_ref()
        }
    }
}
/// The waker for the next poll: that of the task, or (`epoch`) one that is outdated by the next.
pub fn next_waker(task: &Arc<Flag>, epoch: Option<&Arc<AtomicU64>>) -> Waker {
    match epoch {
        None => task.waker(),
        Some(e) => Waker::from(Arc::new(Waits { task: task.clone(), epoch: e.clone(), mine: e.fetch_add(1, Ordering::SeqCst) + 1 })),
    }
}

/// Generated scheduling choices.
pub struct Choices {
    tape: Vec<u8>,
    i: usize,
}
impl Choices {
    pub fn new(tape: Vec<u8>) -> Self {
        Choices { tape, i: 0 }
    }
    pub fn next(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.i;
        self.i += 1;
        if self.tape.is_empty() {
            return i % n;
        }
        // the lap number is mixed in so that a short tape does not repeat exactly
        let lap = i / self.tape.len();
        (self.tape[i % self.tape.len()] as usize + lap) % n
    }
    pub fn byte(&mut self) -> u8 {
        let i = self.i;
        self.i += 1;
        if self.tape.is_empty() {
            0
        } else {
            self.tape[i % self.tape.len()]
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Cfg {
    /// Bytes beyond 256 KiB * max_streams the connection may grant; None: no limit.
    pub extra_window: Option<u64>,
    pub max_streams: u32,
    pub rac: bool,
    pub split: u32,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { extra_window: Some(1 << 29), max_streams: 512, rac: true, split: 16384 }
    }
}
impl Cfg {
    pub fn limit(&self) -> Option<usize> {
        self.extra_window.map(|e| (e as usize).saturating_add(self.max_streams as usize * 256 * 1024))
    }
    pub fn split(&self) -> usize {
        (self.split as usize).max(1)
    }
    pub fn build(&self) -> yamux::Config {
        let mut c = yamux::Config::default();
        c.set_max_connection_receive_window(None);
        c.set_max_num_streams(self.max_streams as usize);
        c.set_max_connection_receive_window(self.limit());
        c.set_read_after_close(self.rac);
        c.set_split_send_size(self.split());
        c
    }
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

/// Drives a closing connection. What ends a close may be polled through any of the
/// connection's methods once `poll_close` has begun it; `via` says which are used:
/// 0, 1: only `poll_close`; 2: and `poll_next_inbound`; 3: and `poll_new_outbound`.
/// `Err` holds what a method answered that it cannot answer.
pub fn poll_closing<T: futures::AsyncRead + futures::AsyncWrite + Unpin>(
    conn: &mut yamux::Connection<T>,
    cx: &mut std::task::Context<'_>,
    via: u8,
    n: &mut u32,
) -> Result<std::task::Poll<Result<(), yamux::ConnectionError>>, &'static str> {
    use std::task::Poll;
    let k = *n;
    *n += 1;
    let how = if via < 2 || k == 0 { 0 } else { k % via as u32 };
    match how {
        0 => return Ok(conn.poll_close(cx)),
        1 => match conn.poll_next_inbound(cx) {
            Poll::Pending => return Ok(Poll::Pending),
            Poll::Ready(Some(Ok(_))) => return Err("an inbound stream was handed out while closing"),
            Poll::Ready(Some(Err(e))) => return Ok(Poll::Ready(Err(e))),
            Poll::Ready(None) => {}
        },
        _ => match conn.poll_new_outbound(cx) {
            Poll::Pending => return Ok(Poll::Pending),
            Poll::Ready(Ok(_)) => return Err("a stream was opened while closing"),
            Poll::Ready(Err(yamux::ConnectionError::Closed)) => {}
            Poll::Ready(Err(e)) => return Ok(Poll::Ready(Err(e))),
        },
    }
    // the method says that the connection is closed
    match conn.poll_close(cx) {
        Poll::Ready(Ok(())) => Ok(Poll::Ready(Ok(()))),
        _ => Err("reported as closed, and then poll_close disagrees"),
    }
}
