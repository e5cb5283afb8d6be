//! W7: configuration setters in every order with every kind of value, and connections running with what they accept.
use crate::common::*;
use crate::rig::*;
use crate::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::task::Poll;
use std::time::Duration;
use yamux::Config;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Set {
    Window(Option<u64>),
    Streams(u64),
    Rac(bool),
    Split(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ConfCase {
    pub client: bool,
    pub sets: Vec<Set>,
    /// per step: advance (us), bytes the peer sends
    pub steps: Vec<(u32, u32)>,
}

pub fn conf() -> BoxedStrategy<ConfCase> {
    const U: u64 = usize::MAX as u64;
    let near = |v: u64| (0u64..5).prop_map(move |d| v.saturating_add(d).saturating_sub(2));
    let win = move || {
        prop_oneof![
            3 => Just(None),
            4 => (0u64..700).prop_flat_map(move |k| near(k * WINDOW)).prop_map(Some),
            2 => Just(Some(1u64 << 30)),
            2 => (0u64..5).prop_map(|d| Some(U - d)),
            1 => (0u64..64).prop_flat_map(move |b| near(1u64 << b)).prop_map(Some),
            1 => any::<u64>().prop_map(Some),
            1 => (0u64..100).prop_map(Some),
        ]
    };
    let streams = move || {
        prop_oneof![
            4 => 0u64..700,
            2 => 4090u64..4100,
            2 => (0u64..64).prop_flat_map(move |b| near(1u64 << b)),
            1 => near(U / WINDOW),
            1 => near(U / WINDOW + 1),
            1 => (0u64..5).prop_map(|d| U - d),
            1 => any::<u64>(),
        ]
    };
    let split = prop_oneof![3 => 1u64..100_000, 1 => (0u64..3).prop_map(|d| U - d), 1 => (20u64..64).prop_map(|b| 1u64 << b)];
    let set = prop_oneof![
        5 => win().prop_map(Set::Window),
        5 => streams().prop_map(Set::Streams),
        1 => any::<bool>().prop_map(Set::Rac),
        2 => split.prop_map(Set::Split),
    ];
    // small related values: the interesting boundaries are met in every order
    let small = prop_oneof![
        5 => prop_oneof![6 => (0u64..13).prop_flat_map(move |k| near(k * WINDOW)).prop_map(Some), 1 => Just(None)].prop_map(Set::Window),
        5 => (0u64..13).prop_map(Set::Streams),
        1 => any::<bool>().prop_map(Set::Rac),
    ];
    let sets = prop_oneof![
        3 => vec(set.clone(), 0..5),
        2 => vec(small.clone(), 1..6),
        1 => ((1u64..6).prop_map(Set::Streams), vec(small, 1..6)).prop_map(|(a, mut v)| {
            v.insert(0, a);
            v
        }),
    ];
    (any::<bool>(), sets, vec((0u32..3000, prop_oneof![1u32..1000, 1000u32..200_000]), 0..25))
        .prop_map(|(client, sets, steps)| ConfCase { client, sets, steps })
        .boxed()
}

pub fn run(c: &ConfCase, trace: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut cfg = Config::default();
    let (mut win, mut streams, mut split) = (Some(1u64 << 30), 512u64, 16_384u64);
    for s in &c.sets {
        match s {
            Set::Window(w) => win = *w,
            Set::Streams(n) => streams = *n,
            Set::Split(n) => split = *n,
            Set::Rac(_) => {}
        }
        let ok = win.is_none_or(|w| w as u128 >= streams as u128 * WINDOW as u128);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            match s {
                Set::Window(w) => cfg.set_max_connection_receive_window(w.map(|w| w as usize)),
                Set::Streams(n) => cfg.set_max_num_streams(*n as usize),
                Set::Rac(b) => cfg.set_read_after_close(*b),
                Set::Split(n) => cfg.set_split_send_size(*n as usize),
            };
        }));
        let why = crate::runner::take_panic();
        if trace {
            o.trace.push(format!("  {s:?}: {why:?}"));
        }
        match (r.is_ok(), ok) {
            (true, true) => {}
            (false, false) => {
                o.label("rejected");
                return o;
            }
            (true, false) => {
                o.v("C23", "config.accepted", format!("{s:?} accepted with window {win:?} for {streams} streams"));
                return o;
            }
            (false, true) => {
                o.v("C23", "config.rejected", format!("{s:?} rejected with window {win:?} for {streams} streams: {why:?}"));
                return o;
            }
        }
    }
    o.label("accepted");
    // run with it
    let mut r = Rig::new(c.client, cfg, &[], &[], usize::MAX);
    r.drive();
    let mut probe = r.out().iter().find(|f| f.ty == PING && f.flags == SYN).map(|f| f.len);
    let f = Flag::new(false);
    let (own, peer) = if c.client { (1u32, 2u32) } else { (2, 1) };
    let mut hs = vec![];
    match r.open(&f) {
        Poll::Ready(Ok(h)) if streams > 0 => hs.push((own, h)),
        Poll::Ready(Err(yamux::ConnectionError::TooManyStreams)) if streams == 0 => {}
        x => {
            let m = match x {
                Poll::Ready(Ok(_)) => "succeeded".into(),
                Poll::Ready(Err(e)) => e.to_string(),
                Poll::Pending => "waits".to_string(),
            };
            o.v("C23 C14", "config.open", format!("opening a stream with a limit of {streams}: {m}"));
            return o;
        }
    }
    r.feed(&Fr::new(WU, SYN, peer, 0).encode());
    r.drive();
    match r.fresh.pop_front() {
        Some(h) if streams > hs.len() as u64 => hs.push((peer, h)),
        None if streams <= hs.len() as u64 => {}
        x => {
            o.v("C23 C14", "config.inbound", format!("inbound stream handed out: {}, limit {streams}", x.is_some()));
            return o;
        }
    }
    let mut win_left = vec![WINDOW; hs.len()];
    let mut recvd_read = 0u64;
    for (us, n) in &c.steps {
        r.clock.advance(Duration::from_micros(*us as u64));
        r.flag.set();
        for k in 0..hs.len() {
            let n = (*n as u64).min(win_left[k]);
            win_left[k] -= n;
            r.feed(&Fr::data(0, hs[k].0, vec![4; n as usize]).encode());
            r.drive();
            loop {
                let mut b = vec![0u8; 50_000];
                match read(&mut hs[k].1, &f, &mut b) {
                    Poll::Ready(Ok(0)) | Poll::Ready(Err(_)) => {
                        o.v("C23", "config.read", "read ended".into());
                        return o;
                    }
                    Poll::Ready(Ok(x)) => recvd_read += x as u64,
                    Poll::Pending => break,
                }
            }
            match write(&mut hs[k].1, &f, &[7; 300]) {
                Poll::Ready(Ok(x)) if x as u64 <= split.min(300) && x > 0 => {}
                Poll::Pending => {}
                x => {
                    o.v("C23 C17", "config.write", format!("write of 300 bytes: {x:?}, split size {split}"));
                    return o;
                }
            }
            r.drive();
            for fr in r.out() {
                if fr.ty == WU {
                    if let Some(k) = hs.iter().position(|h| h.0 == fr.id) {
                        win_left[k] += fr.len as u64;
                        if win_left[k] > WINDOW {
                            o.label("window-grown");
                        }
                    }
                } else if fr.ty == PING && fr.flags == SYN {
                    probe = Some(fr.len);
                }
            }
            r.drain();
            let sum: u64 = win_left.iter().sum();
            if win.is_some_and(|w| sum > w) {
                o.v("C07 C23", "config.window", format!("{sum} bytes of credit granted, configured maximum {win:?}"));
                return o;
            }
        }
        if let Some(v) = probe.take() {
            r.feed(&Fr::new(PING, ACK, 0, v).encode());
        }
    }
    if r.end.is_some() {
        o.v("C23", "config.end", format!("the connection ended: {:?}", r.end));
    }
    let _ = recvd_read;
    o.label("ran");
    o
}
