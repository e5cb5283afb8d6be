//! All kinds of cases, and which ones decide which property.
use crate::common::Outcome;
use crate::gen_pair::{pair, Profile};
use crate::gen_raw::{raw, RawProfile};
use crate::pair::PairCase;
use crate::raw::RawCase;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Case {
    Pair(PairCase),
    Raw(RawCase),
    Flood(crate::flood::FloodCase),
    Leak(crate::leak::LeakCase),
    Soup(crate::soup::SoupCase),
    Conf(crate::confw::ConfCase),
    Thread(crate::threads::ThreadCase),
    Fair(crate::fair::FairCase),
}

pub fn run(c: &Case, trace: bool) -> Outcome {
    match c {
        Case::Pair(p) => crate::pair::run(p, trace),
        Case::Raw(p) => crate::raw::run(p, trace),
        Case::Flood(p) => crate::flood::run(p, trace),
        Case::Leak(p) => crate::leak::run(p, trace),
        Case::Soup(p) => crate::soup::run(p, trace),
        Case::Conf(p) => crate::confw::run(p, trace),
        Case::Thread(p) => crate::threads::run(p, trace),
        Case::Fair(p) => crate::fair::run(p, trace),
    }
}

fn w1(p: Profile) -> BoxedStrategy<Case> {
    pair(p).prop_map(Case::Pair).boxed()
}
fn w2(p: RawProfile) -> BoxedStrategy<Case> {
    raw(p).prop_map(Case::Raw).boxed()
}

/// The worlds that decide each property, with their shares of the generated cases.
#[derive(Clone, Copy)]
enum W {
    /// both ends real: fine (byte-level) and coarse (window-level) transports
    Pair(fn(Profile) -> Profile),
    /// one real end against scripted frames and a step-wise model
    Raw(fn(RawProfile) -> RawProfile),
    Flood,
    Leak,
    Soup,
    Conf,
    Threads,
    Grow,
    Fair,
}

fn id<T>(p: T) -> T {
    p
}
fn closing(p: RawProfile) -> RawProfile {
    RawProfile { bad: 1, eof: 1, close_conn: 1, goaway: 1, pong_bad: 1, ..p }
}
fn ending(p: Profile) -> Profile {
    Profile { w_close_conn: 1, finales: &[1, 1, 1, 0], ..p }
}
/// A close begun while the transport is full both ways.
fn jammed(p: Profile) -> Profile {
    Profile { jam: true, w_close_conn: 1, coarse: false, max_ops: 12, finales: &[1, 1, 0], ..p }
}
fn bursts(p: Profile) -> Profile {
    Profile { w_burst: 4, coarse: false, max_ops: 25, ..p }
}
fn pumping(p: RawProfile) -> RawProfile {
    RawProfile { pump: 14, frag: false, adv: 10, pong: 12, data_big: 2, syn: 5, syn_bad: 0, drop: 4, write: 3, max_acts: 26, over: 0, wu: 1, wu_extreme: 0, unknown: 0, ..p }
}
fn reading(p: RawProfile) -> RawProfile {
    RawProfile { data_big: 9, read: 20, adv: 8, pong: 8, over: 0, wu: 1, wu_extreme: 0, unknown: 0, ..p }
}

fn mix(prop: &str) -> &'static [(u32, W)] {
    match prop {
        "C01" => &[(10, W::Pair(id)), (1, W::Raw(pumping)), (1, W::Flood), (4, W::Raw(|p| RawProfile { data: 16, data_big: 5, read: 16, ..p })), (2, W::Threads)],
        "C02" => &[
            (4, W::Pair(|p| Profile { w_close: 8, w_drop: 4, ..p })),
            (1, W::Pair(ending)),
            (1, W::Pair(bursts)),
            (2, W::Raw(|p| RawProfile { close: 6, rst: 4, read: 16, ..p })),
            (1, W::Threads),
        ],
        "C03" => &[
            (3, W::Pair(|p| Profile { w_close: 10, w_drop: 1, ..p })),
            (3, W::Raw(|p| RawProfile { close: 12, drop: 1, ..p })),
            (1, W::Raw(|p| RawProfile { close: 12, drop: 1, data_big: 8, read: 18, over: 0, ..p })),
        ],
        "C04" => &[
            (4, W::Pair(|p| Profile { w_drop: 8, ..p })),
            (3, W::Raw(|p| RawProfile { drop: 10, rst: 6, close: 6, ..p })),
            (1, W::Pair(bursts)),
            (1, W::Flood),
        ],
        "C05" => &[
            (4, W::Raw(|p| RawProfile { write: 24, wu: 12, wu_extreme: 3, data: 6, read: 4, data_big: 6, over: 0, ..p })),
            (2, W::Pair(|p| Profile { coarse: true, max_ops: 25, ..p })),
            (1, W::Raw(id)),
        ],
        "C06" => &[(3, W::Raw(|p| RawProfile { data_big: 10, over: 3, read: 14, ..p })), (1, W::Raw(|p| RawProfile { syn: 16, data_big: 6, over: 4, close: 8, ..p }))],
        "C07" => &[
            (4, W::Raw(|p| RawProfile { small_limit: true, ..reading(p) })),
            (2, W::Raw(|p| RawProfile { drop: 8, syn: 14, ..reading(p) })),
            (2, W::Raw(|p| RawProfile { drop: 8, small_limit: true, ..pumping(p) })),
            (1, W::Raw(pumping)),
            (1, W::Grow),
            (1, W::Conf),
        ],
        "C08" => &[(4, W::Raw(reading)), (2, W::Raw(pumping)), (1, W::Raw(|p| RawProfile { close: 8, ..reading(p) })), (1, W::Pair(|p| Profile { coarse: true, max_ops: 25, ..p }))],
        "C09" => &[
            (5, W::Pair(|p| Profile { w_stall: 4, ..p })),
            (1, W::Pair(|p| Profile { many: 1, coarse: false, max_ops: 25, ..p })),
            (1, W::Pair(bursts)),
            (1, W::Pair(|p| Profile { w_drop_conn: 1, ..jammed(p) })),
            (2, W::Raw(|p| RawProfile { wu: 8, write: 16, open: 8, ..p })),
            (1, W::Flood),
            (1, W::Threads),
        ],
        "C10" => &[(5, W::Threads), (1, W::Grow)],
        "C11" => &[(4, W::Flood), (1, W::Pair(|p| Profile { w_stall: 8, ..p })), (1, W::Raw(|p| RawProfile { data_big: 8, over: 3, ping: 10, ..p }))],
        "C12" => &[
            (3, W::Raw(|p| RawProfile { open: 20, drop: 8, top_ids: 50, ..p })),
            (1, W::Raw(|p| RawProfile { open: 20, open_many: 2, drop: 8, small_limit: true, ..p })),
            (1, W::Pair(|p| Profile { many: 1, coarse: false, max_ops: 30, ..p })),
        ],
        "C13" => &[
            (4, W::Raw(|p| RawProfile { syn: 16, syn_bad: 5, open: 8, drop: 6, ..p })),
            (1, W::Raw(|p| RawProfile { syn: 16, syn_bad: 3, small_limit: true, drop: 8, ..p })),
            (1, W::Pair(id)),
            (1, W::Soup),
        ],
        "C14" => &[
            (5, W::Raw(|p| RawProfile { small_limit: true, open: 12, syn: 14, drop: 8, close: 6, rst: 4, ..p })),
            (1, W::Raw(|p| RawProfile { limit_256: true, open_many: 8, open: 10, syn: 14, drop: 6, rst: 5, ..p })),
            (1, W::Leak),
            (1, W::Conf),
        ],
        "C15" => &[
            (3, W::Pair(|p| Profile { many: 3, coarse: false, max_ops: 30, ..p })),
            (3, W::Raw(|p| RawProfile { open_many: 8, open: 10, drop: 6, rst: 5, wu: 8, ..p })),
            (1, W::Raw(|p| RawProfile { limit_256: true, open_many: 8, open: 10, drop: 6, rst: 5, wu: 8, ..p })),
        ],
        "C16" => &[
            (3, W::Pair(id)),
            (3, W::Raw(id)),
            (1, W::Raw(|p| RawProfile { small_limit: true, drop: 8, close: 8, rst: 6, ..p })),
            (1, W::Raw(|p| RawProfile { close_conn: 2, close: 8, ..p })),
            (1, W::Pair(ending)),
            (1, W::Pair(bursts)),
            (2, W::Flood),
        ],
        "C17" => &[(3, W::Pair(|p| Profile { w_stall: 4, ..p })), (2, W::Raw(id)), (1, W::Pair(ending)), (1, W::Raw(|p| RawProfile { ping: 14, pong: 10, adv: 10, ..p })), (2, W::Flood)],
        "C18" => &[(1, W::Soup)],
        "C19" => &[
            (4, W::Raw(|p| RawProfile { ping: 24, pong: 14, pong_bad: 1, adv: 14, ..p })),
            (1, W::Flood),
            (1, W::Pair(|p| Profile { w_advance: 10, ..p })),
        ],
        "C20" => &[(5, W::Pair(ending)), (2, W::Pair(jammed)), (1, W::Pair(|p| Profile { w_drop_conn: 2, ..jammed(p) })), (1, W::Flood), (1, W::Pair(|p| bursts(ending(p)))), (2, W::Raw(|p| RawProfile { close_conn: 2, ..p })), (1, W::Threads)],
        "C21" => &[
            (3, W::Pair(|p| Profile { fault: true, w_drop_conn: 1, ..p })),
            (1, W::Pair(|p| Profile { fault: true, ..ending(p) })),
            (2, W::Pair(|p| Profile { fault: true, ..jammed(p) })),
            (1, W::Pair(|p| Profile { w_drop_conn: 2, ..jammed(p) })),
            (1, W::Pair(|p| Profile { many: 2, fault: true, max_ops: 25, coarse: false, ..ending(p) })),
            (1, W::Raw(|p| RawProfile { open_many: 8, open: 8, ..closing(p) })),
            (3, W::Raw(closing)),
            (1, W::Soup),
            (1, W::Threads),
        ],
        "C22" => &[
            (4, W::Raw(|p| RawProfile { unknown: 24, drop: 10, rst: 4, ping: 6, ..p })),
            (1, W::Raw(|p| RawProfile { unknown: 16, drop: 10, data_big: 8, syn: 12, ..p })),
            (1, W::Flood),
            (1, W::Pair(|p| Profile { w_drop: 8, ..p })),
        ],
        "C23" => &[(1, W::Conf)],
        "C24" => &[(3, W::Leak), (1, W::Flood)],
        "C25" => &[(1, W::Fair)],
        // development aids
        "P" => &[(1, W::Pair(id))],
        "TOP" => &[(1, W::Conf)],
        "F" => &[(1, W::Flood)],
        "L" => &[(1, W::Leak)],
        "S" => &[(1, W::Soup)],
        "K" => &[(1, W::Conf)],
        "A" => &[(1, W::Fair)],
        "T" => &[(1, W::Threads)],
        "G" => &[(1, W::Grow)],
        "J" => &[(1, W::Pair(jammed)), (1, W::Pair(|p| Profile { fault: true, ..jammed(p) }))],
        "B" => &[(1, W::Pair(bursts)), (1, W::Pair(|p| bursts(ending(p)))), (1, W::Pair(|p| Profile { many: 2, fault: true, max_ops: 25, coarse: false, ..ending(p) }))],
        "R" => &[(1, W::Raw(id))],
        "RP" => &[(1, W::Raw(pumping)), (1, W::Raw(|p| RawProfile { small_limit: true, ..pumping(p) })), (1, W::Raw(|p| RawProfile { limit_256: true, open_many: 8, open: 10, ..p }))],
        "RB" => &[(1, W::Raw(|p| RawProfile { open_many: 2, ..closing(p) })), (1, W::Raw(|p| RawProfile { small_limit: true, ..closing(p) }))],
        _ => &[],
    }
}

pub fn strategy(prop: &str, idx: u64) -> BoxedStrategy<Case> {
    let m = mix(prop);
    let total: u32 = m.iter().map(|x| x.0).sum();
    // every worker goes through the mix in the same proportions
    let round = idx / crate::runner::WORKERS as u64;
    let mut k = (round % total as u64) as u32;
    let lap = round / total as u64;
    if matches!(prop, "C07" | "C08" | "TOP") && round == 100 {
        return crate::gen_raw::top().prop_map(Case::Raw).boxed();
    }
    for (n, w) in m {
        if k >= *n {
            k -= n;
            continue;
        }
        let coarse = lap % 3 == 2;
        return match w {
            W::Pair(f) => w1(f(Profile { coarse, max_ops: if coarse { 25 } else { 40 }, ..Profile::default() })),
            W::Raw(f) => w2(f(RawProfile::default())),
            W::Flood => crate::flood::flood().prop_map(Case::Flood).boxed(),
            W::Leak => crate::leak::leak().prop_map(Case::Leak).boxed(),
            W::Soup => crate::soup::soup().prop_map(Case::Soup).boxed(),
            W::Conf => crate::confw::conf().prop_map(Case::Conf).boxed(),
            W::Threads => crate::threads::threads().prop_map(Case::Thread).boxed(),
            W::Grow => crate::threads::growing().prop_map(Case::Thread).boxed(),
            W::Fair => crate::fair::fair().prop_map(Case::Fair).boxed(),
        };
    }
    unreachable!()
}

/// A case is non-trivial for a property when it reached at least one of these situations.
pub fn nontrivial_labels(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["bytes-delivered", "bytes-read", "thread-data", "held-data-read"],
        "C02" => &["eof-after-data", "eof", "thread-data"],
        "C03" => &["closed-stream", "closed-both", "closed-again", "write-after-close-refused"],
        "C04" => &["dropped-stream", "write-after-reset-refused", "reset", "dropped"],
        "C05" => &["credit-in", "credit-exhausted", "credit-overflow", "write-waits", "writer-blocked"],
        "C06" => &["data-beyond-window", "window-filled"],
        "C07" => &["thread-window-grown", "window-grown", "window-capped", "window-kept"],
        "C08" => &["window-update", "window-grown", "window-kept", "writer-blocked"],
        "C09" => &["writer-blocked", "stall", "read-waits", "write-waits", "backlog-hit", "write-waits-for-room", "ping-flood", "thread-read-waits", "thread-write-waits"],
        "C10" => &["preempted-inside"],
        "C11" => &["write-waits-for-room", "ping-flood", "unread-data", "stall", "window-filled", "data-beyond-window", "bad-open-flood", "empty-flood", "noise-flood"],
        "C12" => &["ids-used-up", "last-id", "opened"],
        "C13" => &["syn", "syn-bad-id", "syn-in-use", "syn-limit", "syn-too-much", "streams-accepted"],
        "C14" => &["open-limit", "syn-limit", "cycles", "ran"],
        "C15" => &["backlog-hit", "open-backlog"],
        "C16" => &["bytes-delivered", "closed-stream", "dropped-stream", "syn", "reset", "closed-both"],
        "C17" => &["bytes-delivered", "bytes-read", "write-waits-for-room", "closed-conn", "ping"],
        "C18" => &["bad-header", "too-large", "truncated", "two-fragmentations"],
        "C19" => &["ping", "pong-ok", "pong-bad", "probe", "ping-flood"],
        "C20" => &["close-delivered", "closed-conn", "closed-cleanly", "eof-after-conn-end", "early-close", "closed-owing-replies", "closing-eof", "dropped-closing"],
        "C21" => &["fault-fired", "closing-fault-read", "closing-fault-write", "bad-frame", "eof-on-boundary", "eof-truncated", "goaway-in", "errors", "truncated", "bad-header"],
        "C22" => &["unknown-frame", "noise-flood", "dropped-stream"],
        "C23" => &["accepted", "rejected", "ran"],
        "C24" => &["cycles", "used-streams", "empty-flood", "bad-open-flood", "noise-flood"],
        "C25" => &["contended", "ping-behind-data", "inbound-burst"],
        _ => &[],
    }
}

pub fn rule(prop: &str) -> String {
    let worlds: Vec<&str> = mix(prop)
        .iter()
        .map(|(_, w)| match w {
            W::Pair(_) => "two real endpoints over a simulated transport, operations, fragmentation, stalls and poll order generated",
            W::Raw(_) => "one real endpoint against generated frames and local operations, compared step by step with a reference model",
            W::Flood => "floods of frames or writes against a stalled transport",
            W::Leak => "repeated stream life cycles with live memory measured",
            W::Soup => "arbitrary and mutated bytes under two fragmentations",
            W::Conf => "sequences of configuration setters against 128-bit arithmetic, then used",
            W::Fair => "several streams kept full of frames, floods of inbound frames, pings and due probes compete for a transport taking a few bytes at a time",
            W::Threads | W::Grow => "real threads under a generated preemption schedule",
        })
        .fold(vec![], |mut v, x| {
            if !v.contains(&x) {
                v.push(x)
            }
            v
        });
    format!(
        "cases are drawn by proptest from a seed per index: {}. A case is non-trivial when it reached at least one of: {}; distinct by hash of the whole case.",
        worlds.join("; "),
        nontrivial_labels(prop).join(", ")
    )
}

/// Fixed amounts of work: the verdict never depends on the clock.
pub fn cases(prop: &str, tier: &str) -> Option<u64> {
    let quick = match prop {
        "C10" => 60_000,
        "C07" | "C08" => 80_000,
        "C15" => 40_000,
        "C18" => 40_000,
        "C23" => 400_000,
        p if mix(p).is_empty() => return None,
        _ => 120_000,
    };
    Some(if tier == "thorough" { quick * 20 } else { quick })
}
