//! Generators for W1.
use crate::common::Cfg;
use crate::net::{Fault, FAULTS};
use crate::pair::{Op, PairCase};
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug)]
pub struct Profile {
    /// big transfers, coarse fragmentation
    pub coarse: bool,
    pub w_close_conn: u32,
    pub w_drop_conn: u32,
    pub w_drop: u32,
    pub w_close: u32,
    pub w_stall: u32,
    pub w_advance: u32,
    pub w_flush: u32,
    pub many: u32,
    pub w_burst: u32,
    pub fault: bool,
    pub max_ops: usize,
    pub finales: &'static [u8],
    pub small_window: bool,
    /// close while data is under way in both directions and the transport is full
    pub jam: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            coarse: false,
            w_close_conn: 0,
            w_drop_conn: 0,
            w_drop: 3,
            w_close: 4,
            w_stall: 2,
            w_advance: 2,
            w_flush: 2,
            many: 0,
            w_burst: 0,
            fault: false,
            max_ops: 40,
            finales: &[0, 0, 0, 1, 2],
            small_window: false,
            jam: false,
        }
    }
}

fn sizes(coarse: bool) -> BoxedStrategy<u32> {
    if coarse {
        prop_oneof![
            1 => Just(0u32),
            3 => 1u32..200,
            3 => 200u32..20_000,
            2 => 16_000u32..16_800,
            3 => 120_000u32..140_000,
            3 => 255_000u32..270_000,
            2 => Just(262_144u32),
            2 => 300_000u32..900_000,
        ]
        .boxed()
    } else {
        prop_oneof![1 => Just(0u32), 6 => 1u32..64, 3 => 64u32..600, 1 => 600u32..3000].boxed()
    }
}
fn chunks(coarse: bool) -> BoxedStrategy<u32> {
    if coarse {
        prop_oneof![1 => 400u32..3000, 2 => 3000u32..20_000, 3 => 20_000u32..400_000, 2 => Just(u32::MAX / 4)].boxed()
    } else {
        prop_oneof![2 => 1u32..5, 3 => 5u32..100, 3 => Just(u32::MAX / 4)].boxed()
    }
}
fn bufs(coarse: bool) -> BoxedStrategy<u32> {
    if coarse {
        prop_oneof![1 => 500u32..3000, 2 => 3000u32..20_000, 2 => 20_000u32..300_000].boxed()
    } else {
        prop_oneof![2 => 1u32..5, 3 => 5u32..100, 2 => 100u32..5000].boxed()
    }
}

fn op(p: Profile) -> BoxedStrategy<Op> {
    let s = || 0u8..2;
    let st = || prop_oneof![2 => Just(0u8), 2 => Just(255u8), 3 => any::<u8>()];
    let c = p.coarse;
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (6, (s(), 1u16..3).prop_map(|(s, n)| Op::Open { s, n }).boxed()),
        (14, (s(), st(), sizes(c), chunks(c)).prop_map(|(s, st, n, chunk)| Op::Write { s, st, n, chunk }).boxed()),
        (8, (s(), st(), sizes(c), bufs(c)).prop_map(|(s, st, n, buf)| Op::Read { s, st, n, buf }).boxed()),
        (4, (s(), st(), 1u8..20).prop_map(|(s, st, n)| Op::Packets { s, st, n }).boxed()),
        (5, (s(), st(), bufs(c), any::<bool>()).prop_map(|(s, st, buf, packets)| Op::ReadEof { s, st, buf, packets }).boxed()),
        (8, (1u8..30).prop_map(|k| Op::Run { k }).boxed()),
        (4, Just(Op::Quiesce).boxed()),
    ];
    if p.w_close > 0 {
        v.push((p.w_close, (s(), st()).prop_map(|(s, st)| Op::Close { s, st }).boxed()));
    }
    if p.w_flush > 0 {
        v.push((p.w_flush, (s(), st()).prop_map(|(s, st)| Op::Flush { s, st }).boxed()));
    }
    if p.w_drop > 0 {
        v.push((p.w_drop, (s(), st()).prop_map(|(s, st)| Op::Drop { s, st }).boxed()));
    }
    if p.w_stall > 0 {
        v.push((p.w_stall, (s(), any::<bool>()).prop_map(|(s, on)| Op::StallW { s, on }).boxed()));
        v.push((p.w_stall, (s(), any::<bool>()).prop_map(|(s, on)| Op::StallF { s, on }).boxed()));
        v.push((p.w_stall, (s(), any::<bool>()).prop_map(|(s, on)| Op::Hold { s, on }).boxed()));
    }
    if p.w_advance > 0 {
        v.push((p.w_advance, prop_oneof![1u32..1000, 1000u32..1_000_000, Just(10_000_000u32), Just(9_999_999u32)].prop_map(|us| Op::Advance { us }).boxed()));
    }
    if p.w_close_conn > 0 {
        v.push((p.w_close_conn, (s(), words()).prop_map(|(s, words)| Op::CloseConn { s, words }).boxed()));
    }
    if p.w_drop_conn > 0 {
        v.push((p.w_drop_conn, s().prop_map(|s| Op::DropConn { s }).boxed()));
    }
    if p.many > 0 {
        v.push((p.many, (s(), 200u16..300).prop_map(|(s, n)| Op::Open { s, n }).boxed()));
    }
    if p.w_burst > 0 {
        v.push((p.w_burst, (s(), prop_oneof![3 => Just(1u8), 1 => 2u8..6], prop_oneof![1 => Just(0u8), 3 => 1u8..40], any::<u8>()).prop_map(|(s, step, n, end)| Op::Burst { s, step, n, end }).boxed()));
        v.push((p.w_burst, (s(), 5u16..60).prop_map(|(s, n)| Op::Open { s, n }).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

fn cfg(p: &Profile) -> BoxedStrategy<Cfg> {
    let coarse = p.coarse;
    let win = if p.small_window {
        prop_oneof![2 => Just(Some(0u64)), 3 => (0u64..2_000_000).prop_map(Some), 1 => Just(None)].boxed()
    } else {
        prop_oneof![2 => Just(Some(1u64 << 29)), 2 => (0u64..2_000_000).prop_map(Some), 1 => Just(None)].boxed()
    };
    let split = if coarse {
        prop_oneof![3 => Just(16_384u32), 1 => 1000u32..16_384, 2 => 16_384u32..300_000, 1 => Just(1_048_576u32), 1 => Just(u32::MAX)].boxed()
    } else {
        prop_oneof![3 => Just(16_384u32), 3 => 1u32..20, 2 => 20u32..2000, 1 => Just(u32::MAX)].boxed()
    };
    let ms = if p.many > 0 { Just(2000u32).boxed() } else { prop_oneof![Just(512u32), 200u32..700].boxed() };
    (win, ms, prop::bool::weighted(0.8), split)
        .prop_map(|(extra_window, max_streams, rac, split)| Cfg { extra_window, max_streams, rac, split })
        .boxed()
}

fn sched(coarse: bool) -> BoxedStrategy<Vec<u16>> {
    if coarse {
        prop_oneof![
            3 => Just(vec![]),
            2 => vec(prop_oneof![1 => Just(0u16), 3 => 1000u16..u16::MAX, 1 => Just(u16::MAX)], 1..6),
            1 => vec(prop_oneof![Just(12u16), Just(u16::MAX)], 1..4),
        ]
        .boxed()
    } else {
        prop_oneof![
            2 => Just(vec![]),
            2 => vec(prop_oneof![1 => Just(0u16), 3 => 1u16..14, 1 => 14u16..200, 1 => Just(u16::MAX)], 1..8),
            1 => Just(vec![1u16]),
        ]
        .boxed()
    }
}

fn caps(coarse: bool) -> BoxedStrategy<u32> {
    if coarse {
        prop_oneof![1 => 2_000u32..20_000, 2 => 20_000u32..200_000, 3 => Just(4_000_000u32)].boxed()
    } else {
        prop_oneof![1 => 1u32..12, 2 => 12u32..60, 2 => 60u32..3000, 3 => Just(1_000_000u32)].boxed()
    }
}
fn wbufs(coarse: bool) -> BoxedStrategy<u32> {
    if coarse {
        prop_oneof![3 => Just(0u32), 1 => 8_000u32..70_000, 1 => Just(500_000u32)].boxed()
    } else {
        prop_oneof![3 => Just(0u32), 1 => 1u32..40, 1 => 40u32..4000, 1 => Just(500_000u32)].boxed()
    }
}

fn jam() -> BoxedStrategy<Vec<Op>> {
    let w = || (0u8..2, any::<u8>(), prop_oneof![1 => 1u32..100, 3 => 100u32..3000]).prop_map(|(s, st, n)| Op::Write { s, st, n, chunk: u32::MAX / 4 });
    let stall = (0u8..2, 0u8..6);
    (vec(w(), 2..9), 1u8..30, stall, 0u8..2, 0u8..40, any::<bool>(), 0u8..8)
        .prop_map(|(ws, k, (x, stall), s, gap, both, z)| {
            let on = |on: bool| match stall {
                0 => vec![Op::StallW { s: x, on }],
                1 => vec![Op::StallF { s: x, on }],
                2 => vec![Op::Hold { s: x, on }],
                _ => vec![],
            };
            let mut v = vec![Op::Open { s: 0, n: 1 }, Op::Open { s: 1, n: 1 }, Op::Quiesce];
            let late = z & 1 == 0;
            if !late {
                v.extend(on(true));
            }
            v.extend(ws);
            v.push(Op::Run { k });
            if late {
                v.extend(on(true));
            }
            v.push(Op::CloseConn { s, words: 0 });
            v.push(Op::Run { k: gap });
            if both {
                v.push(Op::CloseConn { s: 1 - s, words: 0 });
            }
            v.push(Op::Run { k: z });
            v.extend(on(false));
            v
        })
        .boxed()
}

fn words() -> impl Strategy<Value = u8> {
    prop_oneof![1 => Just(0u8), 1 => any::<u8>()]
}

pub fn pair(p: Profile) -> BoxedStrategy<PairCase> {
    let c = p.coarse;
    let fault = if p.fault {
        let late = prop::bool::weighted(if p.w_close_conn > 0 { 0.6 } else { 0.0 });
        (0u8..2, late, prop::sample::select(FAULTS.to_vec()), prop_oneof![4 => 0u64..100, 3 => 100u64..1500, 1 => 1500u64..20_000, if c { 2 } else { 0 } => 20_000u64..400_000])
            .prop_map(|(s, closing, kind, at)| Some((s, Fault { kind, at: if closing { at / 4 } else { at }, closing })))
            .boxed()
    } else {
        Just(None).boxed()
    };
    let start = vec((0u8..2, 1u16..4).prop_map(|(s, n)| Op::Open { s, n }), 1..3);
    let fin = p.finales;
    let p2 = p.clone();
    let two = move |f: fn(bool) -> BoxedStrategy<Vec<u16>>| (f(c), f(c)).prop_map(|(a, b)| [a, b]);
    (
        (cfg(&p), cfg(&p)).prop_map(|(a, b)| [a, b]),
        (if p.jam { (1u32..80).boxed() } else { caps(c) }, if p.jam { (1u32..80).boxed() } else { caps(c) }).prop_map(|(a, b)| [a, b]),
        two(sched),
        two(sched),
        (wbufs(c), wbufs(c)).prop_map(|(a, b)| [a, b]),
        (0u8..5, 0u8..5).prop_map(|(a, b)| [a, b]),
        (start, if p.jam { jam() } else { Just(vec![]).boxed() }, vec(op(p2.clone()), 4..p2.max_ops)),
        vec(any::<u8>(), 0..48),
        fault,
        (prop::sample::select(fin.to_vec()), 0u8..64, any::<bool>(), words(), any::<bool>()).prop_map(|(f, r, b, w, fresh)| (f + (r << 2 & 0x7c) + if b { 0x80 } else { 0 }, w, fresh)),
    )
        .prop_map(|(cfg, cap, wsched, rsched, wbuf, group, (start, jam, rest), tape, fault, (finale, words, fresh))| {
            let mut ops = start;
            ops.push(Op::Run { k: 3 });
            ops.extend(jam);
            ops.extend(rest);
            PairCase { cfg, cap, wsched, rsched, wbuf, group, ops, tape, fault, finale, words, fresh }
        })
        .boxed()
}
