//! Generators for W2.
use crate::common::Cfg;
use crate::raw::*;
use proptest::collection::vec;
use proptest::prelude::*;
use crate::wire::{ACK, FIN};
use proptest::strategy::Union;

#[derive(Clone, Debug)]
pub struct RawProfile {
    pub syn: u32,
    pub syn_bad: u32,
    pub data: u32,
    pub data_big: u32,
    pub over: u32,
    pub wu: u32,
    pub wu_extreme: u32,
    pub rst: u32,
    pub ping: u32,
    pub pong: u32,
    pub pong_bad: u32,
    pub goaway: u32,
    pub unknown: u32,
    pub bad: u32,
    pub eof: u32,
    pub close_conn: u32,
    pub adv: u32,
    pub write: u32,
    pub read: u32,
    pub close: u32,
    pub drop: u32,
    pub open: u32,
    pub open_many: u32,
    pub small_limit: bool,
    /// stream limits around 256
    pub limit_256: bool,
    pub pump: u32,
    pub frag: bool,
    /// percentage of cases near the end of the id space
    pub top_ids: u32,
    pub max_acts: usize,
}
impl Default for RawProfile {
    fn default() -> Self {
        RawProfile {
            syn: 8,
            syn_bad: 1,
            data: 12,
            data_big: 3,
            over: 1,
            wu: 4,
            wu_extreme: 1,
            rst: 2,
            ping: 3,
            pong: 4,
            pong_bad: 0,
            goaway: 0,
            unknown: 3,
            bad: 0,
            eof: 0,
            close_conn: 0,
            adv: 4,
            write: 10,
            read: 10,
            close: 4,
            drop: 3,
            open: 5,
            open_many: 0,
            small_limit: false,
            limit_256: false,
            pump: 0,
            frag: true,
            top_ids: 0,
            max_acts: 40,
        }
    }
}

fn st() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 3 => Just(255u8), 2 => any::<u8>()].boxed()
}
fn small() -> BoxedStrategy<u32> {
    prop_oneof![1 => Just(0u32), 6 => 1u32..60, 2 => 60u32..2000].boxed()
}
fn union<T: std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

fn pf(p: &RawProfile) -> BoxedStrategy<Pf> {
    let fin = || prop::bool::weighted(0.15);
    let ack = || prop::bool::weighted(0.6);
    let size = |big: u32| {
        union(vec![
            (10, small().prop_map(Size::N).boxed()),
            (big, prop_oneof![2 => Just(Size::Fill), 1 => prop_oneof![Just(1u32), 1u32..5000].prop_map(Size::FillLess), 2 => (-2i8..3).prop_map(Size::Half), 1 => (1000u32..250_000).prop_map(Size::N)].boxed()),
        ])
    };
    let over = || prop_oneof![2 => Just(0u32), 2 => 1u32..100, 1 => any::<u32>().prop_map(|x| x % 800_000)].prop_map(Size::Over);
    let credit = |ext: u32| {
        union(vec![
            (6, prop_oneof![Just(0u32), 1u32..100, 100u32..300_000].prop_map(Credit::N).boxed()),
            (ext, prop_oneof![2 => (0u32..3).prop_map(Credit::Max), 3 => prop_oneof![Just(0u32), 0u32..1000].prop_map(Credit::Overflow), 1 => (0u32..1_000_000).prop_map(Credit::Max)].boxed()),
        ])
    };
    let good_id = || prop_oneof![6 => Just(IdKind::Next), 2 => (1u8..5).prop_map(IdKind::Skip), 2 => any::<u8>().prop_map(IdKind::Reuse)];
    let bad_id = || {
        prop_oneof![
            2 => (0u8..20).prop_map(IdKind::WrongParity),
            2 => Just(IdKind::Zero),
            2 => st().prop_map(IdKind::InUse),
            2 => st().prop_map(IdKind::OwnInUse),
            1 => (0u8..3).prop_map(IdKind::Top),
        ]
    };
    union(vec![
        (p.syn, (any::<bool>(), good_id(), size(p.data_big / 2 + 1), credit(0), fin()).prop_map(|(wu, id, size, credit, fin)| Pf::Syn { wu, id, size, credit, fin }).boxed()),
        (p.syn_bad, (any::<bool>(), bad_id(), size(0), credit(0), fin()).prop_map(|(wu, id, size, credit, fin)| Pf::Syn { wu, id, size, credit, fin }).boxed()),
        (p.over, (good_id(), over(), fin()).prop_map(|(id, size, fin)| Pf::Syn { wu: false, id, size, credit: Credit::N(0), fin }).boxed()),
        (p.wu_extreme, (good_id(), credit(12), fin()).prop_map(|(id, credit, fin)| Pf::Syn { wu: true, id, size: Size::N(0), credit, fin }).boxed()),
        (p.data, (st(), size(p.data_big), fin(), ack()).prop_map(|(st, size, fin, ack)| Pf::Data { st, size, fin, ack }).boxed()),
        (p.over, (st(), over(), fin(), ack()).prop_map(|(st, size, fin, ack)| Pf::Data { st, size, fin, ack }).boxed()),
        (p.wu, (st(), credit(p.wu_extreme), fin(), ack()).prop_map(|(st, credit, fin, ack)| Pf::Wu { st, credit, fin, ack }).boxed()),
        (p.rst, (st(), any::<bool>(), prop_oneof![3 => Just(0u32), 2 => 1u32..300_000, 1 => any::<u32>()], prop_oneof![4 => Just(0u16), 1 => Just(FIN), 1 => Just(ACK), 1 => Just(FIN | ACK)]).prop_map(|(st, wu, len, flags)| Pf::Rst { st, wu, len, flags }).boxed()),
        (p.ping, (prop_oneof![any::<u32>(), Just(0u32), Just(u32::MAX)], any::<bool>(), any::<u8>()).prop_map(|(v, syn, sid)| Pf::Ping { v, syn, sid }).boxed()),
        (p.pong, Just(Pf::Pong { kind: 0, d: 0 }).boxed()),
        (p.pong_bad, (2u8..4, any::<u32>().prop_map(|x| x >> 1)).prop_map(|(kind, d)| Pf::Pong { kind, d }).boxed()),
        (p.goaway, prop_oneof![0u32..4, any::<u32>()].prop_map(|code| Pf::GoAway { code }).boxed()),
        (p.unknown, (any::<u8>(), any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(ty, which, len, flags)| Pf::Unknown { ty, which, len, flags }).boxed()),
        (p.bad, (any::<u8>(), any::<u8>(), any::<u32>()).prop_map(|(kind, v, len)| Pf::Bad { kind, v, len }).boxed()),
    ])
}

fn act(p: &RawProfile) -> BoxedStrategy<Act> {
    let big = p.data_big;
    let wsize = || union(vec![(6, small()), (big / 2 + 1, prop_oneof![Just(262_144u32), Just(262_145u32), 10_000u32..400_000, prop_oneof![Just(2_000_000u32), 2_000_000u32..6_000_000]].boxed())]);
    let buf = || prop_oneof![3 => 1u32..50, 3 => 50u32..5000, 2 => 5000u32..300_000, 1 => Just(131_072u32)];
    let cut = || prop_oneof![4 => Just(0u8), 1 => any::<u8>()];
    union(vec![
        (30, (vec(pf(p), 1..5), cut()).prop_map(|(fr, cut)| Act::Peer { fr, cut }).boxed()),
        (p.write, (st(), wsize()).prop_map(|(st, n)| Act::Write { st, n }).boxed()),
        (p.write / 2, (st(), wsize()).prop_map(|(st, n)| Act::WriteAll { st, n }).boxed()),
        (p.read, (st(), buf()).prop_map(|(st, buf)| Act::Read { st, buf }).boxed()),
        (p.read / 2, (st(), prop_oneof![3000u32..200_000, Just(65_536u32)]).prop_map(|(st, buf)| Act::ReadAll { st, buf }).boxed()),
        (p.read / 3, (st(), 1u8..6).prop_map(|(st, n)| Act::Packet { st, n }).boxed()),
        (p.close, st().prop_map(|st| Act::Close { st }).boxed()),
        (p.close / 4, st().prop_map(|st| Act::Flush { st }).boxed()),
        (p.drop, st().prop_map(|st| Act::Drop { st }).boxed()),
        (p.pump, (st(), 1u8..6, prop_oneof![4 => 0u8..60, 2 => 95u8..105, 2 => 195u8..205, 2 => 105u8..195, 1 => any::<u8>()], any::<bool>()).prop_map(|(st, rounds, rel, half)| Act::Pump { st, rounds, rel, half }).boxed()),
        (p.adv, prop_oneof![3 => 0u32..5000, 2 => 5000u32..2_000_000, 1 => Just(9_999_999u32), 2 => Just(10_000_000u32), 1 => any::<u32>().prop_map(|x| x % 60_000_000)].prop_map(|us| Act::Adv { us }).boxed()),
        (p.open, (1u16..4).prop_map(|n| Act::Open { n }).boxed()),
        (p.open_many, prop_oneof![Just(255u16), 250u16..260].prop_map(|n| Act::Open { n }).boxed()),
        (p.close_conn, Just(Act::CloseConn).boxed()),
        (p.eof, prop_oneof![1 => Just(0u8), 1 => 0u8..30].prop_map(|less| Act::Eof { less }).boxed()),
    ])
}

/// Connection limits that do not fit into 32 bits, or only just.
fn beyond() -> BoxedStrategy<Option<u64>> {
    prop_oneof![2 => (0u64..1_500_000).prop_map(|x| Some((1 << 32) + x)), 2 => (0u64..1_500_000).prop_map(|x| Some((1 << 32) - x)), 1 => (1u64 << 33..1 << 40).prop_map(Some), 1 => Just(Some(u64::MAX))].boxed()
}

fn cfg(p: &RawProfile) -> BoxedStrategy<Cfg> {
    let ms = if p.limit_256 { (250u32..262).boxed() } else if p.small_limit { prop_oneof![3 => 1u32..6, 1 => 6u32..12, 1 => Just(0u32)].boxed() } else { prop_oneof![2 => Just(512u32), 1 => 300u32..1000].boxed() };
    let win = prop_oneof![2 => Just(Some(0u64)), 6 => (0u64..1_500_000).prop_map(Some), 4 => Just(Some(1u64 << 29)), 2 => Just(None), 1 => beyond()];
    let split = prop_oneof![3 => Just(16_384u32), 2 => 1u32..50, 2 => 50u32..5000, 1 => 100_000u32..2_000_000, 1 => Just(u32::MAX)];
    (win, ms, prop::bool::weighted(0.7), split).prop_map(|(extra_window, max_streams, rac, split)| Cfg { extra_window, max_streams, rac, split: split.max(1) }).boxed()
}

fn sched(frag: bool) -> BoxedStrategy<Vec<u16>> {
    if frag {
        prop_oneof![
            4 => Just(vec![]),
            2 => vec(prop_oneof![1 => Just(0u16), 3 => 1u16..40, 2 => 1000u16..u16::MAX, 2 => Just(u16::MAX)], 1..8),
            1 => Just(vec![12u16, u16::MAX]),
        ]
        .boxed()
    } else {
        Just(vec![]).boxed()
    }
}

pub fn raw(p: RawProfile) -> BoxedStrategy<RawCase> {
    let a = act(&p);
    let ids = prop_oneof![100 - p.top_ids => Just(None), p.top_ids => (0u8..6).prop_map(Some)];
    // a measured round-trip time to start with
    let rtt = prop_oneof![if p.pump > 0 { 4 } else { 1 } => (1u32..5_000_000).prop_map(Some), if p.pump > 0 { 1 } else { 8 } => Just(None)];
    // credit returned before there was a measurement
    let early = prop_oneof![if p.pump > 0 { 2 } else { 20 } => Just(None), 1 => (1u32..5_000_000, 1u8..3, any::<bool>()).prop_map(Some)];
    (any::<bool>(), cfg(&p), sched(p.frag), sched(p.frag), vec(a, 3..p.max_acts), ids, (any::<bool>(), rtt, early, 0u8..4))
        .prop_map(|(client, cfg, wsched, rsched, mut acts, ids_left, (fresh, rtt, early, via))| {
            if let (Some(us), Some((us2, rounds, half))) = (rtt, early) {
                let syn = Pf::Syn { wu: true, id: IdKind::Next, size: Size::N(0), credit: Credit::N(0), fin: false };
                acts.splice(
                    0..0,
                    [
                        Act::Adv { us },
                        Act::Peer { fr: vec![syn], cut: 0 },
                        Act::Pump { st: 0, rounds, rel: 0, half },
                        Act::Adv { us: us2 },
                        Act::Peer { fr: vec![Pf::Pong { kind: 0, d: 0 }], cut: 0 },
                    ],
                );
            } else if let Some(us) = rtt {
                acts.splice(0..0, [Act::Adv { us }, Act::Peer { fr: vec![Pf::Pong { kind: 0, d: 0 }], cut: 0 }]);
            }
            RawCase { client, cfg, wsched, rsched, acts, ids_left, fresh, via }
        })
        .boxed()
}

/// Windows that grow to the largest there can be.
pub fn top() -> BoxedStrategy<RawCase> {
    let win = prop_oneof![1 => Just(None), 1 => Just(Some(u32::MAX as u64)), 2 => (3_000_000_000..u32::MAX as u64).prop_map(Some), 1 => (1u64..2_000_000_000).prop_map(Some), 1 => beyond()];
    let cfg = (win, 2u32..6).prop_map(|(extra_window, max_streams)| Cfg { extra_window, max_streams, rac: true, split: 16_384 });
    (any::<bool>(), cfg, 1u32..2_000_000, 0u8..200)
        .prop_map(|(client, cfg, us, rel)| {
            let syn = || Pf::Syn { wu: true, id: IdKind::Next, size: Size::N(0), credit: Credit::N(0), fin: false };
            let acts = vec![
                Act::Adv { us },
                Act::Peer { fr: vec![Pf::Pong { kind: 0, d: 0 }, syn(), syn()], cut: 0 },
                Act::PumpTop { st: 0, rel },
                Act::Pump { st: 255, rounds: 5, rel, half: true },
                Act::Drop { st: 0 },
                Act::Pump { st: 255, rounds: 4, rel, half: true },
            ];
            RawCase { client, cfg, wsched: vec![], rsched: vec![], acts, ids_left: None, fresh: false, via: 0 }
        })
        .boxed()
}
