//! Independent yamux frame codec, written from the specification (not from the code under test).
use serde::{Deserialize, Serialize};

pub const DATA: u8 = 0;
pub const WU: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;
pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;
/// Initial window of every stream (specification).
pub const WINDOW: u64 = 256 * 1024;
/// Largest body this implementation accepts.
pub const MAX_BODY: usize = 1024 * 1024;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fr {
    pub ver: u8,
    pub ty: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
    pub body: Vec<u8>,
}

impl Fr {
    pub fn new(ty: u8, flags: u16, id: u32, len: u32) -> Fr {
        Fr { ver: 0, ty, flags, id, len, body: vec![] }
    }
    pub fn data(flags: u16, id: u32, body: Vec<u8>) -> Fr {
        Fr { ver: 0, ty: DATA, flags, id, len: body.len() as u32, body }
    }
    pub fn has(&self, f: u16) -> bool {
        self.flags & f == f
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(12 + self.body.len());
        v.push(self.ver);
        v.push(self.ty);
        v.extend_from_slice(&self.flags.to_be_bytes());
        v.extend_from_slice(&self.id.to_be_bytes());
        v.extend_from_slice(&self.len.to_be_bytes());
        v.extend_from_slice(&self.body);
        v
    }
    pub fn brief(&self) -> String {
        let t = match self.ty {
            DATA => "DATA",
            WU => "WU",
            PING => "PING",
            GOAWAY => "GOAWAY",
            _ => "?",
        };
        let mut f = String::new();
        for (b, n) in [(SYN, "S"), (ACK, "A"), (FIN, "F"), (RST, "R")] {
            if self.flags & b != 0 {
                f.push_str(n)
            }
        }
        format!("{t}[{f}] id={} len={}", self.id, self.len)
    }
}

/// Incremental parser of a byte stream into frames.
#[derive(Default, Debug)]
pub struct Parser {
    hdr: Vec<u8>,
    cur: Option<Fr>,
    /// Set when the header bytes cannot belong to a frame; parsing stops.
    pub bad: Option<String>,
}

impl Parser {
    /// Feed bytes; completed frames are appended to `out`.
    pub fn feed(&mut self, mut b: &[u8], out: &mut Vec<Fr>) {
        while self.bad.is_none() {
            if let Some(fr) = &mut self.cur {
                let want = fr.len as usize - fr.body.len();
                let k = want.min(b.len());
                fr.body.extend_from_slice(&b[..k]);
                b = &b[k..];
                if fr.body.len() == fr.len as usize {
                    out.push(self.cur.take().unwrap());
                    continue;
                }
                return;
            }
            if b.is_empty() {
                return;
            }
            let k = (12 - self.hdr.len()).min(b.len());
            self.hdr.extend_from_slice(&b[..k]);
            b = &b[k..];
            if self.hdr.len() < 12 {
                return;
            }
            let h = std::mem::take(&mut self.hdr);
            let fr = Fr {
                ver: h[0],
                ty: h[1],
                flags: u16::from_be_bytes([h[2], h[3]]),
                id: u32::from_be_bytes([h[4], h[5], h[6], h[7]]),
                len: u32::from_be_bytes([h[8], h[9], h[10], h[11]]),
                body: vec![],
            };
            if fr.ver != 0 || fr.ty > 3 {
                self.bad = Some(format!("not a frame header: {h:?}"));
                return;
            }
            if fr.ty == DATA && fr.len > 0 {
                if fr.len as usize > 64 << 20 {
                    self.bad = Some(format!("absurd data length {}", fr.len));
                    return;
                }
                self.cur = Some(fr);
            } else {
                out.push(fr);
            }
        }
    }
    /// Bytes of an incomplete frame at the end?
    pub fn partial(&self) -> bool {
        !self.hdr.is_empty() || self.cur.is_some()
    }
}

/// Position-dependent payload pattern; `key` identifies a stream direction.
pub mod pat {
    const N: usize = 65521; // prime period
    const M: usize = 1 << 16;
    fn table() -> &'static [u8] {
        use std::sync::OnceLock;
        static T: OnceLock<Vec<u8>> = OnceLock::new();
        T.get_or_init(|| {
            let mut v = vec![0u8; N + M];
            let mut x: u64 = 0x9E3779B97F4A7C15;
            for b in v.iter_mut().take(N) {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                *b = (x >> 32) as u8;
            }
            for i in 0..M {
                v[N + i] = v[i];
            }
            v
        })
    }
    pub fn key(side: usize, id: u32) -> u64 {
        (id as u64).wrapping_mul(7919).wrapping_add(side as u64 * 31337 + 17)
    }
    pub fn fill(key: u64, off: u64, n: usize) -> Vec<u8> {
        let t = table();
        let mut v = Vec::with_capacity(n);
        let mut o = off;
        while v.len() < n {
            let s = ((key.wrapping_add(o)) % N as u64) as usize;
            let k = (n - v.len()).min(M);
            v.extend_from_slice(&t[s..s + k]);
            o += k as u64;
        }
        v
    }
    /// First mismatching position, if any.
    pub fn check(key: u64, off: u64, b: &[u8]) -> Option<usize> {
        let t = table();
        let mut i = 0;
        while i < b.len() {
            let s = ((key.wrapping_add(off + i as u64)) % N as u64) as usize;
            let k = (b.len() - i).min(M);
            if t[s..s + k] != b[i..i + k] {
                return (0..k).find(|j| t[s + j] != b[i + j]).map(|j| i + j);
            }
            i += k;
        }
        None
    }
}
