//! What storage does to files: regions torn, zeroed, flipped, overwritten,
//! duplicated, lost, or left from before.

use serde::{Deserialize, Serialize};

use crate::rng::Rng;
use crate::rt::Ctx;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dmg {
    /// The rest was not written.
    Cut(u16),
    Zero(u16, u8),
    Flip(u16, u8),
    Byte(u16, u8),
    /// Overwritten by something which means something.
    Over(u16, u8),
    Insert(u16, u8),
    Dup(u16, u8, u16),
    Drop(u16, u8),
    /// Sectors from another file.
    Stale(u16, u16, u8),
    /// The start was not written.
    Tail(u16),
    /// The same write done over and over.
    Repeat(u16, u8, u16),
    /// The same opening over and over, closed again or not.
    Nest(u16, u8, u16, bool),
}

const OPENINGS: &[(&[u8], &[u8])] = &[
    (b"[", b"]"),
    (b"{a: ", b"}"),
    (b"- ", b""),
    (b"[{a: ", b"}]"),
    (b"- [", b"]"),
    (b"[ # x\n", b" ]"),
    (b"-\n", b""),
    (b"a: [", b"],"),
    (b"- a: ", b""),
    (b"[1, ", b", 2]"),
];

pub const TOKENS: &[&[u8]] = &[
    b"[", b"]", b"{", b"}", b",", b":", b": ", b"- ", b"-", b"\n", b"\n\n", b"\r\n", b" ", b"  ", b"\t", b"#", b" #", b"'", b"\"",
    b"\\", b"\\x", b"\\u", b"\\uD800", b"\\u12", b"|", b">", b"|-", b">+", b"|+\n", b"|\n", b">\n  x\n y", b"%", b"---", b"---\n",
    b"...", b"&", b"*", b"!", b"?", b"? ", b"~", b"null", b"true", b"1", b"-1", b"1e", b"1.", b".", b"e", b"\0", b"\xff", b"\xc3",
    b"\xef\xbb\xbf", b"\xe2\x80", b"\x0b", b"\x0c", b"\x85", b"''", b"\"\"", b"a: ", b"a:\n", b"- -", b"- - x", b"{a: ", b"[a, ", b"\n- ",
    b"\n  - ", b"\nkey: ", b"<<: *x", b"-\n", b"999999999999999999999999999999999999999999999", b"- |\n", b"'a", b"a'", b"\\", b"\"\\",
];

fn span(at: u16, n: u8, len: usize) -> (usize, usize) {
    if len == 0 {
        return (0, 0);
    }
    let a = at as usize % len;
    (a, (a + 1 + n as usize % 64).min(len))
}

impl Dmg {
    pub fn name(&self) -> &'static str {
        match self {
            Dmg::Cut(_) => "truncated",
            Dmg::Zero(..) => "zeroed",
            Dmg::Flip(..) => "bit flipped",
            Dmg::Byte(..) | Dmg::Over(..) => "overwritten",
            Dmg::Insert(..) => "inserted",
            Dmg::Dup(..) => "duplicated",
            Dmg::Drop(..) => "dropped",
            Dmg::Stale(..) => "stale",
            Dmg::Tail(_) => "start lost",
            Dmg::Repeat(..) => "repeated",
            Dmg::Nest(..) => "nested",
        }
    }

    pub fn apply(&self, b: &mut Vec<u8>, other: &[u8]) {
        let len = b.len();
        match *self {
            Dmg::Cut(n) => b.truncate(n as usize % (len + 1)),
            Dmg::Tail(n) => {
                b.drain(..n as usize % (len + 1));
            }
            Dmg::Zero(at, n) => {
                let (x, y) = span(at, n, len);
                b[x..y].fill(0);
            }
            Dmg::Flip(at, bit) => {
                if len > 0 {
                    b[at as usize % len] ^= 1 << (bit % 8);
                }
            }
            Dmg::Byte(at, v) => {
                if len > 0 {
                    b[at as usize % len] = v;
                }
            }
            Dmg::Over(at, t) => {
                let t = TOKENS[t as usize % TOKENS.len()];
                let at = at as usize % (len + 1);
                let end = (at + t.len()).min(len);
                b.splice(at..end, t.iter().copied());
            }
            Dmg::Insert(at, t) => {
                let t = TOKENS[t as usize % TOKENS.len()];
                let at = at as usize % (len + 1);
                b.splice(at..at, t.iter().copied());
            }
            Dmg::Dup(at, n, to) => {
                let (x, y) = span(at, n, len);
                let part = b[x..y].to_vec();
                let to = to as usize % (len + 1);
                b.splice(to..to, part);
            }
            Dmg::Repeat(at, n, times) => {
                let (x, y) = span(at, n, len);
                let part = &b[x..y];
                let times = (times as usize % 4096).min((1 << 15) / part.len().max(1));
                let part = part.repeat(times);
                b.splice(y..y, part);
            }
            Dmg::Nest(at, t, times, close) => {
                let (open, end) = OPENINGS[t as usize % OPENINGS.len()];
                let times = (times as usize).min((1 << 15) / open.len());
                let at = at as usize % (len + 1);
                let mut part = open.repeat(times);
                if close {
                    part.extend(end.repeat(times));
                }
                b.splice(at..at, part);
            }
            Dmg::Drop(at, n) => {
                let (x, y) = span(at, n, len);
                b.drain(x..y);
            }
            Dmg::Stale(at, from, n) => {
                let (x, y) = span(from, n, other.len());
                let part = other[x..y].to_vec();
                let at = at as usize % (len + 1);
                let end = (at + part.len()).min(len);
                b.splice(at..end, part);
            }
        }
    }
}

pub fn gen_one(rng: &mut Rng) -> Dmg {
    let at = rng.u64() as u16;
    let n = rng.size(6, 63) as u8;
    match rng.below(20) {
        0 | 1 => Dmg::Cut(at),
        2 => Dmg::Zero(at, n),
        3 | 4 => Dmg::Flip(at, rng.below(8) as u8),
        5 => Dmg::Byte(at, rng.u64() as u8),
        6..=8 => Dmg::Over(at, rng.u64() as u8),
        9..=12 => Dmg::Insert(at, rng.u64() as u8),
        13 | 14 => Dmg::Dup(at, n, rng.u64() as u16),
        15 | 16 => Dmg::Drop(at, n),
        17 | 18 => Dmg::Stale(at, rng.u64() as u16, n),
        _ => Dmg::Tail(at),
    }
}

/// Damage, some of which makes files large.
pub fn gen_large(rng: &mut Rng) -> Vec<Dmg> {
    let mut all = gen(rng);
    let n = rng.size(6, 63) as u8;
    let times = 1u16 << rng.range(3, 12);
    if rng.chance(1, 4) {
        let near = if rng.chance(1, 4) { 8 } else { rng.range(1, 15) };
        let times = (1u16 << near) - 1 + rng.below(3) as u16;
        let kind = rng.u64() as u8;
        if rng.chance(1, 2) {
            all.push(Dmg::Nest(0, kind, times, rng.chance(2, 3)));
            if rng.chance(1, 2) {
                // What follows is lost, maybe with some of what was opened.
                let len = OPENINGS[kind as usize % OPENINGS.len()].0.len() * times as usize;
                all.push(Dmg::Cut(len.saturating_sub(rng.size(2, 6)).min(1 << 15) as u16));
            }
        } else {
            all.push(Dmg::Nest(rng.u64() as u16, kind, times, rng.chance(2, 3)));
        }
    } else {
        all.push(Dmg::Repeat(rng.u64() as u16, n, times.saturating_add(rng.below(8) as u16)));
    }
    if rng.chance(1, 2) {
        all.push(gen_one(rng));
    }
    all
}

pub fn gen(rng: &mut Rng) -> Vec<Dmg> {
    let n = match rng.below(8) {
        0..=3 => 1,
        4 | 5 => 2,
        6 => 3,
        _ => rng.range(4, 12),
    };
    (0..n).map(|_| gen_one(rng)).collect()
}

pub fn apply(b: &mut Vec<u8>, damage: &[Dmg], other: &[u8], ctx: &mut Ctx) {
    for d in damage {
        ctx.fault(d.name());
        d.apply(b, other);
        b.truncate(1 << 16);
    }
}
