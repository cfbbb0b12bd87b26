//! Many changed copies of a case, of which only the outcomes are told.

use crate::json::{ints, o, s, J};
use crate::{cff, charstring};

/// A small generator of numbers.
struct Random(u64);

impl Random {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 11
    }

    fn below(&mut self, bound: usize) -> usize {
        (self.next() % bound.max(1) as u64) as usize
    }
}

const BYTES: [u8; 34] = [
    0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 24, 28, 29, 30, 31, 32, 127, 128, 129, 139, 246,
    247, 250, 251, 254, 255,
];

/// Encodings of extreme numbers, both of charstrings and dictionaries.
const PIECES: [&[u8]; 22] = [
    &[28, 127, 255],
    &[28, 128, 0],
    &[255, 127, 255, 255, 255],
    &[255, 128, 0, 0, 0],
    &[255, 0, 0, 0, 1],
    &[29, 127, 255, 255, 255],
    &[29, 128, 0, 0, 0],
    &[29, 255, 255, 255, 255],
    &[29, 0, 0, 255, 255],
    &[30, 0x9b, 0x99, 0xff],
    &[30, 0x0f],
    &[30, 0xe1, 0xc9, 0x9f],
    &[255, 255],
    &[255, 255, 255, 255],
    &[139, 139, 12, 12],
    &[28, 127, 255, 12, 27, 12, 24, 12, 27, 12, 24, 12, 27, 12, 24],
    &[139, 12, 14, 12, 26],
    &[12, 30],
    &[12, 29],
    &[12, 22],
    &[10],
    &[29],
];

fn change(random: &mut Random, data: &mut Vec<u8>, focus: usize) {
    let length = data.len();
    let at = if random.below(3) > 0 {
        focus + random.below((length.saturating_sub(focus) + 1).min(64))
    } else {
        random.below(length + 1)
    }
    .min(length);
    let byte = if random.below(2) == 0 {
        BYTES[random.below(BYTES.len())]
    } else {
        random.next() as u8
    };
    match random.below(10) {
        0 | 1 if at < length => data[at] = byte,
        2 if at < length => data[at] ^= 1 << random.below(8),
        3 if at < length => {
            data.remove(at);
        }
        4 => data.insert(at, byte),
        5 if random.below(4) == 0 => data.truncate(at),
        6 => {
            let piece = PIECES[random.below(PIECES.len())];
            data.splice(at..at, piece.iter().copied());
        }
        7 if at < length => {
            let piece = PIECES[random.below(PIECES.len())];
            for (i, byte) in piece.iter().enumerate() {
                if at + i < length {
                    data[at + i] = *byte;
                }
            }
        }
        8 if length > 0 => {
            let from = random.below(length);
            let piece = data[from..(from + 1 + random.below(12)).min(length)].to_vec();
            data.splice(at..at, piece);
        }
        _ if at < length => data[at] = data[at].wrapping_add(if random.below(2) == 0 { 1 } else { 255 }),
        _ => data.push(byte),
    }
}

/// The outcomes of the copies: how many of each, and the first that is neither value nor error.
pub fn run(case: &J) -> J {
    let charstring = case.get("code").is_some();
    let count = case.at("count").int();
    let mut random = Random(case.at("seed").int() as u64 * 0x9e37_79b9 + 0x1234_5677);
    for _ in 0..8 {
        random.next();
    }
    let focus = case.get("at").map(|at| at.int()).unwrap_or(0) as usize;
    let (mut good, mut bad) = (0, 0);
    let mut odd = vec![];
    for _ in 0..count {
        let changes = [1, 1, 1, 2, 2, 3, 5, 9][random.below(8)];
        let mut copy = case.clone();
        if charstring {
            let mut sets = ["l", "g"].map(|key| {
                let set = case.at(key);
                let pairs = set.at("s").arr().iter();
                (set.at("n").int(), pairs.map(|pair| (pair.arr()[0].int(), pair.arr()[1].bytes())).collect::<Vec<_>>())
            });
            let mut code = case.at("code").bytes();
            for _ in 0..changes {
                let set = random.below(4);
                if set < 2 && !sets[set].1.is_empty() {
                    let i = random.below(sets[set].1.len());
                    change(&mut random, &mut sets[set].1[i].1, 0);
                } else {
                    change(&mut random, &mut code, 0);
                }
            }
            copy = copy.set("code", ints(&code));
            for (key, (n, set)) in ["l", "g"].iter().zip(sets) {
                let pairs = set.into_iter().map(|(i, code)| J::A(vec![J::I(i), ints(&code)])).collect();
                copy = copy.set(key, o().put("n", J::I(n)).put("s", J::A(pairs)));
            }
        } else {
            let mut data = case.at("b").bytes();
            for _ in 0..changes {
                change(&mut random, &mut data, focus);
            }
            copy = copy.set("b", ints(&data));
            if random.below(8) == 0 {
                let n = [0, 1, 2, 3, 4, 255, 256, 65535][random.below(8)];
                copy = copy.set("n", J::I(n));
            }
        }
        let kinds = if charstring {
            charstring::run(&copy).arr().iter().map(|event| event.at("k").str().to_string()).collect()
        } else {
            vec![cff::part(&copy).at("k").str().to_string()]
        };
        if kinds.iter().any(|kind| !matches!(kind.as_str(), "ok" | "err" | "op" | "end")) {
            if odd.is_empty() {
                odd.push(copy);
            }
        } else if kinds.last().map(|kind| kind == "err").unwrap_or(false) {
            bad += 1;
        } else {
            good += 1;
        }
    }
    o().put("k", s("many")).put("good", J::I(good)).put("bad", J::I(bad)).put("odd", J::A(odd))
}
