//! Generators of charstrings and their subroutines.

use std::collections::HashMap;

use crate::rng::Rng;
use crate::t2::bias;

pub type Token = Vec<u8>;

/// A number in a form of 1, 2, 3 or 5 bytes; zero stands for the shortest.
pub fn number(value: i32, form: u8) -> Option<Token> {
    Some(match form {
        0 => return [1, 2, 3].iter().find_map(|&f| number(value, f)),
        1 if (-107..=107).contains(&value) => vec![(value + 139) as u8],
        2 if (108..=1131).contains(&value) => {
            let v = value - 108;
            vec![247 + (v >> 8) as u8, v as u8]
        }
        2 if (-1131..=-108).contains(&value) => {
            let v = -value - 108;
            vec![251 + (v >> 8) as u8, v as u8]
        }
        3 if (-32768..=32767).contains(&value) => vec![28, (value >> 8) as u8, value as u8],
        5 if (-32768..=32767).contains(&value) => fixed((value as u32) << 16),
        _ => return None,
    })
}

/// A 16.16 number.
pub fn fixed(bits: u32) -> Token {
    let b = bits.to_be_bytes();
    vec![255, b[0], b[1], b[2], b[3]]
}

pub fn int(value: i32) -> Token {
    number(value, 0).unwrap()
}

pub fn int_any(rng: &mut Rng, value: i32) -> Token {
    let form = *rng.pick(&[0u8, 0, 0, 3, 5]);
    number(value, form).unwrap()
}

/// A random operand.
pub fn operand(rng: &mut Rng) -> Token {
    match rng.below(10) {
        0..=3 => {
            let v = rng.range(-107, 107) as i32;
            int_any(rng, v)
        }
        4 | 5 => {
            let v = rng.range(-1200, 1200) as i32;
            int_any(rng, v)
        }
        6 => {
            let edges = [
                0, 1, -1, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 32767, -32768, 363, 364,
                -363, -364, 255, 256, -255, -256,
            ];
            let v = *rng.pick(&edges);
            int_any(rng, v)
        }
        7 => {
            let v = rng.range(-32768, 32767) as i32;
            int_any(rng, v)
        }
        8 => fixed((rng.range(-500 * 65536, 500 * 65536)) as u32),
        _ => {
            let bits = match rng.below(4) {
                0 => rng.u64() as u32,
                1 => 1 << rng.below(32),
                2 => ((rng.u64() as u16 as u32) << 16) | 0x8000,
                _ => rng.range(-65536, 65536) as u32,
            };
            fixed(bits)
        }
    }
}

pub fn operator(code: u16) -> Token {
    if code > 0xff {
        vec![(code >> 8) as u8, code as u8]
    } else {
        vec![code as u8]
    }
}

const ABS: u16 = 0x0c09;
const ADD: u16 = 0x0c0a;
const SUB: u16 = 0x0c0b;
const DIV: u16 = 0x0c0c;
const NEG: u16 = 0x0c0e;
const EQ: u16 = 0x0c0f;
const DROP: u16 = 0x0c12;
const IFELSE: u16 = 0x0c16;
const MUL: u16 = 0x0c18;
const SQRT: u16 = 0x0c1a;
const DUP: u16 = 0x0c1b;
const EXCH: u16 = 0x0c1c;
const INDEX: u16 = 0x0c1d;
const ROLL: u16 = 0x0c1e;
const AND: u16 = 0x0c03;
const OR: u16 = 0x0c04;
const NOT: u16 = 0x0c05;

/// Tokens that leave exactly one more value on the stack.
pub fn expression(rng: &mut Rng, depth: u64, out: &mut Vec<Token>) {
    if depth == 0 || rng.percent(35) {
        out.push(operand(rng));
        return;
    }
    let depth = depth - 1;
    match rng.below(15) {
        0 => {
            expression(rng, depth, out);
            out.push(operator(*rng.pick(&[ABS, NEG, NOT])));
        }
        1..=3 => {
            expression(rng, depth, out);
            expression(rng, depth, out);
            out.push(operator(*rng.pick(&[ADD, SUB, MUL, AND, OR, EQ])));
        }
        4 => {
            expression(rng, depth, out);
            let v = *rng.pick(&[1, 2, 3, 4, 7, 10, -1, -5, 100, 1000, 0x7fff]);
            out.push(int_any(rng, v));
            out.push(operator(DIV));
        }
        5 => {
            expression(rng, depth, out);
            out.push(operator(ABS));
            out.push(operator(SQRT));
        }
        6 => {
            expression(rng, depth, out);
            expression(rng, depth, out);
            if rng.percent(50) {
                out.push(operator(EXCH));
            }
            out.push(operator(DROP));
        }
        7 => {
            expression(rng, depth, out);
            out.push(operator(DUP));
            out.push(operator(*rng.pick(&[DROP, ADD, MUL, SUB, EQ, AND])));
        }
        8 | 9 => {
            for _ in 0..4 {
                expression(rng, depth.min(1), out);
            }
            out.push(operator(IFELSE));
        }
        10 | 11 => {
            let n = rng.size(1, 5);
            for _ in 0..n {
                expression(rng, depth.min(1), out);
            }
            let i = rng.range(-2, n as i64 - 1) as i32;
            out.push(int_any(rng, i));
            out.push(operator(INDEX));
            for _ in 0..n {
                out.push(operator(*rng.pick(&[ADD, SUB, ADD])));
            }
        }
        12 | 13 => {
            let n = rng.size(1, 6);
            for _ in 0..n {
                expression(rng, depth.min(1), out);
            }
            let span = rng.range(0, n as i64) as i32;
            let shift = rng.range(-8, 8) as i32;
            out.push(int_any(rng, span));
            out.push(int_any(rng, shift));
            out.push(operator(ROLL));
            for _ in 1..n {
                out.push(operator(*rng.pick(&[SUB, ADD, SUB, DROP])));
            }
        }
        _ => {
            expression(rng, depth, out);
            expression(rng, depth, out);
            out.push(operator(EQ));
        }
    }
}

/// Like `expression`, but now and then permuting some of what is below.
fn operands(rng: &mut Rng, count: usize, arithmetic: u64, out: &mut Vec<Token>) {
    for done in 0..count {
        if rng.below(100) < arithmetic && count < 40 {
            expression(rng, 2, out);
        } else {
            out.push(operand(rng));
        }
        if done > 0 && rng.below(400) < arithmetic {
            let span = rng.range(0, done as i64 + 1) as i32;
            let shift = rng.range(-60, 60) as i32;
            out.push(int_any(rng, span));
            out.push(int_any(rng, shift));
            out.push(operator(ROLL));
        }
    }
}

#[derive(Clone, Debug)]
pub struct Style {
    /// Chance in percent that an operand is an expression.
    pub arithmetic: u64,
    /// Chance in percent of hints.
    pub hints: u64,
    pub most_paths: usize,
    pub repeat: u64,
    pub width: u64,
    pub big: u64,
}

impl Style {
    pub fn plain() -> Self {
        Style {
            arithmetic: 0,
            hints: 60,
            most_paths: 8,
            repeat: 20,
            width: 50,
            big: 25,
        }
    }

    pub fn full() -> Self {
        Style {
            arithmetic: 12,
            ..Style::plain()
        }
    }
}

fn mask(rng: &mut Rng, code: u16, stems: usize) -> Token {
    let mut token = operator(code);
    for _ in 0..(stems + 7) / 8 {
        token.push(if rng.percent(50) {
            *rng.pick(&[0x0e, 0x0b, 0x0a, 0x1c, 0xff, 0x1d, 0x0c, 0x13, 0x00, 0x15, 0x20, 0xf7])
        } else {
            rng.u8()
        });
    }
    token
}

/// The number of operands of a path operator.
fn arity(rng: &mut Rng, code: u16, big: bool) -> usize {
    let k = |rng: &mut Rng, low: usize, high: usize| -> usize {
        if big {
            rng.size(low, high)
        } else {
            rng.size(low, high.min(low + 3))
        }
    };
    match code {
        5 => 2 * k(rng, 1, 24),
        6 | 7 => k(rng, 1, 48),
        8 => 6 * k(rng, 1, 8),
        24 => 6 * k(rng, 1, 7) + 2,
        25 => 2 * k(rng, 1, 21) + 6,
        26 | 27 | 30 | 31 => {
            let n = k(rng, 1, 11);
            4 * n + rng.usize(2)
        }
        0x0c22 => 7,
        0x0c23 => 13,
        0x0c24 => 9,
        _ => 11,
    }
}

pub const PATHS: &[u16] = &[
    5, 6, 7, 8, 24, 25, 26, 27, 30, 31, 0x0c22, 0x0c23, 0x0c24, 0x0c25,
];

/// The tokens of a well-formed glyph, its end operator included. Operations
/// are delimited by the positions where the stack is empty.
pub struct Glyph {
    pub tokens: Vec<Token>,
    pub empty: Vec<usize>,
}

pub fn glyph(rng: &mut Rng, style: &Style) -> Glyph {
    let mut tokens: Vec<Token> = vec![];
    let mut empty = vec![0];
    let mut width = rng.below(100) < style.width;
    let mut take_width = |rng: &mut Rng, tokens: &mut Vec<Token>| {
        if width {
            operands(rng, 1, style.arithmetic, tokens);
            width = false;
        }
    };
    let mut stems = 0;
    let pairs = |rng: &mut Rng, stems: usize| -> usize {
        let most = (94 - stems.min(93)).min(22);
        if rng.percent(style.big) {
            rng.size(1, most)
        } else {
            rng.size(1, 4.min(most))
        }
    };
    if rng.below(100) < style.hints {
        let masks = rng.percent(65);
        let (h, v) = if masks { (18, 23) } else { (1, 3) };
        let (nh, nv) = match rng.below(8) {
            0 => (0, 1),
            1 => (1, 0),
            2 => (rng.size(0, 3), rng.size(0, 3)),
            _ => (1, rng.usize(2)),
        };
        for _ in 0..nh {
            take_width(rng, &mut tokens);
            let n = pairs(rng, stems);
            operands(rng, 2 * n, style.arithmetic, &mut tokens);
            tokens.push(operator(h));
            empty.push(tokens.len());
            stems += n;
        }
        for _ in 0..nv {
            take_width(rng, &mut tokens);
            let n = pairs(rng, stems);
            operands(rng, 2 * n, style.arithmetic, &mut tokens);
            tokens.push(operator(v));
            empty.push(tokens.len());
            stems += n;
        }
        if masks {
            // Vertical hints may be left to the first mask.
            if nv == 0 && (stems == 0 || rng.percent(60)) {
                take_width(rng, &mut tokens);
                let n = pairs(rng, stems);
                operands(rng, 2 * n, style.arithmetic, &mut tokens);
                stems += n;
            } else if stems > 0 && rng.percent(30) {
                take_width(rng, &mut tokens);
            }
            let n = rng.size(1, 3);
            for i in 0..n {
                let code = if i + 1 < n { 20 } else { *rng.pick(&[19, 19, 19, 20]) };
                tokens.push(mask(rng, code, stems));
                empty.push(tokens.len());
            }
        } else {
            // Without masks a mask may not follow.
            stems = 0;
        }
    }
    let subpaths = match rng.below(6) {
        0 => 0,
        1 | 2 => 1,
        _ => rng.size(1, 4),
    };
    for _ in 0..subpaths {
        take_width(rng, &mut tokens);
        let code = *rng.pick(&[21u16, 22, 4]);
        operands(
            rng,
            if code == 21 { 2 } else { 1 },
            style.arithmetic,
            &mut tokens,
        );
        tokens.push(operator(code));
        empty.push(tokens.len());
        let n = rng.size(0, style.most_paths);
        for _ in 0..n {
            if stems > 0 && rng.percent(15) {
                tokens.push(mask(rng, 19, stems));
                empty.push(tokens.len());
            }
            if rng.below(100) < style.repeat && empty.len() > 3 {
                // Again what was drawn just before.
                let (start, end) = (empty[empty.len() - 2], empty[empty.len() - 1]);
                let again: Vec<Token> = tokens[start..end].to_vec();
                let last = again.last().unwrap()[0];
                if matches!(last, 5..=8 | 24..=27 | 30 | 31) {
                    tokens.extend(again);
                    empty.push(tokens.len());
                    continue;
                }
            }
            let code = *rng.pick(PATHS);
            let big = rng.percent(style.big);
            let n = arity(rng, code, big);
            operands(rng, n, style.arithmetic, &mut tokens);
            tokens.push(operator(code));
            empty.push(tokens.len());
        }
    }
    take_width(rng, &mut tokens);
    if rng.percent(8) {
        operands(rng, 4, 0, &mut tokens);
    }
    tokens.push(operator(14));
    Glyph { tokens, empty }
}

// --------------------------------------------------------------- subroutines

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Item {
    Raw(Token),
    Call(bool, usize),
}

#[derive(Clone, Debug, Default)]
pub struct Code {
    pub main: Vec<u8>,
    pub global: Vec<Vec<u8>>,
    pub local: Vec<Vec<u8>>,
}

#[derive(Default)]
struct Bodies {
    lists: [Vec<Vec<Item>>; 2],
    known: HashMap<(bool, Vec<Item>), usize>,
}

impl Bodies {
    fn put(&mut self, global: bool, body: Vec<Item>) -> usize {
        if let Some(&i) = self.known.get(&(global, body.clone())) {
            return i;
        }
        let list = &mut self.lists[global as usize];
        list.push(body.clone());
        let i = list.len() - 1;
        self.known.insert((global, body), i);
        i
    }
}

/// Move parts into subroutines. `tail` says that the end of the items is the
/// end of the glyph.
fn carve(rng: &mut Rng, items: Vec<Item>, depth: usize, tail: bool, bodies: &mut Bodies) -> Vec<Item> {
    if depth == 0 || items.is_empty() {
        return items;
    }
    let pieces = if depth > 4 { 1 } else { rng.size(1, 3) };
    let mut cuts: Vec<usize> = (0..2 * pieces).map(|_| rng.usize(items.len() + 1)).collect();
    if rng.percent(40) {
        cuts[0] = items.len();
    }
    if rng.percent(25) {
        cuts[1] = 0;
    }
    cuts.sort();
    let mut out = vec![];
    let mut at = 0;
    for pair in cuts.chunks(2) {
        let (start, end) = (pair[0], pair[1]);
        out.extend_from_slice(&items[at..start]);
        at = end;
        if start == end && rng.percent(80) {
            continue;
        }
        let ends = tail && end == items.len();
        let mut body = carve(
            rng,
            items[start..end].to_vec(),
            depth - 1,
            ends,
            bodies,
        );
        if !ends {
            body.push(Item::Raw(vec![11]));
            if rng.percent(10) {
                // Nothing after the return operator counts.
                let n = rng.size(1, 3);
                body.push(Item::Raw(rng.bytes(n)));
            }
        }
        let global = rng.percent(50);
        let i = bodies.put(global, body);
        out.push(Item::Call(global, i));
    }
    out.extend_from_slice(&items[at..]);
    out
}

pub const SIZES: &[usize] = &[
    1, 2, 3, 10, 106, 107, 108, 214, 215, 216, 217, 1238, 1239, 1240, 1241, 2262, 2263, 2264,
];
pub const BIG_SIZES: &[usize] = &[33898, 33899, 33900, 33901, 34999, 65535];

/// The number of subroutines in a collection that has to hold so many.
fn size(rng: &mut Rng, least: usize, big: bool) -> usize {
    let n = if big {
        *rng.pick(BIG_SIZES)
    } else if rng.percent(60) {
        least + rng.usize(6)
    } else {
        *rng.pick(SIZES)
    };
    n.max(least)
}

/// Positions of subroutines, with those at the ends more likely.
fn places(rng: &mut Rng, count: usize, size: usize) -> Vec<usize> {
    let mut taken = std::collections::HashSet::new();
    let mut out = vec![];
    while out.len() < count {
        let i = match rng.below(6) {
            0 => 0,
            1 => size - 1,
            2 => rng.usize(size.min(3)),
            3 => size - 1 - rng.usize(size.min(3)),
            4 => {
                let near = bias(size) as usize;
                (near + rng.usize(3)).saturating_sub(1).min(size - 1)
            }
            _ => rng.usize(size),
        };
        if taken.insert(i) {
            out.push(i);
        }
    }
    out
}

pub fn poison(rng: &mut Rng, i: usize) -> Vec<u8> {
    match rng.below(4) {
        0 => vec![],
        1 => vec![14],
        2 => {
            let mut b = int((i % 1000) as i32);
            b.extend(int(77));
            b.extend([21, 11]);
            b
        }
        _ => vec![0],
    }
}

/// The number that calls the subroutine at a position.
pub fn address(rng: &mut Rng, position: usize, size: usize, fancy: bool) -> Vec<u8> {
    let value = (position as i64 - bias(size)) as i32;
    if fancy && rng.percent(10) {
        let part = rng.range(-100, 100) as i32;
        if (-32768..=32767).contains(&(value - part)) {
            let mut b = int_any(rng, value - part);
            b.extend(int_any(rng, part));
            b.extend(operator(ADD));
            return b;
        }
    }
    int_any(rng, value)
}

/// Split a glyph into subroutines nested up to a depth.
pub fn split(rng: &mut Rng, glyph: &Glyph, depth: usize, big: bool, at_empty: bool) -> Code {
    let mut bodies = Bodies::default();
    let items: Vec<Item> = if at_empty {
        // Keep operations whole.
        let mut ends = glyph.empty.clone();
        ends.push(glyph.tokens.len());
        ends.dedup();
        ends.windows(2)
            .map(|w| Item::Raw(glyph.tokens[w[0]..w[1]].concat()))
            .collect()
    } else {
        glyph.tokens.iter().cloned().map(Item::Raw).collect()
    };
    let main = carve(rng, items, depth, true, &mut bodies);
    let mut lists: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    let mut spots: [Vec<usize>; 2] = [vec![], vec![]];
    let both = rng.percent(50);
    for k in 0..2 {
        let n = bodies.lists[k].len();
        let large = big && (both || rng.percent(50));
        let size = size(rng, n, large);
        spots[k] = places(rng, n, size.max(1));
        let size = if n == 0 && rng.percent(50) { 0 } else { size };
        lists[k] = (0..size).map(|i| poison(rng, i)).collect();
    }
    let sizes = [lists[0].len(), lists[1].len()];
    let flatten = |rng: &mut Rng, items: &[Item]| -> Vec<u8> {
        let mut out = vec![];
        for item in items {
            match item {
                Item::Raw(bytes) => out.extend_from_slice(bytes),
                Item::Call(global, i) => {
                    let k = *global as usize;
                    out.extend(address(rng, spots[k][*i], sizes[k], true));
                    out.push(if *global { 29 } else { 10 });
                }
            }
        }
        out
    };
    for k in 0..2 {
        for i in 0..bodies.lists[k].len() {
            let bytes = flatten(rng, &bodies.lists[k][i]);
            lists[k][spots[k][i]] = bytes;
        }
    }
    let main = flatten(rng, &main);
    let [local, global] = lists;
    Code {
        main,
        global,
        local,
    }
}

pub fn flat(glyph: &Glyph) -> Vec<u8> {
    glyph.tokens.concat()
}
