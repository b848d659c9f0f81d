//! The properties about hostile input: no crash, bounded memory, bounded work.

use std::io::Cursor;

use postscript::compact1::font_set::{character_id_keyed, character_name_keyed, Record};
use postscript::compact1::index::{
    CharacterStrings, Dictionaries, Names, Strings, Subroutines,
};
use postscript::compact1::{
    CharacterSet, Encoding, FontSet, Header, Index, Number, Offset, Operations,
};
use postscript::tape::Read;
use postscript::type2::Program;

use crate::cff::{self, int_long, Edit, IndexM, Kind, Num, SetM, Style, Written};
use crate::cmp;
use crate::corpus;
use crate::gen::{self, fixed, int, int_any, operator, Code, Token};
use crate::mon::{brief, memory, memory_reset, steps, steps_clear, Ctx, Frontier};
use crate::props_b::{mutate, spoil, spots, Distant};
use crate::props_t::{pack, show};
use crate::rng::{hash_bytes, Rng};
use crate::t2::{self, End};

// -------------------------------------------------------- hostile charstrings

const ADD: u16 = 0x0c0a;
const DIV: u16 = 0x0c0c;
const NEG: u16 = 0x0c0e;
const MUL: u16 = 0x0c18;
const SQRT: u16 = 0x0c1a;
const DUP: u16 = 0x0c1b;
const INDEX: u16 = 0x0c1d;
const ROLL: u16 = 0x0c1e;

/// Tokens that leave one extreme value on the stack.
pub fn extreme(rng: &mut Rng) -> Vec<Token> {
    let times = |rng: &mut Rng, a: i32, b: i32| {
        vec![int_any(rng, a), int_any(rng, b), operator(MUL)]
    };
    match rng.below(20) {
        0..=3 => {
            let edges = [
                0, 1, -1, 2, 10, 107, -107, 1131, -1131, -1132, 32767, -32768, 48, 49, 1239, 1240,
            ];
            let v = *rng.pick(&edges);
            vec![int_any(rng, v)]
        }
        4 => {
            let bits = *rng.pick(&[
                0x7fff_ffffu32,
                0x8000_0000,
                0x0000_0001,
                0xffff_ffff,
                0x0000_8000,
                0xffff_8000,
            ]);
            vec![fixed(bits)]
        }
        // 2^31, which is one past the largest 32-bit integer, and about it.
        5 => {
            let mut t = times(rng, 16384, 16384);
            t.extend([int(8), operator(MUL)]);
            t
        }
        6 => {
            let mut t = times(rng, 16384, 16384);
            t.extend([int(-8), operator(MUL)]);
            t
        }
        7 => {
            let mut t = times(rng, 16384, 16384);
            t.extend([int(*rng.pick(&[7, -7, 4, -4, 16])), operator(MUL)]);
            t
        }
        8 => {
            // 2^31 - 128, the largest single below 2^31.
            let mut t = times(rng, 16384, 16384);
            t.extend([int(8), operator(MUL), int(-128), operator(ADD)]);
            t
        }
        9 | 10 => {
            let a = *rng.pick(&[32767, -32768, 1000, 4096]);
            let b = *rng.pick(&[32767, -32768, 1000, 3]);
            times(rng, a, b)
        }
        11 => {
            // Far beyond 64-bit integers, or infinite.
            let mut t = vec![int(32767)];
            for _ in 0..rng.size(2, 9) {
                t.extend([operator(DUP), operator(MUL)]);
            }
            if rng.percent(50) {
                t.push(operator(NEG));
            }
            t
        }
        // Not a number.
        12 => vec![int(0), int(0), operator(DIV)],
        13 => vec![int(-1), operator(SQRT)],
        // Infinite.
        14 => vec![int(*rng.pick(&[1, -1])), int(0), operator(DIV)],
        15 => vec![int(0), operator(NEG)],
        16 => {
            // Next to nothing.
            let mut t = vec![fixed(1)];
            for _ in 0..rng.size(0, 6) {
                t.extend([operator(DUP), operator(MUL)]);
            }
            t
        }
        _ => vec![gen::operand(rng)],
    }
}

const OPERATORS: &[u16] = &[
    1, 3, 4, 5, 6, 7, 8, 10, 11, 14, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 31, 0x0c03,
    0x0c04, 0x0c05, 0x0c09, 0x0c0a, 0x0c0b, 0x0c0c, 0x0c0e, 0x0c0f, 0x0c12, 0x0c16, 0x0c18, 0x0c1a,
    0x0c1b, 0x0c1c, 0x0c1d, 0x0c1e, 0x0c22, 0x0c23, 0x0c24, 0x0c25, 0x0c14, 0x0c15, 0x0c17,
];

fn any_operator(rng: &mut Rng) -> Token {
    match rng.below(20) {
        0 => vec![rng.u8() & 0x1f],
        1 => vec![12, rng.u8()],
        2..=4 => operator(INDEX),
        5..=7 => operator(ROLL),
        8 | 9 => operator(*rng.pick(&[10, 29])),
        _ => operator(*rng.pick(OPERATORS)),
    }
}

/// Tokens without any sense.
fn nonsense(rng: &mut Rng, count: usize) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..count {
        if rng.percent(60) {
            out.extend(extreme(rng).concat());
        } else {
            out.extend(any_operator(rng));
        }
    }
    out
}

fn small_lists(rng: &mut Rng) -> [Vec<Vec<u8>>; 2] {
    let list = |rng: &mut Rng| {
        let n = *rng.pick(&[0usize, 0, 1, 2, 3, 5, 107, 108, 216, 1239, 1240]);
        let mut list = vec![vec![]; n];
        for _ in 0..n.min(4) {
            let i = rng.usize(n);
            let count = rng.size(0, 6);
            list[i] = match rng.below(4) {
                0 => rng.bytes(count),
                1 => vec![11],
                _ => {
                    let mut code = nonsense(rng, count);
                    code.push(11);
                    code
                }
            };
        }
        list
    };
    [list(rng), list(rng)]
}

/// The call of a subroutine.
fn call(rng: &mut Rng, global: bool, i: usize, sizes: [usize; 2]) -> Vec<u8> {
    let mut code = gen::address(rng, i, sizes[global as usize], false);
    code.push(if global { 29 } else { 10 });
    code
}

/// Subroutines that call each other in a circle, or down a long chain.
pub fn circular(rng: &mut Rng) -> Code {
    let sizes = [*rng.pick(&[1usize, 2, 5, 216, 1240]), *rng.pick(&[1usize, 2, 5, 216, 1240])];
    let mut lists = [vec![vec![]; sizes[0]], vec![vec![]; sizes[1]]];
    let members: Vec<(bool, usize)> = (0..rng.size(1, 6))
        .map(|_| {
            let global = rng.percent(50);
            (global, rng.usize(sizes[global as usize].min(8)))
        })
        .collect();
    let body = |rng: &mut Rng, next: (bool, usize)| {
        let mut code = vec![];
        match rng.below(6) {
            // Draws on the way down.
            0 => code.extend([140, 21 + 1]),
            1 => code.extend([140, 141, 5]),
            // The stack stays the same.
            2 => code.extend([140, 12, 18]),
            // The stack grows.
            3 => code.push(140),
            _ => {}
        }
        code.extend(call(rng, next.0, next.1, sizes));
        if rng.percent(60) {
            code.push(11);
        }
        if rng.percent(20) {
            code.extend(call(rng, next.0, next.1, sizes));
            code.push(11);
        }
        code
    };
    for k in 0..members.len() {
        let next = members[(k + 1) % members.len()];
        let (global, i) = members[k];
        lists[global as usize][i] = body(rng, next);
    }
    let mut main = vec![];
    if rng.percent(50) {
        main.extend([139, 140, 21]);
    }
    main.extend(call(rng, members[0].0, members[0].1, sizes));
    main.push(14);
    let [local, global] = lists;
    Code { main, global, local }
}

/// A chain of subroutines, each calling the next.
fn long_chain(rng: &mut Rng, depth: usize) -> Code {
    let size = depth + rng.usize(3);
    let mut lists = [vec![vec![11]; size], vec![vec![11]; size]];
    let mut next: Option<(bool, usize)> = None;
    let sizes = [size, size];
    for k in (0..depth).rev() {
        let global = rng.percent(50);
        let mut code = vec![];
        match next {
            Some((global, i)) => {
                if rng.percent(20) {
                    code.extend([140, 141, 21]);
                }
                code.extend(call(rng, global, i, sizes));
            }
            _ => code.extend([140, 141, 21]),
        }
        code.push(11);
        lists[global as usize][k] = code;
        next = Some((global, k));
    }
    let (global, i) = next.unwrap();
    let mut main = call(rng, global, i, sizes);
    main.push(14);
    let [local, global] = lists;
    Code { main, global, local }
}

/// Very many tokens between one operation and the next.
fn marathon(rng: &mut Rng, count: usize) -> Code {
    let mut main = vec![140, 139, 21];
    let mut lists = [vec![vec![11u8]], vec![vec![11u8]]];
    match rng.below(5) {
        0 => {
            main.push(140);
            for _ in 0..count {
                main.extend([12, *rng.pick(&[5, 9, 14])]);
            }
        }
        1 => {
            for _ in 0..count {
                main.extend([140, 12, 18]);
            }
        }
        2 => {
            main.extend([140, 141]);
            for _ in 0..count {
                main.extend([12, 28]);
            }
        }
        3 => {
            // Calls that return at once.
            for _ in 0..count {
                main.extend([32, *rng.pick(&[10, 29])]);
            }
        }
        _ => {
            // The same inside a subroutine.
            let mut body = vec![140];
            for _ in 0..count {
                body.extend([12, 14]);
            }
            body.push(11);
            lists[0][0] = body;
            main.extend([32, 10]);
        }
    }
    if rng.percent(70) {
        main.extend([140, 141, 5]);
    }
    if rng.percent(70) {
        main.push(14);
    }
    let [local, global] = lists;
    Code { main, global, local }
}

/// Very many operands at once.
fn heap(rng: &mut Rng, count: usize) -> Code {
    let mut main = vec![];
    if rng.percent(50) {
        for _ in 0..count {
            main.extend([139 + (rng.u8() & 15)]);
        }
    } else {
        for _ in 0..count {
            main.extend(gen::operand(rng));
        }
    }
    for _ in 0..rng.size(1, 4) {
        if rng.percent(50) {
            main.extend(extreme(rng).concat());
        }
        main.extend(any_operator(rng));
    }
    main.extend([140, 141, 5, 14]);
    let [local, global] = small_lists(rng);
    Code { main, global, local }
}

/// Change a few bytes of a program.
fn bend(rng: &mut Rng, code: &mut Code) {
    for _ in 0..rng.size(1, 3) {
        let target = match rng.below(4) {
            0 if !code.local.is_empty() => {
                let i = rng.usize(code.local.len());
                &mut code.local[i]
            }
            1 if !code.global.is_empty() => {
                let i = rng.usize(code.global.len());
                &mut code.global[i]
            }
            _ => &mut code.main,
        };
        match rng.below(6) {
            0 => {
                let n = rng.usize(target.len() + 1);
                target.truncate(n);
            }
            1 => {
                let at = rng.usize(target.len() + 1);
                let token = extreme(rng).concat();
                target.splice(at..at, token);
            }
            2 => {
                let at = rng.usize(target.len() + 1);
                let token = any_operator(rng);
                target.splice(at..at, token);
            }
            _ => {
                let mut bytes = std::mem::take(target);
                mutate(rng, &mut bytes, &[]);
                *target = bytes;
            }
        }
    }
}

/// A charstring with subroutines, likely to be broken.
pub fn hostile_code(rng: &mut Rng) -> Code {
    match rng.below(24) {
        0 | 1 => {
            let n = rng.size(0, 60);
            let main = rng.bytes(n);
            let [local, global] = small_lists(rng);
            Code { main, global, local }
        }
        2..=8 => {
            let n = rng.size(1, 20);
            let main = nonsense(rng, n);
            let [local, global] = small_lists(rng);
            Code { main, global, local }
        }
        9..=12 => {
            let glyph = gen::glyph(rng, &gen::Style::full());
            let depth = rng.size(1, 5);
            let mut code = gen::split(rng, &glyph, depth, false, false);
            bend(rng, &mut code);
            code
        }
        13..=15 => {
            let font = rng.pick(corpus::fonts());
            let main = slice(rng, font.bytes());
            let [local, global] = small_lists(rng);
            Code { main, global, local }
        }
        16..=19 => circular(rng),
        20 => {
            let depth = rng.size(8, 40);
            long_chain(rng, depth)
        }
        21 => {
            let n = rng.size(10, 400);
            marathon(rng, n)
        }
        22 => {
            let n = rng.size(40, 300);
            heap(rng, n)
        }
        _ => {
            // Hints that need a mask longer than what is left.
            let mut main = vec![];
            for _ in 0..rng.size(1, 6) {
                for _ in 0..rng.size(2, 96) {
                    main.push(139 + (rng.u8() & 7));
                }
                main.push(*rng.pick(&[1, 3, 18, 23, 19, 20]));
            }
            main.push(19);
            let n = rng.size(0, 20);
            main.extend(rng.bytes(n));
            let [local, global] = small_lists(rng);
            Code { main, global, local }
        }
    }
}

/// Some stretch of a file.
fn slice(rng: &mut Rng, bytes: &[u8]) -> Vec<u8> {
    let n = rng.size(1, 120).min(bytes.len());
    let at = rng.usize(bytes.len() - n + 1);
    bytes[at..at + n].to_vec()
}

/// Step a program past its end and past errors, and tell what happened.
fn exhaust(code: &Code) -> (u64, u64, u64) {
    let mut program = Program::new(&code.main, &code.global, &code.local);
    let (mut operations, mut errors, mut ends) = (0, 0, 0);
    let mut width = 0.0;
    while errors < 40 && ends < 3 && operations < 200_000 {
        match program.next() {
            Ok(Some(operation)) => {
                operations += 1;
                width += operation.1.len() as f64;
                look(&operation);
            }
            Ok(None) => ends += 1,
            Err(_) => errors += 1,
        }
        width += *look(&program.width().unwrap_or(0.0)) as f64;
    }
    std::hint::black_box(width);
    (operations, errors, ends)
}

fn run(ctx: &mut Ctx, code: &Code) -> bool {
    ctx.input(&pack(&code.main, &code.global, &code.local));
    match ctx.target(|| exhaust(code)) {
        Ok((operations, errors, ends)) => {
            let key = hash_bytes(1, &code.main)
                ^ code.local.iter().fold(2, |h, b| hash_bytes(h, b))
                ^ code.global.iter().fold(3, |h, b| hash_bytes(h, b));
            ctx.evaluated(key, !code.main.is_empty());
            ctx.count("operations", operations);
            ctx.count("errors", errors);
            ctx.count("steps past an error", errors.saturating_sub(1));
            ctx.count("ends", ends);
            ctx.sample(|| {
                format!(
                    "{}: {operations} operations, {errors} errors",
                    show(&code.main, &code.global, &code.local)
                )
            });
            true
        }
        Err(panic) => {
            ctx.violate(
                format!("panic: {}", crate::mon::generic(&panic)),
                format!("{panic}: {}", show(&code.main, &code.global, &code.local)),
            );
            false
        }
    }
}

pub fn a02(ctx: &mut Ctx) {
    ctx.cases("hostile", 400_000, 60_000_000, |ctx, rng, _| {
        let code = hostile_code(rng);
        run(ctx, &code);
    });
    // Every operator over every kind of extreme operand.
    ctx.cases("extreme operands", 100_000, 10_000_000, |ctx, rng, i| {
        let mut main = vec![];
        for _ in 0..rng.size(0, 5) {
            main.extend(extreme(rng).concat());
        }
        main.extend(operator(OPERATORS[i as usize % OPERATORS.len()]));
        for _ in 0..rng.size(0, 3) {
            main.extend(extreme(rng).concat());
            main.extend(any_operator(rng));
        }
        main.push(14);
        let [local, global] = small_lists(rng);
        run(ctx, &Code { main, global, local });
    });
    // Every pair of first bytes, with operands before and bytes after.
    ctx.cases("every two bytes", 65_536, 65_536 * 8, |ctx, rng, i| {
        let n = if i < 65_536 { (i % 3) as usize * 4 } else { rng.size(0, 50) };
        let mut main = vec![141; n];
        main.extend([(i >> 8) as u8, i as u8]);
        main.extend([139, 140, 5, 14]);
        let list = vec![vec![139, 11], vec![11], vec![14]];
        run(
            ctx,
            &Code {
                main,
                global: list.clone(),
                local: list,
            },
        );
    });
    ctx.cases("endless recursion", 4_000, 200_000, |ctx, rng, _| {
        let code = circular(rng);
        run(ctx, &code);
    });
    ctx.cases("long chains", 300, 6_000, |ctx, rng, _| {
        let depth = *rng.pick(&[9, 10, 11, 50, 1_000, 10_000, 33_000]);
        let code = long_chain(rng, depth);
        run(ctx, &code);
        ctx.max("chained subroutines", depth as u64);
    });
    ctx.cases("long runs", 120, 4_000, |ctx, rng, _| {
        let n = *rng.pick(&[1_000, 20_000, 100_000, 300_000]);
        let code = marathon(rng, n);
        run(ctx, &code);
        ctx.max("tokens between operations", n as u64);
    });
    ctx.cases("deep stacks", 400, 20_000, |ctx, rng, _| {
        let n = *rng.pick(&[49, 192, 513, 514, 5_000, 70_000, 200_000]);
        let code = heap(rng, n);
        run(ctx, &code);
        ctx.max("operands on the stack", n as u64);
    });
    // Real glyphs, bent.
    let n = corpus::fonts().len() as u64;
    ctx.cases("real glyphs bent", 60 * n, 6_000 * n, |ctx, rng, i| {
        let font = &corpus::fonts()[(i % n) as usize];
        let Ok(Ok(set)) = ctx.target(|| Cursor::new(font.bytes()).take::<FontSet>()) else {
            ctx.count("left out: rejected font", 1);
            return;
        };
        let parsed = corpus::Parsed(set);
        let all: Vec<_> = parsed.glyphs().collect();
        let first = rng.pick(&all);
        let mut code = Code {
            main: vec![],
            global: first.1.to_vec(),
            local: first.2.to_vec(),
        };
        for _ in 0..40 {
            code.main = rng.pick(&all).0.clone();
            bend(rng, &mut code);
            if !run(ctx, &code) {
                break;
            }
        }
    });
    // A search led by what has been executed.
    ctx.cases("guided", 64, 2_000, |ctx, rng, _| {
        let mut frontier = Frontier::new();
        let mut pool: Vec<Code> = (0..6).map(|_| hostile_code(rng)).collect();
        pool.retain(|code| pack(&code.main, &code.global, &code.local).len() < 4096);
        pool.push(Code {
            main: vec![139, 140, 21, 14],
            global: vec![vec![11]; 2],
            local: vec![vec![11]; 2],
        });
        for _ in 0..1_500 {
            let mut code = rng.pick(&pool).clone();
            bend(rng, &mut code);
            if rng.percent(10) {
                let other = rng.pick(&pool).main.clone();
                let at = rng.usize(code.main.len() + 1);
                code.main.truncate(at);
                code.main.extend(other);
                code.main.truncate(2_000);
            }
            steps_clear();
            if !run(ctx, &code) {
                break;
            }
            if frontier.absorb() && pool.len() < 400 {
                pool.push(code);
            }
        }
        ctx.count("guided: inputs kept", pool.len() as u64);
        ctx.max("guided: region magnitudes reached", frontier.found);
    });
}

// ---------------------------------------------------------- hostile font sets

/// An operand that no table can have.
fn wild(rng: &mut Rng, size: usize) -> Num {
    let value = match rng.below(12) {
        0 => i32::MIN,
        1 => i32::MAX,
        2 => -1,
        3 => i32::MAX - rng.range(0, 3000) as i32,
        4 => i32::MIN + rng.range(0, 3000) as i32,
        5 => size as i32,
        6 => size as i32 + rng.range(-3, 3) as i32,
        7 => rng.range(0, 30) as i32,
        8 => *rng.pick(&[1 << 24, 1 << 28, 1 << 30, 0x7fff_0000, 65_535, 65_536]),
        9 => -(rng.range(0, size as i64) as i32),
        10 => rng.u64() as i32,
        _ => rng.usize(size.max(1)) as i32,
    };
    if rng.percent(10) {
        let text = *rng.pick(&["1e9", "-1e9", "0.5", "1e38", "-0", "4294967296", "-1e-30", "1e30"]);
        return cff::real(text);
    }
    int_long(value)
}

fn wild_edits(rng: &mut Rng, model: &SetM, size: usize) -> Vec<Edit> {
    let mut edits = vec![];
    if model.fonts.is_empty() {
        return edits;
    }
    for _ in 0..rng.size(1, 3) {
        let i = rng.usize(model.fonts.len());
        let count = match &model.fonts[i].kind {
            Kind::Name(_) => 1,
            Kind::Cid(cid) => cid.dictionaries.len(),
        };
        let j = rng.usize(count.max(1));
        let one = |rng: &mut Rng| Some(vec![wild(rng, size)]);
        let two = |rng: &mut Rng| Some(vec![wild(rng, size), wild(rng, size)]);
        edits.push(match rng.below(8) {
            0 => Edit::Top(i, cff::CHARSTRINGS, one(rng)),
            1 => Edit::Top(i, cff::CHARSET, one(rng)),
            2 => Edit::Top(i, cff::ENCODING, one(rng)),
            3 => Edit::Top(i, cff::PRIVATE, two(rng)),
            4 => Edit::Top(i, cff::FDARRAY, one(rng)),
            5 => Edit::Top(i, cff::FDSELECT, one(rng)),
            6 => match model.fonts[i].kind {
                Kind::Name(_) => Edit::Top(i, cff::PRIVATE, two(rng)),
                Kind::Cid(_) => Edit::Array(i, j, cff::PRIVATE, two(rng)),
            },
            _ => Edit::Private(i, j, cff::SUBRS, one(rng)),
        });
    }
    edits
}

fn plausible_header(rng: &mut Rng) -> Vec<u8> {
    vec![1, 0, *rng.pick(&[4, 4, 4, 0, 5, 255]), 1 + (rng.u8() & 3)]
}

/// An index that claims more than there is.
fn claiming(rng: &mut Rng) -> Vec<u8> {
    let count = *rng.pick(&[1u16, 2, 3, 255, 1_000, 65_535]);
    let width = *rng.pick(&[1u8, 2, 3, 4, 4, 4, 0, 5]);
    let mut bytes = count.to_be_bytes().to_vec();
    bytes.push(width);
    let mut value = 1u64;
    let shown = if rng.percent(70) { count as usize + 1 } else { rng.size(1, 8) };
    let most = 1u64 << (8 * width.clamp(1, 4));
    let leap = rng.usize(shown.min(6));
    for i in 0..shown {
        if i > 0 {
            let jump = if i == leap + 1 {
                *rng.pick(&[most - 2, most / 2, most / 200, 1 << 22, 1 << 30])
            } else {
                rng.below(3)
            };
            value = (value + jump).min(most - 1);
        }
        bytes.extend(&value.to_be_bytes()[8 - width.min(8) as usize..]);
    }
    let n = rng.size(0, 64);
    bytes.extend(rng.noise(n));
    bytes
}

/// Bytes that look like a font set to some degree.
pub fn hostile_set(rng: &mut Rng) -> Vec<u8> {
    let style = Style {
        fonts: 3,
        cid: 50,
        most_glyphs: 6,
        most_chunk: 8,
        gaps: false,
    };
    match rng.below(16) {
        0 => {
            let n = rng.size(0, 100);
            rng.bytes(n)
        }
        1 => {
            let mut bytes = plausible_header(rng);
            let n = rng.size(0, 100);
            bytes.extend(rng.bytes(n));
            bytes
        }
        2 => {
            // A beginning made of indices that claim too much.
            let mut bytes = plausible_header(rng);
            let whole = rng.usize(4);
            for k in 0..4 {
                if k == whole {
                    bytes.extend(claiming(rng));
                } else {
                    let n = rng.usize(3);
                    bytes.extend(IndexM::plain(cff::chunks(rng, n, 6)).bytes());
                }
            }
            bytes
        }
        3..=6 => {
            let model = SetM::random(rng, &style);
            let size = model.write().bytes.len();
            let edits = wild_edits(rng, &model, size);
            model.write_edited(&edits).bytes
        }
        7 | 8 => {
            let model = SetM::random(rng, &style);
            let written = model.write();
            match spoil(rng, &model, &written) {
                Some((_, edits)) => model.write_edited(&edits).bytes,
                _ => written.bytes,
            }
        }
        9 => {
            let model = SetM::random(rng, &style);
            let mut bytes = model.write().bytes;
            let n = rng.usize(bytes.len() + 1);
            bytes.truncate(n);
            bytes
        }
        10 => {
            // A table replaced with one that claims too much.
            let model = SetM::random(rng, &style);
            let written = model.write();
            let mut bytes = written.bytes.clone();
            if let Some(section) = written.sections.get(rng.usize(written.sections.len().max(1))) {
                let claim = claiming(rng);
                for (k, b) in claim.iter().enumerate() {
                    let at = section.1 + k;
                    if at < bytes.len() {
                        bytes[at] = *b;
                    } else {
                        bytes.push(*b);
                    }
                }
            }
            bytes
        }
        11 => {
            let model = SetM::random(rng, &style);
            let a = model.write().bytes;
            let b = SetM::random(rng, &style).write().bytes;
            let (i, j) = (rng.usize(a.len()), rng.usize(b.len()));
            [&a[..i], &b[j..]].concat()
        }
        12 if rng.percent(30) => {
            let small: Vec<_> = corpus::fonts().iter().filter(|f| f.size < 20_000).collect();
            let mut bytes = rng.pick(&small).bytes().to_vec();
            for _ in 0..rng.size(1, 4) {
                let start = rng.usize(40) * 16;
                mutate(rng, &mut bytes, &[(start, 64)]);
            }
            bytes
        }
        _ => {
            let model = SetM::random(rng, &style);
            let written = model.write();
            let mut bytes = written.bytes.clone();
            for _ in 0..rng.size(1, 3) {
                mutate(rng, &mut bytes, &spots(&written));
            }
            bytes
        }
    }
}

fn parse_and_touch(bytes: &[u8], at: u64) -> Option<u64> {
    let mut tape = Cursor::new(bytes);
    tape.set_position(at);
    let result = tape.take::<FontSet>();
    let mut tape = Cursor::new(bytes);
    tape.set_position(at);
    let count = FontSet::count(&mut tape).unwrap_or(0) as u64;
    match result {
        Ok(set) => {
            look(&set);
            Some(count + cmp::touch(&set) + cmp::touch(&set.clone()))
        }
        Err(error) => {
            std::hint::black_box(error.to_string().len());
            None
        }
    }
}

fn verdict<T>(
    ctx: &mut Ctx,
    what: &str,
    bytes: &[u8],
    body: impl FnOnce() -> T,
) -> Option<T> {
    ctx.input(bytes);
    match ctx.target(body) {
        Ok(value) => Some(value),
        Err(panic) => {
            ctx.violate(
                format!("{what}: panic: {}", crate::mon::generic(&panic)),
                format!("{panic}: {}", brief(bytes)),
            );
            None
        }
    }
}

fn parse_one(ctx: &mut Ctx, bytes: &[u8], at: u64) -> bool {
    match verdict(ctx, "font set", bytes, || parse_and_touch(bytes, at)) {
        Some(result) => {
            ctx.evaluated(hash_bytes(at, bytes), !bytes.is_empty());
            ctx.count(if result.is_some() { "accepted" } else { "rejected" }, 1);
            ctx.sample(|| format!("{} at {at}: accepted {}", brief(bytes), result.is_some()));
            true
        }
        None => false,
    }
}

/// The character strings that a font might have, without their data.
fn claimed_strings(count: u16) -> CharacterStrings {
    CharacterStrings(Index {
        count,
        offset_size: 1,
        offsets: vec![],
        data: vec![],
    })
}

/// Whether values are rendered in full, so that every byte of them matters.
static DEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn look<T: std::fmt::Debug>(value: &T) -> &T {
    if DEEP.load(std::sync::atomic::Ordering::Relaxed) {
        std::hint::black_box(format!("{value:?}").len());
    }
    value
}

/// Read a table on its own.
fn table(rng: &mut Rng, which: u64, bytes: &[u8], at: u64) -> bool {
    let mut tape = Cursor::new(bytes);
    tape.set_position(at);
    let glyphs = match rng.below(4) {
        0 => *rng.pick(&[0usize, 1, 2, 255, 256, 65_535]),
        1 => rng.usize(65_536),
        _ => rng.usize(40),
    };
    match which {
        0 => look(&tape.take::<Header>()).is_ok(),
        1 => look(&tape.take::<Index>()).is_ok(),
        2 => match tape.take::<Names>() {
            Ok(names) => look(&Vec::<String>::try_from(names)).is_ok(),
            _ => false,
        },
        3 => match tape.take::<Dictionaries>() {
            Ok(dictionaries) => {
                for i in 0..dictionaries.len() {
                    look(&dictionaries.get(i).is_ok());
                }
                Vec::<Operations>::try_from(&dictionaries).is_ok()
            }
            _ => false,
        },
        4 => match tape.take::<Strings>() {
            Ok(strings) => {
                look(&strings);
                for id in [0, 390, 391, 392, 391 + rng.u16() / 2, 65_535] {
                    std::hint::black_box(strings.get(id));
                }
                true
            }
            _ => false,
        },
        5 => look(&tape.take::<Subroutines>()).is_ok(),
        6 => {
            let format = *rng.pick(&[2, 2, 2, 0, 1, 3, -1, i32::MIN, i32::MAX]);
            look(&tape.take_given::<CharacterStrings>(format)).is_ok()
        }
        7 => match tape.take::<Operations>() {
            Ok(operations) => {
                look(&operations);
                for row in crate::spec::DICT {
                    std::hint::black_box(operations.get(row.1));
                    std::hint::black_box(operations.get_single(row.1));
                    std::hint::black_box(operations.get_double(row.1));
                }
                for (_, operands) in operations.0.iter() {
                    for operand in operands {
                        let _ = postscript::compact1::StringID::try_from(*operand);
                    }
                }
                true
            }
            _ => false,
        },
        8 => look(&tape.take::<Number>()).is_ok(),
        9 => {
            let width = *rng.pick(&[1, 2, 3, 4, 0, 5, 255]);
            look(&tape.take_given::<Offset>(width)).is_ok()
        }
        10 => match tape.take::<Encoding>() {
            Ok(encoding) => {
                look(&encoding);
                for code in [0, 1, 65, 255, 256, 65_535] {
                    std::hint::black_box(encoding.get(code));
                }
                true
            }
            _ => false,
        },
        11 => match tape.take_given::<CharacterSet>(glyphs) {
            Ok(set) => {
                look(&set);
                for glyph in [0, 1, 65, 255, 256, 65_535] {
                    std::hint::black_box(set.get(glyph));
                }
                true
            }
            _ => false,
        },
        12 => {
            let strings = claimed_strings(glyphs as u16);
            look(&tape.take_given::<character_id_keyed::Encoding>(&strings)).is_ok()
        }
        13 => {
            let strings = claimed_strings(glyphs as u16);
            look(&tape.take_given::<character_id_keyed::Encoding0>(&strings)).is_ok()
        }
        14 => FontSet::count(&mut tape).is_ok(),
        _ => match rng.below(3) {
            0 => look(&tape.take_given::<postscript::compact1::character_set::CharacterSet0>(glyphs)).is_ok(),
            1 => look(&tape.take_given::<postscript::compact1::character_set::CharacterSet1>(glyphs)).is_ok(),
            _ => look(&tape.take_given::<postscript::compact1::character_set::CharacterSet2>(glyphs)).is_ok(),
        },
    }
}

const TABLES: &[&str] = &[
    "header",
    "index",
    "names",
    "dictionaries",
    "strings",
    "subroutines",
    "charstrings",
    "dictionary",
    "number",
    "offset",
    "encoding",
    "charset",
    "glyph-to-dictionary mapping",
    "glyph-to-dictionary mapping in format 0",
    "count",
    "charset in a format",
];

/// Bytes for a table on its own.
fn table_bytes(rng: &mut Rng, which: u64) -> Vec<u8> {
    if rng.percent(20) {
        let n = rng.size(0, 40);
        return rng.bytes(n);
    }
    let mut bytes = match which {
        1..=6 => {
            if rng.percent(50) {
                claiming(rng)
            } else {
                let n = rng.usize(6);
                let data = cff::chunks(rng, n, 12);
                IndexM::new(rng, data).bytes()
            }
        }
        7 | 8 => {
            let mut bytes = cff::dict_bytes(&cff::entries(rng, 6));
            if rng.percent(30) {
                bytes.insert(0, 0x1e);
                let n = rng.size(1, 400);
                bytes.splice(1..1, rng.bytes(n));
            }
            bytes
        }
        10..=13 | 15 => {
            let mut bytes = vec![*rng.pick(&[0, 1, 2, 3, 0x80, 0x81, 0x82, 0xff])];
            let n = rng.size(0, 60);
            bytes.extend((0..n).map(|_| *rng.pick(&[0, 0, 1, 2, 0xff, 0x80]) ^ (rng.u8() & 1)));
            bytes
        }
        0 | 14 => {
            let mut bytes = plausible_header(rng);
            let n = rng.size(0, 8);
            bytes.extend(rng.bytes(n));
            bytes
        }
        _ => {
            let n = rng.size(0, 8);
            rng.bytes(n)
        }
    };
    match rng.below(4) {
        0 => mutate(rng, &mut bytes, &[]),
        1 => {
            let n = rng.usize(bytes.len() + 1);
            bytes.truncate(n);
        }
        _ => {}
    }
    bytes
}

pub fn a01(ctx: &mut Ctx) {
    ctx.cases("hostile", 400_000, 40_000_000, |ctx, rng, _| {
        let bytes = hostile_set(rng);
        parse_one(ctx, &bytes, 0);
    });
    // At any position, the end of the input and beyond included.
    ctx.cases("positions", 60_000, 6_000_000, |ctx, rng, _| {
        let own = hostile_set(rng);
        let n = rng.size(0, 40);
        let mut bytes = rng.bytes(n);
        bytes.extend(own);
        let at = match rng.below(6) {
            0 => rng.usize(bytes.len() + 1) as u64,
            1 => bytes.len() as u64 + rng.below(3),
            2 => *rng.pick(&[1u64 << 31, 1 << 32, 1 << 40, 1 << 62, (1 << 62) - 5]),
            _ => n as u64,
        };
        parse_one(ctx, &bytes, at);
    });
    // Far from the start of a stream.
    ctx.cases("far away", 60_000, 6_000_000, |ctx, rng, _| {
        let own = hostile_set(rng);
        let base = *rng.pick(&[
            1u64,
            (1 << 31) - 7,
            1 << 31,
            (1 << 32) - 3,
            1 << 32,
            1 << 48,
            1 << 62,
        ]);
        let result = verdict(ctx, "font set far away", &own, || {
            let mut tape = Distant::new(base, &own);
            let set = tape.take::<FontSet>();
            let mut tape = Distant::new(base, &own);
            let count = FontSet::count(&mut tape).unwrap_or(0) as u64;
            set.ok().map(|set| count + cmp::touch(&set))
        });
        if let Some(result) = result {
            ctx.evaluated(hash_bytes(base, &own), !own.is_empty());
            ctx.count(if result.is_some() { "accepted" } else { "rejected" }, 1);
        }
    });
    ctx.cases("tables", 600_000, 60_000_000, |ctx, rng, i| {
        let which = i % TABLES.len() as u64;
        let bytes = table_bytes(rng, which);
        let at = if rng.percent(90) { 0 } else { rng.below(70) };
        let mut inner = rng.clone();
        let what = TABLES[which as usize];
        if let Some(good) = verdict(ctx, what, &bytes, || table(&mut inner, which, &bytes, at)) {
            ctx.evaluated(hash_bytes(which + 100 * at, &bytes), !bytes.is_empty());
            ctx.count(&format!("{what}: {}", if good { "value" } else { "error" }), 1);
        }
    });
    // A record with whatever dictionary.
    ctx.cases("records", 60_000, 6_000_000, |ctx, rng, _| {
        let model = SetM::random(rng, &Style { fonts: 1, cid: 50, ..Style::small() });
        let written = model.write();
        let edits = wild_edits(rng, &model, written.bytes.len());
        let edited = model.write_edited(&edits);
        let bytes = edited.bytes;
        let Some(top) = edited.top.first() else { return };
        let mut dictionary = cff::dict_bytes(top);
        if rng.percent(20) {
            mutate(rng, &mut dictionary, &[]);
        }
        let position = *rng.pick(&[0u64, 0, 0, 1, 1 << 40, (1 << 62) - 1, 1 << 62]);
        let count = *rng.pick(&[0u16, 1, 5, 65_535]);
        let which = rng.below(3);
        let result = verdict(ctx, "record", &bytes, || {
            let operations = match Cursor::new(&dictionary[..]).take::<Operations>() {
                Ok(operations) => operations,
                _ => return false,
            };
            let strings = claimed_strings(count);
            let mut tape = Cursor::new(&bytes[..]);
            match which {
                0 => tape.take_given::<Record>((position, &operations, &strings)).is_ok(),
                1 => tape
                    .take_given::<character_id_keyed::Record>((position, &operations, &strings))
                    .is_ok(),
                _ => tape
                    .take_given::<character_name_keyed::Record>((position, &operations))
                    .is_ok(),
            }
        });
        if let Some(good) = result {
            ctx.evaluated(hash_bytes(position ^ which, &bytes), true);
            ctx.count(&format!("record: {}", if good { "value" } else { "error" }), 1);
        }
    });
    // Every first byte of everything.
    ctx.cases("every byte", 256 * 16, 256 * 16 * 20, |ctx, rng, i| {
        let which = (i >> 8) % TABLES.len() as u64;
        for n in [0usize, 1, 2, 3, 8, 40] {
            let mut bytes = vec![i as u8];
            bytes.extend(rng.noise(n));
            let mut inner = rng.clone();
            let what = TABLES[which as usize];
            if verdict(ctx, what, &bytes, || table(&mut inner, which, &bytes, 0)).is_some() {
                ctx.evaluated(hash_bytes(which, &bytes), true);
            }
        }
    });
    // Real fonts with damage.
    let n = corpus::fonts().len() as u64;
    ctx.cases("real damaged", 120 * n, 6_000 * n, |ctx, rng, i| {
        let font = &corpus::fonts()[(i % n) as usize];
        let mut bytes = font.bytes().to_vec();
        match rng.below(4) {
            0 => {
                let n = rng.usize(bytes.len());
                bytes.truncate(n);
            }
            1 => {
                let start = rng.usize(bytes.len());
                let end = (start + rng.size(1, 64)).min(bytes.len());
                for b in &mut bytes[start..end] {
                    *b = rng.u8();
                }
            }
            _ => {
                for _ in 0..rng.size(1, 4) {
                    mutate(rng, &mut bytes, &[(0, 2000)]);
                }
            }
        }
        parse_one(ctx, &bytes, 0);
    });
    // A search led by what has been executed.
    ctx.cases("guided", 64, 2_000, |ctx, rng, _| {
        let mut frontier = Frontier::new();
        let style = Style {
            fonts: 1,
            cid: 50,
            most_glyphs: 4,
            most_chunk: 4,
            gaps: false,
        };
        let mut pool: Vec<Vec<u8>> = (0..4)
            .map(|_| SetM::random(rng, &style).write().bytes)
            .collect();
        pool.push(hostile_set(rng));
        for _ in 0..1_500 {
            let mut bytes = rng.pick(&pool).clone();
            mutate(rng, &mut bytes, &[]);
            match rng.below(12) {
                0 => {
                    let other = rng.pick(&pool).clone();
                    let (i, j) = (rng.usize(bytes.len() + 1), rng.usize(other.len() + 1));
                    bytes.truncate(i);
                    bytes.extend(&other[j..]);
                    bytes.truncate(4_096);
                }
                1 if !bytes.is_empty() => {
                    // A whole number in a dictionary, perhaps.
                    let at = rng.usize(bytes.len());
                    let token = wild(rng, bytes.len()).bytes;
                    let end = (at + token.len()).min(bytes.len());
                    bytes.splice(at..end, token);
                }
                _ => {}
            }
            steps_clear();
            if !parse_one(ctx, &bytes, 0) {
                break;
            }
            if frontier.absorb() && pool.len() < 400 {
                pool.push(bytes);
            }
        }
        ctx.count("guided: inputs kept", pool.len() as u64);
        ctx.max("guided: region magnitudes reached", frontier.found);
    });
}

// ----------------------------------------------------------------------- A03

/// What a call did to memory.
#[derive(Clone, Copy, Debug)]
struct Usage {
    largest: usize,
    peak: usize,
    kept: isize,
}

fn metered<T>(body: impl FnOnce() -> T) -> Usage {
    let before = memory_reset();
    let result = body();
    let after = memory();
    drop(result);
    Usage {
        largest: after.largest,
        peak: after.peak.saturating_sub(before.live),
        kept: memory().live as isize - before.live as isize,
    }
}

/// Run three times; the largest request, the peak, and the least kept.
fn usage<T>(ctx: &mut Ctx, what: &str, bytes: &[u8], mut body: impl FnMut() -> T) -> Option<Usage> {
    let mut worst = Usage {
        largest: 0,
        peak: 0,
        kept: isize::MAX,
    };
    for _ in 0..3 {
        let usage = verdict(ctx, what, bytes, || metered(&mut body))?;
        worst.largest = worst.largest.max(usage.largest);
        worst.peak = worst.peak.max(usage.peak);
        worst.kept = worst.kept.min(usage.kept);
    }
    Some(worst)
}

/// A count of 65535 may cost this much whatever follows it.
const CONSTANT: usize = 4 << 20;

fn judge(ctx: &mut Ctx, what: &str, bytes: &[u8], usage: Usage) {
    let length = bytes.len();
    ctx.max(&format!("{what}: single request"), usage.largest as u64);
    ctx.max(&format!("{what}: in use at once"), usage.peak as u64);
    if usage.largest > CONSTANT + 32 * length {
        ctx.violate(
            format!("{what}: reserved out of proportion"),
            format!("{} bytes at once for an input of {length}: {}", usage.largest, brief(bytes)),
        );
    }
    if usage.peak > 4 * CONSTANT + 256 * length {
        ctx.violate(
            format!("{what}: used out of proportion"),
            format!("{} bytes in use for an input of {length}: {}", usage.peak, brief(bytes)),
        );
    }
    if usage.kept > 0 {
        ctx.violate(
            format!("{what}: memory was kept"),
            format!("{} bytes each time: {}", usage.kept, brief(bytes)),
        );
    }
    ctx.count("released", 1);
}

fn weigh(ctx: &mut Ctx, bytes: &[u8]) {
    let mut accepted = false;
    let mut tape = Cursor::new(bytes);
    let result = usage(ctx, "font set", bytes, || {
        tape.set_position(0);
        let result = tape.take::<FontSet>();
        accepted = result.is_ok();
        result
    });
    if let Some(usage) = result {
        ctx.evaluated_bytes(bytes, true);
        ctx.count(if accepted { "accepted" } else { "rejected" }, 1);
        ctx.sample(|| format!("{}: {usage:?}", brief(bytes)));
        judge(ctx, "font set", bytes, usage);
    }
}

pub fn a03(ctx: &mut Ctx) {
    ctx.cases("hostile", 60_000, 6_000_000, |ctx, rng, _| {
        let bytes = hostile_set(rng);
        weigh(ctx, &bytes);
    });
    ctx.cases("well-formed", 10_000, 1_000_000, |ctx, rng, _| {
        let model = SetM::random(rng, &Style { cid: 40, ..Style::small() });
        weigh(ctx, &model.write().bytes);
    });
    let n = corpus::fonts().len() as u64;
    ctx.cases("real", n, 20 * n, |ctx, rng, i| {
        let font = &corpus::fonts()[(i % n) as usize];
        let mut bytes = font.bytes().to_vec();
        if i >= n {
            mutate(rng, &mut bytes, &[(0, 2000)]);
        }
        weigh(ctx, &bytes);
    });
    // Each field that tells how much there is, made to tell too much.
    ctx.cases("claims", 40_000, 4_000_000, |ctx, rng, i| {
        let cid = if i % 2 == 0 { 0 } else { 100 };
        let model = SetM::random(rng, &Style { fonts: 1, cid, ..Style::small() });
        if model.fonts.is_empty() {
            return;
        }
        let size = *rng.pick(&[1 << 22, 5 << 20, 1 << 24, 1 << 26, 1 << 28, 1 << 30, i32::MAX]);
        let written = model.write();
        let place = *rng.pick(&[4usize, written.bytes.len().saturating_sub(1), written.bytes.len()]);
        let operands = Some(vec![int_long(size), int_long(place as i32)]);
        let edit = match &model.fonts[0].kind {
            Kind::Cid(cid) => Edit::Array(0, rng.usize(cid.dictionaries.len().max(1)), cff::PRIVATE, operands),
            _ => Edit::Top(0, cff::PRIVATE, operands),
        };
        let bytes = match rng.below(3) {
            0 => {
                let mut bytes = written.bytes.clone();
                claim_somewhere(rng, &model, &written, &mut bytes);
                bytes
            }
            _ => model.write_edited(&[edit]).bytes,
        };
        ctx.count("claims made", 1);
        weigh(ctx, &bytes);
    });
    ctx.cases("tables", 60_000, 6_000_000, |ctx, rng, i| {
        let which = i % TABLES.len() as u64;
        let bytes = table_bytes(rng, which);
        let what = TABLES[which as usize];
        let inner = rng.clone();
        let result = usage(ctx, what, &bytes, || table(&mut inner.clone(), which, &bytes, 0));
        if let Some(usage) = result {
            ctx.evaluated(hash_bytes(which, &bytes), !bytes.is_empty());
            judge(ctx, what, &bytes, usage);
        }
    });
    ctx.cases("charstrings", 40_000, 4_000_000, |ctx, rng, _| {
        let code = hostile_code(rng);
        let bytes = pack(&code.main, &code.global, &code.local);
        let result = usage(ctx, "charstring", &bytes, || exhaust(&code));
        if let Some(usage) = result {
            ctx.evaluated_bytes(&bytes, true);
            judge(ctx, "charstring", &bytes, usage);
        }
    });
}

/// Make an index of a font claim too much.
fn claim_somewhere(rng: &mut Rng, model: &SetM, written: &Written, bytes: &mut Vec<u8>) {
    let mut places: Vec<usize> = written
        .sections
        .iter()
        .filter(|s| s.2 > 3)
        .map(|s| s.1)
        .collect();
    let mut at = 4 + model.header_tail.len();
    for part in [
        model.names.bytes(),
        written.top_index.bytes(),
        model.strings.bytes(),
        model.subroutines.bytes(),
    ] {
        places.push(at);
        at += part.len();
    }
    let at = *rng.pick(&places);
    bytes.truncate(at);
    let count = rng.size(1, 6) as u16;
    bytes.extend(count.to_be_bytes());
    bytes.push(4);
    bytes.extend(1u32.to_be_bytes());
    let mut value = 1u32;
    for _ in 0..count {
        value = value.saturating_add(*rng.pick(&[0, 3, 5 << 20, 1 << 26, 1 << 30, u32::MAX]));
        bytes.extend(value.to_be_bytes());
    }
    let n = rng.size(0, 100);
    bytes.extend(rng.noise(n));
}

// ----------------------------------------------------------------------- A04

/// One token on a stack of at most 48 may execute this many regions.
const EACH: u64 = 1_500;
const ALWAYS: u64 = 60_000;

/// Measure the work of a program to its first error, and hold it against what
/// its tokens allow.
fn work(ctx: &mut Ctx, code: &Code, tokens: u64, what: &str) {
    ctx.input(&pack(&code.main, &code.global, &code.local));
    steps_clear();
    let before = steps();
    let result = ctx.target(|| {
        let mut program = Program::new(&code.main, &code.global, &code.local);
        let mut operations = 0u64;
        loop {
            match program.next() {
                Ok(Some(_)) if operations < 100_000 => operations += 1,
                Ok(_) => break (operations, true),
                Err(_) => break (operations, false),
            }
        }
    });
    match result {
        Ok((operations, _)) => {
            ctx.count("operations", operations);
            if let (Some(before), Some(after)) = (before, steps()) {
                let done = after - before;
                ctx.count("regions executed", done);
                ctx.max("regions per token (in hundredths)", done * 100 / (tokens + 40));
                if done > ALWAYS + EACH * tokens {
                    ctx.violate(
                        format!("{what}: too much work"),
                        format!(
                            "{done} regions for {tokens} tokens: {}",
                            show(&code.main, &code.global, &code.local)
                        ),
                    );
                }
            }
        }
        Err(panic) => ctx.violate(
            format!("panic: {}", crate::mon::generic(&panic)),
            format!("{panic}: {}", show(&code.main, &code.global, &code.local)),
        ),
    }
}

/// The number of tokens, at most; every byte may be one.
fn tokens(code: &Code) -> u64 {
    code.main.len() as u64
}

/// Hold the operations and the error against the reference.
fn nested(ctx: &mut Ctx, code: &Code) {
    let trace = t2::interpret(&code.main, &code.global, &code.local);
    ctx.input(&pack(&code.main, &code.global, &code.local));
    let seen = match ctx.target(|| t2::observe(&code.main, &code.global, &code.local, 100_000)) {
        Ok(seen) => seen,
        Err(panic) => {
            ctx.violate(
                format!("panic: {}", crate::mon::generic(&panic)),
                show(&code.main, &code.global, &code.local),
            );
            return;
        }
    };
    ctx.max("nesting", trace.depth as u64);
    ctx.count("calls", trace.calls);
    match &trace.end {
        End::Undefined(why) => return ctx.count(&format!("unspecified: {why}"), 1),
        End::Reject(why) => ctx.count(&format!("ended by: {why}"), 1),
        End::Done => ctx.count("ended well", 1),
    }
    let key = hash_bytes(5, &pack(&code.main, &code.global, &code.local));
    ctx.evaluated(key, trace.calls > 0);
    ctx.sample(|| {
        format!(
            "{}: depth {}, {:?}",
            show(&code.main, &code.global, &code.local),
            trace.depth,
            trace.end
        )
    });
    if let Some(text) = t2::wrong_ops(&trace, &seen) {
        ctx.violate(
            "nesting: operations",
            format!("{text}: {}", show(&code.main, &code.global, &code.local)),
        );
    }
    if let Some(text) = t2::wrong_reject(&trace, &seen) {
        ctx.violate(
            "nesting: not reported",
            format!("{text}: {}", show(&code.main, &code.global, &code.local)),
        );
    }
}

pub fn a04(ctx: &mut Ctx) {
    // Extreme operands for everything, on a stack of any height.
    ctx.cases("magnitudes", 200_000, 20_000_000, |ctx, rng, i| {
        let mut main = vec![];
        for _ in 0..rng.usize(40) {
            main.push(139 + (rng.u8() & 15));
        }
        for _ in 0..rng.size(1, 3) {
            for _ in 0..rng.size(0, 3) {
                main.extend(extreme(rng).concat());
            }
            if i % 3 == 0 {
                main.extend(operator(*rng.pick(&[ROLL, INDEX, 10, 29])));
            } else {
                main.extend(operator(*rng.pick(OPERATORS)));
            }
        }
        main.push(14);
        let list = vec![vec![11u8]; rng.usize(3)];
        let code = Code {
            main,
            global: list.clone(),
            local: list,
        };
        let n = tokens(&code);
        ctx.evaluated_bytes(&code.main, true);
        work(ctx, &code, n, "a token");
        ctx.sample(|| show(&code.main, &code.global, &code.local));
    });
    // Rolls by every magnitude of shift, over every span.
    ctx.cases("rolls", 48 * 64, 48 * 64 * 20, |ctx, rng, i| {
        let span = (i % 48) as i32 + 1;
        let mut main: Vec<u8> = (0..span).map(|k| 139 + (k as u8 & 31)).collect();
        main.push(139 + span as u8);
        // A shift of up to 2^31 either way.
        let power = ((i / 48) % 32) as i32;
        let sign = if (i / 48 / 32) % 2 == 0 { 1 } else { -1 };
        let mut left = power;
        main.extend(int(sign));
        while left > 0 {
            let part = left.min(14);
            main.extend(int(1 << part));
            main.extend(operator(MUL));
            left -= part;
        }
        if rng.percent(30) {
            main.extend(int(rng.range(-3, 3) as i32));
            main.extend(operator(ADD));
        }
        main.extend(operator(ROLL));
        main.extend([5, 14]);
        let code = Code {
            main,
            ..Code::default()
        };
        ctx.evaluated_bytes(&code.main, true);
        ctx.max("log2 of the shift", power as u64);
        work(ctx, &code, tokens(&code), "a roll");
    });
    // Calls down a chain around the most allowed, directly or after others.
    ctx.cases("chains", 20_000, 2_000_000, |ctx, rng, i| {
        let depth = if i % 3 == 0 { rng.size(1, 40) } else { rng.size(8, 13) };
        let code = if rng.percent(50) {
            long_chain(rng, depth)
        } else {
            crate::props_t::chain(rng, depth)
        };
        nested(ctx, &code);
        work(ctx, &code, 60 + depth as u64, "a chain");
    });
    // Many calls one after another are not nested.
    ctx.cases("in a row", 6_000, 600_000, |ctx, rng, _| {
        let depth = rng.size(1, 11);
        let mut code = long_chain(rng, depth);
        let entry = code.main.clone();
        let times = rng.size(2, 30);
        code.main.clear();
        for _ in 0..times {
            code.main.extend(&entry[..entry.len() - 1]);
        }
        code.main.push(14);
        nested(ctx, &code);
    });
    ctx.cases("recursion", 40_000, 4_000_000, |ctx, rng, _| {
        let code = circular(rng);
        nested(ctx, &code);
        work(ctx, &code, 4_000, "recursion");
    });
    ctx.cases("split", 20_000, 2_000_000, |ctx, rng, _| {
        let glyph = gen::glyph(rng, &gen::Style::plain());
        let depth = rng.size(8, 12);
        let code = gen::split(rng, &glyph, depth, false, false);
        nested(ctx, &code);
    });
}

// ----------------------------------------------------------------------- M01

/// A selection of all workloads, for a build whose memory accesses are watched.
pub fn m01(ctx: &mut Ctx) {
    let small = ctx.options.small;
    let few = |all: u64, few: u64| if small { few } else { all };
    DEEP.store(!ctx.options.small, std::sync::atomic::Ordering::Relaxed);
    ctx.cases("font sets", few(20_000, 400), few(2_000_000, 4_000), |ctx, rng, _| {
        let model = SetM::random(rng, &Style { cid: 50, ..Style::small() });
        let bytes = model.write().bytes;
        parse_one(ctx, &bytes, 0);
    });
    ctx.cases("hostile font sets", few(60_000, 1_600), few(6_000_000, 16_000), |ctx, rng, _| {
        let bytes = hostile_set(rng);
        let at = if rng.percent(80) { 0 } else { rng.usize(bytes.len() + 2) as u64 };
        parse_one(ctx, &bytes, at);
    });
    ctx.cases("glyphs", few(20_000, 400), few(2_000_000, 4_000), |ctx, rng, _| {
        let glyph = gen::glyph(rng, &gen::Style::full());
        let depth = rng.size(1, 10);
        let code = gen::split(rng, &glyph, depth, false, false);
        run(ctx, &code);
    });
    ctx.cases("hostile charstrings", few(60_000, 2_400), few(6_000_000, 24_000), |ctx, rng, _| {
        let code = hostile_code(rng);
        run(ctx, &code);
    });
    ctx.cases("tables", few(60_000, 12_000), few(6_000_000, 120_000), |ctx, rng, i| {
        let which = i % TABLES.len() as u64;
        let bytes = table_bytes(rng, which);
        let mut inner = rng.clone();
        let what = TABLES[which as usize];
        if verdict(ctx, what, &bytes, || table(&mut inner, which, &bytes, 0)).is_some() {
            ctx.evaluated(hash_bytes(which, &bytes), !bytes.is_empty());
        }
    });
    // More of everything than there is room for in buffers of a usual size.
    ctx.cases("deep stacks", few(600, 60), few(20_000, 600), |ctx, rng, i| {
        let n = match i % 4 {
            0 => *rng.pick(&[47, 48, 49, 95, 96, 97, 191, 192, 193]),
            1 => *rng.pick(&[255, 256, 257, 511, 512, 513, 514, 515]),
            2 => rng.size(50, 700),
            _ if small => rng.size(50, 300),
            _ => *rng.pick(&[1_000, 1_024, 2_050, 4_100, 20_000]),
        };
        let code = heap(rng, n);
        run(ctx, &code);
        ctx.max("operands on the stack", n as u64);
    });
    ctx.cases("long runs", few(120, 20), few(4_000, 200), |ctx, rng, _| {
        let n = if small { 200 } else { *rng.pick(&[300, 1_000, 5_000]) };
        let code = marathon(rng, n);
        run(ctx, &code);
    });
    ctx.cases("long chains", few(200, 20), few(6_000, 200), |ctx, rng, _| {
        let depth = *rng.pick(&[9, 10, 11, 12, 16, 17, 32, 33, 64, 65]);
        let code = long_chain(rng, depth);
        run(ctx, &code);
    });
    ctx.cases("many of everything", few(400, 20), few(20_000, 200), |ctx, rng, i| {
        let most = if small { 40 } else { 700 };
        let style = Style {
            fonts: if i % 3 == 0 { 12 } else { 1 },
            cid: 50,
            most_glyphs: most,
            ..Style::small()
        };
        let mut model = SetM::random(rng, &style);
        if !small && rng.percent(30) {
            model.swell(rng);
        }
        let mut bytes = model.write().bytes;
        if rng.percent(40) {
            bytes.truncate(rng.usize(bytes.len()));
        }
        parse_one(ctx, &bytes, 0);
    });
    ctx.cases("many entries", few(300, 20), few(10_000, 200), |ctx, rng, _| {
        // A dictionary with an entry of many operands, or many digits.
        let most = if small { 120 } else { 3_000 };
        let n = rng.size(20, most);
        let mut bytes = vec![];
        if rng.percent(50) {
            for _ in 0..n {
                bytes.push(rng.range(32, 246) as u8);
            }
        } else {
            bytes.push(30);
            for _ in 0..n {
                bytes.push((rng.below(10) * 16 + rng.below(10)) as u8);
            }
            bytes.push(0xff);
        }
        bytes.push(*rng.pick(&[5, 6, 8, 14]));
        ctx.input(&bytes);
        match ctx.target(|| Cursor::new(&bytes[..]).take::<Operations>().map(|o| o.len())) {
            Ok(_) => ctx.evaluated_bytes(&bytes, true),
            Err(panic) => ctx.violate("panic", panic),
        }
    });
    if small {
        return;
    }
    let n = corpus::fonts().len() as u64;
    ctx.cases("real", n, n, |ctx, _, i| {
        let font = &corpus::fonts()[i as usize];
        let Some(parsed) = corpus::parsed(ctx, font) else { return };
        let all: Vec<_> = parsed.glyphs().collect();
        for glyph in all {
            let result = ctx.target(|| t2::observe(glyph.0, glyph.1, glyph.2, 100_000).ops.len());
            match result {
                Ok(n) => ctx.count("operations", n as u64),
                Err(panic) => ctx.violate("panic", panic),
            }
            ctx.evaluated_bytes(glyph.0, true);
        }
    });
}
