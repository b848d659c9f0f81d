//! The properties of the charstring interpreter.

use postscript::type2::{Operator, Program};

use crate::gen::{self, Code, Style};
use crate::mon::{brief, Ctx};
use crate::rng::{hash_bytes, mix, Rng};
use crate::spec;
use crate::t2::{self, End, Seen, Trace};

// ------------------------------------------------------------------- helpers

/// What to hold against an execution.
#[derive(Clone, Copy)]
pub struct Aspects {
    pub ops: bool,
    pub width: bool,
    pub end: bool,
    pub reject: bool,
}

pub const OPS: Aspects = Aspects {
    ops: true,
    width: false,
    end: false,
    reject: false,
};
pub const WIDTH: Aspects = Aspects {
    ops: false,
    width: true,
    end: false,
    reject: false,
};
pub const END: Aspects = Aspects {
    ops: false,
    width: false,
    end: true,
    reject: false,
};
pub const REJECT: Aspects = Aspects {
    ops: false,
    width: false,
    end: false,
    reject: true,
};
pub const OPS_WIDTH: Aspects = Aspects {
    ops: true,
    width: true,
    end: false,
    reject: false,
};

pub fn pack(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![];
    let mut part = |b: &[u8]| {
        out.extend_from_slice(&(b.len() as u32).to_be_bytes());
        out.extend_from_slice(b);
    };
    part(code);
    for list in [global, local] {
        let shown = list.len().min(64);
        part(&(list.len() as u32).to_be_bytes());
        for s in &list[..shown] {
            part(s);
        }
    }
    out
}

pub fn show(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) -> String {
    format!(
        "code {} with {} global and {} local subroutines",
        brief(code),
        global.len(),
        local.len()
    )
}

fn key(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) -> u64 {
    let mut h = hash_bytes(1, code);
    for list in [global, local] {
        h = mix(h ^ list.len() as u64);
        for s in list.iter().take(40).chain(list.iter().rev().take(40)) {
            h = hash_bytes(h, s);
        }
    }
    h
}

/// Run the code under test and record crashes.
pub fn observe(
    ctx: &mut Ctx,
    code: &[u8],
    global: &[Vec<u8>],
    local: &[Vec<u8>],
    limit: usize,
) -> Option<Seen> {
    ctx.input(&pack(code, global, local));
    match ctx.target(|| t2::observe(code, global, local, limit)) {
        Ok(seen) => Some(seen),
        Err(panic) => {
            let shown = show(code, global, local);
            ctx.violate("panic", format!("{panic}: {shown}"));
            None
        }
    }
}

pub fn note(ctx: &mut Ctx, trace: &Trace) {
    ctx.count("operations expected", trace.ops.len() as u64);
    ctx.count("tokens executed", trace.tokens);
    ctx.count("masks", trace.masks);
    ctx.count("mask bytes", trace.mask_bytes);
    ctx.count("calls", trace.calls);
    ctx.count("arithmetic operators", trace.arithmetic);
    ctx.max("nesting", trace.depth as u64);
    ctx.max("stack", trace.highest as u64);
    ctx.max("stems", trace.stems as u64);
    if trace.implied {
        ctx.count("with implied vertical stems", 1);
    }
    if trace.width.is_some() {
        ctx.count("with a width", 1);
    }
    let name = match trace.end {
        End::Done => "ended/done".to_string(),
        End::Reject(why) => format!("ended/rejected/{why}"),
        End::Undefined(why) => format!("ended/unspecified/{why}"),
    };
    ctx.count(&name, 1);
}

/// Run both interpreters and compare.
pub fn compare(
    ctx: &mut Ctx,
    code: &[u8],
    global: &[Vec<u8>],
    local: &[Vec<u8>],
    aspects: Aspects,
) -> Option<(Trace, Seen)> {
    let trace = t2::interpret(code, global, local);
    if trace.end == End::Undefined("too long") {
        ctx.count("skipped as too long", 1);
        return None;
    }
    let seen = observe(ctx, code, global, local, trace.ops.len() + 2)?;
    note(ctx, &trace);
    let mut found = vec![];
    if aspects.ops {
        if let Some(text) = t2::wrong_ops(&trace, &seen) {
            found.push(("operations", text));
        }
    }
    if aspects.width {
        if let Some(text) = t2::wrong_width(&trace, &seen) {
            found.push(("width", text));
        } else if let Some(text) = t2::unsteady_width(&seen) {
            found.push(("width", text));
        }
    }
    if aspects.end {
        if let Some(text) = t2::wrong_end(&trace, &seen) {
            found.push(("end", text));
        }
    }
    if aspects.reject {
        if let Some(text) = t2::wrong_reject(&trace, &seen) {
            found.push(("reject", text));
        }
    }
    for (name, text) in found {
        let shown = show(code, global, local);
        ctx.violate(name, format!("{text}: {shown}"));
    }
    let good = match aspects.reject {
        true => matches!(trace.end, End::Reject(_)),
        _ => trace.end == End::Done,
    };
    ctx.evaluated(key(code, global, local), good && !code.is_empty());
    ctx.sample(|| {
        format!(
            "{}: {} operations, width {:?}, {:?}",
            show(code, global, local),
            trace.ops.len(),
            trace.width,
            trace.end
        )
    });
    Some((trace, seen))
}

fn compare_code(ctx: &mut Ctx, code: &Code, aspects: Aspects) -> Option<(Trace, Seen)> {
    compare(ctx, &code.main, &code.global, &code.local, aspects)
}

fn random_code(rng: &mut Rng, style: &Style, share: u64) -> Code {
    let glyph = gen::glyph(rng, style);
    if rng.below(100) < share {
        let depth = if rng.one_in(4) { 10 } else { rng.size(1, 4) };
        let whole = rng.percent(50);
        gen::split(rng, &glyph, depth, false, whole)
    } else {
        Code {
            main: gen::flat(&glyph),
            ..Default::default()
        }
    }
}

// ----------------------------------------------------------------------- T01

fn numbers(ctx: &mut Ctx, items: &[(Vec<u8>, f32)], operator: u16) {
    for batch in items.chunks(48) {
        let mut code = vec![139, 139, 21];
        for item in batch {
            code.extend_from_slice(&item.0);
        }
        code.extend(gen::operator(operator));
        code.push(14);
        let Some(seen) = observe(ctx, &code, &[], &[], 4) else {
            continue;
        };
        let want: Vec<f32> = batch.iter().map(|item| item.1).collect();
        let good = seen.ops.len() == 2
            && seen.ops[1].0 == spec::charstring(operator).unwrap()
            && seen.ops[1].1.len() == want.len()
            && seen.ops[1].1.iter().zip(&want).all(|(a, b)| a == b)
            && seen.end == Some(Ok(()));
        if !good {
            let first = (0..want.len())
                .find(|&i| seen.ops.get(1).and_then(|op| op.1.get(i)) != Some(&want[i]));
            ctx.violate(
                "number",
                match first {
                    Some(i) => format!(
                        "{} was read as {:?} instead of {:?} ({:?})",
                        brief(&batch[i].0),
                        seen.ops.get(1).and_then(|op| op.1.get(i)),
                        want[i],
                        seen.end
                    ),
                    _ => format!("numbers were not consumed exactly: {}", brief(&code)),
                },
            );
        }
        for item in batch {
            ctx.evaluated(hash_bytes(3, &item.0), true);
        }
        ctx.fold(hash_bytes(0, format!("{:?}", seen.ops).as_bytes()));
        ctx.sample(|| format!("{} -> {:?}", brief(&code), seen.ops.last()));
    }
}

fn form(value: i32, form: u8) -> Option<(Vec<u8>, f32)> {
    gen::number(value, form).map(|bytes| (bytes, value as f32))
}

fn fixed(bits: u32) -> (Vec<u8>, f32) {
    (
        gen::fixed(bits),
        (bits as i32 as f64 / 65536.0) as f32,
    )
}

pub fn t01(ctx: &mut Ctx) {
    ctx.cases("one and two bytes", 1, 1, |ctx, _, _| {
        for f in [1, 2] {
            let all: Vec<_> = (-1131..=1131).filter_map(|v| form(v, f)).collect();
            ctx.count("short forms", all.len() as u64);
            numbers(ctx, &all, 6);
            numbers(ctx, &all[..48], 7);
        }
    });
    ctx.cases("three bytes", 64, 64, |ctx, _, i| {
        let first = -32768 + i as i32 * 1024;
        let all: Vec<_> = (first..first + 1024).filter_map(|v| form(v, 3)).collect();
        ctx.count("three-byte forms", all.len() as u64);
        numbers(ctx, &all, 6);
    });
    ctx.cases("five bytes", 40_000, 40_000, |ctx, rng, _| {
        let all: Vec<_> = (0..48)
            .map(|_| {
                fixed(match rng.below(5) {
                    0 => (1u64 << rng.below(33)).wrapping_add(rng.range(-3, 3) as u64) as u32,
                    1 => (rng.u16() as u32) << 16,
                    2 => 0x100_0000u32.wrapping_add(rng.range(-4096, 4096) as u32)
                        << rng.below(8),
                    _ => rng.u64() as u32,
                })
            })
            .collect();
        numbers(ctx, &all, 6);
    });
    ctx.cases("every five bytes", 0, 1 << 17, |ctx, _, i| {
        // All of the 2^32 numbers, in batches; too many to keep hashes of.
        let mut code = Vec::with_capacity(256);
        for first in (0..32768u64).step_by(32) {
            let bits = |k: u64| (i * 32768 + first + k) as u32;
            code.clear();
            for k in 0..32 {
                code.push(255);
                code.extend_from_slice(&bits(k).to_be_bytes());
            }
            code.extend([6, 14]);
            let result = ctx.target(|| Program::new(&code, &[], &[]).next());
            let good = match &result {
                Ok(Ok(Some((Operator::HLineTo, got)))) => {
                    got.len() == 32
                        && (0..32).all(|k| {
                            got[k as usize] == (bits(k) as i32 as f64 / 65536.0) as f32
                        })
                }
                _ => false,
            };
            if !good {
                ctx.input(&code);
                ctx.violate("number", format!("{} gives {result:?}", brief(&code)));
            }
            ctx.evaluations += 32;
        }
        ctx.evaluated(i, true);
        ctx.count("five-byte forms, exhaustively", 32768);
    });
    ctx.cases("at every operator", 3000, 60_000, |ctx, rng, _| {
        let style = Style {
            big: 50,
            ..Style::plain()
        };
        let code = random_code(rng, &style, 20);
        compare_code(ctx, &code, OPS);
    });
}

// ----------------------------------------------------------------------- T02

fn shapes() -> Vec<(u16, usize)> {
    let mut out = vec![];
    for n in 1..=48usize {
        for &code in gen::PATHS {
            let good = match code {
                5 => n % 2 == 0,
                6 | 7 => true,
                8 => n % 6 == 0,
                24 => n >= 8 && n % 6 == 2,
                25 => n >= 8 && n % 2 == 0,
                26 | 27 | 30 | 31 => n >= 4 && n % 4 <= 1,
                0x0c22 => n == 7,
                0x0c23 => n == 13,
                0x0c24 => n == 9,
                _ => n == 11,
            };
            if good {
                out.push((code, n));
            }
        }
        for code in [1u16, 3, 18, 23] {
            if n % 2 == 0 {
                out.push((code, n));
            }
        }
    }
    out.extend([(21, 2), (22, 1), (4, 1)]);
    out
}

pub fn t02(ctx: &mut Ctx) {
    let shapes = shapes();
    let n = shapes.len() as u64;
    ctx.count("legal operator shapes", n);
    ctx.cases("shapes", n * 4, n * 60, |ctx, rng, i| {
        let (code, count) = shapes[(i % n) as usize];
        let hint = matches!(code, 1 | 3 | 18 | 23);
        let moves = matches!(code, 21 | 22 | 4);
        let mut tokens: Vec<u8> = vec![];
        if !hint && (!moves || i % 2 == 0) {
            tokens.extend([139, 139, 21]);
        } else if (hint || moves) && (i / n) % 2 == 1 && count < 48 {
            tokens.extend(gen::operand(rng));
        }
        for _ in 0..count {
            tokens.extend(gen::operand(rng));
        }
        tokens.extend(gen::operator(code));
        for _ in 0..rng.usize(3) {
            let count = rng.size(1, 48);
            if hint {
                tokens.extend(gen::operand(rng));
                tokens.push(22);
            }
            for _ in 0..count {
                tokens.extend(gen::operand(rng));
            }
            tokens.push(*rng.pick(&[6, 7]));
        }
        tokens.push(14);
        compare(ctx, &tokens, &[], &[], OPS);
    });
    ctx.cases("glyphs", 60_000, 4_000_000, |ctx, rng, _| {
        let style = match rng.below(3) {
            0 => Style::plain(),
            1 => Style::full(),
            _ => Style {
                big: 70,
                most_paths: 25,
                ..Style::plain()
            },
        };
        let code = random_code(rng, &style, 25);
        if let Some((trace, _)) = compare_code(ctx, &code, OPS) {
            for op in &trace.ops {
                ctx.count(&format!("operator {:?}", op.0), 1);
            }
        }
    });
    ctx.cases("long", 200, 4000, |ctx, rng, _| {
        let style = Style {
            most_paths: 400,
            big: 60,
            ..Style::full()
        };
        let code = random_code(rng, &style, 30);
        compare_code(ctx, &code, OPS);
    });
    fixtures(ctx, OPS);
    outlines(ctx);
}

/// Every glyph of the real fonts at hand.
pub fn fixtures(ctx: &mut Ctx, aspects: Aspects) {
    let fonts = crate::corpus::fonts();
    ctx.cases("real fonts", fonts.len() as u64 * 8, fonts.len() as u64 * 8, |ctx, _, i| {
        let font = &fonts[i as usize / 8];
        let Some(parsed) = crate::corpus::parsed(ctx, font) else {
            return;
        };
        for (g, (code, global, local)) in parsed.glyphs().enumerate() {
            if g as u64 % 8 != i % 8 {
                continue;
            }
            ctx.count("glyphs of real fonts", 1);
            compare(ctx, code, global, local, aspects);
        }
    });
}

// ----------------------------------------------------------------------- T03

/// A program that shows its whole stack, of a given content, after a suffix.
fn showing(prefix: &[u8]) -> Vec<u8> {
    let mut code = vec![139, 139, 21];
    code.extend_from_slice(prefix);
    // One more operand, so that an empty stack shows as well.
    code.extend([28, 0x12, 0x34, 6, 14]);
    code
}

pub fn t03(ctx: &mut Ctx) {
    let values: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = [
            0, 1, -1, 2, -2, 3, 5, 7, 10, -10, 100, -100, 107, 1000, -1131, 4096, 32767, -32768,
        ]
        .iter()
        .map(|&v| gen::int(v))
        .collect();
        for bits in [
            1u32, 0xffff_ffff, 0x8000, 0xffff_8000, 0x4000, 0x1_8000, 0x7fff_ffff, 0x8000_0000,
            0x8000_0001, 0x0003_243f, 0x1999, 0x100_0001, 0x0000_ffff, 0x1234_5678,
        ] {
            v.push(gen::fixed(bits));
        }
        v
    };
    let n = values.len() as u64;
    let below: Vec<u8> = [gen::int(11), gen::fixed(0x5_8000), gen::int(-200)].concat();
    ctx.cases("unary", n, n, |ctx, _, i| {
        for code in [0x0c09u16, 0x0c0e, 0x0c05, 0x0c1a, 0x0c1b, 0x0c12] {
            for deep in [false, true] {
                let mut b = if deep { below.clone() } else { vec![] };
                b.extend_from_slice(&values[i as usize]);
                b.extend(gen::operator(code));
                compare(ctx, &showing(&b), &[], &[], OPS);
            }
        }
    });
    ctx.cases("binary", n * n, n * n, |ctx, _, i| {
        for code in [0x0c0au16, 0x0c0b, 0x0c0c, 0x0c18, 0x0c03, 0x0c04, 0x0c0f, 0x0c1c] {
            for deep in [false, true] {
                let mut b = if deep { below.clone() } else { vec![] };
                b.extend_from_slice(&values[(i / n) as usize]);
                b.extend_from_slice(&values[(i % n) as usize]);
                b.extend(gen::operator(code));
                compare(ctx, &showing(&b), &[], &[], OPS);
            }
        }
    });
    ctx.cases("conditional", n * n, n * n, |ctx, _, i| {
        for (yes, no) in [(3, 4), (-5, 500)] {
            let mut b = below.clone();
            b.extend(gen::int(yes));
            b.extend(gen::int(no));
            b.extend_from_slice(&values[(i / n) as usize]);
            b.extend_from_slice(&values[(i % n) as usize]);
            b.extend(gen::operator(0x0c16));
            compare(ctx, &showing(&b), &[], &[], OPS);
        }
    });
    ctx.cases("index", 46, 46, |ctx, rng, i| {
        let size = i as i32;
        for at in -3..size + 3 {
            let mut b = vec![];
            for k in 0..size {
                b.extend(gen::int(10 * k + 1));
            }
            b.extend(gen::int_any(rng, at));
            b.extend(gen::operator(0x0c1d));
            compare(ctx, &showing(&b), &[], &[], OPS);
        }
        for at in [-32768, -1000, -108] {
            let mut b = vec![];
            for k in 0..size {
                b.extend(gen::int(10 * k + 1));
            }
            b.extend(gen::int_any(rng, at));
            b.extend(gen::operator(0x0c1d));
            compare(ctx, &showing(&b), &[], &[], OPS);
        }
    });
    ctx.cases("roll", 45 * 45, 45 * 45, |ctx, rng, i| {
        let (size, span) = ((i / 45) as i32, (i % 45) as i32);
        if span > size {
            return;
        }
        let mut b = vec![];
        for k in 0..size {
            b.extend(gen::int(10 * k + 1));
        }
        let mut shifts: Vec<i32> = if size < 14 {
            (-2 * size - 2..=2 * size + 2).collect()
        } else {
            vec![-span - 1, -span, -span + 1, -1, 0, 1, span - 1, span, span + 1]
        };
        shifts.extend([32767, -32768, 1000, -1000]);
        shifts.push(rng.range(-32768, 32767) as i32);
        for shift in shifts {
            let mut c = b.clone();
            c.extend(gen::int_any(rng, span));
            c.extend(gen::int_any(rng, shift));
            c.extend(gen::operator(0x0c1e));
            compare(ctx, &showing(&c), &[], &[], OPS);
        }
        // A shift beyond what can be written as a number.
        for (a, b2) in [(32767, 32767), (-32768, 32767), (30000, 1234), (181, 181)] {
            let mut c = b.clone();
            c.extend(gen::int_any(rng, span));
            c.extend(gen::int(a));
            c.extend(gen::int(b2));
            c.extend(gen::operator(0x0c18));
            c.extend(gen::operator(0x0c1e));
            if size < 8 {
                compare(ctx, &showing(&c), &[], &[], OPS);
            }
        }
    });
    ctx.cases("random", 150_000, 8_000_000, |ctx, rng, _| {
        let mut b = vec![];
        let mut size = rng.size(0, 8);
        if rng.one_in(10) {
            size = rng.size(20, 42);
        }
        for _ in 0..size {
            b.extend(gen::operand(rng));
        }
        let steps = rng.size(1, 14);
        for _ in 0..steps {
            match rng.below(16) {
                0 | 1 if size < 44 => {
                    b.extend(gen::operand(rng));
                    size += 1;
                }
                2 if size >= 1 => {
                    b.extend(gen::operator(*rng.pick(&[0x0c09, 0x0c0e, 0x0c05])));
                }
                3 if size >= 1 => {
                    b.extend(gen::operator(0x0c09));
                    b.extend(gen::operator(0x0c1a));
                }
                4..=6 if size >= 2 => {
                    b.extend(gen::operator(*rng.pick(&[
                        0x0c0a, 0x0c0b, 0x0c0c, 0x0c18, 0x0c03, 0x0c04, 0x0c0f,
                    ])));
                    size -= 1;
                }
                7 | 8 if size >= 2 => b.extend(gen::operator(0x0c1c)),
                9 if size >= 1 => {
                    b.extend(gen::operator(0x0c12));
                    size -= 1;
                }
                10 if size >= 1 && size < 44 => {
                    b.extend(gen::operator(0x0c1b));
                    size += 1;
                }
                11 | 12 if size >= 1 && size < 44 => {
                    let i = rng.range(-1, size as i64 - 1) as i32;
                    b.extend(gen::int_any(rng, i));
                    b.extend(gen::operator(0x0c1d));
                    size += 1;
                }
                13 | 14 => {
                    let span = rng.range(0, size as i64) as i32;
                    let shift = if rng.one_in(5) {
                        rng.range(-32768, 32767)
                    } else {
                        rng.range(-2 * size as i64 - 1, 2 * size as i64 + 1)
                    } as i32;
                    b.extend(gen::int_any(rng, span));
                    b.extend(gen::int_any(rng, shift));
                    b.extend(gen::operator(0x0c1e));
                }
                _ if size >= 4 => {
                    b.extend(gen::operator(0x0c16));
                    size -= 3;
                }
                _ => {}
            }
        }
        compare(ctx, &showing(&b), &[], &[], OPS);
    });
    ctx.cases("in glyphs", 20_000, 1_000_000, |ctx, rng, _| {
        let style = Style {
            arithmetic: 60,
            big: 5,
            most_paths: 4,
            ..Style::plain()
        };
        let code = random_code(rng, &style, 30);
        compare_code(ctx, &code, OPS);
    });
}

// ----------------------------------------------------------------------- T04

pub fn t04(ctx: &mut Ctx) {
    // How many of the hints are declared how, by which operators.
    ctx.cases("counts", 97 * 12, 97 * 12 * 8, |ctx, rng, i| {
        let total = (i % 97) as usize;
        let style = (i / 97) % 12;
        let width = style % 2 == 1;
        let implied = (style / 2) % 3;
        let code = if style / 6 % 2 == 0 { 19u8 } else { 20 };
        let horizontal = match implied {
            0 => total,
            1 => total.saturating_sub(rng.size(1, 22)),
            _ => total / 2,
        };
        let mut b = vec![];
        let mut pending = width;
        let mut left = horizontal;
        let declare = |b: &mut Vec<u8>, rng: &mut Rng, n: usize, pending: &mut bool| {
            if *pending {
                b.extend(gen::operand(rng));
                *pending = false;
            }
            for _ in 0..2 * n {
                b.extend(gen::operand(rng));
            }
        };
        while left > 0 {
            let n = rng.size(1, left.min(23));
            declare(&mut b, rng, n, &mut pending);
            b.push(18);
            left -= n;
        }
        let mut left = total - horizontal;
        let last = if implied == 1 { left.min(23) } else { 0 };
        while left > last {
            let n = rng.size(1, (left - last).min(23));
            declare(&mut b, rng, n, &mut pending);
            b.push(23);
            left -= n;
        }
        declare(&mut b, rng, left, &mut pending);
        let bytes = (total + 7) / 8;
        let fill = *rng.pick(&[0x0eu8, 0x0b, 0x1c, 0xff, 0x00, 0x0a, 0x15, 0x8b]);
        for round in 0..3 {
            b.push(if round == 0 { code } else { 19 });
            for k in 0..bytes {
                b.push(match rng.below(3) {
                    0 => fill,
                    1 => (k as u8).wrapping_mul(37),
                    _ => rng.u8(),
                });
            }
            if round > 0 {
                b.extend(gen::operand(rng));
                b.push(22);
            }
        }
        b.push(14);
        ctx.count(&format!("mask of {bytes} bytes"), 1);
        compare(ctx, &b, &[], &[], OPS);
    });
    // More hints than a byte of any counter can tell.
    ctx.cases("many", 1_500, 60_000, |ctx, rng, i| {
        const EDGES: &[usize] = &[
            104, 119, 120, 121, 127, 128, 129, 136, 248, 255, 256, 257, 264, 511, 512, 513, 1023,
            1024, 1025, 2040, 2047, 2048, 2049, 4096,
        ];
        let most = if rng.one_in(4) { 4_000 } else { 300 };
        let total = match EDGES.get(i as usize % (3 * EDGES.len())) {
            Some(&total) => total,
            _ => rng.size(1, most),
        };
        let small = rng.one_in(3);
        let top = *rng.pick(&[23usize, 23, 4, 1]);
        let implied = rng.percent(50);
        let (h, v) = *rng.pick(&[(1u8, 3u8), (18, 23)]);
        let mut b = vec![];
        let mut left = total;
        let mut first = rng.percent(30);
        let mut vertical = false;
        while left > 0 {
            let n = rng.size(1, left.min(top));
            if first {
                b.extend(gen::operand(rng));
                first = false;
            }
            for _ in 0..2 * n {
                if small {
                    b.push(rng.range(32, 246) as u8);
                } else {
                    b.extend(gen::operand(rng));
                }
            }
            left -= n;
            if left == 0 && implied {
                break;
            }
            vertical |= rng.one_in(5);
            b.push(if vertical { v } else { h });
        }
        let fill = *rng.pick(&[0x0eu8, 0x0b, 0x1c, 0xff, 0x00, 0x0a, 0x15, 0x8b]);
        for _ in 0..rng.size(1, 3) {
            b.push(*rng.pick(&[19u8, 20]));
            let bytes = (total + 7) / 8;
            b.extend((0..bytes).map(|_| if rng.percent(60) { fill } else { rng.u8() }));
            if rng.percent(60) {
                b.extend(gen::operand(rng));
                b.push(*rng.pick(&[22u8, 4, 6, 7]));
            }
        }
        b.push(14);
        ctx.max("hints", total as u64);
        compare(ctx, &b, &[], &[], OPS);
    });
    ctx.cases("bytes", 256, 256, |ctx, _, i| {
        for code in [19u8, 20] {
            for (stems, bytes) in [(1, 1), (8, 1), (9, 2), (16, 2), (17, 3)] {
                for spot in 0..bytes {
                    let mut b = vec![];
                    for k in 0..2 * stems {
                        b.extend(gen::int(k + 1));
                    }
                    b.push(18);
                    b.push(code);
                    for k in 0..bytes {
                        b.push(if k == spot { i as u8 } else { 0x0b });
                    }
                    b.extend([140, 141, 21, 142, 6, 14]);
                    compare(ctx, &b, &[], &[], OPS);
                }
            }
        }
    });
    ctx.cases("glyphs", 60_000, 4_000_000, |ctx, rng, _| {
        let style = Style {
            hints: 100,
            arithmetic: if rng.one_in(3) { 10 } else { 0 },
            most_paths: 5,
            ..Style::plain()
        };
        let code = random_code(rng, &style, 60);
        compare_code(ctx, &code, OPS);
    });
    fixtures(ctx, OPS);
}

// ----------------------------------------------------------------------- T05

pub fn t05(ctx: &mut Ctx) {
    // Every size of a collection that a font can have.
    let all: Vec<Vec<u8>> = (0..65536usize)
        .map(|i| {
            let mut b = gen::int((i >> 8) as i32);
            b.extend(gen::int((i & 0xff) as i32));
            b.extend([21, 11]);
            b
        })
        .collect();
    let wrong: Vec<Vec<u8>> = vec![vec![150, 22, 11]; 1300];
    ctx.cases("every size", 1024, 4096, |ctx, rng, i| {
        let share = if ctx.thorough() { 16 } else { 64 };
        let i = i % (65_536 / share);
        for size in (i * share) as usize..((i + 1) * share) as usize + (i == 0) as usize {
            let size = if i == 0 && size == share as usize { 65535 } else { size };
            let b = t2::bias(size);
            let mut places = vec![0, 1, size as i64 - 1, size as i64 - 2, b, b - 1, b + 1];
            let more = if ctx.thorough() { 12 } else { 3 };
            for _ in 0..more {
                places.push(rng.below(size.max(1) as u64) as i64);
            }
            places.extend([-1, size as i64, size as i64 + 1, -2]);
            for place in places {
                let value = place - b;
                if !(-32768..=32767).contains(&value) {
                    continue;
                }
                let global = rng.percent(50);
                let mut code = gen::int_any(rng, value as i32);
                code.push(if global { 29 } else { 10 });
                code.extend([139, 22, 14]);
                let (g, l): (&[Vec<u8>], &[Vec<u8>]) = if global {
                    (&all[..size], &wrong)
                } else {
                    (&wrong, &all[..size])
                };
                let Some(seen) = observe(ctx, &code, g, l, 4) else {
                    continue;
                };
                let good = if place < 0 || place >= size as i64 {
                    ctx.count("positions outside", 1);
                    seen.ops.is_empty() && matches!(seen.end, Some(Err(_)))
                } else {
                    ctx.count("positions inside", 1);
                    seen.ops.first()
                        == Some(&(
                            Operator::RMoveTo,
                            vec![(place >> 8) as f32, (place & 0xff) as f32],
                        ))
                        && seen.ops.len() == 2
                        && seen.end == Some(Ok(()))
                };
                if !good {
                    ctx.violate(
                        "bias",
                        format!(
                            "position {place} of {size} {}: {:?} {:?}",
                            if global { "global" } else { "local" },
                            seen.ops,
                            seen.end
                        ),
                    );
                }
                ctx.evaluated(mix(size as u64) ^ mix(place as u64) ^ global as u64, true);
            }
            ctx.count("sizes of collections", 1);
        }
    });
    // Operands beyond what can be written as a number: as far as they are from
    // the collection, nothing is called.
    ctx.cases("far positions", 6_000, 300_000, |ctx, rng, _| {
        let size = *rng.pick(&[0usize, 1, 2, 107, 215, 1239, 1240, 1300, 33_899, 33_900, 65_535]);
        let b = t2::bias(size);
        let place = rng.below(size.max(1) as u64) as i64;
        let power = rng.range(8, 40) as u32;
        let sign = if rng.percent(50) { 1 } else { -1 };
        let mut code = gen::int_any(rng, 1);
        let mut left = power;
        while left > 0 {
            let part = left.min(rng.range(1, 14) as u32);
            code.extend(gen::int_any(rng, 1 << part));
            code.extend(gen::operator(0x0c18));
            left -= part;
        }
        if sign < 0 {
            code.extend(gen::operator(0x0c0e));
        }
        let near = place - b;
        // What is left of the position in single precision is whatever it is.
        let value = sign as f32 * (2f64.powi(power as i32) as f32) + near as f32;
        code.extend(gen::int_any(rng, near as i32));
        code.extend(gen::operator(0x0c0a));
        let global = rng.percent(50);
        code.push(if global { 29 } else { 10 });
        code.extend([139, 22, 14]);
        let (g, l): (&[Vec<u8>], &[Vec<u8>]) = if global {
            (&all[..size], &wrong)
        } else {
            (&wrong, &all[..size])
        };
        let at = value as f64 + b as f64;
        if at >= 0.0 && at < size as f64 {
            return;
        }
        let Some(seen) = observe(ctx, &code, g, l, 4) else {
            return;
        };
        ctx.evaluated(mix(hash_bytes(size as u64, &code)), true);
        if !seen.ops.is_empty() || !matches!(seen.end, Some(Err(_))) {
            ctx.violate(
                "a far position",
                format!("{value} of {size}: {:?} {:?}", seen.ops, seen.end),
            );
        }
    });
    drop(all);
    let body = |ctx: &mut Ctx, rng: &mut Rng, big: bool| {
        let style = Style {
            arithmetic: if rng.one_in(3) { 12 } else { 0 },
            repeat: 50,
            ..Style::plain()
        };
        let glyph = gen::glyph(rng, &style);
        let flat = gen::flat(&glyph);
        let reference = t2::interpret(&flat, &[], &[]);
        if reference.end != End::Done {
            ctx.count("skipped", 1);
            return;
        }
        let Some(whole) = observe(ctx, &flat, &[], &[], reference.ops.len() + 2) else {
            return;
        };
        let rounds = if big { 1 } else { 3 };
        for _ in 0..rounds {
            let depth = match rng.below(4) {
                0 => 10,
                1 => rng.size(5, 10),
                _ => rng.size(1, 4),
            };
            let at_empty = rng.percent(30);
            let code = gen::split(rng, &glyph, depth, big, at_empty);
            let Some((trace, seen)) = compare_code(ctx, &code, OPS_WIDTH) else {
                continue;
            };
            if trace.end == End::Done && trace.depth > 0 {
                ctx.count(&format!("nested {} deep", trace.depth), 1);
                let same = whole.ops == seen.ops
                    && whole.width == seen.width
                    && whole.end == seen.end;
                if !same {
                    ctx.violate(
                        "in place",
                        format!(
                            "{} gives {} operations, width {:?}, and {:?}; {} gives {}, {:?}, and {:?}",
                            brief(&flat),
                            whole.ops.len(),
                            whole.width,
                            whole.end,
                            show(&code.main, &code.global, &code.local),
                            seen.ops.len(),
                            seen.width,
                            seen.end
                        ),
                    );
                }
            }
        }
    };
    ctx.cases("split", 25_000, 1_500_000, |ctx, rng, _| body(ctx, rng, false));
    ctx.cases("split, large collections", 160, 4000, |ctx, rng, _| {
        body(ctx, rng, true)
    });
    ctx.cases("chains", 400, 4000, |ctx, rng, i| {
        let code = chain(rng, 1 + (i % 13) as usize);
        compare_code(ctx, &code, OPS_WIDTH);
    });
    fixtures(ctx, OPS_WIDTH);
}

/// A chain of calls so many deep, each with an operation before and after.
pub fn chain(rng: &mut Rng, depth: usize) -> Code {
    let size = depth + rng.usize(4);
    let mut code = Code {
        main: vec![],
        global: (0..size).map(|i| gen::poison(rng, i)).collect(),
        local: (0..size).map(|i| gen::poison(rng, i)).collect(),
    };
    let sides: Vec<bool> = (0..depth).map(|_| rng.percent(50)).collect();
    let ends = rng.percent(40);
    for k in 0..=depth {
        let mut body = vec![];
        body.extend(gen::int(k as i32));
        body.push(if rng.percent(50) { 22 } else { 4 });
        if k < depth {
            body.extend(gen::address(rng, k, size, true));
            body.push(if sides[k] { 29 } else { 10 });
        } else if ends {
            body.push(14);
        }
        if !ends {
            body.extend(gen::int(100 + k as i32));
            body.push(22);
            body.push(if k == 0 { 14 } else { 11 });
        }
        if k == 0 {
            code.main = body;
        } else if sides[k - 1] {
            code.global[k - 1] = body;
        } else {
            code.local[k - 1] = body;
        }
    }
    code
}

// ----------------------------------------------------------------------- T06

pub fn t06(ctx: &mut Ctx) {
    // Every operator that can come first, with and without a width, in every
    // shape, followed by operators that must not touch the width.
    let firsts: Vec<(u16, usize)> = {
        let mut v = vec![(21u16, 2usize), (22, 1), (4, 1), (14, 0), (14, 4)];
        for n in 1..=23 {
            for code in [1, 3, 18, 23] {
                v.push((code, 2 * n));
            }
        }
        for n in 0..=23 {
            // Masks, with the vertical stems implied or not.
            v.push((19, 2 * n));
            v.push((20, 2 * n));
        }
        v
    };
    // Whatever comes later, the width stays.
    ctx.cases("surplus operands", 20_000, 1_500_000, |ctx, rng, i| {
        let (code, count) = *rng.pick(&firsts[..3]);
        let mut b = vec![];
        for _ in 0..count + (i % 2) as usize {
            b.extend(gen::operand(rng));
        }
        b.push(code as u8);
        for _ in 0..rng.size(1, 5) {
            for _ in 0..rng.size(0, 14) {
                b.extend(gen::operand(rng));
            }
            let codes = [
                21, 22, 4, 5, 6, 7, 8, 24, 25, 26, 27, 30, 31, 1, 3, 18, 23, 0x0c22, 0x0c23,
                0x0c24, 0x0c25,
            ];
            b.extend(gen::operator(*rng.pick(&codes)));
        }
        for _ in 0..rng.size(0, 6) {
            b.extend(gen::operand(rng));
        }
        b.push(14);
        if let Some((trace, seen)) = compare(ctx, &b, &[], &[], WIDTH) {
            if seen.ops.len() > trace.ops.len() {
                ctx.count("operations with surplus operands", 1);
            }
        }
    });
    let n = firsts.len() as u64;
    ctx.cases("first operators", n * 2 * 6, n * 2 * 60, |ctx, rng, i| {
        let (code, count) = firsts[(i % n) as usize];
        let width = (i / n) % 2 == 1;
        let mut b = vec![];
        if matches!(code, 19 | 20) && count == 0 {
            // After the hints, or without any, and then with no bytes.
            if rng.percent(50) {
                let odd = rng.percent(50);
                for _ in 0..2 + odd as usize {
                    b.extend(gen::operand(rng));
                }
                b.push(18);
                b.extend([code as u8, 0x0e]);
            } else {
                if width {
                    b.extend(gen::operand(rng));
                }
                b.push(code as u8);
            }
        } else {
            if width {
                b.extend(gen::operand(rng));
            }
            for _ in 0..count {
                b.extend(gen::operand(rng));
            }
            b.push(code as u8);
            if matches!(code, 19 | 20) {
                b.extend(vec![0x8b; (count / 2 + 7) / 8]);
            }
        }
        if code != 14 {
            for _ in 0..rng.size(0, 3) {
                b.extend(gen::operand(rng));
                b.extend(gen::operand(rng));
                b.push(21);
                for _ in 0..rng.size(1, 20) {
                    b.extend(gen::operand(rng));
                }
                b.push(*rng.pick(&[6, 7]));
            }
            if rng.one_in(4) {
                for _ in 0..4 {
                    b.extend(gen::operand(rng));
                }
            }
            b.push(14);
        }
        if let Some((trace, _)) = compare(ctx, &b, &[], &[], WIDTH) {
            if let Some(first) = trace.first {
                ctx.count(
                    &format!(
                        "first {:?} {}",
                        spec::charstring(first).unwrap(),
                        if trace.width.is_some() { "with" } else { "without" }
                    ),
                    1,
                );
            }
        }
    });
    ctx.cases("glyphs", 60_000, 4_000_000, |ctx, rng, _| {
        let style = Style {
            most_paths: 4,
            arithmetic: if rng.one_in(3) { 10 } else { 0 },
            hints: 75,
            ..Style::plain()
        };
        let code = random_code(rng, &style, 40);
        compare_code(ctx, &code, WIDTH);
    });
    fixtures(ctx, WIDTH);
    // A second opinion: what FreeType makes of real fonts.
    let fonts = crate::corpus::fonts();
    let n = fonts.len() as u64;
    ctx.cases("advances", n, n, |ctx, _, i| {
        let font = &fonts[i as usize];
        let Some(parsed) = crate::corpus::parsed(ctx, font) else {
            return;
        };
        for (g, (code, global, local)) in parsed.glyphs().enumerate() {
            let (default, nominal) = parsed.widths(g);
            let Some(seen) = observe(ctx, code, global, local, 100_000) else {
                continue;
            };
            let width = match seen.width {
                Some(width) => nominal + width,
                None => default,
            };
            let advance = font.glyphs[g].advance;
            ctx.count("advances compared with FreeType", 1);
            ctx.evaluated(mix(i) ^ mix(g as u64 + 77), true);
            if (width - advance).abs() > 0.75 {
                ctx.violate(
                    "advance",
                    format!(
                        "glyph {g} of {} has width {:?}, that is {width}, but advances by {advance}",
                        font.name, seen.width
                    ),
                );
            }
        }
    });
}

/// What FreeType makes of real fonts: the points of the outlines.
pub fn outlines(ctx: &mut Ctx) {
    let fonts = crate::corpus::fonts();
    let n = fonts.len() as u64;
    ctx.cases("outlines", n, n, |ctx, _, i| {
        let font = &fonts[i as usize];
        let Some(parsed) = crate::corpus::parsed(ctx, font) else {
            return;
        };
        for (g, (code, global, local)) in parsed.glyphs().enumerate() {
            let trace = t2::interpret(code, global, local);
            if trace.end != End::Done || trace.accent {
                ctx.count("glyphs without an outline of their own", 1);
                continue;
            }
            let Some(seen) = observe(ctx, code, global, local, 100_000) else {
                continue;
            };
            if seen.ops.iter().any(|op| {
                let least = shapes_least(op.0);
                op.1.len() < least
            }) {
                ctx.violate("outline", format!("glyph {g} of {}: {:?}", font.name, seen.ops));
                continue;
            }
            let points = crate::outline::points(&seen.ops);
            let sum = points
                .iter()
                .fold((0.0, 0.0), |a, p| (a.0 + p.0, a.1 + p.1));
            let want = &font.glyphs[g];
            let slack = points.len() as f64 + 0.01;
            ctx.count("outlines compared with FreeType", 1);
            ctx.evaluated(mix(i) ^ mix(g as u64 + 99), !points.is_empty());
            if points.len() != want.points
                || (sum.0 - want.sum.0).abs() > slack
                || (sum.1 - want.sum.1).abs() > slack
            {
                ctx.violate(
                    "outline",
                    format!(
                        "glyph {g} ({}) of {} has {} points summing to {:?} instead of {} and {:?}",
                        want.name,
                        font.name,
                        points.len(),
                        sum,
                        want.points,
                        want.sum
                    ),
                );
            }
        }
    });
}

fn shapes_least(operator: Operator) -> usize {
    use Operator::*;
    match operator {
        RMoveTo | RLineTo => 2,
        HMoveTo | VMoveTo | HLineTo | VLineTo => 1,
        RRCurveTo => 6,
        RCurveLine | RLineCurve => 8,
        HHCurveTo | VVCurveTo | HVCurveTo | VHCurveTo => 4,
        Flex => 13,
        Flex1 => 11,
        HFlex => 7,
        HFlex1 => 9,
        _ => 0,
    }
}

// ----------------------------------------------------------------------- T07

pub fn t07(ctx: &mut Ctx) {
    // Every byte and every escaped byte that is no operator.
    ctx.cases("reserved", 512, 512, |ctx, rng, i| {
        let mut op = vec![i as u8];
        if i >= 256 {
            op = vec![12, (i - 256) as u8];
        }
        let code = if i >= 256 { 0x0c00 | (i - 256) as u16 } else { i as u16 };
        let number = i < 256 && (i == 28 || i >= 32);
        if number || (i == 12) || (spec::charstring(code).is_some() && !matches!(code, 0x0c14 | 0x0c15 | 0x0c17)) {
            return;
        }
        for n in [0, 1, 2, 3, 5, 6, 14] {
            for prefix in 0..2 {
                let mut b = vec![];
                if prefix > 0 {
                    b.extend([139, 140, 141, 21, 142, 6]);
                }
                for _ in 0..n {
                    b.extend(gen::operand(rng));
                }
                b.extend_from_slice(&op);
                b.extend([139, 22, 14]);
                compare(ctx, &b, &[], &[], REJECT);
                // The same in a subroutine.
                let mut s = b.clone();
                s.pop();
                s.push(11);
                let call = gen::address(rng, 0, 1, false);
                for global in [false, true] {
                    let mut main = call.clone();
                    main.push(if global { 29 } else { 10 });
                    main.push(14);
                    let list = vec![s.clone()];
                    let (g, l): (&[Vec<u8>], &[Vec<u8>]) =
                        if global { (&list, &[]) } else { (&[], &list) };
                    compare(ctx, &main, g, l, REJECT);
                }
            }
        }
    });
    // Every operator with too few operands.
    let needs: Vec<(u16, usize)> = {
        let mut v: Vec<(u16, usize)> = vec![(21, 2), (22, 1), (4, 1), (10, 1), (29, 1)];
        for &code in gen::PATHS {
            v.push((
                code,
                match code {
                    5 => 2,
                    6 | 7 => 1,
                    8 => 6,
                    24 | 25 => 8,
                    26 | 27 | 30 | 31 => 4,
                    0x0c22 => 7,
                    0x0c23 => 13,
                    0x0c24 => 9,
                    _ => 11,
                },
            ));
        }
        for code in [1, 3, 18, 23] {
            v.push((code, 2));
        }
        for (code, n) in [
            (0x0c03u16, 2usize),
            (0x0c04, 2),
            (0x0c05, 1),
            (0x0c09, 1),
            (0x0c0a, 2),
            (0x0c0b, 2),
            (0x0c0c, 2),
            (0x0c0e, 1),
            (0x0c0f, 2),
            (0x0c12, 1),
            (0x0c16, 4),
            (0x0c18, 2),
            (0x0c1a, 1),
            (0x0c1b, 1),
            (0x0c1c, 2),
            (0x0c1d, 2),
            (0x0c1e, 2),
        ] {
            v.push((code, n));
        }
        v
    };
    let n = needs.len() as u64;
    ctx.cases("starved", n, n, |ctx, rng, i| {
        let (code, need) = needs[i as usize];
        for have in 0..need {
            for round in 0..6 {
                let mut b = vec![];
                match round % 3 {
                    0 => {}
                    1 => b.extend([139, 140, 21]),
                    _ => b.extend([139, 140, 141, 21, 142, 143, 7]),
                }
                for _ in 0..have {
                    b.extend(if round < 3 { gen::int(1) } else { gen::operand(rng) });
                }
                b.extend(gen::operator(code));
                b.extend([139, 22, 14]);
                // Collections that hold whatever is called.
                compare(ctx, &b, &[], &[], REJECT);
            }
        }
    });
    ctx.cases("operands", 4000, 100_000, |ctx, rng, i| {
        // A fractional or far index, count, or number of a subroutine.
        let mut b = vec![139, 140, 21];
        let size = rng.size(1, 12);
        for _ in 0..size {
            b.extend(gen::operand(rng));
        }
        let part = {
            let whole = rng.range(-2, size as i64 + 2) as u32;
            let bits = *rng.pick(&[1u32, 0x8000, 0x4000, 0xffff, 0x100]);
            gen::fixed((whole << 16) | bits)
        };
        let far = rng.range(size as i64, size as i64 + 5) as i32;
        match i % 8 {
            0 => {
                b.extend(part);
                b.extend(gen::operator(0x0c1d));
            }
            1 => {
                let k = if rng.percent(50) { far } else { rng.range(size as i64, 32767) as i32 };
                b.extend(gen::int_any(rng, k));
                b.extend(gen::operator(0x0c1d));
            }
            2 => {
                b.extend(part);
                b.extend(gen::int(1));
                b.extend(gen::operator(0x0c1e));
            }
            3 => {
                let k = rng.range(0, size as i64) as i32;
                b.extend(gen::int_any(rng, k));
                b.extend(part);
                b.extend(gen::operator(0x0c1e));
            }
            4 => {
                let k = -(rng.range(1, 6) as i32) * if rng.one_in(3) { 5000 } else { 1 };
                b.extend(gen::int_any(rng, k));
                let j = rng.range(-3, 3) as i32;
                b.extend(gen::int_any(rng, j));
                b.extend(gen::operator(0x0c1e));
            }
            5 => {
                let k = if rng.percent(60) { far.max(size as i32 + 1) } else { 32767 };
                b.extend(gen::int_any(rng, k));
                let j = rng.range(-3, 3) as i32;
                b.extend(gen::int_any(rng, j));
                b.extend(gen::operator(0x0c1e));
            }
            6 => {
                b.extend(part);
                b.push(if rng.percent(50) { 10 } else { 29 });
            }
            _ => {
                // Beyond what a number can spell.
                for v in [32767, 32767] {
                    b.extend(gen::int(v));
                }
                b.extend(gen::operator(0x0c18));
                if rng.percent(50) {
                    b.extend(gen::operator(0x0c0e));
                    b.push(if rng.percent(50) { 10 } else { 29 });
                } else if rng.percent(50) {
                    b.push(if rng.percent(50) { 10 } else { 29 });
                } else {
                    b.extend(gen::operator(0x0c1d));
                }
            }
        }
        b.extend([6, 14]);
        let list: Vec<Vec<u8>> = vec![vec![11]; 300];
        compare(ctx, &b, &list, &list, REJECT);
    });
    ctx.cases("mutated", 60_000, 4_000_000, |ctx, rng, _| {
        let style = Style {
            most_paths: 4,
            arithmetic: if rng.percent(50) { 15 } else { 0 },
            ..Style::plain()
        };
        let mut code = random_code(rng, &style, 50);
        for _ in 0..rng.size(1, 2) {
            // Pick a routine, then harm it.
            let which = rng.below(3);
            let list: &mut [Vec<u8>] = match which {
                1 if !code.global.is_empty() => &mut code.global,
                2 if !code.local.is_empty() => &mut code.local,
                _ => std::slice::from_mut(&mut code.main),
            };
            let i = rng.usize(list.len());
            let b = &mut list[i];
            if b.is_empty() {
                continue;
            }
            let at = rng.usize(b.len());
            match rng.below(5) {
                0 => b.truncate(at),
                1 => {
                    b.remove(at);
                }
                2 => b[at] = rng.u8(),
                3 => {
                    let bad = *rng.pick(&[0u8, 2, 9, 13, 15, 16, 17, 11, 12, 10, 29]);
                    b.insert(at, bad);
                }
                _ => b[at] = *rng.pick(&[0u8, 2, 9, 11, 12, 10, 29, 21, 18, 255, 28]),
            }
        }
        compare_code(ctx, &code, REJECT);
    });
    ctx.cases("cut", 3000, 100_000, |ctx, rng, _| {
        // Every cut of a glyph that is all in one piece.
        let style = Style {
            most_paths: 3,
            big: 10,
            arithmetic: if rng.percent(50) { 10 } else { 0 },
            ..Style::plain()
        };
        let glyph = gen::glyph(rng, &style);
        let code = gen::flat(&glyph);
        for cut in 0..code.len().min(400) {
            compare(ctx, &code[..cut], &[], &[], REJECT);
        }
    });
    ctx.cases("too deep", 300, 3000, |ctx, rng, i| {
        let code = chain(rng, 9 + (i % 6) as usize);
        compare_code(ctx, &code, REJECT);
    });
}

// ----------------------------------------------------------------------- T08

pub fn t08(ctx: &mut Ctx) {
    ctx.cases("glyphs", 50_000, 4_000_000, |ctx, rng, _| {
        let style = Style {
            arithmetic: if rng.one_in(3) { 10 } else { 0 },
            most_paths: 4,
            ..Style::plain()
        };
        let code = random_code(rng, &style, 60);
        if let Some((trace, _)) = compare_code(ctx, &code, END) {
            if let Some(first) = trace.first {
                if first == 14 {
                    ctx.count("glyphs that are only an end", 1);
                }
            }
        }
    });
    ctx.cases("ends in subroutines", 4000, 200_000, |ctx, rng, i| {
        // The end operator at every depth, in either collection, with the
        // operands of the end itself at either side of the call.
        let depth = (i % 11) as usize;
        let size = depth + rng.size(0, 3);
        let mut code = Code {
            main: vec![],
            global: (0..size).map(|i| gen::poison(rng, i)).collect(),
            local: (0..size).map(|i| gen::poison(rng, i)).collect(),
        };
        let sides: Vec<bool> = (0..depth).map(|_| rng.percent(50)).collect();
        let drawn = rng.percent(70);
        let accent = if rng.one_in(3) { 4 } else { 0 };
        let width = (!drawn && rng.percent(50)) as usize;
        let mut left = accent + width;
        for k in 0..=depth {
            let mut body = vec![];
            if drawn && (k == 0 || rng.percent(30)) && left == accent + width {
                for _ in 0..2 {
                    body.extend(gen::operand(rng));
                }
                body.push(21);
            }
            let now = if k == depth { left } else if rng.one_in(3) { rng.usize(left + 1) } else { 0 };
            for _ in 0..now {
                body.extend(gen::operand(rng));
            }
            left -= now;
            if k == depth {
                body.push(14);
            } else {
                body.extend(gen::address(rng, k, size, true));
                body.push(if sides[k] { 29 } else { 10 });
            }
            if k == 0 {
                code.main = body;
            } else if sides[k - 1] {
                code.global[k - 1] = body;
            } else {
                code.local[k - 1] = body;
            }
        }
        if let Some((trace, _)) = compare_code(ctx, &code, END) {
            if trace.end == End::Done {
                ctx.count(&format!("ended {} deep", trace.depth), 1);
            }
        }
    });
    ctx.cases("followed", 20_000, 1_500_000, |ctx, rng, i| {
        // What is after the end, in the charstring itself, is not reached.
        let style = Style {
            most_paths: 3,
            ..Style::plain()
        };
        let mut code = random_code(rng, &style, 60);
        code.main.extend(match i % 8 {
            0 => vec![14],
            1 => vec![11],
            2 => gen::operand(rng),
            3 => gen::flat(&gen::glyph(rng, &style)),
            4 => {
                let mut b = gen::operand(rng);
                b.extend(gen::operand(rng));
                b.extend([*rng.pick(&[21u8, 22, 4, 5, 6, 7, 18, 19]), 14]);
                b
            }
            5 => {
                let mut b = gen::operand(rng);
                b.extend([*rng.pick(&[10u8, 29]), 14]);
                b
            }
            6 => {
                let n = rng.size(1, 3);
                rng.texture8(n)
            }
            _ => {
                let n = rng.size(1, 40);
                rng.bytes(n)
            }
        });
        if let Some((trace, _)) = compare_code(ctx, &code, END) {
            if trace.end == End::Done {
                ctx.count("followed by something", 1);
            }
        }
    });
    ctx.cases("surplus in subroutines", 8_000, 400_000, |ctx, rng, i| {
        // What is after the end in a subroutine, or after the call of it, is
        // not reached either, whether or not it is an error.
        let depth = 1 + (i % 10) as usize;
        let mut bodies: Vec<Vec<u8>> = vec![];
        let style = Style {
            most_paths: 1,
            ..Style::plain()
        };
        let mut first = true;
        for k in 0..=depth {
            let mut body = vec![];
            if first && (k == depth || rng.one_in(3)) {
                first = false;
                body = random_code(rng, &style, 0).main;
                assert_eq!(body.pop(), Some(14));
            } else if !first && rng.one_in(3) {
                body.extend(gen::operand(rng));
                body.push(22);
            }
            if k == depth {
                body.push(14);
            } else {
                body.extend(gen::address(rng, k, depth, true));
                body.push(if rng.percent(50) { 10 } else { 29 });
            }
            bodies.push(body);
        }
        let sides: Vec<bool> = bodies.iter().map(|b| b.last() == Some(&29)).collect();
        let place = |bodies: &[Vec<u8>]| {
            let mut code = Code {
                main: bodies[0].clone(),
                global: vec![vec![11]; depth],
                local: vec![vec![11]; depth],
            };
            for k in 1..=depth {
                if sides[k - 1] {
                    code.global[k - 1] = bodies[k].clone();
                } else {
                    code.local[k - 1] = bodies[k].clone();
                }
            }
            code
        };
        let code = place(&bodies);
        let trace = t2::interpret(&code.main, &code.global, &code.local);
        if trace.end != End::Done {
            return;
        }
        let from = if rng.percent(50) { depth } else { rng.size(0, depth) };
        for body in &mut bodies[from..] {
            if body.last() == Some(&14) || rng.percent(50) {
                let mut more = vec![];
                match rng.below(4) {
                    0 => more.push(11),
                    1 => more.push(14),
                    2 => more.extend(gen::operand(rng)),
                    _ => {
                        more.extend(gen::operand(rng));
                        more.push(22);
                        if rng.percent(50) {
                            more.push(*rng.pick(&[11, 14]));
                        }
                    }
                }
                body.extend(more);
            }
        }
        let code = place(&bodies);
        ctx.input(&pack(&code.main, &code.global, &code.local));
        let result = ctx.target(|| {
            let mut program = Program::new(&code.main, &code.global, &code.local);
            let mut operations = vec![];
            loop {
                match program.next() {
                    Ok(Some(operation)) => operations.push(operation),
                    Ok(None) => {
                        let steady = (0..5).all(|_| matches!(program.next(), Ok(None)));
                        return (operations, Some((steady, program.width())));
                    }
                    Err(_) => return (operations, None),
                }
            }
        });
        ctx.evaluated(key(&code.main, &code.global, &code.local), true);
        let (operations, end) = match result {
            Ok(result) => result,
            Err(panic) => return ctx.violate("panic", panic),
        };
        ctx.count(if end.is_some() { "surplus ignored" } else { "surplus refused" }, 1);
        let same = operations.len() == trace.ops.len()
            && operations.iter().zip(&trace.ops).all(|(a, b)| {
                a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(a, b)| a == b)
            });
        if !same {
            ctx.violate("surplus", format!("{operations:?} instead of {:?}", trace.ops));
        }
        if end.is_some_and(|end| !end.0) {
            ctx.violate("surplus: not steady", format!("{operations:?}"));
        }
    });
    ctx.cases("patience", 200, 2000, |ctx, rng, _| {
        // Many further steps.
        let style = Style::plain();
        let code = random_code(rng, &style, 60);
        let trace = t2::interpret(&code.main, &code.global, &code.local);
        if trace.end != End::Done {
            return;
        }
        ctx.input(&pack(&code.main, &code.global, &code.local));
        let result = ctx.target(|| {
            let mut program = Program::new(&code.main, &code.global, &code.local);
            let mut n = 0;
            while let Ok(Some(_)) = program.next() {
                n += 1;
            }
            let width = program.width();
            let ends = (0..300)
                .filter(|_| matches!(program.next(), Ok(None)) && program.width() == width)
                .count();
            (n, ends)
        });
        ctx.evaluated(key(&code.main, &code.global, &code.local), true);
        match result {
            Ok((n, 300)) if n == trace.ops.len() => {}
            other => ctx.violate(
                "end",
                format!("{other:?} instead of {} operations and 300 ends", trace.ops.len()),
            ),
        }
    });
    fixtures(ctx, END);
}
