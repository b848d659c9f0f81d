//! The properties of the tables inside a font set.

use std::io::Cursor;

use postscript::compact1::font_set::character_id_keyed;
use postscript::compact1::index::{CharacterStrings, Names, Strings};
use postscript::compact1::{
    CharacterSet, Encoding, FontSet, Index, Number, Offset, Operations, StringID,
};
use postscript::tape::Read;

use crate::cff::{
    self, entry, index_bytes, index_offsets, CharsetM, EncodingM, FdSelectM, IndexM, SetM, Style,
};
use crate::cmp;
use crate::corpus;
use crate::mon::{brief, Ctx};
use crate::props_b::{parse, spots};
use crate::refr;
use crate::rng::{hash_bytes, mix, Rng};
use crate::spec;
use crate::tapes::Tape;

macro_rules! run(
    ($ctx:expr, $body:expr) => (
        match $ctx.target(|| $body) {
            Ok(value) => value,
            Err(panic) => {
                $ctx.violate("panic", panic);
                return;
            }
        }
    );
);

// ----------------------------------------------------------------------- C01

/// Read an index that stands at a position of a stream, with more after it.
fn index_case(ctx: &mut Ctx, rng: &mut Rng, data: Vec<Vec<u8>>, width: u8) {
    let model = IndexM {
        offset_size: width,
        data,
    };
    let before = if rng.one_in(3) { rng.size(1, 9) } else { 0 };
    let mut stream = rng.noise(before);
    let own = model.bytes();
    stream.extend_from_slice(&own);
    let n = rng.size(0, 3);
    let tail = rng.noise(n);
    stream.extend(&tail);
    index_at(ctx, &stream, before, model, width);
}

/// Read an index that stands at a position of a stream.
fn index_at(ctx: &mut Ctx, stream: &[u8], before: usize, model: IndexM, width: u8) {
    let own = model.bytes();
    ctx.input(&stream[before..]);
    let (got, after) = run!(ctx, {
        let mut tape = Cursor::new(stream);
        tape.set_position(before as u64);
        let got = tape.take::<Index>();
        (got, tape.position())
    });
    ctx.evaluated(mix(hash_bytes(width as u64, &own)), !model.data.is_empty());
    ctx.max("elements", model.data.len() as u64);
    ctx.max("bytes", own.len() as u64);
    ctx.count(&format!("offsets of {} bytes", if model.data.is_empty() { 0 } else { width }), 1);
    match got {
        Ok(got) => {
            if let Err(text) = cmp::index("index", &got, &model) {
                ctx.violate("decoded differently", text);
            }
            if after != (before + own.len()) as u64 {
                ctx.violate(
                    "position",
                    format!("at {after} instead of {}", before + own.len()),
                );
            }
        }
        Err(error) => ctx.violate(
            "rejected",
            format!("{error}: {} elements, width {width}", model.data.len()),
        ),
    }
    ctx.sample(|| format!("{} elements, width {width}: {}", model.data.len(), brief(&own)));
}

fn index_rejected(ctx: &mut Ctx, what: &str, bytes: &[u8]) {
    ctx.input(bytes);
    let got = run!(ctx, Cursor::new(bytes).take::<Index>());
    ctx.evaluated_bytes(bytes, true);
    ctx.count(&format!("malformed/{what}"), 1);
    if let Ok(got) = got {
        ctx.violate(
            format!("accepted: {what}"),
            format!("{} as {} elements", brief(bytes), got.data.len()),
        );
    }
    // Nor through any of the kinds of indices.
    let got = run!(ctx, {
        Cursor::new(bytes).take::<Names>().is_ok()
            || Cursor::new(bytes).take::<Strings>().is_ok()
            || Cursor::new(bytes).take_given::<CharacterStrings>(2).is_ok()
    });
    if got {
        ctx.violate(format!("accepted: {what}"), brief(bytes));
    }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.cases("random", 60_000, 6_000_000, |ctx, rng, _| {
        let n = match rng.below(8) {
            0 => 0,
            1 => 1,
            2..=5 => rng.size(2, 20),
            _ => rng.size(20, 300),
        };
        let most = if rng.percent(80) { 12 } else { 300 };
        let data = cff::chunks(rng, n, most);
        let least = cff::least_offset_size(&data);
        let width = rng.range(least as i64, 4) as u8;
        index_case(ctx, rng, data, width);
    });
    // Every number of elements: offsets of 1 to 4 bytes, hardly any data.
    ctx.cases("counts", 700, 65_536, |ctx, rng, i| {
        let n = if ctx.thorough() {
            i as usize
        } else {
            let edges = [
                0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096,
                16383, 16384, 32766, 32767, 32768, 32769, 65279, 65280, 65533, 65534, 65535,
            ];
            match edges.get(i as usize) {
                Some(n) => *n,
                _ if rng.percent(80) => rng.size(0, 6_000),
                _ => rng.size(0, 65_535),
            }
        };
        let mut data = vec![vec![]; n];
        for _ in 0..rng.size(0, 200) {
            if n > 0 {
                let k = rng.usize(n);
                let m = rng.size(0, 2);
                data[k] = rng.bytes(m);
            }
        }
        let least = cff::least_offset_size(&data);
        let width = rng.range(least as i64, 4) as u8;
        index_case(ctx, rng, data, width);
    });
    // Lengths at which the offsets need more bytes.
    ctx.cases("lengths", 120, 4_000, |ctx, rng, i| {
        let edge = match i % 6 {
            0 | 1 => 0x100,
            2..=4 => 0x1_0000,
            _ if i % 60 == 5 || ctx.thorough() && i % 12 == 5 => 0x100_0000,
            _ => 0x2_0000,
        };
        let total = edge - 3 + rng.usize(6);
        let n = rng.size(1, 5);
        let mut cuts: Vec<usize> = (0..n - 1).map(|_| rng.usize(total)).collect();
        cuts.push(0);
        cuts.push(total);
        cuts.sort();
        let base = rng.bytes(997);
        let data: Vec<Vec<u8>> = cuts
            .windows(2)
            .map(|w| {
                (w[0]..w[1])
                    .map(|k| base[k % 997].wrapping_add((k >> 10) as u8))
                    .collect()
            })
            .collect();
        let least = cff::least_offset_size(&data);
        let width = rng.range(least as i64, 4) as u8;
        index_case(ctx, rng, data, width);
    });
    // Whatever follows is left alone, however much it looks like more of the
    // index: every string of a few small values, and the beginnings of others.
    ctx.cases("followed", 4_096, 1_048_576, |ctx, rng, i| {
        let values: [u8; 4] = [0, 1, 2, 255];
        let mut tail: Vec<u8> = (0..10).map(|k| values[(i >> (2 * k)) as usize & 3]).collect();
        if i >= 4_096 {
            tail.truncate(rng.size(4, 10));
        } else {
            tail.truncate(6);
        }
        let n = [0, 0, 1, 2][(mix(i) & 3) as usize];
        for data in [vec![], cff::chunks(rng, n, 3)] {
            let width = rng.range(1, 4) as u8;
            let model = IndexM {
                offset_size: width,
                data,
            };
            let mut stream = model.bytes();
            stream.extend(&tail);
            index_at(ctx, &stream, 0, model, width);
        }
    });
    ctx.cases("neighbors", 4_000, 400_000, |ctx, rng, _| {
        let one = |rng: &mut Rng| {
            let n = if rng.percent(40) { 0 } else { rng.size(1, 4) };
            let data = cff::chunks(rng, n, 6);
            let width = rng.range(cff::least_offset_size(&data) as i64, 4) as u8;
            IndexM {
                offset_size: width,
                data,
            }
        };
        let (first, second) = (one(rng), one(rng));
        let before = first.bytes().len();
        let mut stream = first.bytes();
        stream.extend(second.bytes());
        let (one, two) = (first.offset_size, second.offset_size);
        index_at(ctx, &stream, 0, first, one);
        index_at(ctx, &stream, before, second, two);
    });
    ctx.cases("widths", 256, 256, |ctx, rng, i| {
        if (1..=4).contains(&i) {
            return;
        }
        for n in [1, 2, 5] {
            let data = cff::chunks(rng, n, 3);
            for width in [1, 2, 3, 4] {
                let mut bytes = index_bytes(&data, width);
                bytes[2] = i as u8;
                bytes.extend(vec![1; 300]);
                index_rejected(ctx, "an offset width", &bytes);
            }
        }
    });
    ctx.cases("first offsets", 3_000, 100_000, |ctx, rng, i| {
        let n = rng.size(1, 6);
        let data = cff::chunks(rng, n, 40);
        let width = rng.range(1, 4) as usize;
        if data.iter().map(|d| d.len()).sum::<usize>() > 250 {
            return;
        }
        let mut bytes = index_bytes(&data, width as u8);
        // Any other value, in any of its bytes.
        let value = match i % 4 {
            0 => 0,
            1 => 2 + rng.below(250),
            2 => 1 | (1 << rng.size(1, 8 * width - 1)),
            _ => (rng.u64() & ((1 << (8 * width)) - 1)).max(2),
        };
        bytes[3..3 + width].copy_from_slice(&value.to_be_bytes()[8 - width..]);
        bytes.extend(vec![0; 300]);
        index_rejected(ctx, "a first offset", &bytes);
    });
    ctx.cases("decreasing offsets", 8_000, 400_000, |ctx, rng, _| {
        let n = rng.size(1, 12);
        let mut data = cff::chunks(rng, n, 20);
        let k = rng.usize(n);
        if data[k].is_empty() {
            data[k] = vec![7, 7];
        }
        let least = cff::least_offset_size(&data);
        let width = rng.range(least as i64, 4) as usize;
        let mut bytes = index_bytes(&data, width as u8);
        let offsets = index_offsets(&data);
        // The end of element k is brought below its start, or its start above
        // its end; the first offset stays.
        let (at, value) = if k == 0 || rng.percent(50) {
            (k + 1, rng.below(offsets[k] as u64) as u32)
        } else {
            let most = match width {
                1 => 0xff,
                2 => 0xffff,
                3 => 0xff_ffff,
                _ => 0xffff_ffff_u32,
            };
            let low = offsets[k + 1].saturating_add(1);
            if low > most {
                return;
            }
            let high = if rng.percent(70) { (low + 3).min(most) } else { most };
            (k, rng.range(low as i64, high as i64) as u32)
        };
        let place = 3 + at * width;
        bytes[place..place + width].copy_from_slice(&value.to_be_bytes()[4 - width..]);
        let n = rng.size(0, 300);
        bytes.extend(vec![0; n]);
        index_rejected(ctx, "a decreasing offset", &bytes);
    });
    ctx.cases("missing data", 6_000, 300_000, |ctx, rng, _| {
        let n = rng.size(1, 12);
        let data = cff::chunks(rng, n, 12);
        let least = cff::least_offset_size(&data);
        let width = rng.range(least as i64, 4) as u8;
        let bytes = index_bytes(&data, width);
        for cut in 0..bytes.len() {
            index_rejected(ctx, "missing data", &bytes[..cut]);
        }
    });
    // Offsets on their own.
    ctx.cases("offsets", 20_000, 2_000_000, |ctx, rng, i| {
        let value = match i % 3 {
            0 => rng.u64() as u32,
            1 => 1u32 << rng.below(32),
            _ => (1u32 << rng.below(32)).wrapping_sub(1),
        };
        for width in 1..=4usize {
            let want = (value as u64 & ((1u64 << (8 * width)) - 1)) as u32;
            let mut bytes = value.to_be_bytes()[4 - width..].to_vec();
            bytes.extend([9, 9]);
            let (got, after) = run!(ctx, {
                let mut tape = Cursor::new(&bytes[..]);
                let got = tape.take_given::<Offset>(width as u8);
                (got, tape.position())
            });
            ctx.evaluated(mix(want as u64 ^ (width as u64) << 40), true);
            match got {
                Ok(got) if got.0 == want && after == width as u64 => {}
                other => ctx.violate(
                    "an offset",
                    format!("{} in {width} bytes is {other:?} at {after}", brief(&bytes)),
                ),
            }
        }
        let width = loop {
            let w = rng.u8();
            if !(1..=4).contains(&w) {
                break w;
            }
        };
        let got = run!(ctx, Cursor::new(vec![0u8; 300]).take_given::<Offset>(width));
        if got.is_ok() {
            ctx.violate("accepted: an offset width", format!("{width}"));
        }
    });
}

// ----------------------------------------------------------------------- C02

fn number_case(ctx: &mut Ctx, bytes: &[u8], want: i32) {
    let mut tape = Cursor::new(bytes);
    let got = tape.take::<Number>();
    let after = tape.position();
    let good = matches!(got, Ok(Number::Integer(v)) if v == want);
    if !good {
        ctx.input(bytes);
        ctx.violate("an integer", format!("{} is {got:?} instead of {want}", brief(bytes)));
    }
    if after != bytes.len() as u64 {
        ctx.input(bytes);
        ctx.violate("position", format!("{} leaves the stream at {after}", brief(bytes)));
    }
}

/// Numbers straight and as operands of a dictionary.
fn numbers(ctx: &mut Ctx, items: &[(Vec<u8>, i32)]) {
    for batch in items.chunks(64) {
        let mut bytes = vec![];
        for item in batch {
            bytes.extend_from_slice(&item.0);
        }
        ctx.input(&bytes);
        let got = run!(ctx, {
            let mut tape = Cursor::new(&bytes[..]);
            let mut got = vec![];
            for _ in batch {
                let value = tape.take::<Number>();
                got.push((value.map_err(|e| e.to_string()), tape.position()));
            }
            got
        });
        let mut at = 0;
        for (item, (value, after)) in batch.iter().zip(&got) {
            at += item.0.len() as u64;
            if !matches!(value, Ok(Number::Integer(v)) if *v == item.1) {
                ctx.violate(
                    "an integer",
                    format!("{} is {value:?} instead of {}", brief(&item.0), item.1),
                );
                break;
            }
            if *after != at {
                ctx.violate(
                    "position",
                    format!("{} leaves the stream at {after} instead of {at}", brief(&item.0)),
                );
                break;
            }
            ctx.evaluated(hash_bytes(1, &item.0), true);
        }
        bytes.push(14);
        bytes.pop();
        bytes.push(6);
        ctx.input(&bytes);
        let got = run!(ctx, Cursor::new(&bytes[..]).take::<Operations>());
        let good = got.as_ref().is_ok_and(|got| {
            got.0.len() == 1
                && got
                    .get(spec::dict(6).1)
                    .is_some_and(|found| {
                        found.len() == batch.len()
                            && found
                                .iter()
                                .zip(batch)
                                .all(|(a, b)| *a == Number::Integer(b.1))
                    })
        });
        if !good {
            ctx.violate("integers of a dictionary", brief(&bytes));
        }
    }
}

pub fn c02(ctx: &mut Ctx) {
    ctx.cases("one byte", 1, 1, |ctx, _, _| {
        let items: Vec<_> = (32..=246u8).map(|b| (vec![b], b as i32 - 139)).collect();
        numbers(ctx, &items);
        ctx.sample(|| format!("{:?}", &items[..3]));
    });
    ctx.cases("two bytes", 8, 8, |ctx, _, i| {
        let b0 = 247 + i as u8;
        let items: Vec<_> = (0..=255u8)
            .map(|b1| {
                let v = if b0 <= 250 {
                    108 + (b0 as i32 - 247) * 256 + b1 as i32
                } else {
                    -108 - (b0 as i32 - 251) * 256 - b1 as i32
                };
                (vec![b0, b1], v)
            })
            .collect();
        numbers(ctx, &items);
        ctx.sample(|| format!("{:?}", &items[..3]));
    });
    ctx.cases("three bytes", 256, 256, |ctx, _, i| {
        let items: Vec<_> = (0..=255u8)
            .map(|low| {
                (
                    vec![28, i as u8, low],
                    i16::from_be_bytes([i as u8, low]) as i32,
                )
            })
            .collect();
        numbers(ctx, &items);
        ctx.sample(|| format!("{:?}", &items[..3]));
    });
    ctx.cases("five bytes", 6_000, 60_000, |ctx, rng, _| {
        let items: Vec<_> = (0..64)
            .map(|_| {
                let v = match rng.below(3) {
                    0 => rng.u64() as i32,
                    1 => (1i64 << rng.below(33)).wrapping_add(rng.range(-3, 3)) as i32,
                    _ => cff::int_edge(rng),
                };
                (cff::int_bytes(v, 5).unwrap(), v)
            })
            .collect();
        numbers(ctx, &items);
        ctx.sample(|| format!("{:?}", &items[..3]));
    });
    ctx.cases("any forms", 20_000, 1_000_000, |ctx, rng, _| {
        let items: Vec<_> = (0..rng.size(1, 64))
            .map(|_| {
                let v = cff::int_edge(rng);
                (cff::int_any(rng, v).bytes, v)
            })
            .collect();
        numbers(ctx, &items);
    });
    if ctx.thorough() {
        // The whole range, a slice at a time.
        ctx.cases("all integers", 0, 4_096, |ctx, _, i| {
            let result = ctx.target(|| {
                let mut bytes = [29u8, 0, 0, 0, 0];
                let mut bad = None;
                for low in 0..1u32 << 20 {
                    let value = ((i as u32) << 20 | low) as i32;
                    bytes[1..].copy_from_slice(&value.to_be_bytes());
                    let mut tape = Cursor::new(&bytes[..]);
                    let got = tape.take::<Number>();
                    if !matches!(got, Ok(Number::Integer(v)) if v == value) || tape.position() != 5
                    {
                        bad = bad.or(Some(value));
                    }
                }
                bad
            });
            ctx.evaluations += 1 << 20;
            ctx.evaluated(mix(i), true);
            match result {
                Ok(None) => {}
                Ok(Some(value)) => {
                    let bytes = cff::int_bytes(value, 5).unwrap();
                    number_case(ctx, &bytes, value);
                }
                Err(panic) => ctx.violate("panic", panic),
            }
        });
    }
    ctx.cases("reserved", 256, 256, |ctx, rng, i| {
        let first = i as u8;
        if matches!(first, 28..=30 | 32..=254) {
            return;
        }
        for _ in 0..8 {
            let mut bytes = vec![first];
            bytes.extend(rng.noise(8));
            ctx.input(&bytes);
            let got = run!(ctx, Cursor::new(&bytes[..]).take::<Number>());
            ctx.evaluated_bytes(&bytes, true);
            ctx.count("reserved first bytes", 1);
            if let Ok(got) = got {
                ctx.violate(
                    "accepted a reserved first byte",
                    format!("{} as {got:?}", brief(&bytes)),
                );
            }
        }
    });
    // Cut short.
    ctx.cases("cut", 400, 10_000, |ctx, rng, _| {
        let v = cff::int_edge(rng);
        let bytes = cff::int_any(rng, v).bytes;
        for n in 0..bytes.len() {
            ctx.input(&bytes[..n]);
            let got = run!(ctx, Cursor::new(&bytes[..n]).take::<Number>());
            ctx.evaluated_bytes(&bytes[..n], n > 0);
            if let Ok(got) = got {
                ctx.violate("accepted a cut number", format!("{} as {got:?}", brief(&bytes[..n])));
            }
        }
    });
}

// ----------------------------------------------------------------------- C03

/// Natural numbers of any size, the least significant limb first.
#[derive(Clone)]
struct Big(Vec<u32>);

impl Big {
    fn from(v: u64) -> Self {
        Big(vec![v as u32, (v >> 32) as u32])
    }

    fn times_add(&mut self, by: u32, add: u32) {
        let mut carry = add as u64;
        for limb in &mut self.0 {
            let v = *limb as u64 * by as u64 + carry;
            *limb = v as u32;
            carry = v >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }

    fn shift(&mut self, bits: usize) {
        for _ in 0..bits / 31 {
            self.times_add(1 << 31, 0);
        }
        self.times_add(1 << (bits % 31), 0);
    }

    fn compare(&self, other: &Big) -> std::cmp::Ordering {
        let n = self.0.len().max(other.0.len());
        for i in (0..n).rev() {
            let a = self.0.get(i).copied().unwrap_or(0);
            let b = other.0.get(i).copied().unwrap_or(0);
            if a != b {
                return a.cmp(&b);
            }
        }
        std::cmp::Ordering::Equal
    }
}

/// Compare the magnitude of the decimal text with `m * 2^e`, exactly.
fn against(text: &str, m: u64, e: i64) -> std::cmp::Ordering {
    let mut digits = Big::from(0);
    let mut scale = 0i64;
    let mut exponent = 0i64;
    let mut point = false;
    let body = text.trim_start_matches('-');
    let (mantissa, power) = match body.split_once('e') {
        Some((a, b)) => (a, Some(b)),
        _ => (body, None),
    };
    for c in mantissa.chars() {
        if c == '.' {
            point = true;
            continue;
        }
        digits.times_add(10, c as u32 - '0' as u32);
        scale -= point as i64;
    }
    if let Some(power) = power {
        let negative = power.starts_with('-');
        for c in power.trim_start_matches('-').chars() {
            exponent = (exponent * 10 + (c as i64 - '0' as i64)).min(100_000);
        }
        if negative {
            exponent = -exponent;
        }
    }
    let ten = scale + exponent;
    let mut other = Big::from(m);
    for _ in 0..ten.unsigned_abs() {
        if ten > 0 {
            digits.times_add(10, 0);
        } else {
            other.times_add(10, 0);
        }
    }
    if e > 0 {
        other.shift(e as usize);
    } else {
        digits.shift(-e as usize);
    }
    digits.compare(&other)
}

/// Whether a value is the nearest to the text, ties to even.
fn nearest(text: &str, value: f32) -> bool {
    use std::cmp::Ordering::*;
    if text.starts_with('-') != value.is_sign_negative() {
        return false;
    }
    if !value.is_finite() {
        return false;
    }
    let bits = value.abs().to_bits();
    // As an integer multiple of a power of two, doubled for the midpoints.
    let (m, e) = if bits >> 23 == 0 {
        (bits as u64, -149i64)
    } else {
        ((bits & 0x7f_ffff | 0x80_0000) as u64, (bits >> 23) as i64 - 150)
    };
    let even = m % 2 == 0;
    let above = against(text, 2 * m + 1, e - 1);
    if above == Greater || above == Equal && !even {
        return false;
    }
    if m == 0 {
        return true;
    }
    // Just above a power of two, the gap below is half as wide.
    let below = if m == 0x80_0000 && bits >> 23 > 1 {
        against(text, 4 * m - 1, e - 2)
    } else {
        against(text, 2 * m - 1, e - 1)
    };
    !(below == Less || below == Equal && !even)
}

fn real_case(ctx: &mut Ctx, rng: &mut Rng, text: &str) {
    let mut bytes = cff::real_bytes(text, rng.u8());
    let own = bytes.len();
    let n = rng.size(0, 4);
    bytes.extend(rng.noise(n));
    ctx.input(&bytes[..own]);
    let (got, after) = run!(ctx, {
        let mut tape = Cursor::new(&bytes[..]);
        let got = tape.take::<Number>();
        (got, tape.position())
    });
    ctx.evaluated_bytes(text.as_bytes(), true);
    ctx.max("digits", text.len() as u64);
    ctx.sample(|| format!("{text} is {got:?}"));
    match got {
        Ok(Number::Real(value)) if nearest(text, value) => {
            ctx.count(
                if value == 0.0 {
                    "zero"
                } else if value.abs() < f32::MIN_POSITIVE {
                    "subnormal"
                } else {
                    "normal"
                },
                1,
            );
            if after != own as u64 {
                ctx.violate("position", format!("{text}: at {after} instead of {own}"));
            }
        }
        // Beyond the largest single-precision number nothing is said.
        Ok(Number::Real(value)) if value.is_infinite() && against(text, 0xff_ffff, 104).is_gt() => {
            ctx.count("out of range", 1)
        }
        Err(_) if against(text, 0xff_ffff, 104).is_gt() => ctx.count("out of range", 1),
        other => ctx.violate("a real", format!("{text} is {other:?}")),
    }
}

pub fn c03(ctx: &mut Ctx) {
    ctx.cases("random", 120_000, 12_000_000, |ctx, rng, _| {
        let text = cff::real_text(rng);
        real_case(ctx, rng, &text);
    });
    // All numbers of a few digits, with the point anywhere.
    ctx.cases("short", 2_000, 20_000, |ctx, rng, i| {
        let digits = if i < 1_000 { format!("{i:03}") } else { format!("{i}") };
        for sign in ["", "-"] {
            for at in 0..=digits.len() {
                for exponent in ["", "e0", "e1", "e-1", "e7", "e-7", "e20", "e-20", "e-45"] {
                    if !ctx.thorough() && rng.percent(70) {
                        continue;
                    }
                    let text = format!("{sign}{}.{}{exponent}", &digits[..at], &digits[at..]);
                    real_case(ctx, rng, &text);
                    if at == digits.len() {
                        let text = format!("{sign}{digits}{exponent}");
                        real_case(ctx, rng, &text);
                    }
                }
            }
        }
    });
    // What single-precision numbers print as, and the midpoints between them.
    ctx.cases("printed", 40_000, 4_000_000, |ctx, rng, _| {
        let value = loop {
            let value = f32::from_bits(rng.u64() as u32);
            if value.is_finite() {
                break value;
            }
        };
        let text = match rng.below(3) {
            0 => format!("{value:e}"),
            1 => format!("{:e}", value as f64),
            _ => {
                let next = f32::from_bits(value.to_bits().wrapping_add(1));
                if !next.is_finite() {
                    return;
                }
                // Exact: a midpoint has one more bit.
                let middle = (value as f64 + next as f64) / 2.0;
                format!("{middle:e}")
            }
        };
        real_case(ctx, rng, &text);
    });
    // All the digits of the midpoints, and of what is just above or below them.
    ctx.cases("midpoints", 8_000, 600_000, |ctx, rng, i| {
        let bits = match rng.below(6) {
            0 => rng.below(0x80_0000) as u32,
            1 => rng.below(16) as u32 + if rng.percent(50) { 0x7f_fff8 } else { 0 },
            2 => ((rng.size(1, 254) as u32) << 23) - rng.below(3) as u32,
            3 => (rng.size(100, 155) as u32) << 23 | rng.u64() as u32 & 0x7f_ffff,
            _ => rng.below(0x7f7f_ffff) as u32,
        };
        let (this, next) = (f32::from_bits(bits), f32::from_bits(bits + 1));
        if !next.is_finite() {
            return;
        }
        let middle = (this as f64 + next as f64) / 2.0;
        let sign = if rng.percent(30) { "-" } else { "" };
        let scientific = rng.percent(50);
        // A float has less than 200 digits after the point, bar the exponent.
        let exact = if scientific { format!("{middle:.200e}") } else { format!("{middle:.200}") };
        let (digits, exponent) = match exact.split_once('e') {
            Some((digits, exponent)) => (digits.to_string(), format!("e{exponent}")),
            _ => (exact, String::new()),
        };
        let exponent = if exponent == "e0" && rng.percent(50) { String::new() } else { exponent };
        let digits = digits.trim_end_matches('0').to_string();
        let zeros = match rng.below(3) {
            0 => rng.size(0, 4),
            1 => rng.size(0, 40),
            _ => rng.size(0, 500),
        };
        let text = match i % 3 {
            0 => digits + &"0".repeat(zeros),
            1 => digits + &"0".repeat(zeros) + *rng.pick(&["1", "5", "9", "01"]),
            _ => {
                // One less at the end, and nines.
                let mut bytes = digits.into_bytes();
                for b in bytes.iter_mut().rev() {
                    match *b {
                        b'.' => {}
                        b'0' => *b = b'9',
                        _ => {
                            *b -= 1;
                            break;
                        }
                    }
                }
                String::from_utf8(bytes).unwrap() + "9" + &"9".repeat(zeros)
            }
        };
        ctx.count(["ties", "above a tie", "below a tie"][(i % 3) as usize], 1);
        real_case(ctx, rng, &format!("{sign}{text}{exponent}"));
    });
    // Many digits that do not matter, ahead of or behind those that do.
    ctx.cases("zeros", 4_000, 300_000, |ctx, rng, _| {
        let lead = if rng.percent(50) { rng.size(0, 400) } else { 0 };
        let trail = if rng.percent(50) { rng.size(0, 400) } else { 0 };
        let part = rng.size(0, 400);
        let mut digits = "0".repeat(lead);
        for _ in 0..rng.size(0, 12) {
            digits.push((b'0' + rng.below(10) as u8) as char);
        }
        digits += &"0".repeat(trail + (lead + trail == 0) as usize);
        let at = rng.usize(digits.len() + 1);
        let mut text = match rng.below(3) {
            0 => digits,
            1 => format!("{}.{}", &digits[..at], &digits[at..]),
            _ => format!(".{}{digits}", "0".repeat(part)),
        };
        if rng.percent(60) {
            // Undo the shift, more or less, with zeros ahead of the exponent.
            let power = rng.range(-(trail as i64) - 45, part as i64 + 45);
            let zeros = "0".repeat(if rng.one_in(4) { rng.size(0, 30) } else { 0 });
            text += &if power < 0 {
                format!("e-{zeros}{}", -power)
            } else {
                format!("e{zeros}{power}")
            };
        }
        real_case(ctx, rng, &text);
    });
    ctx.cases("long", 1_500, 60_000, |ctx, rng, _| {
        let n = rng.size(40, 400);
        let mut text = String::new();
        let dot = rng.usize(n);
        for k in 0..n {
            if k == dot {
                text.push('.');
            }
            text.push((b'0' + rng.below(10) as u8) as char);
        }
        if rng.percent(60) {
            text += &format!("e-{}", rng.size(0, n));
        }
        real_case(ctx, rng, &text);
    });
    // Malformed: a reserved digit anywhere, or digits that are no number.
    ctx.cases("reserved digit", 20_000, 1_000_000, |ctx, rng, _| {
        let text = cff::real_text(rng);
        let mut chars: Vec<char> = text.chars().collect();
        let at = rng.usize(chars.len() + 1);
        chars.insert(at, '?');
        // Not between the two characters of a negative exponent.
        let text: String = chars.into_iter().collect();
        let text = text.replace("e?-", "?e-");
        no_number(ctx, rng, &text);
    });
    ctx.cases("no number", 40_000, 2_000_000, |ctx, rng, _| {
        let n = rng.size(0, 7);
        let mut text = String::new();
        for _ in 0..n {
            match rng.below(16) {
                0..=6 => text.push((b'0' + rng.below(10) as u8) as char),
                7..=9 => text.push('.'),
                10 | 11 => text.push('e'),
                12 | 13 => text += "e-",
                _ => {
                    if text.ends_with('e') {
                        continue;
                    }
                    text.push('-')
                }
            }
        }
        if refr::spells(&text) {
            real_case(ctx, rng, &text);
        } else {
            no_number(ctx, rng, &text);
        }
    });
    ctx.cases("cut", 4_000, 200_000, |ctx, rng, _| {
        let text = cff::real_text(rng);
        let bytes = cff::real_bytes(&text, rng.u8());
        for n in 1..bytes.len() {
            ctx.input(&bytes[..n]);
            let got = run!(ctx, Cursor::new(&bytes[..n]).take::<Number>());
            ctx.evaluated_bytes(&bytes[..n], true);
            if let Ok(got) = got {
                ctx.violate("accepted a cut number", format!("{} as {got:?}", brief(&bytes[..n])));
            }
        }
    });
}

fn no_number(ctx: &mut Ctx, rng: &mut Rng, text: &str) {
    let mut bytes = cff::real_bytes(text, rng.u8());
    let n = rng.size(0, 4);
    bytes.extend(rng.noise(n));
    ctx.input(&bytes);
    let got = run!(ctx, Cursor::new(&bytes[..]).take::<Number>());
    ctx.evaluated_bytes(text.as_bytes(), true);
    ctx.count("malformed", 1);
    if let Ok(got) = got {
        ctx.violate("accepted a malformed real", format!("{text} as {got:?}"));
    }
}

// --------------------------------------------------------------- C04 and C05

pub fn c04(ctx: &mut Ctx) {
    let check = |ctx: &mut Ctx, bytes: &[u8], entries: &[cff::Entry]| {
        ctx.input(bytes);
        let got = run!(ctx, Cursor::new(bytes).take::<Operations>());
        ctx.evaluated_bytes(bytes, !entries.is_empty());
        ctx.count("entries", entries.len() as u64);
        match got {
            Ok(got) => {
                if let Err(text) = cmp::operations("dictionary", &got, entries) {
                    ctx.violate("decoded differently", text);
                }
            }
            Err(error) => ctx.violate("rejected", format!("{error}: {}", brief(bytes))),
        }
        ctx.sample(|| format!("{} entries: {}", entries.len(), brief(bytes)));
    };
    let any = |rng: &mut Rng, most: usize| -> Vec<cff::Entry> {
        (0..rng.size(0, most))
            .map(|_| {
                let code = rng.pick(spec::DICT).0;
                let k = if rng.one_in(12) { rng.size(0, 60) } else { rng.size(0, 5) };
                entry(code, (0..k).map(|_| cff::number(rng)).collect())
            })
            .collect()
    };
    ctx.cases("random", 120_000, 12_000_000, |ctx, rng, _| {
        let most = if rng.one_in(10) { 150 } else { 12 };
        let entries = any(rng, most);
        check(ctx, &cff::dict_bytes(&entries), &entries);
    });
    // Every pair of operators, with operands that end in every way.
    let n = spec::DICT.len() as u64;
    ctx.cases("pairs", n * n, 40 * n * n, |ctx, rng, i| {
        let (a, b) = ((i / n % n) as usize, (i % n) as usize);
        let entries = vec![
            entry(spec::DICT[a].0, vec![cff::number(rng)]),
            entry(spec::DICT[b].0, vec![cff::number(rng), cff::number(rng)]),
            entry(spec::DICT[a].0, vec![]),
        ];
        check(ctx, &cff::dict_bytes(&entries), &entries);
        check(ctx, &cff::dict_bytes(&entries[..2]), &entries[..2]);
    });
    // Repeated operators.
    ctx.cases("repeated", 20_000, 1_000_000, |ctx, rng, _| {
        let codes: Vec<u16> = (0..rng.size(1, 3)).map(|_| rng.pick(spec::DICT).0).collect();
        let entries: Vec<_> = (0..rng.size(2, 20))
            .map(|_| {
                let k = rng.size(0, 3);
                entry(*rng.pick(&codes), (0..k).map(|_| cff::number(rng)).collect())
            })
            .collect();
        check(ctx, &cff::dict_bytes(&entries), &entries);
    });
    let reject = |ctx: &mut Ctx, what: &str, bytes: &[u8]| {
        ctx.input(bytes);
        let got = run!(ctx, Cursor::new(bytes).take::<Operations>());
        ctx.evaluated_bytes(bytes, true);
        ctx.count(&format!("malformed/{what}"), 1);
        if let Ok(got) = got {
            ctx.violate(
                format!("accepted {what}"),
                format!("{} as {got:?}", brief(bytes)),
            );
        }
    };
    // Every byte, and every byte after an escape, that is no operator.
    ctx.cases("reserved", 512, 512, |ctx, rng, i| {
        let mut tail = vec![];
        if i < 256 {
            let first = i as u8;
            if matches!(first, 12 | 28..=30 | 32..=254) || spec::DICT.iter().any(|r| r.0 == i as u16)
            {
                return;
            }
            tail.push(first);
        } else {
            let code = 0x0c00 | (i - 256) as u16;
            if spec::DICT.iter().any(|r| r.0 == code) {
                return;
            }
            tail.extend([12, code as u8]);
        }
        for k in 0..12 {
            let mut entries = any(rng, 4);
            if k == 0 {
                entries.clear();
            }
            let mut bytes = cff::dict_bytes(&entries);
            for _ in 0..rng.size(0, 3) {
                bytes.extend(cff::number(rng).bytes);
            }
            bytes.extend_from_slice(&tail);
            if rng.percent(60) {
                let more = any(rng, 4);
                bytes.extend(cff::dict_bytes(&more));
            }
            reject(ctx, "a reserved operator", &bytes);
        }
    });
    ctx.cases("malformed operands", 20_000, 1_000_000, |ctx, rng, _| {
        let before = any(rng, 4);
        let mut bytes = cff::dict_bytes(&before);
        for _ in 0..rng.size(0, 3) {
            bytes.extend(cff::number(rng).bytes);
        }
        let text = match rng.below(4) {
            0 => "1?2".to_string(),
            1 => "?".to_string(),
            2 => rng
                .pick(&["", ".", "-", "--1", "1-", "1.2.3", "1e", "1e-", "e5", ".e1", "1e5e5", "1e1.5"])
                .to_string(),
            _ => {
                let mut text = cff::real_text(rng);
                text += rng.pick(&["-", "?", "e", "e-"]);
                text
            }
        };
        bytes.extend(cff::real_bytes(&text, rng.u8()));
        for _ in 0..rng.size(0, 2) {
            bytes.extend(cff::number(rng).bytes);
        }
        let mut after = any(rng, 4);
        after.insert(0, entry(rng.pick(spec::DICT).0, vec![]));
        bytes.extend(cff::dict_bytes(&after));
        reject(ctx, "a malformed operand", &bytes);
    });
    // Cut short: what is left must be whole entries.
    ctx.cases("cut", 6_000, 300_000, |ctx, rng, _| {
        let entries = any(rng, 6);
        let mut ends = vec![];
        let mut bytes = vec![];
        for entry in &entries {
            bytes.extend(cff::dict_bytes(std::slice::from_ref(entry)));
            ends.push(bytes.len());
        }
        for n in 0..bytes.len() {
            match ends.iter().position(|&end| end == n) {
                Some(k) => check(ctx, &bytes[..n], &entries[..k + 1]),
                _ if n > 0 => reject(ctx, "an entry cut short", &bytes[..n]),
                _ => {}
            }
        }
    });
    // Dictionaries of an index are those of its elements.
    ctx.cases("indices", 10_000, 500_000, |ctx, rng, _| {
        use postscript::compact1::index::Dictionaries;
        let all: Vec<Vec<cff::Entry>> = (0..rng.size(0, 6)).map(|_| any(rng, 6)).collect();
        let data: Vec<Vec<u8>> = all.iter().map(|e| cff::dict_bytes(e)).collect();
        let bytes = IndexM::plain(data).bytes();
        ctx.input(&bytes);
        let got = run!(ctx, {
            let index = Cursor::new(&bytes[..]).take::<Dictionaries>();
            index.and_then(|index| {
                let whole = Vec::<Operations>::try_from(&index)?;
                let mut single = vec![];
                for k in 0..whole.len() {
                    single.push(Dictionaries::get(&index, k)?);
                }
                Ok((whole, single))
            })
        });
        ctx.evaluated_bytes(&bytes, !all.is_empty());
        match got {
            Ok((whole, single)) => {
                if whole.len() != all.len() {
                    ctx.violate(
                        "decoded differently",
                        format!("{} dictionaries instead of {}", whole.len(), all.len()),
                    );
                    return;
                }
                for (k, entries) in all.iter().enumerate() {
                    for got in [&whole[k], &single[k]] {
                        if let Err(text) = cmp::operations(&format!("dictionary {k}"), got, entries) {
                            ctx.violate("decoded differently", text);
                        }
                    }
                }
            }
            Err(error) => ctx.violate("rejected", format!("{error}: {}", brief(&bytes))),
        }
    });
}

pub fn c05(ctx: &mut Ctx) {
    let check = |ctx: &mut Ctx, entries: &[cff::Entry]| {
        let bytes = cff::dict_bytes(entries);
        ctx.input(&bytes);
        let (got, bad) = run!(ctx, {
            let got = Cursor::new(&bytes[..]).take::<Operations>();
            let bad = got
                .as_ref()
                .ok()
                .and_then(|got| cmp::lookups("dictionary", got, entries).err());
            (got, bad)
        });
        ctx.evaluated_bytes(&bytes, true);
        ctx.count("lookups", spec::DICT.len() as u64);
        if let Err(error) = got {
            ctx.violate("rejected", format!("{error}: {}", brief(&bytes)));
        }
        if let Some(text) = bad {
            ctx.violate("a lookup", text);
        }
        ctx.sample(|| format!("{} entries: {}", entries.len(), brief(&bytes)));
    };
    ctx.cases("defaults", 1, 1, |ctx, _, _| {
        check(ctx, &[]);
        for &(_, operator, default) in spec::DICT {
            ctx.evaluated(hash_bytes(1, format!("{operator:?}").as_bytes()), true);
            let found = operator.default();
            if !cmp::is_default(found, default) {
                ctx.violate("a default", format!("{operator:?} has {found:?}"));
            }
            let none = Operations::default();
            if !cmp::is_default(none.get(operator), default) {
                ctx.violate("a lookup in nothing", format!("{operator:?}"));
            }
        }
    });
    let n = spec::DICT.len() as u64;
    // Each operator alone, and each pair, with any number of operands.
    ctx.cases("one", 10 * n, 1_000 * n, |ctx, rng, i| {
        let code = spec::DICT[(i % n) as usize].0;
        let k = (i / n) as usize % 8;
        check(ctx, &[entry(code, (0..k).map(|_| cff::number(rng)).collect())]);
    });
    ctx.cases("pairs", n * n, 40 * n * n, |ctx, rng, i| {
        let (a, b) = ((i / n % n) as usize, (i % n) as usize);
        let mut list = vec![];
        for code in [spec::DICT[a].0, spec::DICT[b].0] {
            let k = rng.size(0, 3);
            list.push(entry(code, (0..k).map(|_| cff::number(rng)).collect()));
        }
        check(ctx, &list);
    });
    ctx.cases("random", 60_000, 6_000_000, |ctx, rng, _| {
        let list: Vec<_> = (0..rng.size(0, 70))
            .map(|_| {
                let k = rng.size(0, 6);
                entry(rng.pick(spec::DICT).0, (0..k).map(|_| cff::number(rng)).collect())
            })
            .collect();
        check(ctx, &list);
    });
}

// ----------------------------------------------------------------------- C06

fn lossy(bytes: &[u8]) -> String {
    // One replacement per maximal invalid part, as Unicode recommends.
    let mut out = String::new();
    let mut rest = bytes;
    while !rest.is_empty() {
        match decode_one(rest) {
            Ok((c, n)) => {
                out.push(c);
                rest = &rest[n..];
            }
            Err(n) => {
                out.push('\u{fffd}');
                rest = &rest[n..];
            }
        }
    }
    out
}

/// The first character and its length, or the length of what cannot be one.
fn decode_one(b: &[u8]) -> Result<(char, usize), usize> {
    let first = b[0];
    let (n, low, high, mut v) = match first {
        0..=0x7f => return Ok((first as char, 1)),
        0xc2..=0xdf => (2, 0x80, 0xbf, first as u32 & 0x1f),
        0xe0 => (3, 0xa0, 0xbf, 0),
        0xe1..=0xec | 0xee | 0xef => (3, 0x80, 0xbf, first as u32 & 0xf),
        0xed => (3, 0x80, 0x9f, 0xd),
        0xf0 => (4, 0x90, 0xbf, 0),
        0xf1..=0xf3 => (4, 0x80, 0xbf, first as u32 & 7),
        0xf4 => (4, 0x80, 0x8f, 4),
        _ => return Err(1),
    };
    for k in 1..n {
        let range = if k == 1 { low..=high } else { 0x80..=0xbf };
        match b.get(k) {
            Some(c) if range.contains(c) => v = v << 6 | (*c as u32 & 0x3f),
            _ => return Err(k),
        }
    }
    Ok((char::from_u32(v).unwrap(), n))
}

fn text_bytes(rng: &mut Rng) -> Vec<u8> {
    // What may be taken for more than itself where it comes first or last.
    const ENDS: [&[u8]; 12] = [
        b"\xef\xbb\xbf", b"\0", b" ", b"\t", b"\n", b"\r\n", b"(", b")", b"/", b"\xff\xfe",
        b"\xfe\xff", b"\xc2\xa0",
    ];
    let n = match rng.below(400) {
        0 => *rng.pick(&[63, 64, 126, 127, 128, 254, 255, 256, 257, 511, 512, 1_000]),
        1 => rng.size(0, 5_000),
        _ => rng.size(0, 12),
    };
    let mut out = vec![];
    if rng.one_in(20) {
        out.extend_from_slice(*rng.pick(&ENDS));
    }
    if rng.one_in(20) {
        // The same all the way.
        out.resize(out.len() + n, rng.u8());
        return out;
    }
    for _ in 0..n {
        match rng.below(6) {
            0..=2 => out.push(rng.range(0x20, 0x7e) as u8),
            3 => {
                let c = loop {
                    let v = match rng.below(3) {
                        0 => rng.below(0x800),
                        1 => rng.below(0x10000),
                        _ => rng.below(0x110000),
                    };
                    if let Some(c) = char::from_u32(v as u32) {
                        break c;
                    }
                };
                let mut b = [0; 4];
                out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                if rng.percent(20) {
                    out.pop();
                }
            }
            4 => out.push(rng.range(0x80, 0xff) as u8),
            _ => out.push(rng.u8()),
        }
    }
    if rng.one_in(20) {
        out.extend_from_slice(*rng.pick(&ENDS));
    }
    out
}

pub fn c06(ctx: &mut Ctx) {
    let standard = spec::standard_strings();
    assert_eq!(standard.len(), 391);
    let check = |ctx: &mut Ctx, rng: &mut Rng, data: &[Vec<u8>], all: bool| {
        let bytes = IndexM::new(rng, data.to_vec()).bytes();
        ctx.input(&bytes);
        let strings = match run!(ctx, Cursor::new(&bytes[..]).take::<Strings>()) {
            Ok(strings) => strings,
            Err(error) => return ctx.violate("rejected", error.to_string()),
        };
        let end = 391 + data.len();
        let ids: Vec<u16> = if all {
            (0..=65535).collect()
        } else {
            let mut ids: Vec<usize> = vec![0, 1, 389, 390, 391, 392, end - 1, end, end + 1, 65535];
            for _ in 0..40 {
                ids.push(rng.usize(end + 3));
                ids.push(rng.usize(65536));
            }
            ids.into_iter().filter(|i| *i < 65536).map(|i| i as u16).collect()
        };
        let found = run!(ctx, ids.iter().map(|id| strings.get(*id)).collect::<Vec<_>>());
        for (id, found) in ids.iter().zip(found) {
            let i = *id as usize;
            let want = if i < 391 {
                Some(standard[i].to_string())
            } else {
                data.get(i - 391).map(|b| lossy(b))
            };
            ctx.evaluated(mix(hash_bytes(i as u64, want.as_deref().unwrap_or("").as_bytes())), want.is_some());
            if found != want {
                ctx.violate(
                    if i < 391 { "a standard string" } else { "a string of the font" },
                    format!("{id} is {found:?} instead of {want:?} of {} strings", data.len()),
                );
            }
        }
    };
    ctx.cases("all identifiers", 24, 2_000, |ctx, rng, i| {
        let n = match i % 8 {
            0 => 0,
            1 => 1,
            2 => 391,
            3 => 65_535 - 391,
            4 => 65_535 - 391 + 1,
            5 => 65_535,
            _ => rng.size(2, 3_000),
        };
        let data: Vec<Vec<u8>> = (0..n).map(|_| text_bytes(rng)).collect();
        check(ctx, rng, &data, true);
        ctx.sample(|| format!("all identifiers over {n} strings"));
    });
    ctx.cases("random", 6_000, 400_000, |ctx, rng, _| {
        let n = rng.size(0, 60);
        let data: Vec<Vec<u8>> = (0..n).map(|_| text_bytes(rng)).collect();
        check(ctx, rng, &data, false);
        ctx.sample(|| format!("{:?}", data.iter().take(3).map(|b| lossy(b)).collect::<Vec<_>>()));
    });
    ctx.cases("names", 20_000, 1_000_000, |ctx, rng, _| {
        let n = if rng.one_in(20) { rng.size(0, 2_000) } else { rng.size(0, 8) };
        let data: Vec<Vec<u8>> = (0..n).map(|_| text_bytes(rng)).collect();
        let bytes = IndexM::new(rng, data.clone()).bytes();
        ctx.input(&bytes);
        let got = run!(ctx, {
            Cursor::new(&bytes[..])
                .take::<Names>()
                .and_then(Vec::<String>::try_from)
        });
        let want: Vec<String> = data.iter().map(|b| lossy(b)).collect();
        ctx.evaluated_bytes(&bytes, n > 0);
        ctx.count(
            "names that are not valid",
            data.iter().filter(|b| std::str::from_utf8(b).is_err()).count() as u64,
        );
        match got {
            Ok(got) if got == want => {}
            other => ctx.violate("names", format!("{other:?} instead of {want:?}")),
        }
    });
    // The names of the glyphs of real fonts.
    let n = corpus::fonts().len() as u64;
    ctx.cases("real", n, n, |ctx, _, i| {
        let font = &corpus::fonts()[i as usize];
        let Some(parsed) = corpus::parsed(ctx, font) else { return };
        let set = parsed.0;
        let ids: Vec<u16> = match &set.character_sets[0] {
            CharacterSet::Format0(c) => c.glyphs.clone(),
            CharacterSet::Format1(c) => c
                .ranges
                .iter()
                .flat_map(|r| (0..=r.left_count as u16).map(|k| r.first_string_id.wrapping_add(k)))
                .collect(),
            CharacterSet::Format2(c) => c
                .ranges
                .iter()
                .flat_map(|r| (0..=r.left_count).map(|k| r.first_string_id.wrapping_add(k)))
                .collect(),
            _ => return,
        };
        if crate::cmp::is_cid(&set) {
            return;
        }
        for (glyph, id) in std::iter::once(0).chain(ids).enumerate() {
            let Some(want) = font.glyphs.get(glyph) else { continue };
            if want.name.is_empty() || want.name == "-" {
                continue;
            }
            let found = run!(ctx, set.strings.get(id));
            ctx.evaluated(mix(hash_bytes(glyph as u64, want.name.as_bytes())), true);
            if found.as_deref() != Some(&want.name) {
                ctx.violate(
                    "a name of a real font",
                    format!("{} glyph {glyph}: {found:?} instead of {}", font.name, want.name),
                );
            }
        }
    });
}

// ----------------------------------------------------------------------- C07

pub fn c07(ctx: &mut Ctx) {
    let check = |ctx: &mut Ctx, number: Number| {
        let got = match ctx.target(|| StringID::try_from(number).ok()) {
            Ok(got) => got,
            Err(panic) => return ctx.violate("panic", format!("{number:?}: {panic}")),
        };
        let want = match number {
            Number::Integer(v) if (0..=65535).contains(&v) => Some(v as u16),
            _ => None,
        };
        let key = match number {
            Number::Integer(v) => v as u32 as u64,
            Number::Real(v) => 1 << 40 | v.to_bits() as u64,
        };
        ctx.evaluated(mix(key), true);
        ctx.count(if want.is_some() { "to convert" } else { "to refuse" }, 1);
        if got != want {
            ctx.violate(
                match (want, got) {
                    (None, _) => "converted with a loss",
                    (Some(_), None) => "refused",
                    _ => "converted wrongly",
                },
                format!("{number:?} to {got:?} instead of {want:?}"),
            );
        }
    };
    ctx.cases("valid", 256, 256, |ctx, _, i| {
        for low in 0..256 {
            check(ctx, Number::Integer((i * 256 + low) as i32));
        }
        ctx.sample(|| format!("{} and on", i * 256));
    });
    ctx.cases("integers", 400_000, 4_000_000, |ctx, rng, i| {
        let v = match i % 4 {
            0 => rng.u64() as i32,
            1 => cff::int_edge(rng),
            2 => 65_536i32
                .wrapping_mul(rng.range(-32_768, 32_767) as i32)
                .wrapping_add(rng.range(-3, 3) as i32),
            _ => rng.range(-70_000, 140_000) as i32,
        };
        check(ctx, Number::Integer(v));
        ctx.sample(|| format!("{v}"));
    });
    ctx.cases("reals", 100_000, 4_000_000, |ctx, rng, i| {
        let v = match i % 3 {
            0 => f32::from_bits(rng.u64() as u32),
            1 => rng.range(-10, 70_000) as f32,
            _ => *rng.pick(&[0.0, -0.0, 1.0, 65_535.0, 65_536.0, f32::INFINITY, f32::NAN, 0.5]),
        };
        check(ctx, Number::Real(v));
        ctx.sample(|| format!("{v}"));
    });
    if ctx.thorough() {
        ctx.cases("all integers", 0, 65_536, |ctx, _, i| {
            let result = ctx.target(|| {
                (0..65_536u32).map(|low| ((i as u32) << 16 | low) as i32).find(|&v| {
                    let got = StringID::try_from(Number::Integer(v)).ok();
                    got != u16::try_from(v).ok()
                })
            });
            ctx.evaluations += 65_536;
            match result {
                Ok(None) => {}
                Ok(Some(v)) => check(ctx, Number::Integer(v)),
                Err(panic) => ctx.violate("panic", panic),
            }
        });
    }
}

// --------------------------------------------------------------- C08 and C10

pub fn c08(ctx: &mut Ctx) {
    let tables = [
        ("standard", Encoding::Standard, spec::encoding(spec::STANDARD_ENCODING)),
        ("expert", Encoding::Expert, spec::encoding(spec::EXPERT_ENCODING)),
    ];
    ctx.cases("codes", 512, 512, |ctx, _, i| {
        let (name, encoding, table) = &tables[(i / 256) as usize];
        for low in 0..256u16 {
            let code = (i % 256) as u16 * 256 + low;
            let got = run!(ctx, encoding.get(code));
            let want = (code < 256).then(|| table[code as usize]);
            ctx.evaluated(mix(i << 20 | low as u64), want.is_some());
            ctx.count(if want.is_some() { "codes" } else { "values beyond" }, 1);
            if got != want {
                ctx.violate(
                    format!("{name} encoding"),
                    format!("{code} gives {got:?} instead of {want:?}"),
                );
            }
            ctx.sample(|| format!("{name}: {code} gives {got:?}"));
        }
    });
}

pub fn c10(ctx: &mut Ctx) {
    let standard = spec::standard_strings();
    let tables = [
        ("ISOAdobe", CharacterSet::ISOAdobe, spec::charset(&[(0, 228)])),
        ("Expert", CharacterSet::Expert, spec::charset(spec::EXPERT_CHARSET)),
        ("ExpertSubset", CharacterSet::ExpertSubset, spec::charset(spec::EXPERT_SUBSET_CHARSET)),
    ];
    ctx.cases("glyphs", 768, 768, |ctx, _, i| {
        let (name, set, table) = &tables[(i / 256) as usize];
        for low in 0..256u16 {
            let glyph = (i % 256) as u16 * 256 + low;
            let got = run!(ctx, set.get(glyph));
            let want = table.get(glyph as usize).map(|id| standard[*id as usize]);
            ctx.evaluated(mix(i << 20 | low as u64), want.is_some());
            ctx.count(if want.is_some() { "glyphs" } else { "past the end" }, 1);
            if got != want {
                ctx.violate(
                    format!("{name} set"),
                    format!("{glyph} is {got:?} instead of {want:?}"),
                );
            }
            ctx.sample(|| format!("{name}: {glyph} is {got:?}"));
        }
    });
}

// ----------------------------------------------------------------------- C09

pub fn c09(ctx: &mut Ctx) {
    let read = |ctx: &mut Ctx, rng: &mut Rng, own: &[u8]| -> Option<(Result<Encoding, String>, u64)> {
        let before = if rng.percent(50) { rng.size(1, 9) } else { 0 };
        let mut stream = rng.noise(before);
        stream.extend_from_slice(own);
        let n = rng.size(0, 700);
        stream.extend(rng.noise(n));
        ctx.input(&stream[before..]);
        let most = rng.size(1, 3);
        let slow = rng.one_in(5);
        let seed = rng.u64();
        match ctx.target(|| {
            if slow {
                let mut tape = Tape::new(&stream, seed);
                tape.most = most;
                let _ = std::io::Seek::seek(&mut tape, std::io::SeekFrom::Start(before as u64));
                let got = tape.take::<Encoding>();
                let after = std::io::Seek::stream_position(&mut tape).unwrap_or(u64::MAX);
                (got.map_err(|e| e.to_string()), after)
            } else {
                let mut tape = Cursor::new(&stream[..]);
                tape.set_position(before as u64);
                let got = tape.take::<Encoding>();
                (got.map_err(|e| e.to_string()), tape.position())
            }
        }) {
            Ok((got, after)) => Some((got, after.wrapping_sub(before as u64))),
            Err(panic) => {
                ctx.violate("panic", panic);
                None
            }
        }
    };
    let plain = |ctx: &mut Ctx, rng: &mut Rng, model: &EncodingM| {
        let own = model.bytes();
        let Some((got, after)) = read(ctx, rng, &own) else { return };
        ctx.evaluated_bytes(&own, true);
        match got {
            Ok(got) => {
                if let Err(text) = cmp::encoding(&got, model) {
                    ctx.violate("decoded differently", text);
                }
                if after != own.len() as u64 {
                    ctx.violate("position", format!("{after} instead of {}: {}", own.len(), brief(&own)));
                }
            }
            Err(error) => ctx.violate("rejected", format!("{error}: {}", brief(&own))),
        }
        ctx.sample(|| brief(&own));
    };
    // Every number of codes and of ranges.
    ctx.cases("format 0", 256 * 12, 256 * 2_000, |ctx, rng, i| {
        let n = (i % 256) as usize;
        let codes = rng.texture8(n);
        plain(ctx, rng, &EncodingM::Format0(codes));
    });
    ctx.cases("format 1", 256 * 12, 256 * 2_000, |ctx, rng, i| {
        let n = (i % 256) as usize;
        let firsts = rng.texture8(n);
        let ranges = firsts.into_iter().zip(rng.texture8(n)).collect();
        plain(ctx, rng, &EncodingM::Format1(ranges));
    });
    ctx.cases("other formats", 256, 256, |ctx, rng, i| {
        if matches!(i, 0 | 1 | 0x80 | 0x81) {
            return;
        }
        for _ in 0..6 {
            let n = rng.size(0, 5);
            let mut own = vec![i as u8, n as u8];
            own.extend(rng.bytes(n * 3));
            let Some((got, _)) = read(ctx, rng, &own) else { return };
            ctx.evaluated_bytes(&own, true);
            ctx.count("unknown formats", 1);
            if let Ok(got) = got {
                // With the flag for supplements, the rest is still no format.
                ctx.violate(
                    if i & 0x80 == 0 {
                        "accepted an unknown format"
                    } else {
                        "accepted an unknown format with supplements"
                    },
                    format!("{} as {got:?}", brief(&own)),
                );
            }
        }
    });
    ctx.cases("cut", 1_000, 50_000, |ctx, rng, i| {
        let n = rng.size(0, 40);
        let model = if i % 2 == 0 {
            EncodingM::Format0(rng.texture8(n))
        } else {
            let firsts = rng.texture8(n);
            EncodingM::Format1(firsts.into_iter().zip(rng.texture8(n)).collect())
        };
        let own = model.bytes();
        for k in 0..own.len() {
            ctx.input(&own[..k]);
            let got = run!(ctx, Cursor::new(&own[..k]).take::<Encoding>());
            ctx.evaluated_bytes(&own[..k], true);
            if got.is_ok() {
                ctx.violate("accepted a cut table", brief(&own[..k]));
            }
        }
    });
    // Supplements: the base mapping, and the additional ones after it.
    ctx.cases("supplements", 6_000, 200_000, |ctx, rng, i| {
        let most = if rng.one_in(8) { 255 } else { 20 };
        let n = rng.size(0, most);
        let format = (i % 2) as u8;
        let mut own = if format == 0 {
            EncodingM::Format0(rng.texture8(n)).bytes()
        } else {
            EncodingM::Format1((0..n).map(|_| (rng.u8(), rng.u8())).collect()).bytes()
        };
        own[0] |= 0x80;
        let n = rng.size(0, if most == 255 { 255 } else { 12 });
        let codes = rng.texture8(n);
        let supplements: Vec<(u8, u16)> = codes.into_iter().zip(rng.texture(n)).collect();
        own.push(supplements.len() as u8);
        for s in &supplements {
            own.push(s.0);
            own.extend_from_slice(&s.1.to_be_bytes());
        }
        // The stream goes on, so that nothing runs out.
        let mut stream = own.clone();
        stream.extend(rng.noise(800));
        ctx.input(&stream);
        let (got, after) = run!(ctx, {
            let mut tape = Cursor::new(&stream[..]);
            let got = tape.take::<Encoding>();
            (got, tape.position())
        });
        ctx.evaluated_bytes(&own, true);
        let text = format!("{got:?}");
        // Whatever the representation, all of it must be there: the base in
        // full, the supplements in full, and the stream right after them.
        let all = crate::cmp::supplemented(&text, &own, &supplements) && after == own.len() as u64;
        if let Ok(Encoding::FormatSupplemental(e)) = &got {
            let counts = match &*e.encoding {
                Encoding::Format0(e) => e.code_count == own[1] && e.codes.len() == own[1] as usize,
                Encoding::Format1(e) => e.range_count == own[1] && e.ranges.len() == own[1] as usize,
                _ => false,
            };
            if !counts || e.supplement_count as usize != e.supplements.len() {
                ctx.violate("supplements: counts", format!("{} is {text}", brief(&own)));
                return;
            }
        }
        if all {
            ctx.count("decoded in full", 1);
            return;
        }
        // The way in which it is known to be wrong: the counter of the base is
        // taken for that of the supplements, and the base for the supplements.
        let count = stream[1] as usize;
        let known = match &got {
            Ok(Encoding::FormatSupplemental(e)) => {
                e.format == own[0]
                    && e.supplement_count as usize == count
                    && e.supplements.len() == count
                    && e.supplements.iter().enumerate().all(|(k, s)| {
                        let at = 2 + 3 * k;
                        s.code == stream[at]
                            && s.glyph == u16::from_be_bytes([stream[at + 1], stream[at + 2]])
                    })
                    && after == 2 + 3 * count as u64
            }
            _ => false,
        };
        if known {
            ctx.violate(
                "supplements: the base mapping is read as if it were the supplements",
                format!("{}: {text}", brief(&own)),
            );
        } else {
            ctx.violate("supplements", format!("{}: {text} at {after}", brief(&own)));
        }
    });
}

// --------------------------------------------------------------- C11 and C12

/// Read a table that stands amid others, possibly from a slow stream.
fn amid<V>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    own: &[u8],
    read: impl Fn(&mut Tape) -> postscript::Result<V>,
) -> Option<(Result<V, String>, u64)> {
    let before = if rng.percent(50) { rng.size(1, 9) } else { 0 };
    let mut stream = rng.noise(before);
    stream.extend_from_slice(own);
    let n = rng.size(0, 12);
    stream.extend(rng.noise(n));
    ctx.input(&stream[before..]);
    let slow = rng.one_in(4).then(|| rng.size(1, 3));
    let seed = rng.u64();
    match ctx.target(|| {
        use std::io::Seek;
        let mut tape = Tape::new(&stream, seed);
        if let Some(most) = slow {
            tape.most = most;
        }
        let _ = tape.seek(std::io::SeekFrom::Start(before as u64));
        let got = read(&mut tape);
        let after = tape.stream_position().unwrap_or(u64::MAX);
        (got.map_err(|e| e.to_string()), after)
    }) {
        Ok((got, after)) => Some((got, after.wrapping_sub(before as u64))),
        Err(panic) => {
            ctx.violate("panic", format!("{panic}: {}", brief(own)));
            None
        }
    }
}

pub fn c11(ctx: &mut Ctx) {
    let check = |ctx: &mut Ctx, rng: &mut Rng, glyphs: usize, format: u8| {
        let model = CharsetM::custom(rng, glyphs, format);
        let own = model.bytes();
        let Some((got, after)) = amid(ctx, rng, &own, |tape| {
            tape.take_given::<CharacterSet>(glyphs)
        }) else {
            return;
        };
        ctx.evaluated(mix(hash_bytes(glyphs as u64, &own)), glyphs > 1);
        ctx.count(&format!("format {format}"), 1);
        ctx.max("glyphs", glyphs as u64);
        match got {
            Ok(got) => {
                if let Err(text) = cmp::charset(&got, &model) {
                    ctx.violate("decoded differently", format!("{glyphs} glyphs: {text}"));
                }
                if after != own.len() as u64 {
                    ctx.violate(
                        "position",
                        format!("{glyphs} glyphs, format {format}: {after} instead of {}", own.len()),
                    );
                }
            }
            Err(error) => ctx.violate(
                "rejected",
                format!("{error}: {glyphs} glyphs, format {format}, {}", brief(&own)),
            ),
        }
        ctx.sample(|| format!("{glyphs} glyphs: {}", brief(&own)));
    };
    ctx.cases("random", 60_000, 6_000_000, |ctx, rng, i| {
        let glyphs = if rng.one_in(20) { rng.size(1, 3_000) } else { rng.size(1, 40) };
        check(ctx, rng, glyphs, (i % 3) as u8);
    });
    ctx.cases("counts", 1_200, 3 * 65_535, |ctx, rng, i| {
        let glyphs = if ctx.thorough() {
            1 + (i / 3) as usize
        } else if i < 900 {
            1 + (i / 3) as usize
        } else {
            let edges = [511, 512, 513, 1024, 4096, 32767, 32768, 32769, 65533, 65534, 65535];
            if rng.percent(30) {
                *rng.pick(&edges)
            } else {
                rng.size(300, 65_535)
            }
        };
        check(ctx, rng, glyphs, (i % 3) as u8);
    });
    // One range too long, by one or by more, first or last or in between.
    ctx.cases("too many", 30_000, 2_000_000, |ctx, rng, i| {
        let glyphs = if rng.one_in(10) { rng.size(2, 3_000) } else { rng.size(2, 40) };
        let covered = glyphs - 1;
        let format = 1 + (i % 2) as u8;
        let most = if format == 1 { 255 } else { 65_535 };
        // Ranges up to some point, and then one that goes too far.
        let mut left = covered;
        let mut own = vec![format];
        let write = |own: &mut Vec<u8>, id: u16, more: usize| {
            own.extend_from_slice(&id.to_be_bytes());
            if format == 1 {
                own.push(more as u8);
            } else {
                own.extend_from_slice(&(more as u16).to_be_bytes());
            }
        };
        let stop = rng.size(1, covered.min(most));
        while left > stop {
            let n = rng.size(1, (left - stop).min(most + 1));
            write(&mut own, rng.u16(), n - 1);
            left -= n;
        }
        // Now `left` are left, and the last range covers more.
        let over = if rng.percent(60) { left } else { rng.size(left, most) };
        write(&mut own, rng.u16(), over);
        let n = rng.size(0, 30);
        own.extend(rng.noise(n));
        let Some((got, _)) = amid(ctx, rng, &own, |tape| {
            tape.take_given::<CharacterSet>(glyphs)
        }) else {
            return;
        };
        ctx.evaluated(mix(hash_bytes(glyphs as u64, &own)), true);
        ctx.count("ranges that cover too much", 1);
        if let Ok(got) = got {
            let text: String = format!("{got:?}").chars().take(200).collect();
            ctx.violate(
                "accepted ranges that cover too much",
                format!("{glyphs} glyphs: {} as {text}", brief(&own)),
            );
        }
    });
    // Ranges as short and as long as they get, and all that they cover.
    ctx.cases("extreme ranges", 6_000, 300_000, |ctx, rng, i| {
        let format = 1 + (i % 2) as u8;
        let edges: &[usize] = if format == 1 {
            &[0, 0, 1, 127, 128, 253, 254, 255, 255]
        } else {
            &[0, 0, 1, 254, 255, 256, 511, 32766, 32767, 32768, 65279, 65280, 65534, 65535, 65535]
        };
        let n = if rng.one_in(4) { rng.size(1, 40) } else { rng.size(1, 3) };
        let mut total = 0usize;
        let mut own = vec![format];
        let mut ranges = vec![];
        let firsts = rng.texture(n);
        for first in firsts {
            let more = *rng.pick(edges);
            if total + more + 1 > 140_000 {
                break;
            }
            total += more + 1;
            ranges.push((first, more));
            own.extend_from_slice(&first.to_be_bytes());
            if format == 1 {
                own.push(more as u8);
            } else {
                own.extend_from_slice(&(more as u16).to_be_bytes());
            }
        }
        let model = if format == 1 {
            CharsetM::Format1(ranges.iter().map(|r| (r.0, r.1 as u8)).collect())
        } else {
            CharsetM::Format2(ranges.iter().map(|r| (r.0, r.1 as u16)).collect())
        };
        let last = ranges.last().unwrap().1;
        ctx.evaluated_bytes(&own, true);
        // All of them.
        let exact = amid(ctx, rng, &own, |tape| tape.take_given::<CharacterSet>(total + 1));
        match exact {
            Some((Ok(got), after)) => {
                if let Err(text) = cmp::charset(&got, &model) {
                    ctx.violate("decoded differently", format!("{total} covered: {text}"));
                }
                if after != own.len() as u64 {
                    ctx.violate(
                        "position",
                        format!("{total} covered: {after} instead of {}", own.len()),
                    );
                }
            }
            Some((Err(error), _)) => {
                ctx.violate("rejected", format!("{error}: {total} covered: {}", brief(&own)))
            }
            None => return,
        }
        ctx.count("exact covers", 1);
        ctx.max("glyphs", total as u64 + 1);
        // Fewer, so that the last one goes too far.
        if last > 0 {
            let other = rng.size(1, last);
            for fewer in [1, last, other] {
                let Some((got, _)) = amid(ctx, rng, &own, |tape| {
                    tape.take_given::<CharacterSet>(total + 1 - fewer)
                }) else {
                    return;
                };
                ctx.count("ranges that cover too much", 1);
                if got.is_ok() {
                    ctx.violate(
                        "accepted ranges that cover too much",
                        format!("{} glyphs: {}", total + 1 - fewer, brief(&own)),
                    );
                }
            }
        }
        // More, with nothing else to read.
        for more in [1, 2, 255, 256, 65_535, 65_536] {
            let glyphs = total + 1 + more;
            ctx.input(&own);
            let got = run!(ctx, Cursor::new(&own[..]).take_given::<CharacterSet>(glyphs));
            ctx.count("ranges that cover too little", 1);
            if got.is_ok() {
                ctx.violate(
                    "accepted ranges that cover too little",
                    format!("{glyphs} glyphs: {}", brief(&own)),
                );
            }
        }
    });
    ctx.cases("no glyphs", 600, 6_000, |ctx, rng, i| {
        let mut own = vec![(i % 3) as u8];
        let n = rng.size(0, 40);
        own.extend(rng.noise(n));
        let Some((got, _)) = amid(ctx, rng, &own, |tape| tape.take_given::<CharacterSet>(0)) else {
            return;
        };
        ctx.evaluated_bytes(&own, true);
        ctx.count("glyph counts of zero", 1);
        if got.is_ok() {
            ctx.violate("accepted a glyph count of zero", brief(&own));
        }
    });
    ctx.cases("other formats", 256, 256, |ctx, rng, i| {
        if i < 3 {
            return;
        }
        for _ in 0..6 {
            let glyphs = rng.size(1, 6);
            let mut own = vec![i as u8];
            own.extend(rng.noise(40));
            let Some((got, _)) = amid(ctx, rng, &own, |tape| {
                tape.take_given::<CharacterSet>(glyphs)
            }) else {
                return;
            };
            ctx.evaluated_bytes(&own, true);
            ctx.count("unknown formats", 1);
            if got.is_ok() {
                ctx.violate("accepted an unknown format", brief(&own));
            }
        }
    });
    ctx.cases("cut", 3_000, 100_000, |ctx, rng, i| {
        let glyphs = rng.size(2, 30);
        let own = CharsetM::custom(rng, glyphs, (i % 3) as u8).bytes();
        for n in 0..own.len() {
            ctx.input(&own[..n]);
            let got = run!(ctx, Cursor::new(&own[..n]).take_given::<CharacterSet>(glyphs));
            ctx.evaluated(mix(hash_bytes(glyphs as u64, &own[..n])), true);
            if got.is_ok() {
                ctx.violate("accepted a cut table", format!("{glyphs} glyphs: {}", brief(&own[..n])));
            }
        }
    });
    // The names of the glyphs of real fonts, in order.
    let n = corpus::fonts().len() as u64;
    ctx.cases("real", n, n, |ctx, _, i| {
        let font = &corpus::fonts()[i as usize];
        let Some(parsed) = corpus::parsed(ctx, font) else { return };
        let set = parsed.0;
        let covered = match &set.character_sets[0] {
            CharacterSet::Format0(c) => c.glyphs.len(),
            CharacterSet::Format1(c) => c.ranges.iter().map(|r| r.left_count as usize + 1).sum(),
            CharacterSet::Format2(c) => c.ranges.iter().map(|r| r.left_count as usize + 1).sum(),
            _ => return,
        };
        ctx.evaluated(hash_bytes(1, font.name.as_bytes()), true);
        if covered + 1 != font.glyphs.len() {
            ctx.violate(
                "real font",
                format!("{}: {} glyphs are covered out of {}", font.name, covered + 1, font.glyphs.len()),
            );
        }
    });
}

fn with_glyphs(glyphs: usize) -> CharacterStrings {
    CharacterStrings(Index {
        count: glyphs as u16,
        offset_size: 1,
        offsets: vec![Offset(1); glyphs + 1],
        data: vec![vec![]; glyphs],
    })
}

pub fn c12(ctx: &mut Ctx) {
    let check = |ctx: &mut Ctx, rng: &mut Rng, glyphs: usize, model: &FdSelectM| {
        let own = model.bytes();
        let strings = with_glyphs(glyphs);
        let Some((got, after)) = amid(ctx, rng, &own, |tape| {
            tape.take_given::<character_id_keyed::Encoding>(&strings)
        }) else {
            return;
        };
        ctx.evaluated(mix(hash_bytes(glyphs as u64, &own)), true);
        ctx.max("glyphs", glyphs as u64);
        match model {
            FdSelectM::Format0(_) => ctx.count("format 0", 1),
            FdSelectM::Format3(ranges, _) => {
                ctx.count("format 3", 1);
                ctx.max("ranges", ranges.len() as u64);
            }
        }
        match got {
            Ok(got) => {
                if let Err(text) = cmp::select(&got, model) {
                    ctx.violate("decoded differently", format!("{glyphs} glyphs: {text}"));
                }
                if after != own.len() as u64 {
                    ctx.violate(
                        "position",
                        format!("{glyphs} glyphs: {after} instead of {}: {}", own.len(), brief(&own)),
                    );
                }
            }
            Err(error) => ctx.violate("rejected", format!("{error}: {glyphs} glyphs: {}", brief(&own))),
        }
        ctx.sample(|| format!("{glyphs} glyphs: {}", brief(&own)));
    };
    ctx.cases("random", 60_000, 6_000_000, |ctx, rng, _| {
        let glyphs = if rng.one_in(20) { rng.size(1, 3_000) } else { rng.size(1, 40) };
        let n = rng.size(1, 256);
        let model = FdSelectM::random(rng, glyphs, n);
        check(ctx, rng, glyphs, &model);
    });
    ctx.cases("counts", 600, 65_535, |ctx, rng, i| {
        let glyphs = if ctx.thorough() {
            1 + i as usize
        } else if i < 300 {
            1 + i as usize
        } else {
            *rng.pick(&[511, 512, 513, 4096, 32767, 32768, 65534, 65535, 40_000])
        };
        let model = if rng.percent(60) {
            FdSelectM::Format0(rng.bytes(glyphs))
        } else {
            // A range per glyph.
            let ranges = (0..glyphs).map(|g| (g as u16, rng.u8())).collect();
            FdSelectM::Format3(ranges, glyphs as u16)
        };
        check(ctx, rng, glyphs, &model);
    });
    // Whatever the ranges say, they are what is decoded.
    ctx.cases("any ranges", 20_000, 2_000_000, |ctx, rng, i| {
        let glyphs = rng.size(1, 300);
        let n = match i % 50 {
            0 => *rng.pick(&[255usize, 256, 257, 511, 512, 32767, 32768, 65535]),
            1 | 2 => rng.size(0, 600),
            _ => rng.size(0, 12),
        };
        let firsts = rng.texture(n);
        let ids = rng.texture8(n);
        let end = rng.texture(1)[0];
        let model = FdSelectM::Format3(firsts.into_iter().zip(ids).collect(), end);
        check(ctx, rng, glyphs, &model);
    });
    ctx.cases("any indices", 8_000, 800_000, |ctx, rng, i| {
        let glyphs = if i % 20 == 0 { rng.size(1, 3_000) } else { rng.size(1, 70) };
        let model = FdSelectM::Format0(rng.texture8(glyphs));
        check(ctx, rng, glyphs, &model);
    });
    ctx.cases("other formats", 256, 256, |ctx, rng, i| {
        if i == 0 || i == 3 {
            return;
        }
        for _ in 0..6 {
            let glyphs = rng.size(0, 6);
            let mut own = vec![i as u8];
            own.extend(rng.noise(40));
            let strings = with_glyphs(glyphs);
            let Some((got, _)) = amid(ctx, rng, &own, |tape| {
                tape.take_given::<character_id_keyed::Encoding>(&strings)
            }) else {
                return;
            };
            ctx.evaluated_bytes(&own, true);
            ctx.count("unknown formats", 1);
            if got.is_ok() {
                ctx.violate("accepted an unknown format", brief(&own));
            }
        }
    });
    ctx.cases("cut", 3_000, 100_000, |ctx, rng, _| {
        let glyphs = rng.size(1, 30);
        let own = FdSelectM::random(rng, glyphs, 9).bytes();
        let strings = with_glyphs(glyphs);
        for n in 0..own.len() {
            ctx.input(&own[..n]);
            let got = run!(ctx, {
                Cursor::new(&own[..n]).take_given::<character_id_keyed::Encoding>(&strings)
            });
            ctx.evaluated(mix(hash_bytes(glyphs as u64, &own[..n])), true);
            if got.is_ok() {
                ctx.violate("accepted a cut table", format!("{glyphs} glyphs: {}", brief(&own[..n])));
            }
        }
    });
}

// ----------------------------------------------------------------------- C13

pub fn c13(ctx: &mut Ctx) {
    let check = |ctx: &mut Ctx, rng: &mut Rng, bytes: &[u8], fonts: Option<usize>| {
        let before = if rng.percent(60) { rng.size(1, 400) } else { 0 };
        let mut stream = rng.noise(before);
        stream.extend_from_slice(bytes);
        let Some(parsed) = parse(ctx, &stream, before) else { return };
        let Ok(set) = parsed else {
            ctx.violate("rejected", brief(bytes));
            return;
        };
        ctx.input(bytes);
        let most = rng.size(1, 4);
        let seed = rng.u64();
        let (got, slow) = run!(ctx, {
            let mut tape = Cursor::new(&stream[..]);
            tape.set_position(before as u64);
            let got = FontSet::count(&mut tape);
            let mut tape = Tape::new(&stream, seed);
            tape.most = most;
            tape.interrupt = 4;
            let _ = std::io::Seek::seek(&mut tape, std::io::SeekFrom::Start(before as u64));
            (got, FontSet::count(&mut tape))
        });
        ctx.evaluated(mix(hash_bytes(before as u64, bytes)), true);
        ctx.max("fonts", set.names.len() as u64);
        ctx.max("header", set.header.header_size as u64);
        if let Some(fonts) = fonts {
            if set.names.len() != fonts || set.operations.len() != fonts {
                ctx.violate(
                    "parsing gives another number",
                    format!("{} names, {} dictionaries, {fonts} fonts", set.names.len(), set.operations.len()),
                );
            }
        }
        for got in [got, slow] {
            match got {
                Ok(got) if got == set.names.len() && got == set.operations.len() => {}
                other => ctx.violate(
                    "counting gives another number",
                    format!(
                        "{other:?} instead of {} at {before}, header of {}",
                        set.names.len(),
                        set.header.header_size
                    ),
                ),
            }
        }
        ctx.sample(|| format!("{} fonts at {before}, header of {}", set.names.len(), set.header.header_size));
    };
    ctx.cases("random", 20_000, 2_000_000, |ctx, rng, _| {
        let fonts = if rng.one_in(20) { 60 } else { 6 };
        let model = SetM::random(rng, &Style { fonts, ..Style::small() });
        check(ctx, rng, &model.write().bytes, Some(model.fonts.len()));
    });
    ctx.cases("headers", 252, 252 * 20, |ctx, rng, i| {
        let mut model = SetM::random(rng, &Style { fonts: 3, ..Style::small() });
        let tail = (i % 252) as usize;
        model.header[2] = 4 + tail as u8;
        model.header_tail = rng.noise(tail);
        check(ctx, rng, &model.write().bytes, Some(model.fonts.len()));
    });
    // Names as many as the format allows; the fonts are as small as they get.
    ctx.cases("many", 24, 400, |ctx, rng, i| {
        let n = *rng.pick(&[0usize, 1, 255, 256, 257, 1_000, 4_096, 10_000]);
        let n = if i == 0 { 65_535 } else { n };
        let names = vec![vec![b'a']; n];
        // All the fonts share their tables.
        let mut top = vec![];
        let mut base = 0usize;
        for _ in 0..20 {
            let dict = cff::dict_bytes(&[
                entry(cff::PRIVATE, vec![cff::int(0), cff::int_long(base as i32)]),
                entry(cff::CHARSTRINGS, vec![cff::int_long(base as i32)]),
            ]);
            top = vec![dict; n];
            let size = 4
                + IndexM::plain(names.clone()).bytes().len()
                + IndexM::plain(top.clone()).bytes().len()
                + 4;
            if size == base {
                break;
            }
            base = size;
        }
        let mut bytes = vec![1, 0, 4, 4];
        bytes.extend(IndexM::plain(names).bytes());
        bytes.extend(IndexM::plain(top).bytes());
        bytes.extend([0, 0, 0, 0]);
        bytes.extend(IndexM::plain(vec![vec![14]]).bytes());
        check(ctx, rng, &bytes, Some(n));
    });
    let n = corpus::fonts().len() as u64;
    ctx.cases("real", n, n, |ctx, rng, i| {
        let font = &corpus::fonts()[i as usize];
        check(ctx, rng, font.bytes(), Some(1));
    });
    // Altered beginnings that still are well-formed.
    ctx.cases("altered", 20_000, 1_000_000, |ctx, rng, _| {
        let model = SetM::random(rng, &Style { fonts: 5, ..Style::small() });
        let written = model.write();
        let mut bytes = written.bytes.clone();
        crate::props_b::mutate(rng, &mut bytes, &spots(&written));
        if refr::font_set(&bytes, 0).is_ok() {
            check(ctx, rng, &bytes, None);
        }
    });
}
