//! A model of font sets and an independent writer of the Compact Font Format.

use crate::rng::Rng;
use crate::spec;

// ------------------------------------------------------------------- numbers

#[derive(Clone, Debug)]
pub struct Num {
    pub value: Value,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Copy, Debug)]
pub enum Value {
    Int(i32),
    Real(f32),
}

impl PartialEq for Value {
    fn eq(&self, other: &Value) -> bool {
        match (self, other) {
            (Value::Int(a), Value::Int(b)) => a == b,
            (Value::Real(a), Value::Real(b)) => a.to_bits() == b.to_bits() || a == b,
            _ => false,
        }
    }
}

/// Write an integer in `form` bytes; zero stands for the shortest form.
pub fn int_bytes(value: i32, form: u8) -> Option<Vec<u8>> {
    Some(match form {
        0 => {
            return [1, 2, 3, 5].iter().find_map(|&f| int_bytes(value, f));
        }
        1 if (-107..=107).contains(&value) => vec![(value + 139) as u8],
        2 if (108..=1131).contains(&value) => {
            let v = value - 108;
            vec![247 + (v >> 8) as u8, v as u8]
        }
        2 if (-1131..=-108).contains(&value) => {
            let v = -value - 108;
            vec![251 + (v >> 8) as u8, v as u8]
        }
        3 if (-32768..=32767).contains(&value) => {
            vec![28, (value >> 8) as u8, value as u8]
        }
        5 => vec![
            29,
            (value >> 24) as u8,
            (value >> 16) as u8,
            (value >> 8) as u8,
            value as u8,
        ],
        _ => return None,
    })
}

pub fn int(value: i32) -> Num {
    Num {
        value: Value::Int(value),
        bytes: int_bytes(value, 0).unwrap(),
    }
}

pub fn int_long(value: i32) -> Num {
    Num {
        value: Value::Int(value),
        bytes: int_bytes(value, 5).unwrap(),
    }
}

/// An integer in a random one of its forms.
pub fn int_any(rng: &mut Rng, value: i32) -> Num {
    let form = *rng.pick(&[0u8, 0, 0, 3, 5]);
    let bytes = int_bytes(value, form).unwrap_or_else(|| int_bytes(value, 0).unwrap());
    Num {
        value: Value::Int(value),
        bytes,
    }
}

/// Pack the text of a decimal number; `pad` fills the unused half byte.
pub fn real_bytes(text: &str, pad: u8) -> Vec<u8> {
    let mut nibbles = vec![];
    let chars: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        nibbles.push(match chars[i] {
            c @ '0'..='9' => c as u8 - b'0',
            '.' => 0xa,
            'e' if chars.get(i + 1) == Some(&'-') => {
                i += 1;
                0xc
            }
            'e' => 0xb,
            '-' => 0xe,
            '?' => 0xd,
            _ => unreachable!(),
        });
        i += 1;
    }
    nibbles.push(0xf);
    if nibbles.len() % 2 == 1 {
        nibbles.push(pad & 0xf);
    }
    let mut bytes = vec![30];
    for pair in nibbles.chunks(2) {
        bytes.push(pair[0] << 4 | pair[1]);
    }
    bytes
}

pub fn real(text: &str) -> Num {
    Num {
        value: Value::Real(text.parse().expect("a decimal number")),
        bytes: real_bytes(text, 0xf),
    }
}

/// The text of a random decimal number.
pub fn real_text(rng: &mut Rng) -> String {
    let digits = |rng: &mut Rng, n: usize| -> String {
        (0..n)
            .map(|_| (b'0' + rng.below(10) as u8) as char)
            .collect()
    };
    let mut text = String::new();
    if rng.percent(40) {
        text.push('-');
    }
    let most = if rng.one_in(20) { 50 } else { 9 };
    let whole = rng.size(0, most);
    let part = rng.size(if whole == 0 { 1 } else { 0 }, most);
    text += &digits(rng, whole);
    if part > 0 || rng.percent(30) {
        text.push('.');
        text += &digits(rng, part);
    }
    if rng.percent(50) {
        text.push('e');
        if rng.percent(50) {
            text.push('-');
        }
        let n = if rng.one_in(10) { 3 } else { rng.size(1, 2) };
        text += &digits(rng, n);
    }
    text
}

/// An integer that is likely to be near a boundary.
pub fn int_edge(rng: &mut Rng) -> i32 {
    match rng.below(8) {
        0 | 1 => rng.range(-120, 120) as i32,
        2 => rng.range(-1140, 1140) as i32,
        3 => {
            let edges = [
                -108, -107, 107, 108, -1132, -1131, 1131, 1132, 363, 364, 619, 620, 875, 876,
                -363, -364, -619, -620, -875, -876, 32767, 32768, -32768, -32769, 65535, 65536,
                8388607, 8388608, -8388608, -8388609, 16777215, 16777216, i32::MAX, i32::MIN,
                i32::MIN + 1, 0, -1, 1, 255, 256, -255, -256, 127, 128, -128, -129,
            ];
            *rng.pick(&edges)
        }
        4 | 5 => rng.range(-40000, 40000) as i32,
        6 => (1i64 << rng.below(32)).wrapping_add(rng.range(-2, 2)) as i32,
        _ => rng.u64() as i32,
    }
}

pub fn number(rng: &mut Rng) -> Num {
    if rng.percent(20) {
        real(&real_text(rng))
    } else {
        let value = int_edge(rng);
        int_any(rng, value)
    }
}

// -------------------------------------------------------------- dictionaries

#[derive(Clone, Debug)]
pub struct Entry {
    pub code: u16,
    pub operands: Vec<Num>,
}

pub fn entry(code: u16, operands: Vec<Num>) -> Entry {
    Entry { code, operands }
}

pub fn dict_bytes(entries: &[Entry]) -> Vec<u8> {
    let mut bytes = vec![];
    for e in entries {
        for n in &e.operands {
            bytes.extend_from_slice(&n.bytes);
        }
        if e.code > 0xff {
            bytes.push((e.code >> 8) as u8);
        }
        bytes.push(e.code as u8);
    }
    bytes
}

pub const CHARSET: u16 = 15;
pub const ENCODING: u16 = 16;
pub const CHARSTRINGS: u16 = 17;
pub const PRIVATE: u16 = 18;
pub const SUBRS: u16 = 19;
pub const CHARSTRING_TYPE: u16 = 0x0c06;
pub const ROS: u16 = 0x0c1e;
pub const FDARRAY: u16 = 0x0c24;
pub const FDSELECT: u16 = 0x0c25;

const STRUCTURAL: &[u16] = &[
    CHARSET,
    ENCODING,
    CHARSTRINGS,
    PRIVATE,
    SUBRS,
    CHARSTRING_TYPE,
    ROS,
    FDARRAY,
    FDSELECT,
];

/// Random entries that say nothing about the layout, repetitions included.
pub fn entries(rng: &mut Rng, most: usize) -> Vec<Entry> {
    let n = rng.size(0, most);
    (0..n)
        .map(|_| loop {
            let row = rng.pick(spec::DICT);
            if STRUCTURAL.contains(&row.0) {
                continue;
            }
            let k = if rng.one_in(15) {
                rng.size(0, 48)
            } else {
                rng.size(0, 6)
            };
            break entry(row.0, (0..k).map(|_| number(rng)).collect());
        })
        .collect()
}

// -------------------------------------------------------------------- indices

pub fn least_offset_size(data: &[Vec<u8>]) -> u8 {
    let last = 1 + data.iter().map(|d| d.len() as u64).sum::<u64>();
    match last {
        0..=0xff => 1,
        0x100..=0xffff => 2,
        0x1_0000..=0xff_ffff => 3,
        _ => 4,
    }
}

pub fn index_offsets(data: &[Vec<u8>]) -> Vec<u32> {
    let mut offset = 1;
    let mut offsets = vec![1];
    for d in data {
        offset += d.len() as u32;
        offsets.push(offset);
    }
    offsets
}

pub fn index_bytes(data: &[Vec<u8>], offset_size: u8) -> Vec<u8> {
    let mut bytes = vec![(data.len() >> 8) as u8, data.len() as u8];
    if data.is_empty() {
        return bytes;
    }
    bytes.push(offset_size);
    for offset in index_offsets(data) {
        bytes.extend_from_slice(&offset.to_be_bytes()[4 - offset_size as usize..]);
    }
    for d in data {
        bytes.extend_from_slice(d);
    }
    bytes
}

#[derive(Clone, Debug, Default)]
pub struct IndexM {
    pub data: Vec<Vec<u8>>,
    pub offset_size: u8,
}

impl IndexM {
    pub fn new(rng: &mut Rng, data: Vec<Vec<u8>>) -> Self {
        let least = least_offset_size(&data);
        let offset_size = if rng.percent(60) {
            least
        } else {
            rng.range(least as i64, 4) as u8
        };
        IndexM { data, offset_size }
    }

    pub fn plain(data: Vec<Vec<u8>>) -> Self {
        let offset_size = least_offset_size(&data);
        IndexM { data, offset_size }
    }

    pub fn bytes(&self) -> Vec<u8> {
        index_bytes(&self.data, self.offset_size)
    }
}

pub fn chunks(rng: &mut Rng, count: usize, most: usize) -> Vec<Vec<u8>> {
    let repeats = if rng.percent(30) { rng.below(100) } else { 0 };
    let mut all: Vec<Vec<u8>> = Vec::with_capacity(count);
    for k in 0..count {
        if k > 0 && rng.percent(repeats) {
            // The same as some element before, likely the last one.
            let from = if rng.percent(70) { k - 1 } else { rng.usize(k) };
            all.push(all[from].clone());
            continue;
        }
        let n = if rng.one_in(4) {
            rng.size(0, 2)
        } else {
            rng.size(0, most)
        };
        all.push(rng.noise(n));
    }
    all
}

// ----------------------------------------------------------------- font sets

#[derive(Clone, Debug)]
pub enum CharsetM {
    /// A predefined set, and whether the operator is spelled out.
    Predefined(u8, bool),
    Format0(Vec<u16>),
    Format1(Vec<(u16, u8)>),
    Format2(Vec<(u16, u16)>),
}

impl CharsetM {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        match self {
            CharsetM::Predefined(..) => unreachable!(),
            CharsetM::Format0(ids) => {
                b.push(0);
                for id in ids {
                    b.extend_from_slice(&id.to_be_bytes());
                }
            }
            CharsetM::Format1(ranges) => {
                b.push(1);
                for &(first, left) in ranges {
                    b.extend_from_slice(&first.to_be_bytes());
                    b.push(left);
                }
            }
            CharsetM::Format2(ranges) => {
                b.push(2);
                for &(first, left) in ranges {
                    b.extend_from_slice(&first.to_be_bytes());
                    b.extend_from_slice(&left.to_be_bytes());
                }
            }
        }
        b
    }

    /// The beginning of a set, if it covers exactly so many.
    pub fn first(&self, covered: usize) -> Option<Self> {
        let cut = |counts: Vec<usize>| -> Option<usize> {
            let mut sum = 0;
            for (k, n) in counts.iter().enumerate() {
                if sum == covered {
                    return Some(k);
                }
                sum += n + 1;
            }
            (sum == covered).then_some(counts.len())
        };
        match self {
            CharsetM::Predefined(..) => None,
            CharsetM::Format0(ids) => {
                (ids.len() >= covered).then(|| CharsetM::Format0(ids[..covered].to_vec()))
            }
            CharsetM::Format1(r) => {
                let n = cut(r.iter().map(|r| r.1 as usize).collect())?;
                Some(CharsetM::Format1(r[..n].to_vec()))
            }
            CharsetM::Format2(r) => {
                let n = cut(r.iter().map(|r| r.1 as usize).collect())?;
                Some(CharsetM::Format2(r[..n].to_vec()))
            }
        }
    }

    /// A random custom set for a number of glyphs.
    pub fn custom(rng: &mut Rng, glyphs: usize, format: u8) -> Self {
        let covered = glyphs - 1;
        let split = |rng: &mut Rng, most: usize| {
            let mut left = covered;
            let mut sizes = vec![];
            let style = rng.below(3);
            while left > 0 {
                let top = left.min(most);
                let n = match style {
                    0 => rng.size(1, top),
                    1 => top,
                    _ => rng.size(1, top.min(4)),
                };
                sizes.push(n);
                left -= n;
            }
            sizes
        };
        match format {
            0 => CharsetM::Format0(rng.texture(covered)),
            1 => {
                let sizes = split(rng, 256);
                let firsts = rng.texture(sizes.len());
                CharsetM::Format1(
                    firsts.into_iter().zip(sizes).map(|(id, n)| (id, (n - 1) as u8)).collect(),
                )
            }
            _ => {
                let sizes = split(rng, 65536);
                let firsts = rng.texture(sizes.len());
                CharsetM::Format2(
                    firsts.into_iter().zip(sizes).map(|(id, n)| (id, (n - 1) as u16)).collect(),
                )
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum EncodingM {
    Predefined(u8, bool),
    Format0(Vec<u8>),
    Format1(Vec<(u8, u8)>),
    /// One of the above two followed by additional codes.
    Supplemental(Box<EncodingM>, Vec<(u8, u16)>),
}

impl EncodingM {
    pub fn random(rng: &mut Rng) -> Self {
        match rng.below(5) {
            0 | 1 => {
                let n = rng.size(0, 20);
                EncodingM::Format0(rng.texture8(n))
            }
            2 | 3 => {
                let n = rng.size(0, 10);
                let firsts = rng.texture8(n);
                EncodingM::Format1(firsts.into_iter().zip(rng.texture8(n)).collect())
            }
            _ => {
                let base = loop {
                    match EncodingM::random(rng) {
                        EncodingM::Supplemental(..) => {}
                        base => break base,
                    }
                };
                let n = rng.size(0, 8);
                let codes = rng.texture8(n);
                let glyphs = (0..n).map(|_| if rng.one_in(3) { rng.u16() } else { rng.size(0, 500) as u16 });
                let supplements = codes.into_iter().zip(glyphs).collect();
                EncodingM::Supplemental(Box::new(base), supplements)
            }
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        match self {
            EncodingM::Predefined(..) => unreachable!(),
            EncodingM::Format0(codes) => {
                b.push(0);
                b.push(codes.len() as u8);
                b.extend_from_slice(codes);
            }
            EncodingM::Format1(ranges) => {
                b.push(1);
                b.push(ranges.len() as u8);
                for &(first, left) in ranges {
                    b.push(first);
                    b.push(left);
                }
            }
            EncodingM::Supplemental(base, supplements) => {
                b = base.bytes();
                b[0] |= 0x80;
                b.push(supplements.len() as u8);
                for &(code, glyph) in supplements {
                    b.push(code);
                    b.extend_from_slice(&glyph.to_be_bytes());
                }
            }
        }
        b
    }
}

#[derive(Clone, Debug)]
pub enum FdSelectM {
    Format0(Vec<u8>),
    Format3(Vec<(u16, u8)>, u16),
}

impl FdSelectM {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        match self {
            FdSelectM::Format0(ids) => {
                b.push(0);
                b.extend_from_slice(ids);
            }
            FdSelectM::Format3(ranges, end) => {
                b.push(3);
                b.extend_from_slice(&(ranges.len() as u16).to_be_bytes());
                for &(first, id) in ranges {
                    b.extend_from_slice(&first.to_be_bytes());
                    b.push(id);
                }
                b.extend_from_slice(&end.to_be_bytes());
            }
        }
        b
    }

    pub fn random(rng: &mut Rng, glyphs: usize, dictionaries: usize) -> Self {
        let one = rng.usize(dictionaries.max(1)) as u8;
        let steady = rng.percent(25);
        let id = |rng: &mut Rng| {
            if steady && rng.percent(90) {
                one
            } else {
                rng.usize(dictionaries.max(1)) as u8
            }
        };
        if rng.percent(50) {
            FdSelectM::Format0((0..glyphs).map(|_| id(rng)).collect())
        } else {
            let mut ranges = vec![];
            let mut next = 0;
            while next < glyphs && ranges.len() < 65535 {
                ranges.push((next as u16, id(rng)));
                next += 1 + rng.usize((glyphs - next).min(8));
            }
            FdSelectM::Format3(ranges, glyphs as u16)
        }
    }
}

#[derive(Clone, Debug)]
pub struct PrivateM {
    pub entries: Vec<Entry>,
    pub subroutines: Option<IndexM>,
    /// Where among the entries the operator of the subroutines goes.
    pub place: usize,
    /// Whether it is said to be at the very beginning; it is empty then.
    pub nowhere: bool,
}

#[derive(Clone, Debug)]
pub struct CidM {
    pub registry: u16,
    pub ordering: u16,
    pub supplement: Num,
    pub select: FdSelectM,
    pub dictionaries: Vec<(Vec<Entry>, PrivateM)>,
    pub array_offset_size: u8,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Name(PrivateM),
    Cid(CidM),
}

#[derive(Clone, Debug)]
pub struct FontM {
    pub entries: Vec<Entry>,
    pub explicit_type: bool,
    pub charstrings: IndexM,
    pub charset: CharsetM,
    pub encoding: EncodingM,
    pub kind: Kind,
}

#[derive(Clone, Debug)]
pub struct SetM {
    pub header: [u8; 4],
    pub header_tail: Vec<u8>,
    pub names: IndexM,
    pub fonts: Vec<FontM>,
    pub top_offset_size: u8,
    pub strings: IndexM,
    pub subroutines: IndexM,
    /// Seeds the order of and the gaps between the tables.
    pub layout: u64,
    pub gaps: bool,
    /// Whether a table that another one begins with is not written again.
    pub share: bool,
}

#[derive(Clone, Debug)]
pub struct Style {
    pub fonts: usize,
    pub cid: u8,
    pub most_glyphs: usize,
    pub most_chunk: usize,
    pub gaps: bool,
}

impl Style {
    pub fn small() -> Self {
        Style {
            fonts: 2,
            cid: 30,
            most_glyphs: 8,
            most_chunk: 12,
            gaps: true,
        }
    }
}

fn private(rng: &mut Rng, style: &Style) -> PrivateM {
    if rng.one_in(20) {
        // Nothing, which may be anywhere.
        return PrivateM {
            entries: vec![],
            subroutines: None,
            place: 0,
            nowhere: rng.percent(60),
        };
    }
    let entries = entries(rng, 8);
    let subroutines = if rng.percent(60) {
        let n = rng.size(0, 6);
        let data = chunks(rng, n, style.most_chunk);
        Some(IndexM::new(rng, data))
    } else {
        None
    };
    let place = rng.usize(entries.len() + 1);
    PrivateM {
        entries,
        subroutines,
        place,
        nowhere: false,
    }
}

impl FontM {
    pub fn random(rng: &mut Rng, style: &Style) -> Self {
        let glyphs = if rng.one_in(6) {
            1
        } else {
            rng.size(1, style.most_glyphs)
        };
        let data = chunks(rng, glyphs, style.most_chunk);
        let charstrings = IndexM::new(rng, data);
        let charset = match rng.below(6) {
            0 => CharsetM::Predefined(0, rng.percent(50)),
            1 => CharsetM::Predefined(1, true),
            2 => CharsetM::Predefined(2, true),
            f => CharsetM::custom(rng, glyphs, (f - 3) as u8),
        };
        let encoding = match rng.below(4) {
            0 => EncodingM::Predefined(0, rng.percent(50)),
            1 => EncodingM::Predefined(1, true),
            _ => EncodingM::random(rng),
        };
        let kind = if rng.percent(style.cid as u64) {
            let n = if rng.one_in(8) { 0 } else { rng.size(1, 5) };
            let dictionaries: Vec<_> = (0..n)
                .map(|_| (entries(rng, 3), private(rng, style)))
                .collect();
            Kind::Cid(CidM {
                registry: if rng.one_in(4) { rng.u16() } else { rng.size(0, 700) as u16 },
                ordering: if rng.one_in(4) { rng.u16() } else { rng.size(0, 700) as u16 },
                supplement: number(rng),
                select: FdSelectM::random(rng, glyphs, n),
                dictionaries,
                array_offset_size: if rng.percent(50) { 0 } else { rng.range(2, 4) as u8 },
            })
        } else {
            Kind::Name(private(rng, style))
        };
        let mut entries = entries(rng, 10);
        if rng.percent(20) {
            // An earlier version of an entry that is written again below.
            let code = *rng.pick(&[CHARSTRINGS, CHARSET, ENCODING, PRIVATE]);
            let operands = (0..rng.size(0, 3)).map(|_| number(rng)).collect();
            let decoy = entry(code, operands);
            let written = match code {
                CHARSTRINGS => true,
                PRIVATE => matches!(kind, Kind::Name(..)),
                CHARSET => !matches!(charset, CharsetM::Predefined(0, false)),
                _ => !matches!(encoding, EncodingM::Predefined(0, false)),
            };
            if written {
                entries.insert(0, decoy);
            }
        }
        if matches!(kind, Kind::Name(..)) && rng.percent(15) {
            let code = *rng.pick(&[FDARRAY, FDSELECT]);
            let n = rng.size(0, 2);
            entries.push(entry(code, (0..n).map(|_| number(rng)).collect()));
        }
        FontM {
            entries,
            explicit_type: rng.percent(40),
            charstrings,
            charset,
            encoding,
            kind,
        }
    }
}

impl SetM {
    /// Make some element of some table larger than usual buffers are.
    pub fn swell(&mut self, rng: &mut Rng) {
        let more = match rng.below(4) {
            0 => *rng.pick(&[4_096usize, 8_192, 16_384, 32_768]) + rng.usize(5) - 2,
            _ => rng.size(3_000, 40_000),
        };
        let noise = rng.noise(more);
        let grow = |rng: &mut Rng, index: &mut IndexM| -> bool {
            if index.data.is_empty() {
                return false;
            }
            let k = rng.usize(index.data.len());
            index.data[k].extend_from_slice(&noise);
            index.offset_size = index.offset_size.max(least_offset_size(&index.data));
            true
        };
        let i = rng.usize(self.fonts.len().max(1));
        loop {
            let done = match (rng.below(6), self.fonts.get_mut(i)) {
                (0, _) => grow(rng, &mut self.strings),
                (1, _) => grow(rng, &mut self.subroutines),
                (2, _) => {
                    let n = rng.size(1, 4);
                    self.strings.data.extend((0..n).map(|_| noise[..n].to_vec()));
                    self.strings.offset_size =
                        self.strings.offset_size.max(least_offset_size(&self.strings.data));
                    grow(rng, &mut self.strings)
                }
                (3, Some(font)) => grow(rng, &mut font.charstrings),
                (4, Some(font)) => {
                    let mut all = font.privates_mut();
                    if all.is_empty() {
                        continue;
                    }
                    let k = rng.usize(all.len());
                    match &mut all[k].subroutines {
                        Some(index) => grow(rng, index),
                        _ => false,
                    }
                }
                (_, Some(font)) => {
                    let mut all = font.privates_mut();
                    if all.is_empty() {
                        continue;
                    }
                    let k = rng.usize(all.len());
                    // Entries of which the last ones count.
                    let mut size = 0;
                    let mut more = vec![];
                    while size < noise.len() {
                        let e = entries(rng, 8);
                        size += dict_bytes(&e).len();
                        more.extend(e);
                    }
                    all[k].entries.splice(0..0, more);
                    all[k].nowhere = false;
                    true
                }
                _ => false,
            };
            if done {
                return;
            }
        }
    }
}

/// Give tables of some fonts to others.
fn alike(rng: &mut Rng, fonts: &mut [FontM]) {
    for i in 0..fonts.len() {
        if let Kind::Cid(cid) = &mut fonts[i].kind {
            for j in 1..cid.dictionaries.len() {
                if rng.percent(40) {
                    let from = cid.dictionaries[rng.usize(j)].clone();
                    if rng.percent(50) {
                        cid.dictionaries[j] = from;
                    } else {
                        cid.dictionaries[j].1 = from.1;
                    }
                }
            }
        }
        if i == 0 {
            continue;
        }
        let from = fonts[rng.usize(i)].clone();
        let font = &mut fonts[i];
        if rng.percent(25) {
            *font = from;
            continue;
        }
        if rng.percent(30) {
            let n = font.charstrings.data.len();
            if n == from.charstrings.data.len() {
                font.charstrings = from.charstrings.clone();
            }
        }
        let glyphs = font.charstrings.data.len();
        if rng.percent(60) && !matches!(font.charset, CharsetM::Predefined(..)) {
            if let Some(charset) = from.charset.first(glyphs - 1) {
                font.charset = charset;
            }
        }
        if rng.percent(50)
            && !matches!(font.encoding, EncodingM::Predefined(..))
            && !matches!(from.encoding, EncodingM::Predefined(..))
        {
            font.encoding = from.encoding.clone();
        }
        let privates: Vec<PrivateM> = match &from.kind {
            Kind::Name(p) => vec![p.clone()],
            Kind::Cid(cid) => cid.dictionaries.iter().map(|d| d.1.clone()).collect(),
        };
        match &mut font.kind {
            Kind::Name(p) => {
                if rng.percent(50) && !privates.is_empty() {
                    *p = rng.pick(&privates).clone();
                }
            }
            Kind::Cid(cid) => {
                if let Kind::Cid(other) = &from.kind {
                    if rng.percent(30) {
                        cid.dictionaries = other.dictionaries.clone();
                        cid.array_offset_size = other.array_offset_size;
                        let n = cid.dictionaries.len();
                        cid.select = FdSelectM::random(rng, glyphs, n);
                    }
                    if let FdSelectM::Format0(ids) = &other.select {
                        if rng.percent(30) && ids.len() >= glyphs {
                            cid.select = FdSelectM::Format0(ids[..glyphs].to_vec());
                        }
                    }
                }
                for d in &mut cid.dictionaries {
                    if rng.percent(30) && !privates.is_empty() {
                        d.1 = rng.pick(&privates).clone();
                    }
                }
            }
        }
        for p in font.privates_mut() {
            // The same without the last entry, or with a part of it.
            if p.subroutines.is_none() && rng.percent(20) {
                p.entries.pop();
                p.place = p.place.min(p.entries.len());
            }
        }
    }
}

impl FontM {
    pub fn privates(&self) -> Vec<&PrivateM> {
        match &self.kind {
            Kind::Name(p) => vec![p],
            Kind::Cid(cid) => cid.dictionaries.iter().map(|d| &d.1).collect(),
        }
    }

    fn privates_mut(&mut self) -> Vec<&mut PrivateM> {
        match &mut self.kind {
            Kind::Name(p) => vec![p],
            Kind::Cid(cid) => cid.dictionaries.iter_mut().map(|d| &mut d.1).collect(),
        }
    }
}

impl SetM {
    pub fn random(rng: &mut Rng, style: &Style) -> Self {
        let count = if rng.percent(70) {
            1
        } else {
            rng.size(0, style.fonts)
        };
        let tail = if rng.percent(30) { rng.size(1, 251) } else { 0 };
        let names = chunks(rng, count, 20);
        let n = rng.size(0, 6);
        let strings = chunks(rng, n, style.most_chunk);
        let n = rng.size(0, 6);
        let subroutines = chunks(rng, n, style.most_chunk);
        let mut fonts: Vec<FontM> = (0..count).map(|_| FontM::random(rng, style)).collect();
        let share = rng.percent(50);
        if share {
            alike(rng, &mut fonts);
        }
        SetM {
            share,
            header: [
                if rng.percent(80) { 1 } else { rng.u8() },
                rng.u8(),
                4 + tail as u8,
                if rng.percent(80) { rng.range(1, 4) as u8 } else { rng.u8() },
            ],
            header_tail: rng.noise(tail),
            names: IndexM::new(rng, names),
            fonts,
            top_offset_size: if rng.percent(50) { 0 } else { rng.range(2, 4) as u8 },
            strings: IndexM::new(rng, strings),
            subroutines: IndexM::new(rng, subroutines),
            layout: rng.u64(),
            gaps: style.gaps && rng.percent(70),
        }
    }
}

/// What was written: the bytes and the final dictionaries.
#[derive(Clone, Debug)]
pub struct Written {
    pub bytes: Vec<u8>,
    pub top: Vec<Vec<Entry>>,
    pub top_index: IndexM,
    pub private: Vec<Vec<Vec<Entry>>>,
    pub arrays: Vec<Vec<Vec<Entry>>>,
    /// Start and length of every table that an offset points at.
    pub sections: Vec<(&'static str, usize, usize)>,
    /// How many tables are a part of others.
    pub shared: usize,
}

/// Replaces the operands of an entry at writing.
#[derive(Clone, Debug)]
pub enum Edit {
    /// Set the operands of an operator of the top dictionary of a font.
    Top(usize, u16, Option<Vec<Num>>),
    /// Set the operands of an operator of a font dictionary.
    Array(usize, usize, u16, Option<Vec<Num>>),
    /// Set the operands of an operator of a private dictionary.
    Private(usize, usize, u16, Option<Vec<Num>>),
    /// Change the bytes of a table of a font.
    Table(usize, &'static str, Vec<u8>),
    /// Append raw bytes to a dictionary.
    TopTail(usize, Vec<u8>),
    PrivateTail(usize, usize, Vec<u8>),
    ArrayTail(usize, usize, Vec<u8>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Id {
    CharStrings(usize),
    Charset(usize),
    Encoding(usize),
    Select(usize),
    Array(usize),
    Private(usize, usize),
    Subrs(usize, usize),
}

impl SetM {
    pub fn write(&self) -> Written {
        self.write_edited(&[])
    }

    pub fn write_edited(&self, edits: &[Edit]) -> Written {
        let mut rng = Rng::new(self.layout);
        let mut ids = vec![];
        for (i, font) in self.fonts.iter().enumerate() {
            ids.push(Id::CharStrings(i));
            if !matches!(font.charset, CharsetM::Predefined(..)) {
                ids.push(Id::Charset(i));
            }
            if !matches!(font.encoding, EncodingM::Predefined(..)) {
                ids.push(Id::Encoding(i));
            }
            let privates: Vec<&PrivateM> = match &font.kind {
                Kind::Name(p) => vec![p],
                Kind::Cid(cid) => {
                    ids.push(Id::Select(i));
                    ids.push(Id::Array(i));
                    cid.dictionaries.iter().map(|d| &d.1).collect()
                }
            };
            for (j, p) in privates.iter().enumerate() {
                ids.push(Id::Private(i, j));
                if p.subroutines.is_some() {
                    ids.push(Id::Subrs(i, j));
                }
            }
        }
        rng.shuffle(&mut ids);
        // Subroutines follow their private dictionary.
        for k in 0..ids.len() {
            if let Id::Subrs(i, j) = ids[k] {
                let p = ids.iter().position(|id| *id == Id::Private(i, j)).unwrap();
                if p > k {
                    ids.swap(p, k);
                }
            }
        }
        // After a swap another pair might be out of order; settle it.
        loop {
            let bad = (0..ids.len()).find_map(|k| match ids[k] {
                Id::Subrs(i, j) => {
                    let p = ids.iter().position(|id| *id == Id::Private(i, j)).unwrap();
                    (p > k).then_some((p, k))
                }
                _ => None,
            });
            match bad {
                Some((p, k)) => ids.swap(p, k),
                _ => break,
            }
        }
        // What stands for what.
        let mut roots: Vec<usize> = (0..ids.len()).collect();
        if self.share && edits.is_empty() {
            // The bytes, if they do not depend on the layout, or else a key.
            let keys: Vec<Result<Vec<u8>, Vec<u8>>> = ids
                .iter()
                .map(|id| match *id {
                    Id::CharStrings(i) => Ok(self.fonts[i].charstrings.bytes()),
                    Id::Charset(i) => Ok(self.fonts[i].charset.bytes()),
                    Id::Encoding(i) => Ok(self.fonts[i].encoding.bytes()),
                    Id::Select(i) => match &self.fonts[i].kind {
                        Kind::Cid(cid) => Ok(cid.select.bytes()),
                        _ => unreachable!(),
                    },
                    Id::Subrs(i, j) => {
                        Ok(self.fonts[i].privates()[j].subroutines.as_ref().unwrap().bytes())
                    }
                    Id::Private(i, j) => {
                        let p = self.fonts[i].privates()[j];
                        let bytes = dict_bytes(&p.entries);
                        match &p.subroutines {
                            None => Ok(bytes),
                            Some(s) => {
                                let before = dict_bytes(&p.entries[..p.place]).len();
                                let mut key = vec![1, before as u8, (before >> 8) as u8];
                                key.extend((bytes.len() as u32).to_le_bytes());
                                key.extend(bytes);
                                key.extend(s.bytes());
                                Err(key)
                            }
                        }
                    }
                    Id::Array(_) => Err(vec![]),
                })
                .collect();
            for k in 0..ids.len() {
                for l in k + 1..ids.len() {
                    let same = match (&keys[k], &keys[l]) {
                        (Ok(a), Ok(b)) => b.starts_with(a),
                        (Err(a), Err(b)) => !a.is_empty() && a == b,
                        _ => false,
                    };
                    if same {
                        roots[k] = l;
                    }
                }
            }
            // The arrays tell where private dictionaries are.
            for k in 0..ids.len() {
                let Id::Array(i) = ids[k] else { continue };
                for l in k + 1..ids.len() {
                    let Id::Array(m) = ids[l] else { continue };
                    let (Kind::Cid(a), Kind::Cid(b)) = (&self.fonts[i].kind, &self.fonts[m].kind)
                    else {
                        unreachable!()
                    };
                    let root = |i: usize, j: usize| {
                        roots[ids.iter().position(|id| *id == Id::Private(i, j)).unwrap()]
                    };
                    if a.array_offset_size == b.array_offset_size
                        && a.dictionaries.len() == b.dictionaries.len()
                        && (0..a.dictionaries.len()).all(|j| {
                            dict_bytes(&a.dictionaries[j].0) == dict_bytes(&b.dictionaries[j].0)
                                && dict_bytes(&a.dictionaries[j].1.entries)
                                    == dict_bytes(&b.dictionaries[j].1.entries)
                                && a.dictionaries[j].1.nowhere == b.dictionaries[j].1.nowhere
                                && root(i, j) == root(m, j)
                        })
                    {
                        roots[k] = l;
                    }
                }
            }
        }
        let gaps: Vec<Vec<u8>> = ids
            .iter()
            .map(|_| {
                if self.gaps && rng.percent(50) {
                    let n = if rng.one_in(10) {
                        rng.size(0, 3000)
                    } else {
                        rng.size(0, 40)
                    };
                    rng.noise(n)
                } else {
                    vec![]
                }
            })
            .collect();
        let mut positions = vec![0usize; ids.len()];
        let mut long = rng.percent(30);
        for round in 0..40 {
            if round == 25 {
                long = true;
            }
            let at = |id: Id| -> usize {
                ids.iter()
                    .position(|x| *x == id)
                    .map(|k| positions[k])
                    .unwrap_or(0)
            };
            let offset = |value: usize| {
                if long {
                    int_long(value as i32)
                } else {
                    int(value as i32)
                }
            };
            let edited = |entries: &mut Vec<Entry>, code: u16, operands: &Option<Vec<Num>>| {
                match operands {
                    Some(operands) => {
                        let new = entry(code, operands.clone());
                        match entries.iter().rposition(|e| e.code == code) {
                            Some(k) => entries[k] = new,
                            _ => entries.push(new),
                        }
                    }
                    _ => entries.retain(|e| e.code != code),
                }
            };
            let mut top = vec![];
            let mut all_private = vec![];
            let mut all_arrays = vec![];
            let mut tails = vec![];
            for (i, font) in self.fonts.iter().enumerate() {
                let privates: Vec<&PrivateM> = match &font.kind {
                    Kind::Name(p) => vec![p],
                    Kind::Cid(cid) => cid.dictionaries.iter().map(|d| &d.1).collect(),
                };
                let mut resolved = vec![];
                for (j, p) in privates.iter().enumerate() {
                    let mut entries = p.entries.clone();
                    if p.subroutines.is_some() {
                        let away = at(Id::Subrs(i, j)).saturating_sub(at(Id::Private(i, j)));
                        entries.insert(p.place, entry(SUBRS, vec![offset(away)]));
                    }
                    for edit in edits {
                        match edit {
                            Edit::Private(a, b, code, operands) if (*a, *b) == (i, j) => {
                                edited(&mut entries, *code, operands)
                            }
                            _ => {}
                        }
                    }
                    resolved.push(entries);
                }
                let private_tail = |j: usize| -> &[u8] {
                    edits
                        .iter()
                        .find_map(|e| match e {
                            Edit::PrivateTail(a, b, bytes) if (*a, *b) == (i, j) => {
                                Some(&bytes[..])
                            }
                            _ => None,
                        })
                        .unwrap_or(&[])
                };
                let size = |j: usize| dict_bytes(&resolved[j]).len() + private_tail(j).len();
                let private_offset = |j: usize| {
                    if privates[j].nowhere && size(j) == 0 {
                        return offset(0);
                    }
                    offset(at(Id::Private(i, j)))
                };
                let mut entries = font.entries.clone();
                let mut array = vec![];
                match &font.kind {
                    Kind::Name(_) => {
                        entries.push(entry(
                            PRIVATE,
                            vec![int(size(0) as i32), private_offset(0)],
                        ));
                    }
                    Kind::Cid(cid) => {
                        entries.insert(
                            0,
                            entry(
                                ROS,
                                vec![
                                    int(cid.registry as i32),
                                    int(cid.ordering as i32),
                                    cid.supplement.clone(),
                                ],
                            ),
                        );
                        entries.push(entry(FDARRAY, vec![offset(at(Id::Array(i)))]));
                        entries.push(entry(FDSELECT, vec![offset(at(Id::Select(i)))]));
                        for (j, (more, _)) in cid.dictionaries.iter().enumerate() {
                            let mut own = more.clone();
                            own.push(entry(
                                PRIVATE,
                                vec![int(size(j) as i32), private_offset(j)],
                            ));
                            for edit in edits {
                                match edit {
                                    Edit::Array(a, b, code, operands) if (*a, *b) == (i, j) => {
                                        edited(&mut own, *code, operands)
                                    }
                                    _ => {}
                                }
                            }
                            array.push(own);
                        }
                    }
                }
                entries.push(entry(CHARSTRINGS, vec![offset(at(Id::CharStrings(i)))]));
                if font.explicit_type {
                    entries.push(entry(CHARSTRING_TYPE, vec![int(2)]));
                }
                match font.charset {
                    CharsetM::Predefined(_, false) => {}
                    CharsetM::Predefined(n, _) => {
                        entries.push(entry(CHARSET, vec![int(n as i32)]))
                    }
                    _ => entries.push(entry(CHARSET, vec![offset(at(Id::Charset(i)))])),
                }
                match font.encoding {
                    EncodingM::Predefined(_, false) => {}
                    EncodingM::Predefined(n, _) => {
                        entries.push(entry(ENCODING, vec![int(n as i32)]))
                    }
                    _ => entries.push(entry(ENCODING, vec![offset(at(Id::Encoding(i)))])),
                }
                let mut tail = vec![];
                for edit in edits {
                    match edit {
                        Edit::Top(a, code, operands) if *a == i => {
                            edited(&mut entries, *code, operands)
                        }
                        Edit::TopTail(a, bytes) if *a == i => tail = bytes.clone(),
                        _ => {}
                    }
                }
                top.push(entries);
                tails.push(tail);
                all_private.push(resolved);
                all_arrays.push(array);
            }
            let top_data: Vec<Vec<u8>> = top
                .iter()
                .zip(&tails)
                .map(|(e, tail)| {
                    let mut bytes = dict_bytes(e);
                    bytes.extend_from_slice(tail);
                    bytes
                })
                .collect();
            let top_index = IndexM {
                offset_size: self.top_offset_size.max(least_offset_size(&top_data)),
                data: top_data,
            };
            let mut bytes = self.header.to_vec();
            bytes.extend_from_slice(&self.header_tail);
            bytes.extend(self.names.bytes());
            bytes.extend(top_index.bytes());
            bytes.extend(self.strings.bytes());
            bytes.extend(self.subroutines.bytes());
            let mut sections = vec![];
            let mut new_positions = vec![];
            for (k, id) in ids.iter().enumerate() {
                let table = |i: usize, name: &str, default: Vec<u8>| -> Vec<u8> {
                    edits
                        .iter()
                        .find_map(|e| match e {
                            Edit::Table(a, n, bytes) if *a == i && *n == name => {
                                Some(bytes.clone())
                            }
                            _ => None,
                        })
                        .unwrap_or(default)
                };
                let (name, blob) = match *id {
                    Id::CharStrings(i) => (
                        "charstrings",
                        table(i, "charstrings", self.fonts[i].charstrings.bytes()),
                    ),
                    Id::Charset(i) => {
                        ("charset", table(i, "charset", self.fonts[i].charset.bytes()))
                    }
                    Id::Encoding(i) => (
                        "encoding",
                        table(i, "encoding", self.fonts[i].encoding.bytes()),
                    ),
                    Id::Select(i) => match &self.fonts[i].kind {
                        Kind::Cid(cid) => ("select", table(i, "select", cid.select.bytes())),
                        _ => unreachable!(),
                    },
                    Id::Array(i) => match &self.fonts[i].kind {
                        Kind::Cid(cid) => {
                            let mut data: Vec<Vec<u8>> =
                                all_arrays[i].iter().map(|e| dict_bytes(e)).collect();
                            for edit in edits {
                                match edit {
                                    Edit::ArrayTail(a, j, bytes) if *a == i && *j < data.len() => {
                                        data[*j].extend_from_slice(bytes)
                                    }
                                    _ => {}
                                }
                            }
                            let size = cid.array_offset_size.max(least_offset_size(&data));
                            ("array", table(i, "array", index_bytes(&data, size)))
                        }
                        _ => unreachable!(),
                    },
                    Id::Private(i, j) => {
                        let mut bytes = dict_bytes(&all_private[i][j]);
                        for edit in edits {
                            match edit {
                                Edit::PrivateTail(a, b, tail) if (*a, *b) == (i, j) => {
                                    bytes.extend_from_slice(tail)
                                }
                                _ => {}
                            }
                        }
                        ("private", bytes)
                    }
                    Id::Subrs(i, j) => {
                        let p = match &self.fonts[i].kind {
                            Kind::Name(p) => p,
                            Kind::Cid(cid) => &cid.dictionaries[j].1,
                        };
                        let bytes = p.subroutines.as_ref().unwrap().bytes();
                        ("subroutines", table(i, "subroutines", bytes))
                    }
                };
                if roots[k] != k {
                    new_positions.push(0);
                    continue;
                }
                bytes.extend_from_slice(&gaps[k]);
                new_positions.push(bytes.len());
                sections.push((name, bytes.len(), blob.len()));
                bytes.extend_from_slice(&blob);
            }
            for k in 0..ids.len() {
                new_positions[k] = new_positions[roots[k]];
            }
            if new_positions == positions {
                return Written {
                    bytes,
                    top,
                    top_index,
                    private: all_private,
                    arrays: all_arrays,
                    sections,
                    shared: (0..ids.len()).filter(|&k| roots[k] != k).count(),
                };
            }
            positions = new_positions;
        }
        panic!("the layout of a font set did not settle");
    }
}
