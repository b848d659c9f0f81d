//! An independent reader of the Compact Font Format over a slice of bytes: what
//! any bytes mean, that they must be rejected, or that nothing is said of them.

use std::collections::BTreeMap;
use std::fmt::Write;

use crate::spec;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Reject(&'static str),
    Unspecified(&'static str),
}

use Verdict::{Reject, Unspecified};

type Res<T> = Result<T, Verdict>;

#[derive(Clone, Copy, Debug)]
pub enum Nr {
    Int(i32),
    Real(f32),
}

struct Tape<'l> {
    bytes: &'l [u8],
    at: usize,
    /// The furthest byte that was needed.
    reach: usize,
}

impl<'l> Tape<'l> {
    fn take(&mut self, n: usize) -> Res<&'l [u8]> {
        if n == 0 {
            return Ok(&[]);
        }
        if self.at > self.bytes.len() || self.bytes.len() - self.at < n {
            return Err(Reject("missing data"));
        }
        let part = &self.bytes[self.at..self.at + n];
        self.at += n;
        self.reach = self.reach.max(self.at);
        Ok(part)
    }

    fn u8(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }

    fn u16(&mut self) -> Res<u16> {
        let b = self.take(2)?;
        Ok(b[0] as u16 * 256 + b[1] as u16)
    }

    fn number(&mut self, size: usize) -> Res<u64> {
        Ok(self.take(size)?.iter().fold(0, |v, &b| v * 256 + b as u64))
    }
}

pub struct Table<'l> {
    pub size: u8,
    pub offsets: Vec<u64>,
    pub data: Vec<&'l [u8]>,
}

fn table<'l>(tape: &mut Tape<'l>) -> Res<Table<'l>> {
    let count = tape.u16()? as usize;
    if count == 0 {
        return Ok(Table {
            size: 0,
            offsets: vec![],
            data: vec![],
        });
    }
    let size = tape.u8()?;
    if !(1..=4).contains(&size) {
        return Err(Reject("an offset width"));
    }
    let mut offsets = vec![];
    for _ in 0..=count {
        offsets.push(tape.number(size as usize)?);
    }
    if offsets[0] != 1 {
        return Err(Reject("a first offset"));
    }
    if offsets.windows(2).any(|w| w[0] > w[1]) {
        return Err(Reject("a decreasing offset"));
    }
    let mut data = vec![];
    for w in offsets.windows(2) {
        data.push(tape.take((w[1] - w[0]) as usize)?);
    }
    Ok(Table {
        size,
        offsets,
        data,
    })
}

/// Whether the text spells a decimal number.
pub fn spells(text: &str) -> bool {
    let b = text.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let from = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - from
    };
    if i < b.len() && b[i] == b'-' {
        i += 1;
    }
    let mut n = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        n += digits(&mut i);
    }
    if n == 0 {
        return false;
    }
    if i < b.len() && b[i] == b'e' {
        i += 1;
        if i < b.len() && b[i] == b'-' {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}

/// The entries of a dictionary, the last operands of each operator.
pub type Dict = BTreeMap<u16, Vec<Nr>>;

pub fn dictionary(bytes: &[u8]) -> Res<Dict> {
    let mut map = Dict::new();
    let mut operands = vec![];
    let mut at = 0;
    let mut unspecified = None;
    while at < bytes.len() {
        let first = bytes[at];
        let rest = &bytes[at + 1..];
        let short = Err(Reject("an incomplete last entry"));
        match first {
            32..=246 => {
                operands.push(Nr::Int(first as i32 - 139));
                at += 1;
            }
            247..=254 => {
                if rest.is_empty() {
                    return short;
                }
                let v = if first < 251 {
                    (first as i32 - 247) * 256 + rest[0] as i32 + 108
                } else {
                    -((first as i32 - 251) * 256) - rest[0] as i32 - 108
                };
                operands.push(Nr::Int(v));
                at += 2;
            }
            28 => {
                if rest.len() < 2 {
                    return short;
                }
                operands.push(Nr::Int(i16::from_be_bytes([rest[0], rest[1]]) as i32));
                at += 3;
            }
            29 => {
                if rest.len() < 4 {
                    return short;
                }
                operands.push(Nr::Int(i32::from_be_bytes([
                    rest[0], rest[1], rest[2], rest[3],
                ])));
                at += 5;
            }
            30 => {
                let mut text = String::new();
                let mut used = 0;
                let mut done = false;
                let mut minus = false;
                'outer: for b in rest {
                    used += 1;
                    for nibble in [b >> 4, b & 15] {
                        match nibble {
                            0..=9 => text.push((b'0' + nibble) as char),
                            10 => text.push('.'),
                            11 => text.push('e'),
                            12 => text.push_str("e-"),
                            13 => return Err(Reject("a reserved digit")),
                            14 => {
                                minus |= text.ends_with('e');
                                text.push('-')
                            }
                            _ => {
                                done = true;
                                break 'outer;
                            }
                        }
                    }
                }
                if !done {
                    return short;
                }
                if minus {
                    // A positive exponent with a minus sign on top of it.
                    unspecified = Some(Unspecified("a signed positive exponent"));
                } else if !spells(&text) {
                    return Err(Reject("a malformed real"));
                }
                let value: f32 = text.parse().unwrap_or(f32::NAN);
                if !value.is_finite() {
                    unspecified = Some(Unspecified("a real out of range"));
                }
                operands.push(Nr::Real(value));
                at += 1 + used;
            }
            12 => {
                if rest.is_empty() {
                    return short;
                }
                let code = 0x0c00 | rest[0] as u16;
                if !spec::DICT.iter().any(|row| row.0 == code) {
                    return Err(Reject("a reserved operator"));
                }
                map.insert(code, std::mem::take(&mut operands));
                at += 2;
            }
            _ => {
                if !spec::DICT.iter().any(|row| row.0 == first as u16) {
                    return Err(Reject("a reserved operator"));
                }
                map.insert(first as u16, std::mem::take(&mut operands));
                at += 1;
            }
        }
    }
    match unspecified {
        Some(verdict) => Err(verdict),
        _ if !operands.is_empty() => Err(Reject("an incomplete last entry")),
        _ => Ok(map),
    }
}

/// An unspecified verdict is remembered, but a later rejection prevails only if
/// nothing unspecified came before it.
struct Reader<'l> {
    tape: Tape<'l>,
    base: usize,
    header: usize,
}

fn one(dict: &Dict, code: u16, default: Option<i32>) -> Res<Option<i32>> {
    match dict.get(&code) {
        None => Ok(default),
        Some(operands) => match operands[..] {
            [] if default.is_none() && code != 19 => Err(Reject("an entry without operands")),
            [] => Err(Unspecified("an entry without operands")),
            [Nr::Int(v)] => Ok(Some(v)),
            [Nr::Real(_)] => Err(Reject("a fractional offset")),
            [Nr::Real(_), ..] => Err(Reject("a fractional offset")),
            _ => Err(Unspecified("too many operands")),
        },
    }
}

impl<'l> Reader<'l> {
    fn jump(&mut self, offset: i64) -> Res<()> {
        if offset < 0 {
            return Err(Reject("a negative offset"));
        }
        if (offset as usize) < self.header {
            return Err(Unspecified("an offset into the header"));
        }
        self.tape.at = self.base + offset as usize;
        Ok(())
    }

    fn private(&mut self, dict: &Dict, out: &mut String) -> Res<()> {
        let (size, offset) = match dict.get(&18) {
            None => return Err(Reject("no private dictionary")),
            Some(operands) => match operands[..] {
                [Nr::Int(a), Nr::Int(b)] => (a, b),
                [] | [_] => return Err(Reject("a malformed private entry")),
                [Nr::Int(_), Nr::Int(_), ..] => return Err(Unspecified("too many operands")),
                _ => return Err(Reject("a fractional offset")),
            },
        };
        if size < 0 {
            return Err(Reject("a negative size"));
        }
        if size == 0 && (0..self.header as i32).contains(&offset) {
            // Nothing, wherever it is.
            self.tape.at = self.base + offset as usize;
        } else {
            self.jump(offset as i64)?;
        }
        if size == 0 && self.tape.at > self.tape.bytes.len() {
            return Err(Unspecified("an empty dictionary outside the input"));
        }
        let chunk = self.tape.take(size as usize)?;
        let private = dictionary(chunk)?;
        show_dictionary(out, &private);
        match one(&private, 19, None)? {
            Some(more) => {
                if more < 0 {
                    return Err(if more as i64 + (offset as i64) < 0 {
                        Reject("a negative offset")
                    } else {
                        Unspecified("subroutines before their dictionary")
                    });
                }
                if more as i64 + offset as i64 > i32::MAX as i64 {
                    return Err(Reject("an offset outside the input"));
                }
                self.jump(offset as i64 + more as i64)?;
                let subroutines = table(&mut self.tape)?;
                show_table(out, &subroutines);
            }
            None => show_table(
                out,
                &Table {
                    size: 0,
                    offsets: vec![],
                    data: vec![],
                },
            ),
        }
        Ok(())
    }
}

fn show_table(out: &mut String, table: &Table) {
    let _ = write!(out, "index {} {} ", table.data.len(), table.size);
    for o in &table.offsets {
        let _ = write!(out, "{o},");
    }
    for d in &table.data {
        let _ = write!(out, ";{}/{:x}", d.len(), crate::rng::hash_bytes(1, d));
    }
    out.push('\n');
}

fn show_number(out: &mut String, number: &Nr) {
    let _ = match number {
        Nr::Int(n) => write!(out, " {n}"),
        Nr::Real(n) => write!(out, " r{:08x}", n.to_bits()),
    };
}

fn show_dictionary(out: &mut String, dict: &Dict) {
    let mut rows: Vec<(String, &Vec<Nr>)> = dict
        .iter()
        .map(|(code, v)| (format!("{:?}", spec::dict(*code).1), v))
        .collect();
    rows.sort_by(|a, b| a.0.cmp(&b.0));
    for (k, v) in rows {
        let _ = write!(out, "{k}");
        for n in v {
            show_number(out, n);
        }
        out.push('\n');
    }
}

pub struct Meaning {
    /// As rendered by `cmp::dump`.
    pub dump: String,
    /// One past the last byte that matters.
    pub reach: usize,
    pub cid: bool,
    pub glyphs: usize,
}

/// What a font set starting at a position means.
pub fn font_set(bytes: &[u8], base: usize) -> Res<Meaning> {
    let mut tape = Tape {
        bytes,
        at: base,
        reach: base,
    };
    let mut out = String::new();
    let mut any_cid = false;
    let mut all_glyphs = 0;
    let h = tape.take(4)?;
    let _ = writeln!(out, "{} {} {} {}", h[0], h[1], h[2], h[3]);
    let header = h[2] as usize;
    if header < 4 {
        return Err(Unspecified("a short header"));
    }
    tape.at = base + header;
    let names = table(&mut tape)?;
    show_table(&mut out, &names);
    let top = table(&mut tape)?;
    // A broken dictionary is not hidden by what follows, nor the other way
    // around; the order of complaints does not matter.
    let mut dictionaries = vec![];
    for d in &top.data {
        dictionaries.push(dictionary(d)?);
    }
    for d in &dictionaries {
        show_dictionary(&mut out, d);
        out.push('\n');
    }
    let strings = table(&mut tape)?;
    show_table(&mut out, &strings);
    let global = table(&mut tape)?;
    show_table(&mut out, &global);
    let mut reader = Reader { tape, base, header };
    let mut encodings = vec![];
    let mut charsets = vec![];
    let mut charstrings = String::new();
    let mut records = String::new();
    for d in &dictionaries {
        let offset = one(d, 17, None)?.ok_or(Reject("no charstrings"))?;
        match one(d, 0x0c06, Some(2))? {
            Some(2) => {}
            _ => return Err(Reject("a charstring type")),
        }
        reader.jump(offset as i64)?;
        let glyphs = {
            let t = table(&mut reader.tape)?;
            show_table(&mut charstrings, &t);
            t.data.len()
        };
        all_glyphs += glyphs;
        charsets.push(match one(d, 15, Some(0))?.unwrap() {
            0 => "ISOAdobe".to_string(),
            1 => "Expert".to_string(),
            2 => "ExpertSubset".to_string(),
            offset => {
                reader.jump(offset as i64)?;
                let format = reader.tape.u8()?;
                if format > 2 {
                    return Err(Reject("a format of character sets"));
                }
                if glyphs == 0 {
                    return Err(Reject("a character set of no glyphs"));
                }
                let mut left = glyphs - 1;
                let mut body = String::new();
                while left > 0 {
                    if !body.is_empty() {
                        body += ", ";
                    }
                    let first = reader.tape.u16()?;
                    if format == 0 {
                        let _ = write!(body, "{first}");
                        left -= 1;
                        continue;
                    }
                    let more = match format {
                        1 => reader.tape.u8()? as usize,
                        _ => reader.tape.u16()? as usize,
                    };
                    if more + 1 > left {
                        return Err(Reject("a character set of too many glyphs"));
                    }
                    left -= more + 1;
                    let _ = write!(
                        body,
                        "Range{format} {{ first_string_id: {first}, left_count: {more} }}"
                    );
                }
                let field = if format == 0 { "glyphs" } else { "ranges" };
                format!(
                    "Format{format}(CharacterSet{format} {{ format: {format}, {field}: [{body}] }})"
                )
            }
        });
        encodings.push(match one(d, 16, Some(0))?.unwrap() {
            0 => "Standard".to_string(),
            1 => "Expert".to_string(),
            offset => {
                reader.jump(offset as i64)?;
                let format = reader.tape.u8()?;
                match format {
                    0 | 1 | 0x80 | 0x81 => {}
                    _ if format & 0x80 != 0 => {
                        return Err(Unspecified("supplements of an unknown format"))
                    }
                    _ => return Err(Reject("a format of encodings")),
                }
                let supplemental = format & 0x80 != 0;
                let format = format & 0x7f;
                let count = reader.tape.u8()? as usize;
                let mut body = vec![];
                for _ in 0..count {
                    let code = reader.tape.u8()?;
                    body.push(if supplemental && format == 0 {
                        format!("{code}")
                    } else if supplemental {
                        format!("({code}, {})", reader.tape.u8()?)
                    } else if format == 0 {
                        format!("{code}")
                    } else {
                        format!(
                            "Range1 {{ first_code: {code}, left_count: {} }}",
                            reader.tape.u8()?
                        )
                    });
                }
                let body = body.join(", ");
                if supplemental {
                    let what = if format == 0 { "codes" } else { "ranges" };
                    let more = reader.tape.u8()?;
                    let mut supplements = vec![];
                    for _ in 0..more {
                        let code = reader.tape.u8()?;
                        supplements.push((code, reader.tape.u16()?));
                    }
                    format!("Supplemental({count} {what} [{body}], {more} {supplements:?})")
                } else if format == 0 {
                    format!("Format0(Encoding0 {{ format: 0, code_count: {count}, codes: [{body}] }})")
                } else {
                    format!(
                        "Format1(Encoding1 {{ format: 1, range_count: {count}, ranges: [{body}] }})"
                    )
                }
            }
        });
        let Some(ros) = d.get(&0x0c1e) else {
            reader.private(d, &mut records)?;
            continue;
        };
        any_cid = true;
        let (registry, ordering, supplement) = match ros[..] {
            [Nr::Int(a), Nr::Int(b), c] => (a, b, c),
            _ => return Err(Reject("a registry-ordering-supplement entry")),
        };
        if !(0..=65535).contains(&registry) || !(0..=65535).contains(&ordering) {
            return Err(Reject("a string identifier"));
        }
        let _ = write!(records, "{registry} {ordering} ");
        let _ = match supplement {
            Nr::Int(v) => write!(records, "Integer({v})"),
            Nr::Real(v) => write!(records, "Real({v:?})"),
        };
        let offset = one(d, 0x0c25, None)?.ok_or(Reject("no glyph-to-dictionary mapping"))?;
        reader.jump(offset as i64)?;
        match reader.tape.u8()? {
            0 => {
                let ids = reader.tape.take(glyphs)?;
                let _ = write!(
                    records,
                    " Format0(Encoding0 {{ format: 0, dictionary_ids: {ids:?} }})"
                );
            }
            3 => {
                let count = reader.tape.u16()?;
                let mut body = vec![];
                for _ in 0..count {
                    let first = reader.tape.u16()?;
                    let id = reader.tape.u8()?;
                    body.push(format!(
                        "Range3 {{ first_glyph_id: {first}, dictionary_id: {id} }}"
                    ));
                }
                let end = reader.tape.u16()?;
                let _ = write!(
                    records,
                    " Format3(Encoding3 {{ format: 3, range_count: {count}, ranges: [{}], \
                     glyph_count: {end} }})",
                    body.join(", ")
                );
                if end as usize != glyphs {
                    return Err(Unspecified("a mapping of another number of glyphs"));
                }
            }
            _ => return Err(Reject("a format of glyph-to-dictionary mappings")),
        }
        records.push('\n');
        let offset = one(d, 0x0c24, None)?.ok_or(Reject("no font dictionaries"))?;
        reader.jump(offset as i64)?;
        let array = table(&mut reader.tape)?;
        let mut inner = vec![];
        for d in &array.data {
            inner.push(dictionary(d)?);
        }
        for d in &inner {
            show_dictionary(&mut records, d);
            records.push('\n');
        }
        for d in &inner {
            reader.private(d, &mut records)?;
        }
    }
    if names.data.len() != dictionaries.len() {
        return Err(Unspecified("another number of names"));
    }
    let _ = writeln!(out, "[{}]", encodings.join(", "));
    out += &charstrings;
    let _ = writeln!(out, "[{}]", charsets.join(", "));
    out += &records;
    Ok(Meaning {
        dump: out,
        reach: reader.tape.reach,
        cid: any_cid,
        glyphs: all_glyphs,
    })
}
