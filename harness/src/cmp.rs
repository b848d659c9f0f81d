//! Comparison of what was parsed with what was written, and a canonical dump.

use std::collections::BTreeMap;
use std::fmt::Write;

use postscript::compact1::font_set::character_id_keyed::Encoding as Select;
use postscript::compact1::font_set::Record;
use postscript::compact1::{CharacterSet, Encoding, FontSet, Index, Number, Operations, Operator};

use crate::cff::{
    CharsetM, EncodingM, Entry, FdSelectM, IndexM, Kind, Num, PrivateM, SetM, Value, Written,
};
use crate::spec;

pub type Outcome = Result<(), String>;

macro_rules! same(
    ($what:expr, $got:expr, $want:expr) => ({
        let (got, want) = (&$got, &$want);
        if *got != *want {
            return Err(format!("{}: got {:?} instead of {:?}", $what, got, want));
        }
    });
);

pub fn value(number: &Number) -> Value {
    match *number {
        Number::Integer(value) => Value::Int(value),
        Number::Real(value) => Value::Real(value),
    }
}

pub fn operands(got: &[Number], want: &[Num]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| value(a) == b.value)
}

/// What a dictionary should give: for every operator, the last operands.
pub fn last(entries: &[Entry]) -> BTreeMap<u16, &Vec<Num>> {
    let mut map = BTreeMap::new();
    for e in entries {
        map.insert(e.code, &e.operands);
    }
    map
}

pub fn operations(what: &str, got: &Operations, entries: &[Entry]) -> Outcome {
    let want = last(entries);
    for (code, expected) in &want {
        let operator = spec::dict(*code).1;
        match got.0.get(&operator) {
            Some(found) if operands(found, expected) => {}
            found => {
                return Err(format!(
                    "{what}: operator {operator:?} has {found:?} instead of {:?}",
                    expected.iter().map(|n| n.value).collect::<Vec<_>>()
                ))
            }
        }
    }
    if got.0.len() != want.len() {
        return Err(format!(
            "{what}: {} operators instead of {}",
            got.0.len(),
            want.len()
        ));
    }
    Ok(())
}

/// What looking up every operator should give, defaults included.
pub fn lookups(what: &str, got: &Operations, entries: &[Entry]) -> Outcome {
    let want = last(entries);
    for &(code, operator, default) in spec::DICT {
        let found = got.get(operator);
        let good = match want.get(&code) {
            Some(expected) => found.is_some_and(|found| operands(found, expected)),
            None => is_default(found, default),
        };
        if !good {
            return Err(format!("{what}: looking up {operator:?} gives {found:?}"));
        }
    }
    Ok(())
}

pub fn is_default(found: Option<&[Number]>, default: &[spec::Preset]) -> bool {
    match (found, default.is_empty()) {
        (None, true) => true,
        (Some(found), false) => {
            found.len() == default.len()
                && found.iter().zip(default).all(|(a, b)| match (a, b) {
                    (Number::Integer(a), spec::Preset::Int(b)) => a == b,
                    (Number::Real(a), spec::Preset::Real(b)) => a == b,
                    _ => false,
                })
        }
        _ => false,
    }
}

pub fn index(what: &str, got: &Index, want: &IndexM) -> Outcome {
    same!(format!("{what}.count"), got.count as usize, want.data.len());
    same!(format!("{what}.data"), got.data, want.data);
    if want.data.is_empty() {
        same!(format!("{what}.offsets"), got.offsets.len(), 0);
    } else {
        same!(format!("{what}.offset_size"), got.offset_size, want.offset_size);
        let offsets: Vec<u32> = got.offsets.iter().map(|o| o.0).collect();
        same!(
            format!("{what}.offsets"),
            offsets,
            crate::cff::index_offsets(&want.data)
        );
    }
    Ok(())
}

pub fn charset(got: &CharacterSet, want: &CharsetM) -> Outcome {
    let good = match (got, want) {
        (CharacterSet::ISOAdobe, CharsetM::Predefined(0, _)) => true,
        (CharacterSet::Expert, CharsetM::Predefined(1, _)) => true,
        (CharacterSet::ExpertSubset, CharsetM::Predefined(2, _)) => true,
        (CharacterSet::Format0(got), CharsetM::Format0(want)) => {
            got.format == 0 && got.glyphs == *want
        }
        (CharacterSet::Format1(got), CharsetM::Format1(want)) => {
            got.format == 1
                && got.ranges.len() == want.len()
                && got
                    .ranges
                    .iter()
                    .zip(want)
                    .all(|(a, b)| (a.first_string_id, a.left_count) == *b)
        }
        (CharacterSet::Format2(got), CharsetM::Format2(want)) => {
            got.format == 2
                && got.ranges.len() == want.len()
                && got
                    .ranges
                    .iter()
                    .zip(want)
                    .all(|(a, b)| (a.first_string_id, a.left_count) == *b)
        }
        _ => false,
    };
    match good {
        true => Ok(()),
        _ => Err(short(format!("charset: got {got:?} instead of {want:?}"))),
    }
}

pub fn encoding(got: &Encoding, want: &EncodingM) -> Outcome {
    let good = match (got, want) {
        (Encoding::Standard, EncodingM::Predefined(0, _)) => true,
        (Encoding::Expert, EncodingM::Predefined(1, _)) => true,
        (Encoding::Format0(got), EncodingM::Format0(want)) => {
            got.format == 0 && got.code_count as usize == want.len() && got.codes == *want
        }
        (Encoding::Format1(got), EncodingM::Format1(want)) => {
            got.format == 1
                && got.range_count as usize == want.len()
                && got.ranges.len() == want.len()
                && got
                    .ranges
                    .iter()
                    .zip(want)
                    .all(|(a, b)| (a.first_code, a.left_count) == *b)
        }
        (Encoding::FormatSupplemental(got), EncodingM::Supplemental(base, want)) => {
            // The format of the base has the flag or not.
            let inner = match (&*got.encoding, &**base) {
                (Encoding::Format0(got), EncodingM::Format0(want)) => {
                    got.code_count as usize == want.len() && got.codes == *want
                }
                (Encoding::Format1(got), EncodingM::Format1(want)) => {
                    got.range_count as usize == want.len()
                        && got.ranges.len() == want.len()
                        && got
                            .ranges
                            .iter()
                            .zip(want)
                            .all(|(a, b)| (a.first_code, a.left_count) == *b)
                }
                _ => false,
            };
            inner
                && got.supplement_count as usize == want.len()
                && got.supplements.len() == want.len()
                && got
                    .supplements
                    .iter()
                    .zip(want)
                    .all(|(a, b)| (a.code, a.glyph) == *b)
        }
        _ => false,
    };
    match good {
        true => Ok(()),
        _ => Err(short(format!("encoding: got {got:?} instead of {want:?}"))),
    }
}

pub fn select(got: &Select, want: &FdSelectM) -> Outcome {
    let good = match (got, want) {
        (Select::Format0(got), FdSelectM::Format0(want)) => {
            got.format == 0 && got.dictionary_ids == *want
        }
        (Select::Format3(got), FdSelectM::Format3(want, end)) => {
            got.format == 3
                && got.range_count as usize == want.len()
                && got.glyph_count == *end
                && got.ranges.len() == want.len()
                && got
                    .ranges
                    .iter()
                    .zip(want)
                    .all(|(a, b)| (a.first_glyph_id, a.dictionary_id) == *b)
        }
        _ => false,
    };
    match good {
        true => Ok(()),
        _ => Err(short(format!(
            "glyph-to-dictionary mapping: got {got:?} instead of {want:?}"
        ))),
    }
}

fn short(mut text: String) -> String {
    if text.len() > 900 {
        text.truncate(900);
        text.push_str("...");
    }
    text
}

fn subroutines(what: &str, got: &Index, want: &PrivateM) -> Outcome {
    match &want.subroutines {
        Some(want) => index(what, got, want),
        None => index(what, got, &IndexM::default()),
    }
}

/// Compare a font set with its model.
pub fn font_set(got: &FontSet, model: &SetM, written: &Written) -> Outcome {
    let header = [
        got.header.major,
        got.header.minor,
        got.header.header_size,
        got.header.offset_size,
    ];
    same!("header", header, model.header);
    index("names", &got.names.0, &model.names)?;
    let n = model.fonts.len();
    same!("top dictionaries", got.operations.len(), n);
    index("strings", &got.strings.0, &model.strings)?;
    index("global subroutines", &got.subroutines.0, &model.subroutines)?;
    same!("encodings", got.encodings.len(), n);
    same!("charstrings", got.character_strings.len(), n);
    same!("charsets", got.character_sets.len(), n);
    same!("records", got.records.len(), n);
    for (i, font) in model.fonts.iter().enumerate() {
        operations(&format!("top[{i}]"), &got.operations[i], &written.top[i])?;
        lookups(&format!("top[{i}]"), &got.operations[i], &written.top[i])?;
        index(
            &format!("charstrings[{i}]"),
            &got.character_strings[i].0,
            &font.charstrings,
        )?;
        charset(&got.character_sets[i], &font.charset).map_err(|e| format!("font {i}: {e}"))?;
        encoding(&got.encodings[i], &font.encoding).map_err(|e| format!("font {i}: {e}"))?;
        match (&got.records[i], &font.kind) {
            (Record::CharacterNameKeyed(got), Kind::Name(want)) => {
                let what = format!("private[{i}]");
                operations(&what, &got.operations, &written.private[i][0])?;
                lookups(&what, &got.operations, &written.private[i][0])?;
                subroutines(&format!("local[{i}]"), &got.subroutines.0, want)?;
            }
            (Record::CharacterIDKeyed(got), Kind::Cid(want)) => {
                same!("registry", got.registry, want.registry);
                same!("ordering", got.ordering, want.ordering);
                same!("supplement", value(&got.supplement), want.supplement.value);
                select(&got.encoding, &want.select)?;
                let m = want.dictionaries.len();
                same!("font dictionaries", got.operations.len(), m);
                same!("font dictionary records", got.records.len(), m);
                for j in 0..m {
                    let what = format!("dictionary[{i}][{j}]");
                    operations(&what, &got.operations[j], &written.arrays[i][j])?;
                    let what = format!("private[{i}][{j}]");
                    operations(&what, &got.records[j].operations, &written.private[i][j])?;
                    lookups(&what, &got.records[j].operations, &written.private[i][j])?;
                    subroutines(
                        &format!("local[{i}][{j}]"),
                        &got.records[j].subroutines.0,
                        &want.dictionaries[j].1,
                    )?;
                }
            }
            (Record::CharacterNameKeyed(_), _) => {
                return Err(format!("font {i} was taken for a name-keyed one"))
            }
            (Record::CharacterIDKeyed(_), _) => {
                return Err(format!("font {i} was taken for a CID-keyed one"))
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- dump

fn dump_operations(out: &mut String, got: &Operations) {
    let mut rows: Vec<(String, &Vec<Number>)> =
        got.0.iter().map(|(k, v)| (format!("{k:?}"), v)).collect();
    rows.sort_by(|a, b| a.0.cmp(&b.0));
    for (k, v) in rows {
        let _ = write!(out, "{k}");
        for n in v {
            let _ = match n {
                Number::Integer(n) => write!(out, " {n}"),
                Number::Real(n) => write!(out, " r{:08x}", n.to_bits()),
            };
        }
        out.push('\n');
    }
}

fn dump_index(out: &mut String, got: &Index) {
    let _ = write!(out, "index {} {} ", got.count, got.offset_size);
    for o in &got.offsets {
        let _ = write!(out, "{},", o.0);
    }
    for d in &got.data {
        let _ = write!(
            out,
            ";{}/{:x}",
            d.len(),
            crate::rng::hash_bytes(1, d)
        );
    }
    out.push('\n');
}

/// Everything a font set holds, in a fixed order.
fn dump_encoding(got: &Encoding) -> String {
    let Encoding::FormatSupplemental(got) = got else {
        return format!("{got:?}");
    };
    let base = match &*got.encoding {
        Encoding::Format0(base) => format!("{} codes {:?}", base.code_count, base.codes),
        Encoding::Format1(base) => {
            let ranges: Vec<_> =
                base.ranges.iter().map(|r| (r.first_code, r.left_count)).collect();
            format!("{} ranges {ranges:?}", base.range_count)
        }
        base => format!("{base:?}"),
    };
    let supplements: Vec<_> = got.supplements.iter().map(|s| (s.code, s.glyph)).collect();
    format!("Supplemental({base}, {} {supplements:?})", got.supplement_count)
}

pub fn dump(got: &FontSet) -> String {
    let mut out = String::new();
    let h = &got.header;
    let _ = writeln!(
        out,
        "{} {} {} {}",
        h.major, h.minor, h.header_size, h.offset_size
    );
    dump_index(&mut out, &got.names.0);
    for o in &got.operations {
        dump_operations(&mut out, o);
        out.push('\n');
    }
    dump_index(&mut out, &got.strings.0);
    dump_index(&mut out, &got.subroutines.0);
    let encodings: Vec<_> = got.encodings.iter().map(dump_encoding).collect();
    let _ = writeln!(out, "[{}]", encodings.join(", "));
    for c in &got.character_strings {
        dump_index(&mut out, &c.0);
    }
    let _ = writeln!(out, "{:?}", got.character_sets);
    for r in &got.records {
        match r {
            Record::CharacterNameKeyed(r) => {
                dump_operations(&mut out, &r.operations);
                dump_index(&mut out, &r.subroutines.0);
            }
            Record::CharacterIDKeyed(r) => {
                let _ = writeln!(
                    out,
                    "{} {} {:?} {:?}",
                    r.registry, r.ordering, r.supplement, r.encoding
                );
                for o in &r.operations {
                    dump_operations(&mut out, o);
                    out.push('\n');
                }
                for r in &r.records {
                    dump_operations(&mut out, &r.operations);
                    dump_index(&mut out, &r.subroutines.0);
                }
            }
        }
    }
    out
}

/// Touch every part of a font set through its public interface.
pub fn touch(got: &FontSet) -> u64 {
    let mut sum = 0u64;
    for o in &got.operations {
        for row in spec::DICT {
            sum += o.get(row.1).map_or(0, |v| v.len() as u64);
        }
        sum += o.get(Operator::ROS).map_or(0, |v| v.len() as u64);
    }
    for e in &got.encodings {
        for code in [0, 1, 32, 65, 126, 161, 251, 255, 256, 65535] {
            sum += e.get(code).unwrap_or(0) as u64;
        }
    }
    for s in &got.character_sets {
        for glyph in [0, 1, 2, 86, 165, 228, 229, 378, 379, 65535] {
            sum += s.get(glyph).map_or(0, |name| name.len() as u64);
        }
    }
    let n = got.strings.len() as u16;
    for id in [0, 1, 390, 391, 391u16.wrapping_add(n), n, 65535] {
        sum += got.strings.get(id).map_or(0, |s| s.len() as u64);
    }
    if let Ok(names) = Vec::<String>::try_from(got.names.clone()) {
        sum += names.iter().map(|n| n.len() as u64).sum::<u64>();
    }
    sum
}

pub fn is_cid(got: &FontSet) -> bool {
    got.records
        .iter()
        .any(|r| matches!(r, Record::CharacterIDKeyed(_)))
}

/// Whether the rendering of an encoding holds all of a base mapping and of the
/// supplements, in order: the numbers in it, without the names around them.
pub fn supplemented(text: &str, own: &[u8], supplements: &[(u8, u16)]) -> bool {
    let mut numbers = vec![];
    let mut previous = ' ';
    let mut now: Option<u64> = None;
    for c in text.chars().chain(std::iter::once(' ')) {
        if let Some(digit) = c.to_digit(10) {
            if now.is_some() || !(previous.is_alphanumeric() || previous == '_') {
                now = Some(now.unwrap_or(0) * 10 + digit as u64);
            }
        } else if let Some(value) = now.take() {
            numbers.push(value);
        }
        previous = c;
    }
    let size = own[1] as usize * if own[0] & 1 == 1 { 2 } else { 1 };
    let base: Vec<u64> = own[2..2 + size].iter().map(|b| *b as u64).collect();
    let extra: Vec<u64> = supplements
        .iter()
        .flat_map(|s| [s.0 as u64, s.1 as u64])
        .collect();
    let holds = |part: &[u64]| part.is_empty() || numbers.windows(part.len()).any(|w| w == part);
    holds(&base) && holds(&extra) && text.starts_with("Ok")
}
