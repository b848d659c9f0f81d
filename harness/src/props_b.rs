//! The properties of whole font sets.

use std::io::{BufReader, Cursor, ErrorKind, Seek as _, SeekFrom};

use postscript::compact1::{FontSet, Operations};
use postscript::tape::Read;
use postscript::type2::Program;

use crate::cff::{
    self, entry, int, int_long, real, CharsetM, Edit, EncodingM, FdSelectM, IndexM, Kind,
    Num, SetM, Style, Value, Written,
};
use crate::cmp;
use crate::corpus;
use crate::gen;
use crate::mon::{brief, guard, Ctx};
use crate::refr::{self, Verdict};
use crate::rng::{hash_bytes, mix, Rng};
use crate::t2;
use crate::tapes::Tape;

// ------------------------------------------------------------------- helpers

pub type Parsed = Result<FontSet, std::io::Error>;

/// Parse a font set under observation.
pub fn parse(ctx: &mut Ctx, bytes: &[u8], at: usize) -> Option<Parsed> {
    ctx.input(&bytes[at.min(bytes.len())..]);
    let result = ctx.target(|| {
        let mut tape = Cursor::new(bytes);
        tape.set_position(at as u64);
        tape.take::<FontSet>()
    });
    match result {
        Ok(result) => Some(result),
        Err(panic) => {
            ctx.violate("panic", format!("{panic}: {}", brief(bytes)));
            None
        }
    }
}

/// Parse from any stream.
pub fn parse_from<T: Read>(ctx: &mut Ctx, tape: &mut T) -> Option<Parsed> {
    match ctx.target(|| tape.take::<FontSet>()) {
        Ok(result) => Some(result),
        Err(panic) => {
            ctx.violate("panic", panic);
            None
        }
    }
}

/// The bytes that a font set needs.
fn needed(model: &SetM, written: &Written) -> usize {
    let start = 4
        + model.header_tail.len()
        + model.names.bytes().len()
        + written.top_index.bytes().len()
        + model.strings.bytes().len()
        + model.subroutines.bytes().len();
    written
        .sections
        .iter()
        .filter(|s| s.2 > 0)
        .map(|s| s.1 + s.2)
        .fold(start, usize::max)
}

pub fn differ(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            let cut = |s: &str| s.chars().take(300).collect::<String>();
            return format!("line {i}: got {:?} instead of {:?}", cut(x), cut(y));
        }
    }
    format!("{} bytes instead of {}", a.len(), b.len())
}

fn describe(model: &SetM, written: &Written) -> String {
    format!(
        "{} bytes, {} fonts, {} glyphs, sections {:?}",
        written.bytes.len(),
        model.fonts.len(),
        model
            .fonts
            .iter()
            .map(|f| f.charstrings.data.len())
            .sum::<usize>(),
        written.sections.iter().take(12).collect::<Vec<_>>()
    )
}

/// Compare the meaning of well-formed bytes with that of a model.
fn exact(ctx: &mut Ctx, model: &SetM) -> Option<FontSet> {
    let written = model.write();
    // At the beginning of a stream, or somewhere in it.
    let hash = hash_bytes(written.bytes.len() as u64, &written.bytes);
    let got = if hash % 4 == 0 {
        let mut own = Rng::new(hash);
        let base = match own.below(4) {
            0 => own.size(1, 300),
            1 => own.size(256, 5_000),
            2 => 1 << own.range(0, 17),
            _ => own.size(1, 140_000),
        };
        let mut bytes = own.noise(base);
        bytes.extend_from_slice(&written.bytes);
        ctx.count("at a position", 1);
        parse(ctx, &bytes, base)?
    } else {
        parse(ctx, &written.bytes, 0)?
    };
    ctx.evaluated_bytes(&written.bytes, !model.fonts.is_empty());
    ctx.sample(|| describe(model, &written));
    ctx.count("fonts written", model.fonts.len() as u64);
    ctx.count("tables written", written.sections.len() as u64);
    ctx.count("tables shared", written.shared as u64);
    ctx.max("bytes", written.bytes.len() as u64);
    ctx.max("fonts", model.fonts.len() as u64);
    for font in &model.fonts {
        ctx.count(
            match font.kind {
                Kind::Name(_) => "name-keyed",
                Kind::Cid(_) => "CID-keyed",
            },
            1,
        );
        ctx.max("glyphs", font.charstrings.data.len() as u64);
        ctx.count(
            match font.charset {
                CharsetM::Predefined(..) => "charset/predefined",
                CharsetM::Format0(..) => "charset/0",
                CharsetM::Format1(..) => "charset/1",
                CharsetM::Format2(..) => "charset/2",
            },
            1,
        );
        ctx.count(
            match font.encoding {
                EncodingM::Predefined(..) => "encoding/predefined",
                EncodingM::Format0(..) => "encoding/0",
                EncodingM::Format1(..) => "encoding/1",
                EncodingM::Supplemental(..) => "encoding/supplemental",
            },
            1,
        );
        if let Kind::Cid(cid) = &font.kind {
            ctx.max("font dictionaries", cid.dictionaries.len() as u64);
        }
    }
    match got {
        Ok(got) => {
            if let Err(text) = cmp::font_set(&got, model, &written) {
                ctx.violate("decoded differently", text);
            }
            Some(got)
        }
        Err(error) => {
            ctx.violate("rejected", format!("{error}: {}", describe(model, &written)));
            None
        }
    }
}

/// Compare with the independent reader on arbitrary bytes.
fn differential(ctx: &mut Ctx, bytes: &[u8], at: usize, accept: bool, reject: bool) {
    let meaning = refr::font_set(bytes, at);
    let wanted = match &meaning {
        Ok(_) => accept,
        Err(Verdict::Reject(_)) => reject,
        _ => false,
    };
    if !wanted {
        ctx.count("unspecified or not of interest", 1);
        return;
    }
    let Some(got) = parse(ctx, bytes, at) else {
        return;
    };
    ctx.evaluated_bytes(&bytes[at..], true);
    match (&meaning, &got) {
        (Ok(want), Ok(got)) => {
            ctx.count("accepted by both readers", 1);
            let dump = cmp::dump(got);
            if dump != want.dump {
                ctx.violate("decoded differently", differ(&dump, &want.dump));
            }
        }
        (Ok(_), Err(error)) => ctx.violate("rejected", format!("{error}: {}", brief(bytes))),
        (Err(Verdict::Reject(why)), Ok(_)) => {
            ctx.violate(format!("accepted: {why}"), brief(bytes))
        }
        (Err(Verdict::Reject(why)), Err(_)) => {
            ctx.count(&format!("rejected by both readers: {why}"), 1)
        }
        _ => {}
    }
    ctx.sample(|| {
        format!(
            "{}: {:?}",
            brief(bytes),
            meaning.as_ref().map(|m| m.dump.len()).map_err(|v| *v)
        )
    });
}

/// Change a few bytes, mostly where tables start.
pub fn mutate(rng: &mut Rng, bytes: &mut Vec<u8>, spots: &[(usize, usize)]) {
    for _ in 0..rng.size(1, 3) {
        if bytes.is_empty() {
            return;
        }
        let at = if spots.is_empty() || rng.percent(25) {
            rng.usize(bytes.len())
        } else {
            let spot = rng.pick(spots);
            spot.0 + rng.usize(spot.1.clamp(1, 24))
        }
        .min(bytes.len() - 1);
        match rng.below(10) {
            0..=3 => bytes[at] = rng.u8(),
            4 => bytes[at] ^= 1 << rng.below(8),
            5 => bytes[at] = *rng.pick(&[0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0x81, 0xfe, 0xff]),
            6 => bytes[at] = bytes[at].wrapping_add(1),
            7 => bytes[at] = bytes[at].wrapping_sub(1),
            8 => {
                bytes.remove(at);
            }
            _ => bytes.insert(at, rng.u8()),
        }
    }
}

pub fn spots(written: &Written) -> Vec<(usize, usize)> {
    let first = written
        .sections
        .iter()
        .map(|s| s.1)
        .min()
        .unwrap_or(written.bytes.len());
    let mut spots: Vec<(usize, usize)> = written
        .sections
        .iter()
        .filter(|s| s.2 > 0)
        .map(|s| (s.1, s.2))
        .collect();
    let mut at = 0;
    while at < first {
        spots.push((at, 24));
        at += 24;
    }
    spots
}

// ------------------------------------------------------------- B01 and B02

fn decode(ctx: &mut Ctx, cid: u8) {
    let style = Style {
        cid,
        ..Style::small()
    };
    ctx.cases("random", 60_000, 6_000_000, |ctx, rng, _| {
        let model = SetM::random(rng, &style);
        exact(ctx, &model);
    });
    ctx.cases("many fonts", 1_500, 60_000, |ctx, rng, _| {
        let fonts = if rng.one_in(30) { 200 } else { 12 };
        let model = SetM::random(
            rng,
            &Style {
                fonts,
                cid,
                ..Style::small()
            },
        );
        exact(ctx, &model);
    });
    ctx.cases("many glyphs", 240, 12_000, |ctx, rng, _| {
        let most = *rng.pick(&[300, 300, 600, 1300, 5000, 34000, 65535]);
        let model = SetM::random(
            rng,
            &Style {
                fonts: 1,
                cid,
                most_glyphs: most,
                most_chunk: 3,
                gaps: true,
            },
        );
        exact(ctx, &model);
    });
    // Sizes that make offsets and counts cross their widths.
    ctx.cases("wide", 160, 8_000, |ctx, rng, i| {
        let mut model = SetM::random(
            rng,
            &Style {
                fonts: 1,
                cid,
                most_glyphs: 6,
                most_chunk: 40,
                gaps: true,
            },
        );
        if model.fonts.is_empty() {
            return;
        }
        let size = match i % 8 {
            0..=2 => rng.size(240, 260),
            3..=5 => rng.size(65_500, 65_540),
            6 => rng.size(65_500, 300_000),
            _ => rng.size(500_000, 2_000_000),
        };
        let big = vec![rng.u8(); size];
        let target = match rng.below(5) {
            0 => &mut model.names,
            1 => &mut model.strings,
            2 => &mut model.subroutines,
            3 => &mut model.fonts[0].charstrings,
            _ => match &mut model.fonts[0].kind {
                Kind::Name(p) => p.subroutines.get_or_insert_with(IndexM::default),
                Kind::Cid(c) => match c.dictionaries.first_mut() {
                    Some(d) => d.1.subroutines.get_or_insert_with(IndexM::default),
                    _ => &mut model.strings,
                },
            },
        };
        if target.data.is_empty() {
            target.data.push(big);
        } else {
            let k = rng.usize(target.data.len());
            target.data[k] = big;
        }
        target.offset_size = cff::least_offset_size(&target.data);
        exact(ctx, &model);
    });
    if cid > 0 {
        ctx.cases("many dictionaries", 60, 3_000, |ctx, rng, _| {
            let mut model = SetM::random(rng, &Style { cid, ..Style::small() });
            for font in &mut model.fonts {
                let glyphs = font.charstrings.data.len();
                if let Kind::Cid(c) = &mut font.kind {
                    if c.dictionaries.is_empty() {
                        continue;
                    }
                    let n = *rng.pick(&[17, 64, 255, 256]);
                    let mut list = vec![];
                    while list.len() < n {
                        list.push(rng.pick(&c.dictionaries).clone());
                    }
                    c.dictionaries = list;
                    c.select = FdSelectM::random(rng, glyphs, n);
                }
            }
            exact(ctx, &model);
        });
    }
    // Real fonts, held against an independent reader.
    ctx.cases("real", corpus::fonts().len() as u64, corpus::fonts().len() as u64, |ctx, _, i| {
        let font = &corpus::fonts()[i as usize];
        let Ok(meaning) = refr::font_set(font.bytes(), 0) else {
            ctx.count("real fonts beyond the reference", 1);
            return;
        };
        if meaning.cid != (cid > 0) {
            return;
        }
        differential(ctx, font.bytes(), 0, true, false);
        ctx.count("real fonts", 1);
    });
    // Altered fonts that still are well-formed.
    ctx.cases("altered", 60_000, 6_000_000, |ctx, rng, _| {
        let model = SetM::random(rng, &style);
        let written = model.write();
        let mut bytes = written.bytes.clone();
        mutate(rng, &mut bytes, &spots(&written));
        if matches!(refr::font_set(&bytes, 0), Ok(m) if m.cid == (cid > 0)) {
            differential(ctx, &bytes, 0, true, false);
        }
    });
}

pub fn b01(ctx: &mut Ctx) {
    decode(ctx, 0);
}

pub fn b02(ctx: &mut Ctx) {
    decode(ctx, 100);
    // CID-keyed and name-keyed fonts side by side: the entry alone decides.
    ctx.cases("mixed", 8_000, 400_000, |ctx, rng, _| {
        let model = SetM::random(
            rng,
            &Style {
                fonts: 6,
                cid: 50,
                ..Style::small()
            },
        );
        exact(ctx, &model);
    });
}

// ----------------------------------------------------------------------- B03

/// A stream that pretends to be preceded by more bytes than fit in memory.
pub struct Distant<'l> {
    base: u64,
    at: u64,
    bytes: &'l [u8],
}

impl<'l> Distant<'l> {
    pub fn new(base: u64, bytes: &'l [u8]) -> Self {
        Distant {
            base,
            at: base,
            bytes,
        }
    }
}

impl std::io::Read for Distant<'_> {
    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
        if self.at < self.base {
            buffer.fill(0xa5);
            self.at += buffer.len() as u64;
            return Ok(buffer.len());
        }
        let from = (self.at - self.base).min(self.bytes.len() as u64) as usize;
        let n = buffer.len().min(self.bytes.len() - from);
        buffer[..n].copy_from_slice(&self.bytes[from..from + n]);
        self.at += n as u64;
        Ok(n)
    }
}

impl std::io::Seek for Distant<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let new = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => self.at.checked_add_signed(n),
            SeekFrom::End(n) => (self.base + self.bytes.len() as u64).checked_add_signed(n),
        };
        self.at = new.ok_or_else(|| std::io::Error::from(ErrorKind::InvalidInput))?;
        Ok(self.at)
    }
}

fn same(ctx: &mut Ctx, what: &str, want: &str, got: Option<Parsed>) {
    ctx.count(&format!("stream/{what}"), 1);
    match got {
        Some(Ok(got)) => {
            let dump = cmp::dump(&got);
            if dump != want {
                ctx.violate(format!("differs: {what}"), differ(&dump, want));
            }
        }
        Some(Err(error)) => ctx.violate(format!("rejected: {what}"), error.to_string()),
        None => {}
    }
}

fn placed(ctx: &mut Ctx, rng: &mut Rng, bytes: &[u8], scratch: Option<&std::path::Path>) {
    let Some(Ok(alone)) = parse(ctx, bytes, 0) else {
        ctx.count("rejected on its own", 1);
        return;
    };
    let want = cmp::dump(&alone);
    drop(alone);
    let before = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => rng.size(1, 300),
        3 => rng.size(250, 260),
        4 => rng.size(65_530, 65_540),
        _ => rng.size(1, 5_000),
    };
    let after = rng.size(0, 300);
    let mut stream = match rng.below(3) {
        0 => vec![0; before],
        1 => vec![0xff; before],
        _ => rng.noise(before),
    };
    stream.extend_from_slice(bytes);
    match rng.below(3) {
        0 => stream.extend(rng.noise(after)),
        1 => stream.extend(vec![0; after]),
        _ => stream.extend_from_slice(&bytes[..bytes.len().min(after)]),
    }
    ctx.evaluated(hash_bytes(before as u64, bytes), before > 0);
    ctx.max("position", before as u64);
    let got = parse(ctx, &stream, before);
    same(ctx, "memory", &want, got);
    ctx.input(bytes);
    let most = if bytes.len() > 3_000 {
        *rng.pick(&[1usize, 7, 64, 255, 1_000, 2_048, 4_095, 4_096, 4_097, 6_000, 8_192, 20_000])
    } else {
        *rng.pick(&[1usize, 1, 2, 3, 7, 64])
    };
    for (what, most, interrupt) in [
        ("few bytes per read", most, 0),
        ("interrupted", usize::MAX, 3),
        ("few bytes per read and interrupted", most, 3),
    ] {
        let mut tape = Tape::new(&stream, rng.u64());
        tape.most = most;
        tape.interrupt = interrupt;
        tape.seek(SeekFrom::Start(before as u64)).unwrap();
        let got = parse_from(ctx, &mut tape);
        ctx.count("reads observed", tape.reads);
        same(ctx, what, &want, got);
    }
    let mut tape = BufReader::with_capacity(rng.size(1, 64), Cursor::new(&stream[..]));
    tape.seek(SeekFrom::Start(before as u64)).unwrap();
    let got = parse_from(ctx, &mut tape);
    same(ctx, "buffered", &want, got);
    let base = *rng.pick(&[
        0xffff_fff0u64,
        0xffff_ffff,
        1 << 32,
        (1 << 32) + 5,
        1 << 40,
        1 << 53,
        (1 << 62) + 12345,
        0x7fff_ff00,
        0x8000_0000,
    ]);
    let mut tape = Distant {
        base,
        at: base,
        bytes: &stream[before..],
    };
    let got = parse_from(ctx, &mut tape);
    same(ctx, "distant", &want, got);
    if let Some(path) = scratch {
        std::fs::write(path, &stream).expect("a scratch file");
        let mut file = std::fs::File::open(path).expect("a scratch file");
        file.seek(SeekFrom::Start(before as u64)).unwrap();
        let got = parse_from(ctx, &mut file);
        same(ctx, "file", &want, got);
        let mut file = BufReader::new(std::fs::File::open(path).expect("a scratch file"));
        file.seek(SeekFrom::Start(before as u64)).unwrap();
        let got = parse_from(ctx, &mut file);
        same(ctx, "buffered file", &want, got);
        let _ = std::fs::remove_file(path);
    }
}

fn scratch(ctx: &Ctx) -> std::path::PathBuf {
    std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), ctx.options.shard))
}

pub fn b03(ctx: &mut Ctx) {
    ctx.cases("random", 12_000, 1_000_000, |ctx, rng, _| {
        let style = Style {
            fonts: if rng.one_in(10) { 9 } else { 3 },
            ..Style::small()
        };
        let model = SetM::random(rng, &style);
        placed(ctx, rng, &model.write().bytes, None);
    });
    ctx.cases("files", 800, 20_000, |ctx, rng, _| {
        let model = SetM::random(rng, &Style::small());
        let path = scratch(ctx);
        placed(ctx, rng, &model.write().bytes, Some(&path));
    });
    ctx.cases("large", 40, 2_000, |ctx, rng, _| {
        let most_glyphs = rng.size(400, 3_000);
        let model = SetM::random(
            rng,
            &Style {
                most_glyphs,
                ..Style::small()
            },
        );
        placed(ctx, rng, &model.write().bytes, None);
    });
    // Elements that no buffer holds at once.
    ctx.cases("large elements", 600, 40_000, |ctx, rng, i| {
        let mut model = SetM::random(rng, &Style::small());
        for _ in 0..rng.size(1, 3) {
            model.swell(rng);
        }
        let path = if i % 8 == 0 { Some(scratch(ctx)) } else { None };
        placed(ctx, rng, &model.write().bytes, path.as_deref());
    });
    let n = corpus::fonts().len() as u64;
    ctx.cases("real", n, 20 * n, |ctx, rng, i| {
        let font = &corpus::fonts()[(i % n) as usize];
        let path = scratch(ctx);
        placed(ctx, rng, font.bytes(), Some(&path));
        // In the file that it came in.
        let Some(Ok(alone)) = parse(ctx, font.bytes(), 0) else {
            return;
        };
        let want = cmp::dump(&alone);
        let got = parse(ctx, &font.file, font.offset);
        same(ctx, "its own file", &want, got);
    });
    // The tables on their own, at any position.
    ctx.cases("tables", 4_000, 200_000, |ctx, rng, _| {
        let n = rng.size(0, 5);
        let data = cff::chunks(rng, n, 20);
        let model = IndexM::new(rng, data);
        let before = rng.size(0, 400);
        let mut stream = rng.noise(before);
        stream.extend(model.bytes());
        let n = rng.size(0, 9);
        stream.extend(rng.noise(n));
        ctx.input(&stream);
        let mut tape = Tape::new(&stream, rng.u64());
        tape.most = rng.size(1, 4);
        tape.interrupt = 4;
        tape.seek(SeekFrom::Start(before as u64)).unwrap();
        let got = ctx.target(|| tape.take::<postscript::compact1::Index>());
        match got {
            Ok(Ok(got)) => {
                if let Err(text) = cmp::index("index", &got, &model) {
                    ctx.violate("differs: index", text);
                }
            }
            other => ctx.violate("rejected: index", format!("{other:?}")),
        }
        let mut entries = cff::entries(rng, 8);
        entries.push(entry(5, vec![int(1)]));
        let bytes = cff::dict_bytes(&entries);
        let mut stream = rng.noise(before);
        stream.extend(bytes);
        ctx.input(&stream);
        let mut tape = Tape::new(&stream, rng.u64());
        tape.most = rng.size(1, 4);
        tape.interrupt = 4;
        tape.seek(SeekFrom::Start(before as u64)).unwrap();
        match ctx.target(|| tape.take::<Operations>()) {
            Ok(Ok(got)) => {
                if let Err(text) = cmp::operations("dictionary", &got, &entries) {
                    ctx.violate("differs: dictionary", text);
                }
            }
            other => ctx.violate("rejected: dictionary", format!("{other:?}")),
        }
        ctx.evaluated_bytes(&stream, before > 0);
    });
}

// ----------------------------------------------------------------------- B04

fn cut(ctx: &mut Ctx, bytes: &[u8], n: usize) {
    let Some(got) = parse(ctx, &bytes[..n], 0) else {
        return;
    };
    ctx.evaluations += 1;
    ctx.count("cuts", 1);
    if let Ok(got) = got {
        ctx.violate(
            "accepted a prefix",
            format!(
                "{n} of {} bytes were decoded into {} fonts with {} glyphs",
                bytes.len(),
                got.records.len(),
                got.character_strings.iter().map(|c| c.len()).sum::<usize>()
            ),
        );
    }
}

pub fn b04(ctx: &mut Ctx) {
    ctx.cases("every cut", 6_000, 500_000, |ctx, rng, _| {
        let style = Style {
            fonts: 3,
            gaps: rng.percent(30),
            most_glyphs: 6,
            most_chunk: 8,
            cid: 40,
        };
        let model = SetM::random(rng, &style);
        let written = model.write();
        if needed(&model, &written) != written.bytes.len() || written.bytes.len() > 6_000 {
            ctx.count("left out: ends outside of any table", 1);
            return;
        }
        let Some(Ok(_)) = parse(ctx, &written.bytes, 0) else {
            ctx.violate("rejected", "the whole font set is rejected");
            return;
        };
        let last = written.sections.iter().filter(|s| s.2 > 0).max_by_key(|s| s.1);
        ctx.count(&format!("ending with {}", last.map_or("globals", |s| s.0)), 1);
        ctx.evaluated_bytes(&written.bytes, true);
        ctx.sample(|| describe(&model, &written));
        for n in 0..written.bytes.len() {
            cut(ctx, &written.bytes, n);
        }
        // The same over a stream that delivers little.
        for _ in 0..4 {
            let n = rng.usize(written.bytes.len());
            let mut tape = Tape::new(&written.bytes[..n], rng.u64());
            tape.most = rng.size(1, 5);
            tape.interrupt = 5;
            if let Some(Ok(_)) = parse_from(ctx, &mut tape) {
                ctx.violate("accepted a prefix", format!("{n} bytes over a slow stream"));
            }
        }
    });
    let n = corpus::fonts().len() as u64;
    ctx.cases("real", 40 * n, 8_000 * n, |ctx, rng, i| {
        let font = &corpus::fonts()[(i % n) as usize];
        let bytes = font.bytes();
        let reach = match refr::font_set(bytes, 0) {
            Ok(meaning) => meaning.reach,
            _ => return,
        };
        ctx.evaluated(hash_bytes(i, &bytes[..64]), true);
        let at = match rng.below(4) {
            0 => reach - 1 - rng.usize(reach.min(50)),
            1 => rng.usize(reach.min(2_000)),
            _ => rng.usize(reach),
        };
        cut(ctx, &bytes[..reach], at);
    });
    // Larger sets, cut here and there, and next to every table.
    ctx.cases("large", 400, 40_000, |ctx, rng, _| {
        let style = Style {
            fonts: 4,
            gaps: false,
            most_glyphs: 500,
            most_chunk: 60,
            cid: 40,
        };
        let model = SetM::random(rng, &style);
        let written = model.write();
        if needed(&model, &written) != written.bytes.len() {
            return;
        }
        ctx.evaluated_bytes(&written.bytes, true);
        let mut cuts: Vec<usize> = (0..12).map(|_| rng.usize(written.bytes.len())).collect();
        for s in &written.sections {
            cuts.extend([s.1, s.1 + 1, (s.1 + s.2).saturating_sub(1)]);
        }
        cuts.push(written.bytes.len() - 1);
        for n in cuts {
            if n < written.bytes.len() {
                cut(ctx, &written.bytes, n);
            }
        }
    });
}

// ----------------------------------------------------------------------- B05

fn real_num(value: i64, rng: &mut Rng) -> Num {
    // A fractional number near a plausible one.
    real(&format!("{}.{}", value, rng.size(1, 9)))
}

/// An offset that is wrong whatever it is an offset of.
fn bad_offset(rng: &mut Rng, size: usize) -> (&'static str, Num) {
    match rng.below(6) {
        0 => ("a negative offset", int(-(rng.range(1, 5_000) as i32))),
        1 => ("a hugely negative offset", int_long(*rng.pick(&[i32::MIN, i32::MIN + 1, -65536, -1]))),
        2 => ("a fractional offset", real_num(rng.range(4, size as i64), rng)),
        3 => ("a real offset", real(&format!("{}", rng.range(4, size as i64)))),
        4 => ("an offset at the end", int(size as i32)),
        _ => (
            "an offset past the end",
            int_long(*rng.pick(&[
                i32::MAX,
                i32::MAX - 1,
                size as i32 + 1,
                size as i32 + 70_000,
                1 << 30,
            ])),
        ),
    }
}

fn integer(entries: &[cff::Entry], code: u16, k: usize) -> Option<i32> {
    let e = entries.iter().rev().find(|e| e.code == code)?;
    match e.operands.get(k)?.value {
        Value::Int(v) => Some(v),
        _ => None,
    }
}

/// Make one thing of a well-formed font set wrong.
pub fn spoil(rng: &mut Rng, model: &SetM, written: &Written) -> Option<(String, Vec<Edit>)> {
    if model.fonts.is_empty() {
        return None;
    }
    let i = rng.usize(model.fonts.len());
    let font = &model.fonts[i];
    // A margin for entries that get longer by editing.
    let size = written.bytes.len() + 200;
    let privates = match &font.kind {
        Kind::Name(_) => 1,
        Kind::Cid(cid) => cid.dictionaries.len(),
    };
    let j = if privates > 0 { rng.usize(privates) } else { 0 };
    let is_cid = matches!(font.kind, Kind::Cid(_));
    let glyphs = font.charstrings.data.len();
    let top = |what: String, code: u16, operands: Option<Vec<Num>>| {
        Some((what, vec![Edit::Top(i, code, operands)]))
    };
    let private_entry = |operands: Option<Vec<Num>>| {
        if is_cid {
            Edit::Array(i, j, cff::PRIVATE, operands)
        } else {
            Edit::Top(i, cff::PRIVATE, operands)
        }
    };
    let malformed_index = |rng: &mut Rng, data: &[Vec<u8>]| -> (String, Vec<u8>) {
        let data: Vec<Vec<u8>> = if data.is_empty() {
            vec![vec![1, 2], vec![3]]
        } else {
            data.to_vec()
        };
        let width = cff::least_offset_size(&data);
        let mut bytes = cff::index_bytes(&data, width);
        let w = width as usize;
        let what = match rng.below(4) {
            0 => {
                bytes[2] = *rng.pick(&[0, 5, 6, 8, 16, 128, 255]);
                "an offset width"
            }
            1 => {
                let last = 3 + w - 1;
                bytes[last] = *rng.pick(&[0, 2, 3, 255]);
                "a first offset"
            }
            2 => {
                bytes[3] ^= *rng.pick(&[0x80, 0x40]);
                if w == 1 && data.iter().all(|d| d.is_empty()) {
                    return ("a first offset".into(), bytes);
                }
                "a first offset"
            }
            _ => {
                // The last offset is brought below the one before it.
                let total = data.iter().map(|d| d.len()).sum::<usize>() + 1;
                let before = total - data[data.len() - 1].len();
                if before <= 1 && data.len() == 1 {
                    let at = 3 + w * data.len();
                    bytes[at..at + w].fill(0);
                } else {
                    let value = rng.usize(before) as u32;
                    let at = 3 + w * data.len();
                    bytes[at..at + w].copy_from_slice(&value.to_be_bytes()[4 - w..]);
                }
                "a decreasing offset"
            }
        };
        (what.to_string(), bytes)
    };
    match rng.below(26) {
        0 => top("no CharStrings".into(), cff::CHARSTRINGS, None),
        1 => top("empty CharStrings".into(), cff::CHARSTRINGS, Some(vec![])),
        2 => {
            let (what, offset) = bad_offset(rng, size);
            top(format!("CharStrings: {what}"), cff::CHARSTRINGS, Some(vec![offset]))
        }
        3 => {
            let kind = match rng.below(4) {
                0 => int(1),
                1 => int(*rng.pick(&[0, 3, -2, 102, 258, 65538, i32::MAX, i32::MIN])),
                2 => int(rng.u64() as i32 | 1),
                _ => real("2.5"),
            };
            top("a charstring type".into(), cff::CHARSTRING_TYPE, Some(vec![kind]))
        }
        4 => {
            let (what, offset) = bad_offset(rng, size);
            top(format!("CharSet: {what}"), cff::CHARSET, Some(vec![offset]))
        }
        5 => {
            let (what, offset) = bad_offset(rng, size);
            top(format!("Encoding: {what}"), cff::ENCODING, Some(vec![offset]))
        }
        6 if privates > 0 => Some(("no Private".into(), vec![private_entry(None)])),
        7 if privates > 0 => {
            let n = rng.size(0, 1);
            let operands = (0..n).map(|_| int(40)).collect();
            Some(("a short Private".into(), vec![private_entry(Some(operands))]))
        }
        8 if privates > 0 => {
            let (what, offset) = bad_offset(rng, size);
            let length = rng.range(1, 20) as i32;
            Some((
                format!("Private: {what}"),
                vec![private_entry(Some(vec![int(length), offset]))],
            ))
        }
        9 if privates > 0 => {
            let offset = integer(
                if is_cid {
                    &written.arrays[i][j]
                } else {
                    &written.top[i]
                },
                cff::PRIVATE,
                1,
            )?;
            let (what, length) = match rng.below(4) {
                0 => ("a negative size", int(-(rng.range(1, 5_000) as i32))),
                1 => (
                    "a hugely negative size",
                    int_long(*rng.pick(&[i32::MIN, -1, -65536, i32::MIN + 1])),
                ),
                2 => ("a real size", real("0")),
                _ => (
                    "a size past the end",
                    int_long(*rng.pick(&[i32::MAX, size as i32, size as i32 + 1, 1 << 28])),
                ),
            };
            Some((
                format!("Private: {what}"),
                vec![private_entry(Some(vec![length, int_long(offset)]))],
            ))
        }
        10 | 11 if privates > 0 => {
            let offset = integer(
                if is_cid {
                    &written.arrays[i][j]
                } else {
                    &written.top[i]
                },
                cff::PRIVATE,
                1,
            )?;
            let (what, value) = match rng.below(4) {
                0 => (
                    "a negative position",
                    int_long(*rng.pick(&[i32::MIN, -offset - 300, -offset - 30_000])),
                ),
                1 => ("a real offset", real("8.5")),
                2 => ("an offset past the end", int_long(i32::MAX)),
                _ => ("an offset past the end", int_long(size as i32)),
            };
            Some((
                format!("Subrs: {what}"),
                vec![Edit::Private(i, j, cff::SUBRS, Some(vec![value]))],
            ))
        }
        12 => match &font.charset {
            CharsetM::Predefined(..) => None,
            charset => {
                let mut bytes = charset.bytes();
                bytes[0] = *rng.pick(&[3, 4, 0x7f, 0x80, 0x81, 0xff]);
                Some((
                    "a format of character sets".into(),
                    vec![Edit::Table(i, "charset", bytes)],
                ))
            }
        },
        13 => match &font.charset {
            CharsetM::Predefined(..) => None,
            _ => {
                // Ranges that cover too much; glyph zero is not covered.
                let covered = glyphs - 1;
                if covered == 0 {
                    return None;
                }
                let head = rng.usize(covered);
                let left = covered - head;
                let wide = rng.percent(50);
                let most = if wide { 65535 } else { 255 };
                if head > most + 1 || left > most {
                    return None;
                }
                // Covers one glyph more than there are, or many more.
                let over = if rng.percent(60) { left } else { rng.size(left, most) };
                let mut ranges = vec![];
                if head > 0 {
                    ranges.push((rng.u16(), head - 1));
                }
                ranges.push((rng.u16(), over));
                let bytes = if wide {
                    CharsetM::Format2(ranges.iter().map(|r| (r.0, r.1 as u16)).collect()).bytes()
                } else {
                    CharsetM::Format1(ranges.iter().map(|r| (r.0, r.1 as u8)).collect()).bytes()
                };
                Some((
                    "a character set of too many glyphs".into(),
                    vec![Edit::Table(i, "charset", bytes)],
                ))
            }
        },
        14 => match &font.encoding {
            EncodingM::Predefined(..) => None,
            encoding => {
                let mut bytes = encoding.bytes();
                bytes[0] = *rng.pick(&[2, 3, 4, 0x10, 0x40, 0x7f]);
                Some((
                    "a format of encodings".into(),
                    vec![Edit::Table(i, "encoding", bytes)],
                ))
            }
        },
        15 if privates > 0 => {
            let tail = reserved(rng);
            Some((
                "a reserved operator in a private dictionary".into(),
                vec![Edit::PrivateTail(i, j, tail)],
            ))
        }
        16 => {
            let tail = reserved(rng);
            Some((
                "a reserved operator in a top dictionary".into(),
                vec![Edit::TopTail(i, tail)],
            ))
        }
        17 if is_cid && privates > 0 => {
            let tail = reserved(rng);
            Some((
                "a reserved operator in a font dictionary".into(),
                vec![Edit::ArrayTail(i, j, tail)],
            ))
        }
        18 => {
            let (what, bytes) = malformed_index(rng, &font.charstrings.data);
            Some((
                format!("charstrings: {what}"),
                vec![Edit::Table(i, "charstrings", bytes)],
            ))
        }
        19 if privates == 1 => {
            let p = match &font.kind {
                Kind::Name(p) => p,
                Kind::Cid(c) => &c.dictionaries[0].1,
            };
            let data = &p.subroutines.as_ref()?.data;
            let (what, bytes) = malformed_index(rng, data);
            Some((
                format!("local subroutines: {what}"),
                vec![Edit::Table(i, "subroutines", bytes)],
            ))
        }
        20 if is_cid => {
            let Kind::Cid(cid) = &font.kind else { return None };
            let good = |v: u16| int(v as i32);
            let bad = |rng: &mut Rng| match rng.below(4) {
                0 => int(-(rng.range(1, 70_000) as i32)),
                1 => int(rng.range(65_536, 200_000) as i32),
                2 => int_long(*rng.pick(&[i32::MAX, i32::MIN, 65_536, 131_072, 1 << 24, -65_536])),
                _ => real("17"),
            };
            let (what, operands) = match rng.below(5) {
                0 => (
                    "a registry",
                    vec![bad(rng), good(cid.ordering), cid.supplement.clone()],
                ),
                1 => (
                    "an ordering",
                    vec![good(cid.registry), bad(rng), cid.supplement.clone()],
                ),
                2 => ("two operands", vec![good(cid.registry), good(cid.ordering)]),
                3 => (
                    "four operands",
                    vec![good(cid.registry), good(cid.ordering), int(0), int(0)],
                ),
                _ => ("no operands", vec![]),
            };
            top(
                format!("a registry-ordering-supplement entry: {what}"),
                cff::ROS,
                Some(operands),
            )
        }
        21 if is_cid => {
            let code = *rng.pick(&[cff::FDARRAY, cff::FDSELECT]);
            match rng.below(4) {
                0 => top(format!("no {code:#x}"), code, None),
                1 => top(format!("empty {code:#x}"), code, Some(vec![])),
                _ => {
                    let (what, offset) = bad_offset(rng, size);
                    top(format!("{code:#x}: {what}"), code, Some(vec![offset]))
                }
            }
        }
        22 if is_cid => {
            let Kind::Cid(cid) = &font.kind else { return None };
            let mut bytes = cid.select.bytes();
            bytes[0] = *rng.pick(&[1, 2, 4, 5, 0x80, 0x83, 0xff]);
            Some((
                "a format of glyph-to-dictionary mappings".into(),
                vec![Edit::Table(i, "select", bytes)],
            ))
        }
        23 if is_cid => {
            let (what, bytes) = malformed_index(rng, &[vec![139, 139, 18], vec![139, 139, 18]]);
            Some((format!("font dictionaries: {what}"), vec![Edit::Table(i, "array", bytes)]))
        }
        24 => {
            // A malformed operand.
            let tail = match rng.below(4) {
                0 => vec![0x1e, 0x1d, 0xff, 5],
                1 => vec![0x1e, 0xff, 5],
                2 => {
                    let text = *rng.pick(&["1.2.3", "--1", "1-2", ".", "-", "1e", "e5", "1e5.5"]);
                    let mut bytes = cff::real_bytes(text, 0xf);
                    bytes.push(5);
                    bytes
                }
                _ => vec![*rng.pick(&[0x1f, 0xff]), 5],
            };
            Some(("a malformed operand".into(), vec![Edit::TopTail(i, tail)]))
        }
        25 => {
            let mut tail = vec![];
            for _ in 0..rng.size(0, 2) {
                let v = cff::int_edge(rng);
                tail.extend(cff::int_any(rng, v).bytes);
            }
            let cut: &[&[u8]] = &[
                &[139],
                &[12],
                &[0x1c],
                &[0x1c, 0],
                &[0x1d],
                &[0x1d, 0, 0, 0],
                &[247],
                &[254],
                &[0x1e],
                &[0x1e, 0x12],
            ];
            tail.extend_from_slice(rng.pick(cut));
            let edit = match rng.below(3) {
                0 => Edit::TopTail(i, tail),
                1 if is_cid && privates > 0 => Edit::ArrayTail(i, j, tail),
                _ if privates > 0 => Edit::PrivateTail(i, j, tail),
                _ => Edit::TopTail(i, tail),
            };
            Some(("an entry cut short".into(), vec![edit]))
        }
        _ => None,
    }
}

fn reserved(rng: &mut Rng) -> Vec<u8> {
    let mut bytes = vec![];
    for _ in 0..rng.size(0, 3) {
        let v = cff::int_edge(rng);
        bytes.extend(cff::int_any(rng, v).bytes);
    }
    loop {
        if rng.percent(40) {
            let code = *rng.pick(&[22u8, 23, 24, 25, 26, 27, 31, 255]);
            bytes.push(code);
            return bytes;
        }
        let code = 0x0c00 | rng.u8() as u16;
        if crate::spec::DICT.iter().all(|row| row.0 != code) {
            bytes.push(12);
            bytes.push(code as u8);
            return bytes;
        }
    }
}

pub fn b05(ctx: &mut Ctx) {
    ctx.cases("one thing wrong", 120_000, 12_000_000, |ctx, rng, _| {
        let style = Style {
            fonts: if rng.one_in(8) { 5 } else { 2 },
            cid: 50,
            gaps: rng.percent(30),
            ..Style::small()
        };
        let model = SetM::random(rng, &style);
        let written = model.write();
        let Some((what, edits)) = spoil(rng, &model, &written) else {
            return;
        };
        let spoiled = model.write_edited(&edits);
        // The independent reader must agree that it is wrong.
        match refr::font_set(&spoiled.bytes, 0) {
            Err(Verdict::Reject(_)) => {}
            other => {
                ctx.count(&format!("left out, not wrong: {what}: {:?}", other.err()), 1);
                return;
            }
        }
        ctx.count(&format!("wrong/{what}"), 1);
        let Some(got) = parse(ctx, &spoiled.bytes, 0) else {
            return;
        };
        ctx.evaluated_bytes(&spoiled.bytes, true);
        ctx.sample(|| format!("{what}: {edits:?}"));
        if got.is_ok() {
            ctx.violate(format!("accepted: {what}"), format!("{edits:?}"));
        }
    });
    ctx.cases("altered", 120_000, 12_000_000, |ctx, rng, _| {
        let style = Style {
            cid: 50,
            gaps: rng.percent(30),
            ..Style::small()
        };
        let model = SetM::random(rng, &style);
        let written = model.write();
        let mut bytes = written.bytes.clone();
        mutate(rng, &mut bytes, &spots(&written));
        differential(ctx, &bytes, 0, true, true);
    });
    let n = corpus::fonts().len() as u64;
    ctx.cases("altered real fonts", 60 * n, 20_000 * n, |ctx, rng, i| {
        let font = &corpus::fonts()[(i % n) as usize];
        let mut bytes = font.bytes().to_vec();
        let spots = [(0, 4), (4, 40), (20, 200), (60, 400)];
        for _ in 0..rng.size(1, 4) {
            let (from, length) = *rng.pick(&spots);
            let at = (from + rng.usize(length)).min(bytes.len() - 1);
            bytes[at] = if rng.percent(50) {
                rng.u8()
            } else {
                bytes[at] ^ (1 << rng.below(8))
            };
        }
        differential(ctx, &bytes, 0, true, true);
    });
}

// ----------------------------------------------------------------------- B06

const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::Other,
];

fn faults(ctx: &mut Ctx, rng: &mut Rng, bytes: &[u8], stride: u64) {
    ctx.input(bytes);
    let most = match (rng.percent(50), stride > 1) {
        (true, _) => usize::MAX,
        (false, false) => rng.size(1, 9),
        (false, true) => rng.size(200, 5_000),
    };
    let seed = rng.u64();
    let start = |most: usize| {
        let mut tape = Tape::new(bytes, seed);
        tape.most = most;
        tape
    };
    let mut tape = start(most);
    match parse_from(ctx, &mut tape) {
        Some(Ok(_)) => {}
        _ => {
            ctx.count("left out: rejected without a failure", 1);
            return;
        }
    }
    let total = tape.operations();
    ctx.count("reads without a failure", tape.reads);
    ctx.count("seeks without a failure", tape.seeks);
    ctx.max("operations of a stream", total);
    let mut k = 1 + if stride > 1 { rng.below(stride) } else { 0 };
    while k <= total {
        let kind = *rng.pick(KINDS);
        for forever in [false, true] {
            let mut tape = start(most);
            tape.fail = Some((k, kind));
            tape.forever = forever;
            let got = parse_from(ctx, &mut tape);
            ctx.evaluated(mix(hash_bytes(k, bytes) ^ forever as u64), true);
            ctx.count(&format!("failures injected/{kind:?}"), 1);
            let when = format!("operation {k} of {total} failing with {kind:?} (forever: {forever})");
            match got {
                Some(Ok(_)) => ctx.violate("a failure was swallowed", when.clone()),
                Some(Err(error)) if error.kind() != kind => ctx.violate(
                    "a failure was reported as another",
                    format!("{when}: {:?}: {error}", error.kind()),
                ),
                _ => {}
            }
            // Looking ahead goes back even if that failed.
            if tape.failed == 0 || tape.failed > 4 {
                ctx.violate(
                    "went on after a failure",
                    format!("{when}: {} failures were delivered", tape.failed),
                );
            }
        }
        k += stride;
    }
    ctx.sample(|| format!("{} bytes, {total} operations, a failure at every one of them in turn", bytes.len()));
}

pub fn b06(ctx: &mut Ctx) {
    ctx.cases("every operation", 1_600, 100_000, |ctx, rng, _| {
        let style = Style {
            fonts: 3,
            cid: 40,
            most_glyphs: 5,
            most_chunk: 8,
            gaps: false,
        };
        let model = SetM::random(rng, &style);
        faults(ctx, rng, &model.write().bytes, 1);
    });
    let n = corpus::fonts().len() as u64;
    ctx.cases("real", n, 40 * n, |ctx, rng, i| {
        let font = &corpus::fonts()[(i % n) as usize];
        let mut tape = Tape::new(font.bytes(), 0);
        let _ = parse_from(ctx, &mut tape);
        let stride = (tape.operations() / 60).max(1);
        faults(ctx, rng, font.bytes(), stride);
    });
    // Counting, and the tables on their own.
    ctx.cases("parts", 4_000, 200_000, |ctx, rng, _| {
        let model = SetM::random(rng, &Style::small());
        let bytes = model.write().bytes;
        ctx.input(&bytes);
        let kind = *rng.pick(KINDS);
        let mut k = 1;
        loop {
            let mut tape = Tape::new(&bytes, 1);
            tape.fail = Some((k, kind));
            let got = ctx.target(|| FontSet::count(&mut tape));
            let injected = tape.failed > 0;
            match got {
                Ok(Ok(_)) if injected => ctx.violate("a failure was swallowed", "counting"),
                Ok(Err(error)) if injected && error.kind() != kind => ctx.violate(
                    "a failure was reported as another",
                    format!("counting: {kind:?} as {error:?}"),
                ),
                Err(panic) => ctx.violate("panic", panic),
                _ => {}
            }
            ctx.evaluated(hash_bytes(k + 7_000, &bytes), injected);
            if !injected {
                break;
            }
            k += 1;
        }
        // A dictionary straight from a stream: only the end of the stream ends it.
        let mut entries = cff::entries(rng, 6);
        entries.push(entry(5, vec![int(1), real("2.5"), int_long(70_000)]));
        let bytes = cff::dict_bytes(&entries);
        ctx.input(&bytes);
        if kind == ErrorKind::UnexpectedEof {
            return;
        }
        let mut k = 1;
        loop {
            let mut tape = Tape::new(&bytes, 1);
            tape.fail = Some((k, kind));
            let got = ctx.target(|| tape.take::<Operations>());
            let injected = tape.failed > 0;
            match got {
                Ok(Ok(_)) if injected => ctx.violate("a failure was swallowed", "a dictionary"),
                Ok(Err(error)) if injected && error.kind() != kind => ctx.violate(
                    "a failure was reported as another",
                    format!("a dictionary: {kind:?} as {error:?}"),
                ),
                Err(panic) => ctx.violate("panic", panic),
                _ => {}
            }
            ctx.evaluated(hash_bytes(k + 9_000, &bytes), injected);
            if !injected {
                break;
            }
            k += 1;
        }
    });
}

// ----------------------------------------------------------------------- B07

fn verdict(result: &Parsed) -> String {
    match result {
        Ok(set) => cmp::dump(set),
        Err(error) => format!("{:?}: {error}", error.kind()),
    }
}

fn trace(code: &[u8], global: &[Vec<u8>], local: &[Vec<u8>]) -> String {
    let mut seen = t2::observe(code, global, local, 100_000);
    for op in &mut seen.ops {
        // All values that are not numbers are alike.
        for v in &mut op.1 {
            if v.is_nan() {
                *v = f32::NAN;
            }
        }
    }
    format!("{seen:?}")
}

/// The steps of several programs, taken in turns.
fn interleaved(
    programs: &[(&[u8], &[Vec<u8>], &[Vec<u8>])],
    rng: &mut Rng,
    switches: &mut u64,
) -> Vec<String> {
    let mut running: Vec<(Program, String, u32)> = programs
        .iter()
        .map(|p| (Program::new(p.0, p.1, p.2), String::new(), 0))
        .collect();
    let mut left: Vec<usize> = (0..running.len()).collect();
    let mut before = usize::MAX;
    while !left.is_empty() {
        let k = rng.usize(left.len());
        let i = left[k];
        *switches += (i != before) as u64;
        before = i;
        let (program, text, steps) = &mut running[i];
        let result = program.next();
        *steps += 1;
        step_text(text, &result, program.width());
        if !matches!(result, Ok(Some(_))) || *steps > 100_000 {
            left.swap_remove(k);
        }
    }
    running.into_iter().map(|r| r.1).collect()
}

fn step_text(
    text: &mut String,
    result: &postscript::Result<Option<postscript::type2::Operation>>,
    width: Option<f32>,
) {
    use std::fmt::Write;
    let _ = match result {
        Ok(Some(op)) => write!(text, "{:?} {:?} {width:?};", op.0, op.1),
        Ok(None) => write!(text, "end {width:?};"),
        Err(error) => write!(text, "{error} {width:?};"),
    };
}

fn alone(program: (&[u8], &[Vec<u8>], &[Vec<u8>])) -> String {
    let mut p = Program::new(program.0, program.1, program.2);
    let mut text = String::new();
    for _ in 0..100_001 {
        let result = p.next();
        step_text(&mut text, &result, p.width());
        if !matches!(result, Ok(Some(_))) {
            break;
        }
    }
    text
}

/// Inputs with what was made of them before anything else was done.
struct Canaries {
    sets: Vec<(Vec<u8>, String)>,
    codes: Vec<(gen::Code, String)>,
}

impl Canaries {
    fn new(ctx: &mut Ctx) -> Self {
        let mut rng = Rng::new(0xca9a);
        let mut new = Canaries {
            sets: vec![],
            codes: vec![],
        };
        for k in 0..24 {
            let model = SetM::random(&mut rng, &Style { cid: 50, ..Style::small() });
            let written = model.write();
            let mut bytes = written.bytes.clone();
            if k % 3 == 2 {
                mutate(&mut rng, &mut bytes, &spots(&written));
            }
            let Some(result) = parse(ctx, &bytes, 0) else { continue };
            if k % 3 != 2 && result.is_err() {
                ctx.violate("rejected", format!("{}: {}", verdict(&result), brief(&bytes)));
            }
            new.sets.push((bytes, verdict(&result)));
        }
        for k in 0..24 {
            let glyph = gen::glyph(&mut rng, &gen::Style::full());
            let depth = rng.size(1, 6);
            let mut code = gen::split(&mut rng, &glyph, depth, false, false);
            if k % 3 == 2 {
                let n = rng.usize(code.main.len().max(1));
                code.main.truncate(n);
            }
            ctx.input(&crate::props_t::pack(&code.main, &code.global, &code.local));
            match ctx.target(|| alone((&code.main, &code.global, &code.local))) {
                Ok(text) => new.codes.push((code, text)),
                Err(panic) => ctx.violate("panic", panic),
            }
        }
        new
    }

    fn check(&self, ctx: &mut Ctx, after: &str) {
        for (bytes, first) in &self.sets {
            let Some(result) = parse(ctx, bytes, 0) else { return };
            let again = verdict(&result);
            if again != *first {
                ctx.violate("another result later", format!("after {after}: {}", differ(&again, first)));
                return;
            }
        }
        for (code, first) in &self.codes {
            ctx.input(&crate::props_t::pack(&code.main, &code.global, &code.local));
            match ctx.target(|| alone((&code.main, &code.global, &code.local))) {
                Ok(again) if again == *first => {}
                Ok(again) => {
                    ctx.violate(
                        "another result later",
                        format!(
                            "after {after}: {} instead of {}",
                            brief(again.as_bytes()),
                            brief(first.as_bytes())
                        ),
                    );
                    return;
                }
                Err(panic) => return ctx.violate("panic", panic),
            }
        }
        ctx.count("canaries compared", (self.sets.len() + self.codes.len()) as u64);
    }
}

/// Do one and the same thing many times.
fn storm(ctx: &mut Ctx, rng: &mut Rng, times: usize) -> Option<&'static str> {
    let kind = rng.below(8);
    Some(match kind {
        0..=3 => {
            let style = Style { cid: 50, most_glyphs: 3, most_chunk: 4, ..Style::small() };
            let model = SetM::random(rng, &style);
            let written = model.write();
            let mut bytes = written.bytes.clone();
            match kind {
                0 => {}
                1 => bytes.truncate(rng.usize(bytes.len())),
                2 => {
                    bytes = broken(rng)?;
                }
                _ => mutate(rng, &mut bytes, &spots(&written)),
            }
            let times = times.min(40_000_000 / (bytes.len() + 200) / 20 + 200);
            ctx.input(&bytes);
            let results = ctx.target(|| {
                let mut good = 0;
                for _ in 0..times {
                    good += Cursor::new(&bytes[..]).take::<FontSet>().is_ok() as usize;
                }
                good
            });
            match results {
                Ok(good) => {
                    if good != 0 && good != times {
                        ctx.violate(
                            "another result the next time",
                            format!("{good} out of {times} are accepted: {}", brief(&bytes)),
                        );
                    }
                    ctx.count("parsed in storms", times as u64);
                    if good == 0 { "many failures to parse" } else { "much parsing" }
                }
                Err(panic) => {
                    ctx.violate("panic", panic);
                    return None;
                }
            }
        }
        _ => {
            let glyph = gen::glyph(rng, &gen::Style::full());
            let depth = rng.size(1, 10);
            let mut code = gen::split(rng, &glyph, depth, false, false);
            match kind {
                4 => code.main.truncate(rng.usize(code.main.len().max(1))),
                5 => code = crate::props_a::hostile_code(rng),
                6 => {
                    // Into a subroutine, and no further.
                    code.local = vec![vec![139, 22, 12, 0]; 3];
                    code.main = vec![32, 10, 14];
                }
                _ => {}
            }
            let steps = *rng.pick(&[1usize, 2, 3, 100]);
            ctx.input(&crate::props_t::pack(&code.main, &code.global, &code.local));
            let result = ctx.target(|| {
                let mut tokens = 0usize;
                let mut first = None;
                for k in 0..times {
                    if tokens > 3_000_000 {
                        break;
                    }
                    tokens += code.main.len() + 50;
                    let mut program = Program::new(&code.main, &code.global, &code.local);
                    let mut text = 0;
                    for _ in 0..steps {
                        match program.next() {
                            Ok(Some(op)) => text += 1 + op.1.len(),
                            Ok(None) => break,
                            Err(_) => {
                                text += 1_000_000;
                                break;
                            }
                        }
                    }
                    if *first.get_or_insert(text) != text {
                        return Err(k);
                    }
                }
                Ok(tokens)
            });
            match result {
                Ok(Ok(_)) => ctx.count("storms of programs", 1),
                Ok(Err(k)) => ctx.violate(
                    "another result the next time",
                    format!("at {k}: {}", brief(&code.main)),
                ),
                Err(panic) => {
                    ctx.violate("panic", panic);
                    return None;
                }
            }
            "many programs"
        }
    })
}

/// A small font set with something malformed in some dictionary or table.
fn broken(rng: &mut Rng) -> Option<Vec<u8>> {
    let style = Style { cid: 50, most_glyphs: 3, most_chunk: 4, ..Style::small() };
    for _ in 0..20 {
        let model = SetM::random(rng, &style);
        if model.fonts.is_empty() {
            continue;
        }
        let tail = rng.pick(&[vec![12u8, 0xff], vec![22], vec![30, 0xdf], vec![139], vec![0xff]]).clone();
        let edit = match rng.below(3) {
            0 => Edit::TopTail(0, tail),
            1 => Edit::PrivateTail(0, 0, tail),
            _ => Edit::ArrayTail(0, 0, tail),
        };
        return Some(model.write_edited(&[edit]).bytes);
    }
    None
}

pub fn b07(ctx: &mut Ctx) {
    let canaries = Canaries::new(ctx);
    ctx.cases("font sets", 8_000, 400_000, |ctx, rng, _| {
        // A few inputs of all sorts, parsed in one order and then in another.
        let inputs: Vec<Vec<u8>> = (0..rng.size(2, 5))
            .map(|_| {
                let model = SetM::random(rng, &Style { cid: 50, ..Style::small() });
                let written = model.write();
                let mut bytes = written.bytes.clone();
                match rng.below(4) {
                    0 => mutate(rng, &mut bytes, &spots(&written)),
                    1 => bytes.truncate(rng.usize(bytes.len())),
                    _ => {}
                }
                bytes
            })
            .collect();
        let mut first = vec![];
        for bytes in &inputs {
            let Some(result) = parse(ctx, bytes, 0) else { return };
            first.push(verdict(&result));
            ctx.evaluated_bytes(bytes, result.is_ok());
            ctx.count(if result.is_ok() { "accepted" } else { "rejected" }, 1);
            ctx.fold(hash_bytes(0, first.last().unwrap().as_bytes()));
        }
        for _ in 0..6 {
            let k = rng.usize(inputs.len());
            let Some(result) = parse(ctx, &inputs[k], 0) else { return };
            let again = verdict(&result);
            if again != first[k] {
                ctx.violate("another result the next time", differ(&again, &first[k]));
            }
            // A copy is equal, and outlives the original.
            if let Ok(set) = result {
                let copy = set.clone();
                drop(set);
                if cmp::dump(&copy) != first[k] {
                    ctx.violate("a copy differs", "");
                }
            }
        }
    });
    ctx.cases("programs", 12_000, 600_000, |ctx, rng, _| {
        let codes: Vec<gen::Code> = (0..rng.size(2, 6))
            .map(|_| {
                let glyph = gen::glyph(rng, &gen::Style::full());
                let depth = rng.size(1, 6);
                let mut code = gen::split(rng, &glyph, depth, false, false);
                if rng.percent(30) {
                    let n = rng.usize(code.main.len().max(1));
                    code.main.truncate(n);
                }
                code
            })
            .collect();
        let programs: Vec<(&[u8], &[Vec<u8>], &[Vec<u8>])> = codes
            .iter()
            .map(|c| (&c.main[..], &c.global[..], &c.local[..]))
            .collect();
        ctx.input(programs[0].0);
        let Ok(first) = ctx.target(|| programs.iter().map(|p| alone(*p)).collect::<Vec<_>>())
        else {
            ctx.violate("panic", "a program on its own");
            return;
        };
        let mut switches = 0;
        let mut order = rng.clone();
        let Ok(second) = ctx.target(|| interleaved(&programs, &mut order, &mut switches)) else {
            ctx.violate("panic", "programs in turns");
            return;
        };
        ctx.count("switches between programs", switches);
        for k in 0..programs.len() {
            ctx.evaluated_bytes(programs[k].0, true);
            ctx.fold(hash_bytes(0, first[k].as_bytes()));
            if first[k] != second[k] {
                ctx.violate(
                    "another result in turns",
                    format!("{} instead of {}", brief(second[k].as_bytes()), brief(first[k].as_bytes())),
                );
            }
        }
        ctx.sample(|| format!("{} programs, {switches} switches", programs.len()));
    });
    // Several threads over one font set.
    let n = corpus::fonts().len() as u64;
    ctx.cases("threads", 2 * n, 40 * n, |ctx, rng, i| {
        let font = &corpus::fonts()[(i % n) as usize];
        let Some(Ok(set)) = parse(ctx, font.bytes(), 0) else { return };
        let parsed = corpus::Parsed(set);
        let all: Vec<_> = parsed.glyphs().collect();
        let wanted: Vec<usize> = (0..60).map(|_| rng.usize(all.len())).collect();
        let pick = |k: usize| (&all[k].0[..], all[k].1, all[k].2);
        let first: Vec<String> = match ctx.target(|| wanted.iter().map(|&k| alone(pick(k))).collect())
        {
            Ok(first) => first,
            Err(panic) => return ctx.violate("panic", panic),
        };
        for text in &first {
            ctx.fold(hash_bytes(0, text.as_bytes()));
        }
        let seeds: Vec<u64> = (0..4).map(|_| rng.u64()).collect();
        let whole = cmp::dump(&parsed.0);
        ctx.fold(hash_bytes(0, whole.as_bytes()));
        let (wanted, first, all, whole, parsed) = (&wanted, &first, &all, &whole, &parsed);
        let bad = ctx.target(|| {
            std::thread::scope(|scope| {
                let handles: Vec<_> = seeds
                    .iter()
                    .map(|&seed| {
                        scope.spawn(move || {
                            guard(|| {
                                let mut rng = Rng::new(seed);
                                let mut bad = 0;
                                for _ in 0..3 {
                                    for _ in 0..wanted.len() {
                                        let k = rng.usize(wanted.len());
                                        let p = &all[wanted[k]];
                                        if alone((&p.0[..], p.1, p.2)) != first[k] {
                                            bad += 1;
                                        }
                                    }
                                    if cmp::dump(&parsed.0) != *whole {
                                        bad += 1;
                                    }
                                    // Parsing at the same time must not matter either.
                                    match Cursor::new(font.bytes()).take::<FontSet>() {
                                        Ok(set) if cmp::dump(&set) == *whole => {}
                                        _ => bad += 1,
                                    }
                                }
                                bad
                            })
                        })
                    })
                    .collect();
                handles
                    .into_iter()
                    .map(|h| h.join().unwrap_or_else(|_| Err("a panic".into())))
                    .collect::<Vec<_>>()
            })
        });
        ctx.count("threads run", 4);
        ctx.evaluated(hash_bytes(i, font.name.as_bytes()), true);
        match bad {
            Ok(list) => {
                for item in list {
                    match item {
                        Ok(0) => {}
                        Ok(n) => ctx.violate("another result in a thread", format!("{n} of them")),
                        Err(panic) => ctx.violate("panic", panic),
                    }
                }
            }
            Err(panic) => ctx.violate("panic", panic),
        }
    });
    // The digest of what hostile charstrings do is the same in all builds.
    ctx.cases("hostile programs", 40_000, 2_000_000, |ctx, rng, _| {
        let code = crate::props_a::hostile_code(rng);
        ctx.input(&crate::props_t::pack(&code.main, &code.global, &code.local));
        let run = |ctx: &mut Ctx| {
            ctx.target(|| trace(&code.main, &code.global, &code.local))
        };
        match (run(ctx), run(ctx)) {
            (Ok(a), Ok(b)) => {
                ctx.fold(hash_bytes(0, a.as_bytes()));
                ctx.evaluated_bytes(&code.main, true);
                if a != b {
                    ctx.violate("another result the next time", format!("{a} and {b}"));
                }
            }
            (Err(panic), _) | (_, Err(panic)) => ctx.violate("panic", panic),
        }
    });
    ctx.cases("hostile font sets", 20_000, 1_000_000, |ctx, rng, _| {
        let bytes = crate::props_a::hostile_set(rng);
        let (Some(a), Some(b)) = (parse(ctx, &bytes, 0), parse(ctx, &bytes, 0)) else { return };
        let (a, b) = (verdict(&a), verdict(&b));
        ctx.fold(hash_bytes(0, a.as_bytes()));
        ctx.evaluated_bytes(&bytes, true);
        if a != b {
            ctx.violate("another result the next time", differ(&a, &b));
        }
    });
    // The same thing over and over, good or bad.
    ctx.cases("storms", 640, 30_000, |ctx, rng, i| {
        let times = if rng.one_in(6) { 9_000 } else { 1_500 };
        if let Some(after) = storm(ctx, rng, times) {
            ctx.evaluated(mix(i ^ 0x5705), true);
            canaries.check(ctx, after);
        }
    });
    ctx.cases("later", 64, 64, |ctx, _, i| {
        canaries.check(ctx, "everything else");
        ctx.evaluated(mix(i ^ 0x1a7e), true);
    });
}
