//! Real fonts, and what FreeType says of them.

use std::io::Cursor;
use std::sync::OnceLock;

use postscript::compact1::font_set::character_id_keyed::Encoding;
use postscript::compact1::font_set::Record;
use postscript::compact1::{FontSet, Number, Operations, Operator};
use postscript::tape::Read;

use crate::mon::Ctx;

#[derive(Clone, Debug)]
pub struct Glyph {
    pub advance: f32,
    pub name: String,
    pub points: usize,
    pub sum: (f64, f64),
}

pub struct Font {
    pub name: String,
    /// The whole file.
    pub file: Vec<u8>,
    /// Where the font set starts.
    pub offset: usize,
    pub size: usize,
    pub glyphs: Vec<Glyph>,
}

impl Font {
    pub fn bytes(&self) -> &[u8] {
        &self.file[self.offset..self.offset + self.size]
    }
}

fn folder() -> String {
    std::env::var("VH_CORPUS")
        .unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/../corpus").to_string())
}

/// Whether a font was asked for.
pub static USED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn fonts() -> &'static [Font] {
    USED.store(true, std::sync::atomic::Ordering::Relaxed);
    static FONTS: OnceLock<Vec<Font>> = OnceLock::new();
    FONTS.get_or_init(|| {
        let folder = folder();
        let text = std::fs::read_to_string(format!("{folder}/expected.tsv"))
            .expect("cannot read the corpus");
        let mut fonts: Vec<Font> = vec![];
        for line in text.lines().filter(|l| !l.starts_with('#')) {
            let f: Vec<&str> = line.split('\t').collect();
            if fonts.last().map_or(true, |font| font.name != f[0]) {
                let file = std::fs::read(format!("{folder}/{}", f[0])).expect("a font");
                let (offset, size) = locate(&file);
                fonts.push(Font {
                    name: f[0].to_string(),
                    file,
                    offset,
                    size,
                    glyphs: vec![],
                });
            }
            fonts.last_mut().unwrap().glyphs.push(Glyph {
                advance: f[2].parse().unwrap(),
                name: f[3].to_string(),
                points: f[4].parse().unwrap(),
                sum: (f[5].parse().unwrap(), f[6].parse().unwrap()),
            });
        }
        assert!(fonts.len() > 10);
        fonts
    })
}

fn locate(file: &[u8]) -> (usize, usize) {
    if &file[..4] != b"OTTO" {
        return (0, file.len());
    }
    let long =
        |at: usize| u32::from_be_bytes([file[at], file[at + 1], file[at + 2], file[at + 3]]) as usize;
    let count = u16::from_be_bytes([file[4], file[5]]) as usize;
    for i in 0..count {
        let at = 12 + 16 * i;
        if &file[at..at + 4] == b"CFF " {
            return (long(at + 8), long(at + 12));
        }
    }
    panic!("no font set in a font of the corpus");
}

pub struct Parsed(pub FontSet);

/// Parse a font; a failure is a violation of whatever is being checked.
pub fn parsed(ctx: &mut Ctx, font: &Font) -> Option<Parsed> {
    ctx.input(font.bytes());
    match ctx.target(|| Cursor::new(font.bytes()).take::<FontSet>()) {
        Ok(Ok(set)) => Some(Parsed(set)),
        Ok(Err(error)) => {
            ctx.violate("real font", format!("{} is rejected: {error}", font.name));
            None
        }
        Err(panic) => {
            ctx.violate("panic", format!("{}: {panic}", font.name));
            None
        }
    }
}

impl Parsed {
    /// The dictionary of a glyph.
    pub fn dictionary(&self, glyph: usize) -> Option<usize> {
        match &self.0.records[0] {
            Record::CharacterNameKeyed(_) => None,
            Record::CharacterIDKeyed(record) => Some(match &record.encoding {
                Encoding::Format0(encoding) => encoding.dictionary_ids[glyph] as usize,
                Encoding::Format3(encoding) => encoding
                    .ranges
                    .iter()
                    .filter(|range| range.first_glyph_id as usize <= glyph)
                    .last()
                    .map_or(0, |range| range.dictionary_id as usize),
            }),
        }
    }

    pub fn local(&self, glyph: usize) -> &[Vec<u8>] {
        match &self.0.records[0] {
            Record::CharacterNameKeyed(record) => &record.subroutines,
            Record::CharacterIDKeyed(record) => {
                let i = self.dictionary(glyph).unwrap();
                &record.records[i].subroutines
            }
        }
    }

    pub fn private(&self, glyph: usize) -> &Operations {
        match &self.0.records[0] {
            Record::CharacterNameKeyed(record) => &record.operations,
            Record::CharacterIDKeyed(record) => {
                let i = self.dictionary(glyph).unwrap();
                &record.records[i].operations
            }
        }
    }

    #[allow(clippy::type_complexity)]
    pub fn glyphs(&self) -> impl Iterator<Item = (&Vec<u8>, &[Vec<u8>], &[Vec<u8>])> {
        let global: &[Vec<u8>] = &self.0.subroutines;
        self.0.character_strings[0]
            .iter()
            .enumerate()
            .map(move |(g, code)| (code, global, self.local(g)))
    }

    /// The default and the nominal widths.
    pub fn widths(&self, glyph: usize) -> (f32, f32) {
        let one = |operator| match self.private(glyph).get(operator) {
            Some([Number::Integer(value), ..]) => *value as f32,
            Some([Number::Real(value), ..]) => *value,
            _ => 0.0,
        };
        (one(Operator::DefaultWidthX), one(Operator::NominalWidthX))
    }
}
