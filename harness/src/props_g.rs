//! The growth of work with the size of what is read or run.

use std::io::Cursor;

use postscript::compact1::font_set::character_id_keyed;
use postscript::compact1::index::{CharacterStrings, Dictionaries, Names, Strings};
use postscript::compact1::{CharacterSet, Encoding, FontSet, Index, Number, Operations};
use postscript::tape::Read;
use postscript::type2::Program;

use crate::cff::{
    self, dict_bytes, entry, index_bytes, int, int_long, least_offset_size, CharsetM, FdSelectM,
    Num, SetM, Style,
};
use crate::gen;
use crate::mon::{guard, steps, steps_clear, Ctx};
use crate::refr;
use crate::rng::{mix, Rng};
use crate::spec;

type Job = Box<dyn FnOnce() -> bool>;

/// Everything that is measured goes through here, which is what Callgrind is
/// told to look at.
#[no_mangle]
#[inline(never)]
pub extern "C" fn vh_work(job: &mut Option<Job>) -> bool {
    let job = job.take().expect("a job");
    std::hint::black_box(guard(job)).unwrap_or(false)
}

// -------------------------------------------------------------------- fonts

/// A font set by hand, with the offsets of its dictionaries in five bytes.
struct Plain {
    names: Vec<Vec<u8>>,
    strings: Vec<Vec<u8>>,
    global: Vec<Vec<u8>>,
    glyphs: Vec<Vec<u8>>,
    local: Option<Vec<Vec<u8>>>,
    charset: Option<CharsetM>,
    top: Vec<u8>,
    private: Vec<u8>,
    fonts: usize,
    /// The number of font dictionaries, and whether each has its own tables.
    cid: Option<(usize, bool, FdSelectM)>,
    gap: usize,
    /// What stands in place of the private dictionary of the last font.
    spoil: bool,
}

impl Default for Plain {
    fn default() -> Self {
        Plain {
            names: vec![b"A".to_vec()],
            strings: vec![],
            global: vec![],
            glyphs: vec![vec![14]],
            local: None,
            charset: None,
            top: vec![],
            private: vec![],
            fonts: 1,
            cid: None,
            gap: 0,
            spoil: false,
        }
    }
}

fn index(data: &[Vec<u8>]) -> Vec<u8> {
    index_bytes(data, least_offset_size(data))
}

fn at(code: u16, place: usize) -> Vec<u8> {
    dict_bytes(&[entry(code, vec![int_long(place as i32)])])
}

fn private_at(size: usize, place: usize) -> Vec<u8> {
    dict_bytes(&[entry(
        cff::PRIVATE,
        vec![int_long(size as i32), int_long(place as i32)],
    )])
}

impl Plain {
    fn bytes(&self) -> Vec<u8> {
        let private = |away: usize| {
            let mut bytes = self.private.clone();
            if self.local.is_some() {
                bytes.extend(at(cff::SUBRS, away));
            }
            bytes
        };
        let size = private(0).len();
        // The tables after the first ones, at positions from some start on.
        let tables = |start: usize| -> (Vec<u8>, Vec<Vec<u8>>) {
            let mut out = vec![0xcc; self.gap];
            let mut top = self.top.clone();
            top.extend(at(cff::CHARSTRINGS, start + out.len()));
            out.extend(index(&self.glyphs));
            if let Some(charset) = &self.charset {
                top.extend(at(cff::CHARSET, start + out.len()));
                out.extend(charset.bytes());
            }
            let pair = |out: &mut Vec<u8>| -> Vec<u8> {
                let entry = private_at(size, start + out.len());
                out.extend(private(size));
                if let Some(local) = &self.local {
                    out.extend(index(local));
                }
                entry
            };
            match &self.cid {
                None => {
                    let entry = pair(&mut out);
                    top.extend(&entry);
                }
                Some((n, own, select)) => {
                    let ros = entry(cff::ROS, vec![int(391), int(392), int(0)]);
                    top.splice(0..0, dict_bytes(&[ros]));
                    top.extend(at(cff::FDSELECT, start + out.len()));
                    out.extend(select.bytes());
                    let mut dictionaries: Vec<Vec<u8>> = vec![];
                    let mut entry = vec![];
                    for k in 0..*n {
                        if k == 0 || *own {
                            entry = pair(&mut out);
                        }
                        dictionaries.push(entry.clone());
                    }
                    top.extend(at(cff::FDARRAY, start + out.len()));
                    out.extend(index(&dictionaries));
                }
            }
            let mut all = vec![top; self.fonts];
            if self.spoil {
                let last = all.len() - 1;
                all[last].extend(private_at(10, 1 << 30));
                all[last].extend(at(cff::CHARSTRINGS, 1 << 30));
            }
            (out, all)
        };
        let head = |top: &[Vec<u8>]| {
            let mut head = vec![1, 0, 4, 4];
            head.extend(index(&self.names));
            head.extend(index(top));
            head.extend(index(&self.strings));
            head.extend(index(&self.global));
            head
        };
        // Offsets take five bytes whatever they are.
        let start = head(&tables(0).1).len();
        let (out, top) = tables(start);
        let mut bytes = head(&top);
        bytes.extend(out);
        bytes
    }

    fn job(self) -> Job {
        set(self.bytes())
    }
}

fn set(bytes: Vec<u8>) -> Job {
    Box::new(move || Cursor::new(&bytes[..]).take::<FontSet>().is_ok())
}

fn an_index(bytes: Vec<u8>) -> Job {
    Box::new(move || Cursor::new(&bytes[..]).take::<Index>().is_ok())
}

fn a_dictionary(bytes: Vec<u8>) -> Job {
    Box::new(move || Cursor::new(&bytes[..]).take::<Operations>().is_ok())
}

fn a_charset(glyphs: usize, bytes: Vec<u8>) -> Job {
    Box::new(move || {
        Cursor::new(&bytes[..])
            .take_given::<CharacterSet>(glyphs)
            .is_ok()
    })
}

fn a_select(glyphs: usize, bytes: Vec<u8>) -> Job {
    let data = index(&vec![vec![14]; glyphs]);
    let strings: CharacterStrings = Cursor::new(&data[..]).take_given(2).expect("charstrings");
    Box::new(move || {
        let mut tape = Cursor::new(&bytes[..]);
        tape.take_given::<character_id_keyed::Encoding>(&strings)
            .is_ok()
    })
}

fn a_program(code: Vec<u8>, global: Vec<Vec<u8>>, local: Vec<Vec<u8>>) -> Job {
    Box::new(move || {
        let mut program = Program::new(&code, &global, &local);
        loop {
            match program.next() {
                Ok(Some(operation)) => drop(operation),
                Ok(None) => return true,
                Err(_) => return false,
            }
        }
    })
}

fn repeated(part: &[u8], n: usize) -> Vec<u8> {
    let mut code = part.repeat(n);
    code.push(14);
    code
}

/// A number of 100 and so many operands on the stack, and a part repeated.
fn over(height: usize, part: &[u8], n: usize) -> Vec<u8> {
    let mut code = vec![140; height];
    code.extend(repeated(part, n));
    code
}

fn calls(n: usize, depth: usize) -> Job {
    let mut local = vec![vec![139, 22, 11]];
    for k in 1..depth {
        local.push(vec![139 + (k as u8 - 1) - 107, 10, 11]);
    }
    a_program(
        repeated(&[139 + (depth as u8 - 1) - 107, 10], n),
        vec![],
        local,
    )
}

fn texts(n: usize) -> Strings {
    let data: Vec<Vec<u8>> = (0..n).map(|k| vec![b'a' + (k % 26) as u8; 3]).collect();
    Cursor::new(&index(&data)[..]).take().expect("strings")
}

/// Single-byte operators of a dictionary that say nothing about the layout.
fn plain_operators() -> Vec<u16> {
    spec::DICT
        .iter()
        .map(|row| row.0)
        .filter(|code| {
            ![
                cff::CHARSET,
                cff::ENCODING,
                cff::CHARSTRINGS,
                cff::PRIVATE,
                cff::SUBRS,
                cff::CHARSTRING_TYPE,
                cff::ROS,
                cff::FDARRAY,
                cff::FDSELECT,
            ]
            .contains(code)
        })
        .collect()
}

fn entries(n: usize, operands: usize) -> Vec<u8> {
    let codes = plain_operators();
    let mut bytes = vec![];
    for k in 0..n {
        let code = codes[k % codes.len()];
        let operands: Vec<Num> = (0..operands).map(|j| int((j * 37 % 200) as i32)).collect();
        bytes.extend(dict_bytes(&[entry(code, operands)]));
    }
    bytes
}

fn real_of(before: usize, after: usize, exponent: usize) -> Vec<u8> {
    let mut text = "7".repeat(before);
    if after > 0 {
        text.push('.');
        text += &"3".repeat(after);
    }
    if exponent > 0 {
        text.push('e');
        text += &"0".repeat(exponent - 1);
        text.push('2');
    }
    cff::real_bytes(&text, 0xf)
}

fn a_real(mut bytes: Vec<u8>) -> Job {
    bytes.push(5);
    a_dictionary(bytes)
}

fn cut(mut bytes: Vec<u8>) -> Vec<u8> {
    bytes.pop();
    bytes
}

fn firsts(n: usize) -> Vec<u16> {
    (0..n).map(|k| (k * 7 % 60_000) as u16).collect()
}

fn select3(n: usize) -> FdSelectM {
    FdSelectM::Format3((0..n).map(|k| (k as u16, 0)).collect(), n as u16)
}

const SIZES: [usize; 5] = [250, 1_000, 4_000, 16_000, 60_000];

type Family = (&'static str, fn(usize) -> Job);

/// What grows, in what. A unit of every one of them is a constant amount of
/// input or of lookups.
pub const FAMILIES: &[Family] = &[
    ("an index of n empty elements, one byte each", |n| an_index(index_bytes(&vec![vec![]; n], 1))),
    ("an index of n empty elements, two bytes each", |n| an_index(index_bytes(&vec![vec![]; n], 2))),
    ("an index of n empty elements, four bytes each", |n| an_index(index_bytes(&vec![vec![]; n], 4))),
    ("an index of n elements of one byte", |n| an_index(index_bytes(&vec![vec![7]; n], 3))),
    ("an index of n elements of five bytes", |n| an_index(index_bytes(&vec![vec![7; 5]; n], 4))),
    ("an index of an element of n bytes", |n| an_index(index(&[vec![7; n]]))),
    ("an index of n empty elements and a last one", |n| {
        let mut data = vec![vec![]; n];
        data.push(vec![1, 2, 3]);
        an_index(index(&data))
    }),
    ("an index of n elements that is cut", |n| an_index(cut(index_bytes(&vec![vec![7]; n], 3)))),
    ("an index of n elements and a decreasing offset", |n| {
        let mut bytes = index_bytes(&vec![vec![7, 8]; n], 3);
        let last = 3 + 3 * n;
        bytes[last..last + 3].copy_from_slice(&[0, 0, 1]);
        an_index(bytes)
    }),
    ("names", |n| {
        let data: Vec<Vec<u8>> = (0..n).map(|k| vec![b'a' + (k % 26) as u8, 0xc3]).collect();
        let bytes = index(&data);
        Box::new(move || {
            Cursor::new(&bytes[..])
                .take::<Names>()
                .and_then(Vec::<String>::try_from)
                .is_ok()
        })
    }),
    ("a name of n bytes", |n| {
        let bytes = index(&[b"\xc3\xa9\xff".repeat(n / 3 + 1)]);
        Box::new(move || {
            Cursor::new(&bytes[..])
                .take::<Names>()
                .and_then(Vec::<String>::try_from)
                .is_ok()
        })
    }),
    ("n dictionaries", |n| {
        let bytes = index(&vec![entries(3, 1); n]);
        Box::new(move || {
            Cursor::new(&bytes[..])
                .take::<Dictionaries>()
                .and_then(|all| Vec::<Operations>::try_from(&all))
                .is_ok()
        })
    }),
    ("a dictionary of n entries", |n| a_dictionary(entries(n, 1))),
    ("a dictionary of n entries without operands", |n| a_dictionary(entries(n, 0))),
    ("a dictionary of n entries of fourteen", |n| a_dictionary(entries(n, 14))),
    ("a dictionary of one entry n times", |n| {
        a_dictionary([140, 141, 5].repeat(n))
    }),
    ("a dictionary of n operands", |n| {
        let mut bytes = vec![150; n];
        bytes.push(5);
        a_dictionary(bytes)
    }),
    ("a dictionary of n long operands", |n| {
        let mut bytes = int_long(-70_000).bytes.repeat(n);
        bytes.push(6);
        a_dictionary(bytes)
    }),
    ("a dictionary of n reals", |n| {
        let mut bytes = cff::real_bytes("-12.5e-3", 0xf).repeat(n);
        bytes.push(6);
        a_dictionary(bytes)
    }),
    ("a dictionary of n entries that is cut", |n| {
        let mut bytes = entries(n, 2);
        bytes.push(28);
        a_dictionary(bytes)
    }),
    ("a dictionary of n entries and a reserved byte", |n| {
        let mut bytes = entries(n, 2);
        bytes.push(31);
        a_dictionary(bytes)
    }),
    ("a real of n digits", |n| a_real(real_of(n, 0, 0))),
    ("a real of n digits after the point", |n| a_real(real_of(1, n, 0))),
    ("a real of n digits in the exponent", |n| a_real(real_of(1, 0, n))),
    ("a real of n digits on its own", |n| {
        let bytes = real_of(n / 2, n / 2, 1);
        Box::new(move || Cursor::new(&bytes[..]).take::<Number>().is_ok())
    }),
    ("a real of n digits without an end", |n| {
        let mut bytes = vec![30];
        bytes.extend(vec![0x12; n / 2]);
        Box::new(move || Cursor::new(&bytes[..]).take::<Number>().is_ok())
    }),
    ("a character set of n glyphs", |n| {
        a_charset(n + 1, CharsetM::Format0(firsts(n)).bytes())
    }),
    ("a character set of n ranges of one", |n| {
        let ranges = firsts(n).into_iter().map(|id| (id, 0)).collect();
        a_charset(n + 1, CharsetM::Format1(ranges).bytes())
    }),
    ("a character set of n ranges of two", |n| {
        let ranges = firsts(n).into_iter().map(|id| (id, 1)).collect();
        a_charset(2 * n + 1, CharsetM::Format2(ranges).bytes())
    }),
    ("a character set of a range of n", |n| {
        a_charset(n + 1, CharsetM::Format2(vec![(1, n as u16 - 1)]).bytes())
    }),
    ("a character set of n ranges that is cut", |n| {
        let ranges = firsts(n).into_iter().map(|id| (id, 0)).collect();
        a_charset(n + 1, cut(CharsetM::Format2(ranges).bytes()))
    }),
    ("a mapping of n glyphs", |n| {
        let ids = (0..n).map(|k| (k % 3) as u8).collect();
        a_select(n, FdSelectM::Format0(ids).bytes())
    }),
    ("a mapping of n ranges", |n| a_select(n, select3(n).bytes())),
    ("a mapping of n ranges that is cut", |n| a_select(n, cut(select3(n).bytes()))),
    ("n fonts", |n| {
        Plain {
            names: vec![b"A".to_vec(); n],
            fonts: n,
            ..Plain::default()
        }
        .job()
    }),
    ("n fonts and a failure", |n| {
        Plain {
            names: vec![b"A".to_vec(); n],
            fonts: n,
            spoil: true,
            ..Plain::default()
        }
        .job()
    }),
    ("n CID-keyed fonts", |n| {
        Plain {
            names: vec![b"A".to_vec(); n],
            fonts: n,
            cid: Some((1, true, FdSelectM::Format0(vec![0]))),
            ..Plain::default()
        }
        .job()
    }),
    ("n glyphs", |n| {
        Plain {
            glyphs: vec![vec![14]; n],
            ..Plain::default()
        }
        .job()
    }),
    ("n glyphs with names", |n| {
        Plain {
            glyphs: vec![vec![14]; n + 1],
            charset: Some(CharsetM::Format0(firsts(n))),
            ..Plain::default()
        }
        .job()
    }),
    ("a glyph of n bytes", |n| {
        Plain {
            glyphs: vec![vec![14; n]],
            ..Plain::default()
        }
        .job()
    }),
    ("n strings", |n| {
        Plain {
            strings: vec![b"ab".to_vec(); n],
            ..Plain::default()
        }
        .job()
    }),
    ("n global subroutines", |n| {
        Plain {
            global: vec![vec![11]; n],
            ..Plain::default()
        }
        .job()
    }),
    ("n local subroutines", |n| {
        Plain {
            local: Some(vec![vec![11]; n]),
            ..Plain::default()
        }
        .job()
    }),
    ("n entries in the top dictionary", |n| {
        Plain {
            top: entries(n, 1),
            ..Plain::default()
        }
        .job()
    }),
    ("n entries in the private dictionary", |n| {
        Plain {
            private: entries(n, 1),
            local: Some(vec![vec![11]]),
            ..Plain::default()
        }
        .job()
    }),
    ("n font dictionaries that share", |n| {
        Plain {
            cid: Some((n, false, FdSelectM::Format0(vec![0]))),
            ..Plain::default()
        }
        .job()
    }),
    ("n font dictionaries of their own", |n| {
        Plain {
            local: Some(vec![vec![11]; 2]),
            cid: Some((n, true, FdSelectM::Format0(vec![0]))),
            ..Plain::default()
        }
        .job()
    }),
    ("n glyphs in two dictionaries", |n| {
        Plain {
            glyphs: vec![vec![14]; n],
            cid: Some((2, true, select3(n))),
            ..Plain::default()
        }
        .job()
    }),
    ("n fonts and n strings", |n| {
        Plain {
            names: vec![b"A".to_vec(); n],
            fonts: n,
            strings: vec![b"ab".to_vec(); n],
            ..Plain::default()
        }
        .job()
    }),
    ("n fonts and n global subroutines", |n| {
        Plain {
            names: vec![b"A".to_vec(); n],
            fonts: n,
            global: vec![vec![11]; n],
            ..Plain::default()
        }
        .job()
    }),
    ("n fonts and n bytes of a name", |n| {
        let mut names = vec![b"A".to_vec(); n];
        names[0] = vec![b'n'; n];
        Plain {
            names,
            fonts: n,
            ..Plain::default()
        }
        .job()
    }),
    ("n fonts a gap of n bytes away", |n| {
        Plain {
            names: vec![b"A".to_vec(); n],
            fonts: n,
            gap: n,
            ..Plain::default()
        }
        .job()
    }),
    ("n font dictionaries and n glyphs", |n| {
        Plain {
            glyphs: vec![vec![14]; n],
            cid: Some((n, false, FdSelectM::Format0(vec![0; n]))),
            ..Plain::default()
        }
        .job()
    }),
    ("n font dictionaries of their own and n glyphs", |n| {
        Plain {
            glyphs: vec![vec![14]; n],
            cid: Some((n, true, select3(n))),
            ..Plain::default()
        }
        .job()
    }),
    ("n font dictionaries and n entries", |n| {
        Plain {
            top: entries(n, 1),
            cid: Some((n, false, FdSelectM::Format0(vec![0]))),
            ..Plain::default()
        }
        .job()
    }),
    ("n font dictionaries, strings, and subroutines", |n| {
        Plain {
            strings: vec![b"ab".to_vec(); n],
            global: vec![vec![11]; n],
            cid: Some((n, true, FdSelectM::Format0(vec![0]))),
            ..Plain::default()
        }
        .job()
    }),
    ("n glyphs, strings, and subroutines", |n| {
        Plain {
            glyphs: vec![vec![14]; n + 1],
            charset: Some(CharsetM::Format0(firsts(n))),
            strings: vec![b"ab".to_vec(); n],
            global: vec![vec![11]; n],
            local: Some(vec![vec![11]; n]),
            top: entries(n, 1),
            private: entries(n, 1),
            ..Plain::default()
        }
        .job()
    }),
    ("a gap of n bytes", |n| {
        Plain {
            gap: n,
            ..Plain::default()
        }
        .job()
    }),
    ("n bytes after the end", |n| {
        let mut bytes = Plain::default().bytes();
        bytes.extend(vec![0; n]);
        set(bytes)
    }),
    ("n bytes before the beginning", |n| {
        let mut bytes = vec![1; n];
        bytes.extend(Plain::default().bytes());
        Box::new(move || {
            let mut tape = Cursor::new(&bytes[..]);
            tape.set_position(n as u64);
            tape.take::<FontSet>().is_ok()
        })
    }),
    ("counting n fonts", |n| {
        let bytes = Plain {
            names: vec![b"A".to_vec(); n],
            fonts: n,
            ..Plain::default()
        }
        .bytes();
        Box::new(move || FontSet::count(&mut Cursor::new(&bytes[..])).is_ok())
    }),
    ("n own strings looked up", |n| {
        let strings = texts(n);
        Box::new(move || (0..n).all(|k| strings.get(391 + k as u16).is_some()))
    }),
    ("n absent strings looked up", |n| {
        let strings = texts(n);
        Box::new(move || (0..n).all(|_| strings.get(65_535).is_none()))
    }),
    ("n standard strings looked up", |n| {
        let strings = texts(1);
        Box::new(move || (0..n).all(|k| strings.get((k % 391) as u16).is_some()))
    }),
    ("n glyph names looked up", |n| {
        let sets = [
            CharacterSet::ISOAdobe,
            CharacterSet::Expert,
            CharacterSet::ExpertSubset,
        ];
        Box::new(move || {
            (0..n).all(|k| sets[k % 3].get((k % 300) as u16).is_some() || k % 300 > 80)
        })
    }),
    ("n codes looked up", |n| {
        let sets = [Encoding::Standard, Encoding::Expert];
        Box::new(move || {
            for k in 0..n {
                std::hint::black_box(sets[k % 2].get((k / 2 % 256) as u16));
            }
            true
        })
    }),
    ("n entries looked up", |n| {
        let bytes = entries(n, 1);
        let operations: Operations = Cursor::new(&bytes[..]).take().expect("a dictionary");
        Box::new(move || {
            for k in 0..n {
                std::hint::black_box(operations.get(spec::DICT[k % spec::DICT.len()].1));
            }
            true
        })
    }),
    ("n dictionaries one by one", |n| {
        let bytes = index(&vec![entries(2, 1); n]);
        let all: Dictionaries = Cursor::new(&bytes[..]).take().expect("dictionaries");
        Box::new(move || (0..n).all(|k| all.get(k).is_ok()))
    }),
    ("n lines", |n| a_program(repeated(&[139, 140, 5], n), vec![], vec![])),
    ("n lines without an end", |n| {
        a_program(cut(repeated(&[139, 140, 5], n)), vec![], vec![])
    }),
    ("n long lines", |n| {
        let mut part = vec![139; 48];
        part.push(5);
        a_program(repeated(&part, n), vec![], vec![])
    }),
    ("n moves", |n| a_program(repeated(&[139, 140, 21], n), vec![], vec![])),
    ("n alternating lines", |n| a_program(repeated(&[139, 140, 141, 6], n), vec![], vec![])),
    ("n curves", |n| {
        a_program(repeated(&[139, 140, 141, 142, 143, 144, 8], n), vec![], vec![])
    }),
    ("n flexes", |n| {
        let mut part = vec![141; 13];
        part.extend([12, 35]);
        a_program(repeated(&part, n), vec![], vec![])
    }),
    ("n five-byte operands", |n| {
        a_program(repeated(&[255, 0, 1, 2, 3, 12, 18], n), vec![], vec![])
    }),
    ("n additions", |n| a_program(repeated(&[139, 140, 12, 10, 12, 18], n), vec![], vec![])),
    ("n choices", |n| {
        a_program(repeated(&[139, 140, 141, 142, 12, 22, 12, 18], n), vec![], vec![])
    }),
    ("n copies", |n| a_program(over(20, &[12, 27, 12, 18], n), vec![], vec![])),
    ("n exchanges", |n| a_program(over(40, &[12, 28], n), vec![], vec![])),
    ("n picks", |n| a_program(over(40, &[139 + 38, 12, 29, 12, 18], n), vec![], vec![])),
    ("n rolls", |n| a_program(over(40, &[139 + 40, 139 + 7, 12, 30], n), vec![], vec![])),
    ("n copies on a deep stack", |n| a_program(over(2, &[12, 27], n), vec![], vec![])),
    ("n exchanges on a deep stack", |n| a_program(over(n, &[12, 28], n), vec![], vec![])),
    ("n picks on a deep stack", |n| {
        a_program(over(n, &[139 + 38, 12, 29, 12, 18], n), vec![], vec![])
    }),
    ("n rolls on a deep stack", |n| {
        a_program(over(n, &[139 + 40, 139 + 7, 12, 30], n), vec![], vec![])
    }),
    ("n signs on a deep stack", |n| {
        a_program(over(n, &[12, 14, 12, 9, 12, 26], n), vec![], vec![])
    }),
    ("n negations on a deep stack", |n| a_program(over(n, &[12, 5], n), vec![], vec![])),
    ("n operands dropped", |n| a_program(over(n, &[12, 18], n), vec![], vec![])),
    ("n operands added", |n| a_program(over(n + 1, &[12, 10], n), vec![], vec![])),
    ("n operands subtracted", |n| a_program(over(n + 1, &[12, 11], n), vec![], vec![])),
    ("n operands multiplied", |n| a_program(over(n + 1, &[12, 24], n), vec![], vec![])),
    ("n operands divided", |n| a_program(over(n + 1, &[12, 12], n), vec![], vec![])),
    ("n operands compared", |n| a_program(over(n + 1, &[12, 15], n), vec![], vec![])),
    ("n operands conjoined", |n| a_program(over(n + 1, &[12, 3], n), vec![], vec![])),
    ("n operands disjoined", |n| a_program(over(n + 1, &[12, 4], n), vec![], vec![])),
    ("n operands chosen from", |n| a_program(over(3 * n + 1, &[12, 22], n), vec![], vec![])),
    ("n calls over a deep stack", |n| {
        a_program(over(n, &[32, 10], n), vec![], vec![vec![139, 12, 18, 11]])
    }),
    ("n empty subroutines called", |n| {
        a_program(repeated(&[32, 10], n), vec![], vec![vec![11]])
    }),
    ("n calls of the last of n subroutines", |n| {
        let bias: i32 = match n {
            0..=1239 => 107,
            1240..=33_899 => 1131,
            _ => 32_768,
        };
        let mut code = vec![];
        for k in 0..n {
            code.extend(gen::int_any(&mut Rng::new(k as u64), n as i32 - 1 - bias));
            code.push(10);
        }
        code.push(14);
        let mut local = vec![vec![]; n];
        local[n - 1] = vec![139, 22, 11];
        a_program(code, vec![], local)
    }),
    ("n hints", |n| a_program(repeated(&[139, 140, 18], n), vec![], vec![])),
    ("n hints and a mask", |n| {
        let mut code = [139, 140, 1].repeat(n);
        code.push(19);
        code.extend(vec![0x55; (n + 7) / 8]);
        code.extend([139, 22, 14]);
        a_program(code, vec![], vec![])
    }),
    ("n masks", |n| {
        let mut code = [139, 140].repeat(12);
        code.push(18);
        code.extend(repeated(&[19, 0x55, 0x0e], n));
        a_program(code, vec![], vec![])
    }),
    ("n calls", |n| calls(n, 1)),
    ("n nested calls", |n| calls(n, 9)),
    ("n global calls", |n| {
        a_program(repeated(&[32, 29], n), vec![vec![139, 22, 11]], vec![])
    }),
    ("n subroutines once each", |n| {
        let bias: i32 = match n {
            0..=1239 => 107,
            1240..=33_899 => 1131,
            _ => 32_768,
        };
        let mut code = vec![];
        for k in 0..n {
            code.extend(gen::int_any(&mut Rng::new(k as u64), k as i32 - bias));
            code.push(10);
        }
        code.push(14);
        a_program(code, vec![], vec![vec![139, 22, 11]; n])
    }),
    ("n programs over n subroutines", |n| {
        let subroutines = vec![vec![139, 22, 11]; n];
        Box::new(move || {
            let code = [139, 22, 14];
            for _ in 0..n {
                let mut program = Program::new(&code, &subroutines, &subroutines);
                while let Ok(Some(_)) = program.next() {}
            }
            true
        })
    }),
    ("a subroutine of n lines", |n| {
        let mut body = cut(repeated(&[139, 140, 5], n));
        body.push(11);
        a_program(vec![32, 10, 14], vec![], vec![body])
    }),
    ("n calls of a subroutine of n bytes that returns at once", |n| {
        let mut body = vec![139, 22, 11];
        body.extend(vec![14; n]);
        a_program(repeated(&[32, 10], n), vec![], vec![body])
    }),
    ("n calls of a global subroutine of n bytes that returns at once", |n| {
        let mut body = vec![139, 22, 11];
        body.extend(vec![14; n]);
        a_program(repeated(&[32, 29], n), vec![body], vec![])
    }),
    ("n calls in a charstring of n bytes more", |n| {
        let mut code = repeated(&[32, 10], n);
        code.extend(vec![139; n]);
        a_program(code, vec![], vec![vec![139, 22, 11]])
    }),
    ("n calls among n hints", |n| {
        let mut code = [139, 140, 1].repeat(n);
        code.extend(repeated(&[32, 10], n));
        a_program(code, vec![], vec![vec![139, 22, 11]])
    }),
    ("n bytes after the end of a charstring", |n| {
        let mut code = vec![139, 22, 14];
        code.extend(vec![139; n]);
        a_program(code, vec![], vec![])
    }),
    ("n lines and a failure", |n| {
        let mut code = cut(repeated(&[139, 140, 5], n));
        code.extend([139, 12, 99, 14]);
        a_program(code, vec![], vec![])
    }),
    ("n steps past the end", |n| {
        Box::new(move || {
            let mut program = Program::new(&[139, 22, 14], &[], &[]);
            for _ in 0..n {
                let _ = std::hint::black_box(program.next());
            }
            true
        })
    }),
    ("n steps past a failure", |n| {
        Box::new(move || {
            let mut code = vec![140; 40];
            code.extend([12, 99]);
            let mut program = Program::new(&code, &[], &[]);
            for _ in 0..n {
                let _ = std::hint::black_box(program.next());
            }
            true
        })
    }),
];

/// The most regions per unit that anything needs, ten times over.
const MOST: f64 = 8_000.0;

/// Whether the growth of a cost is faster than that of a size: by more than a
/// factor of two and a half and a constant between the smallest and the largest sizes.
fn growth(costs: &[(usize, u64)]) -> Result<(f64, f64), String> {
    let slope = |a: (usize, u64), b: (usize, u64)| {
        b.1.saturating_sub(a.1) as f64 / (b.0 - a.0) as f64
    };
    let n = costs.len();
    let (first, last) = (slope(costs[0], costs[1]), slope(costs[n - 2], costs[n - 1]));
    if last > 2.5 * first + 60.0 || last > MOST {
        return Err(format!("{costs:?}: {first:.1} and then {last:.1} each"));
    }
    Ok((first, last))
}

pub fn a05(ctx: &mut Ctx) {
    let small = ctx.options.small;
    let all = FAMILIES.len() as u64;
    ctx.cases("growth", all, all, |ctx, _, i| {
        let (name, make) = FAMILIES[i as usize % FAMILIES.len()];
        let mut costs = vec![];
        ctx.input(name.as_bytes());
        for n in SIZES {
            let mut job = Some(make(n));
            steps_clear();
            let before = steps();
            let done = ctx.target(|| vh_work(&mut job)).unwrap_or(false);
            if let (Some(before), Some(after)) = (before, steps()) {
                costs.push((n, after - before));
            }
            ctx.evaluated(mix(i * 1_000_003 + n as u64), true);
            ctx.note(&format!("{i} {n} {done} {name}"));
            ctx.count(if done { "ended well" } else { "ended with a failure" }, 1);
        }
        if !costs.is_empty() {
            match growth(&costs) {
                Ok((_, last)) => ctx.max("regions per unit", last as u64),
                Err(text) => ctx.violate(format!("growth: {name}"), text),
            }
        }
        ctx.sample(|| format!("{name}: {costs:?} (size, regions)"));
    });
    if small {
        return;
    }
    // Anything well-formed, of which no table is used twice.
    ctx.cases("font sets", 4_000, 400_000, |ctx, rng, _| {
        let mut model = SetM::random(
            rng,
            &Style {
                fonts: 6,
                cid: 30,
                most_glyphs: 200,
                most_chunk: 30,
                gaps: true,
            },
        );
        model.share = false;
        if rng.one_in(4) {
            model.swell(rng);
        }
        let bytes = model.write().bytes;
        let Ok(meaning) = refr::font_set(&bytes, 0) else {
            return;
        };
        let mut job = Some(set(bytes));
        steps_clear();
        let before = steps();
        let _ = ctx.target(|| vh_work(&mut job));
        ctx.evaluated(mix(model.layout), true);
        if let (Some(before), Some(after)) = (before, steps()) {
            let each = (after - before) as f64 / (meaning.reach + 100) as f64;
            ctx.max("regions per byte (in hundredths)", (each * 100.0) as u64);
            ctx.sample(|| format!("{} bytes: {each:.1} regions per byte", meaning.reach));
            if each > EACH {
                ctx.violate("a font set: too much work", format!("{each} per byte"));
            }
        }
    });
    // Outlines of any make, over and over.
    ctx.cases("outlines", 400, 20_000, |ctx, rng, _| {
        let style = gen::Style {
            hints: 0,
            width: 0,
            repeat: 0,
            ..gen::Style::full()
        };
        let glyph = gen::glyph(rng, &style);
        let mut part = glyph.tokens.concat();
        if part.last() != Some(&14) {
            return;
        }
        part.pop();
        if part.is_empty() {
            return;
        }
        let mut costs = vec![];
        for n in [20, 80, 320, 1_280] {
            let mut job = Some(a_program(repeated(&part, n), vec![], vec![]));
            steps_clear();
            let before = steps();
            let done = ctx.target(|| vh_work(&mut job)).unwrap_or(false);
            ctx.count(if done { "ended well" } else { "ended with a failure" }, 1);
            if let (Some(before), Some(after)) = (before, steps()) {
                costs.push((n * part.len(), after - before));
            }
        }
        ctx.evaluated_bytes(&part, true);
        ctx.sample(|| format!("{}: {costs:?} (bytes, regions)", crate::mon::brief(&part)));
        if !costs.is_empty() {
            match growth(&costs) {
                Ok((_, last)) => ctx.max("regions per byte of a charstring", last as u64),
                Err(text) => ctx.violate("growth: outlines", text),
            }
        }
    });
}

/// Regions per byte of a font set that are too many.
const EACH: f64 = 600.0;
