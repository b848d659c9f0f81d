//! The tables of the Compact Font Format (Adobe Technical Note 5176), written
//! down separately from the code under test. The identifiers of the predefined
//! encodings and character sets were compared with those inside FreeType.

use postscript::compact1::Operator;
use postscript::type2;

/// Appendix A: the standard strings, separated by blanks.
pub const STANDARD_STRINGS: &str = "\
.notdef space exclam quotedbl numbersign dollar percent ampersand quoteright parenleft \
parenright asterisk plus comma hyphen period slash zero one two three four five six \
seven eight nine colon semicolon less equal greater question at A B C D E F G H I J K L \
M N O P Q R S T U V W X Y Z bracketleft backslash bracketright asciicircum underscore \
quoteleft a b c d e f g h i j k l m n o p q r s t u v w x y z braceleft bar braceright \
asciitilde exclamdown cent sterling fraction yen florin section currency quotesingle \
quotedblleft guillemotleft guilsinglleft guilsinglright fi fl endash dagger daggerdbl \
periodcentered paragraph bullet quotesinglbase quotedblbase quotedblright guillemotright \
ellipsis perthousand questiondown grave acute circumflex tilde macron breve dotaccent \
dieresis ring cedilla hungarumlaut ogonek caron emdash AE ordfeminine Lslash Oslash OE \
ordmasculine ae dotlessi lslash oslash oe germandbls onesuperior logicalnot mu trademark \
Eth onehalf plusminus Thorn onequarter divide brokenbar degree thorn threequarters \
twosuperior registered minus eth multiply threesuperior copyright Aacute Acircumflex \
Adieresis Agrave Aring Atilde Ccedilla Eacute Ecircumflex Edieresis Egrave Iacute \
Icircumflex Idieresis Igrave Ntilde Oacute Ocircumflex Odieresis Ograve Otilde Scaron \
Uacute Ucircumflex Udieresis Ugrave Yacute Ydieresis Zcaron aacute acircumflex adieresis \
agrave aring atilde ccedilla eacute ecircumflex edieresis egrave iacute icircumflex \
idieresis igrave ntilde oacute ocircumflex odieresis ograve otilde scaron uacute \
ucircumflex udieresis ugrave yacute ydieresis zcaron exclamsmall Hungarumlautsmall \
dollaroldstyle dollarsuperior ampersandsmall Acutesmall parenleftsuperior \
parenrightsuperior twodotenleader onedotenleader zerooldstyle oneoldstyle twooldstyle \
threeoldstyle fouroldstyle fiveoldstyle sixoldstyle sevenoldstyle eightoldstyle \
nineoldstyle commasuperior threequartersemdash periodsuperior questionsmall asuperior \
bsuperior centsuperior dsuperior esuperior isuperior lsuperior msuperior nsuperior \
osuperior rsuperior ssuperior tsuperior ff ffi ffl parenleftinferior parenrightinferior \
Circumflexsmall hyphensuperior Gravesmall Asmall Bsmall Csmall Dsmall Esmall Fsmall \
Gsmall Hsmall Ismall Jsmall Ksmall Lsmall Msmall Nsmall Osmall Psmall Qsmall Rsmall \
Ssmall Tsmall Usmall Vsmall Wsmall Xsmall Ysmall Zsmall colonmonetary onefitted rupiah \
Tildesmall exclamdownsmall centoldstyle Lslashsmall Scaronsmall Zcaronsmall \
Dieresissmall Brevesmall Caronsmall Dotaccentsmall Macronsmall figuredash hypheninferior \
Ogoneksmall Ringsmall Cedillasmall questiondownsmall oneeighth threeeighths fiveeighths \
seveneighths onethird twothirds zerosuperior foursuperior fivesuperior sixsuperior \
sevensuperior eightsuperior ninesuperior zeroinferior oneinferior twoinferior \
threeinferior fourinferior fiveinferior sixinferior seveninferior eightinferior \
nineinferior centinferior dollarinferior periodinferior commainferior Agravesmall \
Aacutesmall Acircumflexsmall Atildesmall Adieresissmall Aringsmall AEsmall Ccedillasmall \
Egravesmall Eacutesmall Ecircumflexsmall Edieresissmall Igravesmall Iacutesmall \
Icircumflexsmall Idieresissmall Ethsmall Ntildesmall Ogravesmall Oacutesmall \
Ocircumflexsmall Otildesmall Odieresissmall OEsmall Oslashsmall Ugravesmall Uacutesmall \
Ucircumflexsmall Udieresissmall Yacutesmall Thornsmall Ydieresissmall 001.000 001.001 \
001.002 001.003 Black Bold Book Light Medium Regular Roman Semibold";

/// Appendix B: the standard encoding as (first code, last code, first identifier).
pub const STANDARD_ENCODING: &[(u16, u16, u16)] = &[
    (32, 126, 1),
    (161, 175, 96),
    (177, 180, 111),
    (182, 189, 115),
    (191, 191, 123),
    (193, 200, 124),
    (202, 203, 132),
    (205, 208, 134),
    (225, 225, 138),
    (227, 227, 139),
    (232, 235, 140),
    (241, 241, 144),
    (245, 245, 145),
    (248, 251, 146),
];

/// Appendix B: the expert encoding as (first code, last code, first identifier).
pub const EXPERT_ENCODING: &[(u16, u16, u16)] = &[
    (32, 32, 1),
    (33, 34, 229),
    (36, 43, 231),
    (44, 46, 13),
    (47, 47, 99),
    (48, 57, 239),
    (58, 59, 27),
    (60, 63, 249),
    (65, 69, 253),
    (73, 73, 258),
    (76, 79, 259),
    (82, 84, 263),
    (86, 86, 266),
    (87, 88, 109),
    (89, 91, 267),
    (93, 126, 270),
    (161, 163, 304),
    (166, 170, 307),
    (172, 172, 312),
    (175, 175, 313),
    (178, 179, 314),
    (182, 184, 316),
    (188, 188, 158),
    (189, 189, 155),
    (190, 190, 163),
    (191, 197, 319),
    (200, 200, 326),
    (201, 201, 150),
    (202, 202, 164),
    (203, 203, 169),
    (204, 255, 327),
];

/// Appendix C: the identifiers of the expert set, glyph by glyph, as inclusive runs.
pub const EXPERT_CHARSET: &[(u16, u16)] = &[
    (0, 1),
    (229, 238),
    (13, 15),
    (99, 99),
    (239, 248),
    (27, 28),
    (249, 266),
    (109, 110),
    (267, 318),
    (158, 158),
    (155, 155),
    (163, 163),
    (319, 326),
    (150, 150),
    (164, 164),
    (169, 169),
    (327, 378),
];

/// Appendix C: the identifiers of the expert subset, glyph by glyph, as inclusive runs.
pub const EXPERT_SUBSET_CHARSET: &[(u16, u16)] = &[
    (0, 1),
    (231, 232),
    (235, 238),
    (13, 15),
    (99, 99),
    (239, 248),
    (27, 28),
    (249, 251),
    (253, 266),
    (109, 110),
    (267, 270),
    (272, 272),
    (300, 302),
    (305, 305),
    (314, 315),
    (158, 158),
    (155, 155),
    (163, 163),
    (320, 326),
    (150, 150),
    (164, 164),
    (169, 169),
    (327, 346),
];

/// A default operand.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Preset {
    Int(i32),
    Real(f32),
}

use Preset::{Int, Real};

/// Tables 9, 10, and 23: the dictionary operators and their default operands.
pub const DICT: &[(u16, Operator, &[Preset])] = &[
    (0x00, Operator::Version, &[]),
    (0x01, Operator::Notice, &[]),
    (0x02, Operator::FullName, &[]),
    (0x03, Operator::FamilyName, &[]),
    (0x04, Operator::Weight, &[]),
    (0x05, Operator::FontBBox, &[Int(0), Int(0), Int(0), Int(0)]),
    (0x06, Operator::BlueValues, &[]),
    (0x07, Operator::OtherBlues, &[]),
    (0x08, Operator::FamilyBlues, &[]),
    (0x09, Operator::FamilyOtherBlues, &[]),
    (0x0a, Operator::StdHW, &[]),
    (0x0b, Operator::StdVW, &[]),
    (0x0d, Operator::UniqueID, &[]),
    (0x0e, Operator::XUID, &[]),
    (0x0f, Operator::CharSet, &[Int(0)]),
    (0x10, Operator::Encoding, &[Int(0)]),
    (0x11, Operator::CharStrings, &[]),
    (0x12, Operator::Private, &[]),
    (0x13, Operator::Subrs, &[]),
    (0x14, Operator::DefaultWidthX, &[Int(0)]),
    (0x15, Operator::NominalWidthX, &[Int(0)]),
    (0xc00, Operator::Copyright, &[]),
    (0xc01, Operator::IsFixedPitch, &[Int(0)]),
    (0xc02, Operator::ItalicAngle, &[Int(0)]),
    (0xc03, Operator::UnderlinePosition, &[Int(-100)]),
    (0xc04, Operator::UnderlineThickness, &[Int(50)]),
    (0xc05, Operator::PaintType, &[Int(0)]),
    (0xc06, Operator::CharStringType, &[Int(2)]),
    (
        0xc07,
        Operator::FontMatrix,
        &[
            Real(0.001),
            Real(0.0),
            Real(0.0),
            Real(0.001),
            Real(0.0),
            Real(0.0),
        ],
    ),
    (0xc08, Operator::StrokeWidth, &[Int(0)]),
    (0xc09, Operator::BlueScale, &[Real(0.039625)]),
    (0xc0a, Operator::BlueShift, &[Int(7)]),
    (0xc0b, Operator::BlueFuzz, &[Int(1)]),
    (0xc0c, Operator::StemSnapH, &[]),
    (0xc0d, Operator::StemSnapV, &[]),
    (0xc0e, Operator::ForceBold, &[Int(0)]),
    (0xc11, Operator::LanguageGroup, &[Int(0)]),
    (0xc12, Operator::ExpansionFactor, &[Real(0.06)]),
    (0xc13, Operator::InitialRandomSeed, &[Int(0)]),
    (0xc14, Operator::SyntheticBase, &[]),
    (0xc15, Operator::PostScript, &[]),
    (0xc16, Operator::BaseFontName, &[]),
    (0xc17, Operator::BaseFontBlend, &[]),
    (0xc1e, Operator::ROS, &[]),
    (0xc1f, Operator::CIDFontVersion, &[Int(0)]),
    (0xc20, Operator::CIDFontRevision, &[Int(0)]),
    (0xc21, Operator::CIDFontType, &[Int(0)]),
    (0xc22, Operator::CIDCount, &[Int(8720)]),
    (0xc23, Operator::UIDBase, &[]),
    (0xc24, Operator::FDArray, &[]),
    (0xc25, Operator::FDSelect, &[]),
    (0xc26, Operator::FontName, &[]),
];

/// Appendix A of Technical Note 5177: the charstring operators.
pub const CHARSTRING: &[(u16, type2::Operator)] = &[
    (0x01, type2::Operator::HStem),
    (0x03, type2::Operator::VStem),
    (0x04, type2::Operator::VMoveTo),
    (0x05, type2::Operator::RLineTo),
    (0x06, type2::Operator::HLineTo),
    (0x07, type2::Operator::VLineTo),
    (0x08, type2::Operator::RRCurveTo),
    (0x0a, type2::Operator::CallSubr),
    (0x0b, type2::Operator::Return),
    (0x0e, type2::Operator::EndChar),
    (0x12, type2::Operator::HStemHM),
    (0x13, type2::Operator::HintMask),
    (0x14, type2::Operator::CntrMask),
    (0x15, type2::Operator::RMoveTo),
    (0x16, type2::Operator::HMoveTo),
    (0x17, type2::Operator::VStemHM),
    (0x18, type2::Operator::RCurveLine),
    (0x19, type2::Operator::RLineCurve),
    (0x1a, type2::Operator::VVCurveTo),
    (0x1b, type2::Operator::HHCurveTo),
    (0x1d, type2::Operator::CallGSubr),
    (0x1e, type2::Operator::VHCurveTo),
    (0x1f, type2::Operator::HVCurveTo),
    (0xc03, type2::Operator::And),
    (0xc04, type2::Operator::Or),
    (0xc05, type2::Operator::Not),
    (0xc09, type2::Operator::Abs),
    (0xc0a, type2::Operator::Add),
    (0xc0b, type2::Operator::Sub),
    (0xc0c, type2::Operator::Div),
    (0xc0e, type2::Operator::Neg),
    (0xc0f, type2::Operator::Eq),
    (0xc12, type2::Operator::Drop),
    (0xc14, type2::Operator::Put),
    (0xc15, type2::Operator::Get),
    (0xc16, type2::Operator::IfElse),
    (0xc17, type2::Operator::Random),
    (0xc18, type2::Operator::Mul),
    (0xc1a, type2::Operator::Sqrt),
    (0xc1b, type2::Operator::Dup),
    (0xc1c, type2::Operator::Exch),
    (0xc1d, type2::Operator::Index),
    (0xc1e, type2::Operator::Roll),
    (0xc22, type2::Operator::HFlex),
    (0xc23, type2::Operator::Flex),
    (0xc24, type2::Operator::HFlex1),
    (0xc25, type2::Operator::Flex1),
];

/// The standard strings in order.
pub fn standard_strings() -> Vec<&'static str> {
    let names: Vec<_> = STANDARD_STRINGS.split_ascii_whitespace().collect();
    assert_eq!(names.len(), 391);
    names
}

/// The identifiers of the codes of a predefined encoding.
pub fn encoding(runs: &[(u16, u16, u16)]) -> [u16; 256] {
    let mut table = [0; 256];
    for &(first, last, id) in runs {
        for code in first..=last {
            table[code as usize] = id + (code - first);
        }
    }
    table
}

/// The identifiers of the glyphs of a predefined character set.
pub fn charset(runs: &[(u16, u16)]) -> Vec<u16> {
    runs.iter()
        .flat_map(|&(first, last)| first..=last)
        .collect()
}

/// The default operands of a dictionary operator.
pub fn dict(code: u16) -> &'static (u16, Operator, &'static [Preset]) {
    DICT.iter()
        .find(|row| row.0 == code)
        .expect("a dictionary operator")
}

/// The operator of a charstring code.
pub fn charstring(code: u16) -> Option<type2::Operator> {
    CHARSTRING.iter().find(|row| row.0 == code).map(|row| row.1)
}
