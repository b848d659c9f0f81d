From 794e3fac6b5d8c3714455f7a69f88c1d8a495028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 01/14] fix: Refuse integers that do not fit into a string
 identifier

---
 src/compact1/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 6c026dc..25f921c 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -35,7 +35,7 @@ impl TryFrom<Number> for StringID {
     #[inline]
     fn try_from(number: Number) -> Result<Self> {
         match number {
-            Number::Integer(value) if value >= 0 => Ok(value as Self),
+            Number::Integer(value) if (0..=Self::MAX as i32).contains(&value) => Ok(value as Self),
             _ => raise!("found a malformed string ID"),
         }
     }
-- 
2.43.0


From 31b469a99e98f1440dd533bdf198ed094218adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 02/14] fix: Reject character sets in format 0 for no glyphs

---
 src/compact1/character_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 663eb5b..889690c 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -93,7 +93,7 @@ impl crate::walue::Read<'static> for CharacterSet0 {
 
     fn read<T: crate::tape::Read>(tape: &mut T, glyph_count: usize) -> Result<Self> {
         let format = tape.take::<u8>()?;
-        if format != 0 {
+        if format != 0 || glyph_count == 0 {
             raise!("found a malformed character set");
         }
         Ok(CharacterSet0 {
-- 
2.43.0


From 885bf8a9f65fd46799776f34e4550f11f509a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 03/14] fix: Name the glyphs of the predefined character sets
 by position

---
 src/compact1/character_set.rs | 501 +++++++++++++++++-----------------
 1 file changed, 252 insertions(+), 249 deletions(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 889690c..167ce47 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -166,6 +166,7 @@ impl crate::walue::Read<'static> for CharacterSet2 {
 
 fn get_iso_adobe(glyph_id: GlyphID) -> Option<&'static str> {
     Some(match glyph_id {
+        0 => ".notdef",
         1 => "space",
         2 => "exclam",
         3 => "quotedbl",
@@ -400,263 +401,265 @@ fn get_iso_adobe(glyph_id: GlyphID) -> Option<&'static str> {
 
 fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
     Some(match glyph_id {
+        0 => ".notdef",
         1 => "space",
-        229 => "exclamsmall",
-        230 => "Hungarumlautsmall",
-        231 => "dollaroldstyle",
-        232 => "dollarsuperior",
-        233 => "ampersandsmall",
-        234 => "Acutesmall",
-        235 => "parenleftsuperior",
-        236 => "parenrightsuperior",
-        237 => "twodotenleader",
-        238 => "onedotenleader",
-        13 => "comma",
-        14 => "hyphen",
-        15 => "period",
-        99 => "fraction",
-        239 => "zerooldstyle",
-        240 => "oneoldstyle",
-        241 => "twooldstyle",
-        242 => "threeoldstyle",
-        243 => "fouroldstyle",
-        244 => "fiveoldstyle",
-        245 => "sixoldstyle",
-        246 => "sevenoldstyle",
-        247 => "eightoldstyle",
-        248 => "nineoldstyle",
-        27 => "colon",
-        28 => "semicolon",
-        249 => "commasuperior",
-        250 => "threequartersemdash",
-        251 => "periodsuperior",
-        252 => "questionsmall",
-        253 => "asuperior",
-        254 => "bsuperior",
-        255 => "centsuperior",
-        256 => "dsuperior",
-        257 => "esuperior",
-        258 => "isuperior",
-        259 => "lsuperior",
-        260 => "msuperior",
-        261 => "nsuperior",
-        262 => "osuperior",
-        263 => "rsuperior",
-        264 => "ssuperior",
-        265 => "tsuperior",
-        266 => "ff",
-        109 => "fi",
-        110 => "fl",
-        267 => "ffi",
-        268 => "ffl",
-        269 => "parenleftinferior",
-        270 => "parenrightinferior",
-        271 => "Circumflexsmall",
-        272 => "hyphensuperior",
-        273 => "Gravesmall",
-        274 => "Asmall",
-        275 => "Bsmall",
-        276 => "Csmall",
-        277 => "Dsmall",
-        278 => "Esmall",
-        279 => "Fsmall",
-        280 => "Gsmall",
-        281 => "Hsmall",
-        282 => "Ismall",
-        283 => "Jsmall",
-        284 => "Ksmall",
-        285 => "Lsmall",
-        286 => "Msmall",
-        287 => "Nsmall",
-        288 => "Osmall",
-        289 => "Psmall",
-        290 => "Qsmall",
-        291 => "Rsmall",
-        292 => "Ssmall",
-        293 => "Tsmall",
-        294 => "Usmall",
-        295 => "Vsmall",
-        296 => "Wsmall",
-        297 => "Xsmall",
-        298 => "Ysmall",
-        299 => "Zsmall",
-        300 => "colonmonetary",
-        301 => "onefitted",
-        302 => "rupiah",
-        303 => "Tildesmall",
-        304 => "exclamdownsmall",
-        305 => "centoldstyle",
-        306 => "Lslashsmall",
-        307 => "Scaronsmall",
-        308 => "Zcaronsmall",
-        309 => "Dieresissmall",
-        310 => "Brevesmall",
-        311 => "Caronsmall",
-        312 => "Dotaccentsmall",
-        313 => "Macronsmall",
-        314 => "figuredash",
-        315 => "hypheninferior",
-        316 => "Ogoneksmall",
-        317 => "Ringsmall",
-        318 => "Cedillasmall",
-        158 => "onequarter",
-        155 => "onehalf",
-        163 => "threequarters",
-        319 => "questiondownsmall",
-        320 => "oneeighth",
-        321 => "threeeighths",
-        322 => "fiveeighths",
-        323 => "seveneighths",
-        324 => "onethird",
-        325 => "twothirds",
-        326 => "zerosuperior",
-        150 => "onesuperior",
-        164 => "twosuperior",
-        169 => "threesuperior",
-        327 => "foursuperior",
-        328 => "fivesuperior",
-        329 => "sixsuperior",
-        330 => "sevensuperior",
-        331 => "eightsuperior",
-        332 => "ninesuperior",
-        333 => "zeroinferior",
-        334 => "oneinferior",
-        335 => "twoinferior",
-        336 => "threeinferior",
-        337 => "fourinferior",
-        338 => "fiveinferior",
-        339 => "sixinferior",
-        340 => "seveninferior",
-        341 => "eightinferior",
-        342 => "nineinferior",
-        343 => "centinferior",
-        344 => "dollarinferior",
-        345 => "periodinferior",
-        346 => "commainferior",
-        347 => "Agravesmall",
-        348 => "Aacutesmall",
-        349 => "Acircumflexsmall",
-        350 => "Atildesmall",
-        351 => "Adieresissmall",
-        352 => "Aringsmall",
-        353 => "AEsmall",
-        354 => "Ccedillasmall",
-        355 => "Egravesmall",
-        356 => "Eacutesmall",
-        357 => "Ecircumflexsmall",
-        358 => "Edieresissmall",
-        359 => "Igravesmall",
-        360 => "Iacutesmall",
-        361 => "Icircumflexsmall",
-        362 => "Idieresissmall",
-        363 => "Ethsmall",
-        364 => "Ntildesmall",
-        365 => "Ogravesmall",
-        366 => "Oacutesmall",
-        367 => "Ocircumflexsmall",
-        368 => "Otildesmall",
-        369 => "Odieresissmall",
-        370 => "OEsmall",
-        371 => "Oslashsmall",
-        372 => "Ugravesmall",
-        373 => "Uacutesmall",
-        374 => "Ucircumflexsmall",
-        375 => "Udieresissmall",
-        376 => "Yacutesmall",
-        377 => "Thornsmall",
-        378 => "Ydieresissmall",
+        2 => "exclamsmall",
+        3 => "Hungarumlautsmall",
+        4 => "dollaroldstyle",
+        5 => "dollarsuperior",
+        6 => "ampersandsmall",
+        7 => "Acutesmall",
+        8 => "parenleftsuperior",
+        9 => "parenrightsuperior",
+        10 => "twodotenleader",
+        11 => "onedotenleader",
+        12 => "comma",
+        13 => "hyphen",
+        14 => "period",
+        15 => "fraction",
+        16 => "zerooldstyle",
+        17 => "oneoldstyle",
+        18 => "twooldstyle",
+        19 => "threeoldstyle",
+        20 => "fouroldstyle",
+        21 => "fiveoldstyle",
+        22 => "sixoldstyle",
+        23 => "sevenoldstyle",
+        24 => "eightoldstyle",
+        25 => "nineoldstyle",
+        26 => "colon",
+        27 => "semicolon",
+        28 => "commasuperior",
+        29 => "threequartersemdash",
+        30 => "periodsuperior",
+        31 => "questionsmall",
+        32 => "asuperior",
+        33 => "bsuperior",
+        34 => "centsuperior",
+        35 => "dsuperior",
+        36 => "esuperior",
+        37 => "isuperior",
+        38 => "lsuperior",
+        39 => "msuperior",
+        40 => "nsuperior",
+        41 => "osuperior",
+        42 => "rsuperior",
+        43 => "ssuperior",
+        44 => "tsuperior",
+        45 => "ff",
+        46 => "fi",
+        47 => "fl",
+        48 => "ffi",
+        49 => "ffl",
+        50 => "parenleftinferior",
+        51 => "parenrightinferior",
+        52 => "Circumflexsmall",
+        53 => "hyphensuperior",
+        54 => "Gravesmall",
+        55 => "Asmall",
+        56 => "Bsmall",
+        57 => "Csmall",
+        58 => "Dsmall",
+        59 => "Esmall",
+        60 => "Fsmall",
+        61 => "Gsmall",
+        62 => "Hsmall",
+        63 => "Ismall",
+        64 => "Jsmall",
+        65 => "Ksmall",
+        66 => "Lsmall",
+        67 => "Msmall",
+        68 => "Nsmall",
+        69 => "Osmall",
+        70 => "Psmall",
+        71 => "Qsmall",
+        72 => "Rsmall",
+        73 => "Ssmall",
+        74 => "Tsmall",
+        75 => "Usmall",
+        76 => "Vsmall",
+        77 => "Wsmall",
+        78 => "Xsmall",
+        79 => "Ysmall",
+        80 => "Zsmall",
+        81 => "colonmonetary",
+        82 => "onefitted",
+        83 => "rupiah",
+        84 => "Tildesmall",
+        85 => "exclamdownsmall",
+        86 => "centoldstyle",
+        87 => "Lslashsmall",
+        88 => "Scaronsmall",
+        89 => "Zcaronsmall",
+        90 => "Dieresissmall",
+        91 => "Brevesmall",
+        92 => "Caronsmall",
+        93 => "Dotaccentsmall",
+        94 => "Macronsmall",
+        95 => "figuredash",
+        96 => "hypheninferior",
+        97 => "Ogoneksmall",
+        98 => "Ringsmall",
+        99 => "Cedillasmall",
+        100 => "onequarter",
+        101 => "onehalf",
+        102 => "threequarters",
+        103 => "questiondownsmall",
+        104 => "oneeighth",
+        105 => "threeeighths",
+        106 => "fiveeighths",
+        107 => "seveneighths",
+        108 => "onethird",
+        109 => "twothirds",
+        110 => "zerosuperior",
+        111 => "onesuperior",
+        112 => "twosuperior",
+        113 => "threesuperior",
+        114 => "foursuperior",
+        115 => "fivesuperior",
+        116 => "sixsuperior",
+        117 => "sevensuperior",
+        118 => "eightsuperior",
+        119 => "ninesuperior",
+        120 => "zeroinferior",
+        121 => "oneinferior",
+        122 => "twoinferior",
+        123 => "threeinferior",
+        124 => "fourinferior",
+        125 => "fiveinferior",
+        126 => "sixinferior",
+        127 => "seveninferior",
+        128 => "eightinferior",
+        129 => "nineinferior",
+        130 => "centinferior",
+        131 => "dollarinferior",
+        132 => "periodinferior",
+        133 => "commainferior",
+        134 => "Agravesmall",
+        135 => "Aacutesmall",
+        136 => "Acircumflexsmall",
+        137 => "Atildesmall",
+        138 => "Adieresissmall",
+        139 => "Aringsmall",
+        140 => "AEsmall",
+        141 => "Ccedillasmall",
+        142 => "Egravesmall",
+        143 => "Eacutesmall",
+        144 => "Ecircumflexsmall",
+        145 => "Edieresissmall",
+        146 => "Igravesmall",
+        147 => "Iacutesmall",
+        148 => "Icircumflexsmall",
+        149 => "Idieresissmall",
+        150 => "Ethsmall",
+        151 => "Ntildesmall",
+        152 => "Ogravesmall",
+        153 => "Oacutesmall",
+        154 => "Ocircumflexsmall",
+        155 => "Otildesmall",
+        156 => "Odieresissmall",
+        157 => "OEsmall",
+        158 => "Oslashsmall",
+        159 => "Ugravesmall",
+        160 => "Uacutesmall",
+        161 => "Ucircumflexsmall",
+        162 => "Udieresissmall",
+        163 => "Yacutesmall",
+        164 => "Thornsmall",
+        165 => "Ydieresissmall",
         _ => return None,
     })
 }
 
 fn get_expert_subset(glyph_id: GlyphID) -> Option<&'static str> {
     Some(match glyph_id {
+        0 => ".notdef",
         1 => "space",
-        231 => "dollaroldstyle",
-        232 => "dollarsuperior",
-        235 => "parenleftsuperior",
-        236 => "parenrightsuperior",
-        237 => "twodotenleader",
-        238 => "onedotenleader",
-        13 => "comma",
-        14 => "hyphen",
-        15 => "period",
-        99 => "fraction",
-        239 => "zerooldstyle",
-        240 => "oneoldstyle",
-        241 => "twooldstyle",
-        242 => "threeoldstyle",
-        243 => "fouroldstyle",
-        244 => "fiveoldstyle",
-        245 => "sixoldstyle",
-        246 => "sevenoldstyle",
-        247 => "eightoldstyle",
-        248 => "nineoldstyle",
-        27 => "colon",
-        28 => "semicolon",
-        249 => "commasuperior",
-        250 => "threequartersemdash",
-        251 => "periodsuperior",
-        253 => "asuperior",
-        254 => "bsuperior",
-        255 => "centsuperior",
-        256 => "dsuperior",
-        257 => "esuperior",
-        258 => "isuperior",
-        259 => "lsuperior",
-        260 => "msuperior",
-        261 => "nsuperior",
-        262 => "osuperior",
-        263 => "rsuperior",
-        264 => "ssuperior",
-        265 => "tsuperior",
-        266 => "ff",
-        109 => "fi",
-        110 => "fl",
-        267 => "ffi",
-        268 => "ffl",
-        269 => "parenleftinferior",
-        270 => "parenrightinferior",
-        272 => "hyphensuperior",
-        300 => "colonmonetary",
-        301 => "onefitted",
-        302 => "rupiah",
-        305 => "centoldstyle",
-        314 => "figuredash",
-        315 => "hypheninferior",
-        158 => "onequarter",
-        155 => "onehalf",
-        163 => "threequarters",
-        320 => "oneeighth",
-        321 => "threeeighths",
-        322 => "fiveeighths",
-        323 => "seveneighths",
-        324 => "onethird",
-        325 => "twothirds",
-        326 => "zerosuperior",
-        150 => "onesuperior",
-        164 => "twosuperior",
-        169 => "threesuperior",
-        327 => "foursuperior",
-        328 => "fivesuperior",
-        329 => "sixsuperior",
-        330 => "sevensuperior",
-        331 => "eightsuperior",
-        332 => "ninesuperior",
-        333 => "zeroinferior",
-        334 => "oneinferior",
-        335 => "twoinferior",
-        336 => "threeinferior",
-        337 => "fourinferior",
-        338 => "fiveinferior",
-        339 => "sixinferior",
-        340 => "seveninferior",
-        341 => "eightinferior",
-        342 => "nineinferior",
-        343 => "centinferior",
-        344 => "dollarinferior",
-        345 => "periodinferior",
-        346 => "commainferior",
+        2 => "dollaroldstyle",
+        3 => "dollarsuperior",
+        4 => "parenleftsuperior",
+        5 => "parenrightsuperior",
+        6 => "twodotenleader",
+        7 => "onedotenleader",
+        8 => "comma",
+        9 => "hyphen",
+        10 => "period",
+        11 => "fraction",
+        12 => "zerooldstyle",
+        13 => "oneoldstyle",
+        14 => "twooldstyle",
+        15 => "threeoldstyle",
+        16 => "fouroldstyle",
+        17 => "fiveoldstyle",
+        18 => "sixoldstyle",
+        19 => "sevenoldstyle",
+        20 => "eightoldstyle",
+        21 => "nineoldstyle",
+        22 => "colon",
+        23 => "semicolon",
+        24 => "commasuperior",
+        25 => "threequartersemdash",
+        26 => "periodsuperior",
+        27 => "asuperior",
+        28 => "bsuperior",
+        29 => "centsuperior",
+        30 => "dsuperior",
+        31 => "esuperior",
+        32 => "isuperior",
+        33 => "lsuperior",
+        34 => "msuperior",
+        35 => "nsuperior",
+        36 => "osuperior",
+        37 => "rsuperior",
+        38 => "ssuperior",
+        39 => "tsuperior",
+        40 => "ff",
+        41 => "fi",
+        42 => "fl",
+        43 => "ffi",
+        44 => "ffl",
+        45 => "parenleftinferior",
+        46 => "parenrightinferior",
+        47 => "hyphensuperior",
+        48 => "colonmonetary",
+        49 => "onefitted",
+        50 => "rupiah",
+        51 => "centoldstyle",
+        52 => "figuredash",
+        53 => "hypheninferior",
+        54 => "onequarter",
+        55 => "onehalf",
+        56 => "threequarters",
+        57 => "oneeighth",
+        58 => "threeeighths",
+        59 => "fiveeighths",
+        60 => "seveneighths",
+        61 => "onethird",
+        62 => "twothirds",
+        63 => "zerosuperior",
+        64 => "onesuperior",
+        65 => "twosuperior",
+        66 => "threesuperior",
+        67 => "foursuperior",
+        68 => "fivesuperior",
+        69 => "sixsuperior",
+        70 => "sevensuperior",
+        71 => "eightsuperior",
+        72 => "ninesuperior",
+        73 => "zeroinferior",
+        74 => "oneinferior",
+        75 => "twoinferior",
+        76 => "threeinferior",
+        77 => "fourinferior",
+        78 => "fiveinferior",
+        79 => "sixinferior",
+        80 => "seveninferior",
+        81 => "eightinferior",
+        82 => "nineinferior",
+        83 => "centinferior",
+        84 => "dollarinferior",
+        85 => "periodinferior",
+        86 => "commainferior",
         _ => return None,
     })
 }
-- 
2.43.0


From b7a2d80de12c0276061ea9a3061f7443e48303d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 04/14] fix: Reject negative offsets and sizes

---
 src/compact1/font_set/character_id_keyed.rs   | 5 ++++-
 src/compact1/font_set/character_name_keyed.rs | 5 ++++-
 src/compact1/font_set/mod.rs                  | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 517d302..7043dfc 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -107,7 +107,10 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => match offset.checked_add(another_offset) {
+                Some(offset) if offset >= 0 => jump_take!(@unwrap tape, position, offset),
+                _ => raise!("found a malformed operation with operator Subrs"),
+            },
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 7732ffc..dccfd50 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -26,7 +26,10 @@ impl<'l> crate::walue::Read<'l> for Record {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => match offset.checked_add(another_offset) {
+                Some(offset) if offset >= 0 => jump_take!(@unwrap tape, position, offset),
+                _ => raise!("found a malformed operation with operator Subrs"),
+            },
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/mod.rs b/src/compact1/font_set/mod.rs
index 5ee2955..7c46d3e 100644
--- a/src/compact1/font_set/mod.rs
+++ b/src/compact1/font_set/mod.rs
@@ -3,7 +3,7 @@
 macro_rules! get(
     (@single $operations:expr, $operator:ident) => (
         match $operations.get_single(crate::compact1::Operator::$operator) {
-            Some(crate::compact1::Number::Integer(value)) => value,
+            Some(crate::compact1::Number::Integer(value)) if value >= 0 => value,
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
@@ -17,7 +17,7 @@ macro_rules! get(
     );
     (@double $operations:expr, $operator:ident) => (
         match $operations.get_double(crate::compact1::Operator::$operator) {
-            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1))) => (value0, value1),
+            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1))) if value0 >= 0 && value1 >= 0 => (value0, value1),
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
-- 
2.43.0


From 1264f4f064c234c26bc02ce195b600688cf7c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 05/14] fix: Reject an unexpected format of the
 glyph-to-dictionary encoding

---
 src/compact1/font_set/character_id_keyed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 7043dfc..34e1950 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -145,7 +145,9 @@ impl<'l> crate::walue::Read<'l> for Encoding0 {
         character_strings: Self::Parameter,
     ) -> Result<Self> {
         let format = tape.take()?;
-        debug_assert_eq!(format, 0);
+        if format != 0 {
+            raise!("found a malformed glyph-to-dictionary encoding");
+        }
         Ok(Self {
             format,
             dictionary_ids: tape.take_given(character_strings.count as usize)?,
-- 
2.43.0


From ab3b8b48c10673ea762303da9490c5e0a337bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 06/14] fix: Allocate no memory for data that is not there

---
 src/compact1/chunk.rs                         | 19 +++++++++++++++++++
 src/compact1/font_set/character_id_keyed.rs   |  4 ++--
 src/compact1/font_set/character_name_keyed.rs |  4 ++--
 src/compact1/index/mod.rs                     |  4 ++--
 src/compact1/mod.rs                           |  3 +++
 5 files changed, 28 insertions(+), 6 deletions(-)
 create mode 100644 src/compact1/chunk.rs

diff --git a/src/compact1/chunk.rs b/src/compact1/chunk.rs
new file mode 100644
index 0000000..01f7f19
--- /dev/null
+++ b/src/compact1/chunk.rs
@@ -0,0 +1,19 @@
+use std::io::{ErrorKind, Read};
+
+use crate::Result;
+
+/// A sequence of bytes, which may claim to be longer than what is available.
+pub struct Chunk(pub Vec<u8>);
+
+impl crate::walue::Read<'static> for Chunk {
+    type Parameter = usize;
+
+    fn read<T: crate::tape::Read>(tape: &mut T, size: usize) -> Result<Self> {
+        const CAPACITY: usize = 4096;
+        let mut chunk = Vec::with_capacity(size.min(CAPACITY));
+        if Read::take(tape, size as u64).read_to_end(&mut chunk)? != size {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
+        Ok(Self(chunk))
+    }
+}
diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 34e1950..a0da258 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -3,7 +3,7 @@
 use std::io::Cursor;
 
 use crate::compact1::index::{CharacterStrings, Dictionaries, Subroutines};
-use crate::compact1::{GlyphID, Number, Operations, Operator, StringID};
+use crate::compact1::{Chunk, GlyphID, Number, Operations, Operator, StringID};
 use crate::Result;
 
 /// A character-ID-keyed record in a font set.
@@ -104,7 +104,7 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         use crate::tape::Read;
 
         let (size, offset) = get!(@double top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        let Chunk(chunk) = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
             Some(another_offset) => match offset.checked_add(another_offset) {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index dccfd50..28eebfc 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -3,7 +3,7 @@
 use std::io::Cursor;
 
 use crate::compact1::index::Subroutines;
-use crate::compact1::Operations;
+use crate::compact1::{Chunk, Operations};
 use crate::Result;
 
 /// A character-name-keyed record in a font set.
@@ -23,7 +23,7 @@ impl<'l> crate::walue::Read<'l> for Record {
         use crate::tape::Read;
 
         let (size, offset) = get!(@double top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        let Chunk(chunk) = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
             Some(another_offset) => match offset.checked_add(another_offset) {
diff --git a/src/compact1/index/mod.rs b/src/compact1/index/mod.rs
index d5f36ce..3ca41c0 100644
--- a/src/compact1/index/mod.rs
+++ b/src/compact1/index/mod.rs
@@ -1,6 +1,6 @@
 //! The indices.
 
-use crate::compact1::{Offset, OffsetSize};
+use crate::compact1::{Chunk, Offset, OffsetSize};
 use crate::Result;
 
 table! {
@@ -42,7 +42,7 @@ impl crate::value::Read for Index {
                 raise!("found a malformed index");
             }
             let size = (offsets[i + 1].0 - offsets[i].0) as usize;
-            data.push(tape.take_given(size)?);
+            data.push(tape.take_given::<Chunk>(size)?.0);
         }
         Ok(Index {
             count,
diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 25f921c..c5140b8 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -7,6 +7,7 @@ pub mod encoding;
 pub mod font_set;
 pub mod index;
 
+mod chunk;
 mod header;
 mod number;
 mod offset;
@@ -21,6 +22,8 @@ pub use number::Number;
 pub use offset::{Offset, OffsetSize};
 pub use operation::{Operand, Operations, Operator};
 
+use chunk::Chunk;
+
 use crate::{Error, Result};
 
 /// A glyph identifier.
-- 
2.43.0


From 8fbbaca753c43dc4f8d854950a492261be50be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 07/14] fix: Read the mapping that an encoding with supplements
 has

---
 src/compact1/encoding.rs | 48 +++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/compact1/encoding.rs b/src/compact1/encoding.rs
index 9a31bed..66c1b30 100644
--- a/src/compact1/encoding.rs
+++ b/src/compact1/encoding.rs
@@ -4,8 +4,9 @@ use crate::compact1::{GlyphID, StringID};
 use crate::Result;
 
 /// A glyph encoding.
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, Default)]
 pub enum Encoding {
+    #[default]
     Standard,
     Expert,
     Format0(Encoding0),
@@ -38,14 +39,13 @@ table! {
 }
 
 table! {
+    @define
     /// An encoding in the supplemental format.
     pub EncodingSupplemental { // Supplemental Encoding Data
-        format           (u8),
-        supplement_count (u8), // nSups
-
-        supplements (Vec<Supplement>) |this, tape| { // Supplement
-            tape.take_given(this.supplement_count as usize)
-        },
+        format           (u8             ),
+        encoding         (Box<Encoding>  ),
+        supplement_count (u8             ), // nSups
+        supplements      (Vec<Supplement>), // Supplement
     }
 }
 
@@ -85,7 +85,7 @@ impl crate::value::Read for Encoding {
         Ok(match tape.peek::<u8>()? {
             0 => Encoding::Format0(tape.take()?),
             1 => Encoding::Format1(tape.take()?),
-            format if format & 0x80 > 0 => Encoding::FormatSupplemental(tape.take()?),
+            0x80 | 0x81 => Encoding::FormatSupplemental(tape.take()?),
             format => raise!("found an unknown format of encodings ({format})"),
         })
     }
@@ -112,6 +112,38 @@ impl EncodingSupplemental {
     }
 }
 
+impl crate::value::Read for EncodingSupplemental {
+    fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
+        let format = tape.take::<u8>()?;
+        let encoding = match format {
+            0x80 => {
+                let code_count = tape.take::<u8>()?;
+                Encoding::Format0(Encoding0 {
+                    format: 0,
+                    code_count,
+                    codes: tape.take_given(code_count as usize)?,
+                })
+            }
+            0x81 => {
+                let range_count = tape.take::<u8>()?;
+                Encoding::Format1(Encoding1 {
+                    format: 1,
+                    range_count,
+                    ranges: tape.take_given(range_count as usize)?,
+                })
+            }
+            format => raise!("found an unknown format of encodings ({format})"),
+        };
+        let supplement_count = tape.take::<u8>()?;
+        Ok(Self {
+            format,
+            encoding: Box::new(encoding),
+            supplement_count,
+            supplements: tape.take_given(supplement_count as usize)?,
+        })
+    }
+}
+
 macro_rules! get(
     ($one:ident { $($glyph_id:pat => $string_id:expr => $name:expr,)+ }) => (
         Some(match $one {
-- 
2.43.0


From a234301ca7de2886622ffd5db55259eed8896b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 08/14] fix: Report a subroutine far out of range instead of
 overflowing

---
 src/type2/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index eda4344..2ec7108 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -267,7 +267,7 @@ impl<'l> Program<'l> {
                         &self.global
                     };
                     let count = subroutines.len();
-                    let i = address + bias(count);
+                    let i = address as i64 + bias(count) as i64;
                     if i < 0 || i as usize >= count {
                         raise!("found no subroutine");
                     }
-- 
2.43.0


From e54c9d70c23f231ceedb06de840bc1925fa8a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 09/14] fix: Roll in time that does not depend on the shift

---
 src/type2/program.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 2ec7108..8d40e8a 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -216,20 +216,8 @@ impl<'l> Program<'l> {
                     raise!("expected more operands");
                 } else if span > 0 {
                     let position = length - span as usize;
-                    match shift.cmp(&0) {
-                        std::cmp::Ordering::Greater => {
-                            for _ in 0..shift {
-                                let operand = pop!();
-                                self.stack.insert(position, operand);
-                            }
-                        }
-                        std::cmp::Ordering::Less => {
-                            for _ in 0..(-shift) {
-                                push!(self.stack.remove(position));
-                            }
-                        }
-                        _ => {}
-                    }
+                    let shift = shift.rem_euclid(span) as usize;
+                    self.stack[position..].rotate_right(shift);
                 }
             }
             Dup => push!(read!(0)),
-- 
2.43.0


From 2bbf8f40038e110af09a51caf413d61937ed8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 10/14] fix: Do not recurse between operations

---
 src/type2/program.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 8d40e8a..39a0689 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -1,4 +1,5 @@
 use std::io::Cursor;
+use std::ops::ControlFlow;
 
 use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
@@ -36,12 +37,20 @@ impl<'l> Program<'l> {
 
     /// Return the next operation.
     #[allow(clippy::should_implement_trait)]
-    #[allow(unused_comparisons, unused_must_use)]
     pub fn next(&mut self) -> Result<Option<Operation>> {
+        loop {
+            if let ControlFlow::Break(operation) = self.step()? {
+                return Ok(operation);
+            }
+        }
+    }
+
+    #[allow(unused_comparisons, unused_must_use)]
+    fn step(&mut self) -> Result<ControlFlow<Option<Operation>>> {
         use crate::type2::Operator::*;
 
         if self.routine.done()? {
-            return Ok(None);
+            return Ok(ControlFlow::Break(None));
         }
 
         macro_rules! pop(
@@ -132,7 +141,7 @@ impl<'l> Program<'l> {
                 if min > 0 && self.width.is_none() {
                     self.width = Some(stack[min - 1]);
                 }
-                return Ok(Some((operator, operands)));
+                return Ok(ControlFlow::Break(Some((operator, operands))));
             });
         );
 
@@ -167,7 +176,7 @@ impl<'l> Program<'l> {
                 if length > 0 && self.width.is_none() {
                     self.width = Some(self.stack[length - 1]);
                 }
-                return Ok(None);
+                return Ok(ControlFlow::Break(None));
             }
 
             // Hint operators
@@ -274,7 +283,7 @@ impl<'l> Program<'l> {
 
             operator => raise!("found an unknown operator ({operator:?})"),
         };
-        self.next()
+        Ok(ControlFlow::Continue(()))
     }
 
     /// Return the width difference with respect to the nominal width.
-- 
2.43.0


From 089f359545f5e7aae18173ff78ac48d619b6e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 11/14] fix: Limit the nesting of subroutines

---
 src/type2/program.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 39a0689..e0ecd04 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -5,6 +5,8 @@ use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
 use crate::Result;
 
+const MAX_NESTING: usize = 10;
+
 /// A program.
 pub struct Program<'l> {
     routine: Routine<'l>,
@@ -18,6 +20,7 @@ pub struct Program<'l> {
 struct Routine<'l> {
     tape: Cursor<&'l [u8]>,
     size: usize,
+    nesting: usize,
     caller: Option<Box<Routine<'l>>>,
 }
 
@@ -270,6 +273,10 @@ impl<'l> Program<'l> {
                     }
                     Routine::new(&subroutines[i as usize])
                 };
+                routine.nesting = self.routine.nesting + 1;
+                if routine.nesting > MAX_NESTING {
+                    raise!("found too deeply nested subroutines");
+                }
                 std::mem::swap(&mut self.routine, &mut routine);
                 self.routine.caller = Some(Box::new(routine));
             }
@@ -299,6 +306,7 @@ impl<'l> Routine<'l> {
         Routine {
             tape: Cursor::new(code),
             size: code.len(),
+            nesting: 0,
             caller: None,
         }
     }
-- 
2.43.0


From 6b04561d5c0003c5ccab0f0f760d56d86ba63d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 12/14] fix: Take the width from the first stack-clearing
 operator only

---
 src/type2/program.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index e0ecd04..08c6577 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -15,6 +15,7 @@ pub struct Program<'l> {
     stack: Vec<Operand>,
     stems: usize,
     width: Option<Operand>,
+    cleared: bool,
 }
 
 struct Routine<'l> {
@@ -35,6 +36,7 @@ impl<'l> Program<'l> {
             stack: vec![],
             stems: 0,
             width: None,
+            cleared: false,
         }
     }
 
@@ -141,9 +143,10 @@ impl<'l> Program<'l> {
                 }
                 let mut stack = std::mem::take(&mut self.stack);
                 let operands = stack.drain(min..).collect();
-                if min > 0 && self.width.is_none() {
+                if min > 0 && !self.cleared {
                     self.width = Some(stack[min - 1]);
                 }
+                self.cleared = true;
                 return Ok(ControlFlow::Break(Some((operator, operands))));
             });
         );
@@ -176,9 +179,10 @@ impl<'l> Program<'l> {
                     std::mem::replace(&mut self.routine, *caller);
                 }
                 let length = self.stack.len();
-                if length > 0 && self.width.is_none() {
-                    self.width = Some(self.stack[length - 1]);
+                if length % 4 == 1 && !self.cleared {
+                    self.width = Some(self.stack[0]);
                 }
+                self.cleared = true;
                 return Ok(ControlFlow::Break(None));
             }
 
@@ -190,6 +194,8 @@ impl<'l> Program<'l> {
             HintMask | CntrMask => {
                 self.stems += self.stack.len() >> 1;
                 let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
+                let length = self.stack.len();
+                self.stack.truncate(length & 1);
                 clear!([equal(0)]);
             }
 
-- 
2.43.0


From 01aaf71b614fec4f56593bee0a7a999b0d2b6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 13/14] fix: Reject dictionaries that end inside an entry

---
 src/compact1/operation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compact1/operation.rs b/src/compact1/operation.rs
index 613d314..3d9aa56 100644
--- a/src/compact1/operation.rs
+++ b/src/compact1/operation.rs
@@ -55,8 +55,9 @@ impl crate::value::Read for Operations {
 
         let mut operations = HashMap::new();
         loop {
-            match tape.take() {
-                Ok(Operation(operator, operands)) => {
+            match tape.peek::<u8>() {
+                Ok(_) => {
+                    let Operation(operator, operands) = tape.take()?;
                     operations.insert(operator, operands);
                 }
                 Err(error) => {
-- 
2.43.0


From 49dc33b49233698b9d39dd82bf3da3573961a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 14/14] fix: End a program for good at the end operator

---
 src/type2/program.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 08c6577..4b1c381 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -178,6 +178,7 @@ impl<'l> Program<'l> {
                     }
                     std::mem::replace(&mut self.routine, *caller);
                 }
+                self.routine.tape.set_position(self.routine.size as u64);
                 let length = self.stack.len();
                 if length % 4 == 1 && !self.cleared {
                     self.width = Some(self.stack[0]);
-- 
2.43.0

