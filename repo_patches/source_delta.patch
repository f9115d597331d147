From d9e19625013244544c51ad37dcd625c7466c7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 01/12] fix: reject negative offsets and sizes in font sets

---
 src/compact1/font_set/character_id_keyed.rs   | 4 +++-
 src/compact1/font_set/character_name_keyed.rs | 4 +++-
 src/compact1/font_set/mod.rs                  | 7 ++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 517d302..c534523 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -107,7 +107,9 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => {
+                jump_take!(@unwrap tape, position, offset as u64 + another_offset as u64)
+            }
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 7732ffc..6b0eefc 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -26,7 +26,9 @@ impl<'l> crate::walue::Read<'l> for Record {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => {
+                jump_take!(@unwrap tape, position, offset as u64 + another_offset as u64)
+            }
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/mod.rs b/src/compact1/font_set/mod.rs
index 5ee2955..7beb181 100644
--- a/src/compact1/font_set/mod.rs
+++ b/src/compact1/font_set/mod.rs
@@ -3,21 +3,22 @@
 macro_rules! get(
     (@single $operations:expr, $operator:ident) => (
         match $operations.get_single(crate::compact1::Operator::$operator) {
-            Some(crate::compact1::Number::Integer(value)) => value,
+            Some(crate::compact1::Number::Integer(value)) if value >= 0 => value,
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
     );
     (@try @single $operations:expr, $operator:ident) => (
         match $operations.get_single(crate::compact1::Operator::$operator) {
-            Some(crate::compact1::Number::Integer(value)) => Some(value),
+            Some(crate::compact1::Number::Integer(value)) if value >= 0 => Some(value),
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => None,
         }
     );
     (@double $operations:expr, $operator:ident) => (
         match $operations.get_double(crate::compact1::Operator::$operator) {
-            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1))) => (value0, value1),
+            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1)))
+                if value0 >= 0 && value1 >= 0 => (value0, value1),
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
-- 
2.43.0


From 52f5c15eca78959ef0420b4d475955f657017979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 02/12] fix: reject character sets in format 0 without glyphs

---
 src/compact1/character_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 663eb5b..889690c 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -93,7 +93,7 @@ impl crate::walue::Read<'static> for CharacterSet0 {
 
     fn read<T: crate::tape::Read>(tape: &mut T, glyph_count: usize) -> Result<Self> {
         let format = tape.take::<u8>()?;
-        if format != 0 {
+        if format != 0 || glyph_count == 0 {
             raise!("found a malformed character set");
         }
         Ok(CharacterSet0 {
-- 
2.43.0


From e3ac30556cdf4a1deb8d12f19ba7156d67d7a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 03/12] fix: reject string identifiers that do not fit

---
 src/compact1/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 6c026dc..25f921c 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -35,7 +35,7 @@ impl TryFrom<Number> for StringID {
     #[inline]
     fn try_from(number: Number) -> Result<Self> {
         match number {
-            Number::Integer(value) if value >= 0 => Ok(value as Self),
+            Number::Integer(value) if (0..=Self::MAX as i32).contains(&value) => Ok(value as Self),
             _ => raise!("found a malformed string ID"),
         }
     }
-- 
2.43.0


From 6e76698fa9a6700b6ed72552ae0f0a105855a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 04/12] fix: reject glyph-to-dictionary encodings in format 0
 of another format

---
 src/compact1/font_set/character_id_keyed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index c534523..9487ec2 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -144,7 +144,9 @@ impl<'l> crate::walue::Read<'l> for Encoding0 {
         character_strings: Self::Parameter,
     ) -> Result<Self> {
         let format = tape.take()?;
-        debug_assert_eq!(format, 0);
+        if format != 0 {
+            raise!("found a malformed glyph-to-dictionary encoding");
+        }
         Ok(Self {
             format,
             dictionary_ids: tape.take_given(character_strings.count as usize)?,
-- 
2.43.0


From 316c95021c76947bc9c570c4cecf3c5dd9541d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 05/12] fix: bound the work of the roll operator

---
 src/type2/program.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index eda4344..062a704 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -216,20 +216,8 @@ impl<'l> Program<'l> {
                     raise!("expected more operands");
                 } else if span > 0 {
                     let position = length - span as usize;
-                    match shift.cmp(&0) {
-                        std::cmp::Ordering::Greater => {
-                            for _ in 0..shift {
-                                let operand = pop!();
-                                self.stack.insert(position, operand);
-                            }
-                        }
-                        std::cmp::Ordering::Less => {
-                            for _ in 0..(-shift) {
-                                push!(self.stack.remove(position));
-                            }
-                        }
-                        _ => {}
-                    }
+                    let shift = shift.rem_euclid(span) as usize;
+                    self.stack[position..].rotate_right(shift);
                 }
             }
             Dup => push!(read!(0)),
-- 
2.43.0


From 9b76518a886e1fe67b46e86a038ca2d4b5a98fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 06/12] fix: avoid overflowing when locating subroutines

---
 src/type2/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 062a704..0d0210a 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -255,7 +255,7 @@ impl<'l> Program<'l> {
                         &self.global
                     };
                     let count = subroutines.len();
-                    let i = address + bias(count);
+                    let i = address.saturating_add(bias(count));
                     if i < 0 || i as usize >= count {
                         raise!("found no subroutine");
                     }
-- 
2.43.0


From 3b21db7fa0882fa6fc33d7055a61c3225076301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 07/12] fix: index the expert character sets by glyph
 identifiers

---
 src/compact1/character_set.rs | 498 +++++++++++++++++-----------------
 1 file changed, 249 insertions(+), 249 deletions(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 889690c..8653f33 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -401,170 +401,170 @@ fn get_iso_adobe(glyph_id: GlyphID) -> Option<&'static str> {
 fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
     Some(match glyph_id {
         1 => "space",
-        229 => "exclamsmall",
-        230 => "Hungarumlautsmall",
-        231 => "dollaroldstyle",
-        232 => "dollarsuperior",
-        233 => "ampersandsmall",
-        234 => "Acutesmall",
-        235 => "parenleftsuperior",
-        236 => "parenrightsuperior",
-        237 => "twodotenleader",
-        238 => "onedotenleader",
-        13 => "comma",
-        14 => "hyphen",
-        15 => "period",
-        99 => "fraction",
-        239 => "zerooldstyle",
-        240 => "oneoldstyle",
-        241 => "twooldstyle",
-        242 => "threeoldstyle",
-        243 => "fouroldstyle",
-        244 => "fiveoldstyle",
-        245 => "sixoldstyle",
-        246 => "sevenoldstyle",
-        247 => "eightoldstyle",
-        248 => "nineoldstyle",
-        27 => "colon",
-        28 => "semicolon",
-        249 => "commasuperior",
-        250 => "threequartersemdash",
-        251 => "periodsuperior",
-        252 => "questionsmall",
-        253 => "asuperior",
-        254 => "bsuperior",
-        255 => "centsuperior",
-        256 => "dsuperior",
-        257 => "esuperior",
-        258 => "isuperior",
-        259 => "lsuperior",
-        260 => "msuperior",
-        261 => "nsuperior",
-        262 => "osuperior",
-        263 => "rsuperior",
-        264 => "ssuperior",
-        265 => "tsuperior",
-        266 => "ff",
-        109 => "fi",
-        110 => "fl",
-        267 => "ffi",
-        268 => "ffl",
-        269 => "parenleftinferior",
-        270 => "parenrightinferior",
-        271 => "Circumflexsmall",
-        272 => "hyphensuperior",
-        273 => "Gravesmall",
-        274 => "Asmall",
-        275 => "Bsmall",
-        276 => "Csmall",
-        277 => "Dsmall",
-        278 => "Esmall",
-        279 => "Fsmall",
-        280 => "Gsmall",
-        281 => "Hsmall",
-        282 => "Ismall",
-        283 => "Jsmall",
-        284 => "Ksmall",
-        285 => "Lsmall",
-        286 => "Msmall",
-        287 => "Nsmall",
-        288 => "Osmall",
-        289 => "Psmall",
-        290 => "Qsmall",
-        291 => "Rsmall",
-        292 => "Ssmall",
-        293 => "Tsmall",
-        294 => "Usmall",
-        295 => "Vsmall",
-        296 => "Wsmall",
-        297 => "Xsmall",
-        298 => "Ysmall",
-        299 => "Zsmall",
-        300 => "colonmonetary",
-        301 => "onefitted",
-        302 => "rupiah",
-        303 => "Tildesmall",
-        304 => "exclamdownsmall",
-        305 => "centoldstyle",
-        306 => "Lslashsmall",
-        307 => "Scaronsmall",
-        308 => "Zcaronsmall",
-        309 => "Dieresissmall",
-        310 => "Brevesmall",
-        311 => "Caronsmall",
-        312 => "Dotaccentsmall",
-        313 => "Macronsmall",
-        314 => "figuredash",
-        315 => "hypheninferior",
-        316 => "Ogoneksmall",
-        317 => "Ringsmall",
-        318 => "Cedillasmall",
-        158 => "onequarter",
-        155 => "onehalf",
-        163 => "threequarters",
-        319 => "questiondownsmall",
-        320 => "oneeighth",
-        321 => "threeeighths",
-        322 => "fiveeighths",
-        323 => "seveneighths",
-        324 => "onethird",
-        325 => "twothirds",
-        326 => "zerosuperior",
-        150 => "onesuperior",
-        164 => "twosuperior",
-        169 => "threesuperior",
-        327 => "foursuperior",
-        328 => "fivesuperior",
-        329 => "sixsuperior",
-        330 => "sevensuperior",
-        331 => "eightsuperior",
-        332 => "ninesuperior",
-        333 => "zeroinferior",
-        334 => "oneinferior",
-        335 => "twoinferior",
-        336 => "threeinferior",
-        337 => "fourinferior",
-        338 => "fiveinferior",
-        339 => "sixinferior",
-        340 => "seveninferior",
-        341 => "eightinferior",
-        342 => "nineinferior",
-        343 => "centinferior",
-        344 => "dollarinferior",
-        345 => "periodinferior",
-        346 => "commainferior",
-        347 => "Agravesmall",
-        348 => "Aacutesmall",
-        349 => "Acircumflexsmall",
-        350 => "Atildesmall",
-        351 => "Adieresissmall",
-        352 => "Aringsmall",
-        353 => "AEsmall",
-        354 => "Ccedillasmall",
-        355 => "Egravesmall",
-        356 => "Eacutesmall",
-        357 => "Ecircumflexsmall",
-        358 => "Edieresissmall",
-        359 => "Igravesmall",
-        360 => "Iacutesmall",
-        361 => "Icircumflexsmall",
-        362 => "Idieresissmall",
-        363 => "Ethsmall",
-        364 => "Ntildesmall",
-        365 => "Ogravesmall",
-        366 => "Oacutesmall",
-        367 => "Ocircumflexsmall",
-        368 => "Otildesmall",
-        369 => "Odieresissmall",
-        370 => "OEsmall",
-        371 => "Oslashsmall",
-        372 => "Ugravesmall",
-        373 => "Uacutesmall",
-        374 => "Ucircumflexsmall",
-        375 => "Udieresissmall",
-        376 => "Yacutesmall",
-        377 => "Thornsmall",
-        378 => "Ydieresissmall",
+        2 => "exclamsmall",
+        3 => "Hungarumlautsmall",
+        4 => "dollaroldstyle",
+        5 => "dollarsuperior",
+        6 => "ampersandsmall",
+        7 => "Acutesmall",
+        8 => "parenleftsuperior",
+        9 => "parenrightsuperior",
+        10 => "twodotenleader",
+        11 => "onedotenleader",
+        12 => "comma",
+        13 => "hyphen",
+        14 => "period",
+        15 => "fraction",
+        16 => "zerooldstyle",
+        17 => "oneoldstyle",
+        18 => "twooldstyle",
+        19 => "threeoldstyle",
+        20 => "fouroldstyle",
+        21 => "fiveoldstyle",
+        22 => "sixoldstyle",
+        23 => "sevenoldstyle",
+        24 => "eightoldstyle",
+        25 => "nineoldstyle",
+        26 => "colon",
+        27 => "semicolon",
+        28 => "commasuperior",
+        29 => "threequartersemdash",
+        30 => "periodsuperior",
+        31 => "questionsmall",
+        32 => "asuperior",
+        33 => "bsuperior",
+        34 => "centsuperior",
+        35 => "dsuperior",
+        36 => "esuperior",
+        37 => "isuperior",
+        38 => "lsuperior",
+        39 => "msuperior",
+        40 => "nsuperior",
+        41 => "osuperior",
+        42 => "rsuperior",
+        43 => "ssuperior",
+        44 => "tsuperior",
+        45 => "ff",
+        46 => "fi",
+        47 => "fl",
+        48 => "ffi",
+        49 => "ffl",
+        50 => "parenleftinferior",
+        51 => "parenrightinferior",
+        52 => "Circumflexsmall",
+        53 => "hyphensuperior",
+        54 => "Gravesmall",
+        55 => "Asmall",
+        56 => "Bsmall",
+        57 => "Csmall",
+        58 => "Dsmall",
+        59 => "Esmall",
+        60 => "Fsmall",
+        61 => "Gsmall",
+        62 => "Hsmall",
+        63 => "Ismall",
+        64 => "Jsmall",
+        65 => "Ksmall",
+        66 => "Lsmall",
+        67 => "Msmall",
+        68 => "Nsmall",
+        69 => "Osmall",
+        70 => "Psmall",
+        71 => "Qsmall",
+        72 => "Rsmall",
+        73 => "Ssmall",
+        74 => "Tsmall",
+        75 => "Usmall",
+        76 => "Vsmall",
+        77 => "Wsmall",
+        78 => "Xsmall",
+        79 => "Ysmall",
+        80 => "Zsmall",
+        81 => "colonmonetary",
+        82 => "onefitted",
+        83 => "rupiah",
+        84 => "Tildesmall",
+        85 => "exclamdownsmall",
+        86 => "centoldstyle",
+        87 => "Lslashsmall",
+        88 => "Scaronsmall",
+        89 => "Zcaronsmall",
+        90 => "Dieresissmall",
+        91 => "Brevesmall",
+        92 => "Caronsmall",
+        93 => "Dotaccentsmall",
+        94 => "Macronsmall",
+        95 => "figuredash",
+        96 => "hypheninferior",
+        97 => "Ogoneksmall",
+        98 => "Ringsmall",
+        99 => "Cedillasmall",
+        100 => "onequarter",
+        101 => "onehalf",
+        102 => "threequarters",
+        103 => "questiondownsmall",
+        104 => "oneeighth",
+        105 => "threeeighths",
+        106 => "fiveeighths",
+        107 => "seveneighths",
+        108 => "onethird",
+        109 => "twothirds",
+        110 => "zerosuperior",
+        111 => "onesuperior",
+        112 => "twosuperior",
+        113 => "threesuperior",
+        114 => "foursuperior",
+        115 => "fivesuperior",
+        116 => "sixsuperior",
+        117 => "sevensuperior",
+        118 => "eightsuperior",
+        119 => "ninesuperior",
+        120 => "zeroinferior",
+        121 => "oneinferior",
+        122 => "twoinferior",
+        123 => "threeinferior",
+        124 => "fourinferior",
+        125 => "fiveinferior",
+        126 => "sixinferior",
+        127 => "seveninferior",
+        128 => "eightinferior",
+        129 => "nineinferior",
+        130 => "centinferior",
+        131 => "dollarinferior",
+        132 => "periodinferior",
+        133 => "commainferior",
+        134 => "Agravesmall",
+        135 => "Aacutesmall",
+        136 => "Acircumflexsmall",
+        137 => "Atildesmall",
+        138 => "Adieresissmall",
+        139 => "Aringsmall",
+        140 => "AEsmall",
+        141 => "Ccedillasmall",
+        142 => "Egravesmall",
+        143 => "Eacutesmall",
+        144 => "Ecircumflexsmall",
+        145 => "Edieresissmall",
+        146 => "Igravesmall",
+        147 => "Iacutesmall",
+        148 => "Icircumflexsmall",
+        149 => "Idieresissmall",
+        150 => "Ethsmall",
+        151 => "Ntildesmall",
+        152 => "Ogravesmall",
+        153 => "Oacutesmall",
+        154 => "Ocircumflexsmall",
+        155 => "Otildesmall",
+        156 => "Odieresissmall",
+        157 => "OEsmall",
+        158 => "Oslashsmall",
+        159 => "Ugravesmall",
+        160 => "Uacutesmall",
+        161 => "Ucircumflexsmall",
+        162 => "Udieresissmall",
+        163 => "Yacutesmall",
+        164 => "Thornsmall",
+        165 => "Ydieresissmall",
         _ => return None,
     })
 }
@@ -572,91 +572,91 @@ fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
 fn get_expert_subset(glyph_id: GlyphID) -> Option<&'static str> {
     Some(match glyph_id {
         1 => "space",
-        231 => "dollaroldstyle",
-        232 => "dollarsuperior",
-        235 => "parenleftsuperior",
-        236 => "parenrightsuperior",
-        237 => "twodotenleader",
-        238 => "onedotenleader",
-        13 => "comma",
-        14 => "hyphen",
-        15 => "period",
-        99 => "fraction",
-        239 => "zerooldstyle",
-        240 => "oneoldstyle",
-        241 => "twooldstyle",
-        242 => "threeoldstyle",
-        243 => "fouroldstyle",
-        244 => "fiveoldstyle",
-        245 => "sixoldstyle",
-        246 => "sevenoldstyle",
-        247 => "eightoldstyle",
-        248 => "nineoldstyle",
-        27 => "colon",
-        28 => "semicolon",
-        249 => "commasuperior",
-        250 => "threequartersemdash",
-        251 => "periodsuperior",
-        253 => "asuperior",
-        254 => "bsuperior",
-        255 => "centsuperior",
-        256 => "dsuperior",
-        257 => "esuperior",
-        258 => "isuperior",
-        259 => "lsuperior",
-        260 => "msuperior",
-        261 => "nsuperior",
-        262 => "osuperior",
-        263 => "rsuperior",
-        264 => "ssuperior",
-        265 => "tsuperior",
-        266 => "ff",
-        109 => "fi",
-        110 => "fl",
-        267 => "ffi",
-        268 => "ffl",
-        269 => "parenleftinferior",
-        270 => "parenrightinferior",
-        272 => "hyphensuperior",
-        300 => "colonmonetary",
-        301 => "onefitted",
-        302 => "rupiah",
-        305 => "centoldstyle",
-        314 => "figuredash",
-        315 => "hypheninferior",
-        158 => "onequarter",
-        155 => "onehalf",
-        163 => "threequarters",
-        320 => "oneeighth",
-        321 => "threeeighths",
-        322 => "fiveeighths",
-        323 => "seveneighths",
-        324 => "onethird",
-        325 => "twothirds",
-        326 => "zerosuperior",
-        150 => "onesuperior",
-        164 => "twosuperior",
-        169 => "threesuperior",
-        327 => "foursuperior",
-        328 => "fivesuperior",
-        329 => "sixsuperior",
-        330 => "sevensuperior",
-        331 => "eightsuperior",
-        332 => "ninesuperior",
-        333 => "zeroinferior",
-        334 => "oneinferior",
-        335 => "twoinferior",
-        336 => "threeinferior",
-        337 => "fourinferior",
-        338 => "fiveinferior",
-        339 => "sixinferior",
-        340 => "seveninferior",
-        341 => "eightinferior",
-        342 => "nineinferior",
-        343 => "centinferior",
-        344 => "dollarinferior",
-        345 => "periodinferior",
-        346 => "commainferior",
+        2 => "dollaroldstyle",
+        3 => "dollarsuperior",
+        4 => "parenleftsuperior",
+        5 => "parenrightsuperior",
+        6 => "twodotenleader",
+        7 => "onedotenleader",
+        8 => "comma",
+        9 => "hyphen",
+        10 => "period",
+        11 => "fraction",
+        12 => "zerooldstyle",
+        13 => "oneoldstyle",
+        14 => "twooldstyle",
+        15 => "threeoldstyle",
+        16 => "fouroldstyle",
+        17 => "fiveoldstyle",
+        18 => "sixoldstyle",
+        19 => "sevenoldstyle",
+        20 => "eightoldstyle",
+        21 => "nineoldstyle",
+        22 => "colon",
+        23 => "semicolon",
+        24 => "commasuperior",
+        25 => "threequartersemdash",
+        26 => "periodsuperior",
+        27 => "asuperior",
+        28 => "bsuperior",
+        29 => "centsuperior",
+        30 => "dsuperior",
+        31 => "esuperior",
+        32 => "isuperior",
+        33 => "lsuperior",
+        34 => "msuperior",
+        35 => "nsuperior",
+        36 => "osuperior",
+        37 => "rsuperior",
+        38 => "ssuperior",
+        39 => "tsuperior",
+        40 => "ff",
+        41 => "fi",
+        42 => "fl",
+        43 => "ffi",
+        44 => "ffl",
+        45 => "parenleftinferior",
+        46 => "parenrightinferior",
+        47 => "hyphensuperior",
+        48 => "colonmonetary",
+        49 => "onefitted",
+        50 => "rupiah",
+        51 => "centoldstyle",
+        52 => "figuredash",
+        53 => "hypheninferior",
+        54 => "onequarter",
+        55 => "onehalf",
+        56 => "threequarters",
+        57 => "oneeighth",
+        58 => "threeeighths",
+        59 => "fiveeighths",
+        60 => "seveneighths",
+        61 => "onethird",
+        62 => "twothirds",
+        63 => "zerosuperior",
+        64 => "onesuperior",
+        65 => "twosuperior",
+        66 => "threesuperior",
+        67 => "foursuperior",
+        68 => "fivesuperior",
+        69 => "sixsuperior",
+        70 => "sevensuperior",
+        71 => "eightsuperior",
+        72 => "ninesuperior",
+        73 => "zeroinferior",
+        74 => "oneinferior",
+        75 => "twoinferior",
+        76 => "threeinferior",
+        77 => "fourinferior",
+        78 => "fiveinferior",
+        79 => "sixinferior",
+        80 => "seveninferior",
+        81 => "eightinferior",
+        82 => "nineinferior",
+        83 => "centinferior",
+        84 => "dollarinferior",
+        85 => "periodinferior",
+        86 => "commainferior",
         _ => return None,
     })
 }
-- 
2.43.0


From dbbffb9d51099eb4122300793796938288c57517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 08/12] fix: take the width of a program from its first
 operation alone

---
 src/type2/program.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 0d0210a..4fd0817 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -11,6 +11,7 @@ pub struct Program<'l> {
     local: &'l [Vec<u8>],
     stack: Vec<Operand>,
     stems: usize,
+    cleared: bool,
     width: Option<Operand>,
 }
 
@@ -30,6 +31,7 @@ impl<'l> Program<'l> {
             local,
             stack: vec![],
             stems: 0,
+            cleared: false,
             width: None,
         }
     }
@@ -129,9 +131,10 @@ impl<'l> Program<'l> {
                 }
                 let mut stack = std::mem::take(&mut self.stack);
                 let operands = stack.drain(min..).collect();
-                if min > 0 && self.width.is_none() {
+                if min > 0 && !self.cleared {
                     self.width = Some(stack[min - 1]);
                 }
+                self.cleared = true;
                 return Ok(Some((operator, operands)));
             });
         );
@@ -164,9 +167,10 @@ impl<'l> Program<'l> {
                     std::mem::replace(&mut self.routine, *caller);
                 }
                 let length = self.stack.len();
-                if length > 0 && self.width.is_none() {
-                    self.width = Some(self.stack[length - 1]);
+                if (length == 1 || length == 5) && !self.cleared {
+                    self.width = Some(self.stack[0]);
                 }
+                self.cleared = true;
                 return Ok(None);
             }
 
@@ -178,6 +182,7 @@ impl<'l> Program<'l> {
             HintMask | CntrMask => {
                 self.stems += self.stack.len() >> 1;
                 let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
+                self.stack.truncate(self.stack.len() & 1);
                 clear!([equal(0)]);
             }
 
-- 
2.43.0


From d5072aae216d1312e3791e4dbebb3a28d4a39fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 09/12] fix: stop programs at the end operator

---
 src/type2/program.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 4fd0817..b662647 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -171,6 +171,7 @@ impl<'l> Program<'l> {
                     self.width = Some(self.stack[0]);
                 }
                 self.cleared = true;
+                self.routine.finish();
                 return Ok(None);
             }
 
@@ -304,6 +305,11 @@ impl<'l> Routine<'l> {
         Ok(Read::position(&mut self.tape)? == self.size as u64)
     }
 
+    #[inline]
+    fn finish(&mut self) {
+        self.tape.set_position(self.size as u64);
+    }
+
     #[inline]
     fn take_operand(&mut self) -> Result<Operand> {
         number::read(&mut self.tape)
-- 
2.43.0


From 9d144ef76cc495195582434ea3e3d5cc864a49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 10/12] fix: avoid exhausting the call stack on long programs

---
 src/type2/program.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index b662647..63a9670 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -1,4 +1,5 @@
 use std::io::Cursor;
+use std::ops::ControlFlow;
 
 use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
@@ -38,12 +39,21 @@ impl<'l> Program<'l> {
 
     /// Return the next operation.
     #[allow(clippy::should_implement_trait)]
-    #[allow(unused_comparisons, unused_must_use)]
+    #[inline]
     pub fn next(&mut self) -> Result<Option<Operation>> {
+        loop {
+            if let ControlFlow::Break(operation) = self.step()? {
+                return Ok(operation);
+            }
+        }
+    }
+
+    #[allow(unused_comparisons, unused_must_use)]
+    fn step(&mut self) -> Result<ControlFlow<Option<Operation>>> {
         use crate::type2::Operator::*;
 
         if self.routine.done()? {
-            return Ok(None);
+            return Ok(ControlFlow::Break(None));
         }
 
         macro_rules! pop(
@@ -135,7 +145,7 @@ impl<'l> Program<'l> {
                     self.width = Some(stack[min - 1]);
                 }
                 self.cleared = true;
-                return Ok(Some((operator, operands)));
+                return Ok(ControlFlow::Break(Some((operator, operands))));
             });
         );
 
@@ -172,7 +182,7 @@ impl<'l> Program<'l> {
                 }
                 self.cleared = true;
                 self.routine.finish();
-                return Ok(None);
+                return Ok(ControlFlow::Break(None));
             }
 
             // Hint operators
@@ -280,7 +290,7 @@ impl<'l> Program<'l> {
 
             operator => raise!("found an unknown operator ({operator:?})"),
         };
-        self.next()
+        Ok(ControlFlow::Continue(()))
     }
 
     /// Return the width difference with respect to the nominal width.
-- 
2.43.0


From 5df747b318c345daf6b6a37cd73362af20eca68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 11/12] fix: limit the nesting of subroutines

---
 src/type2/program.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 63a9670..0f77a45 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -5,6 +5,8 @@ use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
 use crate::Result;
 
+const MAXIMUM_NESTING: usize = 10;
+
 /// A program.
 pub struct Program<'l> {
     routine: Routine<'l>,
@@ -19,6 +21,7 @@ pub struct Program<'l> {
 struct Routine<'l> {
     tape: Cursor<&'l [u8]>,
     size: usize,
+    depth: usize,
     caller: Option<Box<Routine<'l>>>,
 }
 
@@ -277,6 +280,10 @@ impl<'l> Program<'l> {
                     }
                     Routine::new(&subroutines[i as usize])
                 };
+                if self.routine.depth == MAXIMUM_NESTING {
+                    raise!("found too deeply nested subroutines");
+                }
+                routine.depth = self.routine.depth + 1;
                 std::mem::swap(&mut self.routine, &mut routine);
                 self.routine.caller = Some(Box::new(routine));
             }
@@ -306,6 +313,7 @@ impl<'l> Routine<'l> {
         Routine {
             tape: Cursor::new(code),
             size: code.len(),
+            depth: 0,
             caller: None,
         }
     }
-- 
2.43.0


From e08120559c8d7bdfd5b76177e91829e82be8025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 12/12] fix: take up memory only for the data that are present

The sizes of the items of indices and of private dictionaries come from the
data and were trusted: a dozen bytes could ask for gigabytes.
---
 src/compact1/font_set/character_id_keyed.rs   | 5 +++--
 src/compact1/font_set/character_name_keyed.rs | 5 +++--
 src/compact1/index/mod.rs                     | 4 ++--
 src/compact1/mod.rs                           | 9 +++++++++
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 9487ec2..b348b84 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -3,7 +3,7 @@
 use std::io::Cursor;
 
 use crate::compact1::index::{CharacterStrings, Dictionaries, Subroutines};
-use crate::compact1::{GlyphID, Number, Operations, Operator, StringID};
+use crate::compact1::{read_bytes, GlyphID, Number, Operations, Operator, StringID};
 use crate::Result;
 
 /// A character-ID-keyed record in a font set.
@@ -104,7 +104,8 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         use crate::tape::Read;
 
         let (size, offset) = get!(@double top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        tape.jump(position + offset as u64)?;
+        let chunk = read_bytes(tape, size as usize)?;
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
             Some(another_offset) => {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 6b0eefc..5f05354 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -3,7 +3,7 @@
 use std::io::Cursor;
 
 use crate::compact1::index::Subroutines;
-use crate::compact1::Operations;
+use crate::compact1::{read_bytes, Operations};
 use crate::Result;
 
 /// A character-name-keyed record in a font set.
@@ -23,7 +23,8 @@ impl<'l> crate::walue::Read<'l> for Record {
         use crate::tape::Read;
 
         let (size, offset) = get!(@double top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        tape.jump(position + offset as u64)?;
+        let chunk = read_bytes(tape, size as usize)?;
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
             Some(another_offset) => {
diff --git a/src/compact1/index/mod.rs b/src/compact1/index/mod.rs
index d5f36ce..b8995b4 100644
--- a/src/compact1/index/mod.rs
+++ b/src/compact1/index/mod.rs
@@ -1,6 +1,6 @@
 //! The indices.
 
-use crate::compact1::{Offset, OffsetSize};
+use crate::compact1::{read_bytes, Offset, OffsetSize};
 use crate::Result;
 
 table! {
@@ -42,7 +42,7 @@ impl crate::value::Read for Index {
                 raise!("found a malformed index");
             }
             let size = (offsets[i + 1].0 - offsets[i].0) as usize;
-            data.push(tape.take_given(size)?);
+            data.push(read_bytes(tape, size)?);
         }
         Ok(Index {
             count,
diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 25f921c..0b28225 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -29,6 +29,15 @@ pub type GlyphID = u16;
 /// A string identifier.
 pub type StringID = u16;
 
+/// Read a number of bytes, taking up memory only for those that are present.
+fn read_bytes<T: crate::tape::Read>(tape: &mut T, count: usize) -> Result<Vec<u8>> {
+    let mut bytes = vec![];
+    for _ in 0..count {
+        bytes.push(tape.take()?);
+    }
+    Ok(bytes)
+}
+
 impl TryFrom<Number> for StringID {
     type Error = Error;
 
-- 
2.43.0

