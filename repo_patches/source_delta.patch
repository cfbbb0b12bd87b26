From c9378d5bbc18e414e3a77f7740a83de9bd5b7e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 01/14] fix: iterate instead of recursing over operators that
 produce no operation

A charstring with about a thousand arithmetic or subroutine operators in a row
overflowed the stack.
---
 src/type2/program.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index eda4344..6c9ff66 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -36,12 +36,20 @@ impl<'l> Program<'l> {
 
     /// Return the next operation.
     #[allow(clippy::should_implement_trait)]
-    #[allow(unused_comparisons, unused_must_use)]
     pub fn next(&mut self) -> Result<Option<Operation>> {
+        loop {
+            if let Some(outcome) = self.advance()? {
+                return Ok(outcome);
+            }
+        }
+    }
+
+    #[allow(unused_comparisons, unused_must_use)]
+    fn advance(&mut self) -> Result<Option<Option<Operation>>> {
         use crate::type2::Operator::*;
 
         if self.routine.done()? {
-            return Ok(None);
+            return Ok(Some(None));
         }
 
         macro_rules! pop(
@@ -132,7 +140,7 @@ impl<'l> Program<'l> {
                 if min > 0 && self.width.is_none() {
                     self.width = Some(stack[min - 1]);
                 }
-                return Ok(Some((operator, operands)));
+                return Ok(Some(Some((operator, operands))));
             });
         );
 
@@ -167,7 +175,7 @@ impl<'l> Program<'l> {
                 if length > 0 && self.width.is_none() {
                     self.width = Some(self.stack[length - 1]);
                 }
-                return Ok(None);
+                return Ok(Some(None));
             }
 
             // Hint operators
@@ -286,7 +294,7 @@ impl<'l> Program<'l> {
 
             operator => raise!("found an unknown operator ({operator:?})"),
         };
-        self.next()
+        Ok(None)
     }
 
     /// Return the width difference with respect to the nominal width.
-- 
2.43.0


From 5158979b81c1b0423b6123418f78a98486b477ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 02/14] fix: limit the nesting of subroutines

A subroutine calling itself exhausted the memory.
---
 src/type2/program.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 6c9ff66..872b8ab 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -4,6 +4,9 @@ use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
 use crate::Result;
 
+// The limit on the nesting of subroutines (Appendix B of the specification).
+const MAX_DEPTH: usize = 10;
+
 /// A program.
 pub struct Program<'l> {
     routine: Routine<'l>,
@@ -17,6 +20,7 @@ pub struct Program<'l> {
 struct Routine<'l> {
     tape: Cursor<&'l [u8]>,
     size: usize,
+    depth: usize,
     caller: Option<Box<Routine<'l>>>,
 }
 
@@ -281,6 +285,10 @@ impl<'l> Program<'l> {
                     }
                     Routine::new(&subroutines[i as usize])
                 };
+                if self.routine.depth >= MAX_DEPTH {
+                    raise!("found too deeply nested subroutines");
+                }
+                routine.depth = self.routine.depth + 1;
                 std::mem::swap(&mut self.routine, &mut routine);
                 self.routine.caller = Some(Box::new(routine));
             }
@@ -310,6 +318,7 @@ impl<'l> Routine<'l> {
         Routine {
             tape: Cursor::new(code),
             size: code.len(),
+            depth: 0,
             caller: None,
         }
     }
-- 
2.43.0


From 03b81ea8582ca9eb7825298250530f31e1fcbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 03/14] fix: roll by the shift modulo the span

A shift of -2^31 overflowed on negation, and a large shift took billions of
steps.
---
 src/type2/program.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 872b8ab..35eacaf 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -228,20 +228,7 @@ impl<'l> Program<'l> {
                     raise!("expected more operands");
                 } else if span > 0 {
                     let position = length - span as usize;
-                    match shift.cmp(&0) {
-                        std::cmp::Ordering::Greater => {
-                            for _ in 0..shift {
-                                let operand = pop!();
-                                self.stack.insert(position, operand);
-                            }
-                        }
-                        std::cmp::Ordering::Less => {
-                            for _ in 0..(-shift) {
-                                push!(self.stack.remove(position));
-                            }
-                        }
-                        _ => {}
-                    }
+                    self.stack[position..].rotate_right(shift.rem_euclid(span) as usize);
                 }
             }
             Dup => push!(read!(0)),
-- 
2.43.0


From 995cb087ad6c59d0430e7c470a02d06be134543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 04/14] fix: prevent overflow in subroutine numbers

---
 src/type2/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 35eacaf..f12405e 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -266,7 +266,7 @@ impl<'l> Program<'l> {
                         &self.global
                     };
                     let count = subroutines.len();
-                    let i = address + bias(count);
+                    let i = address.saturating_add(bias(count));
                     if i < 0 || i as usize >= count {
                         raise!("found no subroutine");
                     }
-- 
2.43.0


From 92291cecedf92a9fa9e00ae112cdfee009e3ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 05/14] fix: take the width from below the implicit stem hints
 of a mask

The last edge of an implicit vertical stem was reported as the width.
---
 src/type2/program.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index f12405e..f75a770 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -190,6 +190,10 @@ impl<'l> Program<'l> {
             HintMask | CntrMask => {
                 self.stems += self.stack.len() >> 1;
                 let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
+                if self.stack.len() % 2 == 1 && self.width.is_none() {
+                    self.width = Some(self.stack[0]);
+                }
+                self.stack.clear();
                 clear!([equal(0)]);
             }
 
-- 
2.43.0


From 28ed4e8300f7676fdf7bd572ad7470aa69d87b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 06/14] fix: take the width from below the operands of the end
 operator

The last operand of an accented-character composition was reported as the
width.
---
 src/type2/program.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index f75a770..05b7bf3 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -175,9 +175,11 @@ impl<'l> Program<'l> {
                     }
                     std::mem::replace(&mut self.routine, *caller);
                 }
+                // The operator takes four operands when it composes an accented character.
                 let length = self.stack.len();
-                if length > 0 && self.width.is_none() {
-                    self.width = Some(self.stack[length - 1]);
+                let left = if length >= 4 { length - 4 } else { length };
+                if left > 0 && self.width.is_none() {
+                    self.width = Some(self.stack[left - 1]);
                 }
                 return Ok(Some(None));
             }
-- 
2.43.0


From 8a83a44732ec75937fc8609d0ef577894daa6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 07/14] fix: finish the program at the end operator

Asking for another operation resumed after the end operator.
---
 src/type2/program.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 05b7bf3..1691198 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -175,6 +175,8 @@ impl<'l> Program<'l> {
                     }
                     std::mem::replace(&mut self.routine, *caller);
                 }
+                let size = self.routine.size as u64;
+                self.routine.jump(size)?;
                 // The operator takes four operands when it composes an accented character.
                 let length = self.stack.len();
                 let left = if length >= 4 { length - 4 } else { length };
-- 
2.43.0


From 84d89beefa3045ba65185c55ada806dc64c78f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 08/14] fix: reject negative offsets and sizes

A negative size or offset in a dictionary caused a panic, and so did offsets
whose sum exceeds an i32.
---
 src/compact1/font_set/character_id_keyed.rs   |  4 +++-
 src/compact1/font_set/character_name_keyed.rs |  4 +++-
 src/compact1/font_set/mod.rs                  | 10 +++++++---
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 517d302..c534523 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -107,7 +107,9 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => {
+                jump_take!(@unwrap tape, position, offset as u64 + another_offset as u64)
+            }
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 7732ffc..6b0eefc 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -26,7 +26,9 @@ impl<'l> crate::walue::Read<'l> for Record {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => {
+                jump_take!(@unwrap tape, position, offset as u64 + another_offset as u64)
+            }
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/mod.rs b/src/compact1/font_set/mod.rs
index 5ee2955..712c429 100644
--- a/src/compact1/font_set/mod.rs
+++ b/src/compact1/font_set/mod.rs
@@ -3,21 +3,25 @@
 macro_rules! get(
     (@single $operations:expr, $operator:ident) => (
         match $operations.get_single(crate::compact1::Operator::$operator) {
-            Some(crate::compact1::Number::Integer(value)) => value,
+            Some(crate::compact1::Number::Integer(value)) if value >= 0 => value,
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
     );
     (@try @single $operations:expr, $operator:ident) => (
         match $operations.get_single(crate::compact1::Operator::$operator) {
-            Some(crate::compact1::Number::Integer(value)) => Some(value),
+            Some(crate::compact1::Number::Integer(value)) if value >= 0 => Some(value),
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => None,
         }
     );
     (@double $operations:expr, $operator:ident) => (
         match $operations.get_double(crate::compact1::Operator::$operator) {
-            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1))) => (value0, value1),
+            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1)))
+                if value0 >= 0 && value1 >= 0 =>
+            {
+                (value0, value1)
+            }
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
-- 
2.43.0


From b847844b896b6065dfc0a9efbf5e08cb91c5fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 09/14] fix: reject a character set in format 0 without glyphs

---
 src/compact1/character_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 663eb5b..889690c 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -93,7 +93,7 @@ impl crate::walue::Read<'static> for CharacterSet0 {
 
     fn read<T: crate::tape::Read>(tape: &mut T, glyph_count: usize) -> Result<Self> {
         let format = tape.take::<u8>()?;
-        if format != 0 {
+        if format != 0 || glyph_count == 0 {
             raise!("found a malformed character set");
         }
         Ok(CharacterSet0 {
-- 
2.43.0


From 1ae2b854767f0d707b5f9c2c2c767d652e9276a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 10/14] fix: reject string IDs that do not fit

They were truncated to an unrelated string ID.
---
 src/compact1/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 6c026dc..8a9e76b 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -35,7 +35,7 @@ impl TryFrom<Number> for StringID {
     #[inline]
     fn try_from(number: Number) -> Result<Self> {
         match number {
-            Number::Integer(value) if value >= 0 => Ok(value as Self),
+            Number::Integer(value) if value >= 0 && value <= Self::MAX as i32 => Ok(value as Self),
             _ => raise!("found a malformed string ID"),
         }
     }
-- 
2.43.0


From 6d3c348b4f89618b8ff9477a36d76b4b6a21551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 11/14] fix: look up the expert character sets by glyph ID

The names were looked up as if the glyph ID were a string ID.
---
 src/compact1/character_set.rs | 66 +++++++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 889690c..cc10608 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -59,8 +59,8 @@ impl CharacterSet {
     pub fn get(&self, glyph_id: GlyphID) -> Option<&'static str> {
         match self {
             CharacterSet::ISOAdobe => get_iso_adobe(glyph_id),
-            CharacterSet::Expert => get_expert(glyph_id),
-            CharacterSet::ExpertSubset => get_expert_subset(glyph_id),
+            CharacterSet::Expert => find(EXPERT, glyph_id).and_then(get_expert),
+            CharacterSet::ExpertSubset => find(EXPERT_SUBSET, glyph_id).and_then(get_expert_subset),
             CharacterSet::Format0(ref char_set) => char_set.get(glyph_id),
             CharacterSet::Format1(ref char_set) => char_set.get(glyph_id),
             CharacterSet::Format2(ref char_set) => char_set.get(glyph_id),
@@ -164,6 +164,60 @@ impl crate::walue::Read<'static> for CharacterSet2 {
     }
 }
 
+// The string IDs in the order of glyphs, given as inclusive ranges.
+const EXPERT: &[(StringID, StringID)] = &[
+    (0, 1),
+    (229, 238),
+    (13, 15),
+    (99, 99),
+    (239, 248),
+    (27, 28),
+    (249, 266),
+    (109, 110),
+    (267, 318),
+    (158, 158),
+    (155, 155),
+    (163, 163),
+    (319, 326),
+    (150, 150),
+    (164, 164),
+    (169, 169),
+    (327, 378),
+];
+
+const EXPERT_SUBSET: &[(StringID, StringID)] = &[
+    (0, 1),
+    (231, 232),
+    (235, 238),
+    (13, 15),
+    (99, 99),
+    (239, 248),
+    (27, 28),
+    (249, 251),
+    (253, 266),
+    (109, 110),
+    (267, 270),
+    (272, 272),
+    (300, 302),
+    (305, 305),
+    (314, 315),
+    (158, 158),
+    (155, 155),
+    (163, 163),
+    (320, 326),
+    (150, 150),
+    (164, 164),
+    (169, 169),
+    (327, 346),
+];
+
+fn find(ranges: &[(StringID, StringID)], glyph_id: GlyphID) -> Option<StringID> {
+    ranges
+        .iter()
+        .flat_map(|&(first, last)| first..=last)
+        .nth(glyph_id as usize)
+}
+
 fn get_iso_adobe(glyph_id: GlyphID) -> Option<&'static str> {
     Some(match glyph_id {
         1 => "space",
@@ -398,8 +452,8 @@ fn get_iso_adobe(glyph_id: GlyphID) -> Option<&'static str> {
     })
 }
 
-fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
-    Some(match glyph_id {
+fn get_expert(string_id: StringID) -> Option<&'static str> {
+    Some(match string_id {
         1 => "space",
         229 => "exclamsmall",
         230 => "Hungarumlautsmall",
@@ -569,8 +623,8 @@ fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
     })
 }
 
-fn get_expert_subset(glyph_id: GlyphID) -> Option<&'static str> {
-    Some(match glyph_id {
+fn get_expert_subset(string_id: StringID) -> Option<&'static str> {
+    Some(match string_id {
         1 => "space",
         231 => "dollaroldstyle",
         232 => "dollarsuperior",
-- 
2.43.0


From 8b4b49b41285bc8b49d32f10ecb8e05ec078e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 12/14] fix: read the codes preceding the supplement of an
 encoding

The high bit of the format signals that supplemental data follow the usual
data, which were skipped.
---
 src/compact1/encoding.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compact1/encoding.rs b/src/compact1/encoding.rs
index 9a31bed..4918e14 100644
--- a/src/compact1/encoding.rs
+++ b/src/compact1/encoding.rs
@@ -40,7 +40,17 @@ table! {
 table! {
     /// An encoding in the supplemental format.
     pub EncodingSupplemental { // Supplemental Encoding Data
-        format           (u8),
+        format (u8), // format
+        count  (u8), // nCodes or nRanges
+
+        codes (Vec<u8>) |this, tape| { // code
+            tape.take_given(if this.format == 0x80 { this.count as usize } else { 0 })
+        },
+
+        ranges (Vec<Range1>) |this, tape| { // Range1
+            tape.take_given(if this.format == 0x81 { this.count as usize } else { 0 })
+        },
+
         supplement_count (u8), // nSups
 
         supplements (Vec<Supplement>) |this, tape| { // Supplement
@@ -85,7 +95,7 @@ impl crate::value::Read for Encoding {
         Ok(match tape.peek::<u8>()? {
             0 => Encoding::Format0(tape.take()?),
             1 => Encoding::Format1(tape.take()?),
-            format if format & 0x80 > 0 => Encoding::FormatSupplemental(tape.take()?),
+            0x80 | 0x81 => Encoding::FormatSupplemental(tape.take()?),
             format => raise!("found an unknown format of encodings ({format})"),
         })
     }
-- 
2.43.0


From f213cfa84bb0903025e2bae4d2930043a90a1e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 13/14] fix: reject other formats in a glyph-to-dictionary
 encoding in format 0

---
 src/compact1/font_set/character_id_keyed.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index c534523..fde5ebd 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -143,8 +143,10 @@ impl<'l> crate::walue::Read<'l> for Encoding0 {
         tape: &mut T,
         character_strings: Self::Parameter,
     ) -> Result<Self> {
-        let format = tape.take()?;
-        debug_assert_eq!(format, 0);
+        let format = tape.take::<u8>()?;
+        if format != 0 {
+            raise!("found a malformed glyph-to-dictionary encoding");
+        }
         Ok(Self {
             format,
             dictionary_ids: tape.take_given(character_strings.count as usize)?,
-- 
2.43.0


From 34508f554e5fac99f102656af568994234420daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 14/14] fix: reject other formats in an encoding in the
 supplemental format

---
 src/compact1/encoding.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compact1/encoding.rs b/src/compact1/encoding.rs
index 4918e14..1b195c5 100644
--- a/src/compact1/encoding.rs
+++ b/src/compact1/encoding.rs
@@ -44,7 +44,11 @@ table! {
         count  (u8), // nCodes or nRanges
 
         codes (Vec<u8>) |this, tape| { // code
-            tape.take_given(if this.format == 0x80 { this.count as usize } else { 0 })
+            tape.take_given(match this.format {
+                0x80 => this.count as usize,
+                0x81 => 0,
+                format => raise!("found an unknown format of encodings ({format})"),
+            })
         },
 
         ranges (Vec<Range1>) |this, tape| { // Range1
-- 
2.43.0

