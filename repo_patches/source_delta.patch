From 4ba15aec1c88761ea98131e175f93b8b881263c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 01/27] fix: restart trace seeds per generate_code call

Generated code carried trace hashes that depended on what else had been
generated earlier on the same thread.
---
 src/codegen/mod.rs   | 8 ++++++++
 src/codegen/trace.rs | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 48cfa17..02bc6c2 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3088,6 +3088,14 @@ where
                     )
                 };
                 stmts.push(ctrl.into());
+                // the loop also ends, without consulting the matchtree, when there is nothing left to read
+                let check_min = model::repeat_between_finished(
+                    RustExpr::TRUE,
+                    RustExpr::local(model::BETWEEN_ACCUM).vec_len(),
+                    expr_min.clone().cast_as_usize(),
+                    expr_max.clone().cast_as_usize(),
+                );
+                stmts.push(RustStmt::Expr(check_min).into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::BETWEEN_ACCUM).into()))
             }
             RepeatLogic::ForEach(seq, lbl, inner) => {
diff --git a/src/codegen/trace.rs b/src/codegen/trace.rs
index 765ea48..eaac881 100644
--- a/src/codegen/trace.rs
+++ b/src/codegen/trace.rs
@@ -9,3 +9,9 @@ pub(crate) fn get_and_increment_seed() -> u64 {
         tmp
     })
 }
+
+/// Restarts the sequence of trace-seeds, so that the code generated for a module does not depend
+/// on what else was generated earlier on the same thread.
+pub(crate) fn reset_seed() {
+    TRACE_SEED.set(0);
+}
-- 
2.43.0


From 8b6b280db529958ab600dc86918a83625ab4773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 02/27] fix: RepeatBetween looks ahead at the current position

The interpreters consulted the lookahead tree at the position before the first
element on every iteration, and hit unreachable!() when the input ended below
the lower bound.
---
 src/decoder.rs     | 9 ++++++---
 src/loc_decoder.rs | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 113093c..ec8c848 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1389,9 +1389,9 @@ impl Decoder {
                 let max = max.eval_value(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
-                    if reps_left_tree.matches(input).ok_or(
+                    if reps_left_tree.matches(*input).ok_or(
                         DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         }
@@ -1400,7 +1400,10 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            }
+                            .with_trace(v.len()));
                         }
                         break;
                     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 099dec3..152fe9d 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1571,10 +1571,10 @@ impl Decoder {
                 let max = max.eval_value_with_loc(scope).unwrap_usize();
                 let mut res = WithErr::new((Vec::new(), input));
                 loop {
-                    let v = &res.as_ref().0;
+                    let (v, input) = res.as_ref();
                     // REVIEW - does the order of the conditions in the OR matter?
                     if reps_left_tree
-                        .matches(input)
+                        .matches(*input)
                         .ok_or(DecodeErrorKind::NoValidBranch {
                             offset: input.offset,
                         })?
@@ -1582,7 +1582,9 @@ impl Decoder {
                         || v.len() == max
                     {
                         if v.len() < min {
-                            unreachable!("incoherent bounds for RepeatBetween(_, {min}, {max}, _)");
+                            return Err(DecodeErrorKind::NoValidBranch {
+                                offset: input.offset,
+                            });
                         }
                         break;
                     }
-- 
2.43.0


From 845baa86c1d72f2d85dea01732805f154976cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 03/27] fix: generated Repeat1 and RepeatBetween loops enforce
 their minimum at end of input

The loops are guarded by remaining() > 0, so at end of input they returned
fewer elements than the format requires, where the interpreter rejects.
---
 generated/gencode.rs | 39 +++++++++++++++++++++++++++++++++++++++
 src/codegen/mod.rs   | 10 +++++++++-
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 3aac61b..b2cee75 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8918,6 +8918,9 @@ let next_elem = (Decoder477(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -9038,6 +9041,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -9301,6 +9307,9 @@ let next_elem = (Decoder_png_idat(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 (try_flat_map_vec(xs.iter().cloned(), |x: png_idat| PResult::Ok(x.data.clone())))?
@@ -9523,6 +9532,9 @@ let next_elem = (Decoder_tar_header_with_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -14443,6 +14455,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -23637,6 +23652,9 @@ return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -23835,6 +23853,9 @@ return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 PResult::Ok(tar_ascii_string_opt0_nonempty { string })
@@ -24635,6 +24656,9 @@ gif_color_table_entry { r, g, b }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -26304,6 +26328,7 @@ return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -27281,6 +27306,7 @@ return Err(ParseError::ExcludedBranch(16842149192073737461u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -28303,6 +28329,7 @@ return Err(ParseError::ExcludedBranch(4315160623525052581u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -29280,6 +29307,7 @@ return Err(ParseError::ExcludedBranch(3269600573864009399u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -30501,6 +30529,7 @@ return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
 PResult::Ok(accum)
 }
 
@@ -36314,6 +36343,9 @@ let next_elem = (Decoder_jpeg_dqt_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 })())?;
 _input.end_slice()?;
@@ -37914,6 +37946,9 @@ gzip_main { header, fextra, fname, fcomment, fhcrc, data, footer }
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 PResult::Ok(accum)
 }
 
@@ -37953,6 +37988,9 @@ let next_elem = (Decoder_tar_header_with_data(_input))?;
 accum.push(next_elem)
 }
 };
+if accum.is_empty() {
+return Err(ParseError::InsufficientRepeats);
+};
 accum
 };
 {
@@ -38918,6 +38956,7 @@ return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 accum.push(next_elem)
 }
 };
+(repeat_between_finished(true, accum.len(), 0u16 as usize, 9u16 as usize))?;
 accum
 };
 let arg1 = {
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 02bc6c2..73de36d 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -6,7 +6,7 @@ use std::{
     rc::Rc,
 };
 
-use trace::get_and_increment_seed;
+use trace::{get_and_increment_seed, reset_seed};
 
 use crate::{
     Arith, BaseKind, BaseType, CommonOp, DynFormat, Endian, Expr, Format, FormatModule, IntRel,
@@ -3054,6 +3054,13 @@ where
                     )
                 };
                 stmts.push(ctrl.into());
+                // the loop also ends, without consulting the matchtree, when there is nothing left to read
+                let check_nonempty = GenControl::If(
+                    Box::new(RustExpr::local(model::R1BOM_ACCUM).vec_is_empty()),
+                    GenBlock::explicit_return(model::err_too_few()),
+                    None,
+                );
+                stmts.push(check_nonempty.into());
                 GenBlock::from_parts(stmts, Some(RustExpr::local(model::R1BOM_ACCUM).into()))
             }
             RepeatLogic::BetweenCounts(reps_left_tree, expr_min, expr_max, elt) => {
@@ -3768,6 +3775,7 @@ impl ToAst for DynamicLogic<GTExpr> {
 /// format-module `module`. Any formats within `module` that are inaccessible via exploration
 /// of `top_format` may be omitted from the resulting code-output.
 pub fn generate_code(module: &FormatModule, top_format: &Format) -> impl ToFragment + use<> {
+    reset_seed();
     let mut items = Vec::new();
 
     let Generator {
-- 
2.43.0


From f2d86729a52525891802a095625b0253a461801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:08 +0000
Subject: [PATCH 04/27] fix: do not reserve memory for element counts taken
 from the input

A count field of a few bytes made the interpreters reserve gigabytes (or abort
with a capacity overflow) before reading the first element.
---
 src/decoder.rs     | 6 +++---
 src/loc_decoder.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index ec8c848..63acef7 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1370,7 +1370,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(
@@ -1638,7 +1638,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1660,7 +1660,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for ix in 0..len {
                     let (val, new_buf) = try_with!(read_base(buf, *kind) => ("ReadArray", format!("index: {ix}"), format!("kind: {kind:?}"), format!("view: {v_expr:?}")));
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 152fe9d..aede7e3 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1551,7 +1551,7 @@ impl Decoder {
             Decoder::RepeatCount(expr, a) => {
                 let count = expr.eval_value_with_loc(scope).unwrap_usize();
                 Ok(WithErr::fold(
-                    (Vec::with_capacity(count), input),
+                    (Vec::new(), input),
                     0..count,
                     |(mut v, input), _| {
                         Ok(a.parse_with_loc(program, scope, input)?
@@ -1841,7 +1841,7 @@ impl Decoder {
 
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
                 // accumulate `len` bytes into a Vec<Value>
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for i in 0..len {
                     let Some((byte, new_buf)) = buf.read_byte() else {
@@ -1868,7 +1868,7 @@ impl Decoder {
                 let view_window = Self::eval_view_expr_with_loc(scope, v_expr)?;
 
                 // REVIEW - hardcoded big-endianness
-                let mut accum = Vec::with_capacity(len);
+                let mut accum = Vec::new();
                 let mut buf = view_window;
                 for _ in 0..len {
                     let (val, new_buf) = read_base(buf, *kind)?;
-- 
2.43.0


From 22901fe49f4093ae27b88c5a11c9344aa39d0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:08 +0000
Subject: [PATCH 05/27] fix: View::read_len reports an overrun instead of
 panicking

Generated decoders panicked when a captured range reached past the end of its
view, where the interpreter rejects the input.
---
 generated/gencode.rs | 14 +++++++-------
 src/codegen/model.rs |  2 +-
 src/parser/view.rs   |  9 +++++++--
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index b2cee75..4237316 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8877,7 +8877,7 @@ return Err(ParseError::ExcludedBranch(5712308626808297759u64));
 let _here = _input.get_offset_u64();
 let waldo = {
 let scope = _input.view();
-scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)
+scope.offset((try_sub!(r#where, _here, 13646096770106105413u64)) as usize)?.read_len(5u8 as usize)?
 };
 _input.skip_remainder();
 PResult::Ok(waldo_main { r#where, noise, waldo })
@@ -13787,7 +13787,7 @@ u32be(x)
 };
 let signature = {
 let here_view = _input.view();
-here_view.read_len(signature_length as usize)
+here_view.read_len(signature_length as usize)?
 };
 PResult::Ok(opentype_dsig_sig_format1 { signature_length, signature })
 }
@@ -14273,7 +14273,7 @@ let svg_document_length = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u32be(x)
 };
-let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize);
+let _svg_document = list_view.offset(svg_document_offset as usize)?.read_len(svg_document_length as usize)?;
 let _svg_document_utf8 = std::marker::PhantomData;
 PResult::Ok(opentype_svg_document_record { start_glyph_id, end_glyph_id, svg_document_offset, svg_document_length, _svg_document, _svg_document_utf8 })
 }
@@ -16424,7 +16424,7 @@ unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?
 };
 let map_data = {
 let here_view = _input.view();
-here_view.read_len((map_count * (entry_size as u32)) as usize)
+here_view.read_len((map_count * (entry_size as u32)) as usize)?
 };
 PResult::Ok(opentype_var_delta_set_index_map { format, entry_size, inner_index_bits, map_count, map_data })
 }
@@ -21071,7 +21071,7 @@ fn Decoder_opentype_post_pascal_string<'input>(_input: &mut Parser<'input>) -> R
 let length = _input.read_byte()?;
 let string = {
 let pascal_string_data = _input.view();
-pascal_string_data.read_len(length as usize)
+pascal_string_data.read_len(length as usize)?
 };
 PResult::Ok(opentype_post_pascal_string { length, string })
 }
@@ -21103,7 +21103,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_name_record { platform, encoding, language, name_id, length, string })
@@ -21137,7 +21137,7 @@ let offset = {
 let x = (_input.read_byte()?, _input.read_byte()?);
 u16be(x)
 };
-let data = storage_view.offset(offset as usize)?.read_len(length as usize);
+let data = storage_view.offset(offset as usize)?.read_len(length as usize)?;
 opentype_name_name_record_string { offset, data }
 };
 PResult::Ok(opentype_name_lang_tag_record { length, lang_tag })
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index aadbed2..2aaf336 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -244,7 +244,7 @@ pub fn get_view(parser: RustExpr) -> RustExpr {
 
 /// Model RustExpr for handling `ViewFormat::CaptureBytes(len)` in the Parser (View) model.
 pub fn read_from_view(view: RustExpr, len: RustExpr) -> RustExpr {
-    call!(view, read_len, len)
+    try_call!(view, read_len, len)
 }
 
 /// Model RustExpr for handling `ViewFormat::ReadArray(len, kind)` in the Parser (View) model.
diff --git a/src/parser/view.rs b/src/parser/view.rs
index 4a1f5c9..f1063e5 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,8 +25,13 @@ impl<'a> View<'a> {
     }
 
     /// Reads a slice of `len` bytes from the View, offset by `offset`.
-    pub fn read_len(&self, len: usize) -> &'a [u8] {
-        &self.buffer[..len]
+    pub fn read_len(&self, len: usize) -> Result<&'a [u8], DoodleParseError> {
+        self.buffer.get(..len).ok_or_else(|| {
+            DoodleParseError::Overrun(OverrunKind::EndOfStream {
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(len)),
+                max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
+            })
+        })
     }
 
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
-- 
2.43.0


From 4fcee750b09cb54ee138cffc5cd511175e646772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:39 +0000
Subject: [PATCH 06/27] fix: report output that could not be written

The tree printers swallowed write errors and the process exited 0; the text
after the last newline of the JSON and Rust outputs was flushed by the runtime
at exit, which ignores errors.
---
 doodle-formats/src/main.rs | 10 ++++++----
 src/output/tree.rs         | 20 ++++++++++++--------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/doodle-formats/src/main.rs b/doodle-formats/src/main.rs
index badd123..334da12 100644
--- a/doodle-formats/src/main.rs
+++ b/doodle-formats/src/main.rs
@@ -6,6 +6,7 @@ use doodle::Format;
 use doodle::codegen::{ToFragment, generate_code};
 use std::collections::BTreeMap;
 use std::fs;
+use std::io::Write;
 use std::path::PathBuf;
 
 use clap::{Parser, ValueEnum};
@@ -177,7 +178,7 @@ fn main() -> Result<(), Box<dyn std::error::Error + 'static>> {
                     }
                 }
             }
-            Ok(())
+            Ok(std::io::stdout().flush()?)
         }
         Command::File {
             output,
@@ -281,10 +282,10 @@ fn main() -> Result<(), Box<dyn std::error::Error + 'static>> {
                         let (p_value, _) = program.run_with_loc(ReadCtxt::new(&input))?;
                         doodle::output::tree::print_parsed_decoded_value(
                             &module, &p_value, &format,
-                        );
+                        )?;
                     } else {
                         let (value, _) = program.run(ReadCtxt::new(&input))?;
-                        doodle::output::tree::print_decoded_value(&module, &value, &format);
+                        doodle::output::tree::print_decoded_value(&module, &value, &format)?;
                     }
                 }
                 FileOutput::Flat => {
@@ -293,7 +294,8 @@ fn main() -> Result<(), Box<dyn std::error::Error + 'static>> {
                 }
             }
 
-            Ok(())
+            // whatever follows the last newline is still buffered
+            Ok(std::io::stdout().flush()?)
         }
         Command::TypeCheck => {
             let mut module = FormatModule::new();
diff --git a/src/output/tree.rs b/src/output/tree.rs
index fef2173..e8340d7 100644
--- a/src/output/tree.rs
+++ b/src/output/tree.rs
@@ -22,22 +22,26 @@ fn atomic_value_to_string(value: &Value) -> String {
     }
 }
 
-pub fn print_decoded_value(module: &FormatModule, value: &Value, format: &Format) {
+pub fn print_decoded_value(
+    module: &FormatModule,
+    value: &Value,
+    format: &Format,
+) -> io::Result<()> {
     use std::io::Write;
     let frag = TreePrinter::new(module).compile_decoded_value(value, format);
     let mut lock = io::stdout().lock();
-    if let Err(e) = write!(&mut lock, "{frag}") {
-        eprintln!("error: {e}");
-    }
+    write!(&mut lock, "{frag}")
 }
 
-pub fn print_parsed_decoded_value(module: &FormatModule, p_value: &ParsedValue, format: &Format) {
+pub fn print_parsed_decoded_value(
+    module: &FormatModule,
+    p_value: &ParsedValue,
+    format: &Format,
+) -> io::Result<()> {
     use std::io::Write;
     let frag = TreePrinter::new(module).compile_parsed_decoded_value(p_value, format);
     let mut lock = io::stdout().lock();
-    if let Err(e) = write!(&mut lock, "{frag}") {
-        eprintln!("error: {e}");
-    }
+    write!(&mut lock, "{frag}")
 }
 
 enum Column {
-- 
2.43.0


From aecbec2c48db02789f4a5b206d382e0cf28acb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:11 +0000
Subject: [PATCH 07/27] fix: Pos and Align count from the start of the buffer
 inside a View

Parsers opened on a View reported and aligned positions relative to the View,
where the interpreter (and advance_or_seek) use absolute positions.
---
 src/parser/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 36f9f96..a2ed8fc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -163,11 +163,15 @@ impl<'a> Parser<'a> {
     /// ```
     pub fn skip_align(&mut self, n: usize) -> Result<(), ParseError> {
         let current_offset = self.offset.get_current_offset();
+        // a Parser that was opened on a View counts from the start of that View
+        let start = self.buffer.start_offset;
         let aligned_offset = match current_offset {
-            ByteOffset::Bytes(nbytes) if nbytes % n == 0 => current_offset,
+            ByteOffset::Bytes(nbytes) if (start + nbytes) % n == 0 => current_offset,
             ByteOffset::Bits { bits_advanced, .. } if bits_advanced % n == 0 => current_offset,
 
-            ByteOffset::Bytes(nbytes) => ByteOffset::from_bytes(((nbytes / n) + 1) * n),
+            ByteOffset::Bytes(nbytes) => {
+                ByteOffset::from_bytes((((start + nbytes) / n) + 1) * n - start)
+            }
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
@@ -351,7 +355,7 @@ impl<'a> Parser<'a> {
     /// As currently defined, will panic if we are in bits-mode.
     pub fn get_offset_u64(&self) -> u64 {
         match self.get_current_offset() {
-            ByteOffset::Bytes(n) => n as u64,
+            ByteOffset::Bytes(n) => (self.buffer.start_offset + n) as u64,
             ByteOffset::Bits { .. } => {
                 // FIXME - this panic should perhaps be eliminated if possible
                 unreachable!("no unequivocal way to compute a byte-offset while in bits-mode");
-- 
2.43.0


From 89a69ba66b171df127fb4bab01599959990e88d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:02 +0000
Subject: [PATCH 08/27] fix: generated Repeat1 parses its first element
 unconditionally

The lookahead that decides whether to go on was also consulted before the first
element, which the interpreter never does.
---
 generated/gencode.rs | 66 ++++++++------------------------------------
 src/codegen/mod.rs   | 18 +++++++-----
 2 files changed, 22 insertions(+), 62 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 4237316..f6807b9 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8907,12 +8907,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = (Decoder477(_input))?;
 accum.push(next_elem)
@@ -9000,12 +8996,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
@@ -9296,12 +9288,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = (Decoder_png_idat(_input))?;
 accum.push(next_elem)
@@ -9521,12 +9509,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = (Decoder_tar_header_with_data(_input))?;
 accum.push(next_elem)
@@ -14414,12 +14398,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
@@ -23634,12 +23614,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = {
 let b = _input.read_byte()?;
@@ -23835,12 +23811,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = {
 let b = _input.read_byte()?;
@@ -24640,12 +24612,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = {
 let r = _input.read_byte()?;
@@ -36332,12 +36300,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = (Decoder_jpeg_dqt_data(_input))?;
 accum.push(next_elem)
@@ -37905,12 +37869,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = {
 let header = (Decoder_gzip_header(_input))?;
@@ -37977,12 +37937,8 @@ _input.close_peek_context()?;
 ret
 }
 };
-if matching_ix == 0 {
-if accum.is_empty() {
-return Err(ParseError::InsufficientRepeats);
-} else {
+if (matching_ix == 0) && (accum.len() > 0) {
 break
-}
 } else {
 let next_elem = (Decoder_tar_header_with_data(_input))?;
 accum.push(next_elem)
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 73de36d..3e4edb1 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3041,13 +3041,17 @@ where
                         );
                         GenBlock::from_parts(vec![bind_elem], Some(push_elem.into()))
                     };
-                    let b_stop = GenControl::If(
-                        Box::new(RustExpr::local(model::R1BOM_ACCUM).vec_is_empty()),
-                        GenBlock::explicit_return(model::err_too_few()),
-                        Some(GenControl::Break.into()),
-                    )
-                    .into();
-                    let escape_clause = GenControl::If(Box::new(cond), b_stop, Some(b_continue));
+                    // the matchtree only decides what happens after the first element
+                    let cond = RustExpr::infix(
+                        cond,
+                        InfixOperator::BoolAnd,
+                        model::gt0(RustExpr::local(model::R1BOM_ACCUM).vec_len()),
+                    );
+                    let escape_clause = GenControl::If(
+                        Box::new(cond),
+                        GenControl::Break.into(),
+                        Some(b_continue),
+                    );
                     GenControl::While(
                         Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
                         GenBlock::from_parts(vec![bind_ix], Some(escape_clause.into())),
-- 
2.43.0


From 438afdee7a124b23d08002c54ed158c50ac9d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:37 +0000
Subject: [PATCH 09/27] fix: close nondeterministic-choice contexts once a
 branch has been parsed

A successful UnionNondet branch, and a PeekNot whose format matched, left their
checkpoint on the parser's stack, so that a later failure resumed an enclosing
alternation at the inner checkpoint instead of its own.
---
 generated/gencode.rs | 19 +++++++++++++++++++
 src/codegen/mod.rs   | 17 ++++++++++++++---
 src/codegen/model.rs |  4 ++++
 src/parser/mod.rs    | 10 ++++++++--
 src/parser/offset.rs | 16 ++++++++++++++++
 5 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index f6807b9..9983029 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8614,6 +8614,7 @@ PResult::Ok(main_data::waldo(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8627,6 +8628,7 @@ PResult::Ok(main_data::peano(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8640,6 +8642,7 @@ PResult::Ok(main_data::gif(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8653,6 +8656,7 @@ PResult::Ok(main_data::tgz(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8666,6 +8670,7 @@ PResult::Ok(main_data::gzip(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8679,6 +8684,7 @@ PResult::Ok(main_data::jpeg(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8692,6 +8698,7 @@ PResult::Ok(main_data::mpeg4(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8705,6 +8712,7 @@ PResult::Ok(main_data::png(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8718,6 +8726,7 @@ PResult::Ok(main_data::riff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8731,6 +8740,7 @@ PResult::Ok(main_data::tiff(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8744,6 +8754,7 @@ PResult::Ok(main_data::tar(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8757,6 +8768,7 @@ PResult::Ok(main_data::elf(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8770,6 +8782,7 @@ PResult::Ok(main_data::opentype(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8783,6 +8796,7 @@ PResult::Ok(main_data::numbers(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -8796,6 +8810,7 @@ PResult::Ok(main_data::rle(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -14272,6 +14287,7 @@ PResult::Ok(text_maybe_gzip::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -24523,6 +24539,7 @@ PResult::Ok(())
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
@@ -24581,6 +24598,7 @@ Err(_e)
 if res.is_err() {
 _input.close_peek_not_context()?
 } else {
+_input.close_peek_not_context()?;
 return Err(ParseError::NegatedSuccess);
 }
 };
@@ -24953,6 +24971,7 @@ PResult::Ok(png_itxt_text::compressed(inner))
 })();
 match res {
 Ok(inner) => {
+_input.end_alt();
 return PResult::Ok(inner);
 },
 
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 3e4edb1..c7d86d6 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -2942,7 +2942,13 @@ where
                 let close_or_fail = GenExpr::Control(Box::new(RustControl::If(
                     Box::new(RustExpr::local(model::PEEK_NOT_RES).call_method("is_err")),
                     GenBlock::simple_expr(model::try_close_peek_not(ctxt.parser())),
-                    Some(GenBlock::explicit_return(model::err_bad_peek_not())),
+                    Some({
+                        let mut block = GenBlock::explicit_return(model::err_bad_peek_not());
+                        block.prepend_stmt(
+                            RustStmt::Expr(model::try_close_peek_not(ctxt.parser())).into(),
+                        );
+                        block
+                    }),
                 )));
                 let stmts = vec![open_peek_not, bind_res];
                 GenBlock::from_parts(stmts, Some(close_or_fail))
@@ -3491,7 +3497,8 @@ where
                 let mut stmts = Vec::with_capacity(2 * l - 1);
                 let mut last_ctrl = None;
 
-                {
+                // a lone branch has nothing to fall back to
+                if l > 1 {
                     let start_alternation = model::start_alt(ctxt.parser()).into();
                     stmts.push(start_alternation);
                 }
@@ -3500,7 +3507,11 @@ where
                     let n_left = (l - 1) - ix;
                     let on_match = |ret_expr: RustExpr| match n_left {
                         0 => GenBlock::implicit_return(ret_expr),
-                        1.. => GenBlock::explicit_return(ret_expr),
+                        1.. => {
+                            let mut block = GenBlock::explicit_return(ret_expr);
+                            block.prepend_stmt(model::end_alt(ctxt.parser()).into());
+                            block
+                        }
                     };
                     let on_err = match n_left {
                         0 => GenBlock::implicit_return(RustExpr::ResultErr(Box::new(
diff --git a/src/codegen/model.rs b/src/codegen/model.rs
index 2aaf336..54a0258 100644
--- a/src/codegen/model.rs
+++ b/src/codegen/model.rs
@@ -315,6 +315,10 @@ pub fn start_alt(parser: RustExpr) -> RustExpr {
     call!(parser, start_alt)
 }
 
+pub fn end_alt(parser: RustExpr) -> RustExpr {
+    call!(parser, end_alt)
+}
+
 pub fn try_next_alt(parser: RustExpr, next_is_final: bool) -> RustExpr {
     try_call!(parser, next_alt, RustExpr::bool_lit(next_is_final))
 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a2ed8fc..0634c82 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -304,11 +304,11 @@ impl<'a> Parser<'a> {
     /// let mut p = Parser::new(&buf);
     /// p.start_alt();
     /// match parse_a(&mut p) {
-    ///     Ok(result_a) => return ..., // short circuit to escape future alternation branches
+    ///     Ok(result_a) => { p.end_alt(); return ... }, // short circuit to escape future alternation branches
     ///     Err(_) => p.next_alt(false)?, // the next branch, B, is not the last
     /// }
     /// match parse_b(&mut p) {
-    ///     Ok(result_b) => return ..., // short circuit to escape future alternation branches
+    ///     Ok(result_b) => { p.end_alt(); return ... }, // short circuit to escape future alternation branches
     ///     Err(_) => p.next_alt(true)?, // the next branch, C, is the last
     /// }
     /// match parse_c(&mut p) {
@@ -324,6 +324,12 @@ impl<'a> Parser<'a> {
         Ok(())
     }
 
+    /// Closes the most recently-opened 'Alts' context without rewinding, once one of its branches
+    /// has been parsed successfully.
+    pub fn end_alt(&mut self) {
+        self.offset.close_parallel()
+    }
+
     /// Returns the number of bytes that remain in the current, possibly slice-limited context.
     ///
     /// The return value will be `0` if and only if `self.read_byte` will return `Err(ParseError::Overrun(...))`.
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index 2d10ba7..e4728dc 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -285,6 +285,17 @@ impl ViewStack {
         }
         Err(StateError::NoRecovery)
     }
+
+    /// Drops the most recent `Lens::Alts`, and whatever was left open above it.
+    pub(crate) fn close_alts(&mut self) {
+        if let Some(ix) = self
+            .stack
+            .iter()
+            .rposition(|lens| matches!(lens, Lens::Alts { .. }))
+        {
+            self.stack.truncate(ix);
+        }
+    }
 }
 
 /// Enumeration over the (four) format-combinators that require special handling,
@@ -616,6 +627,11 @@ impl BufferOffset {
         self.view_stack.push_lens(parallel);
     }
 
+    /// Removes the most recent [`Lens::Alts`] from the internal `ViewStack`, keeping the current offset.
+    pub(crate) fn close_parallel(&mut self) {
+        self.view_stack.close_alts();
+    }
+
     /// Performs a [`ViewStack::restore`] operation on the internal ViewStack, replacing
     /// the current offset and ViewStack's values with the return-value of that method call.
     ///
-- 
2.43.0


From 94ef0672447a6a43aeb484b081c065b2c25ac213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:20 +0000
Subject: [PATCH 10/27] fix: generated Permit resumes where the permitted
 format started

The generated code continued from wherever the failed parse had stopped (even
in bits-mode), where the interpreter continues from its start.
---
 generated/gencode.rs |  3 +++
 src/codegen/mod.rs   | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 9983029..54f6dc0 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -11307,6 +11307,7 @@ None
 }
 };
 let dsig = {
+_input.start_alt();
 let res = (|| match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1146308935u32, tables)).copied() {
 Some(ref table) => {
 let mut view_parser = Parser::from(font_view.offset(table.offset as usize)?);
@@ -11324,10 +11325,12 @@ PResult::Ok(None)
 })();
 match res {
 Ok(res) => {
+_input.end_alt();
 res
 },
 
 Err(err) => {
+_input.next_alt(true)?;
 log::error!("expect-level value assertion failed: {}", err);
 None
 }
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index c7d86d6..7652ecf 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3638,14 +3638,21 @@ impl ToAst for DerivedLogic<GTExpr> {
             }
             DerivedLogic::Permit(inner, expr) => {
                 let rhs = inner.to_ast(ctxt).abstracted_try();
+                // the fallback value consumes nothing, so whatever was read before the failure is unread
+                let start = model::start_alt(ctxt.parser()).into();
                 let bind_res = GenStmt::assign(model::PERMIT_BIND, rhs);
-                let if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                let mut if_ok = GenBlock::simple_expr(RustExpr::local(model::PERMIT_BIND));
+                if_ok.prepend_stmt(model::end_alt(ctxt.parser()).into());
                 let if_err = {
                     let (stmts, expr) = model::yield_value_with_error(
                         (&**expr).clone(),
                         RustExpr::local(model::PERMIT_ERR),
                     );
-                    GenBlock::lift_block(stmts, expr)
+                    let mut block = GenBlock::lift_block(stmts, expr);
+                    block.prepend_stmt(
+                        RustStmt::Expr(model::try_next_alt(ctxt.parser(), true)).into(),
+                    );
+                    block
                 };
                 let ctrl = GenExpr::Control(Box::new(RustControl::Match(
                     Box::new(RustExpr::local(model::PERMIT_BIND)),
@@ -3657,7 +3664,7 @@ impl ToAst for DerivedLogic<GTExpr> {
                         .to_vec(),
                     ),
                 )));
-                let block = GenBlock::from_parts(vec![bind_res], Some(ctrl));
+                let block = GenBlock::from_parts(vec![start, bind_res], Some(ctrl));
                 block
             }
             #[cfg(feature = "format_enforce")]
-- 
2.43.0


From 5a304c8002dc6b01ea1f6b660bb9968b9ad3e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:20 +0000
Subject: [PATCH 11/27] hooks: sim_hooks feature observes lookahead fallbacks
 (off by default)

---
 Cargo.toml       |  2 ++
 src/lib.rs       | 10 +++++++++-
 src/sim_hooks.rs | 29 +++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 1 deletion(-)
 create mode 100644 src/sim_hooks.rs

diff --git a/Cargo.toml b/Cargo.toml
index 31b69d6..5f331d9 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -24,6 +24,8 @@ alt = []
 format_enforce = []
 pattern_matches_auto_rep = []
 __unify_mixed_to_int = []
+# observation points for the simulation harness; changes no behaviour
+sim_hooks = []
 
 [[bin]]
 name = "doodle"
diff --git a/src/lib.rs b/src/lib.rs
index 21c666f..e5cc7be 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,8 @@ pub mod parser;
 mod precedence;
 pub mod prelude;
 pub mod read;
+#[cfg(feature = "sim_hooks")]
+pub mod sim_hooks;
 
 mod scope;
 
@@ -2281,13 +2283,19 @@ impl MatchTree {
     /// Returns `None` if not enough lookahead remains to disambiguate multiple candidate indices.
     fn matches(&self, input: ReadCtxt<'_>) -> Option<usize> {
         match input.read_byte() {
-            None => self.accept,
+            None => {
+                #[cfg(feature = "sim_hooks")]
+                sim_hooks::lookahead_fallback(true, self.accept.is_some(), self.branches.len());
+                self.accept
+            }
             Some((b, input)) => {
                 for (bs, s) in &self.branches {
                     if bs.contains(b) {
                         return s.matches(input);
                     }
                 }
+                #[cfg(feature = "sim_hooks")]
+                sim_hooks::lookahead_fallback(false, self.accept.is_some(), self.branches.len());
                 self.accept
             }
         }
diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
new file mode 100644
index 0000000..51fbb38
--- /dev/null
+++ b/src/sim_hooks.rs
@@ -0,0 +1,29 @@
+//! Observation points for the simulation harness (feature `sim_hooks`, off by default).
+
+use std::cell::Cell;
+
+thread_local! {
+    static FALLBACKS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
+}
+
+/// A lookahead tree settled for its inner `accept` although it could have looked further.
+pub(crate) fn lookahead_fallback(at_end: bool, accepts: bool, branches: usize) {
+    if accepts && branches > 0 {
+        FALLBACKS.with(|c| {
+            let (end, other) = c.get();
+            c.set(if at_end {
+                (end + 1, other)
+            } else if branches > 1 {
+                (end, other + 1)
+            } else {
+                (end, other)
+            });
+        });
+    }
+}
+
+/// How often that has happened on this thread since the last call: at the end of the input, and
+/// on a byte that none of two or more branches expects.
+pub fn take_lookahead_fallbacks() -> (u64, u64) {
+    FALLBACKS.with(|c| c.replace((0, 0)))
+}
-- 
2.43.0


From b756f5647dae8512afc52b0a381abc3967856bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:18 +0000
Subject: [PATCH 12/27] fix: interpreters see through wrapped values in nested
 patterns

A literal pattern below a variant, tuple, sequence or option never matched a
value that was decoded through Map, Union or Permit (an ELF header with a zero
program- or section-header offset was read as if it were nonzero), and the
location-tracking interpreter did not match Numeric values at all.
---
 src/decoder/value.rs | 30 ++++++++--------
 src/loc_decoder.rs   | 84 ++++++++++++++++++++++++++++++--------------
 2 files changed, 73 insertions(+), 41 deletions(-)

diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index 3d60dc8..cd4976e 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -178,34 +178,36 @@ impl Value {
         scope: &mut MultiScope<'a>,
         pattern: &Pattern,
     ) -> bool {
+        // literal and structural patterns look through any wrapper, at every depth
+        let this = self.coerce_nominal_value();
         match pattern {
             Pattern::Binding(name) => {
                 scope.push(name.clone(), self);
                 true
             }
             Pattern::Wildcard => true,
-            Pattern::Bool(b0) => matches!(self, Value::Bool(b1) if b0 == b1),
-            Pattern::U8(i0) => match self {
+            Pattern::Bool(b0) => matches!(this, Value::Bool(b1) if b0 == b1),
+            Pattern::U8(i0) => match this {
                 Value::U8(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u8(*i0),
                 _ => false,
             },
-            Pattern::U16(i0) => match self {
+            Pattern::U16(i0) => match this {
                 Value::U16(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u16(*i0),
                 _ => false,
             },
-            Pattern::U32(i0) => match self {
+            Pattern::U32(i0) => match this {
                 Value::U32(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u32(*i0),
                 _ => false,
             },
-            Pattern::U64(i0) => match self {
+            Pattern::U64(i0) => match this {
                 Value::U64(i1) if i0 == i1 => true,
                 Value::Numeric(n) => n.matches_u64(*i0),
                 _ => false,
             },
-            Pattern::Int(bounds) => match self {
+            Pattern::Int(bounds) => match this {
                 Value::U8(n) => bounds.contains(usize::from(*n)),
                 Value::U16(n) => bounds.contains(usize::from(*n)),
                 Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
@@ -214,7 +216,7 @@ impl Value {
                 Value::Numeric(n) => n.matches_int_range(*bounds),
                 _ => false,
             },
-            Pattern::ZConst(z) => match self {
+            Pattern::ZConst(z) => match this {
                 Value::U8(n) => z == &BigInt::from(*n),
                 Value::U16(n) => z == &BigInt::from(*n),
                 Value::U32(n) => z == &BigInt::from(*n),
@@ -223,7 +225,7 @@ impl Value {
                 Value::Numeric(n) => n.eq_num(z),
                 _ => false,
             },
-            Pattern::ZRange(range) => match self {
+            Pattern::ZRange(range) => match this {
                 Value::U8(n) => range.contains(&BigInt::from(*n)),
                 Value::U16(n) => range.contains(&BigInt::from(*n)),
                 Value::U32(n) => range.contains(&BigInt::from(*n)),
@@ -232,8 +234,8 @@ impl Value {
                 Value::Numeric(n) => range.contains(n.as_raw_value()),
                 _ => false,
             },
-            Pattern::Char(c0) => matches!(self, Value::Char(c1) if c0 == c1),
-            Pattern::Tuple(ps) => match self {
+            Pattern::Char(c0) => matches!(this, Value::Char(c1) if c0 == c1),
+            Pattern::Tuple(ps) => match this {
                 Value::Tuple(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -244,7 +246,7 @@ impl Value {
                 }
                 _ => false,
             },
-            Pattern::Seq(ps) => match self {
+            Pattern::Seq(ps) => match this {
                 Value::Seq(vs) if ps.len() == vs.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -255,12 +257,12 @@ impl Value {
                 }
                 _ => false,
             },
-            Pattern::Variant(label0, p) => match self {
+            Pattern::Variant(label0, p) => match this {
                 Value::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Option(None) => matches!(self, Value::Option(None)),
-            Pattern::Option(Some(p)) => match self {
+            Pattern::Option(None) => matches!(this, Value::Option(None)),
+            Pattern::Option(Some(p)) => match this {
                 Value::Option(Some(v)) => v.matches_inner(scope, p),
                 _ => false,
             },
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index aede7e3..28449b6 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -364,37 +364,55 @@ impl ParsedValue {
     }
 
     pub fn matches_inner(&self, scope: &mut LocMultiScope<'_>, pattern: &Pattern) -> bool {
+        // literal and structural patterns look through any wrapper, at every depth
+        let this = self.coerce_nominal_value();
         match pattern {
             Pattern::Binding(name) => {
                 scope.push(name.clone(), self.clone());
                 true
             }
             Pattern::Wildcard => true,
-            Pattern::Bool(b0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::Bool(b0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::Bool(b1),
                     ..
                 }) if b0 == b1),
-            Pattern::U8(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U8(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U16(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U16(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U32(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U32(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::U64(i0) => matches!(self, ParsedValue::Flat(Parsed {
-                    inner: Value::U64(i1),
-                    ..
-                }) if i0 == i1),
-            Pattern::Char(c0) => matches!(self, ParsedValue::Flat(Parsed {
+            Pattern::U8(i0) => match this {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U8(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u8(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U16(i0) => match this {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U16(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u16(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U32(i0) => match this {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U32(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u32(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::U64(i0) => match this {
+                ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
+                    Value::U64(i1) => i0 == i1,
+                    Value::Numeric(n) => n.matches_u64(*i0),
+                    _ => false,
+                },
+                _ => false,
+            },
+            Pattern::Char(c0) => matches!(this, ParsedValue::Flat(Parsed {
                     inner: Value::Char(c1),
                     ..
                 }) if c0 == c1),
-            Pattern::Tuple(ps) => match self {
+            Pattern::Tuple(ps) => match this {
                 ParsedValue::Tuple(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -405,7 +423,7 @@ impl ParsedValue {
                 }
                 _ => false,
             },
-            Pattern::Seq(ps) => match self {
+            Pattern::Seq(ps) => match this {
                 ParsedValue::Seq(vs) if ps.len() == vs.inner.len() => {
                     for (p, v) in Iterator::zip(ps.iter(), vs.inner.iter()) {
                         if !v.matches_inner(scope, p) {
@@ -416,27 +434,28 @@ impl ParsedValue {
                 }
                 _ => false,
             },
-            Pattern::Variant(label0, p) => match self {
+            Pattern::Variant(label0, p) => match this {
                 ParsedValue::Variant(label1, v) if label0 == label1 => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Option(None) => matches!(self, ParsedValue::Option(None)),
-            Pattern::Option(Some(p)) => match self {
+            Pattern::Option(None) => matches!(this, ParsedValue::Option(None)),
+            Pattern::Option(Some(p)) => match this {
                 ParsedValue::Option(Some(v)) => v.matches_inner(scope, p),
                 _ => false,
             },
-            Pattern::Int(bounds) => match self {
+            Pattern::Int(bounds) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => bounds.contains(usize::from(*n)),
                     Value::U16(n) => bounds.contains(usize::from(*n)),
                     Value::U32(n) => bounds.contains(usize::try_from(*n).unwrap()),
                     Value::U64(n) => bounds.contains(usize::try_from(*n).unwrap()),
                     Value::Usize(n) => bounds.contains(*n),
+                    Value::Numeric(n) => n.matches_int_range(*bounds),
                     _ => false,
                 },
                 _ => false,
             },
-            Pattern::ZConst(z) => match self {
+            Pattern::ZConst(z) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => z == &BigInt::from(*n),
                     Value::U16(n) => z == &BigInt::from(*n),
@@ -448,7 +467,7 @@ impl ParsedValue {
                 },
                 _ => false,
             },
-            Pattern::ZRange(bounds) => match self {
+            Pattern::ZRange(bounds) => match this {
                 ParsedValue::Flat(Parsed { inner: v, .. }) => match v {
                     Value::U8(n) => bounds.contains(&BigInt::from(*n)),
                     Value::U16(n) => bounds.contains(&BigInt::from(*n)),
@@ -479,6 +498,17 @@ impl ParsedValue {
         ParsedValue::Record(Parsed { loc, inner: fields })
     }
 
+    /// Version of `coerce_mapped_value` that also unwraps the fallback value of a `Permit`, for
+    /// pattern-matching purposes.
+    pub(crate) fn coerce_nominal_value(&self) -> &Self {
+        match self {
+            ParsedValue::Permit(Ok(v) | Err(Some(v))) => v.coerce_nominal_value(),
+            ParsedValue::Mapped(_orig, v) => v.coerce_nominal_value(),
+            ParsedValue::Branch(_n, v) => v.coerce_nominal_value(),
+            v => v,
+        }
+    }
+
     pub(crate) fn coerce_mapped_value(&self) -> &Self {
         match self {
             ParsedValue::Mapped(_orig, v) => v.coerce_mapped_value(),
@@ -579,7 +609,7 @@ impl ParsedValue {
 
     fn matches<'a>(&self, scope: &'a LocScope<'a>, pattern: &Pattern) -> Option<LocMultiScope<'a>> {
         let mut pattern_scope = LocMultiScope::new(scope);
-        self.coerce_mapped_value()
+        self.coerce_nominal_value()
             .matches_inner(&mut pattern_scope, pattern)
             .then_some(pattern_scope)
     }
-- 
2.43.0


From d56e347eb63155f913832a92f610aa7b26523d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:47 +0000
Subject: [PATCH 13/27] fix: an oversized advance or slice is an overrun, not
 an arithmetic overflow

ByteOffset::increment_by added lengths taken from the input unchecked, so that a
64-bit length panicked (or wrapped around and moved backwards in release builds).
---
 src/parser/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index e4728dc..e144be8 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -70,13 +70,13 @@ impl ByteOffset {
 
     pub(crate) fn increment_by(&self, delta: usize) -> Self {
         match *self {
-            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes + delta),
+            ByteOffset::Bytes(n_bytes) => Self::Bytes(n_bytes.saturating_add(delta)),
             ByteOffset::Bits {
                 starting_byte,
                 bits_advanced,
             } => Self::Bits {
                 starting_byte,
-                bits_advanced: bits_advanced + delta,
+                bits_advanced: bits_advanced.saturating_add(delta),
             },
         }
     }
-- 
2.43.0


From a81cdc6d0e0d6475dcf336e1fbb0b1fb48638f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:47 +0000
Subject: [PATCH 14/27] fix: bit-by-bit reads stop at the end of a byte slice

Comparing a bit offset with a byte offset in the same byte is undecided, so up to
seven bits past the limit could be read (and remaining() then panicked).
---
 src/parser/mod.rs    |  2 +-
 src/parser/offset.rs | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0634c82..51a0ab7 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -225,7 +225,7 @@ impl<'a> Parser<'a> {
         let _current_offset = self.offset.get_current_offset();
         let end = _current_offset.increment_by(size);
         let current_limit = self.offset.current_limit();
-        if end > current_limit {
+        if end.exceeds(&current_limit) {
             return Err(ParseError::InternalError(StateError::UnstackableSlices {
                 current_offset: _current_offset,
                 current_limit,
diff --git a/src/parser/offset.rs b/src/parser/offset.rs
index e144be8..8510b2c 100644
--- a/src/parser/offset.rs
+++ b/src/parser/offset.rs
@@ -81,6 +81,13 @@ impl ByteOffset {
         }
     }
 
+    /// Returns `true` if `self` lies strictly past `limit`, regardless of the modality of either.
+    pub(crate) fn exceeds(&self, limit: &Self) -> bool {
+        let (n, bit) = self.as_bytes();
+        let (max_n, max_bit) = limit.as_bytes();
+        (n, bit.unwrap_or(0)) > (max_n, max_bit.unwrap_or(0))
+    }
+
     /// Increments `self` by `delta` unconditionally, returning the old value
     /// of `self` before the offset.
     pub(crate) fn increment_assign_by(&mut self, delta: usize) -> Self {
@@ -473,7 +480,7 @@ impl BufferOffset {
 
         match slice_limit {
             Some(max_offset) => {
-                if after_increment > max_offset {
+                if after_increment.exceeds(&max_offset) {
                     return Err(ParseError::Overrun(OverrunKind::EndOfSlice {
                         offset: after_increment,
                         max_offset,
@@ -481,7 +488,7 @@ impl BufferOffset {
                 }
             }
             None => {
-                if after_increment > self.max_offset {
+                if after_increment.exceeds(&self.max_offset) {
                     return Err(ParseError::Overrun(OverrunKind::EndOfStream {
                         offset: after_increment,
                         max_offset: self.max_offset,
-- 
2.43.0


From ffcce0ed3ad3c1afd243a61a0be5684311b57fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:06 +0000
Subject: [PATCH 15/27] fix: skip_remainder keeps the parser in bits-mode

It jumped to the limit of the enclosing slice or buffer in whatever modality that
was recorded, so that leaving bits-mode afterwards failed.
---
 src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 51a0ab7..b011606 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,7 +107,8 @@ impl<'a> Parser<'a> {
     }
 
     pub fn skip_remainder(&mut self) {
-        let after_skip = self.offset.current_limit();
+        // NOTE - counting from the current offset keeps the modality we are in
+        let after_skip = self.get_current_offset().increment_by(self.remaining());
         unsafe {
             self.offset.set_offset(after_skip);
         }
-- 
2.43.0


From 61e82065e6921b2c29d28613b75ec7dee757459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:38 +0000
Subject: [PATCH 16/27] fix: oversized element counts and lengths are reported,
 not overflowed

The sizes that readers compute from a caller's count or length (often a 64-bit field
of the input) overflowed instead of failing the bounds check.
---
 smallsorts/src/binary/read.rs | 6 +++---
 src/parser/view.rs            | 6 ++++--
 src/read.rs                   | 2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 2e28c02..9153112 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -537,7 +537,7 @@ impl<'a> ReadCtxt<'a> {
         &mut self,
         length: usize,
     ) -> Result<ReadArray<'a, T>, ParseError> {
-        let scope = self.read_scope(length * T::SIZE)?;
+        let scope = self.read_scope(length.saturating_mul(T::SIZE))?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -555,7 +555,7 @@ impl<'a> ReadCtxt<'a> {
         if T::SIZE > stride {
             return Err(ParseError::BadValue);
         }
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.saturating_mul(stride))?;
         let args = ();
         Ok(ReadArray {
             scope,
@@ -592,7 +592,7 @@ impl<'a> ReadCtxt<'a> {
         args: T::Args<'a>,
     ) -> Result<ReadArray<'a, T>, ParseError> {
         let stride = T::size(args);
-        let scope = self.read_scope(length * stride)?;
+        let scope = self.read_scope(length.saturating_mul(stride))?;
         Ok(ReadArray {
             scope,
             length,
diff --git a/src/parser/view.rs b/src/parser/view.rs
index f1063e5..b69313e 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -37,7 +37,7 @@ impl<'a> View<'a> {
     pub fn offset(&self, offset: usize) -> Result<Self, DoodleParseError> {
         if offset > self.buffer.len() {
             Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                offset: ByteOffset::from_bytes(self.start_offset + offset),
+                offset: ByteOffset::from_bytes(self.start_offset.saturating_add(offset)),
                 max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
             }))
         } else {
@@ -60,7 +60,9 @@ impl<'a> View<'a> {
             Err(e) => match e {
                 AllSortsParseError::BadEof => {
                     Err(DoodleParseError::Overrun(OverrunKind::EndOfStream {
-                        offset: ByteOffset::from_bytes(self.start_offset + len * size),
+                        offset: ByteOffset::from_bytes(
+                            self.start_offset.saturating_add(len.saturating_mul(size)),
+                        ),
                         max_offset: ByteOffset::from_bytes(self.start_offset + self.buffer.len()),
                     }))
                 }
diff --git a/src/read.rs b/src/read.rs
index 49a348b..0adf6de 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -47,7 +47,7 @@ impl<'a> ReadCtxt<'a> {
     /// Returns `None` if the specified position is out of bounds, i.e., if `offset + n`
     /// exceeds the length of the input.
     pub fn split_at(&self, n: usize) -> Option<(ReadCtxt<'a>, ReadCtxt<'a>)> {
-        if self.offset + n <= self.input.len() {
+        if n <= self.input.len() - self.offset {
             let fst = ReadCtxt {
                 input: &self.input[..self.offset + n],
                 ..*self
-- 
2.43.0


From 48fed583ea69a06d13dfaaa76668e32456566f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:06 +0000
Subject: [PATCH 17/27] fix: ReadArray::read_item honours the stride, and its
 iterator counts what is left

read_item(i) of a strided array read element i as if the array were packed, unlike
get_item and iter; size_hint (an ExactSizeIterator) ignored the items already taken.
---
 smallsorts/src/binary/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smallsorts/src/binary/read.rs b/smallsorts/src/binary/read.rs
index 9153112..4cf3267 100644
--- a/smallsorts/src/binary/read.rs
+++ b/smallsorts/src/binary/read.rs
@@ -658,7 +658,7 @@ impl<'a, T: ReadFixedSizeDep> ReadArray<'a, T> {
     pub fn read_item(&self, index: usize) -> Result<T::HostType<'a>, ParseError> {
         if index < self.length {
             let size = T::size(self.args);
-            let offset = index * size;
+            let offset = index * self.stride;
             let scope = self.scope.offset_length(offset, size).unwrap();
             let mut ctxt = scope.ctxt();
             T::read_dep(&mut ctxt, self.args)
@@ -814,7 +814,7 @@ impl<'a, 'b, T: ReadUnchecked> Iterator for ReadArrayIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.scope.data().len() / self.stride;
+        let remaining = (self.scope.data().len() / self.stride).saturating_sub(self.index);
         (remaining, Some(remaining))
     }
 }
-- 
2.43.0


From 07684ddf1c54387ecf29323979f07f9e9f60836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:54 +0000
Subject: [PATCH 18/27] fix: a Match that no pattern covers fails the parse
 instead of panicking

Format::Match often scrutinises a field of the input, so a damaged file could bring
down both interpreters and the generated decoders. They now report NoValidBranch and
ExcludedBranch, as an uncovered union does; generated/gencode.rs is regenerated.
---
 generated/gencode.rs        | 1998 +++++++++++++++++------------------
 src/codegen/mod.rs          |    6 +-
 src/codegen/rust_ast/mod.rs |    1 +
 src/decoder.rs              |    9 +-
 src/loc_decoder.rs          |    8 +-
 5 files changed, 1011 insertions(+), 1011 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 54f6dc0..fe1e51e 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -10814,8 +10814,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10829,8 +10829,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10844,8 +10844,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10859,8 +10859,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10874,8 +10874,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10889,8 +10889,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(5673845796627816005u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10905,8 +10905,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14591018267292443527u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10920,8 +10920,8 @@ view_input.end_slice()?;
 ret
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(4762692522317026931u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -11295,7 +11295,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(9630069758457681762u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11407,7 +11407,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12652804269632162478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
 inner
 }
 };
@@ -11423,7 +11423,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18134882366868794706u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
 inner
 }
 };
@@ -11444,7 +11444,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(14677505873656710393u64));
 }
 };
 let arg1 = {
@@ -11452,7 +11452,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(10102114574336663273u64));
 }
 };
 let arg2 = {
@@ -11460,7 +11460,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(4386762582485017400u64));
 }
 };
 let arg3 = {
@@ -11468,7 +11468,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(8893850231119365992u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11489,7 +11489,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4762692522317026931u64));
+return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11604,7 +11604,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9630069758457681762u64));
+return Err(ParseError::FalsifiedWhere(11052099086134529863u64));
 }
 };
 let glyph_data_format = {
@@ -11619,7 +11619,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
 inner
 }
 };
@@ -11640,7 +11640,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -11656,7 +11656,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14677505873656710393u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -11743,7 +11743,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10102114574336663273u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -11759,7 +11759,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4386762582485017400u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -11775,7 +11775,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
 inner
 }
 };
@@ -11791,7 +11791,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -11809,7 +11809,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
 inner
 }
 };
@@ -12287,8 +12287,8 @@ accum
 opentype_loca_table_offsets::Offsets32(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(8987822076696059625u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12391,7 +12391,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
 inner
 }
 };
@@ -12407,7 +12407,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(980800817911480223u64));
+return Err(ParseError::FalsifiedWhere(1977899765720151190u64));
 }
 };
 let horiz_axis_offset = {
@@ -12455,7 +12455,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12501,7 +12501,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(7801539417877429212u64));
+return Err(ParseError::FailToken(12890902517277365935u64));
 },
 
 2u16 => {
@@ -12584,7 +12584,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12645,7 +12645,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -12704,7 +12704,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -12720,7 +12720,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -12736,7 +12736,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
 inner
 }
 };
@@ -12771,7 +12771,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -12787,7 +12787,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -12803,7 +12803,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7343323033370781545u64));
+return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
 }
 };
 {
@@ -12818,7 +12818,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -12838,7 +12838,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -12873,7 +12873,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -12889,7 +12889,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -12976,7 +12976,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -12992,7 +12992,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13047,7 +13047,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13063,7 +13063,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13079,7 +13079,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
 inner
 }
 };
@@ -13095,7 +13095,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13138,7 +13138,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13162,7 +13162,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2818918064991511645u64));
+return Err(ParseError::FalsifiedWhere(2154669163482751322u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13182,7 +13182,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
 inner
 }
 };
@@ -13217,7 +13217,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13233,7 +13233,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
 inner
 }
 };
@@ -13286,7 +13286,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13302,7 +13302,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13389,7 +13389,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
 inner
 }
 };
@@ -13405,7 +13405,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -13421,7 +13421,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
 inner
 }
 };
@@ -13437,7 +13437,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -13455,7 +13455,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
 inner
 }
 };
@@ -13522,7 +13522,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
 inner
 }
 };
@@ -13563,7 +13563,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
 inner
 }
 };
@@ -13583,7 +13583,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16097120758067046920u64));
+return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
 }
 };
 let records = {
@@ -13619,7 +13619,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13639,7 +13639,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14959848987246965519u64));
+return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
 }
 };
 let ratio_range = {
@@ -13763,7 +13763,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14751251992141172493u64));
 inner
 }
 };
@@ -13779,7 +13779,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
 inner
 }
 };
@@ -13854,7 +13854,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10502127387712395480u64));
+return Err(ParseError::FalsifiedWhere(8997881400116719018u64));
 }
 };
 let data = match format {
@@ -14017,8 +14017,8 @@ opentype_stat_axis_value_table_data_Format4 { axis_count, flags, value_name_id,
 opentype_stat_axis_value_table_data::Format4(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(13614619987783239962u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14044,7 +14044,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -14076,7 +14076,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(5322124757500927073u64));
+return Err(ParseError::FailToken(6949960292533894002u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14230,7 +14230,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1347174710810305478u64));
 inner
 }
 };
@@ -14267,7 +14267,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
 inner
 }
 };
@@ -14383,7 +14383,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3433937857563719729u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 };
 _input.close_peek_context()?;
@@ -14468,7 +14468,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13516986665125759073u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 }
 };
 let ix1 = {
@@ -14476,7 +14476,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14751251992141172493u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 vec![ix0, ix1]
@@ -14546,7 +14546,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733880678136728614u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 _input.close_peek_context()?;
@@ -14559,7 +14559,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8997881400116719018u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 accum.push(next_elem)
@@ -14574,7 +14574,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14599,7 +14599,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6915530142412472120u64));
+return Err(ParseError::ExcludedBranch(17670535809278048255u64));
 }
 };
 _input.close_peek_context()?;
@@ -14612,7 +14612,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6949960292533894002u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 };
 accum.push(next_elem)
@@ -14627,7 +14627,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1347174710810305478u64));
+return Err(ParseError::ExcludedBranch(1278184758971178969u64));
 }
 };
 chars.clone()
@@ -14733,8 +14733,8 @@ let inner = (Decoder_deflate_dynamic_huffman(_input))?;
 deflate_block_data::dynamic_huffman(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -15870,7 +15870,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+return Err(ParseError::ExcludedBranch(3426398976290336157u64));
 }
 }))
 },
@@ -16022,11 +16022,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(8390724546948265409u64));
+return Err(ParseError::FailToken(11250208753083412758u64));
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17349123374714965876u64));
 }
 })
 }
@@ -16103,8 +16103,8 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 (bits.0 as u16) | (bits.1 as u16) << 1u16 | (bits.2 as u16) << 2u16 | (bits.3 as u16) << 3u16 | (bits.4 as u16) << 4u16 | (bits.5 as u16) << 5u16 | (bits.6 as u16) << 6u16 | (bits.7 as u16) << 7u16 | (bits.8 as u16) << 8u16 | (bits.9 as u16) << 9u16 | (bits.10 as u16) << 10u16 | (bits.11 as u16) << 11u16 | (bits.12 as u16) << 12u16
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16157,7 +16157,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6347242493551283856u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
 inner
 }
 };
@@ -16223,7 +16223,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4251627061094365437u64));
+return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
 }
 };
 let variation_regions = {
@@ -16396,7 +16396,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11915580511665106140u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
 inner
 }
 };
@@ -16417,8 +16417,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u32be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(8700288293163706751u64));
 }
 };
 let map_data = {
@@ -16480,7 +16480,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17324980155911269375u64));
+return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
 }
 };
 let tuple_variation_headers = {
@@ -16673,7 +16673,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(18279137173405083757u64));
 }
 };
 _input.close_peek_context()?;
@@ -16687,7 +16687,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(13846498452079501214u64));
 }
 };
 (0u16, [].to_vec())
@@ -16699,7 +16699,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(9798710097031164942u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16711,7 +16711,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(9819345728844658158u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16719,7 +16719,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12879845237981630531u64));
+return Err(ParseError::ExcludedBranch(14954891776835932150u64));
 }
 })
 }
@@ -16849,7 +16849,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
 inner
 }
 };
@@ -16998,7 +16998,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11250208753083412758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
 inner
 }
 };
@@ -17014,7 +17014,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
 inner
 }
 };
@@ -17070,7 +17070,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2153064741293804702u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
 inner
 }
 };
@@ -17086,7 +17086,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
 inner
 }
 };
@@ -17228,7 +17228,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
 }
 };
 let table_scope = table_view;
@@ -17244,7 +17244,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7744051144774795087u64));
+return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
 }
 };
 let extension_offset = {
@@ -17297,11 +17297,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(8700288293163706751u64));
+return Err(ParseError::FailToken(11323981950571132721u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(16771529512960957239u64));
+return Err(ParseError::FailToken(1179945139148562335u64));
 }
 })
 }
@@ -17325,7 +17325,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(13846498452079501214u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17371,8 +17371,8 @@ opentype_layout_multiple_subst_subst_Format1 { sequence_count, sequence_offsets,
 opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(6821845925776570829u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17394,7 +17394,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9798710097031164942u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let coverage = {
@@ -17443,7 +17443,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9819345728844658158u64));
+return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
 }
 };
 let coverage = {
@@ -17501,7 +17501,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(18279137173405083757u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17532,7 +17532,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14954891776835932150u64));
+return Err(ParseError::FailToken(3675496117133668659u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17553,7 +17553,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11046436797737227751u64));
+return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
 }
 };
 let table_scope = table_view;
@@ -17684,7 +17684,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(14984809111992638634u64));
+return Err(ParseError::FailToken(8327471529801851430u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17932,7 +17932,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9342187932533045817u64));
+return Err(ParseError::FailToken(10310785543736156275u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18174,7 +18174,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13404710972790825894u64));
+return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
 }
 };
 let seq_lookup_count = {
@@ -18412,7 +18412,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16529910322175208638u64));
 inner
 }
 };
@@ -18561,7 +18561,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
 }
 };
 let table_scope = table_view;
@@ -18577,7 +18577,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
 }
 };
 let extension_offset = {
@@ -18635,11 +18635,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(1369437808023015077u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(163858356033350300u64));
 }
 })
 }
@@ -18663,7 +18663,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(888161872995526095u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18688,7 +18688,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6821845925776570829u64));
+return Err(ParseError::FailToken(4770836931378141069u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18709,7 +18709,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
 }
 };
 let table_scope = table_view;
@@ -18751,7 +18751,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
 }
 };
 let table_scope = table_view;
@@ -18810,7 +18810,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9179996462972575343u64));
+return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
 }
 };
 let mark_coverage = {
@@ -18867,7 +18867,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
+return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
 }
 };
 let table_scope = table_view;
@@ -19025,7 +19025,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6495907546257147840u64));
+return Err(ParseError::FailToken(1386817607731947864u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19173,7 +19173,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8327471529801851430u64));
+return Err(ParseError::ExcludedBranch(4795509455376621436u64));
 }
 };
 let arg1 = {
@@ -19181,7 +19181,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10310785543736156275u64));
+return Err(ParseError::ExcludedBranch(3923207427992258326u64));
 }
 };
 (arg0, arg1)
@@ -20119,7 +20119,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16594239496794104967u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
 inner
 }
 };
@@ -20210,7 +20210,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(16529910322175208638u64));
+return Err(ParseError::FailToken(15995337135637623051u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20459,7 +20459,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(12187643960709778443u64));
+return Err(ParseError::FailToken(4063460887563813446u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20523,7 +20523,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8766708729375264031u64));
+return Err(ParseError::FailToken(10243418979491025991u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21172,7 +21172,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
+return Err(ParseError::FalsifiedWhere(6726475111737435495u64));
 }
 };
 let max_twilight_points = {
@@ -21215,7 +21215,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(163858356033350300u64));
+return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21310,8 +21310,8 @@ let inner = (Decoder_opentype_cmap_subtable_format14(_input, table_view))?;
 opentype_cmap_subtable_data::Format14(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14926982082392674388u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21334,7 +21334,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(888161872995526095u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -21359,7 +21359,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4770836931378141069u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
 inner
 }
 };
@@ -21402,7 +21402,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9976720501248819272u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21417,7 +21417,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21438,7 +21438,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5446531490235636452u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -21454,7 +21454,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
 }
 };
 let language = {
@@ -21575,7 +21575,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1386817607731947864u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -21600,7 +21600,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4795509455376621436u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21654,7 +21654,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3923207427992258326u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21735,7 +21735,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21786,7 +21786,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15995337135637623051u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21802,7 +21802,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4063460887563813446u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21827,7 +21827,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21843,7 +21843,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -21898,7 +21898,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -21914,7 +21914,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14926982082392674388u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -21939,7 +21939,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -21955,7 +21955,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -22009,7 +22009,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -22025,7 +22025,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -22050,7 +22050,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -22066,7 +22066,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -22113,7 +22113,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -22129,7 +22129,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22154,7 +22154,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
 inner
 }
 };
@@ -22170,7 +22170,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
 inner
 }
 };
@@ -22217,7 +22217,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
 inner
 }
 };
@@ -22242,7 +22242,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
 inner
 }
 };
@@ -22409,7 +22409,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5170050512307443704u64));
+return Err(ParseError::FalsifiedWhere(4649034608147552416u64));
 })
 }
 
@@ -22426,8 +22426,8 @@ let inner = (Decoder251(_input, is_be))?;
 elf_types_elf_full::Full64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
 }
 })
 }
@@ -22445,8 +22445,8 @@ let inner = (Decoder250(_input, is_be))?;
 elf_types_elf_addr::Addr64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 })
 }
@@ -22464,8 +22464,8 @@ let inner = (Decoder248(_input, is_be))?;
 elf_types_elf_off::Off64(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 })
 }
@@ -22595,7 +22595,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18440348483137307888u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
 let arg1 = {
@@ -22603,7 +22603,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11309019127259385425u64));
+return Err(ParseError::ExcludedBranch(12668500753644823654u64));
 }
 };
 let arg2 = {
@@ -22611,7 +22611,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5159371628350638829u64));
+return Err(ParseError::ExcludedBranch(8094248233631264621u64));
 }
 };
 let arg3 = {
@@ -22619,7 +22619,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7762269623995317946u64));
+return Err(ParseError::ExcludedBranch(1844274570107701975u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22651,7 +22651,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16134612799304961491u64));
+return Err(ParseError::ExcludedBranch(4839194687019048322u64));
 }
 };
 accum.push(next_elem)
@@ -22674,7 +22674,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5308477118997970057u64));
+return Err(ParseError::FalsifiedWhere(7230273548678969972u64));
 })
 }
 
@@ -22693,7 +22693,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16190528142421852545u64));
+return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
 })
 }
 
@@ -22723,7 +22723,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(173922233423713068u64));
+return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
 })
 }
 
@@ -22737,7 +22737,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12540117573097456360u64));
+return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
 })
 }
 
@@ -22751,7 +22751,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(515819609734101411u64));
+return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
 })
 }
 
@@ -22812,7 +22812,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9277543013594125416u64));
+return Err(ParseError::ExcludedBranch(15510952803379905659u64));
 }
 };
 _input.close_peek_context()?;
@@ -22825,7 +22825,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5955168674639093440u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
 accum.push(next_elem)
@@ -22858,7 +22858,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4471438437047399494u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
 accum.push(next_elem)
@@ -22893,7 +22893,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319523888327217639u64));
+return Err(ParseError::ExcludedBranch(16474038368490899078u64));
 }
 };
 _input.close_peek_context()?;
@@ -22906,7 +22906,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(824589811577025210u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
 accum.push(next_elem)
@@ -22939,7 +22939,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4649034608147552416u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
 accum.push(next_elem)
@@ -22974,7 +22974,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(7832192330748800109u64));
 }
 };
 _input.close_peek_context()?;
@@ -22987,7 +22987,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(9815657591077818003u64));
 }
 };
 accum.push(next_elem)
@@ -23020,7 +23020,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
 accum.push(next_elem)
@@ -23043,10 +23043,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(16624020278885696461u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8094248233631264621u64)
+try_sub!(bit as u8, 48u8, 8179432974518885725u64)
 };
 let _o9 = {
 let bit = {
@@ -23054,10 +23054,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(5152282179373241998u64));
 }
 };
-try_sub!(bit as u8, 48u8, 7230273548678969972u64)
+try_sub!(bit as u8, 48u8, 16909208071962620789u64)
 };
 let _o8 = {
 let bit = {
@@ -23065,10 +23065,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14903563845775542749u64));
+return Err(ParseError::ExcludedBranch(7933266403838225878u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9038350950373664822u64)
+try_sub!(bit as u8, 48u8, 9041056097467752267u64)
 };
 let _o7 = {
 let bit = {
@@ -23076,10 +23076,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7281717462557989541u64));
+return Err(ParseError::ExcludedBranch(5025197102194587315u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14681668243282477517u64)
+try_sub!(bit as u8, 48u8, 15252450768049745444u64)
 };
 let _o6 = {
 let bit = {
@@ -23087,10 +23087,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(5599331855309773603u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12217686503432178884u64)
+try_sub!(bit as u8, 48u8, 2988545765690796708u64)
 };
 let _o5 = {
 let bit = {
@@ -23098,10 +23098,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(6215067399528787845u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9815657591077818003u64)
+try_sub!(bit as u8, 48u8, 3566920116549027235u64)
 };
 let _o4 = {
 let bit = {
@@ -23109,10 +23109,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(7979287392867129207u64));
 }
 };
-try_sub!(bit as u8, 48u8, 14485842416732585139u64)
+try_sub!(bit as u8, 48u8, 16671136947067655757u64)
 };
 let _o3 = {
 let bit = {
@@ -23120,10 +23120,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8179432974518885725u64));
+return Err(ParseError::ExcludedBranch(10721249873135158334u64));
 }
 };
-try_sub!(bit as u8, 48u8, 13780055874544357936u64)
+try_sub!(bit as u8, 48u8, 441240706992005484u64)
 };
 let _o2 = {
 let bit = {
@@ -23131,10 +23131,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16909208071962620789u64));
+return Err(ParseError::ExcludedBranch(3950014938140253048u64));
 }
 };
-try_sub!(bit as u8, 48u8, 12100308281236296642u64)
+try_sub!(bit as u8, 48u8, 11079395374415646537u64)
 };
 let _o1 = {
 let bit = {
@@ -23142,10 +23142,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9041056097467752267u64));
+return Err(ParseError::ExcludedBranch(757122060916971772u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3810055094392728880u64)
+try_sub!(bit as u8, 48u8, 8812292064350598352u64)
 };
 let _o0 = {
 let bit = {
@@ -23153,10 +23153,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15252450768049745444u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16437491640759399344u64)
+try_sub!(bit as u8, 48u8, 4316175446384649956u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23184,7 +23184,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2988545765690796708u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 _input.close_peek_context()?;
@@ -23197,7 +23197,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 accum.push(next_elem)
@@ -23230,7 +23230,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17176374570344757031u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 accum.push(next_elem)
@@ -23265,7 +23265,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3566920116549027235u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 _input.close_peek_context()?;
@@ -23278,7 +23278,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 accum.push(next_elem)
@@ -23311,7 +23311,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3653195934333285574u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 accum.push(next_elem)
@@ -23340,7 +23340,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16671136947067655757u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 let arg1 = {
@@ -23348,7 +23348,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 let arg2 = {
@@ -23356,7 +23356,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8898504689444561451u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 let arg3 = {
@@ -23364,7 +23364,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(441240706992005484u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 let arg4 = {
@@ -23372,7 +23372,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 let arg5 = {
@@ -23380,7 +23380,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10046433636842398056u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23391,7 +23391,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11079395374415646537u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 let arg1 = {
@@ -23399,7 +23399,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 (arg0, arg1)
@@ -23438,7 +23438,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5986772336072340665u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 _input.close_peek_context()?;
@@ -23451,7 +23451,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8812292064350598352u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 accum.push(next_elem)
@@ -23484,7 +23484,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 accum.push(next_elem)
@@ -23519,7 +23519,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2908689796368760670u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 _input.close_peek_context()?;
@@ -23532,7 +23532,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4316175446384649956u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 accum.push(next_elem)
@@ -23565,7 +23565,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 }
 };
 accum.push(next_elem)
@@ -23595,7 +23595,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23626,7 +23626,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 _input.close_peek_context()?;
@@ -23641,7 +23641,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 accum.push(next_elem)
@@ -23674,7 +23674,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem)
@@ -23693,7 +23693,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 })
 }
 
@@ -23715,7 +23715,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 _input.close_peek_context()?;
@@ -23728,7 +23728,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 accum.push(next_elem)
@@ -23760,7 +23760,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 accum.push(next_elem)
@@ -23791,7 +23791,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 _input.close_peek_context()?;
@@ -23804,7 +23804,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 accum.push(next_elem)
@@ -23838,7 +23838,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 };
 accum.push(next_elem)
@@ -23867,7 +23867,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(15362228896620571409u64));
 }
 };
 _input.close_peek_context()?;
@@ -23881,7 +23881,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 }
 };
 let arg1 = {
@@ -23889,7 +23889,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(144820728017547457u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23901,7 +23901,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(17376845638706524656u64));
 }
 };
 let arg1 = {
@@ -23909,14 +23909,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(9452754313802575046u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(17715157964684782708u64));
 }
 })
 }
@@ -24125,7 +24125,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 })
 } else {
 None
@@ -24147,7 +24147,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1029952099207838423u64));
+return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24179,7 +24179,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17327099206515189757u64));
+return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24311,7 +24311,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14652068248613900169u64));
+return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24345,7 +24345,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3089242474000390105u64));
+return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
 }
 };
 let flags = {
@@ -24388,7 +24388,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8785324329127396734u64));
+return Err(ParseError::FalsifiedWhere(17081364943144677526u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24406,7 +24406,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 let arg1 = {
@@ -24414,7 +24414,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 let arg2 = {
@@ -24422,7 +24422,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 let arg3 = {
@@ -24430,7 +24430,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24443,7 +24443,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let arg1 = {
@@ -24451,7 +24451,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 let arg2 = {
@@ -24459,7 +24459,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let arg3 = {
@@ -24467,7 +24467,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24509,7 +24509,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg1 = {
@@ -24517,7 +24517,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 let arg2 = {
@@ -24525,7 +24525,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 let arg3 = {
@@ -24533,7 +24533,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24557,7 +24557,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 let arg1 = {
@@ -24565,7 +24565,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let arg2 = {
@@ -24573,7 +24573,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14571733789425208869u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 };
 let arg3 = {
@@ -24581,7 +24581,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6611121695530188940u64));
+return Err(ParseError::ExcludedBranch(3382972670024593436u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24612,7 +24612,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9660375186237087060u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 accum.push(next_elem)
@@ -24712,8 +24712,8 @@ accum
 png_trns::color_type_3(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 })
 }
@@ -24773,7 +24773,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11684704871632490773u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 val.clone()
@@ -24783,7 +24783,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17081364943144677526u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24841,8 +24841,8 @@ png_sbit_color_type_6 { sig_red_bits, sig_green_bits, sig_blue_bits, sig_alpha_b
 png_sbit::color_type_6(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 })
 }
@@ -24858,7 +24858,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9710347097769530785u64));
+return Err(ParseError::FalsifiedWhere(4514882359072253410u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24873,7 +24873,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 val.clone()
@@ -24883,7 +24883,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 };
 let compression_method = {
@@ -24891,7 +24891,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 let language_tag = {
@@ -24911,7 +24911,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 _input.close_peek_context()?;
@@ -24924,7 +24924,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 };
 accum.push(next_elem)
@@ -24939,7 +24939,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 chars.clone()
@@ -24951,7 +24951,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 val.clone()
@@ -25038,7 +25038,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 val.clone()
@@ -25076,7 +25076,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
 }
 };
 val.clone()
@@ -25086,7 +25086,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
 }
 };
 let compressed_text = {
@@ -25169,8 +25169,8 @@ png_trns_color_type_3 { palette_index }
 png_bkgd::color_type_3(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
 }
 })
 }
@@ -25227,7 +25227,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
 }
 };
 val.clone()
@@ -25237,7 +25237,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
 }
 };
 let palette = match sample_depth {
@@ -25323,8 +25323,8 @@ accum
 png_splt_palette::sample_depth_u16(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25829,475 +25829,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(3022274272397071746u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(14869310993580240597u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(7391010474856587818u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(7025852844623144626u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(13513276483415770047u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(1292030895245088137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(8527564631842216417u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4514882359072253410u64));
+return Err(ParseError::ExcludedBranch(10545338643554355463u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(3529321240709143928u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(9481712747994656857u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(11863749907612277673u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(8408007422644693463u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(2137824516769298342u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(17504519908837839248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(5377488665469248769u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(10179224889113195865u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(2526895115167988738u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(7617559532652678498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(4051432836859471288u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(14741532803131558705u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(10276185770177327434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(16586067667342674799u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4319635423750959827u64));
+return Err(ParseError::ExcludedBranch(2497564037439806374u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3022274272397071746u64));
+return Err(ParseError::ExcludedBranch(8400230153663738380u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14869310993580240597u64));
+return Err(ParseError::ExcludedBranch(3348696109325747597u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7391010474856587818u64));
+return Err(ParseError::ExcludedBranch(3775958429611079664u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7025852844623144626u64));
+return Err(ParseError::ExcludedBranch(15402873290357121767u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13513276483415770047u64));
+return Err(ParseError::ExcludedBranch(7699494290217942468u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1292030895245088137u64));
+return Err(ParseError::ExcludedBranch(15920470819585350103u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8527564631842216417u64));
+return Err(ParseError::ExcludedBranch(2212229856396822503u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10545338643554355463u64));
+return Err(ParseError::ExcludedBranch(13487040053473546512u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3529321240709143928u64));
+return Err(ParseError::ExcludedBranch(7142800526810245879u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9481712747994656857u64));
+return Err(ParseError::ExcludedBranch(15228292911834498078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11863749907612277673u64));
+return Err(ParseError::ExcludedBranch(14228769055716402588u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8408007422644693463u64));
+return Err(ParseError::ExcludedBranch(2096340590066926443u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2137824516769298342u64));
+return Err(ParseError::ExcludedBranch(6262990113977164585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17504519908837839248u64));
+return Err(ParseError::ExcludedBranch(16057321717383774211u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5377488665469248769u64));
+return Err(ParseError::ExcludedBranch(5291563035461819971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10179224889113195865u64));
+return Err(ParseError::ExcludedBranch(14334546370445091615u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2526895115167988738u64));
+return Err(ParseError::ExcludedBranch(18123524617814052121u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7617559532652678498u64));
+return Err(ParseError::ExcludedBranch(3966750415843992376u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4051432836859471288u64));
+return Err(ParseError::ExcludedBranch(3512844604428973098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14741532803131558705u64));
+return Err(ParseError::ExcludedBranch(14732383712267459599u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10276185770177327434u64));
+return Err(ParseError::ExcludedBranch(13357689525249598011u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16586067667342674799u64));
+return Err(ParseError::ExcludedBranch(16153196263894316997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2497564037439806374u64));
+return Err(ParseError::ExcludedBranch(11930340298772268405u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8400230153663738380u64));
+return Err(ParseError::ExcludedBranch(8442068294613883251u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3348696109325747597u64));
+return Err(ParseError::ExcludedBranch(6850311165997710199u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3775958429611079664u64));
+return Err(ParseError::ExcludedBranch(2310756498479603065u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15402873290357121767u64));
+return Err(ParseError::ExcludedBranch(5816243344835903905u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7699494290217942468u64));
+return Err(ParseError::ExcludedBranch(16915030153566842158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920470819585350103u64));
+return Err(ParseError::ExcludedBranch(5877293982949196624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2212229856396822503u64));
+return Err(ParseError::ExcludedBranch(2440323998191641952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13487040053473546512u64));
+return Err(ParseError::ExcludedBranch(3265375406401843811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7142800526810245879u64));
+return Err(ParseError::ExcludedBranch(11458871772722170518u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15228292911834498078u64));
+return Err(ParseError::ExcludedBranch(12156808917241975156u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14228769055716402588u64));
+return Err(ParseError::ExcludedBranch(15301408058960503169u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2096340590066926443u64));
+return Err(ParseError::ExcludedBranch(4255813677013328811u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6262990113977164585u64));
+return Err(ParseError::ExcludedBranch(7761201277159812979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16057321717383774211u64));
+return Err(ParseError::ExcludedBranch(15409834313606096443u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5291563035461819971u64));
+return Err(ParseError::ExcludedBranch(7572218778908935167u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14334546370445091615u64));
+return Err(ParseError::ExcludedBranch(12520942526725743695u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18123524617814052121u64));
+return Err(ParseError::ExcludedBranch(5905249956584638130u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3966750415843992376u64));
+return Err(ParseError::ExcludedBranch(8609603324479018835u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3512844604428973098u64));
+return Err(ParseError::ExcludedBranch(8973115486793444912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14732383712267459599u64));
+return Err(ParseError::ExcludedBranch(2872401692234135189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13357689525249598011u64));
+return Err(ParseError::ExcludedBranch(3556125603266802472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16153196263894316997u64));
+return Err(ParseError::ExcludedBranch(16173438081116718978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11930340298772268405u64));
+return Err(ParseError::ExcludedBranch(3532284049956758497u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8442068294613883251u64));
+return Err(ParseError::ExcludedBranch(1214015012285792661u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6850311165997710199u64));
+return Err(ParseError::ExcludedBranch(18287039256282529512u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2310756498479603065u64));
+return Err(ParseError::ExcludedBranch(6040541316788286267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5816243344835903905u64));
+return Err(ParseError::ExcludedBranch(6926344996361682930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16915030153566842158u64));
+return Err(ParseError::ExcludedBranch(1335666833550050804u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5877293982949196624u64));
+return Err(ParseError::ExcludedBranch(12949211704949756849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2440323998191641952u64));
+return Err(ParseError::ExcludedBranch(4317621489266312319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3265375406401843811u64));
+return Err(ParseError::ExcludedBranch(868434092978367357u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11458871772722170518u64));
+return Err(ParseError::ExcludedBranch(496554245154466536u64));
 }
 };
 _input.close_peek_context()?;
@@ -26312,7 +26312,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12156808917241975156u64));
+return Err(ParseError::ExcludedBranch(8244423856248085319u64));
 }
 };
 accum.push(next_elem)
@@ -26807,475 +26807,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15301408058960503169u64));
+return Err(ParseError::ExcludedBranch(14587337454519331439u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4255813677013328811u64));
+return Err(ParseError::ExcludedBranch(17469688165057057832u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7761201277159812979u64));
+return Err(ParseError::ExcludedBranch(17175946860967673146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15409834313606096443u64));
+return Err(ParseError::ExcludedBranch(4411296728399804345u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7572218778908935167u64));
+return Err(ParseError::ExcludedBranch(13980028702310773940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12520942526725743695u64));
+return Err(ParseError::ExcludedBranch(4312000683241916062u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5905249956584638130u64));
+return Err(ParseError::ExcludedBranch(3334424754000117797u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8609603324479018835u64));
+return Err(ParseError::ExcludedBranch(527013363415661133u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8973115486793444912u64));
+return Err(ParseError::ExcludedBranch(4717292700030555590u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2872401692234135189u64));
+return Err(ParseError::ExcludedBranch(653172816195928449u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3556125603266802472u64));
+return Err(ParseError::ExcludedBranch(581976537271693173u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173438081116718978u64));
+return Err(ParseError::ExcludedBranch(10727170711560529872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3532284049956758497u64));
+return Err(ParseError::ExcludedBranch(17095884813960222885u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1214015012285792661u64));
+return Err(ParseError::ExcludedBranch(974442582679666596u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18287039256282529512u64));
+return Err(ParseError::ExcludedBranch(4054889295781446756u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6040541316788286267u64));
+return Err(ParseError::ExcludedBranch(14775695284177607002u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6926344996361682930u64));
+return Err(ParseError::ExcludedBranch(6914153644311469309u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1335666833550050804u64));
+return Err(ParseError::ExcludedBranch(11188141958235814565u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12949211704949756849u64));
+return Err(ParseError::ExcludedBranch(15180040648844909945u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4317621489266312319u64));
+return Err(ParseError::ExcludedBranch(18312372211249290289u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(868434092978367357u64));
+return Err(ParseError::ExcludedBranch(6298802191889347847u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(496554245154466536u64));
+return Err(ParseError::ExcludedBranch(11017185023542530489u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+return Err(ParseError::ExcludedBranch(15395924218065814216u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14587337454519331439u64));
+return Err(ParseError::ExcludedBranch(14060832500024730160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17469688165057057832u64));
+return Err(ParseError::ExcludedBranch(3344470983013526080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17175946860967673146u64));
+return Err(ParseError::ExcludedBranch(10251322642913008199u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4411296728399804345u64));
+return Err(ParseError::ExcludedBranch(10455173543833790502u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13980028702310773940u64));
+return Err(ParseError::ExcludedBranch(1789963736344690987u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4312000683241916062u64));
+return Err(ParseError::ExcludedBranch(15079752956117840734u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3334424754000117797u64));
+return Err(ParseError::ExcludedBranch(7980438082889912554u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(527013363415661133u64));
+return Err(ParseError::ExcludedBranch(6840264564700035644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4717292700030555590u64));
+return Err(ParseError::ExcludedBranch(2232617280930402416u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(653172816195928449u64));
+return Err(ParseError::ExcludedBranch(10367781439645737926u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(581976537271693173u64));
+return Err(ParseError::ExcludedBranch(6016311883578211466u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10727170711560529872u64));
+return Err(ParseError::ExcludedBranch(14984769167642974435u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17095884813960222885u64));
+return Err(ParseError::ExcludedBranch(11733915986279978987u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(974442582679666596u64));
+return Err(ParseError::ExcludedBranch(12796096677294114859u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4054889295781446756u64));
+return Err(ParseError::ExcludedBranch(4290849149416714172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14775695284177607002u64));
+return Err(ParseError::ExcludedBranch(2598935692633451852u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6914153644311469309u64));
+return Err(ParseError::ExcludedBranch(8938360652744148620u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11188141958235814565u64));
+return Err(ParseError::ExcludedBranch(3379987508464424555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15180040648844909945u64));
+return Err(ParseError::ExcludedBranch(11173052675913205247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18312372211249290289u64));
+return Err(ParseError::ExcludedBranch(1780493074893517013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6298802191889347847u64));
+return Err(ParseError::ExcludedBranch(5013701440573848944u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11017185023542530489u64));
+return Err(ParseError::ExcludedBranch(15508559755986719975u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15395924218065814216u64));
+return Err(ParseError::ExcludedBranch(14782609537615230269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14060832500024730160u64));
+return Err(ParseError::ExcludedBranch(17984802637964449391u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3344470983013526080u64));
+return Err(ParseError::ExcludedBranch(4337320827937013231u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10251322642913008199u64));
+return Err(ParseError::ExcludedBranch(9730514595131843432u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10455173543833790502u64));
+return Err(ParseError::ExcludedBranch(11851311358763079517u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1789963736344690987u64));
+return Err(ParseError::ExcludedBranch(4195586632355556000u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15079752956117840734u64));
+return Err(ParseError::ExcludedBranch(3595083506735372973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7980438082889912554u64));
+return Err(ParseError::ExcludedBranch(7160308966995483862u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6840264564700035644u64));
+return Err(ParseError::ExcludedBranch(10995965655495216468u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2232617280930402416u64));
+return Err(ParseError::ExcludedBranch(329678914966083835u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10367781439645737926u64));
+return Err(ParseError::ExcludedBranch(6740511944232229269u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6016311883578211466u64));
+return Err(ParseError::ExcludedBranch(16842149192073737461u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14984769167642974435u64));
+return Err(ParseError::ExcludedBranch(2734069901426030304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11733915986279978987u64));
+return Err(ParseError::ExcludedBranch(8313738771561634204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12796096677294114859u64));
+return Err(ParseError::ExcludedBranch(5782291498890001703u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4290849149416714172u64));
+return Err(ParseError::ExcludedBranch(10699246393255895644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2598935692633451852u64));
+return Err(ParseError::ExcludedBranch(16725113430369695556u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8938360652744148620u64));
+return Err(ParseError::ExcludedBranch(10581544802310072854u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3379987508464424555u64));
+return Err(ParseError::ExcludedBranch(2930236810929305906u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11173052675913205247u64));
+return Err(ParseError::ExcludedBranch(9788088961065186348u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1780493074893517013u64));
+return Err(ParseError::ExcludedBranch(13475201244121026739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5013701440573848944u64));
+return Err(ParseError::ExcludedBranch(10514680212862927148u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15508559755986719975u64));
+return Err(ParseError::ExcludedBranch(1404288588910574651u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14782609537615230269u64));
+return Err(ParseError::ExcludedBranch(9722140062746187322u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17984802637964449391u64));
+return Err(ParseError::ExcludedBranch(14672290401516300248u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4337320827937013231u64));
+return Err(ParseError::ExcludedBranch(1570732024996461745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9730514595131843432u64));
+return Err(ParseError::ExcludedBranch(3970524133912495743u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11851311358763079517u64));
+return Err(ParseError::ExcludedBranch(10022572355386706896u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4195586632355556000u64));
+return Err(ParseError::ExcludedBranch(7175325427369635964u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3595083506735372973u64));
+return Err(ParseError::ExcludedBranch(10941190781838111798u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7160308966995483862u64));
+return Err(ParseError::ExcludedBranch(8533828000951561331u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10995965655495216468u64));
+return Err(ParseError::ExcludedBranch(7620563226324297760u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(329678914966083835u64));
+return Err(ParseError::ExcludedBranch(3141147280724933447u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6740511944232229269u64));
+return Err(ParseError::ExcludedBranch(5155365750119375266u64));
 }
 };
 _input.close_peek_context()?;
@@ -27290,7 +27290,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16842149192073737461u64));
+return Err(ParseError::ExcludedBranch(6019636780841875619u64));
 }
 };
 accum.push(next_elem)
@@ -27316,7 +27316,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2734069901426030304u64));
+return Err(ParseError::FalsifiedWhere(9286045119570450224u64));
 }
 };
 let flags = {
@@ -27830,475 +27830,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8313738771561634204u64));
+return Err(ParseError::ExcludedBranch(12351156548319118754u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5782291498890001703u64));
+return Err(ParseError::ExcludedBranch(16002368984748306955u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10699246393255895644u64));
+return Err(ParseError::ExcludedBranch(2518353173875372183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16725113430369695556u64));
+return Err(ParseError::ExcludedBranch(1057280760989719477u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10581544802310072854u64));
+return Err(ParseError::ExcludedBranch(4360542291358407189u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2930236810929305906u64));
+return Err(ParseError::ExcludedBranch(11728165168471348185u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9788088961065186348u64));
+return Err(ParseError::ExcludedBranch(10495009576779598530u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13475201244121026739u64));
+return Err(ParseError::ExcludedBranch(7128967683436470476u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10514680212862927148u64));
+return Err(ParseError::ExcludedBranch(3036714361878569528u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1404288588910574651u64));
+return Err(ParseError::ExcludedBranch(17797183748027644744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9722140062746187322u64));
+return Err(ParseError::ExcludedBranch(4766620025042958433u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14672290401516300248u64));
+return Err(ParseError::ExcludedBranch(3832366084378679427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1570732024996461745u64));
+return Err(ParseError::ExcludedBranch(12230053902523648559u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3970524133912495743u64));
+return Err(ParseError::ExcludedBranch(6309917041149428265u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10022572355386706896u64));
+return Err(ParseError::ExcludedBranch(14708340496221370872u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7175325427369635964u64));
+return Err(ParseError::ExcludedBranch(8149951888585961823u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10941190781838111798u64));
+return Err(ParseError::ExcludedBranch(9665308631980535174u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8533828000951561331u64));
+return Err(ParseError::ExcludedBranch(17114848294724579474u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7620563226324297760u64));
+return Err(ParseError::ExcludedBranch(6471433373632717886u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3141147280724933447u64));
+return Err(ParseError::ExcludedBranch(11488186652992817125u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5155365750119375266u64));
+return Err(ParseError::ExcludedBranch(16428598146864409139u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+return Err(ParseError::ExcludedBranch(11934620222090497034u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+return Err(ParseError::ExcludedBranch(7597388605883543966u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12351156548319118754u64));
+return Err(ParseError::ExcludedBranch(1942606498606899849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16002368984748306955u64));
+return Err(ParseError::ExcludedBranch(9288520242296510642u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2518353173875372183u64));
+return Err(ParseError::ExcludedBranch(12753818979092594971u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1057280760989719477u64));
+return Err(ParseError::ExcludedBranch(9662462399070735352u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4360542291358407189u64));
+return Err(ParseError::ExcludedBranch(8414850703985147087u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11728165168471348185u64));
+return Err(ParseError::ExcludedBranch(14428558544277089677u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10495009576779598530u64));
+return Err(ParseError::ExcludedBranch(17505260505493155057u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7128967683436470476u64));
+return Err(ParseError::ExcludedBranch(4244096627290639074u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3036714361878569528u64));
+return Err(ParseError::ExcludedBranch(16278372111013231116u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17797183748027644744u64));
+return Err(ParseError::ExcludedBranch(4797145928961714098u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4766620025042958433u64));
+return Err(ParseError::ExcludedBranch(11396441833338683368u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3832366084378679427u64));
+return Err(ParseError::ExcludedBranch(18000244536401340529u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12230053902523648559u64));
+return Err(ParseError::ExcludedBranch(17499296848696657524u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6309917041149428265u64));
+return Err(ParseError::ExcludedBranch(17871409524597489995u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14708340496221370872u64));
+return Err(ParseError::ExcludedBranch(18319329181163975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8149951888585961823u64));
+return Err(ParseError::ExcludedBranch(9728697411637566730u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665308631980535174u64));
+return Err(ParseError::ExcludedBranch(9691647707184281179u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17114848294724579474u64));
+return Err(ParseError::ExcludedBranch(7972156773864461481u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6471433373632717886u64));
+return Err(ParseError::ExcludedBranch(11074874806330017418u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11488186652992817125u64));
+return Err(ParseError::ExcludedBranch(12662813720965160010u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16428598146864409139u64));
+return Err(ParseError::ExcludedBranch(3243138897542356980u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11934620222090497034u64));
+return Err(ParseError::ExcludedBranch(15920917552321559809u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7597388605883543966u64));
+return Err(ParseError::ExcludedBranch(835240278964504247u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1942606498606899849u64));
+return Err(ParseError::ExcludedBranch(7150174851274887183u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9288520242296510642u64));
+return Err(ParseError::ExcludedBranch(11306355108769900243u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12753818979092594971u64));
+return Err(ParseError::ExcludedBranch(9864490923722431849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9662462399070735352u64));
+return Err(ParseError::ExcludedBranch(1995664400520545068u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8414850703985147087u64));
+return Err(ParseError::ExcludedBranch(14904826071154862403u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14428558544277089677u64));
+return Err(ParseError::ExcludedBranch(9819888267966403254u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17505260505493155057u64));
+return Err(ParseError::ExcludedBranch(9848248130448711783u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4244096627290639074u64));
+return Err(ParseError::ExcludedBranch(13072404838946064765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16278372111013231116u64));
+return Err(ParseError::ExcludedBranch(608962121954693839u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4797145928961714098u64));
+return Err(ParseError::ExcludedBranch(4003079682566975393u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11396441833338683368u64));
+return Err(ParseError::ExcludedBranch(4315160623525052581u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18000244536401340529u64));
+return Err(ParseError::ExcludedBranch(1862457564087794359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17499296848696657524u64));
+return Err(ParseError::ExcludedBranch(4725257428709613290u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17871409524597489995u64));
+return Err(ParseError::ExcludedBranch(11823569341425521789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18319329181163975393u64));
+return Err(ParseError::ExcludedBranch(14474361861190022573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9728697411637566730u64));
+return Err(ParseError::ExcludedBranch(8440332211549640930u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9691647707184281179u64));
+return Err(ParseError::ExcludedBranch(13045651918551022996u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7972156773864461481u64));
+return Err(ParseError::ExcludedBranch(12507789284617859731u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074874806330017418u64));
+return Err(ParseError::ExcludedBranch(4636203914394120912u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12662813720965160010u64));
+return Err(ParseError::ExcludedBranch(12770885481695079655u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3243138897542356980u64));
+return Err(ParseError::ExcludedBranch(5713736954960046494u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15920917552321559809u64));
+return Err(ParseError::ExcludedBranch(5286459060741837465u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(835240278964504247u64));
+return Err(ParseError::ExcludedBranch(10857757036842967573u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7150174851274887183u64));
+return Err(ParseError::ExcludedBranch(8347358143797316202u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11306355108769900243u64));
+return Err(ParseError::ExcludedBranch(9289217078927880343u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9864490923722431849u64));
+return Err(ParseError::ExcludedBranch(7619374930571283120u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1995664400520545068u64));
+return Err(ParseError::ExcludedBranch(5502272810018950495u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14904826071154862403u64));
+return Err(ParseError::ExcludedBranch(9422091606538556682u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9819888267966403254u64));
+return Err(ParseError::ExcludedBranch(1986031727359985319u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9848248130448711783u64));
+return Err(ParseError::ExcludedBranch(2609726213773413101u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13072404838946064765u64));
+return Err(ParseError::ExcludedBranch(4688564412461098550u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(608962121954693839u64));
+return Err(ParseError::ExcludedBranch(4942686269660057715u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4003079682566975393u64));
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
 }
 };
 _input.close_peek_context()?;
@@ -28313,7 +28313,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4315160623525052581u64));
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
 }
 };
 accum.push(next_elem)
@@ -28808,475 +28808,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1862457564087794359u64));
+return Err(ParseError::ExcludedBranch(12709578918531114377u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4725257428709613290u64));
+return Err(ParseError::ExcludedBranch(4227980562164448700u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11823569341425521789u64));
+return Err(ParseError::ExcludedBranch(6852038687184722387u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14474361861190022573u64));
+return Err(ParseError::ExcludedBranch(18441633166538026093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8440332211549640930u64));
+return Err(ParseError::ExcludedBranch(401788761305210720u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13045651918551022996u64));
+return Err(ParseError::ExcludedBranch(5252251088830583126u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12507789284617859731u64));
+return Err(ParseError::ExcludedBranch(5396814765406749711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4636203914394120912u64));
+return Err(ParseError::ExcludedBranch(12786091976415550822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12770885481695079655u64));
+return Err(ParseError::ExcludedBranch(15224635086995724042u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5713736954960046494u64));
+return Err(ParseError::ExcludedBranch(12911570055982528377u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5286459060741837465u64));
+return Err(ParseError::ExcludedBranch(17578303967306014514u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10857757036842967573u64));
+return Err(ParseError::ExcludedBranch(7236895128762201498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8347358143797316202u64));
+return Err(ParseError::ExcludedBranch(10396295304006156759u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9289217078927880343u64));
+return Err(ParseError::ExcludedBranch(14603388329461445014u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7619374930571283120u64));
+return Err(ParseError::ExcludedBranch(15092052115449480204u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5502272810018950495u64));
+return Err(ParseError::ExcludedBranch(5644646321622228807u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422091606538556682u64));
+return Err(ParseError::ExcludedBranch(12876869868341544086u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1986031727359985319u64));
+return Err(ParseError::ExcludedBranch(6757475294452472580u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2609726213773413101u64));
+return Err(ParseError::ExcludedBranch(5316076842439816359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4688564412461098550u64));
+return Err(ParseError::ExcludedBranch(13241229060561103069u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4942686269660057715u64));
+return Err(ParseError::ExcludedBranch(8896324603808149952u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
+return Err(ParseError::ExcludedBranch(8480214967847684808u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+return Err(ParseError::ExcludedBranch(4089331332020821320u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12709578918531114377u64));
+return Err(ParseError::ExcludedBranch(7660172056721883940u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4227980562164448700u64));
+return Err(ParseError::ExcludedBranch(8118664158941399609u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6852038687184722387u64));
+return Err(ParseError::ExcludedBranch(11259402406166723834u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18441633166538026093u64));
+return Err(ParseError::ExcludedBranch(2562653558681619679u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(401788761305210720u64));
+return Err(ParseError::ExcludedBranch(9066549901844041194u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5252251088830583126u64));
+return Err(ParseError::ExcludedBranch(17788403991563985894u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5396814765406749711u64));
+return Err(ParseError::ExcludedBranch(14014946361797352706u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12786091976415550822u64));
+return Err(ParseError::ExcludedBranch(17148278567107839372u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15224635086995724042u64));
+return Err(ParseError::ExcludedBranch(10059971034460660304u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12911570055982528377u64));
+return Err(ParseError::ExcludedBranch(11566301548302897286u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17578303967306014514u64));
+return Err(ParseError::ExcludedBranch(4726882489015010540u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7236895128762201498u64));
+return Err(ParseError::ExcludedBranch(16731067715008063623u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10396295304006156759u64));
+return Err(ParseError::ExcludedBranch(10050470520268747158u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14603388329461445014u64));
+return Err(ParseError::ExcludedBranch(7028862034699171644u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15092052115449480204u64));
+return Err(ParseError::ExcludedBranch(6768457941542394460u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5644646321622228807u64));
+return Err(ParseError::ExcludedBranch(3336832804021932765u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12876869868341544086u64));
+return Err(ParseError::ExcludedBranch(14287222125204946454u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6757475294452472580u64));
+return Err(ParseError::ExcludedBranch(14784334396256787566u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5316076842439816359u64));
+return Err(ParseError::ExcludedBranch(17975519714191498979u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13241229060561103069u64));
+return Err(ParseError::ExcludedBranch(15547793456796641064u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8896324603808149952u64));
+return Err(ParseError::ExcludedBranch(2708015872450907711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8480214967847684808u64));
+return Err(ParseError::ExcludedBranch(17628659998315744600u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4089331332020821320u64));
+return Err(ParseError::ExcludedBranch(7574719322668410505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7660172056721883940u64));
+return Err(ParseError::ExcludedBranch(6886530205512451724u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8118664158941399609u64));
+return Err(ParseError::ExcludedBranch(4782096577080450146u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11259402406166723834u64));
+return Err(ParseError::ExcludedBranch(14577481400621526493u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2562653558681619679u64));
+return Err(ParseError::ExcludedBranch(14148913971033431093u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066549901844041194u64));
+return Err(ParseError::ExcludedBranch(17190949120592669315u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17788403991563985894u64));
+return Err(ParseError::ExcludedBranch(8699787504309122591u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14014946361797352706u64));
+return Err(ParseError::ExcludedBranch(78099073500381561u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17148278567107839372u64));
+return Err(ParseError::ExcludedBranch(5364461768558038471u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10059971034460660304u64));
+return Err(ParseError::ExcludedBranch(7135191863324865081u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11566301548302897286u64));
+return Err(ParseError::ExcludedBranch(5733684513012333041u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4726882489015010540u64));
+return Err(ParseError::ExcludedBranch(3269600573864009399u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16731067715008063623u64));
+return Err(ParseError::ExcludedBranch(16604650314446872341u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10050470520268747158u64));
+return Err(ParseError::ExcludedBranch(14275129881911283147u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7028862034699171644u64));
+return Err(ParseError::ExcludedBranch(8473763373531540844u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6768457941542394460u64));
+return Err(ParseError::ExcludedBranch(9532564966458988001u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3336832804021932765u64));
+return Err(ParseError::ExcludedBranch(1456571545446476568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14287222125204946454u64));
+return Err(ParseError::ExcludedBranch(14908888453225293887u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14784334396256787566u64));
+return Err(ParseError::ExcludedBranch(4384065895993710795u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17975519714191498979u64));
+return Err(ParseError::ExcludedBranch(14063858022942822585u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15547793456796641064u64));
+return Err(ParseError::ExcludedBranch(7083101893872508858u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2708015872450907711u64));
+return Err(ParseError::ExcludedBranch(15979415359593570628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17628659998315744600u64));
+return Err(ParseError::ExcludedBranch(17922878356929717082u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7574719322668410505u64));
+return Err(ParseError::ExcludedBranch(15321253101048235163u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6886530205512451724u64));
+return Err(ParseError::ExcludedBranch(14285291594842403582u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4782096577080450146u64));
+return Err(ParseError::ExcludedBranch(7161350271661739096u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14577481400621526493u64));
+return Err(ParseError::ExcludedBranch(14445026714989735755u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14148913971033431093u64));
+return Err(ParseError::ExcludedBranch(7573348369521592997u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17190949120592669315u64));
+return Err(ParseError::ExcludedBranch(2912602219218223367u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8699787504309122591u64));
+return Err(ParseError::ExcludedBranch(15885886181646629118u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(78099073500381561u64));
+return Err(ParseError::ExcludedBranch(13594649006224468849u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5364461768558038471u64));
+return Err(ParseError::ExcludedBranch(14349391981174483355u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7135191863324865081u64));
+return Err(ParseError::ExcludedBranch(10927780046062734427u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5733684513012333041u64));
+return Err(ParseError::ExcludedBranch(13819997351842221509u64));
 }
 };
 _input.close_peek_context()?;
@@ -29291,7 +29291,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3269600573864009399u64));
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
 }
 };
 accum.push(next_elem)
@@ -29350,7 +29350,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16604650314446872341u64));
+return Err(ParseError::ExcludedBranch(14114750189009003637u64));
 }
 };
 _input.close_peek_context()?;
@@ -29383,7 +29383,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14275129881911283147u64));
+return Err(ParseError::FalsifiedWhere(12268471799124361536u64));
 }
 };
 let flags = {
@@ -29457,7 +29457,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8473763373531540844u64));
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
 }
 };
 _input.close_peek_context()?;
@@ -29528,7 +29528,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9532564966458988001u64));
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
 }
 };
 _input.close_peek_context()?;
@@ -30030,475 +30030,475 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1456571545446476568u64));
+return Err(ParseError::ExcludedBranch(3933597635930613605u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14908888453225293887u64));
+return Err(ParseError::ExcludedBranch(5638313771627483501u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4384065895993710795u64));
+return Err(ParseError::ExcludedBranch(1105171745447487568u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14063858022942822585u64));
+return Err(ParseError::ExcludedBranch(646997207007428137u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7083101893872508858u64));
+return Err(ParseError::ExcludedBranch(6351919260209655786u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15979415359593570628u64));
+return Err(ParseError::ExcludedBranch(552953513858366451u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17922878356929717082u64));
+return Err(ParseError::ExcludedBranch(17332407069754301555u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15321253101048235163u64));
+return Err(ParseError::ExcludedBranch(14279133095670415871u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14285291594842403582u64));
+return Err(ParseError::ExcludedBranch(7347749870002275487u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7161350271661739096u64));
+return Err(ParseError::ExcludedBranch(10748847049349746078u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14445026714989735755u64));
+return Err(ParseError::ExcludedBranch(14220958138979104104u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7573348369521592997u64));
+return Err(ParseError::ExcludedBranch(17741760072369420240u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2912602219218223367u64));
+return Err(ParseError::ExcludedBranch(12223407337737822059u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15885886181646629118u64));
+return Err(ParseError::ExcludedBranch(6072942808717419822u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13594649006224468849u64));
+return Err(ParseError::ExcludedBranch(15560056883377919848u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14349391981174483355u64));
+return Err(ParseError::ExcludedBranch(7977419944699061624u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10927780046062734427u64));
+return Err(ParseError::ExcludedBranch(8323252642575612937u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+return Err(ParseError::ExcludedBranch(11678443062630698028u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+return Err(ParseError::ExcludedBranch(14832405617500840744u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+return Err(ParseError::ExcludedBranch(1398536204687975789u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+return Err(ParseError::ExcludedBranch(7336714497745271452u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+return Err(ParseError::ExcludedBranch(4152914559762097168u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+return Err(ParseError::ExcludedBranch(1152534299541961510u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3933597635930613605u64));
+return Err(ParseError::ExcludedBranch(5095757730543354711u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5638313771627483501u64));
+return Err(ParseError::ExcludedBranch(4668055697655854201u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1105171745447487568u64));
+return Err(ParseError::ExcludedBranch(6515957116553005671u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(646997207007428137u64));
+return Err(ParseError::ExcludedBranch(2017059186547121525u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6351919260209655786u64));
+return Err(ParseError::ExcludedBranch(11789784461021426583u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(552953513858366451u64));
+return Err(ParseError::ExcludedBranch(16022216421479351095u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17332407069754301555u64));
+return Err(ParseError::ExcludedBranch(15337804701822118436u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14279133095670415871u64));
+return Err(ParseError::ExcludedBranch(2750471357152633230u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7347749870002275487u64));
+return Err(ParseError::ExcludedBranch(8306706226429158303u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10748847049349746078u64));
+return Err(ParseError::ExcludedBranch(8033982984919675631u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14220958138979104104u64));
+return Err(ParseError::ExcludedBranch(7258731811542513498u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17741760072369420240u64));
+return Err(ParseError::ExcludedBranch(1283209893442238385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12223407337737822059u64));
+return Err(ParseError::ExcludedBranch(1920187793319100008u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6072942808717419822u64));
+return Err(ParseError::ExcludedBranch(7474037925185307628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15560056883377919848u64));
+return Err(ParseError::ExcludedBranch(4475730102931494177u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7977419944699061624u64));
+return Err(ParseError::ExcludedBranch(17780439059155340308u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8323252642575612937u64));
+return Err(ParseError::ExcludedBranch(6739127967943113267u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11678443062630698028u64));
+return Err(ParseError::ExcludedBranch(10170756778737993654u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14832405617500840744u64));
+return Err(ParseError::ExcludedBranch(14306133355400503306u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1398536204687975789u64));
+return Err(ParseError::ExcludedBranch(8902666087419502325u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7336714497745271452u64));
+return Err(ParseError::ExcludedBranch(10248009767256971850u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4152914559762097168u64));
+return Err(ParseError::ExcludedBranch(7807103255128873628u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1152534299541961510u64));
+return Err(ParseError::ExcludedBranch(7840596951976883698u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5095757730543354711u64));
+return Err(ParseError::ExcludedBranch(8004105446758774533u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4668055697655854201u64));
+return Err(ParseError::ExcludedBranch(12569316739694558801u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6515957116553005671u64));
+return Err(ParseError::ExcludedBranch(2967911718584065013u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2017059186547121525u64));
+return Err(ParseError::ExcludedBranch(7227788188777836434u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11789784461021426583u64));
+return Err(ParseError::ExcludedBranch(2859130192484418172u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16022216421479351095u64));
+return Err(ParseError::ExcludedBranch(12550558264664848853u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15337804701822118436u64));
+return Err(ParseError::ExcludedBranch(16954835414833850385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2750471357152633230u64));
+return Err(ParseError::ExcludedBranch(1891774877762105457u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8306706226429158303u64));
+return Err(ParseError::ExcludedBranch(13705211812356460160u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8033982984919675631u64));
+return Err(ParseError::ExcludedBranch(5515497093089591991u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7258731811542513498u64));
+return Err(ParseError::ExcludedBranch(1328880024623199753u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1283209893442238385u64));
+return Err(ParseError::ExcludedBranch(6882184431082022206u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1920187793319100008u64));
+return Err(ParseError::ExcludedBranch(3998072683184925592u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7474037925185307628u64));
+return Err(ParseError::ExcludedBranch(29850628954056690u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4475730102931494177u64));
+return Err(ParseError::ExcludedBranch(7279615132236188739u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17780439059155340308u64));
+return Err(ParseError::ExcludedBranch(17636172564439370608u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6739127967943113267u64));
+return Err(ParseError::ExcludedBranch(13863787293436782080u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10170756778737993654u64));
+return Err(ParseError::ExcludedBranch(16714498072262546943u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14306133355400503306u64));
+return Err(ParseError::ExcludedBranch(2157707350523277837u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8902666087419502325u64));
+return Err(ParseError::ExcludedBranch(15134222038433106385u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10248009767256971850u64));
+return Err(ParseError::ExcludedBranch(14950271805613481359u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7807103255128873628u64));
+return Err(ParseError::ExcludedBranch(5499566165243611472u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7840596951976883698u64));
+return Err(ParseError::ExcludedBranch(11265176092564100083u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8004105446758774533u64));
+return Err(ParseError::ExcludedBranch(14916894554939814670u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12569316739694558801u64));
+return Err(ParseError::ExcludedBranch(10473830801714814973u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2967911718584065013u64));
+return Err(ParseError::ExcludedBranch(5334325531610156978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7227788188777836434u64));
+return Err(ParseError::ExcludedBranch(16975008930446149745u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2859130192484418172u64));
+return Err(ParseError::ExcludedBranch(760820951392925727u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12550558264664848853u64));
+return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16954835414833850385u64));
+return Err(ParseError::ExcludedBranch(4600414761378562541u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1891774877762105457u64));
+return Err(ParseError::ExcludedBranch(18313399323903636110u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13705211812356460160u64));
+return Err(ParseError::ExcludedBranch(15786118691017431738u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5515497093089591991u64));
+return Err(ParseError::ExcludedBranch(16165934354425559621u64));
 }
 };
 _input.close_peek_context()?;
@@ -30513,7 +30513,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1328880024623199753u64));
+return Err(ParseError::ExcludedBranch(16399036514137665776u64));
 }
 };
 accum.push(next_elem)
@@ -30539,7 +30539,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6882184431082022206u64));
+return Err(ParseError::FalsifiedWhere(7931358881575056193u64));
 }
 };
 let flags = {
@@ -30575,7 +30575,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3998072683184925592u64));
+return Err(ParseError::ExcludedBranch(17863486658382945784u64));
 }
 };
 let arg1 = {
@@ -30583,7 +30583,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(29850628954056690u64));
+return Err(ParseError::ExcludedBranch(11515797873012483658u64));
 }
 };
 let arg2 = {
@@ -30591,7 +30591,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7279615132236188739u64));
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 }
 };
 let arg3 = {
@@ -30599,7 +30599,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17636172564439370608u64));
+return Err(ParseError::ExcludedBranch(8076978189295213982u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30640,7 +30640,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16714498072262546943u64)
+try_sub!(x, 16u64, 14687724984806605719u64)
 },
 
 _ => {
@@ -30802,7 +30802,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15134222038433106385u64)
+try_sub!(x, 16u64, 8385173961957899741u64)
 },
 
 _ => {
@@ -30836,7 +30836,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5499566165243611472u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -30984,8 +30984,8 @@ mpeg4_mvhd_data_fields_version1 { creation_time, modification_time, timescale, d
 mpeg4_mvhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(13752480002470540422u64));
 }
 };
 let rate = {
@@ -31057,7 +31057,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14916894554939814670u64)
+try_sub!(x, 16u64, 5534609128357633386u64)
 },
 
 _ => {
@@ -31171,7 +31171,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5334325531610156978u64)
+try_sub!(x, 16u64, 16625761205375889740u64)
 },
 
 _ => {
@@ -31301,8 +31301,8 @@ mpeg4_tkhd_data_fields_version1 { creation_time, modification_time, track_ID, re
 mpeg4_tkhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(2662265345698212949u64));
 }
 };
 let reserved2 = {
@@ -31371,7 +31371,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 760820951392925727u64)
+try_sub!(x, 16u64, 8599210436172030522u64)
 },
 
 _ => {
@@ -31435,7 +31435,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4600414761378562541u64)
+try_sub!(x, 16u64, 15403934492100194569u64)
 },
 
 _ => {
@@ -31555,7 +31555,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
+return Err(ParseError::ExcludedBranch(12041148194529633639u64));
 }
 };
 _input.close_peek_context()?;
@@ -31568,7 +31568,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
+return Err(ParseError::ExcludedBranch(2288772415159374970u64));
 }
 };
 accum.push(next_elem)
@@ -31583,7 +31583,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
+return Err(ParseError::ExcludedBranch(17888323854924040413u64));
 }
 };
 chars.clone()
@@ -31642,8 +31642,8 @@ mpeg4_mvhd_data_fields_version1 { creation_time, modification_time, timescale, d
 mpeg4_mvhd_data_fields::version1(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(6279087434444973374u64));
 }
 };
 let language = {
@@ -31674,7 +31674,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7931358881575056193u64)
+try_sub!(x, 16u64, 15601622509425384091u64)
 },
 
 _ => {
@@ -31830,7 +31830,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 11515797873012483658u64)
+try_sub!(x, 16u64, 4569970360394099475u64)
 },
 
 _ => {
@@ -31894,7 +31894,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8076978189295213982u64)
+try_sub!(x, 16u64, 15293691521783146694u64)
 },
 
 _ => {
@@ -32299,7 +32299,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 8403192837054512577u64)
 },
 
 _ => {
@@ -32385,7 +32385,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 3975307768385535064u64)
 },
 
 _ => {
@@ -32629,7 +32629,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8407356061009412694u64));
+return Err(ParseError::ExcludedBranch(10599514554463239458u64));
 }
 };
 _input.close_peek_context()?;
@@ -32642,7 +32642,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6881565717664829242u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 accum.push(next_elem)
@@ -32657,7 +32657,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 chars.clone()
@@ -32773,8 +32773,8 @@ accum
 mpeg4_iref_data_single_item_reference::large(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32858,8 +32858,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(10708294527730390829u64));
 }
 };
 let extent_count = {
@@ -32900,7 +32900,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 13181260675040079306u64)
 },
 
 _ => {
@@ -32984,7 +32984,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 7795160901559545235u64)
 },
 
 _ => {
@@ -33085,8 +33085,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(3490919313637905107u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33107,8 +33107,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 };
 let extent_length = match length_size {
@@ -33129,8 +33129,8 @@ let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.r
 u64be(x)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33153,7 +33153,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3344648651879382526u64)
+try_sub!(x, 16u64, 9892894478446917378u64)
 },
 
 _ => {
@@ -33208,7 +33208,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3484767027554133518u64)
+try_sub!(x, 16u64, 5208404121666294786u64)
 },
 
 _ => {
@@ -33263,7 +33263,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 12041148194529633639u64)
+try_sub!(x, 16u64, 13751590285972774894u64)
 },
 
 _ => {
@@ -33360,7 +33360,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 _input.close_peek_context()?;
@@ -33373,7 +33373,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 accum.push(next_elem)
@@ -33388,7 +33388,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 chars.clone()
@@ -33410,7 +33410,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11074951631636946051u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 _input.close_peek_context()?;
@@ -33423,7 +33423,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15601622509425384091u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 accum.push(next_elem)
@@ -33438,7 +33438,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13675295148592556047u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 chars.clone()
@@ -33460,7 +33460,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4569970360394099475u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 _input.close_peek_context()?;
@@ -33473,7 +33473,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9110520999974091875u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 accum.push(next_elem)
@@ -33488,7 +33488,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15293691521783146694u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 chars.clone()
@@ -33534,7 +33534,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15433822888775103886u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 _input.close_peek_context()?;
@@ -33547,7 +33547,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8403192837054512577u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 accum.push(next_elem)
@@ -33562,7 +33562,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17073037115051226650u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 chars.clone()
@@ -33609,7 +33609,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3975307768385535064u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 };
 _input.close_peek_context()?;
@@ -33622,7 +33622,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 }
 };
 accum.push(next_elem)
@@ -33637,7 +33637,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 };
 chars.clone()
@@ -33664,7 +33664,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 }
 };
 _input.close_peek_context()?;
@@ -33677,7 +33677,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 };
 accum.push(next_elem)
@@ -33692,7 +33692,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 };
 chars.clone()
@@ -33707,7 +33707,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7432469293302627017u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 }
 };
 let marker = {
@@ -33715,7 +33715,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13181260675040079306u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33870,11 +33870,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9159119361499271180u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7795160901559545235u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 };
 _input.close_peek_context()?;
 ret
@@ -33995,11 +33995,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34015,7 +34015,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 }
 };
@@ -34121,11 +34121,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15311158871930328757u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(9892894478446917378u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34150,7 +34150,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3585635225240718191u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 };
 let marker = {
@@ -34158,7 +34158,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5208404121666294786u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34181,11 +34181,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(237665900562449517u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(13751590285972774894u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34203,7 +34203,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 }
 })
 }
@@ -34301,11 +34301,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34418,7 +34418,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 })
 }
@@ -34484,11 +34484,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34561,7 +34561,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 })
 }
@@ -34666,11 +34666,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34698,7 +34698,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 };
 let marker = {
@@ -34706,7 +34706,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 jpeg_soi { marker }
@@ -34825,11 +34825,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34857,7 +34857,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 let marker = {
@@ -34865,7 +34865,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 jpeg_soi { marker }
@@ -35028,13 +35028,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 };
 _input.close_peek_context()?;
@@ -35139,13 +35139,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 _input.close_peek_context()?;
@@ -35199,7 +35199,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 })
 }
@@ -35219,7 +35219,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 _input.close_peek_context()?;
@@ -35232,7 +35232,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 },
 
@@ -35243,7 +35243,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let arg1 = {
@@ -35251,7 +35251,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 (arg0, arg1)
@@ -35260,7 +35260,7 @@ return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 })
 }
@@ -35272,7 +35272,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 let marker = {
@@ -35280,7 +35280,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35293,7 +35293,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -35301,7 +35301,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35314,7 +35314,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -35322,7 +35322,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35335,7 +35335,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -35343,7 +35343,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35356,7 +35356,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(13677998342346693652u64));
 }
 };
 let marker = {
@@ -35364,7 +35364,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(18442161777584514946u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35377,7 +35377,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(2668737607901180946u64));
 }
 };
 let marker = {
@@ -35385,7 +35385,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(12828788577937869717u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35398,7 +35398,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(4528919599938425798u64));
 }
 };
 let marker = {
@@ -35406,7 +35406,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35419,7 +35419,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 let marker = {
@@ -35427,7 +35427,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35444,7 +35444,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3011460078285478248u64));
+return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
 }
 };
 let image_components = {
@@ -35464,7 +35464,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5117297982688264891u64));
+return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
 }
 };
 let end_spectral_selection = {
@@ -35476,7 +35476,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4614223265245060097u64));
+return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35513,7 +35513,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2858990937242709991u64));
+return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
 })
 }
 
@@ -35531,7 +35531,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13162270726566423196u64));
+return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35685,13 +35685,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 _input.close_peek_context()?;
@@ -35755,7 +35755,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 let marker = {
@@ -35763,7 +35763,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 jpeg_soi { marker }
@@ -35790,7 +35790,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 let marker = {
@@ -35798,7 +35798,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 jpeg_soi { marker }
@@ -35825,7 +35825,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 let marker = {
@@ -35833,7 +35833,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 jpeg_soi { marker }
@@ -35860,7 +35860,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 let marker = {
@@ -35868,7 +35868,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 jpeg_soi { marker }
@@ -35895,7 +35895,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -35903,7 +35903,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -35930,7 +35930,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -35938,7 +35938,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -35965,7 +35965,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -35973,7 +35973,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -36000,7 +36000,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -36008,7 +36008,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -36035,7 +36035,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -36043,7 +36043,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -36070,7 +36070,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(1432698095084823598u64));
 }
 };
 let marker = {
@@ -36078,7 +36078,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(9372987348964131232u64));
 }
 };
 jpeg_soi { marker }
@@ -36105,7 +36105,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(8473414866110322269u64));
 }
 };
 let marker = {
@@ -36113,7 +36113,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(671785503440284610u64));
 }
 };
 jpeg_soi { marker }
@@ -36140,7 +36140,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -36148,7 +36148,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 jpeg_soi { marker }
@@ -36175,7 +36175,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13877876706306354357u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 let marker = {
@@ -36183,7 +36183,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12525311251009778949u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 jpeg_soi { marker }
@@ -36213,7 +36213,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
 }
 };
 let num_lines = {
@@ -36232,7 +36232,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(787921071240225899u64));
 }
 };
 let num_image_components = {
@@ -36244,7 +36244,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
 }
 };
 let image_components = {
@@ -36276,7 +36276,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(180881308211696508u64));
+return Err(ParseError::FalsifiedWhere(14238499412440345954u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36290,7 +36290,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let marker = {
@@ -36298,7 +36298,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 jpeg_soi { marker }
@@ -36348,7 +36348,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let marker = {
@@ -36356,7 +36356,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 jpeg_soi { marker }
@@ -36383,7 +36383,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 let marker = {
@@ -36391,7 +36391,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 jpeg_soi { marker }
@@ -36418,7 +36418,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 let marker = {
@@ -36426,7 +36426,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 jpeg_soi { marker }
@@ -36453,7 +36453,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 let marker = {
@@ -36461,7 +36461,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 jpeg_soi { marker }
@@ -36488,7 +36488,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let marker = {
@@ -36496,7 +36496,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 jpeg_soi { marker }
@@ -36523,7 +36523,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 let marker = {
@@ -36531,7 +36531,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 jpeg_soi { marker }
@@ -36578,7 +36578,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 let marker = {
@@ -36586,7 +36586,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 jpeg_soi { marker }
@@ -36633,7 +36633,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let marker = {
@@ -36641,7 +36641,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 jpeg_soi { marker }
@@ -36688,7 +36688,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 let marker = {
@@ -36696,7 +36696,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 jpeg_soi { marker }
@@ -36743,7 +36743,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 let marker = {
@@ -36751,7 +36751,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 jpeg_soi { marker }
@@ -36798,7 +36798,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 let marker = {
@@ -36806,7 +36806,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 jpeg_soi { marker }
@@ -36853,7 +36853,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 let marker = {
@@ -36861,7 +36861,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 jpeg_soi { marker }
@@ -36908,7 +36908,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 let marker = {
@@ -36916,7 +36916,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7834223795690054720u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 jpeg_soi { marker }
@@ -36963,7 +36963,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(787921071240225899u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 let marker = {
@@ -36971,7 +36971,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11557974043504662535u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 jpeg_soi { marker }
@@ -37018,7 +37018,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14238499412440345954u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 let marker = {
@@ -37026,7 +37026,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 jpeg_soi { marker }
@@ -37073,7 +37073,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 let marker = {
@@ -37081,7 +37081,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 jpeg_soi { marker }
@@ -37128,7 +37128,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 let marker = {
@@ -37136,7 +37136,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 jpeg_soi { marker }
@@ -37183,7 +37183,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 let marker = {
@@ -37191,7 +37191,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 jpeg_soi { marker }
@@ -37238,7 +37238,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 let marker = {
@@ -37246,7 +37246,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 jpeg_soi { marker }
@@ -37293,7 +37293,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 let marker = {
@@ -37301,7 +37301,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(389354767835086292u64));
 }
 };
 jpeg_soi { marker }
@@ -37359,7 +37359,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(3216028881355025849u64));
 }
 };
 _input.close_peek_context()?;
@@ -37372,7 +37372,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(479680595494617916u64));
 }
 };
 accum.push(next_elem)
@@ -37387,7 +37387,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(10531068763070667405u64));
 }
 };
 chars.clone()
@@ -37443,7 +37443,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37495,7 +37495,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 };
 _input.close_peek_context()?;
@@ -37508,7 +37508,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 accum.push(next_elem)
@@ -37523,7 +37523,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 chars.clone()
@@ -37580,7 +37580,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4491050975676636472u64));
+return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
 }
 };
 let density_x = {
@@ -37595,7 +37595,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9933460716242958610u64));
+return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
 }
 };
 let density_y = {
@@ -37610,7 +37610,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10865781264025109219u64));
+return Err(ParseError::FalsifiedWhere(13460389694602013078u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37672,7 +37672,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1125515999835788388u64));
+return Err(ParseError::FalsifiedWhere(16535687493193441589u64));
 })
 }
 
@@ -37727,7 +37727,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6928743980636918648u64));
+return Err(ParseError::FalsifiedWhere(16678380679225161433u64));
 })
 }
 
@@ -37761,8 +37761,8 @@ accum
 jpeg_dqt_data_elements::Shorts(inner)
 },
 
-_other => {
-unreachable!(r#"ExprMatch refuted: match refuted with unexpected value {_other:?}"#);
+_ => {
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 })
 }
@@ -37785,7 +37785,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 _input.close_peek_context()?;
@@ -37798,7 +37798,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 accum.push(next_elem)
@@ -37813,7 +37813,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37838,7 +37838,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 _input.close_peek_context()?;
@@ -37851,7 +37851,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 accum.push(next_elem)
@@ -37866,7 +37866,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 chars.clone()
@@ -37952,7 +37952,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 _input.close_peek_context()?;
@@ -37979,7 +37979,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 accum.push(next_elem)
@@ -38008,7 +38008,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 accum.push(next_elem)
@@ -38039,7 +38039,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 _input.close_peek_context()?;
@@ -38052,7 +38052,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 };
 accum.push(next_elem)
@@ -38067,7 +38067,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38092,7 +38092,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 };
 _input.close_peek_context()?;
@@ -38105,7 +38105,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 accum.push(next_elem)
@@ -38120,7 +38120,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 };
 chars.clone()
@@ -38136,7 +38136,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 let arg1 = {
@@ -38144,7 +38144,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 };
 let arg2 = {
@@ -38152,7 +38152,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38202,7 +38202,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 }
 }
 },
@@ -38212,7 +38212,7 @@ return Err(ParseError::ExcludedBranch(389354767835086292u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 };
 _input.close_peek_context()?;
@@ -38231,7 +38231,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 })
 }
@@ -38243,7 +38243,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38267,7 +38267,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 }
 },
@@ -38277,7 +38277,7 @@ return Err(ParseError::ExcludedBranch(12431089125438936538u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 _input.close_peek_context()?;
@@ -38294,7 +38294,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 }
 };
@@ -38319,11 +38319,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(5999000939515818447u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38341,7 +38341,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10508718825232435214u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 })
 }
@@ -38353,7 +38353,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13460389694602013078u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 }
 };
 let label = {
@@ -38361,7 +38361,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16535687493193441589u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 let block_size = {
@@ -38369,7 +38369,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16678380679225161433u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 let identifier = {
@@ -38397,7 +38397,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 _input.close_peek_context()?;
@@ -38424,7 +38424,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 let label = {
@@ -38432,7 +38432,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 };
 let comment_data = {
@@ -38451,7 +38451,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 _input.close_peek_context()?;
@@ -38478,7 +38478,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let data = {
@@ -38498,7 +38498,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 })
 }
 
@@ -38509,7 +38509,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 let label = {
@@ -38517,7 +38517,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 let block_size = {
@@ -38525,7 +38525,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38553,7 +38553,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 };
 _input.close_peek_context()?;
@@ -38572,7 +38572,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 })
 }
@@ -38601,7 +38601,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 };
 let label = {
@@ -38609,7 +38609,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 };
 let block_size = {
@@ -38617,7 +38617,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 };
 let text_grid_left_position = {
@@ -38656,7 +38656,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 };
 _input.close_peek_context()?;
@@ -38683,7 +38683,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 };
 let image_left_position = {
@@ -38733,7 +38733,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 };
 _input.close_peek_context()?;
@@ -38865,55 +38865,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(7814984350356971595u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(8834940284440365505u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(1640368834587091796u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 };
 _input.close_peek_context()?;
@@ -38928,7 +38928,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 }
 };
 accum.push(next_elem)
@@ -38942,7 +38942,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 };
 (arg0, arg1)
@@ -38970,7 +38970,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39003,7 +39003,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7245983875345631298u64));
+return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
 }
 };
 let num_image_components = {
@@ -39015,7 +39015,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9556673179043043550u64));
+return Err(ParseError::FalsifiedWhere(17498679062468273557u64));
 }
 };
 let image_components = {
@@ -39038,7 +39038,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39060,7 +39060,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8635718010611311692u64));
+return Err(ParseError::FalsifiedWhere(9104412661124805519u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39074,7 +39074,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(13731807471966330507u64));
 }
 };
 let marker = {
@@ -39082,7 +39082,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(13391927636850586680u64));
 }
 };
 jpeg_soi { marker }
@@ -39129,7 +39129,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(5585407796242218698u64));
 }
 };
 let marker = {
@@ -39137,7 +39137,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(7581188615734068888u64));
 }
 };
 jpeg_soi { marker }
@@ -39175,7 +39175,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15243788729772203041u64));
+return Err(ParseError::FalsifiedWhere(401211890982280023u64));
 }
 };
 let num_image_components = {
@@ -39187,7 +39187,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14565187915810837879u64));
+return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
 }
 };
 let image_components = {
@@ -39209,7 +39209,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(16926640000337048185u64));
 }
 };
 let marker = {
@@ -39217,7 +39217,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(14305107858950733127u64));
 }
 };
 jpeg_soi { marker }
@@ -39252,7 +39252,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10796441316268123402u64));
+return Err(ParseError::FalsifiedWhere(14247107068446105269u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 7652ecf..a2415f0 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -3424,8 +3424,10 @@ where
                     Refutability::Refutable | Refutability::Indeterminate => {
                         RustMatchBody::Refutable(
                             branches,
-                            RustCatchAll::PanicUnreachable {
-                                message: Label::from("ExprMatch refuted: "),
+                            RustCatchAll::ReturnErrorValue {
+                                value: Box::new(model::err_fallthrough(get_trace(
+                                    &"match refuted",
+                                ))),
                             },
                         )
                     }
diff --git a/src/codegen/rust_ast/mod.rs b/src/codegen/rust_ast/mod.rs
index 6f9022d..573e2f3 100644
--- a/src/codegen/rust_ast/mod.rs
+++ b/src/codegen/rust_ast/mod.rs
@@ -3522,6 +3522,7 @@ impl RustStmt {
 
 #[derive(Clone, Debug)]
 pub(crate) enum RustCatchAll {
+    #[expect(dead_code)]
     PanicUnreachable { message: Label },
     ReturnErrorValue { value: Box<RustExpr> },
 }
diff --git a/src/decoder.rs b/src/decoder.rs
index 63acef7..61d5aaa 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1595,11 +1595,10 @@ impl Decoder {
                             .map(|(v, input)| (Value::Branch(index, Box::new(v)), input)));
                     }
                 }
-                // REVIEW - should this be an error instead of a panic?
-                panic!(
-                    "non-exhaustive patterns: {head:?} not in {:#?}",
-                    branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
-                );
+                Err(DecodeErrorKind::NoValidBranch {
+                    offset: input.offset,
+                }
+                .into())
             }
             Decoder::Dynamic(name, DynFormat::Huffman(lengths_expr, opt_values_expr), d) => {
                 let lengths_val = lengths_expr.eval(scope);
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 28449b6..4b3a718 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1830,11 +1830,9 @@ impl Decoder {
                             .map(|(v, input)| (ParsedValue::Branch(index, Box::new(v)), input)));
                     }
                 }
-                // REVIEW - should this be an error instead of a panic?
-                panic!(
-                    "non-exhaustive patterns: {head:?} not in {:#?}",
-                    branches.iter().map(|(p, _)| p).collect::<Vec<_>>()
-                );
+                Err(DecodeErrorKind::NoValidBranch {
+                    offset: input.offset,
+                })
             }
             Decoder::Dynamic(name, DynFormat::Huffman(lengths_expr, opt_values_expr), d) => {
                 let lengths_val = lengths_expr.eval_with_loc(scope);
-- 
2.43.0


From f6a03176221bf994f88fcfb8e687a504453bc079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:12 +0000
Subject: [PATCH 19/27] fix: generated lookahead accepts where the
 interpreter's does

A lookahead node that could already accept was treated as a failure by
generated code when the input ended there, or when the next byte matched
none of its several branches; MatchTree::matches accepts in both cases.
---
 generated/gencode.rs | 2530 ++++++++++++++++++++++++------------------
 src/codegen/mod.rs   |   44 +-
 2 files changed, 1501 insertions(+), 1073 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index fe1e51e..115bd21 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -8905,7 +8905,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 90u8 => {
 1
 },
@@ -8915,8 +8916,11 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8638089167112501923u64));
+0
 }
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -8959,7 +8963,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1453530207670075215u64));
+return Err(ParseError::ExcludedBranch(8638089167112501923u64));
 }
 };
 _input.close_peek_context()?;
@@ -9000,12 +9004,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -9069,9 +9077,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -9096,7 +9108,7 @@ let b = _input.read_byte()?;
 if b == 137 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15915510438164744429u64));
+return Err(ParseError::ExcludedBranch(1453530207670075215u64));
 }
 };
 let ix1 = {
@@ -9104,7 +9116,7 @@ let b = _input.read_byte()?;
 if b == 80 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1542992798780655146u64));
+return Err(ParseError::ExcludedBranch(15915510438164744429u64));
 }
 };
 let ix2 = {
@@ -9112,7 +9124,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7028560493922100069u64));
+return Err(ParseError::ExcludedBranch(1542992798780655146u64));
 }
 };
 let ix3 = {
@@ -9120,7 +9132,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2649783168072194737u64));
+return Err(ParseError::ExcludedBranch(7028560493922100069u64));
 }
 };
 let ix4 = {
@@ -9128,7 +9140,7 @@ let b = _input.read_byte()?;
 if b == 13 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8253205784254894771u64));
+return Err(ParseError::ExcludedBranch(2649783168072194737u64));
 }
 };
 let ix5 = {
@@ -9136,7 +9148,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1225514472166157741u64));
+return Err(ParseError::ExcludedBranch(8253205784254894771u64));
 }
 };
 let ix6 = {
@@ -9144,7 +9156,7 @@ let b = _input.read_byte()?;
 if b == 26 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1224415506115142500u64));
+return Err(ParseError::ExcludedBranch(1225514472166157741u64));
 }
 };
 let ix7 = {
@@ -9152,7 +9164,7 @@ let b = _input.read_byte()?;
 if b == 10 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16859485491091215361u64));
+return Err(ParseError::ExcludedBranch(1224415506115142500u64));
 }
 };
 vec![ix0, ix1, ix2, ix3, ix4, ix5, ix6, ix7]
@@ -9184,7 +9196,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14898840355839773829u64));
+return Err(ParseError::ExcludedBranch(16859485491091215361u64));
 }
 }
 },
@@ -9194,7 +9206,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9453951600195794313u64));
+return Err(ParseError::ExcludedBranch(14898840355839773829u64));
 }
 }
 },
@@ -9208,7 +9220,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10036157788440812915u64));
+return Err(ParseError::ExcludedBranch(9453951600195794313u64));
 }
 }
 },
@@ -9218,7 +9230,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6349531732377484771u64));
+return Err(ParseError::ExcludedBranch(10036157788440812915u64));
 }
 };
 _input.close_peek_context()?;
@@ -9266,7 +9278,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743846658046u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13785646910930464515u64));
+return Err(ParseError::ExcludedBranch(6349531732377484771u64));
 }
 }
 },
@@ -9276,7 +9288,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706620u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5323644471994966730u64));
+return Err(ParseError::ExcludedBranch(13785646910930464515u64));
 }
 }
 },
@@ -9286,7 +9298,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13278122992382147879u64));
+return Err(ParseError::ExcludedBranch(5323644471994966730u64));
 }
 }
 },
@@ -9296,7 +9308,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18159646757349796721u64));
+return Err(ParseError::ExcludedBranch(13278122992382147879u64));
 }
 };
 _input.close_peek_context()?;
@@ -9352,7 +9364,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706606u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7124606020426797957u64));
+return Err(ParseError::ExcludedBranch(18159646757349796721u64));
 }
 }
 },
@@ -9362,7 +9374,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847690238u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15116592996336247086u64));
+return Err(ParseError::ExcludedBranch(7124606020426797957u64));
 }
 }
 },
@@ -9372,7 +9384,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706574u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10346499338674982396u64));
+return Err(ParseError::ExcludedBranch(15116592996336247086u64));
 }
 }
 },
@@ -9382,7 +9394,7 @@ byte if ((ByteSet::from_bits([0u64, 576460743847706110u64, 0u64, 0u64])).contain
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10951432197815892834u64));
+return Err(ParseError::ExcludedBranch(10346499338674982396u64));
 }
 };
 _input.close_peek_context()?;
@@ -9410,7 +9422,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14864597187136898256u64));
+return Err(ParseError::ExcludedBranch(10951432197815892834u64));
 }
 };
 let arg1 = {
@@ -9418,7 +9430,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15238960955167157760u64));
+return Err(ParseError::ExcludedBranch(14864597187136898256u64));
 }
 };
 let arg2 = {
@@ -9426,7 +9438,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17527274083228188873u64));
+return Err(ParseError::ExcludedBranch(15238960955167157760u64));
 }
 };
 let arg3 = {
@@ -9434,7 +9446,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17855530393917176367u64));
+return Err(ParseError::ExcludedBranch(17527274083228188873u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9455,7 +9467,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11054356281452530428u64));
+return Err(ParseError::ExcludedBranch(17855530393917176367u64));
 })
 } else {
 None
@@ -9517,7 +9529,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17406968167054271466u64));
+return Err(ParseError::ExcludedBranch(11054356281452530428u64));
 }
 };
 _input.close_peek_context()?;
@@ -9544,7 +9556,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11100042044514704042u64));
+return Err(ParseError::ExcludedBranch(17406968167054271466u64));
 }
 };
 accum.push(next_elem)
@@ -9556,12 +9568,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -9573,7 +9589,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5409189036752851054u64));
+return Err(ParseError::ExcludedBranch(11100042044514704042u64));
 }
 };
 accum.push(next_elem)
@@ -9700,7 +9716,7 @@ opentype_main_directory::TableDirectory(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4726315105662630465u64));
+return Err(ParseError::FailToken(5409189036752851054u64));
 }
 };
 PResult::Ok(opentype_main { magic, directory })
@@ -9714,7 +9730,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10036638040555853769u64));
+return Err(ParseError::ExcludedBranch(4726315105662630465u64));
 }
 };
 let arg1 = {
@@ -9722,7 +9738,7 @@ let b = _input.read_byte()?;
 if b == 85 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13230337088401352826u64));
+return Err(ParseError::ExcludedBranch(10036638040555853769u64));
 }
 };
 let arg2 = {
@@ -9730,7 +9746,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11460567998186064482u64));
+return Err(ParseError::ExcludedBranch(13230337088401352826u64));
 }
 };
 let arg3 = {
@@ -9738,7 +9754,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6223008304848233301u64));
+return Err(ParseError::ExcludedBranch(11460567998186064482u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -9749,7 +9765,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9783,8 +9800,11 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14550754927305275517u64));
+1
+}
 }
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -9817,7 +9837,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2391834656526534993u64));
+return Err(ParseError::ExcludedBranch(10197098993763395417u64));
 }
 };
 _input.close_peek_context()?;
@@ -9831,7 +9851,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10197098993763395417u64));
+return Err(ParseError::ExcludedBranch(6223008304848233301u64));
 }
 };
 let inner = (Decoder_rle_old_style(_input))?;
@@ -9844,7 +9864,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15631554783732883240u64));
+return Err(ParseError::ExcludedBranch(14550754927305275517u64));
 }
 };
 let inner = (Decoder_rle_new_style(_input))?;
@@ -9852,7 +9872,7 @@ rle_main::new_style(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9422510723961972169u64));
+return Err(ParseError::ExcludedBranch(15631554783732883240u64));
 }
 })
 }
@@ -9869,7 +9889,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -9911,8 +9932,11 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10940017698627680568u64));
+1
 }
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -9975,7 +9999,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9665974566873665536u64));
+return Err(ParseError::ExcludedBranch(9422510723961972169u64));
 }
 };
 _input.close_peek_context()?;
@@ -9989,7 +10013,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(179268011689651936u64));
+return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 };
 (char::from_u32(0u32)).unwrap()
@@ -10000,7 +10024,7 @@ return Err(ParseError::ExcludedBranch(179268011689651936u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(374064178837027275u64));
+return Err(ParseError::ExcludedBranch(10940017698627680568u64));
 }
 })
 }
@@ -10049,7 +10073,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18164850183020044607u64));
+return Err(ParseError::ExcludedBranch(9220862562374507822u64));
 }
 };
 _input.close_peek_context()?;
@@ -10063,7 +10087,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(658824046370133753u64));
+return Err(ParseError::ExcludedBranch(179268011689651936u64));
 }
 };
 byte as u32
@@ -10077,7 +10101,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 4294967292u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3725673472712527969u64));
+return Err(ParseError::ExcludedBranch(9665974566873665536u64));
 }
 };
 raw & 31u8
@@ -10114,7 +10138,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15080388466336998873u64));
+return Err(ParseError::ExcludedBranch(8376883036401934317u64));
 }
 };
 _input.close_peek_context()?;
@@ -10129,7 +10153,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12728843535195535635u64));
+return Err(ParseError::ExcludedBranch(374064178837027275u64));
 }
 };
 raw & 15u8
@@ -10140,7 +10164,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744069414584320u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15741082764016749161u64));
+return Err(ParseError::ExcludedBranch(658824046370133753u64));
 }
 };
 raw & 63u8
@@ -10156,7 +10180,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 35175782154240u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9967703502401950260u64));
+return Err(ParseError::ExcludedBranch(3725673472712527969u64));
 }
 };
 raw & 15u8
@@ -10173,7 +10197,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8376883036401934317u64));
+return Err(ParseError::ExcludedBranch(12728843535195535635u64));
 }
 };
 raw & 15u8
@@ -10184,7 +10208,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 4294967295u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9069368457806005425u64));
+return Err(ParseError::ExcludedBranch(15741082764016749161u64));
 }
 };
 raw & 63u8
@@ -10200,7 +10224,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 211106232532992u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3179861450314844647u64));
+return Err(ParseError::ExcludedBranch(9967703502401950260u64));
 }
 };
 raw & 15u8
@@ -10211,7 +10235,7 @@ let arg2 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6070260202873699214u64));
+return Err(ParseError::ExcludedBranch(9069368457806005425u64));
 }
 }
 };
@@ -10240,7 +10264,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8772793160380380086u64));
+return Err(ParseError::ExcludedBranch(3852079030227774582u64));
 }
 };
 _input.close_peek_context()?;
@@ -10255,7 +10279,7 @@ let b = _input.read_byte()?;
 if b == 240 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8986322043713516692u64));
+return Err(ParseError::ExcludedBranch(3179861450314844647u64));
 }
 };
 raw & 7u8
@@ -10266,7 +10290,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709486080u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11786939113783016634u64));
+return Err(ParseError::ExcludedBranch(15080388466336998873u64));
 }
 };
 raw & 63u8
@@ -10283,7 +10307,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3852079030227774582u64));
+return Err(ParseError::ExcludedBranch(6070260202873699214u64));
 }
 };
 raw & 7u8
@@ -10301,7 +10325,7 @@ let b = _input.read_byte()?;
 if b == 244 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5176232487486782188u64));
+return Err(ParseError::ExcludedBranch(8986322043713516692u64));
 }
 };
 raw & 7u8
@@ -10312,7 +10336,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 65535u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9220862562374507822u64));
+return Err(ParseError::ExcludedBranch(11786939113783016634u64));
 }
 };
 raw & 63u8
@@ -10323,7 +10347,7 @@ let arg3 = (Decoder21(_input))?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2605623462625042002u64));
+return Err(ParseError::ExcludedBranch(5176232487486782188u64));
 }
 }
 };
@@ -10334,7 +10358,7 @@ let (x3, x2, x1, x0) = tuple_var;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10688770705819276010u64));
+return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 }
 };
@@ -10348,7 +10372,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10416240583538343445u64));
+return Err(ParseError::ExcludedBranch(2605623462625042002u64));
 }
 };
 PResult::Ok(raw & 63u8)
@@ -10361,9 +10385,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10388,9 +10416,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -10477,7 +10509,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11936787736236307191u64));
+return Err(ParseError::ExcludedBranch(386759067598651566u64));
 }
 };
 _input.close_peek_context()?;
@@ -10492,7 +10524,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1457499133218925748u64));
+return Err(ParseError::ExcludedBranch(18164850183020044607u64));
 }
 };
 _input.read_byte()?
@@ -10507,7 +10539,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14215639860155940137u64));
+return Err(ParseError::ExcludedBranch(10688770705819276010u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?);
@@ -10523,7 +10555,7 @@ let b = _input.read_byte()?;
 if b == 2 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5584166819955891466u64));
+return Err(ParseError::ExcludedBranch(10416240583538343445u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10539,7 +10571,7 @@ let b = _input.read_byte()?;
 if b == 3 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11133239979815295357u64));
+return Err(ParseError::ExcludedBranch(1457499133218925748u64));
 }
 };
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
@@ -10555,7 +10587,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1275286460638129217u64));
+return Err(ParseError::ExcludedBranch(14215639860155940137u64));
 }
 };
 let raw = _input.read_byte()?;
@@ -10571,7 +10603,7 @@ let b = _input.read_byte()?;
 if b == 5 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(386759067598651566u64));
+return Err(ParseError::ExcludedBranch(5584166819955891466u64));
 }
 };
 let raw = {
@@ -10590,7 +10622,7 @@ let b = _input.read_byte()?;
 if b == 6 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13527164188224560282u64));
+return Err(ParseError::ExcludedBranch(11133239979815295357u64));
 }
 };
 let raw = {
@@ -10609,7 +10641,7 @@ let b = _input.read_byte()?;
 if b == 7 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(240888096670347429u64));
+return Err(ParseError::ExcludedBranch(1275286460638129217u64));
 }
 };
 let raw = {
@@ -10622,7 +10654,7 @@ numbers_num_value::I64BEValue(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5215619712890029856u64));
+return Err(ParseError::ExcludedBranch(13527164188224560282u64));
 }
 })
 }
@@ -10641,7 +10673,7 @@ matches!(version, 65536u32 | 1330926671u32 | 1953658213u32)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3167775832820164678u64));
+return Err(ParseError::FalsifiedWhere(240888096670347429u64));
 }
 };
 let num_tables = {
@@ -10686,7 +10718,7 @@ tag == 1953784678u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7215050775822222282u64));
+return Err(ParseError::FalsifiedWhere(11936787736236307191u64));
 }
 };
 let major_version = {
@@ -10815,7 +10847,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3743786174148899814u64));
+return Err(ParseError::ExcludedBranch(5215619712890029856u64));
 }
 };
 let head = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751474532u32, tables)).copied() {
@@ -10830,7 +10862,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12652804269632162478u64));
+return Err(ParseError::ExcludedBranch(3167775832820164678u64));
 }
 };
 let hhea = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1751672161u32, tables)).copied() {
@@ -10845,7 +10877,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18134882366868794706u64));
+return Err(ParseError::ExcludedBranch(7215050775822222282u64));
 }
 };
 let maxp = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1835104368u32, tables)).copied() {
@@ -10860,7 +10892,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7155653122005708978u64));
+return Err(ParseError::ExcludedBranch(3743786174148899814u64));
 }
 };
 let hmtx = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1752003704u32, tables)).copied() {
@@ -10875,7 +10907,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17920584887603040596u64));
+return Err(ParseError::ExcludedBranch(12652804269632162478u64));
 }
 };
 let name = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1851878757u32, tables)).copied() {
@@ -10890,7 +10922,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5673845796627816005u64));
+return Err(ParseError::ExcludedBranch(18134882366868794706u64));
 }
 };
 let os2 = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1330851634u32, tables)).copied() {
@@ -10906,7 +10938,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14591018267292443527u64));
+return Err(ParseError::ExcludedBranch(7155653122005708978u64));
 }
 };
 let post = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1886352244u32, tables)).copied() {
@@ -10921,7 +10953,7 @@ ret
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4762692522317026931u64));
+return Err(ParseError::ExcludedBranch(17920584887603040596u64));
 }
 };
 let cvt = match (find_by_key_unsorted(|elem: &opentype_table_record| elem.table_id, 1668707360u32, tables)).copied() {
@@ -10935,9 +10967,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() > 0 {
+view_input.read_byte()?;
+0
+} else {
+1
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -10976,9 +11012,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() > 0 {
+view_input.read_byte()?;
+0
+} else {
+1
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11049,9 +11089,13 @@ let mut accum = Vec::new();
 while view_input.remaining() > 0 {
 let matching_ix = {
 view_input.open_peek_context();
-view_input.read_byte()?;
 {
-let ret = 0;
+let ret = if view_input.remaining() > 0 {
+view_input.read_byte()?;
+0
+} else {
+1
+};
 view_input.close_peek_context()?;
 ret
 }
@@ -11295,7 +11339,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9630069758457681762u64));
+return Err(ParseError::ExcludedBranch(5673845796627816005u64));
 }
 }.number_of_long_metrics, maxp.num_glyphs))?;
 view_input.end_slice()?;
@@ -11407,7 +11451,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(908377722732597655u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14591018267292443527u64));
 inner
 }
 };
@@ -11423,7 +11467,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3203034260088513018u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4762692522317026931u64));
 inner
 }
 };
@@ -11444,7 +11488,7 @@ let b = _input.read_byte()?;
 if b == 95 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14677505873656710393u64));
+return Err(ParseError::ExcludedBranch(9630069758457681762u64));
 }
 };
 let arg1 = {
@@ -11452,7 +11496,7 @@ let b = _input.read_byte()?;
 if b == 15 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10102114574336663273u64));
+return Err(ParseError::ExcludedBranch(908377722732597655u64));
 }
 };
 let arg2 = {
@@ -11460,7 +11504,7 @@ let b = _input.read_byte()?;
 if b == 60 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4386762582485017400u64));
+return Err(ParseError::ExcludedBranch(3203034260088513018u64));
 }
 };
 let arg3 = {
@@ -11468,7 +11512,7 @@ let b = _input.read_byte()?;
 if b == 245 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8893850231119365992u64));
+return Err(ParseError::ExcludedBranch(14677505873656710393u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -11489,7 +11533,7 @@ matches!(x, 16u16..=16384u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7659860344311718435u64));
+return Err(ParseError::FalsifiedWhere(10102114574336663273u64));
 }
 };
 let created = (Decoder222(_input))?;
@@ -11604,7 +11648,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11052099086134529863u64));
+return Err(ParseError::FalsifiedWhere(4386762582485017400u64));
 }
 };
 let glyph_data_format = {
@@ -11619,7 +11663,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8893850231119365992u64));
 inner
 }
 };
@@ -11640,7 +11684,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7659860344311718435u64));
 inner
 }
 };
@@ -11656,7 +11700,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11052099086134529863u64));
 inner
 }
 };
@@ -11743,7 +11787,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1079884235207081886u64));
 inner
 }
 };
@@ -11759,7 +11803,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(980800817911480223u64));
 inner
 }
 };
@@ -11775,7 +11819,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11328034188734904930u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9042484249406774160u64));
 inner
 }
 };
@@ -11791,7 +11835,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7801539417877429212u64));
 inner
 }
 };
@@ -11809,7 +11853,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15432825464810477099u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14931240509007516758u64));
 inner
 }
 };
@@ -12288,7 +12332,7 @@ opentype_loca_table_offsets::Offsets32(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8987822076696059625u64));
+return Err(ParseError::ExcludedBranch(11328034188734904930u64));
 }
 };
 PResult::Ok(opentype_loca_table { offsets })
@@ -12391,7 +12435,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10078755145706786000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1338347005175300217u64));
 inner
 }
 };
@@ -12407,7 +12451,7 @@ x <= 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1977899765720151190u64));
+return Err(ParseError::FalsifiedWhere(15432825464810477099u64));
 }
 };
 let horiz_axis_offset = {
@@ -12455,7 +12499,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8987822076696059625u64));
 inner
 }
 };
@@ -12501,7 +12545,7 @@ opentype_gdef_table_data::Version1_0
 },
 
 1u16 => {
-return Err(ParseError::FailToken(12890902517277365935u64));
+return Err(ParseError::FailToken(10078755145706786000u64));
 },
 
 2u16 => {
@@ -12584,7 +12628,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1977899765720151190u64));
 inner
 }
 };
@@ -12645,7 +12689,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7343323033370781545u64));
 inner
 }
 };
@@ -12704,7 +12748,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12890902517277365935u64));
 inner
 }
 };
@@ -12720,7 +12764,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13049534979177835905u64));
 inner
 }
 };
@@ -12736,7 +12780,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14009314771729697611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9011855507994367971u64));
 inner
 }
 };
@@ -12771,7 +12815,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14796083725261108356u64));
 inner
 }
 };
@@ -12787,7 +12831,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2879885114680241844u64));
 inner
 }
 };
@@ -12803,7 +12847,7 @@ raw > 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18065118697073160549u64));
+return Err(ParseError::FalsifiedWhere(14009314771729697611u64));
 }
 };
 {
@@ -12818,7 +12862,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10973085168168570837u64));
 inner
 }
 };
@@ -12838,7 +12882,7 @@ x == 20u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10603707580403307601u64));
 inner
 }
 };
@@ -12873,7 +12917,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18065118697073160549u64));
 inner
 }
 };
@@ -12889,7 +12933,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10686389193617118447u64));
 inner
 }
 };
@@ -12976,7 +13020,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16128388243093908143u64));
 inner
 }
 };
@@ -12992,7 +13036,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2818918064991511645u64));
 inner
 }
 };
@@ -13047,7 +13091,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14082539304789607227u64));
 inner
 }
 };
@@ -13063,7 +13107,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11072034178440885507u64));
 inner
 }
 };
@@ -13079,7 +13123,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7511456693437940214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4608405370414018463u64));
 inner
 }
 };
@@ -13095,7 +13139,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4418518334087228745u64));
 inner
 }
 };
@@ -13138,7 +13182,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7086880279337729577u64));
 inner
 }
 };
@@ -13162,7 +13206,7 @@ actual == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2154669163482751322u64));
+return Err(ParseError::FalsifiedWhere(7511456693437940214u64));
 }
 };
 PResult::Ok(opentype_svg_table { table_scope, version, svg_document_list })
@@ -13182,7 +13226,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(973408085875818710u64));
 inner
 }
 };
@@ -13217,7 +13261,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(15557503981608772456u64));
 inner
 }
 };
@@ -13233,7 +13277,7 @@ matches!(x, 1u16 | 2u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2154669163482751322u64));
 inner
 }
 };
@@ -13286,7 +13330,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10263667190582992611u64));
 inner
 }
 };
@@ -13302,7 +13346,7 @@ matches!(x, 0u16 | 4096u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5482396765248532989u64));
 inner
 }
 };
@@ -13389,7 +13433,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12275201028130973875u64));
 inner
 }
 };
@@ -13405,7 +13449,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16097120758067046920u64));
 inner
 }
 };
@@ -13421,7 +13465,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9331632426086095927u64));
 inner
 }
 };
@@ -13437,7 +13481,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14959848987246965519u64));
 inner
 }
 };
@@ -13455,7 +13499,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14454034443522724586u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9092905213558799443u64));
 inner
 }
 };
@@ -13522,7 +13566,7 @@ matches!(x, 1)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17544092807091201u64));
 inner
 }
 };
@@ -13563,7 +13607,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17869550927478639832u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10502127387712395480u64));
 inner
 }
 };
@@ -13583,7 +13627,7 @@ size % 4u32 == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13431462572241034712u64));
+return Err(ParseError::FalsifiedWhere(14454034443522724586u64));
 }
 };
 let records = {
@@ -13619,7 +13663,7 @@ matches!(x, 0u16 | 1u16)
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5322124757500927073u64));
 inner
 }
 };
@@ -13639,7 +13683,7 @@ actual == num_recs
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
+return Err(ParseError::FalsifiedWhere(17869550927478639832u64));
 }
 };
 let ratio_range = {
@@ -13763,7 +13807,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14751251992141172493u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13431462572241034712u64));
 inner
 }
 };
@@ -13779,7 +13823,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3433937857563719729u64));
 inner
 }
 };
@@ -13854,7 +13898,7 @@ matches!(x, 1u16..=4u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8997881400116719018u64));
+return Err(ParseError::FalsifiedWhere(13516986665125759073u64));
 }
 };
 let data = match format {
@@ -14018,7 +14062,7 @@ opentype_stat_axis_value_table_data::Format4(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13614619987783239962u64));
+return Err(ParseError::ExcludedBranch(14751251992141172493u64));
 }
 };
 PResult::Ok(opentype_stat_axis_value_table { format, data })
@@ -14044,7 +14088,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5733880678136728614u64));
 inner
 }
 };
@@ -14076,7 +14120,7 @@ opentype_kern_kern_subtable_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(6949960292533894002u64));
+return Err(ParseError::FailToken(8997881400116719018u64));
 }
 };
 PResult::Ok(opentype_kern_kern_subtable { version, length, coverage, data })
@@ -14230,7 +14274,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1347174710810305478u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13614619987783239962u64));
 inner
 }
 };
@@ -14267,7 +14311,7 @@ x != 0u32
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8958899994948144829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6915530142412472120u64));
 inner
 }
 };
@@ -14341,7 +14385,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -14383,8 +14428,11 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15803403730818557393u64));
+1
 }
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -14406,12 +14454,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -14468,7 +14520,7 @@ let b = _input.read_byte()?;
 if b == 31 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8390724546948265409u64));
+return Err(ParseError::ExcludedBranch(6949960292533894002u64));
 }
 };
 let ix1 = {
@@ -14476,7 +14528,7 @@ let b = _input.read_byte()?;
 if b == 139 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6347242493551283856u64));
+return Err(ParseError::ExcludedBranch(1347174710810305478u64));
 }
 };
 vec![ix0, ix1]
@@ -14506,9 +14558,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -14546,7 +14602,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4251627061094365437u64));
+return Err(ParseError::ExcludedBranch(8958899994948144829u64));
 }
 };
 _input.close_peek_context()?;
@@ -14559,7 +14615,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11915580511665106140u64));
+return Err(ParseError::ExcludedBranch(15803403730818557393u64));
 }
 };
 accum.push(next_elem)
@@ -14574,7 +14630,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17324980155911269375u64));
+return Err(ParseError::ExcludedBranch(8390724546948265409u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -14599,7 +14655,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17670535809278048255u64));
+return Err(ParseError::ExcludedBranch(6347242493551283856u64));
 }
 };
 _input.close_peek_context()?;
@@ -14612,7 +14668,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2444204717155307095u64));
+return Err(ParseError::ExcludedBranch(4251627061094365437u64));
 }
 };
 accum.push(next_elem)
@@ -14627,7 +14683,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1278184758971178969u64));
+return Err(ParseError::ExcludedBranch(11915580511665106140u64));
 }
 };
 chars.clone()
@@ -14734,7 +14790,7 @@ deflate_block_data::dynamic_huffman(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4480225125687487743u64));
+return Err(ParseError::ExcludedBranch(17324980155911269375u64));
 }
 };
 PResult::Ok(deflate_block { r#final, r#type, data })
@@ -15870,7 +15926,7 @@ x
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3426398976290336157u64));
+return Err(ParseError::ExcludedBranch(2444204717155307095u64));
 }
 }))
 },
@@ -16022,11 +16078,11 @@ PResult::Ok(match distance_code as u8 {
 },
 
 30u8..=31u8 => {
-return Err(ParseError::FailToken(11250208753083412758u64));
+return Err(ParseError::FailToken(1278184758971178969u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17349123374714965876u64));
+return Err(ParseError::ExcludedBranch(4480225125687487743u64));
 }
 })
 }
@@ -16104,7 +16160,7 @@ let bits = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _inpu
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2153064741293804702u64));
+return Err(ParseError::ExcludedBranch(12879845237981630531u64));
 }
 };
 let distance = start + distance_extra_bits;
@@ -16157,7 +16213,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(1588651938759015246u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3426398976290336157u64));
 inner
 }
 };
@@ -16223,7 +16279,7 @@ matches!(x, 0u16..=32767u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3249387167439447765u64));
+return Err(ParseError::FalsifiedWhere(11250208753083412758u64));
 }
 };
 let variation_regions = {
@@ -16396,7 +16452,7 @@ x <= 1u8
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7744051144774795087u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(17349123374714965876u64));
 inner
 }
 };
@@ -16418,7 +16474,7 @@ u32be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8700288293163706751u64));
+return Err(ParseError::ExcludedBranch(2153064741293804702u64));
 }
 };
 let map_data = {
@@ -16480,7 +16536,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16771529512960957239u64));
+return Err(ParseError::FalsifiedWhere(1588651938759015246u64));
 }
 };
 let tuple_variation_headers = {
@@ -16673,7 +16729,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 1844674407370
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18279137173405083757u64));
+return Err(ParseError::ExcludedBranch(16771529512960957239u64));
 }
 };
 _input.close_peek_context()?;
@@ -16687,7 +16743,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13846498452079501214u64));
+return Err(ParseError::ExcludedBranch(3249387167439447765u64));
 }
 };
 (0u16, [].to_vec())
@@ -16699,7 +16755,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9798710097031164942u64));
+return Err(ParseError::ExcludedBranch(7744051144774795087u64));
 }
 };
 (Decoder107(_input, point_count as u16))?
@@ -16711,7 +16767,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 0u64, 18446744073709551615u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9819345728844658158u64));
+return Err(ParseError::ExcludedBranch(8700288293163706751u64));
 }
 };
 let lo = _input.read_byte()?;
@@ -16719,7 +16775,7 @@ let lo = _input.read_byte()?;
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14954891776835932150u64));
+return Err(ParseError::ExcludedBranch(13846498452079501214u64));
 }
 })
 }
@@ -16849,7 +16905,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9798710097031164942u64));
 inner
 }
 };
@@ -16998,7 +17054,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14984809111992638634u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9819345728844658158u64));
 inner
 }
 };
@@ -17014,7 +17070,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9342187932533045817u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18279137173405083757u64));
 inner
 }
 };
@@ -17070,7 +17126,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13404710972790825894u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(14954891776835932150u64));
 inner
 }
 };
@@ -17086,7 +17142,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2688427941405105545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11046436797737227751u64));
 inner
 }
 };
@@ -17228,7 +17284,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6279463968646665849u64));
+return Err(ParseError::FalsifiedWhere(14984809111992638634u64));
 }
 };
 let table_scope = table_view;
@@ -17244,7 +17300,7 @@ matches!(x, 1u16..=6u16 | 8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10875553067752207222u64));
+return Err(ParseError::FalsifiedWhere(9342187932533045817u64));
 }
 };
 let extension_offset = {
@@ -17297,11 +17353,11 @@ opentype_layout_ground_subst::ReverseChainSingleSubst(inner)
 },
 
 7u16 => {
-return Err(ParseError::FailToken(11323981950571132721u64));
+return Err(ParseError::FailToken(13404710972790825894u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(1179945139148562335u64));
+return Err(ParseError::FailToken(2688427941405105545u64));
 }
 })
 }
@@ -17325,7 +17381,7 @@ opentype_layout_single_subst_subst::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3270685119814653163u64));
+return Err(ParseError::FailToken(6279463968646665849u64));
 }
 };
 PResult::Ok(opentype_layout_single_subst { subst_format, subst })
@@ -17372,7 +17428,7 @@ opentype_layout_multiple_subst_subst::Format1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6821845925776570829u64));
+return Err(ParseError::ExcludedBranch(10875553067752207222u64));
 }
 };
 PResult::Ok(opentype_layout_multiple_subst { table_scope, subst_format, coverage, subst })
@@ -17394,7 +17450,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
+return Err(ParseError::FalsifiedWhere(11323981950571132721u64));
 }
 };
 let coverage = {
@@ -17443,7 +17499,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5653230390980289841u64));
+return Err(ParseError::FalsifiedWhere(1179945139148562335u64));
 }
 };
 let coverage = {
@@ -17501,7 +17557,7 @@ opentype_layout_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(9179996462972575343u64));
+return Err(ParseError::FailToken(3270685119814653163u64));
 }
 };
 PResult::Ok(opentype_layout_sequence_context { table_scope, format, subst })
@@ -17532,7 +17588,7 @@ opentype_layout_chained_sequence_context_subst::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(3675496117133668659u64));
+return Err(ParseError::FailToken(6821845925776570829u64));
 }
 };
 PResult::Ok(opentype_layout_chained_sequence_context { table_scope, format, subst })
@@ -17553,7 +17609,7 @@ subst_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6495907546257147840u64));
+return Err(ParseError::FalsifiedWhere(15898809900392744567u64));
 }
 };
 let table_scope = table_view;
@@ -17684,7 +17740,7 @@ opentype_coverage_table_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(8327471529801851430u64));
+return Err(ParseError::FailToken(5653230390980289841u64));
 }
 };
 PResult::Ok(opentype_coverage_table { coverage_format, data })
@@ -17932,7 +17988,7 @@ opentype_class_def_data::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10310785543736156275u64));
+return Err(ParseError::FailToken(9179996462972575343u64));
 }
 };
 PResult::Ok(opentype_class_def { class_format, data })
@@ -18174,7 +18230,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16594239496794104967u64));
+return Err(ParseError::FalsifiedWhere(3675496117133668659u64));
 }
 };
 let seq_lookup_count = {
@@ -18412,7 +18468,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16529910322175208638u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6495907546257147840u64));
 inner
 }
 };
@@ -18561,7 +18617,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12187643960709778443u64));
+return Err(ParseError::FalsifiedWhere(8327471529801851430u64));
 }
 };
 let table_scope = table_view;
@@ -18577,7 +18633,7 @@ matches!(x, 1u16..=8u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8766708729375264031u64));
+return Err(ParseError::FalsifiedWhere(10310785543736156275u64));
 }
 };
 let extension_offset = {
@@ -18635,11 +18691,11 @@ opentype_layout_ground_pos::ChainedSequenceContext(inner)
 },
 
 9u16 => {
-return Err(ParseError::FailToken(1369437808023015077u64));
+return Err(ParseError::FailToken(16594239496794104967u64));
 },
 
 _ => {
-return Err(ParseError::FailToken(163858356033350300u64));
+return Err(ParseError::FailToken(16529910322175208638u64));
 }
 })
 }
@@ -18663,7 +18719,7 @@ opentype_layout_single_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(888161872995526095u64));
+return Err(ParseError::FailToken(12187643960709778443u64));
 }
 };
 PResult::Ok(opentype_layout_single_pos { pos_format, subtable })
@@ -18688,7 +18744,7 @@ opentype_layout_pair_pos_subtable::Format2(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4770836931378141069u64));
+return Err(ParseError::FailToken(8766708729375264031u64));
 }
 };
 PResult::Ok(opentype_layout_pair_pos { pos_format, subtable })
@@ -18709,7 +18765,7 @@ pos_format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9976720501248819272u64));
+return Err(ParseError::FalsifiedWhere(1369437808023015077u64));
 }
 };
 let table_scope = table_view;
@@ -18751,7 +18807,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3595277668730903043u64));
+return Err(ParseError::FalsifiedWhere(163858356033350300u64));
 }
 };
 let table_scope = table_view;
@@ -18810,7 +18866,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5446531490235636452u64));
+return Err(ParseError::FalsifiedWhere(888161872995526095u64));
 }
 };
 let mark_coverage = {
@@ -18867,7 +18923,7 @@ format == 1u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12530712830475607577u64));
+return Err(ParseError::FalsifiedWhere(4770836931378141069u64));
 }
 };
 let table_scope = table_view;
@@ -19025,7 +19081,7 @@ opentype_layout_anchor_table_table::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(1386817607731947864u64));
+return Err(ParseError::FailToken(9976720501248819272u64));
 }
 };
 PResult::Ok(opentype_layout_anchor_table { anchor_format, table })
@@ -19173,7 +19229,7 @@ let b = _input.read_byte()?;
 if b == 128 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4795509455376621436u64));
+return Err(ParseError::ExcludedBranch(3595277668730903043u64));
 }
 };
 let arg1 = {
@@ -19181,7 +19237,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3923207427992258326u64));
+return Err(ParseError::ExcludedBranch(5446531490235636452u64));
 }
 };
 (arg0, arg1)
@@ -20119,7 +20175,7 @@ x == 1u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5174369311102857850u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12530712830475607577u64));
 inner
 }
 };
@@ -20210,7 +20266,7 @@ opentype_gdef_caret_value_data::Format3(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(15995337135637623051u64));
+return Err(ParseError::FailToken(1386817607731947864u64));
 }
 };
 PResult::Ok(opentype_gdef_caret_value { format, data })
@@ -20459,7 +20515,7 @@ opentype_layout_base_coord_data::DeviceData(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(4063460887563813446u64));
+return Err(ParseError::FailToken(4795509455376621436u64));
 }
 };
 PResult::Ok(opentype_layout_base_coord { table_scope, format, coordinate, data })
@@ -20523,7 +20579,7 @@ opentype_gasp_gasp_record_range_gasp_behavior::Version1(inner)
 },
 
 _ => {
-return Err(ParseError::FailToken(10243418979491025991u64));
+return Err(ParseError::FailToken(3923207427992258326u64));
 }
 };
 PResult::Ok(opentype_gasp_gasp_record { range_max_ppem, range_gasp_behavior })
@@ -21172,7 +21228,7 @@ matches!(x, 1u16..=2u16)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6726475111737435495u64));
+return Err(ParseError::FalsifiedWhere(5174369311102857850u64));
 }
 };
 let max_twilight_points = {
@@ -21215,7 +21271,7 @@ x <= 16u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(3702191162545267776u64));
+return Err(ParseError::FalsifiedWhere(15995337135637623051u64));
 }
 };
 PResult::Ok(opentype_maxp_version1 { max_points, max_contours, max_composite_points, max_composite_contours, max_zones, max_twilight_points, max_storage, max_function_defs, max_instruction_defs, max_stack_elements, max_size_of_instructions, max_component_elements, max_component_depth })
@@ -21311,7 +21367,7 @@ opentype_cmap_subtable_data::Format14(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14926982082392674388u64));
+return Err(ParseError::ExcludedBranch(4063460887563813446u64));
 }
 };
 PResult::Ok(opentype_cmap_subtable { table_scope, format, data })
@@ -21334,7 +21390,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10243418979491025991u64));
 inner
 }
 };
@@ -21359,7 +21415,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2229770659268432585u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(6726475111737435495u64));
 inner
 }
 };
@@ -21402,7 +21458,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(3702191162545267776u64));
 inner
 }
 };
@@ -21417,7 +21473,7 @@ let l = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7200474585457206375u64));
+return Err(ParseError::FalsifiedWhere(14926982082392674388u64));
 })
 })())?;
 _input.close_peek_context()?;
@@ -21438,7 +21494,7 @@ x == 2u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13281230340934385869u64));
 inner
 }
 };
@@ -21454,7 +21510,7 @@ let l = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13264741506377240721u64));
+return Err(ParseError::FalsifiedWhere(2229770659268432585u64));
 }
 };
 let language = {
@@ -21533,9 +21589,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21575,7 +21635,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(8862619478422395719u64));
 inner
 }
 };
@@ -21600,7 +21660,7 @@ x == 4u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7200474585457206375u64));
 inner
 }
 };
@@ -21654,7 +21714,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13266006752343456203u64));
 inner
 }
 };
@@ -21696,9 +21756,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -21735,7 +21799,7 @@ x == 6u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13264741506377240721u64));
 inner
 }
 };
@@ -21786,7 +21850,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16152968816646114000u64));
 inner
 }
 };
@@ -21802,7 +21866,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12815986247090051214u64));
 inner
 }
 };
@@ -21827,7 +21891,7 @@ x == 8u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(2508979988921372290u64));
 inner
 }
 };
@@ -21843,7 +21907,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(10057441536650509049u64));
 inner
 }
 };
@@ -21898,7 +21962,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11815677057767015929u64));
 inner
 }
 };
@@ -21914,7 +21978,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(829032137919921844u64));
 inner
 }
 };
@@ -21939,7 +22003,7 @@ x == 10u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5170050512307443704u64));
 inner
 }
 };
@@ -21955,7 +22019,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(18440348483137307888u64));
 inner
 }
 };
@@ -22009,7 +22073,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(11309019127259385425u64));
 inner
 }
 };
@@ -22025,7 +22089,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5159371628350638829u64));
 inner
 }
 };
@@ -22050,7 +22114,7 @@ x == 12u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(7762269623995317946u64));
 inner
 }
 };
@@ -22066,7 +22130,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16134612799304961491u64));
 inner
 }
 };
@@ -22113,7 +22177,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5308477118997970057u64));
 inner
 }
 };
@@ -22129,7 +22193,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(16190528142421852545u64));
 inner
 }
 };
@@ -22154,7 +22218,7 @@ x == 13u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(5955168674639093440u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(173922233423713068u64));
 inner
 }
 };
@@ -22170,7 +22234,7 @@ x == 0u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(4471438437047399494u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(12540117573097456360u64));
 inner
 }
 };
@@ -22217,7 +22281,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(13319523888327217639u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(515819609734101411u64));
 inner
 }
 };
@@ -22242,7 +22306,7 @@ x == 14u16
 if is_valid {
 inner
 } else {
-log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(824589811577025210u64));
+log::error!("expect-level value assertion failed: {}", ParseError::FalsifiedWhere(9277543013594125416u64));
 inner
 }
 };
@@ -22409,7 +22473,7 @@ matches!(sh_type, 0u32..=11u32 | 14u32..=18u32 | 1610612736u32..=4294967295u32)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4649034608147552416u64));
+return Err(ParseError::FalsifiedWhere(5955168674639093440u64));
 })
 }
 
@@ -22427,7 +22491,7 @@ elf_types_elf_full::Full64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16096650375442290768u64));
+return Err(ParseError::ExcludedBranch(4471438437047399494u64));
 }
 })
 }
@@ -22446,7 +22510,7 @@ elf_types_elf_addr::Addr64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14339975513692068616u64));
+return Err(ParseError::ExcludedBranch(13319523888327217639u64));
 }
 })
 }
@@ -22465,7 +22529,7 @@ elf_types_elf_off::Off64(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16299205781335471965u64));
+return Err(ParseError::ExcludedBranch(824589811577025210u64));
 }
 })
 }
@@ -22595,7 +22659,7 @@ let b = _input.read_byte()?;
 if b == 127 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1479153625485860551u64));
+return Err(ParseError::ExcludedBranch(4649034608147552416u64));
 }
 };
 let arg1 = {
@@ -22603,7 +22667,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12668500753644823654u64));
+return Err(ParseError::ExcludedBranch(16096650375442290768u64));
 }
 };
 let arg2 = {
@@ -22611,7 +22675,7 @@ let b = _input.read_byte()?;
 if b == 76 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8094248233631264621u64));
+return Err(ParseError::ExcludedBranch(14339975513692068616u64));
 }
 };
 let arg3 = {
@@ -22619,7 +22683,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1844274570107701975u64));
+return Err(ParseError::ExcludedBranch(16299205781335471965u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -22634,12 +22698,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -22651,7 +22719,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4839194687019048322u64));
+return Err(ParseError::ExcludedBranch(1479153625485860551u64));
 }
 };
 accum.push(next_elem)
@@ -22674,7 +22742,7 @@ matches!(r#type, 0u16..=4u16 | 65024u16..=65279u16 | 65280u16..=65535u16)
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7230273548678969972u64));
+return Err(ParseError::FalsifiedWhere(12668500753644823654u64));
 })
 }
 
@@ -22693,7 +22761,7 @@ x <= 1u32
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14903563845775542749u64));
+return Err(ParseError::FalsifiedWhere(8094248233631264621u64));
 })
 }
 
@@ -22723,7 +22791,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(1969670610881234889u64));
+return Err(ParseError::FalsifiedWhere(1844274570107701975u64));
 })
 }
 
@@ -22737,7 +22805,7 @@ x <= 2u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9038350950373664822u64));
+return Err(ParseError::FalsifiedWhere(4839194687019048322u64));
 })
 }
 
@@ -22751,7 +22819,7 @@ x <= 1u8
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7281717462557989541u64));
+return Err(ParseError::FalsifiedWhere(7230273548678969972u64));
 })
 }
 
@@ -22812,7 +22880,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15510952803379905659u64));
+return Err(ParseError::ExcludedBranch(14903563845775542749u64));
 }
 };
 _input.close_peek_context()?;
@@ -22825,7 +22893,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14681668243282477517u64));
+return Err(ParseError::ExcludedBranch(1969670610881234889u64));
 }
 };
 accum.push(next_elem)
@@ -22841,12 +22909,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -22858,7 +22930,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6209434968043366837u64));
+return Err(ParseError::ExcludedBranch(9038350950373664822u64));
 }
 };
 accum.push(next_elem)
@@ -22893,7 +22965,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16474038368490899078u64));
+return Err(ParseError::ExcludedBranch(7281717462557989541u64));
 }
 };
 _input.close_peek_context()?;
@@ -22906,7 +22978,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12217686503432178884u64));
+return Err(ParseError::ExcludedBranch(15510952803379905659u64));
 }
 };
 accum.push(next_elem)
@@ -22922,12 +22994,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -22939,7 +23015,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8399572043096922156u64));
+return Err(ParseError::ExcludedBranch(14681668243282477517u64));
 }
 };
 accum.push(next_elem)
@@ -22974,7 +23050,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7832192330748800109u64));
+return Err(ParseError::ExcludedBranch(6209434968043366837u64));
 }
 };
 _input.close_peek_context()?;
@@ -22987,7 +23063,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9815657591077818003u64));
+return Err(ParseError::ExcludedBranch(16474038368490899078u64));
 }
 };
 accum.push(next_elem)
@@ -23003,12 +23079,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23020,7 +23100,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2197379665604321609u64));
+return Err(ParseError::ExcludedBranch(12217686503432178884u64));
 }
 };
 accum.push(next_elem)
@@ -23043,10 +23123,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16624020278885696461u64));
+return Err(ParseError::ExcludedBranch(8399572043096922156u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8179432974518885725u64)
+try_sub!(bit as u8, 48u8, 9815657591077818003u64)
 };
 let _o9 = {
 let bit = {
@@ -23054,10 +23134,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5152282179373241998u64));
+return Err(ParseError::ExcludedBranch(2197379665604321609u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16909208071962620789u64)
+try_sub!(bit as u8, 48u8, 14485842416732585139u64)
 };
 let _o8 = {
 let bit = {
@@ -23065,10 +23145,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7933266403838225878u64));
+return Err(ParseError::ExcludedBranch(8179432974518885725u64));
 }
 };
-try_sub!(bit as u8, 48u8, 9041056097467752267u64)
+try_sub!(bit as u8, 48u8, 13780055874544357936u64)
 };
 let _o7 = {
 let bit = {
@@ -23076,10 +23156,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5025197102194587315u64));
+return Err(ParseError::ExcludedBranch(16909208071962620789u64));
 }
 };
-try_sub!(bit as u8, 48u8, 15252450768049745444u64)
+try_sub!(bit as u8, 48u8, 12100308281236296642u64)
 };
 let _o6 = {
 let bit = {
@@ -23087,10 +23167,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5599331855309773603u64));
+return Err(ParseError::ExcludedBranch(9041056097467752267u64));
 }
 };
-try_sub!(bit as u8, 48u8, 2988545765690796708u64)
+try_sub!(bit as u8, 48u8, 3810055094392728880u64)
 };
 let _o5 = {
 let bit = {
@@ -23098,10 +23178,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6215067399528787845u64));
+return Err(ParseError::ExcludedBranch(15252450768049745444u64));
 }
 };
-try_sub!(bit as u8, 48u8, 3566920116549027235u64)
+try_sub!(bit as u8, 48u8, 16437491640759399344u64)
 };
 let _o4 = {
 let bit = {
@@ -23109,10 +23189,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7979287392867129207u64));
+return Err(ParseError::ExcludedBranch(2988545765690796708u64));
 }
 };
-try_sub!(bit as u8, 48u8, 16671136947067655757u64)
+try_sub!(bit as u8, 48u8, 17176374570344757031u64)
 };
 let _o3 = {
 let bit = {
@@ -23120,10 +23200,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10721249873135158334u64));
+return Err(ParseError::ExcludedBranch(3566920116549027235u64));
 }
 };
-try_sub!(bit as u8, 48u8, 441240706992005484u64)
+try_sub!(bit as u8, 48u8, 3653195934333285574u64)
 };
 let _o2 = {
 let bit = {
@@ -23131,10 +23211,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3950014938140253048u64));
+return Err(ParseError::ExcludedBranch(16671136947067655757u64));
 }
 };
-try_sub!(bit as u8, 48u8, 11079395374415646537u64)
+try_sub!(bit as u8, 48u8, 8898504689444561451u64)
 };
 let _o1 = {
 let bit = {
@@ -23142,10 +23222,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(757122060916971772u64));
+return Err(ParseError::ExcludedBranch(441240706992005484u64));
 }
 };
-try_sub!(bit as u8, 48u8, 8812292064350598352u64)
+try_sub!(bit as u8, 48u8, 10046433636842398056u64)
 };
 let _o0 = {
 let bit = {
@@ -23153,10 +23233,10 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10645729856418057640u64));
+return Err(ParseError::ExcludedBranch(11079395374415646537u64));
 }
 };
-try_sub!(bit as u8, 48u8, 4316175446384649956u64)
+try_sub!(bit as u8, 48u8, 5986772336072340665u64)
 };
 (Decoder268(_input))?;
 let value = (((0u8 as u32) << 3u32 | (_oA as u32)) << 6u32 | (_o9 as u32) << 3u32 | (_o8 as u32)) << 24u32 | (((_o7 as u32) << 3u32 | (_o6 as u32)) << 6u32 | (_o5 as u32) << 3u32 | (_o4 as u32)) << 12u32 | ((_o3 as u32) << 3u32 | (_o2 as u32)) << 6u32 | (_o1 as u32) << 3u32 | (_o0 as u32);
@@ -23184,7 +23264,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13311790038092155306u64));
+return Err(ParseError::ExcludedBranch(8812292064350598352u64));
 }
 };
 _input.close_peek_context()?;
@@ -23197,7 +23277,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4598583460226006268u64));
+return Err(ParseError::ExcludedBranch(10645729856418057640u64));
 }
 };
 accum.push(next_elem)
@@ -23213,12 +23293,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23230,7 +23314,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(275550262640764009u64));
+return Err(ParseError::ExcludedBranch(2908689796368760670u64));
 }
 };
 accum.push(next_elem)
@@ -23265,7 +23349,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11490274700962832028u64));
+return Err(ParseError::ExcludedBranch(4316175446384649956u64));
 }
 };
 _input.close_peek_context()?;
@@ -23278,7 +23362,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15680765559661576738u64));
+return Err(ParseError::ExcludedBranch(13311790038092155306u64));
 }
 };
 accum.push(next_elem)
@@ -23294,12 +23378,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23311,7 +23399,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1587806253186841834u64));
+return Err(ParseError::ExcludedBranch(4598583460226006268u64));
 }
 };
 accum.push(next_elem)
@@ -23340,7 +23428,7 @@ let b = _input.read_byte()?;
 if b == 117 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11297314001547702431u64));
+return Err(ParseError::ExcludedBranch(275550262640764009u64));
 }
 };
 let arg1 = {
@@ -23348,7 +23436,7 @@ let b = _input.read_byte()?;
 if b == 115 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18399269270080151498u64));
+return Err(ParseError::ExcludedBranch(11490274700962832028u64));
 }
 };
 let arg2 = {
@@ -23356,7 +23444,7 @@ let b = _input.read_byte()?;
 if b == 116 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(30874382969105279u64));
+return Err(ParseError::ExcludedBranch(15680765559661576738u64));
 }
 };
 let arg3 = {
@@ -23364,7 +23452,7 @@ let b = _input.read_byte()?;
 if b == 97 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9791114990321288281u64));
+return Err(ParseError::ExcludedBranch(1587806253186841834u64));
 }
 };
 let arg4 = {
@@ -23372,7 +23460,7 @@ let b = _input.read_byte()?;
 if b == 114 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1595897747104696027u64));
+return Err(ParseError::ExcludedBranch(11297314001547702431u64));
 }
 };
 let arg5 = {
@@ -23380,7 +23468,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2481175643332430741u64));
+return Err(ParseError::ExcludedBranch(18399269270080151498u64));
 }
 };
 (arg0, arg1, arg2, arg3, arg4, arg5)
@@ -23391,7 +23479,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15702070659753069395u64));
+return Err(ParseError::ExcludedBranch(30874382969105279u64));
 }
 };
 let arg1 = {
@@ -23399,7 +23487,7 @@ let b = _input.read_byte()?;
 if b == 48 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4338497647520366709u64));
+return Err(ParseError::ExcludedBranch(9791114990321288281u64));
 }
 };
 (arg0, arg1)
@@ -23438,7 +23526,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14600508952542130472u64));
+return Err(ParseError::ExcludedBranch(1595897747104696027u64));
 }
 };
 _input.close_peek_context()?;
@@ -23451,7 +23539,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(460669108121189046u64));
+return Err(ParseError::ExcludedBranch(2481175643332430741u64));
 }
 };
 accum.push(next_elem)
@@ -23467,12 +23555,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23484,7 +23576,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8971553008180040990u64));
+return Err(ParseError::ExcludedBranch(15702070659753069395u64));
 }
 };
 accum.push(next_elem)
@@ -23519,7 +23611,7 @@ byte if ((ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(byte))
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1310624491311340594u64));
+return Err(ParseError::ExcludedBranch(4338497647520366709u64));
 }
 };
 _input.close_peek_context()?;
@@ -23532,7 +23624,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([71776119061217280u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11225936372640404826u64));
+return Err(ParseError::ExcludedBranch(14600508952542130472u64));
 }
 };
 accum.push(next_elem)
@@ -23548,12 +23640,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23565,7 +23661,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1029952099207838423u64));
+return Err(ParseError::ExcludedBranch(460669108121189046u64));
 }
 };
 accum.push(next_elem)
@@ -23595,7 +23691,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17327099206515189757u64));
+return Err(ParseError::ExcludedBranch(8971553008180040990u64));
 }
 };
 accum.push(next_elem)
@@ -23616,7 +23712,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -23626,8 +23723,11 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14652068248613900169u64));
+0
 }
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -23641,7 +23741,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3089242474000390105u64));
+return Err(ParseError::ExcludedBranch(1310624491311340594u64));
 }
 };
 accum.push(next_elem)
@@ -23657,12 +23757,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23674,7 +23778,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8785324329127396734u64));
+return Err(ParseError::ExcludedBranch(11225936372640404826u64));
 }
 };
 accum.push(next_elem)
@@ -23693,7 +23797,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if (ByteSet::from_bits([4294967297u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14646838598150249928u64));
+return Err(ParseError::ExcludedBranch(1029952099207838423u64));
 })
 }
 
@@ -23705,7 +23809,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 byte if (byte != 0) => {
 0
 },
@@ -23715,8 +23820,11 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14949659785259585833u64));
+1
+}
 }
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23728,7 +23836,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(562280208679883345u64));
+return Err(ParseError::ExcludedBranch(17327099206515189757u64));
 }
 };
 accum.push(next_elem)
@@ -23743,12 +23851,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -23760,7 +23872,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1426091679331900812u64));
+return Err(ParseError::ExcludedBranch(14652068248613900169u64));
 }
 };
 accum.push(next_elem)
@@ -23791,7 +23903,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5775567136742802567u64));
+return Err(ParseError::ExcludedBranch(3089242474000390105u64));
 }
 };
 _input.close_peek_context()?;
@@ -23804,7 +23916,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12616585043782016404u64));
+return Err(ParseError::ExcludedBranch(8785324329127396734u64));
 }
 };
 accum.push(next_elem)
@@ -23819,12 +23931,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 1
 } else {
 0
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -23838,7 +23954,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13260893460097040029u64));
+return Err(ParseError::ExcludedBranch(14646838598150249928u64));
 }
 };
 accum.push(next_elem)
@@ -23867,7 +23983,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15362228896620571409u64));
+return Err(ParseError::ExcludedBranch(12616585043782016404u64));
 }
 };
 _input.close_peek_context()?;
@@ -23881,7 +23997,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5931637197703965434u64));
+return Err(ParseError::ExcludedBranch(14949659785259585833u64));
 }
 };
 let arg1 = {
@@ -23889,7 +24005,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(144820728017547457u64));
+return Err(ParseError::ExcludedBranch(562280208679883345u64));
 }
 };
 tiff_byte_order::le(arg0, arg1)
@@ -23901,7 +24017,7 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17376845638706524656u64));
+return Err(ParseError::ExcludedBranch(1426091679331900812u64));
 }
 };
 let arg1 = {
@@ -23909,14 +24025,14 @@ let b = _input.read_byte()?;
 if b == 77 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9452754313802575046u64));
+return Err(ParseError::ExcludedBranch(5775567136742802567u64));
 }
 };
 tiff_byte_order::be(arg0, arg1)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17715157964684782708u64));
+return Err(ParseError::ExcludedBranch(13260893460097040029u64));
 }
 })
 }
@@ -23975,9 +24091,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24035,9 +24155,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24062,9 +24186,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24101,9 +24229,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24125,7 +24257,7 @@ let b = _input.read_byte()?;
 Some(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9465826900165497155u64));
+return Err(ParseError::ExcludedBranch(5931637197703965434u64));
 })
 } else {
 None
@@ -24147,7 +24279,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14571733789425208869u64));
+return Err(ParseError::FalsifiedWhere(144820728017547457u64));
 }
 };
 let tag = (Decoder314(_input))?;
@@ -24179,7 +24311,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(6611121695530188940u64));
+return Err(ParseError::FalsifiedWhere(17376845638706524656u64));
 }
 };
 let tag = (Decoder286(_input))?;
@@ -24268,9 +24400,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24311,7 +24447,7 @@ length <= 2147483647u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9660375186237087060u64));
+return Err(ParseError::FalsifiedWhere(9452754313802575046u64));
 }
 };
 let tag = (Decoder284(_input))?;
@@ -24345,7 +24481,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11684704871632490773u64));
+return Err(ParseError::FalsifiedWhere(15362228896620571409u64));
 }
 };
 let flags = {
@@ -24388,7 +24524,7 @@ length == 0u32
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17081364943144677526u64));
+return Err(ParseError::FalsifiedWhere(17715157964684782708u64));
 }
 };
 let tag = (Decoder283(_input))?;
@@ -24406,7 +24542,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9710347097769530785u64));
+return Err(ParseError::ExcludedBranch(9465826900165497155u64));
 }
 };
 let arg1 = {
@@ -24414,7 +24550,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2466404913032252300u64));
+return Err(ParseError::ExcludedBranch(14571733789425208869u64));
 }
 };
 let arg2 = {
@@ -24422,7 +24558,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4149374297771033461u64));
+return Err(ParseError::ExcludedBranch(6611121695530188940u64));
 }
 };
 let arg3 = {
@@ -24430,7 +24566,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5869833854865239916u64));
+return Err(ParseError::ExcludedBranch(9660375186237087060u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24443,7 +24579,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13372240079418200167u64));
+return Err(ParseError::ExcludedBranch(11684704871632490773u64));
 }
 };
 let arg1 = {
@@ -24451,7 +24587,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10504805981668764726u64));
+return Err(ParseError::ExcludedBranch(17081364943144677526u64));
 }
 };
 let arg2 = {
@@ -24459,7 +24595,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5250529337043320049u64));
+return Err(ParseError::ExcludedBranch(9710347097769530785u64));
 }
 };
 let arg3 = {
@@ -24467,7 +24603,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4159150678276994707u64));
+return Err(ParseError::ExcludedBranch(2466404913032252300u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -24479,9 +24615,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24509,7 +24649,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5633181162991720115u64));
+return Err(ParseError::ExcludedBranch(4149374297771033461u64));
 }
 };
 let arg1 = {
@@ -24517,7 +24657,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13699185545200670755u64));
+return Err(ParseError::ExcludedBranch(5869833854865239916u64));
 }
 };
 let arg2 = {
@@ -24525,7 +24665,7 @@ let b = _input.read_byte()?;
 if b == 65 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1705816027536538342u64));
+return Err(ParseError::ExcludedBranch(13372240079418200167u64));
 }
 };
 let arg3 = {
@@ -24533,7 +24673,7 @@ let b = _input.read_byte()?;
 if b == 84 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5442671660922928935u64));
+return Err(ParseError::ExcludedBranch(10504805981668764726u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24557,7 +24697,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15425278341212694869u64));
+return Err(ParseError::ExcludedBranch(5250529337043320049u64));
 }
 };
 let arg1 = {
@@ -24565,7 +24705,7 @@ let b = _input.read_byte()?;
 if b == 69 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17519877619184542224u64));
+return Err(ParseError::ExcludedBranch(4159150678276994707u64));
 }
 };
 let arg2 = {
@@ -24573,7 +24713,7 @@ let b = _input.read_byte()?;
 if b == 78 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2881491179107816928u64));
+return Err(ParseError::ExcludedBranch(5633181162991720115u64));
 }
 };
 let arg3 = {
@@ -24581,7 +24721,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3382972670024593436u64));
+return Err(ParseError::ExcludedBranch(13699185545200670755u64));
 }
 };
 (arg0, arg1, arg2, arg3)
@@ -24612,7 +24752,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([0u64, 576460743847706622u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3782015444980282771u64));
+return Err(ParseError::ExcludedBranch(1705816027536538342u64));
 }
 };
 accum.push(next_elem)
@@ -24626,9 +24766,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+1
+} else {
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24690,9 +24834,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -24713,7 +24861,7 @@ png_trns::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1977196682923428575u64));
+return Err(ParseError::ExcludedBranch(5442671660922928935u64));
 }
 })
 }
@@ -24773,7 +24921,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14908034280634314212u64));
+return Err(ParseError::ExcludedBranch(15425278341212694869u64));
 }
 };
 val.clone()
@@ -24783,7 +24931,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3857251694269754536u64));
+return Err(ParseError::ExcludedBranch(17519877619184542224u64));
 }
 };
 let compressed_profile = (Decoder313(_input))?;
@@ -24842,7 +24990,7 @@ png_sbit::color_type_6(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5041932778480497827u64));
+return Err(ParseError::ExcludedBranch(2881491179107816928u64));
 }
 })
 }
@@ -24858,7 +25006,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(4514882359072253410u64));
+return Err(ParseError::FalsifiedWhere(3382972670024593436u64));
 }
 };
 PResult::Ok(png_srgb { rendering_intent })
@@ -24873,7 +25021,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13286112843953025473u64));
+return Err(ParseError::ExcludedBranch(3782015444980282771u64));
 }
 };
 val.clone()
@@ -24883,7 +25031,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([3u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15541745679144160988u64));
+return Err(ParseError::ExcludedBranch(1977196682923428575u64));
 }
 };
 let compression_method = {
@@ -24891,7 +25039,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16366772103869684910u64));
+return Err(ParseError::ExcludedBranch(14908034280634314212u64));
 }
 };
 let language_tag = {
@@ -24911,7 +25059,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16354405091856567045u64));
+return Err(ParseError::ExcludedBranch(3857251694269754536u64));
 }
 };
 _input.close_peek_context()?;
@@ -24924,7 +25072,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15047091743774256727u64));
+return Err(ParseError::ExcludedBranch(5041932778480497827u64));
 }
 };
 accum.push(next_elem)
@@ -24939,7 +25087,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(89425857491903975u64));
+return Err(ParseError::ExcludedBranch(4514882359072253410u64));
 }
 };
 chars.clone()
@@ -24951,7 +25099,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4693381172248071257u64));
+return Err(ParseError::ExcludedBranch(13286112843953025473u64));
 }
 };
 val.clone()
@@ -24989,9 +25137,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25038,7 +25190,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10755314521203959634u64));
+return Err(ParseError::ExcludedBranch(15541745679144160988u64));
 }
 };
 val.clone()
@@ -25048,9 +25200,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25076,7 +25232,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+return Err(ParseError::ExcludedBranch(16366772103869684910u64));
 }
 };
 val.clone()
@@ -25086,7 +25242,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+return Err(ParseError::ExcludedBranch(16354405091856567045u64));
 }
 };
 let compressed_text = {
@@ -25170,7 +25326,7 @@ png_bkgd::color_type_3(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+return Err(ParseError::ExcludedBranch(15047091743774256727u64));
 }
 })
 }
@@ -25182,9 +25338,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25227,7 +25387,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+return Err(ParseError::ExcludedBranch(89425857491903975u64));
 }
 };
 val.clone()
@@ -25237,7 +25397,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([65792u64, 0u64, 0u64, 0u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+return Err(ParseError::ExcludedBranch(4693381172248071257u64));
 }
 };
 let palette = match sample_depth {
@@ -25247,9 +25407,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25282,9 +25446,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -25324,7 +25492,7 @@ png_splt_palette::sample_depth_u16(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+return Err(ParseError::ExcludedBranch(10755314521203959634u64));
 }
 };
 PResult::Ok(png_splt { palette_name, sample_depth, palette })
@@ -25828,6 +25996,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(6506136565977297327u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17617969929120925997u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9726369214549228587u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7323683635844484191u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2785003688991605442u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(17143373953369837893u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(4319635423750959827u64));
 }
@@ -26263,64 +26467,28 @@ return Err(ParseError::ExcludedBranch(18287039256282529512u64));
 _ => {
 return Err(ParseError::ExcludedBranch(6040541316788286267u64));
 }
+};
+_input.close_peek_context()?;
+ret
 }
-},
-
-_ => {
+};
+if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+break
+} else {
+let next_elem = {
+let b = _input.read_byte()?;
+if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
+b
+} else {
 return Err(ParseError::ExcludedBranch(6926344996361682930u64));
 }
+};
+accum.push(next_elem)
+}
+};
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
+PResult::Ok(accum)
 }
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1335666833550050804u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(12949211704949756849u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4317621489266312319u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(868434092978367357u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(496554245154466536u64));
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
-break
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
-b
-} else {
-return Err(ParseError::ExcludedBranch(8244423856248085319u64));
-}
-};
-accum.push(next_elem)
-}
-};
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
-PResult::Ok(accum)
-}
 
 /// d#303
 fn Decoder303(_input: &mut Parser<'_>) -> Result<Vec<u8>, ParseError> {
@@ -26806,6 +26974,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(1335666833550050804u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12949211704949756849u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4317621489266312319u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(868434092978367357u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(496554245154466536u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(8244423856248085319u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(14587337454519331439u64));
 }
@@ -27241,42 +27445,6 @@ return Err(ParseError::ExcludedBranch(3970524133912495743u64));
 _ => {
 return Err(ParseError::ExcludedBranch(10022572355386706896u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7175325427369635964u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(10941190781838111798u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(8533828000951561331u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(7620563226324297760u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(3141147280724933447u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5155365750119375266u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -27290,7 +27458,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+return Err(ParseError::ExcludedBranch(7175325427369635964u64));
 }
 };
 accum.push(next_elem)
@@ -27316,7 +27484,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9286045119570450224u64));
+return Err(ParseError::FalsifiedWhere(10941190781838111798u64));
 }
 };
 let flags = {
@@ -27829,6 +27997,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(8533828000951561331u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(7620563226324297760u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3141147280724933447u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(5155365750119375266u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(6019636780841875619u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9286045119570450224u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(12351156548319118754u64));
 }
@@ -28264,42 +28468,6 @@ return Err(ParseError::ExcludedBranch(7619374930571283120u64));
 _ => {
 return Err(ParseError::ExcludedBranch(5502272810018950495u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9422091606538556682u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(1986031727359985319u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(2609726213773413101u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4688564412461098550u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4942686269660057715u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(9251320185524837870u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -28313,7 +28481,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+return Err(ParseError::ExcludedBranch(9422091606538556682u64));
 }
 };
 accum.push(next_elem)
@@ -28807,6 +28975,42 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(1986031727359985319u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(2609726213773413101u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4688564412461098550u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(4942686269660057715u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9251320185524837870u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(16934907723271638747u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(12709578918531114377u64));
 }
@@ -29242,63 +29446,27 @@ return Err(ParseError::ExcludedBranch(14445026714989735755u64));
 _ => {
 return Err(ParseError::ExcludedBranch(7573348369521592997u64));
 }
+};
+_input.close_peek_context()?;
+ret
 }
-},
-
-_ => {
+};
+if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
+break
+} else {
+let next_elem = {
+let b = _input.read_byte()?;
+if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
+b
+} else {
 return Err(ParseError::ExcludedBranch(2912602219218223367u64));
 }
+};
+accum.push(next_elem)
 }
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(15885886181646629118u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13594649006224468849u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14349391981174483355u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(10927780046062734427u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(13819997351842221509u64));
-}
-};
-_input.close_peek_context()?;
-ret
-}
-};
-if (repeat_between_finished(reps_left == 0, accum.len(), 1u32 as usize, 79u32 as usize))? {
-break
-} else {
-let next_elem = {
-let b = _input.read_byte()?;
-if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
-b
-} else {
-return Err(ParseError::ExcludedBranch(11959902760514814588u64));
-}
-};
-accum.push(next_elem)
-}
-};
-(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
-PResult::Ok(accum)
+};
+(repeat_between_finished(true, accum.len(), 1u32 as usize, 79u32 as usize))?;
+PResult::Ok(accum)
 }
 
 /// d#307
@@ -29350,7 +29518,7 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+return Err(ParseError::ExcludedBranch(15885886181646629118u64));
 }
 };
 _input.close_peek_context()?;
@@ -29383,7 +29551,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12268471799124361536u64));
+return Err(ParseError::FalsifiedWhere(13594649006224468849u64));
 }
 };
 let flags = {
@@ -29419,7 +29587,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 byte if ((ByteSet::from_bits([18446744073709551614u64, 18446744073709551615u64, 0u64, 0u64])).contains(byte)) => {
 0
 },
@@ -29457,8 +29626,11 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+1
+}
 }
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -29486,7 +29658,8 @@ while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
 {
-let ret = match _input.read_byte()? {
+let ret = if _input.remaining() > 0 {
+match _input.read_byte()? {
 0u8 => {
 0
 },
@@ -29528,8 +29701,11 @@ byte if ((ByteSet::from_bits([0u64, 0u64, 0u64, 3940649673949184u64])).contains(
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+1
 }
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -30029,6 +30205,54 @@ byte if ((ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 1
 79
 },
 
+_ => {
+return Err(ParseError::ExcludedBranch(14349391981174483355u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(10927780046062734427u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(13819997351842221509u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(11959902760514814588u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(14114750189009003637u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(12268471799124361536u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(9620443865397033050u64));
+}
+}
+},
+
+_ => {
+return Err(ParseError::ExcludedBranch(3999778194527899420u64));
+}
+}
+},
+
 _ => {
 return Err(ParseError::ExcludedBranch(3933597635930613605u64));
 }
@@ -30452,54 +30676,6 @@ return Err(ParseError::ExcludedBranch(14916894554939814670u64));
 _ => {
 return Err(ParseError::ExcludedBranch(10473830801714814973u64));
 }
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(5334325531610156978u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16975008930446149745u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(760820951392925727u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(14363790737598139216u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(4600414761378562541u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(18313399323903636110u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(15786118691017431738u64));
-}
-}
-},
-
-_ => {
-return Err(ParseError::ExcludedBranch(16165934354425559621u64));
-}
 };
 _input.close_peek_context()?;
 ret
@@ -30513,7 +30689,7 @@ let b = _input.read_byte()?;
 if (ByteSet::from_bits([18446744069414584320u64, 9223372036854775807u64, 18446744065119617024u64, 18446744073709551615u64])).contains(b) {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16399036514137665776u64));
+return Err(ParseError::ExcludedBranch(5334325531610156978u64));
 }
 };
 accum.push(next_elem)
@@ -30539,7 +30715,7 @@ method_info.compression_method == 8u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7931358881575056193u64));
+return Err(ParseError::FalsifiedWhere(16975008930446149745u64));
 }
 };
 let flags = {
@@ -30575,7 +30751,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17863486658382945784u64));
+return Err(ParseError::ExcludedBranch(760820951392925727u64));
 }
 };
 let arg1 = {
@@ -30583,7 +30759,7 @@ let b = _input.read_byte()?;
 if b == 72 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11515797873012483658u64));
+return Err(ParseError::ExcludedBranch(14363790737598139216u64));
 }
 };
 let arg2 = {
@@ -30591,7 +30767,7 @@ let b = _input.read_byte()?;
 if b == 68 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8584109755265226714u64));
+return Err(ParseError::ExcludedBranch(4600414761378562541u64));
 }
 };
 let arg3 = {
@@ -30599,7 +30775,7 @@ let b = _input.read_byte()?;
 if b == 82 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8076978189295213982u64));
+return Err(ParseError::ExcludedBranch(18313399323903636110u64));
 }
 };
 PResult::Ok((arg0, arg1, arg2, arg3))
@@ -30640,7 +30816,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 14687724984806605719u64)
+try_sub!(x, 16u64, 16165934354425559621u64)
 },
 
 _ => {
@@ -30674,9 +30850,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30699,9 +30879,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30724,9 +30908,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30766,9 +30954,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30802,7 +30994,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8385173961957899741u64)
+try_sub!(x, 16u64, 7931358881575056193u64)
 },
 
 _ => {
@@ -30836,7 +31028,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 6881565717664829242u64)
+try_sub!(x, 16u64, 11515797873012483658u64)
 },
 
 _ => {
@@ -30858,9 +31050,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30883,9 +31079,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30908,9 +31108,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -30985,7 +31189,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13752480002470540422u64));
+return Err(ParseError::ExcludedBranch(8584109755265226714u64));
 }
 };
 let rate = {
@@ -31057,7 +31261,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5534609128357633386u64)
+try_sub!(x, 16u64, 11570281271401624317u64)
 },
 
 _ => {
@@ -31079,9 +31283,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31104,9 +31312,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31129,9 +31341,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31171,7 +31387,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 16625761205375889740u64)
+try_sub!(x, 16u64, 1378805635639824117u64)
 },
 
 _ => {
@@ -31192,9 +31408,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31217,9 +31437,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31302,7 +31526,7 @@ mpeg4_tkhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2662265345698212949u64));
+return Err(ParseError::ExcludedBranch(8385173961957899741u64));
 }
 };
 let reserved2 = {
@@ -31371,7 +31595,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8599210436172030522u64)
+try_sub!(x, 16u64, 6881565717664829242u64)
 },
 
 _ => {
@@ -31393,9 +31617,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31435,7 +31663,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15403934492100194569u64)
+try_sub!(x, 16u64, 17107648091243309207u64)
 },
 
 _ => {
@@ -31471,9 +31699,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31496,9 +31728,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31555,7 +31791,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12041148194529633639u64));
+return Err(ParseError::ExcludedBranch(5534609128357633386u64));
 }
 };
 _input.close_peek_context()?;
@@ -31568,7 +31804,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2288772415159374970u64));
+return Err(ParseError::ExcludedBranch(14539762430836305896u64));
 }
 };
 accum.push(next_elem)
@@ -31583,7 +31819,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17888323854924040413u64));
+return Err(ParseError::ExcludedBranch(16625761205375889740u64));
 }
 };
 chars.clone()
@@ -31643,7 +31879,7 @@ mpeg4_mvhd_data_fields::version1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6279087434444973374u64));
+return Err(ParseError::ExcludedBranch(2662265345698212949u64));
 }
 };
 let language = {
@@ -31674,7 +31910,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15601622509425384091u64)
+try_sub!(x, 16u64, 8599210436172030522u64)
 },
 
 _ => {
@@ -31701,9 +31937,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31726,9 +31966,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31751,9 +31995,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31830,7 +32078,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 4569970360394099475u64)
+try_sub!(x, 16u64, 15403934492100194569u64)
 },
 
 _ => {
@@ -31852,9 +32100,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -31894,7 +32146,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 15293691521783146694u64)
+try_sub!(x, 16u64, 2288772415159374970u64)
 },
 
 _ => {
@@ -31961,9 +32213,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32299,7 +32555,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 8403192837054512577u64)
+try_sub!(x, 16u64, 6279087434444973374u64)
 },
 
 _ => {
@@ -32314,9 +32570,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32349,9 +32609,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32385,7 +32649,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 3975307768385535064u64)
+try_sub!(x, 16u64, 15601622509425384091u64)
 },
 
 _ => {
@@ -32400,9 +32664,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32467,9 +32735,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32517,9 +32789,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32542,9 +32818,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32567,9 +32847,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32629,7 +32913,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10599514554463239458u64));
+return Err(ParseError::ExcludedBranch(13675295148592556047u64));
 }
 };
 _input.close_peek_context()?;
@@ -32642,7 +32926,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16112061863928357291u64));
+return Err(ParseError::ExcludedBranch(4569970360394099475u64));
 }
 };
 accum.push(next_elem)
@@ -32657,7 +32941,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12017601628070515145u64));
+return Err(ParseError::ExcludedBranch(9110520999974091875u64));
 }
 };
 chars.clone()
@@ -32729,9 +33013,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32754,9 +33042,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32774,7 +33066,7 @@ mpeg4_iref_data_single_item_reference::large(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1872233699568519226u64));
+return Err(ParseError::ExcludedBranch(15293691521783146694u64));
 }
 };
 PResult::Ok(mpeg4_iref_data { version, flags, single_item_reference })
@@ -32859,7 +33151,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10708294527730390829u64));
+return Err(ParseError::ExcludedBranch(15433822888775103886u64));
 }
 };
 let extent_count = {
@@ -32900,7 +33192,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13181260675040079306u64)
+try_sub!(x, 16u64, 17073037115051226650u64)
 },
 
 _ => {
@@ -32917,9 +33209,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32942,9 +33238,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -32984,7 +33284,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 7795160901559545235u64)
+try_sub!(x, 16u64, 10599514554463239458u64)
 },
 
 _ => {
@@ -33006,9 +33306,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33046,9 +33350,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33086,7 +33394,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3490919313637905107u64));
+return Err(ParseError::ExcludedBranch(16112061863928357291u64));
 }
 };
 let extent_offset = match offset_size {
@@ -33108,7 +33416,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9331389203258424019u64));
+return Err(ParseError::ExcludedBranch(12017601628070515145u64));
 }
 };
 let extent_length = match length_size {
@@ -33130,7 +33438,7 @@ u64be(x)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16679512278832019969u64));
+return Err(ParseError::ExcludedBranch(1872233699568519226u64));
 }
 };
 PResult::Ok(mpeg4_iloc_extent { extent_index, extent_offset, extent_length })
@@ -33153,7 +33461,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 9892894478446917378u64)
+try_sub!(x, 16u64, 7432469293302627017u64)
 },
 
 _ => {
@@ -33208,7 +33516,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 5208404121666294786u64)
+try_sub!(x, 16u64, 9159119361499271180u64)
 },
 
 _ => {
@@ -33263,7 +33571,7 @@ let x = {
 let x = (_input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?, _input.read_byte()?);
 u64be(x)
 };
-try_sub!(x, 16u64, 13751590285972774894u64)
+try_sub!(x, 16u64, 3490919313637905107u64)
 },
 
 _ => {
@@ -33285,9 +33593,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -33360,7 +33672,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12552648416444111338u64));
+return Err(ParseError::ExcludedBranch(9331389203258424019u64));
 }
 };
 _input.close_peek_context()?;
@@ -33373,7 +33685,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9201081899504003615u64));
+return Err(ParseError::ExcludedBranch(16679512278832019969u64));
 }
 };
 accum.push(next_elem)
@@ -33388,7 +33700,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10776065777346510440u64));
+return Err(ParseError::ExcludedBranch(15311158871930328757u64));
 }
 };
 chars.clone()
@@ -33410,7 +33722,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1821331332215525359u64));
+return Err(ParseError::ExcludedBranch(9892894478446917378u64));
 }
 };
 _input.close_peek_context()?;
@@ -33423,7 +33735,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1550574349011231204u64));
+return Err(ParseError::ExcludedBranch(3585635225240718191u64));
 }
 };
 accum.push(next_elem)
@@ -33438,7 +33750,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6867774794241173436u64));
+return Err(ParseError::ExcludedBranch(5208404121666294786u64));
 }
 };
 chars.clone()
@@ -33460,7 +33772,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3475686103639625566u64));
+return Err(ParseError::ExcludedBranch(237665900562449517u64));
 }
 };
 _input.close_peek_context()?;
@@ -33473,7 +33785,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4130856500275801127u64));
+return Err(ParseError::ExcludedBranch(13751590285972774894u64));
 }
 };
 accum.push(next_elem)
@@ -33488,7 +33800,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11582380281701370059u64));
+return Err(ParseError::ExcludedBranch(12552648416444111338u64));
 }
 };
 chars.clone()
@@ -33534,7 +33846,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7228157205966134869u64));
+return Err(ParseError::ExcludedBranch(9201081899504003615u64));
 }
 };
 _input.close_peek_context()?;
@@ -33547,7 +33859,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2184161105566707760u64));
+return Err(ParseError::ExcludedBranch(10776065777346510440u64));
 }
 };
 accum.push(next_elem)
@@ -33562,7 +33874,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9924059786910440358u64));
+return Err(ParseError::ExcludedBranch(1821331332215525359u64));
 }
 };
 chars.clone()
@@ -33609,7 +33921,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7274029685341305701u64));
+return Err(ParseError::ExcludedBranch(1550574349011231204u64));
 }
 };
 _input.close_peek_context()?;
@@ -33622,7 +33934,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16051783775494465147u64));
+return Err(ParseError::ExcludedBranch(6867774794241173436u64));
 }
 };
 accum.push(next_elem)
@@ -33637,7 +33949,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13744164271564421708u64));
+return Err(ParseError::ExcludedBranch(3475686103639625566u64));
 }
 };
 chars.clone()
@@ -33664,7 +33976,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5892114170581446733u64));
+return Err(ParseError::ExcludedBranch(4130856500275801127u64));
 }
 };
 _input.close_peek_context()?;
@@ -33677,7 +33989,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11821813774070801620u64));
+return Err(ParseError::ExcludedBranch(11582380281701370059u64));
 }
 };
 accum.push(next_elem)
@@ -33692,7 +34004,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14520503729026832983u64));
+return Err(ParseError::ExcludedBranch(7228157205966134869u64));
 }
 };
 chars.clone()
@@ -33707,7 +34019,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5309491469191307378u64));
+return Err(ParseError::ExcludedBranch(2184161105566707760u64));
 }
 };
 let marker = {
@@ -33715,7 +34027,7 @@ let b = _input.read_byte()?;
 if b == 216 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17983075411320920965u64));
+return Err(ParseError::ExcludedBranch(9924059786910440358u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -33870,11 +34182,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7023661717588102849u64));
+return Err(ParseError::ExcludedBranch(7274029685341305701u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3448575031819686448u64));
+return Err(ParseError::ExcludedBranch(16051783775494465147u64));
 };
 _input.close_peek_context()?;
 ret
@@ -33995,11 +34307,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9960855096836829935u64));
+return Err(ParseError::ExcludedBranch(13744164271564421708u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(218475477370319322u64));
+return Err(ParseError::ExcludedBranch(5892114170581446733u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34015,7 +34327,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18357658168615546095u64));
+return Err(ParseError::ExcludedBranch(11821813774070801620u64));
 }
 }
 };
@@ -34121,11 +34433,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10650412753233146525u64));
+return Err(ParseError::ExcludedBranch(14520503729026832983u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15859964085544252343u64));
+return Err(ParseError::ExcludedBranch(5309491469191307378u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34150,7 +34462,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(653325817133119558u64));
+return Err(ParseError::ExcludedBranch(17983075411320920965u64));
 }
 };
 let marker = {
@@ -34158,7 +34470,7 @@ let b = _input.read_byte()?;
 if b == 217 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3349032559334020401u64));
+return Err(ParseError::ExcludedBranch(7023661717588102849u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -34181,11 +34493,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14115009527471272688u64));
+return Err(ParseError::ExcludedBranch(3448575031819686448u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(8350850950759220429u64));
+return Err(ParseError::ExcludedBranch(9960855096836829935u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34203,7 +34515,7 @@ jpeg_frame_initial_segment::app1(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15412400192383838763u64));
+return Err(ParseError::ExcludedBranch(218475477370319322u64));
 }
 })
 }
@@ -34301,11 +34613,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(16334217566159141080u64));
+return Err(ParseError::ExcludedBranch(18357658168615546095u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(15032955882314050195u64));
+return Err(ParseError::ExcludedBranch(10650412753233146525u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34418,7 +34730,7 @@ jpeg_table_or_misc::com(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12522857579864693834u64));
+return Err(ParseError::ExcludedBranch(15859964085544252343u64));
 }
 })
 }
@@ -34484,11 +34796,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15286713778088114821u64));
+return Err(ParseError::ExcludedBranch(653325817133119558u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(17055268834995250246u64));
+return Err(ParseError::ExcludedBranch(3349032559334020401u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34561,7 +34873,7 @@ jpeg_frame_header::sof15(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15014773733126201031u64));
+return Err(ParseError::ExcludedBranch(14115009527471272688u64));
 }
 })
 }
@@ -34666,11 +34978,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895655502210650925u64));
+return Err(ParseError::ExcludedBranch(8350850950759220429u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(3344835778759068560u64));
+return Err(ParseError::ExcludedBranch(15412400192383838763u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34698,7 +35010,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2014773054382805425u64));
+return Err(ParseError::ExcludedBranch(16334217566159141080u64));
 }
 };
 let marker = {
@@ -34706,7 +35018,7 @@ let b = _input.read_byte()?;
 if b == 220 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3011460078285478248u64));
+return Err(ParseError::ExcludedBranch(15032955882314050195u64));
 }
 };
 jpeg_soi { marker }
@@ -34825,11 +35137,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(5117297982688264891u64));
+return Err(ParseError::ExcludedBranch(12522857579864693834u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(4614223265245060097u64));
+return Err(ParseError::ExcludedBranch(15286713778088114821u64));
 };
 _input.close_peek_context()?;
 ret
@@ -34857,7 +35169,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2858990937242709991u64));
+return Err(ParseError::ExcludedBranch(17055268834995250246u64));
 }
 };
 let marker = {
@@ -34865,7 +35177,7 @@ let b = _input.read_byte()?;
 if b == 218 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13162270726566423196u64));
+return Err(ParseError::ExcludedBranch(15014773733126201031u64));
 }
 };
 jpeg_soi { marker }
@@ -35028,13 +35340,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6766897041260485978u64));
+return Err(ParseError::ExcludedBranch(9895655502210650925u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7359082011512182682u64));
+return Err(ParseError::ExcludedBranch(3344835778759068560u64));
 }
 };
 _input.close_peek_context()?;
@@ -35139,13 +35451,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4005260763079064488u64));
+return Err(ParseError::ExcludedBranch(2014773054382805425u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9895427541506148364u64));
+return Err(ParseError::ExcludedBranch(3011460078285478248u64));
 }
 };
 _input.close_peek_context()?;
@@ -35199,7 +35511,7 @@ jpeg_scan_data_entropy_coded_segment::rst7(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15241527188218394569u64));
+return Err(ParseError::ExcludedBranch(5117297982688264891u64));
 }
 })
 }
@@ -35219,7 +35531,7 @@ byte if (byte != 255) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(4248622096514297129u64));
+return Err(ParseError::ExcludedBranch(6766897041260485978u64));
 }
 };
 _input.close_peek_context()?;
@@ -35232,7 +35544,7 @@ let b = _input.read_byte()?;
 if b != 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5019692195244899787u64));
+return Err(ParseError::ExcludedBranch(4614223265245060097u64));
 }
 },
 
@@ -35243,7 +35555,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(663652071640520941u64));
+return Err(ParseError::ExcludedBranch(2858990937242709991u64));
 }
 };
 let arg1 = {
@@ -35251,7 +35563,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16835260701216065402u64));
+return Err(ParseError::ExcludedBranch(13162270726566423196u64));
 }
 };
 (arg0, arg1)
@@ -35260,7 +35572,7 @@ return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18304605036866855350u64));
+return Err(ParseError::ExcludedBranch(7359082011512182682u64));
 }
 })
 }
@@ -35272,7 +35584,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(49400955721755355u64));
+return Err(ParseError::ExcludedBranch(4005260763079064488u64));
 }
 };
 let marker = {
@@ -35280,7 +35592,7 @@ let b = _input.read_byte()?;
 if b == 208 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8882217996184815919u64));
+return Err(ParseError::ExcludedBranch(9895427541506148364u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35293,7 +35605,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11885930557202460461u64));
+return Err(ParseError::ExcludedBranch(15241527188218394569u64));
 }
 };
 let marker = {
@@ -35301,7 +35613,7 @@ let b = _input.read_byte()?;
 if b == 209 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9841369023026740320u64));
+return Err(ParseError::ExcludedBranch(5019692195244899787u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35314,7 +35626,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15065685669539080124u64));
+return Err(ParseError::ExcludedBranch(663652071640520941u64));
 }
 };
 let marker = {
@@ -35322,7 +35634,7 @@ let b = _input.read_byte()?;
 if b == 210 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4896351207164742422u64));
+return Err(ParseError::ExcludedBranch(16835260701216065402u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35335,7 +35647,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12845528861092334564u64));
+return Err(ParseError::ExcludedBranch(4248622096514297129u64));
 }
 };
 let marker = {
@@ -35343,7 +35655,7 @@ let b = _input.read_byte()?;
 if b == 211 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8497774971318424699u64));
+return Err(ParseError::ExcludedBranch(18304605036866855350u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35356,7 +35668,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13677998342346693652u64));
+return Err(ParseError::ExcludedBranch(49400955721755355u64));
 }
 };
 let marker = {
@@ -35364,7 +35676,7 @@ let b = _input.read_byte()?;
 if b == 212 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18442161777584514946u64));
+return Err(ParseError::ExcludedBranch(8882217996184815919u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35377,7 +35689,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2668737607901180946u64));
+return Err(ParseError::ExcludedBranch(11885930557202460461u64));
 }
 };
 let marker = {
@@ -35385,7 +35697,7 @@ let b = _input.read_byte()?;
 if b == 213 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12828788577937869717u64));
+return Err(ParseError::ExcludedBranch(9841369023026740320u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35398,7 +35710,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4528919599938425798u64));
+return Err(ParseError::ExcludedBranch(15065685669539080124u64));
 }
 };
 let marker = {
@@ -35406,7 +35718,7 @@ let b = _input.read_byte()?;
 if b == 214 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12955185663715491460u64));
+return Err(ParseError::ExcludedBranch(4896351207164742422u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35419,7 +35731,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6221053009072016381u64));
+return Err(ParseError::ExcludedBranch(12845528861092334564u64));
 }
 };
 let marker = {
@@ -35427,7 +35739,7 @@ let b = _input.read_byte()?;
 if b == 215 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4825757476091239776u64));
+return Err(ParseError::ExcludedBranch(8497774971318424699u64));
 }
 };
 PResult::Ok(jpeg_soi { marker })
@@ -35444,7 +35756,7 @@ matches!(x, 1u8..=4u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13877876706306354357u64));
+return Err(ParseError::FalsifiedWhere(13677998342346693652u64));
 }
 };
 let image_components = {
@@ -35464,7 +35776,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(12525311251009778949u64));
+return Err(ParseError::FalsifiedWhere(18442161777584514946u64));
 }
 };
 let end_spectral_selection = {
@@ -35476,7 +35788,7 @@ x <= 63u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14962551735998681614u64));
+return Err(ParseError::FalsifiedWhere(2668737607901180946u64));
 }
 };
 let approximation_bit_position = (Decoder_jpeg_sos_data_approximation_bit_position(_input))?;
@@ -35513,7 +35825,7 @@ let entropy_coding_table_ids = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(2007599397777734421u64));
+return Err(ParseError::FalsifiedWhere(12828788577937869717u64));
 })
 }
 
@@ -35531,7 +35843,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(18069850277258932991u64));
+return Err(ParseError::FalsifiedWhere(4528919599938425798u64));
 }
 };
 PResult::Ok(jpeg_dnl_data { num_lines })
@@ -35685,13 +35997,13 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(180881308211696508u64));
+return Err(ParseError::ExcludedBranch(12955185663715491460u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(17753230141940491005u64));
+return Err(ParseError::ExcludedBranch(6221053009072016381u64));
 }
 };
 _input.close_peek_context()?;
@@ -35755,7 +36067,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6110942357212830202u64));
+return Err(ParseError::ExcludedBranch(4825757476091239776u64));
 }
 };
 let marker = {
@@ -35763,7 +36075,7 @@ let b = _input.read_byte()?;
 if b == 192 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6596410053543851077u64));
+return Err(ParseError::ExcludedBranch(13877876706306354357u64));
 }
 };
 jpeg_soi { marker }
@@ -35790,7 +36102,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16339654162669176472u64));
+return Err(ParseError::ExcludedBranch(12525311251009778949u64));
 }
 };
 let marker = {
@@ -35798,7 +36110,7 @@ let b = _input.read_byte()?;
 if b == 193 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1886358831178290550u64));
+return Err(ParseError::ExcludedBranch(14962551735998681614u64));
 }
 };
 jpeg_soi { marker }
@@ -35825,7 +36137,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17004441093219507547u64));
+return Err(ParseError::ExcludedBranch(2007599397777734421u64));
 }
 };
 let marker = {
@@ -35833,7 +36145,7 @@ let b = _input.read_byte()?;
 if b == 194 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(3168197157646945762u64));
+return Err(ParseError::ExcludedBranch(18069850277258932991u64));
 }
 };
 jpeg_soi { marker }
@@ -35860,7 +36172,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(360138127928998237u64));
+return Err(ParseError::ExcludedBranch(180881308211696508u64));
 }
 };
 let marker = {
@@ -35868,7 +36180,7 @@ let b = _input.read_byte()?;
 if b == 195 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9092411637461100444u64));
+return Err(ParseError::ExcludedBranch(17753230141940491005u64));
 }
 };
 jpeg_soi { marker }
@@ -35895,7 +36207,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15117497265985508077u64));
+return Err(ParseError::ExcludedBranch(6110942357212830202u64));
 }
 };
 let marker = {
@@ -35903,7 +36215,7 @@ let b = _input.read_byte()?;
 if b == 197 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11247369915737850258u64));
+return Err(ParseError::ExcludedBranch(6596410053543851077u64));
 }
 };
 jpeg_soi { marker }
@@ -35930,7 +36242,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7546547171508918509u64));
+return Err(ParseError::ExcludedBranch(16339654162669176472u64));
 }
 };
 let marker = {
@@ -35938,7 +36250,7 @@ let b = _input.read_byte()?;
 if b == 198 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14304129837244038526u64));
+return Err(ParseError::ExcludedBranch(1886358831178290550u64));
 }
 };
 jpeg_soi { marker }
@@ -35965,7 +36277,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15347994581840044382u64));
+return Err(ParseError::ExcludedBranch(17004441093219507547u64));
 }
 };
 let marker = {
@@ -35973,7 +36285,7 @@ let b = _input.read_byte()?;
 if b == 199 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18237415135895269790u64));
+return Err(ParseError::ExcludedBranch(3168197157646945762u64));
 }
 };
 jpeg_soi { marker }
@@ -36000,7 +36312,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4706601668945989307u64));
+return Err(ParseError::ExcludedBranch(360138127928998237u64));
 }
 };
 let marker = {
@@ -36008,7 +36320,7 @@ let b = _input.read_byte()?;
 if b == 201 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1678201523848816632u64));
+return Err(ParseError::ExcludedBranch(9092411637461100444u64));
 }
 };
 jpeg_soi { marker }
@@ -36035,7 +36347,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13246474195614162055u64));
+return Err(ParseError::ExcludedBranch(15117497265985508077u64));
 }
 };
 let marker = {
@@ -36043,7 +36355,7 @@ let b = _input.read_byte()?;
 if b == 202 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8414108255387456730u64));
+return Err(ParseError::ExcludedBranch(11247369915737850258u64));
 }
 };
 jpeg_soi { marker }
@@ -36070,7 +36382,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1432698095084823598u64));
+return Err(ParseError::ExcludedBranch(7546547171508918509u64));
 }
 };
 let marker = {
@@ -36078,7 +36390,7 @@ let b = _input.read_byte()?;
 if b == 203 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9372987348964131232u64));
+return Err(ParseError::ExcludedBranch(14304129837244038526u64));
 }
 };
 jpeg_soi { marker }
@@ -36105,7 +36417,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8473414866110322269u64));
+return Err(ParseError::ExcludedBranch(15347994581840044382u64));
 }
 };
 let marker = {
@@ -36113,7 +36425,7 @@ let b = _input.read_byte()?;
 if b == 205 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(671785503440284610u64));
+return Err(ParseError::ExcludedBranch(18237415135895269790u64));
 }
 };
 jpeg_soi { marker }
@@ -36140,7 +36452,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2651182070283403637u64));
+return Err(ParseError::ExcludedBranch(4706601668945989307u64));
 }
 };
 let marker = {
@@ -36148,7 +36460,7 @@ let b = _input.read_byte()?;
 if b == 206 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8284996377131534070u64));
+return Err(ParseError::ExcludedBranch(1678201523848816632u64));
 }
 };
 jpeg_soi { marker }
@@ -36175,7 +36487,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16948595091237008543u64));
+return Err(ParseError::ExcludedBranch(13246474195614162055u64));
 }
 };
 let marker = {
@@ -36183,7 +36495,7 @@ let b = _input.read_byte()?;
 if b == 207 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(108256050843388088u64));
+return Err(ParseError::ExcludedBranch(8414108255387456730u64));
 }
 };
 jpeg_soi { marker }
@@ -36213,7 +36525,7 @@ matches!(x, 2u8..=16u8)
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(7834223795690054720u64));
+return Err(ParseError::FalsifiedWhere(1432698095084823598u64));
 }
 };
 let num_lines = {
@@ -36232,7 +36544,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(787921071240225899u64));
+return Err(ParseError::FalsifiedWhere(9372987348964131232u64));
 }
 };
 let num_image_components = {
@@ -36244,7 +36556,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(11557974043504662535u64));
+return Err(ParseError::FalsifiedWhere(8473414866110322269u64));
 }
 };
 let image_components = {
@@ -36276,7 +36588,7 @@ x <= 3u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14238499412440345954u64));
+return Err(ParseError::FalsifiedWhere(671785503440284610u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -36290,7 +36602,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14703397633096852322u64));
+return Err(ParseError::ExcludedBranch(2651182070283403637u64));
 }
 };
 let marker = {
@@ -36298,7 +36610,7 @@ let b = _input.read_byte()?;
 if b == 219 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(268478239438800266u64));
+return Err(ParseError::ExcludedBranch(8284996377131534070u64));
 }
 };
 jpeg_soi { marker }
@@ -36315,9 +36627,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 1;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+1
+} else {
+0
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36348,7 +36664,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6301432137385173939u64));
+return Err(ParseError::ExcludedBranch(16948595091237008543u64));
 }
 };
 let marker = {
@@ -36356,7 +36672,7 @@ let b = _input.read_byte()?;
 if b == 196 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17762152702085771435u64));
+return Err(ParseError::ExcludedBranch(108256050843388088u64));
 }
 };
 jpeg_soi { marker }
@@ -36383,7 +36699,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6803443871185192093u64));
+return Err(ParseError::ExcludedBranch(7834223795690054720u64));
 }
 };
 let marker = {
@@ -36391,7 +36707,7 @@ let b = _input.read_byte()?;
 if b == 204 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(204361505388532862u64));
+return Err(ParseError::ExcludedBranch(787921071240225899u64));
 }
 };
 jpeg_soi { marker }
@@ -36418,7 +36734,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11161970641928094938u64));
+return Err(ParseError::ExcludedBranch(11557974043504662535u64));
 }
 };
 let marker = {
@@ -36426,7 +36742,7 @@ let b = _input.read_byte()?;
 if b == 221 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8787536656121914522u64));
+return Err(ParseError::ExcludedBranch(14238499412440345954u64));
 }
 };
 jpeg_soi { marker }
@@ -36453,7 +36769,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(18210277358428599455u64));
+return Err(ParseError::ExcludedBranch(14703397633096852322u64));
 }
 };
 let marker = {
@@ -36461,7 +36777,7 @@ let b = _input.read_byte()?;
 if b == 224 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9453259036882642818u64));
+return Err(ParseError::ExcludedBranch(268478239438800266u64));
 }
 };
 jpeg_soi { marker }
@@ -36488,7 +36804,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16811847696882257499u64));
+return Err(ParseError::ExcludedBranch(6301432137385173939u64));
 }
 };
 let marker = {
@@ -36496,7 +36812,7 @@ let b = _input.read_byte()?;
 if b == 225 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11078254580983048780u64));
+return Err(ParseError::ExcludedBranch(17762152702085771435u64));
 }
 };
 jpeg_soi { marker }
@@ -36523,7 +36839,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1845850007550452160u64));
+return Err(ParseError::ExcludedBranch(6803443871185192093u64));
 }
 };
 let marker = {
@@ -36531,7 +36847,7 @@ let b = _input.read_byte()?;
 if b == 226 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7779176190297216638u64));
+return Err(ParseError::ExcludedBranch(204361505388532862u64));
 }
 };
 jpeg_soi { marker }
@@ -36548,9 +36864,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36578,7 +36898,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1016564408906296566u64));
+return Err(ParseError::ExcludedBranch(11161970641928094938u64));
 }
 };
 let marker = {
@@ -36586,7 +36906,7 @@ let b = _input.read_byte()?;
 if b == 227 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1591903561633999639u64));
+return Err(ParseError::ExcludedBranch(8787536656121914522u64));
 }
 };
 jpeg_soi { marker }
@@ -36603,9 +36923,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36633,7 +36957,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9590821821210520154u64));
+return Err(ParseError::ExcludedBranch(18210277358428599455u64));
 }
 };
 let marker = {
@@ -36641,7 +36965,7 @@ let b = _input.read_byte()?;
 if b == 228 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6175893723851407495u64));
+return Err(ParseError::ExcludedBranch(9453259036882642818u64));
 }
 };
 jpeg_soi { marker }
@@ -36658,9 +36982,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36688,7 +37016,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4491050975676636472u64));
+return Err(ParseError::ExcludedBranch(16811847696882257499u64));
 }
 };
 let marker = {
@@ -36696,7 +37024,7 @@ let b = _input.read_byte()?;
 if b == 229 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9933460716242958610u64));
+return Err(ParseError::ExcludedBranch(11078254580983048780u64));
 }
 };
 jpeg_soi { marker }
@@ -36713,9 +37041,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36743,7 +37075,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10865781264025109219u64));
+return Err(ParseError::ExcludedBranch(1845850007550452160u64));
 }
 };
 let marker = {
@@ -36751,7 +37083,7 @@ let b = _input.read_byte()?;
 if b == 230 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1125515999835788388u64));
+return Err(ParseError::ExcludedBranch(7779176190297216638u64));
 }
 };
 jpeg_soi { marker }
@@ -36768,9 +37100,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36798,7 +37134,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6928743980636918648u64));
+return Err(ParseError::ExcludedBranch(1016564408906296566u64));
 }
 };
 let marker = {
@@ -36806,7 +37142,7 @@ let b = _input.read_byte()?;
 if b == 231 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10349067556055585673u64));
+return Err(ParseError::ExcludedBranch(1591903561633999639u64));
 }
 };
 jpeg_soi { marker }
@@ -36823,9 +37159,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36853,7 +37193,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9276145871181842621u64));
+return Err(ParseError::ExcludedBranch(9590821821210520154u64));
 }
 };
 let marker = {
@@ -36861,7 +37201,7 @@ let b = _input.read_byte()?;
 if b == 232 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16224083238566163922u64));
+return Err(ParseError::ExcludedBranch(6175893723851407495u64));
 }
 };
 jpeg_soi { marker }
@@ -36878,9 +37218,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36908,7 +37252,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9651999844283402729u64));
+return Err(ParseError::ExcludedBranch(4491050975676636472u64));
 }
 };
 let marker = {
@@ -36916,7 +37260,7 @@ let b = _input.read_byte()?;
 if b == 233 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4150962867603307131u64));
+return Err(ParseError::ExcludedBranch(9933460716242958610u64));
 }
 };
 jpeg_soi { marker }
@@ -36933,9 +37277,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -36963,7 +37311,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1180075112413234847u64));
+return Err(ParseError::ExcludedBranch(10865781264025109219u64));
 }
 };
 let marker = {
@@ -36971,7 +37319,7 @@ let b = _input.read_byte()?;
 if b == 234 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4914981965961925407u64));
+return Err(ParseError::ExcludedBranch(1125515999835788388u64));
 }
 };
 jpeg_soi { marker }
@@ -36988,9 +37336,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37018,7 +37370,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4792114144900142999u64));
+return Err(ParseError::ExcludedBranch(6928743980636918648u64));
 }
 };
 let marker = {
@@ -37026,7 +37378,7 @@ let b = _input.read_byte()?;
 if b == 235 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6091354260726402337u64));
+return Err(ParseError::ExcludedBranch(10349067556055585673u64));
 }
 };
 jpeg_soi { marker }
@@ -37043,9 +37395,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37073,7 +37429,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16173518488310098141u64));
+return Err(ParseError::ExcludedBranch(9276145871181842621u64));
 }
 };
 let marker = {
@@ -37081,7 +37437,7 @@ let b = _input.read_byte()?;
 if b == 236 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6485872802951288360u64));
+return Err(ParseError::ExcludedBranch(16224083238566163922u64));
 }
 };
 jpeg_soi { marker }
@@ -37098,9 +37454,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37128,7 +37488,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14222995392916087968u64));
+return Err(ParseError::ExcludedBranch(9651999844283402729u64));
 }
 };
 let marker = {
@@ -37136,7 +37496,7 @@ let b = _input.read_byte()?;
 if b == 237 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9204716142356529030u64));
+return Err(ParseError::ExcludedBranch(4150962867603307131u64));
 }
 };
 jpeg_soi { marker }
@@ -37153,9 +37513,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37183,7 +37547,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14055113049862078139u64));
+return Err(ParseError::ExcludedBranch(1180075112413234847u64));
 }
 };
 let marker = {
@@ -37191,7 +37555,7 @@ let b = _input.read_byte()?;
 if b == 238 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8236384974725516720u64));
+return Err(ParseError::ExcludedBranch(4914981965961925407u64));
 }
 };
 jpeg_soi { marker }
@@ -37208,9 +37572,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37238,7 +37606,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4851501206534868925u64));
+return Err(ParseError::ExcludedBranch(4792114144900142999u64));
 }
 };
 let marker = {
@@ -37246,7 +37614,7 @@ let b = _input.read_byte()?;
 if b == 239 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4255480819017852249u64));
+return Err(ParseError::ExcludedBranch(6091354260726402337u64));
 }
 };
 jpeg_soi { marker }
@@ -37263,9 +37631,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37293,7 +37665,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17733863216727871551u64));
+return Err(ParseError::ExcludedBranch(16173518488310098141u64));
 }
 };
 let marker = {
@@ -37301,7 +37673,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(389354767835086292u64));
+return Err(ParseError::ExcludedBranch(6485872802951288360u64));
 }
 };
 jpeg_soi { marker }
@@ -37318,9 +37690,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37359,7 +37735,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3216028881355025849u64));
+return Err(ParseError::ExcludedBranch(14222995392916087968u64));
 }
 };
 _input.close_peek_context()?;
@@ -37372,7 +37748,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(479680595494617916u64));
+return Err(ParseError::ExcludedBranch(9204716142356529030u64));
 }
 };
 accum.push(next_elem)
@@ -37387,7 +37763,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10531068763070667405u64));
+return Err(ParseError::ExcludedBranch(14055113049862078139u64));
 }
 };
 chars.clone()
@@ -37415,9 +37791,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37443,7 +37823,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12431089125438936538u64));
+return Err(ParseError::ExcludedBranch(8236384974725516720u64));
 }
 };
 let exif = (Decoder_tiff_main(_input))?;
@@ -37457,9 +37837,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37495,7 +37879,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9066809807580136020u64));
+return Err(ParseError::ExcludedBranch(4851501206534868925u64));
 }
 };
 _input.close_peek_context()?;
@@ -37508,7 +37892,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12347909352078849049u64));
+return Err(ParseError::ExcludedBranch(4255480819017852249u64));
 }
 };
 accum.push(next_elem)
@@ -37523,7 +37907,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(10900015085754267678u64));
+return Err(ParseError::ExcludedBranch(17733863216727871551u64));
 }
 };
 chars.clone()
@@ -37546,9 +37930,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -37580,7 +37968,7 @@ x <= 2u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5999000939515818447u64));
+return Err(ParseError::FalsifiedWhere(389354767835086292u64));
 }
 };
 let density_x = {
@@ -37595,7 +37983,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(10508718825232435214u64));
+return Err(ParseError::FalsifiedWhere(3216028881355025849u64));
 }
 };
 let density_y = {
@@ -37610,7 +37998,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(13460389694602013078u64));
+return Err(ParseError::FalsifiedWhere(479680595494617916u64));
 }
 };
 let thumbnail_width = _input.read_byte()?;
@@ -37672,7 +38060,7 @@ let class_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16535687493193441589u64));
+return Err(ParseError::FalsifiedWhere(10531068763070667405u64));
 })
 }
 
@@ -37727,7 +38115,7 @@ let precision_table_id = inner;
 PResult::Ok(if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(16678380679225161433u64));
+return Err(ParseError::FalsifiedWhere(12431089125438936538u64));
 })
 }
 
@@ -37762,7 +38150,7 @@ jpeg_dqt_data_elements::Shorts(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11416999240256111317u64));
+return Err(ParseError::ExcludedBranch(9066809807580136020u64));
 }
 })
 }
@@ -37785,7 +38173,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13319962755558045565u64));
+return Err(ParseError::ExcludedBranch(12347909352078849049u64));
 }
 };
 _input.close_peek_context()?;
@@ -37798,7 +38186,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17426992236827678217u64));
+return Err(ParseError::ExcludedBranch(10900015085754267678u64));
 }
 };
 accum.push(next_elem)
@@ -37813,7 +38201,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(1236150641026759388u64));
+return Err(ParseError::ExcludedBranch(5999000939515818447u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -37838,7 +38226,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12386662728078486919u64));
+return Err(ParseError::ExcludedBranch(10508718825232435214u64));
 }
 };
 _input.close_peek_context()?;
@@ -37851,7 +38239,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14581882220438260695u64));
+return Err(ParseError::ExcludedBranch(13460389694602013078u64));
 }
 };
 accum.push(next_elem)
@@ -37866,7 +38254,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(107739895477412745u64));
+return Err(ParseError::ExcludedBranch(16535687493193441589u64));
 }
 };
 chars.clone()
@@ -37880,12 +38268,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 31 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 31 {
 1
 } else {
 0
+}
+} else {
+0
 };
 _input.close_peek_context()?;
 ret
@@ -37952,7 +38344,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11249661549694067250u64));
+return Err(ParseError::ExcludedBranch(16678380679225161433u64));
 }
 };
 _input.close_peek_context()?;
@@ -37979,7 +38371,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15129618400245272391u64));
+return Err(ParseError::ExcludedBranch(11416999240256111317u64));
 }
 };
 accum.push(next_elem)
@@ -37991,12 +38383,16 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-let b = _input.read_byte()?;
 {
-let ret = if b == 0 {
+let ret = if _input.remaining() > 0 {
+let b = _input.read_byte()?;
+if b == 0 {
 0
 } else {
 1
+}
+} else {
+1
 };
 _input.close_peek_context()?;
 ret
@@ -38008,7 +38404,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4714328060581312491u64));
+return Err(ParseError::ExcludedBranch(13319962755558045565u64));
 }
 };
 accum.push(next_elem)
@@ -38039,7 +38435,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1886731551318106143u64));
+return Err(ParseError::ExcludedBranch(17426992236827678217u64));
 }
 };
 _input.close_peek_context()?;
@@ -38052,7 +38448,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(2159624515109346846u64));
+return Err(ParseError::ExcludedBranch(1236150641026759388u64));
 }
 };
 accum.push(next_elem)
@@ -38067,7 +38463,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6789861264798225044u64));
+return Err(ParseError::ExcludedBranch(12386662728078486919u64));
 }
 };
 PResult::Ok(chars.clone())
@@ -38092,7 +38488,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2250992723793132616u64));
+return Err(ParseError::ExcludedBranch(14581882220438260695u64));
 }
 };
 _input.close_peek_context()?;
@@ -38105,7 +38501,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13302435931871038516u64));
+return Err(ParseError::ExcludedBranch(107739895477412745u64));
 }
 };
 accum.push(next_elem)
@@ -38120,7 +38516,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(17495212514432555390u64));
+return Err(ParseError::ExcludedBranch(11249661549694067250u64));
 }
 };
 chars.clone()
@@ -38136,7 +38532,7 @@ let b = _input.read_byte()?;
 if b == 71 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(12914822120096438372u64));
+return Err(ParseError::ExcludedBranch(15129618400245272391u64));
 }
 };
 let arg1 = {
@@ -38144,7 +38540,7 @@ let b = _input.read_byte()?;
 if b == 73 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13722258516965046051u64));
+return Err(ParseError::ExcludedBranch(4714328060581312491u64));
 }
 };
 let arg2 = {
@@ -38152,7 +38548,7 @@ let b = _input.read_byte()?;
 if b == 70 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9709424480928378884u64));
+return Err(ParseError::ExcludedBranch(1886731551318106143u64));
 }
 };
 (arg0, arg1, arg2)
@@ -38202,7 +38598,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(13844417374108844899u64));
+return Err(ParseError::ExcludedBranch(2159624515109346846u64));
 }
 }
 },
@@ -38212,7 +38608,7 @@ return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6192442272039337687u64));
+return Err(ParseError::ExcludedBranch(6789861264798225044u64));
 }
 };
 _input.close_peek_context()?;
@@ -38231,7 +38627,7 @@ gif_block::special_purpose_block(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1371641324337791042u64));
+return Err(ParseError::ExcludedBranch(2250992723793132616u64));
 }
 })
 }
@@ -38243,7 +38639,7 @@ let b = _input.read_byte()?;
 if b == 59 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13840694103855630215u64));
+return Err(ParseError::ExcludedBranch(13302435931871038516u64));
 }
 };
 PResult::Ok(gif_trailer { separator })
@@ -38267,7 +38663,7 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9966940320814099155u64));
+return Err(ParseError::ExcludedBranch(17495212514432555390u64));
 }
 }
 },
@@ -38277,7 +38673,7 @@ return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(15519482928753245836u64));
+return Err(ParseError::ExcludedBranch(12914822120096438372u64));
 }
 };
 _input.close_peek_context()?;
@@ -38294,7 +38690,7 @@ None
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7180361712816552798u64));
+return Err(ParseError::ExcludedBranch(13722258516965046051u64));
 }
 }
 };
@@ -38319,11 +38715,11 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(2157749958308397018u64));
+return Err(ParseError::ExcludedBranch(9709424480928378884u64));
 }
 }
 } else {
-return Err(ParseError::ExcludedBranch(7324022130208344343u64));
+return Err(ParseError::ExcludedBranch(13844417374108844899u64));
 };
 _input.close_peek_context()?;
 ret
@@ -38341,7 +38737,7 @@ gif_special_purpose_block::comment_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(3289883751054141021u64));
+return Err(ParseError::ExcludedBranch(6192442272039337687u64));
 }
 })
 }
@@ -38353,7 +38749,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7245983875345631298u64));
+return Err(ParseError::ExcludedBranch(1371641324337791042u64));
 }
 };
 let label = {
@@ -38361,7 +38757,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(9556673179043043550u64));
+return Err(ParseError::ExcludedBranch(13840694103855630215u64));
 }
 };
 let block_size = {
@@ -38369,7 +38765,7 @@ let b = _input.read_byte()?;
 if b == 11 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11349426438005611188u64));
+return Err(ParseError::ExcludedBranch(9966940320814099155u64));
 }
 };
 let identifier = {
@@ -38397,7 +38793,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8635718010611311692u64));
+return Err(ParseError::ExcludedBranch(15519482928753245836u64));
 }
 };
 _input.close_peek_context()?;
@@ -38424,7 +38820,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16026689348257499085u64));
+return Err(ParseError::ExcludedBranch(7180361712816552798u64));
 }
 };
 let label = {
@@ -38432,7 +38828,7 @@ let b = _input.read_byte()?;
 if b == 254 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(783530747334100044u64));
+return Err(ParseError::ExcludedBranch(2157749958308397018u64));
 }
 };
 let comment_data = {
@@ -38451,7 +38847,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10986984519025233593u64));
+return Err(ParseError::ExcludedBranch(7324022130208344343u64));
 }
 };
 _input.close_peek_context()?;
@@ -38478,7 +38874,7 @@ let b = _input.read_byte()?;
 if b != 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(11095604601945744268u64));
+return Err(ParseError::ExcludedBranch(3289883751054141021u64));
 }
 };
 let data = {
@@ -38498,7 +38894,7 @@ let b = _input.read_byte()?;
 PResult::Ok(if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15243788729772203041u64));
+return Err(ParseError::ExcludedBranch(7245983875345631298u64));
 })
 }
 
@@ -38509,7 +38905,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14565187915810837879u64));
+return Err(ParseError::ExcludedBranch(9556673179043043550u64));
 }
 };
 let label = {
@@ -38517,7 +38913,7 @@ let b = _input.read_byte()?;
 if b == 249 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(165949313037892889u64));
+return Err(ParseError::ExcludedBranch(11349426438005611188u64));
 }
 };
 let block_size = {
@@ -38525,7 +38921,7 @@ let b = _input.read_byte()?;
 if b == 4 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13586715084946654863u64));
+return Err(ParseError::ExcludedBranch(8635718010611311692u64));
 }
 };
 let flags = (Decoder_gif_graphic_control_extension_flags(_input))?;
@@ -38553,7 +38949,7 @@ let ret = match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10796441316268123402u64));
+return Err(ParseError::ExcludedBranch(16026689348257499085u64));
 }
 };
 _input.close_peek_context()?;
@@ -38572,7 +38968,7 @@ gif_graphic_rendering_block::plain_text_extension(inner)
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138707079467673507u64));
+return Err(ParseError::ExcludedBranch(783530747334100044u64));
 }
 })
 }
@@ -38601,7 +38997,7 @@ let b = _input.read_byte()?;
 if b == 33 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(4276041640044341942u64));
+return Err(ParseError::ExcludedBranch(10986984519025233593u64));
 }
 };
 let label = {
@@ -38609,7 +39005,7 @@ let b = _input.read_byte()?;
 if b == 1 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13415341611905239200u64));
+return Err(ParseError::ExcludedBranch(11095604601945744268u64));
 }
 };
 let block_size = {
@@ -38617,7 +39013,7 @@ let b = _input.read_byte()?;
 if b == 12 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8346764656077042415u64));
+return Err(ParseError::ExcludedBranch(15243788729772203041u64));
 }
 };
 let text_grid_left_position = {
@@ -38656,7 +39052,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(18414062761433945694u64));
+return Err(ParseError::ExcludedBranch(14565187915810837879u64));
 }
 };
 _input.close_peek_context()?;
@@ -38683,7 +39079,7 @@ let b = _input.read_byte()?;
 if b == 44 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16815582401460622228u64));
+return Err(ParseError::ExcludedBranch(165949313037892889u64));
 }
 };
 let image_left_position = {
@@ -38733,7 +39129,7 @@ byte if (byte != 0) => {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8497430786761265101u64));
+return Err(ParseError::ExcludedBranch(13586715084946654863u64));
 }
 };
 _input.close_peek_context()?;
@@ -38865,55 +39261,55 @@ match _input.read_byte()? {
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(6170312119912404925u64));
+return Err(ParseError::ExcludedBranch(10796441316268123402u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(12018148152002987023u64));
+return Err(ParseError::ExcludedBranch(11138707079467673507u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(10784354724006973021u64));
+return Err(ParseError::ExcludedBranch(4276041640044341942u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(9362083066906141802u64));
+return Err(ParseError::ExcludedBranch(13415341611905239200u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(7814984350356971595u64));
+return Err(ParseError::ExcludedBranch(8346764656077042415u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(8834940284440365505u64));
+return Err(ParseError::ExcludedBranch(18414062761433945694u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(11138532932579103751u64));
+return Err(ParseError::ExcludedBranch(16815582401460622228u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(1640368834587091796u64));
+return Err(ParseError::ExcludedBranch(8497430786761265101u64));
 }
 }
 },
 
 _ => {
-return Err(ParseError::ExcludedBranch(14970223179097094798u64));
+return Err(ParseError::ExcludedBranch(6170312119912404925u64));
 }
 };
 _input.close_peek_context()?;
@@ -38928,7 +39324,7 @@ let b = _input.read_byte()?;
 if b == 83 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15666641356442195125u64));
+return Err(ParseError::ExcludedBranch(12018148152002987023u64));
 }
 };
 accum.push(next_elem)
@@ -38942,7 +39338,7 @@ let b = _input.read_byte()?;
 if b == 90 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(8003682420837492218u64));
+return Err(ParseError::ExcludedBranch(10784354724006973021u64));
 }
 };
 (arg0, arg1)
@@ -38970,7 +39366,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(6672851768458061412u64));
+return Err(ParseError::ExcludedBranch(9362083066906141802u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39003,7 +39399,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
+return Err(ParseError::FalsifiedWhere(7814984350356971595u64));
 }
 };
 let num_image_components = {
@@ -39015,7 +39411,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(17498679062468273557u64));
+return Err(ParseError::FalsifiedWhere(8834940284440365505u64));
 }
 };
 let image_components = {
@@ -39038,7 +39434,7 @@ let b = _input.read_byte()?;
 if b == 0 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(15004954221525838533u64));
+return Err(ParseError::ExcludedBranch(11138532932579103751u64));
 }
 };
 PResult::Ok(jpeg_sof_image_component { id, sampling_factor, quantization_table_id })
@@ -39060,7 +39456,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(9104412661124805519u64));
+return Err(ParseError::FalsifiedWhere(1640368834587091796u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
@@ -39074,7 +39470,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13731807471966330507u64));
+return Err(ParseError::ExcludedBranch(14970223179097094798u64));
 }
 };
 let marker = {
@@ -39082,7 +39478,7 @@ let b = _input.read_byte()?;
 if b == 200 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(13391927636850586680u64));
+return Err(ParseError::ExcludedBranch(15666641356442195125u64));
 }
 };
 jpeg_soi { marker }
@@ -39099,9 +39495,13 @@ let mut accum = Vec::new();
 while _input.remaining() > 0 {
 let matching_ix = {
 _input.open_peek_context();
-_input.read_byte()?;
 {
-let ret = 0;
+let ret = if _input.remaining() > 0 {
+_input.read_byte()?;
+0
+} else {
+1
+};
 _input.close_peek_context()?;
 ret
 }
@@ -39129,7 +39529,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(5585407796242218698u64));
+return Err(ParseError::ExcludedBranch(8003682420837492218u64));
 }
 };
 let marker = {
@@ -39137,7 +39537,7 @@ let b = _input.read_byte()?;
 if b == 222 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(7581188615734068888u64));
+return Err(ParseError::ExcludedBranch(6672851768458061412u64));
 }
 };
 jpeg_soi { marker }
@@ -39175,7 +39575,7 @@ x != 0u16
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(401211890982280023u64));
+return Err(ParseError::FalsifiedWhere(5694490278249537684u64));
 }
 };
 let num_image_components = {
@@ -39187,7 +39587,7 @@ x != 0u8
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(8351383702383589488u64));
+return Err(ParseError::FalsifiedWhere(17498679062468273557u64));
 }
 };
 let image_components = {
@@ -39209,7 +39609,7 @@ let b = _input.read_byte()?;
 if b == 255 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(16926640000337048185u64));
+return Err(ParseError::ExcludedBranch(15004954221525838533u64));
 }
 };
 let marker = {
@@ -39217,7 +39617,7 @@ let b = _input.read_byte()?;
 if b == 223 {
 b
 } else {
-return Err(ParseError::ExcludedBranch(14305107858950733127u64));
+return Err(ParseError::ExcludedBranch(9104412661124805519u64));
 }
 };
 jpeg_soi { marker }
@@ -39252,7 +39652,7 @@ let x = inner;
 if is_valid {
 inner
 } else {
-return Err(ParseError::FalsifiedWhere(14247107068446105269u64));
+return Err(ParseError::FalsifiedWhere(13731807471966330507u64));
 }
 };
 PResult::Ok(jpeg_exp_data { expand_horizontal_vertical })
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index a2415f0..250b8e2 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -739,6 +739,25 @@ fn invoke_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> RustExpr {
 // follows the same rules as CaseLogic::to_ast as far as the expression type of the generated code
 fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
     fn expand_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
+        let block = expand_branches(tree, ctxt);
+        match tree.accept {
+            // nothing left to read is not an error where the tree could already accept
+            Some(ix) if !tree.branches.is_empty() => {
+                let at_end = vec![RustStmt::Return(
+                    ReturnKind::Implicit,
+                    RustExpr::num_lit(ix),
+                )];
+                GenBlock::simple_expr(RustExpr::Control(Box::new(RustControl::If(
+                    Box::new(model::gt0(model::rem_bytes(ctxt.parser()))),
+                    block.flatten(),
+                    Some(at_end),
+                ))))
+            }
+            _ => block,
+        }
+    }
+
+    fn expand_branches(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
         match &tree.branches[..] {
             [] => {
                 if let Some(ix) = tree.accept {
@@ -822,14 +841,23 @@ fn embed_matchtree(tree: &MatchTree, ctxt: ProdCtxt<'_>) -> GenBlock {
                     }
                 }
 
-                let value = Box::new(RustExpr::err(
-                    RustExpr::scoped(["ParseError"], "ExcludedBranch")
-                        .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
-                ));
-                let match_block = RustControl::Match(
-                    call,
-                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value }),
-                );
+                let match_body = if let Some(ix) = tree.accept {
+                    cases.push((
+                        MatchCaseLHS::Pattern(RustPattern::CatchAll(None)),
+                        vec![RustStmt::Return(
+                            ReturnKind::Implicit,
+                            RustExpr::num_lit(ix),
+                        )],
+                    ));
+                    RustMatchBody::Irrefutable(cases)
+                } else {
+                    let value = Box::new(RustExpr::err(
+                        RustExpr::scoped(["ParseError"], "ExcludedBranch")
+                            .call_with([RustExpr::u64lit(get_trace(&(tree, "catchall-nomatch")))]),
+                    ));
+                    RustMatchBody::Refutable(cases, RustCatchAll::ReturnErrorValue { value })
+                };
+                let match_block = RustControl::Match(call, match_body);
                 GenBlock::simple_expr(RustExpr::Control(Box::new(match_block)))
             }
         }
-- 
2.43.0


From e3956ce03ac3599d2acf691835bf480d5dcfefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:24 +0000
Subject: [PATCH 20/27] fix: the interpreter's Maybe looks ahead past its own
 end, as generated code does

Maybe compiled its inner format as if nothing followed it, so a repetition
inside a Maybe ran on into the bytes of what comes after.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 61d5aaa..535c9b7 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -804,7 +804,7 @@ impl<'a> Compiler<'a> {
                 ))
             }
             Format::Maybe(x, a) => {
-                let da = Box::new(self.compile_format(a, Rc::new(Next::Empty))?);
+                let da = Box::new(self.compile_format(a, next)?);
                 Ok(Decoder::Maybe(x.clone(), da))
             }
             Format::Peek(a) => {
-- 
2.43.0


From 7f648f02969a86611561e26d2fb311b4edfd32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:11 +0000
Subject: [PATCH 21/27] fix: a backward seek keeps the limit of the slice it
 happens in

seek_to_offset was called so that it dropped the open slice's limit when the
destination lay before the current position; the interpreter keeps it.
---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b011606..febc566 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -100,7 +100,7 @@ impl<'a> Parser<'a> {
                 self.offset.try_increment(delta)?;
                 true
             } else {
-                self.offset.seek_to_offset(o_dest, false)?;
+                self.offset.seek_to_offset(o_dest, true)?;
                 false
             };
         Ok(is_advance)
-- 
2.43.0


From 25ee09188a68d771fe9497481676269236959a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:11 +0000
Subject: [PATCH 22/27] fix: a view opened inside a slice ends where the slice
 ends

Parser::view() reached to the end of the whole buffer, so reads through the
view could see bytes past the enclosing slice, unlike the interpreter.
---
 src/parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index febc566..03ff8d3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -35,7 +35,7 @@ impl<'a> Parser<'a> {
     }
 
     /// Creates a [`View`] starting from the current position in the Parser,
-    /// provided it is in Bytes-mode.
+    /// provided it is in Bytes-mode, and ending where the innermost open slice ends.
     ///
     /// # Panics
     ///
@@ -44,7 +44,11 @@ impl<'a> Parser<'a> {
         let (cur_offset, None) = self.offset.get_current_offset().as_bytes() else {
             panic!("cannot open view while in bits-mode processing");
         };
-        self.buffer.offset(cur_offset).unwrap()
+        let (limit, _) = self.offset.current_limit().as_bytes();
+        View {
+            buffer: &self.buffer.buffer[cur_offset..limit],
+            start_offset: self.buffer.start_offset + cur_offset,
+        }
     }
 
     /// Advances the offset by `offset` positions, as if calling [`Self::read_byte`] that many
-- 
2.43.0


From 87810799b9278549a17f658e44f199b2522cceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:41 +0000
Subject: [PATCH 23/27] fix: over-subscribed Huffman code lengths fail the
 parse

The interpreter either panicked (no lookahead tree for the codes) or decoded
with an ambiguous code; generated code reports a code collision.
---
 src/decoder.rs     | 9 +++++++++
 src/loc_decoder.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 535c9b7..73fc371 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1779,6 +1779,15 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
         bl_count[*len] += 1;
     }
 
+    // more codes than the code space holds: no prefix code has these lengths
+    let mut unused = 1usize;
+    for count in &bl_count[1..] {
+        match unused.saturating_mul(2).checked_sub(*count) {
+            Some(n) => unused = n,
+            None => return Format::Fail,
+        }
+    }
+
     let mut next_code = [0].repeat(max_length + 1);
     let mut code = 0;
     bl_count[0] = 0;
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 4b3a718..9f188ad 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -2022,6 +2022,15 @@ fn make_huffman_codes(lengths: &[usize]) -> Format {
         bl_count[*len] += 1;
     }
 
+    // more codes than the code space holds: no prefix code has these lengths
+    let mut unused = 1usize;
+    for count in &bl_count[1..] {
+        match unused.saturating_mul(2).checked_sub(*count) {
+            Some(n) => unused = n,
+            None => return Format::Fail,
+        }
+    }
+
     let mut next_code = [0].repeat(max_length + 1);
     let mut code = 0;
     bl_count[0] = 0;
-- 
2.43.0


From 2f88af04c7203a5b27568c09494da05ecd062a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:17 +0000
Subject: [PATCH 24/27] fix: a generated decoder maps a surrogate code to
 U+FFFD instead of panicking

---
 generated/gencode.rs | 4 ++--
 src/codegen/mod.rs   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/generated/gencode.rs b/generated/gencode.rs
index 115bd21..d7c4d58 100644
--- a/generated/gencode.rs
+++ b/generated/gencode.rs
@@ -10016,7 +10016,7 @@ b
 return Err(ParseError::ExcludedBranch(2391834656526534993u64));
 }
 };
-(char::from_u32(0u32)).unwrap()
+(char::from_u32(0u32)).unwrap_or(char::REPLACEMENT_CHARACTER)
 },
 
 1 => {
@@ -10362,7 +10362,7 @@ return Err(ParseError::ExcludedBranch(8772793160380380086u64));
 }
 }
 };
-PResult::Ok((char::from_u32(codepoint)).unwrap())
+PResult::Ok((char::from_u32(codepoint)).unwrap_or(char::REPLACEMENT_CHARACTER))
 }
 
 /// d#21
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index 250b8e2..7a4db95 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1248,7 +1248,10 @@ fn embed_expr(expr: &GTExpr, info: ExprInfo) -> RustExpr {
         }
         TypedExpr::AsChar(codepoint) => RustExpr::scoped(["char"], "from_u32")
             .call_with([embed_expr_nat(codepoint)])
-            .call_method("unwrap"),
+            .call_method_with(
+                "unwrap_or",
+                [RustExpr::scoped(["char"], "REPLACEMENT_CHARACTER")],
+            ),
         TypedExpr::SeqLength(seq) => {
             // NOTE - SeqLength is treated as U32 in Format context, so any operations on it have to be done on a U32 value rather than the natural `.len(): _ -> usize` return-value
             RustExpr::Operation(RustOp::AsCast(
-- 
2.43.0


From 6c54438f329d760a3f9a23955a61c23712a21ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:45 +0000
Subject: [PATCH 25/27] fix: writing generated code to a new file never
 replaces a file that is already there

---
 doodle-formats/src/main.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/doodle-formats/src/main.rs b/doodle-formats/src/main.rs
index 334da12..c75b0e6 100644
--- a/doodle-formats/src/main.rs
+++ b/doodle-formats/src/main.rs
@@ -332,13 +332,18 @@ fn print_generated_code(
     match dest {
         None => write_to(std::io::stdout().lock(), content).expect("failed to write"),
         Some(path) => {
-            if !path.exists()
-                || (path.is_file()
-                    && path
-                        .file_name()
-                        .is_some_and(|s| s.to_string_lossy().contains("gencode")))
-            {
-                let f = std::fs::File::create(path).unwrap_or_else(|err| panic!("error: {err}"));
+            let is_replaceable = path.is_file()
+                && path
+                    .file_name()
+                    .is_some_and(|s| s.to_string_lossy().contains("gencode"));
+            if is_replaceable || !path.exists() {
+                // anything but a previously generated file must not be there already
+                let f = if is_replaceable {
+                    std::fs::File::create(path)
+                } else {
+                    std::fs::File::create_new(path)
+                }
+                .unwrap_or_else(|err| panic!("error: {err}"));
                 write_to(f, content).expect("failed to write");
             } else {
                 panic!(
-- 
2.43.0


From 9d0b1e39d68f27c97483fcbf25eada4076e3e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:45 +0000
Subject: [PATCH 26/27] fix: the location of a repeat-until-seq sequence spans
 its elements

---
 src/loc_decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 9f188ad..0f1e7ac 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -1681,9 +1681,10 @@ impl Decoder {
                     })?;
                     break_if_done!(res => (v, input));
                 }
-                let total_len = input.offset - start_offset;
-                Ok(res
-                    .map(|(v, input, _)| (ParsedValue::new_seq(v, start_offset, total_len), input)))
+                Ok(res.map(|(v, input, _)| {
+                    let total_len = input.offset - start_offset;
+                    (ParsedValue::new_seq(v, start_offset, total_len), input)
+                }))
             }
             Decoder::AccumUntil(f_done, f_update, init, _vt, a) => {
                 let accum = init.eval_value_with_loc(scope);
-- 
2.43.0


From 29e56c9cfdb5354f515e5f9766ba104b35ecbba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:48 +0000
Subject: [PATCH 27/27] fix: integer ranges are accepted where the interpreters
 take a sequence

LeftFold, FlatMapAccum, FlatMapList, FindByKey and Append panicked on the
value of a well-typed EnumFromTo, and a sub-range ending where the range
ends was refused.
---
 src/decoder.rs          | 28 ++++++++++++----------------
 src/decoder/seq_kind.rs | 14 ++++++++------
 src/decoder/value.rs    |  9 +++++++++
 src/loc_decoder.rs      | 33 ++++++++++++++++++---------------
 4 files changed, 47 insertions(+), 37 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 73fc371..929ca1a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -361,26 +361,22 @@ impl Expr {
                     _ => panic!("FlatMap: expected Seq"),
                 }
             }
-            Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::FlatMapAccum(expr, accum, _accum_type, seq) => match seq.eval_value(scope).into_sequence() {
+                Some(values) => {
                     let mut accum = accum.eval_value(scope);
                     let mut vs = Vec::new();
                     for v in values {
                         let ret = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
-                        accum = match extract_pair(ret.unwrap_tuple()) {
-                            (accum, Value::Seq(vn)) => {
-                                vs.extend(vn);
-                                accum
-                            }
-                            _ => panic!("FlatMapAccum: expected two values"),
-                        };
+                        let (new_accum, vn) = extract_pair(ret.unwrap_tuple());
+                        vs.extend(vn.into_sequence().expect("FlatMapAccum: expected Seq"));
+                        accum = new_accum;
                     }
                     Cow::Owned(Value::Seq(vs.into()))
                 }
                 _ => panic!("FlatMapAccum: expected Seq"),
             },
-            Expr::LeftFold(expr, accum, _accum_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::LeftFold(expr, accum, _accum_type, seq) => match seq.eval_value(scope).into_sequence() {
+                Some(values) => {
                     let mut accum = accum.eval_value(scope);
                     for v in values {
                         let tmp = expr.eval_lambda(scope, &Value::Tuple(vec![accum, v]));
@@ -390,8 +386,8 @@ impl Expr {
                 }
                 _ => panic!("LeftFold: expected Seq"),
             },
-            Expr::FindByKey(is_sorted, f_get_key, query_key, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::FindByKey(is_sorted, f_get_key, query_key, seq) => match seq.eval_value(scope).into_sequence() {
+                Some(values) => {
                     let query = query_key.eval_value(scope);
                     let eval = |lambda: &Expr, arg: &Value| lambda.eval_lambda(scope, arg);
                     if *is_sorted {
@@ -412,12 +408,12 @@ impl Expr {
                 }
                 _ => panic!("FindByKey: expected Seq"),
             },
-            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value(scope) {
-                Value::Seq(values) => {
+            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value(scope).into_sequence() {
+                Some(values) => {
                     let mut vs = Vec::new();
                     for v in values {
                         let arg = Value::Tuple(vec![Value::Seq(SeqKind::Strict(vs)), v]);
-                        if let Value::Seq(vn) = expr.eval_lambda(scope, &arg) {
+                        if let Some(vn) = expr.eval_lambda(scope, &arg).into_sequence() {
                             vs = match arg {
                                 Value::Tuple(mut args) => match args.remove(0) {
                                     Value::Seq(vs) => vs.into_vec(),
diff --git a/src/decoder/seq_kind.rs b/src/decoder/seq_kind.rs
index 11d8717..6c1832f 100644
--- a/src/decoder/seq_kind.rs
+++ b/src/decoder/seq_kind.rs
@@ -37,13 +37,15 @@ impl<'a, V: Clone> ValueSeq<'a, V> {
         }
     }
 
-    pub fn append(self, other: Self) -> SeqKind<V> {
-        if matches!(self, ValueSeq::IntRange(..)) | matches!(other, ValueSeq::IntRange(..)) {
-            unimplemented!("appending int ranges");
-        }
+    pub fn append(self, other: Self) -> SeqKind<V>
+    where
+        V: From<usize>,
+    {
         match (self, other) {
             (ValueSeq::ValueSeq(v1), ValueSeq::ValueSeq(v2)) => (*v1).clone().append((*v2).clone()),
-            _ => unreachable!(),
+            (seq0, seq1) => Iterator::chain(seq0.into_iter(), seq1)
+                .map(Cow::into_owned)
+                .collect(),
         }
     }
 }
@@ -54,7 +56,7 @@ pub(crate) fn sub_range(
     len: usize,
 ) -> std::ops::Range<usize> {
     assert!(
-        start + len < range.len(),
+        start + len <= range.len(),
         "sub_range invalid: start={start} len={len} range={range:?}"
     );
     range.start + start..range.start + start + len
diff --git a/src/decoder/value.rs b/src/decoder/value.rs
index cd4976e..48a9365 100644
--- a/src/decoder/value.rs
+++ b/src/decoder/value.rs
@@ -328,6 +328,15 @@ impl Value {
         }
     }
 
+    /// Consumes a sequence-valued `Value` (including an integer range) and returns its elements.
+    pub(crate) fn into_sequence(self) -> Option<SeqKind<Value>> {
+        match self {
+            Value::Seq(elts) => Some(elts),
+            Value::EnumFromTo(range) => Some(range.map(Value::from).collect()),
+            _ => None,
+        }
+    }
+
     pub(crate) fn is_boolean(&self) -> bool {
         matches!(self.coerce_mapped_value(), Value::Bool(_))
     }
diff --git a/src/loc_decoder.rs b/src/loc_decoder.rs
index 0f1e7ac..139896f 100644
--- a/src/loc_decoder.rs
+++ b/src/loc_decoder.rs
@@ -951,7 +951,7 @@ impl Expr {
                     Some(values) => {
                         let mut vs: Vec<Value> = Vec::new();
                         for v in values {
-                            if let Value::Seq(vn) = expr.eval_lambda_with_loc(scope, &v) {
+                            if let Some(vn) = expr.eval_lambda_with_loc(scope, &v).into_sequence() {
                                 vs.extend(vn);
                             } else {
                                 panic!("FlatMap: expected Seq");
@@ -978,13 +978,9 @@ impl Expr {
                                 v.clone_into_value(),
                             ])),
                         );
-                        accum = match extract_pair(ret.unwrap_tuple()) {
-                            (accum, Value::Seq(vn)) => {
-                                vs.extend(vn);
-                                accum
-                            }
-                            other => panic!("FlatMapAccum: bad lambda output type {other:?}"),
-                        };
+                        let (new_accum, vn) = extract_pair(ret.unwrap_tuple());
+                        vs.extend(vn.into_sequence().expect("FlatMapAccum: expected Seq"));
+                        accum = new_accum;
                     }
                     Cow::Owned(ParsedValue::from_evaluated(Value::Seq(vs.into())))
                 }
@@ -1017,7 +1013,13 @@ impl Expr {
                     .coerce_mapped_value()
                     .get_sequence()
                 {
-                    Some(ValueSeq::ValueSeq(values)) => {
+                    Some(values) => {
+                        let values = &match values {
+                            ValueSeq::ValueSeq(values) => Cow::Borrowed(values),
+                            ValueSeq::IntRange(range) => {
+                                Cow::Owned(range.map(ParsedValue::from).collect())
+                            }
+                        };
                         let eval =
                             |lambda: &Expr, v: &ParsedValue| lambda.eval_lambda_with_loc(scope, v);
                         let query = query_key.eval_value_with_loc(scope);
@@ -1041,20 +1043,21 @@ impl Expr {
                             }
                         }
                     }
-                    Some(ValueSeq::IntRange(_)) => {
-                        unimplemented!("FindByKey: unimplemented on IntRange")
-                    }
                     None => panic!("FindByKey: expected Seq"),
                 }
             }
-            Expr::FlatMapList(expr, _ret_type, seq) => match seq.eval_value_with_loc(scope) {
-                Value::Seq(values) => {
+            Expr::FlatMapList(expr, _ret_type, seq) => match seq
+                .eval_value_with_loc(scope)
+                .into_sequence()
+            {
+                Some(values) => {
                     let mut vs = Vec::new();
                     for v in values {
                         let arg = Value::Tuple(vec![Value::Seq(vs.into()), v]);
                         // TODO can we avoid cloning arg here?
-                        if let Value::Seq(vn) = expr
+                        if let Some(vn) = expr
                             .eval_lambda_with_loc(scope, &ParsedValue::from_evaluated(arg.clone()))
+                            .into_sequence()
                         {
                             vs = match arg {
                                 Value::Tuple(mut args) => match args.remove(0) {
-- 
2.43.0

