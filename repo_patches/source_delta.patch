From 48c78b6fd262b339463b71208ccb10377623abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:52 +0000
Subject: [PATCH 01/28] fix: identifier succession must not wrap around (0 is
 not the successor of 65535)

---
 src/identifier/article.rs | 2 +-
 src/identifier/numeric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identifier/article.rs b/src/identifier/article.rs
index 171416f..69ef51c 100644
--- a/src/identifier/article.rs
+++ b/src/identifier/article.rs
@@ -44,7 +44,7 @@ impl IdentifierCommon for ArticleIdentifier {
         match (self.book, other.book) {
             (None, None) => self.identifier.is_next_from(other.identifier),
             (Some(bs), Some(bo)) if bs == bo => self.identifier.is_next_from(other.identifier),
-            (Some(bs), Some(bo)) if bs.wrapping_sub(bo) == 1 => self.identifier.is_first(),
+            (Some(bs), Some(bo)) if bs.checked_sub(bo) == Some(1) => self.identifier.is_first(),
             _ => false,
         }
     }
diff --git a/src/identifier/numeric.rs b/src/identifier/numeric.rs
index 57fb40b..17270b0 100644
--- a/src/identifier/numeric.rs
+++ b/src/identifier/numeric.rs
@@ -92,7 +92,7 @@ impl NumericIdentifier {
 impl IdentifierCommon for NumericIdentifier {
     fn is_next_from(&self, other: Self) -> bool {
         match (self.suffix, other.suffix) {
-            (None, _) => self.num.wrapping_sub(other.num) == 1,
+            (None, _) => self.num.checked_sub(other.num) == Some(1),
             (Some(ss), None) => self.num == other.num && ss.is_first(),
             (Some(ss), Some(so)) => self.num == other.num && ss.is_next_from(so),
         }
-- 
2.43.0


From f6978e24a73a397acae6035288a79bc2f85ba410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:46 +0000
Subject: [PATCH 02/28] fix: displaying an act identifier must not panic when
 its number has no roman form

---
 src/identifier/act.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/identifier/act.rs b/src/identifier/act.rs
index f71eb21..dd37688 100644
--- a/src/identifier/act.rs
+++ b/src/identifier/act.rs
@@ -33,12 +33,9 @@ pub struct ActIdentifier {
 
 impl Display for ActIdentifier {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(
-            f,
-            "{:?}. évi {}. törvény",
-            self.year,
-            roman::to(self.number).unwrap()
-        )
+        // Not every number has a roman form
+        let number = roman::to(self.number).unwrap_or_else(|| self.number.to_string());
+        write!(f, "{:?}. évi {}. törvény", self.year, number)
     }
 }
 
-- 
2.43.0


From ab1f870bd98ee0e8757fec985b0bd32f507ee15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:16 +0000
Subject: [PATCH 03/28] fix: a reference with deeper parts set is not the
 parent of what differs above them

---
 src/reference/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reference/mod.rs b/src/reference/mod.rs
index 312c0f7..388adfe 100644
--- a/src/reference/mod.rs
+++ b/src/reference/mod.rs
@@ -252,10 +252,13 @@ impl Reference {
             false
         } else if self.article != other.article {
             self.article.is_none()
+                && self.paragraph.is_none()
+                && self.point.is_none()
+                && self.subpoint.is_none()
         } else if self.paragraph != other.paragraph {
-            self.paragraph.is_none()
+            self.paragraph.is_none() && self.point.is_none() && self.subpoint.is_none()
         } else if self.point != other.point {
-            self.point.is_none()
+            self.point.is_none() && self.subpoint.is_none()
         } else if self.subpoint != other.subpoint {
             self.subpoint.is_none()
         } else {
-- 
2.43.0


From e24d4193aabd09e3fc06f4ddeebf3ff06b7b5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:02 +0000
Subject: [PATCH 04/28] fix: an empty line is never bold (as_bold on
 EMPTY_LINE)

---
 src/util/indentedline.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 6263f72..5fa6c23 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -242,16 +242,13 @@ impl IndentedLine {
     }
 
     pub fn as_bold(&self) -> Self {
-        Self {
-            parts: self
-                .parts
+        Self::from_parts(
+            self.parts
                 .iter()
                 .map(|p| IndentedLinePart { bold: true, ..*p })
                 .collect(),
-            justified: self.justified,
-            cached_content: self.cached_content.clone(),
-            cached_bold: true,
-        }
+            self.justified,
+        )
     }
 }
 
-- 
2.43.0


From 0c637b9bd60ff35370a900ad35451e2097c173a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:02 +0000
Subject: [PATCH 05/28] fix: slicing a line from its very end gives the empty
 line instead of panicking

---
 src/util/indentedline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 5fa6c23..605340a 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -125,6 +125,9 @@ impl IndentedLine {
     }
 
     pub fn slice_bytes(&self, from: usize, to: Option<usize>) -> IndentedLine {
+        if from >= self.content().len() {
+            return EMPTY_LINE;
+        }
         let chars_from = self
             .content()
             .char_indices()
-- 
2.43.0


From 56ccc38c8e7f8ba72e601d98c2417359c613b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:09 +0000
Subject: [PATCH 06/28] fix: an article without any text must not make the
 structure parser panic

---
 src/parser/structure/article.rs | 2 +-
 src/parser/structure/sae.rs     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/structure/article.rs b/src/parser/structure/article.rs
index facfa47..decb5a0 100644
--- a/src/parser/structure/article.rs
+++ b/src/parser/structure/article.rs
@@ -102,7 +102,7 @@ impl ArticleParser {
         // amendment in 2013. évi CCLII. törvény 185. § (18)
         // There can only be at most 1 consecutive EMPTY_LINE because of previous
         // preprocessing in the PDF extractor.
-        if self.lines[0].is_empty() {
+        if self.lines.first().map_or(false, |l| l.is_empty()) {
             self.lines.remove(0);
         }
         let extracted = ParagraphParser.extract_multiple(
diff --git a/src/parser/structure/sae.rs b/src/parser/structure/sae.rs
index a17d1ec..4cce4e7 100644
--- a/src/parser/structure/sae.rs
+++ b/src/parser/structure/sae.rs
@@ -172,6 +172,7 @@ pub trait SAEParser: Debug {
     where
         T: From<Vec<SubArticleElement<Self::IdentifierType, Self::ChildrenType>>>,
     {
+        ensure!(!lines.is_empty(), "No lines to extract {self:?} from");
         let (mut identifier, first_line_rest) = self
             .parse_header(&lines[0])
             .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", lines[0].content()))?;
-- 
2.43.0


From 5bafb0cc083a7a7f1bdfdda96b138823fb700141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:19 +0000
Subject: [PATCH 07/28] fix: an empty quoted block must not make structural
 block amendment conversion panic

---
 src/parser/structure/block_amendment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 38d2aa7..67ba64f 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -112,6 +112,8 @@ fn convert_structural_block_amendment(
     position: &StructuralReference,
     lines: &[IndentedLine],
 ) -> Result<Vec<ActChild>> {
+    ensure!(!lines.is_empty());
+
     if let StructuralReferenceElement::Article(article_id) = position.structural_element {
         convert_articles(article_id.first_in_range(), lines)
     } else if position.title_only {
-- 
2.43.0


From 3fe387f51a7550181a8243c4f1cd154dd1b7a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:19 +0000
Subject: [PATCH 08/28] fix: a failed block amendment conversion must not lose
 the intro of the quoted block

---
 src/parser/structure/block_amendment.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 67ba64f..0ecc5e5 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -77,25 +77,23 @@ impl Paragraph {
             if let Some(special_phrase) = &self.semantic_info.special_phrase {
                 match special_phrase {
                     SpecialPhrase::BlockAmendment(ba) => {
+                        let converted =
+                            convert_simple_block_amendment(&ba.position, &quoted_block.lines)
+                                .with_context(|| "Could not parse simple block amendment")?;
                         *children = BlockAmendment {
                             intro: std::mem::take(&mut quoted_block.intro),
-                            children: convert_simple_block_amendment(
-                                &ba.position,
-                                &quoted_block.lines,
-                            )
-                            .with_context(|| "Could not parse simple block amendment")?,
+                            children: converted,
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
                     }
                     SpecialPhrase::StructuralBlockAmendment(sba) => {
+                        let converted =
+                            convert_structural_block_amendment(&sba.position, &quoted_block.lines)
+                                .with_context(|| "Could not parse structural block amendment")?;
                         *children = StructuralBlockAmendment {
                             intro: std::mem::take(&mut quoted_block.intro),
-                            children: convert_structural_block_amendment(
-                                &sba.position,
-                                &quoted_block.lines,
-                            )
-                            .with_context(|| "Could not parse structural block amendment")?,
+                            children: converted,
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
-- 
2.43.0


From 75c3f8e7f97b456f8ada1e9d2379ddb6d25f3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:19 +0000
Subject: [PATCH 09/28] fix: article headers inside a nested quote must not
 split an amended article

---
 src/parser/structure/block_amendment.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 0ecc5e5..b0b7ac3 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -38,7 +38,7 @@ use crate::{
         Act, ActChild, Article, BlockAmendment, BlockAmendmentChildren, Paragraph,
         ParagraphChildren, SAEBody, StructuralBlockAmendment, StructuralElementType,
     },
-    util::{debug::WithElemContext, indentedline::IndentedLine},
+    util::{debug::WithElemContext, indentedline::IndentedLine, QuoteCheck},
 };
 
 impl Act {
@@ -183,19 +183,28 @@ fn convert_simple_block_amendment(
 fn convert_articles(first_id: ArticleIdentifier, lines: &[IndentedLine]) -> Result<Vec<ActChild>> {
     let mut factory = ArticleParserFactory::new(ParsingContext::BlockAmendment);
     let mut result = Vec::new();
+    let mut quote_checker = QuoteCheck::default();
+    quote_checker.update(&lines[0])?;
     let mut parser = factory
         .try_create_from_header(&lines[0], Some(first_id))
         .with_context(|| {
             anyhow!("First line of amendment could not be parsed into an article header",)
         })?;
     for line in &lines[1..] {
-        if let Ok(new_parser) = factory.try_create_from_header(line, None) {
+        quote_checker.update(line)?;
+        let new_parser = if quote_checker.beginning_is_quoted {
+            None
+        } else {
+            factory.try_create_from_header(line, None).ok()
+        };
+        if let Some(new_parser) = new_parser {
             result.push(parser.finish()?.into());
             parser = new_parser;
         } else {
             parser.feed_line(line);
         }
     }
+    quote_checker.check_end()?;
     result.push(parser.finish()?.into());
     Ok(result)
 }
-- 
2.43.0


From 5eb8e86fb85b8e16584b1f4894aca95d75bed554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:41 +0000
Subject: [PATCH 10/28] fix: a date without the period after its day must not
 be read as another day

---
 src/util/hun_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/hun_str.rs b/src/util/hun_str.rs
index 73047ee..5b32a5c 100644
--- a/src/util/hun_str.rs
+++ b/src/util/hun_str.rs
@@ -29,7 +29,7 @@ pub trait ToHungarianString {
 impl FromHungarianString for NaiveDate {
     fn from_hungarian(s: &str) -> Result<Self> {
         // This is not a performance critical part, so I won't bother with 'optimizing' this regex
-        let (_, year, month, day) = regex_captures!(r"^(\d{4}). ([^ ]+) (\d{1,2}).", s)
+        let (_, year, month, day) = regex_captures!(r"^(\d{4})\. ([^ ]+) (\d{1,2})\.", s)
             .ok_or_else(|| anyhow!("Could not parse date string {s}"))?;
 
         NaiveDate::from_ymd_opt(
-- 
2.43.0


From 1740bc097be1c1f5a46a35794e0ae8e10bb102fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:41 +0000
Subject: [PATCH 11/28] fix: an act header without the period after its number
 must not be read as another act

---
 src/parser/mk_act_section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index 3a3c9ce..fe59225 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -92,7 +92,7 @@ impl ActExtractor {
 
     fn wait_for_header(&mut self, line: &IndentedLine) -> ActExtractionState {
         if let Some((_, year_str, num_str)) = regex_captures!(
-            "^([12][09][0-9][0-9]). évi ([IVXLC]+). törvény",
+            "^([12][09][0-9][0-9])\\. évi ([IVXLC]+)\\. törvény",
             line.content()
         ) {
             if let Ok(year) = year_str.parse::<i16>() {
-- 
2.43.0


From 3be54eeba367c257236ae21b3c12f2a6e4f672ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:31 +0000
Subject: [PATCH 12/28] fix: the last code of the base encodings of PDF fonts
 must be mapped too

---
 src/parser/pdf/font.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 1d0fc34..c54009c 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -80,7 +80,7 @@ impl FastFont {
             BaseEncoding::MacRomanEncoding => self.process_base_encoding(&pdf_encoding::MACROMAN),
             BaseEncoding::WinAnsiEncoding => {
                 let mut tmp = [0u8; 4];
-                for cid in 0..255 {
+                for cid in 0..=255 {
                     if let Some(c) = pdf_encoding::WINANSI.get(cid) {
                         self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
                     } else if cid > 30 {
@@ -110,7 +110,7 @@ impl FastFont {
 
     fn process_base_encoding(&mut self, map: &pdf_encoding::ForwardMap) {
         let mut tmp = [0u8; 4];
-        for cid in 0..255 {
+        for cid in 0..=255 {
             if let Some(c) = map.get(cid) {
                 self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
             }
-- 
2.43.0


From a583f17414a8baeab04a3dac96dac1c20bc8a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:31 +0000
Subject: [PATCH 13/28] fix: a later one-character mapping of a PDF font must
 override an earlier string mapping

---
 src/parser/pdf/font.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index c54009c..da2b5bf 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -132,6 +132,8 @@ impl FastFont {
             self.cmap.resize(cid as usize + 1, '\u{0}');
         }
         self.cmap[cid as usize] = s.chars().next().unwrap();
+        // The latest mapping is the valid one, e.g. a ToUnicode entry for an unknown glyph name
+        self.smap.remove(&cid);
     }
 
     pub fn to_unicode(&self, cid: u32) -> ToUnicodeResult {
-- 
2.43.0


From 99366f7aa09813b68f468dfbc227623742df7742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:31 +0000
Subject: [PATCH 14/28] fix: restoring the PDF graphics state must restore the
 boldness and space width of the font

---
 src/parser/pdf/page.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 71b0b6e..1abd220 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -138,6 +138,15 @@ where
         Ok(())
     }
 
+    fn restore_state(&mut self, error_msg: &'static str) -> Result<()> {
+        self.state = self.state_stack.pop().ok_or_else(|| anyhow!(error_msg))?;
+        // The font is part of the state, so what was deduced from it has to be restored too
+        if let Some(font) = &self.state.font {
+            self.collector.font_changed(font)?;
+        }
+        Ok(())
+    }
+
     fn handle_xobject(&mut self, name: Name) -> Result<()> {
         let resources = self.resources()?;
         let xobject_ref = resources
@@ -165,10 +174,7 @@ where
         }
 
         // Load back the stuff
-        self.state = self
-            .state_stack
-            .pop()
-            .ok_or_else(|| anyhow!("State stack empty after Form rendering"))?;
+        self.restore_state("State stack empty after Form rendering")?;
         self.resources = saved_resources;
         Ok(())
     }
@@ -200,12 +206,7 @@ where
 
             // --- State stack ---
             Op::Save => self.state_stack.push(self.state.clone()),
-            Op::Restore => {
-                self.state = self
-                    .state_stack
-                    .pop()
-                    .ok_or_else(|| anyhow!("State stack empty"))?
-            }
+            Op::Restore => self.restore_state("State stack empty")?,
 
             // --- Font stuff ---
             Op::GraphicsState { name } => {
-- 
2.43.0


From 8f088a9d72c5f2097ada5e3a9f13c8413171df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:49 +0000
Subject: [PATCH 15/28] fix: the PDF font cache must not take a font for
 another one that had the same address

---
 src/parser/pdf/font.rs | 14 ++++++++++----
 src/parser/pdf/page.rs |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index da2b5bf..cb6edaf 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -23,7 +23,7 @@ use anyhow::{anyhow, bail, Result};
 use pdf::{
     encoding::{BaseEncoding, Encoding as PdfEncoding},
     font::{Font, FontData, ToUnicodeMap, Widths},
-    object::Resolve,
+    object::{MaybeRef, PlainRef, Resolve},
 };
 use pdf_encoding::glyphname_to_unicode;
 
@@ -157,12 +157,18 @@ impl FastFont {
 
 #[derive(Debug, Default)]
 pub struct FontCache {
-    cache: HashMap<usize, Rc<FastFont>>,
+    cache: HashMap<PlainRef, Rc<FastFont>>,
 }
 
 impl FontCache {
-    pub fn get(&mut self, font: &Font, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
-        let entry = self.cache.entry(font as *const Font as usize);
+    pub fn get(&mut self, font: &MaybeRef<Font>, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
+        // The address of the font must not be used as a key, because it may be reused by another
+        // font after this one is dropped. Fonts which are not separate objects are not cached.
+        let font_ref = match font {
+            MaybeRef::Direct(font) => return Ok(Rc::new(FastFont::convert(font, resolve)?)),
+            MaybeRef::Indirect(font) => font.get_ref().get_inner(),
+        };
+        let entry = self.cache.entry(font_ref);
         Ok(match entry {
             hash_map::Entry::Occupied(e) => e.get().clone(),
             hash_map::Entry::Vacant(e) => {
diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 1abd220..a9d41bd 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -130,7 +130,7 @@ where
         Ok(())
     }
 
-    fn set_font(&mut self, font: &Font, size: f32) -> Result<()> {
+    fn set_font(&mut self, font: &MaybeRef<Font>, size: f32) -> Result<()> {
         let fast_font = self.font_cache.get(font, self.pdf_file)?;
         self.collector.font_changed(&fast_font)?;
         self.state.font = Some(fast_font);
@@ -217,7 +217,7 @@ where
                     .ok_or_else(|| anyhow!("Did not find graphics state resource"))?
                     .font
                 {
-                    self.set_font(&*self.pdf_file.get(font_ref)?, size)?;
+                    self.set_font(&MaybeRef::Indirect(self.pdf_file.get(font_ref)?), size)?;
                 }
             }
             Op::TextFont { name, size } => {
-- 
2.43.0


From 10146101b7572826fd5f302c10e4bac69cc7d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:31 +0000
Subject: [PATCH 16/28] fix: the fixup editor must not panic on lines shorter
 than its quote level column

---
 src/bin/hun_law/fixup_editor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index b79ae26..c1144db 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -73,7 +73,11 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
         .iter()
         .map(|l| l.content().trim().to_owned())
         .collect();
-    let new_lines = contents.lines().map(|l| l[5..].trim().to_owned()).collect();
+    // Lines may be shorter than the quote level column, e.g. if they were emptied completely
+    let new_lines = contents
+        .lines()
+        .map(|l| l.chars().skip(5).collect::<String>().trim().to_owned())
+        .collect();
     let mut fixups = Fixups::load(act.identifier)?;
     update_fixups(&mut fixups, old_lines, new_lines)?;
     fixups.save()?;
-- 
2.43.0


From 46e5454c42128942ecfeecf76fee284fce8cf32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:31 +0000
Subject: [PATCH 17/28] fix: fixups must be recorded against the same lines
 they will be applied to

---
 src/bin/hun_law/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index c35f5b5..61c53ae 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -236,8 +236,9 @@ fn process_single_act_interactive(
         if confirm("Try to fix issue in editor?")? {
             // TODO: Remove this duplicate code somehow
             let mut act_fixed_up = act_raw.clone();
+            // Double empty lines must not be removed, because the saved fixups will be applied
+            // to lines that have them too, and their context would not be found.
             Fixups::load(act_fixed_up.identifier)?.apply(&mut act_fixed_up.body)?;
-            act_fixed_up.remove_double_empty_lines();
 
             run_fixup_editor(&act_fixed_up, &args.editor)?;
             continue;
-- 
2.43.0


From ff8059f3af708e2fee1fcb8c4e92b7a904f18209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:31 +0000
Subject: [PATCH 18/28] fix: an issue that could not be processed must be
 reflected in the exit status

---
 src/bin/hun_law/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index 61c53ae..3995e04 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -138,6 +138,7 @@ fn main() -> Result<()> {
             Ok(())
         }() {
             println!("{e:#?}");
+            everything_ok = false;
         }
     }
     if everything_ok {
-- 
2.43.0


From 9f4caabb9faa6e71a1ca33f1aaf4b00b6b539f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:08 +0000
Subject: [PATCH 19/28] fix: an interrupted save must not lose the fixups that
 were already there

---
 src/fixups.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index ace4bfe..99f8621 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -15,7 +15,7 @@
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
 use std::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     path::PathBuf,
 };
 
@@ -76,7 +76,10 @@ impl Fixups {
                 .parent()
                 .ok_or_else(|| anyhow!("No parent for fixup_path"))?,
         )?;
-        singleton_yaml::to_writer(&mut File::create(&self.fixup_path)?, &self.fixups)?;
+        // Already existing fixups must not be lost if saving is interrupted
+        let temp_path = self.fixup_path.with_extension("yml.tmp");
+        singleton_yaml::to_writer(&mut File::create(&temp_path)?, &self.fixups)?;
+        rename(&temp_path, &self.fixup_path)?;
         Ok(())
     }
 
-- 
2.43.0


From c7a901f3a5e2809793d36aa2a463f93934ae7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:08 +0000
Subject: [PATCH 20/28] fix: an interrupted download must not leave a truncated
 issue in the cache

---
 src/mk_downloader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mk_downloader.rs b/src/mk_downloader.rs
index b43ae89..61c9a89 100644
--- a/src/mk_downloader.rs
+++ b/src/mk_downloader.rs
@@ -77,6 +77,9 @@ pub fn download_mk_issue(issue: &MkIssue, cache_dir: &Path) -> Result<Vec<u8>> {
     if let Some(file_dir) = file_path.parent() {
         fs::create_dir_all(file_dir)?;
     }
-    fs::write(file_path, &http_body)?;
+    // A partially written file must never be found under the final name, or it would be used forever
+    let temp_path = file_path.with_extension(format!("{}.tmp", std::process::id()));
+    fs::write(&temp_path, &http_body)?;
+    fs::rename(&temp_path, &file_path)?;
     Ok(http_body)
 }
-- 
2.43.0


From 11510a8d62c5d074fb97eea1b28b7a7a38525b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:21 +0000
Subject: [PATCH 21/28] fix: two processes saving the fixups of an act must not
 write into the same file

---
 src/fixups.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index 99f8621..38347af 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -77,7 +77,9 @@ impl Fixups {
                 .ok_or_else(|| anyhow!("No parent for fixup_path"))?,
         )?;
         // Already existing fixups must not be lost if saving is interrupted
-        let temp_path = self.fixup_path.with_extension("yml.tmp");
+        let temp_path = self
+            .fixup_path
+            .with_extension(format!("{}.tmp", std::process::id()));
         singleton_yaml::to_writer(&mut File::create(&temp_path)?, &self.fixups)?;
         rename(&temp_path, &self.fixup_path)?;
         Ok(())
-- 
2.43.0


From 9cabb15165aec8b07b187ac899fea68cd08a7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:15 +0000
Subject: [PATCH 22/28] fix: text output of acts panicked when the width is
 smaller than the indentation

---
 src/output/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/text.rs b/src/output/text.rs
index a31c9fd..fcadebf 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -303,7 +303,7 @@ impl TextOutputParams {
     }
 
     fn write_wrapped_line(&mut self, writer: &mut impl Write, text: &str) -> Result<()> {
-        for line in textwrap::wrap(text, self.width - self.indentation_level * 5) {
+        for line in textwrap::wrap(text, self.width.saturating_sub(self.indentation_level * 5)) {
             self.write_indent_if_needed(writer)?;
             writer.write_all(line.as_bytes())?;
             self.write_newline(writer)?;
-- 
2.43.0


From 42413c723408030fecf739e5c3a357d40d8b0c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:25 +0000
Subject: [PATCH 23/28] fix: the end of the answers must not make an
 interactive run start the editor forever

---
 src/bin/hun_law/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index 3995e04..1c33312 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -281,7 +281,10 @@ fn process_single_act(
 fn confirm(s: &str) -> Result<bool> {
     eprint!("{s} [Y/n]");
     let mut buf = String::new();
-    std::io::stdin().read_line(&mut buf)?;
+    if std::io::stdin().read_line(&mut buf)? == 0 {
+        // Nobody is there to answer: the same question would be asked forever
+        return Ok(false);
+    }
     buf.make_ascii_lowercase();
     Ok(buf.trim().is_empty() || buf.starts_with('y'))
 }
-- 
2.43.0


From 1b687cb31c7ee01274118dcb33b6563046218756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:28 +0000
Subject: [PATCH 24/28] fix: a run in which a requested act is not found in its
 issue must not be successful

---
 src/bin/hun_law/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index 1c33312..cd0b655 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -105,6 +105,7 @@ fn main() -> Result<()> {
 
     let mut everything_ok = true;
     let (issues, acts) = get_issues(&args)?;
+    let mut acts_found = BTreeSet::new();
     for issue in &issues {
         if let Err(e) = || -> Result<()> {
             let mk_name = format!("mk_{}_{}", issue.year, issue.issue);
@@ -124,6 +125,7 @@ fn main() -> Result<()> {
                     continue;
                 }
 
+                acts_found.insert(act.identifier);
                 let mut output = get_output(&act.identifier.to_string(), &args)?;
                 let process_result = if args.interactive {
                     process_single_act_interactive(act, &args, &mut output)
@@ -141,6 +143,12 @@ fn main() -> Result<()> {
             everything_ok = false;
         }
     }
+    if args.parse_until != ParsingStep::PdfLines {
+        for act in acts.iter().filter(|act| !acts_found.contains(act)) {
+            log::error!("{act} was not found in its Magyar Közlöny issue");
+            everything_ok = false;
+        }
+    }
     if everything_ok {
         Ok(())
     } else {
-- 
2.43.0


From f7d2e035396d146c875c33211f628d4c6fa8d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:37 +0000
Subject: [PATCH 25/28] fix: find an act's header after any number of empty
 lines

---
 src/parser/mk_act_section.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index fe59225..2648021 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -102,7 +102,8 @@ impl ActExtractor {
                 }
             }
         }
-        WaitingForHeaderNewline
+        // The header may come after any number of empty lines
+        self.wait_for_header_newline(line)
     }
 
     fn parse_act_subject(&mut self, line: &IndentedLine) -> ActExtractionState {
-- 
2.43.0


From 0b0c1a2c794f99ea76c0db4e5442efabb9cfa9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:19 +0000
Subject: [PATCH 26/28] fix: when one known abbreviation begins another, the
 longer one is meant

---
 hun_law_grammar/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hun_law_grammar/src/lib.rs b/hun_law_grammar/src/lib.rs
index 6f6b7b4..e9ac6ee 100644
--- a/hun_law_grammar/src/lib.rs
+++ b/hun_law_grammar/src/lib.rs
@@ -43,10 +43,12 @@ pub fn parse_abbreviation(
     s: &str,
     state: &mut CustomParseState,
 ) -> Result<(String, usize), &'static str> {
-    for known_abbrev in &state.known_abbreviations {
-        if s.starts_with(known_abbrev) {
-            return Ok((known_abbrev.clone(), known_abbrev.len()));
-        }
-    }
-    Err("Not a known abbreviation")
+    // One abbreviation may be the beginning of another one, so the longest match is the real one.
+    state
+        .known_abbreviations
+        .iter()
+        .filter(|known_abbrev| s.starts_with(known_abbrev.as_str()))
+        .max_by_key(|known_abbrev| known_abbrev.len())
+        .map(|known_abbrev| (known_abbrev.clone(), known_abbrev.len()))
+        .ok_or("Not a known abbreviation")
 }
-- 
2.43.0


From dd0a305fefeec7fce456ccd6c274fa9bfce2d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 27/28] =?UTF-8?q?fix:=20recognise=20parts=20with=20the=20s?=
 =?UTF-8?q?uffix=20"r=C3=A9sszel"?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 hun_law_grammar/grammar.ebnf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hun_law_grammar/grammar.ebnf b/hun_law_grammar/grammar.ebnf
index 69e1c4b..b0f8936 100644
--- a/hun_law_grammar/grammar.ebnf
+++ b/hun_law_grammar/grammar.ebnf
@@ -199,7 +199,7 @@ ChapterSuffix = ("fejezet" | "Fejezet" | "FEJEZET") {HunAny};
 
 PartReference = id:HungarianOrdinalCapital PartSuffix;
 @no_skip_ws
-PartSuffix = ("rész" | "Rész" | "RÉSZ") {HunAny};
+PartSuffix = ("réssz" | "Réssz" | "RÉSSZ" | "rész" | "Rész" | "RÉSZ") {HunAny};
 
 @string
 TitleId = Roman [["/"] 'A'..'Z'];
-- 
2.43.0


From feac000aa5ef0e1b2e4d94989e2a7fcb2677c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:09 +0000
Subject: [PATCH 28/28] =?UTF-8?q?fix:=20accept=20"l=C3=A9pnek"=20in=20amen?=
 =?UTF-8?q?dments=20of=20subtitles?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 hun_law_grammar/grammar.ebnf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hun_law_grammar/grammar.ebnf b/hun_law_grammar/grammar.ebnf
index b0f8936..0614596 100644
--- a/hun_law_grammar/grammar.ebnf
+++ b/hun_law_grammar/grammar.ebnf
@@ -293,7 +293,7 @@ AmendmentSuffix =
     TheFollowing "szerint módosul";
 
 AmendmentSuffixWithSubtitle =
-    "helyébe" TheFollowing ["rendelkezés és"] "alcím" ["cím"] ["és rendelkezés"] ("lép" | "lépnek") ;
+    "helyébe" TheFollowing ["rendelkezés és"] "alcím" ["cím"] ["és rendelkezés"] ("lépnek" | "lép") ;
 
 AmendmentSuffixWithStructural =
     "helyébe" TheFollowing ["alcím" ["cím"] | "cím" | "fejezet" | "Fejezet" | "rész"] "lép" ;
-- 
2.43.0

