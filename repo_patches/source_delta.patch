From d5ca51a7c902a24759a1f2a3c95531370bc88c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 01/99] fix: sections close to usize::MAX overflow or never
 finish

---
 src/generator/slide_content/sections.rs    | 4 ++--
 src/generator/slide_content/table_merge.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0acbb0e..9a340ac 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -26,13 +26,13 @@ impl SlideSection {
         if self.slide_count == 0 {
             self.first_slide
         } else {
-            self.first_slide + self.slide_count - 1
+            self.first_slide.saturating_add(self.slide_count - 1)
         }
     }
 
     /// Check if a slide index belongs to this section
     pub fn contains_slide(&self, slide_index: usize) -> bool {
-        slide_index >= self.first_slide && slide_index < self.first_slide + self.slide_count
+        slide_index >= self.first_slide && slide_index - self.first_slide < self.slide_count
     }
 }
 
diff --git a/src/generator/slide_content/table_merge.rs b/src/generator/slide_content/table_merge.rs
index 2719d41..ddd359e 100644
--- a/src/generator/slide_content/table_merge.rs
+++ b/src/generator/slide_content/table_merge.rs
@@ -23,12 +23,12 @@ impl MergeRegion {
 
     /// Last row index (inclusive)
     pub fn last_row(&self) -> usize {
-        self.row + self.row_span - 1
+        self.row.saturating_add(self.row_span.saturating_sub(1))
     }
 
     /// Last column index (inclusive)
     pub fn last_col(&self) -> usize {
-        self.col + self.col_span - 1
+        self.col.saturating_add(self.col_span.saturating_sub(1))
     }
 
     /// Check if a cell (r, c) is inside this merge region
-- 
2.43.0


From 1e6cd4c6e591ad8440feee1124e0bacf1bdb449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 02/99] fix: sections that share a name get distinct ids

---
 src/generator/slide_content/sections.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 9a340ac..0a7cbf5 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -125,11 +125,17 @@ impl SectionManager {
             r#"<p:extLst><p:ext uri="{521415D9-36F7-43E2-AB2F-B90AF26B5E84}"><p14:sectionLst xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main">"#,
         );
 
-        for section in &self.sections {
+        for (i, section) in self.sections.iter().enumerate() {
+            // Sections may share a name, but never an id
+            let earlier = self.sections[..i].iter().filter(|s| s.name == section.name).count();
+            let id_seed = match earlier {
+                0 => section.name.clone(),
+                n => format!("{}\0{}", section.name, n),
+            };
             xml.push_str(&format!(
                 r#"<p14:section name="{}" id="{{{}}}">"#,
                 xml_escape(&section.name),
-                generate_section_id(&section.name),
+                generate_section_id(&id_seed),
             ));
             xml.push_str("<p14:sldIdLst>");
             for i in 0..section.slide_count {
-- 
2.43.0


From 0dfad96d5dff5a742a70e396a31a640bad0cfe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 03/99] fix: overlap test and section list overflow or never
 finish close to usize::MAX

---
 src/generator/slide_content/sections.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0a7cbf5..0d7be09 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -138,11 +138,9 @@ impl SectionManager {
                 generate_section_id(&id_seed),
             ));
             xml.push_str("<p14:sldIdLst>");
-            for i in 0..section.slide_count {
-                let slide_id = 256 + section.first_slide + i;
-                if section.first_slide + i < total_slides {
-                    xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, slide_id));
-                }
+            let end = section.first_slide.saturating_add(section.slide_count).min(total_slides);
+            for slide in section.first_slide..end {
+                xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, 256 + slide));
             }
             xml.push_str("</p14:sldIdLst>");
             xml.push_str("</p14:section>");
@@ -158,7 +156,8 @@ fn sections_overlap(a: &SlideSection, b: &SlideSection) -> bool {
     if a.slide_count == 0 || b.slide_count == 0 {
         return false;
     }
-    a.first_slide < b.first_slide + b.slide_count && b.first_slide < a.first_slide + a.slide_count
+    a.first_slide < b.first_slide.saturating_add(b.slide_count)
+        && b.first_slide < a.first_slide.saturating_add(a.slide_count)
 }
 
 /// Generate a deterministic GUID-like ID from a section name
-- 
2.43.0


From 856e9d9cf440c6e80de0c9f43f272a086e9327a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 04/99] fix: automatic comment index never repeats an index in
 use

---
 src/generator/slide_content/comments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 7eef008..5dd86a2 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -178,7 +178,7 @@ impl SlideComments {
 
     /// Add a comment with auto-incrementing index
     pub fn add_comment(&mut self, author_id: u32, text: &str, x: u32, y: u32) {
-        let idx = self.comments.len() as u32 + 1;
+        let idx = self.comments.iter().map(|c| c.index).max().unwrap_or(0).saturating_add(1);
         self.comments.push(
             Comment::new(author_id, text)
                 .position(x, y)
-- 
2.43.0


From 5b4e3ba8db884be4073f6db371b7f1d33f2f742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 05/99] fix: escape ids, types and targets of relationships

---
 src/parts/relationships.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 2b8255e..d1049d8 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -2,7 +2,7 @@
 //!
 //! Manages relationships between parts in a PPTX package.
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -86,9 +86,9 @@ impl Relationship {
     pub fn to_xml(&self) -> String {
         format!(
             r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
-            self.id,
-            self.rel_type.uri(),
-            self.target
+            escape_xml(&self.id),
+            escape_xml(self.rel_type.uri()),
+            escape_xml(&self.target)
         )
     }
 }
-- 
2.43.0


From 86dd801634c62f073cfeff0b7d7da7f62a1f754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 06/99] fix: parsing a relationship type keeps every type that
 is not built in

---
 src/parts/relationships.rs | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index d1049d8..d6ef023 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -40,27 +40,22 @@ impl RelationshipType {
 
     /// Parse from URI string
     pub fn from_uri(uri: &str) -> Self {
-        if uri.contains("/slide") && !uri.contains("Layout") && !uri.contains("Master") {
-            RelationshipType::Slide
-        } else if uri.contains("/slideLayout") {
-            RelationshipType::SlideLayout
-        } else if uri.contains("/slideMaster") {
-            RelationshipType::SlideMaster
-        } else if uri.contains("/theme") {
-            RelationshipType::Theme
-        } else if uri.contains("/image") {
-            RelationshipType::Image
-        } else if uri.contains("/chart") {
-            RelationshipType::Chart
-        } else if uri.contains("/officeDocument") {
-            RelationshipType::OfficeDocument
-        } else if uri.contains("core-properties") {
-            RelationshipType::CoreProperties
-        } else if uri.contains("extended-properties") {
-            RelationshipType::ExtendedProperties
-        } else {
-            RelationshipType::Custom(uri.to_string())
-        }
+        // Only the exact types are known: "…/officeDocument/2006/relationships/hyperlink"
+        // must not be taken for "…/officeDocument"
+        [
+            RelationshipType::OfficeDocument,
+            RelationshipType::Slide,
+            RelationshipType::SlideLayout,
+            RelationshipType::SlideMaster,
+            RelationshipType::Theme,
+            RelationshipType::Image,
+            RelationshipType::Chart,
+            RelationshipType::CoreProperties,
+            RelationshipType::ExtendedProperties,
+        ]
+        .into_iter()
+        .find(|known| known.uri() == uri)
+        .unwrap_or_else(|| RelationshipType::Custom(uri.to_string()))
     }
 }
 
-- 
2.43.0


From d770c0a98a3d3df24001bf5df06fa3eae646125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 07/99] fix: escape content type entries

---
 src/parts/content_types.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 46517ea..1be437f 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -3,6 +3,7 @@
 //! Represents `[Content_Types].xml` which defines MIME types for all parts.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Default content type mapping (by extension)
@@ -160,7 +161,8 @@ impl ContentTypesPart {
             .map(|d| {
                 format!(
                     r#"<Default Extension="{}" ContentType="{}"/>"#,
-                    d.extension, d.content_type
+                    escape_xml(&d.extension),
+                    escape_xml(&d.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -172,7 +174,8 @@ impl ContentTypesPart {
             .map(|o| {
                 format!(
                     r#"<Override PartName="{}" ContentType="{}"/>"#,
-                    o.part_name, o.content_type
+                    escape_xml(&o.part_name),
+                    escape_xml(&o.content_type)
                 )
             })
             .collect::<Vec<_>>()
-- 
2.43.0


From 9cf057f305e7867bedb7b8d9c7f7f12917690432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 08/99] fix: parse content types instead of returning the
 defaults

---
 src/parts/content_types.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 1be437f..9758124 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Default content type mapping (by extension)
 #[derive(Debug, Clone)]
@@ -215,9 +216,23 @@ impl Part for ContentTypesPart {
         Ok(self.generate_xml())
     }
 
-    fn from_xml(_xml: &str) -> Result<Self, PptxError> {
-        // TODO: Parse XML
-        Ok(ContentTypesPart::new())
+    fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let mut part = ContentTypesPart {
+            defaults: vec![],
+            overrides: vec![],
+        };
+        for d in root.find_all("Default") {
+            if let (Some(ext), Some(ct)) = (d.attr("Extension"), d.attr("ContentType")) {
+                part.add_default(ext, ct);
+            }
+        }
+        for o in root.find_all("Override") {
+            if let (Some(name), Some(ct)) = (o.attr("PartName"), o.attr("ContentType")) {
+                part.add_override(name, ct);
+            }
+        }
+        Ok(part)
     }
 }
 
-- 
2.43.0


From 2f13279ee00f2512f49c578863aad2885e9a8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 09/99] fix: a content type added again replaces the earlier
 entry

---
 src/parts/content_types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 9758124..55e4e89 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -73,14 +73,18 @@ impl ContentTypesPart {
 
     /// Add a default type
     pub fn add_default(&mut self, extension: impl Into<String>, content_type: impl Into<String>) {
+        let entry = DefaultType::new(extension, content_type);
         self.defaults
-            .push(DefaultType::new(extension, content_type));
+            .retain(|d| !d.extension.eq_ignore_ascii_case(&entry.extension));
+        self.defaults.push(entry);
     }
 
     /// Add an override type
     pub fn add_override(&mut self, part_name: impl Into<String>, content_type: impl Into<String>) {
+        let entry = OverrideType::new(part_name, content_type);
         self.overrides
-            .push(OverrideType::new(part_name, content_type));
+            .retain(|o| !o.part_name.eq_ignore_ascii_case(&entry.part_name));
+        self.overrides.push(entry);
     }
 
     /// Add presentation part
-- 
2.43.0


From 8813a1ec61f62c0e127f008b68e0711f67eec320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 10/99] fix: escape the title in docProps/core.xml

---
 src/generator/props_xml.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 9b23ef4..13d0be2 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -28,6 +28,7 @@ fn current_timestamp() -> String {
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
     let now = current_timestamp();
+    let title = xml_escape(title);
     format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/" xmlns:dcmitype="http://purl.org/dc/dcmitype/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
-- 
2.43.0


From eb263a8874f195a63ac72b89cc9f2e50607adbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 11/99] fix: creation dates follow the calendar (no month 13,
 no drift over leap years)

---
 src/generator/props_xml.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 13d0be2..17c770c 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -10,10 +10,7 @@ fn current_timestamp() -> String {
     let days = secs / 86400;
     let seconds = secs % 86400;
 
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30;
-    let day = 1 + remaining_days % 30;
+    let (year, month, day) = civil_date(days);
 
     let hours = seconds / 3600;
     let minutes = (seconds % 3600) / 60;
@@ -25,6 +22,20 @@ fn current_timestamp() -> String {
     )
 }
 
+/// Gregorian calendar date of a day counted from 1970-01-01
+fn civil_date(days_since_epoch: u64) -> (u64, u64, u64) {
+    let z = days_since_epoch + 719_468;
+    let era = z / 146_097;
+    let doe = z % 146_097;
+    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
+    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
+    let mp = (5 * doy + 2) / 153;
+    let day = doy - (153 * mp + 2) / 5 + 1;
+    let month = if mp < 10 { mp + 3 } else { mp - 9 };
+    let year = yoe + era * 400 + u64::from(month <= 2);
+    (year, month, day)
+}
+
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
     let now = current_timestamp();
-- 
2.43.0


From 0cc80ea4341d12dfaa2f54f6deb3da44cc6fb81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 12/99] fix: lazy generation declares the content types of
 signatures, fonts and ink

---
 src/generator/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index ccec2dc..8323713 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -985,7 +985,9 @@ fn write_content_types_lazy<W: Write + Seek>(
 <Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>"#,
     );
     super::layout_parts::append_layout_content_type_overrides(&mut content_types, STANDARD_LAYOUT_COUNT);
+    content_types.push_str("\n</Types>");
 
+    // These insert before the closing tag
     if has_digital_signature(settings) {
         append_digital_signature_content_type(&mut content_types);
     }
@@ -995,8 +997,6 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
-    content_types.push_str("\n</Types>");
-
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
-- 
2.43.0


From 1d1b2e34c186d99e3fc0322df87e4e5c0fe989d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 13/99] fix: pictures without available bytes no longer shift
 the relationships of a slide

---
 src/generator/builder.rs           | 3 ++-
 src/generator/slide_xml/content.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 8323713..28a7ecd 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1161,7 +1161,8 @@ fn write_slides<W: Write + Seek>(
                 let slide_num = i + 1;
 
                 let mut chart_rids = Vec::with_capacity(slide.charts.len());
-                let start_rid = slide_content_rel_start(slide.notes.is_some(), slide.images.len());
+                let image_count = slide.images.iter().filter(|i| i.get_bytes().is_some()).count();
+                let start_rid = slide_content_rel_start(slide.notes.is_some(), image_count);
                 for j in 0..slide.charts.len() {
                     push_chart_rid(&mut chart_rids, start_rid + j);
                 }
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d4aac14..3b7d850 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -30,7 +30,9 @@ pub fn render_additional_content(
     // Render images (actual picture elements, not placeholders)
     let image_start_id = 20 + content.shapes.len();
     let image_rel_start = 2 + usize::from(content.notes.is_some());
-    for (i, image) in content.images.iter().enumerate() {
+    // A picture whose bytes are not available has no media part to point at
+    let available = content.images.iter().filter(|image| image.get_bytes().is_some());
+    for (i, image) in available.enumerate() {
         xml.push('\n');
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
-- 
2.43.0


From 65f3eda17743c612f25883aaafae04b990649dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 14/99] fix: shape hyperlinks get relationship ids during
 generation, never colliding; show jumps have no dangling relationship

---
 src/generator/builder.rs    | 51 +++++++++++++++++++++++++++++++++++--
 src/generator/hyperlinks.rs |  2 ++
 2 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 28a7ecd..7d3fcb1 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1,5 +1,7 @@
 //! PPTX builder - orchestrates ZIP creation and file writing
 
+use std::borrow::Cow;
+use std::collections::HashSet;
 use std::io::{Write, Seek, Cursor};
 use zip::write::FileOptions;
 use zip::ZipWriter;
@@ -92,6 +94,7 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
         .shapes
         .iter()
         .filter_map(|s| s.hyperlink.as_ref())
+        .filter(|h| h.action.action_type().is_none())
         .filter_map(|h| {
             h.r_id
                 .as_ref()
@@ -100,6 +103,44 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
         .collect()
 }
 
+/// Give every shape hyperlink of the slide a relationship id that no other
+/// relationship of the slide uses. `first_free` follows the ids of the layout,
+/// notes, images, charts and ink; ids chosen by the caller are kept when free.
+fn with_hyperlink_rel_ids(slide: &SlideContent, first_free: usize) -> Cow<'_, SlideContent> {
+    if slide.shapes.iter().all(|s| s.hyperlink.is_none()) {
+        return Cow::Borrowed(slide);
+    }
+    let mut slide = slide.clone();
+    let mut used: HashSet<String> = (1..first_free).map(|n| format!("rId{n}")).collect();
+    let links = |s: &mut SlideContent, f: &mut dyn FnMut(&mut Option<String>)| {
+        s.shapes
+            .iter_mut()
+            .filter_map(|shape| shape.hyperlink.as_mut())
+            .for_each(|h| f(&mut h.r_id))
+    };
+    links(&mut slide, &mut |r_id| {
+        let keep = r_id.as_ref().is_some_and(|id| {
+            !id.is_empty()
+                && id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+                && used.insert(id.clone())
+        });
+        if !keep {
+            *r_id = None;
+        }
+    });
+    let mut next = first_free;
+    links(&mut slide, &mut |r_id| {
+        while r_id.is_none() {
+            let id = format!("rId{next}");
+            next += 1;
+            if used.insert(id.clone()) {
+                *r_id = Some(id);
+            }
+        }
+    });
+    Cow::Owned(slide)
+}
+
 fn set_notes_part_path(path: &mut String, notes_part_num: usize) {
     path.clear();
     path.push_str("ppt/notesSlides/notesSlide");
@@ -1062,6 +1103,8 @@ fn write_slide_packages_lazy<W: Write + Seek>(
             None
         };
 
+        let first_free = start_rid + slide.charts.len() + usize::from(ink_rel_id.is_some());
+        let slide = with_hyperlink_rel_ids(&slide, first_free);
         let slide_xml = create_slide_xml_with_content(
             slide_num,
             &slide,
@@ -1177,9 +1220,11 @@ fn write_slides<W: Write + Seek>(
                     None
                 };
 
+                let first_free = start_rid + slide.charts.len() + usize::from(ink_rel_id.is_some());
+                let linked = with_hyperlink_rel_ids(slide, first_free);
                 let slide_xml = create_slide_xml_with_content(
                     slide_num,
-                    slide,
+                    &linked,
                     &chart_rids,
                     ink_rel_id.as_deref(),
                 );
@@ -1260,13 +1305,15 @@ fn write_slide_relationships_extended<W: Write + Seek>(
                     None
                 };
 
+                let first_free = start_rid + slide.charts.len() + usize::from(ink_rel_tuple.is_some());
+                let linked = with_hyperlink_rel_ids(slide, first_free);
                 let slide_rels = super::package_xml::create_slide_rels_xml_with_images(
                     layout_number,
                     slide.notes.is_some(),
                     notes_part.unwrap_or(1),
                     &chart_rels,
                     &images,
-                    &slide_hyperlink_relationships(slide),
+                    &slide_hyperlink_relationships(&linked),
                     ink_rel_tuple,
                 );
                 set_slide_rels_path(&mut zip_path, slide_num);
diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4b13be4..b335bdc 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -182,6 +182,8 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
 /// Generate hyperlink XML for shape
 pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
+    // Show jumps are described by the action alone and have no relationship
+    let r_id = if hyperlink.action.action_type().is_some() { "" } else { r_id };
     let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
 
     if let Some(tooltip) = &hyperlink.tooltip {
-- 
2.43.0


From cc3a6979fbf23d7ae4399b0ca7998d78f39c8a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 15/99] fix: every image type in the package has a content type

---
 src/generator/package_xml.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ea5360d..03cd076 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -26,25 +26,26 @@ const CONTENT_TYPES_HEADER: &str = r#"<?xml version="1.0" encoding="UTF-8" stand
 <Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>"#;
 
 fn append_image_content_type_defaults(xml: &mut String, media_exts: &[String]) {
-    let mut has_jpg = false;
-    let mut has_png = false;
-    let mut has_gif = false;
+    let mut declared: Vec<&str> = Vec::new();
     for ext in media_exts {
-        match ext.as_str() {
-            "jpg" | "jpeg" => has_jpg = true,
-            "png" => has_png = true,
-            "gif" => has_gif = true,
-            _ => {}
+        let ext = ext.as_str();
+        if ext == "xml" || ext == "rels" || declared.contains(&ext) {
+            continue;
         }
-    }
-    if has_jpg {
-        xml.push_str(r#"<Default Extension="jpg" ContentType="image/jpeg"/>"#);
-    }
-    if has_png {
-        xml.push_str(r#"<Default Extension="png" ContentType="image/png"/>"#);
-    }
-    if has_gif {
-        xml.push_str(r#"<Default Extension="gif" ContentType="image/gif"/>"#);
+        declared.push(ext);
+        let content_type = match ext {
+            "jpg" | "jpeg" | "jpe" => "image/jpeg".to_string(),
+            "tif" | "tiff" => "image/tiff".to_string(),
+            "svg" => "image/svg+xml".to_string(),
+            "emf" => "image/x-emf".to_string(),
+            "wmf" => "image/x-wmf".to_string(),
+            "ico" => "image/x-icon".to_string(),
+            _ => format!("image/{}", escape_xml(ext)),
+        };
+        xml.push_str(&format!(
+            r#"<Default Extension="{}" ContentType="{content_type}"/>"#,
+            escape_xml(ext)
+        ));
     }
 }
 
-- 
2.43.0


From 0a8d9e2d400712eaea9dda1623ea9e67c233069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 16/99] fix: escape the signing date

---
 src/generator/slide_content/digital_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index df533fd..4cfe8c6 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -170,7 +170,7 @@ impl DigitalSignature {
             self.hash_algorithm.uri(),
             self.commitment_type.uri(),
             self.commitment_type.label(),
-            date,
+            xml_escape(date),
         ));
         xml.push_str(r#"</Object>"#);
         xml.push_str(r#"</Signature>"#);
-- 
2.43.0


From b4137ba31b5f9daa180bf96d75b1d78bca03871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 17/99] fix: a theme with the office colors keeps its
 configured fonts; theme colors are escaped

---
 src/generator/presentation_theme.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 1b1caff..4a4f4cc 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -233,13 +233,9 @@ impl PresentationTheme {
 
     /// Generate `ppt/theme/theme1.xml` content using the full Office theme template.
     pub fn to_theme_xml(&self) -> String {
-        if self.name == "Office Theme" && self.colors == ThemeColorScheme::office() {
-            return office_theme_xml().to_string();
-        }
-
         let c = &self.colors;
         let color_slot = |tag: &str, hex: &str| {
-            format!(r#"<a:{tag}><a:srgbClr val="{hex}"/></a:{tag}>"#)
+            format!(r#"<a:{tag}><a:srgbClr val="{}"/></a:{tag}>"#, escape_xml_attr(hex))
         };
         let colors_xml = [
             color_slot("dk1", &c.dk1),
-- 
2.43.0


From e46029cf39ba07e0988a89d240780cd606fdcc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 18/99] fix: embedded fonts never share a relationship id with
 another part

---
 src/generator/slide_content/embedded_fonts.rs | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index c3b7408..58277d9 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -4,6 +4,8 @@
 //! on systems that don't have the fonts installed. Generates proper
 //! `<p:embeddedFontLst>` XML in presentation.xml.
 
+use std::collections::HashSet;
+
 /// Font style variant
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Hash)]
 pub enum FontStyle {
@@ -174,11 +176,26 @@ impl EmbeddedFontList {
     }
 
     /// Assign sequential `rIdN` relationship IDs to fonts that don't already
-    /// have one. `start` is the first relationship number to use.
+    /// have a usable one. `start` is the first relationship number to use; the
+    /// ids below it belong to other parts of the presentation, so a preset id
+    /// among them, or used by an earlier font, is replaced.
     pub fn assign_relationship_ids(&mut self, start: usize) {
-        for (i, font) in self.fonts.iter_mut().enumerate() {
-            if font.relationship_id.is_empty() {
-                font.relationship_id = format!("rId{}", start + i);
+        let mut used: HashSet<String> = (1..start).map(|n| format!("rId{n}")).collect();
+        for font in &mut self.fonts {
+            let id = &font.relationship_id;
+            let valid = !id.is_empty() && id.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
+            if !valid || !used.insert(id.clone()) {
+                font.relationship_id.clear();
+            }
+        }
+        let mut next = start;
+        for font in &mut self.fonts {
+            while font.relationship_id.is_empty() {
+                let id = format!("rId{next}");
+                next += 1;
+                if used.insert(id.clone()) {
+                    font.relationship_id = id;
+                }
             }
         }
     }
-- 
2.43.0


From fcfccddf1f4f5ab179f594ae87e31251e5d8cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 19/99] fix: embedded font parts have distinct, valid part
 names

---
 src/generator/builder.rs                      |  4 ++--
 src/generator/package_xml.rs                  |  6 ++---
 src/generator/slide_content/embedded_fonts.rs | 23 +++++++++++++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 7d3fcb1..e45c6bb 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1380,8 +1380,8 @@ fn write_embedded_font_parts<W: Write + Seek>(
     options: &FileOptions,
     fonts: &super::slide_content::embedded_fonts::EmbeddedFontList,
 ) -> Result<()> {
-    for font in fonts.fonts() {
-        zip.start_file(font.part_name(), *options)?;
+    for (font, part_name) in fonts.fonts().iter().zip(fonts.part_names()) {
+        zip.start_file(part_name, *options)?;
         zip.write_all(&font.data)?;
     }
     Ok(())
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 03cd076..d5e3c81 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -252,14 +252,14 @@ pub fn create_presentation_rels_xml_full_with_fonts(
 ) -> String {
     let mut xml = create_presentation_rels_xml_full(slides, has_notes, has_handout);
 
-    for font in fonts.fonts() {
-        let target = font.rel_target();
+    for (font, part_name) in fonts.fonts().iter().zip(fonts.part_names()) {
+        let target = part_name.trim_start_matches("ppt/");
         xml.insert_str(
             xml.rfind("</Relationships>").unwrap_or(xml.len()),
             &format!(
                 r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/font" Target="{}"/>"#,
                 font.relationship_id,
-                escape_xml(&target),
+                escape_xml(target),
             ),
         );
     }
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 58277d9..572d545 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -200,6 +200,29 @@ impl EmbeddedFontList {
         }
     }
 
+    /// Package part name of each font, in order. Names are safe to use in a part
+    /// name and no two fonts share one, whatever their typefaces are.
+    pub fn part_names(&self) -> Vec<String> {
+        let mut names: Vec<String> = Vec::with_capacity(self.fonts.len());
+        for font in &self.fonts {
+            let face: String = font
+                .typeface
+                .chars()
+                .filter(|c| *c != ' ')
+                .map(|c| if c.is_ascii_alphanumeric() || c == '-' || c == '_' { c } else { '_' })
+                .collect();
+            let stem = format!("ppt/fonts/{}-{}", face, font.style.xml_element());
+            let mut name = format!("{stem}.fntdata");
+            let mut n = 2;
+            while names.iter().any(|other| other.eq_ignore_ascii_case(&name)) {
+                name = format!("{stem}-{n}.fntdata");
+                n += 1;
+            }
+            names.push(name);
+        }
+        names
+    }
+
     /// Total size of all font data
     pub fn total_size(&self) -> usize {
         self.fonts.iter().map(|f| f.data_size()).sum()
-- 
2.43.0


From c4a50f829e4bb34f6df8f3fc1e87623bcff0052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 20/99] fix: embedded font list follows the schema (position,
 style order, one font per style)

---
 src/generator/package_xml.rs                  |  2 +-
 src/generator/slide_content/embedded_fonts.rs | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index d5e3c81..6bf969a 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -378,7 +378,7 @@ pub fn create_presentation_xml_with_fonts(
     let font_xml = fonts.to_xml();
     if !font_xml.is_empty() {
         // Insert <p:embeddedFontLst> before the closing </p:presentation>.
-        if let Some(pos) = xml.rfind("</p:presentation>") {
+        if let Some(pos) = xml.find("<p:defaultTextStyle>") {
             xml.insert_str(pos, &font_xml);
         }
     }
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 572d545..1367426 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -157,7 +157,9 @@ impl EmbeddedFontList {
     }
 
     /// Add an embedded font
+    /// A font with the same typeface and style as an earlier one replaces it.
     pub fn add(&mut self, font: EmbeddedFont) {
+        self.fonts.retain(|f| f.typeface != font.typeface || f.style != font.style);
         self.fonts.push(font);
     }
 
@@ -250,17 +252,18 @@ impl EmbeddedFontList {
         }
 
         for typeface in &seen_typefaces {
-            let variants: Vec<&EmbeddedFont> = self.fonts
-                .iter()
-                .filter(|f| &f.typeface == typeface)
-                .collect();
+            // At most one font per style, in the order the schema prescribes
+            let mut variants: Vec<&EmbeddedFont> = Vec::new();
+            for style in [FontStyle::Regular, FontStyle::Bold, FontStyle::Italic, FontStyle::BoldItalic] {
+                variants.extend(self.fonts.iter().rfind(|f| &f.typeface == typeface && f.style == style));
+            }
 
             xml.push_str("<p:embeddedFont>");
 
             // Font descriptor (from first variant)
             if let Some(first) = variants.first() {
                 let panose_attr = first.panose.as_ref()
-                    .map(|p| format!(r#" panose="{}""#, p))
+                    .map(|p| format!(r#" panose="{}""#, xml_escape(p)))
                     .unwrap_or_default();
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
-- 
2.43.0


From b1d87f5ee2e6ee8a5fa23417656a56cc18874258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 21/99] fix: every point of a chart series has its own position
 index

---
 src/generator/charts/xml.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 6fe9bd1..cea16f0 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -137,17 +137,18 @@ fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &
 <c:numRef>
 <c:f>Sheet1!$B${}:$B${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-        idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+        idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len(), values.len()
     );
 
-    for value in values {
+    for (i, value) in values.iter().enumerate() {
         xml.push_str(&format!(
             r#"
-<c:pt idx="0">
+<c:pt idx="{}">
 <c:v>{}</c:v>
 </c:pt>"#,
-            value
+            i, value
         ));
     }
 
-- 
2.43.0


From cf8543977fdf886ebd5e77e4eab5660d2f45f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 22/99] fix: bar and line charts use the direction and grouping
 of their chart type

---
 src/generator/charts/xml.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index cea16f0..0d95857 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -231,9 +231,13 @@ fn generate_value_axis(ax_pos: &str) -> String {
 fn generate_bar_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:barChart>
-<c:barDir val="bar"/>
-<c:grouping val="clustered"/>"#);
+    xml.push_str(&format!(
+        r#"<c:barChart>
+<c:barDir val="{}"/>
+<c:grouping val="{}"/>"#,
+        chart.chart_type.bar_direction().unwrap_or("col"),
+        chart.chart_type.grouping().unwrap_or("clustered")
+    ));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
@@ -251,8 +255,11 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
 fn generate_line_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:lineChart>
-<c:grouping val="lineMarkers"/>"#);
+    xml.push_str(&format!(
+        r#"<c:lineChart>
+<c:grouping val="{}"/>"#,
+        chart.chart_type.grouping().unwrap_or("standard")
+    ));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
-- 
2.43.0


From d0230d33304b89ba24f3293ee8cd318fdd69dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 23/99] fix: escape bullet characters, fonts and colors of
 bullets

---
 src/generator/layouts/common.rs       | 5 +++--
 src/generator/slide_content/bullet.rs | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 6498314..9d79eaa 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -69,20 +69,21 @@ impl ExtendedTextProps {
         attrs.push('>');
 
         if let Some(ref hex_color) = self.color {
-            let clean_color = hex_color.trim_start_matches('#').to_uppercase();
+            let clean_color = escape_xml(&hex_color.trim_start_matches('#').to_uppercase());
             attrs.push_str(&format!(
                 r#"<a:solidFill><a:srgbClr val="{clean_color}"/></a:solidFill>"#
             ));
         }
         
         if let Some(ref highlight) = self.highlight {
-            let clean_color = highlight.trim_start_matches('#').to_uppercase();
+            let clean_color = escape_xml(&highlight.trim_start_matches('#').to_uppercase());
             attrs.push_str(&format!(
                 r#"<a:highlight><a:srgbClr val="{clean_color}"/></a:highlight>"#
             ));
         }
         
         if let Some(ref font) = self.font_family {
+            let font = escape_xml(font);
             attrs.push_str(&format!(
                 r#"<a:latin typeface="{font}"/><a:cs typeface="{font}"/>"#
             ));
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index ccc976a..fee4b9d 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -1,6 +1,6 @@
 //! Bullet point types and formatting
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 
 /// Bullet style for lists
 #[derive(Clone, Debug, Copy, PartialEq, Eq, Default)]
@@ -34,7 +34,9 @@ impl BulletStyle {
             BulletStyle::LetterUpper => r#"<a:buAutoNum type="alphaUcPeriod"/>"#.to_string(),
             BulletStyle::RomanLower => r#"<a:buAutoNum type="romanLcPeriod"/>"#.to_string(),
             BulletStyle::RomanUpper => r#"<a:buAutoNum type="romanUcPeriod"/>"#.to_string(),
-            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, ch),
+            BulletStyle::Custom(ch) => {
+                format!(r#"<a:buChar char="{}"/>"#, escape_xml(&ch.to_string()))
+            }
             BulletStyle::None => r#"<a:buNone/>"#.to_string(),
         }
     }
-- 
2.43.0


From fc0e2c61e066ff8125e2c1296945366af7ccd31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 24/99] fix: empty ink annotations write no ink part

---
 src/generator/builder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index e45c6bb..e65cb89 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -103,6 +103,11 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
         .collect()
 }
 
+/// The ink of the slide, if there are any strokes to write.
+fn slide_ink(slide: &SlideContent) -> Option<&super::slide_content::InkAnnotations> {
+    slide.ink_annotations.as_ref().filter(|ink| !ink.is_empty())
+}
+
 /// Give every shape hyperlink of the slide a relationship id that no other
 /// relationship of the slide uses. `first_free` follows the ids of the layout,
 /// notes, images, charts and ink; ids chosen by the caller are kept when free.
@@ -571,7 +576,7 @@ fn write_content_types<W: Write + Seek>(
     }
 
     let ink_count = custom_slides
-        .map(|slides| slides.iter().filter(|s| s.ink_annotations.is_some()).count())
+        .map(|slides| slides.iter().filter(|s| slide_ink(s).is_some()).count())
         .unwrap_or(0);
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
@@ -966,7 +971,7 @@ fn write_content_types_lazy<W: Write + Seek>(
         .filter(|i| {
             slides
                 .generate_slide(*i)
-                .map(|s| s.ink_annotations.is_some())
+                .map(|s| slide_ink(&s).is_some())
                 .unwrap_or(false)
         })
         .count();
@@ -1093,7 +1098,7 @@ fn write_slide_packages_lazy<W: Write + Seek>(
             push_chart_rid(&mut chart_rids, start_rid + j);
         }
 
-        let ink_rel_id = if let Some(ref ink) = slide.ink_annotations {
+        let ink_rel_id = if let Some(ink) = slide_ink(&slide) {
             ink_part_num += 1;
             let ink_xml = ink.part_xml();
             zip.start_file(format!("ppt/ink/ink{ink_part_num}.xml"), *options)?;
@@ -1210,7 +1215,7 @@ fn write_slides<W: Write + Seek>(
                     push_chart_rid(&mut chart_rids, start_rid + j);
                 }
 
-                let ink_rel_id = if let Some(ref ink) = slide.ink_annotations {
+                let ink_rel_id = if let Some(ink) = slide_ink(slide) {
                     ink_part_num += 1;
                     let ink_xml = ink.part_xml();
                     zip.start_file(format!("ppt/ink/ink{ink_part_num}.xml"), *options)?;
@@ -1298,7 +1303,7 @@ fn write_slide_relationships_extended<W: Write + Seek>(
                     chart_rels.push((rid, target));
                 }
 
-                let ink_rel_tuple = if slide.ink_annotations.is_some() {
+                let ink_rel_tuple = if slide_ink(slide).is_some() {
                     ink_part_num += 1;
                     Some((start_rid + slide.charts.len(), ink_part_num))
                 } else {
-- 
2.43.0


From 1f87182731417094315502bfda15f9ac79dc7d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 25/99] fix: ink references declare the namespace they require

---
 src/generator/slide_content/ink_annotations.rs | 2 +-
 src/generator/slide_xml/content.rs             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/ink_annotations.rs b/src/generator/slide_content/ink_annotations.rs
index 3aa34ca..0118f97 100644
--- a/src/generator/slide_content/ink_annotations.rs
+++ b/src/generator/slide_content/ink_annotations.rs
@@ -218,7 +218,7 @@ impl InkAnnotations {
             return String::new();
         }
         format!(
-            r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
+            r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main" Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
             self.rel_id()
         )
     }
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 3b7d850..71bed6b 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -83,7 +83,7 @@ pub fn render_additional_content(
         && content.ink_annotations.is_some() {
             xml.push('\n');
             xml.push_str(&format!(
-                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
+                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main" Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
                 rel_id
             ));
         }
-- 
2.43.0


From 7bc0cb3f53c84471f5e28c1db21def5c93ad7de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 26/99] fix: code blocks without syntax highlighting are
 written as paragraphs

---
 src/generator/slide_xml/content.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 71bed6b..ef3b0b8 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -101,12 +101,16 @@ fn generate_code_block(
 
     #[cfg(not(feature = "syntect"))]
     let highlighted_xml = {
-        // Fallback to basic XML without syntax highlighting
-        let escaped_code = code_block.code
-            .replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        format!("<a:t>{}</a:t>", escaped_code)
+        // Fallback without syntax highlighting: one paragraph per line
+        let mut lines = String::new();
+        for line in code_block.code.lines() {
+            let text = if line.is_empty() { " " } else { line };
+            lines.push_str(&format!(
+                r#"<a:p><a:pPr algn="l"/><a:r><a:rPr lang="en-US" sz="1400" dirty="0"><a:solidFill><a:srgbClr val="839496"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr><a:t>{}</a:t></a:r></a:p>"#,
+                crate::core::escape_xml(text)
+            ));
+        }
+        lines
     };
 
     let x = code_block.x;
-- 
2.43.0


From b92e1fdf083b3b72e6d7af72ddaf060d1cf5a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 27/99] fix: automatic shape ids never repeat an id given by
 the caller

---
 src/generator/slide_xml/content.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index ef3b0b8..7e27882 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -1,5 +1,7 @@
 //! Additional content rendering (shapes, images, code blocks, connectors)
 
+use std::collections::HashSet;
+
 use crate::generator::shapes_xml::generate_shape_xml;
 use crate::generator::slide_content::SlideContent;
 
@@ -20,10 +22,21 @@ pub fn render_additional_content(
         xml.reserve(extra_elements * 512);
     }
 
+    // Automatic ids never repeat an id given to a shape by the caller
+    let fixed_ids: HashSet<u32> = content.shapes.iter().filter_map(|s| s.id).collect();
+    let mut used_ids = HashSet::new();
+    let mut auto_id = |wanted: usize| {
+        let mut id = wanted;
+        while fixed_ids.contains(&(id as u32)) || !used_ids.insert(id) {
+            id += 1;
+        }
+        id
+    };
+
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
     for (i, shape) in content.shapes.iter().enumerate() {
         xml.push('\n');
-        let shape_id = shape.id.unwrap_or((i + 10) as u32);
+        let shape_id = shape.id.unwrap_or_else(|| auto_id(i + 10) as u32);
         xml.push_str(&generate_shape_xml(shape, shape_id));
     }
 
@@ -37,7 +50,7 @@ pub fn render_additional_content(
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
             image,
-            image_start_id + i,
+            auto_id(image_start_id + i),
             rel_id,
         ));
     }
@@ -46,7 +59,7 @@ pub fn render_additional_content(
     let code_start_id = 30 + content.shapes.len() + content.images.len();
     for (i, code_block) in content.code_blocks.iter().enumerate() {
         xml.push('\n');
-        xml.push_str(&generate_code_block(code_start_id + i, code_block));
+        xml.push_str(&generate_code_block(auto_id(code_start_id + i), code_block));
     }
 
     // Render connectors
@@ -54,7 +67,7 @@ pub fn render_additional_content(
         50 + content.shapes.len() + content.images.len() + content.code_blocks.len();
     for (i, connector) in content.connectors.iter().enumerate() {
         xml.push('\n');
-        let id = connector_start_id + i;
+        let id = auto_id(connector_start_id + i);
         xml.push_str(&crate::generator::connectors::generate_connector_xml(
             connector, id,
         ));
@@ -73,7 +86,7 @@ pub fn render_additional_content(
             xml.push_str(&crate::generator::charts::generate_chart_ref_xml(
                 chart,
                 r_id,
-                chart_start_id + i,
+                auto_id(chart_start_id + i),
             ));
         }
     }
-- 
2.43.0


From 65d02fc4e6a3cbf289bfb34f2c5cdc4b802378c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 28/99] fix: tables are written on every slide layout

---
 src/generator/slide_xml/content.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 7e27882..59887c0 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 
 use crate::generator::shapes_xml::generate_shape_xml;
-use crate::generator::slide_content::SlideContent;
+use crate::generator::slide_content::{SlideContent, SlideLayout};
 
 /// Render additional content elements (shapes, images, code blocks, connectors, charts, ink)
 pub fn render_additional_content(
@@ -22,6 +22,13 @@ pub fn render_additional_content(
         xml.reserve(extra_elements * 512);
     }
 
+    // Render the table; the title and content layout places it itself
+    if content.layout != SlideLayout::TitleAndContent
+        && let Some(table) = &content.table {
+            xml.push('\n');
+            xml.push_str(&crate::generator::table::generate_table_xml(table, 5));
+        }
+
     // Automatic ids never repeat an id given to a shape by the caller
     let fixed_ids: HashSet<u32> = content.shapes.iter().filter_map(|s| s.id).collect();
     let mut used_ids = HashSet::new();
-- 
2.43.0


From a783974dd7b24e1765a3fcf313a3fe7d46681ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 29/99] fix: the slide's content underline applies to its
 bullets

---
 src/generator/slide_xml/layouts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 95c0224..1feb0fd 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -242,7 +242,7 @@ pub fn create_title_and_big_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
@@ -325,7 +325,7 @@ pub fn create_two_column_slide(
         content_size,
         content.content_bold,
         content.content_italic,
-        false,
+        content.content_underline,
         content.content_color.as_deref(),
     );
 
@@ -504,7 +504,7 @@ pub fn create_title_and_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
-- 
2.43.0


From 52d4a1cbc34dca3c7f5ee29b604eff9436b06b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:30 +0000
Subject: [PATCH 30/99] fix: a template deck's parts are not written twice

---
 src/generator/builder.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index e65cb89..e17bbeb 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -610,6 +610,7 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let pres_props = create_pres_props_xml(settings);
     zip.start_file("ppt/presProps.xml", *options)?;
@@ -619,9 +620,11 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip.start_file("ppt/viewProps.xml", *options)?;
     zip.write_all(view_props.as_bytes())?;
 
-    let table_styles = create_table_styles_xml();
     zip.start_file("ppt/tableStyles.xml", *options)?;
-    zip.write_all(table_styles.as_bytes())?;
+    match template.and_then(|t| t.parts().get("ppt/tableStyles.xml")) {
+        Some(table_styles) => zip.write_all(table_styles)?,
+        None => zip.write_all(create_table_styles_xml().as_bytes())?,
+    }
     Ok(())
 }
 
@@ -674,15 +677,28 @@ fn write_theme_and_layouts<W: Write + Seek>(
     options: &FileOptions,
     settings: Option<&PresentationSettings>,
     template: Option<&PptxTemplate>,
+    has_notes: bool,
 ) -> Result<()> {
     let print = settings.and_then(|s| s.print.as_ref());
 
     if let Some(tmpl) = template {
+        let custom_theme = settings.and_then(|s| s.theme.as_ref());
         for (path, data) in tmpl.parts() {
+            // Parts this package writes itself are not copied a second time
+            let written = match path.as_str() {
+                "ppt/tableStyles.xml" => true,
+                "ppt/theme/theme1.xml" => custom_theme.is_some(),
+                "ppt/theme/theme2.xml" => has_notes,
+                "ppt/theme/theme3.xml" => uses_handouts(settings),
+                _ => false,
+            };
+            if written {
+                continue;
+            }
             zip.start_file(path, *options)?;
             zip.write_all(data)?;
         }
-        if let Some(theme) = settings.and_then(|s| s.theme.as_ref()) {
+        if let Some(theme) = custom_theme {
             let theme_xml = create_theme_xml(Some(theme));
             zip.start_file("ppt/theme/theme1.xml", *options)?;
             zip.write_all(theme_xml.as_bytes())?;
@@ -795,7 +811,7 @@ fn write_package_files<W: Write + Seek>(
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts (presProps, viewProps, tableStyles)
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master (when printing handouts)
     if has_handout {
@@ -822,7 +838,7 @@ fn write_package_files<W: Write + Seek>(
     }
 
     // 10. Theme and layouts
-    write_theme_and_layouts(zip, options, settings.as_ref(), template.as_ref())?;
+    write_theme_and_layouts(zip, options, settings.as_ref(), template.as_ref(), has_notes)?;
 
     // 11. Document properties
     let notes_count = custom_slides
@@ -895,7 +911,7 @@ fn write_package_files_lazy<W: Write + Seek>(
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master
     if has_handout {
@@ -918,7 +934,7 @@ fn write_package_files_lazy<W: Write + Seek>(
     }
 
     // 10. Theme and layouts
-    write_theme_and_layouts(zip, options, settings.as_ref(), template.as_ref())?;
+    write_theme_and_layouts(zip, options, settings.as_ref(), template.as_ref(), has_notes)?;
 
     // 11. Document properties
     let notes_count = (0..slide_count)
-- 
2.43.0


From ef2f3b0e162470fb918744135f76fdbb7ffbcbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:31 +0000
Subject: [PATCH 31/99] fix: a table cell merged away both ways carries both
 marks

---
 src/generator/table/format.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generator/table/format.rs b/src/generator/table/format.rs
index ccadbd4..039074b 100644
--- a/src/generator/table/format.rs
+++ b/src/generator/table/format.rs
@@ -33,6 +33,9 @@ impl TableCell {
 
 /// Merge attributes for `<a:tc>` from cell state.
 pub fn merge_attrs_from_cell(cell: &TableCell) -> String {
+    if cell.h_merge && cell.v_merge {
+        return CellMergeState::HMerge.to_xml_attrs() + &CellMergeState::VMerge.to_xml_attrs();
+    }
     if cell.h_merge {
         return CellMergeState::HMerge.to_xml_attrs();
     }
-- 
2.43.0


From c8a0ab421ea7da055a66c4f3727427bdfc306787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 32/99] fix: slide shows keep narration on and timings off as
 configured

---
 .../slide_content/slide_show_settings.rs       | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/generator/slide_content/slide_show_settings.rs b/src/generator/slide_content/slide_show_settings.rs
index 3fff7db..0cf77e2 100644
--- a/src/generator/slide_content/slide_show_settings.rs
+++ b/src/generator/slide_content/slide_show_settings.rs
@@ -132,23 +132,15 @@ impl SlideShowSettings {
         if self.loop_continuously {
             attrs.push(r#"loop="1""#.to_string());
         }
-        if self.show_without_narration {
-            attrs.push(r#"showNarration="0""#.to_string());
-        }
+        // showNarration defaults to false and useTimings to true when absent,
+        // so both are always written.
+        attrs.push(format!(r#"showNarration="{}""#, u8::from(!self.show_without_narration)));
         if self.show_without_animation {
             attrs.push(r#"showAnimation="0""#.to_string());
         }
-        if self.use_timings {
-            attrs.push(r#"useTimings="1""#.to_string());
-        }
-
-        let attrs_str = if attrs.is_empty() {
-            String::new()
-        } else {
-            format!(" {}", attrs.join(" "))
-        };
+        attrs.push(format!(r#"useTimings="{}""#, u8::from(self.use_timings)));
 
-        let mut xml = format!(r#"<p:showPr{}>"#, attrs_str);
+        let mut xml = format!(r#"<p:showPr {}>"#, attrs.join(" "));
 
         // Show type
         xml.push_str(self.show_type.to_xml_element());
-- 
2.43.0


From 10ed93e43bc8be29b15314549437e74ce78ba450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 33/99] fix: editing a presentation keeps its other
 relationships, parts and content types

---
 src/oxml/editor.rs | 309 ++++++++++++++++-----------------------------
 1 file changed, 106 insertions(+), 203 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 105d7c5..011f76b 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -7,11 +7,11 @@
 //! - Modify presentation properties
 
 use super::slide::{ParsedSlide, SlideParser};
+use super::xmlchemy::XmlParser;
+use crate::core::escape_xml;
 use crate::exc::{messages, PptxError};
 use crate::generator::slide_content::SlideContent;
-use crate::generator::package_xml::{
-    create_presentation_rels_xml_full, slide_id_value, slide_rel_id,
-};
+use crate::generator::package_xml::slide_id_value;
 use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
 use crate::opc::Package;
 
@@ -76,16 +76,9 @@ impl PresentationEditor {
         self.package
             .add_part(rels_path, slide_rels_xml.into_bytes());
 
-        // Update presentation.xml to include new slide
-        self.update_presentation_xml(new_index)?;
-
-        // Update presentation.xml.rels
-        self.update_presentation_rels(new_index)?;
-
-        // Update [Content_Types].xml
-        self.update_content_types(new_index)?;
-
         self.slide_count = new_index;
+
+        self.rebuild_presentation_parts()?;
         Ok(new_index - 1) // Return 0-based index
     }
 
@@ -127,9 +120,7 @@ impl PresentationEditor {
         self.slide_count -= 1;
 
         // Update presentation files
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.rebuild_presentation_parts()?;
 
         Ok(())
     }
@@ -172,9 +163,7 @@ impl PresentationEditor {
 
         self.slide_count += 1;
 
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.rebuild_presentation_parts()?;
 
         Ok(new_index)
     }
@@ -205,9 +194,7 @@ impl PresentationEditor {
 
         self.slide_count += 1;
 
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.rebuild_presentation_parts()?;
 
         Ok(index)
     }
@@ -262,9 +249,7 @@ impl PresentationEditor {
                 .add_part(format!("ppt/slides/_rels/slide{to_num}.xml.rels"), data);
         }
 
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.rebuild_presentation_parts()?;
 
         Ok(())
     }
@@ -291,109 +276,12 @@ impl PresentationEditor {
         package
             .part_paths()
             .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
+            .filter(|p| Self::is_slide_part(p))
             .count()
     }
 
-    fn presentation_has_notes(xml: &str) -> bool {
-        xml.contains("<p:notesMasterIdLst>")
-    }
-
-    fn presentation_has_handout(xml: &str) -> bool {
-        xml.contains("<p:handoutMasterIdLst>")
-    }
-
-    fn update_presentation_xml(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("ppt/presentation.xml") {
-            // Parse and update the presentation XML
-            let updated = self.add_slide_to_presentation_xml(&xml, new_slide_count)?;
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), updated.into_bytes());
-        }
-        Ok(())
-    }
-
-    fn add_slide_to_presentation_xml(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        // Find </p:sldIdLst> and insert new slide reference before it
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let slide_id = slide_id_value(slide_num);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-
-        let new_slide_ref = format!("\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>");
-
-        if let Some(pos) = xml.find("</p:sldIdLst>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_slide_ref);
-            Ok(result)
-        } else {
-            // If no sldIdLst, return as-is (shouldn't happen for valid PPTX)
-            Ok(xml.to_string())
-        }
-    }
-
-    fn update_presentation_rels(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self
-            .package
-            .get_part_string("ppt/_rels/presentation.xml.rels")
-        {
-            let updated = self.add_slide_to_presentation_rels(&xml, new_slide_count)?;
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                updated.into_bytes(),
-            );
-        }
-        Ok(())
-    }
-
-    fn add_slide_to_presentation_rels(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-        let new_rel = format!(
-            "\n<Relationship Id=\"rId{r_id}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{slide_num}.xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Relationships>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_rel);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
-        }
-    }
-
-    fn update_content_types(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("[Content_Types].xml") {
-            let updated = self.add_slide_to_content_types(&xml, new_slide_count)?;
-            self.package
-                .add_part("[Content_Types].xml".to_string(), updated.into_bytes());
-        }
-        Ok(())
-    }
-
-    fn add_slide_to_content_types(&self, xml: &str, slide_num: usize) -> Result<String, PptxError> {
-        let new_override = format!(
-            "\n<Override PartName=\"/ppt/slides/slide{slide_num}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Types>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_override);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
-        }
+    fn is_slide_part(path: &str) -> bool {
+        path.starts_with("ppt/slides/slide") && path.ends_with(".xml") && !path.contains("_rels")
     }
 
     fn renumber_slide(&mut self, old_num: usize, new_num: usize) -> Result<(), PptxError> {
@@ -416,105 +304,120 @@ impl PresentationEditor {
         Ok(())
     }
 
-    fn rebuild_presentation_xml(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let mut slide_refs = String::new();
+    /// Bring the slide list, the presentation relationships and the content types
+    /// in line with the slide parts. Everything else in these parts is kept.
+    fn rebuild_presentation_parts(&mut self) -> Result<(), PptxError> {
+        let first_rel_id = self.rebuild_presentation_rels()?;
+        self.rebuild_presentation_xml(first_rel_id);
+        self.rebuild_content_types()
+    }
+
+    /// Returns the number of the first slide's relationship id.
+    fn rebuild_presentation_rels(&mut self) -> Result<usize, PptxError> {
+        const PART: &str = "ppt/_rels/presentation.xml.rels";
+        let Some(existing) = self.package.get_part_string(PART) else {
+            return Ok(1);
+        };
+        let root = XmlParser::parse_str(&existing)?;
+        let mut kept = String::new();
+        let mut max_id = 0;
+        for rel in root.find_all("Relationship") {
+            let rel_type = rel.attr("Type").unwrap_or_default();
+            if rel_type.ends_with("/slide") {
+                continue;
+            }
+            let id = rel.attr("Id").unwrap_or_default();
+            if let Some(n) = id.strip_prefix("rId").and_then(|n| n.parse().ok()) {
+                max_id = max_id.max(n);
+            }
+            let mode = rel
+                .attr("TargetMode")
+                .map(|m| format!(" TargetMode=\"{}\"", escape_xml(m)))
+                .unwrap_or_default();
+            kept.push_str(&format!(
+                "\n<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{mode}/>",
+                escape_xml(id),
+                escape_xml(rel_type),
+                escape_xml(rel.attr("Target").unwrap_or_default()),
+            ));
+        }
+        let first_rel_id: usize = max_id + 1;
         for i in 1..=self.slide_count {
-            let slide_id = slide_id_value(i);
-            let r_id = slide_rel_id(i, has_notes, has_handout);
-            slide_refs.push_str(&format!(
-                "\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>"
+            kept.push_str(&format!(
+                "\n<Relationship Id=\"rId{}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{i}.xml\"/>",
+                max_id + i
             ));
         }
-
-        let mut xml = String::from(
+        let xml = format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" saveSubsetFonts="1" autoCompressPictures="0">
-<p:sldMasterIdLst>
-<p:sldMasterId id="2147483648" r:id="rId1"/>
-</p:sldMasterIdLst>"#,
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">{kept}
+</Relationships>"#
         );
+        self.package.add_part(PART.to_string(), xml.into_bytes());
+        Ok(first_rel_id)
+    }
 
-        if has_notes {
-            xml.push_str(
-                r#"
-<p:notesMasterIdLst>
-<p:notesMasterId id="2147483650" r:id="rId6"/>
-</p:notesMasterIdLst>"#,
-            );
-        }
-
-        if has_handout {
-            let handout_rid = if has_notes { 7 } else { 6 };
-            xml.push_str(&format!(
-                r#"
-<p:handoutMasterIdLst>
-<p:handoutMasterId id="2147483651" r:id="rId{handout_rid}"/>
-</p:handoutMasterIdLst>"#
+    fn rebuild_presentation_xml(&mut self, first_rel_id: usize) {
+        const PART: &str = "ppt/presentation.xml";
+        let Some(existing) = self.package.get_part_string(PART) else {
+            return;
+        };
+        let mut list = String::from("<p:sldIdLst>");
+        for i in 1..=self.slide_count {
+            list.push_str(&format!(
+                "\n<p:sldId id=\"{}\" r:id=\"rId{}\"/>",
+                slide_id_value(i),
+                first_rel_id + i - 1
             ));
         }
+        list.push_str("\n</p:sldIdLst>");
 
-        xml.push_str(&format!(
-            r#"
-<p:sldIdLst>{slide_refs}
-</p:sldIdLst>
-<p:sldSz cx="9144000" cy="6858000" type="screen4x3"/>
-<p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#
-        ));
-
-        self.package
-            .add_part("ppt/presentation.xml".to_string(), xml.into_bytes());
-        Ok(())
-    }
-
-    fn rebuild_presentation_rels(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let xml = create_presentation_rels_xml_full(self.slide_count, has_notes, has_handout);
-
-        self.package.add_part(
-            "ppt/_rels/presentation.xml.rels".to_string(),
-            xml.into_bytes(),
-        );
-        Ok(())
+        let end_tag = "</p:sldIdLst>";
+        let xml = match (existing.find("<p:sldIdLst>"), existing.find(end_tag)) {
+            (Some(start), Some(end)) if start < end => {
+                format!("{}{list}{}", &existing[..start], &existing[end + end_tag.len()..])
+            }
+            _ if existing.contains("<p:sldIdLst/>") => existing.replacen("<p:sldIdLst/>", &list, 1),
+            // The list follows the master lists and precedes the slide size.
+            _ => existing.replacen("<p:sldSz", &format!("{list}\n<p:sldSz"), 1),
+        };
+        self.package.add_part(PART.to_string(), xml.into_bytes());
     }
 
     fn rebuild_content_types(&mut self) -> Result<(), PptxError> {
-        let mut slide_overrides = String::new();
+        const PART: &str = "[Content_Types].xml";
+        let Some(existing) = self.package.get_part_string(PART) else {
+            return Ok(());
+        };
+        let root = XmlParser::parse_str(&existing)?;
+        let mut entries = String::new();
+        for entry in &root.children {
+            let content_type = escape_xml(entry.attr("ContentType").unwrap_or_default());
+            if let Some(name) = entry.attr("PartName") {
+                if !Self::is_slide_part(name.trim_start_matches('/')) {
+                    entries.push_str(&format!(
+                        "\n<Override PartName=\"{}\" ContentType=\"{content_type}\"/>",
+                        escape_xml(name)
+                    ));
+                }
+            } else if let Some(extension) = entry.attr("Extension") {
+                entries.push_str(&format!(
+                    "\n<Default Extension=\"{}\" ContentType=\"{content_type}\"/>",
+                    escape_xml(extension)
+                ));
+            }
+        }
         for i in 1..=self.slide_count {
-            slide_overrides.push_str(&format!(
+            entries.push_str(&format!(
                 "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
             ));
         }
-
         let xml = format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
-<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-<Default Extension="xml" ContentType="application/xml"/>
-<Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>{slide_overrides}
-<Override PartName="/ppt/slideLayouts/slideLayout1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"/>
-<Override PartName="/ppt/slideMasters/slideMaster1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"/>
-<Override PartName="/ppt/theme/theme1.xml" ContentType="application/vnd.openxmlformats-officedocument.theme+xml"/>
-<Override PartName="/docProps/core.xml" ContentType="application/vnd.openxmlformats-package.core-properties+xml"/>
-<Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>
+<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">{entries}
 </Types>"#
         );
-
-        self.package
-            .add_part("[Content_Types].xml".to_string(), xml.into_bytes());
+        self.package.add_part(PART.to_string(), xml.into_bytes());
         Ok(())
     }
 }
-- 
2.43.0


From 1424eaf2201ed61482d80e987aeed5bf3e806746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 34/99] fix: notes and slide links follow edited slides

---
 src/oxml/editor.rs | 222 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 169 insertions(+), 53 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 011f76b..7367dde 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -7,7 +7,7 @@
 //! - Modify presentation properties
 
 use super::slide::{ParsedSlide, SlideParser};
-use super::xmlchemy::XmlParser;
+use super::xmlchemy::{XmlElement, XmlParser};
 use crate::core::escape_xml;
 use crate::exc::{messages, PptxError};
 use crate::generator::slide_content::SlideContent;
@@ -110,7 +110,15 @@ impl PresentationEditor {
 
         // Remove slide relationships
         let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-        self.package.remove_part(&rels_path);
+        let rels = self.package.remove_part(&rels_path).unwrap_or_default();
+
+        // Nothing may refer to the removed slide any more.
+        if let Some(notes) = Self::notes_file(&String::from_utf8_lossy(&rels)) {
+            self.package.remove_part(&format!("ppt/notesSlides/{notes}"));
+            self.package
+                .remove_part(&format!("ppt/notesSlides/_rels/{notes}.rels"));
+        }
+        self.unlink_slide(&format!("slide{slide_num}"))?;
 
         // Renumber remaining slides
         for i in (slide_num + 1)..=self.slide_count {
@@ -144,22 +152,44 @@ impl PresentationEditor {
             .get_part(&slide_path)
             .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?
             .to_vec();
-        let rels_data = self
-            .package
-            .get_part(&rels_path)
-            .unwrap_or_default()
-            .to_vec();
 
         // Shift slides after the original to make room for the duplicate.
         for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
             self.renumber_slide(i - 1, i)?;
         }
 
+        let mut rels = self.package.get_part_string(&rels_path).unwrap_or_default();
+
+        // The duplicate gets notes of its own.
+        if let Some(notes) = Self::notes_file(&rels) {
+            let new_notes = self.next_notes_file();
+            if let Some(data) = self.package.get_part(&format!("ppt/notesSlides/{notes}")) {
+                let data = data.to_vec();
+                self.package
+                    .add_part(format!("ppt/notesSlides/{new_notes}"), data);
+            }
+            if let Some(notes_rels) = self
+                .package
+                .get_part_string(&format!("ppt/notesSlides/_rels/{notes}.rels"))
+            {
+                let notes_rels = Self::retarget_slide(
+                    &notes_rels,
+                    &format!("slide{slide_num}"),
+                    &format!("slide{new_num}"),
+                );
+                self.package.add_part(
+                    format!("ppt/notesSlides/_rels/{new_notes}.rels"),
+                    notes_rels.into_bytes(),
+                );
+            }
+            rels = rels.replace(&format!("/{notes}\""), &format!("/{new_notes}\""));
+        }
+
         // Insert duplicate at the newly vacated position.
         self.package
             .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_data);
         self.package
-            .add_part(format!("ppt/slides/_rels/slide{new_num}.xml.rels"), rels_data);
+            .add_part(format!("ppt/slides/_rels/slide{new_num}.xml.rels"), rels.into_bytes());
 
         self.slide_count += 1;
 
@@ -215,17 +245,7 @@ impl PresentationEditor {
         let to_num = to_index + 1;
 
         // Extract the slide being moved.
-        let temp_slide_path = "ppt/slides/_temp_slide.xml".to_string();
-        let temp_rels_path = "ppt/slides/_rels/_temp_slide.xml.rels".to_string();
-
-        if let Some(data) = self.package.remove_part(&format!("ppt/slides/slide{from_num}.xml")) {
-            self.package.add_part(temp_slide_path.clone(), data);
-        }
-        if let Some(data) =
-            self.package.remove_part(&format!("ppt/slides/_rels/slide{from_num}.xml.rels"))
-        {
-            self.package.add_part(temp_rels_path.clone(), data);
-        }
+        self.move_slide(&format!("slide{from_num}"), "_temp_slide");
 
         if from_index < to_index {
             // Shift intermediate slides left.
@@ -240,14 +260,7 @@ impl PresentationEditor {
         }
 
         // Place the moved slide at the target position.
-        if let Some(data) = self.package.remove_part(&temp_slide_path) {
-            self.package
-                .add_part(format!("ppt/slides/slide{to_num}.xml"), data);
-        }
-        if let Some(data) = self.package.remove_part(&temp_rels_path) {
-            self.package
-                .add_part(format!("ppt/slides/_rels/slide{to_num}.xml.rels"), data);
-        }
+        self.move_slide("_temp_slide", &format!("slide{to_num}"));
 
         self.rebuild_presentation_parts()?;
 
@@ -285,25 +298,128 @@ impl PresentationEditor {
     }
 
     fn renumber_slide(&mut self, old_num: usize, new_num: usize) -> Result<(), PptxError> {
-        // Move slide file
-        let old_path = format!("ppt/slides/slide{old_num}.xml");
-        let new_path = format!("ppt/slides/slide{new_num}.xml");
+        self.move_slide(&format!("slide{old_num}"), &format!("slide{new_num}"));
+        Ok(())
+    }
 
-        if let Some(content) = self.package.remove_part(&old_path) {
-            self.package.add_part(new_path, content);
+    /// Move a slide part with its relationships; notes and other slides keep pointing at it.
+    fn move_slide(&mut self, old: &str, new: &str) {
+        if let Some(content) = self.package.remove_part(&format!("ppt/slides/{old}.xml")) {
+            self.package.add_part(format!("ppt/slides/{new}.xml"), content);
+        }
+        if let Some(content) = self
+            .package
+            .remove_part(&format!("ppt/slides/_rels/{old}.xml.rels"))
+        {
+            self.package
+                .add_part(format!("ppt/slides/_rels/{new}.xml.rels"), content);
+        }
+        for path in self.slide_referrers() {
+            if let Some(rels) = self.package.get_part_string(&path) {
+                let updated = Self::retarget_slide(&rels, old, new);
+                if updated != rels {
+                    self.package.add_part(path, updated.into_bytes());
+                }
+            }
         }
+    }
+
+    /// Relationship parts that may refer to a slide.
+    fn slide_referrers(&self) -> Vec<String> {
+        self.package
+            .part_paths()
+            .into_iter()
+            .filter(|p| p.starts_with("ppt/slides/_rels/") || p.starts_with("ppt/notesSlides/_rels/"))
+            .map(str::to_string)
+            .collect()
+    }
 
-        // Move slide rels
-        let old_rels = format!("ppt/slides/_rels/slide{old_num}.xml.rels");
-        let new_rels = format!("ppt/slides/_rels/slide{new_num}.xml.rels");
+    fn slide_targets(slide: &str) -> [String; 3] {
+        [
+            format!("\"../slides/{slide}.xml\""),
+            format!("\"/ppt/slides/{slide}.xml\""),
+            format!("\"{slide}.xml\""),
+        ]
+    }
 
-        if let Some(content) = self.package.remove_part(&old_rels) {
-            self.package.add_part(new_rels, content);
+    fn retarget_slide(rels: &str, old: &str, new: &str) -> String {
+        let mut updated = rels.to_string();
+        for (from, to) in Self::slide_targets(old).iter().zip(Self::slide_targets(new)) {
+            updated = updated.replace(from, &to);
         }
+        updated
+    }
 
+    /// Drop the relationships of other slides to a removed slide; what used them goes nowhere.
+    fn unlink_slide(&mut self, slide: &str) -> Result<(), PptxError> {
+        let targets = Self::slide_targets(slide).map(|t| t.trim_matches('"').to_string());
+        for rels_path in self.slide_referrers() {
+            let rels = self.package.get_part_string(&rels_path).unwrap_or_default();
+            let root = XmlParser::parse_str(&rels)?;
+            let mut kept = String::new();
+            let mut dropped = Vec::new();
+            for rel in root.find_all("Relationship") {
+                if rel.attr("Target").is_some_and(|t| targets.iter().any(|x| x == t)) {
+                    dropped.push(rel.attr("Id").unwrap_or_default().to_string());
+                } else {
+                    kept.push_str(&Self::relationship_xml(rel));
+                }
+            }
+            if dropped.is_empty() {
+                continue;
+            }
+            let part_path = rels_path.replace("/_rels/", "/").replace(".xml.rels", ".xml");
+            if let Some(mut part) = self.package.get_part_string(&part_path) {
+                for id in &dropped {
+                    part = part.replace(&format!(" r:id=\"{id}\""), " r:id=\"\"");
+                }
+                self.package.add_part(part_path, part.into_bytes());
+            }
+            self.package
+                .add_part(rels_path, Self::relationships_part(&kept).into_bytes());
+        }
         Ok(())
     }
 
+    /// File name of the notes part a slide's relationships refer to.
+    fn notes_file(slide_rels: &str) -> Option<String> {
+        let root = XmlParser::parse_str(slide_rels).ok()?;
+        let target = root
+            .find_all("Relationship")
+            .into_iter()
+            .find(|r| r.attr("Type").is_some_and(|t| t.ends_with("/notesSlide")))?
+            .attr("Target")?;
+        target.rsplit('/').next().map(str::to_string)
+    }
+
+    fn next_notes_file(&self) -> String {
+        (1..)
+            .map(|n| format!("notesSlide{n}.xml"))
+            .find(|f| !self.package.has_part(&format!("ppt/notesSlides/{f}")))
+            .unwrap_or_default()
+    }
+
+    fn relationship_xml(rel: &XmlElement) -> String {
+        let mode = rel
+            .attr("TargetMode")
+            .map(|m| format!(" TargetMode=\"{}\"", escape_xml(m)))
+            .unwrap_or_default();
+        format!(
+            "\n<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{mode}/>",
+            escape_xml(rel.attr("Id").unwrap_or_default()),
+            escape_xml(rel.attr("Type").unwrap_or_default()),
+            escape_xml(rel.attr("Target").unwrap_or_default()),
+        )
+    }
+
+    fn relationships_part(relationships: &str) -> String {
+        format!(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">{relationships}
+</Relationships>"#
+        )
+    }
+
     /// Bring the slide list, the presentation relationships and the content types
     /// in line with the slide parts. Everything else in these parts is kept.
     fn rebuild_presentation_parts(&mut self) -> Result<(), PptxError> {
@@ -330,16 +446,7 @@ impl PresentationEditor {
             if let Some(n) = id.strip_prefix("rId").and_then(|n| n.parse().ok()) {
                 max_id = max_id.max(n);
             }
-            let mode = rel
-                .attr("TargetMode")
-                .map(|m| format!(" TargetMode=\"{}\"", escape_xml(m)))
-                .unwrap_or_default();
-            kept.push_str(&format!(
-                "\n<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{mode}/>",
-                escape_xml(id),
-                escape_xml(rel_type),
-                escape_xml(rel.attr("Target").unwrap_or_default()),
-            ));
+            kept.push_str(&Self::relationship_xml(rel));
         }
         let first_rel_id: usize = max_id + 1;
         for i in 1..=self.slide_count {
@@ -348,11 +455,7 @@ impl PresentationEditor {
                 max_id + i
             ));
         }
-        let xml = format!(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">{kept}
-</Relationships>"#
-        );
+        let xml = Self::relationships_part(&kept);
         self.package.add_part(PART.to_string(), xml.into_bytes());
         Ok(first_rel_id)
     }
@@ -394,7 +497,10 @@ impl PresentationEditor {
         for entry in &root.children {
             let content_type = escape_xml(entry.attr("ContentType").unwrap_or_default());
             if let Some(name) = entry.attr("PartName") {
-                if !Self::is_slide_part(name.trim_start_matches('/')) {
+                let part = name.trim_start_matches('/');
+                if !Self::is_slide_part(part)
+                    && (!part.starts_with("ppt/notesSlides/") || self.package.has_part(part))
+                {
                     entries.push_str(&format!(
                         "\n<Override PartName=\"{}\" ContentType=\"{content_type}\"/>",
                         escape_xml(name)
@@ -412,6 +518,16 @@ impl PresentationEditor {
                 "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
             ));
         }
+        for part in self.package.part_paths() {
+            let name = format!("/{part}");
+            if part.starts_with("ppt/notesSlides/notesSlide")
+                && !existing.contains(&format!("\"{name}\""))
+            {
+                entries.push_str(&format!(
+                    "\n<Override PartName=\"{name}\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml\"/>"
+                ));
+            }
+        }
         let xml = format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">{entries}
-- 
2.43.0


From ec1c58e15b13b4913cff82e08ce03d870ec9d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 35/99] fix: slides added by the editor use the layout of their
 content

---
 src/oxml/editor.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 7367dde..5162159 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -12,7 +12,8 @@ use crate::core::escape_xml;
 use crate::exc::{messages, PptxError};
 use crate::generator::slide_content::SlideContent;
 use crate::generator::package_xml::slide_id_value;
-use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
+use crate::generator::package_xml::create_slide_rels_xml_with_images;
+use crate::generator::slide_xml::create_slide_xml_with_content;
 use crate::opc::Package;
 
 /// Presentation editor for modifying PPTX files
@@ -65,7 +66,7 @@ impl PresentationEditor {
 
         // Generate slide XML
         let slide_xml = create_slide_xml_with_content(new_index, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
+        let slide_rels_xml = self.new_slide_rels(&content);
 
         // Add slide file
         let slide_path = format!("ppt/slides/slide{new_index}.xml");
@@ -213,7 +214,7 @@ impl PresentationEditor {
 
         // Generate and insert the new slide.
         let slide_xml = create_slide_xml_with_content(new_num, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
+        let slide_rels_xml = self.new_slide_rels(&content);
 
         self.package
             .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_xml.into_bytes());
@@ -297,6 +298,15 @@ impl PresentationEditor {
         path.starts_with("ppt/slides/slide") && path.ends_with(".xml") && !path.contains("_rels")
     }
 
+    /// Relationships of a new slide: the layout of its content.
+    fn new_slide_rels(&self, content: &SlideContent) -> String {
+        let number = content.layout.layout_number();
+        let known = self
+            .package
+            .has_part(&format!("ppt/slideLayouts/slideLayout{number}.xml"));
+        create_slide_rels_xml_with_images(if known { number } else { 2 }, false, 1, &[], &[], &[], None)
+    }
+
     fn renumber_slide(&mut self, old_num: usize, new_num: usize) -> Result<(), PptxError> {
         self.move_slide(&format!("slide{old_num}"), &format!("slide{new_num}"));
         Ok(())
-- 
2.43.0


From 2b1cb3140cf3ea4242ef5ac3ef8bac0ad0ce04fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 36/99] fix: text made of blanks is read back

---
 src/oxml/xmlchemy.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 0404cb8..19f4d44 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -169,7 +169,11 @@ impl XmlParser {
                     stack.push(element);
                 }
                 Ok(XmlEvent::EndElement { .. }) => {
-                    if let Some(element) = stack.pop() {
+                    if let Some(mut element) = stack.pop() {
+                        // Blanks between child elements are layout, blanks in a leaf are text.
+                        if !element.children.is_empty() && element.text.trim().is_empty() {
+                            element.text.clear();
+                        }
                         if let Some(parent) = stack.last_mut() {
                             parent.add_child(element);
                         } else {
@@ -177,7 +181,7 @@ impl XmlParser {
                         }
                     }
                 }
-                Ok(XmlEvent::Characters(text)) => {
+                Ok(XmlEvent::Characters(text) | XmlEvent::Whitespace(text)) => {
                     if let Some(current) = stack.last_mut() {
                         current.text.push_str(&text);
                     }
-- 
2.43.0


From 09f181f83df42fa31f925530ce86a2862d69eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 37/99] fix: importing a presentation keeps the spans of table
 cells

---
 src/import/mod.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/import/mod.rs b/src/import/mod.rs
index bb9e862..c946f38 100644
--- a/src/import/mod.rs
+++ b/src/import/mod.rs
@@ -50,15 +50,46 @@ pub fn import_pptx(path: &str) -> Result<Presentation> {
              // Determine column count from first row
              let col_count = parsed_table.rows.first().map(|r| r.len()).unwrap_or(0);
              if col_count == 0 { continue; }
+             let row_count = parsed_table.rows.len();
              
              // Default column width (approx 2 inches)
              let col_widths = vec![1828800; col_count];
              
              let mut table_builder = TableBuilder::new(col_widths);
-             for row in parsed_table.rows {
-                 let cells: Vec<TableCell> = row.into_iter()
-                     .map(|cell| TableCell::new(&cell.text))
-                     .collect();
+             // Cells covered by the span of another cell, across and down
+             let mut covered = std::collections::HashMap::new();
+             for (r, row) in parsed_table.rows.into_iter().enumerate() {
+                 let mut cells = Vec::with_capacity(row.len());
+                 for (c, parsed) in row.into_iter().enumerate() {
+                     let mut cell = TableCell::new(&parsed.text);
+                     match covered.get(&(r, c)) {
+                         Some(&(across, down)) => {
+                             if across {
+                                 cell = cell.h_merge();
+                             }
+                             if down {
+                                 cell = cell.v_merge();
+                             }
+                         }
+                         None => {
+                             let (rows, cols) = (parsed.row_span as usize, parsed.col_span as usize);
+                             for i in 0..rows.min(row_count - r) {
+                                 for j in 0..cols.min(col_count.saturating_sub(c)) {
+                                     if (i, j) != (0, 0) {
+                                         covered.insert((r + i, c + j), (j > 0, i > 0));
+                                     }
+                                 }
+                             }
+                             if cols > 1 {
+                                 cell = cell.grid_span(parsed.col_span);
+                             }
+                             if rows > 1 {
+                                 cell = cell.row_span(parsed.row_span);
+                             }
+                         }
+                     }
+                     cells.push(cell);
+                 }
                  let table_row = TableRow::new(cells);
                  table_builder = table_builder.add_row(table_row);
              }
-- 
2.43.0


From 7678f9c49ba04ec0351910cdc0ef5b1d465fd386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 38/99] fix: the well-formedness check reports malformed XML

---
 src/core/validation.rs | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/src/core/validation.rs b/src/core/validation.rs
index d4b6a11..4aafb32 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -98,34 +98,15 @@ pub fn validate_positive(value: u32, field: &str) -> Result<()> {
     Ok(())
 }
 
-/// Basic well-formedness check for XML / RELS content.
+/// Well-formedness check for XML / RELS content.
 pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
     let trimmed = xml.trim();
     if trimmed.is_empty() {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut string_char = '"';
-
-    for ch in trimmed.chars() {
-        match ch {
-            '"' | '\'' if in_tag && !in_string => {
-                in_string = true;
-                string_char = ch;
-            }
-            c if in_string && c == string_char => {
-                in_string = false;
-            }
-            '<' if !in_string => {
-                in_tag = true;
-            }
-            '>' if !in_string => {
-                in_tag = false;
-            }
-            _ => {}
-        }
+    for event in xml::reader::EventReader::new(trimmed.as_bytes()) {
+        event.map_err(|e| PptxError::InvalidXml(e.to_string()))?;
     }
 
     Ok(())
-- 
2.43.0


From f443315f16aff93284fd6e8752ce869972052f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 39/99] fix: the package validator parses relationships,
 content types and the slide list

---
 src/core/package_validation/context.rs | 68 ++++++++------------------
 src/core/package_validation/rules.rs   | 57 ++++++++++++++++-----
 2 files changed, 65 insertions(+), 60 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index b2e21f0..7364444 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -5,12 +5,15 @@ use std::io::{Read, Seek};
 
 use zip::ZipArchive;
 
+use crate::oxml::XmlParser;
+
 use super::rels::{rels_source_dir, resolve_rel_target};
 use super::report::{PackageValidationIssue, ValidationCategory};
 
 #[derive(Debug, Default)]
 pub struct Relationship {
     pub id: String,
+    pub rel_type: String,
     pub target: String,
     pub resolved: String,
     /// Raw `TargetMode` attribute value (e.g. `"External"`). Empty when absent,
@@ -115,52 +118,21 @@ impl PackageContext {
 
 fn parse_relationships(rels_xml: &str, base_dir: &str) -> Vec<Relationship> {
     // base_dir is the directory of the relationship source part
-    let mut relationships = Vec::new();
-    let mut search_from = 0;
-
-    while let Some(id_start) = rels_xml[search_from..].find("Id=\"") {
-        let abs_id = search_from + id_start + 4;
-        let Some(id_end) = rels_xml[abs_id..].find('"') else {
-            break;
-        };
-        let id = rels_xml[abs_id..abs_id + id_end].to_string();
-
-        let target_needle = "Target=\"";
-        let after_id = abs_id + id_end;
-        let Some(target_start) = rels_xml[after_id..].find(target_needle) else {
-            search_from = after_id;
-            continue;
-        };
-        let abs_target = after_id + target_start + target_needle.len();
-        let Some(target_end) = rels_xml[abs_target..].find('"') else {
-            break;
-        };
-        let target = rels_xml[abs_target..abs_target + target_end].to_string();
-
-        // Scope the `TargetMode` lookup to the remainder of this element so the
-        // attribute of a later relationship is never mis-attributed.
-        let element_tail_end = rels_xml[abs_target + target_end..]
-            .find('>')
-            .map(|p| abs_target + target_end + p)
-            .unwrap_or(rels_xml.len());
-        let element_tail = &rels_xml[abs_target + target_end..element_tail_end];
-        let target_mode = if element_tail.contains("TargetMode=\"External\"") {
-            "External".to_string()
-        } else {
-            String::new()
-        };
-
-        let resolved = resolve_rel_target(base_dir, &target);
-
-        relationships.push(Relationship {
-            id,
-            target,
-            resolved,
-            target_mode,
-        });
-
-        search_from = element_tail_end;
-    }
-
-    relationships
+    let Ok(root) = XmlParser::parse_str(rels_xml) else {
+        return Vec::new();
+    };
+    root.find_all("Relationship")
+        .into_iter()
+        .map(|rel| {
+            let attr = |name| rel.attr(name).unwrap_or_default().to_string();
+            let target = attr("Target");
+            Relationship {
+                id: attr("Id"),
+                rel_type: attr("Type"),
+                resolved: resolve_rel_target(base_dir, &target),
+                target,
+                target_mode: attr("TargetMode"),
+            }
+        })
+        .collect()
 }
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index ff87f65..6f0572f 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -6,6 +6,8 @@ use std::io::{Read, Seek};
 use zip::ZipArchive;
 
 use crate::core::validation::validate_well_formed_xml;
+use crate::oxml::XmlParser;
+use crate::parts::relationships::RelationshipType;
 use crate::generator::package_xml::{first_slide_rel_id, slide_id_value};
 
 use super::context::PackageContext;
@@ -135,17 +137,27 @@ fn check_content_types<R: Read + Seek>(
         return;
     };
 
+    let Ok(types) = XmlParser::parse_str(&ct) else {
+        return;
+    };
+    let overrides: HashSet<&str> = types
+        .find_all("Override")
+        .into_iter()
+        .filter_map(|e| e.attr("PartName"))
+        .collect();
+    let defaults: HashSet<String> = types
+        .find_all("Default")
+        .into_iter()
+        .filter_map(|e| e.attr("Extension"))
+        .map(str::to_ascii_lowercase)
+        .collect();
+
     for path in &ctx.names {
         if path.ends_with(".rels") || path == "[Content_Types].xml" {
             continue;
         }
-        let override_path = format!("/{path}");
-        if ct.contains(&override_path) {
-            continue;
-        }
-        let ext = path.rsplit('.').next().unwrap_or("");
-        let default_needle = format!("Extension=\"{ext}\"");
-        if ext.is_empty() || !ct.contains(&default_needle) {
+        let ext = path.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
+        if !overrides.contains(format!("/{path}").as_str()) && !defaults.contains(&ext) {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::ContentType,
                 format!("Part {path} has no Override or Default in [Content_Types].xml"),
@@ -164,12 +176,24 @@ fn check_presentation_structure<R: Read + Seek>(
         return;
     };
     let pres_rels = ctx.relationships("ppt/_rels/presentation.xml.rels");
-    let rel_by_id: HashMap<&str, &str> = pres_rels
+    let slide_type = RelationshipType::Slide;
+    let slide_by_id: HashMap<&str, &str> = pres_rels
         .iter()
+        .filter(|r| r.rel_type == slide_type.uri())
         .map(|r| (r.id.as_str(), r.resolved.as_str()))
         .collect();
 
-    let sld_id_count = pres.matches("<p:sldId ").count();
+    let sld_rids: Vec<String> = XmlParser::parse_str(&pres)
+        .ok()
+        .and_then(|root| root.find("sldIdLst").cloned())
+        .map(|list| {
+            list.find_all("sldId")
+                .into_iter()
+                .map(|e| e.attr("r:id").unwrap_or_default().to_string())
+                .collect()
+        })
+        .unwrap_or_default();
+    let sld_id_count = sld_rids.len();
 
     if sld_id_count > 0 {
         let first_id = format!("id=\"{}\"", slide_id_value(1));
@@ -201,10 +225,19 @@ fn check_presentation_structure<R: Read + Seek>(
 
     validate_presentation_rel_order(pres_rels, report);
 
-    for sld_rid in extract_attr_values(&pres, "p:sldId", "r:id") {
-        let target = rel_by_id.get(sld_rid.as_str());
+    let mut listed: HashSet<&str> = HashSet::new();
+    for sld_rid in &sld_rids {
+        let target = slide_by_id.get(sld_rid.as_str());
         match target {
-            Some(t) if t.contains("/slides/slide") => {}
+            Some(t) if t.contains("/slides/slide") => {
+                if !listed.insert(t) {
+                    report.push(PackageValidationIssue::error(
+                        ValidationCategory::Presentation,
+                        format!("Slide part {t} is listed more than once"),
+                        Some("ppt/presentation.xml"),
+                    ));
+                }
+            }
             _ => report.push(PackageValidationIssue::error(
                 ValidationCategory::Presentation,
                 format!("Slide r:id=\"{sld_rid}\" does not resolve to a slide part"),
-- 
2.43.0


From 5f109cbe5e4034bef58073026690419fc9b33ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 40/99] fix: repair reads relationships, content types and the
 slide list as XML and repairs what it reports

---
 src/core/mod.rs                    |   1 +
 src/core/package_validation/mod.rs |   1 +
 src/oxml/repair.rs                 | 685 +++++++++++++++++++----------
 3 files changed, 457 insertions(+), 230 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 2e3b90f..78ad9dc 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -12,6 +12,7 @@ mod validation;
 mod xml_utils;
 
 pub use dimension::{Dimension, FlexPosition, FlexSize, SLIDE_HEIGHT_EMU, SLIDE_WIDTH_EMU};
+pub(crate) use package_validation::{rels_source_dir, resolve_rel_target};
 pub use package_validation::{
     validate_package, validate_package_bytes, PackageValidationIssue, PackageValidationReport,
     REQUIRED_PACKAGE_PARTS, ValidationCategory, ValidationSeverity,
diff --git a/src/core/package_validation/mod.rs b/src/core/package_validation/mod.rs
index e30b09a..f97fbcc 100644
--- a/src/core/package_validation/mod.rs
+++ b/src/core/package_validation/mod.rs
@@ -8,6 +8,7 @@ mod rels;
 mod report;
 mod rules;
 
+pub(crate) use rels::{rels_source_dir, resolve_rel_target};
 pub use report::{
     PackageValidationIssue, PackageValidationReport, ValidationCategory, ValidationSeverity,
 };
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8cad2df..287a3ae 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -11,8 +11,12 @@ use crate::core::{
     check_required_parts_with_descriptions, validate_well_formed_xml, ValidationIssue,
     REQUIRED_PARTS_REPAIR,
 };
+use crate::core::{escape_xml, rels_source_dir, resolve_rel_target};
 use crate::exc::{PptxError, Result};
 use crate::opc::Package;
+use crate::parts::relationships::RelationshipType;
+use crate::generator::package_xml::slide_id_value;
+use super::xmlchemy::XmlParser;
 use std::collections::HashSet;
 use std::path::Path;
 
@@ -160,6 +164,20 @@ impl RepairResult {
     }
 }
 
+const PRESENTATION: &str = "ppt/presentation.xml";
+const PRESENTATION_RELS: &str = "ppt/_rels/presentation.xml.rels";
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+/// Slide ids stay below the ids of slide masters and layouts
+const MAX_SLIDE_ID: u32 = 2147483647;
+
+/// One entry of a relationships part
+struct RelEntry {
+    id: String,
+    rel_type: String,
+    target: String,
+    mode: Option<String>,
+}
+
 /// PPTX Repair utility
 pub struct PptxRepair {
     package: Package,
@@ -301,56 +319,159 @@ impl PptxRepair {
     }
 
     fn check_relationships(&mut self) {
-        // Check _rels/.rels
-        self.check_rels_file("_rels/.rels");
-
-        // Check ppt/_rels/presentation.xml.rels
-        self.check_rels_file("ppt/_rels/presentation.xml.rels");
-
-        // Check slide relationship files
-        let slide_rels: Vec<String> = self
+        let mut rels_parts: Vec<String> = self
             .package
             .part_paths()
             .iter()
-            .filter(|p| p.starts_with("ppt/slides/_rels/") && p.ends_with(".xml.rels"))
+            .filter(|p| p.ends_with(".rels"))
             .map(|s| s.to_string())
             .collect();
+        rels_parts.sort();
 
-        for rels_path in slide_rels {
+        for rels_path in rels_parts {
             self.check_rels_file(&rels_path);
         }
     }
 
     fn check_rels_file(&mut self, rels_path: &str) {
-        if let Some(content) = self.package.get_part(rels_path) {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Parse relationships and check targets exist
-            for line in xml_str.lines() {
-                if line.contains("Relationship") && line.contains("Target=")
-                    && let Some(target) = self.extract_attribute(line, "Target") {
-                        let rel_id = self.extract_attribute(line, "Id").unwrap_or_default();
-
-                        // Skip external relationships
-                        if target.starts_with("http://") || target.starts_with("https://") {
-                            continue;
-                        }
-
-                        // Resolve relative path
-                        let full_path = self.resolve_path(rels_path, &target);
-
-                        if !self.package.has_part(&full_path) && !target.contains("..") {
-                            self.issues.push(RepairIssue::BrokenRelationship {
-                                source: rels_path.to_string(),
-                                target: full_path,
-                                rel_id,
-                            });
-                        }
-                    }
+        for rel in self.relationships(rels_path) {
+            if self.is_broken(rels_path, &rel) {
+                self.issues.push(RepairIssue::BrokenRelationship {
+                    source: rels_path.to_string(),
+                    target: self.resolve_path(rels_path, &rel.target),
+                    rel_id: rel.id,
+                });
             }
         }
     }
 
+    /// Whether a relationship leads to a part that does not exist
+    fn is_broken(&self, rels_path: &str, rel: &RelEntry) -> bool {
+        rel.mode.as_deref() != Some("External")
+            && !self.package.has_part(&self.resolve_path(rels_path, &rel.target))
+    }
+
+    /// Relationships of a part, in document order
+    fn relationships(&self, rels_path: &str) -> Vec<RelEntry> {
+        let Some(xml) = self.package.get_part_string(rels_path) else {
+            return Vec::new();
+        };
+        let Ok(root) = XmlParser::parse_str(&xml) else {
+            return Vec::new();
+        };
+        root.find_all("Relationship")
+            .into_iter()
+            .map(|r| RelEntry {
+                id: r.attr("Id").unwrap_or_default().to_string(),
+                rel_type: r.attr("Type").unwrap_or_default().to_string(),
+                target: r.attr("Target").unwrap_or_default().to_string(),
+                mode: r.attr("TargetMode").map(str::to_string),
+            })
+            .collect()
+    }
+
+    fn relationships_xml(rels: &[RelEntry]) -> String {
+        let mut xml = String::from(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">"#,
+        );
+        for rel in rels {
+            let mode = rel
+                .mode
+                .as_deref()
+                .map(|m| format!(" TargetMode=\"{}\"", escape_xml(m)))
+                .unwrap_or_default();
+            xml.push_str(&format!(
+                "\n  <Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{mode}/>",
+                escape_xml(&rel.id),
+                escape_xml(&rel.rel_type),
+                escape_xml(&rel.target),
+            ));
+        }
+        xml.push_str("\n</Relationships>");
+        xml
+    }
+
+    fn write_relationships(&mut self, rels_path: &str, rels: &[RelEntry]) {
+        let xml = Self::relationships_xml(rels);
+        self.package.add_part(rels_path.to_string(), xml.into_bytes());
+    }
+
+    /// Entries of the slide list: slide id and relationship id
+    fn slide_list(&self) -> Vec<(u32, String)> {
+        self.presentation_ids("sldIdLst", "sldId")
+    }
+
+    fn presentation_ids(&self, list: &str, entry: &str) -> Vec<(u32, String)> {
+        let Some(xml) = self.package.get_part_string(PRESENTATION) else {
+            return Vec::new();
+        };
+        let Ok(root) = XmlParser::parse_str(&xml) else {
+            return Vec::new();
+        };
+        let Some(list) = root.find(list) else {
+            return Vec::new();
+        };
+        list.find_all(entry)
+            .into_iter()
+            .map(|e| {
+                (
+                    e.attr("id").and_then(|v| v.parse().ok()).unwrap_or(0),
+                    e.attr("r:id").unwrap_or_default().to_string(),
+                )
+            })
+            .collect()
+    }
+
+    fn write_slide_list(&mut self, slides: &[(u32, String)]) {
+        let Some(existing) = self.package.get_part_string(PRESENTATION) else {
+            return;
+        };
+        let mut list = String::from("<p:sldIdLst>");
+        for (id, rel_id) in slides {
+            list.push_str(&format!("<p:sldId id=\"{id}\" r:id=\"{}\"/>", escape_xml(rel_id)));
+        }
+        list.push_str("</p:sldIdLst>");
+
+        let end_tag = "</p:sldIdLst>";
+        let xml = match (existing.find("<p:sldIdLst>"), existing.find(end_tag)) {
+            (Some(start), Some(end)) if start < end => {
+                format!("{}{list}{}", &existing[..start], &existing[end + end_tag.len()..])
+            }
+            _ if existing.contains("<p:sldIdLst/>") => existing.replacen("<p:sldIdLst/>", &list, 1),
+            // The list follows the master lists and precedes the slide size
+            _ => existing.replacen("<p:sldSz", &format!("{list}\n<p:sldSz"), 1),
+        };
+        self.package.add_part(PRESENTATION.to_string(), xml.into_bytes());
+    }
+
+    /// Slide relationships of the presentation: relationship id and slide part
+    fn slide_relationships(&self) -> Vec<(String, String)> {
+        let slide_type = RelationshipType::Slide.uri();
+        self.relationships(PRESENTATION_RELS)
+            .into_iter()
+            .filter(|r| r.rel_type == slide_type)
+            .map(|r| (r.id, self.resolve_path(PRESENTATION_RELS, &r.target)))
+            .collect()
+    }
+
+    /// Parts of a folder whose file name is a stem and a number, by that number
+    fn numbered_parts(&self, stem: &str) -> Vec<String> {
+        let mut parts: Vec<(u64, String)> = self
+            .package
+            .part_paths()
+            .into_iter()
+            .filter(|p| p.starts_with(stem) && p.ends_with(".xml") && !p.contains("_rels"))
+            .map(|p| {
+                let digits = &p[stem.len()..p.len() - ".xml".len()];
+                (digits.parse().unwrap_or(u64::MAX), p.to_string())
+            })
+            .collect();
+        parts.sort();
+        parts.into_iter().map(|(_, p)| p).collect()
+    }
+
+    #[cfg(test)]
     fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
         let pattern = format!("{}=\"", attr);
         if let Some(start) = line.find(&pattern) {
@@ -363,105 +484,96 @@ impl PptxRepair {
     }
 
     fn resolve_path(&self, rels_path: &str, target: &str) -> String {
-        if let Some(stripped) = target.strip_prefix('/') {
-            return stripped.to_string();
-        }
-
-        // Get directory of rels file
-        let rels_dir = rels_path.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-        let base_dir = rels_dir
-            .replace("_rels", "")
-            .trim_end_matches('/')
-            .to_string();
-
-        if target.starts_with("../") {
-            // Go up one directory
-            let parent = base_dir.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-            format!("{}/{}", parent, target.trim_start_matches("../"))
-        } else {
-            if base_dir.is_empty() {
-                target.to_string()
-            } else {
-                format!("{}/{}", base_dir, target)
-            }
-        }
+        resolve_rel_target(&rels_source_dir(rels_path), target)
     }
 
     fn check_slide_references(&mut self) {
-        // Get slides from presentation.xml.rels
-        let mut referenced_slides: HashSet<String> = HashSet::new();
-        let slide_rel_type = crate::parts::relationships::RelationshipType::Slide.uri();
-
-        if let Some(rels_content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_content);
-            for line in xml_str.lines() {
-                if let Some(type_attr) = self.extract_attribute(line, "Type") {
-                    if type_attr != slide_rel_type {
-                        continue;
-                    }
-                    if let Some(target) = self.extract_attribute(line, "Target") {
-                        let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                            stripped.to_string()
-                        } else {
-                            format!("ppt/{}", target)
-                        };
-                        referenced_slides.insert(full_path);
-                    }
-                }
-            }
-        }
-
-        // Get actual slide files
-        let actual_slides: HashSet<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .map(|s| s.to_string())
-            .collect();
+        let actual_slides = self.numbered_parts("ppt/slides/slide");
+        let referenced_slides = self.slide_relationships();
+        let listed = self.slide_list();
 
         // Check for orphan references (referenced but don't exist)
-        for slide in &referenced_slides {
-            if !actual_slides.contains(slide) {
+        for (_, slide) in &referenced_slides {
+            if !self.package.has_part(slide) {
                 self.issues.push(RepairIssue::OrphanSlide {
                     slide_path: slide.clone(),
                 });
             }
         }
 
-        // Check for unreferenced slides
-        for slide in &actual_slides {
-            if !referenced_slides.contains(slide) {
-                self.issues.push(RepairIssue::MissingSlideReference {
-                    slide_path: slide.clone(),
+        // Check for slide list entries that lead to no slide, or to one already listed
+        for ((_, rel_id), kept) in listed.iter().zip(self.valid_slide_entries(&listed)) {
+            if !kept {
+                self.issues.push(RepairIssue::BrokenRelationship {
+                    source: PRESENTATION.to_string(),
+                    target: String::new(),
+                    rel_id: rel_id.clone(),
                 });
             }
         }
+
+        // Check for unreferenced slides
+        for slide in actual_slides {
+            if !self.is_listed(&slide) {
+                self.issues
+                    .push(RepairIssue::MissingSlideReference { slide_path: slide });
+            }
+        }
     }
 
-    fn check_content_types(&mut self) {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content);
+    /// For each entry of the slide list, whether it leads to a slide not listed before it
+    fn valid_slide_entries(&self, list: &[(u32, String)]) -> Vec<bool> {
+        let slides = self.slide_relationships();
+        let mut seen: HashSet<&str> = HashSet::new();
+        list.iter()
+            .map(|(_, rel_id)| {
+                slides
+                    .iter()
+                    .find(|(id, _)| id == rel_id)
+                    .is_some_and(|(_, slide)| self.package.has_part(slide) && seen.insert(slide))
+            })
+            .collect()
+    }
 
-            // Check that all parts have content types
-            let parts = self.package.part_paths();
-            for part in parts {
-                if part == "[Content_Types].xml" {
-                    continue;
-                }
+    fn is_listed(&self, slide: &str) -> bool {
+        let listed = self.slide_list();
+        self.slide_relationships()
+            .iter()
+            .any(|(id, path)| path == slide && listed.iter().any(|(_, rel_id)| rel_id == id))
+    }
 
-                // Check if part has Override or matches Default
-                let has_override = xml_str.contains(&format!("PartName=\"/{}\"", part));
-                let extension = part.rsplit('.').next().unwrap_or("");
-                let has_default = xml_str.contains(&format!("Extension=\"{}\"", extension));
+    fn check_content_types(&mut self) {
+        let Some(xml) = self.package.get_part_string(CONTENT_TYPES) else {
+            return;
+        };
+        let Ok(root) = XmlParser::parse_str(&xml) else {
+            return;
+        };
+        let overrides: HashSet<&str> = root
+            .find_all("Override")
+            .into_iter()
+            .filter_map(|e| e.attr("PartName"))
+            .collect();
+        let defaults: HashSet<String> = root
+            .find_all("Default")
+            .into_iter()
+            .filter_map(|e| e.attr("Extension"))
+            .map(str::to_ascii_lowercase)
+            .collect();
 
-                if !has_override && !has_default && !part.ends_with(".rels") {
-                    self.issues.push(RepairIssue::InvalidContentType {
-                        path: part.to_string(),
-                    });
-                }
+        // Check that all parts have content types
+        let mut parts = self.package.part_paths();
+        parts.sort();
+        for part in parts {
+            let extension = part.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
+            if part != CONTENT_TYPES
+                && !part.ends_with(".rels")
+                && !overrides.contains(format!("/{part}").as_str())
+                && !defaults.contains(&extension)
+            {
+                self.issues.push(RepairIssue::InvalidContentType {
+                    path: part.to_string(),
+                });
             }
         }
     }
@@ -594,92 +706,96 @@ impl PptxRepair {
         _target: &str,
         rel_id: &str,
     ) -> Result<()> {
-        // Remove the broken relationship from the rels file
-        if let Some(content) = self.package.get_part(source) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Remove the relationship line with this ID
-            let pattern = format!("Id=\"{}\"", rel_id);
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&pattern))
-                .collect();
+        if source == PRESENTATION {
+            self.remove_dangling_slide_entries(rel_id);
+            return Ok(());
+        }
 
-            let repaired = lines.join("\n");
-            self.package
-                .add_part(source.to_string(), repaired.into_bytes());
+        // Remove the relationship unless an earlier repair restored its target
+        let mut rels = self.relationships(source);
+        let count = rels.len();
+        rels.retain(|r| r.id != rel_id || !self.is_broken(source, r));
+        if rels.len() != count {
+            self.write_relationships(source, &rels);
         }
         Ok(())
     }
 
-    fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
-        // Add the slide to presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find the highest rId
-            let max_id = self.find_max_rel_id(&xml_str);
-            let new_id = format!("rId{}", max_id + 1);
-
-            // Extract slide number from path
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Add new relationship before </Relationships>
-            let new_rel = format!(
-                "  <Relationship Id=\"{}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"{}\"/>",
-                new_id, slide_target
-            );
-
-            let repaired = xml_str.replace(
-                "</Relationships>",
-                &format!("{}\n</Relationships>", new_rel),
-            );
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
-
-            // Also update presentation.xml sldIdLst
-            self.add_slide_to_presentation(&new_id)?;
+    /// Remove the entries of the slide list that lead to no slide, and repeated ones
+    fn remove_dangling_slide_entries(&mut self, rel_id: &str) {
+        let list = self.slide_list();
+        let valid = self.valid_slide_entries(&list);
+        let kept: Vec<(u32, String)> = list
+            .iter()
+            .zip(valid)
+            .filter(|((_, id), valid)| id != rel_id || *valid)
+            .map(|(entry, _)| entry.clone())
+            .collect();
+        if kept.len() != list.len() {
+            self.write_slide_list(&kept);
         }
-        Ok(())
     }
 
-    fn add_slide_to_presentation(&mut self, rel_id: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("ppt/presentation.xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find highest slide ID
-            let max_slide_id = self.find_max_slide_id(&xml_str);
-            let new_slide_id = max_slide_id + 1;
+    fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
+        if self.is_listed(slide_path) {
+            return Ok(());
+        }
 
-            // Add to sldIdLst
-            let new_entry = format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", new_slide_id, rel_id);
+        let known = self
+            .slide_relationships()
+            .into_iter()
+            .find(|(_, slide)| slide == slide_path)
+            .map(|(id, _)| id);
+        let rel_id = match known {
+            Some(id) => id,
+            None => {
+                let mut rels = self.relationships(PRESENTATION_RELS);
+                let id = self.new_presentation_rel_id(&rels);
+                rels.push(RelEntry {
+                    id: id.clone(),
+                    rel_type: RelationshipType::Slide.uri().to_string(),
+                    target: slide_path.trim_start_matches("ppt/").to_string(),
+                    mode: None,
+                });
+                self.write_relationships(PRESENTATION_RELS, &rels);
+                id
+            }
+        };
 
-            let repaired = if xml_str.contains("</p:sldIdLst>") {
-                xml_str.replace("</p:sldIdLst>", &format!("{}\n</p:sldIdLst>", new_entry))
-            } else if xml_str.contains("<p:sldIdLst/>") {
-                xml_str.replace(
-                    "<p:sldIdLst/>",
-                    &format!("<p:sldIdLst>{}</p:sldIdLst>", new_entry),
-                )
-            } else {
-                // Insert sldIdLst after sldMasterIdLst
-                xml_str.replace(
-                    "</p:sldMasterIdLst>",
-                    &format!(
-                        "</p:sldMasterIdLst>\n<p:sldIdLst>{}</p:sldIdLst>",
-                        new_entry
-                    ),
-                )
-            };
+        self.add_slide_to_presentation(&rel_id)
+    }
 
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
-        }
+    fn add_slide_to_presentation(&mut self, rel_id: &str) -> Result<()> {
+        let xml = self.package.get_part_string(PRESENTATION).unwrap_or_default();
+        let mut list = self.slide_list();
+        let first = slide_id_value(1) as u32;
+        let last = list.iter().map(|(id, _)| *id).max().unwrap_or(0);
+        let next = last.max(self.find_max_slide_id(&xml)).saturating_add(1).max(first);
+        let id = if next <= MAX_SLIDE_ID {
+            next
+        } else {
+            (first..)
+                .find(|id| !list.iter().any(|(used, _)| used == id))
+                .unwrap_or(first)
+        };
+        list.push((id, rel_id.to_string()));
+        self.write_slide_list(&list);
         Ok(())
     }
 
+    /// A relationship id that the presentation does not refer to yet
+    fn new_presentation_rel_id(&self, rels: &[RelEntry]) -> String {
+        let rels_xml = self.package.get_part_string(PRESENTATION_RELS).unwrap_or_default();
+        let presentation = self.package.get_part_string(PRESENTATION).unwrap_or_default();
+        let next = u64::from(self.find_max_rel_id(&rels_xml)) + 1;
+        (next..)
+            .map(|n| format!("rId{n}"))
+            .find(|id| {
+                !rels.iter().any(|r| &r.id == id) && !presentation.contains(&format!("\"{id}\""))
+            })
+            .unwrap_or_default()
+    }
+
     fn find_max_rel_id(&self, xml: &str) -> u32 {
         // Simple string parsing instead of regex for: Id="rId(\d+)"
         let mut max_id = 0u32;
@@ -723,22 +839,24 @@ impl PptxRepair {
     }
 
     fn repair_orphan_slide(&mut self, slide_path: &str) -> Result<()> {
-        // Remove the orphan reference from presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Find and remove the relationship
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&format!("Target=\"{}\"", slide_target)))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
+        if self.package.has_part(slide_path) {
+            return Ok(());
+        }
+
+        // Remove the orphan reference from presentation.xml.rels and the slide list
+        let slides = self.slide_relationships();
+        let mut rels = self.relationships(PRESENTATION_RELS);
+        let orphans: Vec<String> = slides
+            .into_iter()
+            .filter(|(_, slide)| slide == slide_path)
+            .map(|(id, _)| id)
+            .collect();
+        rels.retain(|r| !orphans.contains(&r.id));
+        if !orphans.is_empty() {
+            self.write_relationships(PRESENTATION_RELS, &rels);
+        }
+        for id in orphans {
+            self.remove_dangling_slide_entries(&id);
         }
         Ok(())
     }
@@ -753,7 +871,8 @@ impl PptxRepair {
             // Add Override entry
             let new_override = format!(
                 "  <Override PartName=\"/{}\" ContentType=\"{}\"/>",
-                path, content_type
+                escape_xml(path),
+                content_type
             );
 
             let repaired = xml_str.replace("</Types>", &format!("{}\n</Types>", new_override));
@@ -770,6 +889,26 @@ impl PptxRepair {
             "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"
         } else if path.contains("notesSlide") {
             "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"
+        } else if path.contains("notesMaster") {
+            "application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml"
+        } else if path.contains("handoutMaster") {
+            "application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml"
+        } else if path.starts_with("ppt/charts/chart") && path.ends_with(".xml") {
+            "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"
+        } else if path == "ppt/presProps.xml" {
+            "application/vnd.openxmlformats-officedocument.presentationml.presProps+xml"
+        } else if path == "ppt/viewProps.xml" {
+            "application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml"
+        } else if path == "ppt/tableStyles.xml" {
+            "application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml"
+        } else if path == "docProps/core.xml" {
+            "application/vnd.openxmlformats-package.core-properties+xml"
+        } else if path == "docProps/app.xml" {
+            "application/vnd.openxmlformats-officedocument.extended-properties+xml"
+        } else if path.starts_with("ppt/ink/") && path.ends_with(".xml") {
+            "application/vnd.openxmlformats-officedocument.presentationml.ink+xml"
+        } else if path.starts_with("_xmlsignatures/") && path.ends_with(".xml") {
+            "application/vnd.openxmlformats-package.digital-signature-xmlsignature+xml"
         } else if path.starts_with("ppt/slides/slide") && path.ends_with(".xml") {
             "application/vnd.openxmlformats-officedocument.presentationml.slide+xml"
         } else if path.contains("theme") {
@@ -779,7 +918,22 @@ impl PptxRepair {
         } else if path.ends_with(".xml") {
             "application/xml"
         } else {
-            "application/octet-stream"
+            match path.rsplit('.').next().unwrap_or("").to_ascii_lowercase().as_str() {
+                "png" => "image/png",
+                "jpg" | "jpeg" | "jpe" => "image/jpeg",
+                "gif" => "image/gif",
+                "bmp" => "image/bmp",
+                "tif" | "tiff" => "image/tiff",
+                "svg" => "image/svg+xml",
+                "webp" => "image/webp",
+                "emf" => "image/x-emf",
+                "wmf" => "image/x-wmf",
+                "ico" => "image/x-icon",
+                "xlsx" => "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet",
+                "fntdata" => "application/x-fontdata",
+                "sigs" => "application/vnd.openxmlformats-package.digital-signature-origin",
+                _ => "application/octet-stream",
+            }
         }
     }
 
@@ -829,18 +983,19 @@ impl PptxRepair {
 <Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
   <Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
   <Default Extension="xml" ContentType="application/xml"/>
-  <Default Extension="jpeg" ContentType="image/jpeg"/>
-  <Default Extension="png" ContentType="image/png"/>
 "#,
         );
 
-        // Add overrides for existing parts
-        for path in self.package.part_paths() {
-            if path.ends_with(".xml") && path != "[Content_Types].xml" {
+        // Add an override for each part
+        let mut paths = self.package.part_paths();
+        paths.sort();
+        for path in paths {
+            if path != CONTENT_TYPES && !path.ends_with(".rels") {
                 let ct = self.infer_content_type(path);
                 content.push_str(&format!(
                     "  <Override PartName=\"/{}\" ContentType=\"{}\"/>\n",
-                    path, ct
+                    escape_xml(path),
+                    ct
                 ));
             }
         }
@@ -850,35 +1005,105 @@ impl PptxRepair {
     }
 
     fn generate_package_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        let mut xml = String::from(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="ppt/presentation.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" Target="docProps/core.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties" Target="docProps/app.xml"/>
-</Relationships>"#.to_string()
+  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="ppt/presentation.xml"/>"#,
+        );
+        for (id, rel_type, target) in [
+            ("rId2", RelationshipType::CoreProperties, "docProps/core.xml"),
+            ("rId3", RelationshipType::ExtendedProperties, "docProps/app.xml"),
+        ] {
+            if self.package.has_part(target) {
+                xml.push_str(&format!(
+                    "\n  <Relationship Id=\"{id}\" Type=\"{}\" Target=\"{target}\"/>",
+                    rel_type.uri()
+                ));
+            }
+        }
+        xml.push_str("\n</Relationships>");
+        xml
     }
 
     fn generate_presentation_xml(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        // The masters the presentation is already related to
+        let rels = self.relationships(PRESENTATION_RELS);
+        let ids_of = |kind: &str| -> Vec<&str> {
+            rels.iter()
+                .filter(|r| r.rel_type.ends_with(kind))
+                .map(|r| r.id.as_str())
+                .collect()
+        };
+        let mut masters = ids_of("/slideMaster");
+        if masters.is_empty() {
+            masters.push("rId1");
+        }
+        let mut lists = String::from("  <p:sldMasterIdLst>\n");
+        for (i, id) in masters.iter().enumerate() {
+            // Master ids share one range with layout ids: leave room between them
+            lists.push_str(&format!(
+                "    <p:sldMasterId id=\"{}\" r:id=\"{}\"/>\n",
+                2147483648u64 + i as u64 * 100,
+                escape_xml(id)
+            ));
+        }
+        lists.push_str("  </p:sldMasterIdLst>\n");
+        for name in ["notesMaster", "handoutMaster"] {
+            if let Some(id) = ids_of(&format!("/{name}")).first() {
+                lists.push_str(&format!(
+                    "  <p:{name}IdLst><p:{name}Id r:id=\"{}\"/></p:{name}IdLst>\n",
+                    escape_xml(id)
+                ));
+            }
+        }
+        format!(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
-  <p:sldMasterIdLst>
-    <p:sldMasterId id="2147483648" r:id="rId1"/>
-  </p:sldMasterIdLst>
-  <p:sldIdLst/>
+{lists}  <p:sldIdLst/>
   <p:sldSz cx="9144000" cy="6858000"/>
   <p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#.to_string()
+</p:presentation>"#
+        )
     }
 
     fn generate_presentation_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideMaster" Target="slideMasters/slideMaster1.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme" Target="theme/theme1.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/presProps" Target="presProps.xml"/>
-  <Relationship Id="rId4" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/viewProps" Target="viewProps.xml"/>
-  <Relationship Id="rId5" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/tableStyles" Target="tableStyles.xml"/>
-</Relationships>"#.to_string()
+        // Slides are related when the slide list is repaired
+        let mut rels: Vec<RelEntry> = Vec::new();
+        for name in ["slideMaster", "notesMaster", "handoutMaster"] {
+            let list = if name == "slideMaster" { "sldMaster" } else { name };
+            let listed = self.presentation_ids(&format!("{list}IdLst"), &format!("{list}Id"));
+            let parts = self.numbered_parts(&format!("ppt/{name}s/{name}"));
+            for (i, part) in parts.iter().enumerate() {
+                let id = match listed.get(i) {
+                    Some((_, id)) => id.clone(),
+                    None => self.new_presentation_rel_id(&rels),
+                };
+                rels.push(self.presentation_rel(id, name, part));
+            }
+        }
+        for (name, part) in [
+            ("theme", "ppt/theme/theme1.xml"),
+            ("presProps", "ppt/presProps.xml"),
+            ("viewProps", "ppt/viewProps.xml"),
+            ("tableStyles", "ppt/tableStyles.xml"),
+        ] {
+            if self.package.has_part(part) {
+                let id = self.new_presentation_rel_id(&rels);
+                rels.push(self.presentation_rel(id, name, part));
+            }
+        }
+        Self::relationships_xml(&rels)
+    }
+
+    fn presentation_rel(&self, id: String, name: &str, part: &str) -> RelEntry {
+        RelEntry {
+            id,
+            rel_type: format!(
+                "http://schemas.openxmlformats.org/officeDocument/2006/relationships/{name}"
+            ),
+            target: part.trim_start_matches("ppt/").to_string(),
+            mode: None,
+        }
     }
 }
 
-- 
2.43.0


From f5c2588fcf6f40f6939f8a8eb96c648dd682d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:16 +0000
Subject: [PATCH 41/99] fix: repairing an ampersand keeps the text after it

---
 src/oxml/repair.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 287a3ae..8e5055c 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -660,7 +660,6 @@ impl PptxRepair {
                 // Check if this is already an entity
                 let mut entity = String::from("&");
                 let mut is_entity = false;
-                let mut temp_chars: Vec<char> = Vec::new();
 
                 while let Some(&next) = chars.peek() {
                     if next == ';' {
@@ -673,8 +672,7 @@ impl PptxRepair {
                             || entity.starts_with("&#");
                         break;
                     } else if next.is_alphanumeric() || next == '#' || next == 'x' {
-                        temp_chars.push(chars.next().unwrap());
-                        entity.push(*temp_chars.last().unwrap());
+                        entity.push(chars.next().unwrap());
                     } else {
                         break;
                     }
@@ -687,9 +685,7 @@ impl PptxRepair {
                     result.push_str(&entity);
                 } else {
                     result.push_str("&amp;");
-                    for c in temp_chars {
-                        result.push(c);
-                    }
+                    result.push_str(&entity[1..]);
                 }
             } else {
                 result.push(ch);
-- 
2.43.0


From 5213f8fb2c01aed10a358aecdbc833e3a89a569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:44 +0000
Subject: [PATCH 42/99] fix: regenerated content types cover the regenerated
 presentation part

---
 src/oxml/repair.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8e5055c..a0838f4 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -984,6 +984,10 @@ impl PptxRepair {
 
         // Add an override for each part
         let mut paths = self.package.part_paths();
+        if !paths.contains(&PRESENTATION) {
+            // Generated along with this part
+            paths.push(PRESENTATION);
+        }
         paths.sort();
         for path in paths {
             if path != CONTENT_TYPES && !path.ends_with(".rels") {
-- 
2.43.0


From 7eaa54ea074d53ab5dfd6ac10e42bab3d8cb048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:46 +0000
Subject: [PATCH 43/99] fix: the package validator reports slide parts missing
 from the slide list

---
 src/core/package_validation/rules.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index 6f0572f..b4bc40d 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -246,6 +246,16 @@ fn check_presentation_structure<R: Read + Seek>(
         }
     }
 
+    for slide in ctx.names.iter().filter(|n| is_slide_part(n)) {
+        if !listed.contains(slide.as_str()) {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::Presentation,
+                format!("Slide part {slide} is not in the slide list"),
+                Some("ppt/presentation.xml"),
+            ));
+        }
+    }
+
     let slide_parts: usize = ctx
         .names
         .iter()
-- 
2.43.0


From eb924d2560c32a6f075b4008e4ec4570d4ffe2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:41 +0000
Subject: [PATCH 44/99] fix: compressing in memory uses no shared files and
 reports growth

---
 src/opc/compress.rs | 51 +++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bb01efb..5bf425b 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -9,6 +9,7 @@
 use super::Package;
 use crate::exc::Result;
 use std::collections::HashSet;
+use std::io::Cursor;
 use std::path::Path;
 
 /// Compression level options
@@ -204,10 +205,21 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
     output_path: Q,
     options: &CompressionOptions,
 ) -> Result<CompressionResult> {
+    let data = std::fs::read(input_path.as_ref())?;
+    let (compressed, result) = compress_pptx_in_memory(&data, options)?;
+    std::fs::write(output_path.as_ref(), compressed)?;
+    Ok(result)
+}
+
+/// Compress a PPTX in memory
+pub fn compress_pptx_in_memory(
+    data: &[u8],
+    options: &CompressionOptions,
+) -> Result<(Vec<u8>, CompressionResult)> {
     // Load package
-    let mut package = Package::open(input_path.as_ref())?;
+    let mut package = Package::open_reader(Cursor::new(data))?;
 
-    let original_size = std::fs::metadata(input_path.as_ref())?.len() as usize;
+    let original_size = data.len();
 
     let mut unused_media_removed = 0;
     let images_compressed = 0;
@@ -233,47 +245,28 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
     }
 
     // Save compressed package
-    package.save(output_path.as_ref())?;
+    let mut output = Cursor::new(Vec::new());
+    package.save_writer(&mut output)?;
+    let output = output.into_inner();
 
-    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+    // Negative when the input was packed tighter than the output
+    let compressed_size = output.len();
     let reduction_percent = if original_size > 0 {
-        ((original_size - compressed_size) as f64 / original_size as f64) * 100.0
+        ((original_size as f64 - compressed_size as f64) / original_size as f64) * 100.0
     } else {
         0.0
     };
 
     let target_achieved = options.target_size == 0 || compressed_size <= options.target_size;
 
-    Ok(CompressionResult {
+    Ok((output, CompressionResult {
         original_size,
         compressed_size,
         reduction_percent,
         unused_media_removed,
         images_compressed,
         target_achieved,
-    })
-}
-
-/// Compress a PPTX in memory
-pub fn compress_pptx_in_memory(
-    data: &[u8],
-    options: &CompressionOptions,
-) -> Result<(Vec<u8>, CompressionResult)> {
-    // Write to temp file
-    let temp_dir = std::env::temp_dir();
-    let temp_input = temp_dir.join("compress_input.pptx");
-    let temp_output = temp_dir.join("compress_output.pptx");
-
-    std::fs::write(&temp_input, data)?;
-
-    let result = compress_pptx(&temp_input, &temp_output, options)?;
-    let output_data = std::fs::read(&temp_output)?;
-
-    // Cleanup
-    let _ = std::fs::remove_file(&temp_input);
-    let _ = std::fs::remove_file(&temp_output);
-
-    Ok((output_data, result))
+    }))
 }
 
 /// Remove unused media files from package
-- 
2.43.0


From 9d8ee505ebc0aa050a47ea4c5685b2ad1d02c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:58 +0000
Subject: [PATCH 45/99] fix: compression keeps the media that relationships
 target

---
 src/opc/compress.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 5bf425b..5321f4e 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -7,7 +7,9 @@
 //! - Optimize XML (remove unnecessary whitespace)
 
 use super::Package;
+use crate::core::{rels_source_dir, resolve_rel_target};
 use crate::exc::Result;
+use crate::oxml::XmlParser;
 use std::collections::HashSet;
 use std::io::Cursor;
 use std::path::Path;
@@ -281,19 +283,17 @@ fn remove_unused_media(package: &mut Package) -> Result<usize> {
     let mut referenced = HashSet::new();
     let mut removed = 0;
 
-    // Find all media references in slide files
+    // Media is in use when a relationship of any part targets it
     for path in package.part_paths() {
-        if path.starts_with("ppt/slides/slide") && path.ends_with(".xml")
+        if path.ends_with(".rels")
             && let Some(content) = package.get_part_string(path) {
-                // Look for media references like rId5, image1.png, etc.
-                for media_path in &media_paths {
-                    let filename = Path::new(media_path)
-                        .file_name()
-                        .and_then(|n| n.to_str())
-                        .unwrap_or("");
-                    if content.contains(filename) || content.contains(&media_path[4..]) {
-                        referenced.insert(media_path.clone());
-                    }
+                let base = rels_source_dir(path);
+                let root = XmlParser::parse_str(&content)?;
+                for rel in root.find_all("Relationship") {
+                    if let Some(target) = rel.attr("Target")
+                        && rel.attr("TargetMode") != Some("External") {
+                            referenced.insert(resolve_rel_target(&base, target));
+                        }
                 }
             }
     }
-- 
2.43.0


From 1912b10b9e504aa08a51e3552ea2893b144c398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:58 +0000
Subject: [PATCH 46/99] fix: compression removes the references to the parts it
 removes, and the comments

---
 src/opc/compress.rs | 114 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 91 insertions(+), 23 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 5321f4e..d09075b 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -7,9 +7,9 @@
 //! - Optimize XML (remove unnecessary whitespace)
 
 use super::Package;
-use crate::core::{rels_source_dir, resolve_rel_target};
+use crate::core::{escape_xml, rels_source_dir, resolve_rel_target};
 use crate::exc::Result;
-use crate::oxml::XmlParser;
+use crate::oxml::{XmlElement, XmlParser};
 use std::collections::HashSet;
 use std::io::Cursor;
 use std::path::Path;
@@ -233,12 +233,20 @@ pub fn compress_pptx_in_memory(
 
     // Remove properties if requested
     if options.remove_properties {
-        remove_document_properties(&mut package);
+        remove_document_properties(&mut package)?;
     }
 
     // Remove notes if requested
     if options.remove_notes {
-        remove_notes_slides(&mut package)?;
+        remove_parts_under(&mut package, &["ppt/notesSlides/"])?;
+    }
+
+    // Remove comments and their authors if requested
+    if options.remove_comments {
+        remove_parts_under(
+            &mut package,
+            &["ppt/comments/", "ppt/commentAuthors.xml", "ppt/authors.xml"],
+        )?;
     }
 
     // Optimize XML
@@ -301,7 +309,7 @@ fn remove_unused_media(package: &mut Package) -> Result<usize> {
     // Remove unreferenced media
     for media_path in media_paths {
         if !referenced.contains(&media_path) {
-            package.remove_part(&media_path);
+            remove_part_and_references(package, &media_path)?;
             removed += 1;
         }
     }
@@ -310,33 +318,93 @@ fn remove_unused_media(package: &mut Package) -> Result<usize> {
 }
 
 /// Remove document properties
-fn remove_document_properties(package: &mut Package) {
-    // Remove core properties
-    package.remove_part("docProps/core.xml");
-    // Remove app properties
-    package.remove_part("docProps/app.xml");
-    // Remove custom properties
-    package.remove_part("docProps/custom.xml");
-    // Remove thumbnail
-    package.remove_part("docProps/thumbnail.jpeg");
+fn remove_document_properties(package: &mut Package) -> Result<()> {
+    for path in [
+        "docProps/core.xml",
+        "docProps/app.xml",
+        "docProps/custom.xml",
+        "docProps/thumbnail.jpeg",
+    ] {
+        remove_part_and_references(package, path)?;
+    }
+    Ok(())
 }
 
-/// Remove notes slides
-fn remove_notes_slides(package: &mut Package) -> Result<()> {
-    let notes_paths: Vec<String> = package
+/// Remove every part whose path starts with one of the prefixes
+fn remove_parts_under(package: &mut Package, prefixes: &[&str]) -> Result<()> {
+    let paths: Vec<String> = package
         .part_paths()
         .iter()
-        .filter(|p| p.starts_with("ppt/notesSlides/"))
+        .filter(|p| !p.ends_with(".rels") && prefixes.iter().any(|prefix| p.starts_with(prefix)))
         .map(|s| s.to_string())
         .collect();
 
-    for path in notes_paths {
-        package.remove_part(&path);
-        // Also remove relationships
-        let rels_path = path.replace("notesSlides/", "notesSlides/_rels/") + ".rels";
-        package.remove_part(&rels_path);
+    for path in paths {
+        remove_part_and_references(package, &path)?;
+    }
+
+    Ok(())
+}
+
+/// Remove a part with its own relationships, the relationships that target it
+/// and its content type
+fn remove_part_and_references(package: &mut Package, path: &str) -> Result<()> {
+    if package.remove_part(path).is_none() {
+        return Ok(());
     }
+    let (dir, name) = path.rsplit_once('/').unwrap_or(("", path));
+    package.remove_part(&format!("{dir}/_rels/{name}.rels"));
+
+    let rels_paths: Vec<String> = package
+        .part_paths()
+        .iter()
+        .filter(|p| p.ends_with(".rels"))
+        .map(|s| s.to_string())
+        .collect();
+    for rels_path in rels_paths {
+        let base = rels_source_dir(&rels_path);
+        remove_entries(package, &rels_path, |entry| {
+            entry.is("Relationship")
+                && entry.attr("TargetMode") != Some("External")
+                && entry.attr("Target").is_some_and(|t| resolve_rel_target(&base, t) == path)
+        })?;
+    }
+    remove_entries(package, "[Content_Types].xml", |entry| {
+        entry.is("Override")
+            && entry.attr("PartName").is_some_and(|n| n.trim_start_matches('/') == path)
+    })
+}
 
+/// Drop the entries of a relationships or content types part that match
+fn remove_entries(
+    package: &mut Package,
+    path: &str,
+    matches: impl Fn(&XmlElement) -> bool,
+) -> Result<()> {
+    let Some(content) = package.get_part_string(path) else {
+        return Ok(());
+    };
+    let root = XmlParser::parse_str(&content)?;
+    if !root.children.iter().any(&matches) {
+        return Ok(());
+    }
+
+    let name = &root.local_name;
+    let mut xml = format!(
+        "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<{name} xmlns=\"{}\">",
+        escape_xml(root.namespace.as_deref().unwrap_or_default())
+    );
+    for entry in root.children.iter().filter(|entry| !matches(entry)) {
+        xml.push_str(&format!("<{}", entry.local_name));
+        for attribute in ["Id", "Type", "Target", "TargetMode", "Extension", "PartName", "ContentType"] {
+            if let Some(value) = entry.attr(attribute) {
+                xml.push_str(&format!(" {attribute}=\"{}\"", escape_xml(value)));
+            }
+        }
+        xml.push_str("/>");
+    }
+    xml.push_str(&format!("</{name}>"));
+    package.add_part(path.to_string(), xml.into_bytes());
     Ok(())
 }
 
-- 
2.43.0


From 249274321352e723db27524f832d2852cd5593d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 47/99] fix: minimizing XML keeps text and attribute values

---
 src/opc/compress.rs | 121 ++++++++++++++++++++++++++++++--------------
 1 file changed, 83 insertions(+), 38 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index d09075b..40e2688 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -418,8 +418,10 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
         .collect();
 
     for path in xml_paths {
-        if let Some(content) = package.get_part_string(&path) {
-            let optimized = minimize_xml(&content);
+        // Parts in other encodings stay as they are
+        let content = package.get_part(&path).and_then(|data| std::str::from_utf8(data).ok());
+        if let Some(content) = content {
+            let optimized = minimize_xml(content);
             package.add_part(path, optimized.into_bytes());
         }
     }
@@ -427,52 +429,95 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
     Ok(())
 }
 
-/// Minimize XML by removing unnecessary whitespace
+/// Minimize XML by removing the whitespace between tags
+///
+/// Whitespace that is text stays: the whole content of an element without
+/// child elements, and everything next to other text.
 fn minimize_xml(xml: &str) -> String {
-    let mut result = String::with_capacity(xml.len());
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut prev_char = ' ';
-
-    for ch in xml.chars() {
-        match ch {
-            '"' if !in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '"' if in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '<' if !in_string => {
-                in_tag = true;
-                // Remove whitespace before tag
-                if (prev_char == ' ' || prev_char == '\n' || prev_char == '\t')
-                    && !result.is_empty() {
-                        result.pop();
-                    }
-                result.push(ch);
-            }
-            '>' if !in_string => {
-                in_tag = false;
-                result.push(ch);
+    let Some(tokens) = xml_tokens(xml) else {
+        return xml.to_string();
+    };
+
+    // For every token its parent element; for every element whether it holds
+    // child elements only
+    let mut parents = vec![0];
+    let mut elements = vec![(true, false)]; // (has children, keeps its text)
+    let mut parent_of = Vec::with_capacity(tokens.len());
+    for token in &tokens {
+        let parent = parents[parents.len() - 1];
+        if token.starts_with("</") {
+            parent_of.push(parent);
+            if parents.pop() == Some(0) || parents.is_empty() {
+                return xml.to_string();
             }
-            ' ' | '\n' | '\t' | '\r' if !in_tag && !in_string => {
-                // Skip whitespace between tags
-                if prev_char != ' ' {
-                    result.push(' ');
-                }
+        } else if token.starts_with("<![CDATA[") {
+            parent_of.push(parent);
+            elements[parent].1 = true;
+        } else if token.starts_with("<!") || token.starts_with("<?") {
+            parent_of.push(parent);
+        } else if token.starts_with('<') {
+            parent_of.push(parent);
+            elements[parent].0 = true;
+            if !token.ends_with("/>") {
+                let preserve = elements[parent].1 && parent != 0 || token.contains("xml:space");
+                elements.push((false, preserve));
+                parents.push(elements.len() - 1);
             }
-            _ => {
-                result.push(ch);
+        } else {
+            parent_of.push(parent);
+            if !is_xml_blank(token) {
+                elements[parent].1 = true;
             }
         }
-        prev_char = ch;
     }
 
+    let mut result = String::with_capacity(xml.len());
+    for (token, parent) in tokens.iter().zip(parent_of) {
+        let (has_children, keeps_text) = elements[parent];
+        if !(is_xml_blank(token) && has_children && !keeps_text) {
+            result.push_str(token);
+        }
+    }
     result
 }
 
+fn is_xml_blank(text: &str) -> bool {
+    text.chars().all(|c| matches!(c, ' ' | '\n' | '\t' | '\r'))
+}
+
+/// Split XML into tags (with comments and the like) and the text between them
+fn xml_tokens(xml: &str) -> Option<Vec<&str>> {
+    let mut tokens = Vec::new();
+    let mut rest = xml;
+    while !rest.is_empty() {
+        let end = if rest.starts_with("<!--") {
+            rest.find("-->")? + 3
+        } else if rest.starts_with("<![CDATA[") {
+            rest.find("]]>")? + 3
+        } else if rest.starts_with("<?") {
+            rest.find("?>")? + 2
+        } else if rest.starts_with("<!") {
+            return None; // document type declarations are left alone
+        } else if rest.starts_with('<') {
+            let mut quote = None;
+            let end = rest.char_indices().find(|&(_, c)| {
+                match quote {
+                    Some(q) if c == q => quote = None,
+                    None if c == '"' || c == '\'' => quote = Some(c),
+                    _ => {}
+                }
+                quote.is_none() && c == '>'
+            });
+            end?.0 + 1
+        } else {
+            rest.find('<').unwrap_or(rest.len())
+        };
+        tokens.push(&rest[..end]);
+        rest = &rest[end..];
+    }
+    Some(tokens)
+}
+
 /// Analyze PPTX file and return size breakdown
 pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
     let package = Package::open(path.as_ref())?;
-- 
2.43.0


From 6a438eb16d353860d07defa17c154725f17ae509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:11 +0000
Subject: [PATCH 48/99] fix: Markdown formatting marks surround the whole
 formatted text

---
 src/cli/markdown/parser.rs | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index e6afe33..81ba031 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -42,10 +42,6 @@ struct MarkdownParser {
     in_code_block: bool,
     code_content: String,
     code_language: Option<String>,
-    // Formatting state
-    is_bold: bool,
-    is_italic: bool,
-    is_strikethrough: bool,
     // Blockquote (speaker notes)
     in_blockquote: bool,
     blockquote_text: String,
@@ -72,9 +68,6 @@ impl MarkdownParser {
             in_code_block: false,
             code_content: String::new(),
             code_language: None,
-            is_bold: false,
-            is_italic: false,
-            is_strikethrough: false,
             in_blockquote: false,
             blockquote_text: String::new(),
             pending_image: None,
@@ -216,12 +209,11 @@ impl MarkdownParser {
             }
 
             // Inline formatting
-            Event::Start(Tag::Strong) => self.is_bold = true,
-            Event::End(TagEnd::Strong) => self.is_bold = false,
-            Event::Start(Tag::Emphasis) => self.is_italic = true,
-            Event::End(TagEnd::Emphasis) => self.is_italic = false,
-            Event::Start(Tag::Strikethrough) => self.is_strikethrough = true,
-            Event::End(TagEnd::Strikethrough) => self.is_strikethrough = false,
+            Event::Start(Tag::Strong) | Event::End(TagEnd::Strong) => self.push_text("**"),
+            Event::Start(Tag::Emphasis) | Event::End(TagEnd::Emphasis) => self.push_text("*"),
+            Event::Start(Tag::Strikethrough) | Event::End(TagEnd::Strikethrough) => {
+                self.push_text("~~")
+            }
             Event::Code(code) => {
                 let formatted = format!("`{}`", code);
                 self.push_text(&formatted);
@@ -307,26 +299,14 @@ impl MarkdownParser {
     }
 
     fn push_text(&mut self, text: &str) {
-        let formatted = if self.is_bold && self.is_italic {
-            format!("***{}***", text)
-        } else if self.is_bold {
-            format!("**{}**", text)
-        } else if self.is_italic {
-            format!("*{}*", text)
-        } else if self.is_strikethrough {
-            format!("~~{}~~", text)
-        } else {
-            text.to_string()
-        };
-
         if self.in_code_block {
             self.code_content.push_str(text);
         } else if self.in_table {
-            self.current_cell.push_str(&formatted);
+            self.current_cell.push_str(text);
         } else if self.in_blockquote {
-            self.blockquote_text.push_str(&formatted);
+            self.blockquote_text.push_str(text);
         } else {
-            self.current_text.push_str(&formatted);
+            self.current_text.push_str(text);
         }
     }
 
-- 
2.43.0


From 5cdc9b21d2750b8cee51303acaa928596426ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:20 +0000
Subject: [PATCH 49/99] fix: an inline HTML comment in Markdown cannot panic
 the parser

---
 src/cli/markdown/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 81ba031..9a8f4c0 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -226,24 +226,24 @@ impl MarkdownParser {
                 if html_str.contains("<mark>") || html_str.contains("<ins>") {
                     // Highlight syntax: ==text== or <ins>text</ins>
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str[start..].find("</") {
+                            let text = &html_str[start + 1..start + end];
                             self.push_text(&format!("=={}==", text));
                         }
                     }
                 } else if html_str.contains("<sub>") {
                     // Subscript
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str[start..].find("</") {
+                            let text = &html_str[start + 1..start + end];
                             self.push_text(&format!("~{}~", text));
                         }
                     }
                 } else if html_str.contains("<sup>") {
                     // Superscript
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str[start..].find("</") {
+                            let text = &html_str[start + 1..start + end];
                             self.push_text(&format!("^{}^", text));
                         }
                     }
-- 
2.43.0


From 374751c6812686ff44cab3a910d5d859dd4478a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 50/99] fix: Markdown code keeps the indentation of its first
 line

---
 src/cli/markdown/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 9a8f4c0..667a808 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -401,7 +401,7 @@ impl MarkdownParser {
             return;
         }
 
-        let code_block = CodeBlock::new(code.trim(), lang_str);
+        let code_block = CodeBlock::new(code.trim_end(), lang_str);
 
         if let Some(ref mut slide) = self.current_slide {
             slide.code_blocks.push(code_block);
-- 
2.43.0


From 2882d153908e40bbdb20275ecb6fe325dab867ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 51/99] fix: Markdown lists keep the items around nested lists,
 their levels and numbering

---
 src/cli/markdown/parser.rs | 99 ++++++++++++++++++++++++++++----------
 1 file changed, 73 insertions(+), 26 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 667a808..6a1c686 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -7,7 +7,7 @@ use pulldown_cmark::{Event, HeadingLevel, Options, Parser, Tag, TagEnd};
 
 use super::mermaid;
 use crate::generator::{
-    CodeBlock, Shape, ShapeFill, ShapeType, SlideContent,
+    BulletPoint, BulletStyle, CodeBlock, Shape, ShapeFill, ShapeType, SlideContent,
 };
 
 /// Parse markdown content into slides
@@ -23,14 +23,21 @@ struct TaskItem {
     checked: bool,
 }
 
+/// A list item waiting for the end of its list
+struct ListItem {
+    text: String,
+    level: u32,
+    ordered: bool,
+}
+
 /// State machine for markdown parsing
 struct MarkdownParser {
     slides: Vec<SlideContent>,
     current_slide: Option<SlideContent>,
     current_text: String,
     // List state
-    in_list: bool,
-    list_items: Vec<String>,
+    open_lists: Vec<bool>, // whether each open list is ordered
+    list_items: Vec<ListItem>,
     task_items: Vec<TaskItem>,
     // Table state
     in_table: bool,
@@ -57,7 +64,7 @@ impl MarkdownParser {
             slides: Vec::new(),
             current_slide: None,
             current_text: String::new(),
-            in_list: false,
+            open_lists: Vec::new(),
             list_items: Vec::new(),
             task_items: Vec::new(),
             in_table: false,
@@ -116,28 +123,37 @@ impl MarkdownParser {
             }
 
             // Lists
-            Event::Start(Tag::List(_)) => {
-                self.in_list = true;
-                self.list_items.clear();
-                self.task_items.clear();
+            Event::Start(Tag::List(start)) => {
+                if self.in_blockquote {
+                    self.break_text();
+                } else {
+                    // The text before a nested list is an item of the outer list
+                    self.push_list_item();
+                }
+                self.open_lists.push(start.is_some());
             }
             Event::End(TagEnd::List(_)) => {
-                self.in_list = false;
-                self.flush_list_items();
+                self.open_lists.pop();
+                if self.open_lists.is_empty() && !self.in_blockquote {
+                    self.flush_list_items();
+                }
             }
             Event::Start(Tag::Item) => {
-                self.current_text.clear();
+                if self.in_blockquote {
+                    self.break_text();
+                } else {
+                    self.current_text.clear();
+                }
                 // Reset task state for new item
                 self.current_task_checked = false;
             }
             Event::End(TagEnd::Item) => {
-                let item = std::mem::take(&mut self.current_text).trim().to_string();
-                if !item.is_empty() {
+                if !self.in_blockquote {
                     // Since pulldown-cmark may have stripped the [x]/[ ] already,
                     // we need to check for task items differently
                     // For now, we'll treat all items as regular bullets
                     // and let the user add special characters if they want
-                    self.list_items.push(item);
+                    self.push_list_item();
                 }
             }
 
@@ -150,6 +166,7 @@ impl MarkdownParser {
             Event::End(TagEnd::Table) => {
                 self.in_table = false;
                 self.flush_table();
+                self.break_text();
             }
             Event::Start(Tag::TableHead) => {
                 self.in_table_head = true;
@@ -196,6 +213,7 @@ impl MarkdownParser {
             Event::End(TagEnd::CodeBlock) => {
                 self.in_code_block = false;
                 self.flush_code_block();
+                self.break_text();
             }
 
             // Blockquotes (speaker notes)
@@ -281,12 +299,14 @@ impl MarkdownParser {
 
             // Paragraphs
             Event::Start(Tag::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
+                if self.in_container() {
+                    self.break_text();
+                } else {
                     self.current_text.clear();
                 }
             }
             Event::End(TagEnd::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
+                if !self.in_container() {
                     let text = std::mem::take(&mut self.current_text).trim().to_string();
                     if !text.is_empty() {
                         self.add_paragraph(&text);
@@ -310,6 +330,35 @@ impl MarkdownParser {
         }
     }
 
+    /// Whether the current block is inside a list item or a quote
+    fn in_container(&self) -> bool {
+        self.in_blockquote || !self.open_lists.is_empty()
+    }
+
+    /// Separate the blocks of one list item or quote
+    fn break_text(&mut self) {
+        let (text, separator) = if self.in_blockquote {
+            (&mut self.blockquote_text, '\n')
+        } else {
+            (&mut self.current_text, ' ')
+        };
+        if !text.is_empty() && !text.ends_with(separator) {
+            text.push(separator);
+        }
+    }
+
+    /// Take the current text as an item of the innermost open list
+    fn push_list_item(&mut self) {
+        let Some(&ordered) = self.open_lists.last() else {
+            return;
+        };
+        let text = std::mem::take(&mut self.current_text).trim().to_string();
+        if !text.is_empty() {
+            let level = self.open_lists.len() as u32 - 1;
+            self.list_items.push(ListItem { text, level, ordered });
+        }
+    }
+
     fn add_paragraph(&mut self, text: &str) {
         if let Some(ref mut slide) = self.current_slide {
             *slide = slide.clone().add_bullet(text);
@@ -325,16 +374,14 @@ impl MarkdownParser {
         if !self.list_items.is_empty() {
             let items = std::mem::take(&mut self.list_items);
 
-            if let Some(ref mut slide) = self.current_slide {
-                for item in items {
-                    *slide = slide.clone().add_bullet(&item);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for item in items {
-                    slide = slide.add_bullet(&item);
-                }
-                self.current_slide = Some(slide);
+            let slide = self.current_slide.get_or_insert_with(|| SlideContent::new("Slide"));
+            for item in items {
+                let style = if item.ordered { BulletStyle::Number } else { BulletStyle::Bullet };
+                let indent = "  ".repeat(item.level as usize);
+                slide.content.push(format!("{indent}{}", item.text));
+                slide.bullets.push(
+                    BulletPoint::new(&item.text).with_level(item.level).with_style(style),
+                );
             }
         }
 
-- 
2.43.0


From 909aa1133a43432da66e44f250db6d4d76457ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 52/99] fix: Markdown quotes keep all their text, and earlier
 quotes of the slide

---
 src/cli/markdown/parser.rs | 47 +++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 6a1c686..cace599 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -50,7 +50,7 @@ struct MarkdownParser {
     code_content: String,
     code_language: Option<String>,
     // Blockquote (speaker notes)
-    in_blockquote: bool,
+    blockquote_depth: usize,
     blockquote_text: String,
     // Image state
     pending_image: Option<(String, String)>,
@@ -75,7 +75,7 @@ impl MarkdownParser {
             in_code_block: false,
             code_content: String::new(),
             code_language: None,
-            in_blockquote: false,
+            blockquote_depth: 0,
             blockquote_text: String::new(),
             pending_image: None,
             current_task_checked: false,
@@ -124,7 +124,7 @@ impl MarkdownParser {
 
             // Lists
             Event::Start(Tag::List(start)) => {
-                if self.in_blockquote {
+                if self.in_blockquote() {
                     self.break_text();
                 } else {
                     // The text before a nested list is an item of the outer list
@@ -134,12 +134,12 @@ impl MarkdownParser {
             }
             Event::End(TagEnd::List(_)) => {
                 self.open_lists.pop();
-                if self.open_lists.is_empty() && !self.in_blockquote {
+                if self.open_lists.is_empty() && !self.in_blockquote() {
                     self.flush_list_items();
                 }
             }
             Event::Start(Tag::Item) => {
-                if self.in_blockquote {
+                if self.in_blockquote() {
                     self.break_text();
                 } else {
                     self.current_text.clear();
@@ -148,7 +148,7 @@ impl MarkdownParser {
                 self.current_task_checked = false;
             }
             Event::End(TagEnd::Item) => {
-                if !self.in_blockquote {
+                if !self.in_blockquote() {
                     // Since pulldown-cmark may have stripped the [x]/[ ] already,
                     // we need to check for task items differently
                     // For now, we'll treat all items as regular bullets
@@ -218,12 +218,16 @@ impl MarkdownParser {
 
             // Blockquotes (speaker notes)
             Event::Start(Tag::BlockQuote) => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+                self.blockquote_depth += 1;
+                self.break_text();
             }
             Event::End(TagEnd::BlockQuote) => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
+                self.break_text();
+                self.blockquote_depth -= 1;
+                if !self.in_blockquote() {
+                    self.flush_blockquote();
+                    self.break_text();
+                }
             }
 
             // Inline formatting
@@ -323,21 +327,25 @@ impl MarkdownParser {
             self.code_content.push_str(text);
         } else if self.in_table {
             self.current_cell.push_str(text);
-        } else if self.in_blockquote {
+        } else if self.in_blockquote() {
             self.blockquote_text.push_str(text);
         } else {
             self.current_text.push_str(text);
         }
     }
 
+    fn in_blockquote(&self) -> bool {
+        self.blockquote_depth > 0
+    }
+
     /// Whether the current block is inside a list item or a quote
     fn in_container(&self) -> bool {
-        self.in_blockquote || !self.open_lists.is_empty()
+        self.in_blockquote() || !self.open_lists.is_empty()
     }
 
     /// Separate the blocks of one list item or quote
     fn break_text(&mut self) {
-        let (text, separator) = if self.in_blockquote {
+        let (text, separator) = if self.in_blockquote() {
             (&mut self.blockquote_text, '\n')
         } else {
             (&mut self.current_text, ' ')
@@ -529,15 +537,16 @@ impl MarkdownParser {
     }
 
     fn flush_blockquote(&mut self) {
-        if self.blockquote_text.is_empty() {
+        let notes = std::mem::take(&mut self.blockquote_text).trim().to_string();
+        if notes.is_empty() {
             return;
         }
 
-        let notes = std::mem::take(&mut self.blockquote_text).trim().to_string();
-
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(notes);
-        }
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new("Slide"));
+        slide.notes = Some(match slide.notes.take() {
+            Some(earlier) => format!("{earlier}\n{notes}"),
+            None => notes,
+        });
     }
 
     fn add_image_placeholder(&mut self, url: &str, alt: &str) {
-- 
2.43.0


From 98ef8ca59bf8934b84dadcf7f2e8dc49ed338d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 53/99] fix: Markdown headings keep their images and text
 wherever they stand

---
 src/cli/markdown/parser.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index cace599..672ad32 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -106,19 +106,26 @@ impl MarkdownParser {
     fn handle_event(&mut self, event: Event) {
         match event {
             // Headings create new slides
+            Event::Start(Tag::Heading { .. }) | Event::End(TagEnd::Heading(_)) | Event::Rule
+                if self.in_container() =>
+            {
+                self.break_text();
+            }
             Event::Start(Tag::Heading { level, .. }) => {
                 if level == HeadingLevel::H1 {
                     self.finalize_current_slide();
+                    self.current_slide = Some(SlideContent::new(""));
                 }
                 self.current_text.clear();
             }
             Event::End(TagEnd::Heading(level)) => {
                 let title = std::mem::take(&mut self.current_text).trim().to_string();
-                if level == HeadingLevel::H1 {
-                    self.current_slide = Some(SlideContent::new(&title));
-                } else if let Some(ref mut slide) = self.current_slide {
-                    let formatted = format!("**{}**", title);
-                    *slide = slide.clone().add_bullet(&formatted);
+                if level == HeadingLevel::H1
+                    && let Some(ref mut slide) = self.current_slide
+                {
+                    slide.title = title;
+                } else {
+                    self.add_paragraph(&format!("**{}**", title));
                 }
             }
 
-- 
2.43.0


From 0cbc20e85faa04b72b659fbed91f76a9cf4b5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 54/99] fix: a second Markdown table does not replace the first

---
 src/cli/markdown/parser.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 672ad32..055c09a 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -293,11 +293,7 @@ impl MarkdownParser {
 
             // Horizontal rule = slide break
             Event::Rule => {
-                self.finalize_current_slide();
-                if let Some(last) = self.slides.last() {
-                    let title = format!("{} (continued)", last.title);
-                    self.current_slide = Some(SlideContent::new(&title));
-                }
+                self.break_slide();
             }
 
             // Text content
@@ -438,6 +434,12 @@ impl MarkdownParser {
         let rows = std::mem::take(&mut self.table_rows);
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
+        // A slide holds one table: a further one goes on a slide of its own
+        if self.current_slide.as_ref().is_some_and(|slide| slide.has_table) {
+            self.push_list_item();
+            self.break_slide();
+        }
+
         if let Some(ref mut slide) = self.current_slide {
             slide.table = Some(table);
             slide.has_table = true;
@@ -638,6 +640,15 @@ impl MarkdownParser {
         }
     }
 
+    /// Continue on a new slide
+    fn break_slide(&mut self) {
+        self.finalize_current_slide();
+        if let Some(last) = self.slides.last() {
+            let title = format!("{} (continued)", last.title);
+            self.current_slide = Some(SlideContent::new(&title));
+        }
+    }
+
     fn finalize_current_slide(&mut self) {
         self.flush_list_items();
 
-- 
2.43.0


From 032150f820b93f418e3bca4341347c0aadd188fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 55/99] fix: inline colours and sizes of HTML cannot panic the
 parser or be out of range

---
 src/import/html.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 34126f6..1d58f1c 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -226,6 +226,9 @@ fn css_named_color(name: &str) -> Option<&'static str> {
 fn parse_css_color(value: &str) -> Option<String> {
     let value = value.trim();
     if let Some(hex) = value.strip_prefix('#') {
+        if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return None;
+        }
         let hex = match hex.len() {
             3 => hex.chars().map(|c| format!("{c}{c}")).collect::<String>(),
             6 => hex.to_string(),
@@ -254,15 +257,15 @@ fn parse_css_color(value: &str) -> Option<String> {
 /// Parse a CSS font-size value to points
 fn parse_font_size(value: &str) -> Option<u32> {
     let value = value.trim();
-    if let Some(px) = value.strip_suffix("px") {
-        let px = px.trim().parse::<f64>().ok()?;
-        Some((px / 1.333).round() as u32)
+    let points = if let Some(px) = value.strip_suffix("px") {
+        (px.trim().parse::<f64>().ok()? / 1.333).round()
     } else if let Some(pt) = value.strip_suffix("pt") {
-        let pt = pt.trim().parse::<f64>().ok()?;
-        Some(pt.round() as u32)
+        pt.trim().parse::<f64>().ok()?.round()
     } else {
-        value.parse::<u32>().ok()
-    }
+        f64::from(value.parse::<u32>().ok()?)
+    };
+    // PowerPoint text sizes are 1 to 4000 points
+    (1.0..=4000.0).contains(&points).then_some(points as u32)
 }
 
 /// Check if a CSS font-weight value represents bold
-- 
2.43.0


From eb388f16e7e970a6c3d0437de5e20ff69505e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 56/99] fix: the text of HTML scripts and styles is not read as
 tags

---
 src/import/html.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/import/html.rs b/src/import/html.rs
index 1d58f1c..5333a04 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -422,6 +422,24 @@ const VOID_TAGS: &[&str] = &[
     "link", "meta", "param", "source", "track", "wbr",
 ];
 
+/// Elements whose content is raw text, up to their own closing tag
+const RAW_TEXT_TAGS: &[&str] = &["script", "style"];
+
+/// Position of the closing tag of the raw text element `name`, from `from` on
+fn find_raw_text_end(chars: &[char], from: usize, name: &str) -> usize {
+    let name: Vec<char> = name.chars().collect();
+    (from..chars.len())
+        .find(|&i| {
+            let after = i + 2 + name.len();
+            chars[i] == '<'
+                && chars.get(i + 1) == Some(&'/')
+                && after <= chars.len()
+                && chars[i + 2..after].iter().zip(&name).all(|(a, b)| a.eq_ignore_ascii_case(b))
+                && !chars.get(after).is_some_and(|c| c.is_ascii_alphanumeric())
+        })
+        .unwrap_or(chars.len())
+}
+
 /// Walk through HTML and produce events
 fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut events = Vec::new();
@@ -552,6 +570,17 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 i += 1; // skip '>'
             }
 
+            if RAW_TEXT_TAGS.contains(&tag_name.as_str()) {
+                let end = find_raw_text_end(&chars, i, &tag_name);
+                if end > i {
+                    let text: String = chars[i..end].iter().collect();
+                    events.push(HtmlEvent::OpenTag { name: tag_name, attrs });
+                    events.push(HtmlEvent::Text(text));
+                    i = end;
+                    continue;
+                }
+            }
+
             if !tag_name.is_empty() {
                 events.push(HtmlEvent::OpenTag { name: tag_name, attrs });
             }
-- 
2.43.0


From 24779b542673d773343703a436bef53d671586ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 57/99] fix: a less-than sign that starts no HTML tag is text

---
 src/import/html.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 5333a04..2889581 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -440,6 +440,15 @@ fn find_raw_text_end(chars: &[char], from: usize, name: &str) -> usize {
         .unwrap_or(chars.len())
 }
 
+/// Whether the character at `i` starts a tag, comment or declaration (a `<` before
+/// anything else is text)
+fn starts_markup(chars: &[char], i: usize) -> bool {
+    chars[i] == '<'
+        && chars
+            .get(i + 1)
+            .is_some_and(|c| c.is_alphabetic() || matches!(c, '/' | '!' | '?'))
+}
+
 /// Walk through HTML and produce events
 fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut events = Vec::new();
@@ -448,11 +457,8 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut i = 0;
 
     while i < len {
-        if chars[i] == '<' {
+        if starts_markup(&chars, i) {
             i += 1;
-            if i >= len {
-                break;
-            }
 
             // Comment <!-- ... -->
             if i + 3 <= len && chars[i] == '!' && i + 1 < len && chars[i + 1] == '-' && i + 2 < len && chars[i + 2] == '-' {
@@ -587,7 +593,7 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
         } else {
             // Text content
             let mut text = String::new();
-            while i < len && chars[i] != '<' {
+            while i < len && !starts_markup(&chars, i) {
                 text.push(chars[i]);
                 i += 1;
             }
-- 
2.43.0


From 9754408c23fb51e6c3fa8723c6fc80d59ca7eec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 58/99] fix: white space between inline HTML elements is kept

---
 src/import/html.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 2889581..fc83baf 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -597,10 +597,7 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 text.push(chars[i]);
                 i += 1;
             }
-            let trimmed = text.trim();
-            if !trimmed.is_empty() {
-                events.push(HtmlEvent::Text(decode_entities(&text)));
-            }
+            events.push(HtmlEvent::Text(decode_entities(&text)));
         }
     }
 
-- 
2.43.0


From ece53ead12e7a62103097f5df342c1f58585fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:39 +0000
Subject: [PATCH 59/99] fix: HTML conversion keeps every block, in order, on
 its slide

---
 src/import/html.rs | 632 ++++++++++++++++++++++++++-------------------
 1 file changed, 369 insertions(+), 263 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index fc83baf..b953def 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -614,26 +614,92 @@ const SKIP_TAGS: &[&str] = &[
     "title",
 ];
 
+/// Elements that start and end a block of text of their own
+const BLOCK_TAGS: &[&str] = &[
+    "address", "article", "aside", "blockquote", "body", "button", "caption", "center", "dd", "details",
+    "dialog", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "h1", "h2", "h3",
+    "h4", "h5", "h6", "header", "hgroup", "hr", "legend", "li", "main", "ol", "option", "p", "pre",
+    "search", "section", "select", "summary", "table", "tbody", "td", "textarea", "tfoot", "th", "thead", "tr", "ul",
+];
+
+const HEADING_TAGS: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6"];
+
+/// Parts of a table, closed within their own table only
+const TABLE_PART_TAGS: &[&str] = &["caption", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"];
+
+/// Elements that closing tags inside them do not reach out of
+const SCOPE_TAGS: &[&str] = &["table", "td", "th", "caption"];
+
+/// An open element
+struct Element {
+    name: String,
+    style: InlineStyle,
+}
+
+/// Text of a block being collected, with the formatting marks open in it
+#[derive(Default)]
+struct TextRun {
+    text: String,
+    marks: Vec<&'static str>,
+}
+
+impl TextRun {
+    /// Add text that stands inside the given formatting marks
+    fn push(&mut self, text: &str, marks: &[&'static str]) {
+        if text.trim().is_empty() {
+            self.push_space(' ');
+            return;
+        }
+        let rest = if marks.len() > self.marks.len() {
+            let rest = text.trim_start();
+            self.text.push_str(&text[..text.len() - rest.len()]);
+            rest
+        } else {
+            text
+        };
+        for mark in marks.iter().skip(self.marks.len()) {
+            self.text.push_str(mark);
+            self.marks.push(mark);
+        }
+        self.text.push_str(rest);
+    }
+
+    /// Separate what follows from the text so far
+    fn push_space(&mut self, space: char) {
+        if !self.text.is_empty() && !self.text.ends_with(char::is_whitespace) {
+            self.text.push(space);
+        }
+    }
+
+    /// Close the formatting marks beyond the first `keep`
+    fn close_marks(&mut self, keep: usize) {
+        while self.marks.len() > keep {
+            if let Some(mark) = self.marks.pop() {
+                let end = self.text.trim_end().len();
+                self.text.insert_str(end, mark);
+            }
+        }
+    }
+
+    fn take(&mut self) -> String {
+        self.close_marks(0);
+        std::mem::take(&mut self.text).trim().to_string()
+    }
+}
+
 struct HtmlSlideParser {
     options: HtmlParseOptions,
     slides: Vec<SlideContent>,
     current_slide: Option<SlideContent>,
-    text_buffer: String,
-    tag_stack: Vec<String>,
-    style_stack: Vec<InlineStyle>,
-    in_list: bool,
-    in_table: bool,
-    in_code: bool,
-    in_blockquote: bool,
-    italic: bool,
+    open: Vec<Element>,
+    text_run: TextRun,
+    cell_run: TextRun,
+    quote_run: TextRun,
     list_items: Vec<(String, Option<BulletTextFormat>)>,
     table_rows: Vec<Vec<String>>,
     current_row: Vec<String>,
-    current_cell: String,
     code_content: String,
-    blockquote_text: String,
     presentation_title: Option<String>,
-    current_href: Option<String>,
 }
 
 impl HtmlSlideParser {
@@ -642,47 +708,33 @@ impl HtmlSlideParser {
             options,
             slides: Vec::new(),
             current_slide: None,
-            text_buffer: String::new(),
-            tag_stack: Vec::new(),
-            style_stack: Vec::new(),
-            in_list: false,
-            in_table: false,
-            in_code: false,
-            in_blockquote: false,
-            italic: false,
+            open: Vec::new(),
+            text_run: TextRun::default(),
+            cell_run: TextRun::default(),
+            quote_run: TextRun::default(),
             list_items: Vec::new(),
             table_rows: Vec::new(),
             current_row: Vec::new(),
-            current_cell: String::new(),
             code_content: String::new(),
-            blockquote_text: String::new(),
             presentation_title: None,
-            current_href: None,
         }
     }
 
-    /// Return the current active style (top of the style stack)
+    /// Return the style of the innermost open element
     fn active_style(&self) -> Option<&InlineStyle> {
-        self.style_stack.last()
+        self.open.last().map(|e| &e.style)
     }
 
     fn parse(&mut self, events: &[HtmlEvent]) -> Result<Vec<SlideContent>, String> {
         for event in events {
             match event {
-                HtmlEvent::OpenTag { name, attrs } => {
-                    self.tag_stack.push(name.clone());
-                    self.handle_open_tag(name, attrs);
-                }
-                HtmlEvent::CloseTag(name) => {
-                    self.handle_close_tag(name);
-                    self.tag_stack.pop();
-                }
-                HtmlEvent::Text(text) => {
-                    self.handle_text(text);
-                }
+                HtmlEvent::OpenTag { name, attrs } => self.handle_open_tag(name, attrs),
+                HtmlEvent::CloseTag(name) => self.handle_close_tag(name),
+                HtmlEvent::Text(text) => self.handle_text(text),
             }
         }
 
+        self.close_elements(0);
         self.finalize_current_slide();
 
         if self.slides.is_empty() {
@@ -697,59 +749,159 @@ impl HtmlSlideParser {
         Ok(std::mem::take(&mut self.slides))
     }
 
+    fn is_inside(&self, names: &[&str]) -> bool {
+        self.open.iter().any(|e| names.contains(&e.name.as_str()))
+    }
+
     fn is_inside_skip_tag(&self) -> bool {
-        self.tag_stack.iter().any(|t| SKIP_TAGS.contains(&t.as_str()))
+        self.is_inside(SKIP_TAGS)
+    }
+
+    fn table_depth(&self) -> usize {
+        self.open.iter().filter(|e| e.name == "table").count()
+    }
+
+    fn is_inside_cell(&self) -> bool {
+        self.table_depth() > 0 && self.is_inside(&["td", "th"])
+    }
+
+    /// Whether text belongs to a cell, quote or code block, where headings and rules are
+    /// plain blocks of text
+    fn is_inside_container(&self) -> bool {
+        self.is_inside(&["pre", "blockquote"]) || self.is_inside_cell()
+    }
+
+    /// The block of text that text currently belongs to
+    fn run(&mut self) -> &mut TextRun {
+        if self.is_inside_cell() {
+            &mut self.cell_run
+        } else if self.is_inside(&["blockquote"]) {
+            &mut self.quote_run
+        } else {
+            &mut self.text_run
+        }
+    }
+
+    /// Formatting marks of the open elements
+    fn marks(&self) -> Vec<&'static str> {
+        let mut marks = Vec::new();
+        for element in &self.open {
+            let mark = match element.name.as_str() {
+                "strong" | "b" => "**",
+                "em" | "i" => "*",
+                _ => continue,
+            };
+            if !marks.contains(&mark) {
+                marks.push(mark);
+            }
+        }
+        marks
+    }
+
+    /// End the current block of text
+    fn end_run(&mut self) {
+        if self.is_inside_cell() {
+            self.cell_run.close_marks(0);
+            self.cell_run.push_space('\n');
+        } else if self.is_inside(&["blockquote"]) {
+            self.quote_run.close_marks(0);
+            self.quote_run.push_space('\n');
+        } else if self.is_inside(HEADING_TAGS) {
+            self.text_run.push_space(' ');
+        } else {
+            let text = self.text_run.take();
+            if text.is_empty() {
+                return;
+            }
+            if self.is_inside(&["li"]) {
+                let format = self.active_style().and_then(|s| s.to_bullet_format());
+                self.list_items.push((text, format));
+            } else {
+                self.add_paragraph(&text);
+            }
+        }
+    }
+
+    /// Close the elements whose end tags may be left out before `name`
+    fn close_implied_elements(&mut self, name: &str) {
+        let find = |open: &[Element], names: &[&str], stop: &[&str]| {
+            open.iter()
+                .rposition(|e| names.contains(&e.name.as_str()) || stop.contains(&e.name.as_str()))
+                .filter(|&i| names.contains(&open[i].name.as_str()))
+        };
+        let table = self.open.iter().rposition(|e| e.name == "table");
+        let unended = match name {
+            "td" | "th" => find(&self.open, &["td", "th", "caption"], &["table"]),
+            "tr" | "tbody" | "thead" | "tfoot" => table
+                .map(|t| self.open[t + 1..].iter().position(|e| {
+                    e.name == "caption" || e.name == "tr" || (name != "tr" && TABLE_PART_TAGS.contains(&e.name.as_str()))
+                }).map(|i| t + 1 + i))
+                .unwrap_or(None),
+            "li" => find(&self.open, &["li"], &["ul", "ol", "table", "td", "th", "caption", "blockquote"]),
+            "dt" | "dd" => find(&self.open, &["dt", "dd"], &["dl", "table", "td", "th", "caption", "blockquote"]),
+            _ => None,
+        };
+        if let Some(i) = unended {
+            self.close_elements(i);
+        }
+        if BLOCK_TAGS.contains(&name)
+            && !TABLE_PART_TAGS.contains(&name)
+            && let Some(i) = find(&self.open, &["p"], &["table", "td", "th", "caption", "button"])
+        {
+            self.close_elements(i);
+        }
+        if HEADING_TAGS.contains(&name)
+            && self.open.last().is_some_and(|e| HEADING_TAGS.contains(&e.name.as_str()))
+        {
+            self.close_elements(self.open.len() - 1);
+        }
+    }
+
+    /// Close the open elements from the given one on
+    fn close_elements(&mut self, from: usize) {
+        while self.open.len() > from {
+            if !self.is_inside_skip_tag() {
+                let name = self.open[self.open.len() - 1].name.clone();
+                self.finish_element(&name);
+            }
+            self.open.pop();
+        }
     }
 
     fn handle_open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
+        let is_void = VOID_TAGS.contains(&name);
         if self.is_inside_skip_tag() {
+            if !is_void {
+                self.open.push(Element { name: name.to_string(), style: InlineStyle::default() });
+            }
             return;
         }
 
-        // Push style for this element (inherits from parent). Skip void tags.
-        if !VOID_TAGS.contains(&name) {
-            let parent = self.style_stack.last().cloned().unwrap_or_default();
-            let style = if let Some(style_attr) = attrs.iter().find(|(k, _)| k == "style") {
-                parent.merge(&InlineStyle::parse(&style_attr.1))
-            } else {
-                parent
-            };
-            self.style_stack.push(style);
+        self.close_implied_elements(name);
+
+        // A list inside a list item continues the text of the item
+        let is_nested_list = matches!(name, "ul" | "ol" | "li") && self.is_inside(&["li"]);
+        if BLOCK_TAGS.contains(&name) && !is_nested_list {
+            self.end_run();
         }
 
         match name {
-            "h1" => {
-                self.flush_text_buffer();
+            "h1" if !self.is_inside_container() => {
                 self.finalize_current_slide();
+                self.current_slide = Some(SlideContent::new("Slide"));
             }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
-                self.flush_text_buffer();
-            }
-            "p" | "div" | "article" | "section" | "main" | "li" => {}
-            "pre" => {
-                self.in_code = true;
-                self.code_content.clear();
-            }
-            "table" => {
-                self.in_table = true;
+            "pre" if !self.is_inside(&["pre"]) => self.code_content.clear(),
+            "table" if self.table_depth() == 0 => {
                 self.table_rows.clear();
-            }
-            "blockquote" => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+                self.current_row.clear();
             }
             "ul" | "ol" => {
-                self.in_list = true;
-                self.list_items.clear();
-            }
-            "strong" | "b" => {
-                self.text_buffer.push_str("**");
-            }
-            "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = true;
+                if self.is_inside(&["li"]) {
+                    self.list_items.clear();
+                } else {
+                    self.flush_list_items();
+                }
             }
-            "title" => {}
             "img" => {
                 if self.options.include_images {
                     let alt = attrs.iter().find(|(k, _)| k == "alt").map(|(_, v)| v.as_str()).unwrap_or("");
@@ -773,119 +925,115 @@ impl HtmlSlideParser {
                     }
                 }
             }
-            "a" => {
-                // Handle hyperlinks - just mark that we're inside a link
-                // The actual link text will be handled in text processing
-                if let Some(href) = attrs.iter().find(|(k, _)| k == "href").map(|(_, v)| v.as_str()) {
-                    // Store the current href for later use
-                    self.current_href = Some(href.to_string());
-                }
-            }
             "br" => {
-                self.text_buffer.push('\n');
+                if self.is_inside(&["pre"]) {
+                    self.code_content.push('\n');
+                } else {
+                    self.run().text.push('\n');
+                }
             }
-            "hr" => {
-                self.flush_text_buffer();
+            "hr" if !self.is_inside_container() && !self.is_inside(HEADING_TAGS) => {
                 self.finalize_current_slide();
             }
             _ => {}
         }
+
+        // The style of an element adds to that of its parent. Void elements have no content.
+        if !is_void {
+            let parent = self.active_style().cloned().unwrap_or_default();
+            let style = if let Some(style_attr) = attrs.iter().find(|(k, _)| k == "style") {
+                parent.merge(&InlineStyle::parse(&style_attr.1))
+            } else {
+                parent
+            };
+            self.open.push(Element { name: name.to_string(), style });
+        }
     }
 
     fn handle_close_tag(&mut self, name: &str) {
-        if self.is_inside_skip_tag() {
+        let is_scope = |e: &Element| {
+            if TABLE_PART_TAGS.contains(&name) { e.name == "table" } else { SCOPE_TAGS.contains(&e.name.as_str()) }
+        };
+        match self.open.iter().rposition(|e| e.name == name || is_scope(e)) {
+            Some(i) if self.open[i].name == name => self.close_elements(i),
+            _ => {
+                if !self.is_inside_skip_tag() && BLOCK_TAGS.contains(&name) {
+                    self.end_run();
+                }
+            }
+        }
+    }
+
+    /// Take the content of the innermost open element, which ends here
+    fn finish_element(&mut self, name: &str) {
+        if HEADING_TAGS.contains(&name) && !self.is_inside_container() {
+            let text = self.text_run.take();
+            if name == "h1" {
+                self.set_slide_title(&text);
+            } else if !text.is_empty() {
+                self.add_formatted_text(&format!("**{}**", text));
+            }
             return;
         }
 
         match name {
-            "h1" => {
-                let title = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if self.presentation_title.is_none() && !title.is_empty() {
-                    self.presentation_title = Some(title.clone());
-                }
-                let slide_title = if title.is_empty() { "Slide".to_string() } else { title };
-                let mut slide = SlideContent::new(&slide_title);
-                // Apply title-level styles from active style
-                if let Some(s) = self.active_style() {
-                    if let Some(ref c) = s.color { slide = slide.title_color(c); }
-                    if let Some(sz) = s.font_size { slide = slide.title_size(sz); }
-                    if let Some(ref fw) = s.font_weight && is_font_weight_bold(fw) { slide = slide.title_bold(true); }
-                    if let Some(ref fs) = s.font_style && is_font_style_italic(fs) { slide = slide.title_italic(true); }
-                    if let Some(ref td) = s.text_decoration && td.contains("underline") { slide = slide.title_underline(true); }
-                }
-                self.current_slide = Some(slide);
-            }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_formatted_text(&format!("**{}**", text));
-                }
-            }
-            "p" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
-                }
-            }
-            "div" | "article" | "section" | "main" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
-                }
-            }
-            "li" => {
-                let item = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !item.is_empty() {
-                    let item_style = self.active_style().and_then(|s| s.to_bullet_format());
-                    self.list_items.push((item, item_style));
-                }
-            }
-            "ul" | "ol" => {
-                self.flush_list_items();
-                self.in_list = false;
-            }
-            "pre" => {
-                self.in_code = false;
-                self.flush_code_block();
-            }
-            "table" => {
-                self.in_table = false;
-                self.flush_table();
-            }
-            "blockquote" => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
-            }
-            "th" | "td" => {
-                let cell = std::mem::take(&mut self.current_cell).trim().to_string();
+            "td" | "th" if self.table_depth() == 1 => {
+                let cell = self.cell_run.take();
                 self.current_row.push(cell);
+                return;
             }
-            "tr" => {
-                if !self.current_row.is_empty() {
-                    self.table_rows.push(std::mem::take(&mut self.current_row));
-                    self.current_row = Vec::new();
-                }
-            }
-            "strong" | "b" => {
-                self.text_buffer.push_str("**");
+            "strong" | "b" | "em" | "i" => {
+                let style = self.open.pop();
+                let keep = self.marks().len();
+                self.run().close_marks(keep);
+                self.open.extend(style);
+                return;
             }
-            "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = false;
-            }
-            "a" => {
-                // When closing an anchor tag, we have the link text in the buffer
-                // and the href in current_href. For now, we'll just clear the href
-                // since PowerPoint hyperlink support requires more complex XML handling
-                self.current_href = None;
+            _ => {}
+        }
+
+        if BLOCK_TAGS.contains(&name) {
+            self.end_run();
+        }
+
+        let is_outermost = self.open.iter().filter(|e| e.name == name).count() == 1;
+        match name {
+            "ul" | "ol" => self.flush_list_items(),
+            "pre" if is_outermost => self.flush_code_block(),
+            "tr" if self.table_depth() == 1 => self.end_row(),
+            "table" if is_outermost => {
+                self.end_row();
+                self.flush_table();
             }
+            "blockquote" if is_outermost => self.flush_blockquote(),
             _ => {}
         }
+    }
+
+    fn end_row(&mut self) {
+        if !self.current_row.is_empty() {
+            self.table_rows.push(std::mem::take(&mut self.current_row));
+        }
+    }
 
-        // Pop style stack for non-void tags (mirrors push in handle_open_tag)
-        if !VOID_TAGS.contains(&name) {
-            self.style_stack.pop();
+    /// Title the slide that an h1 element opened
+    fn set_slide_title(&mut self, title: &str) {
+        if self.presentation_title.is_none() && !title.is_empty() {
+            self.presentation_title = Some(title.to_string());
         }
+        let mut slide = self.current_slide.take().unwrap_or_else(|| SlideContent::new("Slide"));
+        if !title.is_empty() {
+            slide.title = title.to_string();
+        }
+        // Apply title-level styles from active style
+        if let Some(s) = self.active_style() {
+            if let Some(ref c) = s.color { slide = slide.title_color(c); }
+            if let Some(sz) = s.font_size { slide = slide.title_size(sz); }
+            if let Some(ref fw) = s.font_weight && is_font_weight_bold(fw) { slide = slide.title_bold(true); }
+            if let Some(ref fs) = s.font_style && is_font_style_italic(fs) { slide = slide.title_italic(true); }
+            if let Some(ref td) = s.text_decoration && td.contains("underline") { slide = slide.title_underline(true); }
+        }
+        self.current_slide = Some(slide);
     }
 
     fn handle_text(&mut self, text: &str) {
@@ -893,154 +1041,112 @@ impl HtmlSlideParser {
             return;
         }
 
-        if self.in_code {
+        if self.is_inside(&["pre"]) {
             self.code_content.push_str(text);
-        } else if self.in_table {
-            self.current_cell.push_str(text);
-        } else if self.in_blockquote {
-            self.blockquote_text.push_str(text);
         } else {
-            self.text_buffer.push_str(text);
+            let marks = self.marks();
+            self.run().push(text, &marks);
         }
     }
 
     fn add_formatted_text(&mut self, text: &str) {
+        self.flush_list_items();
         let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
-            }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-        } else {
-            let mut slide = SlideContent::new("Slide");
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
-            }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-            self.current_slide = Some(slide);
-        }
+        self.push_bullet("Slide", text, fmt);
     }
 
     fn add_paragraph(&mut self, text: &str) {
+        self.flush_list_items();
         let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            if slide.content.len() < self.options.max_bullets {
-                let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-                if let Some(ref f) = fmt {
-                    bp = bp.with_format(f.clone());
-                }
-                slide.content.push(text.to_string());
-                slide.bullets.push(bp);
-            }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Overview".to_string());
-            let mut slide = SlideContent::new(&title);
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
-            }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-            self.current_slide = Some(slide);
+        let title = self.default_title("Overview");
+        if self.slide(&title).content.len() < self.options.max_bullets {
+            self.push_bullet(&title, text, fmt);
+        }
+    }
+
+    fn default_title(&self, fallback: &str) -> String {
+        self.presentation_title.clone().unwrap_or_else(|| fallback.to_string())
+    }
+
+    /// The current slide; a new one of the given title where there is none
+    fn slide(&mut self, title: &str) -> &mut SlideContent {
+        self.current_slide.get_or_insert_with(|| SlideContent::new(title))
+    }
+
+    fn push_bullet(&mut self, default_title: &str, text: &str, format: Option<BulletTextFormat>) {
+        let slide = self.slide(default_title);
+        let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
+        if let Some(f) = format {
+            bp = bp.with_format(f);
         }
+        slide.content.push(text.to_string());
+        slide.bullets.push(bp);
     }
 
     fn flush_text_buffer(&mut self) {
-        let text = std::mem::take(&mut self.text_buffer);
-        let trimmed = text.trim().to_string();
-        if !trimmed.is_empty() {
-            self.add_paragraph(&trimmed);
+        let text = self.text_run.take();
+        if !text.is_empty() {
+            self.add_paragraph(&text);
         }
     }
 
     fn flush_list_items(&mut self) {
         let items = std::mem::take(&mut self.list_items);
-        if items.is_empty() {
-            return;
-        }
-
-        if let Some(ref mut slide) = self.current_slide {
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
-            }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Key Points".to_string());
-            let mut slide = SlideContent::new(&title);
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
+        let title = self.default_title("Key Points");
+        for (item, format) in items {
+            if self.slide(&title).content.len() < self.options.max_bullets {
+                self.push_bullet(&title, &item, format);
             }
-            self.current_slide = Some(slide);
         }
     }
 
     fn flush_table(&mut self) {
-        if !self.options.include_tables || self.table_rows.is_empty() {
+        let rows = std::mem::take(&mut self.table_rows);
+        if !self.options.include_tables || rows.is_empty() {
             return;
         }
 
-        let rows = std::mem::take(&mut self.table_rows);
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.table = Some(table);
-            slide.has_table = true;
-        } else {
-            let mut slide = SlideContent::new("Data Table");
-            slide.table = Some(table);
-            slide.has_table = true;
-            self.current_slide = Some(slide);
+        self.flush_list_items();
+        // A slide holds one table; a further one goes on a slide of its own
+        if let Some(slide) = self.current_slide.take_if(|s| s.table.is_some()) {
+            let title = format!("{} (continued)", slide.title);
+            self.slides.push(slide);
+            self.current_slide = Some(SlideContent::new(&title));
         }
+        let slide = self.slide("Data Table");
+        slide.table = Some(table);
+        slide.has_table = true;
     }
 
     fn flush_code_block(&mut self) {
-        if !self.options.include_code || self.code_content.is_empty() {
+        let code = std::mem::take(&mut self.code_content);
+        let code = code.trim_end();
+        // Blank lines before the code go; the indentation of its first line stays
+        let start = code.len() - code.trim_start().len();
+        let start = code[..start].rfind('\n').map_or(0, |i| i + 1);
+        if !self.options.include_code || code.is_empty() {
             return;
         }
 
-        let code = std::mem::take(&mut self.code_content);
-        let code_block = CodeBlock::new(code.trim(), "text");
-
-        if let Some(ref mut slide) = self.current_slide {
-            slide.code_blocks.push(code_block);
-        } else {
-            let mut slide = SlideContent::new("Code");
-            slide.code_blocks.push(code_block);
-            self.current_slide = Some(slide);
-        }
+        let code_block = CodeBlock::new(&code[start..], "text");
+        self.slide("Code").code_blocks.push(code_block);
     }
 
     fn flush_blockquote(&mut self) {
-        let text = std::mem::take(&mut self.blockquote_text).trim().to_string();
+        let text = self.quote_run.take();
         if text.is_empty() {
             return;
         }
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(text);
-        }
+        let title = self.default_title("Overview");
+        self.slide(&title).notes = Some(text);
     }
 
     fn finalize_current_slide(&mut self) {
-        self.flush_text_buffer();
         self.flush_list_items();
+        self.flush_text_buffer();
         if let Some(slide) = self.current_slide.take() {
             self.slides.push(slide);
         }
-- 
2.43.0


From 07db5ba2713b2902edd63fdc18f670bda2921531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:42 +0000
Subject: [PATCH 60/99] fix: an empty svg element does not hide the rest of an
 HTML document

---
 src/import/html.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index b953def..88ab3a3 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -572,6 +572,7 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 attrs.push((attr_name.to_lowercase(), decode_entities(&attr_value)));
             }
 
+            let self_closing = i < len && chars[i - 1] == '/';
             if i < len {
                 i += 1; // skip '>'
             }
@@ -588,7 +589,11 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
             }
 
             if !tag_name.is_empty() {
-                events.push(HtmlEvent::OpenTag { name: tag_name, attrs });
+                let is_empty_svg = self_closing && tag_name == "svg";
+                events.push(HtmlEvent::OpenTag { name: tag_name.clone(), attrs });
+                if is_empty_svg {
+                    events.push(HtmlEvent::CloseTag(tag_name));
+                }
             }
         } else {
             // Text content
-- 
2.43.0


From e5d56eec2cb8806f913d2f145a750ba0f5315f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:45 +0000
Subject: [PATCH 61/99] fix: common HTML character references are decoded

---
 src/import/html.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 88ab3a3..dd896e6 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -137,6 +137,20 @@ fn decode_entities(s: &str) -> String {
                     "quot" => Some('"'),
                     "apos" | "#39" | "#x27" => Some('\''),
                     "nbsp" => Some('\u{00a0}'),
+                    "copy" => Some('\u{00a9}'),
+                    "reg" => Some('\u{00ae}'),
+                    "trade" => Some('\u{2122}'),
+                    "middot" => Some('\u{00b7}'),
+                    "bull" => Some('\u{2022}'),
+                    "hellip" => Some('\u{2026}'),
+                    "ndash" => Some('\u{2013}'),
+                    "mdash" => Some('\u{2014}'),
+                    "lsquo" => Some('\u{2018}'),
+                    "rsquo" => Some('\u{2019}'),
+                    "ldquo" => Some('\u{201c}'),
+                    "rdquo" => Some('\u{201d}'),
+                    "euro" => Some('\u{20ac}'),
+                    "times" => Some('\u{00d7}'),
                     "#x2018" => Some('\u{2018}'),
                     "#x2019" => Some('\u{2019}'),
                     "#x201c" => Some('\u{201c}'),
@@ -144,7 +158,7 @@ fn decode_entities(s: &str) -> String {
                     "#x2014" => Some('\u{2014}'),
                     "#x2013" => Some('\u{2013}'),
                     _ => {
-                        if let Some(hex) = entity.strip_prefix("#x") {
+                        if let Some(hex) = entity.strip_prefix("#x").or_else(|| entity.strip_prefix("#X")) {
                             u32::from_str_radix(hex, 16).ok().and_then(char::from_u32)
                         } else if let Some(num) = entity.strip_prefix('#') {
                             num.parse::<u32>().ok().and_then(char::from_u32)
-- 
2.43.0


From 2000fd590739d9db8bf7be69f00c161d52c3ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:48 +0000
Subject: [PATCH 62/99] fix: navigation and forms end the HTML text before them

---
 src/import/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index dd896e6..086d9d2 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -637,7 +637,7 @@ const SKIP_TAGS: &[&str] = &[
 const BLOCK_TAGS: &[&str] = &[
     "address", "article", "aside", "blockquote", "body", "button", "caption", "center", "dd", "details",
     "dialog", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "h1", "h2", "h3",
-    "h4", "h5", "h6", "header", "hgroup", "hr", "legend", "li", "main", "ol", "option", "p", "pre",
+    "form", "h4", "h5", "h6", "header", "hgroup", "hr", "legend", "li", "main", "nav", "ol", "option", "p", "pre",
     "search", "section", "select", "summary", "table", "tbody", "td", "textarea", "tfoot", "th", "thead", "tr", "ul",
 ];
 
-- 
2.43.0


From 88b61abb1d7fc5deac89f94f9ca29f3a499f648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 63/99] fix: the end of an HTML table closes its open cells

---
 src/import/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 086d9d2..e2f4e32 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -971,7 +971,7 @@ impl HtmlSlideParser {
 
     fn handle_close_tag(&mut self, name: &str) {
         let is_scope = |e: &Element| {
-            if TABLE_PART_TAGS.contains(&name) { e.name == "table" } else { SCOPE_TAGS.contains(&e.name.as_str()) }
+            if name == "table" || TABLE_PART_TAGS.contains(&name) { e.name == "table" } else { SCOPE_TAGS.contains(&e.name.as_str()) }
         };
         match self.open.iter().rposition(|e| e.name == name || is_scope(e)) {
             Some(i) if self.open[i].name == name => self.close_elements(i),
-- 
2.43.0


From 540c5f9eb6f1188777aadc0b4f171afe523b19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 64/99] fix: Markdown export escapes titles, cells, notes and
 code so they read back

---
 src/export/md.rs | 142 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 110 insertions(+), 32 deletions(-)

diff --git a/src/export/md.rs b/src/export/md.rs
index b5f802b..6c69787 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -94,14 +94,14 @@ pub fn export_to_markdown_with_options(
     // YAML frontmatter
     if options.include_frontmatter {
         md.push_str("---\n");
-        md.push_str(&format!("title: \"{}\"\n", escape_yaml(presentation.get_title())));
+        md.push_str(&format!("title: {}\n", escape_yaml(presentation.get_title())));
         md.push_str(&format!("slides: {}\n", presentation.slide_count()));
         md.push_str("generator: ppt-rs\n");
         md.push_str("---\n\n");
     }
 
     // Presentation title as main heading
-    md.push_str(&format!("# {}\n\n", presentation.get_title()));
+    md.push_str(&format!("# {}\n\n", escape_inline(presentation.get_title(), " ")));
 
     // Export each slide
     for (i, slide) in presentation.slides().iter().enumerate() {
@@ -114,15 +114,15 @@ pub fn export_to_markdown_with_options(
 
         // Slide number header
         if options.include_slide_numbers {
-            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_markdown(&slide.title)));
+            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_inline(&slide.title, " ")));
         } else {
-            md.push_str(&format!("## {}\n\n", escape_markdown(&slide.title)));
+            md.push_str(&format!("## {}\n\n", escape_inline(&slide.title, " ")));
         }
 
         // Bullet content
         if !slide.content.is_empty() {
             for item in &slide.content {
-                md.push_str(&format!("- {}\n", escape_markdown(item)));
+                md.push_str(&format!("- {}\n", escape_inline(item, "<br>")));
             }
             md.push('\n');
         }
@@ -140,11 +140,11 @@ pub fn export_to_markdown_with_options(
                 let alt_text = format!("Image {} on slide {}", img_idx + 1, slide_num);
                 // Note: Actual image data would need to be saved separately
                 md.push_str(&format!(
-                    "![{}](images/slide{}_image{}{})\n\n",
+                    "![{}](images/slide{}_image{}.{})\n\n",
                     alt_text,
                     slide_num,
                     img_idx + 1,
-                    image.format.to_lowercase().replace("jpeg", ".jpg").replace("png", ".png")
+                    image_file_extension(&image.format)
                 ));
             }
         }
@@ -152,9 +152,10 @@ pub fn export_to_markdown_with_options(
         // Code blocks
         if !slide.code_blocks.is_empty() {
             for code_block in &slide.code_blocks {
+                let fence = code_fence(&code_block.code);
                 md.push_str(&format!(
-                    "```{lang}\n{code}\n```\n\n",
-                    lang = &code_block.language,
+                    "{fence}{lang}\n{code}\n{fence}\n\n",
+                    lang = escape_info_string(&code_block.language),
                     code = &code_block.code
                 ));
             }
@@ -165,7 +166,11 @@ pub fn export_to_markdown_with_options(
         if options.include_notes && has_notes {
             md.push_str("**Notes:**\n\n");
             if let Some(notes) = &slide.notes {
-                md.push_str(&format!("> {}\n\n", escape_markdown(notes)));
+                for line in text_lines(notes) {
+                    md.push_str(format!("> {}", escape_line(line)).trim_end());
+                    md.push('\n');
+                }
+                md.push('\n');
             }
         }
     }
@@ -173,40 +178,82 @@ pub fn export_to_markdown_with_options(
     Ok(md)
 }
 
+/// File extension of an exported image
+fn image_file_extension(format: &str) -> String {
+    let format: String = format
+        .to_lowercase()
+        .chars()
+        .filter(|c| c.is_alphanumeric())
+        .collect();
+    match format.as_str() {
+        "jpeg" => "jpg".to_string(),
+        _ => format,
+    }
+}
+
 /// Export a table to GitHub Flavored Markdown format
 fn export_table_to_gfm(table: &crate::generator::Table) -> String {
     let mut md = String::new();
 
-    // Header row
-    if let Some(first_row) = table.rows.first() {
+    // Readers drop cells beyond the header row's, so every row is made as
+    // wide as the widest row.
+    let columns = table.rows.iter().map(|row| row.cells.len()).max().unwrap_or(0);
+    if columns == 0 {
+        return md;
+    }
+
+    for (i, row) in table.rows.iter().enumerate() {
         md.push_str("| ");
-        for cell in &first_row.cells {
-            md.push_str(&escape_markdown(&cell.text));
+        for cell in &row.cells {
+            md.push_str(&escape_inline(&cell.text, "<br>"));
             md.push_str(" | ");
         }
-        md.push('\n');
 
-        // Separator
-        md.push('|');
-        for _ in &first_row.cells {
-            md.push_str(" --- |");
+        for _ in row.cells.len()..columns {
+            md.push_str(" | ");
         }
-        md.push('\n');
 
-        // Data rows
-        for row in table.rows.iter().skip(1) {
-            md.push_str("| ");
-            for cell in &row.cells {
-                md.push_str(&escape_markdown(&cell.text));
-                md.push_str(" | ");
+        if i == 0 {
+            // Separator
+            md.push_str("\n|");
+            for _ in 0..columns {
+                md.push_str(" --- |");
             }
-            md.push('\n');
         }
+        md.push('\n');
     }
 
     md
 }
 
+/// The lines of a text, whichever line ending it uses
+fn text_lines(text: &str) -> Vec<&str> {
+    text.split('\n')
+        .flat_map(|line| line.strip_suffix('\r').unwrap_or(line).split('\r'))
+        .collect()
+}
+
+/// Escape a text that has to stay on one line of Markdown
+fn escape_inline(text: &str, line_break: &str) -> String {
+    let lines: Vec<String> = text_lines(text.trim()).into_iter().map(escape_line).collect();
+    lines.join(line_break)
+}
+
+/// Escape one line of text, including what is special where a line starts
+fn escape_line(line: &str) -> String {
+    let line = line.trim();
+    let digits = line.chars().take_while(|c| c.is_ascii_digit()).count();
+    if digits > 0 && line[digits..].starts_with(['.', ')']) {
+        // Would start a numbered list
+        return format!("{}\\{}", &line[..digits], escape_markdown(&line[digits..]));
+    }
+    if line.starts_with(['-', '+', '=', ':']) {
+        // Would start a list, a heading underline or a table separator
+        return format!("\\{}", escape_markdown(line));
+    }
+    escape_markdown(line)
+}
+
 /// Escape special Markdown characters
 fn escape_markdown(text: &str) -> String {
     text.replace('\\', "\\\\")
@@ -218,15 +265,46 @@ fn escape_markdown(text: &str) -> String {
         .replace('#', "\\#")
         .replace('<', "\\<")
         .replace('>', "\\>")
+        .replace('|', "\\|")
+        .replace('~', "\\~")
+        .replace('&', "\\&")
+}
+
+/// A fence that does not occur in the code it encloses
+fn code_fence(code: &str) -> String {
+    let mut longest = 0;
+    let mut run = 0;
+    for c in code.chars() {
+        run = if c == '`' { run + 1 } else { 0 };
+        longest = longest.max(run);
+    }
+    "`".repeat(3.max(longest + 1))
+}
+
+/// Escape the language written after a code fence
+fn escape_info_string(language: &str) -> String {
+    let mut out = String::new();
+    for c in language.trim().chars() {
+        match c {
+            '\\' => out.push_str("\\\\"),
+            '&' => out.push_str("&amp;"),
+            '`' => out.push_str("&#96;"),
+            '\n' | '\r' => out.push(' '),
+            _ => out.push(c),
+        }
+    }
+    out
 }
 
-/// Escape special YAML characters in frontmatter
+/// A text as a YAML scalar for the frontmatter
 fn escape_yaml(text: &str) -> String {
-    if text.contains('\n') || text.contains('"') || text.contains('\\') {
-        // Use literal block scalar for multiline or complex strings
-        format!("|\n  {}", text.replace('\n', "\n  "))
+    let lines = text_lines(text.trim());
+    if lines.len() > 1 {
+        // Literal block scalar
+        let block: String = lines.iter().map(|line| format!("\n  {}", line)).collect();
+        format!("|2-{}", block)
     } else {
-        text.replace('"', "\\\"").replace('\\', "\\\\")
+        format!("\"{}\"", lines[0].replace('\\', "\\\\").replace('"', "\\\""))
     }
 }
 
-- 
2.43.0


From 66325f5c6dddde325e54289c93d91444d137aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 65/99] fix: HTML export escapes titles, bullets, languages and
 file names

---
 src/export/html.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index 8aad9a2..f75fa10 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -69,7 +69,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
     html.push_str("<!DOCTYPE html>\n<html>\n<head>\n");
     html.push_str("<meta charset=\"UTF-8\">\n");
     html.push_str("<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n");
-    html.push_str(&format!("<title>{}</title>\n", presentation.get_title()));
+    html.push_str(&format!("<title>{}</title>\n", escape_html(presentation.get_title())));
 
     // Enhanced CSS
     html.push_str("<style>\n");
@@ -97,7 +97,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
 
     // Title Slide (Presentation Title)
     html.push_str("<div class=\"slide title-slide\" data-slide=\"0\">\n");
-    html.push_str(&format!("<h1>{}</h1>\n", presentation.get_title()));
+    html.push_str(&format!("<h1>{}</h1>\n", escape_html(presentation.get_title())));
     html.push_str("</div>\n");
 
     // Slides
@@ -128,7 +128,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     html.push_str(&format!("<div class=\"slide-number\">{}</div>\n", index));
 
     // Title
-    html.push_str(&format!("<h2>{}</h2>\n", slide.title));
+    html.push_str(&format!("<h2>{}</h2>\n", escape_html(&slide.title)));
 
     // Content Container
     html.push_str("<div class=\"content\">\n");
@@ -137,7 +137,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     if !slide.content.is_empty() {
         html.push_str("<ul>\n");
         for item in &slide.content {
-            html.push_str(&format!("<li>{}</li>\n", item));
+            html.push_str(&format!("<li>{}</li>\n", escape_html(item)));
         }
         html.push_str("</ul>\n");
     }
@@ -157,7 +157,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     // Code Blocks
     for code in &slide.code_blocks {
         if options.syntax_highlight {
-            html.push_str(&format!("<pre><code class=\"language-{}\">", code.language));
+            html.push_str(&format!("<pre><code class=\"language-{}\">", escape_html(&code.language)));
         } else {
             html.push_str("<pre><code>");
         }
@@ -222,14 +222,14 @@ fn render_image_with_options(image: &Image, options: &HtmlExportOptions) -> Opti
 
         Some(format!(
             "<div class=\"image-container\"><img src=\"{}\" alt=\"{}\" /></div>\n",
-            filepath, image.filename
+            escape_html(&filepath), escape_html(&image.filename)
         ))
     } else {
         // Use base64 encoding
         let b64 = base64_encode(&bytes);
         Some(format!(
             "<div class=\"image-container\"><img src=\"data:{};base64,{}\" alt=\"{}\" /></div>\n",
-            mime, b64, image.filename
+            mime, b64, escape_html(&image.filename)
         ))
     }
 }
-- 
2.43.0


From 18ec832d21915900b3a5f70161e7269629d8a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 66/99] fix: HTML export shows the cells of tables

---
 src/export/html.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index f75fa10..15b3979 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -178,16 +178,31 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
 }
 
 /// Render a table as HTML
-fn render_table_html(_table: &crate::generator::Table) -> String {
+fn render_table_html(table: &crate::generator::Table) -> String {
     let mut html = String::new();
     html.push_str("<table class=\"ppt-table\">\n");
-
-    // Render rows (assuming table has row data structure)
-    // This is a simplified version - you may need to adapt based on actual Table structure
     html.push_str("<tbody>\n");
-    html.push_str("<tr><td>Table content</td></tr>\n"); // Placeholder
-    html.push_str("</tbody>\n");
 
+    for row in &table.rows {
+        html.push_str("<tr>");
+        for cell in &row.cells {
+            // Covered by a merged cell
+            if cell.h_merge || cell.v_merge {
+                continue;
+            }
+            html.push_str("<td");
+            if let Some(span) = cell.grid_span.filter(|&n| n > 1) {
+                html.push_str(&format!(" colspan=\"{}\"", span));
+            }
+            if let Some(span) = cell.row_span.filter(|&n| n > 1) {
+                html.push_str(&format!(" rowspan=\"{}\"", span));
+            }
+            html.push_str(&format!(">{}</td>", escape_html(&cell.text)));
+        }
+        html.push_str("</tr>\n");
+    }
+
+    html.push_str("</tbody>\n");
     html.push_str("</table>\n");
     html
 }
-- 
2.43.0


From 4d510e7daec0cd91a64924c930d2c299bc96e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:02 +0000
Subject: [PATCH 67/99] fix: exports show slides whose bullets are only styled
 bullets

---
 src/export/html.rs |  5 +++--
 src/export/md.rs   |  5 +++--
 src/export/mod.rs  | 10 ++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index 15b3979..bb3458f 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -134,9 +134,10 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     html.push_str("<div class=\"content\">\n");
 
     // Bullets / Content
-    if !slide.content.is_empty() {
+    let bullets = super::bullet_texts(slide);
+    if !bullets.is_empty() {
         html.push_str("<ul>\n");
-        for item in &slide.content {
+        for item in bullets {
             html.push_str(&format!("<li>{}</li>\n", escape_html(item)));
         }
         html.push_str("</ul>\n");
diff --git a/src/export/md.rs b/src/export/md.rs
index 6c69787..3a06052 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -120,8 +120,9 @@ pub fn export_to_markdown_with_options(
         }
 
         // Bullet content
-        if !slide.content.is_empty() {
-            for item in &slide.content {
+        let bullets = super::bullet_texts(slide);
+        if !bullets.is_empty() {
+            for item in bullets {
                 md.push_str(&format!("- {}\n", escape_inline(item, "<br>")));
             }
             md.push('\n');
diff --git a/src/export/mod.rs b/src/export/mod.rs
index 2408105..36f29d0 100644
--- a/src/export/mod.rs
+++ b/src/export/mod.rs
@@ -21,3 +21,13 @@ pub use pdf_export::{
     export_to_pdf, export_to_pdf_bytes,
     PdfExportOptions, PdfOrientation,
 };
+
+/// The texts of a slide's bullets: its styled bullets if it has any, as on the
+/// generated slide, otherwise its plain content lines
+fn bullet_texts(slide: &crate::generator::SlideContent) -> Vec<&str> {
+    if slide.bullets.is_empty() {
+        slide.content.iter().map(String::as_str).collect()
+    } else {
+        slide.bullets.iter().map(|bullet| bullet.text.as_str()).collect()
+    }
+}
-- 
2.43.0


From 4732d8421f4df8b414d30befcf86151ee7b83aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 68/99] fix: XML nested beyond sense is refused instead of
 hanging or overflowing; a second document element is refused

---
 src/core/validation.rs | 21 ++++++++++++++++++++-
 src/oxml/xmlchemy.rs   | 13 +++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/core/validation.rs b/src/core/validation.rs
index 4aafb32..d5d3b02 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -105,8 +105,27 @@ pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
+    let mut depth = 0usize;
+    let mut roots = 0usize;
     for event in xml::reader::EventReader::new(trimmed.as_bytes()) {
-        event.map_err(|e| PptxError::InvalidXml(e.to_string()))?;
+        match event.map_err(|e| PptxError::InvalidXml(e.to_string()))? {
+            xml::reader::XmlEvent::StartElement { .. } => {
+                roots += usize::from(depth == 0);
+                depth += 1;
+            }
+            xml::reader::XmlEvent::EndElement { .. } => depth -= 1,
+            _ => {}
+        }
+        if depth > crate::oxml::xmlchemy::MAX_XML_DEPTH {
+            return Err(PptxError::InvalidXml(
+                "Elements are nested too deeply".to_string(),
+            ));
+        }
+        if roots > 1 {
+            return Err(PptxError::InvalidXml(
+                "Content after the document element".to_string(),
+            ));
+        }
     }
 
     Ok(())
diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 19f4d44..f862af6 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -123,6 +123,9 @@ impl XmlElement {
     }
 }
 
+/// Deepest element nesting that is read; Office XML stays far below it.
+pub const MAX_XML_DEPTH: usize = 512;
+
 /// XML Parser for Office XML documents
 pub struct XmlParser;
 
@@ -145,6 +148,16 @@ impl XmlParser {
                     attributes,
                     namespace,
                 }) => {
+                    if root.is_some() {
+                        return Err(PptxError::XmlParse(
+                            "Content after the document element".to_string(),
+                        ));
+                    }
+                    if stack.len() >= MAX_XML_DEPTH {
+                        return Err(PptxError::XmlParse(
+                            "Elements are nested too deeply".to_string(),
+                        ));
+                    }
                     let tag = if let Some(ref prefix) = name.prefix {
                         format!("{}:{}", prefix, name.local_name)
                     } else {
-- 
2.43.0


From d49e3387ced903557e5d533e7660718231104bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 69/99] fix: characters XML cannot contain are left out of
 generated parts

---
 src/core/xml_utils.rs                         | 24 ++++++++++++-------
 src/generator/presentation_theme.rs           |  4 +---
 src/generator/props_xml.rs                    | 13 +---------
 src/generator/slide_content/comments.rs       |  6 +----
 .../slide_content/digital_signature.rs        |  6 +----
 src/generator/slide_content/embedded_fonts.rs |  6 +----
 src/generator/slide_content/print_settings.rs |  6 +----
 src/generator/slide_content/sections.rs       |  6 +----
 src/parts/coreprops.rs                        |  6 +----
 9 files changed, 23 insertions(+), 54 deletions(-)

diff --git a/src/core/xml_utils.rs b/src/core/xml_utils.rs
index f567516..c5d6a9a 100644
--- a/src/core/xml_utils.rs
+++ b/src/core/xml_utils.rs
@@ -4,13 +4,20 @@
 
 use std::fmt::Write;
 
-/// Escape special XML characters in a single pass.
+/// Whether a character needs care: markup, or not allowed in XML at all.
+fn is_special(c: char) -> bool {
+    matches!(c, '&' | '<' | '>' | '"' | '\'') || is_forbidden(c)
+}
+
+/// Characters that XML 1.0 documents cannot contain in any form.
+fn is_forbidden(c: char) -> bool {
+    matches!(c, '\0'..='\u{8}' | '\u{B}' | '\u{C}' | '\u{E}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}')
+}
+
+/// Escape special XML characters in a single pass; characters XML cannot contain are left out.
 pub fn escape_xml(s: &str) -> String {
     // Fast path: most strings need no escaping.
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
+    if !s.chars().any(is_special) {
         return s.to_string();
     }
 
@@ -22,6 +29,7 @@ pub fn escape_xml(s: &str) -> String {
             '>' => out.push_str("&gt;"),
             '"' => out.push_str("&quot;"),
             '\'' => out.push_str("&apos;"),
+            c if is_forbidden(c) => {}
             _ => out.push(c),
         }
     }
@@ -30,10 +38,7 @@ pub fn escape_xml(s: &str) -> String {
 
 /// Append escaped XML text into an existing buffer (avoids intermediate String).
 pub fn append_escape_xml(buf: &mut String, s: &str) {
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
+    if !s.chars().any(is_special) {
         buf.push_str(s);
         return;
     }
@@ -44,6 +49,7 @@ pub fn append_escape_xml(buf: &mut String, s: &str) {
             '>' => buf.push_str("&gt;"),
             '"' => buf.push_str("&quot;"),
             '\'' => buf.push_str("&apos;"),
+            c if is_forbidden(c) => {}
             _ => buf.push(c),
         }
     }
diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 4a4f4cc..315174c 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -305,9 +305,7 @@ fn normalize_hex(hex: &str) -> String {
 }
 
 fn escape_xml_attr(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('"', "&quot;")
-        .replace('<', "&lt;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 17c770c..28c6f65 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -55,18 +55,7 @@ pub fn create_core_props_xml(title: &str) -> String {
 
 /// Escape a string for use in XML text content / attribute values.
 fn xml_escape(s: &str) -> String {
-    let mut out = String::with_capacity(s.len());
-    for c in s.chars() {
-        match c {
-            '&' => out.push_str("&amp;"),
-            '<' => out.push_str("&lt;"),
-            '>' => out.push_str("&gt;"),
-            '"' => out.push_str("&quot;"),
-            '\'' => out.push_str("&apos;"),
-            _ => out.push(c),
-        }
-    }
-    out
+    crate::core::escape_xml(s)
 }
 
 /// Build the `<HeadingPairs>` and `<TitlesOfParts>` elements.
diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 5dd86a2..9ced733 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -218,11 +218,7 @@ impl SlideComments {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index 4cfe8c6..3f187f4 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -184,11 +184,7 @@ impl DigitalSignature {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 1367426..c466441 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -292,11 +292,7 @@ impl EmbeddedFontList {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/print_settings.rs b/src/generator/slide_content/print_settings.rs
index c19576d..081121a 100644
--- a/src/generator/slide_content/print_settings.rs
+++ b/src/generator/slide_content/print_settings.rs
@@ -232,11 +232,7 @@ impl PrintSettings {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0d7be09..9e6f759 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -182,11 +182,7 @@ fn generate_section_id(name: &str) -> String {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 76bf8ba..c2e8c6f 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -110,11 +110,7 @@ impl CorePropertiesPart {
     }
 
     fn escape_xml(s: &str) -> String {
-        s.replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;")
-            .replace('"', "&quot;")
-            .replace('\'', "&apos;")
+        crate::core::escape_xml(s)
     }
 }
 
-- 
2.43.0


From f015c7a2b83def06f1467f67fc019fa2b319c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 70/99] fix: colours given as non-ASCII text do not panic

---
 src/elements/color.rs       | 2 +-
 src/export/slide_render.rs  | 2 +-
 src/generator/shapes_xml.rs | 2 +-
 src/helpers/colors.rs       | 4 ++--
 src/helpers/mod.rs          | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/elements/color.rs b/src/elements/color.rs
index 3216b85..81b0b85 100644
--- a/src/elements/color.rs
+++ b/src/elements/color.rs
@@ -21,7 +21,7 @@ impl RgbColor {
     /// Parse from hex string (e.g., "FF0000" or "#FF0000")
     pub fn from_hex(hex: &str) -> Option<Self> {
         let hex = hex.trim_start_matches('#');
-        if hex.len() != 6 {
+        if hex.len() != 6 || !hex.is_ascii() {
             return None;
         }
         let r = u8::from_str_radix(&hex[0..2], 16).ok()?;
diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 9e4bb57..234f13a 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -63,7 +63,7 @@ fn font_name(bold: bool, italic: bool) -> &'static str {
 
 fn hex_to_rgb(hex: &str) -> (f32, f32, f32) {
     let h = hex.trim_start_matches('#');
-    if h.len() == 6 {
+    if h.len() == 6 && h.is_ascii() {
         let r = u8::from_str_radix(&h[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&h[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&h[4..6], 16).unwrap_or(0);
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 34ecae7..520603f 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -313,7 +313,7 @@ fn estimate_wrapped_lines(_text: &str, lines: &[&str]) -> (f64, f64) {
 /// Calculate if a color is dark (needs white text) or light (needs black text)
 fn is_dark_color(hex_color: &str) -> bool {
     let hex = hex_color.trim_start_matches('#');
-    if hex.len() < 6 {
+    if hex.len() < 6 || !hex.is_ascii() {
         return false; // Default to light
     }
     
diff --git a/src/helpers/colors.rs b/src/helpers/colors.rs
index 95c0989..6441f46 100644
--- a/src/helpers/colors.rs
+++ b/src/helpers/colors.rs
@@ -31,12 +31,12 @@ impl ColorValue {
     /// Create a color from a hex string (with or without #)
     pub fn from_hex(hex: &str) -> Self {
         let hex = hex.trim_start_matches('#');
-        if hex.len() == 6 {
+        if hex.len() == 6 && hex.is_ascii() {
             let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
             let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
             let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
             Self::rgb(r, g, b)
-        } else if hex.len() == 8 {
+        } else if hex.len() == 8 && hex.is_ascii() {
             let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
             let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
             let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
diff --git a/src/helpers/mod.rs b/src/helpers/mod.rs
index 50a7bff..4c6babf 100644
--- a/src/helpers/mod.rs
+++ b/src/helpers/mod.rs
@@ -229,7 +229,7 @@ pub fn rgb(r: u8, g: u8, b: u8) -> Color {
 /// ```
 pub fn hex(color: &str) -> Color {
     let color = color.trim_start_matches('#');
-    if color.len() == 6 {
+    if color.len() == 6 && color.is_ascii() {
         let r = u8::from_str_radix(&color[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&color[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&color[4..6], 16).unwrap_or(0);
-- 
2.43.0


From a22a033dd1cfcf42a4be372a5208d6ce74a7e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 71/99] fix: detecting the format of a picture of four or five
 bytes does not panic

---
 src/generator/images.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1059aca..2cd3603 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -482,7 +482,7 @@ impl ImageBuilder {
                 "PNG"
             } else if data.len() >= 2 && &data[0..2] == b"\xFF\xD8" {
                 "JPEG"
-            } else if data.len() >= 6 && &data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a" {
+            } else if data.starts_with(b"GIF89a") || data.starts_with(b"GIF87a") {
                 "GIF"
             } else {
                 "PNG" // default
-- 
2.43.0


From 8b03ae6d024cc04a52919e88fa29e51d76954319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 72/99] fix: bullets nested deeper than a presentation allows
 get the deepest level

---
 src/generator/layouts/common.rs       | 3 ++-
 src/generator/slide_content/bullet.rs | 4 ++++
 src/generator/slide_content/mod.rs    | 2 +-
 src/generator/slide_xml/layouts.rs    | 9 +++++----
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 9d79eaa..dbcbe22 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -4,7 +4,7 @@ use crate::core::XmlWriter;
 use crate::generator::constants::{
     SLIDE_WIDTH, SLIDE_HEIGHT,
 };
-use crate::generator::slide_content::BulletStyle;
+use crate::generator::slide_content::{BulletStyle, MAX_BULLET_LEVEL};
 
 /// XML declaration and namespaces
 pub const XML_DECL: &str = r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>"#;
@@ -263,6 +263,7 @@ impl SlideXmlBuilder {
     
     /// Add bullet paragraph with specific style
     pub fn add_bullet_with_style(mut self, text: &str, props: &str, level: u32, style: BulletStyle) -> Self {
+        let level = level.min(MAX_BULLET_LEVEL);
         let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
         let margin_left = level * 457200 + indent;
         let bullet_xml = style.to_xml();
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index fee4b9d..b794df9 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -43,6 +43,7 @@ impl BulletStyle {
     
     /// Get the OOXML indent level XML
     pub fn indent_xml(&self, level: u32) -> String {
+        let level = level.min(MAX_BULLET_LEVEL);
         let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
         let margin_left = level * 457200;
         format!(r#"indent="-{}" marL="{}""#, indent, margin_left + indent)
@@ -128,6 +129,9 @@ impl BulletTextFormat {
     }
 }
 
+/// Deepest list level of a presentation (levels count from 0).
+pub const MAX_BULLET_LEVEL: u32 = 8;
+
 /// A bullet point with optional style and formatting
 #[derive(Clone, Debug)]
 pub struct BulletPoint {
diff --git a/src/generator/slide_content/mod.rs b/src/generator/slide_content/mod.rs
index 4081347..caf8fdb 100644
--- a/src/generator/slide_content/mod.rs
+++ b/src/generator/slide_content/mod.rs
@@ -23,7 +23,7 @@ pub mod table_merge;
 pub mod embedded_fonts;
 pub mod presentation_settings;
 
-pub use bullet::{BulletStyle, BulletPoint, BulletTextFormat};
+pub use bullet::{BulletStyle, BulletPoint, BulletTextFormat, MAX_BULLET_LEVEL};
 pub use layout::SlideLayout;
 pub use code_block::CodeBlock;
 pub use content::SlideContent;
diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 1feb0fd..47c05eb 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -1,6 +1,6 @@
 //! Slide layout implementations
 
-use crate::generator::slide_content::{SlideContent, BulletPoint, BulletTextFormat};
+use crate::generator::slide_content::{SlideContent, BulletPoint, BulletTextFormat, MAX_BULLET_LEVEL};
 use crate::core::escape_xml;
 use crate::generator::slide::formatting::generate_text_props;
 use super::common::{SLIDE_HEADER, SLIDE_FOOTER, generate_title_shape};
@@ -36,8 +36,9 @@ fn generate_bullet_paragraph_from_point(
     bullet: &BulletPoint,
     default_props: &ExtendedTextProps,
 ) -> String {
-    let indent = 457200 + (bullet.level * 457200);
-    let margin_left = bullet.level * 457200 + indent;
+    let level = bullet.level.min(MAX_BULLET_LEVEL);
+    let indent = 457200 + (level * 457200);
+    let margin_left = level * 457200 + indent;
     let bullet_xml = bullet.style.to_xml();
     let text_props = generate_bullet_text_props(default_props, bullet.format.as_ref());
     
@@ -52,7 +53,7 @@ fn generate_bullet_paragraph_from_point(
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
-        bullet.level, margin_left, indent, bullet_xml, text_props, escape_xml(&bullet.text)
+        level, margin_left, indent, bullet_xml, text_props, escape_xml(&bullet.text)
     )
 }
 
-- 
2.43.0


From 233900feeb9abef70f80e29cefcbefcbb596b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 73/99] fix: deeply nested HTML is converted in linear time

---
 src/import/html.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index e2f4e32..a8c54d3 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -649,6 +649,9 @@ const TABLE_PART_TAGS: &[&str] = &["caption", "colgroup", "tbody", "td", "tfoot"
 /// Elements that closing tags inside them do not reach out of
 const SCOPE_TAGS: &[&str] = &["table", "td", "th", "caption"];
 
+/// Deepest nesting of elements that is followed (as in browsers)
+const MAX_NESTING: usize = 512;
+
 /// An open element
 struct Element {
     name: String,
@@ -887,11 +890,18 @@ impl HtmlSlideParser {
         }
     }
 
+    /// Remember an open element; what is nested too deeply belongs to its parent
+    fn push_element(&mut self, name: &str, style: InlineStyle) {
+        if self.open.len() < MAX_NESTING {
+            self.open.push(Element { name: name.to_string(), style });
+        }
+    }
+
     fn handle_open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
         let is_void = VOID_TAGS.contains(&name);
         if self.is_inside_skip_tag() {
             if !is_void {
-                self.open.push(Element { name: name.to_string(), style: InlineStyle::default() });
+                self.push_element(name, InlineStyle::default());
             }
             return;
         }
@@ -965,7 +975,7 @@ impl HtmlSlideParser {
             } else {
                 parent
             };
-            self.open.push(Element { name: name.to_string(), style });
+            self.push_element(name, style);
         }
     }
 
-- 
2.43.0


From 395c9abcc6a99f96a454d807ca93796150f8d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 74/99] fix: the editor refuses slide indices beyond the last
 slide

---
 src/oxml/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 5162159..61a0222 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -49,6 +49,10 @@ impl PresentationEditor {
 
     /// Get a parsed slide by index (0-based)
     pub fn get_slide(&self, index: usize) -> Result<ParsedSlide, PptxError> {
+        if index >= self.slide_count {
+            return Err(PptxError::NotFound(messages::slide_not_found(index)));
+        }
+
         let slide_num = index + 1;
         let path = format!("ppt/slides/slide{slide_num}.xml");
         let xml = self
-- 
2.43.0


From 54fcb2d846936e994a821e18dc463244d51dbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:03 +0000
Subject: [PATCH 75/99] fix: slides are read in the order of the slide list

---
 src/oxml/presentation.rs | 86 +++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 26a784d..e37a2c2 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -6,6 +6,7 @@ use super::slide::{ParsedSlide, SlideParser};
 use super::xmlchemy::XmlParser;
 use crate::exc::{messages, PptxError};
 use crate::opc::Package;
+use std::collections::HashMap;
 
 /// Parsed presentation metadata
 #[derive(Debug, Clone)]
@@ -152,37 +153,7 @@ impl PresentationReader {
     }
 
     fn parse_presentation_xml(&mut self) -> Result<(), PptxError> {
-        // First, find slide references from presentation.xml.rels
-        if let Some(rels_xml) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_xml);
-            if let Ok(root) = XmlParser::parse_str(&xml_str) {
-                let mut slide_rels: Vec<(String, String)> = Vec::new();
-
-                for rel in root.find_all("Relationship") {
-                    let rel_type = rel.attr("Type").unwrap_or("");
-                    if rel_type.contains("/slide")
-                        && !rel_type.contains("Layout")
-                        && !rel_type.contains("Master")
-                        && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target")) {
-                            let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                                stripped.to_string()
-                            } else {
-                                format!("ppt/{target}")
-                            };
-                            slide_rels.push((id.to_string(), full_path));
-                        }
-                }
-
-                // Sort by relationship ID to maintain slide order
-                slide_rels.sort_by(|a, b| {
-                    let num_a: u32 = a.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    let num_b: u32 = b.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    num_a.cmp(&num_b)
-                });
-
-                self.slide_paths = slide_rels.into_iter().map(|(_, path)| path).collect();
-            }
-        }
+        self.slide_paths = slide_paths(&self.package);
 
         // Fallback: scan for slide files
         if self.slide_paths.is_empty() {
@@ -203,6 +174,59 @@ impl PresentationReader {
     }
 }
 
+/// Slide parts in the order of the presentation's slide list; where the list cannot
+/// be used, in the order of the numbers of their relationship ids.
+pub(crate) fn slide_paths(package: &Package) -> Vec<String> {
+    let parse = |part: &str| {
+        let xml = package.get_part(part)?;
+        XmlParser::parse_str(&String::from_utf8_lossy(xml)).ok()
+    };
+    let Some(rels) = parse("ppt/_rels/presentation.xml.rels") else {
+        return Vec::new();
+    };
+
+    let mut slide_rels: Vec<(String, String)> = Vec::new();
+    for rel in rels.find_all("Relationship") {
+        let rel_type = rel.attr("Type").unwrap_or("");
+        if rel_type.contains("/slide")
+            && !rel_type.contains("Layout")
+            && !rel_type.contains("Master")
+            && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target")) {
+                let full_path = if let Some(stripped) = target.strip_prefix('/') {
+                    stripped.to_string()
+                } else {
+                    format!("ppt/{target}")
+                };
+                slide_rels.push((id.to_string(), full_path));
+            }
+    }
+
+    if let Some(list) = parse("ppt/presentation.xml")
+        .as_ref()
+        .and_then(|root| root.find_descendant("sldIdLst"))
+    {
+        let by_id: HashMap<&str, &str> = slide_rels
+            .iter()
+            .map(|(id, path)| (id.as_str(), path.as_str()))
+            .collect();
+        let listed: Option<Vec<String>> = list
+            .find_all("sldId")
+            .into_iter()
+            .map(|entry| {
+                let (_, id) = entry.attributes.iter().find(|(name, _)| name.ends_with(":id"))?;
+                by_id.get(id.as_str()).map(|path| path.to_string())
+            })
+            .collect();
+        if let Some(listed) = listed.filter(|l| !l.is_empty()) {
+            return listed;
+        }
+    }
+
+    // Sort by relationship ID to maintain slide order
+    slide_rels.sort_by_key(|(id, _)| id.trim_start_matches("rId").parse::<u32>().unwrap_or(0));
+    slide_rels.into_iter().map(|(_, path)| path).collect()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From cebf4dd57f7f8efddc12bcb948bb356f81824bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:03 +0000
Subject: [PATCH 76/99] fix: the editor numbers slide parts as the slide list
 has them, and reads relationships however they are quoted

---
 src/oxml/editor.rs | 143 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 108 insertions(+), 35 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 61a0222..1c1f644 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -6,6 +6,7 @@
 //! - Remove slides
 //! - Modify presentation properties
 
+use super::presentation::slide_paths;
 use super::slide::{ParsedSlide, SlideParser};
 use super::xmlchemy::{XmlElement, XmlParser};
 use crate::core::escape_xml;
@@ -15,6 +16,7 @@ use crate::generator::package_xml::slide_id_value;
 use crate::generator::package_xml::create_slide_rels_xml_with_images;
 use crate::generator::slide_xml::create_slide_xml_with_content;
 use crate::opc::Package;
+use std::collections::HashSet;
 
 /// Presentation editor for modifying PPTX files
 pub struct PresentationEditor {
@@ -28,10 +30,12 @@ impl PresentationEditor {
         let package = Package::open(path)?;
         let slide_count = Self::count_slides(&package);
 
-        Ok(PresentationEditor {
+        let mut editor = PresentationEditor {
             package,
             slide_count,
-        })
+        };
+        editor.number_slides()?;
+        Ok(editor)
     }
 
     /// Create a new presentation for editing
@@ -109,21 +113,8 @@ impl PresentationEditor {
 
         let slide_num = index + 1;
 
-        // Remove slide file
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        self.package.remove_part(&slide_path);
-
-        // Remove slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-        let rels = self.package.remove_part(&rels_path).unwrap_or_default();
-
-        // Nothing may refer to the removed slide any more.
-        if let Some(notes) = Self::notes_file(&String::from_utf8_lossy(&rels)) {
-            self.package.remove_part(&format!("ppt/notesSlides/{notes}"));
-            self.package
-                .remove_part(&format!("ppt/notesSlides/_rels/{notes}.rels"));
-        }
-        self.unlink_slide(&format!("slide{slide_num}"))?;
+        // Remove the slide and what belongs to it
+        self.drop_slide(&format!("slide{slide_num}"))?;
 
         // Renumber remaining slides
         for i in (slide_num + 1)..=self.slide_count {
@@ -181,13 +172,17 @@ impl PresentationEditor {
                     &notes_rels,
                     &format!("slide{slide_num}"),
                     &format!("slide{new_num}"),
-                );
+                )
+                .unwrap_or(notes_rels);
                 self.package.add_part(
                     format!("ppt/notesSlides/_rels/{new_notes}.rels"),
                     notes_rels.into_bytes(),
                 );
             }
-            rels = rels.replace(&format!("/{notes}\""), &format!("/{new_notes}\""));
+            rels = Self::retarget(&rels, &notes, &new_notes, |rel| {
+                rel.attr("Type").is_some_and(|t| t.ends_with("/notesSlide"))
+            })
+            .unwrap_or(rels);
         }
 
         // Insert duplicate at the newly vacated position.
@@ -298,6 +293,62 @@ impl PresentationEditor {
             .count()
     }
 
+    /// Bring the slide parts in line with the slide list: `slide1.xml` is the first slide
+    /// listed, and so on. Parts that no slide list mentions are dropped.
+    fn number_slides(&mut self) -> Result<(), PptxError> {
+        let listed = slide_paths(&self.package);
+        let stems: Option<Vec<String>> = listed
+            .iter()
+            .map(|path| {
+                let stem = path.strip_prefix("ppt/slides/")?.strip_suffix(".xml")?;
+                (!stem.contains('/') && self.package.has_part(path)).then(|| stem.to_string())
+            })
+            .collect();
+        let distinct: HashSet<&String> = listed.iter().collect();
+        let Some(stems) = stems.filter(|s| !s.is_empty() && s.len() == distinct.len()) else {
+            return Ok(());
+        };
+        let numbered = |(i, stem): (usize, &String)| *stem == format!("slide{}", i + 1);
+        if stems.len() == self.slide_count && stems.iter().enumerate().all(numbered) {
+            return Ok(());
+        }
+
+        let unlisted: Vec<String> = self
+            .package
+            .part_paths()
+            .into_iter()
+            .filter(|p| Self::is_slide_part(p) && !listed.iter().any(|l| l == p))
+            .filter_map(|p| p.strip_prefix("ppt/slides/")?.strip_suffix(".xml"))
+            .map(str::to_string)
+            .collect();
+        for stem in unlisted {
+            self.drop_slide(&stem)?;
+        }
+        for (i, stem) in stems.iter().enumerate() {
+            self.move_slide(stem, &format!("_listed_slide{}", i + 1));
+        }
+        for i in 1..=stems.len() {
+            self.move_slide(&format!("_listed_slide{i}"), &format!("slide{i}"));
+        }
+        self.slide_count = stems.len();
+        self.rebuild_presentation_parts()
+    }
+
+    /// Remove a slide part with its relationships and notes; nothing may refer to it any more.
+    fn drop_slide(&mut self, slide: &str) -> Result<(), PptxError> {
+        self.package.remove_part(&format!("ppt/slides/{slide}.xml"));
+        let rels = self
+            .package
+            .remove_part(&format!("ppt/slides/_rels/{slide}.xml.rels"))
+            .unwrap_or_default();
+        if let Some(notes) = Self::notes_file(&String::from_utf8_lossy(&rels)) {
+            self.package.remove_part(&format!("ppt/notesSlides/{notes}"));
+            self.package
+                .remove_part(&format!("ppt/notesSlides/_rels/{notes}.rels"));
+        }
+        self.unlink_slide(slide)
+    }
+
     fn is_slide_part(path: &str) -> bool {
         path.starts_with("ppt/slides/slide") && path.ends_with(".xml") && !path.contains("_rels")
     }
@@ -330,8 +381,7 @@ impl PresentationEditor {
         }
         for path in self.slide_referrers() {
             if let Some(rels) = self.package.get_part_string(&path) {
-                let updated = Self::retarget_slide(&rels, old, new);
-                if updated != rels {
+                if let Some(updated) = Self::retarget_slide(&rels, old, new) {
                     self.package.add_part(path, updated.into_bytes());
                 }
             }
@@ -348,32 +398,54 @@ impl PresentationEditor {
             .collect()
     }
 
-    fn slide_targets(slide: &str) -> [String; 3] {
-        [
-            format!("\"../slides/{slide}.xml\""),
-            format!("\"/ppt/slides/{slide}.xml\""),
-            format!("\"{slide}.xml\""),
-        ]
+    /// Whether a relationship's target is that slide, seen from another slide or from notes.
+    fn leads_to_slide(rel: &XmlElement, slide: &str) -> bool {
+        let target = rel.attr("Target").unwrap_or_default();
+        rel.attr("TargetMode") != Some("External")
+            && (target == format!("../slides/{slide}.xml")
+                || target == format!("/ppt/slides/{slide}.xml")
+                || target == format!("{slide}.xml"))
     }
 
-    fn retarget_slide(rels: &str, old: &str, new: &str) -> String {
-        let mut updated = rels.to_string();
-        for (from, to) in Self::slide_targets(old).iter().zip(Self::slide_targets(new)) {
-            updated = updated.replace(from, &to);
+    fn retarget_slide(rels: &str, old: &str, new: &str) -> Option<String> {
+        Self::retarget(rels, &format!("{old}.xml"), &format!("{new}.xml"), |rel| {
+            Self::leads_to_slide(rel, old)
+        })
+    }
+
+    /// The relationships with the file name replaced in the targets of those selected.
+    fn retarget(
+        rels: &str,
+        old_file: &str,
+        new_file: &str,
+        selected: impl Fn(&XmlElement) -> bool,
+    ) -> Option<String> {
+        if !rels.contains(old_file) {
+            return None;
+        }
+        let mut root = XmlParser::parse_str(rels).ok()?;
+        let mut entries = String::new();
+        for rel in &mut root.children {
+            if selected(rel)
+                && let Some(target) = rel.attributes.get_mut("Target")
+                && let Some(folder) = target.strip_suffix(old_file)
+            {
+                *target = format!("{folder}{new_file}");
+            }
+            entries.push_str(&Self::relationship_xml(rel));
         }
-        updated
+        Some(Self::relationships_part(&entries))
     }
 
     /// Drop the relationships of other slides to a removed slide; what used them goes nowhere.
     fn unlink_slide(&mut self, slide: &str) -> Result<(), PptxError> {
-        let targets = Self::slide_targets(slide).map(|t| t.trim_matches('"').to_string());
         for rels_path in self.slide_referrers() {
             let rels = self.package.get_part_string(&rels_path).unwrap_or_default();
             let root = XmlParser::parse_str(&rels)?;
             let mut kept = String::new();
             let mut dropped = Vec::new();
             for rel in root.find_all("Relationship") {
-                if rel.attr("Target").is_some_and(|t| targets.iter().any(|x| x == t)) {
+                if Self::leads_to_slide(rel, slide) {
                     dropped.push(rel.attr("Id").unwrap_or_default().to_string());
                 } else {
                     kept.push_str(&Self::relationship_xml(rel));
@@ -513,6 +585,7 @@ impl PresentationEditor {
             if let Some(name) = entry.attr("PartName") {
                 let part = name.trim_start_matches('/');
                 if !Self::is_slide_part(part)
+                    && (!part.starts_with("ppt/slides/") || self.package.has_part(part))
                     && (!part.starts_with("ppt/notesSlides/") || self.package.has_part(part))
                 {
                     entries.push_str(&format!(
@@ -535,7 +608,7 @@ impl PresentationEditor {
         for part in self.package.part_paths() {
             let name = format!("/{part}");
             if part.starts_with("ppt/notesSlides/notesSlide")
-                && !existing.contains(&format!("\"{name}\""))
+                && !root.children.iter().any(|e| e.attr("PartName") == Some(name.as_str()))
             {
                 entries.push_str(&format!(
                     "\n<Override PartName=\"{name}\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml\"/>"
-- 
2.43.0


From dedfef5f1dbfede1f326fcfaeb25fc51588f3525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:25 +0000
Subject: [PATCH 77/99] fix: the drawn PDF declares its fonts' encoding and the
 code font, and keeps indents on the page

---
 src/export/slide_render.rs | 71 ++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 234f13a..a69af3a 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -19,36 +19,29 @@ const FONT_HELVETICA: &str = "Helvetica";
 const FONT_HELVETICA_BOLD: &str = "Helvetica-Bold";
 const FONT_HELVETICA_OBLIQUE: &str = "Helvetica-Oblique";
 const FONT_HELVETICA_BOLD_OBLIQUE: &str = "Helvetica-BoldOblique";
+const FONT_COURIER: &str = "Courier";
 
 struct FontIds {
     helvetica: u32,
     helvetica_bold: u32,
     helvetica_oblique: u32,
     helvetica_bold_oblique: u32,
+    courier: u32,
 }
 
 fn add_fonts(generator: &mut PdfGenerator) -> FontIds {
-    let helvetica = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA
-    ));
-    let helvetica_bold = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_BOLD
-    ));
-    let helvetica_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_OBLIQUE
-    ));
-    let helvetica_bold_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_BOLD_OBLIQUE
-    ));
+    let mut add = |name: &str| {
+        generator.add_object(format!(
+            "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
+            name
+        ))
+    };
     FontIds {
-        helvetica,
-        helvetica_bold,
-        helvetica_oblique,
-        helvetica_bold_oblique,
+        helvetica: add(FONT_HELVETICA),
+        helvetica_bold: add(FONT_HELVETICA_BOLD),
+        helvetica_oblique: add(FONT_HELVETICA_OBLIQUE),
+        helvetica_bold_oblique: add(FONT_HELVETICA_BOLD_OBLIQUE),
+        courier: add(FONT_COURIER),
     }
 }
 
@@ -79,6 +72,24 @@ fn escape_pdf_text(s: &str) -> String {
         .replace(')', "\\)")
 }
 
+/// Encode text in the encoding the fonts declare (WinAnsiEncoding); line
+/// breaks and tabs become spaces, characters outside the encoding `?`
+fn encode_win_ansi(s: &str) -> Vec<u8> {
+    const HIGH: &str = "\u{20AC}\u{FFFD}\u{201A}\u{0192}\u{201E}\u{2026}\u{2020}\u{2021}\u{02C6}\u{2030}\u{0160}\u{2039}\u{0152}\u{FFFD}\u{017D}\u{FFFD}\
+        \u{FFFD}\u{2018}\u{2019}\u{201C}\u{201D}\u{2022}\u{2013}\u{2014}\u{02DC}\u{2122}\u{0161}\u{203A}\u{0153}\u{FFFD}\u{017E}\u{0178}";
+    s.chars()
+        .map(|c| match c {
+            '\t' | '\n' | '\r' => b' ',
+            ' '..='~' | '\u{A0}'..='\u{FF}' => c as u8,
+            '\u{FFFD}' => b'?',
+            _ => HIGH
+                .chars()
+                .position(|h| h == c)
+                .map_or(b'?', |i| 0x80 + i as u8),
+        })
+        .collect()
+}
+
 fn set_color(out: &mut Vec<u8>, r: f32, g: f32, b: f32) {
     out.extend_from_slice(format!("{:.3} {:.3} {:.3} rg\n", r, g, b).as_bytes());
 }
@@ -107,7 +118,9 @@ fn draw_text_line(
     set_font(out, font_name, font_size);
     out.extend_from_slice(b"BT\n");
     out.extend_from_slice(format!("{} {:.1} Td\n", x, y).as_bytes());
-    out.extend_from_slice(format!("({}) Tj\n", escape_pdf_text(text)).as_bytes());
+    out.push(b'(');
+    out.extend_from_slice(&encode_win_ansi(&escape_pdf_text(text)));
+    out.extend_from_slice(b") Tj\n");
     out.extend_from_slice(b"ET\n");
 }
 
@@ -120,8 +133,8 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     match style {
         BulletStyle::Bullet => "\u{2022}".to_string(),
         BulletStyle::Number => format!("{}.", index + 1),
-        BulletStyle::LetterLower => format!("{}.", char::from_u32(b'a' as u32 + index).unwrap_or('a')),
-        BulletStyle::LetterUpper => format!("{}.", char::from_u32(b'A' as u32 + index).unwrap_or('A')),
+        BulletStyle::LetterLower => format!("{}.", list_letter(b'a', index)),
+        BulletStyle::LetterUpper => format!("{}.", list_letter(b'A', index)),
         BulletStyle::RomanLower => to_roman(index + 1).to_lowercase(),
         BulletStyle::RomanUpper => to_roman(index + 1),
         BulletStyle::Custom(ch) => ch.to_string(),
@@ -129,6 +142,12 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     }
 }
 
+/// a, b, ... z, aa, bb, ...
+fn list_letter(first: u8, index: u32) -> String {
+    let letter = (first + (index % 26) as u8) as char;
+    letter.to_string().repeat(index as usize / 26 + 1)
+}
+
 fn to_roman(mut num: u32) -> String {
     let pairs = [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")];
     let mut result = String::new();
@@ -225,7 +244,7 @@ fn render_slide(
             }
 
             let prefix = bullet_prefix(bp.style, numbered);
-            let indent = (bp.level as f32) * 20.0;
+            let indent = (bp.level.min(8) as f32) * 20.0;
             let bx = margin + indent;
 
             let fmt = bp.format.as_ref();
@@ -304,7 +323,7 @@ fn render_slide(
             if y < margin {
                 break;
             }
-            draw_text_line(&mut cs, line, margin + 8.0, y, "Courier", code_size, 0.1, 0.1, 0.1);
+            draw_text_line(&mut cs, line, margin + 8.0, y, FONT_COURIER, code_size, 0.1, 0.1, 0.1);
             y -= code_line_h;
         }
         y -= line_height * 0.5;
@@ -346,6 +365,7 @@ fn add_page(
              /{} {} 0 R \
              /{} {} 0 R \
              /{} {} 0 R \
+             /{} {} 0 R \
          >> >>\n\
          >>\n",
         pages_obj_id,
@@ -356,6 +376,7 @@ fn add_page(
         FONT_HELVETICA_BOLD, font_ids.helvetica_bold,
         FONT_HELVETICA_OBLIQUE, font_ids.helvetica_oblique,
         FONT_HELVETICA_BOLD_OBLIQUE, font_ids.helvetica_bold_oblique,
+        FONT_COURIER, font_ids.courier,
     );
     generator.add_object(page_dict)
 }
-- 
2.43.0


From 103ca2bf31469a1702886caf2fb2c6ad60a46589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:21 +0000
Subject: [PATCH 78/99] fix: pptcli info reports title and slide count of a
 presentation

---
 src/cli/commands.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/cli/commands.rs b/src/cli/commands.rs
index 7015c61..6ea9ba7 100644
--- a/src/cli/commands.rs
+++ b/src/cli/commands.rs
@@ -1,6 +1,7 @@
 //! CLI commands implementation
 
 use crate::generator;
+use crate::oxml::PresentationReader;
 use std::fs;
 use std::path::PathBuf;
 
@@ -151,25 +152,14 @@ impl InfoCommand {
         let is_file = metadata.is_file();
         println!("Is file:  {is_file}");
 
-        // Try to read and parse as XML
-        if let Ok(content) = fs::read_to_string(file) {
-            if content.starts_with("<?xml") {
-                println!("\nPresentation Information");
-                println!("========================");
-                if let Some(title_start) = content.find("<title>") {
-                    if let Some(title_end) = content[title_start + 7..].find("</title>") {
-                        let title = &content[title_start + 7..title_start + 7 + title_end];
-                        println!("Title: {title}");
-                    }
-                }
-                if let Some(slides_start) = content.find("count=\"") {
-                    let search_from = slides_start + 7;
-                    if let Some(slides_end) = content[search_from..].find("\"") {
-                        let count_str = &content[search_from..search_from + slides_end];
-                        println!("Slides: {count_str}");
-                    }
-                }
+        if let Ok(reader) = PresentationReader::open(file) {
+            let info = reader.info();
+            println!("\nPresentation Information");
+            println!("========================");
+            if let Some(title) = &info.title {
+                println!("Title: {title}");
             }
+            println!("Slides: {}", reader.slide_count());
         }
 
         Ok(())
-- 
2.43.0


From 5c590a0449cc55b2483e1b8e509e9d08fd3155f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:42 +0000
Subject: [PATCH 79/99] fix: temporary files of PDF and PNG conversion are
 removed when the converter cannot be run

---
 src/api.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index aab3c39..e218d1b 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -196,12 +196,14 @@ impl Presentation {
             .arg("-png")
             .arg(&temp_pdf_path)
             .arg(&prefix)
-            .status()
-            .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
+            .status();
 
         // Cleanup temp PDF
         let _ = std::fs::remove_file(&temp_pdf_path);
 
+        let status = status
+            .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
+
         if !status.success() {
             return Err(PptxError::Generic("pdftoppm conversion failed".to_string()));
         }
@@ -225,6 +227,13 @@ impl Presentation {
         let temp_dir = std::env::temp_dir().join(format!("ppt_rs_import_{}", uuid::Uuid::new_v4()));
         std::fs::create_dir_all(&temp_dir)?;
 
+        let pres = Self::from_pdf_pages(path, &temp_dir);
+        let _ = std::fs::remove_dir_all(&temp_dir);
+        pres
+    }
+
+    /// Convert the pages of a PDF file to images in `temp_dir`, and those to slides
+    fn from_pdf_pages(path: &Path, temp_dir: &Path) -> Result<Self> {
         // Convert PDF to PNGs
         let prefix = temp_dir.join("page");
 
@@ -236,7 +245,6 @@ impl Presentation {
             .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
 
         if !status.success() {
-            let _ = std::fs::remove_dir_all(&temp_dir);
             return Err(PptxError::Generic("pdftoppm failed".to_string()));
         }
 
@@ -248,7 +256,7 @@ impl Presentation {
         }
 
         // Read dir
-        let mut entries: Vec<_> = std::fs::read_dir(&temp_dir)?
+        let mut entries: Vec<_> = std::fs::read_dir(temp_dir)?
             .filter_map(|e| e.ok())
             .collect();
 
@@ -293,7 +301,6 @@ impl Presentation {
             }
         }
 
-        let _ = std::fs::remove_dir_all(&temp_dir);
         Ok(pres)
     }
 
-- 
2.43.0


From 5dbd8ba4ec1dcbb8514a5c0df70d29d15158f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:51 +0000
Subject: [PATCH 80/99] fix: slides made from PDF pages carry their pictures

---
 src/api.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index e218d1b..79d2667 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -4,7 +4,7 @@
 
 use crate::exc::{messages, PptxError, Result};
 use crate::export::html::export_to_html;
-use crate::generator::{create_pptx_with_settings, Image, PresentationSettings, PresentationTheme, SlideContent};
+use crate::generator::{create_pptx_with_settings, Image, ImageSource, PresentationSettings, PresentationTheme, SlideContent};
 use crate::import::import_pptx;
 use std::path::Path;
 use std::process::Command;
@@ -284,7 +284,9 @@ impl Presentation {
             let path = entry.path();
             if path.extension().is_some_and(|e| e == "png") {
                 // Create slide with full screen image
-                let image = Image::from_path(&path).map_err(PptxError::Generic)?;
+                let mut image = Image::from_path(&path).map_err(PptxError::Generic)?;
+                // The file is temporary: the image has to carry its data
+                image.source = Some(ImageSource::Bytes(std::fs::read(&path)?));
 
                 // Add image to slide
                 // Use a default layout?
-- 
2.43.0


From 58d690aa4b95dd35896198ae0c44dafb02cd9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:51 +0000
Subject: [PATCH 81/99] fix: pptcli validate --json says why a file could not
 be read

---
 src/bin/pptcli.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bin/pptcli.rs b/src/bin/pptcli.rs
index 3866125..48dd018 100644
--- a/src/bin/pptcli.rs
+++ b/src/bin/pptcli.rs
@@ -79,9 +79,7 @@ fn main() {
                 }
             }
             Err(e) => {
-                if !json {
-                    eprintln!("✗ Error: {e}");
-                }
+                eprintln!("✗ Error: {e}");
                 std::process::exit(1);
             }
         },
-- 
2.43.0


From 424507d9f5a63a85c05256e25614fcf7111d679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 82/99] fix: webpage content is walked without recursion, and
 line breaks and blocks separate words

---
 src/web2ppt/parser.rs | 54 +++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/web2ppt/parser.rs b/src/web2ppt/parser.rs
index e54a2fb..646b375 100644
--- a/src/web2ppt/parser.rs
+++ b/src/web2ppt/parser.rs
@@ -290,18 +290,24 @@ impl WebParser {
         let main = main_element.ok_or(Web2PptError::NoContent)?;
 
         // Extract content in document order by walking the DOM
-        self.walk_element(&main, content, 0);
+        let mut stack = vec![(main, 0u8)];
+        while let Some((element, depth)) = stack.pop() {
+            if self.walk_element(&element, content, depth) {
+                let children: Vec<_> = element.children().filter_map(ElementRef::wrap).collect();
+                stack.extend(children.into_iter().rev().map(|c| (c, depth.saturating_add(1))));
+            }
+        }
 
         Ok(())
     }
 
-    /// Walk element tree and extract content in order
-    fn walk_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) {
+    /// Extract the content of an element; whether its children are to be walked in turn
+    fn walk_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) -> bool {
         // Skip script, style, nav, footer, aside, header elements
         let tag_name = element.value().name();
         let skip_tags = ["script", "style", "noscript", "svg", "form", "button", "input", "select", "textarea", "iframe"];
         if skip_tags.contains(&tag_name) {
-            return;
+            return false;
         }
 
         // Check for class/id names that indicate non-content (but be less aggressive)
@@ -310,7 +316,7 @@ impl WebParser {
             // Only skip if clearly navigation/ads
             let skip_classes = ["advertisement", "ad-container", "social-share", "comment-section"];
             if skip_classes.iter().any(|c| class_lower.contains(c)) {
-                return;
+                return false;
             }
         }
 
@@ -355,7 +361,7 @@ impl WebParser {
                         content.blocks.push(ContentBlock::new(ContentType::Code, text));
                     }
                 }
-                return; // Don't recurse into code blocks
+                return false; // Don't recurse into code blocks
             }
             "img" => {
                 if self.config.include_images {
@@ -375,7 +381,7 @@ impl WebParser {
                 if self.config.include_tables {
                     self.extract_table(element, content);
                 }
-                return; // Don't recurse into tables
+                return false; // Don't recurse into tables
             }
             "a" => {
                 // Extract important links
@@ -394,23 +400,41 @@ impl WebParser {
 
         // Always recurse into children (except for leaf elements we've already processed)
         let no_recurse_tags = ["p", "li", "pre", "code", "img", "table", "blockquote", "h1", "h2", "h3", "h4", "h5", "h6"];
-        if !no_recurse_tags.contains(&tag_name) {
-            for child in element.children() {
-                if let Some(child_elem) = ElementRef::wrap(child) {
-                    self.walk_element(&child_elem, content, depth + 1);
-                }
-            }
-        }
+        !no_recurse_tags.contains(&tag_name)
     }
 
     /// Clean and normalize text
     fn clean_text(&self, element: &ElementRef) -> String {
-        let text: String = element.text().collect();
+        let mut text = String::new();
+        Self::collect_text(element, &mut text);
         // Normalize whitespace
         let text = text.split_whitespace().collect::<Vec<_>>().join(" ");
         text.trim().to_string()
     }
 
+    /// Collect the text of an element; line breaks and block elements separate words
+    fn collect_text(element: &ElementRef, text: &mut String) {
+        const BLOCKS: [&str; 14] = ["br", "p", "div", "li", "ul", "ol", "dl", "dt", "dd", "table", "tr", "td", "th", "blockquote"];
+        // What is still to come, last first; None separates words
+        let mut stack: Vec<Option<_>> = element.children().rev().map(Some).collect();
+        while let Some(next) = stack.pop() {
+            let Some(node) = next else {
+                text.push(' ');
+                continue;
+            };
+            if let Some(t) = node.value().as_text() {
+                text.push_str(t);
+            } else if let Some(inner) = node.value().as_element() {
+                let separate = BLOCKS.contains(&inner.name());
+                if separate {
+                    text.push(' ');
+                    stack.push(None);
+                }
+                stack.extend(node.children().rev().map(Some));
+            }
+        }
+    }
+
     /// Extract table content
     fn extract_table(&self, element: &ElementRef, content: &mut WebContent) {
         let mut rows: Vec<Vec<String>> = Vec::new();
-- 
2.43.0


From ce8b1fdd8bff28c0ae40474502826066d9eec9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:18 +0000
Subject: [PATCH 83/99] fix: pages converted linearly keep every list item,
 quote, code block, table and image

---
 src/web2ppt/converter.rs | 162 ++++++++++++++-------------------------
 1 file changed, 57 insertions(+), 105 deletions(-)

diff --git a/src/web2ppt/converter.rs b/src/web2ppt/converter.rs
index cb3b4df..b8f12b6 100644
--- a/src/web2ppt/converter.rs
+++ b/src/web2ppt/converter.rs
@@ -1,6 +1,6 @@
 //! Converter from web content to PowerPoint
 
-use super::{Web2PptError, Result, Web2PptConfig, WebContent, ContentType};
+use super::{Web2PptError, Result, Web2PptConfig, WebContent, ContentBlock, ContentType};
 use crate::{create_pptx_with_content, SlideContent, SlideLayout};
 
 /// Safely truncate text at char boundary
@@ -171,47 +171,9 @@ impl Web2Ppt {
                     }
                 }
 
-                match &block.content_type {
-                    ContentType::Paragraph => {
-                        // Truncate long paragraphs - use char_indices for safe slicing
-                        let text = truncate_text(&block.text, 200);
-                        slide = slide.add_bullet(&text);
-                        bullet_count += 1;
-                    }
-                    ContentType::ListItem => {
-                        let text = truncate_text(&block.text, 180);
-                        slide = slide.add_bullet(&format!("• {}", text));
-                        bullet_count += 1;
-                    }
-                    ContentType::Quote => {
-                        let text = truncate_text(&block.text, 180);
-                        slide = slide.add_bullet(&format!("\"{}\"", text));
-                        bullet_count += 1;
-                    }
-                    ContentType::Code => {
-                        if self.config.include_code {
-                            let code = truncate_text(&block.text, 150);
-                            slide = slide.add_bullet(&format!("[Code] {}", code));
-                            bullet_count += 1;
-                        }
-                    }
-                    ContentType::Table(rows) => {
-                        if self.config.include_tables && !rows.is_empty() {
-                            let summary = format!("[Table: {} rows × {} cols]", 
-                                rows.len(), 
-                                rows.first().map(|r| r.len()).unwrap_or(0)
-                            );
-                            slide = slide.add_bullet(&summary);
-                            bullet_count += 1;
-                        }
-                    }
-                    ContentType::Image { alt, .. } => {
-                        if self.config.include_images && !alt.is_empty() {
-                            slide = slide.add_bullet(&format!("[Image: {}]", alt));
-                            bullet_count += 1;
-                        }
-                    }
-                    _ => {}
+                if let Some(text) = self.bullet_text(block) {
+                    slide = slide.add_bullet(&text);
+                    bullet_count += 1;
                 }
             }
 
@@ -224,9 +186,32 @@ impl Web2Ppt {
         Ok(())
     }
 
+    /// The bullet that shows a content block, if it is one to show
+    fn bullet_text(&self, block: &ContentBlock) -> Option<String> {
+        match &block.content_type {
+            ContentType::Paragraph => Some(truncate_text(&block.text, 200)),
+            ContentType::ListItem => Some(format!("• {}", truncate_text(&block.text, 180))),
+            ContentType::Quote => Some(format!("\"{}\"", truncate_text(&block.text, 180))),
+            ContentType::Code if self.config.include_code => {
+                Some(format!("[Code] {}", truncate_text(&block.text, 150)))
+            }
+            ContentType::Table(rows) if self.config.include_tables && !rows.is_empty() => {
+                Some(format!("[Table: {} rows × {} cols]",
+                    rows.len(),
+                    rows.first().map(|r| r.len()).unwrap_or(0)
+                ))
+            }
+            ContentType::Image { alt, .. } if self.config.include_images && !alt.is_empty() => {
+                Some(format!("[Image: {}]", alt))
+            }
+            _ => None,
+        }
+    }
+
     /// Build slides linearly (not grouped)
     fn build_linear_slides(&self, content: &WebContent, slides: &mut Vec<SlideContent>) -> Result<()> {
         let mut current_slide: Option<SlideContent> = None;
+        let mut title = String::new();
         let mut bullet_count = 0;
 
         // If no content blocks, create a slide with description
@@ -245,74 +230,41 @@ impl Web2Ppt {
                 break;
             }
 
-            match &block.content_type {
-                ContentType::Title | ContentType::Heading(_) => {
-                    // Save current slide if it has content
-                    if let Some(slide) = current_slide.take() {
-                        if bullet_count > 0 {
-                            slides.push(slide);
-                        }
+            if block.is_heading() {
+                // Save current slide if it has content
+                if let Some(slide) = current_slide.take() {
+                    if bullet_count > 0 {
+                        slides.push(slide);
                     }
+                }
 
-                    // Start new slide
-                    current_slide = Some(
-                        SlideContent::new(&block.text)
+                // Start new slide
+                title = block.text.clone();
+                current_slide = Some(
+                    SlideContent::new(&title)
+                        .layout(SlideLayout::TitleAndContent)
+                );
+                bullet_count = 0;
+            } else if let Some(text) = self.bullet_text(block) {
+                let slide = match current_slide.take() {
+                    // Start new continuation slide
+                    Some(slide) if bullet_count >= self.config.max_bullets_per_slide => {
+                        slides.push(slide);
+                        bullet_count = 0;
+                        SlideContent::new(&format!("{} (cont.)", title))
                             .layout(SlideLayout::TitleAndContent)
-                    );
-                    bullet_count = 0;
-                }
-                ContentType::Paragraph => {
-                    // If no current slide, create one
-                    if current_slide.is_none() {
-                        current_slide = Some(
-                            SlideContent::new("Overview")
-                                .layout(SlideLayout::TitleAndContent)
-                        );
-                    }
-                    
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 200);
-                            *slide = slide.clone().add_bullet(&text);
-                            bullet_count += 1;
-                        } else {
-                            // Start new continuation slide
-                            slides.push(slide.clone());
-                            let title = slide.title.clone();
-                            *slide = SlideContent::new(&format!("{} (cont.)", title))
-                                .layout(SlideLayout::TitleAndContent);
-                            let text = truncate_text(&block.text, 200);
-                            *slide = slide.clone().add_bullet(&text);
-                            bullet_count = 1;
-                        }
-                    }
-                }
-                ContentType::ListItem => {
-                    if current_slide.is_none() {
-                        current_slide = Some(
-                            SlideContent::new("Key Points")
-                                .layout(SlideLayout::TitleAndContent)
-                        );
-                    }
-                    
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 180);
-                            *slide = slide.clone().add_bullet(&format!("• {}", text));
-                            bullet_count += 1;
-                        }
                     }
-                }
-                ContentType::Quote => {
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 180);
-                            *slide = slide.clone().add_bullet(&format!("\"{}\"", text));
-                            bullet_count += 1;
-                        }
+                    Some(slide) => slide,
+                    // If no current slide, create one
+                    None => {
+                        let list = matches!(block.content_type, ContentType::ListItem);
+                        title = if list { "Key Points" } else { "Overview" }.to_string();
+                        SlideContent::new(&title)
+                            .layout(SlideLayout::TitleAndContent)
                     }
-                }
-                _ => {}
+                };
+                current_slide = Some(slide.add_bullet(&text));
+                bullet_count += 1;
             }
         }
 
-- 
2.43.0


From 3beca9c8a97c741e174d18c9af21ec75208df15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 84/99] fix: navigation and footers of webpages are left out,
 as documented

---
 src/web2ppt/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/web2ppt/parser.rs b/src/web2ppt/parser.rs
index 646b375..f28a136 100644
--- a/src/web2ppt/parser.rs
+++ b/src/web2ppt/parser.rs
@@ -303,9 +303,9 @@ impl WebParser {
 
     /// Extract the content of an element; whether its children are to be walked in turn
     fn walk_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) -> bool {
-        // Skip script, style, nav, footer, aside, header elements
+        // Skip elements that are not content: scripts, forms, navigation, footers
         let tag_name = element.value().name();
-        let skip_tags = ["script", "style", "noscript", "svg", "form", "button", "input", "select", "textarea", "iframe"];
+        let skip_tags = ["script", "style", "noscript", "svg", "form", "button", "input", "select", "textarea", "iframe", "nav", "footer"];
         if skip_tags.contains(&tag_name) {
             return false;
         }
-- 
2.43.0


From 734fca74d9bb8f470fc08193a56285fe520d0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:36 +0000
Subject: [PATCH 85/99] fix: bullets of centred title slides are written below
 the title

---
 src/generator/slide_xml/layouts.rs | 45 ++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 47c05eb..ba9376c 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -160,6 +160,51 @@ pub fn create_centered_title_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    // Lines below the title (author, date, source)
+    if !content.bullets.is_empty() || !content.content.is_empty() {
+        let props = ExtendedTextProps::with_basic(
+            content.content_size.unwrap_or(28) * 100,
+            content.content_bold,
+            content.content_italic,
+            content.content_underline,
+            content.content_color.as_deref(),
+        );
+        xml.push_str(
+            r#"
+<p:sp>
+<p:nvSpPr>
+<p:cNvPr id="3" name="Content"/>
+<p:cNvSpPr txBox="1"/>
+<p:nvPr/>
+</p:nvSpPr>
+<p:spPr>
+<a:xfrm>
+<a:off x="457200" y="4114800"/>
+<a:ext cx="8230200" cy="2286000"/>
+</a:xfrm>
+<a:prstGeom prst="rect"><a:avLst/></a:prstGeom>
+<a:noFill/>
+</p:spPr>
+<p:txBody>
+<a:bodyPr wrap="square" rtlCol="0"/>
+<a:lstStyle/>"#
+        );
+        if !content.bullets.is_empty() {
+            for bullet in &content.bullets {
+                xml.push_str(&generate_bullet_paragraph_from_point(bullet, &props));
+            }
+        } else {
+            for text in &content.content {
+                let bp = BulletPoint::new(text).with_style(content.bullet_style);
+                xml.push_str(&generate_bullet_paragraph_from_point(&bp, &props));
+            }
+        }
+        xml.push_str(
+            r#"
+</p:txBody>
+</p:sp>"#
+        );
+    }
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
-- 
2.43.0


From d4aad568e1507a41d09de2b03de8c3c6e5664a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:57 +0000
Subject: [PATCH 86/99] fix: validation reports parts that cannot be read as
 text

---
 src/core/package_validation/context.rs | 20 ++++++++++++++++++--
 src/core/package_validation/rules.rs   | 20 +++++++++++++-------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index 7364444..8ead0b1 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -87,9 +87,25 @@ impl PackageContext {
         if let Some(cached) = self.part_cache.get(path) {
             return Some(cached.clone());
         }
-        let content = self.read_part_from_archive(archive, path).ok()?;
+        self.try_read_part(archive, path).ok()
+    }
+
+    /// The text of a part, or the issue that keeps it from being read
+    pub fn try_read_part<R: Read + Seek>(
+        &mut self,
+        archive: &mut ZipArchive<R>,
+        path: &str,
+    ) -> Result<String, PackageValidationIssue> {
+        let content = self.read_part_from_archive(archive, path)?;
         self.part_cache.insert(path.to_string(), content.clone());
-        Some(content)
+        Ok(content)
+    }
+
+    /// Whether a part is UTF-16, the other encoding XML parts may have
+    pub fn is_utf16<R: Read + Seek>(archive: &mut ZipArchive<R>, path: &str) -> bool {
+        let mut mark = [0; 2];
+        archive.by_name(path).is_ok_and(|mut f| f.read_exact(&mut mark).is_ok())
+            && matches!(mark, [0xFE, 0xFF] | [0xFF, 0xFE])
     }
 
     fn read_part_from_archive<R: Read + Seek>(
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index b4bc40d..70383bb 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -95,14 +95,20 @@ fn check_xml_parts<R: Read + Seek>(
         .collect();
 
     for path in xml_parts {
-        if let Some(content) = ctx.read_part(archive, &path)
-            && let Err(e) = validate_well_formed_xml(&content) {
-                report.push(PackageValidationIssue::error(
-                    ValidationCategory::Xml,
-                    e.to_string(),
-                    Some(&path),
-                ));
+        match ctx.try_read_part(archive, &path) {
+            Ok(content) => {
+                if let Err(e) = validate_well_formed_xml(&content) {
+                    report.push(PackageValidationIssue::error(
+                        ValidationCategory::Xml,
+                        e.to_string(),
+                        Some(&path),
+                    ));
+                }
             }
+            // UTF-16 parts are not looked into
+            Err(_) if PackageContext::is_utf16(archive, &path) => {}
+            Err(issue) => report.push(issue),
+        }
     }
 }
 
-- 
2.43.0


From 454c724a8d00ba81f49e0a65b26e32731dc92bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:18 +0000
Subject: [PATCH 87/99] fix: repair notices parts that are not UTF-8 and leaves
 UTF-16 parts alone

---
 src/oxml/repair.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index a0838f4..c40f431 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -306,8 +306,15 @@ impl PptxRepair {
 
         for path in xml_parts {
             if let Some(content) = self.package.get_part(&path) {
-                let xml_str = String::from_utf8_lossy(content);
-                if let Err(e) = self.validate_xml(&xml_str) {
+                // UTF-16 parts are not looked into
+                if matches!(content.get(..2), Some([0xFE, 0xFF] | [0xFF, 0xFE])) {
+                    continue;
+                }
+                let checked = match std::str::from_utf8(content) {
+                    Ok(xml_str) => self.validate_xml(xml_str),
+                    Err(e) => Err(e.to_string()),
+                };
+                if let Err(e) = checked {
                     self.issues.push(RepairIssue::InvalidXml { path, error: e });
                 }
             }
-- 
2.43.0


From 5bb49c5a1e100cc2477c58df2da8298aa30f0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:12 +0000
Subject: [PATCH 88/99] fix: the editor drops unlisted slide parts whatever
 they are named

---
 src/oxml/editor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 1c1f644..2520fc2 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -317,8 +317,9 @@ impl PresentationEditor {
             .package
             .part_paths()
             .into_iter()
-            .filter(|p| Self::is_slide_part(p) && !listed.iter().any(|l| l == p))
+            .filter(|p| !listed.iter().any(|l| l == p))
             .filter_map(|p| p.strip_prefix("ppt/slides/")?.strip_suffix(".xml"))
+            .filter(|stem| !stem.contains('/'))
             .map(str::to_string)
             .collect();
         for stem in unlisted {
-- 
2.43.0


From 9e6074bae7fed2aba29398639dba6beff242159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:19 +0000
Subject: [PATCH 89/99] fix: flowcharts keep every node and link in order of
 declaration

---
 src/cli/markdown/mermaid/flowchart.rs | 167 +++++++++++++++-----------
 1 file changed, 96 insertions(+), 71 deletions(-)

diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index 3cae060..7fe292a 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -27,13 +27,13 @@ pub fn parse(code: &str) -> Flowchart {
     let first_line = lines.next().unwrap_or("");
     let direction = parse_direction(first_line);
 
-    let mut nodes: HashMap<String, FlowNode> = HashMap::new();
+    let mut nodes: Vec<FlowNode> = Vec::new();
     let mut connections: Vec<FlowConnection> = Vec::new();
     let mut subgraphs: Vec<Subgraph> = Vec::new();
     let mut current_subgraph: Option<Subgraph> = None;
 
     for line in lines {
-        let line = line.trim();
+        let line = line.trim().trim_end_matches(';').trim_end();
         if line.is_empty() || line.starts_with("%%") {
             continue;
         }
@@ -60,73 +60,96 @@ pub fn parse(code: &str) -> Flowchart {
             continue;
         }
 
-        // Parse connections: A --> B, A --> B[Label], A[Text] --> B[Text]
-        if let Some((from_part, rest)) = split_connection(line) {
-            let (arrow_type, to_part) = parse_arrow_and_rest(&rest);
-
-            // Parse from node
-            let (from_id, from_node) = parse_node_def(&from_part);
-            if let Some(node) = from_node {
-                nodes.entry(from_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&from_id) {
-                        sg.nodes.push(from_id.clone());
-                    }
+        // Parse connections: A --> B, A --> B[Label], A[Text] --> B[Text] --> C
+        let mut rest = line.to_string();
+        let mut previous: Option<(String, ArrowStyle, Option<String>)> = None;
+        loop {
+            let (part, link) = match split_connection(&rest) {
+                Some((from_part, tail)) => {
+                    let (arrow_type, to_part) = parse_arrow_and_rest(&tail);
+                    let (to_part, pipe_label) = extract_arrow_label(&to_part);
+                    // A -- text --> B
+                    let (from_part, text_label) = match outside_brackets(&from_part, &[" -- "]) {
+                        Some(pos) => (
+                            from_part[..pos].trim().to_string(),
+                            Some(from_part[pos + 4..].trim().to_string()),
+                        ),
+                        None => (from_part, None),
+                    };
+                    rest = to_part;
+                    (from_part, Some((arrow_type, pipe_label.or(text_label))))
                 }
-            }
+                None => (rest.clone(), None),
+            };
 
-            // Parse to node (may have label on arrow)
-            let (to_part_clean, arrow_label) = extract_arrow_label(&to_part);
-            let (to_id, to_node) = parse_node_def(&to_part_clean);
-            if let Some(node) = to_node {
-                nodes.entry(to_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&to_id) {
-                        sg.nodes.push(to_id.clone());
-                    }
+            let (id, node) = parse_node_def(&part);
+            if let Some(node) = node {
+                remember_node(&mut nodes, node);
+                if let Some(ref mut sg) = current_subgraph
+                    && !sg.nodes.contains(&id)
+                    && !subgraphs.iter().any(|other| other.nodes.contains(&id))
+                {
+                    sg.nodes.push(id.clone());
                 }
             }
-
-            connections.push(FlowConnection {
-                from: from_id,
-                to: to_id,
-                label: arrow_label,
-                arrow_type,
-            });
-        } else {
-            // Standalone node definition
-            let (id, node) = parse_node_def(line);
-            if let Some(n) = node {
-                nodes.entry(id.clone()).or_insert(n);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&id) {
-                        sg.nodes.push(id);
-                    }
-                }
+            if let Some((from, arrow_type, label)) = previous.take() {
+                connections.push(FlowConnection {
+                    from,
+                    to: id.clone(),
+                    label,
+                    arrow_type,
+                });
+            }
+            match link {
+                Some((arrow_type, label)) => previous = Some((id, arrow_type, label)),
+                None => break,
             }
         }
     }
 
     Flowchart {
         direction,
-        nodes: nodes.into_values().collect(),
+        nodes,
         connections,
         subgraphs,
     }
 }
 
-/// Split line at connection arrow
-fn split_connection(line: &str) -> Option<(String, String)> {
-    for arrow in ["==>", "-.->", "-->", "---", "->"] {
-        if let Some(pos) = line.find(arrow) {
-            let from = line[..pos].trim().to_string();
-            let rest = line[pos..].to_string();
-            return Some((from, rest));
+/// Keep nodes in order of first mention; a definition with a label or shape
+/// replaces what an earlier plain mention assumed
+fn remember_node(nodes: &mut Vec<FlowNode>, node: FlowNode) {
+    match nodes.iter_mut().find(|known| known.id == node.id) {
+        Some(known) => {
+            if node.label != node.id || node.shape != NodeShape::Rectangle {
+                *known = node;
+            }
+        }
+        None => nodes.push(node),
+    }
+}
+
+/// First position of one of the tokens outside of node brackets
+fn outside_brackets(line: &str, tokens: &[&str]) -> Option<usize> {
+    let mut depth = 0usize;
+    for (pos, c) in line.char_indices() {
+        match c {
+            '[' | '(' | '{' => depth += 1,
+            ']' | ')' | '}' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        if depth == 0 && tokens.iter().any(|token| line[pos..].starts_with(token)) {
+            return Some(pos);
         }
     }
     None
 }
 
+/// Split line at its first connection arrow
+fn split_connection(line: &str) -> Option<(String, String)> {
+    let pos = outside_brackets(line, &["==>", "-.->", "-->", "---", "->"])?;
+    Some((line[..pos].trim().to_string(), line[pos..].to_string()))
+}
+
 /// Parse arrow type and get the rest of the string
 fn parse_arrow_and_rest(s: &str) -> (ArrowStyle, String) {
     if s.starts_with("==>") {
@@ -146,12 +169,10 @@ fn parse_arrow_and_rest(s: &str) -> (ArrowStyle, String) {
 
 /// Extract arrow label like |text|
 fn extract_arrow_label(s: &str) -> (String, Option<String>) {
-    if let Some(start) = s.find('|') {
-        if let Some(end) = s[start + 1..].find('|') {
-            let label = s[start + 1..start + 1 + end].to_string();
-            let rest = s[start + 2 + end..].trim().to_string();
-            return (rest, Some(label));
-        }
+    if let Some(labelled) = s.strip_prefix('|')
+        && let Some((label, rest)) = labelled.split_once('|')
+    {
+        return (rest.trim().to_string(), Some(label.trim().to_string()));
     }
     (s.to_string(), None)
 }
@@ -160,19 +181,21 @@ fn extract_arrow_label(s: &str) -> (String, Option<String>) {
 fn parse_node_def(s: &str) -> (String, Option<FlowNode>) {
     let s = s.trim();
 
-    // Try different bracket types
-    for (open, close, shape) in [
-        ("((", "))", NodeShape::Circle),
-        ("([", "])", NodeShape::Stadium),
-        ("{{", "}}", NodeShape::Hexagon),
-        ("[", "]", NodeShape::Rectangle),
-        ("(", ")", NodeShape::RoundedRect),
-        ("{", "}", NodeShape::Diamond),
-    ] {
-        if let Some(start) = s.find(open) {
-            let id = s[..start].trim().to_string();
-            if let Some(end) = s[start + open.len()..].find(close) {
-                let label = s[start + open.len()..start + open.len() + end].to_string();
+    // The first bracket opens the label; try the longer brackets first
+    if let Some(start) = s.find(['[', '(', '{']) {
+        for (open, close, shape) in [
+            ("((", "))", NodeShape::Circle),
+            ("([", "])", NodeShape::Stadium),
+            ("{{", "}}", NodeShape::Hexagon),
+            ("[", "]", NodeShape::Rectangle),
+            ("(", ")", NodeShape::RoundedRect),
+            ("{", "}", NodeShape::Diamond),
+        ] {
+            if let Some(inner) = s[start..].strip_prefix(open)
+                && let Some(end) = inner.rfind(close)
+            {
+                let id = s[..start].trim().to_string();
+                let label = inner[..end].trim().trim_matches('"').to_string();
                 return (id.clone(), Some(FlowNode { id, label, shape }));
             }
         }
@@ -200,7 +223,7 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
     let mut connectors = Vec::new();
     let node_count = flowchart.nodes.len();
 
-    if node_count == 0 {
+    if node_count == 0 && flowchart.subgraphs.is_empty() {
         return DiagramElements {
             shapes,
             connectors,
@@ -377,8 +400,10 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
             };
 
             let mut connector = Connector::new(connector_type, start_x, start_y, end_x, end_y)
-                .with_line(ConnectorLine::new(line_color, 19050).with_dash(line_dash))
-                .with_end_arrow(ArrowType::Triangle);
+                .with_line(ConnectorLine::new(line_color, 19050).with_dash(line_dash));
+            if conn.arrow_type != ArrowStyle::Open {
+                connector = connector.with_end_arrow(ArrowType::Triangle);
+            }
 
             // Anchor connector to shapes for auto-routing
             if let Some(from_id) = from_shape_id {
-- 
2.43.0


From 9bc2fc6e734dc0dfd7a5c2eaa58a774f03eda278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:22 +0000
Subject: [PATCH 90/99] fix: entity diagrams keep their entities in order and
 whole

---
 src/cli/markdown/mermaid/er_diagram.rs | 46 +++++++++++---------------
 src/cli/markdown/mermaid/types.rs      | 38 +++++++++++++++++++++
 2 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/src/cli/markdown/mermaid/er_diagram.rs b/src/cli/markdown/mermaid/er_diagram.rs
index ef1ab15..3e78f86 100644
--- a/src/cli/markdown/mermaid/er_diagram.rs
+++ b/src/cli/markdown/mermaid/er_diagram.rs
@@ -1,18 +1,29 @@
 //! ER diagram parsing and rendering
 
-use super::types::DiagramElements;
+use super::types::{DiagramElements, split_relation};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// Index of an entity, added at the end when it is new
+fn entity_index(entities: &mut Vec<(String, Vec<String>)>, name: &str) -> usize {
+    match entities.iter().position(|(known, _)| known == name) {
+        Some(index) => index,
+        None => {
+            entities.push((name.to_string(), Vec::new()));
+            entities.len() - 1
+        }
+    }
+}
+
 /// Generate shapes and connectors for an ER diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut entities: HashMap<String, Vec<String>> = HashMap::new();
+    let mut entities: Vec<(String, Vec<String>)> = Vec::new();
     let mut relationships: Vec<(String, String, String)> = Vec::new();
     let mut current_entity = String::new();
 
@@ -22,8 +33,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             continue;
         }
 
-        if line.contains("||") || line.contains("}|") || line.contains("|{") || line.contains("o{")
-        {
+        if current_entity.is_empty() && (line.contains("--") || line.contains("..")) {
             // Extract relationship label after colon
             let (rel_part, label) = if let Some(colon_pos) = line.find(':') {
                 let label_part = line[colon_pos + 1..].trim();
@@ -34,35 +44,19 @@ pub fn generate_elements(code: &str) -> DiagramElements {
                 (line, String::new())
             };
 
-            let parts: Vec<&str> = rel_part
-                .split(|c: char| c == '|' || c == '{' || c == '}' || c == 'o' || c == '-')
-                .collect();
-            let parts: Vec<&str> = parts
-                .into_iter()
-                .filter(|s| !s.is_empty() && s.chars().any(|c| c.is_alphabetic()))
-                .collect();
-            if parts.len() >= 2 {
-                let e1 = parts[0].trim().to_string();
-                let e2 = parts[parts.len() - 1].trim().to_string();
-                if !entities.contains_key(&e1) {
-                    entities.insert(e1.clone(), Vec::new());
-                }
-                if !entities.contains_key(&e2) {
-                    entities.insert(e2.clone(), Vec::new());
-                }
+            if let Some((e1, e2)) = split_relation(rel_part) {
+                entity_index(&mut entities, &e1);
+                entity_index(&mut entities, &e2);
                 relationships.push((e1, e2, label));
             }
         } else if line.contains('{') {
             current_entity = line.split('{').next().unwrap_or("").trim().to_string();
-            if !entities.contains_key(&current_entity) {
-                entities.insert(current_entity.clone(), Vec::new());
-            }
+            entity_index(&mut entities, &current_entity);
         } else if line == "}" {
             current_entity.clear();
         } else if !current_entity.is_empty() && !line.is_empty() {
-            if let Some(attrs) = entities.get_mut(&current_entity) {
-                attrs.push(line.to_string());
-            }
+            let index = entity_index(&mut entities, &current_entity);
+            entities[index].1.push(line.to_string());
         }
     }
 
diff --git a/src/cli/markdown/mermaid/types.rs b/src/cli/markdown/mermaid/types.rs
index 90a20dc..f78400d 100644
--- a/src/cli/markdown/mermaid/types.rs
+++ b/src/cli/markdown/mermaid/types.rs
@@ -120,6 +120,44 @@ impl DiagramBounds {
     }
 }
 
+/// Names on both sides of a class or entity relation like `A <|-- B` or `A ||--o{ B`
+pub(super) fn split_relation(line: &str) -> Option<(String, String)> {
+    let is_name = |c: char| c.is_alphanumeric() || c == '_';
+    let is_end = |c: char| matches!(c, '<' | '>' | '|' | '*' | '{' | '}' | '-' | '.');
+    let at = line.find("--").or_else(|| line.find(".."))?;
+
+    // An 'o' belongs to the line end only when it is no letter of a name
+    let mut left = &line[..at];
+    loop {
+        let ends = left.trim_end_matches(is_end);
+        let next = match ends.strip_suffix('o') {
+            Some(rest) if !rest.ends_with(is_name) => rest,
+            _ => ends,
+        };
+        if next.len() == left.len() {
+            break;
+        }
+        left = next;
+    }
+    let mut right = &line[at + 2..];
+    loop {
+        let ends = right.trim_start_matches(is_end);
+        let next = match ends.strip_prefix('o') {
+            Some(rest) if !rest.starts_with(is_name) => rest,
+            _ => ends,
+        };
+        if next.len() == right.len() {
+            break;
+        }
+        right = next;
+    }
+
+    // Quoted cardinalities may stand between the name and the line
+    let from = left.split_whitespace().next()?;
+    let to = right.split_whitespace().last()?;
+    Some((from.to_string(), to.to_string()))
+}
+
 /// Result containing shapes and connectors
 pub struct DiagramElements {
     pub shapes: Vec<Shape>,
-- 
2.43.0


From 970ad0c477997d2ce0858b32517832a96aa85e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:23 +0000
Subject: [PATCH 91/99] fix: class diagrams show classes declared without a
 body

---
 src/cli/markdown/mermaid/class_diagram.rs | 64 +++++++++++++----------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/cli/markdown/mermaid/class_diagram.rs b/src/cli/markdown/mermaid/class_diagram.rs
index b5335bc..106c4af 100644
--- a/src/cli/markdown/mermaid/class_diagram.rs
+++ b/src/cli/markdown/mermaid/class_diagram.rs
@@ -1,23 +1,37 @@
 //! Class diagram parsing and rendering
 
-use super::types::DiagramElements;
+use super::types::{DiagramElements, split_relation};
 use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// Name, attributes and methods of a class
+type ClassBox = (String, Vec<String>, Vec<String>);
+
+/// Index of a class, added at the end when it is new
+fn class_index(classes: &mut Vec<ClassBox>, name: &str) -> usize {
+    match classes.iter().position(|(known, _, _)| known == name) {
+        Some(index) => index,
+        None => {
+            classes.push((name.to_string(), Vec::new(), Vec::new()));
+            classes.len() - 1
+        }
+    }
+}
+
 /// Generate shapes and connectors for a class diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut classes: Vec<(String, Vec<String>, Vec<String>)> = Vec::new();
+    let mut classes: Vec<ClassBox> = Vec::new();
     let mut current_class = String::new();
     let mut current_attrs: Vec<String> = Vec::new();
     let mut current_methods: Vec<String> = Vec::new();
     let mut in_class = false;
-    let mut relationships: Vec<(String, String, String)> = Vec::new();
+    let mut relationships: Vec<(String, String)> = Vec::new();
 
     for line in code.lines().skip(1) {
         let line = line.trim();
@@ -34,15 +48,14 @@ pub fn generate_elements(code: &str) -> DiagramElements {
                 .unwrap_or("")
                 .trim()
                 .to_string();
+            class_index(&mut classes, &current_class);
             in_class = true;
             current_attrs.clear();
             current_methods.clear();
         } else if line == "}" && in_class {
-            classes.push((
-                current_class.clone(),
-                current_attrs.clone(),
-                current_methods.clone(),
-            ));
+            let index = class_index(&mut classes, &current_class);
+            classes[index].1.append(&mut current_attrs);
+            classes[index].2.append(&mut current_methods);
             in_class = false;
         } else if in_class {
             if line.contains('(') {
@@ -50,25 +63,22 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             } else if !line.is_empty() {
                 current_attrs.push(line.to_string());
             }
-        } else if line.contains("<|--") || line.contains("-->") || line.contains("--") {
-            let rel_type = if line.contains("<|--") {
-                "extends"
-            } else if line.contains("-->") {
-                "uses"
+        } else if line.contains("--") || line.contains("..") {
+            // A label may follow the relation
+            let relation = line.split(':').next().unwrap_or(line);
+            if let Some((from, to)) = split_relation(relation) {
+                class_index(&mut classes, &from);
+                class_index(&mut classes, &to);
+                relationships.push((from, to));
+            }
+        } else if let Some(name) = line.strip_prefix("class ") {
+            class_index(&mut classes, name.trim());
+        } else if let Some((name, member)) = line.split_once(':') {
+            let index = class_index(&mut classes, name.trim());
+            if member.contains('(') {
+                classes[index].2.push(member.trim().to_string());
             } else {
-                "associates"
-            };
-
-            let parts: Vec<&str> = line
-                .split(|c| c == '<' || c == '|' || c == '-' || c == '>')
-                .collect();
-            let parts: Vec<&str> = parts.into_iter().filter(|s| !s.is_empty()).collect();
-            if parts.len() >= 2 {
-                relationships.push((
-                    parts[0].trim().to_string(),
-                    parts[parts.len() - 1].trim().to_string(),
-                    rel_type.to_string(),
-                ));
+                classes[index].1.push(member.trim().to_string());
             }
         }
     }
@@ -144,7 +154,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     }
 
     // Create connectors with shape anchoring
-    for (from, to, _rel_type) in &relationships {
+    for (from, to) in &relationships {
         if let (Some(&(from_x, from_y)), Some(&(to_x, to_y))) =
             (class_positions.get(from), class_positions.get(to))
         {
-- 
2.43.0


From 11df2d1a61fe1ca98f0af8eb0b1921330a3ebad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:42 +0000
Subject: [PATCH 92/99] fix: a new git graph branch is checked out and tags
 stay out of commit names

---
 src/cli/markdown/mermaid/gitgraph.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cli/markdown/mermaid/gitgraph.rs b/src/cli/markdown/mermaid/gitgraph.rs
index bf4ba66..07bf563 100644
--- a/src/cli/markdown/mermaid/gitgraph.rs
+++ b/src/cli/markdown/mermaid/gitgraph.rs
@@ -22,7 +22,11 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             let id = if trimmed.contains("id:") {
                 let parts: Vec<&str> = trimmed.split("id:").collect();
                 if parts.len() > 1 {
-                    parts[1].trim().trim_matches('"').to_string()
+                    let rest = parts[1].trim();
+                    match rest.strip_prefix('"').and_then(|r| r.split_once('"')) {
+                        Some((quoted, _)) => quoted.to_string(),
+                        None => rest.trim_matches('"').to_string(),
+                    }
                 } else {
                     format!("C{}", commit_count)
                 }
@@ -38,7 +42,11 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
                 .trim()
                 .to_string();
             if !branch_name.is_empty() && !branches.contains(&branch_name) {
-                branches.push(branch_name);
+                branches.push(branch_name.clone());
+            }
+            // A new branch is checked out at once
+            if !branch_name.is_empty() {
+                current_branch = branch_name;
             }
         } else if trimmed.starts_with("checkout") {
             let branch_name = trimmed
-- 
2.43.0


From 6f113c7a4288894ed2d9b2765ede06c34e0aaa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:42 +0000
Subject: [PATCH 93/99] fix: timelines keep every event of a date

---
 src/cli/markdown/mermaid/timeline.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/markdown/mermaid/timeline.rs b/src/cli/markdown/mermaid/timeline.rs
index 13f8242..6c81af3 100644
--- a/src/cli/markdown/mermaid/timeline.rs
+++ b/src/cli/markdown/mermaid/timeline.rs
@@ -19,6 +19,11 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
         if line.starts_with("title") {
             title = line.strip_prefix("title").unwrap_or("").trim().to_string();
+        } else if let Some(item) = line.strip_prefix(':') {
+            // One more event of the current date
+            if !current_date.is_empty() && !item.trim().is_empty() {
+                current_items.push(item.trim().to_string());
+            }
         } else if line.contains(':') {
             if !current_date.is_empty() {
                 events.push((current_date.clone(), current_items.clone()));
-- 
2.43.0


From 6d69f6d2a2867ca66278322d05bf7f9a444cd8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:42 +0000
Subject: [PATCH 94/99] fix: tasks before the first section are shown

---
 src/cli/markdown/mermaid/gantt.rs   | 4 ++--
 src/cli/markdown/mermaid/journey.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cli/markdown/mermaid/gantt.rs b/src/cli/markdown/mermaid/gantt.rs
index d37e14d..956ddb8 100644
--- a/src/cli/markdown/mermaid/gantt.rs
+++ b/src/cli/markdown/mermaid/gantt.rs
@@ -19,7 +19,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         if line.starts_with("title") {
             title = line.strip_prefix("title").unwrap_or("").trim().to_string();
         } else if line.starts_with("section") {
-            if !current_section.is_empty() {
+            if !current_section.is_empty() || !current_tasks.is_empty() {
                 sections.push((current_section.clone(), current_tasks.clone()));
                 current_tasks.clear();
             }
@@ -39,7 +39,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         }
     }
 
-    if !current_section.is_empty() {
+    if !current_section.is_empty() || !current_tasks.is_empty() {
         sections.push((current_section, current_tasks));
     }
 
diff --git a/src/cli/markdown/mermaid/journey.rs b/src/cli/markdown/mermaid/journey.rs
index 90687f5..078aa62 100644
--- a/src/cli/markdown/mermaid/journey.rs
+++ b/src/cli/markdown/mermaid/journey.rs
@@ -17,7 +17,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
         if trimmed.starts_with("section") {
             // Save previous section
-            if !current_section.is_empty() {
+            if !current_section.is_empty() || !current_items.is_empty() {
                 sections.push((current_section.clone(), current_items.clone()));
                 current_items.clear();
             }
@@ -38,7 +38,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Save last section
-    if !current_section.is_empty() {
+    if !current_section.is_empty() || !current_items.is_empty() {
         sections.push((current_section, current_items));
     }
 
-- 
2.43.0


From 44cda9df573f3e0e2ba8316d157c58bfe582c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:42 +0000
Subject: [PATCH 95/99] fix: quadrant charts show the names of their quadrants

---
 src/cli/markdown/mermaid/quadrant.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cli/markdown/mermaid/quadrant.rs b/src/cli/markdown/mermaid/quadrant.rs
index 79ff1d4..3f44ad3 100644
--- a/src/cli/markdown/mermaid/quadrant.rs
+++ b/src/cli/markdown/mermaid/quadrant.rs
@@ -44,7 +44,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         } else if trimmed.contains('[') && trimmed.contains(']') {
             // Parse point: "Label: [x, y]"
             if let Some(bracket_start) = trimmed.find('[') {
-                let label = trimmed[..bracket_start].trim_end_matches(':').trim();
+                let label = trimmed[..bracket_start].trim().trim_end_matches(':').trim();
                 let coords = &trimmed[bracket_start..];
                 if let Some(bracket_end) = coords.find(']') {
                     let coord_str = &coords[1..bracket_end];
@@ -82,13 +82,15 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             half_h,
         )
         .with_fill(ShapeFill::new(colors[0]))
-        .with_line(ShapeLine::new("9E9E9E", 12700)),
+        .with_line(ShapeLine::new("9E9E9E", 12700))
+        .with_text(quadrant_labels[0]),
     );
     // Q2: top-left (low x, high y)
     shapes.push(
         Shape::new(ShapeType::Rectangle, chart_x, chart_y, half_w, half_h)
             .with_fill(ShapeFill::new(colors[1]))
-            .with_line(ShapeLine::new("9E9E9E", 12700)),
+            .with_line(ShapeLine::new("9E9E9E", 12700))
+            .with_text(quadrant_labels[1]),
     );
     // Q3: bottom-left (low x, low y)
     shapes.push(
@@ -100,7 +102,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             half_h,
         )
         .with_fill(ShapeFill::new(colors[2]))
-        .with_line(ShapeLine::new("9E9E9E", 12700)),
+        .with_line(ShapeLine::new("9E9E9E", 12700))
+        .with_text(quadrant_labels[2]),
     );
     // Q4: bottom-right (high x, low y)
     shapes.push(
@@ -112,7 +115,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             half_h,
         )
         .with_fill(ShapeFill::new(colors[3]))
-        .with_line(ShapeLine::new("9E9E9E", 12700)),
+        .with_line(ShapeLine::new("9E9E9E", 12700))
+        .with_text(quadrant_labels[3]),
     );
 
     // Draw points with separate labels using helper
-- 
2.43.0


From 452a1df26355fa30aa83dffba7ec1105b16751e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:42 +0000
Subject: [PATCH 96/99] fix: mindmap nodes show their labels and lie apart

---
 src/cli/markdown/mermaid/mindmap.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/cli/markdown/mermaid/mindmap.rs b/src/cli/markdown/mermaid/mindmap.rs
index ab2bf65..3faa5f3 100644
--- a/src/cli/markdown/mermaid/mindmap.rs
+++ b/src/cli/markdown/mermaid/mindmap.rs
@@ -20,8 +20,14 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         let spaces = line.len() - line.trim_start().len();
         let text = trimmed
             .trim_start_matches(|c| c == '-' || c == '+' || c == '*')
-            .trim()
-            .trim_matches(|c| c == '(' || c == ')' || c == '[' || c == ']')
+            .trim();
+        // id((Label)) shows the label
+        let text = match text.find(['(', '[', '{']) {
+            Some(open) if text.ends_with([')', ']', '}']) => &text[open..],
+            _ => text,
+        };
+        let text = text
+            .trim_matches(|c| matches!(c, '(' | ')' | '[' | ']' | '{' | '}'))
             .to_string();
 
         if text.is_empty() {
@@ -49,6 +55,11 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let node_height = 400_000u32;
     let radius1 = 2_000_000u32;
     let radius2 = 3_200_000u32;
+    let place = |radius: u32, angle: f64| {
+        let x = center_x as f64 + radius as f64 * angle.cos() - node_width as f64 / 2.0;
+        let y = center_y as f64 + radius as f64 * angle.sin() - node_height as f64 / 2.0;
+        (x.max(0.0) as u32, y.max(0.0) as u32)
+    };
 
     // Root node using helper
     shapes.extend(create_labeled_shape(
@@ -73,8 +84,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     for (i, text) in level1.iter().enumerate() {
         let angle = (i as f64) * angle_step - std::f64::consts::PI / 2.0;
-        let x = center_x + (radius1 as f64 * angle.cos()) as u32 - node_width / 2;
-        let y = center_y + (radius1 as f64 * angle.sin()) as u32 - node_height / 2;
+        let (x, y) = place(radius1, angle);
 
         let color = level1_colors[i % level1_colors.len()];
         shapes.extend(create_labeled_shape(
@@ -91,11 +101,13 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Level 2 nodes
-    for (parent_idx, text) in &level2 {
+    for (i, (parent_idx, text)) in level2.iter().enumerate() {
         if *parent_idx < level1.len() {
             let parent_angle = (*parent_idx as f64) * angle_step - std::f64::consts::PI / 2.0;
-            let x = center_x + (radius2 as f64 * parent_angle.cos()) as u32 - node_width / 2;
-            let y = center_y + (radius2 as f64 * parent_angle.sin()) as u32 - node_height / 2;
+            let (x, y) = place(radius2, parent_angle);
+            // Children of one node go below each other
+            let sibling = level2[..i].iter().filter(|(p, _)| p == parent_idx).count() as u32;
+            let y = y + sibling * (node_height + 100_000);
 
             shapes.extend(create_labeled_shape(
                 ShapeType::RoundedRectangle,
-- 
2.43.0


From 675cf90560c941fd124df576991817bb9da7b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:43 +0000
Subject: [PATCH 97/99] fix: two Mermaid diagrams on one slide do not share
 shape ids

---
 src/cli/markdown/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 055c09a..61415db 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -502,11 +502,20 @@ impl MarkdownParser {
             (0, 0)
         };
 
+        // Shape ids stay unique when the slide already holds a diagram
+        let id_shift = self
+            .current_slide
+            .iter()
+            .flat_map(|slide| slide.shapes.iter().filter_map(|shape| shape.id))
+            .max()
+            .unwrap_or(0);
+
         // Apply offset to shapes
         let shapes: Vec<_> = elements
             .shapes
             .into_iter()
             .map(|mut shape| {
+                shape.id = shape.id.map(|id| id + id_shift);
                 shape.x = (shape.x as i32 + offset_x).max(0) as u32;
                 shape.y = (shape.y as i32 + offset_y).max(0) as u32;
                 shape
@@ -518,6 +527,8 @@ impl MarkdownParser {
             .connectors
             .into_iter()
             .map(|mut conn| {
+                conn.start_shape_id = conn.start_shape_id.map(|id| id + id_shift);
+                conn.end_shape_id = conn.end_shape_id.map(|id| id + id_shift);
                 conn.start_x = (conn.start_x as i32 + offset_x).max(0) as u32;
                 conn.start_y = (conn.start_y as i32 + offset_y).max(0) as u32;
                 conn.end_x = (conn.end_x as i32 + offset_x).max(0) as u32;
-- 
2.43.0


From c4e79c6e50526ee9530171c56cf0482878ae7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:22 +0000
Subject: [PATCH 98/99] fix: run properties of code in shapes are in schema
 order

---
 src/generator/shapes_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 520603f..38b349a 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -350,7 +350,7 @@ fn generate_text_xml_with_autofit(text: &Option<String>, width: u32, height: u32
                         r#"<a:p>
 <a:pPr algn="l"/>
 <a:r>
-<a:rPr lang="en-US" sz="1200" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill></a:rPr>
+<a:rPr lang="en-US" sz="1200" dirty="0"><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr>
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
-- 
2.43.0


From 4dbf03d6419f829a41fe6b5542838d38ab9922bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:23 +0000
Subject: [PATCH 99/99] fix: every line of a shape's text is a paragraph

---
 src/generator/shapes_xml.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 38b349a..e331db0 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -383,6 +383,25 @@ fn generate_text_xml_with_autofit(text: &Option<String>, width: u32, height: u32
                 let right_inset = 91440;  // 0.1 inch
                 let bottom_inset = 45720; // 0.05 inch
                 
+                // One paragraph per line of text
+                let mut paragraphs = String::new();
+                for line in t.split('\n') {
+                    paragraphs.push_str(&format!(
+                        r#"<a:p>
+<a:pPr algn="{}" marL="0" marR="0" indent="0"/>
+<a:r>
+<a:rPr lang="en-US" sz="{}" dirty="0"><a:solidFill><a:srgbClr val="{}"/></a:solidFill></a:rPr>
+<a:t>{}</a:t>
+</a:r>
+</a:p>
+"#,
+                        alignment,
+                        font_size,
+                        text_color,
+                        escape_xml(line.strip_suffix('\r').unwrap_or(line))
+                    ));
+                }
+
                 // Use PowerPoint's auto-fit feature for additional safety
                 format!(
                     r#"<p:txBody>
@@ -390,23 +409,13 @@ fn generate_text_xml_with_autofit(text: &Option<String>, width: u32, height: u32
 <a:normAutofit/>
 </a:bodyPr>
 <a:lstStyle/>
-<a:p>
-<a:pPr algn="{}" marL="0" marR="0" indent="0"/>
-<a:r>
-<a:rPr lang="en-US" sz="{}" dirty="0"><a:solidFill><a:srgbClr val="{}"/></a:solidFill></a:rPr>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</p:txBody>"#,
+{}</p:txBody>"#,
                     anchor,
                     left_inset,
                     top_inset,
                     right_inset,
                     bottom_inset,
-                    alignment,
-                    font_size,
-                    text_color,
-                    escape_xml(t)
+                    paragraphs
                 )
             }
         }
-- 
2.43.0

