From b6a24913c5b4f8f91a477a6ac779cd925a20cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:57 +0000
Subject: [PATCH 01/56] fix: splitting a row-header no longer overwrites the
 header of the next row

---
 src/sheet_.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 89eb7d0..0c27dac 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -846,11 +846,11 @@ impl Sheet {
                 }
 
                 // back
-                if *base_row + base_span > row {
+                if *base_row + base_span > row + 1 {
                     let mut clone = row_header.clone();
                     clone.span = *base_row + base_span - (row + 1);
                     cloned.push((row + 1, clone));
-                } else if *base_row + base_span == row {
+                } else if *base_row + base_span == row + 1 {
                     // noop
                 } else {
                     unreachable!();
-- 
2.43.0


From 91329436981df2c94d7c9f61f840417f4a2dc595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:57 +0000
Subject: [PATCH 02/56] fix: splitting a col-header leaves a header for exactly
 one column

---
 src/sheet_.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 0c27dac..7ff737c 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -686,7 +686,9 @@ impl Sheet {
                         left_hdr = Some((*base_col, tmp));
                     }
 
-                    split_hdr = Some((col, col_header.clone()));
+                    let mut tmp = col_header.clone();
+                    tmp.span = 1;
+                    split_hdr = Some((col, tmp));
 
                     let right_span = (*base_col + col_header.span) - (col + 1);
                     if right_span > 0 {
-- 
2.43.0


From f118fb922248434af369ef35a31cd1f3939cb57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:57 +0000
Subject: [PATCH 03/56] fix: only merge equal col-headers if they are adjacent

---
 src/sheet_.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 7ff737c..169cd26 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -1721,7 +1721,7 @@ pub(crate) fn dedup_colheader(sheet: &mut Sheet) -> Result<(), OdsError> {
                 new = Some((col, header));
             }
             Some((new_col, new_header)) => {
-                if limited_eq(new_header, &header) {
+                if *new_col + new_header.span == col && limited_eq(new_header, &header) {
                     new_header.span += header.span;
                 } else {
                     new_col_header
-- 
2.43.0


From 96f8d0b141c7f0d6f974a72d636ee5ef6f502594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:25 +0000
Subject: [PATCH 04/56] fix: durations keep their fraction and sign when
 written and read back

---
 src/io/format.rs | 14 +++++++++-----
 src/io/parse.rs  |  8 ++++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index b3ee44f..bed0fc4 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -7,13 +7,17 @@ pub(crate) fn format_duration2(v: Duration) -> impl Display {
 
     impl Display for Tmp {
         fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            // the sign goes in front of the whole duration.
+            let sign = if self.0 < Duration::zero() { "-" } else { "" };
+            let d = self.0.abs();
             write!(
                 f,
-                "PT{}H{}M{}.{}S",
-                self.0.num_hours(),
-                self.0.num_minutes() % 60,
-                self.0.num_seconds() % 60,
-                self.0.num_milliseconds() % 1000
+                "{}PT{}H{}M{}.{:09}S",
+                sign,
+                d.num_hours(),
+                d.num_minutes() % 60,
+                d.num_seconds() % 60,
+                d.subsec_nanos()
             )
         }
     }
diff --git a/src/io/parse.rs b/src/io/parse.rs
index 3446c06..838cfbb 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -342,7 +342,8 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
 
 #[inline(always)]
 fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
-    let (_, (_, day, time)) = all_consuming(tuple((
+    let (_, (minus, _, day, time)) = all_consuming(tuple((
+        opt(byte(b'-')),
         byte(b'P'),
         // these do not occur?
         //opt(terminated(token_datepart, byte(b'Y'))),
@@ -391,7 +392,10 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
         }
     }
 
-    Ok(result)
+    match minus {
+        Some(_) => Ok(-result),
+        None => Ok(result),
+    }
 }
 
 #[inline(always)]
-- 
2.43.0


From cee9a3de1963aa64d018583ece23643e39e5496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 05/56] fix: column names beyond the u32 range are an error
 instead of an overflow

---
 src/refs/parser.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/refs/parser.rs b/src/refs/parser.rs
index 26b8edf..aa0d142 100644
--- a/src/refs/parser.rs
+++ b/src/refs/parser.rs
@@ -338,15 +338,14 @@ mod conv {
                 return Err(ParseColnameError::InvalidChar);
             }
 
-            let mut v = c as u32 - b'A' as u32;
-            if v == 25 {
-                v = 0;
-                col = (col + 1) * 26;
-            } else {
-                v += 1;
-                col *= 26;
-            }
-            col += v;
+            let v = c as u32 - b'A' as u32 + 1;
+            let Some(col26) = col.checked_mul(26) else {
+                return Err(ParseColnameError::InvalidColname);
+            };
+            let Some(sum) = col26.checked_add(v) else {
+                return Err(ParseColnameError::InvalidColname);
+            };
+            col = sum;
         }
 
         if col == 0 {
-- 
2.43.0


From 0cdacb235c91125e209cd63d51f56c1d6bb100ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 06/56] fix: quote all table names the reference parser does
 not accept unquoted

---
 src/refs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/refs.rs b/src/refs.rs
index 63d2e35..b2f716c 100644
--- a/src/refs.rs
+++ b/src/refs.rs
@@ -1125,7 +1125,11 @@ mod format_refs {
         abs: bool,
     ) -> fmt::Result {
         fmt_abs(f, abs)?;
-        if table_name.contains(['\'', ' ', '.']) {
+        // must match the characters allowed by the parser for an unquoted name.
+        if table_name
+            .chars()
+            .any(|c| c.is_ascii() && !c.is_ascii_alphanumeric() && c != '_')
+        {
             write!(f, "'")?;
             write!(f, "{}", &table_name.replace('\'', "''"))?;
             write!(f, "'")?;
-- 
2.43.0


From 28d542856ba3456914131258dcaa254da3aa6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 07/56] fix: cell! with a table honours the abs markers

---
 src/formula.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index 91816ca..a4062e9 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -148,13 +148,13 @@ macro_rules! cell {
         spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
     };
     ($table:expr => abs $row:expr, $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, false, $col)
     };
     ($table:expr => $row:expr, abs $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), false, $row, true, $col)
     };
     ($table:expr => $row:expr, $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), false, $row, false, $col)
     };
 
     ($table:expr => abs $row:expr, abs $col:expr, abs $row2:expr, abs $col2:expr) => {
-- 
2.43.0


From ffa2f5a70406d73fc17b1d83b85efef6e578010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:10 +0000
Subject: [PATCH 08/56] fix: iter_cols ends after the last cell of the range,
 size-hints do not over/underflow

---
 src/sheet_.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 169cd26..4d65e20 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -342,7 +342,8 @@ impl<'a> IterRows<'a> {
             iter: sheet.data.range(range),
             start,
             end,
-            hint: (end.0 - start.0) as usize * (end.1 * start.1) as usize,
+            hint: end.0.saturating_sub(start.0) as usize
+                * end.1.saturating_sub(start.1) as usize,
         }
     }
 }
@@ -413,31 +414,23 @@ impl<'a> IterCols<'a> {
 impl<'a> Iterator for IterCols<'a> {
     type Item = ((u32, u32), CellContentRef<'a>);
 
-    #[allow(clippy::comparison_chain)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cell.0 == self.end.0 && self.cell.1 == self.end.1 {
-            return None;
-        }
-
         loop {
             let r = self.cell.0;
             let c = self.cell.1;
-            let d = self.sheet.cell_ref(self.cell.0, self.cell.1);
 
-            if self.cell.0 + 1 < self.end.0 {
+            // past the last row or column, or an empty range.
+            if r >= self.end.0 || c >= self.end.1 {
+                return None;
+            }
+            let d = self.sheet.cell_ref(r, c);
+
+            // next row in the same column or the start of the next column.
+            if r + 1 < self.end.0 {
                 self.cell.0 += 1;
-            } else if self.cell.0 + 1 == self.end.0 {
-                if self.cell.1 + 1 < self.end.1 {
-                    self.cell.0 = self.start.0;
-                    self.cell.1 += 1;
-                } else if self.cell.1 + 1 == self.end.1 {
-                    self.cell.0 += 1;
-                    self.cell.1 += 1;
-                } else {
-                    assert_eq!(self.cell, self.end);
-                }
             } else {
-                assert_eq!(self.cell, self.end);
+                self.cell.0 = self.start.0;
+                self.cell.1 += 1;
             }
 
             if let Some(d) = d {
@@ -449,7 +442,10 @@ impl<'a> Iterator for IterCols<'a> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         (
             0,
-            Some((self.end.0 - self.start.0) as usize * (self.end.1 - self.start.1) as usize),
+            Some(
+                self.end.0.saturating_sub(self.start.0) as usize
+                    * self.end.1.saturating_sub(self.start.1) as usize,
+            ),
         )
     }
 }
-- 
2.43.0


From 100f0b139d3951a3b3a2268928c3649e96160f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:13 +0000
Subject: [PATCH 09/56] fix: unescape the currency when reading a cell

---
 src/io/parse.rs | 6 ------
 src/io/read.rs  | 4 ++--
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 838cfbb..25d1024 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -128,12 +128,6 @@ pub(crate) fn parse_string(input: KSpan<'_>) -> Result<String, OdsError> {
     Ok(String::from_utf8_lossy(input).to_string())
 }
 
-/// Parse a attribute value as a currency.
-#[inline]
-pub(crate) fn parse_currency(input: KSpan<'_>) -> Result<String, OdsError> {
-    Ok(String::from_utf8_lossy(input).to_string())
-}
-
 /// Parse a bool.
 #[inline]
 pub(crate) fn parse_bool(input: KSpan<'_>) -> Result<bool, OdsError> {
diff --git a/src/io/read.rs b/src/io/read.rs
index 3007f60..ee8885a 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -22,7 +22,7 @@ use crate::ds::detach::Detach;
 use crate::error::OdsError;
 use crate::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
 use crate::io::parse::{
-    parse_bool, parse_currency, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
+    parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
     parse_i64, parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
     parse_xlink_type,
 };
@@ -1411,7 +1411,7 @@ fn read_table_cell(
             }
             attr if attr.key.as_ref() == b"office:currency" => {
                 cell.get_or_insert_with(CellData::default);
-                tc.val_currency = Some(parse_currency(&attr.value)?);
+                tc.val_currency = Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
             attr if attr.key.as_ref() == b"table:formula" => {
                 cell.get_or_insert_with(CellData::default).formula =
-- 
2.43.0


From b0a958a0f9fd6a467f8f7f340575f8a346c4a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:14 +0000
Subject: [PATCH 10/56] fix: CellContent::new() has a repeat of 1

A cell created from CellContent::new() was stored with repeat 0 and
vanished when the sheet was written.
---
 src/cell_.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cell_.rs b/src/cell_.rs
index d2c9d70..9edca31 100644
--- a/src/cell_.rs
+++ b/src/cell_.rs
@@ -395,7 +395,7 @@ impl<'a> CellContentRef<'a> {
 }
 
 /// A copy of the relevant data for a spreadsheet cell.
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct CellContent {
     /// Cell value.
     pub value: Value,
@@ -417,6 +417,22 @@ pub struct CellContent {
     pub draw_frames: Vec<DrawFrame>,
 }
 
+impl Default for CellContent {
+    fn default() -> Self {
+        Self {
+            value: Default::default(),
+            style: None,
+            formula: None,
+            repeat: 1,
+            validation_name: None,
+            span: Default::default(),
+            matrix_span: Default::default(),
+            annotation: None,
+            draw_frames: Vec::new(),
+        }
+    }
+}
+
 impl CellContent {
     /// Empty.
     #[inline]
-- 
2.43.0


From d33dbbaf05ee1b6f45be0343321bba814ed20247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:34 +0000
Subject: [PATCH 11/56] fix: size_hint of CellIter counts the cell that is
 already loaded

---
 src/sheet_.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 4d65e20..6d2a4eb 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -314,7 +314,9 @@ impl<'a> Iterator for CellIter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter.size_hint()
+        // one cell is already loaded from the second call on.
+        let n = self.iter.len() + usize::from(self.k_data.is_some());
+        (n, Some(n))
     }
 }
 
-- 
2.43.0


From 1494f9b9524f9920710d8795071a61de105c30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:10 +0000
Subject: [PATCH 12/56] fix: fods does not add line-breaks to mixed content

Every closing tag was followed by a line-break, also within a text:p with
markup. Such texts came back with extra line-breaks.
---
 src/io/write.rs     | 5 +++++
 src/io/xmlwriter.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index d1291d4..4afdb23 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3132,6 +3132,9 @@ fn write_xmlcontent(x: &XmlContent, xml_out: &mut OdsXmlWriter<'_>) -> Result<()
 }
 
 fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
+    // might be mixed content, extra line-breaks would change the text.
+    let line_break = xml_out.set_line_break(false);
+
     xml_out.elem_if(!x.is_empty(), x.name())?;
 
     for (k, v) in x.attrmap().iter() {
@@ -3151,6 +3154,8 @@ fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsErr
 
     xml_out.end_elem_if(!x.is_empty(), x.name())?;
 
+    xml_out.set_line_break(line_break);
+
     Ok(())
 }
 
diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index 451e228..8257c6c 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -109,6 +109,11 @@ impl<W: Write> XmlWriter<W> {
         self
     }
 
+    /// Change the line-break mode. Returns the previous mode.
+    pub(crate) fn set_line_break(&mut self, line_break: bool) -> bool {
+        std::mem::replace(&mut self.line_break, line_break)
+    }
+
     /// Write the DTD. You have to take care of the encoding
     /// on the underlying Write yourself.
     pub(crate) fn dtd(&mut self, encoding: &str) -> io::Result<()> {
-- 
2.43.0


From aa73441a82b496e5b64e5657e612d6754508f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:25 +0000
Subject: [PATCH 13/56] fix: empty lines of a text are not lost when reading a
 cell

---
 src/io/read.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index ee8885a..ddea19a 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1440,7 +1440,11 @@ fn read_table_cell(
                     tc.content = append_text(TextContent::Text(String::new()), tc.content);
                 }
                 Event::Start(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    let new_txt = read_text_or_tag(ctx, xml, xml_tag, false)?;
+                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, false)? {
+                        // an empty paragraph is still an empty line.
+                        TextContent::Empty => TextContent::Text(String::new()),
+                        new_txt => new_txt,
+                    };
                     tc.content = append_text(new_txt, tc.content);
                 }
 
-- 
2.43.0


From 3affeca8608e9022f9e8ca9773bf2a3400d72222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:15 +0000
Subject: [PATCH 14/56] fix: row groups and header rows that start or end in an
 empty row

---
 src/io/write.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 4afdb23..ff9fcc4 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1965,22 +1965,7 @@ fn write_empty_rows_before(
     // Are there any row groups? Then we don't use repeat but write everything out.
     if !sheet.group_rows.is_empty() || sheet.header_rows.is_some() {
         for r in last_row..last_row + last_row_repeat {
-            if *row_header {
-                xml_out.end_elem("table:table-header-rows")?;
-            }
-            // end of the print-header
-            if let Some(header_rows) = &sheet.header_rows {
-                if header_rows.to == r {
-                    *row_header = false;
-                }
-            }
             // groups
-            for row_group in &sheet.group_rows {
-                if row_group.to() == r {
-                    *row_group_count -= 1;
-                    xml_out.end_elem("table:table-row-group")?;
-                }
-            }
             for row_group in &sheet.group_rows {
                 if row_group.from() == r {
                     *row_group_count += 1;
@@ -2001,6 +1986,21 @@ fn write_empty_rows_before(
             }
             // row
             write_empty_row(sheet, r, 1, max_cell, xml_out)?;
+            if *row_header {
+                xml_out.end_elem("table:table-header-rows")?;
+            }
+            // end of the print-header
+            if let Some(header_rows) = &sheet.header_rows {
+                if header_rows.to == r {
+                    *row_header = false;
+                }
+            }
+            for row_group in &sheet.group_rows {
+                if row_group.to() == r {
+                    *row_group_count -= 1;
+                    xml_out.end_elem("table:table-row-group")?;
+                }
+            }
         }
     } else {
         write_empty_row(sheet, last_row, last_row_repeat, max_cell, xml_out)?;
-- 
2.43.0


From 764232155a9dd808d2d4115586367a5d366659bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:39 +0000
Subject: [PATCH 15/56] fix: row headers of empty rows between data are written
 for the row they belong to

---
 src/io/write.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index ff9fcc4..99075cd 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -22,7 +22,7 @@ use crate::xmltree::{XmlContent, XmlTag};
 use crate::HashMap;
 use crate::{Length, Sheet, Value, ValueType, WorkBook};
 use std::borrow::Cow;
-use std::cmp::max;
+use std::cmp::{max, min};
 use std::collections::{BTreeMap, HashSet};
 use std::fs::File;
 use std::io::{BufWriter, Cursor, Seek, Write};
@@ -2003,7 +2003,22 @@ fn write_empty_rows_before(
             }
         }
     } else {
-        write_empty_row(sheet, last_row, last_row_repeat, max_cell, xml_out)?;
+        // Write one row for each range of rows with the same row-header.
+        let end_row = last_row + last_row_repeat;
+        let mut r = last_row;
+        while r < end_row {
+            let mut next_r = end_row;
+            if let Some((base_row, row_header)) = sheet.row_header.range(..=r).last() {
+                if *base_row + row_header.span > r {
+                    next_r = min(next_r, *base_row + row_header.span);
+                }
+            }
+            if let Some((base_row, _)) = sheet.row_header.range(r + 1..).next() {
+                next_r = min(next_r, *base_row);
+            }
+            write_empty_row(sheet, r, next_r - r, max_cell, xml_out)?;
+            r = next_r;
+        }
     }
 
     Ok(())
-- 
2.43.0


From 858f733c2a9f7f8d0ccd381447f8c52bbf963fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:38 +0000
Subject: [PATCH 16/56] fix: groups that start at the same row/column are
 written starting with the outermost

---
 src/io/write.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 99075cd..5dc4a6d 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -9,7 +9,7 @@ use crate::io::NamespaceMap;
 use crate::manifest::Manifest;
 use crate::metadata::MetaValue;
 use crate::refs::{format_cellranges, CellRange};
-use crate::sheet::Visibility;
+use crate::sheet::{Grouped, Visibility};
 use crate::sheet_::{dedup_colheader, CellDataIter};
 use crate::style::{
     CellStyle, ColStyle, FontFaceDecl, GraphicStyle, HeaderFooter, MasterPage, MasterPageRef,
@@ -1825,6 +1825,13 @@ fn write_empty_cells(
     Ok(())
 }
 
+/// Groups that start at the same row/column must be opened starting with the outermost.
+fn outer_groups_first(groups: &[Grouped]) -> Vec<&Grouped> {
+    let mut groups: Vec<_> = groups.iter().collect();
+    groups.sort_by(|a, b| a.from().cmp(&b.from()).then(b.to().cmp(&a.to())));
+    groups
+}
+
 fn write_start_current_row(
     sheet: &Sheet,
     cur_row: u32,
@@ -1835,7 +1842,7 @@ fn write_start_current_row(
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     // groups
-    for row_group in &sheet.group_rows {
+    for row_group in outer_groups_first(&sheet.group_rows) {
         if row_group.from() == cur_row {
             *row_group_count += 1;
             xml_out.elem("table:table-row-group")?;
@@ -1966,7 +1973,7 @@ fn write_empty_rows_before(
     if !sheet.group_rows.is_empty() || sheet.header_rows.is_some() {
         for r in last_row..last_row + last_row_repeat {
             // groups
-            for row_group in &sheet.group_rows {
+            for row_group in outer_groups_first(&sheet.group_rows) {
                 if row_group.from() == r {
                     *row_group_count += 1;
                     xml_out.elem("table:table-row-group")?;
@@ -2075,7 +2082,7 @@ fn write_table_columns(
             break;
         }
 
-        for grp in &sheet.group_cols {
+        for grp in outer_groups_first(&sheet.group_cols) {
             if c == grp.from() {
                 xml_out.elem("table:table-column-group")?;
                 if !grp.display() {
-- 
2.43.0


From 0d048d501dca0f1d42418eb52179c40a96e0d2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:19 +0000
Subject: [PATCH 17/56] fix: blank cells of a merged area are written as
 covered cells in every row

---
 src/io/write.rs | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 5dc4a6d..a92e4f8 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1704,6 +1704,7 @@ fn write_sheet(
                     synth_row,
                     synth_row_repeat,
                     max_cell,
+                    &spans,
                     &mut row_group_count,
                     &mut row_header,
                     xml_out,
@@ -1719,6 +1720,7 @@ fn write_sheet(
                 cur_row,
                 cur_row_repeat,
                 backward_delta_col,
+                &spans,
                 &mut row_group_count,
                 &mut row_header,
                 xml_out,
@@ -1825,6 +1827,26 @@ fn write_empty_cells(
     Ok(())
 }
 
+/// Empty cells from the start of the row. Respects cell-spans of previous rows.
+fn write_leading_cells(
+    spans: &[CellRange],
+    row: u32,
+    repeat: u32,
+    xml_out: &mut OdsXmlWriter<'_>,
+) -> Result<(), OdsError> {
+    if spans.is_empty() {
+        write_empty_cells(false, repeat, xml_out)?;
+    } else {
+        let mut split = Vec::new();
+        split_hidden(spans, row, 0, repeat, &mut split);
+        for s in &split {
+            write_empty_cells(s.hidden, s.repeat(), xml_out)?;
+        }
+    }
+
+    Ok(())
+}
+
 /// Groups that start at the same row/column must be opened starting with the outermost.
 fn outer_groups_first(groups: &[Grouped]) -> Vec<&Grouped> {
     let mut groups: Vec<_> = groups.iter().collect();
@@ -1837,6 +1859,7 @@ fn write_start_current_row(
     cur_row: u32,
     cur_row_repeat: u32,
     backward_delta_col: u32,
+    spans: &[CellRange],
     row_group_count: &mut u32,
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
@@ -1890,10 +1913,7 @@ fn write_start_current_row(
 
     // Might not be the first column in this row.
     if backward_delta_col > 0 {
-        xml_out.empty("table:table-cell")?;
-        if backward_delta_col > 1 {
-            xml_out.attr_esc("table:number-columns-repeated", &backward_delta_col)?;
-        }
+        write_leading_cells(spans, cur_row, backward_delta_col, xml_out)?;
     }
 
     Ok(())
@@ -1965,6 +1985,7 @@ fn write_empty_rows_before(
     last_row: u32,
     last_row_repeat: u32,
     max_cell: (u32, u32),
+    spans: &[CellRange],
     row_group_count: &mut u32,
     row_header: &mut bool,
     xml_out: &mut OdsXmlWriter<'_>,
@@ -1992,7 +2013,7 @@ fn write_empty_rows_before(
                 xml_out.elem("table:table-header-rows")?;
             }
             // row
-            write_empty_row(sheet, r, 1, max_cell, xml_out)?;
+            write_empty_row(sheet, r, 1, max_cell, spans, xml_out)?;
             if *row_header {
                 xml_out.end_elem("table:table-header-rows")?;
             }
@@ -2010,7 +2031,8 @@ fn write_empty_rows_before(
             }
         }
     } else {
-        // Write one row for each range of rows with the same row-header.
+        // Write one row for each range of rows with the same row-header
+        // and the same covered cells.
         let end_row = last_row + last_row_repeat;
         let mut r = last_row;
         while r < end_row {
@@ -2023,7 +2045,12 @@ fn write_empty_rows_before(
             if let Some((base_row, _)) = sheet.row_header.range(r + 1..).next() {
                 next_r = min(next_r, *base_row);
             }
-            write_empty_row(sheet, r, next_r - r, max_cell, xml_out)?;
+            for span in spans {
+                if span.to_row() >= r {
+                    next_r = min(next_r, span.to_row() + 1);
+                }
+            }
+            write_empty_row(sheet, r, next_r - r, max_cell, spans, xml_out)?;
             r = next_r;
         }
     }
@@ -2036,6 +2063,7 @@ fn write_empty_row(
     cur_row: u32,
     row_repeat: u32,
     max_cell: (u32, u32),
+    spans: &[CellRange],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("table:table-row")?;
@@ -2053,8 +2081,7 @@ fn write_empty_row(
     }
 
     // We fill the empty spaces completely up to max columns.
-    xml_out.empty("table:table-cell")?;
-    xml_out.attr("table:number-columns-repeated", &max_cell.1)?;
+    write_leading_cells(spans, cur_row, max_cell.1, xml_out)?;
 
     xml_out.end_elem("table:table-row")?;
 
-- 
2.43.0


From 3a5a21ed82cda7d88a9fed2ec557320ab4637ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:07 +0000
Subject: [PATCH 18/56] fix: read the page-view zoom of the sheet

---
 src/io/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index ddea19a..8a41f80 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -721,6 +721,9 @@ fn calc_derived(book: &mut WorkBook) -> Result<(), OdsError> {
             if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["ZoomValue"]) {
                 sheet.config_mut().zoom_value = *n;
             }
+            if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["PageViewZoomValue"]) {
+                sheet.config_mut().page_view_zoom_value = *n;
+            }
             if let Some(ConfigValue::Boolean(n)) = cc.get_value_rec(&["ShowGrid"]) {
                 sheet.config_mut().show_grid = *n;
             }
-- 
2.43.0


From c74411703dfc4b62934b99ed40dd1e82057c998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:07 +0000
Subject: [PATCH 19/56] fix: end column groups that end within a column header
 with a span

---
 src/io/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index a92e4f8..c1a0b52 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2152,7 +2152,7 @@ fn write_table_columns(
         }
 
         for col_group in &sheet.group_cols {
-            if c == col_group.to() {
+            if col_group.to() >= c && col_group.to() < c + span {
                 xml_out.end_elem("table:table-column-group")?;
             }
         }
-- 
2.43.0


From 82368ab935b029a00b689518b27b983cbec9546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:18 +0000
Subject: [PATCH 20/56] fix: setting the width/height of one column/row does
 not get lost in a shared style

---
 src/io/write.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index c1a0b52..3b82348 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -482,6 +482,7 @@ fn calc_col_headers(book: &mut WorkBook) -> Result<(), OdsError> {
 
 /// Sync row/column styles with row/col header values.
 fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
+    let mut used = HashMap::default();
     for i in 0..book.num_sheets() {
         let mut sheet = book.detach_sheet(i);
 
@@ -493,13 +494,28 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                 ch.style = Some(colstyle);
             }
 
+            // A style has only one width. Use a copy of the style if it's needed
+            // for a different width too.
+            if let Some(style_name) = ch.style.as_ref() {
+                if used.get(style_name).map_or(false, |v| *v != ch.width) {
+                    if let Some(mut style) = book.colstyle(style_name).cloned() {
+                        style.set_name("");
+                        ch.style = Some(book.add_colstyle(style));
+                    }
+                }
+            }
+
             // Write back to the style.
             if let Some(style_name) = ch.style.as_ref() {
+                used.insert(style_name.clone(), ch.width);
                 if let Some(style) = book.colstyle_mut(style_name) {
                     if ch.width == Length::Default {
                         style.set_use_optimal_col_width(true);
                         style.set_col_width(Length::Default);
                     } else {
+                        if style.use_optimal_col_width().unwrap_or(true) {
+                            style.set_use_optimal_col_width(false);
+                        }
                         style.set_col_width(ch.width);
                     }
                 }
@@ -514,6 +530,7 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
 
 /// Sync row/column styles with row/col header values.
 fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
+    let mut used = HashMap::default();
     for i in 0..book.num_sheets() {
         let mut sheet = book.detach_sheet(i);
 
@@ -523,12 +540,27 @@ fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                 rh.style = Some(rowstyle);
             }
 
+            // A style has only one height. Use a copy of the style if it's needed
+            // for a different height too.
             if let Some(style_name) = rh.style.as_ref() {
+                if used.get(style_name).map_or(false, |v| *v != rh.height) {
+                    if let Some(mut style) = book.rowstyle(style_name).cloned() {
+                        style.set_name("");
+                        rh.style = Some(book.add_rowstyle(style));
+                    }
+                }
+            }
+
+            if let Some(style_name) = rh.style.as_ref() {
+                used.insert(style_name.clone(), rh.height);
                 if let Some(style) = book.rowstyle_mut(style_name) {
                     if rh.height == Length::Default {
                         style.set_use_optimal_row_height(true);
                         style.set_row_height(Length::Default);
                     } else {
+                        if style.use_optimal_row_height().unwrap_or(true) {
+                            style.set_use_optimal_row_height(false);
+                        }
                         style.set_row_height(rh.height);
                     }
                 }
-- 
2.43.0


From bac7fce88c823fdb4b31a89b37d22e7ed6bfbb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:39 +0000
Subject: [PATCH 21/56] fix: AttrMap2::add_all replaces existing attributes

---
 src/attrmap2.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/attrmap2.rs b/src/attrmap2.rs
index ae7804e..94cf91f 100644
--- a/src/attrmap2.rs
+++ b/src/attrmap2.rs
@@ -49,8 +49,7 @@ impl AttrMap2 {
     #[inline]
     pub fn add_all<'a, V: Into<String>, I: IntoIterator<Item = (&'a str, V)>>(&mut self, data: I) {
         for (k, v) in data {
-            self.keys.push(DefaultAtom::from(k));
-            self.values.push(v.into().into_boxed_str());
+            self.set_attr(k, v);
         }
     }
 
-- 
2.43.0


From b4c145d23864f884d21691553f2c33ceec4cc506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:45 +0000
Subject: [PATCH 22/56] fix: pc! and em! macros

---
 src/macro_units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro_units.rs b/src/macro_units.rs
index efcfe75..12e99cc 100644
--- a/src/macro_units.rs
+++ b/src/macro_units.rs
@@ -58,7 +58,7 @@ macro_rules! pt {
 #[macro_export]
 macro_rules! pc {
     ($l:expr) => {
-        $crate::Length::Pc($l into()).into()
+        $crate::Length::Pc($l.into()).into()
     };
 }
 
@@ -66,6 +66,6 @@ macro_rules! pc {
 #[macro_export]
 macro_rules! em {
     ($l:expr) => {
-        $crate::Length::Em($l into()).into()
+        $crate::Length::Em($l.into()).into()
     };
 }
-- 
2.43.0


From 3ad64f8f0d405b5b7e3a9025d5e48d693f2e4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:34 +0000
Subject: [PATCH 23/56] fix: dates after the year 9999 are written without a
 plus sign

---
 src/io/format.rs | 20 +++++++++++++++++++-
 src/io/write.rs  | 19 +++++++++----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index bed0fc4..a08d111 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -1,7 +1,25 @@
 use crate::validation::Validation;
-use chrono::Duration;
+use chrono::{Datelike, Duration, NaiveDateTime};
 use std::fmt::{Display, Formatter};
 
+/// XML Schema datetime. There is no plus sign for years > 9999.
+pub(crate) fn format_datetime(v: NaiveDateTime) -> impl Display {
+    struct Tmp(NaiveDateTime);
+
+    impl Display for Tmp {
+        fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            if self.0.year() > 9999 {
+                write!(f, "{}", self.0.year())?;
+            } else {
+                write!(f, "{}", self.0.format("%Y"))?;
+            }
+            write!(f, "{}", self.0.format("-%m-%dT%H:%M:%S%.f"))
+        }
+    }
+
+    Tmp(v)
+}
+
 pub(crate) fn format_duration2(v: Duration) -> impl Display {
     struct Tmp(Duration);
 
diff --git a/src/io/write.rs b/src/io/write.rs
index 3b82348..f5c22ce 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3,7 +3,7 @@ use crate::config::{ConfigItem, ConfigItemType, ConfigValue};
 use crate::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
 use crate::error::OdsError;
 use crate::format::{FormatPartType, ValueFormatTrait};
-use crate::io::format::{format_duration2, format_validation_condition};
+use crate::io::format::{format_datetime, format_duration2, format_validation_condition};
 use crate::io::xmlwriter::XmlWriter;
 use crate::io::NamespaceMap;
 use crate::manifest::Manifest;
@@ -36,7 +36,6 @@ mod tests;
 
 type OdsXmlWriter<'a> = XmlWriter<&'a mut dyn Write>;
 
-const DATETIME_FORMAT: &str = "%Y-%m-%dT%H:%M:%S%.f";
 
 #[allow(dead_code)]
 trait SeekWrite: Seek + Write {}
@@ -825,13 +824,13 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
         xml_out.elem_text_esc("meta:printed-by", &book.metadata.printed_by)?;
     }
     if let Some(v) = book.metadata.creation_date {
-        xml_out.elem_text("meta:creation-date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("meta:creation-date", &format_datetime(v))?;
     }
     if let Some(v) = book.metadata.date {
-        xml_out.elem_text("dc:date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("dc:date", &format_datetime(v))?;
     }
     if let Some(v) = book.metadata.print_date {
-        xml_out.elem_text("meta:print-date", &v.format(DATETIME_FORMAT))?;
+        xml_out.elem_text("meta:print-date", &format_datetime(v))?;
     }
     if !book.metadata.language.is_empty() {
         xml_out.elem_text_esc("dc:language", &book.metadata.language)?;
@@ -849,7 +848,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     if !book.metadata.template.is_empty() {
         xml_out.empty("meta:template")?;
         if let Some(v) = book.metadata.template.date {
-            xml_out.attr("meta:date", &v.format(DATETIME_FORMAT))?;
+            xml_out.attr("meta:date", &format_datetime(v))?;
         }
         if let Some(v) = book.metadata.template.actuate {
             xml_out.attr("xlink:actuate", &v)?;
@@ -929,7 +928,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
         }
         match &userdef.value {
             MetaValue::Boolean(v) => xml_out.text_str(if *v { "true" } else { "false" })?,
-            MetaValue::Datetime(v) => xml_out.text(&v.format(DATETIME_FORMAT))?,
+            MetaValue::Datetime(v) => xml_out.text(&format_datetime(*v))?,
             MetaValue::Float(v) => xml_out.text(&v)?,
             MetaValue::TimeDuration(v) => xml_out.text(&format_duration2(*v))?,
             MetaValue::String(v) => xml_out.text_esc(v)?,
@@ -1141,7 +1140,7 @@ fn write_config_item(
         }
         ConfigValue::DateTime(v) => {
             xml_out.attr_str("config:type", "datetime")?;
-            xml_out.text(&v.format(DATETIME_FORMAT))?;
+            xml_out.text(&format_datetime(*v))?;
         }
         ConfigValue::Double(v) => {
             xml_out.attr_str("config:type", "double")?;
@@ -2277,7 +2276,7 @@ fn write_cell(
         }
         Value::DateTime(d) => {
             xml_out.attr_str("office:value-type", "date")?;
-            let value = d.format(DATETIME_FORMAT);
+            let value = format_datetime(*d);
             xml_out.attr("office:date-value", &value)?;
             xml_out.elem("text:p")?;
             xml_out.text(&value)?;
@@ -2414,7 +2413,7 @@ fn write_annotation(
     }
     if let Some(date) = annotation.date() {
         xml_out.elem("dc:date")?;
-        xml_out.text_esc(&date.format(DATETIME_FORMAT))?;
+        xml_out.text_esc(&format_datetime(*date))?;
         xml_out.end_elem("dc:date")?;
     }
     for v in annotation.text() {
-- 
2.43.0


From 40b2b1e2b6f67b05b16cfea24fa54d1513e31c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:40 +0000
Subject: [PATCH 24/56] fix: out of range durations are an error instead of an
 overflow

---
 src/io/parse.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 25d1024..73ca2cf 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -354,34 +354,25 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
         ))),
     )))(input)?;
 
-    let mut result = Duration::try_seconds(0).ok_or(nom::Err::Error(KTokenizerError::new(
-        RCode::Duration,
-        input,
-    )))?;
+    // out of range durations are an error.
+    let err = || nom::Err::Error(KTokenizerError::new(RCode::Duration, input));
+    let add = |a: Duration, b: Option<Duration>| b.and_then(|b| a.checked_add(&b)).ok_or_else(err);
+
+    let mut result = Duration::zero();
     if let Some(day) = day {
-        result += Duration::try_days(day).ok_or(nom::Err::Error(KTokenizerError::new(
-            RCode::Duration,
-            input,
-        )))?;
+        result = add(result, Duration::try_days(day))?;
     }
     if let Some((_, hour, minute, second)) = time {
         if let Some(hour) = hour {
-            result += Duration::try_hours(hour).ok_or(nom::Err::Error(KTokenizerError::new(
-                RCode::Duration,
-                input,
-            )))?;
+            result = add(result, Duration::try_hours(hour))?;
         }
         if let Some(minute) = minute {
-            result += Duration::try_minutes(minute).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            result = add(result, Duration::try_minutes(minute))?;
         }
         if let Some((second, nanos)) = second {
-            result += Duration::try_seconds(second).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            result = add(result, Duration::try_seconds(second))?;
             if let Some(nanos) = nanos {
-                result += Duration::nanoseconds(nanos);
+                result = add(result, Some(Duration::nanoseconds(nanos)))?;
             }
         }
     }
-- 
2.43.0


From 88651fb1cce8c0a1ace9e4aa6c7003a17716e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:00 +0000
Subject: [PATCH 25/56] fix: negative infinity is written and read back

---
 src/io/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 73ca2cf..5d81fa6 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -243,6 +243,10 @@ fn token_i64(input: KSpan<'_>) -> KTokenResult<'_, i64> {
 
 #[inline(always)]
 fn token_float(input: KSpan<'_>) -> KTokenResult<'_, f64> {
+    // double() knows inf but only without a sign.
+    if input.eq_ignore_ascii_case(b"-inf") {
+        return Ok(f64::NEG_INFINITY);
+    }
     let (_, result) = all_consuming(double)(input)?;
     Ok(result)
 }
-- 
2.43.0


From 0cb42c567bd7e9c86ec695ed7d3c1ab8510592f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 26/56] fix: escape the generator and the names of user defined
 metadata

---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index f5c22ce..0f0d8ed 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -801,7 +801,7 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
 fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     xml_out.elem("office:meta")?;
 
-    xml_out.elem_text("meta:generator", &book.metadata.generator)?;
+    xml_out.elem_text_esc("meta:generator", &book.metadata.generator)?;
     if !book.metadata.title.is_empty() {
         xml_out.elem_text_esc("dc:title", &book.metadata.title)?;
     }
@@ -913,7 +913,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 
     for userdef in &book.metadata.user_defined {
         xml_out.elem("meta:user-defined")?;
-        xml_out.attr("meta:name", &userdef.name)?;
+        xml_out.attr_esc("meta:name", &userdef.name)?;
         if !matches!(userdef.value, MetaValue::String(_)) {
             xml_out.attr_str(
                 "meta:value-type",
-- 
2.43.0


From 7c0f67023ee5eb00d9e5b9647d5c15d52170f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 27/56] fix: end tag of office:script

---
 src/io/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 0f0d8ed..acbd727 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2432,7 +2432,7 @@ fn write_scripts(scripts: &Vec<Script>, xml_out: &mut OdsXmlWriter<'_>) -> Resul
             write_xmlcontent(content, xml_out)?;
         }
 
-        xml_out.end_elem("/office:script")?;
+        xml_out.end_elem("office:script")?;
     }
 
     Ok(())
-- 
2.43.0


From 2e221515b550dc126b4ccef908e87162c1402028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 28/56] fix: write event listeners inside office:scripts

---
 src/io/write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index acbd727..cdc19c6 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1435,10 +1435,11 @@ fn write_office_body(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 }
 
 fn write_office_scripts(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    xml_out.elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    let has_content = !book.scripts.is_empty() || !book.event_listener.is_empty();
+    xml_out.elem_if(has_content, "office:scripts")?;
     write_scripts(&book.scripts, xml_out)?;
     write_event_listeners(&book.event_listener, xml_out)?;
-    xml_out.end_elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    xml_out.end_elem_if(has_content, "office:scripts")?;
     Ok(())
 }
 
-- 
2.43.0


From d050945a1ba39c2ccb9e6ecbee93f9e4b914a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 29/56] fix: xlink:actuate values as defined by xlink and
 expected by the reader

---
 src/xlink.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xlink.rs b/src/xlink.rs
index 8bb20fb..ea2fb84 100644
--- a/src/xlink.rs
+++ b/src/xlink.rs
@@ -15,8 +15,8 @@ pub enum XLinkActuate {
 impl Display for XLinkActuate {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            XLinkActuate::OnLoad => write!(f, "OnLoad"),
-            XLinkActuate::OnRequest => write!(f, "OnRequest"),
+            XLinkActuate::OnLoad => write!(f, "onLoad"),
+            XLinkActuate::OnRequest => write!(f, "onRequest"),
         }
     }
 }
-- 
2.43.0


From 7d9fbd4aac25a6bb7a0f438acbe489b4349f09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 30/56] fix: metadata written as empty elements is read back

---
 src/io/read.rs  | 18 +++++++++++++-----
 src/io/write.rs |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 8a41f80..68561ba 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3936,23 +3936,31 @@ fn read_office_meta(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
                     read_metadata_value(ctx, xml, xml_tag, parse_duration, Duration::default)?;
             }
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:template" =>
+            {
                 ctx.book.metadata.template = read_metadata_template(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:auto-reload" =>
+            {
                 ctx.book.metadata.auto_reload = read_metadata_auto_reload(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" =>
+            {
                 ctx.book.metadata.hyperlink_behaviour =
                     read_metadata_hyperlink_behaviour(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:document-statistic" =>
+            {
                 ctx.book.metadata.document_statistics =
                     read_metadata_document_statistics(ctx, xml_tag)?;
             }
@@ -4066,7 +4074,7 @@ fn read_metadata_hyperlink_behaviour(
 
     for attr in tag.attributes().with_checks(false) {
         match attr? {
-            attr if attr.key.as_ref() == b"office:targetframe-name" => {
+            attr if attr.key.as_ref() == b"office:target-frame-name" => {
                 hyperlink_behaviour.target_frame_name =
                     Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
diff --git a/src/io/write.rs b/src/io/write.rs
index cdc19c6..3447518 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -865,7 +865,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     }
 
     if !book.metadata.auto_reload.is_empty() {
-        xml_out.empty("meta:auto_reload")?;
+        xml_out.empty("meta:auto-reload")?;
         if let Some(v) = book.metadata.auto_reload.delay {
             xml_out.attr("meta:delay", &format_duration2(v))?;
         }
-- 
2.43.0


From b6a735554d5971a8b3d13f2c57f6106845efda8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 31/56] fix: user defined metadata with entities is read
 completely

---
 src/io/read.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 68561ba..df07eef 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4163,6 +4163,7 @@ fn read_metadata_user_defined(
     }
 
     let mut buf = ctx.pop_buf();
+    let mut text = String::new();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
         if cfg!(feature = "dump_xml") {
@@ -4173,14 +4174,11 @@ fn read_metadata_user_defined(
             Event::End(xml_tag) if xml_tag.name() == tag.name() => {
                 break;
             }
+            Event::GeneralRef(xml_ref) => {
+                text.push_str(entity(xml_ref)?.as_ref());
+            }
             Event::Text(xml_text) => {
-                user_defined.value = match value_type {
-                    Some("boolean") => MetaValue::Boolean(parse_bool(xml_text)?),
-                    Some("date") => MetaValue::Datetime(parse_datetime(xml_text)?),
-                    Some("float") => MetaValue::Float(parse_f64(xml_text)?),
-                    Some("time") => MetaValue::TimeDuration(parse_duration(xml_text)?),
-                    _ => MetaValue::String(xml_text.decode()?.to_string()),
-                };
+                text.push_str(xml_text.decode()?.as_ref());
             }
             Event::Eof => {
                 break;
@@ -4194,6 +4192,16 @@ fn read_metadata_user_defined(
     }
     ctx.push_buf(buf);
 
+    if !text.is_empty() {
+        user_defined.value = match value_type {
+            Some("boolean") => MetaValue::Boolean(parse_bool(text.as_bytes())?),
+            Some("date") => MetaValue::Datetime(parse_datetime(text.as_bytes())?),
+            Some("float") => MetaValue::Float(parse_f64(text.as_bytes())?),
+            Some("time") => MetaValue::TimeDuration(parse_duration(text.as_bytes())?),
+            _ => MetaValue::String(text),
+        };
+    }
+
     Ok(user_defined)
 }
 
-- 
2.43.0


From 26cc44630fb50d9db1d6651ef62cf5b3f37fc49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 32/56] fix: error and help messages of a validation are kept
 when reading

---
 src/io/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index df07eef..2090eff 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2079,7 +2079,7 @@ fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             println!(" read_validations {:?}", evt);
         }
         match &evt {
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
                 read_validation(ctx, &mut valid, xml_tag)?;
                 ctx.book.add_validation(valid);
                 valid = Validation::new();
-- 
2.43.0


From 29e3a9115f637af836db38361cd34b786bfa7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 33/56] fix: table:display-list=none for
 ValidationDisplay::NoDisplay

---
 src/io/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 3447518..b4bcce9 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1461,7 +1461,7 @@ fn write_content_validations(
             xml_out.attr_str(
                 "table:display-list",
                 match valid.display() {
-                    ValidationDisplay::NoDisplay => "no",
+                    ValidationDisplay::NoDisplay => "none",
                     ValidationDisplay::Unsorted => "unsorted",
                     ValidationDisplay::SortAscending => "sort-ascending",
                 },
-- 
2.43.0


From 670de5ea0200ef6ee3f154981041c1a3421eca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:03 +0000
Subject: [PATCH 34/56] fix: all fonts keep the origin they are read from

---
 src/io/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 2090eff..519ffff 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1952,7 +1952,7 @@ fn read_office_font_face_decls(
                 ctx.book.add_font(font);
 
                 font = FontFaceDecl::new_empty();
-                font.set_origin(StyleOrigin::Content);
+                font.set_origin(origin);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:font-face-decls" => {
                 break;
-- 
2.43.0


From 7deb2e071a53f384d45ee9b97ccea71ddc8ed2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:34 +0000
Subject: [PATCH 35/56] fix: read xml content with nested elements of the same
 name

---
 src/io/read.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 519ffff..5c9917d 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4750,7 +4750,7 @@ fn read_xml(
                     stack.push(tag);
                 }
                 Event::End(xml_tag) => {
-                    if xml_tag.name() == super_tag.name() {
+                    if stack.len() == 1 && xml_tag.name() == super_tag.name() {
                         break;
                     } else {
                         let tag = stack.pop().expect("valid stack");
@@ -4926,14 +4926,7 @@ fn read_text_or_tag(
                         }
                     };
                 }
-                Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
-                    if !stack.is_empty() {
-                        return Err(OdsError::Ods(format!(
-                            "XML corrupted. Endtag {} occured before all elements are closed: {:?}",
-                            from_utf8(super_tag.name().as_ref())?,
-                            stack
-                        )));
-                    }
+                Event::End(xml_tag) if stack.is_empty() && xml_tag.name() == super_tag.name() => {
                     break;
                 }
                 Event::End(xml_tag) => {
-- 
2.43.0


From 6de91831a3431e8df2ff7b86780a4ae638bd8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:34 +0000
Subject: [PATCH 36/56] fix: an empty office:script element doesn't swallow the
 rest of the document

---
 src/io/read.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 5c9917d..56bfef9 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1835,6 +1835,7 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!("read_scripts {:?}", evt);
         }
@@ -1846,7 +1847,7 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"office:script" =>
             {
-                let script = read_script(ctx, xml, xml_tag)?;
+                let script = read_script(ctx, xml, xml_tag, empty_tag)?;
                 ctx.book.add_script(script);
             }
 
@@ -1880,8 +1881,9 @@ fn read_script(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Script, OdsError> {
-    let v = read_xml(ctx, xml, super_tag, false)?;
+    let v = read_xml(ctx, xml, super_tag, empty_tag)?;
     let script: Script = Script {
         script_lang: v
             .get_attr("script:language")
-- 
2.43.0


From 0a31519ff41bdd2ddcad9ff13648e3ca7661a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:34 +0000
Subject: [PATCH 37/56] fix: a validation without error message is read without
 error message

---
 src/io/read.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 56bfef9..f01b3a2 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2226,6 +2226,8 @@ fn read_validation(
     valid: &mut Validation,
     super_tag: &BytesStart<'_>,
 ) -> Result<(), OdsError> {
+    // only there if there is a table:error-message element.
+    valid.set_err(None);
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:name" => {
-- 
2.43.0


From f219c1bd8f5f8f6b80a526db367f75edfa2b4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:46 +0000
Subject: [PATCH 38/56] fix: the text of validation messages is not nested in a
 second message element

---
 src/io/read.rs  | 15 ++++++++++++---
 src/io/write.rs | 16 ++++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index f01b3a2..4a488db 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -45,7 +45,7 @@ use crate::style::{
 use crate::text::{TextP, TextTag};
 use crate::validation::{MessageType, Validation, ValidationError, ValidationHelp, ValidationRef};
 use crate::workbook::{EventListener, Script};
-use crate::xmltree::XmlTag;
+use crate::xmltree::{XmlContent, XmlTag};
 use crate::{
     CellStyle, CellStyleRef, Length, Sheet, Value, ValueFormatBoolean, ValueFormatCurrency,
     ValueFormatDateTime, ValueFormatNumber, ValueFormatPercentage, ValueFormatText,
@@ -2122,6 +2122,15 @@ fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
     Ok(())
 }
 
+// The text is the content of the table:error-message/table:help-message.
+// The enclosing tag is only kept if there is more than one paragraph.
+fn unwrap_validation_text(tag: XmlTag) -> XmlTag {
+    match tag.content().as_slice() {
+        [XmlContent::Tag(text)] => text.clone(),
+        _ => tag,
+    }
+}
+
 fn read_validation_help(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
@@ -2150,7 +2159,7 @@ fn read_validation_help(
     match txt {
         TextContent::Empty => {}
         TextContent::Xml(txt) => {
-            vh.set_text(Some(txt));
+            vh.set_text(Some(unwrap_validation_text(txt)));
         }
         _ => {
             return Err(OdsError::Ods(format!(
@@ -2206,7 +2215,7 @@ fn read_validation_error(
     match txt {
         TextContent::Empty => {}
         TextContent::Xml(txt) => {
-            ve.set_text(Some(txt));
+            ve.set_text(Some(unwrap_validation_text(txt)));
         }
         _ => {
             return Err(OdsError::Ods(format!(
diff --git a/src/io/write.rs b/src/io/write.rs
index b4bcce9..439c5ab 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1443,6 +1443,18 @@ fn write_office_scripts(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
     Ok(())
 }
 
+fn write_validation_text(text: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
+    match text.name() {
+        "table:error-message" | "table:help-message" => {
+            for content in text.content() {
+                write_xmlcontent(content, xml_out)?;
+            }
+        }
+        _ => write_xmltag(text, xml_out)?,
+    }
+    Ok(())
+}
+
 fn write_content_validations(
     book: &WorkBook,
     xml_out: &mut OdsXmlWriter<'_>,
@@ -1476,7 +1488,7 @@ fn write_content_validations(
                     xml_out.attr_esc("table:title", title)?;
                 }
                 if let Some(text) = err.text() {
-                    write_xmltag(text, xml_out)?;
+                    write_validation_text(text, xml_out)?;
                 }
                 xml_out.end_elem_if(err.text().is_some(), "table:error-message")?;
             }
@@ -1487,7 +1499,7 @@ fn write_content_validations(
                     xml_out.attr_esc("table:title", title)?;
                 }
                 if let Some(text) = err.text() {
-                    write_xmltag(text, xml_out)?;
+                    write_validation_text(text, xml_out)?;
                 }
                 xml_out.end_elem_if(err.text().is_some(), "table:help-message")?;
             }
-- 
2.43.0


From 2a42ffe42fe11b2299eb11bad3eacec762d6bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:38 +0000
Subject: [PATCH 39/56] fix: embedded text of a number format with entities or
 surrounding whitespace

---
 src/io/read.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 4a488db..9a889d2 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2981,6 +2981,7 @@ fn read_part_number(
 
     if !empty_tag {
         let mut buf = ctx.pop_buf();
+        let mut embedded_text = false;
         loop {
             let evt = xml.read_event_into(&mut buf)?;
             if cfg!(feature = "dump_xml") {
@@ -2990,6 +2991,7 @@ fn read_part_number(
                 Event::Start(xml_tag) | Event::Empty(xml_tag)
                     if xml_tag.name().as_ref() == b"number:embedded-text" =>
                 {
+                    embedded_text = matches!(evt, Event::Start(_));
                     for attr in xml_tag.attributes().with_checks(false) {
                         let attr = attr?;
                         match attr.key.as_ref() {
@@ -3006,10 +3008,16 @@ fn read_part_number(
                         }
                     }
                 }
-                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {}
-                Event::Text(xml_text) => {
-                    part.set_content(parse_string(xml_text.as_ref())?);
+                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {
+                    embedded_text = false;
+                }
+                Event::GeneralRef(xml_ref) if embedded_text => {
+                    part.append_content(entity(xml_ref)?);
+                }
+                Event::Text(xml_text) if embedded_text => {
+                    part.append_content(xml_text.decode()?);
                 }
+                Event::Text(_) => {}
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
-- 
2.43.0


From 4bf2e92dde0cca809a2a441c2e970293a6e8bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:38 +0000
Subject: [PATCH 40/56] fix: fonts with origin styles are written to fods too

---
 src/io/write.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index 439c5ab..1b340c0 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -163,6 +163,9 @@ fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), Od
 }
 
 fn convert(book: &mut WorkBook) -> Result<(), OdsError> {
+    for v in book.fonts.values_mut() {
+        v.set_origin(StyleOrigin::Content);
+    }
     for v in book.tablestyles.values_mut() {
         v.set_origin(StyleOrigin::Content);
     }
-- 
2.43.0


From 9283b2f77b11cfa909d76791471623b5f2c78495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:59 +0000
Subject: [PATCH 41/56] fix: named and default styles with origin content are
 not lost

---
 src/io/write.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 1b340c0..5023e45 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -330,7 +330,7 @@ fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
     write_office_settings(book, xml_out)?;
     write_office_scripts(book, xml_out)?;
     write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_styles(book, xml_out)?;
     write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
     write_office_master_styles(book, xml_out)?;
     write_office_body(book, xml_out)?;
@@ -1268,7 +1268,7 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
     xml_out.attr_esc("office:version", book.version())?;
 
     write_office_font_face_decls(book, StyleOrigin::Styles, xml_out)?;
-    write_office_styles(book, StyleOrigin::Styles, xml_out)?;
+    write_office_styles(book, xml_out)?;
     write_office_automatic_styles(book, StyleOrigin::Styles, xml_out)?;
     write_office_master_styles(book, xml_out)?;
 
@@ -2497,16 +2497,15 @@ fn write_style_font_face(
     Ok(())
 }
 
-fn write_office_styles(
-    book: &WorkBook,
-    origin: StyleOrigin,
-    xml_out: &mut OdsXmlWriter<'_>,
-) -> Result<(), OdsError> {
+fn write_office_styles(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     xml_out.elem("office:styles")?;
-    write_styles(book, origin, StyleUse::Default, xml_out)?;
-    write_styles(book, origin, StyleUse::Named, xml_out)?;
-    write_valuestyles(book, origin, StyleUse::Named, xml_out)?;
-    write_valuestyles(book, origin, StyleUse::Default, xml_out)?;
+    // This is the only place for named and default styles, regardless of their origin.
+    for origin in [StyleOrigin::Content, StyleOrigin::Styles] {
+        write_styles(book, origin, StyleUse::Default, xml_out)?;
+        write_styles(book, origin, StyleUse::Named, xml_out)?;
+        write_valuestyles(book, origin, StyleUse::Named, xml_out)?;
+        write_valuestyles(book, origin, StyleUse::Default, xml_out)?;
+    }
     xml_out.end_elem("office:styles")?;
     Ok(())
 }
-- 
2.43.0


From ac94305f05a9d69d3de66da0f73cd98c0785209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:21 +0000
Subject: [PATCH 42/56] fix: set_xml_id sets the attribute xml:id

---
 src/macro_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_style.rs b/src/macro_style.rs
index 3b1bb9d..9bca478 100644
--- a/src/macro_style.rs
+++ b/src/macro_style.rs
@@ -122,7 +122,7 @@ macro_rules! xml_id {
         /// The table:end-y attribute specifies the y-coordinate of the end position of a shape relative to
         /// the top-left edge of a cell. The size attributes of the shape are ignored.
         pub fn set_xml_id<S: Into<String>>(&mut self, id: S) {
-            self.$acc.set_attr("xml_id", id.into());
+            self.$acc.set_attr("xml:id", id.into());
         }
     };
 }
-- 
2.43.0


From 747962834244123a6167702280b05d12fbbd6ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:21 +0000
Subject: [PATCH 43/56] fix: transliteration_locale returns what
 set_transliteration_locale sets

---
 src/macro_attr_number.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macro_attr_number.rs b/src/macro_attr_number.rs
index dd23ff6..42d730d 100644
--- a/src/macro_attr_number.rs
+++ b/src/macro_attr_number.rs
@@ -110,9 +110,11 @@ macro_rules! number_transliteration_locale {
 
         /// Returns number:transliteration_language and number:transliteration_country as a locale.
         pub fn transliteration_locale(&self) -> Option<Locale> {
-            if let Some(language) = self.attr.attr("number:language") {
+            if let Some(language) = self.attr.attr("number:transliteration-language") {
                 if let Ok(language) = Language::try_from_utf8(language.as_bytes()) {
-                    let region = if let Some(region) = self.attr.attr("number:country") {
+                    let region = if let Some(region) =
+                        self.attr.attr("number:transliteration-country")
+                    {
                         Region::try_from_utf8(region.as_bytes()).ok()
                     } else {
                         None
-- 
2.43.0


From 282a8699a1eab2bdb66a0fedf4d6fa355779c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:40 +0000
Subject: [PATCH 44/56] fix: value no-limit for fo:hyphenation-ladder-count

---
 src/style/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style/units.rs b/src/style/units.rs
index c9c26b0..fba712b 100644
--- a/src/style/units.rs
+++ b/src/style/units.rs
@@ -675,7 +675,7 @@ pub enum HyphenationLadderCount {
 impl Display for HyphenationLadderCount {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            HyphenationLadderCount::NoLimit => write!(f, "no_limit"),
+            HyphenationLadderCount::NoLimit => write!(f, "no-limit"),
             HyphenationLadderCount::Count(c) => c.fmt(f),
         }
     }
-- 
2.43.0


From 61e03df21f33cfe18e5553b41e4e6a278a953060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:33 +0000
Subject: [PATCH 45/56] fix: tab stops of a paragraph style without other
 paragraph properties are written

---
 src/io/write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 5023e45..8c9948b 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2761,7 +2761,9 @@ fn write_paragraphstyle(
     style: &ParagraphStyle,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    let is_empty = style.paragraphstyle().is_empty() && style.textstyle().is_empty();
+    let is_empty = style.paragraphstyle().is_empty()
+        && style.tabstops().is_none()
+        && style.textstyle().is_empty();
 
     if style.styleuse() == StyleUse::Default {
         xml_out.elem_if(!is_empty, "style:default-style")?;
@@ -2780,7 +2782,7 @@ fn write_paragraphstyle(
         }
     }
 
-    if !style.paragraphstyle().is_empty() {
+    if !style.paragraphstyle().is_empty() || style.tabstops().is_some() {
         if style.tabstops().is_none() {
             xml_out.empty("style:paragraph-properties")?;
             for (a, v) in style.paragraphstyle().iter() {
-- 
2.43.0


From c5c1c7c6ecda1348b5574702f26e1d3910299f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:46 +0000
Subject: [PATCH 46/56] fix: a default style is not displaced by a style with a
 generated name

---
 src/io/read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 9a889d2..06641bc 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3636,6 +3636,12 @@ fn copy_style_attr(
         }
     }
 
+    // A default-style has no name. A generated name might be taken by a style that is
+    // still to be read, so use something that is not allowed as a name.
+    if name.is_none() && super_tag.name().as_ref() == b"style:default-style" {
+        name = Some(":default".to_string());
+    }
+
     Ok(name.unwrap_or_default())
 }
 
-- 
2.43.0


From f4f5d93e116c2a6761b6bd3d11c3a3ea96493eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:29 +0000
Subject: [PATCH 47/56] fix: PartFractionBuilder::min_integer_digits sets
 number:min-integer-digits

---
 src/format/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/builder.rs b/src/format/builder.rs
index 9be740c..8f3e8e0 100644
--- a/src/format/builder.rs
+++ b/src/format/builder.rs
@@ -432,7 +432,7 @@ impl<'vf, T: ValueFormatTrait> PartFractionBuilder<'vf, T> {
     #[must_use]
     pub fn min_integer_digits(mut self, v: u8) -> Self {
         self.part
-            .set_attr("number:min-numerator-digits", v.to_string());
+            .set_attr("number:min-integer-digits", v.to_string());
         self
     }
 
-- 
2.43.0


From 19d2125b502677b81735b250d8a9ffad406ae4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:29 +0000
Subject: [PATCH 48/56] fix: names of the localized time formats

---
 src/locale/cs_cz.rs   | 5 +++--
 src/locale/de_at.rs   | 5 +++--
 src/locale/default.rs | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/locale/cs_cz.rs b/src/locale/cs_cz.rs
index 2d8b547..162328a 100644
--- a/src/locale/cs_cz.rs
+++ b/src/locale/cs_cz.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/de_at.rs b/src/locale/de_at.rs
index bb136b7..eef43ef 100644
--- a/src/locale/de_at.rs
+++ b/src/locale/de_at.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/default.rs b/src/locale/default.rs
index 39012d3..882ca7d 100644
--- a/src/locale/default.rs
+++ b/src/locale/default.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
-- 
2.43.0


From 5cbeb77c79393216a5983de98cfaa7e8d06ce489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:29 +0000
Subject: [PATCH 49/56] fix: create_loc_currency_prefix shows the number once

---
 src/format/create.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/format/create.rs b/src/format/create.rs
index 8322991..78380cb 100644
--- a/src/format/create.rs
+++ b/src/format/create.rs
@@ -73,11 +73,6 @@ where
         .symbol(symbol)
         .build();
     v.part_text(" ").build();
-    v.part_number()
-        .decimal_places(2)
-        .min_decimal_places(2)
-        .grouping()
-        .build();
     v.part_number()
         .decimal_places(2)
         .min_decimal_places(2)
-- 
2.43.0


From dc310483e3e376d3bf99a87ac7857e0d32f8a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:30 +0000
Subject: [PATCH 50/56] fix: set_font_size_rel sets the attribute
 style:font-size-rel

---
 src/macro_attr_fo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_attr_fo.rs b/src/macro_attr_fo.rs
index e5df78c..2ff1a7a 100644
--- a/src/macro_attr_fo.rs
+++ b/src/macro_attr_fo.rs
@@ -582,7 +582,7 @@ macro_rules! fo_font_size_rel {
         /// This attribute specifies a relative font size change as a length. It cannot be used within automatic
         /// styles. This attribute changes the font size based on the font size of the parent style.
         pub fn set_font_size_rel(&mut self, size: FontSize) {
-            self.$acc.set_attr("fo:font-size-rel", size.to_string());
+            self.$acc.set_attr("style:font-size-rel", size.to_string());
         }
     };
 }
-- 
2.43.0


From 785aff78bc05086ed1ec9b2e1d5c30ec5ae16ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:53 +0000
Subject: [PATCH 51/56] fix: attribute names text:cond-style-name and
 text:outline-level

TextH/TextP wrote "text:condstyle-name" and "text:outlinelevel", which no
consumer knows; ODF 1.3 19.776 and 19.844.4.
---
 src/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 7977c78..be68b02 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -62,7 +62,7 @@ impl TextH {
     /// Sets a conditional style.
     pub fn condstyle_name(mut self, name: &ParagraphStyleRef) -> Self {
         self.xml
-            .set_attr("text:condstyle-name", name.as_str().to_string());
+            .set_attr("text:cond-style-name", name.as_str().to_string());
         self
     }
 
@@ -80,7 +80,7 @@ impl TextH {
 
     /// Level of the heading.
     pub fn outline_level(mut self, l: u8) -> Self {
-        self.xml.set_attr("text:outlinelevel", l.to_string());
+        self.xml.set_attr("text:outline-level", l.to_string());
         self
     }
 
@@ -136,7 +136,7 @@ impl TextP {
     /// Sets a conditional style.
     pub fn condstyle_name(mut self, name: &ParagraphStyleRef) -> Self {
         self.xml
-            .set_attr("text:condstyle-name", name.as_str().to_string());
+            .set_attr("text:cond-style-name", name.as_str().to_string());
         self
     }
 
-- 
2.43.0


From 52816ac20024646e6320f944f0951a776165fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:57 +0000
Subject: [PATCH 52/56] fix: image data of other programs is base64 with
 padding and line-breaks

DrawImage::get_binary() failed for any padded data or data with line-breaks,
which is how xsd:base64Binary is usually written; set_binary() wrote no padding.
---
 src/draw.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/draw.rs b/src/draw.rs
index 847d872..18f2554 100644
--- a/src/draw.rs
+++ b/src/draw.rs
@@ -382,12 +382,19 @@ impl DrawImage {
 
     /// Image binary data.
     pub fn get_binary(&self) -> Result<Vec<u8>, OdsError> {
+        // padding is required by xsd:base64Binary, but older versions didn't write it.
         let ng = base64::engine::GeneralPurpose::new(
             &base64::alphabet::STANDARD,
-            base64::engine::general_purpose::NO_PAD,
+            base64::engine::GeneralPurposeConfig::new()
+                .with_decode_padding_mode(base64::engine::DecodePaddingMode::Indifferent),
         );
 
         if let Some(binary_data) = &self.binary_data {
+            // xsd:base64Binary may contain line-breaks.
+            let binary_data = binary_data
+                .bytes()
+                .filter(|v| !v.is_ascii_whitespace())
+                .collect::<Vec<u8>>();
             Ok(ng.decode(binary_data)?)
         } else {
             Ok(Default::default())
@@ -400,7 +407,7 @@ impl DrawImage {
     pub fn set_binary(&mut self, binary: &[u8]) {
         let ng = base64::engine::GeneralPurpose::new(
             &base64::alphabet::STANDARD,
-            base64::engine::general_purpose::NO_PAD,
+            base64::engine::general_purpose::PAD,
         );
 
         self.binary_data = Some(ng.encode(binary));
-- 
2.43.0


From 5b0375890a30a36a5bd0c51872419c5750e1653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:02 +0000
Subject: [PATCH 53/56] fix: headers and footers of a new master page are
 displayed

HeaderFooter::default() had display == false, so a header filled as in the
documented example (mp.header_mut().center_mut().add_text(..)) was written
with style:display="false". Empty ones are still written as not displayed.
---
 src/io/write.rs         | 4 ++--
 src/style/masterpage.rs | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 8c9948b..ad9236d 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3139,7 +3139,7 @@ fn write_masterpage(
 
         // header
         xml_out.elem_if(!masterpage.header().is_empty(), "style:header")?;
-        if !masterpage.header().display() {
+        if !masterpage.header().display() || masterpage.header().is_empty() {
             xml_out.attr_str("style:display", "false")?;
         }
         write_regions(masterpage.header(), xml_out)?;
@@ -3161,7 +3161,7 @@ fn write_masterpage(
 
         // footer
         xml_out.elem_if(!masterpage.footer().is_empty(), "style:footer")?;
-        if !masterpage.footer().display() {
+        if !masterpage.footer().display() || masterpage.footer().is_empty() {
             xml_out.attr_str("style:display", "false")?;
         }
         write_regions(masterpage.footer(), xml_out)?;
diff --git a/src/style/masterpage.rs b/src/style/masterpage.rs
index 41558da..e593ba6 100644
--- a/src/style/masterpage.rs
+++ b/src/style/masterpage.rs
@@ -230,7 +230,7 @@ impl MasterPage {
 /// Can be seen as three regions left/center/right or as one region.
 /// In the first case region* contains the data, in the second it's content.
 /// Each is a TextTag of parsed XML-tags.
-#[derive(Clone, Debug, Default, GetSize)]
+#[derive(Clone, Debug, GetSize)]
 pub struct HeaderFooter {
     display: bool,
 
@@ -241,6 +241,12 @@ pub struct HeaderFooter {
     content: Vec<TextTag>,
 }
 
+impl Default for HeaderFooter {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl HeaderFooter {
     /// Create
     pub fn new() -> Self {
-- 
2.43.0


From 9b56654a4fd66bf939d74383a9b55e6a31c901d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:55 +0000
Subject: [PATCH 54/56] fix: named expressions and conditional formats of a
 sheet belong inside the table

They were read from table:table but written after it, so that the second read
took them for parts of the workbook: names local to a sheet became global and
the conditional formats lost their sheet.
---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index ad9236d..8405721 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1846,14 +1846,14 @@ fn write_sheet(
         prev_col = cur_col;
     }
 
-    xml_out.end_elem("table:table")?;
-
     for tag in &sheet.extra {
         if tag.name() == "table:named-expressions" || tag.name() == "calcext:conditional-formats" {
             write_xmltag(tag, xml_out)?;
         }
     }
 
+    xml_out.end_elem("table:table")?;
+
     Ok(())
 }
 
-- 
2.43.0


From a67955c42df373afd4b8f4ef9ffe93145b7c2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:49 +0000
Subject: [PATCH 55/56] fix: headers and footers keep empty paragraphs,
 headings and the style of a paragraph

---
 src/io/read.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 06641bc..8a7cfa3 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2388,7 +2388,7 @@ fn read_headerfooter(
     super_tag: &BytesStart<'_>,
 ) -> Result<HeaderFooter, OdsError> {
     let mut hf = HeaderFooter::new();
-    let mut content = TextContent::Empty;
+    let mut content = Vec::new();
 
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
@@ -2429,27 +2429,16 @@ fn read_headerfooter(
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:p" =>
+                if xml_tag.name().as_ref() == b"text:p"
+                    || xml_tag.name().as_ref() == b"text:h" =>
             {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
-            }
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:h" =>
-            {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
+                content.push(read_xml(ctx, xml, xml_tag, empty_tag)?);
             }
             // no other tags supported for now. they have never been seen in the wild.
             Event::Text(_) => (),
             Event::End(xml_tag) => {
                 if xml_tag.name() == super_tag.name() {
-                    hf.set_content(match content {
-                        TextContent::Empty => Vec::new(),
-                        TextContent::Text(v) => vec![TextP::new().text(v).into()],
-                        TextContent::Xml(v) => vec![v],
-                        TextContent::XmlVec(v) => v,
-                    });
+                    hf.set_content(content);
                     break;
                 }
             }
-- 
2.43.0


From 914852b5a45443fdd448ba19125ba51b0d20db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 56/56] fix: empty elements of master pages, page layouts,
 header styles and value formats took over what follows them

---
 src/io/read.rs | 110 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 93 insertions(+), 17 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 8a7cfa3..cfec946 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1979,6 +1979,7 @@ fn read_page_style(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut pl = PageStyle::new_empty();
     for attr in super_tag.attributes().with_checks(false) {
@@ -1997,6 +1998,12 @@ fn read_page_style(
         }
     }
 
+    // In case of an empty xml-tag we are done here.
+    if empty_tag {
+        ctx.book.add_pagestyle(pl);
+        return Ok(());
+    }
+
     let mut headerstyle = false;
     let mut footerstyle = false;
 
@@ -2014,18 +2021,16 @@ fn read_page_style(
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:page-layout-properties" => {}
 
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"style:header-style" =>
-            {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {}
+            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = true;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = false;
             }
 
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"style:footer-style" =>
-            {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {}
+            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
                 footerstyle = true;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
@@ -2274,6 +2279,7 @@ fn read_office_master_styles(
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!(" read_master_styles {:?}", evt);
         }
@@ -2281,7 +2287,7 @@ fn read_office_master_styles(
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:master-page" =>
             {
-                read_master_page(ctx, xml, origin, xml_tag)?;
+                read_master_page(ctx, xml, origin, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:master-styles" => {
                 break;
@@ -2306,6 +2312,7 @@ fn read_master_page(
     xml: &mut OdsXmlReader<'_>,
     _origin: StyleOrigin,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut masterpage = MasterPage::new_empty();
 
@@ -2332,6 +2339,12 @@ fn read_master_page(
         }
     }
 
+    // In case of an empty xml-tag we are done here.
+    if empty_tag {
+        ctx.book.add_masterpage(masterpage);
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -2488,7 +2501,7 @@ fn read_office_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:styles" => {
                 break;
@@ -2535,13 +2548,13 @@ fn read_office_automatic_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag, empty_tag)?;
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:page-layout" =>
             {
-                read_page_style(ctx, xml, xml_tag)?;
+                read_page_style(ctx, xml, xml_tag, empty_tag)?;
             }
 
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:automatic-styles" => {
@@ -2568,41 +2581,98 @@ fn read_value_format(
     origin: StyleOrigin,
     styleuse: StyleUse,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     match super_tag.name().as_ref() {
         b"number:boolean-style" => {
             let mut valuestyle = ValueFormatBoolean::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_boolean_format(valuestyle);
         }
         b"number:date-style" => {
             let mut valuestyle = ValueFormatDateTime::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_datetime_format(valuestyle);
         }
         b"number:time-style" => {
             let mut valuestyle = ValueFormatTimeDuration::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_timeduration_format(valuestyle);
         }
         b"number:number-style" => {
             let mut valuestyle = ValueFormatNumber::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_number_format(valuestyle);
         }
         b"number:currency-style" => {
             let mut valuestyle = ValueFormatCurrency::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_currency_format(valuestyle);
         }
         b"number:percentage-style" => {
             let mut valuestyle = ValueFormatPercentage::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_percentage_format(valuestyle);
         }
         b"number:text-style" => {
             let mut valuestyle = ValueFormatText::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_text_format(valuestyle);
         }
         _ => {
@@ -2626,6 +2696,7 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     styleuse: StyleUse,
     valuestyle: &mut T,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     //
     valuestyle.set_origin(origin);
@@ -2633,6 +2704,11 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     let name = copy_style_attr(ctx, valuestyle.attrmap_mut(), super_tag)?;
     valuestyle.set_name(name.as_str());
 
+    // In case of an empty xml-tag we are done here.
+    if empty_tag {
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
-- 
2.43.0

