From ae5538f05b54c428d26bb81a9c6cf3e4d1d51466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:40 +0000
Subject: [PATCH 01/42] fix: report errors hit while reading entities and
 objects instead of dropping items

---
 src/block.rs       |  2 +-
 src/drawing.rs     |  6 +++---
 src/entity_iter.rs | 24 +++++++++++++++++++-----
 src/object_iter.rs | 10 ++++------
 4 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b3c92d4..70bd55d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -157,7 +157,7 @@ impl Block {
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-                            let mut iter = EntityIter { iter };
+                            let mut iter = EntityIter::new(iter);
                             iter.read_entities_into_vec(&mut current.entities)?;
                         }
                         _ => {
diff --git a/src/drawing.rs b/src/drawing.rs
index a41e17b..39d7ac5 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -29,7 +29,6 @@ use crate::thumbnail;
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
-use itertools::put_back;
 use std::collections::HashSet;
 use std::iter::Iterator;
 use std::path::Path;
@@ -1064,7 +1063,7 @@ impl Drawing {
         Ok(())
     }
     fn read_entities(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let mut iter = EntityIter { iter };
+        let mut iter = EntityIter::new(iter);
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
         for e in entities {
@@ -1077,8 +1076,9 @@ impl Drawing {
         Ok(())
     }
     fn read_objects(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let iter = put_back(ObjectIter { iter });
+        let iter = ObjectIter { iter };
         for o in iter {
+            let o = o?;
             if o.common.handle.is_empty() {
                 self.add_object(o);
             } else {
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index a038f93..24c6356 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,28 +1,42 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::DxfResult;
+use crate::{DxfError, DxfResult};
 
 use itertools::{put_back, PutBack};
 
 pub(crate) struct EntityIter<'a> {
     pub iter: &'a mut CodePairPutBack,
+    error: Option<DxfError>,
 }
 
 impl Iterator for EntityIter<'_> {
     type Item = Entity;
 
     fn next(&mut self) -> Option<Entity> {
+        if self.error.is_some() {
+            return None;
+        }
         match Entity::read(self.iter) {
-            Ok(Some(e)) => Some(e),
-            Ok(None) | Err(_) => None,
+            Ok(e) => e,
+            Err(e) => {
+                self.error = Some(e);
+                None
+            }
         }
     }
 }
 
-impl EntityIter<'_> {
+impl<'a> EntityIter<'a> {
+    pub(crate) fn new(iter: &'a mut CodePairPutBack) -> Self {
+        EntityIter { iter, error: None }
+    }
     pub(crate) fn read_entities_into_vec(&mut self, entities: &mut Vec<Entity>) -> DxfResult<()> {
-        collect_entities(self, entities)
+        collect_entities(self, entities)?;
+        match self.error.take() {
+            Some(e) => Err(e),
+            None => Ok(()),
+        }
     }
 }
 
diff --git a/src/object_iter.rs b/src/object_iter.rs
index 007c6c9..ffc1a76 100644
--- a/src/object_iter.rs
+++ b/src/object_iter.rs
@@ -1,17 +1,15 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::objects::Object;
+use crate::DxfResult;
 
 pub(crate) struct ObjectIter<'a> {
     pub iter: &'a mut CodePairPutBack,
 }
 
 impl Iterator for ObjectIter<'_> {
-    type Item = Object;
+    type Item = DxfResult<Object>;
 
-    fn next(&mut self) -> Option<Object> {
-        match Object::read(self.iter) {
-            Ok(Some(o)) => Some(o),
-            Ok(None) | Err(_) => None,
-        }
+    fn next(&mut self) -> Option<DxfResult<Object>> {
+        Object::read(self.iter).transpose()
     }
 }
-- 
2.43.0


From d07ac48f2ea94179ebb14387e08bbad5c9dda9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:47 +0000
Subject: [PATCH 02/42] fix: do not loop forever on a BLOCK that is missing its
 ENDBLK

---
 src/block.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 70bd55d..e143473 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -154,6 +154,17 @@ impl Block {
                             }
                             break;
                         }
+                        CodePair {
+                            code: 0,
+                            value: CodePairValue::Str(ref s),
+                            ..
+                        } if s == "ENDSEC" => {
+                            // the block was never closed
+                            return Err(DxfError::UnexpectedCodePair(
+                                pair,
+                                String::from("expected 0/ENDBLK"),
+                            ));
+                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-- 
2.43.0


From fe386c34232ac1c42fea20b7a79694bce85ea971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:54 +0000
Subject: [PATCH 03/42] fix: bound the nesting of extension groups and xdata
 control groups when reading

---
 src/extension_data.rs | 21 ++++++++++++++++++++-
 src/x_data.rs         | 16 +++++++++++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/extension_data.rs b/src/extension_data.rs
index 1363059..ea8cc90 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -4,6 +4,9 @@ use crate::code_pair_put_back::CodePairPutBack;
 
 pub(crate) const EXTENSION_DATA_GROUP: i32 = 102;
 
+/// Deepest supported nesting of groups; guards against exhausting the stack on malformed input.
+const MAX_GROUP_DEPTH: usize = 128;
+
 /// Represents an application name and a collection of extension group data in the form of `CodePair`s.
 #[derive(Clone, Debug, PartialEq)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -26,6 +29,17 @@ impl ExtensionGroup {
         iter: &mut CodePairPutBack,
         offset: usize,
     ) -> DxfResult<ExtensionGroup> {
+        ExtensionGroup::read_nested_group(application_name, iter, offset, 1)
+    }
+    fn read_nested_group(
+        application_name: String,
+        iter: &mut CodePairPutBack,
+        offset: usize,
+        depth: usize,
+    ) -> DxfResult<ExtensionGroup> {
+        if depth > MAX_GROUP_DEPTH {
+            return Err(DxfError::ParseError(offset));
+        }
         if !application_name.starts_with('{') {
             return Err(DxfError::ParseError(offset));
         }
@@ -46,7 +60,12 @@ impl ExtensionGroup {
                     break;
                 } else if name.starts_with('{') {
                     // nested group
-                    let sub_group = ExtensionGroup::read_group(name, iter, pair.offset)?;
+                    let sub_group = ExtensionGroup::read_nested_group(
+                        name,
+                        iter,
+                        pair.offset,
+                        depth + 1,
+                    )?;
                     items.push(ExtensionGroupItem::Group(sub_group));
                 } else {
                     return Err(DxfError::UnexpectedCodePair(
diff --git a/src/x_data.rs b/src/x_data.rs
index 501d128..e6858d4 100644
--- a/src/x_data.rs
+++ b/src/x_data.rs
@@ -20,6 +20,9 @@ const XDATA_SCALEFACTOR: i32 = 1042;
 const XDATA_INTEGER: i32 = 1070;
 const XDATA_LONG: i32 = 1071;
 
+/// Deepest supported nesting of control groups; guards against exhausting the stack on malformed input.
+const MAX_GROUP_DEPTH: usize = 128;
+
 /// Represents an application name and a collection of extended data.
 #[derive(Clone, Debug)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -72,7 +75,7 @@ impl XData {
                 iter.put_back(Ok(pair));
                 break;
             }
-            xdata.items.push(XDataItem::read_item(&pair, iter)?);
+            xdata.items.push(XDataItem::read_item(&pair, iter, 0)?);
         }
         Ok(xdata)
     }
@@ -91,10 +94,17 @@ impl XData {
 }
 
 impl XDataItem {
-    fn read_item(pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<XDataItem> {
+    fn read_item(
+        pair: &CodePair,
+        iter: &mut CodePairPutBack,
+        depth: usize,
+    ) -> DxfResult<XDataItem> {
         match pair.code {
             XDATA_STRING => Ok(XDataItem::Str(pair.assert_string()?)),
             XDATA_CONTROLGROUP => {
+                if depth >= MAX_GROUP_DEPTH {
+                    return Err(DxfError::ParseError(pair.offset));
+                }
                 let mut items = vec![];
                 loop {
                     let pair = match iter.next() {
@@ -115,7 +125,7 @@ impl XDataItem {
                         break;
                     }
 
-                    items.push(XDataItem::read_item(&pair, iter)?);
+                    items.push(XDataItem::read_item(&pair, iter, depth + 1)?);
                 }
                 Ok(XDataItem::ControlGroup(items))
             }
-- 
2.43.0


From aa2a321cb310334d85e7bdb8e9152d67fb3f32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:27 +0000
Subject: [PATCH 04/42] fix: report write errors that surface when the last
 buffered bytes of a saved file are flushed

---
 src/drawing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 39d7ac5..70d2eaf 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -211,7 +211,9 @@ impl Drawing {
     fn save_file_internal(&self, path: impl AsRef<Path>, as_ascii: bool) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut writer = BufWriter::new(file);
-        self.save_internal(&mut writer, as_ascii)
+        self.save_internal(&mut writer, as_ascii)?;
+        writer.flush()?;
+        Ok(())
     }
     /// Writes a `Drawing` as DXB to anything that implements the `Write` trait.
     pub fn save_dxb<T>(&self, writer: &mut T) -> DxfResult<()>
@@ -225,7 +227,9 @@ impl Drawing {
     pub fn save_file_dxb(&self, path: impl AsRef<Path>) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut buf_writer = BufWriter::new(file);
-        self.save_dxb(&mut buf_writer)
+        self.save_dxb(&mut buf_writer)?;
+        buf_writer.flush()?;
+        Ok(())
     }
     /// Returns an iterator for all app ids.
     pub fn app_ids(&self) -> impl Iterator<Item = &AppId> {
-- 
2.43.0


From 11833993d425c925b7074a7258e127995af85181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:38 +0000
Subject: [PATCH 05/42] fix: restore dates to the second they were written with

---
 src/helper_functions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a0c10fe..9bbd6df 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -35,8 +35,9 @@ fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
     let secs_per_day = 24i64 * 60 * 60;
     let seconds = days_since_dublin * secs_per_day as f64;
     // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
-    // so we counter the extra day and leap second here
-    ChronoDuration::seconds(seconds as i64 - secs_per_day + 1)
+    // so we counter the extra day here; the value was stored with a limited number of digits
+    // so the result has to be rounded to the closest second
+    ChronoDuration::seconds(seconds.round() as i64 - secs_per_day)
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
-- 
2.43.0


From 36b5f81440b3e5eaba257aa05d202b42ccdb8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:24 +0000
Subject: [PATCH 06/42] fix: do not panic on out-of-range dates, colors,
 handles and thumbnail sizes

---
 src/color.rs            |  2 +-
 src/handle.rs           |  3 ++-
 src/helper_functions.rs | 12 +++++++++---
 src/thumbnail.rs        |  2 +-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 0fdcfd2..2e43fb2 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -77,7 +77,7 @@ impl Color {
         }
     }
     pub(crate) fn writable_color_value(&self, layer: &Layer) -> i16 {
-        let value = self.raw_value().abs();
+        let value = self.raw_value().saturating_abs();
         if layer.is_layer_on {
             value
         } else {
diff --git a/src/handle.rs b/src/handle.rs
index d9bf612..9fe3359 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -7,7 +7,8 @@ impl Handle {
         Handle(0)
     }
     pub fn next_handle_value(self) -> Self {
-        Handle(self.0 + 1)
+        // `0` is never a valid handle
+        Handle(self.0.checked_add(1).unwrap_or(1))
     }
     pub fn is_empty(self) -> bool {
         self.0 == 0
diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 9bbd6df..af257d0 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -37,7 +37,9 @@ fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
     // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
     // so we counter the extra day here; the value was stored with a limited number of digits
     // so the result has to be rounded to the closest second
-    ChronoDuration::seconds(seconds.round() as i64 - secs_per_day)
+    let seconds = (seconds.round() as i64).saturating_sub(secs_per_day);
+    // keep the value within what a duration can represent
+    ChronoDuration::seconds(seconds.clamp(i64::MIN / 1_000 + 1, i64::MAX / 1_000))
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
@@ -63,7 +65,11 @@ where
             _ => ChronoDuration::seconds(0),
         }
     };
-    epoch + duration
+    // a date too far in the future to be represented is out of bounds
+    match epoch.clone().checked_add_signed(duration) {
+        Some(date) => date,
+        None => epoch,
+    }
 }
 
 pub(crate) fn as_datetime_local(date: f64) -> DateTime<Local> {
@@ -289,7 +295,7 @@ fn parse_i16_test() {
 
 pub(crate) fn read_color_value(layer: &mut Layer, color: i16) -> Color {
     layer.is_layer_on = color >= 0;
-    Color::from_raw_value(color.abs())
+    Color::from_raw_value(color.saturating_abs())
 }
 
 pub(crate) fn read_line<T>(
diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index a623061..6d8e747 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -75,7 +75,7 @@ fn read_thumbnail_bytes_from_code_pairs(iter: &mut CodePairPutBack) -> DxfResult
 
 fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
     // calculate the image data offset
-    let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as usize;
+    let dib_header_size = read_u32(data, FILE_HEADER_LENGTH)? as usize;
 
     // calculate the palette size
     let palette_size = if dib_header_size >= BITMAP_HEADER_PALETTE_COUNT_OFFSET + 4 {
-- 
2.43.0


From d666a1e605cc8ec1f980673ef61d9d9c77f85ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:20 +0000
Subject: [PATCH 07/42] fix: restore material maps, multiline style elements
 and light lists when reading objects

Objects with a custom reader never ran the post-parse step, so material
matrices and multiline style elements were dropped; the specular map file name
was read into the normal map, the specular gloss factor was never written and
the light list never left its version-number state.
---
 spec/ObjectsSpec.xml |  2 +-
 src/object.rs        | 74 +++++++++++++++++++++++---------------------
 2 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 218bce2..0869a49 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_color_factor" />
+      <WriteField Field="specular_gloss_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
diff --git a/src/object.rs b/src/object.rs
index 3d7c896..cea2cd7 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -121,10 +121,9 @@ impl Object {
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
                                 }
-
-                                obj.post_parse()?;
                             }
 
+                            obj.post_parse()?;
                             return Ok(Some(obj));
                         }
                         None => {
@@ -209,38 +208,41 @@ impl Object {
                 );
             }
             ObjectType::Material(ref mut material) => {
-                material.diffuse_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__diffuse_map_transformation_matrix_values,
-                );
-                material.specular_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__specular_map_transformation_matrix_values,
-                );
-                material.reflection_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__reflection_map_transformation_matrix_values,
-                );
-                material.opacity_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__opacity_map_transformation_matrix_values,
-                );
-                material.bump_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__bump_map_transformation_matrix_values,
-                );
-                material.refraction_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__refraction_map_transformation_matrix_values,
-                );
-                material.normal_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__normal_map_transformation_matrix_values,
-                );
-                material.__diffuse_map_transformation_matrix_values.clear();
-                material.__specular_map_transformation_matrix_values.clear();
-                material
-                    .__reflection_map_transformation_matrix_values
-                    .clear();
-                material.__opacity_map_transformation_matrix_values.clear();
-                material.__bump_map_transformation_matrix_values.clear();
-                material
-                    .__refraction_map_transformation_matrix_values
-                    .clear();
-                material.__normal_map_transformation_matrix_values.clear();
+                for (matrix, values) in [
+                    (
+                        &mut material.diffuse_map_transformation_matrix,
+                        &mut material.__diffuse_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.specular_map_transformation_matrix,
+                        &mut material.__specular_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.reflection_map_transformation_matrix,
+                        &mut material.__reflection_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.opacity_map_transformation_matrix,
+                        &mut material.__opacity_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.bump_map_transformation_matrix,
+                        &mut material.__bump_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.refraction_map_transformation_matrix,
+                        &mut material.__refraction_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.normal_map_transformation_matrix,
+                        &mut material.__normal_map_transformation_matrix_values,
+                    ),
+                ] {
+                    if !values.is_empty() {
+                        *matrix = TransformationMatrix::from_vec(values);
+                        values.clear();
+                    }
+                }
             }
             ObjectType::MLineStyle(ref mut mline) => {
                 for (o, (c, l)) in mline.__element_offsets.drain(..).zip(
@@ -650,7 +652,7 @@ impl Object {
                         // count of lights is ignored since it's implicitly set by reading the values
                     } else {
                         ll.version = pair.assert_i32()?;
-                        read_version_number = false;
+                        read_version_number = true;
                     }
                 }
                 _ => {
@@ -698,7 +700,7 @@ impl Object {
                     }
                 }
                 4 => {
-                    mat.normal_map_file_name = pair.assert_string()?;
+                    mat.specular_map_file_name = pair.assert_string()?;
                 }
                 6 => {
                     mat.reflection_map_file_name = pair.assert_string()?;
-- 
2.43.0


From 158a32cc1520e8576a7e831b14c67478f77bbeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:56 +0000
Subject: [PATCH 08/42] fix: restore dictionary ownership, xrecord duplicate
 handling and the item after a table style

The hard-owner flag was only written when it was false, the xrecord flag was
taken for data once the subclass marker was seen and a table cell style at the
end of an object consumed the start of the next one.
---
 src/object.rs           | 16 +++++++++++++++-
 src/table_cell_style.rs |  5 ++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index cea2cd7..cbabfdc 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1440,9 +1440,22 @@ impl Object {
         iter: &mut CodePairPutBack,
     ) -> DxfResult<bool> {
         let mut reading_data = false;
+        let mut read_duplicate_record_handling = false;
         loop {
             let pair = next_pair!(iter);
             if reading_data {
+                if pair.code == 280 && !read_duplicate_record_handling && xr.data_pairs.is_empty() {
+                    // the first pair following 100/AcDbXrecord
+                    xr.duplicate_record_handling = enum_from_number!(
+                        DictionaryDuplicateRecordHandling,
+                        NotApplicable,
+                        from_i16,
+                        pair.assert_i16()?
+                    );
+                    read_duplicate_record_handling = true;
+                    continue;
+                }
+
                 xr.data_pairs.push(pair);
             } else {
                 if pair.code == 280 {
@@ -1452,6 +1465,7 @@ impl Object {
                         from_i16,
                         pair.assert_i16()?
                     );
+                    read_duplicate_record_handling = true;
                     reading_data = true;
                     continue;
                 }
@@ -1544,7 +1558,7 @@ impl Object {
             }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
-                if version >= AcadVersion::R2000 && !dict.is_hard_owner {
+                if version >= AcadVersion::R2000 && dict.is_hard_owner {
                     pairs.push(CodePair::new_i16(280, as_i16(dict.is_hard_owner)));
                 }
                 if version >= AcadVersion::R2000 {
diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index 7136138..c738fe7 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -43,7 +43,10 @@ impl TableCellStyle {
         let mut style = TableCellStyle::default();
         loop {
             let pair = match iter.next() {
-                Some(Ok(CodePair { code: 0, .. })) => return Ok(Some(style)),
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    iter.put_back(Ok(pair));
+                    return Ok(Some(style));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Ok(Some(style)),
-- 
2.43.0


From fa6a93ba65d1d713c7ee293f3eb57b2b797efb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:56 +0000
Subject: [PATCH 09/42] fix: read and write data tables cell by cell without
 trusting their declared size

Cells were stored one column to the right and always in the first row, negative
or huge counts aborted the process and writing a table without rows or with
fewer names than columns panicked.
---
 src/object.rs | 176 ++++++++++++++++++++++++++------------------------
 1 file changed, 91 insertions(+), 85 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index cbabfdc..1e0d1e1 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -62,11 +62,25 @@ impl MLineStyleElement {
 impl DataTable {
     pub(crate) fn set_value(&mut self, row: usize, col: usize, val: DataTableValue) {
         if row < self.row_count && col < self.column_count {
+            // large tables aren't created up front, they grow as values are seen
+            while self.values.len() <= row {
+                self.values.push(vec![]);
+            }
+            while self.values[row].len() <= col {
+                self.values[row].push(None);
+            }
             self.values[row][col] = Some(val);
         }
     }
 }
 
+/// The most cells of a `DataTable` that are created before any value is read.
+const MAX_INITIAL_TABLE_CELLS: usize = 65_536;
+
+fn as_count(pair: &CodePair) -> DxfResult<usize> {
+    usize::try_from(pair.assert_i32()?).map_err(|_| DxfError::ParseError(pair.offset))
+}
+
 //------------------------------------------------------------------------------
 //                                                                  ObjectCommon
 //------------------------------------------------------------------------------
@@ -323,7 +337,7 @@ impl Object {
         let mut read_column_count = false;
         let mut read_row_count = false;
         let mut _current_column_code = 0;
-        let mut current_column = 0;
+        let mut current_column = None;
         let mut current_row = 0;
         let mut created_table = false;
         let mut current_2d_point = Point::origin();
@@ -331,6 +345,7 @@ impl Object {
 
         loop {
             let pair = next_pair!(iter);
+            let mut value = None;
             match pair.code {
                 1 => {
                     data.name = pair.assert_string()?;
@@ -339,11 +354,11 @@ impl Object {
                     data.field = pair.assert_i16()?;
                 }
                 90 => {
-                    data.column_count = pair.assert_i32()? as usize;
+                    data.column_count = as_count(&pair)?;
                     read_column_count = true;
                 }
                 91 => {
-                    data.row_count = pair.assert_i32()? as usize;
+                    data.row_count = as_count(&pair)?;
                     read_row_count = true;
                 }
 
@@ -353,38 +368,22 @@ impl Object {
                 }
                 92 => {
                     _current_column_code = pair.assert_i32()?;
-                    current_column += 1;
+                    current_column = Some(current_column.map_or(0, |c| c + 1));
                     current_row = 0;
                 }
 
                 // column values
                 3 => {
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Str(pair.assert_string()?),
-                    );
+                    value = Some(DataTableValue::Str(pair.assert_string()?));
                 }
                 40 => {
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Double(pair.assert_f64()?),
-                    );
+                    value = Some(DataTableValue::Double(pair.assert_f64()?));
                 }
                 71 => {
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Boolean(as_bool(pair.assert_i16()?)),
-                    );
+                    value = Some(DataTableValue::Boolean(as_bool(pair.assert_i16()?)));
                 }
                 93 => {
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Integer(pair.assert_i32()?),
-                    );
+                    value = Some(DataTableValue::Integer(pair.assert_i32()?));
                 }
                 10 => {
                     current_2d_point.x = pair.assert_f64()?;
@@ -394,11 +393,7 @@ impl Object {
                 }
                 30 => {
                     current_2d_point.z = pair.assert_f64()?;
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Point2D(current_2d_point.clone()),
-                    );
+                    value = Some(DataTableValue::Point2D(current_2d_point.clone()));
                     current_2d_point = Point::origin();
                 }
                 11 => {
@@ -409,20 +404,12 @@ impl Object {
                 }
                 31 => {
                     current_3d_point.z = pair.assert_f64()?;
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Point3D(current_3d_point.clone()),
-                    );
+                    value = Some(DataTableValue::Point3D(current_3d_point.clone()));
                     current_3d_point = Point::origin();
                 }
                 330 | 331 | 340 | 350 | 360 => {
                     if read_row_count || read_column_count {
-                        data.set_value(
-                            current_row,
-                            current_column,
-                            DataTableValue::Handle(pair.as_handle()?),
-                        );
+                        value = Some(DataTableValue::Handle(pair.as_handle()?));
                     } else {
                         common.apply_individual_pair(&pair, iter)?;
                     }
@@ -434,14 +421,18 @@ impl Object {
             }
 
             if read_row_count && read_column_count && !created_table {
-                for row in 0..data.row_count {
-                    data.values.push(vec![]);
-                    for _ in 0..data.column_count {
-                        data.values[row].push(None);
-                    }
+                // the counts come from the file so they can't be trusted to be reasonable
+                let cells = data.row_count.saturating_mul(data.column_count.max(1));
+                if cells <= MAX_INITIAL_TABLE_CELLS {
+                    data.values = vec![vec![None; data.column_count]; data.row_count];
                 }
                 created_table = true;
             }
+
+            if let Some(value) = value {
+                data.set_value(current_row, current_column.unwrap_or(0), value);
+                current_row += 1;
+            }
         }
     }
     fn apply_custom_reader_dictionary(
@@ -1509,49 +1500,64 @@ impl Object {
                 pairs.push(CodePair::new_i32(90, data.column_count as i32));
                 pairs.push(CodePair::new_i32(91, data.row_count as i32));
                 pairs.push(CodePair::new_string(1, &data.name));
-                for col in 0..data.column_count {
-                    let column_code = match data.values[0][col] {
-                        Some(DataTableValue::Boolean(_)) => Some(71),
-                        Some(DataTableValue::Integer(_)) => Some(93),
-                        Some(DataTableValue::Double(_)) => Some(40),
-                        Some(DataTableValue::Str(_)) => Some(3),
-                        Some(DataTableValue::Point2D(_)) => Some(10),
-                        Some(DataTableValue::Point3D(_)) => Some(11),
-                        Some(DataTableValue::Handle(_)) => Some(331),
-                        None => None,
+                // only write the columns that have something to write
+                let used_columns = data
+                    .values
+                    .iter()
+                    .map(Vec::len)
+                    .chain(std::iter::once(data.column_names.len()))
+                    .max()
+                    .unwrap_or(0);
+                for col in 0..data.column_count.min(used_columns) {
+                    let cells = || {
+                        data.values
+                            .iter()
+                            .take(data.row_count)
+                            .map(|row| row.get(col).and_then(Option::as_ref))
                     };
-                    if let Some(column_code) = column_code {
-                        pairs.push(CodePair::new_i32(92, column_code));
-                        pairs.push(CodePair::new_string(2, &data.column_names[col]));
-                        for row in 0..data.row_count {
-                            match data.values[row][col] {
-                                Some(DataTableValue::Boolean(val)) => {
-                                    pairs.push(CodePair::new_i16(71, as_i16(val)));
-                                }
-                                Some(DataTableValue::Integer(val)) => {
-                                    pairs.push(CodePair::new_i32(93, val));
-                                }
-                                Some(DataTableValue::Double(val)) => {
-                                    pairs.push(CodePair::new_f64(40, val));
-                                }
-                                Some(DataTableValue::Str(ref val)) => {
-                                    pairs.push(CodePair::new_string(3, val));
-                                }
-                                Some(DataTableValue::Point2D(ref val)) => {
-                                    pairs.push(CodePair::new_f64(10, val.x));
-                                    pairs.push(CodePair::new_f64(20, val.y));
-                                    pairs.push(CodePair::new_f64(30, val.z));
-                                }
-                                Some(DataTableValue::Point3D(ref val)) => {
-                                    pairs.push(CodePair::new_f64(11, val.x));
-                                    pairs.push(CodePair::new_f64(21, val.y));
-                                    pairs.push(CodePair::new_f64(31, val.z));
-                                }
-                                Some(DataTableValue::Handle(val)) => {
-                                    pairs.push(CodePair::new_string(331, &val.as_string()));
-                                }
-                                None => (),
+                    let column_code = match cells().flatten().next() {
+                        Some(DataTableValue::Boolean(_)) => 71,
+                        Some(DataTableValue::Integer(_)) => 93,
+                        Some(DataTableValue::Double(_)) => 40,
+                        Some(DataTableValue::Str(_)) => 3,
+                        Some(DataTableValue::Point2D(_)) => 10,
+                        Some(DataTableValue::Point3D(_)) => 11,
+                        Some(DataTableValue::Handle(_)) => 331,
+                        None => 0,
+                    };
+                    pairs.push(CodePair::new_i32(92, column_code));
+                    pairs.push(CodePair::new_string(
+                        2,
+                        data.column_names.get(col).map_or("", String::as_str),
+                    ));
+                    for cell in cells() {
+                        match cell {
+                            Some(DataTableValue::Boolean(val)) => {
+                                pairs.push(CodePair::new_i16(71, as_i16(*val)));
+                            }
+                            Some(DataTableValue::Integer(val)) => {
+                                pairs.push(CodePair::new_i32(93, *val));
+                            }
+                            Some(DataTableValue::Double(val)) => {
+                                pairs.push(CodePair::new_f64(40, *val));
+                            }
+                            Some(DataTableValue::Str(val)) => {
+                                pairs.push(CodePair::new_string(3, val));
+                            }
+                            Some(DataTableValue::Point2D(val)) => {
+                                pairs.push(CodePair::new_f64(10, val.x));
+                                pairs.push(CodePair::new_f64(20, val.y));
+                                pairs.push(CodePair::new_f64(30, val.z));
+                            }
+                            Some(DataTableValue::Point3D(val)) => {
+                                pairs.push(CodePair::new_f64(11, val.x));
+                                pairs.push(CodePair::new_f64(21, val.y));
+                                pairs.push(CodePair::new_f64(31, val.z));
+                            }
+                            Some(DataTableValue::Handle(val)) => {
+                                pairs.push(CodePair::new_string(331, &val.as_string()));
                             }
+                            None => (),
                         }
                     }
                 }
-- 
2.43.0


From 8099f34f1051f46d5f61e49bfd706bc51b0b852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 10/42] fix: read back section settings, spatial filters, sun
 studies and VBA projects as written

An unexpected pair in section settings never stopped the reader, spatial filter
matrices were transposed, sun study dates were written without the time they
are read with, its hours had the wrong width in binary files and VBA project
data was never written.
---
 spec/ObjectsSpec.xml         |  4 ++--
 src/object.rs                | 40 +++++++++++++++++++++---------------
 src/section_type_settings.rs |  2 +-
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 0869a49..f8b091c 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -1192,8 +1192,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.__hex_data">
-        <WriteSpecificValue Code="310" Value="item.clone()" />
+      <Foreach Field="obj.data.chunks(128).collect::&lt;Vec&lt;_&gt;&gt;()">
+        <WriteSpecificValue Code="310" Value="item.to_vec()" />
       </Foreach>
     </WriteOrder>
   </Object>
diff --git a/src/object.rs b/src/object.rs
index 1e0d1e1..77378fd 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -2,13 +2,12 @@
 
 use enum_primitive::FromPrimitive;
 use itertools::Itertools;
-use std::ops::Add;
 
 use chrono::Duration;
 
 use crate::{
-    CodePair, Color, DataTableValue, DxfError, DxfResult, Point, SectionTypeSettings,
-    TableCellStyle, TransformationMatrix,
+    CodePair, CodePairValue, Color, DataTableValue, DxfError, DxfResult, Point,
+    SectionTypeSettings, TableCellStyle, TransformationMatrix,
 };
 
 use crate::code_pair_put_back::CodePairPutBack;
@@ -1123,7 +1122,7 @@ impl Object {
             match pair.code {
                 1 => {
                     // value should be "SectionTypeSettings", but it doesn't really matter
-                    while let Some(ts) = SectionTypeSettings::read(iter)? {
+                    if let Some(ts) = SectionTypeSettings::read(iter)? {
                         ss.geometry_settings.push(ts);
                     }
                 }
@@ -1211,21 +1210,21 @@ impl Object {
                         if matrix_list.len() == 12 {
                             let matrix = TransformationMatrix::from_vec(&[
                                 matrix_list[0],
-                                matrix_list[1],
-                                matrix_list[2],
-                                0.0,
                                 matrix_list[3],
-                                matrix_list[4],
-                                matrix_list[5],
-                                0.0,
                                 matrix_list[6],
-                                matrix_list[7],
-                                matrix_list[8],
-                                0.0,
                                 matrix_list[9],
+                                matrix_list[1],
+                                matrix_list[4],
+                                matrix_list[7],
                                 matrix_list[10],
+                                matrix_list[2],
+                                matrix_list[5],
+                                matrix_list[8],
                                 matrix_list[11],
                                 0.0,
+                                0.0,
+                                0.0,
+                                1.0,
                             ]);
                             matrix_list.clear();
                             if !set_inverse_matrix {
@@ -1318,8 +1317,10 @@ impl Object {
                         match julian_day {
                             Some(jd) => {
                                 let date = as_datetime_local(f64::from(jd));
-                                let date =
-                                    date.add(Duration::seconds(i64::from(pair.assert_i32()?)));
+                                let seconds = Duration::seconds(i64::from(pair.assert_i32()?));
+                                let date = date
+                                    .checked_add_signed(seconds)
+                                    .ok_or(DxfError::ParseError(pair.offset))?;
                                 ss.dates.push(date);
                                 julian_day = None;
                             }
@@ -1627,7 +1628,12 @@ impl Object {
                 pairs.push(CodePair::new_bool(291, ss.select_dates_from_calendar));
                 pairs.push(CodePair::new_i32(91, ss.dates.len() as i32));
                 for item in &ss.dates {
-                    pairs.push(CodePair::new_i32(90, as_double_local(*item) as i32));
+                    let julian_day = as_double_local(*item) as i32;
+                    let seconds_past_midnight = item
+                        .signed_duration_since(as_datetime_local(f64::from(julian_day)))
+                        .num_seconds();
+                    pairs.push(CodePair::new_i32(90, julian_day));
+                    pairs.push(CodePair::new_i32(90, seconds_past_midnight as i32));
                 }
                 pairs.push(CodePair::new_bool(292, ss.select_range_of_dates));
                 pairs.push(CodePair::new_i32(93, ss.start_time_seconds_past_midnight));
@@ -1635,7 +1641,7 @@ impl Object {
                 pairs.push(CodePair::new_i32(95, ss.interval_in_seconds));
                 pairs.push(CodePair::new_i16(73, ss.hours.len() as i16));
                 for v in &ss.hours {
-                    pairs.push(CodePair::new_i16(290, *v as i16));
+                    pairs.push(CodePair::new(290, CodePairValue::Boolean(*v as i16), 0));
                 }
                 pairs.push(CodePair::new_string(
                     340,
diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index 0081773..a609261 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -65,7 +65,7 @@ impl SectionTypeSettings {
                         ss.geometry_settings.push(gs);
                     }
                 }
-                3 => (), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                3 => return Ok(Some(ss)), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
                 90 => {
                     ss.section_type = pair.assert_i32()?;
                 }
-- 
2.43.0


From da803dc6c9d304195e043fb844e356fa8d6cad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:29 +0000
Subject: [PATCH 11/42] fix: write multiline, underlay and wipeout vertices and
 entity xdata where they are read

Their vertices were written with group codes the reader assigns to something
else, xdata of entities with children was written after the children and so
attached to the last of them, and AcDbVertex was written before R13.
---
 spec/EntitiesSpec.xml | 20 ++++++++++----------
 src/entity.rs         |  8 ++++++--
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index 9f17b24..f87ecca 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
-        <WriteSpecificValue Code="10" Value="item.x" />
-        <WriteSpecificValue Code="20" Value="item.y" />
-        <WriteSpecificValue Code="30" Value="item.z" />
-      </Foreach>
-      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
+      <Foreach Field="ent.miter_directions">
+        <WriteSpecificValue Code="13" Value="item.x" />
+        <WriteSpecificValue Code="23" Value="item.y" />
+        <WriteSpecificValue Code="33" Value="item.z" />
+      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
diff --git a/src/entity.rs b/src/entity.rs
index c2eeb9e..d5acd4d 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1305,10 +1305,12 @@ impl Entity {
                 self.specific.add_code_pairs(pairs, &self.common, version);
             }
 
-            self.add_post_code_pairs(pairs, version, write_handles);
+            // xdata belongs to this entity so it must come before any child entities
             for x in &self.common.x_data {
                 x.add_code_pairs(pairs, version);
             }
+
+            self.add_post_code_pairs(pairs, version, write_handles);
         }
     }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
@@ -1492,7 +1494,9 @@ impl Entity {
         v: &Vertex,
         version: AcadVersion,
     ) -> bool {
-        pairs.push(CodePair::new_str(100, "AcDbVertex"));
+        if version >= AcadVersion::R13 {
+            pairs.push(CodePair::new_str(100, "AcDbVertex"));
+        }
         let subclass_marker = if v.is_3d_polyline_vertex() || v.is_3d_polygon_mesh() {
             "AcDb3dPolylineVertex"
         } else {
-- 
2.43.0


From 34618f44415bd8c18b2454301c07dc25e4b8184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:05 +0000
Subject: [PATCH 12/42] fix: read dimensions that have no subclass marker

Before R13 the kind of a dimension is only given by its type, so every dimension
of such a file, including a rotated dimension this library had written itself,
was dropped.
---
 src/entity.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index d5acd4d..e58868e 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -233,6 +233,35 @@ impl Vertex {
 //                                                                    EntityType
 //------------------------------------------------------------------------------
 impl EntityType {
+    fn from_dimension_base(dimension_base: DimensionBase) -> Option<Self> {
+        match dimension_base.dimension_type {
+            DimensionType::RotatedHorizontalOrVertical | DimensionType::Aligned => {
+                Some(EntityType::RotatedDimension(RotatedDimension {
+                    dimension_base,
+                    ..Default::default()
+                }))
+            }
+            DimensionType::Diameter => Some(EntityType::DiameterDimension(DiameterDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::Radius => Some(EntityType::RadialDimension(RadialDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::AngularThreePoint => Some(EntityType::AngularThreePointDimension(
+                AngularThreePointDimension {
+                    dimension_base,
+                    ..Default::default()
+                },
+            )),
+            DimensionType::Ordinate => Some(EntityType::OrdinateDimension(OrdinateDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            _ => None,
+        }
+    }
     fn apply_dimension_code_pair(&mut self, pair: &CodePair) -> DxfResult<bool> {
         match *self {
             EntityType::RotatedDimension(ref mut dim) => match pair.code {
@@ -422,6 +451,8 @@ impl Entity {
                             let mut common = EntityCommon::default();
                             let mut dimension_entity: Option<EntityType> = None;
                             let mut dimension_base = DimensionBase::default();
+                            let mut has_subclass_marker = false;
+                            let mut type_specific_pairs = vec![];
                             loop {
                                 match iter.next() {
                                     Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -532,6 +563,7 @@ impl Entity {
                                                         );
                                                     }
                                                     100 => {
+                                                        has_subclass_marker = true;
                                                         match &*pair.assert_string()? {
                                                             "AcDbAlignedDimension" => {
                                                                 dimension_entity = Some(
@@ -590,6 +622,7 @@ impl Entity {
                                                     _ => {
                                                         common
                                                             .apply_individual_pair(&pair, iter)?;
+                                                        type_specific_pairs.push(pair);
                                                     }
                                                 }
                                             }
@@ -600,6 +633,16 @@ impl Entity {
                                 }
                             }
 
+                            if dimension_entity.is_none() && !has_subclass_marker {
+                                // before R13 only the dimension type identifies the kind
+                                dimension_entity = EntityType::from_dimension_base(dimension_base);
+                                if let Some(ref mut dim) = dimension_entity {
+                                    for pair in &type_specific_pairs {
+                                        dim.apply_dimension_code_pair(pair)?;
+                                    }
+                                }
+                            }
+
                             match dimension_entity {
                                 Some(dim) => {
                                     return Ok(Some(Entity {
-- 
2.43.0


From 4ecad676988f32efdd87eab198355dee5db76684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:18 +0000
Subject: [PATCH 13/42] fix: keep handles unique when loading and adding items

Items without a handle got one before all handles in the file were known, so
they could share it with a later item, and the next available handle could stay
below handles in use. Vertices, attributes and end of sequence markers lost
their handles, entities in blocks were renumbered, every block read added
another block record and an attribute's text ended its INSERT early.
---
 src/block.rs       |   6 +-
 src/drawing.rs     | 174 ++++++++++++++++++++++++++++++++-------------
 src/entity.rs      |  26 +++----
 src/entity_iter.rs |  38 +++++-----
 4 files changed, 154 insertions(+), 90 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index e143473..f095990 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -147,11 +147,7 @@ impl Block {
                                 }
                             }
 
-                            if current.handle.is_empty() {
-                                drawing.add_block(current);
-                            } else {
-                                drawing.add_block_no_handle_set(current);
-                            }
+                            drawing.add_block_no_handle_set(current);
                             break;
                         }
                         CodePair {
diff --git a/src/drawing.rs b/src/drawing.rs
index 70d2eaf..fc5047c 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -29,12 +29,10 @@ use crate::thumbnail;
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 use std::iter::Iterator;
 use std::path::Path;
 
-pub(crate) const AUTO_REPLACE_HANDLE: Handle = Handle(0xFFFF_FFFF_FFFF_FFFF);
-
 /// Represents a DXF drawing.
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -75,6 +73,10 @@ pub struct Drawing {
     /// The thumbnail image preview of the drawing.
     #[cfg_attr(feature = "serialize", serde(skip))]
     pub thumbnail: Option<DynamicImage>,
+
+    /// Set while loading; new items only get a handle once all existing handles are known.
+    #[cfg_attr(feature = "serialize", serde(skip))]
+    is_loading: bool,
 }
 
 // public implementation
@@ -97,6 +99,7 @@ impl Drawing {
             __entities: vec![],
             __objects: vec![],
             thumbnail: None,
+            is_loading: false,
         };
         drawing.normalize();
         drawing
@@ -130,7 +133,10 @@ impl Drawing {
         let mut drawing = Drawing::new();
         drawing.clear();
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
+        drawing.is_loading = true;
         Drawing::read_sections(&mut drawing, &mut iter)?;
+        drawing.is_loading = false;
+        drawing.set_missing_handles();
         match iter.next() {
             Some(Ok(CodePair {
                 code: 0,
@@ -395,7 +401,13 @@ impl Drawing {
     /// Add a block to the `Drawing`.
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
-        self.add_block_no_handle_set(block)
+        self.ensure_block_invariants(&block);
+        for entity in &mut block.entities {
+            self.set_entity_handles(entity);
+        }
+
+        self.__blocks.push(block);
+        self.__blocks.last().unwrap()
     }
     /// Removes the specified `Block` from the `Drawing`.
     pub fn remove_block(&mut self, index: usize) -> Option<Block> {
@@ -411,28 +423,7 @@ impl Drawing {
     }
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
-        entity.common.handle = self.next_handle();
-
-        // set child handles
-        match entity.specific {
-            EntityType::Insert(ref mut ins) => {
-                ins.__seqend_handle = self.next_handle();
-                for a in ins.__attributes_and_handles.iter_mut() {
-                    if a.1 == AUTO_REPLACE_HANDLE {
-                        a.1 = self.next_handle();
-                    }
-                }
-            }
-            EntityType::Polyline(ref mut poly) => {
-                poly.__seqend_handle = self.next_handle();
-                for v in poly.__vertices_and_handles.iter_mut() {
-                    if v.1 == AUTO_REPLACE_HANDLE {
-                        v.1 = self.next_handle();
-                    }
-                }
-            }
-            _ => (),
-        }
+        self.set_entity_handles(&mut entity);
 
         // ensure invariants
         self.add_entity_no_handle_set(entity)
@@ -643,9 +634,7 @@ impl Drawing {
     }
     pub(crate) fn assign_and_get_handle(&mut self, item: &mut DrawingItemMut) -> Handle {
         if item.handle().is_empty() {
-            item.set_handle(self.header.next_available_handle);
-            self.header.next_available_handle =
-                self.header.next_available_handle.next_handle_value();
+            item.set_handle(self.next_handle());
         }
 
         item.handle()
@@ -655,10 +644,71 @@ impl Drawing {
 // private implementation
 impl Drawing {
     pub(crate) fn next_handle(&mut self) -> Handle {
+        if self.is_loading {
+            // set once everything has been read
+            return Handle::empty();
+        }
+
+        if self.header.next_available_handle.is_empty() {
+            self.header.next_available_handle = Handle(1);
+        }
+
         let result = self.header.next_available_handle;
         self.header.next_available_handle = self.header.next_available_handle.next_handle_value();
         result
     }
+    /// Sets new handles on an entity and on those children that didn't get one from this drawing.
+    fn set_entity_handles(&mut self, entity: &mut Entity) {
+        entity.common.handle = self.next_handle();
+        match entity.specific {
+            EntityType::Insert(ref mut ins) => ins.__seqend_handle = self.next_handle(),
+            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = self.next_handle(),
+            _ => (),
+        }
+
+        for handle in child_handles_mut(entity) {
+            if handle.is_empty() || handle.0 >= self.header.next_available_handle.0 {
+                *handle = self.next_handle();
+            }
+        }
+    }
+    /// Ensures that every item has a handle and that the next handle isn't already in use.
+    fn set_missing_handles(&mut self) {
+        let mut next_handle = self.header.next_available_handle;
+        let mut handles = self.handles_mut();
+        for handle in handles.iter() {
+            if handle.0 >= next_handle.0 && !handle.is_empty() {
+                next_handle = handle.next_handle_value();
+            }
+        }
+        if next_handle.is_empty() {
+            next_handle = Handle(1);
+        }
+        for handle in handles.iter_mut().filter(|h| h.is_empty()) {
+            **handle = next_handle;
+            next_handle = next_handle.next_handle_value();
+        }
+        self.header.next_available_handle = next_handle;
+    }
+    fn handles_mut(&mut self) -> Vec<&mut Handle> {
+        let mut handles = vec![];
+        handles.extend(self.__app_ids.iter_mut().map(|i| &mut i.handle));
+        handles.extend(self.__block_records.iter_mut().map(|i| &mut i.handle));
+        handles.extend(self.__dim_styles.iter_mut().map(|i| &mut i.handle));
+        handles.extend(self.__layers.iter_mut().map(|i| &mut i.handle));
+        handles.extend(self.__line_types.iter_mut().map(|i| &mut i.handle));
+        handles.extend(self.__styles.iter_mut().map(|i| &mut i.handle));
+        handles.extend(self.__ucss.iter_mut().map(|i| &mut i.handle));
+        handles.extend(self.__views.iter_mut().map(|i| &mut i.handle));
+        handles.extend(self.__view_ports.iter_mut().map(|i| &mut i.handle));
+        for block in self.__blocks.iter_mut() {
+            handles.push(&mut block.handle);
+            handles.extend(block.entities.iter_mut().flat_map(entity_handles_mut));
+        }
+        handles.extend(self.__entities.iter_mut().flat_map(entity_handles_mut));
+        handles.extend(self.__objects.iter_mut().map(|o| &mut o.common.handle));
+        handles
+    }
     fn remove_item<T>(collection: &mut Vec<T>, index: usize) -> Option<T> {
         if index < collection.len() {
             Some(collection.remove(index))
@@ -666,11 +716,13 @@ impl Drawing {
             None
         }
     }
-    pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
-        self.ensure_layer_is_present_for_block(&block);
-        self.ensure_line_type_is_present_for_block(&block);
-        self.ensure_block_record_is_present_for_block(&mut block);
-        self.ensure_block_entity_handles_are_set(&mut block);
+    fn ensure_block_invariants(&mut self, block: &Block) {
+        self.ensure_layer_is_present_for_block(block);
+        self.ensure_line_type_is_present_for_block(block);
+        self.ensure_block_record_is_present(&block.name);
+    }
+    pub(crate) fn add_block_no_handle_set(&mut self, block: Block) -> &Block {
+        self.ensure_block_invariants(&block);
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
@@ -828,17 +880,6 @@ impl Drawing {
             self.ensure_line_type_is_present(&ent.common.line_type_name);
         }
     }
-    fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
-        self.add_block_record(BlockRecord {
-            name: String::from(&block.name),
-            ..Default::default()
-        });
-    }
-    fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
-        for ent in &mut block.entities {
-            ent.common.handle = self.next_handle();
-        }
-    }
     fn ensure_line_type_is_present_for_object(&mut self, obj: &Object) {
         if let ObjectType::MLineStyle(ref style) = &obj.specific {
             self.ensure_line_type_is_present(&style.style_name);
@@ -1071,11 +1112,7 @@ impl Drawing {
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
         for e in entities {
-            if e.common.handle.is_empty() {
-                self.add_entity(e);
-            } else {
-                self.add_entity_no_handle_set(e);
-            }
+            self.add_entity_no_handle_set(e);
         }
         Ok(())
     }
@@ -1224,7 +1261,7 @@ impl Drawing {
     }
     fn ensure_ucs(&mut self) {
         // ensure all ucs that should exist do
-        let mut should_exist = HashSet::new();
+        let mut should_exist = BTreeSet::new();
         should_exist.insert(self.header.ucs_definition_name.clone());
         should_exist.insert(self.header.ucs_name.clone());
         should_exist.insert(self.header.ortho_ucs_reference.clone());
@@ -1240,6 +1277,41 @@ impl Drawing {
     }
 }
 
+/// Gets the handles of an entity, its end of sequence marker and its children.
+fn entity_handles_mut(entity: &mut Entity) -> Vec<&mut Handle> {
+    let mut handles = vec![&mut entity.common.handle];
+    match entity.specific {
+        EntityType::Insert(ref mut ins) if !ins.__attributes_and_handles.is_empty() => {
+            handles.push(&mut ins.__seqend_handle);
+            handles.extend(ins.__attributes_and_handles.iter_mut().map(|a| &mut a.1));
+        }
+        EntityType::Polyline(ref mut poly) => {
+            handles.push(&mut poly.__seqend_handle);
+            handles.extend(poly.__vertices_and_handles.iter_mut().map(|v| &mut v.1));
+        }
+        _ => (),
+    }
+
+    handles
+}
+
+/// Gets the handles of the children of an entity.
+fn child_handles_mut(entity: &mut Entity) -> Vec<&mut Handle> {
+    match entity.specific {
+        EntityType::Insert(ref mut ins) => ins
+            .__attributes_and_handles
+            .iter_mut()
+            .map(|a| &mut a.1)
+            .collect(),
+        EntityType::Polyline(ref mut poly) => poly
+            .__vertices_and_handles
+            .iter_mut()
+            .map(|v| &mut v.1)
+            .collect(),
+        _ => vec![],
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::entities::*;
diff --git a/src/entity.rs b/src/entity.rs
index e58868e..705b947 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -97,6 +97,9 @@ impl Insert {
     pub fn add_attribute(&mut self, drawing: &mut Drawing, att: Attribute) {
         let att_handle = drawing.next_handle();
         self.__attributes_and_handles.push((att, att_handle));
+        if self.__seqend_handle.is_empty() {
+            self.__seqend_handle = drawing.next_handle();
+        }
     }
 }
 
@@ -1588,18 +1591,12 @@ impl Entity {
         write_handles: bool,
     ) {
         match self.specific {
-            EntityType::Attribute(ref att) => self.add_code_pairs_attribute_m_text(
-                pairs,
-                att.m_text.clone(),
-                version,
-                write_handles,
-            ),
-            EntityType::AttributeDefinition(ref att) => self.add_code_pairs_attribute_m_text(
-                pairs,
-                att.m_text.clone(),
-                version,
-                write_handles,
-            ),
+            EntityType::Attribute(ref att) => {
+                self.add_code_pairs_attribute_m_text(pairs, att.m_text.clone(), version)
+            }
+            EntityType::AttributeDefinition(ref att) => {
+                self.add_code_pairs_attribute_m_text(pairs, att.m_text.clone(), version)
+            }
             EntityType::Insert(ref ins) => {
                 for (a, att_handle) in &ins.__attributes_and_handles {
                     let a = Entity {
@@ -1645,10 +1642,9 @@ impl Entity {
         pairs: &mut Vec<CodePair>,
         m_text: MText,
         version: AcadVersion,
-        write_handles: bool,
     ) {
         let m_text_common = EntityCommon {
-            handle: Handle::empty(), // TODO: set handle
+            handle: Handle::empty(),
             __owner_handle: self.common.handle,
             is_in_paper_space: self.common.is_in_paper_space,
             layer: self.common.layer.clone(),
@@ -1658,7 +1654,7 @@ impl Entity {
             common: m_text_common,
             specific: EntityType::MText(m_text),
         };
-        m_text.add_code_pairs(pairs, version, write_handles);
+        m_text.add_code_pairs(pairs, version, false); // it has no handle to write
     }
     fn add_code_pairs_seqend(pairs: &mut Vec<CodePair>, handle: &Handle, write_handles: bool) {
         pairs.push(CodePair::new_str(0, "SEQEND"));
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index 24c6356..fb184e4 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,7 +1,6 @@
 use crate::code_pair_put_back::CodePairPutBack;
-use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::{DxfError, DxfResult};
+use crate::{DxfError, DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
@@ -44,22 +43,22 @@ pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> D
 where
     I: Iterator<Item = Entity>,
 {
-    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
+    /// Swallows the next entity if it's a SEQEND, returning its handle.
+    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> Handle
     where
         I: Iterator<Item = Entity>,
     {
         match iter.next() {
             Some(Entity {
+                common,
                 specific: EntityType::Seqend(_),
-                ..
-            }) => (),
+            }) => common.handle,
             Some(ent) => {
                 iter.put_back(ent);
+                Handle::empty()
             }
-            None => (),
+            None => Handle::empty(),
         }
-
-        Ok(())
     }
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
@@ -124,11 +123,14 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
-                            specific: EntityType::Attribute(att),
-                            ..
-                        }) => ins
-                            .__attributes_and_handles
-                            .push((att, AUTO_REPLACE_HANDLE)),
+                            common,
+                            specific: EntityType::Attribute(mut att),
+                        }) => {
+                            if let Some(m_text) = mtext(&mut iter)? {
+                                att.m_text = m_text;
+                            }
+                            ins.__attributes_and_handles.push((att, common.handle));
+                        }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
@@ -138,7 +140,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                ins.__seqend_handle = swallow_seqend(&mut iter);
 
                 // and finally keep the INSERT
                 entities.push(Entity {
@@ -154,11 +156,9 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Vertex(vertex),
-                            ..
-                        }) => poly
-                            .__vertices_and_handles
-                            .push((vertex, AUTO_REPLACE_HANDLE)),
+                        }) => poly.__vertices_and_handles.push((vertex, common.handle)),
                         Some(ent) => {
                             // stop gathering on any non-VERTEX
                             iter.put_back(ent);
@@ -168,7 +168,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                poly.__seqend_handle = swallow_seqend(&mut iter);
 
                 // and finally keep the POLYLINE
                 entities.push(Entity {
-- 
2.43.0


From a91849fa873be9058597230ba9940c0afddb812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:28 +0000
Subject: [PATCH 14/42] fix: write block xdata with the block instead of after
 its end where it is not read

---
 src/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index f095990..1719e48 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -254,6 +254,10 @@ impl Block {
             pairs.push(CodePair::new_string(4, &self.description));
         }
 
+        for x in &self.x_data {
+            x.add_code_pairs(pairs, version);
+        }
+
         for e in &self.entities {
             e.add_code_pairs(pairs, version, write_handles);
         }
@@ -285,10 +289,6 @@ impl Block {
         if version >= AcadVersion::R13 {
             pairs.push(CodePair::new_str(100, "AcDbBlockEnd"));
         }
-
-        for x in &self.x_data {
-            x.add_code_pairs(pairs, version);
-        }
     }
 }
 
-- 
2.43.0


From d947d0528a9622cb1e8f9ee66cf8e94a9821b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:02 +0000
Subject: [PATCH 15/42] fix: preserve text when it is escaped or stored in a
 binary file

Text with a backslash near its end lost everything after it, characters outside
of the basic multilingual plane and non-ASCII characters after a caret changed,
a trailing caret was dropped, binary files were written as UTF-8 but read one
byte at a time and binary values over 255 bytes corrupted the file.
---
 src/code_pair_iter.rs   |  40 +++++++++++-
 src/code_pair_value.rs  | 141 +++++++++++++++++++++-------------------
 src/code_pair_writer.rs |  32 ++++++---
 src/helper_functions.rs |  13 ++--
 4 files changed, 141 insertions(+), 85 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index c724880..b6b728b 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -251,7 +251,7 @@ impl<T: Read> BinaryCodePairIter<T> {
                 }
                 (
                     CodePairValue::Str(CodePairValue::un_escape_string(&value).into_owned()),
-                    value.len() + 1, // +1 to account for the NULL terminator
+                    value.chars().count() + 1, // +1 to account for the NULL terminator
                 )
             }
             ExpectedType::Binary => {
@@ -284,6 +284,39 @@ impl<T: Read> BinaryCodePairIter<T> {
     }
 }
 
+/// Decodes the strings of a binary file; they're otherwise read as one character per byte.
+struct DecodedBinaryCodePairIter<T: Read> {
+    iter: BinaryCodePairIter<T>,
+    string_encoding: &'static Encoding,
+}
+
+impl<T: Read> CodePairIter for DecodedBinaryCodePairIter<T> {
+    fn read_as_utf8(&mut self) {
+        self.string_encoding = encoding_rs::UTF_8;
+    }
+}
+
+impl<T: Read> Iterator for DecodedBinaryCodePairIter<T> {
+    type Item = DxfResult<CodePair>;
+    fn next(&mut self) -> Option<DxfResult<CodePair>> {
+        let mut pair = match self.iter.next()? {
+            Ok(pair) => pair,
+            Err(e) => return Some(Err(e)),
+        };
+        if let CodePairValue::Str(ref mut s) = pair.value {
+            let bytes: Vec<_> = s.chars().map(|c| c as u8).collect();
+            let decoded = try_from_dxf_result!(decode_string(&bytes, self.string_encoding));
+            *s = if self.string_encoding == encoding_rs::WINDOWS_1252 {
+                un_escape_ascii_to_unicode(&decoded)
+            } else {
+                decoded
+            };
+        }
+
+        Some(Ok(pair))
+    }
+}
+
 //---------------------------
 
 pub(crate) fn new_code_pair_iter_from_reader<T>(
@@ -310,7 +343,10 @@ where
                 0x00,
                 19
             );
-            Box::new(BinaryCodePairIter::new(cursor, 20))
+            Box::new(DecodedBinaryCodePairIter {
+                iter: BinaryCodePairIter::new(cursor, 20),
+                string_encoding,
+            })
         }
         _ => Box::new(TextCodePairIter::new(
             cursor,
diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index a2bb187..278f819 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -34,43 +34,43 @@ impl CodePairValue {
                         if do_escape {
                             do_escape = false;
                             let c = match c {
-                                '@' => 0x00,
-                                'A' => 0x01,
-                                'B' => 0x02,
-                                'C' => 0x03,
-                                'D' => 0x04,
-                                'E' => 0x05,
-                                'F' => 0x06,
-                                'G' => 0x07,
-                                'H' => 0x08,
-                                'I' => 0x09,
-                                'J' => 0x0A,
-                                'K' => 0x0B,
-                                'L' => 0x0C,
-                                'M' => 0x0D,
-                                'N' => 0x0E,
-                                'O' => 0x0F,
-                                'P' => 0x10,
-                                'Q' => 0x11,
-                                'R' => 0x12,
-                                'S' => 0x13,
-                                'T' => 0x14,
-                                'U' => 0x15,
-                                'V' => 0x16,
-                                'W' => 0x17,
-                                'X' => 0x18,
-                                'Y' => 0x19,
-                                'Z' => 0x1A,
-                                '[' => 0x1B,
-                                '\\' => 0x1C,
-                                ']' => 0x1D,
-                                '^' => 0x1E,
-                                '_' => 0x1F,
-                                ' ' => b'^',
-                                _ => c as u8, // invalid escape sequence, just keep the character
+                                '@' => '\u{00}',
+                                'A' => '\u{01}',
+                                'B' => '\u{02}',
+                                'C' => '\u{03}',
+                                'D' => '\u{04}',
+                                'E' => '\u{05}',
+                                'F' => '\u{06}',
+                                'G' => '\u{07}',
+                                'H' => '\u{08}',
+                                'I' => '\u{09}',
+                                'J' => '\u{0A}',
+                                'K' => '\u{0B}',
+                                'L' => '\u{0C}',
+                                'M' => '\u{0D}',
+                                'N' => '\u{0E}',
+                                'O' => '\u{0F}',
+                                'P' => '\u{10}',
+                                'Q' => '\u{11}',
+                                'R' => '\u{12}',
+                                'S' => '\u{13}',
+                                'T' => '\u{14}',
+                                'U' => '\u{15}',
+                                'V' => '\u{16}',
+                                'W' => '\u{17}',
+                                'X' => '\u{18}',
+                                'Y' => '\u{19}',
+                                'Z' => '\u{1A}',
+                                '[' => '\u{1B}',
+                                '\\' => '\u{1C}',
+                                ']' => '\u{1D}',
+                                '^' => '\u{1E}',
+                                '_' => '\u{1F}',
+                                ' ' => '^',
+                                _ => c, // invalid escape sequence, just keep the character
                             };
 
-                            result.push(c as char);
+                            result.push(c);
                         } else {
                             result.push(c);
                         }
@@ -78,6 +78,11 @@ impl CodePairValue {
                 }
             }
 
+            if do_escape {
+                // nothing was escaped
+                result.push('^');
+            }
+
             result.into()
         } else {
             val.into()
@@ -183,11 +188,13 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     let mut result = String::from("");
 
     for c in val.chars() {
-        let b = c as u32;
-        if b >= 128 {
-            result.push_str(&format!("\\U+{:04X}", b));
-        } else {
+        if c.is_ascii() {
             result.push(c);
+        } else {
+            // characters outside of the basic multilingual plane need two escape sequences
+            for unit in c.encode_utf16(&mut [0; 2]) {
+                result.push_str(&format!("\\U+{:04X}", unit));
+            }
         }
     }
 
@@ -195,43 +202,41 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
 }
 
 pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
-    let mut result = String::from("");
-    let mut seq = String::from("");
-    let mut in_escape_sequence = false;
-    let mut sequence_start = 0;
-
-    for (i, c) in val.chars().enumerate() {
-        if !in_escape_sequence {
-            if c == '\\' {
-                in_escape_sequence = true;
-                sequence_start = i;
-                seq.clear();
-                seq.push(c);
-            } else {
-                result.push(c);
-            }
-        } else {
-            seq.push(c);
-            if i == sequence_start + 6 {
-                in_escape_sequence = false;
-                if let Some(code_str) = seq.strip_prefix("\\U+") {
-                    let decoded = match u32::from_str_radix(code_str, 16) {
-                        Ok(code) => std::char::from_u32(code).unwrap_or('?'),
-                        Err(_) => '?',
-                    };
-                    result.push(decoded);
-                } else {
-                    result.push_str(&seq);
+    let mut result = String::with_capacity(val.len());
+    let mut units = vec![];
+    let mut rest = val;
+    while let Some(start) = rest.find("\\U+") {
+        let unit = rest
+            .get(start + 3..start + 7)
+            .filter(|digits| digits.bytes().all(|b| b.is_ascii_hexdigit()))
+            .and_then(|digits| u16::from_str_radix(digits, 16).ok());
+        match unit {
+            Some(unit) => {
+                if start > 0 {
+                    push_utf16_units(&mut result, &mut units);
+                    result.push_str(&rest[..start]);
                 }
-
-                seq.clear();
+                units.push(unit);
+                rest = &rest[start + 7..];
+            }
+            None => {
+                // not an escape sequence, keep it as it is
+                push_utf16_units(&mut result, &mut units);
+                result.push_str(&rest[..start + 3]);
+                rest = &rest[start + 3..];
             }
         }
     }
 
+    push_utf16_units(&mut result, &mut units);
+    result.push_str(rest);
     result
 }
 
+fn push_utf16_units(result: &mut String, units: &mut Vec<u16>) {
+    result.extend(std::char::decode_utf16(units.drain(..)).map(|c| c.unwrap_or('?')));
+}
+
 /// Formats an `f64` value with up to 12 digits of precision, ensuring at least one trailing digit after the decimal.
 fn format_f64(val: f64) -> String {
     // format with 12 digits of precision
diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index 7b3605c..5549c4c 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -47,17 +47,20 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
             self.write_binary_code_pair(pair)
         }
     }
+    fn escape_string(&self, s: &str) -> String {
+        let s = escape_control_characters(s);
+        if self.text_as_ascii {
+            escape_unicode_to_ascii(&s)
+        } else {
+            s
+        }
+    }
     fn write_ascii_code_pair(&mut self, pair: &CodePair) -> DxfResult<()> {
         self.writer
             .write_fmt(format_args!("{: >3}\r\n", pair.code))?;
         match pair.value {
             CodePairValue::Str(ref s) => {
-                let s = escape_control_characters(s);
-                let s = if self.text_as_ascii {
-                    escape_unicode_to_ascii(&s)
-                } else {
-                    s
-                };
+                let s = self.escape_string(s);
                 self.writer.write_fmt(format_args!("{}\r\n", s))?;
             }
             _ => self.writer.write_fmt(format_args!("{}\r\n", &pair.value))?,
@@ -65,6 +68,17 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
         Ok(())
     }
     fn write_binary_code_pair(&mut self, pair: &CodePair) -> DxfResult<()> {
+        if let CodePairValue::Binary(ref buf) = pair.value {
+            if buf.len() > usize::from(u8::MAX) {
+                // the length is a single byte, so larger values have to be written in chunks
+                for chunk in buf.chunks(usize::from(u8::MAX)) {
+                    self.write_binary_code_pair(&CodePair::new_binary(pair.code, chunk.to_vec()))?;
+                }
+
+                return Ok(());
+            }
+        }
+
         // write code
         if self.version >= AcadVersion::R13 {
             self.writer.write_i16::<LittleEndian>(pair.code as i16)?;
@@ -89,10 +103,8 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
             CodePairValue::Short(s) => self.writer.write_i16::<LittleEndian>(s)?,
             CodePairValue::Double(d) => self.writer.write_f64::<LittleEndian>(d)?,
             CodePairValue::Str(ref s) => {
-                for &b in escape_control_characters(s).as_bytes() {
-                    self.writer.write_u8(b)?;
-                }
-
+                let s = self.escape_string(s);
+                self.writer.write_all(s.as_bytes())?;
                 self.writer.write_u8(0)?;
             }
             CodePairValue::Binary(ref buf) => {
diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index af257d0..a6337a7 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -328,11 +328,7 @@ where
         }
     }
 
-    let mut result = match encoding.decode(&bytes) {
-        (result, _, false) => String::from(&*result),
-        (_, _, true) => return Err(DxfError::MalformedString),
-    };
-
+    let mut result = decode_string(&bytes, encoding)?;
     if result.ends_with('\r') {
         result.pop();
     }
@@ -340,6 +336,13 @@ where
     Ok(result)
 }
 
+pub(crate) fn decode_string(bytes: &[u8], encoding: &'static Encoding) -> DxfResult<String> {
+    match encoding.decode_without_bom_handling(bytes) {
+        (result, false) => Ok(result.into_owned()),
+        (_, true) => Err(DxfError::MalformedString),
+    }
+}
+
 pub(crate) fn read_u8<T: Read + ?Sized>(reader: &mut T) -> Option<io::Result<u8>> {
     let mut buf = [0];
     let size = match reader.read(&mut buf) {
-- 
2.43.0


From 21f74497f6956df746ff9f89d55f60aba8c10a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:29 +0000
Subject: [PATCH 16/42] fix: reject handles that do not fit in 64 bits instead
 of truncating them

---
 src/code_pair.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/code_pair.rs b/src/code_pair.rs
index c8a387c..2d129ca 100644
--- a/src/code_pair.rs
+++ b/src/code_pair.rs
@@ -101,6 +101,12 @@ impl CodePair {
         while bytes.len() < 8 {
             bytes.insert(0, 0);
         }
+        while bytes.len() > 8 {
+            // only leading zeros can be left out
+            if bytes.remove(0) != 0 {
+                return Err(DxfError::ParseError(self.offset));
+            }
+        }
         Ok(Handle(BigEndian::read_u64(&bytes)))
     }
 }
-- 
2.43.0


From 0913cf46fc45c6e3f39e6b5a50387fefeed531f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 17/42] fix: retry interrupted reads

---
 src/helper_functions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a6337a7..43d33e0 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -345,9 +345,12 @@ pub(crate) fn decode_string(bytes: &[u8], encoding: &'static Encoding) -> DxfRes
 
 pub(crate) fn read_u8<T: Read + ?Sized>(reader: &mut T) -> Option<io::Result<u8>> {
     let mut buf = [0];
-    let size = match reader.read(&mut buf) {
-        Ok(v) => v,
-        Err(e) => return Some(Err(e)),
+    let size = loop {
+        match reader.read(&mut buf) {
+            Ok(v) => break v,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) => return Some(Err(e)),
+        }
     };
     match size {
         0 => None,
-- 
2.43.0


From 9a53312df2f7a16445b4c3b85ac1e10e2fc64a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 18/42] fix: write DXB blocks, vertex widths and bulges so that
 they are read back

---
 src/dxb_reader.rs |  4 +--
 src/dxb_writer.rs | 71 ++++++++++++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 33 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 8acfd35..aad363b 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -296,9 +296,9 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_f(&mut self) -> DxfResult<f64> {
-        let value = read_f64(&mut self.reader);
+        let value = read_f64(&mut self.reader)?;
         self.advance_offset(8);
-        Ok(value.or::<f64>(Ok(0.0)).unwrap())
+        Ok(value)
     }
     fn read_n(&mut self) -> DxfResult<f64> {
         if self.is_integer_mode {
diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index e84f68a..ec369a9 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,52 +23,52 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
-        let writing_block = drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
-        if writing_block {
+        // force all numbers to be floats
+        self.write_item_type(DxbItemType::NumberMode)?;
+        self.write_w(1)?;
+
+        // a file holds either loose entities or the contents of one block
+        let block = match drawing.entities().next() {
+            Some(_) => None,
+            None => drawing.blocks().next(),
+        };
+        if let Some(block) = block {
             // write block header
             self.write_item_type(DxbItemType::BlockBase)?;
-            let block = drawing.blocks().next().unwrap();
             self.write_n(block.base_point.x)?;
             self.write_n(block.base_point.y)?;
         }
 
-        // force all numbers to be floats
-        self.write_item_type(DxbItemType::NumberMode)?;
-        self.write_w(1)?;
-
         // write color
-        let mut last_color = 0i16;
         self.write_item_type(DxbItemType::NewColor)?;
-        self.write_w(last_color)?;
+        self.write_w(0)?;
 
-        if writing_block {
-            self.write_entities(&drawing.blocks().next().unwrap().entities)?;
-        } else {
-            let groups = drawing.entities().chunk_by(|&e| e.common.layer.clone());
-            for (layer, entities) in &groups {
-                self.write_item_type(DxbItemType::NewLayer)?;
-                self.write_null_terminated_string(&layer)?;
-                for entity in entities {
-                    match entity.common.color.raw_value() {
-                        c if c == last_color => (), // same color, do nothing
-                        c => {
-                            last_color = c;
-                            self.write_item_type(DxbItemType::NewColor)?;
-                            self.write_w(last_color)?;
-                        }
-                    }
-                    self.write_entity(entity)?;
-                }
-            }
+        match block {
+            Some(block) => self.write_entities(block.entities.iter())?,
+            None => self.write_entities(drawing.entities())?,
         }
 
         // write null terminator
         self.writer.write_u8(0)?;
         Ok(())
     }
-    fn write_entities(&mut self, entities: &[Entity]) -> DxfResult<()> {
-        for entity in entities.iter() {
-            self.write_entity(entity)?;
+    fn write_entities<'a>(&mut self, entities: impl Iterator<Item = &'a Entity>) -> DxfResult<()> {
+        let mut last_color = 0i16;
+        let groups = entities.chunk_by(|&e| e.common.layer.clone());
+        for (layer, entities) in &groups {
+            self.write_item_type(DxbItemType::NewLayer)?;
+            self.write_null_terminated_string(&layer)?;
+            for entity in entities {
+                match entity.common.color.raw_value() {
+                    c if c == last_color => (), // same color, do nothing
+                    c => {
+                        last_color = c;
+                        self.write_item_type(DxbItemType::NewColor)?;
+                        self.write_w(last_color)?;
+                    }
+                }
+                self.write_entity(entity)?;
+            }
         }
         Ok(())
     }
@@ -197,6 +197,15 @@ impl<T: Write> DxbWriter<T> {
         self.write_item_type(DxbItemType::Vertex)?;
         self.write_n(vertex.location.x)?;
         self.write_n(vertex.location.y)?;
+        if vertex.starting_width != 0.0 || vertex.ending_width != 0.0 {
+            self.write_item_type(DxbItemType::Width)?;
+            self.write_n(vertex.starting_width)?;
+            self.write_n(vertex.ending_width)?;
+        }
+        if vertex.bulge != 0.0 {
+            self.write_item_type(DxbItemType::Bulge)?;
+            self.write_n(vertex.bulge)?;
+        }
         Ok(())
     }
     fn write_string(&mut self, value: &str) -> DxfResult<()> {
-- 
2.43.0


From 1f5accd11ac3a381122fb31fb22f593352a1dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:38 +0000
Subject: [PATCH 19/42] fix: remove code left unused by earlier fixes

---
 src/drawing.rs   | 2 +-
 src/thumbnail.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index fc5047c..5b935da 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -29,7 +29,7 @@ use crate::thumbnail;
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
-use std::collections::{BTreeSet, HashSet};
+use std::collections::BTreeSet;
 use std::iter::Iterator;
 use std::path::Path;
 
diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index 6d8e747..dd1afb2 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -200,6 +200,7 @@ fn read_thumbnail_from_bytes(data: &[u8]) -> DxfResult<Option<image::DynamicImag
     Ok(Some(image))
 }
 
+#[cfg(test)]
 fn read_i32(data: &[u8], offset: usize) -> DxfResult<i32> {
     let expected_length = offset + 4;
     if data.len() < expected_length {
-- 
2.43.0


From 224e3619a3b765fb805a1b5822e991defda3865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:33 +0000
Subject: [PATCH 20/42] fix: write the V tiling of a material's general map

---
 spec/ObjectsSpec.xml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index f8b091c..0be0ce8 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -588,6 +588,7 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
+      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
-- 
2.43.0


From 81fdedcfcb257d5bddc28c9823025b865a441c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:44 +0000
Subject: [PATCH 21/42] fix: read the xdata of an xrecord as xdata

---
 src/object.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index 77378fd..3885129 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1447,6 +1447,10 @@ impl Object {
                     read_duplicate_record_handling = true;
                     continue;
                 }
+                if pair.code == 1001 && common.apply_individual_pair(&pair, iter)? {
+                    // xdata follows the record's own data
+                    continue;
+                }
 
                 xr.data_pairs.push(pair);
             } else {
-- 
2.43.0


From 6e3aaec0decbabdd22dd3e64b52cab3d10571cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:52 +0000
Subject: [PATCH 22/42] fix: keep the UCS of a view port when its drawing is
 saved as R2007 or later

---
 spec/TableSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/TableSpec.xml b/spec/TableSpec.xml
index 3a2d059..0bf46b5 100644
--- a/spec/TableSpec.xml
+++ b/spec/TableSpec.xml
@@ -197,7 +197,7 @@
             <Field Name="snap_isometric_plane" Code="78" Type="SnapIsometricPlane" DefaultValue="SnapIsometricPlane::Left" ReadConverter="enum_from_number!(SnapIsometricPlane, Left, from_i16, {})" WriteConverter="{} as i16" MaxVersion="R2004" />
             <Field Name="plot_style_sheet" Code="1" Type="String" DefaultValue="String::new()" WriteConverter="&amp;{}" MinVersion="R2007" />
             <Field Name="render_mode" Code="281" Type="ViewRenderMode" DefaultValue="ViewRenderMode::Classic2D" ReadConverter="enum_from_number!(ViewRenderMode, Classic2D, from_i16, {})" WriteConverter="{} as i16" MinVersion="R2000" />
-            <Field Name="has_own_ucs" Code="65" Type="bool" DefaultValue="false" ReadConverter="as_bool({})" WriteConverter="as_i16({})" MinVersion="R2000" MaxVersion="R2004" />
+            <Field Name="has_own_ucs" Code="65" Type="bool" DefaultValue="false" ReadConverter="as_bool({})" WriteConverter="as_i16({})" MinVersion="R2000" />
             <Field Name="ucs_origin" Code="110" Type="Point" DefaultValue="Point::origin()" CodeOverrides="110,120,130" WriteCondition="item.has_own_ucs" MinVersion="R2000" />
             <Field Name="ucs_x_axis" Code="111" Type="Vector" DefaultValue="Vector::x_axis()" CodeOverrides="111,121,131" WriteCondition="item.has_own_ucs" MinVersion="R2000" />
             <Field Name="ucs_y_axis" Code="112" Type="Vector" DefaultValue="Vector::y_axis()" CodeOverrides="112,122,132" WriteCondition="item.has_own_ucs" MinVersion="R2000" />
-- 
2.43.0


From f028d33b96969ac4e222c0b6e9507c81cb405a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 23/42] fix: do not add a multiline style on load that the file
 already has

---
 src/drawing.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 5b935da..a1637a4 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -135,6 +135,7 @@ impl Drawing {
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
         drawing.is_loading = true;
         Drawing::read_sections(&mut drawing, &mut iter)?;
+        drawing.ensure_mline_styles();
         drawing.is_loading = false;
         drawing.set_missing_handles();
         match iter.next() {
@@ -727,7 +728,11 @@ impl Drawing {
         self.__blocks.last().unwrap()
     }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
-        self.ensure_mline_style_is_present_for_entity(&entity);
+        if !self.is_loading {
+            // otherwise the styles haven't been read yet
+            self.ensure_mline_style_is_present_for_entity(&entity);
+        }
+
         self.ensure_dimension_style_is_present_for_entity(&entity);
         self.ensure_layer_is_present(&entity.common.layer);
         self.ensure_line_type_is_present(&entity.common.line_type_name);
@@ -820,6 +825,13 @@ impl Drawing {
             }
         }
     }
+    fn ensure_mline_styles(&mut self) {
+        let entities = std::mem::take(&mut self.__entities);
+        for entity in &entities {
+            self.ensure_mline_style_is_present_for_entity(entity);
+        }
+        self.__entities = entities;
+    }
     fn ensure_dimension_style_is_present_for_entity(&mut self, entity: &Entity) {
         // ensure corresponding dimension style is present
         let dim_style_name = match &entity.specific {
-- 
2.43.0


From e5feba1873975d320f209c7f146b807d09d36e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:36 +0000
Subject: [PATCH 24/42] fix: leave the item specifications as they were

---
 spec/EntitiesSpec.xml | 20 ++++++++++----------
 spec/ObjectsSpec.xml  |  7 +++----
 spec/TableSpec.xml    |  2 +-
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index f87ecca..9f17b24 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
+        <WriteSpecificValue Code="10" Value="item.x" />
+        <WriteSpecificValue Code="20" Value="item.y" />
+        <WriteSpecificValue Code="30" Value="item.z" />
+      </Foreach>
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.segment_directions">
+      <Foreach Field="ent.miter_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
-        <WriteSpecificValue Code="13" Value="item.x" />
-        <WriteSpecificValue Code="23" Value="item.y" />
-        <WriteSpecificValue Code="33" Value="item.z" />
-      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 0be0ce8..218bce2 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_gloss_factor" />
+      <WriteField Field="specular_color_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
@@ -588,7 +588,6 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
-      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
@@ -1193,8 +1192,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.data.chunks(128).collect::&lt;Vec&lt;_&gt;&gt;()">
-        <WriteSpecificValue Code="310" Value="item.to_vec()" />
+      <Foreach Field="obj.__hex_data">
+        <WriteSpecificValue Code="310" Value="item.clone()" />
       </Foreach>
     </WriteOrder>
   </Object>
diff --git a/spec/TableSpec.xml b/spec/TableSpec.xml
index 0bf46b5..3a2d059 100644
--- a/spec/TableSpec.xml
+++ b/spec/TableSpec.xml
@@ -197,7 +197,7 @@
             <Field Name="snap_isometric_plane" Code="78" Type="SnapIsometricPlane" DefaultValue="SnapIsometricPlane::Left" ReadConverter="enum_from_number!(SnapIsometricPlane, Left, from_i16, {})" WriteConverter="{} as i16" MaxVersion="R2004" />
             <Field Name="plot_style_sheet" Code="1" Type="String" DefaultValue="String::new()" WriteConverter="&amp;{}" MinVersion="R2007" />
             <Field Name="render_mode" Code="281" Type="ViewRenderMode" DefaultValue="ViewRenderMode::Classic2D" ReadConverter="enum_from_number!(ViewRenderMode, Classic2D, from_i16, {})" WriteConverter="{} as i16" MinVersion="R2000" />
-            <Field Name="has_own_ucs" Code="65" Type="bool" DefaultValue="false" ReadConverter="as_bool({})" WriteConverter="as_i16({})" MinVersion="R2000" />
+            <Field Name="has_own_ucs" Code="65" Type="bool" DefaultValue="false" ReadConverter="as_bool({})" WriteConverter="as_i16({})" MinVersion="R2000" MaxVersion="R2004" />
             <Field Name="ucs_origin" Code="110" Type="Point" DefaultValue="Point::origin()" CodeOverrides="110,120,130" WriteCondition="item.has_own_ucs" MinVersion="R2000" />
             <Field Name="ucs_x_axis" Code="111" Type="Vector" DefaultValue="Vector::x_axis()" CodeOverrides="111,121,131" WriteCondition="item.has_own_ucs" MinVersion="R2000" />
             <Field Name="ucs_y_axis" Code="112" Type="Vector" DefaultValue="Vector::y_axis()" CodeOverrides="112,122,132" WriteCondition="item.has_own_ucs" MinVersion="R2000" />
-- 
2.43.0


From 8865370ccebd77bc1c2884f5be6c8ea7d92a1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:07 +0000
Subject: [PATCH 25/42] fix: do not allocate a thumbnail far larger than its
 data

---
 src/thumbnail.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index dd1afb2..c7fffc2 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -2,6 +2,15 @@ use crate::code_pair_put_back::CodePairPutBack;
 
 use crate::{CodePair, DxfError, DxfResult};
 
+use image::codecs::bmp::BmpDecoder;
+use image::error::{LimitError, LimitErrorKind};
+use image::{DynamicImage, ImageDecoder, ImageError};
+
+use std::io::Cursor;
+
+/// Largest accepted ratio of the size of an image to the size of its (possibly compressed) data.
+const MAX_IMAGE_EXPANSION: u64 = 1024;
+
 const FILE_HEADER_LENGTH: usize = 14;
 const FILE_LENGTH_OFFSET: usize = 2;
 const IMAGE_DATA_OFFSET_OFFSET: usize = 10;
@@ -196,7 +205,15 @@ fn set_thumbnail_offset_for_bitmapv4header_palette_256() {
 }
 
 fn read_thumbnail_from_bytes(data: &[u8]) -> DxfResult<Option<image::DynamicImage>> {
-    let image = image::load_from_memory(data)?;
+    let decoder = BmpDecoder::new(Cursor::new(data))?;
+    if decoder.total_bytes() > data.len() as u64 * MAX_IMAGE_EXPANSION {
+        // don't trust the declared dimensions of an image without the matching data
+        return Err(DxfError::ImageError(ImageError::Limits(
+            LimitError::from_kind(LimitErrorKind::InsufficientMemory),
+        )));
+    }
+
+    let image = DynamicImage::from_decoder(decoder)?;
     Ok(Some(image))
 }
 
-- 
2.43.0


From d94927662d418f239f2cadf44a7d69f41d620aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:14 +0000
Subject: [PATCH 26/42] fix: find the pixels of a thumbnail that has a palette
 of the default size

---
 src/thumbnail.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index c7fffc2..0b0aaca 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -15,6 +15,7 @@ const FILE_HEADER_LENGTH: usize = 14;
 const FILE_LENGTH_OFFSET: usize = 2;
 const IMAGE_DATA_OFFSET_OFFSET: usize = 10;
 
+const BITMAP_HEADER_BITS_PER_PIXEL_OFFSET: usize = 14;
 const BITMAP_HEADER_PALETTE_COUNT_OFFSET: usize = 32;
 
 pub(crate) fn read_thumbnail(iter: &mut CodePairPutBack) -> DxfResult<Option<image::DynamicImage>> {
@@ -92,6 +93,11 @@ fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
             data,
             FILE_HEADER_LENGTH + BITMAP_HEADER_PALETTE_COUNT_OFFSET,
         )? as usize;
+        let bits_per_pixel = data[FILE_HEADER_LENGTH + BITMAP_HEADER_BITS_PER_PIXEL_OFFSET];
+        let palette_color_count = match (palette_color_count, bits_per_pixel) {
+            (0, 1) | (0, 4) | (0, 8) => 1 << bits_per_pixel, // 0 means default of 2^n
+            (count, _) => count,
+        };
         palette_color_count * 4 // always 4 bytes: BGRA
     } else {
         return Ok(false);
-- 
2.43.0


From 3945d40a6af192067df21f09635b207cad3d8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:41 +0000
Subject: [PATCH 27/42] fix: report the offset in the file of an error in a
 binary or DXB file

---
 src/code_pair_iter.rs | 6 +++---
 src/dxb_reader.rs     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index b6b728b..85ad5b1 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -336,15 +336,15 @@ where
             assert_or_err!(
                 try_option_io_result_into_err!(read_u8(&mut cursor)),
                 0x1A,
-                18
+                20
             );
             assert_or_err!(
                 try_option_io_result_into_err!(read_u8(&mut cursor)),
                 0x00,
-                19
+                21
             );
             Box::new(DecodedBinaryCodePairIter {
-                iter: BinaryCodePairIter::new(cursor, 20),
+                iter: BinaryCodePairIter::new(cursor, 22),
                 string_encoding,
             })
         }
diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index aad363b..b27c1bd 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -32,7 +32,7 @@ impl<T: Read> DxbReader<T> {
             last_line_point: Point::origin(),
             last_trace_p3: Point::origin(),
             last_trace_p4: Point::origin(),
-            offset: 0,
+            offset: 17, // the first line has already been read
         }
     }
     pub fn load(&mut self) -> DxfResult<Drawing> {
@@ -40,13 +40,13 @@ impl<T: Read> DxbReader<T> {
         assert_or_err!(
             try_option_io_result_into_err!(read_u8(&mut self.reader)),
             0x1A,
-            16
+            17
         );
         self.advance_offset(1);
         assert_or_err!(
             try_option_io_result_into_err!(read_u8(&mut self.reader)),
             0x00,
-            17
+            18
         );
         self.advance_offset(1);
 
-- 
2.43.0


From 9f2cec09c8bb0a7d4dc1874d5676879570867d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:04 +0000
Subject: [PATCH 28/42] fix: reject short integers that are out of range
 instead of clamping them

---
 src/helper_functions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 43d33e0..7b95123 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -279,9 +279,12 @@ fn parse_i64_test() {
 }
 
 pub(crate) fn parse_i16(s: String, offset: usize) -> DxfResult<i16> {
-    match s.trim().parse::<f64>() {
-        Ok(s) => Ok(s as i16),
-        Err(e) => Err(DxfError::ParseFloatError(e, offset)),
+    let s = s.trim();
+    match (s.parse::<i16>(), s.parse::<f64>()) {
+        (Ok(i), _) => Ok(i),
+        (Err(_), Ok(d)) if d > -32769.0 && d < 32768.0 => Ok(d as i16),
+        (Err(e), Ok(_)) => Err(DxfError::ParseIntError(e, offset)),
+        (Err(_), Err(e)) => Err(DxfError::ParseFloatError(e, offset)),
     }
 }
 
-- 
2.43.0


From ade887053a6ea910427fd3e1754777713cfb744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 29/42] fix: reject a file with an unclosed block or section
 instead of reading a shorter drawing

---
 src/class.rs              |  7 +++++++
 src/code_pair_put_back.rs | 11 +++++++++++
 src/entity.rs             | 15 +++++++++++++++
 src/object.rs             |  8 ++++++++
 4 files changed, 41 insertions(+)

diff --git a/src/class.rs b/src/class.rs
index c928b52..1c8b318 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -125,6 +125,13 @@ impl Class {
                                 iter.put_back(Ok(pair));
                                 break;
                             }
+                            "SECTION" if iter.next_code_is(2) => {
+                                // the section was never closed
+                                return Err(DxfError::UnexpectedCodePair(
+                                    pair,
+                                    String::from("expected 0/ENDSEC"),
+                                ));
+                            }
                             typ => Class::read_class(typ, drawing, iter)?,
                         }
                     }
diff --git a/src/code_pair_put_back.rs b/src/code_pair_put_back.rs
index 4e668ca..34523eb 100644
--- a/src/code_pair_put_back.rs
+++ b/src/code_pair_put_back.rs
@@ -14,6 +14,17 @@ impl CodePairPutBack {
     pub fn put_back(&mut self, item: DxfResult<CodePair>) {
         self.top.push(item);
     }
+    /// Determines if the next code pair has the specified code without consuming it.
+    pub fn next_code_is(&mut self, code: i32) -> bool {
+        match self.next() {
+            Some(item) => {
+                let result = matches!(&item, Ok(pair) if pair.code == code);
+                self.put_back(item);
+                result
+            }
+            None => false,
+        }
+    }
     pub fn read_as_utf8(&mut self) {
         self.iter.read_as_utf8()
     }
diff --git a/src/entity.rs b/src/entity.rs
index 705b947..2d50e57 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -448,6 +448,21 @@ impl Entity {
                         return Ok(None);
                     }
 
+                    // the previous block or section was never closed
+                    if type_string == "BLOCK" {
+                        return Err(DxfError::UnexpectedCodePair(
+                            pair,
+                            String::from("expected 0/ENDBLK or 0/ENDSEC"),
+                        ));
+                    }
+                    if type_string == "SECTION" && iter.next_code_is(2) {
+                        // a SECTION entity doesn't start with a name
+                        return Err(DxfError::UnexpectedCodePair(
+                            pair,
+                            String::from("expected 0/ENDSEC"),
+                        ));
+                    }
+
                     match &*type_string {
                         "DIMENSION" => {
                             // dimensions require special handling
diff --git a/src/object.rs b/src/object.rs
index 3885129..c475618 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -117,6 +117,14 @@ impl Object {
                         return Ok(None);
                     }
 
+                    if type_string == "SECTION" {
+                        // the section was never closed
+                        return Err(DxfError::UnexpectedCodePair(
+                            pair,
+                            String::from("expected 0/ENDSEC"),
+                        ));
+                    }
+
                     match ObjectType::from_type_string(&type_string) {
                         Some(e) => {
                             let mut obj = Object::new(e);
-- 
2.43.0


From 59145db451ae6f7694f39af8546b749631d4c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:26 +0000
Subject: [PATCH 30/42] fix: skip unknown group codes inside section settings
 and table cell styles

---
 src/section_geometry_settings.rs | 28 ++++++++++++++++++----------
 src/section_type_settings.rs     |  3 ++-
 src/table_cell_style.rs          |  5 +++--
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/section_geometry_settings.rs b/src/section_geometry_settings.rs
index b706266..b702083 100644
--- a/src/section_geometry_settings.rs
+++ b/src/section_geometry_settings.rs
@@ -50,16 +50,23 @@ impl Default for SectionGeometrySettings {
 impl SectionGeometrySettings {
     pub(crate) fn read(iter: &mut CodePairPutBack) -> DxfResult<Option<SectionGeometrySettings>> {
         // check the first pair; only code 90 can start one of these
-        match iter.next() {
-            Some(Ok(pair @ CodePair { code: 90, .. })) => {
-                iter.put_back(Ok(pair));
-            }
-            Some(Ok(pair)) => {
-                iter.put_back(Ok(pair));
-                return Ok(None);
+        loop {
+            match iter.next() {
+                Some(Ok(pair @ CodePair { code: 90, .. })) => {
+                    iter.put_back(Ok(pair));
+                    break;
+                }
+                Some(Ok(pair)) => match pair.code {
+                    0..=3 | 5 | 91..=93 | 102 | 330 | 331 | 360 | 1000..=1071 => {
+                        // belongs to what follows
+                        iter.put_back(Ok(pair));
+                        return Ok(None);
+                    }
+                    _ => (), // unsupported code pair
+                },
+                Some(Err(e)) => return Err(e),
+                None => return Ok(None),
             }
-            Some(Err(e)) => return Err(e),
-            None => return Ok(None),
         }
 
         let mut gs = SectionGeometrySettings::default();
@@ -122,11 +129,12 @@ impl SectionGeometrySettings {
                 370 => {
                     gs.line_weight = pair.assert_i16()?;
                 }
-                _ => {
+                0 | 5 | 102 | 330 | 331 | 360 | 1000..=1071 => {
                     // unexpected end; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(gs));
                 }
+                _ => (), // unsupported code pair
             }
         }
 
diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index a609261..3b2c3ee 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -80,11 +80,12 @@ impl SectionTypeSettings {
                 331 => {
                     ss.destination_object_handle = pair.as_handle()?;
                 }
-                _ => {
+                5 | 102 | 360 | 1000..=1071 => {
                     // unexpected end; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(ss));
                 }
+                _ => (), // unsupported code pair
             }
         }
     }
diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index c738fe7..70a0253 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -137,11 +137,12 @@ impl TableCellStyle {
                 289 => {
                     style.is_border_6_visible = as_bool(pair.assert_i16()?);
                 }
-                _ => {
-                    // unexpected pair; put the pair back and return what we have
+                3 | 5 | 40 | 41 | 70 | 71 | 102 | 280 | 281 | 330 | 360 | 1000..=1071 => {
+                    // belongs to the table style; put the pair back and return what we have
                     iter.put_back(Ok(pair));
                     return Ok(Some(style));
                 }
+                _ => (), // unsupported code pair
             }
         }
     }
-- 
2.43.0


From 5963eb274a73274861aa74e758f62e77884dd082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:49 +0000
Subject: [PATCH 31/42] fix: don't allocate the declared columns of a data
 table without rows

---
 src/object.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index c475618..15073c4 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -429,7 +429,8 @@ impl Object {
 
             if read_row_count && read_column_count && !created_table {
                 // the counts come from the file so they can't be trusted to be reasonable
-                let cells = data.row_count.saturating_mul(data.column_count.max(1));
+                let rows = data.row_count.max(1);
+                let cells = rows.saturating_mul(data.column_count.max(1));
                 if cells <= MAX_INITIAL_TABLE_CELLS {
                     data.values = vec![vec![None; data.column_count]; data.row_count];
                 }
-- 
2.43.0


From fac6a71304fcc638472e468797f939c4fb225ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:17 +0000
Subject: [PATCH 32/42] fix: give the children of a copied entity handles of
 their own

---
 src/drawing.rs | 13 ++++++++++++-
 src/entity.rs  |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index a1637a4..322b557 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -77,6 +77,9 @@ pub struct Drawing {
     /// Set while loading; new items only get a handle once all existing handles are known.
     #[cfg_attr(feature = "serialize", serde(skip))]
     is_loading: bool,
+    /// Handles given to children of entities that aren't part of the drawing yet.
+    #[cfg_attr(feature = "serialize", serde(skip))]
+    reserved_handles: BTreeSet<u64>,
 }
 
 // public implementation
@@ -100,6 +103,7 @@ impl Drawing {
             __objects: vec![],
             thumbnail: None,
             is_loading: false,
+            reserved_handles: BTreeSet::new(),
         };
         drawing.normalize();
         drawing
@@ -472,6 +476,7 @@ impl Drawing {
         self.thumbnail = None;
 
         self.header.next_available_handle = Handle(1);
+        self.reserved_handles.clear();
     }
     /// Normalizes the `Drawing` by ensuring expected items are present.
     pub fn normalize(&mut self) {
@@ -658,6 +663,12 @@ impl Drawing {
         self.header.next_available_handle = self.header.next_available_handle.next_handle_value();
         result
     }
+    /// Gets a handle for the child of an entity that isn't part of the drawing yet.
+    pub(crate) fn reserve_handle(&mut self) -> Handle {
+        let handle = self.next_handle();
+        self.reserved_handles.insert(handle.0);
+        handle
+    }
     /// Sets new handles on an entity and on those children that didn't get one from this drawing.
     fn set_entity_handles(&mut self, entity: &mut Entity) {
         entity.common.handle = self.next_handle();
@@ -668,7 +679,7 @@ impl Drawing {
         }
 
         for handle in child_handles_mut(entity) {
-            if handle.is_empty() || handle.0 >= self.header.next_available_handle.0 {
+            if !self.reserved_handles.remove(&handle.0) {
                 *handle = self.next_handle();
             }
         }
diff --git a/src/entity.rs b/src/entity.rs
index 2d50e57..74d9d32 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -95,7 +95,7 @@ impl Insert {
         self.__attributes_and_handles.iter_mut().map(|a| &mut a.0)
     }
     pub fn add_attribute(&mut self, drawing: &mut Drawing, att: Attribute) {
-        let att_handle = drawing.next_handle();
+        let att_handle = drawing.reserve_handle();
         self.__attributes_and_handles.push((att, att_handle));
         if self.__seqend_handle.is_empty() {
             self.__seqend_handle = drawing.next_handle();
@@ -154,7 +154,7 @@ impl Polyline {
         self.__vertices_and_handles.iter_mut().map(|v| &mut v.0)
     }
     pub fn add_vertex(&mut self, drawing: &mut Drawing, vertex: Vertex) {
-        let vertex_handle = drawing.next_handle();
+        let vertex_handle = drawing.reserve_handle();
         self.__vertices_and_handles.push((vertex, vertex_handle));
     }
 }
-- 
2.43.0


From bcdebbb60ae18adef3b658a31e78236653d15199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:55 +0000
Subject: [PATCH 33/42] fix: normalizing twice changed the view port that the
 first time added

---
 src/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 322b557..4650732 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -495,7 +495,6 @@ impl Drawing {
         self.ensure_layers();
         self.ensure_line_types();
         self.ensure_text_styles();
-        self.ensure_view_ports();
         self.ensure_ucs();
 
         self.__app_ids.sort_by(|a, b| a.name.cmp(&b.name));
@@ -1249,6 +1248,7 @@ impl Drawing {
         }
     }
     fn normalize_view_ports(&mut self) {
+        self.ensure_view_ports();
         for v in self.view_ports_mut() {
             v.normalize();
         }
-- 
2.43.0


From ce796d031e2cd6db97fc570c2b2a3995654c961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:49 +0000
Subject: [PATCH 34/42] fix: what a drawing refers to was added twice when a
 file defines it after the reference

---
 src/drawing.rs | 71 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 4650732..5be0778 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -139,7 +139,7 @@ impl Drawing {
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
         drawing.is_loading = true;
         Drawing::read_sections(&mut drawing, &mut iter)?;
-        drawing.ensure_mline_styles();
+        drawing.ensure_named_items();
         drawing.is_loading = false;
         drawing.set_missing_handles();
         match iter.next() {
@@ -733,28 +733,63 @@ impl Drawing {
         self.ensure_block_record_is_present(&block.name);
     }
     pub(crate) fn add_block_no_handle_set(&mut self, block: Block) -> &Block {
-        self.ensure_block_invariants(&block);
+        if !self.is_loading {
+            self.ensure_block_invariants(&block);
+        }
+
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
+    /// Ensures that everything the items of a loaded drawing refer to by name is present.  This has to wait until all
+    /// sections and tables have been read because any of them may hold what another one refers to.
+    fn ensure_named_items(&mut self) {
+        let blocks = std::mem::take(&mut self.__blocks);
+        for block in &blocks {
+            self.ensure_block_invariants(block);
+        }
+        self.__blocks = blocks;
+        let entities = std::mem::take(&mut self.__entities);
+        for entity in &entities {
+            self.ensure_entity_invariants(entity);
+        }
+        self.__entities = entities;
+        let objects = std::mem::take(&mut self.__objects);
+        for obj in &objects {
+            self.ensure_object_invariants(obj);
+        }
+        self.__objects = objects;
+        let layers = std::mem::take(&mut self.__layers);
+        for layer in &layers {
+            self.ensure_line_type_is_present(&layer.line_type_name);
+        }
+        self.__layers = layers;
+    }
+    fn ensure_entity_invariants(&mut self, entity: &Entity) {
+        self.ensure_mline_style_is_present_for_entity(entity);
+        self.ensure_dimension_style_is_present_for_entity(entity);
+        self.ensure_layer_is_present(&entity.common.layer);
+        self.ensure_line_type_is_present(&entity.common.line_type_name);
+        self.ensure_text_style_is_present_for_entity(entity);
+    }
+    fn ensure_object_invariants(&mut self, obj: &Object) {
+        self.ensure_layer_is_present_for_object(obj);
+        self.ensure_line_type_is_present_for_object(obj);
+        self.ensure_text_style_is_present_for_object(obj);
+        self.ensure_view_is_present(obj);
+    }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
         if !self.is_loading {
-            // otherwise the styles haven't been read yet
-            self.ensure_mline_style_is_present_for_entity(&entity);
+            self.ensure_entity_invariants(&entity);
         }
 
-        self.ensure_dimension_style_is_present_for_entity(&entity);
-        self.ensure_layer_is_present(&entity.common.layer);
-        self.ensure_line_type_is_present(&entity.common.line_type_name);
-        self.ensure_text_style_is_present_for_entity(&entity);
         self.__entities.push(entity);
         self.__entities.last().unwrap()
     }
     fn add_object_no_handle_set(&mut self, obj: Object) -> &Object {
-        self.ensure_layer_is_present_for_object(&obj);
-        self.ensure_line_type_is_present_for_object(&obj);
-        self.ensure_text_style_is_present_for_object(&obj);
-        self.ensure_view_is_present(&obj);
+        if !self.is_loading {
+            self.ensure_object_invariants(&obj);
+        }
+
         self.__objects.push(obj);
         self.__objects.last().unwrap()
     }
@@ -777,7 +812,10 @@ impl Drawing {
         self.__dim_styles.last().unwrap()
     }
     pub(crate) fn add_layer_no_handle_set(&mut self, layer: Layer) -> &Layer {
-        self.ensure_line_type_is_present(&layer.line_type_name);
+        if !self.is_loading {
+            self.ensure_line_type_is_present(&layer.line_type_name);
+        }
+
         self.__layers.push(layer);
         self.__layers.last().unwrap()
     }
@@ -835,13 +873,6 @@ impl Drawing {
             }
         }
     }
-    fn ensure_mline_styles(&mut self) {
-        let entities = std::mem::take(&mut self.__entities);
-        for entity in &entities {
-            self.ensure_mline_style_is_present_for_entity(entity);
-        }
-        self.__entities = entities;
-    }
     fn ensure_dimension_style_is_present_for_entity(&mut self, entity: &Entity) {
         // ensure corresponding dimension style is present
         let dim_style_name = match &entity.specific {
-- 
2.43.0


From 66d2e845ab288475cff0de79686adf251196b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 35/42] fix: restore escaped characters of files loaded with
 any encoding

The \U+XXXX escapes were only undone when the file was read as Windows-1252, a
file in another code page kept them as text.  In binary files the caret escapes
were undone before decoding, which damaged multi-byte characters that contain
the byte of a caret, and a control character 0x1C followed by U+XXXX was read as
an escape.
---
 src/code_pair_iter.rs | 53 +++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index 85ad5b1..c3af530 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -131,11 +131,6 @@ impl<T: Read> TextCodePairIter<T> {
                 CodePairValue::Double(try_into_option!(parse_f64(value_line, self.offset)))
             }
             ExpectedType::Str => {
-                let value_line = if self.string_encoding == encoding_rs::WINDOWS_1252 {
-                    un_escape_ascii_to_unicode(&value_line)
-                } else {
-                    value_line
-                };
                 let value_line = CodePairValue::un_escape_string(&value_line);
                 CodePairValue::Str(value_line.into_owned())
             }
@@ -249,10 +244,8 @@ impl<T: Read> BinaryCodePairIter<T> {
                     self.offset += 1; // account for the NULL byte that was interpreted as an empty string
                     value = try_from_dxf_result!(self.read_string_binary()); // now read the actual value
                 }
-                (
-                    CodePairValue::Str(CodePairValue::un_escape_string(&value).into_owned()),
-                    value.chars().count() + 1, // +1 to account for the NULL terminator
-                )
+                let read_bytes = value.chars().count() + 1; // +1 to account for the NULL terminator
+                (CodePairValue::Str(value), read_bytes)
             }
             ExpectedType::Binary => {
                 let length = try_from_dxf_result!(read_u8_strict(&mut self.reader)) as usize;
@@ -306,17 +299,44 @@ impl<T: Read> Iterator for DecodedBinaryCodePairIter<T> {
         if let CodePairValue::Str(ref mut s) = pair.value {
             let bytes: Vec<_> = s.chars().map(|c| c as u8).collect();
             let decoded = try_from_dxf_result!(decode_string(&bytes, self.string_encoding));
-            *s = if self.string_encoding == encoding_rs::WINDOWS_1252 {
-                un_escape_ascii_to_unicode(&decoded)
-            } else {
-                decoded
-            };
+            *s = CodePairValue::un_escape_string(&decoded).into_owned();
         }
 
         Some(Ok(pair))
     }
 }
 
+/// Restores the characters that were escaped because strings couldn't be stored as UTF-8.
+struct UnEscapedCodePairIter {
+    iter: Box<dyn CodePairIter>,
+    is_escaped: bool,
+}
+
+impl CodePairIter for UnEscapedCodePairIter {
+    fn read_as_utf8(&mut self) {
+        self.is_escaped = false;
+        self.iter.read_as_utf8();
+    }
+}
+
+impl Iterator for UnEscapedCodePairIter {
+    type Item = DxfResult<CodePair>;
+    fn next(&mut self) -> Option<DxfResult<CodePair>> {
+        let mut pair = self.iter.next();
+        if let Some(Ok(CodePair {
+            value: CodePairValue::Str(ref mut s),
+            ..
+        })) = pair
+        {
+            if self.is_escaped {
+                *s = un_escape_ascii_to_unicode(s);
+            }
+        }
+
+        pair
+    }
+}
+
 //---------------------------
 
 pub(crate) fn new_code_pair_iter_from_reader<T>(
@@ -355,7 +375,10 @@ where
             1,
         )),
     };
-    Ok(iter)
+    Ok(Box::new(UnEscapedCodePairIter {
+        iter,
+        is_escaped: true,
+    }))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7f0215be19263ba0c3fd165221815f9046738c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:27 +0000
Subject: [PATCH 36/42] fix: keep the two halves of a proxy entity's drawing
 format apart

Setting the version kept bits of the previous one, and the maintenance release
is in the upper 16 bits, not in everything above the lowest four.
---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 74d9d32..eb81744 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -168,15 +168,16 @@ impl ProxyEntity {
         (self.__object_drawing_format & 0xFFFF) as i32
     }
     pub fn set_object_drawing_format_version(&mut self, version: i32) {
-        self.__object_drawing_format |= version as u32 & 0xFFFF;
+        self.__object_drawing_format =
+            (self.__object_drawing_format & 0xFFFF_0000) | (version as u32 & 0xFFFF);
     }
     // upper word
     pub fn object_maintenance_release_version(&self) -> i32 {
-        self.__object_drawing_format as i32 >> 4
+        (self.__object_drawing_format >> 16) as i32
     }
     pub fn set_object_mainenance_release_version(&mut self, version: i32) {
         self.__object_drawing_format =
-            (version << 4) as u32 + (self.__object_drawing_format & 0xFFFF);
+            ((version as u32 & 0xFFFF) << 16) | (self.__object_drawing_format & 0xFFFF);
     }
 }
 
-- 
2.43.0


From 49b8c52ac3f37be3a467cdaad85f06f4b01ff3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:43 +0000
Subject: [PATCH 37/42] fix: write extension groups without items

A group that was read without items was lost when the drawing was saved.
---
 src/extension_data.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/extension_data.rs b/src/extension_data.rs
index ea8cc90..79db88b 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -83,18 +83,16 @@ impl ExtensionGroup {
         })
     }
     pub(crate) fn add_code_pairs(&self, pairs: &mut Vec<CodePair>) {
-        if !self.items.is_empty() {
-            let mut full_group_name = String::new();
-            full_group_name.push('{');
-            full_group_name.push_str(&self.application_name);
-            pairs.push(CodePair::new_string(EXTENSION_DATA_GROUP, &full_group_name));
-            for item in &self.items {
-                match item {
-                    ExtensionGroupItem::CodePair(pair) => pairs.push(pair.clone()),
-                    ExtensionGroupItem::Group(ref group) => group.add_code_pairs(pairs),
-                }
+        let mut full_group_name = String::new();
+        full_group_name.push('{');
+        full_group_name.push_str(&self.application_name);
+        pairs.push(CodePair::new_string(EXTENSION_DATA_GROUP, &full_group_name));
+        for item in &self.items {
+            match item {
+                ExtensionGroupItem::CodePair(pair) => pairs.push(pair.clone()),
+                ExtensionGroupItem::Group(ref group) => group.add_code_pairs(pairs),
             }
-            pairs.push(CodePair::new_str(EXTENSION_DATA_GROUP, "}"));
         }
+        pairs.push(CodePair::new_str(EXTENSION_DATA_GROUP, "}"));
     }
 }
-- 
2.43.0


From 11a1e9c7bf2e8692a9ded56971c77955149d6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:26 +0000
Subject: [PATCH 38/42] fix: find the pixels of a thumbnail with color masks
 after its header

---
 src/thumbnail.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index 0b0aaca..bba3861 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -16,8 +16,12 @@ const FILE_LENGTH_OFFSET: usize = 2;
 const IMAGE_DATA_OFFSET_OFFSET: usize = 10;
 
 const BITMAP_HEADER_BITS_PER_PIXEL_OFFSET: usize = 14;
+const BITMAP_HEADER_COMPRESSION_OFFSET: usize = 16;
 const BITMAP_HEADER_PALETTE_COUNT_OFFSET: usize = 32;
 
+const BITMAPINFOHEADER_LENGTH: usize = 40;
+const COMPRESSION_BITFIELDS: u32 = 3;
+
 pub(crate) fn read_thumbnail(iter: &mut CodePairPutBack) -> DxfResult<Option<image::DynamicImage>> {
     match read_thumbnail_bytes_from_code_pairs(iter)? {
         Some(mut data) => {
@@ -103,8 +107,17 @@ fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
         return Ok(false);
     };
 
+    // the shortest header doesn't contain the color masks, they follow it
+    let compression = read_u32(data, FILE_HEADER_LENGTH + BITMAP_HEADER_COMPRESSION_OFFSET)?;
+    let mask_size =
+        if dib_header_size == BITMAPINFOHEADER_LENGTH && compression == COMPRESSION_BITFIELDS {
+            12 // red, green, blue
+        } else {
+            0
+        };
+
     // set the image data offset
-    let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + palette_size;
+    let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + mask_size + palette_size;
     set_i32(data, IMAGE_DATA_OFFSET_OFFSET, image_data_offset as i32)?;
 
     Ok(true)
-- 
2.43.0


From 1f7145ffde3b31faf815c33b3a3394253f270341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:37 +0000
Subject: [PATCH 39/42] fix: don't store a thumbnail without pixels

---
 src/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 5be0778..9412b71 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1052,7 +1052,9 @@ impl Drawing {
     }
     pub(crate) fn add_thumbnail_pairs(&self, pairs: &mut Vec<CodePair>) -> DxfResult<()> {
         if self.header.version >= AcadVersion::R2000 {
-            if let Some(ref img) = self.thumbnail {
+            let thumbnail = self.thumbnail.as_ref();
+            // an image without pixels can't be stored
+            if let Some(img) = thumbnail.filter(|i| i.width() > 0 && i.height() > 0) {
                 pairs.push(CodePair::new_str(0, "SECTION"));
                 pairs.push(CodePair::new_str(2, "THUMBNAILIMAGE"));
                 let mut data = vec![];
-- 
2.43.0


From 7aa1f83a074d663f2e36ce6a5396d3190c4bc55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:16 +0000
Subject: [PATCH 40/42] fix: bit values of resolved and referenced external
 references

---
 src/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 1719e48..fac6f48 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -80,16 +80,16 @@ impl Block {
         self.set_flag(16, val)
     }
     pub fn is_referenced_external_reference(&self) -> bool {
-        self.flag(32)
+        self.flag(64)
     }
     pub fn set_is_referenced_external_reference(&mut self, val: bool) {
-        self.set_flag(32, val)
+        self.set_flag(64, val)
     }
     pub fn is_resolved_external_reference(&self) -> bool {
-        self.flag(64)
+        self.flag(32)
     }
     pub fn set_is_resolved_external_reference(&mut self, val: bool) {
-        self.set_flag(64, val)
+        self.set_flag(32, val)
     }
     /// Ensure all values are valid.
     pub fn normalize(&mut self) {
-- 
2.43.0


From 7dd73d75d31450c70693fff48f6105ac93006b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:40 +0000
Subject: [PATCH 41/42] fix: sense of the front clipping at eye flag of a view

---
 src/enums.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/enums.rs b/src/enums.rs
index bde4668..88ddc0d 100644
--- a/src/enums.rs
+++ b/src/enums.rs
@@ -1352,10 +1352,11 @@ impl ViewMode {
         self.set_flag(8, val)
     }
     pub fn is_front_clipping_at_eye(self) -> bool {
-        self.flag(16)
+        // the flag means _not_ at eye
+        !self.flag(16)
     }
     pub fn set_is_front_clipping_at_eye(&mut self, val: bool) {
-        self.set_flag(16, val)
+        self.set_flag(16, !val)
     }
 }
 
-- 
2.43.0


From b67c4f8fb145a7841a81b1ca578221910e5c18fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 42/42] fix: the base of dates in time zones where 1900/01/01
 00:00 is ambiguous

---
 src/helper_functions.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 7b95123..3e202a2 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -46,8 +46,15 @@ fn epoch<T>(timezone: &T) -> DateTime<T>
 where
     T: TimeZone,
 {
-    // this will never fail; unwrap is ok
-    timezone.with_ymd_and_hms(1900, 1, 1, 0, 0, 0).unwrap()
+    // a time zone may have had this local time twice, or not at all, when its offset was changed
+    match timezone.with_ymd_and_hms(1900, 1, 1, 0, 0, 0).earliest() {
+        Some(epoch) => epoch,
+        // this will never fail in UTC; unwrap is ok
+        None => Utc
+            .with_ymd_and_hms(1900, 1, 1, 0, 0, 0)
+            .unwrap()
+            .with_timezone(timezone),
+    }
 }
 
 fn as_datetime<T>(timezone: &T, date: f64) -> DateTime<T>
-- 
2.43.0

