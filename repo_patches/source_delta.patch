From f5dd952ed281a6267d006d6131300845b7f2a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 01/50] fix: keep expanded image and sound file names unique
 and inside their directory

The names made unique with a _dedup suffix were built from the raw name, so
they could contain path separators, and they were not checked against the
names of other resources. The extension taken from the path was not
sanitized either.
---
 src/vpx/expanded/images.rs | 35 ++++++++++++++++-------------------
 src/vpx/expanded/sounds.rs | 33 ++++++++++++---------------------
 src/vpx/expanded/util.rs   | 19 +++++++++++++++++++
 3 files changed, 47 insertions(+), 40 deletions(-)

diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index 17d7245..668f8dd 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -10,7 +10,7 @@ use std::io::{self, BufRead, Seek, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{read_json, sanitize_filename, unique_file_stem};
 
 struct ImageBmp {
     width: u32,
@@ -43,28 +43,21 @@ pub(super) fn write_images<P: AsRef<Path>>(
                 image.height
             );
             let mut json = ImageDataJson::from_image_data(image);
-            let name_sanitized = sanitize_filename(&image.name);
-            if name_sanitized != image.name {
-                info!(
-                    "Image name {} contained invalid characters, sanitized to {}",
-                    image.name, name_sanitized
-                );
-                json.name_dedup = Some(name_sanitized.clone());
-            }
-            let lower_name = name_sanitized.to_lowercase();
-            if image_names_lower.contains(&lower_name) {
-                image_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", image.name, image_names_dupe_counter);
+            let file_stem = unique_file_stem(
+                &image.name,
+                &mut image_names_lower,
+                &mut image_names_dupe_counter,
+            );
+            if file_stem != image.name {
                 info!(
-                    "Image name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
+                    "Image name {} is not unique or not a valid file name, using {}",
+                    image.name, file_stem
                 );
-                json.name_dedup = Some(name_dedup);
+                json.name_dedup = Some(file_stem);
             }
-            image_names_lower.insert(lower_name);
 
             let actual_name = json.name_dedup.as_ref().unwrap_or(&image.name);
-            let file_name = format!("{}.{}", actual_name, image.ext());
+            let file_name = format!("{}.{}", actual_name, sanitize_filename(image.ext()));
 
             if let Some(jpeg) = &image.jpeg {
                 // Only if the actual image dimensions are different from
@@ -261,7 +254,11 @@ pub(super) fn read_images<P: AsRef<Path>>(
                     .name_dedup
                     .as_ref()
                     .unwrap_or(&image_data_json.name);
-                let full_file_name = format!("{}.{}", file_name, image_data_json.ext());
+                let full_file_name = format!(
+                    "{}.{}",
+                    file_name,
+                    sanitize_filename(image_data_json.ext())
+                );
                 let mut file_path = images_dir.join(&full_file_name);
 
                 let mut new_extension = None;
diff --git a/src/vpx/expanded/sounds.rs b/src/vpx/expanded/sounds.rs
index be8af44..78eb1c2 100644
--- a/src/vpx/expanded/sounds.rs
+++ b/src/vpx/expanded/sounds.rs
@@ -8,7 +8,7 @@ use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{read_json, sanitize_filename, unique_file_stem};
 
 pub(super) fn write_sounds<P: AsRef<Path>>(
     sounds: &[SoundData],
@@ -24,28 +24,19 @@ pub(super) fn write_sounds<P: AsRef<Path>>(
         .iter()
         .map(|sound| {
             let mut json = SoundDataJson::from_sound_data(sound);
-            let name_sanitized = sanitize_filename(&sound.name);
-            if name_sanitized != sound.name {
+            let file_stem = unique_file_stem(
+                &sound.name,
+                &mut sound_names_lower,
+                &mut sound_names_dupe_counter,
+            );
+            let file_name = format!("{}.{}", file_stem, sanitize_filename(sound.ext()));
+            if file_stem != sound.name {
                 info!(
-                    "Sound name {} contained invalid characters, sanitized to {}",
-                    sound.name, name_sanitized
+                    "Sound name {} is not unique or not a valid file name, using {}",
+                    sound.name, file_stem
                 );
-                json.name_dedup = Some(name_sanitized.clone());
+                json.name_dedup = Some(file_stem);
             }
-            let lower_name = name_sanitized.to_lowercase();
-            if sound_names_lower.contains(&lower_name) {
-                sound_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", sound.name, sound_names_dupe_counter);
-                info!(
-                    "Sound name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
-                );
-                json.name_dedup = Some(name_dedup);
-            }
-            sound_names_lower.insert(lower_name);
-
-            let actual_name = json.name_dedup.as_ref().unwrap_or(&name_sanitized);
-            let file_name = format!("{}.{}", actual_name, sound.ext());
             json_sounds.push(json);
             (file_name, sound)
         })
@@ -89,7 +80,7 @@ pub(super) fn read_sounds<P: AsRef<Path>>(
         .map(|sound_data_json| {
             let mut sound = sound_data_json.to_sound_data();
             let file_name = sound_data_json.name_dedup.as_ref().unwrap_or(&sound.name);
-            let full_file_name = format!("{}.{}", file_name, sound.ext());
+            let full_file_name = format!("{}.{}", file_name, sanitize_filename(sound.ext()));
             let file_path = sounds_dir.join(full_file_name);
             if fs.exists(&file_path) {
                 let sound_data = fs.read_file(&file_path)?;
diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 9dc8f95..f23c28e 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -2,6 +2,7 @@
 
 use crate::filesystem::FileSystem;
 use serde::de;
+use std::collections::HashSet;
 use std::io;
 use std::path::Path;
 
@@ -14,6 +15,24 @@ pub(crate) fn sanitize_filename<S: AsRef<str>>(name: S) -> String {
     sanitize_filename::sanitize(name)
 }
 
+/// Pick the file name (without extension) for a named resource, such that it is a
+/// valid file name and differs, ignoring case, from all the names in `used_lower`.
+///
+/// The picked name is added to `used_lower`.
+pub(super) fn unique_file_stem(
+    name: &str,
+    used_lower: &mut HashSet<String>,
+    dupe_counter: &mut usize,
+) -> String {
+    let sanitized = sanitize_filename(name);
+    let mut stem = sanitized.clone();
+    while !used_lower.insert(stem.to_lowercase()) {
+        *dupe_counter += 1;
+        stem = format!("{sanitized}_dedup{dupe_counter}");
+    }
+    stem
+}
+
 /// Read and parse a JSON file from the filesystem
 pub(super) fn read_json<P: AsRef<Path>, T>(json_path: P, fs: &dyn FileSystem) -> io::Result<T>
 where
-- 
2.43.0


From f09af0f475e0b8d9f618402a5942c87641265e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 02/50] fix: keep fonts with the same file name apart when
 expanding

Fonts whose names map to the same file overwrote each other, and the second
font replaced the first one when the table was assembled again.
---
 src/vpx/expanded/fonts.rs | 51 ++++++++++++++++++++++++++-------------
 src/vpx/font.rs           |  5 ++++
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/vpx/expanded/fonts.rs b/src/vpx/expanded/fonts.rs
index 40396ee..463789d 100644
--- a/src/vpx/expanded/fonts.rs
+++ b/src/vpx/expanded/fonts.rs
@@ -3,11 +3,12 @@
 use crate::filesystem::FileSystem;
 use crate::vpx::font::{FontData, FontDataJson};
 use log::info;
+use std::collections::HashSet;
 use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{read_json, sanitize_filename, unique_file_stem};
 
 pub(super) fn write_fonts<P: AsRef<Path>>(
     fonts: &[FontData],
@@ -16,19 +17,36 @@ pub(super) fn write_fonts<P: AsRef<Path>>(
 ) -> Result<(), WriteError> {
     let fonts_json_path = expanded_dir.as_ref().join("fonts.json");
     let mut fonts_index_file = fs.create_buffered_file(&fonts_json_path)?;
-    let fonts_index: Vec<FontDataJson> = fonts.iter().map(FontDataJson::from_font_data).collect();
+    let mut font_names_lower: HashSet<String> = HashSet::new();
+    let mut font_names_dupe_counter = 0;
+    let mut fonts_index = Vec::with_capacity(fonts.len());
+    let mut file_names = Vec::with_capacity(fonts.len());
+    for font in fonts {
+        let mut json = FontDataJson::from_font_data(font);
+        let file_stem = unique_file_stem(
+            &font.name,
+            &mut font_names_lower,
+            &mut font_names_dupe_counter,
+        );
+        file_names.push(format!("{}.{}", file_stem, sanitize_filename(font.ext())));
+        if file_stem != font.name {
+            json.name_dedup = Some(file_stem);
+        }
+        fonts_index.push(json);
+    }
     serde_json::to_writer_pretty(&mut fonts_index_file, &fonts_index)?;
     fonts_index_file.flush()?;
 
     let fonts_dir = expanded_dir.as_ref().join("fonts");
     fs.create_dir_all(&fonts_dir)?;
-    fonts.iter().try_for_each(|font| {
-        let sanitized_name = sanitize_filename(&font.name);
-        let file_name = format!("{}.{}", sanitized_name, font.ext());
-        let font_path = fonts_dir.join(file_name);
-        let mut file = fs.create_file(&font_path)?;
-        file.write_all(&font.data)
-    })?;
+    fonts
+        .iter()
+        .zip(file_names)
+        .try_for_each(|(font, file_name)| {
+            let font_path = fonts_dir.join(file_name);
+            let mut file = fs.create_file(&font_path)?;
+            file.write_all(&font.data)
+        })?;
     Ok(())
 }
 
@@ -42,16 +60,15 @@ pub(super) fn read_fonts<P: AsRef<Path>>(
         return Ok(vec![]);
     }
     let fonts_json: Vec<FontDataJson> = read_json(fonts_index_path, fs)?;
-    let fonts_index: Vec<FontData> = fonts_json
-        .iter()
-        .map(|font_data_json| font_data_json.to_font_data())
-        .collect();
     let fonts_dir = expanded_dir.as_ref().join("fonts");
-    let fonts: io::Result<Vec<FontData>> = fonts_index
+    let fonts: io::Result<Vec<FontData>> = fonts_json
         .into_iter()
-        .map(|mut font| {
-            let sanitized_name = sanitize_filename(&font.name);
-            let file_name = format!("{}.{}", sanitized_name, font.ext());
+        .map(|font_data_json| {
+            let mut font = font_data_json.to_font_data();
+            let file_stem = font_data_json
+                .name_dedup
+                .unwrap_or_else(|| sanitize_filename(&font.name));
+            let file_name = format!("{}.{}", file_stem, sanitize_filename(font.ext()));
             let font_path = fonts_dir.join(file_name);
             if fs.exists(&font_path) {
                 let font_data = fs.read_file(&font_path)?;
diff --git a/src/vpx/font.rs b/src/vpx/font.rs
index 3b195aa..00267b7 100644
--- a/src/vpx/font.rs
+++ b/src/vpx/font.rs
@@ -16,6 +16,10 @@ pub struct FontData {
 pub(crate) struct FontDataJson {
     name: String,
     path: String,
+    /// In case we have a duplicate name or the file name is not simply derived from the name
+    /// because of special characters etc.
+    #[serde(default, skip_serializing_if = "Option::is_none")]
+    pub(crate) name_dedup: Option<String>,
 }
 
 impl FontDataJson {
@@ -23,6 +27,7 @@ impl FontDataJson {
         Self {
             name: font_data.name.clone(),
             path: font_data.path.clone(),
+            name_dedup: None,
         }
     }
     pub fn to_font_data(&self) -> FontData {
-- 
2.43.0


From 88b3b6d135dc72222961e8263739c4df2964793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 03/50] fix: keep bmp files stored as files apart from bits
 images when expanding

An image stored as a file in the vpx whose path ends in .bmp was read back
from the expanded directory as an lzw compressed bits image.
---
 src/vpx/expanded/images.rs |  2 +-
 src/vpx/image.rs           | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index 668f8dd..e3b8280 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -272,7 +272,7 @@ pub(super) fn read_images<P: AsRef<Path>>(
 
                 if fs.exists(&file_path) {
                     let image_data = fs.read_file(&file_path)?;
-                    let image = if image_data_json.is_bmp() {
+                    let image = if image_data_json.is_bits() {
                         use crate::vpx::image::ImageDataBits;
                         let read_bmp = read_image_bmp(&image_data).map_err(|e| {
                             io::Error::new(
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 70921b7..2180900 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -223,7 +223,9 @@ impl ImageDataJson {
             } else {
                 Some(jpeg.name.clone())
             };
-            let jpeg_path = if jpeg.path == image_data.path {
+            // For a path with the bmp extension the presence of the jpeg path
+            // tells an image stored as a file from one stored as bits.
+            let jpeg_path = if jpeg.path == image_data.path && !is_bmp_ext(&image_data.ext()) {
                 None
             } else {
                 Some(jpeg.path.clone())
@@ -263,7 +265,7 @@ impl ImageDataJson {
 
     pub fn to_image_data(&self, width: u32, height: u32, bits: Option<ImageDataBits>) -> ImageData {
         let mut jpeg = None;
-        if !self.is_bmp() && !self.is_link() {
+        if !self.is_bits() && !self.is_link() {
             let name = match &self.jpeg_name {
                 Some(name) => name.clone(),
                 None => self.name.clone(),
@@ -323,11 +325,16 @@ impl ImageDataJson {
         }
     }
 
-    pub(crate) fn is_bmp(&self) -> bool {
-        self.ext().eq_ignore_ascii_case("bmp")
+    /// Whether the image is stored as raw bits in the vpx file instead of as an image file
+    pub(crate) fn is_bits(&self) -> bool {
+        is_bmp_ext(&self.ext()) && self.jpeg_path.is_none()
     }
 }
 
+fn is_bmp_ext(ext: &str) -> bool {
+    ext.eq_ignore_ascii_case("bmp")
+}
+
 impl BiffWrite for ImageData {
     fn biff_write(&self, writer: &mut BiffWriter) {
         write(self, writer);
-- 
2.43.0


From b8f6db5aa587b5afe8e0962a048671d6569bac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:05 +0000
Subject: [PATCH 04/50] fix: do not end image bits at bytes that merely look
 like the next tag

---
 src/vpx/biff.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/vpx/biff.rs b/src/vpx/biff.rs
index 2f18fc0..dccd650 100644
--- a/src/vpx/biff.rs
+++ b/src/vpx/biff.rs
@@ -485,13 +485,20 @@ impl<'a> BiffReader<'a> {
     }
 
     pub fn data_until(&mut self, tag: &[u8]) -> Vec<u8> {
-        // read bytes until we see tag and return it, put pos to the beginning of the tag
-        let mut pos = self.pos;
+        // read bytes until we see a record with the tag and return them, put pos to the beginning
+        // of the record
+        // The data itself can contain the bytes of the tag, so the record size in front of the tag
+        // needs to make sense
+        let mut pos = self.pos + 4;
         let mut found = false;
-        while pos < self.data.len() {
+        while pos + tag.len() <= self.data.len() {
             if &self.data[pos..pos + tag.len()] == tag {
-                found = true;
-                break;
+                let size: [u8; 4] = self.data[pos - 4..pos].try_into().unwrap();
+                let size = u32::from_le_bytes(size).to_usize();
+                if size >= tag.len() && size <= self.data.len() - pos {
+                    found = true;
+                    break;
+                }
             }
             pos += 1;
         }
-- 
2.43.0


From 1235e553d6d72b18f1039b8292cde68dbe5ac590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 05/50] fix: smoothing a curve with extreme coordinates ends

Coordinates for which the flatness is not a number or never reached overflowed
the stack.
---
 src/vpx/mesh/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index e5d726e..b84ef62 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -273,9 +273,14 @@ pub(super) fn flat_with_accuracy_2d(
     let dblarea = (vmid.x - v1.x) * (v2.y - v1.y) - (v2.x - v1.x) * (vmid.y - v1.y);
 
     // VPinball compares area squared directly against accuracy (not accuracy squared!)
-    dblarea * dblarea < accuracy
+    // Not a number is treated as flat, subdividing would never end
+    dblarea.is_nan() || dblarea * dblarea < accuracy
 }
 
+/// Smallest part of a curve segment that is still subdivided, far below what is needed for
+/// the geometry of a table. Without it extreme coordinates would be subdivided endlessly.
+const MIN_SMOOTH_STEP: f32 = 1.0 / 65536.0;
+
 /// Recursively subdivide a 2D curve segment until it's flat enough
 pub(super) fn recurse_smooth_line_2d(
     cc: &CatmullCurve2D,
@@ -295,7 +300,7 @@ pub(super) fn recurse_smooth_line_2d(
         ..Default::default()
     };
 
-    if flat_with_accuracy_2d(vt1, vt2, &vmid, accuracy) {
+    if t2 - t1 <= MIN_SMOOTH_STEP || flat_with_accuracy_2d(vt1, vt2, &vmid, accuracy) {
         vv.push(*vt1);
     } else {
         recurse_smooth_line_2d(cc, t1, t_mid, vt1, &vmid, vv, accuracy);
@@ -545,7 +550,8 @@ pub(super) fn flat_with_accuracy_3d(
     let cross = Vec3::cross(&mid_v1, &v2_v1);
     let dblareasq = cross.x * cross.x + cross.y * cross.y + cross.z * cross.z;
 
-    dblareasq < accuracy
+    // Not a number is treated as flat, subdividing would never end
+    dblareasq.is_nan() || dblareasq < accuracy
 }
 
 /// Recursively subdivide a 3D curve segment until it's flat enough
@@ -568,7 +574,7 @@ pub(super) fn recurse_smooth_line_3d(
         ..Default::default()
     };
 
-    if flat_with_accuracy_3d(vt1, vt2, &vmid, accuracy) {
+    if t2 - t1 <= MIN_SMOOTH_STEP || flat_with_accuracy_3d(vt1, vt2, &vmid, accuracy) {
         vv.push(*vt1);
     } else {
         recurse_smooth_line_3d(cc, t1, t_mid, vt1, &vmid, vv, accuracy);
-- 
2.43.0


From 1fd2d0932afdd00f4d5ac5cef7e17222a222ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 06/50] fix: read the mesh of a primitive named json

All the trailing .json parts of the file name were removed instead of only the
extension, and the mesh of the primitive was dropped.
---
 src/vpx/expanded/primitives.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vpx/expanded/primitives.rs b/src/vpx/expanded/primitives.rs
index 49e39ed..7890b46 100644
--- a/src/vpx/expanded/primitives.rs
+++ b/src/vpx/expanded/primitives.rs
@@ -608,8 +608,7 @@ fn write_animation_frames_to_meshes(
         let animation_frame_vertices =
             read_vpx_animation_frame(compressed_frame, compressed_length);
         let full_vertices = replace_vertices(vertices, animation_frame_vertices)?;
-        let file_name_without_ext = json_file_name.trim_end_matches(".json");
-        let file_name = animation_frame_file_name(file_name_without_ext, i, mesh_format);
+        let file_name = animation_frame_file_name(json_file_name, i, mesh_format);
         let mesh_path = gameitems_dir.join(&file_name);
 
         match mesh_format {
@@ -691,7 +690,9 @@ pub(super) fn read_gameitem_binaries(
     fs: &dyn FileSystem,
 ) -> io::Result<GameItemEnum> {
     if let GameItemEnum::Primitive(primitive) = &mut item {
-        let gameitem_file_name = gameitem_file_name.trim_end_matches(".json");
+        let gameitem_file_name = gameitem_file_name
+            .strip_suffix(".json")
+            .unwrap_or(&gameitem_file_name);
 
         // Check for OBJ first (backward compatibility), then GLB
         let obj_path = gameitems_dir.join(format!("{gameitem_file_name}.obj"));
-- 
2.43.0


From 946b0a630e42d484c1c538406bda709e6f50a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 07/50] fix: keep animation frames apart from primitives named
 like one

The mesh of a primitive named X_anim_0 was read as an animation frame of the
primitive X, or one overwrote the other.
---
 src/vpx/expanded/gameitems.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index 948f7a6..bcfe34c 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -139,10 +139,21 @@ fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEn
     }
     // escape any characters that are not allowed in file names, for any os
     name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+    // animation frames of the primitive "X" are written to files ending in "X_anim_0", ...
+    // make sure those are never mixed up with the mesh of a primitive that is named like that
+    if has_animation_frame_suffix(&name) {
+        name.push('_');
+    }
     let file_name = format!("{}.{}", gameitem.type_name(), name);
     file_name_gen.ensure_unique(file_name)
 }
 
+fn has_animation_frame_suffix(name: &str) -> bool {
+    name.to_lowercase()
+        .trim_end_matches(|c: char| c.is_ascii_digit())
+        .ends_with("_anim_")
+}
+
 pub(super) fn read_gameitems<P: AsRef<Path>>(
     expanded_dir: &P,
     fs: &dyn FileSystem,
-- 
2.43.0


From eeea9783cf3a1af56212f999bb097ae0dcc4d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 08/50] fix: line breaks in part and material names no longer
 break obj and mtl files

---
 src/vpx/export/obj_export.rs | 7 ++++---
 src/vpx/obj.rs               | 8 +++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index fb51d96..7fe9ff3 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -55,7 +55,7 @@ use crate::vpx::mesh::rubbers::build_rubber_mesh;
 use crate::vpx::mesh::spinners::build_spinner_meshes;
 use crate::vpx::mesh::triggers::build_trigger_mesh;
 use crate::vpx::mesh::walls::build_wall_meshes;
-use crate::vpx::obj::VpxFace;
+use crate::vpx::obj::{VpxFace, single_line};
 pub use crate::vpx::units::ExportUnits;
 use log::{info, warn};
 use std::collections::{HashMap, HashSet};
@@ -1275,7 +1275,7 @@ fn write_block<O: ObjWriter<f32>, M: MtlWriter<f32>>(
         return Ok(());
     }
 
-    obj.write_object_name(block.name)?;
+    obj.write_object_name(single_line(block.name))?;
 
     // Positions: world = local + translation; obj_z = -world_z; scale to chosen unit.
     let s = state.position_scale;
@@ -1431,8 +1431,9 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
 }
 
 /// Match VPinball's `WriteMaterial` (`std::erase(' ')`).
+/// Line breaks are erased too, they would end the name.
 fn sanitize_material_name(name: &str) -> String {
-    name.chars().filter(|c| *c != ' ').collect()
+    single_line(name).chars().filter(|c| *c != ' ').collect()
 }
 
 fn write_mtl_block<M: MtlWriter<f32>>(
diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 4be9231..d27fa65 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -92,6 +92,12 @@ fn obj_parse_vpx_comment(comment: &str) -> Option<VpxCommentBytes> {
     }
 }
 
+/// A name in an obj or mtl file ends at the end of the line, so line breaks and other control
+/// characters in it are replaced with spaces.
+pub(crate) fn single_line(name: &str) -> String {
+    name.replace(char::is_control, " ")
+}
+
 /// Writes a wavefront obj file from the vertices and indices
 /// as they are stored in the m3cx and m3ci fields of the primitive
 ///
@@ -125,7 +131,7 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
         vpx_vertices.len(),
         vpx_indices.len()
     ))?;
-    obj_writer.write_object_name(name)?;
+    obj_writer.write_object_name(single_line(name))?;
 
     for VertexWrapper { vertex, .. } in vpx_vertices {
         obj_writer.write_vertex(vertex.x, vertex.y, -vertex.z, None)?;
-- 
2.43.0


From da76a22f769b347e76cee4cb57a1fc851d2a4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 09/50] fix: exported wav files carry the stored byte rate and
 their real data size

The size of the data chunk of a sound that is not PCM was the cbSize field,
the average byte rate was recomputed (and overflowed), and on import whatever
followed the data chunk was taken as samples.
---
 src/vpx/sound.rs | 66 ++++++++++++++++++++++++++++++------------------
 src/vpx/wav.rs   |  2 +-
 2 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index 79e2325..ef236d2 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -2,7 +2,7 @@ use super::{
     Version,
     biff::{BiffReader, BiffWriter},
 };
-use crate::vpx::wav::{WavHeader, read_wav_header, write_wav_header};
+use crate::vpx::wav::{WavHeader, is_chunk_id, read_wav_header, write_wav_header};
 use bytes::{BufMut, BytesMut};
 use log::warn;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
@@ -171,44 +171,37 @@ impl SoundDataJson {
 const WAV_HEADER_SIZE: usize = 44;
 
 fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
-    let data_len = if sound_data.wave_form.format_tag == 1 {
-        // In the vpx file for PCM this is always 0,
-        // so we use the length of the data.
-        sound_data.data.len() as u32 // 4
+    let data_len = sound_data.data.len() as u32;
+    // a fmt chunk with a cbSize field is 18 bytes instead of 16, plus the bytes it counts
+    let (extension_size, fmt_size) = if sound_data.wave_form.format_tag == 1 {
+        (None, 16)
     } else {
-        sound_data.wave_form.cb_size as u32 // 4
+        let cb_size = sound_data.wave_form.cb_size;
+        (Some(cb_size), 18 + cb_size as u32)
     };
-    //let bytes_per_sec = sound_data.wave_form.avg_bytes_per_sec;
-    let bytes_per_sec = sound_data.wave_form.samples_per_sec
-        * sound_data.wave_form.bits_per_sample as u32
-        * sound_data.wave_form.channels as u32
-        / 8;
-    let extension_size = if sound_data.wave_form.format_tag == 1 {
-        None
-    } else {
-        Some(0)
-    };
-    // a fmt chunk with a cbSize field is 18 bytes instead of 16
-    let fmt_size = if extension_size.is_some() { 18 } else { 16 };
+    // the vpx file does not have the bytes counted by cbSize
+    let extension_fields = vec![0; extension_size.unwrap_or(0) as usize];
+    // everything after the size field: "WAVE", the padded fmt chunk and the data chunk
+    let size = (4 + 8 + fmt_size.next_multiple_of(2) + 8).saturating_add(data_len);
 
     let wav_header = WavHeader {
-        size: sound_data.data.len() as u32 + 36,
+        size,
         fmt_size,
         format_tag: sound_data.wave_form.format_tag,
         channels: sound_data.wave_form.channels,
         samples_per_sec: sound_data.wave_form.samples_per_sec,
-        avg_bytes_per_sec: bytes_per_sec,
+        avg_bytes_per_sec: sound_data.wave_form.avg_bytes_per_sec,
         block_align: sound_data.wave_form.block_align,
         bits_per_sample: sound_data.wave_form.bits_per_sample,
         extension_size,
-        extension_fields: Vec::new(),
+        extension_fields,
         pre_fmt_fields: Vec::new(),
         extra_fields: Vec::new(),
         data_size: data_len,
     };
     let mut buf = BytesMut::with_capacity(WAV_HEADER_SIZE);
     write_wav_header(&wav_header, &mut buf);
-    buf.to_vec() // total 44 bytes
+    buf.to_vec() // total 44 bytes for PCM
 }
 
 impl From<WavHeader> for WaveForm {
@@ -236,6 +229,22 @@ pub fn write_sound(sound_data: &SoundData) -> Vec<u8> {
     }
 }
 
+/// True if the bytes are a sequence of complete RIFF chunks, or nothing at all
+fn is_chunk_list(mut bytes: &[u8]) -> bool {
+    while !bytes.is_empty() {
+        if bytes.len() < 8 || !is_chunk_id(&bytes[0..4]) {
+            return false;
+        }
+        let size = u32::from_le_bytes([bytes[4], bytes[5], bytes[6], bytes[7]]) as usize;
+        if size > bytes.len() - 8 {
+            return false;
+        }
+        let padded = size.next_multiple_of(2).min(bytes.len() - 8);
+        bytes = &bytes[8 + padded..];
+    }
+    true
+}
+
 pub fn read_sound(data: &[u8], sound_data: &mut SoundData) -> io::Result<()> {
     if is_wav(&sound_data.path) {
         let mut reader = bytes::BytesMut::from(data);
@@ -249,13 +258,22 @@ pub fn read_sound(data: &[u8], sound_data: &mut SoundData) -> io::Result<()> {
             )
         })?;
         let header_data_size = header.data_size;
-        // read all remaining bits
-        sound_data.data = reader.to_vec();
+        let extension_size = header.extension_size;
         let mut wave_form: WaveForm = header.into();
+        let data_size = (header_data_size as usize).min(reader.len());
         if wave_form.format_tag == 1 {
+            // whatever follows the data chunk (pad byte, other chunks) is not sound data
+            sound_data.data = reader[..data_size].to_vec();
             // in the vpx file this is always 0 for PCM
             wave_form.cb_size = 0;
+        } else if header_data_size as usize <= reader.len()
+            && is_chunk_list(&reader[data_size.next_multiple_of(2).min(reader.len())..])
+        {
+            sound_data.data = reader[..data_size].to_vec();
+            wave_form.cb_size = extension_size.unwrap_or(0);
         } else {
+            // vpin up to 0.27.x wrote the cbSize field as the size of the data chunk
+            sound_data.data = reader.to_vec();
             wave_form.cb_size = header_data_size as u16;
         }
         sound_data.wave_form = wave_form;
diff --git a/src/vpx/wav.rs b/src/vpx/wav.rs
index 611710d..9607a83 100644
--- a/src/vpx/wav.rs
+++ b/src/vpx/wav.rs
@@ -231,7 +231,7 @@ fn read_fmt_chunk(reader: &mut BytesMut, fmt_size: u32) -> io::Result<FmtChunk>
 }
 
 /// RIFF chunk ids are four printable ascii characters
-fn is_chunk_id(bytes: &[u8; 4]) -> bool {
+pub(crate) fn is_chunk_id(bytes: &[u8]) -> bool {
     bytes.iter().all(|b| b.is_ascii_graphic() || *b == b' ')
 }
 
-- 
2.43.0


From bc8cd9c3b087ad78b6dff0cb2cc0801fd949368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 10/50] fix: report only the bmp images that were converted to
 webp

A bmp image stored as a file, or a linked one, is left alone but was listed
as converted.
---
 src/vpx/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 3ab9304..02a10a1 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -1073,12 +1073,12 @@ fn images_to_webp<F: Read + Write + Seek>(
                     image_data.bits = None;
                     image_data.jpeg = Some(jpg);
                     write_image(comp, index as usize, &image_data, true)?;
+                    conversions.push(ImageToWebpConversion {
+                        name: image_data.name.clone(),
+                        old_extension: "bmp".to_string(),
+                        new_extension: "webp".to_string(),
+                    });
                 }
-                conversions.push(ImageToWebpConversion {
-                    name: image_data.name.clone(),
-                    old_extension: "bmp".to_string(),
-                    new_extension: "webp".to_string(),
-                });
             }
             _ => {}
         }
-- 
2.43.0


From d6965d7c4f05b63f301f7864ec6621d9949fae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:59 +0000
Subject: [PATCH 11/50] fix: cut off long part and resource names in expanded
 file names

---
 src/vpx/expanded/gameitems.rs |  3 ++-
 src/vpx/expanded/util.rs      | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index bcfe34c..51b3699 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -11,7 +11,7 @@ use std::path::Path;
 use tracing::instrument;
 
 use super::primitives::{read_gameitem_binaries, write_gameitem_binaries};
-use super::util::read_json;
+use super::util::{read_json, truncate_file_stem};
 use super::{ExpandOptions, WriteError};
 
 /// Since it's common to change layer visibility we don't want that to cause a
@@ -139,6 +139,7 @@ fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEn
     }
     // escape any characters that are not allowed in file names, for any os
     name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+    name = truncate_file_stem(&name).to_string();
     // animation frames of the primitive "X" are written to files ending in "X_anim_0", ...
     // make sure those are never mixed up with the mesh of a primitive that is named like that
     if has_animation_frame_suffix(&name) {
diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index f23c28e..86d5c60 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -15,6 +15,19 @@ pub(crate) fn sanitize_filename<S: AsRef<str>>(name: S) -> String {
     sanitize_filename::sanitize(name)
 }
 
+/// Names longer than this many bytes are cut off in file names. The usual limit for a
+/// file name is 255 bytes, this leaves room for prefixes, suffixes and extensions.
+const MAX_FILE_STEM_LEN: usize = 200;
+
+/// Cut off a name that is too long to be used in a file name.
+pub(super) fn truncate_file_stem(name: &str) -> &str {
+    let mut end = name.len().min(MAX_FILE_STEM_LEN);
+    while !name.is_char_boundary(end) {
+        end -= 1;
+    }
+    &name[..end]
+}
+
 /// Pick the file name (without extension) for a named resource, such that it is a
 /// valid file name and differs, ignoring case, from all the names in `used_lower`.
 ///
@@ -24,7 +37,7 @@ pub(super) fn unique_file_stem(
     used_lower: &mut HashSet<String>,
     dupe_counter: &mut usize,
 ) -> String {
-    let sanitized = sanitize_filename(name);
+    let sanitized = truncate_file_stem(&sanitize_filename(name)).to_string();
     let mut stem = sanitized.clone();
     while !used_lower.insert(stem.to_lowercase()) {
         *dupe_counter += 1;
-- 
2.43.0


From edaee73582bce4b9db9dca89531aa8ed94fea73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:59 +0000
Subject: [PATCH 12/50] fix: write font styles and custom info in a fixed order
 when expanding

---
 src/vpx/gameitem/font.rs | 11 ++++++-----
 src/vpx/jsonmodel.rs     | 13 +++++++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/vpx/gameitem/font.rs b/src/vpx/gameitem/font.rs
index 77f1ac9..330fa91 100644
--- a/src/vpx/gameitem/font.rs
+++ b/src/vpx/gameitem/font.rs
@@ -1,6 +1,6 @@
 use crate::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
 use serde::{Deserialize, Serialize};
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 
 // from https://github.com/wine-mirror/wine/blob/f38a32e64c00600a5252fe0b9ca1ca42208bd6fe/dlls/oleaut32/olefont.c#L1546-L1566
 /************************************************************************
@@ -35,7 +35,7 @@ use std::collections::HashSet;
  * - 0x04: underline
  * - 0x08: strikethrough
  */
-#[derive(Debug, PartialEq, Clone, Serialize, Deserialize, Hash, Eq)]
+#[derive(Debug, PartialEq, Clone, Serialize, Deserialize, Hash, Eq, PartialOrd, Ord)]
 #[cfg_attr(test, derive(fake::Dummy))]
 pub enum FontStyle {
     Normal,
@@ -137,7 +137,8 @@ pub struct Font {
 pub(crate) struct FontJson {
     #[serde(skip_serializing_if = "Option::is_none")]
     charset: Option<u16>,
-    style: HashSet<FontStyle>,
+    // sorted, so the same font always gives the same json
+    style: BTreeSet<FontStyle>,
     weight: u16,
     size: u32,
     name: String,
@@ -150,7 +151,7 @@ impl FontJson {
         };
         Self {
             charset,
-            style: font.style.clone(),
+            style: font.style.iter().cloned().collect(),
             weight: font.weight,
             size: font.size,
             name: font.name.clone(),
@@ -159,7 +160,7 @@ impl FontJson {
     pub fn to_font(&self) -> Font {
         Font {
             charset: self.charset.unwrap_or(CHARSET_ANSI),
-            style: self.style.clone(),
+            style: self.style.iter().cloned().collect(),
             weight: self.weight,
             size: self.size,
             name: self.name.clone(),
diff --git a/src/vpx/jsonmodel.rs b/src/vpx/jsonmodel.rs
index dc1442c..4c40bb3 100644
--- a/src/vpx/jsonmodel.rs
+++ b/src/vpx/jsonmodel.rs
@@ -1,6 +1,6 @@
 use serde::{Deserialize, Serialize};
 use serde_json::to_value;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::vpx::collection::Collection;
 use crate::vpx::custominfotags::CustomInfoTags;
@@ -32,7 +32,8 @@ struct TableInfoJson {
     author_website: Option<String>,
     table_save_date: Option<String>,
     table_description: Option<String>,
-    properties: HashMap<String, String>,
+    // sorted, so the same table always gives the same json
+    properties: BTreeMap<String, String>,
     // since the ordering is important, we need to keep track of it
     properties_order: Vec<String>,
 }
@@ -54,7 +55,11 @@ pub fn info_to_json(
         author_website: table_info.author_website.clone(),
         table_save_date: table_info.table_save_date.clone(),
         table_description: table_info.table_description.clone(),
-        properties: table_info.properties.clone(),
+        properties: table_info
+            .properties
+            .iter()
+            .map(|(k, v)| (k.clone(), v.clone()))
+            .collect(),
         properties_order: custom_info_tags.clone(),
     };
     to_value(info_json).unwrap()
@@ -78,7 +83,7 @@ pub fn json_to_info(
         author_website: info_json.author_website,
         table_save_date: info_json.table_save_date,
         table_description: info_json.table_description,
-        properties: info_json.properties,
+        properties: info_json.properties.into_iter().collect(),
     };
     let custom_info_tags = info_json.properties_order;
     Ok((table_info, custom_info_tags))
-- 
2.43.0


From b45b6a9ad0fb278ae52c4b143b5f5ba76a574ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 13/50] fix: keep not-a-number values of animation frames when
 expanding

---
 src/vpx/expanded/primitives.rs | 34 +++++++++++++++++++++++++++++-----
 src/vpx/obj.rs                 |  8 ++++++++
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/vpx/expanded/primitives.rs b/src/vpx/expanded/primitives.rs
index 7890b46..f519576 100644
--- a/src/vpx/expanded/primitives.rs
+++ b/src/vpx/expanded/primitives.rs
@@ -659,8 +659,7 @@ fn replace_vertices(
             full_vertex.nx = animation_vertex.nx;
             full_vertex.ny = animation_vertex.ny;
             full_vertex.nz = animation_vertex.nz;
-            // TODO we don't have a full representation of the vertex
-            VertexWrapper::new([0u8; 32], full_vertex)
+            VertexWrapper::new(full_vertex.to_vpx_bytes(), full_vertex)
         })
         .collect::<Vec<_>>();
     Ok(full_vertices)
@@ -930,7 +929,7 @@ fn read_obj_as_frame(obj_path: &Path, fs: &dyn FileSystem) -> io::Result<Vec<Ver
         let nx = vn.x;
         let ny = vn.y;
         let nz = -(vn.z);
-        let vertext = VertData {
+        let mut vertext = VertData {
             x: v.0,
             y: v.1,
             z: -(v.2),
@@ -938,6 +937,9 @@ fn read_obj_as_frame(obj_path: &Path, fs: &dyn FileSystem) -> io::Result<Vec<Ver
             ny,
             nz,
         };
+        if let Some(bytes) = vn.preserved_vertex() {
+            restore_nan_values(&mut vertext, bytes);
+        }
         vertices.push(vertext);
     }
     Ok(vertices)
@@ -951,14 +953,36 @@ fn read_gltf_as_frame(
     let (vertices, _) = read_gltf(gltf_path, container, fs)?;
     let mut frames = Vec::with_capacity(vertices.len());
     for vertex in vertices {
-        frames.push(VertData {
+        let mut frame_vertex = VertData {
             x: vertex.vertex.x,
             y: vertex.vertex.y,
             z: vertex.vertex.z,
             nx: vertex.vertex.nx,
             ny: vertex.vertex.ny,
             nz: vertex.vertex.nz,
-        });
+        };
+        restore_nan_values(&mut frame_vertex, &vertex.vpx_encoded_vertex);
+        frames.push(frame_vertex);
     }
     Ok(frames)
 }
+
+/// The mesh file formats can't represent all NaN values, these come from the vpx bytes that
+/// were preserved next to the vertex.
+/// Other values are not taken from there as older versions preserved zeros for frames.
+fn restore_nan_values(vertex: &mut VertData, vpx_bytes: &[u8; 32]) {
+    let values = [
+        &mut vertex.x,
+        &mut vertex.y,
+        &mut vertex.z,
+        &mut vertex.nx,
+        &mut vertex.ny,
+        &mut vertex.nz,
+    ];
+    for (value, bytes) in values.into_iter().zip(vpx_bytes.chunks_exact(4)) {
+        let preserved = f32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+        if preserved.is_nan() {
+            *value = preserved;
+        }
+    }
+}
diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index d27fa65..5148c95 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -710,6 +710,14 @@ impl VpxObjNormal {
     fn new(x: f32, y: f32, z: f32, vpx_bytes: Option<VpxCommentBytes>) -> Self {
         Self { x, y, z, vpx_bytes }
     }
+
+    /// The full encoded vertex from the preceding `# vpx <hex>` comment, if there was one
+    pub(crate) fn preserved_vertex(&self) -> Option<&[u8; 32]> {
+        match &self.vpx_bytes {
+            Some(VpxCommentBytes::Vertex(bytes)) => Some(bytes),
+            _ => None,
+        }
+    }
 }
 
 /// A face in the vpx file, consisting of three vertex indices
-- 
2.43.0


From bd1c13ab66dcc9850002969c2ed9a4258b61ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 14/50] fix: read obj meshes with more positions than texture
 coordinates or normals

---
 src/vpx/obj.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 5148c95..3ea3c10 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -530,7 +530,18 @@ impl VpxObjReader {
             ));
         }
 
-        if self.needs_normalize {
+        // Indices can only be used as they are if there is a texture coordinate and a normal for
+        // each vertex (eg. there are no loose vertices) and if they fit the vpx mesh.
+        let vertex_count = self.vertices.len();
+        let aligned = self.texture_coordinates.len() >= vertex_count
+            && self.normals.len() >= vertex_count
+            && !self
+                .raw_faces
+                .iter()
+                .flatten()
+                .any(|corner| corner.v as usize > vertex_count.max(u16::MAX as usize + 1));
+
+        if self.needs_normalize || !aligned {
             let normalized = triangulate_and_dedup(
                 &self.raw_faces,
                 self.vertices.len(),
-- 
2.43.0


From f7d258f793cc7210b3fc42f65129422a6bae3822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 15/50] fix: read glb and gltf meshes of other tools by their
 attributes, report damaged ones

---
 src/vpx/gltf.rs | 269 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 184 insertions(+), 85 deletions(-)

diff --git a/src/vpx/gltf.rs b/src/vpx/gltf.rs
index a452017..d4e9bd1 100644
--- a/src/vpx/gltf.rs
+++ b/src/vpx/gltf.rs
@@ -29,6 +29,7 @@ pub(crate) const GLB_JSON_CHUNK_TYPE: &[u8; 4] = b"JSON";
 pub(crate) const GLB_BIN_CHUNK_TYPE: &[u8; 4] = b"BIN\0";
 pub(crate) const GLTF_PRIMITIVE_MODE_TRIANGLES: u32 = 4;
 pub(crate) const GLTF_COMPONENT_TYPE_FLOAT: u32 = 5126;
+pub(crate) const GLTF_COMPONENT_TYPE_UNSIGNED_BYTE: u32 = 5121;
 pub(crate) const GLTF_COMPONENT_TYPE_UNSIGNED_SHORT: u32 = 5123;
 pub(crate) const GLTF_COMPONENT_TYPE_UNSIGNED_INT: u32 = 5125;
 pub(crate) const GLTF_TARGET_ARRAY_BUFFER: u32 = 34962;
@@ -383,6 +384,13 @@ pub(crate) fn read_glb_from_reader<R: Read>(
     parse_gltf_payload(&payload.json, &payload.bin_data)
 }
 
+fn chunk_data(glb_data: &[u8], start: usize, length: usize) -> io::Result<&[u8]> {
+    start
+        .checked_add(length)
+        .and_then(|end| glb_data.get(start..end))
+        .ok_or_else(|| invalid_data("GLB chunk is truncated"))
+}
+
 fn read_glb_payload_from_reader<R: Read>(reader: &mut R) -> io::Result<GltfPayload> {
     use byteorder::{LittleEndian, ReadBytesExt};
 
@@ -424,7 +432,7 @@ fn read_glb_payload_from_reader<R: Read>(reader: &mut R) -> io::Result<GltfPaylo
     }
 
     let json_start = cursor.position() as usize;
-    let json_bytes = &glb_data[json_start..json_start + json_length];
+    let json_bytes = chunk_data(&glb_data, json_start, json_length)?;
     let gltf_json: serde_json::Value = serde_json::from_slice(json_bytes).map_err(|e| {
         io::Error::new(
             io::ErrorKind::InvalidData,
@@ -445,7 +453,7 @@ fn read_glb_payload_from_reader<R: Read>(reader: &mut R) -> io::Result<GltfPaylo
     }
 
     let bin_start = cursor.position() as usize;
-    let bin_data = glb_data[bin_start..bin_start + bin_length].to_vec();
+    let bin_data = chunk_data(&glb_data, bin_start, bin_length)?.to_vec();
 
     Ok(GltfPayload {
         json: gltf_json,
@@ -453,6 +461,119 @@ fn read_glb_payload_from_reader<R: Read>(reader: &mut R) -> io::Result<GltfPaylo
     })
 }
 
+fn invalid_data<M: Into<String>>(message: M) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, message.into())
+}
+
+/// An optional unsigned integer property, `None` if it is present but not usable.
+fn usize_or(value: &serde_json::Value, default: usize) -> Option<usize> {
+    match value {
+        serde_json::Value::Null => Some(default),
+        v => v.as_u64().and_then(|v| usize::try_from(v).ok()),
+    }
+}
+
+/// The elements of an accessor, possibly interleaved with other data
+struct GltfAccessor<'a> {
+    data: &'a [u8],
+    stride: usize,
+    count: usize,
+    component_type: u32,
+}
+
+impl<'a> GltfAccessor<'a> {
+    /// Resolves the accessor with the given index to the bytes it covers
+    fn new(
+        gltf_json: &serde_json::Value,
+        bin_data: &'a [u8],
+        index: &serde_json::Value,
+        what: &str,
+        accessor_type: &str,
+        components: usize,
+    ) -> io::Result<Self> {
+        let element = |array: &str, index: &serde_json::Value| {
+            index
+                .as_u64()
+                .and_then(|i| gltf_json[array].get(usize::try_from(i).ok()?))
+                .ok_or_else(|| invalid_data(format!("Missing {what} in {array}")))
+        };
+        let accessor = element("accessors", index)?;
+        let view = element("bufferViews", &accessor["bufferView"])?;
+        if accessor["type"].as_str() != Some(accessor_type) {
+            return Err(invalid_data(format!("{what} should be {accessor_type}")));
+        }
+        if !accessor["sparse"].is_null() || usize_or(&view["buffer"], 0) != Some(0) {
+            return Err(invalid_data(format!("Unsupported storage of {what}")));
+        }
+        let component_type = accessor["componentType"]
+            .as_u64()
+            .and_then(|c| u32::try_from(c).ok())
+            .unwrap_or_default();
+        let component_size = match component_type {
+            GLTF_COMPONENT_TYPE_UNSIGNED_BYTE => 1,
+            GLTF_COMPONENT_TYPE_UNSIGNED_SHORT => 2,
+            GLTF_COMPONENT_TYPE_UNSIGNED_INT | GLTF_COMPONENT_TYPE_FLOAT => 4,
+            other => {
+                return Err(invalid_data(format!(
+                    "Unsupported component type of {what}: {other}"
+                )));
+            }
+        };
+        let element_size = components * component_size;
+        let range = || {
+            let start = usize_or(&view["byteOffset"], 0)?
+                .checked_add(usize_or(&accessor["byteOffset"], 0)?)?;
+            let stride = usize_or(&view["byteStride"], element_size)?;
+            if stride < element_size {
+                return None;
+            }
+            let count = usize_or(&accessor["count"], 0)?;
+            let length = match count {
+                0 => 0,
+                _ => stride.checked_mul(count - 1)?.checked_add(element_size)?,
+            };
+            let data = bin_data.get(start..start.checked_add(length)?)?;
+            Some((data, stride, count))
+        };
+        let (data, stride, count) =
+            range().ok_or_else(|| invalid_data(format!("{what} is outside of the buffer")))?;
+        Ok(Self {
+            data,
+            stride,
+            count,
+            component_type,
+        })
+    }
+
+    /// Like [`GltfAccessor::new`], for float vectors
+    fn floats(
+        gltf_json: &serde_json::Value,
+        bin_data: &'a [u8],
+        attribute: &str,
+        accessor_type: &str,
+        components: usize,
+    ) -> io::Result<Self> {
+        let index = &gltf_json["meshes"][0]["primitives"][0]["attributes"][attribute];
+        let accessor = Self::new(
+            gltf_json,
+            bin_data,
+            index,
+            attribute,
+            accessor_type,
+            components,
+        )?;
+        if accessor.component_type != GLTF_COMPONENT_TYPE_FLOAT {
+            return Err(invalid_data(format!("{attribute} should be floats")));
+        }
+        Ok(accessor)
+    }
+
+    /// The data starting at the given element
+    fn element(&self, index: usize) -> &'a [u8] {
+        &self.data[index * self.stride..]
+    }
+}
+
 fn parse_gltf_payload(
     gltf_json: &serde_json::Value,
     bin_data: &[u8],
@@ -460,22 +581,27 @@ fn parse_gltf_payload(
     use crate::vpx::model::Vertex3dNoTex2;
     use byteorder::{LittleEndian, ReadBytesExt};
 
-    // Parse GLTF structure
-    let accessors = gltf_json["accessors"]
-        .as_array()
-        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "Missing accessors"))?;
-    let buffer_views = gltf_json["bufferViews"]
-        .as_array()
-        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "Missing bufferViews"))?;
+    let single = |value: &serde_json::Value, what: &str| match value.as_array().map(Vec::len) {
+        Some(1) => Ok(()),
+        Some(n) => Err(invalid_data(format!(
+            "Only a single {what} is supported for vpx, found {n}"
+        ))),
+        None => Err(invalid_data(format!("Missing {what}"))),
+    };
+    single(&gltf_json["meshes"], "mesh")?;
+    let mesh = &gltf_json["meshes"][0];
+    single(&mesh["primitives"], "mesh primitive")?;
+    let mesh_primitive = &mesh["primitives"][0];
+    let triangles = GLTF_PRIMITIVE_MODE_TRIANGLES as usize;
+    if usize_or(&mesh_primitive["mode"], triangles) != Some(triangles) {
+        return Err(invalid_data("Only triangles are supported for vpx"));
+    }
 
     // Extract mesh name
-    let name = gltf_json["meshes"][0]["name"]
-        .as_str()
-        .unwrap_or("")
-        .to_string();
+    let name = mesh["name"].as_str().unwrap_or("").to_string();
 
     // Get VPX normals from extras
-    let vpx_normals = gltf_json["meshes"][0]["primitives"][0]["extras"]["vpx_normals"]
+    let vpx_normals = mesh_primitive["extras"]["vpx_normals"]
         .as_array()
         .map(|arr| {
             arr.iter()
@@ -483,49 +609,28 @@ fn parse_gltf_payload(
                 .collect::<Vec<String>>()
         });
 
-    // Read positions (accessor 0)
-    let pos_accessor = &accessors[0];
-    let pos_view_idx = pos_accessor["bufferView"].as_u64().unwrap() as usize;
-    let pos_view = &buffer_views[pos_view_idx];
-    let pos_offset = pos_view["byteOffset"].as_u64().unwrap() as usize;
-    let pos_count = pos_accessor["count"].as_u64().unwrap() as usize;
-
-    // Read normals (accessor 1)
-    let norm_accessor = &accessors[1];
-    let norm_view_idx = norm_accessor["bufferView"].as_u64().unwrap() as usize;
-    let norm_view = &buffer_views[norm_view_idx];
-    let norm_offset = norm_view["byteOffset"].as_u64().unwrap() as usize;
-
-    // Read texcoords (accessor 2)
-    let tex_accessor = &accessors[2];
-    let tex_view_idx = tex_accessor["bufferView"].as_u64().unwrap() as usize;
-    let tex_view = &buffer_views[tex_view_idx];
-    let tex_offset = tex_view["byteOffset"].as_u64().unwrap() as usize;
-
-    // Read indices (accessor 3)
-    let idx_accessor = &accessors[3];
-    let idx_view_idx = idx_accessor["bufferView"].as_u64().unwrap() as usize;
-    let idx_view = &buffer_views[idx_view_idx];
-    let idx_offset = idx_view["byteOffset"].as_u64().unwrap() as usize;
-    let idx_count = idx_accessor["count"].as_u64().unwrap() as usize;
-    let idx_component_type = idx_accessor["componentType"].as_u64().unwrap();
-    let use_u32 = idx_component_type == GLTF_COMPONENT_TYPE_UNSIGNED_INT as u64; // UNSIGNED_INT
+    let positions = GltfAccessor::floats(gltf_json, bin_data, "POSITION", "VEC3", 3)?;
+    let normals = GltfAccessor::floats(gltf_json, bin_data, "NORMAL", "VEC3", 3)?;
+    let texcoords = GltfAccessor::floats(gltf_json, bin_data, "TEXCOORD_0", "VEC2", 2)?;
+    if normals.count != positions.count || texcoords.count != positions.count {
+        return Err(invalid_data("Vertex attributes differ in count"));
+    }
 
     // Build vertex data in the same format as write_glb accepts
-    let mut vertices = Vec::with_capacity(pos_count);
+    let mut vertices = Vec::with_capacity(positions.count);
 
-    for i in 0..pos_count {
-        let mut pos_cursor = io::Cursor::new(&bin_data[pos_offset + i * 12..]);
+    for i in 0..positions.count {
+        let mut pos_cursor = io::Cursor::new(positions.element(i));
         let x = pos_cursor.read_f32::<LittleEndian>()?;
         let y = pos_cursor.read_f32::<LittleEndian>()?;
         let z = pos_cursor.read_f32::<LittleEndian>()?;
 
-        let mut norm_cursor = io::Cursor::new(&bin_data[norm_offset + i * 12..]);
+        let mut norm_cursor = io::Cursor::new(normals.element(i));
         let nx = norm_cursor.read_f32::<LittleEndian>()?;
         let ny = norm_cursor.read_f32::<LittleEndian>()?;
         let nz = norm_cursor.read_f32::<LittleEndian>()?;
 
-        let mut tex_cursor = io::Cursor::new(&bin_data[tex_offset + i * 8..]);
+        let mut tex_cursor = io::Cursor::new(texcoords.element(i));
         let tu = tex_cursor.read_f32::<LittleEndian>()?;
         let tv = tex_cursor.read_f32::<LittleEndian>()?;
 
@@ -541,15 +646,9 @@ fn parse_gltf_payload(
         };
 
         // Reconstruct the full 32-byte array
-        let mut bytes = [0u8; 32];
+        let mut bytes = vertex.to_vpx_bytes();
 
-        // Write position (0-11)
-        let mut byte_cursor = std::io::Cursor::new(&mut bytes[0..12]);
-        byte_cursor.write_f32::<LittleEndian>(x)?;
-        byte_cursor.write_f32::<LittleEndian>(y)?;
-        byte_cursor.write_f32::<LittleEndian>(z)?;
-
-        // Restore VPX normal bytes (12-23) from extras
+        // Restore VPX normal bytes (12-23) from extras, files from other tools don't have these
         if let Some(ref normals) = vpx_normals
             && i < normals.len()
             && let Ok(vpx_bytes) = hex::decode(&normals[i])
@@ -558,47 +657,47 @@ fn parse_gltf_payload(
             bytes[12..24].copy_from_slice(&vpx_bytes);
         }
 
-        // Write texcoords (24-31)
-        let mut byte_cursor = std::io::Cursor::new(&mut bytes[24..32]);
-        byte_cursor.write_f32::<LittleEndian>(tu)?;
-        byte_cursor.write_f32::<LittleEndian>(tv)?;
-
         vertices.push(VertexWrapper::new(bytes, vertex));
     }
 
-    let indices = read_glb_indices(bin_data, idx_offset, idx_count, use_u32)?;
+    let indices = read_gltf_indices(gltf_json, bin_data, &mesh_primitive["indices"])?;
+    let largest = vertices.len().max(u16::MAX as usize + 1) as i64;
+    if indices
+        .iter()
+        .any(|face| face.i0.max(face.i1).max(face.i2) >= largest)
+    {
+        return Err(invalid_data("Vertex index out of range"));
+    }
 
     Ok((name, vertices, indices))
 }
 
-fn read_glb_indices(
+fn read_gltf_indices(
+    gltf_json: &serde_json::Value,
     bin_data: &[u8],
-    idx_offset: usize,
-    idx_count: usize,
-    use_u32: bool,
+    index: &serde_json::Value,
 ) -> io::Result<Vec<VpxFace>> {
-    let mut indices = Vec::with_capacity(idx_count / 3);
-    for i in 0..idx_count / 3 {
-        let idx = if use_u32 {
-            // Each face has 3 indices, each u32 is 4 bytes, so offset is i * 12
-            let mut c = io::Cursor::new(&bin_data[idx_offset + i * 12..]);
-            VpxFace::new(
-                c.read_u32::<LittleEndian>()? as i64,
-                c.read_u32::<LittleEndian>()? as i64,
-                c.read_u32::<LittleEndian>()? as i64,
-            )
-        } else {
-            // Each face has 3 indices, each u16 is 2 bytes, so offset is i * 6
-            let mut c = io::Cursor::new(&bin_data[idx_offset + i * 6..]);
-            VpxFace::new(
-                c.read_u16::<LittleEndian>()? as i64,
-                c.read_u16::<LittleEndian>()? as i64,
-                c.read_u16::<LittleEndian>()? as i64,
-            )
-        };
-        indices.push(idx);
+    let accessor = GltfAccessor::new(gltf_json, bin_data, index, "indices", "SCALAR", 1)?;
+    if accessor.component_type == GLTF_COMPONENT_TYPE_FLOAT || accessor.count % 3 != 0 {
+        return Err(invalid_data("Indices should be triangles"));
     }
-    Ok(indices)
+    let read = |i: usize| -> io::Result<i64> {
+        let mut c = io::Cursor::new(accessor.element(i));
+        Ok(match accessor.component_type {
+            GLTF_COMPONENT_TYPE_UNSIGNED_BYTE => c.read_u8()? as i64,
+            GLTF_COMPONENT_TYPE_UNSIGNED_SHORT => c.read_u16::<LittleEndian>()? as i64,
+            _ => c.read_u32::<LittleEndian>()? as i64,
+        })
+    };
+    (0..accessor.count / 3)
+        .map(|i| {
+            Ok(VpxFace::new(
+                read(i * 3)?,
+                read(i * 3 + 1)?,
+                read(i * 3 + 2)?,
+            ))
+        })
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 422e532f9a4d86ed18b2fbf5cae434f12d953a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 16/50] fix: read gltf meshes with an escaped buffer uri

---
 src/vpx/gltf.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/vpx/gltf.rs b/src/vpx/gltf.rs
index d4e9bd1..da488b7 100644
--- a/src/vpx/gltf.rs
+++ b/src/vpx/gltf.rs
@@ -359,7 +359,7 @@ pub(crate) fn read_gltf(
             let bin_path = gltf_path
                 .parent()
                 .unwrap_or_else(|| Path::new(""))
-                .join(buffer_uri);
+                .join(percent_decode(buffer_uri));
             let _span = info_span!("fs_read").entered();
             let bin_data = fs.read_file(&bin_path)?;
             drop(_span);
@@ -461,6 +461,22 @@ fn read_glb_payload_from_reader<R: Read>(reader: &mut R) -> io::Result<GltfPaylo
     })
 }
 
+/// Decodes the percent-encoding of a uri, eg. `my%20mesh.bin`
+fn percent_decode(uri: &str) -> String {
+    let bytes = uri.as_bytes();
+    let mut decoded = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        let escaped = uri
+            .get(i + 1..i + 3)
+            .filter(|_| bytes[i] == b'%')
+            .and_then(|digits| u8::from_str_radix(digits, 16).ok());
+        decoded.push(escaped.unwrap_or(bytes[i]));
+        i += if escaped.is_some() { 3 } else { 1 };
+    }
+    String::from_utf8(decoded).unwrap_or_else(|_| uri.to_string())
+}
+
 fn invalid_data<M: Into<String>>(message: M) -> io::Error {
     io::Error::new(io::ErrorKind::InvalidData, message.into())
 }
-- 
2.43.0


From 905f4481db60ab3351ec91c6bbe611c75c014924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 17/50] fix: give each pair of material and texture its own
 name in obj exports

---
 src/vpx/export/obj_export.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index 7fe9ff3..b504362 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -275,8 +275,9 @@ struct WriterState<'a> {
     /// [`ObjExportOptions::extract_textures`].
     extract_textures: bool,
     /// `(material_name, texture_name)` pairs already emitted as a
-    /// `newmtl` block. Only consulted when `dedup_mtl_blocks` is true.
-    seen_mtl_pairs: HashSet<(String, String)>,
+    /// `newmtl` block, with the name of that block. Only consulted when
+    /// blocks are deduplicated.
+    seen_mtl_pairs: HashMap<(String, String), String>,
     /// Multiplier applied to VPU vertex positions on write. Derived
     /// once from `ObjExportOptions::units`.
     position_scale: f32,
@@ -304,7 +305,7 @@ impl<'a> WriterState<'a> {
             images_written: HashSet::new(),
             dedup_mtl_blocks: options.dedup_mtl_blocks,
             extract_textures: options.extract_textures,
-            seen_mtl_pairs: HashSet::new(),
+            seen_mtl_pairs: HashMap::new(),
             position_scale: options.units.scale(),
             include_plunger: options.include_plunger,
         }
@@ -1397,7 +1398,7 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
     // we mangle in the image name so each `(material, texture)` pair
     // gets its own block, which avoids the "last newmtl wins" trap
     // when multiple items reuse a material name.
-    let mtl_name = if state.extract_textures
+    let mut mtl_name = if state.extract_textures
         && let Some(tex) = texture_name
         && !tex.is_empty()
     {
@@ -1416,14 +1417,25 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
     // write the block on first sight.
     let force_dedup = state.extract_textures && map_path.is_some();
     if state.dedup_mtl_blocks || force_dedup {
-        let key = (
-            material_name.to_string(),
-            texture_name.unwrap_or("").to_string(),
-        );
-        if !state.seen_mtl_pairs.insert(key) {
+        // Without textures the block only depends on the material.
+        let texture_key = if state.extract_textures {
+            texture_name.unwrap_or("")
+        } else {
+            ""
+        };
+        let key = (material_name.to_string(), texture_key.to_string());
+        if let Some(seen) = state.seen_mtl_pairs.get(&key) {
             // Pair already emitted - skip this newmtl block.
-            return Ok(mtl_name);
+            return Ok(seen.clone());
+        }
+        // Different pairs can end up with the same name once sanitized.
+        let base = mtl_name.clone();
+        let mut n = 0;
+        while state.seen_mtl_pairs.values().any(|used| *used == mtl_name) {
+            n += 1;
+            mtl_name = format!("{base}_dedup{n}");
         }
+        state.seen_mtl_pairs.insert(key, mtl_name.clone());
     }
 
     write_mtl_block(mtl, state, &mtl_name, material_name, map_path.as_deref())?;
-- 
2.43.0


From 61f90e62009f3344b091eae919f3b3aa3f8bac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 18/50] fix: layer name of the last editor layer in gltf
 exports

---
 src/vpx/export/gltf_export.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 20b3a3d..fc4feb2 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -561,7 +561,7 @@ fn get_layer_name(editor_layer_name: &Option<String>, editor_layer: Option<u32>)
         return Some(format!("Layer_{}", name));
     }
     // Fall back to layer number if available
-    editor_layer.map(|layer| format!("Layer_{}", layer + 1))
+    editor_layer.map(|layer| format!("Layer_{}", u64::from(layer) + 1))
 }
 
 /// Calculate transmission factor from disable_lighting_below.
-- 
2.43.0


From cd1a6cfa8000d0dcfb34731b41724f5450d39306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:00 +0000
Subject: [PATCH 19/50] fix: last point of open outlines

---
 src/vpx/mesh/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index b84ef62..cea37d1 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -429,6 +429,17 @@ pub(super) fn get_rg_vertex_2d(
         recurse_smooth_line_2d(&cc, 0.0, 1.0, &rendv1, &rendv2, &mut vv, accuracy);
     }
 
+    // Every segment only adds its start, so an open curve still misses its very last point
+    if !loop_curve && let Some(last) = drag_points.last() {
+        vv.push(RenderVertex2D {
+            x: last.x,
+            y: last.y,
+            smooth: true,
+            control_point: true,
+            ..Default::default()
+        });
+    }
+
     vv
 }
 
-- 
2.43.0


From 72bd570f4a688919cbc057868f2215115131ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:07 +0000
Subject: [PATCH 20/50] fix: refuse colours with characters of several bytes
 instead of panicking

---
 src/vpx/color.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/vpx/color.rs b/src/vpx/color.rs
index 9b53aa8..e7f45bc 100644
--- a/src/vpx/color.rs
+++ b/src/vpx/color.rs
@@ -63,16 +63,17 @@ impl<'de> Deserialize<'de> for Color {
         D: serde::Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
+        let invalid = || serde::de::Error::custom("Invalid color format, expected #RRGGBB");
+        // Not every byte offset is a character boundary
+        let part = |start: usize, end: usize| s.get(start..end).ok_or_else(invalid);
         match s.len() {
             7 => {
-                if &s[0..1] != "#" {
-                    return Err(serde::de::Error::custom(
-                        "Invalid color format, expected #RRGGBB",
-                    ));
+                if part(0, 1)? != "#" {
+                    return Err(invalid());
                 }
-                let r = u8::from_str_radix(&s[1..3], 16).map_err(serde::de::Error::custom)?;
-                let g = u8::from_str_radix(&s[3..5], 16).map_err(serde::de::Error::custom)?;
-                let b = u8::from_str_radix(&s[5..7], 16).map_err(serde::de::Error::custom)?;
+                let r = u8::from_str_radix(part(1, 3)?, 16).map_err(serde::de::Error::custom)?;
+                let g = u8::from_str_radix(part(3, 5)?, 16).map_err(serde::de::Error::custom)?;
+                let b = u8::from_str_radix(part(5, 7)?, 16).map_err(serde::de::Error::custom)?;
                 Ok(Color {
                     unused: 0u8,
                     r,
@@ -81,20 +82,17 @@ impl<'de> Deserialize<'de> for Color {
                 })
             }
             9 => {
-                if &s[2..3] != "#" {
-                    return Err(serde::de::Error::custom(
-                        "Invalid color format, expected #RRGGBB",
-                    ));
+                if part(2, 3)? != "#" {
+                    return Err(invalid());
                 }
-                let unused = u8::from_str_radix(&s[0..2], 16).map_err(serde::de::Error::custom)?;
-                let r = u8::from_str_radix(&s[3..5], 16).map_err(serde::de::Error::custom)?;
-                let g = u8::from_str_radix(&s[5..7], 16).map_err(serde::de::Error::custom)?;
-                let b = u8::from_str_radix(&s[7..9], 16).map_err(serde::de::Error::custom)?;
+                let unused =
+                    u8::from_str_radix(part(0, 2)?, 16).map_err(serde::de::Error::custom)?;
+                let r = u8::from_str_radix(part(3, 5)?, 16).map_err(serde::de::Error::custom)?;
+                let g = u8::from_str_radix(part(5, 7)?, 16).map_err(serde::de::Error::custom)?;
+                let b = u8::from_str_radix(part(7, 9)?, 16).map_err(serde::de::Error::custom)?;
                 Ok(Color { unused, r, g, b })
             }
-            _ => Err(serde::de::Error::custom(
-                "Invalid color format, expected #RRGGBB",
-            )),
+            _ => Err(invalid()),
         }
     }
 }
-- 
2.43.0


From d7674022025be5a9aa662627d813535336f8689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 21/50] fix: report storage errors while saving instead of
 ignoring them

What is written to a stream of the compound file is buffered. The rest of it was written when
the stream was dropped, which ignores errors: saving to a full disk was reported as a success,
and compacting then replaced the table by a damaged one.
---
 src/vpx/mod.rs       | 26 ++++++++++++++++----------
 src/vpx/tableinfo.rs | 10 ++++++----
 src/vpx/version.rs   |  2 +-
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 02a10a1..8f119fd 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -344,10 +344,9 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         }
     }
     for path in stream_paths.iter() {
-        std::io::copy(
-            &mut original.open_stream(path)?,
-            &mut duplicate.create_new_stream(path)?,
-        )?;
+        let mut stream = duplicate.create_new_stream(path)?;
+        std::io::copy(&mut original.open_stream(path)?, &mut stream)?;
+        stream.flush()?;
     }
     duplicate.flush()?;
     std::fs::remove_file(&in_path)?;
@@ -614,7 +613,8 @@ fn read_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>) -> io::Result<Ve
 fn write_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>, mac: &[u8]) -> io::Result<()> {
     let mac_path = Path::new(MAIN_SEPARATOR_STR).join("GameStg").join("MAC");
     let mut mac_stream = comp.create_stream(mac_path)?;
-    mac_stream.write_all(mac)
+    mac_stream.write_all(mac)?;
+    mac_stream.flush()
 }
 
 #[derive(Clone, Debug)]
@@ -823,9 +823,9 @@ fn write_game_data<F: Read + Write + Seek>(
     // we expect GameStg to exist
     let mut game_data_stream = comp.create_stream(&game_data_path)?;
     let data = gamedata::write_all_gamedata_records(gamedata, version);
-    game_data_stream.write_all(&data)
-    // this flush was required before but now it's working without
-    // game_data_stream.flush()
+    game_data_stream.write_all(&data)?;
+    // without this, errors while writing what is still buffered would be ignored
+    game_data_stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(gameitem_count = gamedata.gameitems_size))]
@@ -867,7 +867,8 @@ fn write_gameitem<F: Read + Write + Seek>(
 ) -> Result<(), Error> {
     let mut stream = comp.create_stream(path)?;
     let data = gameitem::write(gameitem);
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(sound_count = gamedata.sounds_size))]
@@ -914,6 +915,7 @@ fn write_sounds<F: Read + Write + Seek>(
         let mut writer = BiffWriter::new();
         sound::write(file_version, sound, &mut writer);
         stream.write_all(writer.get_data())?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -946,6 +948,7 @@ fn write_collections<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = collection::write(collection);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -996,6 +999,7 @@ fn write_image<F: Read + Write + Seek>(
     let mut writer = BiffWriter::new();
     image.biff_write(&mut writer);
     stream.write_all(writer.get_data())?;
+    stream.flush()?;
     Ok(())
 }
 
@@ -1112,6 +1116,7 @@ fn write_fonts<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = font::write(font);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -1142,7 +1147,8 @@ fn write_custominfotags<F: Read + Write + Seek>(
 
     let data = custominfotags::write_custominfotags(tags);
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 /// Table dimensions for UV coordinate calculation
diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index 4252ed3..b96e585 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -286,9 +286,9 @@ fn read_stream_string<F: Read + Seek>(
     comp: &mut CompoundFile<F>,
     path: &Path,
 ) -> Result<String, std::io::Error> {
-    let mut stream = comp.open_stream(path).unwrap();
+    let mut stream = comp.open_stream(path)?;
     let mut buffer = Vec::new();
-    stream.read_to_end(&mut buffer).unwrap();
+    stream.read_to_end(&mut buffer)?;
 
     match decode_utf16le(&buffer) {
         Ok(str) => Ok(str),
@@ -308,7 +308,8 @@ fn write_stream_string<F: Read + Write + Seek>(
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
     let wide = encode_utf16le(str);
-    stream.write_all(&wide)
+    stream.write_all(&wide)?;
+    stream.flush()
 }
 
 fn read_stream_binary<F: Read + Seek>(
@@ -327,7 +328,8 @@ fn write_stream_binary<F: Read + Write + Seek>(
     bytes: &[u8],
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(bytes)
+    stream.write_all(bytes)?;
+    stream.flush()
 }
 
 #[cfg(test)]
diff --git a/src/vpx/version.rs b/src/vpx/version.rs
index c27125f..350d238 100644
--- a/src/vpx/version.rs
+++ b/src/vpx/version.rs
@@ -93,7 +93,7 @@ fn write_version_data<F: Read + Write + Seek>(
     stream: &mut Stream<F>,
 ) -> io::Result<()> {
     stream.write_u32::<LittleEndian>(version.0)?;
-    Ok(())
+    stream.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From c73cc948a53916cd298c20c48824058b35177a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 22/50] fix: refuse damaged vpx bytes and far out of range
 corners in OBJ files

The former panicked, the latter wrapped around to an existing vertex.
---
 src/vpx/obj.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 3ea3c10..cdf1f35 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -37,6 +37,7 @@ use log::warn;
 use std::error::Error;
 use std::io;
 use std::io::{BufRead, ErrorKind};
+use std::num::ParseIntError;
 use std::path::Path;
 use tracing::{info_span, instrument};
 use wavefront_obj_io::{ObjReader, ObjWriter};
@@ -68,12 +69,15 @@ fn obj_vpx_comment(bytes: &[u8]) -> String {
     format!("vpx {hex}")
 }
 
+fn obj_parse_hex_bytes(hex: &str) -> Result<Vec<u8>, ParseIntError> {
+    hex.split_whitespace()
+        .map(|s| u8::from_str_radix(s, 16))
+        .collect()
+}
+
 fn obj_parse_vpx_comment(comment: &str) -> Option<VpxCommentBytes> {
     if let Some(hex) = comment.strip_prefix("vpx ") {
-        let bytes = hex
-            .split_whitespace()
-            .map(|s| u8::from_str_radix(s, 16).unwrap())
-            .collect::<Vec<u8>>();
+        let bytes = obj_parse_hex_bytes(hex).ok()?;
         match bytes.len() {
             12 => {
                 let mut result = [0; 12];
@@ -489,6 +493,8 @@ struct VpxObjReader {
     /// keeps the previous comment to be associated with the next normal
     previous_comment: Option<String>,
     name: String,
+    /// The first comment with vpx bytes that could not be parsed
+    comment_error: Option<ParseIntError>,
 }
 
 impl VpxObjReader {
@@ -502,6 +508,7 @@ impl VpxObjReader {
             object_count: 0,
             previous_comment: None,
             name: String::new(),
+            comment_error: None,
         }
     }
 
@@ -520,6 +527,9 @@ impl VpxObjReader {
     /// aligned (same length, one entry per combined corner).
     fn read<R: io::Read>(mut self, reader: &mut R, reverse_corners: bool) -> io::Result<ObjData> {
         wavefront_obj_io::read_obj_file(reader, &mut self)?;
+        if let Some(error) = self.comment_error {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, error));
+        }
         if self.object_count != 1 {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidData,
@@ -655,6 +665,9 @@ impl ObjReader<f64> for VpxObjReader {
         // If on the write side there was a NaN value that will be stored in a comment
         // This way we stay symmetric
         if let Some(comment) = &self.previous_comment {
+            if let Some(Err(error)) = comment.strip_prefix("vpx ").map(obj_parse_hex_bytes) {
+                self.comment_error.get_or_insert(error);
+            }
             // parse the comment as hex string
             if let Some(bytes) = obj_parse_vpx_comment(comment) {
                 // use the bytes as the normal
@@ -674,9 +687,11 @@ impl ObjReader<f64> for VpxObjReader {
         let corners: Vec<FaceCorner> = vertex_indices
             .iter()
             .map(|(v, vt, vn)| {
-                let v = *v as u32;
-                let vt = vt.map(|x| x as u32).unwrap_or(0);
-                let vn = vn.map(|x| x as u32).unwrap_or(0);
+                // indices that do not fit are out of range for any mesh
+                let index = |i: usize| u32::try_from(i).unwrap_or(u32::MAX);
+                let v = index(*v);
+                let vt = vt.map(index).unwrap_or(0);
+                let vn = vn.map(index).unwrap_or(0);
                 if v != vt || v != vn {
                     all_matched = false;
                 }
-- 
2.43.0


From 380cdcfbc5704a7c34703fd20bca8fefd8cdab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:02 +0000
Subject: [PATCH 23/50] fix: export the same table to the same glTF file

The order of materials and layers depended on the random state of hash maps.
---
 src/vpx/export/gltf_export.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index fc4feb2..ecd63bb 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -129,7 +129,7 @@ use crate::vpx::{TableDimensions, VPX};
 use byteorder::{LittleEndian, WriteBytesExt};
 use log::{info, warn};
 use serde_json::{Value, json};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::io;
 use std::path::Path;
 use vpx::mesh::decals::build_decal_mesh;
@@ -382,8 +382,8 @@ struct GltfMaterial {
 }
 
 /// Collect all materials from a VPX file
-fn collect_materials(vpx: &VPX) -> HashMap<String, GltfMaterial> {
-    let mut materials = HashMap::new();
+fn collect_materials(vpx: &VPX) -> BTreeMap<String, GltfMaterial> {
+    let mut materials = BTreeMap::new();
 
     // Try new format first (10.8+)
     if let Some(ref mats) = vpx.gamedata.materials {
@@ -659,7 +659,7 @@ fn playfield_material(
     vpx: &VPX,
     playfield_image: &ImageData,
     playfield_material_name: &str,
-    materials: &HashMap<String, GltfMaterial>,
+    materials: &BTreeMap<String, GltfMaterial>,
     gltf_samplers: &mut Vec<serde_json::Value>,
     gltf_images: &mut Vec<serde_json::Value>,
     gltf_textures: &mut Vec<serde_json::Value>,
@@ -1923,7 +1923,7 @@ fn build_combined_gltf_payload(
     vpx: &VPX,
     meshes: &[NamedMesh],
     item_groups: Vec<ItemGroupInfo>,
-    materials: &HashMap<String, GltfMaterial>,
+    materials: &BTreeMap<String, GltfMaterial>,
     images: &[ImageData],
     playfield_image: Option<&ImageData>,
     playfield_material_name: &str,
@@ -2374,7 +2374,7 @@ fn build_combined_gltf_payload(
     let mut accessors = Vec::new();
 
     // Track layer groups: layer_name -> (layer_node_index, child_node_indices)
-    let mut layer_groups: HashMap<String, (usize, Vec<usize>)> = HashMap::new();
+    let mut layer_groups: BTreeMap<String, (usize, Vec<usize>)> = BTreeMap::new();
     // Track meshes without a layer (will be at root level)
     let mut root_node_indices: Vec<usize> = Vec::new();
     // Track grouped meshes (e.g., light bulb/socket/insert): group_name -> child node indices
-- 
2.43.0


From 57504d39b9446d33c091c66d64cc98a1958cb1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:48 +0000
Subject: [PATCH 24/50] fix: refuse negative and fractional numbers for enums
 in JSON instead of panicking

---
 src/vpx/gameitem/decal.rs   | 36 ++++++++++++-----------------
 src/vpx/gameitem/flasher.rs | 46 ++++++++++++++++---------------------
 src/vpx/sound.rs            | 17 ++++++--------
 3 files changed, 42 insertions(+), 57 deletions(-)

diff --git a/src/vpx/gameitem/decal.rs b/src/vpx/gameitem/decal.rs
index 84587bb..e7a9127 100644
--- a/src/vpx/gameitem/decal.rs
+++ b/src/vpx/gameitem/decal.rs
@@ -73,16 +73,13 @@ impl<'de> Deserialize<'de> for DecalType {
                     "Invalid value for DecalType: {value}, we expect \"text\", \"image\""
                 ))),
             },
-            Ok(Value::Number(value)) => {
-                let value = value.as_u64().unwrap();
-                match value {
-                    0 => Ok(DecalType::Text),
-                    1 => Ok(DecalType::Image),
-                    _ => Err(serde::de::Error::custom(format!(
-                        "Invalid value for DecalType: {value}, we expect 0, 1"
-                    ))),
-                }
-            }
+            Ok(Value::Number(value)) => match value.as_u64() {
+                Some(0) => Ok(DecalType::Text),
+                Some(1) => Ok(DecalType::Image),
+                _ => Err(serde::de::Error::custom(format!(
+                    "Invalid value for DecalType: {value}, we expect 0, 1"
+                ))),
+            },
             _ => Err(serde::de::Error::custom(format!(
                 "Invalid value for DecalType: {value:?}, we expect a string or a number"
             ))),
@@ -143,17 +140,14 @@ impl<'de> Deserialize<'de> for SizingType {
                     "Invalid value for SizingType: {value}, we expect \"auto_size\", \"auto_width\", \"manual_size\""
                 ))),
             },
-            Ok(Value::Number(value)) => {
-                let value = value.as_u64().unwrap();
-                match value {
-                    0 => Ok(SizingType::AutoSize),
-                    1 => Ok(SizingType::AutoWidth),
-                    2 => Ok(SizingType::ManualSize),
-                    _ => Err(serde::de::Error::custom(format!(
-                        "Invalid value for SizingType: {value}, we expect 0, 1, 2"
-                    ))),
-                }
-            }
+            Ok(Value::Number(value)) => match value.as_u64() {
+                Some(0) => Ok(SizingType::AutoSize),
+                Some(1) => Ok(SizingType::AutoWidth),
+                Some(2) => Ok(SizingType::ManualSize),
+                _ => Err(serde::de::Error::custom(format!(
+                    "Invalid value for SizingType: {value}, we expect 0, 1, 2"
+                ))),
+            },
             _ => Err(serde::de::Error::custom(format!(
                 "Invalid value for SizingType: {value:?}, we expect a string or a number"
             ))),
diff --git a/src/vpx/gameitem/flasher.rs b/src/vpx/gameitem/flasher.rs
index 8aa80ff..988e0cf 100644
--- a/src/vpx/gameitem/flasher.rs
+++ b/src/vpx/gameitem/flasher.rs
@@ -92,19 +92,16 @@ impl<'de> Deserialize<'de> for Filter {
                     "Invalid Filter value {s}, expecting \"none\", \"additive\", \"overlay\", \"multiply\" or \"screen\""
                 ))),
             },
-            Value::Number(n) => {
-                let n = n.as_u64().unwrap();
-                match n {
-                    0 => Ok(Filter::None),
-                    1 => Ok(Filter::Additive),
-                    2 => Ok(Filter::Overlay),
-                    3 => Ok(Filter::Multiply),
-                    4 => Ok(Filter::Screen),
-                    _ => Err(serde::de::Error::custom(
-                        "Invalid Filter value, expecting 0, 1, 2, 3 or 4",
-                    )),
-                }
-            }
+            Value::Number(n) => match n.as_u64() {
+                Some(0) => Ok(Filter::None),
+                Some(1) => Ok(Filter::Additive),
+                Some(2) => Ok(Filter::Overlay),
+                Some(3) => Ok(Filter::Multiply),
+                Some(4) => Ok(Filter::Screen),
+                _ => Err(serde::de::Error::custom(
+                    "Invalid Filter value, expecting 0, 1, 2, 3 or 4",
+                )),
+            },
             _ => Err(serde::de::Error::custom(
                 "Invalid Filter value, expecting string or number",
             )),
@@ -195,19 +192,16 @@ impl<'de> Deserialize<'de> for RenderMode {
                     "Invalid RenderMode value {s}, expecting \"flasher\", \"dmd\", \"display\", \"alpha_seg\" or \"ext_render\""
                 ))),
             },
-            Value::Number(n) => {
-                let n = n.as_u64().unwrap();
-                match n {
-                    0 => Ok(RenderMode::Flasher),
-                    1 => Ok(RenderMode::DMD),
-                    2 => Ok(RenderMode::Display),
-                    3 => Ok(RenderMode::AlphaSeg),
-                    4 => Ok(RenderMode::ExtRender),
-                    _ => Err(serde::de::Error::custom(
-                        "Invalid RenderMode value, expecting 0, 1, 2, 3 or 4",
-                    )),
-                }
-            }
+            Value::Number(n) => match n.as_u64() {
+                Some(0) => Ok(RenderMode::Flasher),
+                Some(1) => Ok(RenderMode::DMD),
+                Some(2) => Ok(RenderMode::Display),
+                Some(3) => Ok(RenderMode::AlphaSeg),
+                Some(4) => Ok(RenderMode::ExtRender),
+                _ => Err(serde::de::Error::custom(
+                    "Invalid RenderMode value, expecting 0, 1, 2, 3 or 4",
+                )),
+            },
             _ => Err(serde::de::Error::custom(
                 "Invalid RenderMode value, expecting string or number",
             )),
diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index ef236d2..71dd158 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -68,16 +68,13 @@ impl<'de> Deserialize<'de> for OutputTarget {
                     "Invalid value for OutputTarget: {value}, we expect \"table\", \"backglass\""
                 ))),
             },
-            Ok(Value::Number(value)) => {
-                let value = value.as_u64().unwrap();
-                match value {
-                    0 => Ok(OutputTarget::Table),
-                    1 => Ok(OutputTarget::Backglass),
-                    _ => Err(serde::de::Error::custom(format!(
-                        "Invalid value for OutputTarget: {value}, we expect 0, 1"
-                    ))),
-                }
-            }
+            Ok(Value::Number(value)) => match value.as_u64() {
+                Some(0) => Ok(OutputTarget::Table),
+                Some(1) => Ok(OutputTarget::Backglass),
+                _ => Err(serde::de::Error::custom(format!(
+                    "Invalid value for OutputTarget: {value}, we expect 0, 1"
+                ))),
+            },
             _ => Err(serde::de::Error::custom(format!(
                 "Invalid value for OutputTarget: {value:?}, we expect a string or a number"
             ))),
-- 
2.43.0


From a0005c50887e6dc4f07509765dcb3f3720ae349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 25/50] fix: align the vertex data of every mesh in the glTF
 export

---
 src/vpx/export/gltf_export.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index ecd63bb..cf4806c 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2436,6 +2436,12 @@ fn build_combined_gltf_payload(
         }
         let indices_length = bin_data.len() - indices_offset;
 
+        // Pad to 4-byte alignment, an odd number of u16 triangles would
+        // misalign the vertex data of the next mesh
+        while !bin_data.len().is_multiple_of(4) {
+            bin_data.push(0);
+        }
+
         // Calculate bounds in glTF coordinate space (after transformation and scaling)
         // VPX (x, y, z) → glTF (x * scale, gltf_y = z * scale, y * scale)
         let (min_x, max_x, min_y, max_y, min_z, max_z) = mesh.vertices.iter().fold(
-- 
2.43.0


From 279c59cda328ca6a9b973d1e908a15c8fed9a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 26/50] fix: export invisible flippers, gates, hit targets,
 triggers and plungers to glTF on request

---
 src/vpx/export/gltf_export.rs | 20 ++++++++++----------
 src/vpx/mesh/plungers/mod.rs  |  6 ++++++
 src/vpx/mesh/triggers/mod.rs  |  8 ++++++++
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index cf4806c..21faaec 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -111,17 +111,17 @@ use crate::vpx::mesh::balls::build_ball_mesh;
 use crate::vpx::mesh::builtin_primitive::effective_primitive_mesh;
 use crate::vpx::mesh::bumpers::build_bumper_meshes;
 use crate::vpx::mesh::flashers::build_flasher_mesh;
-use crate::vpx::mesh::flippers::build_flipper_meshes;
-use crate::vpx::mesh::gates::build_gate_meshes;
-use crate::vpx::mesh::hittargets::build_hit_target_mesh;
+use crate::vpx::mesh::flippers::build_flipper_meshes_unchecked;
+use crate::vpx::mesh::gates::build_gate_meshes_unchecked;
+use crate::vpx::mesh::hittargets::build_hit_target_mesh_unchecked;
 use crate::vpx::mesh::kickers::build_kicker_meshes;
 use crate::vpx::mesh::lights::{build_light_insert_mesh, build_light_meshes};
 use crate::vpx::mesh::playfields::build_playfield_mesh;
-use crate::vpx::mesh::plungers::build_plunger_meshes;
+use crate::vpx::mesh::plungers::build_plunger_meshes_unchecked;
 use crate::vpx::mesh::ramps::build_ramp_mesh;
 use crate::vpx::mesh::rubbers::build_rubber_mesh;
 use crate::vpx::mesh::spinners::build_spinner_meshes;
-use crate::vpx::mesh::triggers::build_trigger_mesh;
+use crate::vpx::mesh::triggers::build_trigger_mesh_unchecked;
 use crate::vpx::mesh::walls::build_wall_meshes;
 use crate::vpx::obj::VpxFace;
 use crate::vpx::units::{ExportUnits, mm_to_vpu, vpu_to_units};
@@ -1092,7 +1092,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
                 // TODO: get surface height from the table
-                if let Some(flipper_meshes) = build_flipper_meshes(flipper, 0.0) {
+                if let Some(flipper_meshes) = build_flipper_meshes_unchecked(flipper, 0.0) {
                     let group_info = item_group_info_for(flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1304,7 +1304,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !hit_target.is_visible {
                     continue;
                 }
-                if let Some((vertices, indices)) = build_hit_target_mesh(hit_target) {
+                if let Some((vertices, indices)) = build_hit_target_mesh_unchecked(hit_target) {
                     let group_info = item_group_info_for(hit_target);
                     let hit_target_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1346,7 +1346,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &gate.surface, gate.center.x, gate.center.y);
-                if let Some(gate_meshes) = build_gate_meshes(gate) {
+                if let Some(gate_meshes) = build_gate_meshes_unchecked(gate) {
                     let group_info = item_group_info_for(gate);
                     let gate_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1410,7 +1410,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &trigger.surface, trigger.center.x, trigger.center.y);
-                if let Some((vertices, indices)) = build_trigger_mesh(trigger) {
+                if let Some((vertices, indices)) = build_trigger_mesh_unchecked(trigger) {
                     let group_info = item_group_info_for(trigger);
                     let trigger_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1570,7 +1570,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &plunger.surface, plunger.center.x, plunger.center.y);
-                let plunger_meshes = build_plunger_meshes(plunger);
+                let plunger_meshes = build_plunger_meshes_unchecked(plunger);
                 let material_name = if plunger.material.is_empty() {
                     None
                 } else {
diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index cdbfaa8..f68a7de 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -956,7 +956,13 @@ pub fn build_plunger_meshes(plunger: &Plunger) -> PlungerMeshes {
             tip: None,
         };
     }
+    build_plunger_meshes_unchecked(plunger)
+}
 
+/// Like [`build_plunger_meshes`] but skips the runtime visibility check.
+///
+/// The glTF exporter uses this variant to export invisible plungers on request.
+pub(crate) fn build_plunger_meshes_unchecked(plunger: &Plunger) -> PlungerMeshes {
     match plunger.plunger_type {
         PlungerType::Unknown | PlungerType::Flat => {
             // Flat plunger: just a simple rod
diff --git a/src/vpx/mesh/triggers/mod.rs b/src/vpx/mesh/triggers/mod.rs
index 74902e9..c6a1389 100644
--- a/src/vpx/mesh/triggers/mod.rs
+++ b/src/vpx/mesh/triggers/mod.rs
@@ -131,7 +131,15 @@ pub fn build_trigger_mesh(trigger: &Trigger) -> Option<(Vec<VertexWrapper>, Vec<
     if !trigger.is_visible {
         return None;
     }
+    build_trigger_mesh_unchecked(trigger)
+}
 
+/// Like [`build_trigger_mesh`] but skips the runtime visibility check.
+///
+/// The glTF exporter uses this variant to export invisible triggers on request.
+pub(crate) fn build_trigger_mesh_unchecked(
+    trigger: &Trigger,
+) -> Option<(Vec<VertexWrapper>, Vec<VpxFace>)> {
     let (mesh, indices) = get_mesh_for_shape(&trigger.shape)?;
 
     let z_offset = get_z_offset(&trigger.shape);
-- 
2.43.0


From 06738e301cc715c13e856e28f8843a5518310ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 27/50] fix: derive the MIME type of exported glTF images from
 their data

---
 src/vpx/export/gltf_export.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 21faaec..a0d738d 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -142,8 +142,15 @@ const PLAYFIELD_MATERIAL_NAME: &str = "__playfield__";
 /// - If the image has bitmap data (`bits` field), it's converted to PNG
 /// - Otherwise, the MIME type is determined from the file extension
 fn mime_type_for_image(image: &ImageData) -> &'static str {
+    // The data knows best, images are not always stored under their original extension
+    if let Some(jpeg) = &image.jpeg
+        && let Ok(format) = image::guess_format(&jpeg.data)
+    {
+        return format.to_mime_type();
+    }
+
     // Bitmap data is always converted to PNG
-    if image.bits.is_some() {
+    if image.jpeg.is_none() && image.bits.is_some() {
         return "image/png";
     }
 
@@ -161,6 +168,8 @@ fn mime_type_for_image(image: &ImageData) -> &'static str {
         "image/vnd.radiance"
     } else if path_lower.ends_with(".exr") {
         "image/x-exr"
+    } else if path_lower.ends_with(".tga") {
+        "image/x-tga"
     } else {
         // Default to JPEG for unknown extensions (most common in VPX tables)
         "image/jpeg"
-- 
2.43.0


From 54b63332334e37d7066bc8ae976d58501bb87399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 28/50] fix: leave empty plunger springs and tips out of the
 exports

---
 src/vpx/mesh/plungers/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index f68a7de..a38360b 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -979,9 +979,10 @@ pub(crate) fn build_plunger_meshes_unchecked(plunger: &Plunger) -> PlungerMeshes
             PlungerMeshes {
                 flat_rod: None,
                 rod: Some(generate_rod_mesh(plunger)),
-                spring: Some(generate_spring_mesh(plunger)),
+                // a spring without loops or a tip without a profile has no mesh
+                spring: Some(generate_spring_mesh(plunger)).filter(|(_, faces)| !faces.is_empty()),
                 ring: Some(generate_ring_mesh(plunger)),
-                tip: Some(generate_tip_mesh(plunger)),
+                tip: Some(generate_tip_mesh(plunger)).filter(|(_, faces)| !faces.is_empty()),
             }
         }
     }
-- 
2.43.0


From 5429c613c440263e73b91f57c72a617cbc9f736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 29/50] fix: escape the uri of the glTF export's bin file

---
 src/vpx/export/gltf_export.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index a0d738d..dee9042 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -3211,7 +3211,7 @@ pub fn export_gltf(
             if let Some(buffers) = json.get_mut("buffers").and_then(|b| b.as_array_mut())
                 && let Some(buffer) = buffers.first_mut()
             {
-                buffer["uri"] = json!(bin_filename);
+                buffer["uri"] = json!(percent_encode(&bin_filename));
             }
 
             // Write the .bin file
@@ -3227,6 +3227,19 @@ pub fn export_gltf(
     Ok(())
 }
 
+/// Percent-encodes a file name for use as a uri, eg. `my table.bin` as `my%20table.bin`
+fn percent_encode(file_name: &str) -> String {
+    file_name
+        .bytes()
+        .map(|b| match b {
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                (b as char).to_string()
+            }
+            _ => format!("%{b:02X}"),
+        })
+        .collect()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From ff568b708a8c9ea557ba67d8edde73fa0a519527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:26 +0000
Subject: [PATCH 30/50] fix: keep the playfield image off other parts that
 share the playfield's material in the glTF export

---
 src/vpx/export/gltf_export.rs | 157 +---------------------------------
 1 file changed, 1 insertion(+), 156 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index dee9042..678410f 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -128,7 +128,7 @@ use crate::vpx::units::{ExportUnits, mm_to_vpu, vpu_to_units};
 use crate::vpx::{TableDimensions, VPX};
 use byteorder::{LittleEndian, WriteBytesExt};
 use log::{info, warn};
-use serde_json::{Value, json};
+use serde_json::json;
 use std::collections::{BTreeMap, HashMap};
 use std::io;
 use std::path::Path;
@@ -445,19 +445,6 @@ fn collect_materials(vpx: &VPX) -> BTreeMap<String, GltfMaterial> {
     materials
 }
 
-/// Find an image by name (case-insensitive)
-///
-/// VPinball image references are case-insensitive, so this function
-/// performs a case-insensitive comparison when looking up images.
-fn find_image_by_name<'a>(images: &'a [ImageData], name: &str) -> Option<&'a ImageData> {
-    if name.is_empty() {
-        return None;
-    }
-    images
-        .iter()
-        .find(|img| img.name.eq_ignore_ascii_case(name))
-}
-
 /// Get the height of a named surface at a given position.
 ///
 /// This replicates VPinball's `PinTable::GetSurfaceHeight()` function from pintable.cpp:
@@ -498,11 +485,6 @@ fn get_surface_height(vpx: &VPX, surface_name: &str, x: f32, y: f32) -> f32 {
     0.0
 }
 
-/// Find the playfield image in the VPX
-fn find_playfield_image(vpx: &VPX) -> Option<&ImageData> {
-    find_image_by_name(&vpx.images, &vpx.gamedata.image)
-}
-
 /// Get the image data bytes from an ImageData, converting bitmap to PNG if needed
 fn get_image_bytes(image: &ImageData) -> Option<Vec<u8>> {
     // Prefer jpeg/png data over raw bitmap
@@ -653,107 +635,6 @@ fn calculate_playfield_roughness(reflection_strength: f32, fallback_roughness: f
     }
 }
 
-/// Adds the playfield material with texture to the glTF export.
-///
-/// This function handles:
-/// - Adding a sampler for the playfield texture
-/// - Writing image data to the binary buffer
-/// - Creating a buffer view for the image
-/// - Adding the image and texture to the glTF arrays
-/// - Creating the playfield material with appropriate roughness based on reflection strength
-///
-/// Returns `true` if the playfield material was added, `false` if no image was available.
-#[allow(clippy::too_many_arguments)]
-fn playfield_material(
-    vpx: &VPX,
-    playfield_image: &ImageData,
-    playfield_material_name: &str,
-    materials: &BTreeMap<String, GltfMaterial>,
-    gltf_samplers: &mut Vec<serde_json::Value>,
-    gltf_images: &mut Vec<serde_json::Value>,
-    gltf_textures: &mut Vec<serde_json::Value>,
-    buffer_views: &mut Vec<serde_json::Value>,
-    bin_data: &mut Vec<u8>,
-) -> Value {
-    let image_bytes = get_image_bytes(playfield_image).unwrap();
-
-    // Add sampler
-    let sampler_idx = gltf_samplers.len();
-    gltf_samplers.push(json!({
-        "magFilter": GLTF_FILTER_LINEAR,
-        "minFilter": GLTF_FILTER_LINEAR_MIPMAP_LINEAR,
-        "wrapS": GLTF_WRAP_REPEAT,
-        "wrapT": GLTF_WRAP_REPEAT
-    }));
-
-    // Write image data to binary buffer
-    let image_offset = bin_data.len();
-    bin_data.extend_from_slice(&image_bytes);
-    let image_length = image_bytes.len();
-
-    // Pad to 4-byte alignment for next data
-    while !bin_data.len().is_multiple_of(4) {
-        bin_data.push(0);
-    }
-
-    // Add buffer view for image
-    let image_buffer_view_idx = buffer_views.len();
-    buffer_views.push(json!({
-        "buffer": 0,
-        "byteOffset": image_offset,
-        "byteLength": image_length
-    }));
-
-    // Add image referencing the buffer view
-    let image_idx = gltf_images.len();
-    let mime_type = mime_type_for_image(playfield_image);
-    gltf_images.push(json!({
-        "bufferView": image_buffer_view_idx,
-        "mimeType": mime_type,
-        "name": playfield_image.name
-    }));
-
-    // Add texture
-    let texture_idx = gltf_textures.len();
-    gltf_textures.push(json!({
-        "sampler": sampler_idx,
-        "source": image_idx,
-        "name": format!("{}_texture", playfield_image.name)
-    }));
-
-    // Add playfield material with texture
-    // Note: VPinball's playfield reflections are a separate screen-space effect
-    // controlled by `playfield_reflection_strength`. See calculate_playfield_roughness().
-    let material_roughness = materials.get(playfield_material_name).map(|m| m.roughness);
-    let fallback_roughness = material_roughness.unwrap_or(0.5);
-    let reflection_strength = vpx.gamedata.playfield_reflection_strength;
-    let playfield_roughness =
-        calculate_playfield_roughness(reflection_strength, fallback_roughness);
-
-    // Log a warning if we're overriding the material's roughness
-    // Note: mat_roughness is already in glTF space (inverted from VPinball's "shininess")
-    if let Some(mat_roughness) = material_roughness
-        && reflection_strength > 0.1
-        && (mat_roughness - playfield_roughness).abs() > 0.05
-    {
-        warn!(
-            "Playfield material '{}' has glTF roughness {:.2} (VPinball shininess {:.2}), \
-            but playfield_reflection_strength {:.2} suggests it should be more reflective. \
-            Using glTF roughness {:.2} instead.",
-            playfield_material_name,
-            mat_roughness,
-            1.0 - mat_roughness, // Convert back to VPinball terms for clarity
-            reflection_strength,
-            playfield_roughness
-        );
-    }
-
-    // Note: No alphaMode - playfield should be opaque (default is OPAQUE)
-    GltfMaterialBuilder::new(playfield_material_name, 0.0, playfield_roughness)
-        .texture(texture_idx)
-        .build()
-}
-
 /// Calculate the effective range for a light in meters.
 ///
 /// The range is determined in the following priority:
@@ -1927,15 +1808,12 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
 }
 
 /// Build a combined GLTF payload with all meshes
-#[allow(clippy::too_many_arguments)]
 fn build_combined_gltf_payload(
     vpx: &VPX,
     meshes: &[NamedMesh],
     item_groups: Vec<ItemGroupInfo>,
     materials: &BTreeMap<String, GltfMaterial>,
     images: &[ImageData],
-    playfield_image: Option<&ImageData>,
-    playfield_material_name: &str,
     units: ExportUnits,
 ) -> io::Result<(serde_json::Value, Vec<u8>)> {
     if meshes.is_empty() {
@@ -1956,28 +1834,7 @@ fn build_combined_gltf_payload(
     let mut bin_data = Vec::new();
     let mut buffer_views = Vec::new();
 
-    // Add playfield material with texture if available
-    if let Some(image) = playfield_image {
-        let pf_material = playfield_material(
-            vpx,
-            image,
-            playfield_material_name,
-            materials,
-            &mut gltf_samplers,
-            &mut gltf_images,
-            &mut gltf_textures,
-            &mut buffer_views,
-            &mut bin_data,
-        );
-        material_index_map.insert(playfield_material_name.to_string(), gltf_materials.len());
-        gltf_materials.push(pf_material);
-    }
-
     for (name, mat) in materials {
-        // Skip if we already added a playfield material with texture
-        if material_index_map.contains_key(name) {
-            continue;
-        }
         material_index_map.insert(name.clone(), gltf_materials.len());
 
         // Note: VPinball's glossy_color affects specular highlights from lights,
@@ -3167,24 +3024,12 @@ pub fn export_gltf(
     // Collect materials from gamedata
     let materials = collect_materials(vpx);
 
-    // Find playfield image
-    let playfield_image = find_playfield_image(vpx);
-
-    // Use the playfield material name from gamedata if set
-    let playfield_material_name = if vpx.gamedata.playfield_material.is_empty() {
-        PLAYFIELD_MATERIAL_NAME
-    } else {
-        &vpx.gamedata.playfield_material
-    };
-
     let (mut json, bin_data) = build_combined_gltf_payload(
         vpx,
         &meshes,
         item_groups,
         &materials,
         &vpx.images,
-        playfield_image,
-        playfield_material_name,
         options.units,
     )?;
 
-- 
2.43.0


From 44a1ffe36bfe57e21479edd277fb1b3cb1a3209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 31/50] fix: keep the material of parts whose image is missing
 in the glTF export

---
 src/vpx/export/gltf_export.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 678410f..cbe1071 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2408,21 +2408,17 @@ fn build_combined_gltf_payload(
         // Check mesh_material_map first (for meshes with color tint - unique materials)
         if let Some(&mat_idx) = mesh_material_map.get(&mesh_idx) {
             primitive["material"] = json!(mat_idx);
-        } else if let Some(ref texture_name) = mesh.texture_name {
+        } else if let Some(&mat_idx) = mesh
+            .texture_name
+            .as_ref()
+            .and_then(|texture_name| texture_material_map.get(&texture_name.to_lowercase()))
+        {
             // Prioritize texture-based material when mesh has a texture
             // This ensures the texture is applied even if the mesh also has a material_name
-            let texture_key = texture_name.to_lowercase();
-            if let Some(&mat_idx) = texture_material_map.get(&texture_key) {
-                primitive["material"] = json!(mat_idx);
-            } else {
-                warn!(
-                    "Texture material for '{}' not found for mesh '{}', no material will be applied",
-                    texture_name, mesh.name
-                );
-            }
+            primitive["material"] = json!(mat_idx);
         } else if let Some(ref mat_name) = mesh.material_name {
             if let Some(&mat_idx) = material_index_map.get(mat_name) {
-                // Fall back to VPX material only if there's no texture
+                // Fall back to VPX material only if there's no texture, or its image is missing
                 primitive["material"] = json!(mat_idx);
             } else {
                 warn!(
-- 
2.43.0


From 6e01981ff28201268cff2c3298d77a44cf85a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:35 +0000
Subject: [PATCH 32/50] fix: keep the opacity of white materials with an image
 in the glTF export

---
 src/vpx/export/gltf_export.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index cbe1071..f6ed616 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2118,11 +2118,12 @@ fn build_combined_gltf_payload(
                     )
                 });
 
-            // Check if mesh needs a unique material (non-white color)
+            // Check if mesh needs a unique material (non-white or translucent color)
             if let Some((color, opacity_active, metallic, roughness)) = mat_info {
                 let is_non_white = color[0] < 0.99 || color[1] < 0.99 || color[2] < 0.99;
+                let is_translucent = opacity_active && color[3] < 0.999;
 
-                if is_non_white {
+                if is_non_white || is_translucent {
                     // Create unique material for this texture + color combination
                     if let Some(&texture_idx) = texture_index_map.get(&texture_key) {
                         let material_idx = gltf_materials.len();
-- 
2.43.0


From f9e92dca797c1029c6afd080f92922b647969ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 33/50] fix: keep opacity, roughness and transmission of the
 glTF export in range

---
 src/vpx/export/gltf_export.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index f6ed616..f607e3d 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -403,7 +403,11 @@ fn collect_materials(vpx: &VPX) -> BTreeMap<String, GltfMaterial> {
                     mat.base_color.r as f32 / 255.0,
                     mat.base_color.g as f32 / 255.0,
                     mat.base_color.b as f32 / 255.0,
-                    if mat.opacity_active { mat.opacity } else { 1.0 },
+                    if mat.opacity_active {
+                        mat.opacity.clamp(0.0, 1.0)
+                    } else {
+                        1.0
+                    },
                 ],
                 metallic: if mat.type_ == MaterialType::Metal {
                     1.0
@@ -413,7 +417,7 @@ fn collect_materials(vpx: &VPX) -> BTreeMap<String, GltfMaterial> {
                 // VPinball roughness: 0=diffuse(matte)..1=specular(shiny)
                 // glTF roughness: 0=specular(shiny)..1=diffuse(matte)
                 // So we invert: glTF_roughness = 1.0 - VPX_roughness
-                roughness: 1.0 - mat.roughness,
+                roughness: (1.0 - mat.roughness).clamp(0.0, 1.0),
                 opacity_active: mat.opacity_active,
             };
             materials.insert(mat.name.clone(), gltf_mat);
@@ -429,13 +433,17 @@ fn collect_materials(vpx: &VPX) -> BTreeMap<String, GltfMaterial> {
                     mat.base_color.r as f32 / 255.0,
                     mat.base_color.g as f32 / 255.0,
                     mat.base_color.b as f32 / 255.0,
-                    if opacity_active { mat.opacity } else { 1.0 },
+                    if opacity_active {
+                        mat.opacity.clamp(0.0, 1.0)
+                    } else {
+                        1.0
+                    },
                 ],
                 metallic: if mat.is_metal { 1.0 } else { 0.0 },
                 // VPinball roughness: 0=diffuse(matte)..1=specular(shiny)
                 // glTF roughness: 0=specular(shiny)..1=diffuse(matte)
                 // So we invert: glTF_roughness = 1.0 - VPX_roughness
-                roughness: 1.0 - mat.roughness,
+                roughness: (1.0 - mat.roughness).clamp(0.0, 1.0),
                 opacity_active,
             };
             materials.insert(mat.name.clone(), gltf_mat);
@@ -567,7 +575,7 @@ fn calculate_transmission_factor(disable_lighting_below: Option<f32>) -> Option<
     const MAX_TRANSMISSION: f32 = 0.3;
     disable_lighting_below
         .filter(|&v| v < 1.0)
-        .map(|v| (1.0 - v) * MAX_TRANSMISSION)
+        .map(|v| (1.0 - v.max(0.0)) * MAX_TRANSMISSION)
 }
 
 /// Resolve `(opacity_active, opacity)` for a material by name,
@@ -954,7 +962,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                         flasher.color.r as f32 / 255.0,
                         flasher.color.g as f32 / 255.0,
                         flasher.color.b as f32 / 255.0,
-                        flasher.alpha as f32 / 100.0,
+                        (flasher.alpha as f32 / 100.0).clamp(0.0, 1.0),
                     ]);
                     // Convert position to glTF coordinates (meters, Y-up)
                     // VPX (x, y, z) → glTF [x, z, y]
-- 
2.43.0


From fd64484be20fd36e9d3060dd0507f52b7e2da1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 34/50] fix: leave a light range of zero out of the glTF export

---
 src/vpx/export/gltf_export.rs | 40 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index f607e3d..2a366e7 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -643,6 +643,22 @@ fn calculate_playfield_roughness(reflection_strength: f32, fallback_roughness: f
     }
 }
 
+/// Build a KHR_lights_punctual point light
+///
+/// The extension only allows a range above zero, without one the range is infinite.
+fn point_light(name: &str, color: [f32; 3], intensity: f32, range: f32) -> serde_json::Value {
+    let mut light = json!({
+        "name": name,
+        "type": "point",
+        "color": color,
+        "intensity": intensity
+    });
+    if range > 0.0 {
+        light["range"] = json!(range);
+    }
+    light
+}
+
 /// Calculate the effective range for a light in meters.
 ///
 /// The range is determined in the following priority:
@@ -2553,20 +2569,8 @@ fn build_combined_gltf_payload(
     // Build lights array for KHR_lights_punctual extension
     // Start with the two default VPinball table lights
     let mut gltf_lights = vec![
-        json!({
-            "name": "TableLight0",
-            "type": "point",
-            "color": light_color,
-            "intensity": light_intensity,
-            "range": light_range
-        }),
-        json!({
-            "name": "TableLight1",
-            "type": "point",
-            "color": light_color,
-            "intensity": light_intensity,
-            "range": light_range
-        }),
+        point_light("TableLight0", light_color, light_intensity, light_range),
+        point_light("TableLight1", light_color, light_intensity, light_range),
     ];
 
     // NOTE: VPinball also has environment lighting (env_emission_scale) and ambient
@@ -2642,13 +2646,7 @@ fn build_combined_gltf_payload(
             // Calculate light range using the helper function
             let range = calculate_light_range(light, units);
 
-            gltf_lights.push(json!({
-                "name": light.name,
-                "type": "point",
-                "color": color,
-                "intensity": intensity,
-                "range": range
-            }));
+            gltf_lights.push(point_light(&light.name, color, intensity, range));
 
             // Store position info for node creation
             game_lights.push((
-- 
2.43.0


From e563431bc2fa03a5792da4a95e92b7bac9edfe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:14 +0000
Subject: [PATCH 35/50] fix: leave empty images out of the glTF export

---
 src/vpx/export/gltf_export.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 2a366e7..5fbb352 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -497,7 +497,8 @@ fn get_surface_height(vpx: &VPX, surface_name: &str, x: f32, y: f32) -> f32 {
 fn get_image_bytes(image: &ImageData) -> Option<Vec<u8>> {
     // Prefer jpeg/png data over raw bitmap
     if let Some(ref jpeg) = image.jpeg {
-        Some(jpeg.data.clone())
+        // a buffer view can not be empty
+        (!jpeg.data.is_empty()).then(|| jpeg.data.clone())
     } else if let Some(ref bits) = image.bits {
         // Convert bitmap to PNG
         use crate::vpx::image::vpx_image_to_dynamic_image;
-- 
2.43.0


From cb0f285419927b657520800c67e59227a7ed1f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:07 +0000
Subject: [PATCH 36/50] fix: place exported flippers on their surface

---
 src/vpx/export/gltf_export.rs | 5 +++--
 src/vpx/export/obj_export.rs  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 5fbb352..a67036b 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1006,7 +1006,8 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !flipper.is_visible {
                     continue;
                 }
-                // TODO: get surface height from the table
+                let surface_height =
+                    get_surface_height(vpx, &flipper.surface, flipper.center.x, flipper.center.y);
                 if let Some(flipper_meshes) = build_flipper_meshes_unchecked(flipper, 0.0) {
                     let group_info = item_group_info_for(flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
@@ -1016,7 +1017,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     // VPX (x, y, z) → glTF [x, z, y]
                     let translation = Some(Vec3::new(
                         vpu_to_units(flipper_meshes.center.x, units),
-                        vpu_to_units(flipper_meshes.center.z, units),
+                        vpu_to_units(surface_height, units),
                         vpu_to_units(flipper_meshes.center.y, units),
                     ));
 
diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index b504362..ba21f32 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -981,7 +981,8 @@ fn write_flipper<O: ObjWriter<f32>, M: MtlWriter<f32>>(
     let Some(meshes) = build_flipper_meshes_unchecked(flipper, 0.0) else {
         return Ok(());
     };
-    let translation = meshes.center;
+    let surface_height = state.surface_height(&flipper.surface, flipper.center.x, flipper.center.y);
+    let translation = Vec3::new(flipper.center.x, flipper.center.y, surface_height);
 
     let (base_vertices, base_indices) = meshes.base;
     let base_material = flipper.material.clone();
-- 
2.43.0


From baf2c73bc0e9c336a77adc35f268805ab0cb8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 37/50] fix: keep plungers without a material from showing the
 previous part's material in the OBJ export

---
 src/vpx/export/obj_export.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index ba21f32..a6e3ad2 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -930,11 +930,6 @@ fn write_plunger<O: ObjWriter<f32>, M: MtlWriter<f32>>(
     );
     let meshes = build_plunger_meshes(plunger);
 
-    let material_name = if plunger.material.is_empty() {
-        None
-    } else {
-        Some(plunger.material.as_str())
-    };
     let texture_name = if plunger.image.is_empty() {
         None
     } else {
@@ -960,7 +955,7 @@ fn write_plunger<O: ObjWriter<f32>, M: MtlWriter<f32>>(
                     vertices: &vertices,
                     indices: &indices,
                     translation,
-                    material_name,
+                    material_name: Some(&plunger.material),
                     texture_name,
                     smoothing: true,
                 },
-- 
2.43.0


From caaabf1ed35bfd108d5c2545f4c0d949769b5547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 38/50] fix: clean the extension of textures extracted by the
 OBJ export

---
 src/vpx/expanded/util.rs     | 2 +-
 src/vpx/export/obj_export.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 86d5c60..d8f9e26 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -20,7 +20,7 @@ pub(crate) fn sanitize_filename<S: AsRef<str>>(name: S) -> String {
 const MAX_FILE_STEM_LEN: usize = 200;
 
 /// Cut off a name that is too long to be used in a file name.
-pub(super) fn truncate_file_stem(name: &str) -> &str {
+pub(crate) fn truncate_file_stem(name: &str) -> &str {
     let mut end = name.len().min(MAX_FILE_STEM_LEN);
     while !name.is_char_boundary(end) {
         end -= 1;
diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index a6e3ad2..2e8536c 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -36,7 +36,7 @@ use crate::filesystem::FileSystem;
 use crate::vpx::TableDimensions;
 use crate::vpx::VPX;
 use crate::vpx::color::Color;
-use crate::vpx::expanded::util::sanitize_filename;
+use crate::vpx::expanded::util::{sanitize_filename, truncate_file_stem};
 use crate::vpx::gameitem::GameItemEnum;
 use crate::vpx::gameitem::primitive::{Primitive, VertexWrapper};
 use crate::vpx::image::ImageData;
@@ -1562,7 +1562,9 @@ enum ImagePayload {
 }
 
 fn sanitized_image_filename(state: &mut WriterState, name: &str, ext: &str) -> String {
-    let base = sanitize_filename(name);
+    let name = sanitize_filename(name);
+    let base = truncate_file_stem(&name);
+    let ext = sanitize_filename(ext);
     let mut filename = format!("{}.{}", base, ext);
     let mut lower = filename.to_lowercase();
     while state.used_lower_filenames.contains(&lower) {
-- 
2.43.0


From 7a6dbc9e19bcc7a8048494202878ae834fa96763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:00 +0000
Subject: [PATCH 39/50] fix: trim the extension of textures extracted by the
 OBJ export

---
 src/vpx/export/obj_export.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index 2e8536c..8c80f13 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -1564,7 +1564,8 @@ enum ImagePayload {
 fn sanitized_image_filename(state: &mut WriterState, name: &str, ext: &str) -> String {
     let name = sanitize_filename(name);
     let base = truncate_file_stem(&name);
-    let ext = sanitize_filename(ext);
+    // a path at the end of a line would lose its trailing whitespace
+    let ext = sanitize_filename(ext.trim_end());
     let mut filename = format!("{}.{}", base, ext);
     let mut lower = filename.to_lowercase();
     while state.used_lower_filenames.contains(&lower) {
-- 
2.43.0


From da973e4f760374fd3281fad496b20f01a85a9812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:23 +0000
Subject: [PATCH 40/50] fix: find the material of a ramp in the old list too
 when exporting to glTF

---
 src/vpx/export/gltf_export.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index a67036b..a41189b 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -584,7 +584,8 @@ fn calculate_transmission_factor(disable_lighting_below: Option<f32>) -> Option<
 /// legacy `MATE` chunk. `None` for empty/unknown names - mirrors
 /// vpinball's `GetMaterial`, which returns null in that case.
 /// Used by the pre-10.8 compat helper
-/// [`crate::vpx::compat::primitive_disable_lighting_below`].
+/// [`crate::vpx::compat::primitive_disable_lighting_below`] and for the
+/// detail of wire ramps.
 fn lookup_material_opacity(vpx: &VPX, name: &str) -> Option<(bool, f32)> {
     if name.is_empty() {
         return None;
@@ -882,15 +883,8 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 // (`!mat->m_bOpacityActive`). Look the material up;
                 // missing/empty falls through to opaque (vpinball's
                 // dummy material defaults `m_bOpacityActive = false`).
-                let material_opacity_active = vpx
-                    .gamedata
-                    .materials
-                    .as_ref()
-                    .and_then(|mats| {
-                        mats.iter()
-                            .find(|m| m.name.eq_ignore_ascii_case(&ramp.material))
-                    })
-                    .is_some_and(|m| m.opacity_active);
+                let material_opacity_active = lookup_material_opacity(vpx, &ramp.material)
+                    .is_some_and(|(opacity_active, _)| opacity_active);
                 if let Some((vertices, indices)) =
                     build_ramp_mesh(ramp, &table_dims, detail_level, material_opacity_active)
                 {
-- 
2.43.0


From 65511ceb0a7c31397a8748f466e9b7a744893861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:29 +0000
Subject: [PATCH 41/50] fix: name textures extracted by the OBJ export even if
 nothing of their name remains

---
 src/vpx/export/obj_export.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index 8c80f13..1a1eb6c 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -1563,7 +1563,11 @@ enum ImagePayload {
 
 fn sanitized_image_filename(state: &mut WriterState, name: &str, ext: &str) -> String {
     let name = sanitize_filename(name);
-    let base = truncate_file_stem(&name);
+    let base = match truncate_file_stem(&name) {
+        // "." is not a file name
+        "" => "image",
+        stem => stem,
+    };
     // a path at the end of a line would lose its trailing whitespace
     let ext = sanitize_filename(ext.trim_end());
     let mut filename = format!("{}.{}", base, ext);
-- 
2.43.0


From 3613e168c7d03cc1bd0cc181009573c7175edf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 42/50] fix: compute the edges of ramps relative to their
 centre line

---
 src/vpx/mesh/ramps.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vpx/mesh/ramps.rs b/src/vpx/mesh/ramps.rs
index ff59077..64a4c21 100644
--- a/src/vpx/mesh/ramps.rs
+++ b/src/vpx/mesh/ramps.rs
@@ -73,14 +73,15 @@ fn get_ramp_vertex(
                 // Two parallel segments
                 v1n
             } else {
-                // Find intersection of the two edges meeting at this point
+                // Find intersection of the two edges meeting at this point,
+                // relative to this point as absolute positions lose precision
                 let a = vprev.y - vmiddle.y;
                 let b = vmiddle.x - vprev.x;
-                let c = a * (v1n.x - vprev.x) + b * (v1n.y - vprev.y);
+                let c = a * v1n.x + b * v1n.y;
 
                 let d = vnext.y - vmiddle.y;
                 let e = vmiddle.x - vnext.x;
-                let f = d * (v2n.x - vnext.x) + e * (v2n.y - vnext.y);
+                let f = d * v2n.x + e * v2n.y;
 
                 let det = a * e - b * d;
                 let inv_det = if det != 0.0 { 1.0 / det } else { 0.0 };
@@ -89,8 +90,8 @@ fn get_ramp_vertex(
                 let intersecty = (c * d - a * f) * inv_det;
 
                 Vec2 {
-                    x: vmiddle.x - intersectx,
-                    y: vmiddle.y - intersecty,
+                    x: -intersectx,
+                    y: -intersecty,
                 }
             }
         };
-- 
2.43.0


From 89b52f0eda734f2f28b5b3d3bbbdd8bba0175fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 43/50] fix: let collinear points outside of a diagonal not
 block the triangulation

---
 src/vpx/mesh/mod.rs   | 10 ++++++----
 src/vpx/mesh/walls.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index cea37d1..3cec980 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -774,14 +774,16 @@ fn lines_intersect(
     let x4 = end2.x;
     let y4 = end2.y;
 
+    let between = |v: f32, a: f32, b: f32| v >= a.min(b) && v <= a.max(b);
+
     let d123 = (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1);
     if d123 == 0.0 {
-        return x3 >= x1.min(x2) && x3 <= x2.max(x1);
+        return between(x3, x1, x2) && between(y3, y1, y2);
     }
 
     let d124 = (x2 - x1) * (y4 - y1) - (x4 - x1) * (y2 - y1);
     if d124 == 0.0 {
-        return x4 >= x1.min(x2) && x4 <= x2.max(x1);
+        return between(x4, x1, x2) && between(y4, y1, y2);
     }
 
     if d123 * d124 >= 0.0 {
@@ -790,12 +792,12 @@ fn lines_intersect(
 
     let d341 = (x3 - x1) * (y4 - y1) - (x4 - x1) * (y3 - y1);
     if d341 == 0.0 {
-        return x1 >= x3.min(x4) && x1 <= x3.max(x4);
+        return between(x1, x3, x4) && between(y1, y3, y4);
     }
 
     let d342 = d123 - d124 + d341;
     if d342 == 0.0 {
-        return x2 >= x3.min(x4) && x2 <= x3.max(x4);
+        return between(x2, x3, x4) && between(y2, y3, y4);
     }
 
     d341 * d342 < 0.0
diff --git a/src/vpx/mesh/walls.rs b/src/vpx/mesh/walls.rs
index 1101dc9..2a80e1d 100644
--- a/src/vpx/mesh/walls.rs
+++ b/src/vpx/mesh/walls.rs
@@ -653,14 +653,16 @@ fn lines_intersect(s1: (f32, f32), s2: (f32, f32), e1: (f32, f32), e2: (f32, f32
     let (x3, y3) = e1;
     let (x4, y4) = e2;
 
+    let between = |v: f32, a: f32, b: f32| v >= a.min(b) && v <= a.max(b);
+
     let d123 = (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1);
     if d123 == 0.0 {
-        return x3 >= x1.min(x2) && x3 <= x2.max(x1);
+        return between(x3, x1, x2) && between(y3, y1, y2);
     }
 
     let d124 = (x2 - x1) * (y4 - y1) - (x4 - x1) * (y2 - y1);
     if d124 == 0.0 {
-        return x4 >= x1.min(x2) && x4 <= x2.max(x1);
+        return between(x4, x1, x2) && between(y4, y1, y2);
     }
 
     if d123 * d124 >= 0.0 {
@@ -669,12 +671,12 @@ fn lines_intersect(s1: (f32, f32), s2: (f32, f32), e1: (f32, f32), e2: (f32, f32
 
     let d341 = (x3 - x1) * (y4 - y1) - (x4 - x1) * (y3 - y1);
     if d341 == 0.0 {
-        return x1 >= x3.min(x4) && x1 <= x3.max(x4);
+        return between(x1, x3, x4) && between(y1, y3, y4);
     }
 
     let d342 = d123 - d124 + d341;
     if d342 == 0.0 {
-        return x2 >= x3.min(x4) && x2 <= x3.max(x4);
+        return between(x2, x3, x4) && between(y2, y3, y4);
     }
 
     d341 * d342 < 0.0
-- 
2.43.0


From 762f830f70301822d67a6c5106e30f641c2cdf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 44/50] fix: keep rings of rubbers and wire ramps from
 collapsing

---
 src/vpx/mesh/mod.rs     | 12 ++++++++++++
 src/vpx/mesh/ramps.rs   | 12 +++++++++---
 src/vpx/mesh/rubbers.rs | 17 +++++++++--------
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index 3cec980..befaedf 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -94,6 +94,18 @@ pub(super) struct RenderVertex3D {
 use crate::vpx::math::{Vec2, Vec3};
 use crate::vpx::model::Vertex3dNoTex2;
 
+/// Cross product of two vectors, or the fallback if they are parallel.
+/// Keeps the rings of a tube from collapsing where the direction of the curve
+/// coincides with the axis their orientation is derived from.
+pub(super) fn cross_or(a: &Vec3, b: &Vec3, fallback: Vec3) -> Vec3 {
+    let cross = Vec3::cross(a, b);
+    if cross.length() <= 1e-4 * a.length() * b.length() {
+        fallback
+    } else {
+        cross
+    }
+}
+
 /// Compute normals for a mesh by accumulating face normals
 /// This matches VPinball's ComputeNormals from mesh.h
 pub(super) fn compute_normals(vertices: &mut [Vertex3dNoTex2], indices: &[u32]) {
diff --git a/src/vpx/mesh/ramps.rs b/src/vpx/mesh/ramps.rs
index 64a4c21..3755605 100644
--- a/src/vpx/mesh/ramps.rs
+++ b/src/vpx/mesh/ramps.rs
@@ -4,7 +4,7 @@
 //! Ramps can be either flat (with optional walls) or wire ramps (1-4 wire types).
 
 use super::super::mesh::{
-    RenderVertex3D, compute_normals, detail_level_to_accuracy, get_rg_vertex_3d,
+    RenderVertex3D, compute_normals, cross_or, detail_level_to_accuracy, get_rg_vertex_3d,
 };
 use crate::vpx::TableDimensions;
 use crate::vpx::gameitem::primitive::VertexWrapper;
@@ -396,6 +396,7 @@ fn create_wire(
         y: 0.0,
         z: 0.0,
     };
+    let mut prev_normal = Vec3::default();
 
     let inv_num_rings = 1.0 / num_rings as f32;
     let inv_num_segments = 1.0 / num_segments as f32;
@@ -428,11 +429,15 @@ fn create_wire(
                 y: mid_points[i2].y + mid_points[i].y,
                 z: heights[i2] - height,
             };
-            let normal = Vec3::cross(&tangent, &up);
+            let normal = cross_or(
+                &tangent,
+                &up,
+                Vec3::cross(&tangent, &Vec3::new(0.0, 0.0, 1.0)),
+            );
             let binorm = Vec3::cross(&tangent, &normal);
             (normal, binorm)
         } else {
-            let normal = Vec3::cross(&prev_binorm, &tangent);
+            let normal = cross_or(&prev_binorm, &tangent, prev_normal);
             let binorm = Vec3::cross(&tangent, &normal);
             (normal, binorm)
         };
@@ -440,6 +445,7 @@ fn create_wire(
         let binorm = binorm.normalize();
         let normal = normal.normalize();
         prev_binorm = binorm;
+        prev_normal = normal;
 
         let u = i as f32 * inv_num_rings;
         for j in 0..num_segments {
diff --git a/src/vpx/mesh/rubbers.rs b/src/vpx/mesh/rubbers.rs
index 684d9c1..ca08be3 100644
--- a/src/vpx/mesh/rubbers.rs
+++ b/src/vpx/mesh/rubbers.rs
@@ -8,7 +8,7 @@ use crate::vpx::gameitem::primitive::VertexWrapper;
 use crate::vpx::gameitem::rubber::Rubber;
 use crate::vpx::math::{Vec2, Vec3, get_rotated_axis};
 use crate::vpx::mesh::get_rg_vertex_2d;
-use crate::vpx::mesh::{compute_normals, detail_level_to_accuracy};
+use crate::vpx::mesh::{compute_normals, cross_or, detail_level_to_accuracy};
 use crate::vpx::model::Vertex3dNoTex2;
 use crate::vpx::obj::VpxFace;
 use std::f32::consts::PI;
@@ -151,6 +151,7 @@ fn generate_mesh(rubber: &Rubber, detail_level: u32) -> Option<(Vec<Vertex3dNoTe
     let thickness = rubber.thickness as f32;
 
     let mut prev_binorm = Vec3::default();
+    let mut prev_normal = Vec3::default();
     let inv_nr = 1.0 / num_rings as f32;
     let inv_ns = 1.0 / num_segments as f32;
 
@@ -169,12 +170,11 @@ fn generate_mesh(rubber: &Rubber, detail_level: u32) -> Option<(Vec<Vertex3dNoTe
                 y: middle_points[i2].y + middle_points[i].y,
                 z: height * 2.0,
             };
-            // CrossProduct(tangent, up)
-            let normal = Vec3 {
-                x: tangent.y * up.z,
-                y: -tangent.x * up.z,
-                z: tangent.x * up.y - tangent.y * up.x,
-            };
+            let normal = cross_or(
+                &tangent,
+                &up,
+                Vec3::cross(&tangent, &Vec3::new(0.0, 0.0, 1.0)),
+            );
             // CrossProduct(tangent, normal)
             let binorm = Vec3 {
                 x: tangent.y * normal.z,
@@ -183,7 +183,7 @@ fn generate_mesh(rubber: &Rubber, detail_level: u32) -> Option<(Vec<Vertex3dNoTe
             };
             (normal, binorm)
         } else {
-            let normal = Vec3::cross(&prev_binorm, &tangent);
+            let normal = cross_or(&prev_binorm, &tangent, prev_normal);
             let binorm = Vec3::cross(&tangent, &normal);
             (normal, binorm)
         };
@@ -191,6 +191,7 @@ fn generate_mesh(rubber: &Rubber, detail_level: u32) -> Option<(Vec<Vertex3dNoTe
         let binorm = binorm.normalize();
         let normal = normal.normalize();
         prev_binorm = binorm;
+        prev_normal = normal;
 
         let u = i as f32 * inv_nr;
 
-- 
2.43.0


From fedacfe05952e3f57fd45d60337ec1d891ff1e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:28 +0000
Subject: [PATCH 45/50] fix: do not skip edges that end on a vertical diagonal
 when triangulating

---
 src/vpx/mesh/mod.rs   | 2 +-
 src/vpx/mesh/walls.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index befaedf..28f783c 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -868,7 +868,7 @@ fn advance_point(
         if (pv_cross1.y < miny && pv_cross2.y < miny)
             || (pv_cross1.y > maxy && pv_cross2.y > maxy)
             || (pv_cross1.x < minx && pv_cross2.x < minx)
-            || (pv_cross1.x > maxx && pv_cross2.y > maxx)
+            || (pv_cross1.x > maxx && pv_cross2.x > maxx)
         {
             continue;
         }
diff --git a/src/vpx/mesh/walls.rs b/src/vpx/mesh/walls.rs
index 2a80e1d..96b9eec 100644
--- a/src/vpx/mesh/walls.rs
+++ b/src/vpx/mesh/walls.rs
@@ -611,12 +611,12 @@ fn advance_point(
         if v1 == pv1 || v2 == pv1 || v1 == pv3 || v2 == pv3 {
             continue;
         }
-        // VPinball's bounding-box reject (with the original `pvCross2->y
-        // <= maxx` typo carried verbatim - see MeshUtils.h).
+        // VPinball's bounding-box reject (without the original `pvCross2->y
+        // <= maxx` typo, which skips edges that end on a vertical diagonal).
         if !((v1.1 >= miny || v2.1 >= miny)
             && (v1.1 <= maxy || v2.1 <= maxy)
             && (v1.0 >= minx || v2.0 >= minx)
-            && (v1.0 <= maxx || v2.1 <= maxx))
+            && (v1.0 <= maxx || v2.0 <= maxx))
         {
             continue;
         }
-- 
2.43.0


From f23956e75d4d7ead10153acc9ebf7409a5dffeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:44 +0000
Subject: [PATCH 46/50] fix: place exported glTF cameras in the unit of the
 export

---
 src/vpx/export/camera.rs      | 11 ++++++++++-
 src/vpx/export/gltf_export.rs |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vpx/export/camera.rs b/src/vpx/export/camera.rs
index 180e855..412703a 100644
--- a/src/vpx/export/camera.rs
+++ b/src/vpx/export/camera.rs
@@ -9,7 +9,7 @@
 
 use crate::vpx::VPX;
 use crate::vpx::gamedata::ViewLayoutMode;
-use crate::vpx::units::vpu_to_m;
+use crate::vpx::units::{ExportUnits, vpu_to_m};
 use serde_json::json;
 
 /// TODO: This scaling factor compensates for using simplified table bounds (8 corner vertices)
@@ -642,6 +642,15 @@ impl GltfCamera {
         ]
     }
 
+    /// Express this camera, which is in meters, in the units of the exported scene
+    pub fn in_units(mut self, units: ExportUnits) -> Self {
+        let scale = units.scale() / ExportUnits::M.scale();
+        self.position = self.position.map(|v| v * scale);
+        self.znear *= scale;
+        self.zfar *= scale;
+        self
+    }
+
     /// Convert Euler angles (YXZ order) to quaternion
     ///
     /// YXZ order: first rotate around Y (yaw), then around X (pitch)
diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index a41189b..0883f18 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2779,7 +2779,7 @@ fn build_combined_gltf_payload(
 
     // Create cameras for all three view modes (Desktop, Fullscreen, FSS)
     // Each provides a different view of the table based on VPinball's view settings
-    let cameras = GltfCamera::all_from_vpx(vpx);
+    let cameras = GltfCamera::all_from_vpx(vpx).map(|c| c.in_units(units));
 
     // Add all cameras to glTF
     let gltf_cameras: Vec<_> = cameras.iter().map(|c| c.to_gltf_camera_json()).collect();
-- 
2.43.0


From ea5270bc551846be9a7320ff88f7f5ce878a5b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:24 +0000
Subject: [PATCH 47/50] fix: do not write over the table or another file when
 compacting

---
 src/vpx/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 8f119fd..48d41c3 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -322,7 +322,11 @@ pub fn compact<P: AsRef<Path>>(path: P) -> io::Result<()> {
 /// Rewrites the whole compound file with the same data causing the file to be compacted.
 fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
     // requested to be added in https://github.com/mdsteele/rust-cfb/issues/55
-    let out_path: PathBuf = in_path.as_ref().with_extension("compacting");
+    // The suffix is appended, replacing the extension could yield the path of the table itself
+    // or of some other file next to it.
+    let mut out_path = in_path.as_ref().as_os_str().to_owned();
+    out_path.push(".compacting");
+    let out_path = PathBuf::from(out_path);
     let mut original = cfb::open(&in_path)?;
     let version = original.version();
     let out_file = std::fs::OpenOptions::new()
-- 
2.43.0


From 5166f2c9323c639e395214c969ebbeabd8a57fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:24 +0000
Subject: [PATCH 48/50] fix: replace the table in one step when compacting

---
 src/vpx/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 48d41c3..7347086 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -353,7 +353,10 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         stream.flush()?;
     }
     duplicate.flush()?;
-    std::fs::remove_file(&in_path)?;
+    // both files must be closed before one replaces the other on some platforms
+    drop(duplicate);
+    drop(original);
+    // replaces the table in one step, so there is no moment without a complete table
     std::fs::rename(&out_path, &in_path)
 }
 
-- 
2.43.0


From 99edadfc1b57c79ce00a7124fb4c914e7ac6c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:33 +0000
Subject: [PATCH 49/50] fix: report a NaN of the wrong length in JSON instead
 of panicking

---
 src/vpx/json.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vpx/json.rs b/src/vpx/json.rs
index b3e160b..8efac92 100644
--- a/src/vpx/json.rs
+++ b/src/vpx/json.rs
@@ -72,8 +72,11 @@ where
                 if let Some(hex_string) = other.strip_prefix("nan|") {
                     let bytes = hex::decode(hex_string)
                         .map_err(|e| serde::de::Error::custom(e.to_string()))?;
-                    let mut array = [0; 4];
-                    array.copy_from_slice(&bytes);
+                    let array: [u8; 4] = bytes.try_into().map_err(|_| {
+                        serde::de::Error::custom(format!(
+                            "expected 4 bytes after NaN|, found {hex_string}"
+                        ))
+                    })?;
                     let f = f32::from_le_bytes(array);
                     Ok(f)
                 } else {
-- 
2.43.0


From 3409df25479832f49a9bb59156792840db0dbf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:52 +0000
Subject: [PATCH 50/50] fix: refuse signs in the digits of a colour

---
 src/vpx/color.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vpx/color.rs b/src/vpx/color.rs
index e7f45bc..fbe5478 100644
--- a/src/vpx/color.rs
+++ b/src/vpx/color.rs
@@ -66,14 +66,19 @@ impl<'de> Deserialize<'de> for Color {
         let invalid = || serde::de::Error::custom("Invalid color format, expected #RRGGBB");
         // Not every byte offset is a character boundary
         let part = |start: usize, end: usize| s.get(start..end).ok_or_else(invalid);
+        // A sign is not a digit
+        let channel = |start: usize, end: usize| match part(start, end)? {
+            digits if digits.starts_with('+') => Err(invalid()),
+            digits => u8::from_str_radix(digits, 16).map_err(serde::de::Error::custom),
+        };
         match s.len() {
             7 => {
                 if part(0, 1)? != "#" {
                     return Err(invalid());
                 }
-                let r = u8::from_str_radix(part(1, 3)?, 16).map_err(serde::de::Error::custom)?;
-                let g = u8::from_str_radix(part(3, 5)?, 16).map_err(serde::de::Error::custom)?;
-                let b = u8::from_str_radix(part(5, 7)?, 16).map_err(serde::de::Error::custom)?;
+                let r = channel(1, 3)?;
+                let g = channel(3, 5)?;
+                let b = channel(5, 7)?;
                 Ok(Color {
                     unused: 0u8,
                     r,
@@ -85,11 +90,10 @@ impl<'de> Deserialize<'de> for Color {
                 if part(2, 3)? != "#" {
                     return Err(invalid());
                 }
-                let unused =
-                    u8::from_str_radix(part(0, 2)?, 16).map_err(serde::de::Error::custom)?;
-                let r = u8::from_str_radix(part(3, 5)?, 16).map_err(serde::de::Error::custom)?;
-                let g = u8::from_str_radix(part(5, 7)?, 16).map_err(serde::de::Error::custom)?;
-                let b = u8::from_str_radix(part(7, 9)?, 16).map_err(serde::de::Error::custom)?;
+                let unused = channel(0, 2)?;
+                let r = channel(3, 5)?;
+                let g = channel(5, 7)?;
+                let b = channel(7, 9)?;
                 Ok(Color { unused, r, g, b })
             }
             _ => Err(invalid()),
-- 
2.43.0

