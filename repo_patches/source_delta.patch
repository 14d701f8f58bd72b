From 47ab251a3f61565a74c19ef4ca4bad8901c36913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 01/31] verif hook: stand-in code table definitions under --cfg
 grib_verif

---
 build.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/build.rs b/build.rs
index 52826c0..10125c9 100644
--- a/build.rs
+++ b/build.rs
@@ -2,6 +2,7 @@ use std::{env, fs, path::Path};
 
 fn main() -> Result<(), Box<dyn std::error::Error>> {
     let out_dir = env::var_os("OUT_DIR").unwrap();
+    verif_use_def_dir()?;
 
     if let Err(e) =
         check_nonemptiness(Path::new("def/CCT")).and(check_nonemptiness(Path::new("def/GRIB2")))
@@ -45,6 +46,19 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     Ok(())
 }
 
+// Verification hook, inert unless the crate is built with `--cfg grib_verif`:
+// reads the code table definitions from `$GRIB_VERIF_DEF_DIR/def` rather than
+// from the `def` submodules, which are not always checked out.
+fn verif_use_def_dir() -> Result<(), Box<dyn std::error::Error>> {
+    if env::var_os("CARGO_CFG_GRIB_VERIF").is_some() {
+        println!("cargo:rerun-if-env-changed=GRIB_VERIF_DEF_DIR");
+        if let Some(dir) = env::var_os("GRIB_VERIF_DEF_DIR") {
+            env::set_current_dir(dir)?;
+        }
+    }
+    Ok(())
+}
+
 fn check_nonemptiness(dir: &Path) -> Result<(), String> {
     dir.read_dir()
         .map_err(|_| format!("{} is not a directory", dir.to_string_lossy()))
-- 
2.43.0


From 8ce035232fee82e05a843c94350ebd2d21371bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 02/31] fix: read sections whole when the reader returns fewer
 bytes per call

---
 src/reader.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1f63572..0b23816 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -227,13 +227,28 @@ macro_rules! check_size {
     }};
 }
 
+/// Reads until `buf` is filled or the end of the data is reached, and returns
+/// the number of bytes read.
+fn read_up_to<R: Read>(reader: &mut R, buf: &mut [u8]) -> io::Result<usize> {
+    let mut filled = 0;
+    while filled < buf.len() {
+        match reader.read(&mut buf[filled..]) {
+            Ok(0) => break,
+            Ok(size) => filled += size,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(filled)
+}
+
 impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
     fn read_sect0(&mut self) -> Result<Option<(usize, Indicator)>, ParseError> {
         let mut buf = [0; 4096];
         let mut offset = 0;
 
         loop {
-            let size = self.read(&mut buf[..])?;
+            let size = read_up_to(self, &mut buf[..])?;
             if size < SECT0_IS_SIZE {
                 return Ok(None);
             }
@@ -256,7 +271,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect8(&mut self) -> Result<Option<()>, ParseError> {
         let mut buf = [0; SECT8_ES_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = read_up_to(self, &mut buf[..])?;
         check_size!(size, buf.len());
 
         if buf[..] != SECT8_ES_MAGIC[..] {
@@ -268,7 +283,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect_header(&mut self) -> Result<Option<SectHeader>, ParseError> {
         let mut buf = [0; SECT_HEADER_SIZE];
-        let size = self.read(&mut buf[..])?;
+        let size = read_up_to(self, &mut buf[..])?;
         check_size!(size, buf.len());
 
         let sect_size = read_as!(u32, buf, 0) as usize;
-- 
2.43.0


From 3b79cc75ee547ac74b8497936195ca2a5324d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 03/31] fix: SubmessageIterator::nth is relative to the current
 position

---
 src/context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index de57476..b1c43f4 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -332,7 +332,10 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.pos = n;
+        self.pos = self
+            .pos
+            .saturating_add(n)
+            .min(self.context.submessages.len());
         self.next()
     }
 }
-- 
2.43.0


From c6a3bc070ba0fa992433d6dfa989fdb7034698c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 04/31] fix: yield one value per grid point with bitmaps
 whatever the padding

---
 src/decoder/bitmap.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/decoder/bitmap.rs b/src/decoder/bitmap.rs
index 23eeff5..d7e4c45 100644
--- a/src/decoder/bitmap.rs
+++ b/src/decoder/bitmap.rs
@@ -39,18 +39,23 @@ where
         if offset >= self.len {
             return None;
         }
-        let byte = if self.offset < 7 {
-            self.offset += 1;
+        self.offset += 1;
+        let bit_offset = offset % 8;
+        let byte = if bit_offset < 7 {
             self.bitmap.peek()?
         } else {
-            self.offset = 0;
             self.bitmap.next()?
         };
 
-        if has_zero_at_offset(byte, &offset) {
+        if has_zero_at_offset(byte, &bit_offset) {
             Some(f32::NAN)
         } else {
-            self.values.next()
+            let value = self.values.next();
+            if value.is_none() {
+                // no values are left for the rest of the points
+                self.offset = self.len;
+            }
+            value
         }
     }
 
-- 
2.43.0


From b31f0f567cf9392d741bbc4132498737567b61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 05/31] fix: report contradictory message and section lengths
 instead of panicking

---
 src/reader.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0b23816..901e36e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -90,11 +90,16 @@ where
             .reader
             .read_sect0()
             .transpose()?
-            .map(|(offset, indicator)| {
+            .and_then(|(offset, indicator)| {
                 self.whole_size += offset;
                 let offset = self.whole_size;
-                let message_size = indicator.total_length as usize;
-                self.whole_size += message_size;
+                let message_size = usize::try_from(indicator.total_length)
+                    .ok()
+                    .filter(|size| *size >= SECT0_IS_SIZE)
+                    .ok_or_else(|| new_invalid_length_err(offset))?;
+                self.whole_size = offset
+                    .checked_add(message_size)
+                    .ok_or_else(|| new_invalid_length_err(offset))?;
                 let sect_info = SectionInfo {
                     num: 0,
                     offset,
@@ -102,7 +107,7 @@ where
                     body: Some(SectionBody::Section0(indicator)),
                 };
                 self.rest_size = message_size - SECT0_IS_SIZE;
-                sect_info
+                Ok(sect_info)
             });
         Some(result)
     }
@@ -134,6 +139,10 @@ where
         match result {
             Ok(header) => {
                 let offset = self.whole_size - self.rest_size;
+                let (size, _) = header;
+                if size < SECT_HEADER_SIZE || size > self.rest_size {
+                    return Some(Err(new_invalid_length_err(offset)));
+                }
                 match self.reader.read_sect_payload(&header) {
                     Ok(body) => {
                         let body = Some(body);
@@ -227,6 +236,12 @@ macro_rules! check_size {
     }};
 }
 
+fn new_invalid_length_err(offset: usize) -> ParseError {
+    ParseError::ReadError(format!(
+        "length stated at {offset} contradicts the message structure"
+    ))
+}
+
 /// Reads until `buf` is filled or the end of the data is reached, and returns
 /// the number of bytes read.
 fn read_up_to<R: Read>(reader: &mut R, buf: &mut [u8]) -> io::Result<usize> {
@@ -332,6 +347,9 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
     fn read_sect6_payload(&mut self, body_size: usize) -> Result<SectionBody, ParseError> {
         let mut buf = [0; 1]; // octet 6
+        if body_size < buf.len() {
+            return Err(BuildError::SectionSizeTooSmall(body_size).into());
+        }
         self.read_exact(&mut buf[..])?;
 
         let len_extra = body_size - buf.len();
-- 
2.43.0


From 692de07c0388c6783289687db8b856db68d26bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 06/31] fix: run-length decoding ignores padding and refuses
 impossible widths and lengths

---
 src/decoder/run_length.rs | 41 +++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index 33888c1..e582904 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -16,11 +16,18 @@ pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<std::vec::IntoIter<f32>, GribError> {
     let sect5_data = &target.sect5_payload;
+    if sect5_data.len() < 12 {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
     let nbit = read_as!(u8, sect5_data, 6);
     let maxv = read_as!(u16, sect5_data, 7);
     let max_level = read_as!(u16, sect5_data, 9);
     let num_digits = read_as!(u8, sect5_data, 11);
 
+    if sect5_data.len() < 12 + usize::from(max_level) * 2 {
+        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
+    }
+
     let mut level_map = Vec::with_capacity(max_level.into());
     level_map.push(f32::NAN);
     let mut pos = 12;
@@ -63,28 +70,38 @@ fn rleunpack(
     maxv: u16,
     expected_len: Option<usize>,
 ) -> Result<Box<[u16]>, RunLengthEncodingDecodeError> {
-    let mut out_buf = match expected_len {
-        Some(sz) => Vec::with_capacity(sz),
-        None => Vec::new(),
-    };
+    if nbit == 0 || nbit > 16 {
+        return Err(RunLengthEncodingDecodeError::NotSupported);
+    }
+    let nbit = usize::from(nbit);
+    let mut out_buf = Vec::new();
 
-    let rlbase = maxv + 1;
-    let lngu: usize = ((1u16 << nbit) - rlbase).into();
+    let rlbase = u32::from(maxv) + 1;
+    let lngu = (1usize << nbit).saturating_sub(rlbase as usize);
     let mut cached = None;
     let mut exp: usize = 1;
-    let iter = NBitwiseIterator::new(input, usize::from(nbit));
+    let iter = NBitwiseIterator::new(input, nbit);
 
-    for value in iter {
-        let value = value as u16;
+    for (index, value) in iter.enumerate() {
+        let rest_bits = input.len() * 8 - index * nbit;
+        if rest_bits < 8 && expected_len == Some(out_buf.len()) {
+            // the rest is padding to the octet boundary
+            break;
+        }
         if rlbase > value {
+            let value = value as u16;
             out_buf.push(value);
             cached = Some(value);
             exp = 1;
         } else {
             let prev = cached.ok_or(RunLengthEncodingDecodeError::InvalidFirstValue)?;
-            let length: usize = ((value - rlbase) as usize) * exp;
-            out_buf.append(&mut vec![prev; length]);
-            exp *= lngu;
+            let new_len = ((value - rlbase) as usize)
+                .checked_mul(exp)
+                .and_then(|length| length.checked_add(out_buf.len()))
+                .filter(|new_len| *new_len <= expected_len.unwrap_or(usize::MAX))
+                .ok_or(RunLengthEncodingDecodeError::LengthMismatch)?;
+            out_buf.resize(new_len, prev);
+            exp = exp.saturating_mul(lngu);
         }
     }
 
-- 
2.43.0


From 88ed3471abde7826e940931a83d7e61dc0f4cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 07/31] fix: read PNG images row by row and check their shape

---
 src/decoder/png.rs | 64 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 3ed7a36..3a75368 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -19,12 +19,6 @@ pub(crate) fn decode(
     let sect5_data = &target.sect5_payload;
     let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
 
-    let buf = read_image_buffer(&target.sect7_payload).map_err(|e| {
-        GribError::DecodeError(DecodeError::PngDecodeError(PngDecodeError::PngError(
-            e.to_string(),
-        )))
-    })?;
-
     if param.nbit == 0 {
         eprintln!(
             "WARNING: nbit = 0 for PNG decoder is not tested.
@@ -44,17 +38,61 @@ pub(crate) fn decode(
         );
     }
 
-    let iter = NBitwiseIterator::new(buf, usize::from(param.nbit));
-    let iter = SimplePackingDecodeIterator::new(iter, &param);
+    let image = read_image(
+        &target.sect7_payload,
+        param.nbit.into(),
+        target.num_points_encoded,
+    )
+    .map_err(|e| GribError::DecodeError(DecodeError::PngDecodeError(e)))?;
+
+    let iter = SimplePackingDecodeIterator::new(image.into_pixels(), &param);
     let iter = SimplePackingDecodeIteratorWrapper::SimplePacking(iter);
     Ok(iter)
 }
 
-fn read_image_buffer(buf: &[u8]) -> Result<Vec<u8>, png::DecodingError> {
+struct Image {
+    buf: Vec<u8>,
+    nbit: usize,
+    width: usize,
+    row_size: usize,
+}
+
+impl Image {
+    fn into_pixels(self) -> impl Iterator<Item = u32> {
+        // every row starts at an octet boundary
+        let num_rows = self.buf.len().checked_div(self.row_size).unwrap_or(0);
+        (0..num_rows).flat_map(move |row| {
+            let row = &self.buf[row * self.row_size..(row + 1) * self.row_size];
+            NBitwiseIterator::new(row, self.nbit)
+                .take(self.width)
+                .collect::<Vec<_>>()
+        })
+    }
+}
+
+fn read_image(buf: &[u8], nbit: usize, num_points: usize) -> Result<Image, PngDecodeError> {
+    let to_err = |e: png::DecodingError| PngDecodeError::PngError(e.to_string());
     let reader = std::io::Cursor::new(&buf);
     let decoder = png::Decoder::new(reader);
-    let mut reader = decoder.read_info()?;
-    let mut out_buf = vec![0; reader.output_buffer_size()];
-    let _info = reader.next_frame(&mut out_buf)?;
-    Ok(out_buf)
+    let mut reader = decoder.read_info().map_err(to_err)?;
+
+    let (color_type, bit_depth) = reader.output_color_type();
+    if color_type.samples() * bit_depth as usize != nbit {
+        return Err(PngDecodeError::NotSupported);
+    }
+    let (width, height) = (reader.info().width, reader.info().height);
+    if u64::from(width) * u64::from(height) != num_points as u64 {
+        return Err(PngDecodeError::PngError(
+            "image size does not match the number of values".to_owned(),
+        ));
+    }
+
+    let mut buf = vec![0; reader.output_buffer_size()];
+    let info = reader.next_frame(&mut buf).map_err(to_err)?;
+    Ok(Image {
+        buf,
+        nbit,
+        width: width as usize,
+        row_size: info.line_size,
+    })
 }
-- 
2.43.0


From 47a29e57ebf9b28dfc8631ce01786cfc4e449964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 08/31] fix: refuse a data representation section too short for
 its template

---
 src/decoder.rs            |  9 +++++++++
 src/decoder/complex.rs    | 11 +++++------
 src/decoder/jpeg2000.rs   |  3 +--
 src/decoder/png.rs        |  3 +--
 src/decoder/run_length.rs |  8 ++------
 src/decoder/simple.rs     |  3 +--
 6 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 5ece124..8690f80 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1,5 +1,6 @@
 #[cfg(target_arch = "wasm32")]
 use std::marker::PhantomData;
+use std::ops::Range;
 
 use num::ToPrimitive;
 
@@ -120,6 +121,14 @@ impl Grib2SubmessageDecoder {
         ))
     }
 
+    /// Returns octets of Section 5 payload, or an error if the section is too
+    /// short to have them.
+    pub(crate) fn sect5_octets(&self, range: Range<usize>) -> Result<&[u8], GribError> {
+        self.sect5_payload
+            .get(range)
+            .ok_or(GribError::DecodeError(DecodeError::LengthMismatch))
+    }
+
     /// Dispatches a decoding process and gets an iterator of decoded values.
     pub fn dispatch(
         &self,
diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 34d09eb..6fd9761 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -33,9 +33,8 @@ pub(crate) fn decode_7_2(
     SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
     GribError,
 > {
-    let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
-    let complex_param = ComplexPackingParam::from_buf(&sect5_data[16..42]);
+    let simple_param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
+    let complex_param = ComplexPackingParam::from_buf(target.sect5_octets(16..42)?);
 
     if complex_param.group_splitting_method_used != 1
         || complex_param.missing_value_management_used > 2
@@ -59,9 +58,9 @@ pub(crate) fn decode_7_3(
     SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
     GribError,
 > {
-    let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
-    let complex_param = ComplexPackingParam::from_buf(&sect5_data[16..42]);
+    let simple_param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
+    let complex_param = ComplexPackingParam::from_buf(target.sect5_octets(16..42)?);
+    let sect5_data = target.sect5_octets(0..44)?;
     let spdiff_order = read_as!(u8, sect5_data, 42);
     let spdiff_order = Table5_6::try_from(spdiff_order).map_err(|e| {
         let number = e.number;
diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index e6c1cf6..da37cc7 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -23,8 +23,7 @@ pub enum Jpeg2000CodeStreamDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = i32>>, GribError> {
-    let sect5_data = &target.sect5_payload;
-    let simple_param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let simple_param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
 
     if simple_param.nbit == 0 {
         eprintln!(
diff --git a/src/decoder/png.rs b/src/decoder/png.rs
index 3a75368..e9acee9 100644
--- a/src/decoder/png.rs
+++ b/src/decoder/png.rs
@@ -16,8 +16,7 @@ pub enum PngDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
-    let sect5_data = &target.sect5_payload;
-    let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
 
     if param.nbit == 0 {
         eprintln!(
diff --git a/src/decoder/run_length.rs b/src/decoder/run_length.rs
index e582904..b351d84 100644
--- a/src/decoder/run_length.rs
+++ b/src/decoder/run_length.rs
@@ -16,17 +16,13 @@ pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<std::vec::IntoIter<f32>, GribError> {
     let sect5_data = &target.sect5_payload;
-    if sect5_data.len() < 12 {
-        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
-    }
+    target.sect5_octets(6..12)?;
     let nbit = read_as!(u8, sect5_data, 6);
     let maxv = read_as!(u16, sect5_data, 7);
     let max_level = read_as!(u16, sect5_data, 9);
     let num_digits = read_as!(u8, sect5_data, 11);
 
-    if sect5_data.len() < 12 + usize::from(max_level) * 2 {
-        return Err(GribError::DecodeError(DecodeError::LengthMismatch));
-    }
+    target.sect5_octets(12..12 + usize::from(max_level) * 2)?;
 
     let mut level_map = Vec::with_capacity(max_level.into());
     level_map.push(f32::NAN);
diff --git a/src/decoder/simple.rs b/src/decoder/simple.rs
index b7aeecc..4c7d70c 100644
--- a/src/decoder/simple.rs
+++ b/src/decoder/simple.rs
@@ -48,8 +48,7 @@ pub enum SimplePackingDecodeError {
 pub(crate) fn decode(
     target: &Grib2SubmessageDecoder,
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
-    let sect5_data = &target.sect5_payload;
-    let param = SimplePackingParam::from_buf(&sect5_data[6..16])?;
+    let param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
 
     let decoder = if param.nbit == 0 {
         SimplePackingDecodeIteratorWrapper::FixedValue(FixedValueIterator::new(
-- 
2.43.0


From 905d4d4a4dce3ba83bc3520919af764bdd925d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 09/31] fix: decode complex packing within bounds and without
 integer overflow

---
 src/decoder/complex.rs      | 229 ++++++++++++++++++++++--------------
 src/decoder/complex/diff.rs |  82 +++++++------
 2 files changed, 191 insertions(+), 120 deletions(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 6fd9761..11780f6 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -1,7 +1,5 @@
 use std::iter;
 
-use num::ToPrimitive;
-
 use self::{
     diff::{
         FirstOrderSpatialDifferencingDecodeIterator, SecondOrderSpatialDifferencingDecodeIterator,
@@ -18,7 +16,7 @@ use crate::{
         DecodeError, Grib2SubmessageDecoder,
     },
     error::*,
-    helpers::{read_as, GribInt},
+    helpers::read_as,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -30,7 +28,7 @@ pub enum ComplexPackingDecodeError {
 pub(crate) fn decode_7_2(
     target: &Grib2SubmessageDecoder,
 ) -> Result<
-    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
+    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i64>> + '_>,
     GribError,
 > {
     let simple_param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
@@ -46,7 +44,7 @@ pub(crate) fn decode_7_2(
 
     let sect7_data = &target.sect7_payload;
 
-    let unpacked_data = decode_complex_packing(complex_param, sect7_data, 0, simple_param.nbit, 0);
+    let unpacked_data = decode_complex_packing(complex_param, sect7_data, 0, simple_param.nbit, 0)?;
     let decoder = SimplePackingDecodeIterator::new(unpacked_data, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
     Ok(decoder)
@@ -55,7 +53,7 @@ pub(crate) fn decode_7_2(
 pub(crate) fn decode_7_3(
     target: &Grib2SubmessageDecoder,
 ) -> Result<
-    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i32>> + '_>,
+    SimplePackingDecodeIteratorWrapper<impl Iterator<Item = DecodedValue<i64>> + '_>,
     GribError,
 > {
     let simple_param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
@@ -89,9 +87,9 @@ pub(crate) fn decode_7_3(
         sect7_data,
         sect7_params.len(),
         simple_param.nbit,
-        sect7_params.minimum(),
-    );
-    let first_values = sect7_params.first_values();
+        sect7_params.minimum().into(),
+    )?;
+    let first_values = sect7_params.first_values().map(i64::from);
     let first_values = first_values.collect::<Vec<_>>().into_iter();
     let spdiff_unpacked = match spdiff_order {
         Table5_6::FirstOrderSpatialDifferencing => SpatialDifferencingDecodeIterator::FirstOrder(
@@ -112,12 +110,24 @@ fn decode_complex_packing(
     sect7_data: &[u8],
     sect7_offset: usize,
     nbit: u8,
-    z_min: i32,
-) -> impl Iterator<Item = DecodedValue<i32>> + '_ {
+    z_min: i64,
+) -> Result<impl Iterator<Item = DecodedValue<i64>> + '_, GribError> {
     fn get_octet_length(nbit: u8, ngroup: u32) -> usize {
-        let total_bit: u32 = ngroup * u32::from(nbit);
-        let total_octet = (total_bit + 0b111) >> 3;
-        total_octet as usize
+        let total_bit = ngroup as usize * usize::from(nbit);
+        (total_bit + 0b111) >> 3
+    }
+
+    if [
+        nbit,
+        complex_param.group_width_nbit,
+        complex_param.group_len_nbit,
+    ]
+    .iter()
+    .any(|nbit| *nbit > 32)
+    {
+        return Err(GribError::DecodeError(
+            DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::NotSupported),
+        ));
     }
 
     let params_end_octet = sect7_offset;
@@ -126,6 +136,11 @@ fn decode_complex_packing(
         + get_octet_length(complex_param.group_width_nbit, complex_param.ngroup);
     let group_lens_end_octet = group_widths_end_octet
         + get_octet_length(complex_param.group_len_nbit, complex_param.ngroup);
+    if group_lens_end_octet > sect7_data.len() {
+        return Err(GribError::DecodeError(
+            DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::LengthMismatch),
+        ));
+    }
 
     let group_refs_iter = BitStream::new(
         &sect7_data[params_end_octet..group_refs_end_octet],
@@ -146,47 +161,49 @@ fn decode_complex_packing(
     let group_lens_iter = BitStream::new(
         &sect7_data[group_widths_end_octet..group_lens_end_octet],
         usize::from(complex_param.group_len_nbit),
-        (complex_param.ngroup - 1) as usize,
+        complex_param.ngroup.saturating_sub(1) as usize,
     );
     let group_lens_iter = group_lens_iter
-        .take((complex_param.ngroup - 1) as usize)
-        .map(move |v| complex_param.group_len_ref + u32::from(complex_param.group_len_inc) * v)
-        .chain(iter::once(complex_param.group_len_last));
+        .take(complex_param.ngroup.saturating_sub(1) as usize)
+        .map(move |v| {
+            u64::from(complex_param.group_len_ref)
+                + u64::from(complex_param.group_len_inc) * u64::from(v)
+        })
+        .chain(iter::once(complex_param.group_len_last.into()));
 
-    ComplexPackingValueDecodeIterator::new(
+    let groups = ComplexPackingValueDecodeIterator::new(
         group_refs_iter,
         group_widths_iter,
         group_lens_iter,
         complex_param.missing_value_management_used,
         nbit,
         z_min,
-        sect7_data[group_lens_end_octet..].to_vec(),
-    )
-    .flatten()
+        &sect7_data[group_lens_end_octet..],
+    );
+    Ok(groups.flatten())
 }
 
-#[derive(Clone)]
-struct ComplexPackingValueDecodeIterator<I, J, K> {
+struct ComplexPackingValueDecodeIterator<'a, I, J, K> {
     ref_iter: I,
     width_iter: J,
     length_iter: K,
     missing_value_management: u8,
     nbit: u8,
-    z_min: i32,
-    data: Vec<u8>,
+    z_min: i64,
+    data: &'a [u8],
     pos: usize,
     start_offset_bits: usize,
 }
 
-impl<I, J, K> ComplexPackingValueDecodeIterator<I, J, K> {
+impl<'a, I, J, K> ComplexPackingValueDecodeIterator<'a, I, J, K> {
     pub(crate) fn new(
         ref_iter: I,
         width_iter: J,
         length_iter: K,
         missing_value_management: u8,
         nbit: u8,
-        z_min: i32,
-        data: Vec<u8>,
+        z_min: i64,
+        data: &'a [u8],
     ) -> Self {
         Self {
             ref_iter,
@@ -202,72 +219,112 @@ impl<I, J, K> ComplexPackingValueDecodeIterator<I, J, K> {
     }
 }
 
-impl<I, J, K, N, O, P> Iterator for ComplexPackingValueDecodeIterator<I, J, K>
+impl<'a, I, J, K> Iterator for ComplexPackingValueDecodeIterator<'a, I, J, K>
 where
-    I: Iterator<Item = N>,
-    J: Iterator<Item = O>,
-    K: Iterator<Item = P>,
-    N: ToPrimitive,
-    O: ToPrimitive,
-    P: ToPrimitive,
+    I: Iterator<Item = u32>,
+    J: Iterator<Item = u32>,
+    K: Iterator<Item = u64>,
 {
-    type Item = Vec<DecodedValue<i32>>;
+    type Item = GroupValueIterator<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match (
-            self.ref_iter.next(),
-            self.width_iter.next(),
-            self.length_iter.next(),
-        ) {
-            (Some(_ref), Some(width), Some(length)) if width.to_usize().unwrap() == 0 => {
-                // The specification states as follows: "For groups with a constant value,
-                // associated field width is 0, and no incremental data are physically present."
-                let _ref = _ref.to_i32().unwrap();
-                let length = length.to_usize().unwrap();
-                let missing1 = (1 << self.nbit) - 1;
-                let missing2 = missing1 - 1;
+        let _ref = self.ref_iter.next()?;
+        let width = self.width_iter.next()? as usize;
+        let length = self.length_iter.next()? as usize;
+        if self.pos > self.data.len() || width > 32 {
+            // The data of the previous group were cut short, or the group is broken.
+            return None;
+        }
 
-                if self.missing_value_management > 0 && _ref == missing1 {
-                    Some(vec![Missing1; length])
-                } else if self.missing_value_management == 2 && _ref == missing2 {
-                    Some(vec![Missing2; length])
-                } else {
-                    Some(vec![Normal(_ref + self.z_min); length])
-                }
-            }
-            (Some(_ref), Some(width), Some(length)) => {
-                let (_ref, width, length) = (
-                    _ref.to_i32().unwrap(),
-                    width.to_usize().unwrap(),
-                    length.to_usize().unwrap(),
-                );
-                let bits = self.start_offset_bits + width * length;
-                let (pos_end, offset_bits) = (self.pos + bits / 8, bits % 8);
-                let offset_byte = usize::from(offset_bits > 0);
-                let missing1 = (1 << width) - 1;
-                let missing2 = missing1 - 1;
-                let group_values =
-                    NBitwiseIterator::new(&self.data[self.pos..pos_end + offset_byte], width)
-                        .with_offset(self.start_offset_bits)
-                        .take(length)
-                        .map(|v| {
-                            if self.missing_value_management > 0 && v == missing1 {
-                                Missing1
-                            } else if self.missing_value_management == 2 && v == missing2 {
-                                Missing2
-                            } else {
-                                Normal(v.as_grib_int() + _ref + self.z_min)
-                            }
-                        })
-                        .collect::<Vec<_>>();
-                self.pos = pos_end;
-                self.start_offset_bits = offset_bits;
-                Some(group_values)
+        if width == 0 {
+            // The specification states as follows: "For groups with a constant value,
+            // associated field width is 0, and no incremental data are physically present."
+            let value = decode_value(
+                _ref,
+                self.nbit.into(),
+                self.missing_value_management,
+                self.z_min,
+            );
+            Some(GroupValueIterator::Constant(
+                iter::repeat(value).take(length),
+            ))
+        } else {
+            let bits = self.start_offset_bits + width * length;
+            let (pos_end, offset_bits) = (self.pos + bits / 8, bits % 8);
+            let data_end = pos_end + usize::from(offset_bits > 0);
+            let values =
+                NBitwiseIterator::new(&self.data[self.pos..data_end.min(self.data.len())], width)
+                    .with_offset(self.start_offset_bits)
+                    .take(length);
+            self.pos = if data_end > self.data.len() {
+                data_end
+            } else {
+                pos_end
+            };
+            self.start_offset_bits = offset_bits;
+            Some(GroupValueIterator::Packed {
+                values,
+                width,
+                missing_value_management: self.missing_value_management,
+                base: i64::from(_ref) + self.z_min,
+            })
+        }
+    }
+}
+
+enum GroupValueIterator<'a> {
+    Constant(iter::Take<iter::Repeat<DecodedValue<i64>>>),
+    Packed {
+        values: iter::Take<NBitwiseIterator<&'a [u8]>>,
+        width: usize,
+        missing_value_management: u8,
+        base: i64,
+    },
+}
+
+impl Iterator for GroupValueIterator<'_> {
+    type Item = DecodedValue<i64>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        match self {
+            Self::Constant(values) => values.next(),
+            Self::Packed {
+                values,
+                width,
+                missing_value_management,
+                base,
+            } => {
+                let value = values.next()?;
+                Some(decode_value(
+                    value,
+                    *width,
+                    *missing_value_management,
+                    *base,
+                ))
             }
-            _ => None,
         }
     }
 }
 
+// The primary and secondary missing values are the largest and the second
+// largest of the integers having the bit width.
+fn decode_value(
+    value: u32,
+    nbit: usize,
+    missing_value_management: u8,
+    base: i64,
+) -> DecodedValue<i64> {
+    let value = i64::from(value);
+    let missing1 = (1_i64 << nbit) - 1;
+    let missing2 = missing1 - 1;
+    if missing_value_management > 0 && value == missing1 {
+        Missing1
+    } else if missing_value_management == 2 && value == missing2 {
+        Missing2
+    } else {
+        Normal(value + base)
+    }
+}
+
 mod diff;
 mod missing;
diff --git a/src/decoder/complex/diff.rs b/src/decoder/complex/diff.rs
index b7c94c3..a1d07ad 100644
--- a/src/decoder/complex/diff.rs
+++ b/src/decoder/complex/diff.rs
@@ -1,3 +1,8 @@
+use num::{
+    traits::{WrappingAdd, WrappingSub},
+    PrimInt,
+};
+
 use super::{
     missing::DecodedValue::{self, Normal},
     ComplexPackingDecodeError,
@@ -23,10 +28,13 @@ impl<'a> SpatialDifferencingExtraDescriptors<'a> {
         let num_octets = usize::from(num_octets);
         let byte_length = usize::from(spdiff_order + 1) * num_octets;
 
-        Ok(Self {
-            slice: &parent_slice[..byte_length],
-            num_octets,
-        })
+        let slice = parent_slice
+            .get(..byte_length)
+            .ok_or(GribError::DecodeError(
+                DecodeError::ComplexPackingDecodeError(ComplexPackingDecodeError::LengthMismatch),
+            ))?;
+
+        Ok(Self { slice, num_octets })
     }
 
     // total number of octets for descriptors
@@ -79,17 +87,18 @@ impl Iterator for FirstValues<'_, '_> {
     }
 }
 
-pub(crate) enum SpatialDifferencingDecodeIterator<I, J> {
-    FirstOrder(FirstOrderSpatialDifferencingDecodeIterator<I, J>),
-    SecondOrder(SecondOrderSpatialDifferencingDecodeIterator<I, J>),
+pub(crate) enum SpatialDifferencingDecodeIterator<I, J, N> {
+    FirstOrder(FirstOrderSpatialDifferencingDecodeIterator<I, J, N>),
+    SecondOrder(SecondOrderSpatialDifferencingDecodeIterator<I, J, N>),
 }
 
-impl<I, J> Iterator for SpatialDifferencingDecodeIterator<I, J>
+impl<I, J, N> Iterator for SpatialDifferencingDecodeIterator<I, J, N>
 where
-    I: Iterator<Item = DecodedValue<i32>>,
-    J: Iterator<Item = i32>,
+    I: Iterator<Item = DecodedValue<N>>,
+    J: Iterator<Item = N>,
+    N: PrimInt + WrappingAdd + WrappingSub,
 {
-    type Item = DecodedValue<i32>;
+    type Item = DecodedValue<N>;
 
     fn next(&mut self) -> Option<Self::Item> {
         match self {
@@ -99,42 +108,43 @@ where
     }
 }
 
-pub(crate) struct FirstOrderSpatialDifferencingDecodeIterator<I, J> {
+pub(crate) struct FirstOrderSpatialDifferencingDecodeIterator<I, J, N> {
     iter: I,
     first_values: J,
     count: u32,
-    prev: i32,
+    prev: N,
 }
 
-impl<I, J> FirstOrderSpatialDifferencingDecodeIterator<I, J> {
+impl<I, J, N: PrimInt> FirstOrderSpatialDifferencingDecodeIterator<I, J, N> {
     pub(crate) fn new(iter: I, first_values: J) -> Self {
         Self {
             iter,
             first_values,
             count: 0,
-            prev: 0,
+            prev: N::zero(),
         }
     }
 }
 
-impl<I, J> Iterator for FirstOrderSpatialDifferencingDecodeIterator<I, J>
+impl<I, J, N> Iterator for FirstOrderSpatialDifferencingDecodeIterator<I, J, N>
 where
-    I: Iterator<Item = DecodedValue<i32>>,
-    J: Iterator<Item = i32>,
+    I: Iterator<Item = DecodedValue<N>>,
+    J: Iterator<Item = N>,
+    N: PrimInt + WrappingAdd + WrappingSub,
 {
-    type Item = DecodedValue<i32>;
+    type Item = DecodedValue<N>;
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
             None => None,
             Some(Normal(v)) => match self.count {
                 0 => {
-                    self.prev = self.first_values.next().unwrap();
+                    self.prev = self.first_values.next()?;
                     self.count += 1;
                     Some(Normal(self.prev))
                 }
                 _ => {
-                    let v = v + self.prev;
+                    let v = v.wrapping_add(&self.prev);
                     self.prev = v;
                     Some(Normal(v))
                 }
@@ -144,49 +154,53 @@ where
     }
 }
 
-pub(crate) struct SecondOrderSpatialDifferencingDecodeIterator<I, J> {
+pub(crate) struct SecondOrderSpatialDifferencingDecodeIterator<I, J, N> {
     iter: I,
     first_values: J,
     count: u32,
-    prev1: i32,
-    prev2: i32,
+    prev1: N,
+    prev2: N,
 }
 
-impl<I, J> SecondOrderSpatialDifferencingDecodeIterator<I, J> {
+impl<I, J, N: PrimInt> SecondOrderSpatialDifferencingDecodeIterator<I, J, N> {
     pub(crate) fn new(iter: I, first_values: J) -> Self {
         Self {
             iter,
             first_values,
             count: 0,
-            prev1: 0,
-            prev2: 0,
+            prev1: N::zero(),
+            prev2: N::zero(),
         }
     }
 }
 
-impl<I, J> Iterator for SecondOrderSpatialDifferencingDecodeIterator<I, J>
+impl<I, J, N> Iterator for SecondOrderSpatialDifferencingDecodeIterator<I, J, N>
 where
-    I: Iterator<Item = DecodedValue<i32>>,
-    J: Iterator<Item = i32>,
+    I: Iterator<Item = DecodedValue<N>>,
+    J: Iterator<Item = N>,
+    N: PrimInt + WrappingAdd + WrappingSub,
 {
-    type Item = DecodedValue<i32>;
+    type Item = DecodedValue<N>;
 
     fn next(&mut self) -> Option<Self::Item> {
         match self.iter.next() {
             None => None,
             Some(Normal(v)) => match self.count {
                 0 => {
-                    self.prev2 = self.first_values.next().unwrap();
+                    self.prev2 = self.first_values.next()?;
                     self.count += 1;
                     Some(Normal(self.prev2))
                 }
                 1 => {
-                    self.prev1 = self.first_values.next().unwrap();
+                    self.prev1 = self.first_values.next()?;
                     self.count += 1;
                     Some(Normal(self.prev1))
                 }
                 _ => {
-                    let v = v + 2 * self.prev1 - self.prev2;
+                    let v = v
+                        .wrapping_add(&self.prev1)
+                        .wrapping_add(&self.prev1)
+                        .wrapping_sub(&self.prev2);
                     self.prev2 = self.prev1;
                     self.prev1 = v;
                     Some(Normal(v))
-- 
2.43.0


From 7f2e10744c86660dbc76cafcbd35f1f043462380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 10/31] fix: take JPEG 2000 samples only from a component that
 covers the image

---
 src/decoder/jpeg2000.rs     | 11 ++++++++---
 src/decoder/jpeg2000/ext.rs |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index da37cc7..47aa72a 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -77,9 +77,14 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
     let height = value_for_discard_level(height, factor);
 
     if let [comp_gray] = image.components() {
-        let vec = unsafe {
-            std::slice::from_raw_parts(comp_gray.data, (width * height) as usize).to_vec()
-        };
+        if comp_gray.data.is_null() {
+            return Err(Jpeg2000CodeStreamDecodeError::BodyReadError);
+        }
+        if (comp_gray.w, comp_gray.h) != (width, height) {
+            return Err(Jpeg2000CodeStreamDecodeError::LengthMismatch);
+        }
+        let num_samples = width as usize * height as usize;
+        let vec = unsafe { std::slice::from_raw_parts(comp_gray.data, num_samples).to_vec() };
         Ok(vec.into_iter())
     } else {
         Err(Jpeg2000CodeStreamDecodeError::NotSupported)
diff --git a/src/decoder/jpeg2000/ext.rs b/src/decoder/jpeg2000/ext.rs
index 9b71972..d18c9a3 100644
--- a/src/decoder/jpeg2000/ext.rs
+++ b/src/decoder/jpeg2000/ext.rs
@@ -61,6 +61,10 @@ impl Stream {
             let offset = (*user_data).offset;
 
             let bytes_left = len - offset;
+            if bytes_left == 0 {
+                // end of the stream
+                return usize::MAX;
+            }
 
             let bytes_read = std::cmp::min(bytes_left, p_nb_bytes);
 
-- 
2.43.0


From c336421f1fc40e680a502cbff2a94fcd9400519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 11/31] fix: product fields beyond a short section are absent
 instead of a panic

---
 src/datatypes/sections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 242550d..981d9b2 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -437,7 +437,7 @@ impl ProdDefinition {
             let unit = self.payload.get(unit_index).copied();
             let start = unit_index + 1;
             let end = unit_index + 5;
-            let time = u32::from_be_bytes(self.payload[start..end].try_into().unwrap());
+            let time = u32::from_be_bytes(self.payload.get(start..end)?.try_into().unwrap());
             unit.map(|v| ForecastTime::from_numbers(v, time))
         } else {
             None
@@ -488,7 +488,7 @@ impl ProdDefinition {
         let start = index + 2;
         let end = index + 6;
         let scaled_value =
-            u32::from_be_bytes(self.payload[start..end].try_into().unwrap()).as_grib_int();
+            u32::from_be_bytes(self.payload.get(start..end)?.try_into().unwrap()).as_grib_int();
         surface_type
             .zip(scale_factor)
             .map(|(stype, factor)| FixedSurface::new(stype, factor, scaled_value))
-- 
2.43.0


From 19b79b8b6a285fc03f42a2d8c7ed99f7764a6409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 12/31] fix: refuse grid definition sections too short for
 their template

---
 src/datatypes/sections.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/datatypes/sections.rs b/src/datatypes/sections.rs
index 981d9b2..7b02d35 100644
--- a/src/datatypes/sections.rs
+++ b/src/datatypes/sections.rs
@@ -182,6 +182,15 @@ impl GridDefinition {
         let payload = &self.payload;
         read_as!(u16, payload, 7)
     }
+
+    fn template_part(&self, range: std::ops::Range<usize>) -> Result<&[u8], GribError> {
+        self.payload.get(range).ok_or_else(|| {
+            GribError::InvalidValueError(format!(
+                "grid definition section is too short for template {}",
+                self.grid_tmpl_num()
+            ))
+        })
+    }
 }
 
 #[derive(Debug, PartialEq, Eq)]
@@ -275,21 +284,15 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
                     )));
                 }
                 Ok(GridDefinitionTemplateValues::Template0(
-                    LatLonGridDefinition::from_buf(&buf[25..]),
-                ))
-            }
-            20 => {
-                let buf = &value.payload;
-                Ok(GridDefinitionTemplateValues::Template20(
-                    PolarStereographicGridDefinition::from_buf(&buf[9..]),
-                ))
-            }
-            30 => {
-                let buf = &value.payload;
-                Ok(GridDefinitionTemplateValues::Template30(
-                    LambertGridDefinition::from_buf(&buf[9..]),
+                    LatLonGridDefinition::from_buf(value.template_part(25..67)?),
                 ))
             }
+            20 => Ok(GridDefinitionTemplateValues::Template20(
+                PolarStereographicGridDefinition::from_buf(value.template_part(9..60)?),
+            )),
+            30 => Ok(GridDefinitionTemplateValues::Template30(
+                LambertGridDefinition::from_buf(value.template_part(9..68)?),
+            )),
             40 => {
                 let buf = &value.payload;
                 if buf.len() > 67 {
@@ -298,7 +301,7 @@ impl TryFrom<&GridDefinition> for GridDefinitionTemplateValues {
                     )));
                 }
                 Ok(GridDefinitionTemplateValues::Template40(
-                    GaussianGridDefinition::from_buf(&buf[25..]),
+                    GaussianGridDefinition::from_buf(value.template_part(25..67)?),
                 ))
             }
             _ => Err(GribError::NotSupported(format!("template {num}"))),
-- 
2.43.0


From 0341dc4b552e4f32c3bdedce04c208205fb1e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 13/31] fix: compute empty, single-row and single-column grids
 without panicking or NaN

---
 src/context.rs       |  6 +++---
 src/grid.rs          |  2 +-
 src/grid/gaussian.rs | 10 ++++++++--
 src/grid/helpers.rs  | 10 +++++++---
 src/grid/latlon.rs   | 10 ++++++++--
 5 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index b1c43f4..ed85534 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -673,10 +673,10 @@ Data Representation:                    {}
     pub fn latlons(&self) -> Result<GridPointIterator, GribError> {
         let grid_def = self.grid_def();
         let num_defined = grid_def.num_points() as usize;
-        let latlons = GridDefinitionTemplateValues::try_from(grid_def)?.latlons()?;
-        let (num_decoded, _) = latlons.size_hint();
+        let grid = GridDefinitionTemplateValues::try_from(grid_def)?;
+        let (num_decoded, _) = grid.ij()?.size_hint();
         if num_defined == num_decoded {
-            Ok(latlons)
+            grid.latlons()
         } else {
             Err(GribError::InvalidValueError(format!(
                 "number of grid points does not match: {num_defined} (defined) vs {num_decoded} (decoded)"
diff --git a/src/grid.rs b/src/grid.rs
index c77eea0..1adc545 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -78,7 +78,7 @@ impl Iterator for GridPointIndexIterator {
     type Item = (usize, usize);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.major_pos == self.major_len {
+        if self.major_pos == self.major_len || self.minor_len == 0 {
             return None;
         }
 
diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index 9a439d6..e30f2a6 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -65,6 +65,9 @@ impl GaussianGridDefinition {
         }
 
         let ij = self.ij()?;
+        if self.ni == 0 || self.nj == 0 {
+            return Ok(RegularGridIterator::new(Vec::new(), Vec::new(), ij));
+        }
         let mut lat = compute_gaussian_latitudes_in_degrees(self.nj as usize)
             .map_err(|e| GribError::Unknown(e.to_owned()))?;
         if self.scanning_mode.scans_positively_for_j() {
@@ -83,8 +86,11 @@ impl GaussianGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        if self.nj <= 1 && self.last_point_lat == self.first_point_lat {
+            return true;
+        }
+        let increases = self.last_point_lat > self.first_point_lat;
+        !(increases ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
diff --git a/src/grid/helpers.rs b/src/grid/helpers.rs
index 1ec1d55..1cad81d 100644
--- a/src/grid/helpers.rs
+++ b/src/grid/helpers.rs
@@ -11,8 +11,8 @@ pub(crate) fn evenly_spaced_longitudes(
     div: usize,
     scanning_mode: ScanningMode,
 ) -> Vec<f32> {
-    let diff = end_microdegree - start_microdegree;
-    let is_consistent = !((diff > 0) ^ scanning_mode.scans_positively_for_i());
+    let increases = end_microdegree > start_microdegree;
+    let is_consistent = !(increases ^ scanning_mode.scans_positively_for_i());
 
     let (start, end) = (start_microdegree as f32, end_microdegree as f32);
     let (start, end) = if is_consistent {
@@ -39,7 +39,11 @@ pub(crate) fn evenly_spaced_degrees(
     end_microdegree: f32,
     div: usize,
 ) -> Vec<f32> {
-    let delta = (end_microdegree - start_microdegree) / div as f32;
+    let delta = if div == 0 {
+        0.0
+    } else {
+        (end_microdegree - start_microdegree) / div as f32
+    };
     (0..=div)
         .map(move |x| (start_microdegree + x as f32 * delta) / 1_000_000_f32)
         .collect()
diff --git a/src/grid/latlon.rs b/src/grid/latlon.rs
index ca60a1e..85e5c26 100644
--- a/src/grid/latlon.rs
+++ b/src/grid/latlon.rs
@@ -119,6 +119,9 @@ impl LatLonGridDefinition {
         }
 
         let ij = self.ij()?;
+        if self.ni == 0 || self.nj == 0 {
+            return Ok(RegularGridIterator::new(Vec::new(), Vec::new(), ij));
+        }
         let lat = evenly_spaced_degrees(
             self.first_point_lat as f32,
             self.last_point_lat as f32,
@@ -136,8 +139,11 @@ impl LatLonGridDefinition {
     }
 
     pub(crate) fn is_consistent_for_j(&self) -> bool {
-        let lat_diff = self.last_point_lat - self.first_point_lat;
-        !((lat_diff > 0) ^ self.scanning_mode.scans_positively_for_j())
+        if self.nj <= 1 && self.last_point_lat == self.first_point_lat {
+            return true;
+        }
+        let increases = self.last_point_lat > self.first_point_lat;
+        !(increases ^ self.scanning_mode.scans_positively_for_j())
     }
 
     pub(crate) fn from_buf(buf: &[u8]) -> Self {
-- 
2.43.0


From d45831910fe25907692cf43eb67115fa7e5d4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 14/31] fix: refuse JPEG 2000 code streams without the end
 marker

OpenJPEG does not complain about tiles missing from the end of a truncated
code stream and leaves the samples zero, so the values decoded from such
data were wrong without any error.
---
 src/decoder/jpeg2000.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index 47aa72a..fc3dbbf 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -37,6 +37,14 @@ pub(crate) fn decode(
         return Ok(decoder);
     };
 
+    if !has_eoc_marker(&target.sect7_payload) {
+        return Err(GribError::DecodeError(
+            DecodeError::Jpeg2000CodeStreamDecodeError(
+                Jpeg2000CodeStreamDecodeError::BodyReadError,
+            ),
+        ));
+    }
+
     let stream = Stream::from_bytes(&target.sect7_payload)
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
     let jp2_unpacked = decode_jp2(stream)
@@ -46,6 +54,13 @@ pub(crate) fn decode(
     Ok(decoder)
 }
 
+// OpenJPEG leaves tiles blank if they are missing at the end of a truncated code
+// stream, so the presence of the EOC marker needs to be checked. Note that the
+// sequence does not appear in compressed image data.
+fn has_eoc_marker(codestream: &[u8]) -> bool {
+    codestream.windows(2).rev().any(|w| w == [0xff, 0xd9])
+}
+
 fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
     let codec = Codec::j2k()?;
 
-- 
2.43.0


From c12ed0d61c99b7002d8f9a186a64ea8baf42aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 15/31] fix: refuse group widths of complex packing that
 overflow

The reference for group widths added to a group width of 32 bits panicked
where overflow checks are enabled and wrapped around otherwise.
---
 src/decoder/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 11780f6..830d569 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -156,7 +156,7 @@ fn decode_complex_packing(
     );
     let group_widths_iter = group_widths_iter
         .take(complex_param.ngroup as usize)
-        .map(move |v| u32::from(complex_param.group_width_ref) + v);
+        .map(move |v| u32::from(complex_param.group_width_ref).saturating_add(v));
 
     let group_lens_iter = BitStream::new(
         &sect7_data[group_widths_end_octet..group_lens_end_octet],
-- 
2.43.0


From 51509f1572f671a5e1e9e7a8be1c42b8a529e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 16/31] fix: apply the scale factors of Earth radii as powers
 of ten to divide by

---
 src/grid/earth.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/grid/earth.rs b/src/grid/earth.rs
index e526f9b..7ce691d 100644
--- a/src/grid/earth.rs
+++ b/src/grid/earth.rs
@@ -1,4 +1,4 @@
-use crate::helpers::read_as;
+use crate::helpers::{read_as, GribInt};
 
 #[derive(Debug, PartialEq, Eq)]
 pub struct EarthShapeDefinition {
@@ -16,11 +16,10 @@ impl EarthShapeDefinition {
         let radii = match self.shape_of_the_earth {
             0 => (6367470.0, 6367470.0),
             1 => {
-                let radius = f64::from(self.scaled_value_of_radius_of_spherical_earth)
-                    * f64::powf(
-                        10.,
-                        f64::from(self.scale_factor_of_radius_of_spherical_earth),
-                    );
+                let radius = unscaled(
+                    self.scaled_value_of_radius_of_spherical_earth,
+                    self.scale_factor_of_radius_of_spherical_earth,
+                );
                 (radius, radius)
             }
             2 => (6378160.0, 6356775.0),
@@ -39,10 +38,14 @@ impl EarthShapeDefinition {
     }
 
     fn radii_defined(&self) -> (f64, f64) {
-        let major = f64::from(self.scaled_value_of_earth_major_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_major_axis));
-        let minor = f64::from(self.scaled_value_of_earth_minor_axis)
-            * f64::powf(10., f64::from(self.scale_factor_of_earth_minor_axis));
+        let major = unscaled(
+            self.scaled_value_of_earth_major_axis,
+            self.scale_factor_of_earth_major_axis,
+        );
+        let minor = unscaled(
+            self.scaled_value_of_earth_minor_axis,
+            self.scale_factor_of_earth_minor_axis,
+        );
         (major, minor)
     }
 
@@ -66,6 +69,12 @@ impl EarthShapeDefinition {
     }
 }
 
+// The value encoded as a scaled value and a scale factor, which is a
+// sign-magnitude power of 10 to divide by.
+fn unscaled(scaled_value: u32, scale_factor: u8) -> f64 {
+    f64::from(scaled_value) / f64::powi(10., i32::from(scale_factor.as_grib_int()))
+}
+
 #[cfg(test)]
 mod tests {
     use std::{
-- 
2.43.0


From 5583c3a2c7ba77a864717bf7c1834cd650eee098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 17/31] fix: refuse Gaussian grids with other than 2N rows
 instead of misplacing them

---
 src/grid/gaussian.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/grid/gaussian.rs b/src/grid/gaussian.rs
index e30f2a6..d1d34e7 100644
--- a/src/grid/gaussian.rs
+++ b/src/grid/gaussian.rs
@@ -68,6 +68,12 @@ impl GaussianGridDefinition {
         if self.ni == 0 || self.nj == 0 {
             return Ok(RegularGridIterator::new(Vec::new(), Vec::new(), ij));
         }
+        if u64::from(self.nj) != u64::from(self.n) * 2 {
+            return Err(GribError::NotSupported(format!(
+                "Gaussian grid with {} of the parallels for N = {}",
+                self.nj, self.n
+            )));
+        }
         let mut lat = compute_gaussian_latitudes_in_degrees(self.nj as usize)
             .map_err(|e| GribError::Unknown(e.to_owned()))?;
         if self.scanning_mode.scans_positively_for_j() {
-- 
2.43.0


From 866a936dce4abe445275f617d42873baf9796b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 18/31] fix: list more represented values than grid points
 without panicking

---
 cli/src/commands/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index 885d54d..61923b2 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -123,7 +123,7 @@ impl<R> Display for ListView<'_, R> {
                         forecast_time,
                         surfaces.0,
                         surfaces.1,
-                        num_grid_points - num_points_represented,
+                        num_grid_points.saturating_sub(num_points_represented),
                         num_grid_points,
                         grid_type,
                     )?;
-- 
2.43.0


From 0637a299b34d1c2b6087ab2cf7b4ef4936cfb630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 19/31] fix: report message indices out of range instead of
 panicking

---
 cli/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/cli.rs b/cli/src/cli.rs
index 74c0517..aac21d9 100644
--- a/cli/src/cli.rs
+++ b/cli/src/cli.rs
@@ -80,9 +80,9 @@ impl std::str::FromStr for CliMessageIndex {
             )
         })?;
         let message_index = cap.get(1).unwrap();
-        let message_index = usize::from_str(message_index.as_str()).unwrap();
+        let message_index = usize::from_str(message_index.as_str())?;
         let submessage_index = cap.get(2).unwrap();
-        let submessage_index = usize::from_str(submessage_index.as_str()).unwrap();
+        let submessage_index = usize::from_str(submessage_index.as_str())?;
         let inner = (message_index, submessage_index);
         Ok(Self(inner))
     }
-- 
2.43.0


From a989c40c7cb1c9d5d42d9b5546fa43a6df512d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 20/31] fix: report errors in writing the last part of exported
 values

---
 cli/src/commands/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/commands/decode.rs b/cli/src/commands/decode.rs
index 5050629..2e743c9 100644
--- a/cli/src/commands/decode.rs
+++ b/cli/src/commands/decode.rs
@@ -37,7 +37,8 @@ fn write_output(
 ) -> Result<()> {
     File::create(out_path).and_then(|f| {
         let mut stream = BufWriter::new(f);
-        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))
+        values.try_for_each(|f| stream.write_all(&to_bytes(&f)))?;
+        stream.flush()
     })?;
     Ok(())
 }
-- 
2.43.0


From 5da379509c21e5f7257711d1c9065600be93d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 21/31] fix: keep code table titles of several lines inside the
 doc comment

---
 gen/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index a42eb0b..f76c372 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -76,11 +76,12 @@ impl CodeTable {
     }
 
     fn export(&self, name: &str) -> String {
+        let desc = self.desc.split(['\r', '\n']).collect::<Vec<_>>();
         format!(
             "\
 /// {}
 const {}: &[& str] = &{:#?};",
-            self.desc,
+            desc.join("\n/// "),
             name,
             self.to_vec(),
         )
-- 
2.43.0


From 63d94a894a155620de15afc07b14e83236d19a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 22/31] fix: report errors in reading the header of a
 definition file

---
 gen/src/cct_csv.rs            | 2 ++
 gen/src/grib2_codeflag_csv.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/gen/src/cct_csv.rs b/gen/src/cct_csv.rs
index 260f76e..4fe4537 100644
--- a/gen/src/cct_csv.rs
+++ b/gen/src/cct_csv.rs
@@ -80,6 +80,7 @@ impl CodeDB {
     {
         let f = File::open(&path)?;
         let mut reader = csv::Reader::from_reader(f);
+        reader.headers()?; // not reported by `deserialize`
         let mut codetable = CodeTable::new("Common Code Table C-0".to_owned());
 
         for record in reader.deserialize() {
@@ -96,6 +97,7 @@ impl CodeDB {
     {
         let f = File::open(path)?;
         let mut reader = csv::Reader::from_reader(f);
+        reader.headers()?; // not reported by `deserialize`
         let mut codetable = CodeTable::new("Common Code Table C-11".to_owned());
 
         for record in reader.deserialize() {
diff --git a/gen/src/grib2_codeflag_csv.rs b/gen/src/grib2_codeflag_csv.rs
index 7baecf4..fd07fd9 100644
--- a/gen/src/grib2_codeflag_csv.rs
+++ b/gen/src/grib2_codeflag_csv.rs
@@ -72,6 +72,7 @@ impl CodeDB {
     {
         let f = File::open(path)?;
         let mut reader = csv::Reader::from_reader(f);
+        reader.headers()?; // not reported by `deserialize`
         let mut out_tables = Vec::<(OptArg, CodeTable)>::new();
 
         for record in reader.deserialize() {
-- 
2.43.0


From d501d9ad014539c07695f7ada91f9faba287617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 23/31] fix: skip code ranges with their ends exchanged instead
 of panicking

---
 gen/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen/src/lib.rs b/gen/src/lib.rs
index f76c372..74876ae 100644
--- a/gen/src/lib.rs
+++ b/gen/src/lib.rs
@@ -51,6 +51,9 @@ impl FromStr for CodeRange {
 
         let pos = read_hyphen(input, pos)?;
         let (end, _pos) = read_number(input, pos)?;
+        if end < start {
+            return Err(CodeRangeParseError::Descending);
+        }
 
         Ok(CodeRange { start, end })
     }
@@ -59,6 +62,7 @@ impl FromStr for CodeRange {
 pub enum CodeRangeParseError {
     NumberNotFound,
     HyphenNotFound,
+    Descending,
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-- 
2.43.0


From 0bd81317c9c4cf034b6910cdb9c163a9483b6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 24/31] fix: generate an enum that compiles from an empty
 parameter table

---
 codegen/src/lib.rs         | 2 +-
 codegen/src/param_codes.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index a1383ad..4497ba7 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -41,7 +41,7 @@ pub fn parameter_codes(args: TokenStream, input: TokenStream) -> TokenStream {
 
             fn try_from(value: u32) -> Result<Self, Self::Error> {
                 match value {
-                    #mapper,
+                    #mapper
                     _ => Err("code not found")
                 }
             }
diff --git a/codegen/src/param_codes.rs b/codegen/src/param_codes.rs
index ae6ccbb..42678be 100644
--- a/codegen/src/param_codes.rs
+++ b/codegen/src/param_codes.rs
@@ -76,7 +76,7 @@ impl Wgrib2Table {
                 #(#variant_idents),*
             },
             quote! {
-                #(#mapper),*
+                #(#mapper,)*
             },
         )
     }
-- 
2.43.0


From 6c7c811f59aba7fcc291533d55561a6b6bc508f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 25/31] fix: allocate memory for section data as it is read,
 not as its length claims

---
 src/reader.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 901e36e..903be25 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -227,15 +227,15 @@ macro_rules! check_size {
             return Ok(None);
         }
         if $size != $expected_size {
-            return Err(io::Error::new(
-                io::ErrorKind::UnexpectedEof,
-                "failed to fill whole buffer",
-            )
-            .into());
+            return Err(new_unexpected_eof_err().into());
         }
     }};
 }
 
+fn new_unexpected_eof_err() -> io::Error {
+    io::Error::new(io::ErrorKind::UnexpectedEof, "failed to fill whole buffer")
+}
+
 fn new_invalid_length_err(offset: usize) -> ParseError {
     ParseError::ReadError(format!(
         "length stated at {offset} contradicts the message structure"
@@ -339,10 +339,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
         self.seek(SeekFrom::Start(body_offset as u64))?;
 
         let body_size = sect.size - SECT_HEADER_SIZE;
-        let mut buf = vec![0; body_size];
-        self.read_exact(buf.as_mut_slice())?;
-
-        Ok(buf.into_boxed_slice())
+        self.read_slice_without_offset_check(body_size)
     }
 
     fn read_sect6_payload(&mut self, body_size: usize) -> Result<SectionBody, ParseError> {
@@ -354,8 +351,7 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
 
         let len_extra = body_size - buf.len();
         if len_extra > 0 {
-            let mut buf = vec![0; len_extra];
-            self.read_exact(&mut buf[..])?;
+            self.read_slice_without_offset_check(len_extra)?;
         }
 
         Ok(SectionBody::Section6(BitMap {
@@ -370,8 +366,12 @@ impl<R: Read + Seek> Grib2Read for SeekableGrib2Reader<R> {
     }
 
     fn read_slice_without_offset_check(&mut self, size: usize) -> Result<Box<[u8]>, ParseError> {
-        let mut buf = vec![0; size];
-        self.read_exact(&mut buf[..])?;
+        // the size is what the data claims, so memory is not allocated beforehand
+        let mut buf = Vec::new();
+        let read_size = self.take(size as u64).read_to_end(&mut buf)?;
+        if read_size != size {
+            return Err(new_unexpected_eof_err().into());
+        }
         Ok(buf.into_boxed_slice())
     }
 }
-- 
2.43.0


From 4e1054c0075e8f0b875e52da9da7762c663e92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 26/31] fix: check the JPEG 2000 image size before the image is
 allocated

---
 src/decoder/jpeg2000.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/decoder/jpeg2000.rs b/src/decoder/jpeg2000.rs
index fc3dbbf..7f558cb 100644
--- a/src/decoder/jpeg2000.rs
+++ b/src/decoder/jpeg2000.rs
@@ -47,7 +47,7 @@ pub(crate) fn decode(
 
     let stream = Stream::from_bytes(&target.sect7_payload)
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
-    let jp2_unpacked = decode_jp2(stream)
+    let jp2_unpacked = decode_jp2(stream, target.num_points_encoded)
         .map_err(|e| GribError::DecodeError(DecodeError::Jpeg2000CodeStreamDecodeError(e)))?;
     let decoder = SimplePackingDecodeIterator::new(jp2_unpacked, &simple_param);
     let decoder = SimplePackingDecodeIteratorWrapper::SimplePacking(decoder);
@@ -61,7 +61,10 @@ fn has_eoc_marker(codestream: &[u8]) -> bool {
     codestream.windows(2).rev().any(|w| w == [0xff, 0xd9])
 }
 
-fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
+fn decode_jp2(
+    stream: Stream,
+    num_points: usize,
+) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeStreamDecodeError> {
     let codec = Codec::j2k()?;
 
     let mut decode_params = unsafe { std::mem::zeroed::<opj::opj_dparameters>() };
@@ -77,6 +80,11 @@ fn decode_jp2(stream: Stream) -> Result<impl Iterator<Item = i32>, Jpeg2000CodeS
         return Err(Jpeg2000CodeStreamDecodeError::MainHeaderReadError);
     }
 
+    // check this before decoding, which allocates memory for the whole image
+    if u64::from(image.width()) * u64::from(image.height()) > num_points as u64 {
+        return Err(Jpeg2000CodeStreamDecodeError::LengthMismatch);
+    }
+
     if unsafe { opj::opj_decode(codec.0.as_ptr(), stream.0, image.0) } != 1 {
         return Err(Jpeg2000CodeStreamDecodeError::BodyReadError);
     }
-- 
2.43.0


From 0dbdfde91b99f4232fe1b3f06819ba0e5b18459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 27/31] fix: borrow the reader only while a submessage is
 loaded

---
 src/context.rs | 6 +++---
 src/decoder.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index ed85534..3f6b0ca 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use std::{
-    cell::{RefCell, RefMut},
+    cell::RefCell,
     collections::HashSet,
     fmt::{self, Display, Formatter},
     io::{Cursor, Read, Seek},
@@ -321,7 +321,7 @@ impl<'a, R> Iterator for SubmessageIterator<'a, R> {
                 self.new_submessage_section(submessage_index.6)?,
                 self.new_submessage_section(submessage_index.7)?,
                 self.new_submessage_section(submessage_index.8)?,
-                self.context.reader.borrow_mut(),
+                &self.context.reader,
             ),
         ))
     }
@@ -362,7 +362,7 @@ pub struct SubMessage<'a, R>(
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
     pub SubMessageSection<'a>,
-    pub(crate) RefMut<'a, R>,
+    pub(crate) &'a RefCell<R>,
 );
 
 impl<R> SubMessage<'_, R> {
diff --git a/src/decoder.rs b/src/decoder.rs
index 8690f80..af67338 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -77,7 +77,7 @@ impl Grib2SubmessageDecoder {
 
     /// Sets up a decoder for grid point values of `submessage`.
     pub fn from<R: Grib2Read>(submessage: SubMessage<R>) -> Result<Self, GribError> {
-        let mut reader = submessage.9;
+        let mut reader = submessage.9.borrow_mut();
         let sect5 = submessage.5.body;
         let sect6 = submessage.6.body;
         let sect7 = submessage.7.body;
-- 
2.43.0


From c80b420dd454215aa25db55197ee570c52a6d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:36 +0000
Subject: [PATCH 28/31] fix: do not walk through empty groups of complex
 packing that take no bits

---
 src/decoder/complex.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decoder/complex.rs b/src/decoder/complex.rs
index 830d569..8b052fb 100644
--- a/src/decoder/complex.rs
+++ b/src/decoder/complex.rs
@@ -106,7 +106,7 @@ pub(crate) fn decode_7_3(
 }
 
 fn decode_complex_packing(
-    complex_param: ComplexPackingParam,
+    mut complex_param: ComplexPackingParam,
     sect7_data: &[u8],
     sect7_offset: usize,
     nbit: u8,
@@ -130,6 +130,17 @@ fn decode_complex_packing(
         ));
     }
 
+    // The number of groups described in no bits is not limited by the size of
+    // the data. If they are empty, only the last one is of importance.
+    let group_nbit = [
+        nbit,
+        complex_param.group_width_nbit,
+        complex_param.group_len_nbit,
+    ];
+    if group_nbit == [0; 3] && complex_param.group_len_ref == 0 {
+        complex_param.ngroup = complex_param.ngroup.min(1);
+    }
+
     let params_end_octet = sect7_offset;
     let group_refs_end_octet = params_end_octet + get_octet_length(nbit, complex_param.ngroup);
     let group_widths_end_octet = group_refs_end_octet
-- 
2.43.0


From fb342cccd7335283244d76d7c66e9a55936abb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:48 +0000
Subject: [PATCH 29/31] fix: count all lines of list -d and inspect to decide
 whether to page

---
 cli/src/commands/inspect.rs | 3 ++-
 cli/src/commands/list.rs    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/src/commands/inspect.rs b/cli/src/commands/inspect.rs
index 002287c..57b9361 100644
--- a/cli/src/commands/inspect.rs
+++ b/cli/src/commands/inspect.rs
@@ -196,8 +196,9 @@ impl<'i, R> InspectSubMessagesItem<'i, R> {
     }
 
     fn len(&self) -> usize {
+        let header_height = 1;
         let (size, _) = self.data.size_hint();
-        size
+        header_height + size
     }
 }
 
diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index 61923b2..a3591b5 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -55,7 +55,7 @@ impl<R> cli::PredictableNumLines for ListView<'_, R> {
                 header_height + len
             }
             ListViewMode::Dump => {
-                let unit_height = 8; // lines of output from SubMessage.describe(), hard-coded as of now
+                let unit_height = 16; // lines of output from SubMessage.describe(), hard-coded as of now
                 let (len, _) = self.data.size_hint();
                 (unit_height + 2) * len - 1
             }
-- 
2.43.0


From 908e44fce3040a1d9e714bb4dfd1af928323ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:48 +0000
Subject: [PATCH 30/31] fix: report errors in writing to the standard output
 instead of panicking

---
 cli/src/cli.rs                  | 22 +++++++++++++++++++---
 cli/src/commands/completions.rs | 12 +++++++-----
 cli/src/commands/decode.rs      |  3 +--
 cli/src/commands/info.rs        |  4 ++--
 cli/src/commands/inspect.rs     |  3 +--
 cli/src/commands/list.rs        |  4 +---
 6 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/cli/src/cli.rs b/cli/src/cli.rs
index aac21d9..2db9800 100644
--- a/cli/src/cli.rs
+++ b/cli/src/cli.rs
@@ -1,4 +1,8 @@
-use std::{fs::File, io::BufReader, path::Path};
+use std::{
+    fs::File,
+    io::{BufReader, Write},
+    path::Path,
+};
 
 use grib::{Grib2, SeekableGrib2Reader};
 use once_cell::sync::Lazy;
@@ -21,7 +25,7 @@ where
     Ok(grib)
 }
 
-pub(crate) fn display_in_pager<V>(view: V)
+pub(crate) fn display_in_pager<V>(view: V) -> anyhow::Result<()>
 where
     V: PredictableNumLines + std::fmt::Display,
 {
@@ -37,7 +41,19 @@ where
         console::set_colors_enabled(true);
     }
 
-    print!("{view}");
+    print(view)
+}
+
+pub(crate) fn print<V>(view: V) -> anyhow::Result<()>
+where
+    V: std::fmt::Display,
+{
+    let mut stdout = std::io::stdout().lock();
+    match write!(stdout, "{view}").and_then(|()| stdout.flush()) {
+        // The reader (the pager, for example) does not need any more.
+        Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => Ok(()),
+        result => Ok(result?),
+    }
 }
 
 pub(crate) trait PredictableNumLines {
diff --git a/cli/src/commands/completions.rs b/cli/src/commands/completions.rs
index afb2b3d..38a59af 100644
--- a/cli/src/commands/completions.rs
+++ b/cli/src/commands/completions.rs
@@ -2,6 +2,8 @@ use anyhow::Result;
 use clap::{arg, ArgAction, ArgMatches, Command};
 use clap_complete::{generate, Generator, Shell};
 
+use crate::cli;
+
 pub(crate) fn cli() -> Command {
     Command::new("completions")
         .about("Generate shell completions for your shell to stdout")
@@ -12,14 +14,14 @@ pub(crate) fn cli() -> Command {
         )
 }
 
-fn print_completions<G: Generator>(gen: G, cmd: &mut Command) {
-    generate(gen, cmd, cmd.get_name().to_string(), &mut std::io::stdout());
+fn print_completions<G: Generator>(gen: G, cmd: &mut Command) -> Result<()> {
+    let mut script = Vec::new();
+    generate(gen, cmd, cmd.get_name().to_string(), &mut script);
+    cli::print(String::from_utf8_lossy(&script))
 }
 
 pub(crate) fn exec(args: &ArgMatches) -> Result<()> {
     let generator = args.get_one::<Shell>("SHELL").copied().unwrap();
     let mut cmd = crate::app();
-    print_completions(generator, &mut cmd);
-
-    Ok(())
+    print_completions(generator, &mut cmd)
 }
diff --git a/cli/src/commands/decode.rs b/cli/src/commands/decode.rs
index 2e743c9..b22ed54 100644
--- a/cli/src/commands/decode.rs
+++ b/cli/src/commands/decode.rs
@@ -73,8 +73,7 @@ pub fn exec(args: &ArgMatches) -> Result<()> {
             Err(e) => anyhow::bail!("something unexpected happened:: {e}"),
         };
         let values = latlons.zip(values);
-        cli::display_in_pager(DecodeTextDisplay(values));
-        Ok(())
+        cli::display_in_pager(DecodeTextDisplay(values))
     }
 }
 
diff --git a/cli/src/commands/info.rs b/cli/src/commands/info.rs
index 5c5796f..4ea92d5 100644
--- a/cli/src/commands/info.rs
+++ b/cli/src/commands/info.rs
@@ -31,7 +31,7 @@ pub fn exec(args: &ArgMatches) -> anyhow::Result<()> {
         if let (Some(SectionBody::Section0(sect0_body)), Some(SectionBody::Section1(sect1_body))) =
             (&submessage.0.body.body, &submessage.1.body.body)
         {
-            print!(
+            cli::print(format_args!(
                 "{}",
                 InfoView(
                     message_index.0,
@@ -39,7 +39,7 @@ pub fn exec(args: &ArgMatches) -> anyhow::Result<()> {
                     sect1_body,
                     sect1_body.ref_time()?
                 )
-            );
+            ))?;
         }
     }
     Ok(())
diff --git a/cli/src/commands/inspect.rs b/cli/src/commands/inspect.rs
index 57b9361..2f35177 100644
--- a/cli/src/commands/inspect.rs
+++ b/cli/src/commands/inspect.rs
@@ -65,8 +65,7 @@ pub fn exec(args: &ArgMatches) -> anyhow::Result<()> {
         view.add(InspectItem::Templates(InspectTemplatesItem::new(tmpls)));
     }
 
-    cli::display_in_pager(view);
-    Ok(())
+    cli::display_in_pager(view)
 }
 
 struct InspectView<'i, R> {
diff --git a/cli/src/commands/list.rs b/cli/src/commands/list.rs
index a3591b5..a71be4b 100644
--- a/cli/src/commands/list.rs
+++ b/cli/src/commands/list.rs
@@ -30,9 +30,7 @@ pub fn exec(args: &ArgMatches) -> anyhow::Result<()> {
         ListViewMode::OneLine
     };
     let view = ListView::new(grib.submessages(), mode);
-    cli::display_in_pager(view);
-
-    Ok(())
+    cli::display_in_pager(view)
 }
 
 struct ListView<'i, R> {
-- 
2.43.0


From 580a2b436eb624809c6db54d36f7fd9bd011c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:14 +0000
Subject: [PATCH 31/31] fix: refuse simple packing of more than 32 bits

---
 src/decoder/simple.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decoder/simple.rs b/src/decoder/simple.rs
index 4c7d70c..9d370a2 100644
--- a/src/decoder/simple.rs
+++ b/src/decoder/simple.rs
@@ -4,7 +4,7 @@ use crate::{
     decoder::{
         param::SimplePackingParam,
         stream::{FixedValueIterator, NBitwiseIterator},
-        Grib2SubmessageDecoder,
+        DecodeError, Grib2SubmessageDecoder,
     },
     error::*,
 };
@@ -50,6 +50,12 @@ pub(crate) fn decode(
 ) -> Result<SimplePackingDecodeIteratorWrapper<impl Iterator<Item = u32> + '_>, GribError> {
     let param = SimplePackingParam::from_buf(target.sect5_octets(6..16)?)?;
 
+    if param.nbit > 32 {
+        return Err(GribError::DecodeError(
+            DecodeError::SimplePackingDecodeError(SimplePackingDecodeError::NotSupported),
+        ));
+    }
+
     let decoder = if param.nbit == 0 {
         SimplePackingDecodeIteratorWrapper::FixedValue(FixedValueIterator::new(
             param.zero_bit_reference_value(),
-- 
2.43.0

