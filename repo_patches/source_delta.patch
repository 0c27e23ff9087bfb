From 00e742f9205a8662e47885b7faa28643e1b89ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 01/93] fix: find PBO entries that are stored with forward
 slashes

Archives written by other tools can store '/' in entry names. Lookups
normalised only the requested name, so such entries could never be found
and recomputing the checksum of the archive panicked.
---
 libs/pbo/src/read.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2090b8d..c7d364e 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -77,7 +77,7 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn header(&self, name: &str) -> Option<&Header> {
         self.headers
             .iter()
-            .find(|h| h.filename() == name.replace('/', "\\"))
+            .find(|h| h.filename().replace('/', "\\") == name.replace('/', "\\"))
     }
 
     /// Get the PBO's properties
@@ -113,7 +113,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn file(&mut self, name: &str) -> Result<Option<File<I>>, Error> {
         self.input.seek(SeekFrom::Start(self.blob_start))?;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if header.filename().replace('/', "\\").to_lowercase()
+                == name.replace('/', "\\").to_lowercase()
+            {
                 return Ok(Some(File::new(header, &mut self.input)));
             }
             self.input
@@ -129,7 +131,9 @@ impl<I: Seek + Read> ReadablePbo<I> {
     pub fn file_offset(&self, name: &str) -> Result<Option<u64>, Error> {
         let mut offset = self.blob_start;
         for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+            if header.filename().replace('/', "\\").to_lowercase()
+                == name.replace('/', "\\").to_lowercase()
+            {
                 return Ok(Some(offset));
             }
             offset += header.size() as u64;
-- 
2.43.0


From 8070cb116441e3c30d6b75206bdfc0cffdcb7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 02/93] fix: checksum of PBOs without a properties section

The terminator of the properties was hashed even when the PBO has no
properties section, so the recomputed checksum never matched.
---
 libs/pbo/src/read.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index c7d364e..a5eda6e 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -181,22 +181,22 @@ impl<I: Seek + Read> ReadablePbo<I> {
         let mut headers: Cursor<Vec<u8>> = Cursor::new(Vec::new());
         if let Some(vers_header) = &self.vers_header {
             vers_header.write_pbo(&mut headers)?;
-        }
 
-        if let Some(prefix) = self.properties.get("prefix") {
-            headers.write_cstring(b"prefix")?;
-            headers.write_cstring(prefix)?;
-        }
+            if let Some(prefix) = self.properties.get("prefix") {
+                headers.write_cstring(b"prefix")?;
+                headers.write_cstring(prefix)?;
+            }
 
-        for (key, value) in &self.properties {
-            if key == "prefix" {
-                continue;
+            for (key, value) in &self.properties {
+                if key == "prefix" {
+                    continue;
+                }
+                headers.write_cstring(key.as_bytes())?;
+                headers.write_cstring(value.as_bytes())?;
             }
-            headers.write_cstring(key.as_bytes())?;
-            headers.write_cstring(value.as_bytes())?;
-        }
 
-        headers.write_all(&[0])?;
+            headers.write_all(&[0])?;
+        }
 
         for header in &self.files_sorted() {
             header.write_pbo(&mut headers)?;
-- 
2.43.0


From db14bc9a616775ba7d3d82edf0b374d0b7f43335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 03/93] fix: reject signatures made by a different key with the
 same authority

Verification used the modulus and exponent stored in the signature itself,
so anyone could sign a modified PBO with a fresh key of the same name and
have it accepted by the genuine public key.
---
 bin/src/utils/verify.rs    | 3 +++
 libs/signing/src/error.rs  | 4 ++++
 libs/signing/src/public.rs | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/bin/src/utils/verify.rs b/bin/src/utils/verify.rs
index 8e244b9..027075a 100644
--- a/bin/src/utils/verify.rs
+++ b/bin/src/utils/verify.rs
@@ -71,6 +71,9 @@ pub fn execute(cmd: &Command) -> Result<(), Error> {
         Err(hemtt_signing::Error::AuthorityMismatch { .. }) => {
             error!("Verification Failed: Authority does not match");
         }
+        Err(hemtt_signing::Error::KeyMismatch) => {
+            error!("Verification Failed: Signature was made by a different key");
+        }
         Err(hemtt_signing::Error::HashMismatch { .. }) => {
             error!("Verification Failed: Signature does not match");
         }
diff --git a/libs/signing/src/error.rs b/libs/signing/src/error.rs
index b7fc81e..449f638 100644
--- a/libs/signing/src/error.rs
+++ b/libs/signing/src/error.rs
@@ -41,6 +41,10 @@ pub enum Error {
         key: String,
     },
 
+    #[error("Key mismatch")]
+    /// The signature was made by a different key with the same authority
+    KeyMismatch,
+
     #[error("Unknown signature version {0}")]
     /// Unknown signature version
     UknownBISignVersion(u32),
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 1e62b17..dc03db1 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -116,6 +116,11 @@ impl BIPublicKey {
             });
         }
 
+        // The signature must be made by this key, not just by a key with the same name
+        if self.n != signature.n || self.exponent != signature.exponent {
+            return Err(Error::KeyMismatch);
+        }
+
         if pbo.is_sorted().is_err() {
             return Err(Error::InvalidFileSorting);
         }
-- 
2.43.0


From 27de9562266fa94b190c052798565f4be19ae5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 04/93] fix: report malformed key and signature files instead
 of panicking

---
 libs/signing/src/lib.rs       | 5 +++++
 libs/signing/src/public.rs    | 7 +++----
 libs/signing/src/signature.rs | 7 +++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/libs/signing/src/lib.rs b/libs/signing/src/lib.rs
index c8cb967..a8e94fb 100644
--- a/libs/signing/src/lib.rs
+++ b/libs/signing/src/lib.rs
@@ -61,6 +61,11 @@ pub fn generate_hashes<I: Seek + Read>(
     version: BISignVersion,
     length: u32,
 ) -> Result<(BigUint, BigUint, BigUint), Error> {
+    // the padded hash does not fit into shorter keys
+    if length / 8 < 38 {
+        return Err(Error::InvalidLength);
+    }
+
     let mut hasher = Sha1::new();
     let hash1 = pbo.gen_checksum()?;
 
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index dc03db1..d08f0d1 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -74,9 +74,6 @@ impl BIPublicKey {
     ///
     /// # Errors
     /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the public key is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -86,7 +83,9 @@ impl BIPublicKey {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index af52b13..b6437d2 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -108,9 +108,6 @@ impl BISign {
     ///
     /// # Errors
     /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the signature is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -120,7 +117,9 @@ impl BISign {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
-- 
2.43.0


From 881f990f30d2171fcd592bea4a34079a0169188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 05/93] fix: refuse LZO output buffers that are too small
 instead of overflowing them

The compressor does not check the output length. Both safe wrappers wrote
past the end of a buffer smaller than the worst case.
---
 libs/lzo/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/lzo/src/lib.rs b/libs/lzo/src/lib.rs
index b4bb667..6227cfe 100644
--- a/libs/lzo/src/lib.rs
+++ b/libs/lzo/src/lib.rs
@@ -50,6 +50,9 @@ pub enum LzoError {
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
+    if output.capacity() < worst_compress(input.len()) {
+        return Err(LzoError::OutputOverrun);
+    }
     unsafe {
         let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
         let mut out_len = output.capacity();
@@ -78,6 +81,9 @@ pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress_to_slice<'a>(in_: &[u8], out: &'a mut [u8]) -> Result<&'a mut [u8], LzoError> {
+    if out.len() < worst_compress(in_.len()) {
+        return Err(LzoError::OutputOverrun);
+    }
     unsafe {
         let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
         let mut out_len = out.len();
-- 
2.43.0


From 401492e46b33b0f695b76aa4dd2106eb0ea73f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 06/93] fix: refuse images that a PAA can not hold instead of
 panicking or truncating

---
 libs/paa/src/paa.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index e00241a..09bce65 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -106,9 +106,22 @@ impl Paa {
     /// Write the Paa to the given output
     ///
     /// # Errors
-    /// [`std::io::Error`] if the output is not writable
+    /// [`std::io::Error`] if the output is not writable, or the image does not fit in a Paa
     pub fn write(image: &RgbaImage, output: &mut impl Write) -> Result<(), Error> {
         let algo: Format = PaXType::DXT5.clone().into();
+        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
+        // The high bit of the width marks a compressed MipMap, and the size is a u24
+        if image.width() == 0
+            || image.height() == 0
+            || image.width() > 0x7fff
+            || image.height() > 0xffff
+            || size > 0x00ff_ffff
+        {
+            return Err(Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "image dimensions can not be stored in a paa",
+            ));
+        }
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
@@ -166,7 +179,6 @@ impl Paa {
         // Write main image
         output.write_u16::<LittleEndian>(image.width() as u16)?;
         output.write_u16::<LittleEndian>(image.height() as u16)?;
-        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
         output.write_u24::<LittleEndian>(size as u32)?;
         let mut buffer = vec![0; size];
         algo.compress(
-- 
2.43.0


From af660d94563259e7b632221a1c76c1a6fcc9a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 07/93] fix: decode compressed PAA mipmaps whose size is not a
 multiple of four

---
 libs/paa/src/mipmap.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 6c46873..132acdf 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -84,11 +84,10 @@ impl MipMap {
             width_2 -= 32768;
             true
         };
-        let mut img_size: u32 = u32::from(width_2) * u32::from(self.height);
-        if self.format == Format::Bc1 {
-            img_size /= 2;
-        }
-        let mut buffer: Box<[u8]> = vec![0; img_size as usize].into_boxed_slice();
+        let img_size = self
+            .format
+            .compressed_size(usize::from(width_2), usize::from(self.height));
+        let mut buffer: Box<[u8]> = vec![0; img_size].into_boxed_slice();
         let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
-- 
2.43.0


From 630f96d78d5989e4fc82057a2c39a2c327c52fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 08/93] fix: report unsupported and truncated PAA files instead
 of panicking or over-allocating

---
 libs/paa/src/paa.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index 09bce65..02050a4 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -74,14 +74,25 @@ impl Paa {
                         .to_string()
                 };
                 paa.taggs.insert(name, {
-                    let mut buffer: Box<[u8]> =
-                        vec![0; (input.read_u32::<LittleEndian>()?) as usize].into_boxed_slice();
-                    input.read_exact(&mut buffer)?;
-                    buffer.to_vec()
+                    let length = u64::from(input.read_u32::<LittleEndian>()?);
+                    let mut buffer = Vec::new();
+                    if input.by_ref().take(length).read_to_end(&mut buffer)? as u64 != length {
+                        return Err(std::io::ErrorKind::UnexpectedEof.into());
+                    }
+                    buffer
                 });
             }
             // Read MipMaps
             if let Some(offs) = paa.taggs.get("SFFO") {
+                let format = match paa.format {
+                    PaXType::DXT1 | PaXType::DXT3 | PaXType::DXT5 => paa.format.clone().into(),
+                    _ => {
+                        return Err(Error::new(
+                            std::io::ErrorKind::Unsupported,
+                            format!("unsupported paa format: {}", paa.format),
+                        ))
+                    }
+                };
                 for i in 0..(offs.len() / 4) {
                     let mut seek: [u8; 4] = [0; 4];
                     let p = i * 4;
@@ -90,7 +101,7 @@ impl Paa {
                     if seek != 0 {
                         input.seek(SeekFrom::Start(u64::from(seek)))?;
                         paa.maps
-                            .push(MipMap::from_stream(paa.format.clone().into(), &mut input)?);
+                            .push(MipMap::from_stream(format, &mut input)?);
                     }
                 }
             }
-- 
2.43.0


From e73f0cf26e9482a6282106eceb82d3c9fa0d60e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 09/93] fix: report write errors of the last buffered part of a
 P3D

---
 libs/p3d/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index d10547a..b9f2245 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -77,6 +77,8 @@ impl P3D {
             lod.write(&mut writer)?;
         }
 
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From b1e043d2c53df696ed2c1fc4622bdf2069355c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 10/93] fix: do not allocate what a malformed P3D asks for
 before reading it

---
 libs/p3d/src/lib.rs |  2 +-
 libs/p3d/src/lod.rs | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index b9f2245..3670d9e 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -49,7 +49,7 @@ impl P3D {
 
         let version = reader.read_u32::<LittleEndian>()?;
         let num_lods = reader.read_u32::<LittleEndian>()?;
-        let mut lods: Vec<LOD> = Vec::with_capacity(num_lods as usize);
+        let mut lods: Vec<LOD> = Vec::new();
 
         for _i in 0..num_lods {
             lods.push(LOD::read(&mut reader)?);
diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 4724aa6..86e8dd8 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -40,9 +40,9 @@ impl LOD {
 
         input.bytes().nth(3);
 
-        let mut points: Vec<Point> = Vec::with_capacity(num_points as usize);
-        let mut face_normals: Vec<(f32, f32, f32)> = Vec::with_capacity(num_face_normals as usize);
-        let mut faces: Vec<Face> = Vec::with_capacity(num_faces as usize);
+        let mut points: Vec<Point> = Vec::new();
+        let mut face_normals: Vec<(f32, f32, f32)> = Vec::new();
+        let mut faces: Vec<Face> = Vec::new();
 
         for _i in 0..num_points {
             points.push(Point::read(input)?);
@@ -74,8 +74,16 @@ impl LOD {
 
             let name = input.read_cstring()?;
             let size = input.read_u32::<LittleEndian>()?;
-            let mut buffer = vec![0; size as usize].into_boxed_slice();
-            input.read_exact(&mut buffer)?;
+            let mut buffer = Vec::new();
+            if input
+                .by_ref()
+                .take(u64::from(size))
+                .read_to_end(&mut buffer)?
+                != size as usize
+            {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+            let buffer = buffer.into_boxed_slice();
 
             if name == "#EndOfFile#" {
                 break;
-- 
2.43.0


From 4d44522c0ce94dc976ceea0c8ac18bcf4ec2aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 11/93] fix: refuse compressed integers that do not fit in 32
 bits

---
 libs/common/src/io.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/common/src/io.rs b/libs/common/src/io.rs
index b670c90..0b1a782 100644
--- a/libs/common/src/io.rs
+++ b/libs/common/src/io.rs
@@ -50,6 +50,12 @@ impl<T: Read> ReadExt for T {
         let mut result: u32 = 0;
         for (i, byte) in self.bytes().enumerate() {
             let b: u32 = byte?.into();
+            if i > 4 || (i == 4 && b > 0x0f) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "compressed integer does not fit in 32 bits",
+                ));
+            }
             result |= (b & 0x7f) << (i * 7);
             if b < 0x80 {
                 break;
-- 
2.43.0


From a6e6503a88b18e173156e7cb18ddbb98e3689f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 12/93] fix: decode PAA mipmaps whose height is not a multiple
 of four

---
 libs/paa/src/mipmap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 132acdf..2e74b1d 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -88,7 +88,9 @@ impl MipMap {
             .format
             .compressed_size(usize::from(width_2), usize::from(self.height));
         let mut buffer: Box<[u8]> = vec![0; img_size].into_boxed_slice();
-        let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
+        // blocks are decompressed four rows at a time
+        let rows = usize::from(self.height).div_ceil(4) * 4;
+        let mut out_buffer = vec![0u8; 4 * usize::from(width_2) * rows];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
             self.format.decompress(
@@ -105,6 +107,7 @@ impl MipMap {
                 &mut out_buffer,
             );
         };
+        out_buffer.truncate(4 * usize::from(width_2) * usize::from(self.height));
         image::DynamicImage::ImageRgba8(
             image::RgbaImage::from_raw(u32::from(width_2), u32::from(self.height), out_buffer)
                 .expect("paa should contain valid image data"),
-- 
2.43.0


From 2fcb31ae1ad732655ab691675c73c586ce7e9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 13/93] fix: strip_prefix_insensitive on text with multi-byte
 characters

---
 libs/common/src/strip.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/common/src/strip.rs b/libs/common/src/strip.rs
index 3e5497d..c86dee1 100644
--- a/libs/common/src/strip.rs
+++ b/libs/common/src/strip.rs
@@ -5,10 +5,7 @@ pub trait StripInsensitive {
 
 impl StripInsensitive for str {
     fn strip_prefix_insensitive(&self, prefix: &str) -> Option<&str> {
-        if self.len() < prefix.len() {
-            return None;
-        }
-        if self[..prefix.len()].eq_ignore_ascii_case(prefix) {
+        if self.get(..prefix.len())?.eq_ignore_ascii_case(prefix) {
             Some(&self[prefix.len()..])
         } else {
             None
-- 
2.43.0


From 48af6b3a060dfe864bbad1bb2bdd1cd3a5d40cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 14/93] fix: refuse a prefix file with an empty prefix

---
 libs/common/src/prefix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/common/src/prefix.rs b/libs/common/src/prefix.rs
index bfd9536..9a41f68 100644
--- a/libs/common/src/prefix.rs
+++ b/libs/common/src/prefix.rs
@@ -57,6 +57,9 @@ impl Prefix {
                 let key = split.0.trim().to_lowercase();
                 if key == "prefix" {
                     let content = split.1.trim();
+                    if content.is_empty() {
+                        return Err(Error::Empty);
+                    }
                     if content.starts_with('\\') {
                         return Err(Error::InvalidPrefix(content.to_string()));
                     }
-- 
2.43.0


From 2d3942382b091e3a1aff83a7347d1620ff13743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 15/93] fix: write the pdrive option as it is read

---
 libs/common/src/config/pdrive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/pdrive.rs b/libs/common/src/config/pdrive.rs
index 5af2154..556df76 100644
--- a/libs/common/src/config/pdrive.rs
+++ b/libs/common/src/config/pdrive.rs
@@ -33,7 +33,7 @@ impl Serialize for PDriveOption {
         match self {
             Self::Disallow => serializer.serialize_str("disallow"),
             Self::Ignore => serializer.serialize_str("ignore"),
-            Self::Require => serializer.serialize_str("required"),
+            Self::Require => serializer.serialize_str("require"),
         }
     }
 }
-- 
2.43.0


From 3b6d54da21339d79f7b0b4578532f2417fcc6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 16/93] fix: detect stringtable lints in both project.toml and
 lints.toml

---
 libs/common/src/config/project/lint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/lint.rs b/libs/common/src/config/project/lint.rs
index 42b34f6..66da836 100644
--- a/libs/common/src/config/project/lint.rs
+++ b/libs/common/src/config/project/lint.rs
@@ -32,7 +32,7 @@ impl LintGroupConfig {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.config.is_empty() && self.sqf.is_empty()
+        self.config.is_empty() && self.sqf.is_empty() && self.stringtables.is_empty()
     }
 }
 
-- 
2.43.0


From 367439a98c693495b508ead8eb6f0259184093f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 17/93] fix: do not panic when git_hash is longer than the hash

---
 libs/common/src/config/project/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/version.rs b/libs/common/src/config/project/version.rs
index ddd6a98..51e7f04 100644
--- a/libs/common/src/config/project/version.rs
+++ b/libs/common/src/config/project/version.rs
@@ -43,7 +43,7 @@ impl VersionConfig {
             let repo = Repository::discover(".")?;
             let rev = repo.revparse_single("HEAD")?;
             let id = rev.id().to_string();
-            version.set_build(&id[0..length as usize]);
+            version.set_build(&id[0..id.len().min(length as usize)]);
         };
 
         unsafe {
-- 
2.43.0


From 69fc3e9a537713be1570fd4993bfcbc353bdad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 18/93] fix: carry into the major version when converting from
 a number

---
 libs/common/src/version.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/common/src/version.rs b/libs/common/src/version.rs
index 53932ed..fcabe56 100644
--- a/libs/common/src/version.rs
+++ b/libs/common/src/version.rs
@@ -169,6 +169,9 @@ impl From<f32> for Version {
     fn from(version: f32) -> Self {
         let integer = version as u32;
         let decimal = (version.fract() * 100.0).round() as u32;
+        if decimal >= 100 {
+            return Self::new(integer.saturating_add(1), 0, 0, None);
+        }
         Self::new(integer, decimal, 0, None)
     }
 }
-- 
2.43.0


From c653975844fae7793f6886253a138e261e1b6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 19/93] fix: report launch configurations that extend each
 other in a circle

---
 libs/common/src/config/project/hemtt/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/common/src/config/project/hemtt/mod.rs b/libs/common/src/config/project/hemtt/mod.rs
index 5ed768c..e2d0363 100644
--- a/libs/common/src/config/project/hemtt/mod.rs
+++ b/libs/common/src/config/project/hemtt/mod.rs
@@ -4,7 +4,10 @@ pub mod dev;
 pub mod launch;
 pub mod release;
 
-use std::{collections::HashMap, path::Path};
+use std::{
+    collections::{HashMap, HashSet},
+    path::Path,
+};
 
 use launch::LaunchOptions;
 use serde::{Deserialize, Serialize};
@@ -102,9 +105,10 @@ impl HemttSectionFile {
                     .into_iter()
                     .map(|(k, v)| {
                         let mut base = v;
+                        let mut visited = HashSet::from([k.clone()]);
                         while let Some(extends) = &base.extends {
-                            if extends == &k {
-                                return Err(Error::LaunchConfigExtendsSelf(k));
+                            if !visited.insert(extends.clone()) {
+                                return Err(Error::LaunchConfigExtendsSelf(extends.clone()));
                             }
                             if let Some(extends) = launch_source.get(extends) {
                                 base = base.extend(extends.clone());
-- 
2.43.0


From 01412d7a17dccaaeba681698fee43ac6a0beef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 20/93] fix: report truncated compressed integers

---
 libs/common/src/io.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/common/src/io.rs b/libs/common/src/io.rs
index 0b1a782..bc5d4d2 100644
--- a/libs/common/src/io.rs
+++ b/libs/common/src/io.rs
@@ -48,6 +48,7 @@ impl<T: Read> ReadExt for T {
 
     fn read_compressed_int(&mut self) -> io::Result<u32> {
         let mut result: u32 = 0;
+        let mut complete = false;
         for (i, byte) in self.bytes().enumerate() {
             let b: u32 = byte?.into();
             if i > 4 || (i == 4 && b > 0x0f) {
@@ -58,9 +59,13 @@ impl<T: Read> ReadExt for T {
             }
             result |= (b & 0x7f) << (i * 7);
             if b < 0x80 {
+                complete = true;
                 break;
             }
         }
+        if !complete {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(result)
     }
 }
-- 
2.43.0


From 5283df1a4c1612f72333604465572f4e1ab28e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 21/93] fix: evaluate leading negative numbers and refuse
 malformed expressions

---
 libs/common/src/math.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index c7a7389..55c485e 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -25,7 +25,13 @@ fn shunting_yard(expression: &str) -> Option<Vec<Token>> {
 
     let tokens = tokenize(expression).ok()?;
 
+    let mut expect_operand = true;
     for token in tokens {
+        let operand = matches!(token, Token::Number(_) | Token::LeftParenthesis);
+        if operand != expect_operand {
+            return None;
+        }
+        expect_operand = matches!(token, Token::Operator(_) | Token::LeftParenthesis);
         match token {
             Token::Number(_) => output_queue.push(token),
             Token::Operator(op) => {
@@ -134,7 +140,7 @@ fn tokenize(expression: &str) -> Result<Vec<Token>, String> {
                     '-' => {
                         if matches!(
                             tokens.last(),
-                            Some(Token::Operator(_) | Token::LeftParenthesis)
+                            None | Some(Token::Operator(_) | Token::LeftParenthesis)
                         ) {
                             current_number.push(c);
                         } else {
-- 
2.43.0


From 710aa93e3e9b347689584163b1fcebb670e99d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 22/93] fix: track #else per #if and refuse it outside of one

---
 libs/preprocessor/src/ifstate.rs | 52 ++++++++++++--------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/libs/preprocessor/src/ifstate.rs b/libs/preprocessor/src/ifstate.rs
index de0412c..57ee488 100644
--- a/libs/preprocessor/src/ifstate.rs
+++ b/libs/preprocessor/src/ifstate.rs
@@ -2,7 +2,10 @@ use std::sync::Arc;
 
 use hemtt_workspace::reporting::Token;
 
-use crate::{codes::pe17_double_else::DoubleElse, Error};
+use crate::{
+    codes::{pe17_double_else::DoubleElse, pe1_unexpected_token::UnexpectedToken},
+    Error,
+};
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum IfState {
@@ -34,22 +37,20 @@ impl IfState {
 
 #[derive(Clone, Default, Debug, Eq, PartialEq)]
 pub struct IfStates {
-    stack: Vec<IfState>,
-    did_else: Option<Arc<Token>>,
+    /// The open `#if`s, and the `#else` of each if there was one
+    stack: Vec<(IfState, Option<Arc<Token>>)>,
 }
 
 impl IfStates {
     pub fn reading(&self) -> bool {
-        self.stack.is_empty() || self.stack.iter().all(IfState::reading)
+        self.stack.iter().all(|(state, _)| state.reading())
     }
 
     pub fn push(&mut self, s: IfState) {
-        self.did_else = None;
-        self.stack.push(s);
+        self.stack.push((s, None));
     }
 
     pub fn push_if(&mut self, token: Arc<Token>, state: bool) {
-        self.did_else = None;
         if state {
             self.push(IfState::ReadingIf(token));
         } else {
@@ -58,39 +59,26 @@ impl IfStates {
     }
 
     pub fn pop(&mut self) -> Option<IfState> {
-        self.did_else = None;
-        self.stack.pop()
+        self.stack.pop().map(|(state, _)| state)
     }
 
     pub fn flip(&mut self, token: Arc<Token>) -> Result<(), Error> {
-        if let Some(previous) = self.did_else.take() {
+        let Some((state, did_else)) = self.stack.last_mut() else {
+            return Err(UnexpectedToken::code(token.as_ref().clone(), Vec::new()));
+        };
+        if let Some(previous) = did_else {
             return Err(DoubleElse::code(
                 token.as_ref().clone(),
                 previous.as_ref().clone(),
-                self.stack
-                    .last()
-                    .expect("did_else should only be Some if there is a last element in the stack")
-                    .token()
-                    .as_ref()
-                    .clone(),
+                state.token().as_ref().clone(),
             ));
         }
-        if self
-            .stack
-            .iter()
-            .take(self.stack.len() - 1)
-            .all(IfState::reading)
-        {
-            if let Some(new) = match self.pop() {
-                Some(IfState::PassingChild(t)) => Some(IfState::PassingChild(t)),
-                Some(IfState::PassingIf(t)) => Some(IfState::ReadingElse(t)),
-                Some(IfState::ReadingIf(t)) => Some(IfState::PassingElse(t)),
-                Some(IfState::PassingElse(_) | IfState::ReadingElse(_)) | None => None,
-            } {
-                self.push(new);
-            }
-        }
-        self.did_else = Some(token);
+        *did_else = Some(token);
+        *state = match state.clone() {
+            IfState::PassingIf(t) => IfState::ReadingElse(t),
+            IfState::ReadingIf(t) => IfState::PassingElse(t),
+            state => state,
+        };
         Ok(())
     }
 }
-- 
2.43.0


From 6cd4038dae9ad005412ad6a525efdfc9f8b10444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 23/93] fix: report a macro without its arguments at the end of
 another macro

---
 libs/preprocessor/src/processor/defines.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 7c49671..ed42220 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -35,12 +35,8 @@ impl Processor {
         pragma: &mut Pragma,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<Option<Vec<Vec<Arc<Token>>>>, Error> {
-        if !stream
-            .peek()
-            .expect("peeked by caller")
-            .symbol()
-            .is_left_paren()
-        {
+        // a macro at the end of another macro's body is not followed by anything
+        if !stream.peek().is_some_and(|t| t.symbol().is_left_paren()) {
             return Ok(None);
         }
         stream.next().expect("peeked above");
@@ -301,11 +297,7 @@ impl Processor {
                 return Err(ExpectedFunctionOrValue::code(
                     ident.as_ref().clone(),
                     source.as_ref().clone(),
-                    stream
-                        .peek()
-                        .expect("peeked by caller")
-                        .symbol()
-                        .is_left_paren(),
+                    stream.peek().is_some_and(|t| t.symbol().is_left_paren()),
                 ));
             }
         };
-- 
2.43.0


From 009b922161d3da1a068c0017fed0c95b35b28f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 24/93] fix: report macro calls that are not closed

---
 libs/preprocessor/src/processor/defines.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index ed42220..f22cd64 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -10,7 +10,8 @@ use crate::{
     codes::{
         pe10_function_as_value::FunctionAsValue,
         pe11_expected_function_or_value::ExpectedFunctionOrValue,
-        pe1_unexpected_token::UnexpectedToken, pe5_define_multitoken_argument::DefineMissingComma,
+        pe1_unexpected_token::UnexpectedToken, pe2_unexpected_eof::UnexpectedEOF,
+        pe5_define_multitoken_argument::DefineMissingComma,
         pe9_function_call_argument_count::FunctionCallArgumentCount, pw3_padded_arg::PaddedArg,
     },
     defines::DefineSource,
@@ -39,12 +40,15 @@ impl Processor {
         if !stream.peek().is_some_and(|t| t.symbol().is_left_paren()) {
             return Ok(None);
         }
-        stream.next().expect("peeked above");
+        let open = stream.next().expect("peeked above");
         let mut quotes = false;
         let mut depth = 0;
         let mut args = Vec::new();
         let mut arg = Vec::new();
-        while let Some(token) = stream.peek() {
+        loop {
+            let Some(token) = stream.peek().filter(|t| !t.symbol().is_eoi()) else {
+                return Err(UnexpectedEOF::code(open.as_ref().clone()));
+            };
             let symbol = token.symbol();
             if quotes {
                 if symbol.is_double_quote() {
-- 
2.43.0


From d12f27a032a35d65bea824e28613ff28fb2958a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 25/93] fix: keep an empty last argument of a macro call

---
 libs/preprocessor/src/processor/defines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index f22cd64..007fad2 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -88,7 +88,7 @@ impl Processor {
             }
             arg.push(stream.next().expect("peeked above"));
         }
-        if !arg.is_empty() {
+        if !arg.is_empty() || !args.is_empty() {
             args.push(arg);
         }
         Ok(Some(args))
-- 
2.43.0


From 2d8cf5f11d8f49443800f9701be2405170cb4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 26/93] fix: do not expand macros within their own expansion

---
 libs/preprocessor/src/defines.rs           |  7 +++++++
 libs/preprocessor/src/processor/defines.rs |  6 +++++-
 libs/preprocessor/src/processor/mod.rs     | 13 ++++++++++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 827fc05..abc42ec 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -91,6 +91,13 @@ impl Defines {
         self.global.contains_key(key)
     }
 
+    /// Is the key an argument of the current macro
+    pub fn is_argument(&self, key: &str) -> bool {
+        self.stack
+            .last()
+            .is_some_and(|(_, args)| args.contains_key(key))
+    }
+
     #[allow(clippy::too_many_lines)]
     pub fn get_with_gen(
         &mut self,
diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 007fad2..f4f0a1d 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -58,7 +58,7 @@ impl Processor {
                 continue;
             }
             if let Symbol::Word(word) = symbol {
-                if self.defines.contains_key(word) {
+                if self.expands(word) {
                     let mut inner = Vec::new();
                     self.define_use(callsite, pragma, stream, &mut inner)?;
                     arg.append(
@@ -263,6 +263,7 @@ impl Processor {
                     );
                 }
                 self.defines.push(&ident_string, arg_defines);
+                self.expanding.push(ident_string.clone());
                 let mut layer = Vec::new();
                 self.walk(
                     Some(callsite),
@@ -272,6 +273,7 @@ impl Processor {
                     &mut layer,
                 )?;
                 buffer.push(Output::Macro(ident.clone(), layer));
+                self.expanding.pop();
                 self.defines.pop();
             }
             #[allow(clippy::needless_collect)] // causes recursion at runtime otherwise
@@ -285,6 +287,7 @@ impl Processor {
                 } else {
                     let mut layer = Vec::new();
                     let body: Vec<_> = body.into_iter().filter(|t| !t.symbol().is_join()).collect();
+                    self.expanding.push(ident_string.clone());
                     self.walk(
                         Some(callsite),
                         Some(&ident_string),
@@ -292,6 +295,7 @@ impl Processor {
                         &mut body.into_iter().peekmore(),
                         &mut layer,
                     )?;
+                    self.expanding.pop();
                     buffer.push(Output::Macro(ident.clone(), layer));
                 }
             }
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index f92c8f6..14f190d 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -38,6 +38,9 @@ pub struct Processor {
 
     macros: HashMap<String, Vec<Position>>,
 
+    /// Names of the macros that are currently being expanded
+    expanding: Vec<String>,
+
     #[cfg(feature = "lsp")]
     /// Map of token usage to definition
     /// (token, definition)
@@ -160,7 +163,7 @@ impl Processor {
                         return Err(BuiltInNotSupported::code((**token).clone()));
                     }
                     just_whitespace = false;
-                    if Some(w.as_str()) != in_macro && self.defines.contains_key(w) {
+                    if Some(w.as_str()) != in_macro && self.expands(w) {
                         let token = token.clone();
                         self.define_use(
                             callsite.unwrap_or_else(|| token.position()),
@@ -240,6 +243,14 @@ impl Processor {
         Ok(())
     }
 
+    /// Is the word a macro that should be expanded here
+    ///
+    /// Macros are not expanded again within their own expansion
+    pub(crate) fn expands(&self, word: &str) -> bool {
+        self.defines.contains_key(word)
+            && (self.defines.is_argument(word) || !self.expanding.iter().any(|e| e == word))
+    }
+
     /// Returns the current word, consuming it from the stream
     ///
     /// # Errors
-- 
2.43.0


From 615fec97488c9c8424dc74cac326ac932f3f8275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 27/93] fix: #if at the end of a file

---
 libs/preprocessor/src/processor/directives.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 59c0997..95d1103 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -333,7 +333,10 @@ impl Processor {
                     .peek()
                     .expect("peeked in the if statement, so there should be a token")
                     .clone();
-                if token.symbol().is_whitespace() || token.symbol().is_newline() {
+                if token.symbol().is_whitespace()
+                    || token.symbol().is_newline()
+                    || token.symbol().is_eoi()
+                {
                     break;
                 }
                 tokens.push(token);
@@ -397,7 +400,9 @@ impl Processor {
         self.skip_whitespace(stream, None);
         #[allow(unused_assignments)]
         let mut operators = Vec::new();
-        let (right, right_defined) = if stream.peek().map(|t| t.symbol()) == Some(&Symbol::Newline)
+        let (right, right_defined) = if stream
+            .peek()
+            .is_some_and(|t| t.symbol().is_newline() || t.symbol().is_eoi())
         {
             let pos = stream
                 .peek()
-- 
2.43.0


From 88a708d2f1bbe57159116630d96355806456233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 28/93] fix: report includes that are nested without end

---
 .../src/codes/pe27_include_depth.rs           | 45 +++++++++++++++++++
 libs/preprocessor/src/processor/directives.rs | 14 ++++--
 2 files changed, 55 insertions(+), 4 deletions(-)
 create mode 100644 libs/preprocessor/src/codes/pe27_include_depth.rs

diff --git a/libs/preprocessor/src/codes/pe27_include_depth.rs b/libs/preprocessor/src/codes/pe27_include_depth.rs
new file mode 100644
index 0000000..c494e87
--- /dev/null
+++ b/libs/preprocessor/src/codes/pe27_include_depth.rs
@@ -0,0 +1,45 @@
+use std::sync::Arc;
+
+use hemtt_workspace::reporting::{Code, Token};
+
+use crate::Error;
+
+/// Includes are nested too deep, most likely a file includes itself
+pub struct IncludeDepth {
+    /// The [`Token`] of the include directive
+    token: Box<Token>,
+}
+
+impl Code for IncludeDepth {
+    fn ident(&self) -> &'static str {
+        "PE27"
+    }
+
+    fn token(&self) -> Option<&Token> {
+        Some(&self.token)
+    }
+
+    fn message(&self) -> String {
+        "includes are nested too deep".to_string()
+    }
+
+    fn label_message(&self) -> String {
+        "included here".to_string()
+    }
+
+    fn help(&self) -> Option<String> {
+        Some("a file that includes itself needs an include guard".to_string())
+    }
+}
+
+impl IncludeDepth {
+    #[must_use]
+    pub const fn new(token: Box<Token>) -> Self {
+        Self { token }
+    }
+
+    #[must_use]
+    pub fn code(token: Token) -> Error {
+        Error::Code(Arc::new(Self::new(Box::new(token))))
+    }
+}
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 95d1103..17647ed 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -15,10 +15,10 @@ use crate::{
         pe15_if_invalid_operator::IfInvalidOperator,
         pe16_if_incompatible_types::IfIncompatibleType, pe19_pragma_unknown::PragmaUnknown,
         pe20_pragma_invalid_scope::PragmaInvalidScope, pe23_if_has_include::IfHasInclude,
-        pe2_unexpected_eof::UnexpectedEOF, pe3_expected_ident::ExpectedIdent,
-        pe4_unknown_directive::UnknownDirective, pe6_change_builtin::ChangeBuiltin,
-        pe7_if_unit_or_function::IfUnitOrFunction, pe8_if_undefined::IfUndefined,
-        pw1_redefine::RedefineMacro, pw4_include_case::IncludeCase,
+        pe27_include_depth::IncludeDepth, pe2_unexpected_eof::UnexpectedEOF,
+        pe3_expected_ident::ExpectedIdent, pe4_unknown_directive::UnknownDirective,
+        pe6_change_builtin::ChangeBuiltin, pe7_if_unit_or_function::IfUnitOrFunction,
+        pe8_if_undefined::IfUndefined, pw1_redefine::RedefineMacro, pw4_include_case::IncludeCase,
     },
     defines::{DefineSource, Defines},
     definition::{Definition, FunctionDefinition},
@@ -32,6 +32,9 @@ use super::{
     Processor,
 };
 
+/// How deep includes can be nested
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 impl Processor {
     pub(crate) fn directive(
         &mut self,
@@ -63,6 +66,9 @@ impl Processor {
         let command_word = command.symbol().to_string();
         match (command_word.as_str(), self.ifstates.reading()) {
             ("include", true) => {
+                if self.file_stack.len() > MAX_INCLUDE_DEPTH {
+                    return Err(IncludeDepth::code(command.as_ref().clone()));
+                }
                 self.directive_include(pragma, stream, buffer)?;
                 Ok(())
             }
-- 
2.43.0


From 673692a2e115cbde2affe0b9fc9108f7456e1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 29/93] fix: keep a hash sign at the start of a line that is
 not a directive

---
 libs/preprocessor/src/processor/directives.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 17647ed..8b81381 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -42,16 +42,12 @@ impl Processor {
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: &mut Vec<Output>,
     ) -> Result<bool, Error> {
-        if let Some(token) = stream.peek() {
-            if token.symbol().is_directive() {
-                stream.next();
-                if let Some(command) = stream.peek() {
-                    if command.symbol().is_word() {
-                        self.directive_command(pragma, stream, buffer)?;
-                        return Ok(true);
-                    }
-                }
-            }
+        if stream.peek().is_some_and(|t| t.symbol().is_directive())
+            && stream.peek_nth(1).is_some_and(|t| t.symbol().is_word())
+        {
+            stream.next();
+            self.directive_command(pragma, stream, buffer)?;
+            return Ok(true);
         }
         Ok(false)
     }
-- 
2.43.0


From a8a9a6f14074ea0a366413757efeef5c5fb2b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 30/93] fix: block comment starts within strings and line
 comments

---
 libs/preprocessor/src/parse/mod.rs | 96 +++++++++++++++---------------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index ba8a21e..60896be 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -25,8 +25,6 @@ pub struct PreprocessorParser;
 /// If the file is invalid
 pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     let source = path.read_to_string()?;
-    let pairs = PreprocessorParser::parse(Rule::file, &source)
-        .map_err(|e| ParsingFailed::code(e, path.clone()))?;
     let mut tokens = Vec::new();
     let mut line = 1;
     let mut col = 0;
@@ -34,74 +32,76 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     let mut in_single_string = false;
     let mut in_double_string = false;
     let mut skipping_comment = false;
-    for pair in pairs {
-        let start = LineCol(offset, (line, col));
-        match pair.as_rule() {
-            Rule::newline => {
-                if skipping_comment {
+    'parse: loop {
+        let pairs = PreprocessorParser::parse(Rule::file, &source[offset..])
+            .map_err(|e| ParsingFailed::code(e, path.clone()))?;
+        for pair in pairs {
+            let start = LineCol(offset, (line, col));
+            match pair.as_rule() {
+                Rule::newline => {
                     skipping_comment = false;
+                    line += 1;
+                    col = 0;
                 }
-                line += 1;
-                col = 0;
-            }
-            Rule::COMMENT => {
-                if in_single_string || in_double_string {
+                Rule::EOI => skipping_comment = false,
+                Rule::COMMENT if skipping_comment || in_single_string || in_double_string => {
+                    // not a comment here, so a block does not end strings or span lines
+                    let text = pair.as_str();
+                    let (text, restart) = if text.contains(['"', '\'', '\r', '\n']) {
+                        (&text[..2], true)
+                    } else {
+                        (text, false)
+                    };
+                    offset += text.len();
+                    col += text.len();
                     if !skipping_comment {
                         tokens.push(Arc::new(Token::new(
-                            Symbol::Word(pair.as_str().to_string()),
-                            Position::new(
-                                start,
-                                LineCol(start.0 + 2, (start.1 .0 + 2, start.1 .1 + 2)),
-                                path.clone(),
-                            ),
+                            Symbol::Word(text.to_string()),
+                            Position::new(start, LineCol(offset, (line, col)), path.clone()),
                         )));
                     }
-                } else {
+                    if restart {
+                        continue 'parse;
+                    }
+                    continue;
+                }
+                Rule::COMMENT => {
                     let lines = pair.as_str().split('\n').collect::<Vec<_>>();
                     let count = lines.len() - 1;
                     line += count;
+                    let last = lines.last().expect("split always has one").len();
                     if count > 0 {
-                        col = lines
-                            .last()
-                            .expect("exists because count is greater than 0")
-                            .len()
-                            + 1;
+                        col = last;
                     } else {
-                        col = 0;
+                        col += last;
                     }
                     if pair.as_str() == "//" {
                         // skip to end of line
                         skipping_comment = true;
                     }
                 }
-            }
-            Rule::single_quote => {
-                if !skipping_comment && !in_double_string {
-                    in_single_string = !in_single_string;
-                    col += 1;
-                }
-            }
-            Rule::double_quote => {
-                if !skipping_comment && !in_single_string {
-                    in_double_string = !in_double_string;
-                    col += 1;
+                rule => {
+                    if rule == Rule::single_quote && !skipping_comment && !in_double_string {
+                        in_single_string = !in_single_string;
+                    }
+                    if rule == Rule::double_quote && !skipping_comment && !in_single_string {
+                        in_double_string = !in_double_string;
+                    }
+                    col += pair.as_str().len();
                 }
             }
-            _ => {
-                col += pair.as_str().len();
+            offset += pair.as_str().len();
+            if skipping_comment {
+                continue;
             }
+            let end = LineCol(offset, (line, col));
+            tokens.push(Arc::new(Token::new(
+                Symbol::to_symbol(pair),
+                Position::new(start, end, path.clone()),
+            )));
         }
-        offset += pair.as_str().len();
-        if skipping_comment {
-            continue;
-        }
-        let end = LineCol(offset, (line, col));
-        tokens.push(Arc::new(Token::new(
-            Symbol::to_symbol(pair),
-            Position::new(start, end, path.clone()),
-        )));
+        return Ok(tokens);
     }
-    Ok(tokens)
 }
 
 trait Parse {
-- 
2.43.0


From d084939daca7e48d99c7077e11dad3382cdfd4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 31/93] fix: pragma flags of a line end with the line

---
 libs/preprocessor/src/processor/pragma.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/preprocessor/src/processor/pragma.rs b/libs/preprocessor/src/processor/pragma.rs
index e985b3c..3c1db0a 100644
--- a/libs/preprocessor/src/processor/pragma.rs
+++ b/libs/preprocessor/src/processor/pragma.rs
@@ -52,6 +52,7 @@ impl Pragma {
 
     pub fn clear_line(&mut self) {
         self.suppress.retain(|_, v| *v as u8 > Scope::Line as u8);
+        self.flags.retain(|_, v| *v as u8 > Scope::Line as u8);
     }
 
     pub fn is_suppressed(&self, code: &Suppress) -> bool {
-- 
2.43.0


From 5fbe0b65b789c4e52722760be57b33aaca31f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 32/93] fix: define the constants __ARMA__ and __ARMA3__

---
 libs/preprocessor/src/defines.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index abc42ec..7ea4e88 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -77,7 +77,7 @@ impl Defines {
     }
 
     pub fn contains_key(&self, key: &str) -> bool {
-        if BUILTIN_GEN.contains(&key) {
+        if BUILTIN_GEN.contains(&key) || BUILTIN_CONST.iter().any(|(k, _)| *k == key) {
             return true;
         }
         if let Some(last) = self.stack.last() {
@@ -105,6 +105,16 @@ impl Defines {
         site: Option<&Position>,
     ) -> Option<(Arc<Token>, Definition, DefineSource)> {
         let ident = key.to_string();
+        if let Some((_, value)) = BUILTIN_CONST.iter().find(|(k, _)| *k == ident) {
+            return Some((
+                key.clone(),
+                Definition::Value(vec![Arc::new(Token::new(
+                    Symbol::Digit((*value).into()),
+                    key.position().clone(),
+                ))]),
+                DefineSource::Generated,
+            ));
+        }
         if let Some(site) = site {
             if BUILTIN_GEN.contains(&ident.as_str()) {
                 match ident.as_str() {
-- 
2.43.0


From 8e26fe43623613a47aafa4248192c704d0f7df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 33/93] fix: __COUNTER__ beyond 65535

---
 libs/preprocessor/src/defines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 7ea4e88..f07c65e 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -23,7 +23,7 @@ type InnerDefines = HashMap<Arc<str>, (Arc<Token>, Definition, DefineSource)>;
 pub struct Defines {
     global: InnerDefines,
     stack: Vec<(Arc<str>, InnerDefines)>,
-    counter: u16,
+    counter: usize,
 }
 
 /// Built-in macros that HEMTT supports, constants
@@ -124,7 +124,7 @@ impl Defines {
                         return Some((
                             key.clone(),
                             Definition::Value(vec![Arc::new(Token::new(
-                                Symbol::Digit(counter.into()),
+                                Symbol::Digit(counter),
                                 key.position().clone(),
                             ))]),
                             DefineSource::Generated,
-- 
2.43.0


From b2d591f566b9c2e91b4c290c27465cca10c9e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 34/93] fix: directives without operands in the body of a macro

---
 libs/preprocessor/src/processor/directives.rs | 21 +++++++++++--------
 libs/preprocessor/src/processor/mod.rs        |  7 ++++++-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 8b81381..227be74 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -69,11 +69,11 @@ impl Processor {
                 Ok(())
             }
             ("define", true) => {
-                self.directive_define(stream)?;
+                self.directive_define(&command, stream)?;
                 Ok(())
             }
             ("undef", true) => {
-                self.directive_undef(stream)?;
+                self.directive_undef(&command, stream)?;
                 Ok(())
             }
             ("if", true) => {
@@ -98,11 +98,12 @@ impl Processor {
                 Ok(())
             }
             ("pragma", true) => {
-                if self.next_word(stream, None)?.to_string() != "hemtt" {
+                let tool = self.next_word(&command, stream, None)?;
+                if tool.to_string() != "hemtt" {
                     self.skip_to_after_newline(stream, None);
                     return Ok(());
                 }
-                let command = self.next_word(stream, None)?;
+                let command = self.next_word(&tool, stream, None)?;
                 match command.to_string().as_str() {
                     "suppress" => {
                         let (code, scope) = self.read_pragma(&command, pragma, stream)?;
@@ -130,9 +131,9 @@ impl Processor {
         pragma: &Pragma,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(Arc<Token>, Scope), Error> {
-        let code = self.next_word(stream, None)?;
+        let code = self.next_word(command, stream, None)?;
         let mut hit_end = false;
-        let scope_token = self.next_word(stream, None).unwrap_or_else(|_| {
+        let scope_token = self.next_word(&code, stream, None).unwrap_or_else(|_| {
             hit_end = true;
             Arc::new(Token::new(
                 Symbol::Word("line".to_string()),
@@ -237,9 +238,10 @@ impl Processor {
 
     pub(crate) fn directive_define(
         &mut self,
+        command: &Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(command, stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
@@ -308,9 +310,10 @@ impl Processor {
 
     pub(crate) fn directive_undef(
         &mut self,
+        command: &Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(command, stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
@@ -497,7 +500,7 @@ impl Processor {
         outcome: bool,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
     ) -> Result<(), Error> {
-        let ident = self.next_word(stream, None)?;
+        let ident = self.next_word(&command, stream, None)?;
         if !ident.symbol().is_word() {
             return Err(ExpectedIdent::code(ident.as_ref().clone()));
         }
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 14f190d..14106c6 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -275,14 +275,19 @@ impl Processor {
     /// Skips whitespace, returning the next word and consuming it from the stream
     ///
     /// # Errors
-    /// - [`UnexpectedEOF`]: If the stream is at the end of the file
+    /// - [`UnexpectedEOF`]: If the stream is at the end of the file, or there is nothing after the previous token
     /// - [`ExpectedIdent`]: If the stream is not at a word
     fn next_word(
         &mut self,
+        previous: &Arc<Token>,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: Option<&mut Vec<Output>>,
     ) -> Result<Arc<Token>, Error> {
         self.skip_whitespace(stream, buffer);
+        if stream.peek().is_none() {
+            // the body of a macro ended
+            return Err(UnexpectedEOF::code(previous.as_ref().clone()));
+        }
         Self::current_word(stream)
     }
 
-- 
2.43.0


From d09d300da7bc00320d518ac43e13f450144e476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 35/93] fix: #include and #if without anything after them in
 the body of a macro

---
 libs/preprocessor/src/processor/directives.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 227be74..73ceec5 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -65,7 +65,7 @@ impl Processor {
                 if self.file_stack.len() > MAX_INCLUDE_DEPTH {
                     return Err(IncludeDepth::code(command.as_ref().clone()));
                 }
-                self.directive_include(pragma, stream, buffer)?;
+                self.directive_include(&command, pragma, stream, buffer)?;
                 Ok(())
             }
             ("define", true) => {
@@ -155,12 +155,15 @@ impl Processor {
     #[allow(clippy::needless_pass_by_ref_mut)]
     pub(crate) fn directive_include(
         &mut self,
+        command: &Arc<Token>,
         pragma: &mut Pragma,
         stream: &mut PeekMoreIterator<impl Iterator<Item = Arc<Token>>>,
         buffer: &mut Vec<Output>,
     ) -> Result<(), Error> {
         self.skip_whitespace(stream, None);
-        let open = stream.next().expect("was peeked in directive()");
+        let Some(open) = stream.next() else {
+            return Err(UnexpectedEOF::code(command.as_ref().clone()));
+        };
         if !open.symbol().is_include_enclosure() {
             return Err(IncludeNotEncased::code(
                 open.as_ref().clone(),
@@ -407,13 +410,12 @@ impl Processor {
         let mut operators = Vec::new();
         let (right, right_defined) = if stream
             .peek()
-            .is_some_and(|t| t.symbol().is_newline() || t.symbol().is_eoi())
+            .is_none_or(|t| t.symbol().is_newline() || t.symbol().is_eoi())
         {
-            let pos = stream
-                .peek()
-                .expect("peeked in the if statement, so there should be a token")
-                .position()
-                .clone();
+            let pos = stream.peek().map_or_else(
+                || command.position().clone(),
+                |token| token.position().clone(),
+            );
             if !left_defined {
                 return Err(IfUndefined::code(left[0].as_ref().clone(), &self.defines));
             }
-- 
2.43.0


From bbfd2f2c9fd1a1d1d75f1f5390051fd83217738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 36/93] fix: resolve paths by the innermost prefix when
 prefixes are within one another

---
 libs/workspace/src/path.rs | 52 +++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 06712e7..da3338d 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -136,10 +136,14 @@ impl WorkspacePath {
     pub fn as_virtual_str(&self) -> String {
         let mut path = self.data.path.as_str().replace('\\', "/");
         let path_lower = path.to_lowercase();
-        if let Some((base, root)) =
-            self.data.workspace.pointers.iter().find(|(_, vfs)| {
-                path_lower.starts_with(&format!("{}/", vfs.as_str().to_lowercase()))
-            })
+        // the innermost prefix counts when addons are within one another
+        if let Some((base, root)) = self
+            .data
+            .workspace
+            .pointers
+            .iter()
+            .filter(|(_, vfs)| path_lower.starts_with(&format!("{}/", vfs.as_str().to_lowercase())))
+            .max_by_key(|(base, vfs)| (vfs.as_str().len(), *base))
         {
             path = format!("{}{}", base, &path[root.as_str().len()..].to_string());
         }
@@ -245,13 +249,16 @@ impl WorkspacePath {
                     },
                 }));
             }
-            if let Some((base, root)) = self
+            // prefixes can be within one another, the innermost comes first
+            let mut pointers = self
                 .data
                 .workspace
                 .pointers
                 .iter()
-                .find(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
-            {
+                .filter(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .collect::<Vec<_>>();
+            pointers.sort_by_key(|(p, _)| std::cmp::Reverse(p.len()));
+            for (base, root) in &pointers {
                 let ret_path = root.join(
                     path.strip_prefix_insensitive(base)
                         .unwrap_or(&path)
@@ -288,20 +295,23 @@ impl WorkspacePath {
                         },
                     }));
                 }
-            } else if let Some(insensitive) = exists_case_insensitive(Path::new(&path)) {
-                return Ok(Some(LocateResult {
-                    case_mismatch: Some(insensitive.to_string_lossy().to_string()),
-                    path: Self {
-                        data: Arc::new(WorkspacePathData {
-                            path: self
-                                .data
-                                .workspace
-                                .vfs
-                                .join(insensitive.to_str().expect("utf-8"))?,
-                            workspace: self.data.workspace.clone(),
-                        }),
-                    },
-                }));
+            }
+            if pointers.is_empty() {
+                if let Some(insensitive) = exists_case_insensitive(Path::new(&path)) {
+                    return Ok(Some(LocateResult {
+                        case_mismatch: Some(insensitive.to_string_lossy().to_string()),
+                        path: Self {
+                            data: Arc::new(WorkspacePathData {
+                                path: self
+                                    .data
+                                    .workspace
+                                    .vfs
+                                    .join(insensitive.to_str().expect("utf-8"))?,
+                                workspace: self.data.workspace.clone(),
+                            }),
+                        },
+                    }));
+                }
             }
         }
         let ret_path = self.data.path.parent().join(&path)?;
-- 
2.43.0


From 266e8ff38d326cc2da7ace516eec38ee3b68eccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 37/93] fix: place diagnostics at the end of files, in empty
 files and across files

---
 .../workspace/src/reporting/diagnostic/mod.rs | 27 ++++++++++++-------
 libs/workspace/src/reporting/files.rs         | 10 ++++---
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index 1c6088e..a49edea 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -66,19 +66,28 @@ impl Diagnostic {
         let mut diag = Self::new(code.ident(), code.message()).set_severity(code.severity());
 
         // Error out out bounds, will never show, just use last char
-        if span.start == processed.as_str().len() {
-            span.start = processed.as_str().len() - 1;
-            span.end = processed.as_str().len() - 1;
+        let len = processed.as_str().chars().count();
+        if span.start >= len {
+            span.start = len.saturating_sub(1);
+            span.end = len.saturating_sub(1);
         }
         let map_start = processed.mapping(span.start)?;
-        let map_end = processed.mapping(span.end)?;
+        // A span can end at the end of the output
+        let map_end = processed
+            .mapping(span.end)
+            .or_else(|| processed.mapping(len.saturating_sub(1)))?;
         let map_file = processed.source(map_start.source())?;
+        // A span can end in another file, or at a macro that is defined earlier
+        let original_end = if map_end.source() == map_start.source()
+            && map_end.original_start() >= map_start.original_start()
+        {
+            map_end.original_start()
+        } else {
+            map_start.original_end()
+        };
         diag.labels.push(
-            Label::primary(
-                map_file.0.clone(),
-                map_start.original_start()..map_end.original_start(),
-            )
-            .with_message(code.label_message()),
+            Label::primary(map_file.0.clone(), map_start.original_start()..original_end)
+                .with_message(code.label_message()),
         );
         diag.link = code.link().map(std::string::ToString::to_string);
         if let Some(note) = code.note() {
diff --git a/libs/workspace/src/reporting/files.rs b/libs/workspace/src/reporting/files.rs
index 9206d52..dfa1842 100644
--- a/libs/workspace/src/reporting/files.rs
+++ b/libs/workspace/src/reporting/files.rs
@@ -55,17 +55,21 @@ impl WorkspaceFiles {
             .entry(file_id.clone())
             .or_insert_with(|| {
                 let source = file_id.read_to_string().unwrap_or_default();
-                let line_starts = source
+                let mut line_starts = source
                     .lines()
                     .scan(0, |pos, line| {
                         let start = *pos;
                         *pos += line.len() + 1;
                         Some(start)
                     })
-                    .collect();
+                    .collect::<Vec<_>>();
+                if line_starts.is_empty() {
+                    // an empty file still has a line
+                    line_starts.push(0);
+                }
                 WorkspaceFile {
                     source: source.into(),
-                    line_starts,
+                    line_starts: line_starts.into(),
                 }
             })
             .clone()
-- 
2.43.0


From c8af28c86e122c09b3da057ac7d1328e204b5043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 38/93] fix: config numbers beyond 64 bits are floats instead
 of saturating

---
 libs/config/src/model/number.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/config/src/model/number.rs b/libs/config/src/model/number.rs
index d7beec7..4007887 100644
--- a/libs/config/src/model/number.rs
+++ b/libs/config/src/model/number.rs
@@ -39,10 +39,14 @@ impl Number {
                     span,
                 });
             }
-            return Some(Self::Int64 {
-                value: value as i64,
-                span,
-            });
+            // exclusive at the end, 2^63 does not fit
+            #[allow(clippy::cast_precision_loss)]
+            if value >= i64::MIN as f64 && value < i64::MAX as f64 {
+                return Some(Self::Int64 {
+                    value: value as i64,
+                    span,
+                });
+            }
         }
         Some(Self::Float32 {
             value: value as f32,
-- 
2.43.0


From da2b52ec6e4dad2f18f789b3b4b3b0fbd081f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 39/93] fix: integer requiredVersion in CfgPatches was ignored

---
 libs/config/src/model/config.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libs/config/src/model/config.rs b/libs/config/src/model/config.rs
index 727ca3c..7b8bac0 100644
--- a/libs/config/src/model/config.rs
+++ b/libs/config/src/model/config.rs
@@ -35,9 +35,19 @@ impl Config {
                             for property in properties {
                                 if let Property::Entry { name, value, .. } = property {
                                     if name.as_str().to_lowercase() == "requiredversion" {
-                                        if let Value::Number(Number::Float32 { value, .. }) = value
-                                        {
-                                            required_version = Version::from(*value);
+                                        match value {
+                                            Value::Number(Number::Float32 { value, .. }) => {
+                                                required_version = Version::from(*value);
+                                            }
+                                            Value::Number(Number::Int32 { value, .. }) => {
+                                                required_version = Version::new(
+                                                    u32::try_from(*value).unwrap_or_default(),
+                                                    0,
+                                                    0,
+                                                    None,
+                                                );
+                                            }
+                                            _ => {}
                                         }
                                     }
                                 }
-- 
2.43.0


From 3841a4fadd08a92dfd217308ff7c5ab11dd2d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 40/93] fix: config strings whose segment ends in a backslash
 before a joined line

---
 libs/config/src/parse/str.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libs/config/src/parse/str.rs b/libs/config/src/parse/str.rs
index 349e70b..927883f 100644
--- a/libs/config/src/parse/str.rs
+++ b/libs/config/src/parse/str.rs
@@ -7,18 +7,15 @@ pub fn string(delimiter: char) -> impl Parser<char, Str, Error = Simple<char>> {
     let segment = just(delimiter)
         .ignore_then(content.repeated())
         .then_ignore(just(delimiter))
-        .collect();
+        .collect::<String>()
+        .map(|segment| segment.replace("\\\n", ""));
     segment
         .separated_by(just("\\n").padded())
         .at_least(1)
         .collect::<Vec<String>>()
         .map_with_span(|tok, span| (tok, span))
         .map(|(segments, span)| Str {
-            value: segments
-                .into_iter()
-                .collect::<Vec<_>>()
-                .join("\n")
-                .replace("\\\n", ""),
+            value: segments.join("\n"),
             span,
         })
 }
-- 
2.43.0


From 7ac9cada6329400e74f4641683455cff2bda85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 41/93] fix: class and delete followed by any whitespace in a
 config

---
 libs/config/src/parse/property.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libs/config/src/parse/property.rs b/libs/config/src/parse/property.rs
index 88d9599..2b4f480 100644
--- a/libs/config/src/parse/property.rs
+++ b/libs/config/src/parse/property.rs
@@ -4,6 +4,13 @@ use crate::{Class, Property, Value};
 
 use super::{ident::ident, value::value};
 
+fn keyword(word: &'static str) -> impl Parser<char, (), Error = Simple<char>> {
+    just(word)
+        .then(filter(|c: &char| c.is_whitespace()))
+        .ignored()
+        .padded()
+}
+
 fn class_parent() -> impl Parser<char, crate::Ident, Error = Simple<char>> {
     just(':')
         .padded()
@@ -11,8 +18,7 @@ fn class_parent() -> impl Parser<char, crate::Ident, Error = Simple<char>> {
 }
 
 fn class_missing_braces() -> impl Parser<char, Class, Error = Simple<char>> {
-    just("class ")
-        .padded()
+    keyword("class")
         .ignore_then(ident().padded().labelled("class name"))
         .then(class_parent())
         .padded()
@@ -34,13 +40,11 @@ pub fn property() -> impl Parser<char, Property, Error = Simple<char>> {
             .padded()
             .delimited_by(just('{'), just('}'));
 
-        let class_external = just("class ")
-            .padded()
+        let class_external = keyword("class")
             .ignore_then(ident().padded().labelled("class name"))
             .padded()
             .map(|ident| Class::External { name: ident });
-        let class_local = just("class ")
-            .padded()
+        let class_local = keyword("class")
             .ignore_then(ident().padded().labelled("class name"))
             .then(class_parent().or_not())
             .padded()
@@ -54,8 +58,7 @@ pub fn property() -> impl Parser<char, Property, Error = Simple<char>> {
         let class = choice((class_local, class_missing_braces(), class_external));
         choice((
             class.map(Property::Class),
-            just("delete ")
-                .padded()
+            keyword("delete")
                 .ignore_then(ident().labelled("delete class name"))
                 .map(Property::Delete),
             ident()
-- 
2.43.0


From b278a3c8f637f50aa1852e8af5fdaf8ba928a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 42/93] fix: exponential time for errors in nested config
 arrays

---
 libs/config/src/parse/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/config/src/parse/array.rs b/libs/config/src/parse/array.rs
index 5a99c70..1e3430a 100644
--- a/libs/config/src/parse/array.rs
+++ b/libs/config/src/parse/array.rs
@@ -9,7 +9,7 @@ pub fn array(expand: bool) -> impl Parser<char, Array, Error = Simple<char>> {
         value
             .map(Item::Array)
             .or(array_value().recover_with(skip_parser(
-                none_of("},")
+                none_of("{},")
                     .padded()
                     .repeated()
                     .at_least(1)
-- 
2.43.0


From 4dceb2ed8389386512464ca090c5c2b9b5bc2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 43/93] fix: __EVAL without brackets crashed the config parser

---
 libs/config/src/parse/value.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 3772809..9a827ed 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -46,17 +46,18 @@ pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
 }
 
 pub fn eval() -> impl Parser<char, Expression, Error = Simple<char>> {
+    let brackets = recursive(|eval| {
+        eval.or(none_of("()".to_string())
+            .repeated()
+            .at_least(1)
+            .collect::<String>())
+            .repeated()
+            .at_least(1)
+            .map(|s: Vec<String>| format!("({})", s.join("")))
+            .delimited_by(just("(".to_string()), just(")".to_string()))
+    });
     just("__EVAL".to_string())
-        .ignore_then(recursive(|eval| {
-            eval.repeated()
-                .at_least(1)
-                .map(|s| format!("({})", s.join("")))
-                .delimited_by(just("(".to_string()), just(")".to_string()))
-                .or(none_of("()".to_string())
-                    .repeated()
-                    .at_least(1)
-                    .collect::<String>())
-        }))
+        .ignore_then(brackets)
         .map_with_span(|expr, span| Expression {
             value: expr
                 .strip_prefix('(')
-- 
2.43.0


From b0acc577874549e866275ffe001f620a4bf8ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 44/93] fix: config number with spaces around it lost
 precision, adjacent numbers were glued

---
 libs/config/src/parse/value.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 9a827ed..59ca607 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -16,23 +16,29 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
 
 pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
-        super::number::number().map(|n| n.to_string()),
-        just("-".to_string()),
-        just("+".to_string()),
-        just("*".to_string()),
-        just("/".to_string()),
-        just("%".to_string()),
-        just("^".to_string()),
-        just("(".to_string()),
-        just(")".to_string()),
-        just(" ".to_string()),
+        super::number::number().map(|n| (n.to_string(), Some(n))),
+        one_of("-+*/%^() ").map(|c: char| (c.to_string(), None)),
     ))
     .repeated()
     .at_least(2)
-    .collect::<String>()
-    .map(|s| s.trim().to_string())
-    .try_map(|expr, span: Range<usize>| {
-        let number = Number::try_evaulation(&expr, span.clone());
+    .try_map(|tokens, span: Range<usize>| {
+        // A number with spaces around it is not an expression
+        let mut operands = tokens.iter().filter(|(s, _)| s != " ");
+        if let (Some((_, Some(number))), None) = (operands.next(), operands.next()) {
+            return Ok(number.clone());
+        }
+        let mut expr = String::new();
+        let mut last_number = false;
+        for (token, number) in &tokens {
+            // Two numbers next to each other must not become one
+            if last_number && number.is_some() && !token.starts_with('-') {
+                expr.push(' ');
+            }
+            expr.push_str(token);
+            last_number = number.is_some();
+        }
+        let expr = expr.trim();
+        let number = Number::try_evaulation(expr, span.clone());
         number.map_or_else(
             || {
                 Err(Simple::custom(
-- 
2.43.0


From c4fd696e8fe680c961ded902e3ff9b8de481f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 45/93] fix: note of config parse errors is counted in
 characters, empty files

---
 libs/config/src/analyze/chumsky.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/config/src/analyze/chumsky.rs b/libs/config/src/analyze/chumsky.rs
index 2dfca84..a98c933 100644
--- a/libs/config/src/analyze/chumsky.rs
+++ b/libs/config/src/analyze/chumsky.rs
@@ -39,20 +39,20 @@ impl ChumskyCode {
             diag.notes.push(format!(
                 "The processed output of the line with the error was:\n{} ",
                 {
+                    // spans are counted in characters
+                    let chars = processed.as_str().chars().collect::<Vec<_>>();
                     let mut start =
-                        std::cmp::min(self.err.span().start, processed.as_str().len() - 1);
-                    while start > 0 && processed.as_str().as_bytes()[start] != b'\n' {
+                        std::cmp::min(self.err.span().start, chars.len().saturating_sub(1));
+                    while start > 0 && chars[start] != '\n' {
                         start -= 1;
                     }
-                    while start < self.err.span().start
-                        && processed.as_str().as_bytes()[start].is_ascii_whitespace()
+                    while start < std::cmp::min(self.err.span().start, chars.len())
+                        && chars[start].is_ascii_whitespace()
                     {
                         start += 1;
                     }
                     let mut end = self.err.span().end;
-                    while end < processed.as_str().len()
-                        && processed.as_str().as_bytes()[end] != b'\n'
-                    {
+                    while end < chars.len() && chars[end] != '\n' {
                         end += 1;
                     }
                     processed.extract(start..end).to_string()
-- 
2.43.0


From 71f5e30e441bfa4437e9c11e9cb08829301a39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 46/93] fix: order of duplicate property and class lints,
 positions of config lints

---
 .../analyze/lints/c02_duplicate_property.rs   | 22 +++++------
 .../analyze/lints/c03_duplicate_classes.rs    | 25 +++++-------
 .../analyze/lints/c05_external_parent_case.rs | 38 ++++++-------------
 .../src/analyze/lints/c06_unexpected_array.rs | 28 +++-----------
 .../src/analyze/lints/c07_expected_array.rs   | 24 ++++--------
 .../analyze/lints/c08_missing_semicolon.rs    |  7 +---
 libs/config/src/analyze/mod.rs                | 20 ++++++++++
 7 files changed, 67 insertions(+), 97 deletions(-)

diff --git a/libs/config/src/analyze/lints/c02_duplicate_property.rs b/libs/config/src/analyze/lints/c02_duplicate_property.rs
index dc18213..83fa1b1 100644
--- a/libs/config/src/analyze/lints/c02_duplicate_property.rs
+++ b/libs/config/src/analyze/lints/c02_duplicate_property.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
     reporting::{Code, Codes, Diagnostic, Label, Processed},
 };
 
-use crate::{analyze::SqfLintData, Class, Config, Ident, Property};
+use crate::{analyze::{original_span, SqfLintData}, Class, Config, Ident, Property};
 
 crate::analyze::lint!(LintC02DuplicateProperty);
 
@@ -76,7 +76,9 @@ impl LintRunner<SqfLintData> for Runner {
         let mut seen: HashMap<String, Vec<(bool, Ident)>> = HashMap::new();
         duplicate_properties_inner("", &target.0, &mut seen);
         let mut codes: Codes = Vec::new();
-        for (_, idents) in seen {
+        let mut seen = seen.into_values().collect::<Vec<_>>();
+        seen.sort_by_key(|idents| idents[0].1.span.start);
+        for idents in seen {
             if idents.len() > 1 && !idents.iter().all(|(class, _)| *class) {
                 codes.push(Arc::new(CodeC02DuplicateProperty::new(
                     idents.iter().map(|(_, i)| i.clone()).collect(),
@@ -169,17 +171,11 @@ impl CodeC02DuplicateProperty {
         );
         if let Some(diag) = &mut self.diagnostic {
             for conflict in self.conflicts.iter().rev().skip(1) {
-                let map = processed
-                    .mapping(conflict.span.start)
-                    .expect("mapping should exist");
-                let file = processed.source(map.source()).expect("source should exist");
-                diag.labels.push(
-                    Label::secondary(
-                        file.0.clone(),
-                        map.original_start()..map.original_start() + conflict.span.len(),
-                    )
-                    .with_message("also defined here"),
-                );
+                let Some((file, span)) = original_span(&conflict.span, processed) else {
+                    continue;
+                };
+                diag.labels
+                    .push(Label::secondary(file, span).with_message("also defined here"));
             }
         }
         self
diff --git a/libs/config/src/analyze/lints/c03_duplicate_classes.rs b/libs/config/src/analyze/lints/c03_duplicate_classes.rs
index 825c3d1..4963d85 100644
--- a/libs/config/src/analyze/lints/c03_duplicate_classes.rs
+++ b/libs/config/src/analyze/lints/c03_duplicate_classes.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
     reporting::{Code, Codes, Diagnostic, Label, Processed},
 };
 
-use crate::{analyze::SqfLintData, Class, Config, Property};
+use crate::{analyze::{original_span, SqfLintData}, Class, Config, Property};
 
 crate::analyze::lint!(LintC03DuplicateClasses);
 
@@ -112,7 +112,9 @@ pub fn check(properties: &[Property], processed: &Processed) -> Codes {
             }
         }
     }
-    codes.extend(defined.into_iter().filter_map(|(_, classes)| {
+    let mut defined = defined.into_values().collect::<Vec<_>>();
+    defined.sort_by_key(|classes| classes[0].name().map(|name| name.span.start));
+    codes.extend(defined.into_iter().filter_map(|classes| {
         if classes.len() > 1 {
             Some(Arc::new(CodeC03DuplicateClasses::new(classes, processed)) as Arc<dyn Code>)
         } else {
@@ -180,19 +182,12 @@ impl CodeC03DuplicateClasses {
         self.diagnostic = Diagnostic::from_code_processed(&self, name.span.clone(), processed);
         if let Some(diag) = &mut self.diagnostic {
             for class in self.classes.iter().skip(1) {
-                let map = processed
-                    .mapping(class.name().expect("class should have name").span.start)
-                    .expect("mapping should exist");
-                let file = processed.source(map.source()).expect("source should exist");
-                diag.labels.push(
-                    Label::secondary(
-                        file.0.clone(),
-                        map.original_start()
-                            ..map.original_start()
-                                + class.name().expect("class should have name").span.len(),
-                    )
-                    .with_message("also defined here"),
-                );
+                let name = class.name().expect("class should have name");
+                let Some((file, span)) = original_span(&name.span, processed) else {
+                    continue;
+                };
+                diag.labels
+                    .push(Label::secondary(file, span).with_message("also defined here"));
             }
         }
         self
diff --git a/libs/config/src/analyze/lints/c05_external_parent_case.rs b/libs/config/src/analyze/lints/c05_external_parent_case.rs
index 19fb5fc..a05b9dc 100644
--- a/libs/config/src/analyze/lints/c05_external_parent_case.rs
+++ b/libs/config/src/analyze/lints/c05_external_parent_case.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
     reporting::{Code, Codes, Diagnostic, Label, Processed, Severity},
 };
 
-use crate::{analyze::SqfLintData, Class, Property};
+use crate::{analyze::{original_span, SqfLintData}, Class, Config, Property};
 
 crate::analyze::lint!(LintC05ExternalParentCase);
 
@@ -60,19 +60,19 @@ While Arma does not care about the case of class names, HEMTT wants you to have
 
 struct Runner;
 impl LintRunner<SqfLintData> for Runner {
-    type Target = Class;
+    type Target = Config;
     fn run(
         &self,
         _project: Option<&ProjectConfig>,
         _config: &LintConfig,
         processed: Option<&Processed>,
-        target: &Class,
+        target: &Config,
         _data: &SqfLintData,
     ) -> Vec<std::sync::Arc<dyn Code>> {
         let Some(processed) = processed else {
             return vec![];
         };
-        check(target.properties(), &mut HashMap::new(), processed)
+        check(&target.0, &mut HashMap::new(), processed)
     }
 }
 
@@ -193,28 +193,14 @@ impl Code05ExternalParentCase {
             processed,
         );
         if let Some(diag) = &mut self.diagnostic {
-            let Some(parent) = self.class.parent() else {
-                panic!(
-                    "Code05ExternalParentCase::generate_processed called on class without parent"
-                );
-            };
-            let map = processed
-                .mapping(
-                    self.parent
-                        .name()
-                        .expect("parent existed to create error")
-                        .span
-                        .start,
-                )
-                .expect("mapping should exist");
-            let file = processed.source(map.source()).expect("source should exist");
-            diag.labels.push(
-                Label::secondary(
-                    file.0.clone(),
-                    map.original_start()..map.original_start() + parent.span.len(),
-                )
-                .with_message("parent definition here"),
-            );
+            let parent = self
+                .parent
+                .name()
+                .expect("parent existed to create error");
+            if let Some((file, span)) = original_span(&parent.span, processed) {
+                diag.labels
+                    .push(Label::secondary(file, span).with_message("parent definition here"));
+            }
         }
         self
     }
diff --git a/libs/config/src/analyze/lints/c06_unexpected_array.rs b/libs/config/src/analyze/lints/c06_unexpected_array.rs
index 5f46cb2..d119286 100644
--- a/libs/config/src/analyze/lints/c06_unexpected_array.rs
+++ b/libs/config/src/analyze/lints/c06_unexpected_array.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
     reporting::{Code, Diagnostic, Label, Processed},
 };
 
-use crate::{analyze::SqfLintData, Property, Value};
+use crate::{analyze::{original_span, SqfLintData}, Property, Value};
 
 crate::analyze::lint!(LintC06UnexpectedArray);
 
@@ -139,29 +139,13 @@ impl Code06UnexpectedArray {
         else {
             panic!("Code06UnexpectedArray::generate_processed called on non-Code06UnexpectedArray property");
         };
-        let array_start = processed
-            .mapping(array.span.start)
-            .expect("mapping should exist");
-        let array_file = processed
-            .source(array_start.source())
-            .expect("source should exist");
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
-            .expect("mapping should exist");
         self.suggestion = Some(format!("{}[]", name.value));
-        self.diagnostic = Diagnostic::from_code_processed(
-            &self,
-            ident_start.original_start()..ident_end.original_start(),
-            processed,
-        );
+        self.diagnostic = Diagnostic::from_code_processed(&self, name.span.clone(), processed);
         if let Some(diag) = &mut self.diagnostic {
-            diag.labels.push(
-                Label::secondary(array_file.0.clone(), array.span.clone())
-                    .with_message("unexpected array"),
-            );
+            if let Some((file, span)) = original_span(&array.span, processed) {
+                diag.labels
+                    .push(Label::secondary(file, span).with_message("unexpected array"));
+            }
         }
         self
     }
diff --git a/libs/config/src/analyze/lints/c07_expected_array.rs b/libs/config/src/analyze/lints/c07_expected_array.rs
index ebdf5bf..1c97896 100644
--- a/libs/config/src/analyze/lints/c07_expected_array.rs
+++ b/libs/config/src/analyze/lints/c07_expected_array.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
     reporting::{Code, Diagnostic, Label, Processed},
 };
 
-use crate::{analyze::SqfLintData, Property, Value};
+use crate::{analyze::{original_span, SqfLintData}, Property, Value};
 
 crate::analyze::lint!(LintC07ExpectedArray);
 
@@ -157,27 +157,19 @@ impl Code07ExpectedArray {
         if let Value::Array(_) = value {
             panic!("Code07ExpectedArray::generate_processed called on non-Code07ExpectedArray property");
         }
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_file = processed
-            .source(ident_start.source())
-            .expect("source should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
-            .expect("mapping should exist");
-        let haystack = &processed.extract(ident_end.original_start()..value.span().start);
-        let possible_end = ident_end.original_start() + haystack.find(']').unwrap_or(1) + 1;
+        let haystack = &processed.extract(name.span.end..value.span().start);
+        let possible_end = name.span.end + haystack.find(']').unwrap_or(1) + 1;
         self.suggestion = Some(name.value.to_string());
         self.diagnostic = Diagnostic::from_code_processed(
             &self,
-            ident_start.original_start()..possible_end,
+            name.span.start..possible_end,
             processed,
         );
         if let Some(diag) = &mut self.diagnostic {
-            diag.labels.push(
-                Label::secondary(ident_file.0.clone(), value.span()).with_message("not an array"),
-            );
+            if let Some((file, span)) = original_span(&value.span(), processed) {
+                diag.labels
+                    .push(Label::secondary(file, span).with_message("not an array"));
+            }
         }
         self
     }
diff --git a/libs/config/src/analyze/lints/c08_missing_semicolon.rs b/libs/config/src/analyze/lints/c08_missing_semicolon.rs
index 005bdab..5fa1dd4 100644
--- a/libs/config/src/analyze/lints/c08_missing_semicolon.rs
+++ b/libs/config/src/analyze/lints/c08_missing_semicolon.rs
@@ -140,11 +140,8 @@ impl Code08MissingSemicolon {
     }
 
     fn generate_processed(mut self, processed: &Processed) -> Self {
-        let haystack = &processed.extract(self.span.clone());
-        let possible_end = self.span.start
-            + haystack
-                .find('\n')
-                .unwrap_or_else(|| haystack.rfind(|c: char| c != ' ' && c != '}').unwrap_or(0) + 1);
+        let property = processed.extract(self.span.clone());
+        let possible_end = self.span.start + property.trim_end().chars().count();
         self.diagnostic =
             Diagnostic::from_code_processed(&self, possible_end..possible_end, processed);
         self
diff --git a/libs/config/src/analyze/mod.rs b/libs/config/src/analyze/mod.rs
index 80fe783..a78d24c 100644
--- a/libs/config/src/analyze/mod.rs
+++ b/libs/config/src/analyze/mod.rs
@@ -1,8 +1,11 @@
+use std::ops::Range;
+
 use hemtt_common::config::ProjectConfig;
 use hemtt_workspace::{
     lint::LintManager,
     lint_manager,
     reporting::{Codes, Processed},
+    WorkspacePath,
 };
 
 mod cfgpatch;
@@ -14,6 +17,23 @@ pub mod lints {
 
 pub struct SqfLintData {}
 
+/// Where a span of the processed output stands in the source
+fn original_span(
+    span: &Range<usize>,
+    processed: &Processed,
+) -> Option<(WorkspacePath, Range<usize>)> {
+    let start = processed.mapping(span.start)?;
+    let end = processed.mapping(span.end.saturating_sub(1).max(span.start))?;
+    let file = processed.source(start.source())?;
+    // A span can end in another file, or at a macro that is defined earlier
+    let end = if end.source() == start.source() && end.original_end() >= start.original_end() {
+        end.original_end()
+    } else {
+        start.original_end()
+    };
+    Some((file.0.clone(), start.original_start()..end))
+}
+
 lint_manager!(config, vec![]);
 
 pub use cfgpatch::CfgPatch;
-- 
2.43.0


From b6b89a03493569e8a2a6a4894b14a35eb7336f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 47/93] fix: sort the containers of a stringtable

---
 libs/stringtable/src/package.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 735eafc..10944f5 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -32,6 +32,7 @@ impl Package {
 
     pub fn sort(&mut self) {
         self.keys.sort_by(|a, b| a.id().cmp(b.id()));
+        self.containers.sort_by(|a, b| a.name().cmp(b.name()));
         for container in &mut self.containers {
             container.sort();
         }
-- 
2.43.0


From c112398d9bcbf74dbecf11f0c43d3aaf463291da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 48/93] fix: sorting a stringtable lost or repeated comments,
 lost white space at the ends of texts, and broke CDATA and entities in names

---
 libs/stringtable/src/comments.rs | 251 +++++++++++++++++++++++++++++++
 libs/stringtable/src/key.rs      |   9 +-
 libs/stringtable/src/lib.rs      | 114 +++-----------
 libs/stringtable/src/package.rs  |   2 +-
 4 files changed, 281 insertions(+), 95 deletions(-)
 create mode 100644 libs/stringtable/src/comments.rs

diff --git a/libs/stringtable/src/comments.rs b/libs/stringtable/src/comments.rs
new file mode 100644
index 0000000..29180b6
--- /dev/null
+++ b/libs/stringtable/src/comments.rs
@@ -0,0 +1,251 @@
+//! Comments, and texts as they are written, are not part of what is deserialized
+
+use std::{collections::HashMap, fmt::Debug};
+
+use quick_xml::{
+    escape::{minimal_escape, unescape},
+    events::{BytesStart, Event},
+    Reader,
+};
+
+#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
+/// One or more comments with nothing but white space between them
+pub struct Comment {
+    text: String,
+    /// The line of what follows
+    after: String,
+    /// The line of the key it stands in
+    key: Option<String>,
+    /// The element that follows, or the end of the element it stands in
+    place: String,
+    /// The order at the same place
+    position: usize,
+}
+
+impl Debug for Comment {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.debug_tuple("")
+            .field(&self.text)
+            .field(&self.after)
+            .field(&self.key)
+            .finish()
+    }
+}
+
+/// The elements around the current position
+#[derive(Default)]
+struct Place {
+    open: Vec<(String, HashMap<String, usize>)>,
+    top: HashMap<String, usize>,
+}
+
+impl Place {
+    /// Enter an element, it is identified by its kind, its name, and the number of
+    /// elements before it that are the same in both
+    fn enter(&mut self, tag: &BytesStart) {
+        let mut name = String::from_utf8_lossy(tag.name().as_ref()).to_lowercase();
+        for attribute in tag.attributes().flatten() {
+            let value = String::from_utf8_lossy(&attribute.value).to_string();
+            name.push(' ');
+            name.push_str(&String::from_utf8_lossy(attribute.key.as_ref()));
+            name.push('=');
+            name.push_str(&unescape(&value).map_or_else(|_| value.clone(), |v| v.to_string()));
+        }
+        let around = self.here().to_string();
+        let same = self
+            .open
+            .last_mut()
+            .map_or(&mut self.top, |(_, children)| children)
+            .entry(name.clone())
+            .or_default();
+        *same += 1;
+        let place = format!("{around}/{name}/{same}");
+        self.open.push((place, HashMap::new()));
+    }
+
+    /// Leave an element, gives its place
+    fn leave(&mut self) -> Option<String> {
+        self.open.pop().map(|(place, _)| place)
+    }
+
+    fn here(&self) -> &str {
+        self.open.last().map_or("", |(place, _)| place)
+    }
+
+    fn end(&self) -> String {
+        format!("{}/end", self.here())
+    }
+}
+
+/// Is it one of the elements that hold others
+fn is_structure(tag: &[u8]) -> bool {
+    matches!(tag, b"Project" | b"Package" | b"Container" | b"Key")
+}
+
+/// Separate a stringtable into what is deserialized and comments
+///
+/// Entities in texts and names are kept as they are written
+pub fn separate(source: &str) -> Result<(String, Vec<Comment>), quick_xml::de::DeError> {
+    let mut reader = Reader::from_str(source);
+    let mut data = String::new();
+    let mut comments = Vec::new();
+    let mut place = Place::default();
+    // The lines of the structure around
+    let mut lines: Vec<(bool, String)> = Vec::new();
+    // Comments for which the next element was not reached
+    let mut waiting: Option<(usize, usize)> = None;
+    let mut in_text = false;
+    // The element before, while on the same line
+    let mut before: Option<String> = None;
+    loop {
+        let start = position(source, &reader);
+        let event = reader.read_event()?;
+        let end = position(source, &reader);
+        let raw = &source[start..end];
+        let line = source[start..].lines().next().unwrap_or_default().trim();
+        let mut reached =
+            |range: Option<(usize, usize)>, place: String, lines: &[(bool, String)]| {
+                if let Some((from, to)) = range {
+                    comments.push(Comment {
+                        text: source[from..to].to_string(),
+                        after: line.to_string(),
+                        key: lines
+                            .last()
+                            .and_then(|(key, line)| key.then(|| line.clone())),
+                        place,
+                        position: from,
+                    });
+                }
+            };
+        match event {
+            Event::Start(tag) => {
+                place.enter(&tag);
+                reached(waiting.take(), place.here().to_string(), &lines);
+                before = None;
+                in_text = !is_structure(tag.name().as_ref());
+                lines.push((tag.name().as_ref() == b"Key", line.to_string()));
+                data.push_str(&raw.replace('&', "&amp;"));
+            }
+            Event::Empty(tag) => {
+                place.enter(&tag);
+                reached(waiting.take(), place.here().to_string(), &lines);
+                before = place.leave();
+                data.push_str(&raw.replace('&', "&amp;"));
+            }
+            Event::End(_) => {
+                reached(waiting.take(), place.end(), &lines);
+                lines.pop();
+                in_text = false;
+                before = place.leave();
+                data.push_str(raw);
+            }
+            Event::Text(_) if in_text => {
+                data.push_str("<![CDATA[");
+                data.push_str(&raw.replace("]]>", "]]&gt;"));
+                data.push_str("]]>");
+            }
+            Event::CData(content) => {
+                data.push_str("<![CDATA[");
+                data.push_str(&minimal_escape(String::from_utf8_lossy(&content)));
+                data.push_str("]]>");
+            }
+            // Within a text, it is moved before it
+            Event::Comment(_) if in_text => {
+                let around = lines.len().saturating_sub(1);
+                reached(
+                    Some((start, end)),
+                    place.here().to_string(),
+                    &lines[..around],
+                );
+            }
+            Event::Comment(_) => {
+                let rest = source[end..].lines().next().unwrap_or_default();
+                match before.clone() {
+                    // At the end of the line of an element
+                    Some(place) if waiting.is_none() && rest.trim().is_empty() => {
+                        reached(Some((start, end)), place, &lines);
+                    }
+                    _ => waiting = Some((waiting.map_or(start, |(from, _)| from), end)),
+                }
+            }
+            Event::Eof => {
+                reached(waiting.take(), place.end(), &lines);
+                break;
+            }
+            _ => {
+                if raw.contains('\n') {
+                    before = None;
+                }
+                data.push_str(raw);
+            }
+        }
+    }
+    comments.sort();
+    Ok((data, comments))
+}
+
+/// Put comments back to where they belong in a serialized stringtable
+pub fn restore(buffer: &str, comments: &[Comment]) -> Result<String, quick_xml::Error> {
+    let buffer = buffer.replace("&amp;amp;", "&");
+    let mut reader = Reader::from_str(&buffer);
+    let mut out = String::new();
+    let mut place = Place::default();
+    loop {
+        let start = position(&buffer, &reader);
+        let event = reader.read_event()?;
+        let raw = &buffer[start..position(&buffer, &reader)];
+        let (here, depth, structure) = match &event {
+            Event::Start(tag) | Event::Empty(tag) => {
+                place.enter(tag);
+                (place.here().to_string(), place.open.len() - 1, true)
+            }
+            Event::End(tag) => (
+                place.end(),
+                place.open.len(),
+                is_structure(tag.name().as_ref()),
+            ),
+            Event::Eof => (place.end(), 0, true),
+            _ => (String::new(), 0, false),
+        };
+        if structure {
+            let mut found = comments
+                .iter()
+                .filter(|c| c.place == here)
+                .collect::<Vec<_>>();
+            found.sort_by_key(|c| c.position);
+            if !found.is_empty() {
+                out.truncate(out.trim_end_matches(' ').len());
+                if !out.is_empty() && !out.ends_with('\n') {
+                    out.push('\n');
+                }
+            }
+            for comment in &found {
+                out.push_str(&" ".repeat(depth * 4));
+                out.push_str(&comment.text);
+                out.push('\n');
+            }
+            if !found.is_empty() {
+                let depth = if matches!(event, Event::End(_)) {
+                    depth - 1
+                } else {
+                    depth
+                };
+                out.push_str(&" ".repeat(depth * 4));
+            }
+        }
+        match event {
+            Event::End(_) | Event::Empty(_) => {
+                place.leave();
+            }
+            Event::Eof => break,
+            _ => {}
+        }
+        out.push_str(raw);
+    }
+    out.truncate(out.trim_end().len());
+    Ok(out)
+}
+
+fn position(source: &str, reader: &Reader<&[u8]>) -> usize {
+    usize::try_from(reader.buffer_position()).map_or(source.len(), |p| p.min(source.len()))
+}
diff --git a/libs/stringtable/src/key.rs b/libs/stringtable/src/key.rs
index 70bdb18..5fdaa41 100644
--- a/libs/stringtable/src/key.rs
+++ b/libs/stringtable/src/key.rs
@@ -12,10 +12,17 @@ where
     }
 }
 
+pub fn min_escape_attribute<S>(s: &str, ser: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    ser.serialize_str(&minimal_escape(s))
+}
+
 #[derive(Clone, Debug, Deserialize, Serialize)]
 #[serde(rename_all = "PascalCase")]
 pub struct Key {
-    #[serde(rename = "@ID")]
+    #[serde(rename = "@ID", serialize_with = "min_escape_attribute")]
     id: String,
     #[serde(skip_serializing_if = "Option::is_none", serialize_with = "min_escape")]
     #[serde(alias = "original", alias = "ORIGINAL")]
diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 242e0d2..d3135df 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -1,27 +1,26 @@
-use std::io::BufReader;
-
 use quick_xml::se::Serializer;
 use serde::{Deserialize, Serialize};
 
 pub mod analyze;
+mod comments;
 mod key;
 mod package;
 mod totals;
 
+use comments::Comment;
 pub use key::Key;
 pub use package::Package;
 pub use totals::Totals;
-use tracing::error;
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Project {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "key::min_escape_attribute")]
     name: String,
     #[serde(rename = "Package")]
     packages: Vec<Package>,
 
     #[serde(skip)]
-    meta_comments: Vec<(String, String, Option<String>)>,
+    meta_comments: Vec<Comment>,
 }
 
 impl Project {
@@ -46,61 +45,18 @@ impl Project {
     ///
     /// # Errors
     /// [`quick_xml::DeError`] if the reader is not a valid stringtable
-    pub fn from_reader<R: std::io::BufRead>(reader: R) -> Result<Self, quick_xml::de::DeError> {
-        let mut buffer = String::new();
-        let mut reading_comments = false;
-        let mut comments = Vec::new();
-        let mut in_key = None;
-        let Ok(reader) = reader
-            .lines()
-            .map(|l| {
-                let Ok(l) = l else {
-                    error!("Failed to read line: {:?}", l);
-                    return l;
-                };
-                let l_trim = l.trim();
-                if reading_comments {
-                    buffer.push('\n');
-                }
-                if l_trim.starts_with("<!--") {
-                    reading_comments = true;
-                    if !buffer.is_empty() {
-                        buffer.push('\n');
-                    }
-                }
-                if !reading_comments && !buffer.is_empty() {
-                    comments.push((
-                        buffer.trim().to_string(),
-                        l_trim.to_string(),
-                        in_key.clone(),
-                    ));
-                    buffer.clear();
-                }
-                if reading_comments {
-                    buffer.push_str(&l);
-                    if l_trim.ends_with("-->") {
-                        reading_comments = false;
-                    }
-                }
-                if !reading_comments {
-                    if l_trim.starts_with("<Key") {
-                        in_key = Some(l_trim.to_string());
-                    } else if l_trim.starts_with("</Key>") {
-                        in_key = None;
-                    }
-                }
-                Ok(l.replace('&', "&amp;"))
-            })
-            .collect::<Result<Vec<_>, _>>()
-        else {
-            return Err(quick_xml::de::DeError::Custom(
-                "Failed to read lines".to_string(),
-            ));
-        };
-        comments.sort();
-        comments.dedup();
-        let mut this: Self =
-            quick_xml::de::from_reader(BufReader::new(reader.join("\n").as_bytes()))?;
+    pub fn from_reader<R: std::io::BufRead>(
+        mut reader: R,
+    ) -> Result<Self, quick_xml::de::DeError> {
+        let mut source = String::new();
+        if let Err(e) = reader.read_to_string(&mut source) {
+            return Err(quick_xml::de::DeError::Custom(format!(
+                "Failed to read stringtable: {e}"
+            )));
+        }
+        let source = source.trim_start_matches('\u{feff}').replace("\r\n", "\n");
+        let (data, comments) = comments::separate(&source)?;
+        let mut this: Self = quick_xml::de::from_str(&data)?;
         this.meta_comments = comments;
         Ok(this)
     }
@@ -117,39 +73,11 @@ impl Project {
         ser.indent(' ', 4);
         ser.expand_empty_elements(true);
         self.serialize(ser)?;
-        buffer.push('\n');
-
-        let mut clear_next = false;
-        let mut in_key = None;
-        for line in buffer.lines() {
-            let l_trim = line.trim();
-            if clear_next {
-                clear_next = false;
-                in_key = None;
-            }
-            for (before, after, key) in &self.meta_comments {
-                if l_trim.starts_with(after) && &in_key == key {
-                    let mut whitespace = line
-                        .chars()
-                        .take_while(|c| c.is_whitespace())
-                        .collect::<String>();
-                    if l_trim.starts_with("</") {
-                        whitespace += "    ";
-                    }
-                    writer.write_str(&whitespace)?;
-                    writer.write_str(before)?;
-                    writer.write_char('\n')?;
-                }
-            }
-            writer.write_str(line.replace("&amp;amp;", "&").as_str())?;
-            writer.write_char('\n')?;
-            if l_trim.starts_with("<Key") {
-                in_key = Some(l_trim.to_string());
-            } else if l_trim.starts_with("</Key>") {
-                clear_next = true;
-            }
-        }
-
+        writer.write_str(
+            &comments::restore(&buffer, &self.meta_comments)
+                .map_err(|e| quick_xml::SeError::Custom(e.to_string()))?,
+        )?;
+        writer.write_char('\n')?;
         Ok(())
     }
 }
diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 10944f5..629f309 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -4,7 +4,7 @@ use crate::{Key, Totals};
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Package {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "crate::key::min_escape_attribute")]
     name: String,
     #[serde(rename = "Key")]
     #[serde(default)]
-- 
2.43.0


From 1e27b9bf86d556ec54ce01d5614431b439e36d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 49/93] fix: read and write errors of archives were ignored or
 crashed

---
 libs/pbo/src/read.rs  | 14 +++++++++-----
 libs/pbo/src/write.rs | 19 +++++++++++++------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index a5eda6e..07648a2 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -1,4 +1,4 @@
-use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::io::{Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
 
 use byteorder::ReadBytesExt;
 use hemtt_common::io::{ReadExt, WriteExt};
@@ -60,8 +60,10 @@ impl<I: Seek + Read> ReadablePbo<I> {
 
         input.seek(SeekFrom::Current(1))?;
         let checksum = Checksum::read_pbo(&mut input)?.0;
-        if input.read_u8().is_ok() {
-            return Err(Error::UnexpectedDataAfterChecksum);
+        match input.read_u8() {
+            Ok(_) => return Err(Error::UnexpectedDataAfterChecksum),
+            Err(e) if e.kind() == ErrorKind::UnexpectedEof => {}
+            Err(e) => return Err(e.into()),
         }
         Ok(Self {
             properties,
@@ -235,8 +237,10 @@ impl<I: Seek + Read> ReadablePbo<I> {
             let Some(mut file) = self.file(header.filename())? else {
                 continue;
             };
-            if file.read_u8().is_err() {
-                continue;
+            match file.read_u8() {
+                Ok(_) => {}
+                Err(e) if e.kind() == ErrorKind::UnexpectedEof => continue,
+                Err(e) => return Err(e.into()),
             }
             hasher.update(header.filename().replace('/', "\\").to_lowercase());
         }
diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index fcfe538..639a44e 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -175,6 +175,17 @@ impl<I: Seek + Read> WritablePbo<I> {
                 .expect("file with header should exist");
             let mut buffer = Vec::with_capacity(header.size() as usize);
             file.read_to_end(&mut buffer)?;
+            if buffer.len() != header.size() as usize {
+                return Err(Error::Io(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    format!(
+                        "{} is {} bytes, its header says {}",
+                        header.filename(),
+                        buffer.len(),
+                        header.size()
+                    ),
+                )));
+            }
 
             if header.size() > 1_000_000 {
                 // pay the paralellization cost for large files
@@ -182,12 +193,8 @@ impl<I: Seek + Read> WritablePbo<I> {
                     s.spawn(|| {
                         hasher.update(&*buffer);
                     });
-                    s.spawn(|| {
-                        buffered_output
-                            .write_all(&buffer)
-                            .expect("failed to write file");
-                    });
-                });
+                    buffered_output.write_all(&buffer)
+                })?;
             } else {
                 buffered_output.write_all(&buffer)?;
                 hasher.update(&buffer);
-- 
2.43.0


From 4acac9d1ea3a2c25e6f34256384562d7b2680a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 50/93] fix: read errors within a model were ignored

---
 libs/p3d/src/lod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 86e8dd8..61dc84b 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -38,7 +38,7 @@ impl LOD {
         let num_face_normals = input.read_u32::<LittleEndian>()?;
         let num_faces = input.read_u32::<LittleEndian>()?;
 
-        input.bytes().nth(3);
+        input.read_exact(&mut buffer)?;
 
         let mut points: Vec<Point> = Vec::new();
         let mut face_normals: Vec<(f32, f32, f32)> = Vec::new();
@@ -70,7 +70,7 @@ impl LOD {
         let mut taggs: IndexMap<String, Box<[u8]>> = IndexMap::new();
 
         loop {
-            input.bytes().next();
+            input.read_u8()?;
 
             let name = input.read_cstring()?;
             let size = input.read_u32::<LittleEndian>()?;
-- 
2.43.0


From 5327f92cf0d675b561cdc8f3d2831185f1daea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 51/93] fix: integers above 2^32 and numbers like .5e2 were
 refused in SQF

---
 libs/sqf/src/parser/lexer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/sqf/src/parser/lexer.rs b/libs/sqf/src/parser/lexer.rs
index fdf7aa9..d86436b 100644
--- a/libs/sqf/src/parser/lexer.rs
+++ b/libs/sqf/src/parser/lexer.rs
@@ -198,7 +198,7 @@ fn number() -> impl Parser<char, crate::Scalar<f32>, Error = Simple<char>> {
         number_float_exponent(),
         number_float_basic(),
         number_hex().map(|value| value as f32),
-        number_int().map(|value| value as f32),
+        number_int(),
     ))
     .map(crate::Scalar)
 }
@@ -213,17 +213,18 @@ fn number_hex() -> impl Parser<char, u32, Error = Simple<char>> {
         .try_map(error_map)
 }
 
-fn number_int() -> impl Parser<char, u32, Error = Simple<char>> {
+fn number_int() -> impl Parser<char, f32, Error = Simple<char>> {
     number_digits()
         .collect::<String>()
         //.then_ignore(just('.').not().rewind())
-        .from_str::<u32>()
+        .from_str::<f32>()
         .try_map(error_map)
 }
 
 fn number_float_exponent() -> impl Parser<char, f32, Error = Simple<char>> {
     number_digits()
-        .chain(just('.'))
+        .or_not()
+        .chain::<char, _, _>(just('.'))
         .or_not()
         .chain::<char, _, _>(number_digits())
         .chain::<char, _, _>(one_of("eE"))
-- 
2.43.0


From f073b0bd6381fda3f688220e8b39e2cf906db48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 52/93] fix: long constant arrays and scripts of more than 256
 files crashed the SQF compiler

---
 libs/sqf/src/compiler/mod.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/libs/sqf/src/compiler/mod.rs b/libs/sqf/src/compiler/mod.rs
index eaa0178..ee2ac1c 100644
--- a/libs/sqf/src/compiler/mod.rs
+++ b/libs/sqf/src/compiler/mod.rs
@@ -91,17 +91,22 @@ impl Statements {
     }
 }
 
-#[must_use]
 /// Converts a location in the processed file to a [`SourceInfo`].
 ///
+/// # Errors
+/// [`CompileError::TooManyFiles`] if the location is in a file past the 256th.
+///
 /// # Panics
 /// Panics if the location is not mapped.
-pub fn location_to_source(processed: &Processed, location: &Range<usize>) -> SourceInfo {
+pub fn location_to_source(
+    processed: &Processed,
+    location: &Range<usize>,
+) -> CompileResult<SourceInfo> {
     let map = processed.mapping(location.start).expect(
         "location not in mapping, this should not happen as the location is from the processed file",
     ).original();
     let offset = processed.get_byte_offset(location.start);
-    SourceInfo {
+    Ok(SourceInfo {
         offset,
         file_index: processed
             .sources()
@@ -109,9 +114,9 @@ pub fn location_to_source(processed: &Processed, location: &Range<usize>) -> Sou
             .position(|(p, _)| p == map.path())
             .expect("file not in sources")
             .try_into()
-            .expect("file index too large"),
-        file_line: map.start().line() as u16,
-    }
+            .map_err(|_| CompileError::TooManyFiles)?,
+        file_line: map.start().line().try_into().unwrap_or(u16::MAX),
+    })
 }
 
 impl Statement {
@@ -128,7 +133,7 @@ impl Statement {
                 let name_index = ctx.add_name(name)?;
                 instructions.push(Instruction::AssignTo(
                     name_index,
-                    location_to_source(processed, location),
+                    location_to_source(processed, location)?,
                 ));
             }
             Self::AssignLocal(ref name, ref expression, ref location) => {
@@ -136,7 +141,7 @@ impl Statement {
                 let name_index = ctx.add_name(name)?;
                 instructions.push(Instruction::AssignToLocal(
                     name_index,
-                    location_to_source(processed, location),
+                    location_to_source(processed, location)?,
                 ));
             }
             Self::Expression(ref expression, _) => {
@@ -168,7 +173,7 @@ impl Expression {
                             push_constant(item, instructions, ctx)?;
                         }
                         instructions.push(Instruction::MakeArray(
-                            len.try_into().expect("array too long"),
+                            len.try_into().map_err(|_| CompileError::ListTooLong)?,
                             SourceInfo {
                                 offset: 0,
                                 file_index: 0,
@@ -200,14 +205,14 @@ impl Expression {
 
                     instructions.push(Instruction::MakeArray(
                         array_len,
-                        location_to_source(processed, location),
+                        location_to_source(processed, location)?,
                     ));
                 }
                 Self::NularCommand(ref command, ref location) => {
                     let name_index = ctx.add_name(command.as_str())?;
                     instructions.push(Instruction::CallNular(
                         name_index,
-                        location_to_source(processed, location),
+                        location_to_source(processed, location)?,
                     ));
                 }
                 Self::UnaryCommand(ref command, ref expr, ref location) => {
@@ -215,7 +220,7 @@ impl Expression {
                     let name_index = ctx.add_name(command.as_str())?;
                     instructions.push(Instruction::CallUnary(
                         name_index,
-                        location_to_source(processed, location),
+                        location_to_source(processed, location)?,
                     ));
                 }
                 Self::BinaryCommand(ref command, ref expr1, ref expr2, ref location) => {
@@ -224,14 +229,14 @@ impl Expression {
                     let name_index = ctx.add_name(command.as_str())?;
                     instructions.push(Instruction::CallBinary(
                         name_index,
-                        location_to_source(processed, location),
+                        location_to_source(processed, location)?,
                     ));
                 }
                 Self::Variable(ref name, ref location) => {
                     let name_index = ctx.add_name(name)?;
                     instructions.push(Instruction::GetVariable(
                         name_index,
-                        location_to_source(processed, location),
+                        location_to_source(processed, location)?,
                     ));
                 }
                 Self::Code(_)
@@ -289,6 +294,8 @@ impl Expression {
 pub enum CompileError {
     #[error("cannot convert list longer than 2^16 elements")]
     ListTooLong,
+    #[error("cannot compile a script of more than 2^8 files")]
+    TooManyFiles,
     #[error("invalid name {0}")]
     InvalidName(String),
 }
-- 
2.43.0


From ddc30615740f1dcf15736e2f32a672c90e2a3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 53/93] fix: the optimizer crashed on or shared the array of an
 else outside of then

---
 libs/sqf/src/compiler/optimizer/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/libs/sqf/src/compiler/optimizer/mod.rs b/libs/sqf/src/compiler/optimizer/mod.rs
index 77c4eb1..588ebda 100644
--- a/libs/sqf/src/compiler/optimizer/mod.rs
+++ b/libs/sqf/src/compiler/optimizer/mod.rs
@@ -144,6 +144,21 @@ impl Expression {
                                 left_o = consumable;
                             }
                         }
+                        // only here the array of both branches can not be kept or modified
+                        "then" => {
+                            if let Self::BinaryCommand(BinaryCommand::Else, yes, no, else_range) =
+                                &right_o
+                            {
+                                if yes.is_code() && no.is_code() {
+                                    #[cfg(debug_assertions)]
+                                    trace!("optimizing [B:else] => ConsumeableArray");
+                                    right_o = Self::ConsumeableArray(
+                                        vec![(**yes).clone(), (**no).clone()],
+                                        else_range.clone(),
+                                    );
+                                }
+                            }
+                        }
                         "call" => {
                             if matches!(&left_o, Self::Variable(name, _) if name == "_this") {
                                 return Self::UnaryCommand(
@@ -197,13 +212,6 @@ impl Expression {
                             return eval;
                         }
                     }
-                    BinaryCommand::Else => {
-                        if let (Self::Code(_), Self::Code(_)) = (&left_o, &right_o) {
-                            #[cfg(debug_assertions)]
-                            trace!("optimizing [B:{}] => ConsumeableArray", op_type.as_str());
-                            return Self::ConsumeableArray(vec![left_o, right_o], range.clone());
-                        }
-                    }
                     _ => {}
                 }
                 Self::BinaryCommand(
-- 
2.43.0


From 0283dae3b584148bc36e7a836345348f11d1a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 54/93] fix: keep dots in addon and mod names when naming PBOs
 and archives

---
 bin/src/modules/archive.rs |  4 +---
 bin/src/modules/pbo.rs     | 42 +++++++++++++++++---------------------
 bin/src/modules/sign.rs    | 25 +++++++++++------------
 3 files changed, 32 insertions(+), 39 deletions(-)

diff --git a/bin/src/modules/archive.rs b/bin/src/modules/archive.rs
index 479bc82..f2a1ee2 100644
--- a/bin/src/modules/archive.rs
+++ b/bin/src/modules/archive.rs
@@ -29,9 +29,7 @@ pub fn release(ctx: &Context) -> Result<Report, Error> {
     if !output.exists() {
         create_dir_all(&output)?;
     }
-    let output = output
-        .join(format!("{}-latest", ctx.config().prefix()))
-        .with_extension("zip");
+    let output = output.join(format!("{}-latest.zip", ctx.config().prefix()));
     let options = SimpleFileOptions::default().compression_level(Some(9));
 
     debug!("creating release at {:?}", output.display());
diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index 033e3a7..fd697cd 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -68,31 +68,27 @@ fn internal_build(
     let mut pbo = WritablePbo::new();
     let target = ctx.build_folder().expect("build folder exists");
 
-    let pbo_name = addon.pbo_name(ctx.config().prefix());
+    let pbo_name = format!("{}.pbo", addon.pbo_name(ctx.config().prefix()));
 
-    let target_pbo = {
-        let mut path = match collapse {
-            Collapse::No => match addon.location() {
-                Location::Addons => target.join("addons").join(pbo_name),
-                Location::Optionals => {
-                    if ctx.config().hemtt().build().optional_mod_folders() {
-                        target
-                            .join("optionals")
-                            .join(format!(
-                                "@{}",
-                                addon.pbo_name(ctx.config().hemtt().release().folder())
-                            ))
-                            .join("addons")
-                            .join(pbo_name)
-                    } else {
-                        target.join(addon.location().to_string()).join(pbo_name)
-                    }
+    let target_pbo = match collapse {
+        Collapse::No => match addon.location() {
+            Location::Addons => target.join("addons").join(pbo_name),
+            Location::Optionals => {
+                if ctx.config().hemtt().build().optional_mod_folders() {
+                    target
+                        .join("optionals")
+                        .join(format!(
+                            "@{}",
+                            addon.pbo_name(ctx.config().hemtt().release().folder())
+                        ))
+                        .join("addons")
+                        .join(pbo_name)
+                } else {
+                    target.join(addon.location().to_string()).join(pbo_name)
                 }
-            },
-            Collapse::Yes => target.join("addons").join(pbo_name),
-        };
-        path.set_extension("pbo");
-        path
+            }
+        },
+        Collapse::Yes => target.join("addons").join(pbo_name),
     };
     let Some(parent) = target_pbo.parent() else {
         return Err(Error::Io(std::io::Error::new(
diff --git a/bin/src/modules/sign.rs b/bin/src/modules/sign.rs
index d90a3c2..bfb7072 100644
--- a/bin/src/modules/sign.rs
+++ b/bin/src/modules/sign.rs
@@ -81,15 +81,11 @@ impl Module for Sign {
             let pbo_name = addon.pbo_name(ctx.config().prefix());
             let (mut pbo, sig_location, key) = match addon.location() {
                 Location::Addons => {
-                    let target_pbo = {
-                        let mut path = ctx
-                            .build_folder()
-                            .expect("build folder exists")
-                            .join("addons")
-                            .join(pbo_name);
-                        path.set_extension("pbo");
-                        path
-                    };
+                    let target_pbo = ctx
+                        .build_folder()
+                        .expect("build folder exists")
+                        .join("addons")
+                        .join(format!("{pbo_name}.pbo"));
                     (
                         ReadablePbo::from(File::open(&target_pbo)?)?,
                         target_pbo.with_extension(format!("pbo.{authority}.bisign")),
@@ -97,7 +93,7 @@ impl Module for Sign {
                     )
                 }
                 Location::Optionals => {
-                    let (mut target_pbo, key, authority) =
+                    let (target_pbo, key, authority) =
                         if ctx.config().hemtt().build().optional_mod_folders() {
                             let authority = get_authority(ctx, Some(&pbo_name))?;
                             let key = BIPrivateKey::generate(1024, &authority)?;
@@ -113,18 +109,21 @@ impl Module for Sign {
                             key.to_public_key().write(&mut File::create(
                                 mod_root.join("keys").join(format!("{authority}.bikey")),
                             )?)?;
-                            (mod_root.join("addons").join(pbo_name), key, authority)
+                            (
+                                mod_root.join("addons").join(format!("{pbo_name}.pbo")),
+                                key,
+                                authority,
+                            )
                         } else {
                             (
                                 ctx.build_folder()
                                     .expect("build folder exists")
                                     .join(addon.location().to_string())
-                                    .join(pbo_name),
+                                    .join(format!("{pbo_name}.pbo")),
                                 addons_key.clone(),
                                 authority.clone(),
                             )
                         };
-                    target_pbo.set_extension("pbo");
                     (
                         ReadablePbo::from(File::open(&target_pbo)?)?,
                         target_pbo.with_extension(format!("pbo.{authority}.bisign")),
-- 
2.43.0


From 1a7cf711015049cb435f4abe09661940db3ad568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 55/93] fix: match files.exclude patterns relative to the
 project root

---
 bin/src/modules/pbo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index fd697cd..e2286c1 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -122,7 +122,10 @@ fn internal_build(
             }
 
             for exclude in ctx.config().files().exclude() {
-                if glob::Pattern::new(exclude)?.matches(entry.as_str()) {
+                let pattern = glob::Pattern::new(exclude)?;
+                if pattern.matches(entry.as_str())
+                    || pattern.matches(entry.as_str().trim_start_matches('/'))
+                {
                     continue 'entries;
                 }
             }
-- 
2.43.0


From fd09432bef0e0ec587b61255af99c3f911fc053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 56/93] fix: match rapify.exclude patterns relative to the
 addon

---
 bin/src/modules/rapifier.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bin/src/modules/rapifier.rs b/bin/src/modules/rapifier.rs
index a903bb4..de1dd79 100644
--- a/bin/src/modules/rapifier.rs
+++ b/bin/src/modules/rapifier.rs
@@ -71,10 +71,13 @@ impl Module for Rapifier {
                     if entry.metadata()?.file_type == VfsFileType::File
                         && can_rapify(entry.as_str())
                     {
-                        if globs
-                            .iter()
-                            .any(|pat| pat.matches_with(entry.as_str(), glob_options))
-                        {
+                        let relative = entry
+                            .as_str()
+                            .trim_start_matches(&format!("/{}/", addon.folder()));
+                        if globs.iter().any(|pat| {
+                            pat.matches_with(relative, glob_options)
+                                || pat.matches_with(entry.as_str(), glob_options)
+                        }) {
                             debug!("skipping {}", entry.as_str());
                             continue;
                         }
-- 
2.43.0


From 544c527f0ffd59000de3ebc6506ad2add1b65a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 57/93] fix: an addon with several configs requires the highest
 of their versions

---
 libs/workspace/src/addons.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/workspace/src/addons.rs b/libs/workspace/src/addons.rs
index f42f8c5..8cba917 100644
--- a/libs/workspace/src/addons.rs
+++ b/libs/workspace/src/addons.rs
@@ -263,15 +263,21 @@ impl BuildData {
             .clone()
     }
 
-    /// Sets the required version
+    /// Sets the required version, an addon with several configs requires the highest of them
     ///
     /// # Panics
     /// Panics if the lock is poisoned
     pub fn set_required_version(&self, version: Version, file: WorkspacePath, line: Range<usize>) {
-        *self
+        let mut required = self
             .required_version
             .write()
-            .expect("the required version lock is poisoned") = Some((version, file, line));
+            .expect("the required version lock is poisoned");
+        if required.as_ref().is_some_and(|(current, path, _)| {
+            *current > version || (*current == version && path.as_str() < file.as_str())
+        }) {
+            return;
+        }
+        *required = Some((version, file, line));
     }
 }
 
-- 
2.43.0


From cda9bd49285807e5ae82c8a1e47ffec6b31f18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 58/93] fix: rapify the configs before analyzing SQF, so lints
 know the required version

---
 bin/src/commands/build.rs | 3 ++-
 bin/src/commands/check.rs | 3 ++-
 bin/src/commands/dev.rs   | 3 ++-
 bin/src/commands/mod.rs   | 1 -
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bin/src/commands/build.rs b/bin/src/commands/build.rs
index 33985d5..67db1d2 100644
--- a/bin/src/commands/build.rs
+++ b/bin/src/commands/build.rs
@@ -2,7 +2,7 @@ use crate::{
     context::{self, Context},
     error::Error,
     executor::Executor,
-    modules::{pbo::Collapse, Binarize, Files, Rapifier},
+    modules::{pbo::Collapse, Binarize, Files, Rapifier, SQFCompiler},
     report::Report,
 };
 
@@ -103,6 +103,7 @@ pub fn executor(ctx: Context, args: &BuildArgs) -> Executor {
     if !args.no_rap {
         executor.add_module(Box::<Rapifier>::default());
     }
+    executor.add_module(Box::<SQFCompiler>::default());
     if !args.no_bin {
         executor.add_module(Box::<Binarize>::default());
     }
diff --git a/bin/src/commands/check.rs b/bin/src/commands/check.rs
index a858853..7081d23 100644
--- a/bin/src/commands/check.rs
+++ b/bin/src/commands/check.rs
@@ -3,7 +3,7 @@ use crate::{
     context::Context,
     error::Error,
     executor::Executor,
-    modules::{pbo::Collapse, Binarize, Rapifier},
+    modules::{pbo::Collapse, Binarize, Rapifier, SQFCompiler},
     report::Report,
 };
 
@@ -35,6 +35,7 @@ pub fn execute(_: &Command) -> Result<Report, Error> {
     executor.collapse(Collapse::Yes);
 
     executor.add_module(Box::<Rapifier>::default());
+    executor.add_module(Box::<SQFCompiler>::default());
     executor.add_module(Box::<Binarize>::new(Binarize::new(true)));
 
     info!("Running checks");
diff --git a/bin/src/commands/dev.rs b/bin/src/commands/dev.rs
index 275f944..40697b7 100644
--- a/bin/src/commands/dev.rs
+++ b/bin/src/commands/dev.rs
@@ -5,7 +5,7 @@ use crate::{
     context::Context,
     error::Error,
     executor::Executor,
-    modules::{pbo::Collapse, Binarize, FilePatching, Files, Rapifier},
+    modules::{pbo::Collapse, Binarize, FilePatching, Files, Rapifier, SQFCompiler},
     report::Report,
 };
 
@@ -151,6 +151,7 @@ pub fn context(
     if rapify && !dev.no_rap {
         executor.add_module(Box::<Rapifier>::default());
     }
+    executor.add_module(Box::<SQFCompiler>::default());
     executor.add_module(Box::<Files>::default());
     executor.add_module(Box::<FilePatching>::default());
     if force_binarize || dev.binarize {
diff --git a/bin/src/commands/mod.rs b/bin/src/commands/mod.rs
index c85a061..04c2e9e 100644
--- a/bin/src/commands/mod.rs
+++ b/bin/src/commands/mod.rs
@@ -23,7 +23,6 @@ pub fn global_modules(executor: &mut crate::executor::Executor) {
     executor.add_module(Box::<crate::modules::bom::BOMCheck>::default());
     executor.add_module(Box::<crate::modules::Hooks>::default());
     executor.add_module(Box::<crate::modules::Stringtables>::default());
-    executor.add_module(Box::<crate::modules::SQFCompiler>::default());
 }
 
 #[derive(clap::Args)]
-- 
2.43.0


From 9457ae1fed2279e1c53db779b6703f0a3ba61887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 59/93] fix: find addon prefix files in any case

---
 libs/workspace/src/addons.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/libs/workspace/src/addons.rs b/libs/workspace/src/addons.rs
index 8cba917..1d43d28 100644
--- a/libs/workspace/src/addons.rs
+++ b/libs/workspace/src/addons.rs
@@ -54,26 +54,15 @@ impl Addon {
                 }
             },
             prefix: {
-                let mut prefix = None;
-                let mut files = FILES
-                    .iter()
-                    .map(std::string::ToString::to_string)
+                let mut names = std::fs::read_dir(&path)?
+                    .filter_map(|entry| entry.ok()?.file_name().into_string().ok())
                     .collect::<Vec<_>>();
-                files.append(
-                    &mut FILES
-                        .iter()
-                        .map(|f| f.to_uppercase())
-                        .collect::<Vec<String>>(),
-                );
-                'search: for file in &files {
-                    let path = path.join(file);
-                    if path.exists() {
-                        let content = std::fs::read_to_string(path)?;
-                        prefix = Some(Prefix::new(&content)?);
-                        break 'search;
-                    }
-                }
-                prefix.ok_or_else(|| Error::PrefixMissing(name.clone()))?
+                names.sort();
+                let file = FILES
+                    .iter()
+                    .find_map(|file| names.iter().find(|name| name.to_lowercase() == *file))
+                    .ok_or_else(|| Error::PrefixMissing(name.clone()))?;
+                Prefix::new(&std::fs::read_to_string(path.join(file))?)?
             },
             location,
             name,
-- 
2.43.0


From 50be0f674b6c37397f0226164c6bac10cfab14a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:36 +0000
Subject: [PATCH 60/93] fix: a prefix file in a subfolder does not decide the
 prefix of the addon's PBO

---
 bin/src/modules/pbo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index e2286c1..76086d5 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -111,7 +111,8 @@ fn internal_build(
     pbo.add_property("hemtt", env!("HEMTT_VERSION"));
     pbo.add_property("version", version.to_string());
 
-    'entries: for entry in ctx.workspace_path().join(addon.folder())?.walk_dir()? {
+    let root = ctx.workspace_path().join(addon.folder())?;
+    'entries: for entry in root.walk_dir()? {
         if entry.metadata()?.file_type == VfsFileType::File {
             if entry.filename() == "config.cpp" && entry.parent().join("config.bin")?.exists()? {
                 continue;
@@ -142,6 +143,10 @@ fn internal_build(
             }
 
             if FILES.contains(&entry.filename().to_lowercase().as_str()) {
+                // only the file at the root of the addon decides the prefix of the PBO
+                if entry.parent() != root {
+                    continue;
+                }
                 let prefix = Prefix::new(&entry.read_to_string()?)?;
                 pbo.add_property("prefix", prefix.to_string());
                 pbo.add_property("version", version.to_string());
-- 
2.43.0


From 66630a0637918137100cb03610994bdb6f02ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:53 +0000
Subject: [PATCH 61/93] fix: report files that have a BOM

---
 bin/src/modules/bom.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/src/modules/bom.rs b/bin/src/modules/bom.rs
index 0264919..5121ad9 100644
--- a/bin/src/modules/bom.rs
+++ b/bin/src/modules/bom.rs
@@ -1,6 +1,6 @@
 use std::{io::Read, path::PathBuf, sync::Arc};
 
-use hemtt_workspace::reporting::Code;
+use hemtt_workspace::reporting::{Code, Diagnostic};
 
 use crate::{context::Context, report::Report};
 
@@ -72,4 +72,8 @@ impl Code for BOMError {
     fn message(&self) -> String {
         format!("File `{}` has a BOM marker", self.file)
     }
+
+    fn diagnostic(&self) -> Option<Diagnostic> {
+        Some(Diagnostic::from_code(self))
+    }
 }
-- 
2.43.0


From 68427018667f4d2cfa56f053d5ae9904b103b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 62/93] fix: check the stringtable lints against the
 stringtable lint settings

---
 bin/src/modules/stringtables/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/src/modules/stringtables/mod.rs b/bin/src/modules/stringtables/mod.rs
index 6069eaf..1bc42c1 100644
--- a/bin/src/modules/stringtables/mod.rs
+++ b/bin/src/modules/stringtables/mod.rs
@@ -29,7 +29,7 @@ impl Module for Stringtables {
 
     fn check(&self, ctx: &crate::context::Context) -> Result<crate::report::Report, crate::Error> {
         let mut report = Report::new();
-        report.extend(lint_check(ctx.config().lints().sqf().clone()));
+        report.extend(lint_check(ctx.config().lints().stringtables().clone()));
         Ok(report)
     }
 
-- 
2.43.0


From 7a98a2bb8da70bcca61c523c75573466c7f4534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 63/93] fix: a failing script called from a hook fails the hook

---
 bin/src/modules/hook/libraries/hemtt.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bin/src/modules/hook/libraries/hemtt.rs b/bin/src/modules/hook/libraries/hemtt.rs
index 40a2bf9..2a9be26 100644
--- a/bin/src/modules/hook/libraries/hemtt.rs
+++ b/bin/src/modules/hook/libraries/hemtt.rs
@@ -94,8 +94,11 @@ pub mod project_functions {
             }
             Hooks::run(&hemtt.ctx, path, false)
         }
-        inner_script(hemtt, name)
-            .map_err(|e| e.to_string().into())
-            .map(|(_, d)| d)
+        let (report, ret) = inner_script(hemtt, name).map_err(|e| e.to_string())?;
+        if report.failed() {
+            report.write_to_stdout();
+            return Err(format!("Script {name} failed").into());
+        }
+        Ok(ret)
     }
 }
-- 
2.43.0


From 14ac434ce04f8c70da3ec0fda47cadf58ebaf32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 64/93] fix: errors of hooks and launch report their own codes

---
 bin/src/commands/launch/error/bcle3_workshop_mod_not_found.rs | 2 +-
 bin/src/commands/launch/error/bcle4_arma_not_found.rs         | 2 +-
 bin/src/modules/hook/error/bhe4_runtime_error.rs              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/src/commands/launch/error/bcle3_workshop_mod_not_found.rs b/bin/src/commands/launch/error/bcle3_workshop_mod_not_found.rs
index 738c068..1313050 100644
--- a/bin/src/commands/launch/error/bcle3_workshop_mod_not_found.rs
+++ b/bin/src/commands/launch/error/bcle3_workshop_mod_not_found.rs
@@ -8,7 +8,7 @@ pub struct WorkshopModNotFound {
 
 impl Code for WorkshopModNotFound {
     fn ident(&self) -> &'static str {
-        "BCLE2"
+        "BCLE3"
     }
 
     fn link(&self) -> Option<&str> {
diff --git a/bin/src/commands/launch/error/bcle4_arma_not_found.rs b/bin/src/commands/launch/error/bcle4_arma_not_found.rs
index a2cade1..da59fda 100644
--- a/bin/src/commands/launch/error/bcle4_arma_not_found.rs
+++ b/bin/src/commands/launch/error/bcle4_arma_not_found.rs
@@ -6,7 +6,7 @@ pub struct ArmaNotFound;
 
 impl Code for ArmaNotFound {
     fn ident(&self) -> &'static str {
-        "BCLE5"
+        "BCLE4"
     }
 
     fn message(&self) -> String {
diff --git a/bin/src/modules/hook/error/bhe4_runtime_error.rs b/bin/src/modules/hook/error/bhe4_runtime_error.rs
index 7e0d52e..8355b1f 100644
--- a/bin/src/modules/hook/error/bhe4_runtime_error.rs
+++ b/bin/src/modules/hook/error/bhe4_runtime_error.rs
@@ -16,7 +16,7 @@ pub struct RuntimeError {
 
 impl Code for RuntimeError {
     fn ident(&self) -> &'static str {
-        "BHE3"
+        "BHE4"
     }
 
     fn message(&self) -> String {
-- 
2.43.0


From b2e1b9b0afd00914cdc85d7d40841b3053024bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:19 +0000
Subject: [PATCH 65/93] fix: copying or moving a folder in a script puts it at
 the given path

---
 bin/src/modules/hook/libraries/rfs/path.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bin/src/modules/hook/libraries/rfs/path.rs b/bin/src/modules/hook/libraries/rfs/path.rs
index c688c51..3044191 100644
--- a/bin/src/modules/hook/libraries/rfs/path.rs
+++ b/bin/src/modules/hook/libraries/rfs/path.rs
@@ -50,9 +50,13 @@ pub mod path_functions {
     #[rhai_fn(global, name = "copy", return_raw, pure)]
     pub fn copy(path: &mut PathBuf, other: PathBuf) -> Result<bool, Box<EvalAltResult>> {
         let res = if path.is_dir() {
-            fs_extra::dir::copy(path, other, &fs_extra::dir::CopyOptions::new())
-                .map_err(|e| e.to_string().into())
-                .err()
+            fs_extra::dir::copy(
+                path,
+                other,
+                &fs_extra::dir::CopyOptions::new().copy_inside(true),
+            )
+            .map_err(|e| e.to_string().into())
+            .err()
         } else {
             std::fs::copy(path, other)
                 .map_err(|e| e.to_string().into())
@@ -64,9 +68,13 @@ pub mod path_functions {
     #[rhai_fn(global, name = "move", return_raw, pure)]
     pub fn _move(path: &mut PathBuf, other: PathBuf) -> Result<bool, Box<EvalAltResult>> {
         let res = if path.is_dir() {
-            fs_extra::dir::move_dir(path, other, &fs_extra::dir::CopyOptions::new())
-                .map_err(|e| e.to_string().into())
-                .err()
+            fs_extra::dir::move_dir(
+                path,
+                other,
+                &fs_extra::dir::CopyOptions::new().copy_inside(true),
+            )
+            .map_err(|e| e.to_string().into())
+            .err()
         } else {
             std::fs::rename(path, other)
                 .map_err(|e| e.to_string().into())
-- 
2.43.0


From 0ee25673685e8b2a144716454aee945a053b1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 66/93] fix: create_dir of the virtual file system does not
 cover existing files

---
 bin/src/modules/hook/libraries/vfs/path.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/src/modules/hook/libraries/vfs/path.rs b/bin/src/modules/hook/libraries/vfs/path.rs
index e3738e6..a392f2a 100644
--- a/bin/src/modules/hook/libraries/vfs/path.rs
+++ b/bin/src/modules/hook/libraries/vfs/path.rs
@@ -86,7 +86,8 @@ pub mod path_functions {
 
     #[rhai_fn(global, pure)]
     pub fn create_dir(path: &mut VfsPath) -> bool {
-        path.create_dir().is_ok()
+        // the overlay would shadow an existing file or directory of a lower layer
+        !path.exists().unwrap_or(true) && path.create_dir().is_ok()
     }
 
     #[rhai_fn(global, pure)]
-- 
2.43.0


From aedcd36f6e96fb51e086668bc5d73b4007751ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:39 +0000
Subject: [PATCH 67/93] fix: required_version looks at every command, in any
 case

---
 libs/sqf/src/lib.rs                 | 72 +++++++++++------------------
 libs/sqf/src/parser/database/mod.rs | 11 ++++-
 2 files changed, 37 insertions(+), 46 deletions(-)

diff --git a/libs/sqf/src/lib.rs b/libs/sqf/src/lib.rs
index fb24060..6b15715 100644
--- a/libs/sqf/src/lib.rs
+++ b/libs/sqf/src/lib.rs
@@ -43,62 +43,46 @@ impl Statements {
 
     #[must_use]
     /// Gets the highest version required by any command in this code chunk.
+    ///
+    /// Code inside of it is a chunk of its own.
     pub fn required_version(&self, database: &Database) -> (String, Version, Range<usize>) {
-        // TODO can probably replace String with Rc<str>
-        fn extract_expression(
-            expression: &Expression,
-            database: &Database,
-        ) -> Option<(String, Version, Range<usize>)> {
+        fn commands<'a>(expression: &'a Expression, out: &mut Vec<(&'a str, &'a Range<usize>)>) {
             match expression {
-                Expression::NularCommand(command, span) => Some((
-                    command.as_str().to_string(),
-                    *database.command_version(command.as_str())?,
-                    span.clone(),
-                )),
-                Expression::UnaryCommand(command, children, span) => {
-                    let command_version = database.command_version(command.as_str())?;
-                    let left = extract_expression(children, database)?;
-                    let left_version = database.command_version(&left.0)?;
-                    if command_version > left_version {
-                        Some((command.as_str().to_string(), *command_version, span.clone()))
-                    } else {
-                        Some((left.0, left.1, left.2))
-                    }
+                Expression::NularCommand(command, span) => out.push((command.as_str(), span)),
+                Expression::UnaryCommand(command, child, span) => {
+                    commands(child, out);
+                    out.push((command.as_str(), span));
                 }
                 Expression::BinaryCommand(command, left, right, span) => {
-                    let command_version = database.command_version(command.as_str())?;
-                    let left = extract_expression(left, database)?;
-                    let left_version = database.command_version(&left.0)?;
-                    let right = extract_expression(right, database)?;
-                    let right_version = database.command_version(&right.0)?;
-                    if command_version > left_version && command_version > right_version {
-                        Some((command.as_str().to_string(), *command_version, span.clone()))
-                    } else if left_version > right_version {
-                        Some((left.0, left.1, left.2))
-                    } else {
-                        Some((right.0, right.1, right.2))
-                    }
+                    commands(left, out);
+                    commands(right, out);
+                    out.push((command.as_str(), span));
                 }
-                Expression::Code(statements) => {
-                    let (command, version, span) = statements.required_version(database);
-                    Some((command.as_str().to_string(), version, span))
+                Expression::Array(elements, _) | Expression::ConsumeableArray(elements, _) => {
+                    for element in elements {
+                        commands(element, out);
+                    }
                 }
-                _ => None,
+                _ => {}
             }
         }
-        let mut version = Version::new(0, 0);
-        let mut span = 0..0;
-        let mut command = String::new();
+        let mut used = Vec::new();
         for statement in &self.content {
-            if let Some((used_command, command_version, command_span)) = match statement {
+            match statement {
                 Statement::AssignGlobal(_, expression, _)
                 | Statement::AssignLocal(_, expression, _)
-                | Statement::Expression(expression, _) => extract_expression(expression, database),
-            } {
-                if command_version > version {
+                | Statement::Expression(expression, _) => commands(expression, &mut used),
+            }
+        }
+        let mut version = Version::new(0, 0);
+        let mut span = 0..0;
+        let mut command = String::new();
+        for (used_command, used_span) in used {
+            if let Some(used_version) = database.command_version(used_command) {
+                if *used_version > version {
                     command = used_command.to_string();
-                    version = command_version;
-                    span = command_span.clone();
+                    version = *used_version;
+                    span = used_span.clone();
                 }
             }
         }
diff --git a/libs/sqf/src/parser/database/mod.rs b/libs/sqf/src/parser/database/mod.rs
index 528bfcb..ac6f5ac 100644
--- a/libs/sqf/src/parser/database/mod.rs
+++ b/libs/sqf/src/parser/database/mod.rs
@@ -219,9 +219,16 @@ impl Database {
 
     #[must_use]
     pub fn command_version(&self, command: &str) -> Option<&Version> {
-        self.wiki
-            .commands()
+        let commands = self.wiki.commands();
+        commands
             .get(command)
+            .or_else(|| {
+                // commands are not case-sensitive
+                commands
+                    .iter()
+                    .find(|(name, _)| name.eq_ignore_ascii_case(command))
+                    .map(|(_, command)| command)
+            })
             .and_then(|c| c.since().arma_3())
     }
 }
-- 
2.43.0


From c03dfe709d1bf72314376a3129c7421743287729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:59 +0000
Subject: [PATCH 68/93] fix: point at the right place of hooks with CRLF or
 non-ASCII text

---
 bin/src/modules/hook/error/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bin/src/modules/hook/error/mod.rs b/bin/src/modules/hook/error/mod.rs
index bcccbb4..bcfa0a0 100644
--- a/bin/src/modules/hook/error/mod.rs
+++ b/bin/src/modules/hook/error/mod.rs
@@ -8,16 +8,17 @@ pub mod bhe3_parse_error;
 pub mod bhe4_runtime_error;
 
 fn get_offset(content: &str, location: Position) -> usize {
+    let Some(line) = location.line() else {
+        return 0;
+    };
     let mut offset = 0;
-    for (i, line) in content.lines().enumerate() {
-        if i + 1 == location.line().expect("location should have a line number") {
-            offset += location
-                .position()
-                .expect("location should have a column number")
-                - 1;
-            break;
+    for (i, text) in content.split_inclusive('\n').enumerate() {
+        if i + 1 == line {
+            // rhai counts characters, labels are in bytes
+            let column = location.position().unwrap_or(1).saturating_sub(1);
+            return offset + text.chars().take(column).map(char::len_utf8).sum::<usize>();
         }
-        offset += line.len() + 1;
+        offset += text.len();
     }
     offset
 }
-- 
2.43.0


From 26d8465c8846481c79d83a446226c52bc9c6fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:11 +0000
Subject: [PATCH 69/93] fix: ignore folders inside the folder of a hook phase

Only files are run as hooks, but any command failed with an IO error while
checking the hooks when a phase had a folder.
---
 bin/src/modules/hook/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/src/modules/hook/mod.rs b/bin/src/modules/hook/mod.rs
index 035b3a2..c82a367 100644
--- a/bin/src/modules/hook/mod.rs
+++ b/bin/src/modules/hook/mod.rs
@@ -210,6 +210,9 @@ impl Module for Hooks {
                         .join("hooks")?
                         .join(phase)?
                         .join(hook.file_name().to_str().expect("file name is valid utf-8"))?;
+                    if !path.is_file()? {
+                        continue;
+                    }
                     if let Err(e) = engine.compile(&path.read_to_string()?) {
                         report.push(RhaiParseError::code(path, e.0, e.1));
                     }
-- 
2.43.0


From 4e1cad1be49a7276d5c6fa38698c210aad559a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:43 +0000
Subject: [PATCH 70/93] fix: name an addon once in the localization coverage

An addon with several packages was listed once for every package that lacks
a translation, which also made the number of addons with gaps too large.
---
 bin/src/commands/localization/coverage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/src/commands/localization/coverage.rs b/bin/src/commands/localization/coverage.rs
index 0585d37..1c57e08 100644
--- a/bin/src/commands/localization/coverage.rs
+++ b/bin/src/commands/localization/coverage.rs
@@ -24,7 +24,12 @@ macro_rules! missing {
     ($totals:ident, $missing:ident, $lang:tt, $addon:expr) => {
         paste::paste! {
             if $totals.$lang() != $totals.total() {
-                $missing.entry(stringify!($lang)).or_insert_with(Vec::new).push($addon);
+                let addons: &mut Vec<String> = $missing.entry(stringify!($lang)).or_default();
+                let addon = $addon;
+                // an addon can have several packages with gaps
+                if !addons.contains(&addon) {
+                    addons.push(addon);
+                }
             }
         }
     };
-- 
2.43.0


From 91918338ebaf2fe7478fe34e199b76fcea73547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:43 +0000
Subject: [PATCH 71/93] fix: do not unpack files of a PBO outside of the output
 directory

Names with '..' or an absolute path were written wherever they point to.
---
 bin/src/utils/pbo/unpack.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bin/src/utils/pbo/unpack.rs b/bin/src/utils/pbo/unpack.rs
index 4c11063..7108e89 100644
--- a/bin/src/utils/pbo/unpack.rs
+++ b/bin/src/utils/pbo/unpack.rs
@@ -1,7 +1,7 @@
 use std::{
     fs::{File, OpenOptions},
     io::Write,
-    path::PathBuf,
+    path::{Component, Path, PathBuf},
 };
 
 use hemtt_pbo::ReadablePbo;
@@ -28,6 +28,18 @@ pub fn execute(args: &PboUnpackArgs) -> Result<(), Error> {
         error!("Output directory already exists");
         return Ok(());
     }
+    for header in pbo.files() {
+        if !contained(header.filename()) {
+            error!(
+                "File `{}` would be unpacked outside of the output directory",
+                header.filename()
+            );
+            return Err(Error::Io(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "PBO contains an unsafe path",
+            )));
+        }
+    }
     std::fs::create_dir_all(&output)?;
     for (key, value) in pbo.properties() {
         debug!("{}: {}", key, value);
@@ -53,3 +65,10 @@ pub fn execute(args: &PboUnpackArgs) -> Result<(), Error> {
     }
     Ok(())
 }
+
+/// Would a file with this name be below the folder it is unpacked to
+fn contained(filename: &str) -> bool {
+    Path::new(&filename.replace('\\', "/"))
+        .components()
+        .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+}
-- 
2.43.0


From 76ed237c778849be9c107c2c2156c28090f67594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:43 +0000
Subject: [PATCH 72/93] fix: leave strings in single quotes alone in utils sqf
 case

Words in them were changed like code, and a double quote in them made the
rest of the file change places with its strings. The end of a comment could
also start another comment, and the start of a comment could end it.
---
 bin/src/utils/sqf/case.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/bin/src/utils/sqf/case.rs b/bin/src/utils/sqf/case.rs
index ca7a514..5e96aa8 100644
--- a/bin/src/utils/sqf/case.rs
+++ b/bin/src/utils/sqf/case.rs
@@ -51,7 +51,8 @@ pub fn execute(args: &SqfCaseArgs) -> Result<(), Error> {
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum InsideQuote {
     No,
-    Yes,
+    Single,
+    Double,
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
@@ -83,6 +84,8 @@ fn file(file: &Path) -> Result<bool, Error> {
     let mut in_quotes = InsideQuote::No;
     let mut in_comment = InsideComment::No;
     let mut inside_ignored_macro = InsideIgnoredMacro::No;
+    // the previous character, unless it was part of the start or end of a comment
+    let mut previous = '\0';
     for char in content.chars() {
         match (char, in_quotes, in_comment, inside_ignored_macro) {
             (
@@ -93,18 +96,22 @@ fn file(file: &Path) -> Result<bool, Error> {
             ) => {
                 buffer.push(char);
             }
-            ('"', _, InsideComment::No, _) => {
-                if in_quotes == InsideQuote::No {
-                    check_buffer(&mut out, &mut buffer, &wiki);
-                    in_quotes = InsideQuote::Yes;
+            ('"' | '\'', InsideQuote::No, InsideComment::No, _) => {
+                check_buffer(&mut out, &mut buffer, &wiki);
+                in_quotes = if char == '"' {
+                    InsideQuote::Double
                 } else {
-                    in_quotes = InsideQuote::No;
-                }
+                    InsideQuote::Single
+                };
+                out.push(char);
+            }
+            ('"', InsideQuote::Double, _, _) | ('\'', InsideQuote::Single, _, _) => {
+                in_quotes = InsideQuote::No;
                 out.push(char);
             }
             ('/', InsideQuote::No, InsideComment::No, _) => {
                 check_buffer(&mut out, &mut buffer, &wiki);
-                if out.ends_with('/') {
+                if previous == '/' {
                     in_comment = InsideComment::Single;
                 }
                 out.push(char);
@@ -118,16 +125,20 @@ fn file(file: &Path) -> Result<bool, Error> {
             }
             ('*', InsideQuote::No, InsideComment::No, _) => {
                 check_buffer(&mut out, &mut buffer, &wiki);
-                if out.ends_with('/') {
+                out.push(char);
+                if previous == '/' {
                     in_comment = InsideComment::Multi;
+                    previous = '\0';
+                    continue;
                 }
-                out.push(char);
             }
             ('/', InsideQuote::No, InsideComment::Multi, _) => {
-                if out.ends_with('*') {
+                out.push(char);
+                if previous == '*' {
                     in_comment = InsideComment::No;
+                    previous = '\0';
+                    continue;
                 }
-                out.push(char);
             }
             ('(', InsideQuote::No, InsideComment::No, InsideIgnoredMacro::No) => {
                 // ignore arguments to macros
@@ -152,11 +163,12 @@ fn file(file: &Path) -> Result<bool, Error> {
                 check_buffer(&mut out, &mut buffer, &wiki);
                 out.push(char);
             }
-            (_, InsideQuote::Yes, _, _)
+            (_, InsideQuote::Single | InsideQuote::Double, _, _)
             | (_, _, InsideComment::Single | InsideComment::Multi, _) => {
                 out.push(char);
             }
         }
+        previous = char;
     }
     // flush buffer if we ended on non-whitepsace
     check_buffer(&mut out, &mut buffer, &wiki);
-- 
2.43.0


From a03a28cb90c78cda868dcfd94879205144819109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:58 +0000
Subject: [PATCH 73/93] fix: write the properties of a PBO in the same order
 every time

The order of the properties from project.toml and addon.toml was random, the
same project could give another PBO with every build.
---
 bin/src/commands/value.rs | 4 +++-
 bin/src/modules/pbo.rs    | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bin/src/commands/value.rs b/bin/src/commands/value.rs
index e70ff2a..f80cecd 100644
--- a/bin/src/commands/value.rs
+++ b/bin/src/commands/value.rs
@@ -1,3 +1,5 @@
+use std::collections::BTreeMap;
+
 use hemtt_common::version::Version;
 
 use crate::{context::Context, error::Error, report::Report};
@@ -33,7 +35,7 @@ pub fn execute(cmd: &Command) -> Result<Report, Error> {
         "project.properties" => {
             println!("{}", {
                 let mut props = String::new();
-                for (key, value) in ctx.config().properties() {
+                for (key, value) in ctx.config().properties().iter().collect::<BTreeMap<_, _>>() {
                     props.push_str(&format!("{key}: {value}\n"));
                 }
                 props
diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index 76086d5..2b56e67 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::BTreeMap,
     fs::{create_dir_all, File},
     sync::atomic::{AtomicU16, Ordering},
 };
@@ -165,11 +166,12 @@ fn internal_build(
             pbo.add_file(file, entry.open_file()?)?;
         }
     }
-    for header in ctx.config().properties() {
+    // sorted, the same project always gives the same PBO
+    for header in ctx.config().properties().iter().collect::<BTreeMap<_, _>>() {
         pbo.add_property(header.0, header.1.clone());
     }
     if let Some(config) = addon.config() {
-        for header in config.properties() {
+        for header in config.properties().iter().collect::<BTreeMap<_, _>>() {
             pbo.add_property(header.0, header.1.clone());
         }
     }
-- 
2.43.0


From 003fbab45c243304ca4076e26830c70936d8c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 74/93] fix: find the project when launching on Linux

The path of the project already had the drive of Wine when it was looked up,
so every launch failed with a workshop mod that was not found. The drive is
added to the paths of all mods afterwards.
---
 bin/src/commands/launch/launcher.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index b05c11f..5585a67 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -85,11 +85,7 @@ impl Launcher {
         self.workshop.push({
             let mut path = std::env::current_dir()?;
             path.push(".hemttout/dev");
-            if cfg!(target_os = "linux") {
-                format!("Z:{}", path.display())
-            } else {
-                path.display().to_string()
-            }
+            path.display().to_string()
         });
         Ok(())
     }
@@ -319,11 +315,7 @@ impl Launcher {
     }
 
     pub fn add_external_mod(&mut self, path: String) {
-        self.workshop.push(if cfg!(target_os = "linux") {
-            format!("Z:{path}")
-        } else {
-            path
-        });
+        self.workshop.push(path);
     }
 
     pub fn add_options(&mut self, options: Vec<String>) {
-- 
2.43.0


From 2e197de0b286ce6c2c3b114e530022ca9febeabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 75/93] fix: pass -filePatching to a single instance on Linux

---
 bin/src/commands/launch/launcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index 5585a67..25d183e 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -241,7 +241,7 @@ impl Launcher {
             Ok(Some(if cfg!(target_os = "windows") {
                 super::platforms::windows(&self.arma3, &self.executable, &instances[0])?
             } else {
-                super::platforms::linux(&args)?
+                super::platforms::linux(&instances[0])?
             }))
         } else {
             let mut children = Vec::new();
-- 
2.43.0


From 9d6a81546c347115d58dacb2a25c5c83b2c06b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 76/93] fix: do not crash when launching zero instances

---
 bin/src/commands/launch/launcher.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index 25d183e..071647d 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -252,9 +252,7 @@ impl Launcher {
                     super::platforms::linux(&instance)?
                 });
             }
-            Ok(Some(
-                children.into_iter().next().expect("At least one child"),
-            ))
+            Ok(children.into_iter().next())
         }
     }
 
-- 
2.43.0


From 1eca173fb0d38552cc23052936e86803dee6b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 77/93] fix: launch with native steam when flatpak is not
 installed

---
 bin/src/commands/launch/platforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/src/commands/launch/platforms.rs b/bin/src/commands/launch/platforms.rs
index 4bfc765..76c3ece 100644
--- a/bin/src/commands/launch/platforms.rs
+++ b/bin/src/commands/launch/platforms.rs
@@ -28,7 +28,7 @@ pub fn linux(args: &[String]) -> Result<Child, Error> {
         .arg("list")
         .arg("--app")
         .output()
-        .map(|o| String::from_utf8_lossy(&o.stdout).contains("com.valvesoftware.Steam"))?;
+        .is_ok_and(|o| String::from_utf8_lossy(&o.stdout).contains("com.valvesoftware.Steam"));
     let child = if flatpak {
         warn!(
             "A flatpak override will be created to grant Steam access to the .hemttout directory"
-- 
2.43.0


From b798fb2a24313aa654c9ec48aa485393f3506d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 78/93] fix: replace broken links

As on Windows. Launching failed when the link in the Arma 3 folder pointed to
a project that was moved.
---
 bin/src/link.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/src/link.rs b/bin/src/link.rs
index 1d29084..a8e7c2c 100644
--- a/bin/src/link.rs
+++ b/bin/src/link.rs
@@ -106,6 +106,10 @@ pub fn create_link(link: &PathBuf, target: &PathBuf) -> Result<(), Error> {
         );
         return Ok(());
     }
+    if link.is_symlink() {
+        trace!("removing broken symlink {:?}", link);
+        std::fs::remove_file(link)?;
+    }
     trace!("symlink {:?} => {:?}", link, target);
     std::os::unix::fs::symlink(target, link)?;
     Ok(())
-- 
2.43.0


From 851ad05d296e9c7281504b248efb4a521f1fa7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:08 +0000
Subject: [PATCH 79/93] fix: find launch presets with a dot in their name

---
 bin/src/commands/launch/launcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index 071647d..10b008a 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -98,7 +98,11 @@ impl Launcher {
     pub fn add_preset(&mut self, preset: &str, report: &mut Report) -> Result<(), Error> {
         let presets = std::env::current_dir()?.join(".hemtt/presets");
         trace!("Loading preset: {}", preset);
-        let html = presets.join(preset).with_extension("html");
+        let mut html = presets.join(format!("{preset}.html"));
+        if !html.exists() {
+            // the name was given with an extension
+            html = presets.join(preset).with_extension("html");
+        }
         if !html.exists() {
             report.push(PresetNotFound::code(preset.to_string(), &presets));
             return Ok(());
-- 
2.43.0


From b066ec666520d9d34413faf274dc45b071878cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:49 +0000
Subject: [PATCH 80/93] fix: find scripts with a dot in their name

---
 bin/src/modules/hook/libraries/hemtt.rs |  2 +-
 bin/src/modules/hook/mod.rs             | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bin/src/modules/hook/libraries/hemtt.rs b/bin/src/modules/hook/libraries/hemtt.rs
index 2a9be26..9e1eb65 100644
--- a/bin/src/modules/hook/libraries/hemtt.rs
+++ b/bin/src/modules/hook/libraries/hemtt.rs
@@ -80,7 +80,7 @@ pub mod project_functions {
     pub fn script(hemtt: &mut RhaiHemtt, name: &str) -> Result<Dynamic, Box<EvalAltResult>> {
         fn inner_script(hemtt: &mut RhaiHemtt, name: &str) -> Result<(Report, Dynamic), Error> {
             let scripts = hemtt.ctx.workspace_path().join(".hemtt")?.join("scripts")?;
-            let path = scripts.join(name)?.with_extension("rhai")?;
+            let path = Hooks::script_path(&scripts, name)?;
             trace!("running script: {}", path.as_str());
             if !path.exists()? {
                 return Ok((
diff --git a/bin/src/modules/hook/mod.rs b/bin/src/modules/hook/mod.rs
index c82a367..7221aa3 100644
--- a/bin/src/modules/hook/mod.rs
+++ b/bin/src/modules/hook/mod.rs
@@ -121,7 +121,7 @@ impl Hooks {
     pub fn run_file(ctx: &Context, name: &str) -> Result<(Report, Dynamic), Error> {
         let mut report = Report::new();
         let scripts = ctx.workspace_path().join(".hemtt")?.join("scripts")?;
-        let path = scripts.join(name)?.with_extension("rhai")?;
+        let path = Self::script_path(&scripts, name)?;
         trace!("running script: {}", path.as_str());
         if !path.exists()? {
             report.push(ScriptNotFound::code(name.to_owned(), &scripts)?);
@@ -132,6 +132,15 @@ impl Hooks {
         res
     }
 
+    /// Find a script by its name, with or without its extension
+    fn script_path(scripts: &WorkspacePath, name: &str) -> Result<WorkspacePath, Error> {
+        let path = scripts.join(format!("{name}.rhai"))?;
+        if path.exists()? {
+            return Ok(path);
+        }
+        Ok(scripts.join(name)?.with_extension("rhai")?)
+    }
+
     #[allow(clippy::needless_pass_by_value)] // rhai things
     fn run(ctx: &Context, path: WorkspacePath, vfs: bool) -> Result<(Report, Dynamic), Error> {
         let mut report = Report::new();
-- 
2.43.0


From f31d408a62dddcf303580b87a862b1eab146ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:39 +0000
Subject: [PATCH 81/93] fix: put the author and the year into the license of a
 new project

---
 bin/src/modules/new/license.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/src/modules/new/license.rs b/bin/src/modules/new/license.rs
index 571e723..7760ffe 100644
--- a/bin/src/modules/new/license.rs
+++ b/bin/src/modules/new/license.rs
@@ -39,8 +39,8 @@ impl Licenses {
             _ => unreachable!(),
         };
 
-        Some(license.replace("{author}", author).replace(
-            "{year}",
+        Some(license.replace("{AUTHOR}", author).replace(
+            "{YEAR}",
             time::OffsetDateTime::now_utc().year().to_string().as_str(),
         ))
     }
-- 
2.43.0


From ff101fed1f273157435b24189d2453b2637bc21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:39 +0000
Subject: [PATCH 82/93] fix: escape the answers in the project.toml of a new
 project

---
 bin/src/commands/new/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bin/src/commands/new/mod.rs b/bin/src/commands/new/mod.rs
index ff6f1c6..fcea962 100644
--- a/bin/src/commands/new/mod.rs
+++ b/bin/src/commands/new/mod.rs
@@ -110,8 +110,15 @@ pub fn execute(cmd: &Command, in_test: bool) -> Result<Report, Error> {
     create_dir(&hemtt_path)?;
     let mut file = std::fs::File::create(hemtt_path.join("project.toml"))?;
     file.write_all(
-        format!("name = \"{full_name}\"\nauthor = \"{author}\"\nprefix = \"{prefix}\"\nmainprefix = \"{mainprefix}\"\n")
-            .as_bytes(),
+        format!(
+            "name = {}\nauthor = {}\nprefix = {}\nmainprefix = {}\n",
+            // escaped as in TOML
+            serde_json::to_string(&full_name)?,
+            serde_json::to_string(&author)?,
+            serde_json::to_string(&prefix)?,
+            serde_json::to_string(&mainprefix)?,
+        )
+        .as_bytes(),
     )?;
 
     // Create .gitignore
-- 
2.43.0


From c2e59f70d966838f2dafde7f25c6dba9a2123437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:54 +0000
Subject: [PATCH 83/93] fix: a quote of the other kind within a string is part
 of it

---
 libs/workspace/src/reporting/processed.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 35f2c89..54aa44d 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -63,13 +63,12 @@ fn append_token(
             },
             Ok,
         )?;
+    // a quote of the other kind is part of the string it is in
     if token.symbol().is_double_quote() {
         if string_stack.is_empty() {
             string_stack.push('"');
         } else if string_stack.last().expect("string stack is empty") == &'"' {
             string_stack.pop();
-        } else {
-            string_stack.push('"');
         }
     } else if token.symbol().is_single_quote() {
         if string_stack.is_empty() {
@@ -78,8 +77,6 @@ fn append_token(
             && token.position().start().0 != token.position().end().0
         {
             string_stack.pop();
-        } else {
-            string_stack.push('\'');
         }
     }
     if token.symbol().is_newline() {
-- 
2.43.0


From 0a2f4af46944a3192e4540288d0525d97dabbf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:26 +0000
Subject: [PATCH 84/93] fix: recheck a config in the editor when any file it
 reads is saved

---
 hls/src/config/mod.rs                         |  2 +-
 libs/preprocessor/src/processor/directives.rs |  4 ++--
 libs/preprocessor/src/processor/mod.rs        |  2 ++
 libs/workspace/src/reporting/processed.rs     | 15 +++++++++++++++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/hls/src/config/mod.rs b/hls/src/config/mod.rs
index 03af32b..a029c1e 100644
--- a/hls/src/config/mod.rs
+++ b/hls/src/config/mod.rs
@@ -90,7 +90,7 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
                     }
                 }
             }
-            processed.sources().into_iter().map(|(p, _)| p).collect()
+            processed.included().to_vec()
         }
         Err((err_sources, err)) => {
             warn!("failed to parse config: {:?}", err);
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 73ceec5..1b421b1 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -230,9 +230,9 @@ impl Processor {
             }
             found_path
         };
+        self.included_files.push(path.clone());
         let tokens = crate::parse::parse(&path)?;
-        self.file_stack.push(path.clone());
-        self.included_files.push(path);
+        self.file_stack.push(path);
         let mut stream = tokens.into_iter().peekmore();
         let ret = self.file(&mut pragma.child(), &mut stream, buffer);
         self.file_stack.pop();
diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index 14106c6..9f81792 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -73,6 +73,7 @@ impl Processor {
         let mut processor = Self::default();
 
         processor.file_stack.push(path.clone());
+        processor.included_files.push(path.clone());
 
         let tokens =
             crate::parse::parse(path).map_err(|e| (processor.included_files.clone(), e))?;
@@ -105,6 +106,7 @@ impl Processor {
             processor.warnings,
             processor.no_rapify,
         )
+        .map(|processed| processed.with_included(processor.included_files.clone()))
         .map_err(|e| (processor.included_files, e.into()))
     }
 
diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 54aa44d..d6b9c29 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -18,6 +18,8 @@ pub type Sources = Vec<(WorkspacePath, String)>;
 /// A processed file
 pub struct Processed {
     sources: Sources,
+    /// every file that was read, also those without any output
+    included: Vec<WorkspacePath>,
     output: String,
 
     /// character offset for each line
@@ -195,6 +197,19 @@ impl Processed {
         Ok(processed)
     }
 
+    #[must_use]
+    /// Set the files that were read
+    pub fn with_included(mut self, included: Vec<WorkspacePath>) -> Self {
+        self.included = included;
+        self
+    }
+
+    #[must_use]
+    /// Get every file that was read, also those without any output
+    pub fn included(&self) -> &[WorkspacePath] {
+        &self.included
+    }
+
     #[must_use]
     /// Get the output suitable for further processing
     /// Ignores certain tokens
-- 
2.43.0


From e88326417bb3e2d5ea61b3ca0b2ee5e216897c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:17 +0000
Subject: [PATCH 85/93] fix: publish the latest diagnostics last in the editor

---
 hls/src/diag_manager.rs | 43 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/hls/src/diag_manager.rs b/hls/src/diag_manager.rs
index 671ae70..1d6c3ca 100644
--- a/hls/src/diag_manager.rs
+++ b/hls/src/diag_manager.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashSet,
     mem::MaybeUninit,
-    sync::{atomic::AtomicBool, Arc, Mutex, RwLock},
+    sync::{atomic::AtomicBool, Arc, RwLock},
 };
 
 use dashmap::DashMap;
@@ -39,7 +39,7 @@ impl DiagManager {
             *SINGLETON.write().expect("DiagManager poisoned") = MaybeUninit::new(Self {
                 worker: Arc::new(DiagWorker {
                     client,
-                    last_touched: Mutex::new(HashSet::new()),
+                    last_touched: tokio::sync::Mutex::new(HashSet::new()),
                     current: Arc::new(DashMap::new()),
                 }),
             });
@@ -61,13 +61,16 @@ impl DiagManager {
     }
 
     pub fn sync(&self) {
-        self.worker.sync();
+        // the current diagnostics are read when it is their turn to be published,
+        // so that what is published last is always the latest
+        let worker = self.worker.clone();
+        tokio::spawn(async move { worker.sync().await });
     }
 }
 
 pub struct DiagWorker {
     client: Client,
-    last_touched: Mutex<HashSet<Url>>,
+    last_touched: tokio::sync::Mutex<HashSet<Url>>,
     current: Arc<DashMap<(String, Url), Vec<Diagnostic>>>,
 }
 
@@ -87,7 +90,8 @@ impl DiagWorker {
         self.current.retain(|k, _| k.0 != scope);
     }
 
-    pub fn sync(&self) {
+    pub async fn sync(&self) {
+        let mut last_touched = self.last_touched.lock().await;
         let mut touched = HashSet::new();
         let diags = self
             .current
@@ -102,22 +106,17 @@ impl DiagWorker {
                 .or_insert_with(Vec::new)
                 .extend(diags);
         }
-        let client = self.client.clone();
-        let last_touched = self.last_touched.lock().unwrap().clone();
-        *self.last_touched.lock().unwrap() = touched;
-        tokio::spawn(async move {
-            // clear files with previous diagnostics
-            for url in last_touched {
-                debug!("clearing diagnostics for {:?}", url);
-                client
-                    .publish_diagnostics(url.clone(), Vec::new(), None)
-                    .await;
-            }
-            // publish new diagnostics
-            for (url, diags) in diags_by_file {
-                debug!("publishing diagnostics for {:?}", url);
-                client.publish_diagnostics(url, diags, None).await;
-            }
-        });
+        // clear files with previous diagnostics
+        for url in std::mem::replace(&mut *last_touched, touched) {
+            debug!("clearing diagnostics for {:?}", url);
+            self.client
+                .publish_diagnostics(url.clone(), Vec::new(), None)
+                .await;
+        }
+        // publish new diagnostics
+        for (url, diags) in diags_by_file {
+            debug!("publishing diagnostics for {:?}", url);
+            self.client.publish_diagnostics(url, diags, None).await;
+        }
     }
 }
-- 
2.43.0


From b2072406c43795934c0bf81e362e3858b9807553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:50 +0000
Subject: [PATCH 86/93] fix: find the folder of a file in the editor by its
 whole path

---
 hls/src/workspace.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/hls/src/workspace.rs b/hls/src/workspace.rs
index 4506895..d68496c 100644
--- a/hls/src/workspace.rs
+++ b/hls/src/workspace.rs
@@ -59,22 +59,12 @@ impl EditorWorkspaces {
 
     pub fn guess_workspace(&self, uri: &Url) -> Option<EditorWorkspace> {
         let workspaces = self.workspaces.read().unwrap();
-        let mut best = None;
-        let mut best_len = 0;
-        for (folder, workspace) in workspaces.iter() {
-            let path = folder.path();
-            let uri_path = uri.path();
-            let len = path
-                .chars()
-                .zip(uri_path.chars())
-                .take_while(|(a, b)| a == b)
-                .count();
-            if len > best_len {
-                best = Some(workspace.clone());
-                best_len = len;
-            }
-        }
-        best
+        // the innermost folder that contains the file
+        workspaces
+            .values()
+            .filter_map(|workspace| Some((workspace.relative(uri)?.len(), workspace)))
+            .min_by_key(|(len, _)| *len)
+            .map(|(_, workspace)| workspace.clone())
     }
 
     pub async fn guess_workspace_retry(&self, uri: &Url) -> Option<EditorWorkspace> {
@@ -130,8 +120,19 @@ impl EditorWorkspace {
         }
     }
 
+    /// Path of a file in the workspace, starting with a slash
+    fn relative(&self, url: &Url) -> Option<String> {
+        let root = urlencoding::decode(self.url.path()).ok()?;
+        let path = urlencoding::decode(url.path()).ok()?;
+        path.strip_prefix(root.trim_end_matches('/'))
+            .filter(|path| path.starts_with('/'))
+            .map(ToString::to_string)
+    }
+
     pub fn join_url(&self, url: &Url) -> Result<WorkspacePath, String> {
-        let path = url.path().strip_prefix(self.url.path()).unwrap();
+        let path = self
+            .relative(url)
+            .ok_or_else(|| format!("{} is not in {}", url, self.url))?;
         self.workspace.join(path).map_err(|e| format!("{}", e))
     }
 
@@ -143,7 +144,7 @@ impl EditorWorkspace {
         let path = urlencoding::encode(&path);
         let path = path.replace("%2F", "/");
         let mut url = self.url.clone();
-        url.set_path(format!("{}{}", url.path(), path).as_str());
+        url.set_path(format!("{}{}", url.path().trim_end_matches('/'), path).as_str());
         url
     }
 
-- 
2.43.0


From 83d044188e709c253e57ba574062dcc3d6f5680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:24 +0000
Subject: [PATCH 87/93] fix: keep the diagnostics of several folders apart in
 the editor and clear those of a removed one

---
 hls/src/config/mod.rs   | 23 +++++++++++++++++------
 hls/src/diag_manager.rs |  9 +++++++++
 hls/src/workspace.rs    |  5 ++---
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/hls/src/config/mod.rs b/hls/src/config/mod.rs
index a029c1e..6e7f7bc 100644
--- a/hls/src/config/mod.rs
+++ b/hls/src/config/mod.rs
@@ -47,7 +47,8 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
         warn!("failed to get diag manager");
         return;
     };
-    manager.clear_current(&format!("config:{}", source.as_str()));
+    let scope = format!("{}{}", workspace_scope(workspace.url()), source.as_str());
+    manager.clear_current(&scope);
     let mut lsp_diags = HashMap::new();
     let sources = match Processor::run(&source) {
         Ok(processed) => {
@@ -108,11 +109,7 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
         }
     };
     for (file, diags) in lsp_diags {
-        manager.set_current(
-            &format!("config:{}", source.as_str()),
-            &workspace.to_url(&file),
-            diags,
-        );
+        manager.set_current(&scope, &workspace.to_url(&file), diags);
     }
     manager.sync();
     let cache = ConfigCache::get();
@@ -127,6 +124,20 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
     }
 }
 
+/// What the scopes of the diagnostics of a workspace start with
+fn workspace_scope(workspace: &Url) -> String {
+    format!("config:{workspace}:")
+}
+
+pub fn workspace_removed(workspace: &Url) {
+    let Some(manager) = DiagManager::get() else {
+        warn!("failed to get diag manager");
+        return;
+    };
+    manager.clear_scopes(&workspace_scope(workspace));
+    manager.sync();
+}
+
 pub async fn workspace_added(workspace: EditorWorkspace) {
     tokio::spawn(check_addons(workspace));
 }
diff --git a/hls/src/diag_manager.rs b/hls/src/diag_manager.rs
index 1d6c3ca..54dafec 100644
--- a/hls/src/diag_manager.rs
+++ b/hls/src/diag_manager.rs
@@ -60,6 +60,11 @@ impl DiagManager {
         self.worker.clear_current(scope);
     }
 
+    /// Clear all scopes that start with a prefix
+    pub fn clear_scopes(&self, prefix: &str) {
+        self.worker.clear_scopes(prefix);
+    }
+
     pub fn sync(&self) {
         // the current diagnostics are read when it is their turn to be published,
         // so that what is published last is always the latest
@@ -90,6 +95,10 @@ impl DiagWorker {
         self.current.retain(|k, _| k.0 != scope);
     }
 
+    pub fn clear_scopes(&self, prefix: &str) {
+        self.current.retain(|k, _| !k.0.starts_with(prefix));
+    }
+
     pub async fn sync(&self) {
         let mut last_touched = self.last_touched.lock().await;
         let mut touched = HashSet::new();
diff --git a/hls/src/workspace.rs b/hls/src/workspace.rs
index d68496c..62c6a04 100644
--- a/hls/src/workspace.rs
+++ b/hls/src/workspace.rs
@@ -39,8 +39,8 @@ impl EditorWorkspaces {
     pub fn changed(&self, changes: DidChangeWorkspaceFoldersParams) {
         let mut workspaces = self.workspaces.write().unwrap();
         for removed in changes.event.removed {
-            if workspaces.contains_key(&removed.uri) {
-                workspaces.remove(&removed.uri);
+            if workspaces.remove(&removed.uri).is_some() {
+                crate::config::workspace_removed(&removed.uri);
             }
         }
         for added in changes.event.added {
@@ -152,7 +152,6 @@ impl EditorWorkspace {
         &self.workspace
     }
 
-    #[allow(dead_code)]
     pub fn url(&self) -> &Url {
         &self.url
     }
-- 
2.43.0


From 46b0e336e8b48a2a736057cd8626e4ccadfe93a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:28 +0000
Subject: [PATCH 88/93] fix: show the documentation of the command under the
 cursor in the editor

---
 hls/src/sqf/hover.rs  |   3 +-
 hls/src/sqf/locate.rs | 164 +++++++++++++++++++-----------------------
 hls/src/sqf/mod.rs    |   2 +-
 3 files changed, 76 insertions(+), 93 deletions(-)

diff --git a/hls/src/sqf/hover.rs b/hls/src/sqf/hover.rs
index 880add1..1cd16fc 100644
--- a/hls/src/sqf/hover.rs
+++ b/hls/src/sqf/hover.rs
@@ -14,7 +14,8 @@ impl SqfCache {
         let files = self.files.read().unwrap();
         if let Some(cache_bundle) = files.get(&uri) {
             if let Some(expression) =
-                (&cache_bundle.processed, &cache_bundle.statements).locate_expression(uri, position)
+                (&cache_bundle.processed, &cache_bundle.statements)
+                    .locate_expression(&cache_bundle.source, position)
             {
                 match expression {
                     hemtt_sqf::Expression::NularCommand(command, _) => {
diff --git a/hls/src/sqf/locate.rs b/hls/src/sqf/locate.rs
index 7ed0cb5..42bb413 100644
--- a/hls/src/sqf/locate.rs
+++ b/hls/src/sqf/locate.rs
@@ -1,106 +1,88 @@
 use hemtt_sqf::{Expression, Statement, Statements};
-use hemtt_workspace::reporting::Processed;
+use hemtt_workspace::{reporting::Processed, WorkspacePath};
 use tower_lsp::lsp_types::Position;
-use url::Url;
-
-use super::SqfCache;
 
 pub trait Locate {
-    fn locate_expression(&self, uri: Url, position: Position) -> Option<Expression>;
+    fn locate_expression(&self, source: &WorkspacePath, position: Position) -> Option<Expression>;
 }
 
 impl Locate for (&Processed, &Statements) {
-    fn locate_expression(&self, uri: Url, position: Position) -> Option<Expression> {
-        SqfCache::get()
-            .files
-            .read()
-            .unwrap()
-            .get(&uri)
-            .map(|cache_bundle| {
-                let offset = cache_bundle
-                    .processed
-                    .line_offset(&cache_bundle.source, position.line as usize)
-                    .unwrap_or_default()
-                    + position.character as usize;
-                for statement in cache_bundle.statements.content().iter() {
-                    match statement {
-                        Statement::AssignGlobal(_, expression, _)
-                        | Statement::AssignLocal(_, expression, _)
-                        | Statement::Expression(expression, _) => {
-                            if let Some(exp) = locate_expression(self.0, expression, offset) {
-                                return Some(exp);
-                            }
-                        }
-                    }
-                }
-                None
-            })?
+    fn locate_expression(&self, source: &WorkspacePath, position: Position) -> Option<Expression> {
+        let offset = processed_offset(self.0, source, position)?;
+        locate_statements(self.1, offset)
     }
 }
 
-fn locate_expression(
+/// Offset in the processed output of the token at a position of a source file
+fn processed_offset(
     processed: &Processed,
-    expression: &Expression,
-    offset: usize,
-) -> Option<Expression> {
-    let start_map = processed.mapping(expression.full_span().start)?;
-    let end_map = processed.mapping(expression.full_span().end)?;
-    if start_map.original_start() >= offset || end_map.original_end() <= offset {
-        return None;
-    }
-    match expression {
-        Expression::Code(statements) => {
-            for statement in statements.content().iter() {
-                match statement {
-                    Statement::AssignGlobal(_, expression, _)
-                    | Statement::AssignLocal(_, expression, _)
-                    | Statement::Expression(expression, _) => {
-                        if let Some(exp) = locate_expression(processed, expression, offset) {
-                            return Some(exp);
-                        }
-                    }
-                }
-            }
-            None
-        }
-        Expression::String(_, span, _)
-        | Expression::Number(_, span)
-        | Expression::Variable(_, span)
-        | Expression::Boolean(_, span) => {
-            let map = processed.mapping(span.start)?;
-            if map.original_start() <= offset && map.original_end() > offset {
-                Some(expression.clone())
-            } else {
-                None
-            }
-        }
-        Expression::Array(experssions, _) | Expression::ConsumeableArray(experssions, _) => {
-            for expression in experssions.iter() {
-                if let Some(exp) = locate_expression(processed, expression, offset) {
-                    return Some(exp);
-                }
-            }
-            None
-        }
-        Expression::NularCommand(_, _) => Some(expression.clone()),
-        Expression::UnaryCommand(_, lhs, _) => {
-            let start_map = processed.mapping(lhs.full_span().start)?;
-            let end_map = processed.mapping(lhs.full_span().end)?;
-            if start_map.original_start() <= offset && end_map.original_end() > offset {
-                locate_expression(processed, lhs, offset)
-            } else {
-                Some(expression.clone())
-            }
+    source: &WorkspacePath,
+    position: Position,
+) -> Option<usize> {
+    let sources = processed.sources();
+    let (_, content) = sources.iter().find(|(path, _)| path == source)?;
+    let mut lines = content.split_inclusive('\n');
+    let start: usize = lines
+        .by_ref()
+        .take(position.line as usize)
+        .map(str::len)
+        .sum();
+    // editors count UTF-16 code units
+    let mut units = 0;
+    let place = start
+        + lines
+            .next()?
+            .chars()
+            .take_while(|c| {
+                units += c.len_utf16();
+                units <= position.character as usize
+            })
+            .map(char::len_utf8)
+            .sum::<usize>();
+    processed
+        .raw_mappings()
+        .iter()
+        .find(|map| {
+            !map.was_macro()
+                && map.original().path() == source
+                && map.original_start() <= place
+                && place < map.original_end()
+        })
+        .map(|map| map.processed_start().offset())
+}
+
+fn locate_statements(statements: &Statements, offset: usize) -> Option<Expression> {
+    statements.content().iter().find_map(|statement| {
+        let (Statement::AssignGlobal(_, expression, _)
+        | Statement::AssignLocal(_, expression, _)
+        | Statement::Expression(expression, _)) = statement;
+        locate_expression(expression, offset)
+    })
+}
+
+/// The expression whose own text, without that of its operands, is at the offset
+fn locate_expression(expression: &Expression, offset: usize) -> Option<Expression> {
+    let operand = match expression {
+        Expression::Code(statements) => return locate_statements(statements, offset),
+        Expression::Array(expressions, _) | Expression::ConsumeableArray(expressions, _) => {
+            return expressions
+                .iter()
+                .find_map(|expression| locate_expression(expression, offset));
         }
+        Expression::UnaryCommand(_, rhs, _) => locate_expression(rhs, offset),
         Expression::BinaryCommand(_, lhs, rhs, _) => {
-            for hs in [lhs, rhs].iter() {
-                let start_map = processed.mapping(hs.full_span().start)?;
-                let end_map = processed.mapping(hs.full_span().end)?;
-                if start_map.original_start() <= offset && end_map.original_end() > offset {
-                    return locate_expression(processed, hs, offset);
-                }
-            }
-            Some(expression.clone())
+            locate_expression(lhs, offset).or_else(|| locate_expression(rhs, offset))
         }
-    }
+        Expression::String(_, _, _)
+        | Expression::Number(_, _)
+        | Expression::Variable(_, _)
+        | Expression::Boolean(_, _)
+        | Expression::NularCommand(_, _) => None,
+    };
+    operand.or_else(|| {
+        expression
+            .span()
+            .contains(&offset)
+            .then(|| expression.clone())
+    })
 }
diff --git a/hls/src/sqf/mod.rs b/hls/src/sqf/mod.rs
index 3510ea8..37b700c 100644
--- a/hls/src/sqf/mod.rs
+++ b/hls/src/sqf/mod.rs
@@ -53,7 +53,7 @@ impl SqfCache {
                 warn!(
                     "Failed to process {} {:?}",
                     url,
-                    e.1.get_code().unwrap().diagnostic()
+                    e.1.get_code().map(|code| code.diagnostic())
                 );
                 return;
             }
-- 
2.43.0


From 2ff745e83fdeb7ba1bb5129af7b07e66694835b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:32 +0000
Subject: [PATCH 89/93] fix: report a folder that can not be read instead of
 leaving its files out

---
 bin/src/modules/archive.rs |  4 +---
 bin/src/modules/bom.rs     | 26 +++++++++++++++-----------
 libs/workspace/src/lib.rs  | 10 ++++++----
 libs/workspace/src/path.rs | 26 +++++++++++++++-----------
 4 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/bin/src/modules/archive.rs b/bin/src/modules/archive.rs
index f2a1ee2..62fee14 100644
--- a/bin/src/modules/archive.rs
+++ b/bin/src/modules/archive.rs
@@ -35,9 +35,7 @@ pub fn release(ctx: &Context) -> Result<Report, Error> {
     debug!("creating release at {:?}", output.display());
     let mut to_write = Vec::new();
     for entry in WalkDir::new(ctx.build_folder().expect("build folder exists")) {
-        let Ok(entry) = entry else {
-            continue;
-        };
+        let entry = entry?;
         let path = entry.path();
         if path.is_dir() {
             let path = path
diff --git a/bin/src/modules/bom.rs b/bin/src/modules/bom.rs
index 5121ad9..a7b51ec 100644
--- a/bin/src/modules/bom.rs
+++ b/bin/src/modules/bom.rs
@@ -15,20 +15,24 @@ impl Module for BOMCheck {
     }
 
     fn check(&self, ctx: &Context) -> Result<Report, crate::Error> {
-        fn files_to_check(root: &PathBuf) -> Vec<PathBuf> {
+        fn files_to_check(root: &PathBuf) -> Result<Vec<PathBuf>, walkdir::Error> {
             const IGNORED_EXTENSIONS: [&str; 4] = ["p3d", "rtm", "bin", "paa"];
             walkdir::WalkDir::new(root)
                 .into_iter()
-                .filter_map(std::result::Result::ok)
-                .filter(|e| e.file_type().is_file())
-                .filter(|e| !e.path().display().to_string().contains(".hemttout"))
-                .filter(|e| {
-                    e.path().extension().is_some_and(|e| {
-                        !IGNORED_EXTENSIONS.contains(&e.to_str().unwrap_or_default())
-                    })
+                .collect::<Result<Vec<_>, _>>()
+                .map(|entries| {
+                    entries
+                        .into_iter()
+                        .filter(|e| e.file_type().is_file())
+                        .filter(|e| !e.path().display().to_string().contains(".hemttout"))
+                        .filter(|e| {
+                            e.path().extension().is_some_and(|e| {
+                                !IGNORED_EXTENSIONS.contains(&e.to_str().unwrap_or_default())
+                            })
+                        })
+                        .map(|e| e.path().to_path_buf())
+                        .collect::<Vec<_>>()
                 })
-                .map(|e| e.path().to_path_buf())
-                .collect::<Vec<_>>()
         }
         let mut report = Report::new();
         for folder in ["addons", "optionals"] {
@@ -36,7 +40,7 @@ impl Module for BOMCheck {
             if !folder.exists() {
                 continue;
             }
-            let files = files_to_check(&folder);
+            let files = files_to_check(&folder)?;
             for path in files {
                 let mut buffer = [0; 3];
                 let mut file = std::fs::File::open(&path)?;
diff --git a/libs/workspace/src/lib.rs b/libs/workspace/src/lib.rs
index f3f31c4..5c52e92 100644
--- a/libs/workspace/src/lib.rs
+++ b/libs/workspace/src/lib.rs
@@ -8,7 +8,7 @@ use hemtt_common::{
 };
 use pdrive::PDrive;
 use tracing::trace;
-use vfs::{AltrootFS, MemoryFS, OverlayFS, PhysicalFS, VfsPath};
+use vfs::{error::VfsErrorKind, AltrootFS, MemoryFS, OverlayFS, PhysicalFS, VfsPath};
 
 // Re-export for macros
 pub use linkme;
@@ -101,9 +101,11 @@ impl Workspace {
                 continue;
             }
             for entry in root.walk_dir()? {
-                let Ok(entry) = entry else {
-                    trace!("unknown issue with entry: {:?}", entry);
-                    continue;
+                let entry = match entry {
+                    Ok(entry) => entry,
+                    // links that lead nowhere are not files
+                    Err(e) if matches!(e.kind(), VfsErrorKind::FileNotFound) => continue,
+                    Err(e) => return Err(e.into()),
                 };
                 if entry.as_str().contains(".hemtt") {
                     continue;
diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index da3338d..ea51622 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -5,7 +5,7 @@ use std::{
 };
 
 use hemtt_common::strip::StripInsensitive;
-use vfs::{SeekAndWrite, VfsPath};
+use vfs::{error::VfsErrorKind, SeekAndWrite, VfsPath};
 
 use super::{Error, LayerType, Workspace};
 
@@ -350,20 +350,24 @@ impl WorkspacePath {
     ///
     /// # Errors
     /// [`Error::Vfs`] if the workspace could not be walked
-    #[allow(clippy::missing_panics_doc)]
     pub fn walk_dir(&self) -> Result<Vec<Self>, Error> {
-        Ok(self
-            .data
+        self.data
             .path
             .walk_dir()?
-            .filter(std::result::Result::is_ok)
-            .map(|p| Self {
-                data: Arc::new(WorkspacePathData {
-                    path: p.expect("filtered"),
-                    workspace: self.data.workspace.clone(),
-                }),
+            // links that lead nowhere are not files
+            .filter(|p| {
+                !p.as_ref()
+                    .is_err_and(|e| matches!(e.kind(), VfsErrorKind::FileNotFound))
             })
-            .collect())
+            .map(|p| {
+                Ok(Self {
+                    data: Arc::new(WorkspacePathData {
+                        path: p?,
+                        workspace: self.data.workspace.clone(),
+                    }),
+                })
+            })
+            .collect()
     }
 
     /// Read the files in a directory
-- 
2.43.0


From e4aba769fb9c7f24cfd36da31cad17427a72d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:56 +0000
Subject: [PATCH 90/93] fix: fail when a stringtable can not be read or sorted

---
 bin/src/commands/localization/coverage.rs |  3 +--
 bin/src/commands/localization/sort.rs     | 16 ++++++----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/bin/src/commands/localization/coverage.rs b/bin/src/commands/localization/coverage.rs
index 1c57e08..d7138e7 100644
--- a/bin/src/commands/localization/coverage.rs
+++ b/bin/src/commands/localization/coverage.rs
@@ -116,8 +116,7 @@ pub fn coverage(cmd: &Command) -> Result<Report, Error> {
                 Ok(project) => project,
                 Err(e) => {
                     error!("Failed to read stringtable for {}", addon.folder());
-                    error!("{:?}", e);
-                    return Ok(Report::new());
+                    return Err(std::io::Error::other(e.to_string()).into());
                 }
             };
             project.packages().iter().for_each(|package| {
diff --git a/bin/src/commands/localization/sort.rs b/bin/src/commands/localization/sort.rs
index d752c33..c5408fd 100644
--- a/bin/src/commands/localization/sort.rs
+++ b/bin/src/commands/localization/sort.rs
@@ -32,7 +32,7 @@ pub fn sort(cmd: &Command) -> Result<Report, Error> {
         if !ctx.project_folder().join(root).exists() {
             continue;
         }
-        let paths: Vec<PathBuf> = walkdir::WalkDir::new(ctx.project_folder().join(root))
+        let paths = walkdir::WalkDir::new(ctx.project_folder().join(root))
             .into_iter()
             .filter_map(|p| {
                 p.map(|p| {
@@ -42,10 +42,9 @@ pub fn sort(cmd: &Command) -> Result<Report, Error> {
                         None
                     }
                 })
-                .ok()
-                .flatten()
+                .transpose()
             })
-            .collect::<Vec<_>>();
+            .collect::<Result<Vec<PathBuf>, _>>()?;
         for path in paths {
             if path.exists() {
                 let mut file = std::fs::File::open(&path)?;
@@ -57,19 +56,16 @@ pub fn sort(cmd: &Command) -> Result<Report, Error> {
                         let mut writer = String::new();
                         if let Err(e) = project.to_writer(&mut writer) {
                             error!("Failed to write stringtable for {}", path.display());
-                            error!("{:?}", e);
-                            return Ok(Report::new());
+                            return Err(std::io::Error::other(e.to_string()).into());
                         }
                         if let Err(e) = std::fs::write(&path, writer) {
                             error!("Failed to write stringtable for {}", path.display());
-                            error!("{:?}", e);
-                            return Ok(Report::new());
+                            return Err(e.into());
                         }
                     }
                     Err(e) => {
                         error!("Failed to read stringtable for {}", path.display());
-                        error!("{:?}", e);
-                        return Ok(Report::new());
+                        return Err(std::io::Error::other(e.to_string()).into());
                     }
                 };
             }
-- 
2.43.0


From 2c97611bfad3d4db8ff03bd7e4b9d8254868efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 91/93] fix: report a config with errors, a missing config and
 a texture without images instead of accepting or crashing

---
 bin/src/utils/config/inspect.rs | 13 +++++++++++--
 bin/src/utils/paa/convert.rs    |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/bin/src/utils/config/inspect.rs b/bin/src/utils/config/inspect.rs
index 26be1d7..b54cb75 100644
--- a/bin/src/utils/config/inspect.rs
+++ b/bin/src/utils/config/inspect.rs
@@ -26,7 +26,11 @@ pub fn inspect(file: &PathBuf) -> Result<(), Error> {
     let workspacefiles = WorkspaceFiles::new();
     match report {
         Ok(report) => {
-            println!("Config is valid!");
+            if report.errors().is_empty() {
+                println!("Config is valid!");
+            } else {
+                println!("Config is not valid!");
+            }
             if report.patches().is_empty() {
                 println!(" - Contains no CfgPatches");
             } else {
@@ -58,7 +62,12 @@ pub fn inspect(file: &PathBuf) -> Result<(), Error> {
 }
 
 pub fn get_report(file: &PathBuf) -> Result<Result<ConfigReport, Vec<Arc<dyn Code>>>, Error> {
-    assert!(file.is_file());
+    if !file.is_file() {
+        return Err(Error::Io(std::io::Error::new(
+            std::io::ErrorKind::NotFound,
+            format!("not a file: {}", file.display()),
+        )));
+    }
     let folder = PathBuf::from(&file)
         .parent()
         .expect("File has no parent")
diff --git a/bin/src/utils/paa/convert.rs b/bin/src/utils/paa/convert.rs
index 321437b..7a566d0 100644
--- a/bin/src/utils/paa/convert.rs
+++ b/bin/src/utils/paa/convert.rs
@@ -22,7 +22,11 @@ pub fn execute(args: &PaaConvertArgs) -> Result<(), Error> {
         return Ok(());
     }
     let paa = hemtt_paa::Paa::read(std::fs::File::open(paa)?)?;
-    if let Err(e) = paa.maps()[0].get_image().save(output) {
+    let Some(map) = paa.maps().first() else {
+        error!("PAA contains no image");
+        return Ok(());
+    };
+    if let Err(e) = map.get_image().save(output) {
         error!("Failed to save PNG: {}", e);
     } else {
         info!("PAA converted");
-- 
2.43.0


From 8cb9424841a4eca490417a06dff5695d3c0e76fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:25 +0000
Subject: [PATCH 92/93] fix: refuse a texture with too little data for its size
 instead of crashing on it

---
 libs/paa/src/mipmap.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 2e74b1d..5af73de 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -22,12 +22,21 @@ impl MipMap {
         let length = stream.read_u24::<LittleEndian>()?;
         let mut buffer: Box<[u8]> = vec![0; length as usize].into_boxed_slice();
         stream.read_exact(&mut buffer)?;
-        Ok(Self {
+        let map = Self {
             format,
             width,
             height,
             data: buffer.to_vec(),
-        })
+        };
+        if !map.is_compressed()
+            && map.data.len() < format.compressed_size(usize::from(width), usize::from(height))
+        {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "mipmap has too little data for its size",
+            ));
+        }
+        Ok(map)
     }
 
     #[must_use]
@@ -91,7 +100,9 @@ impl MipMap {
         // blocks are decompressed four rows at a time
         let rows = usize::from(self.height).div_ceil(4) * 4;
         let mut out_buffer = vec![0u8; 4 * usize::from(width_2) * rows];
-        if compress {
+        if out_buffer.is_empty() {
+            // nothing to decompress
+        } else if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
             self.format.decompress(
                 &buffer,
-- 
2.43.0


From 5a4e38ab6d19a0897f0e3db7aa075096fc1c8211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:35 +0000
Subject: [PATCH 93/93] fix: show the diagnostics of the latest contents when
 checks of an addon overlap

A check that took longer than one started after it replaced the newer
diagnostics with older ones, showed some for a folder that was removed
meanwhile, and a file it had already read and not yet been registered for
was not checked again when saved.
---
 hls/src/config/mod.rs | 44 +++++++++++++++++++++++++++++++++++++------
 hls/src/workspace.rs  |  8 ++++++++
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/hls/src/config/mod.rs b/hls/src/config/mod.rs
index 6e7f7bc..adb5b0c 100644
--- a/hls/src/config/mod.rs
+++ b/hls/src/config/mod.rs
@@ -3,9 +3,10 @@ use std::{
     sync::{Arc, LazyLock},
 };
 
+use dashmap::DashMap;
 use hemtt_preprocessor::Processor;
 use hemtt_workspace::{reporting::WorkspaceFiles, WorkspacePath};
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 use tracing::{debug, info, warn};
 use url::Url;
 
@@ -21,15 +22,35 @@ pub struct CacheBundle {
 #[derive(Clone)]
 pub struct ConfigCache {
     files: Arc<RwLock<HashMap<WorkspacePath, CacheBundle>>>,
+    /// By scope, held while the addon is checked
+    checks: Arc<DashMap<String, Arc<Mutex<()>>>>,
 }
 
 impl ConfigCache {
     pub fn get() -> Self {
         static SINGLETON: LazyLock<ConfigCache> = LazyLock::new(|| ConfigCache {
             files: Arc::new(RwLock::new(HashMap::new())),
+            checks: Arc::new(DashMap::new()),
         });
         (*SINGLETON).clone()
     }
+
+    fn check_lock(&self, scope: &str) -> Arc<Mutex<()>> {
+        self.checks.entry(scope.to_string()).or_default().clone()
+    }
+
+    /// The addons of a workspace that are being checked, of which it is not yet known
+    /// what they include
+    fn in_progress(&self, workspace: &EditorWorkspace) -> Vec<WorkspacePath> {
+        self.checks
+            .iter()
+            .filter(|check| check.value().try_lock().is_err())
+            .filter_map(|check| {
+                let path = check.key().strip_prefix(&workspace_scope(workspace.url()))?;
+                workspace.root().join(path).ok()
+            })
+            .collect()
+    }
 }
 
 async fn check_addons(workspace: EditorWorkspace) {
@@ -48,7 +69,10 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
         return;
     };
     let scope = format!("{}{}", workspace_scope(workspace.url()), source.as_str());
-    manager.clear_current(&scope);
+    // one check of an addon after the other, so that the last one to start, which reads
+    // the latest contents, is also the last one to finish
+    let lock = ConfigCache::get().check_lock(&scope);
+    let _guard = lock.lock().await;
     let mut lsp_diags = HashMap::new();
     let sources = match Processor::run(&source) {
         Ok(processed) => {
@@ -108,9 +132,12 @@ async fn check_addon(source: WorkspacePath, workspace: EditorWorkspace) {
             err_sources
         }
     };
-    for (file, diags) in lsp_diags {
-        manager.set_current(&scope, &workspace.to_url(&file), diags);
-    }
+    EditorWorkspaces::get().while_open(workspace.url(), || {
+        manager.clear_current(&scope);
+        for (file, diags) in lsp_diags {
+            manager.set_current(&scope, &workspace.to_url(&file), diags);
+        }
+    });
     manager.sync();
     let cache = ConfigCache::get();
     if !sources.is_empty() {
@@ -147,7 +174,7 @@ pub async fn did_save(url: Url) {
         warn!("Failed to find workspace for {:?}", url);
         return;
     };
-    let recheck_addons = {
+    let mut recheck_addons = {
         let cache = ConfigCache::get();
         let files = cache.files.read().await;
         files
@@ -167,6 +194,11 @@ pub async fn did_save(url: Url) {
             })
             .collect::<Vec<_>>()
     };
+    for path in ConfigCache::get().in_progress(&workspace) {
+        if !recheck_addons.contains(&path) {
+            recheck_addons.push(path);
+        }
+    }
     for path in recheck_addons {
         tokio::spawn(check_addon(path.clone(), workspace.clone()));
     }
diff --git a/hls/src/workspace.rs b/hls/src/workspace.rs
index 62c6a04..e7f6870 100644
--- a/hls/src/workspace.rs
+++ b/hls/src/workspace.rs
@@ -57,6 +57,14 @@ impl EditorWorkspaces {
         }
     }
 
+    /// Runs `f` if a workspace is open, which it stays until `f` is done
+    pub fn while_open(&self, url: &Url, f: impl FnOnce()) {
+        let workspaces = self.workspaces.read().unwrap();
+        if workspaces.contains_key(url) {
+            f();
+        }
+    }
+
     pub fn guess_workspace(&self, uri: &Url) -> Option<EditorWorkspace> {
         let workspaces = self.workspaces.read().unwrap();
         // the innermost folder that contains the file
-- 
2.43.0

