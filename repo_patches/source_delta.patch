From f3b4e5baca9be0211d07207c62e70b308e027b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 01/11] fix: compress must not write or panic beyond the
 compressed size

The documentation asks for an output buffer of at least compressed_size
bytes. Any space beyond that was split into further blocks, which were
overwritten or, if too short to hold a block, caused a panic.
---
 lib/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ea15d64..d40f38d 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -292,7 +292,11 @@ impl Format {
         params: Params,
         output: &mut [u8],
     ) {
-        assert!(output.len() >= self.compressed_size(width, height));
+        let compressed_size = self.compressed_size(width, height);
+        assert!(output.len() >= compressed_size);
+
+        // the buffer may be larger than the compressed image
+        let output = &mut output[..compressed_size];
 
         let block_size = self.block_size();
         let blocks_wide = num_blocks(width);
-- 
2.43.0


From 169affce0a56bb61b0504d38b44797c2f98be25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 02/11] fix: decompress must not panic when the output buffer
 is larger than the image

The excess was split into further rows of blocks, for which there is no
compressed data.
---
 lib/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index d40f38d..3da5847 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -125,6 +125,10 @@ impl Format {
         let blocks_wide = num_blocks(width);
         let block_size = self.block_size();
 
+        // the buffer may be larger than the image
+        let image_size = (width * height * 4).min(output.len());
+        let output = &mut output[..image_size];
+
         #[cfg(feature = "rayon")]
         let output_rows = output.par_chunks_mut(width * 4 * 4);
         #[cfg(not(feature = "rayon"))]
-- 
2.43.0


From d186a547a03646cb38451fa9cdf9fe2f01105c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 03/11] fix: images of zero width are empty, not an error

Splitting the output into chunks of zero bytes panicked, although images of
zero height were accepted.
---
 lib/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 3da5847..2230c4d 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -128,6 +128,9 @@ impl Format {
         // the buffer may be larger than the image
         let image_size = (width * height * 4).min(output.len());
         let output = &mut output[..image_size];
+        if output.is_empty() {
+            return;
+        }
 
         #[cfg(feature = "rayon")]
         let output_rows = output.par_chunks_mut(width * 4 * 4);
@@ -301,6 +304,9 @@ impl Format {
 
         // the buffer may be larger than the compressed image
         let output = &mut output[..compressed_size];
+        if output.is_empty() {
+            return;
+        }
 
         let block_size = self.block_size();
         let blocks_wide = num_blocks(width);
-- 
2.43.0


From 99544345c4fd0428bc4c99df0b20498dc17637be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 04/11] fix: report errors in writing the end of a PNG file
 instead of exiting with status 0

---
 cli/src/image/png.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cli/src/image/png.rs b/cli/src/image/png.rs
index f7e5c3d..591229d 100644
--- a/cli/src/image/png.rs
+++ b/cli/src/image/png.rs
@@ -20,7 +20,7 @@
 // SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::Path;
 
 use png::{BitDepth, ColorType, Transformations};
@@ -71,12 +71,16 @@ pub fn read(path: &Path) -> RawImage {
 
 pub fn write(path: &Path, width: u32, height: u32, data: &[u8]) {
     let file = File::create(path).expect("Unable to create file");
-    let w = &mut BufWriter::new(file);
+    let mut w = BufWriter::new(file);
 
-    let mut encoder = png::Encoder::new(w, width, height);
+    let mut encoder = png::Encoder::new(&mut w, width, height);
     encoder.set_color(ColorType::Rgba);
     encoder.set_depth(BitDepth::Eight);
     let mut writer = encoder.write_header().unwrap();
 
     writer.write_image_data(data).unwrap();
+
+    // Dropping the writer or the buffer would ignore errors in writing the end of the file
+    writer.finish().unwrap();
+    w.flush().expect("Failed to write output file");
 }
-- 
2.43.0


From 8ae6cf523537c10207a2325aabbec93eaa84a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 05/11] fix: fit the 7-step alpha codebook with its own end
 points

---
 lib/src/alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/alpha.rs b/lib/src/alpha.rs
index d5cde06..c53e3d6 100644
--- a/lib/src/alpha.rs
+++ b/lib/src/alpha.rs
@@ -235,8 +235,8 @@ pub fn compress_bc3(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut
 
     // set up the 7-alpha codebook
     let mut codes7 = [0u8; 8];
-    codes7[0] = min5;
-    codes7[1] = max5;
+    codes7[0] = min7;
+    codes7[1] = max7;
     for i in 1..7i32 {
         codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7)) / 7) as u8;
     }
-- 
2.43.0


From 2f68fd1bfc233c4e881611da3542d1bffd3a1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 06/11] fix: reject DDS files without pixels or of impossible
 size before touching the output file

---
 cli/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 5f82454..0554457 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -188,7 +188,14 @@ fn decompress_file(outfile: Option<PathBuf>, infile: &Path) {
 
     let width = dds.header.width as usize;
     let height = dds.header.height as usize;
-    let mut decompressed = vec![0u8; 4 * width * height];
+    if width == 0 || height == 0 {
+        panic!("Images without pixels are not supported");
+    }
+    let size = width
+        .checked_mul(height)
+        .and_then(|n| n.checked_mul(4))
+        .expect("Image is too large");
+    let mut decompressed = vec![0u8; size];
 
     format.decompress(&dds.data, width, height, &mut decompressed);
 
-- 
2.43.0


From 69de466cb3d7f41a55f3c9163cb7c232efd4a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 07/11] fix: do not try to decompress DDS files with less data
 than their header announces

Decompressing panicked once per row of blocks, so that a small file announcing
a huge image kept all cores busy for minutes or hours.
---
 cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 0554457..af7e696 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -195,6 +195,9 @@ fn decompress_file(outfile: Option<PathBuf>, infile: &Path) {
         .checked_mul(height)
         .and_then(|n| n.checked_mul(4))
         .expect("Image is too large");
+    if dds.data.len() < format.compressed_size(width, height) {
+        panic!("The file ends before the image data is complete");
+    }
     let mut decompressed = vec![0u8; size];
 
     format.decompress(&dds.data, width, height, &mut decompressed);
-- 
2.43.0


From df873af6120669113966a9ee35d84994c9b655bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 08/11] fix: accept format names in upper case, as the
 documentation writes them

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index af7e696..41a4507 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
         infile: PathBuf,
 
         /// Compression format
-        #[arg(short = 'f', long = "format")]
+        #[arg(short = 'f', long = "format", ignore_case = true)]
         format: CliFormat,
 
         /// Compressor profile (speed, balanced, quality).
-- 
2.43.0


From 476d70ab3c2a49259fa215bc741b31eabe86275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 09/11] fix: image sizes whose product overflows are too large,
 not empty

---
 lib/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 2230c4d..6b3315f 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -101,7 +101,7 @@ impl Default for Params {
 
 /// Returns number of blocks needed for an image of given dimension
 pub fn num_blocks(size: usize) -> usize {
-    (size + 3) / 4
+    size / 4 + (size % 4 != 0) as usize
 }
 
 /// BCn formats are laid out in 8-byte blocks of the following types:
@@ -126,7 +126,11 @@ impl Format {
         let block_size = self.block_size();
 
         // the buffer may be larger than the image
-        let image_size = (width * height * 4).min(output.len());
+        let image_size = width
+            .checked_mul(height)
+            .and_then(|pixels| pixels.checked_mul(4))
+            .expect("image is too large")
+            .min(output.len());
         let output = &mut output[..image_size];
         if output.is_empty() {
             return;
@@ -181,8 +185,10 @@ impl Format {
     /// * `height` - Height of the uncompressed image
     pub fn compressed_size(self, width: usize, height: usize) -> usize {
         // Number of blocks required for image of given dimensions
-        let blocks = num_blocks(width) * num_blocks(height);
-        blocks * self.block_size()
+        num_blocks(width)
+            .checked_mul(num_blocks(height))
+            .and_then(|blocks| blocks.checked_mul(self.block_size()))
+            .expect("image is too large")
     }
 
     /// Compresses a 4x4 block of pixels, masking out some pixels e.g. for padding the
-- 
2.43.0


From 246a4651ec9360dba7a4ed4dba82d2803e449054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 10/11] fix: reject PNG files with a damaged chunk instead of
 skipping the chunk

A damaged transparency chunk was skipped silently, so the picture lost its
transparency, and when the image data chunk of an animated PNG was taken for
an unknown one, a later frame of the animation was converted instead.
---
 cli/src/image/png.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/image/png.rs b/cli/src/image/png.rs
index 591229d..ac9af7b 100644
--- a/cli/src/image/png.rs
+++ b/cli/src/image/png.rs
@@ -29,7 +29,12 @@ use super::RawImage;
 
 pub fn read(path: &Path) -> RawImage {
     let file = File::open(path).expect("Failed to open file");
-    let mut decoder = png::Decoder::new(file);
+
+    // Skipping a damaged chunk could lose the transparency, or the image of an animated PNG
+    let mut options = png::DecodeOptions::default();
+    options.set_skip_ancillary_crc_failures(false);
+
+    let mut decoder = png::Decoder::new_with_options(file, options);
     decoder.set_transformations(
         Transformations::EXPAND | Transformations::STRIP_16,
     );
-- 
2.43.0


From 78537206b7c411ba8a2b956d6339efda4be854c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:45 +0000
Subject: [PATCH 11/11] fix: do not unpack the colour profile and texts of a
 PNG file

---
 cli/src/image/png.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/image/png.rs b/cli/src/image/png.rs
index ac9af7b..9c61ff7 100644
--- a/cli/src/image/png.rs
+++ b/cli/src/image/png.rs
@@ -34,6 +34,10 @@ pub fn read(path: &Path) -> RawImage {
     let mut options = png::DecodeOptions::default();
     options.set_skip_ancillary_crc_failures(false);
 
+    // Nothing uses them, and a small file can hold a colour profile of many megabytes
+    options.set_ignore_iccp_chunk(true);
+    options.set_ignore_text_chunk(true);
+
     let mut decoder = png::Decoder::new_with_options(file, options);
     decoder.set_transformations(
         Transformations::EXPAND | Transformations::STRIP_16,
-- 
2.43.0

