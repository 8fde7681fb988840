From 726fe3dc5f089e66a359c1d2dbeed5e52602de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 01/13] fix: address the coefficients of non-square embedding
 domains correctly

A domain has `height` coefficients per row. Taking the column modulo the
number of rows made several bits share a coefficient or fall outside the domain.
---
 lib/sia/rust/embedding/src/io/steganography.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/embedding/src/io/steganography.rs b/lib/sia/rust/embedding/src/io/steganography.rs
index 76cddb5..fa68e21 100644
--- a/lib/sia/rust/embedding/src/io/steganography.rs
+++ b/lib/sia/rust/embedding/src/io/steganography.rs
@@ -20,7 +20,7 @@ pub fn get_capacity(width: usize, height: usize) -> usize {
 }
 
 fn get_column_and_row(offset: usize, width: usize, height: usize) -> (usize, usize) {
-    let column = offset % width;
+    let column = offset % height;
     let row = (offset as f64 / height as f64).floor() as usize;
     (column, row)
 }
-- 
2.43.0


From 5418cae5a34311dc17c1e1b08818a1da32702c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/13] fix: strip the length header when decoding without an
 error correcting code

encode() prepends it whether or not a code is used.
---
 lib/sia/rust/encoding/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3fd5811..6df7a8b 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -110,7 +110,11 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
     // let code_option = get_code_for_decode(bits_length);
     let code_option = get_code_by_codeword_length(codeword_length);
     match code_option {
-        None => bytes.clone(),
+        None => {
+            // No code for this domain: the data follow the length header as they are
+            let bytes_length = bytes_to_u16(bytes[0], bytes[1]) as usize;
+            Vec::from(&bytes[2..bytes_length + 2])
+        }
         Some(code) => {
             let mut decoded_bytes = vec![];
             let code_words = bytes.chunks(code.n() / 8);
-- 
2.43.0


From a9928d6a8dede0a2a1c28e8a495a485a1f67dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 03/13] fix: ignore a trailing partial codeword when decoding

A domain whose capacity is not a multiple of the codeword length made decode()
panic, so that whatever had been embedded there could not be extracted.
---
 lib/sia/rust/encoding/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 6df7a8b..5fd9689 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -117,7 +117,7 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
         }
         Some(code) => {
             let mut decoded_bytes = vec![];
-            let code_words = bytes.chunks(code.n() / 8);
+            let code_words = bytes.chunks_exact(code.n() / 8);
             println!("use LDPC code: ({:?}, {:?})", code.k(), code.n());
             println!("codewords to be decoded: {:?}", code_words.len());
 
-- 
2.43.0


From 23e11d84137f0298bac11920aac8f43b8091976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 04/13] fix: extract an empty payload

Its serialized form is the two length bytes alone.
---
 lib/sia/rust/embedding/src/io/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/embedding/src/io/data.rs b/lib/sia/rust/embedding/src/io/data.rs
index 921eec4..0c6bbec 100644
--- a/lib/sia/rust/embedding/src/io/data.rs
+++ b/lib/sia/rust/embedding/src/io/data.rs
@@ -29,7 +29,7 @@ impl Data {
 pub fn deserialize(bytes: &Vec<u8>) -> Data {
     println!("serialized data bytes: {:?}", bytes);
     let length = bytes.len();
-    if length < 3 {
+    if length < 2 {
         panic!("too short data");
     }
 
-- 
2.43.0


From 9d2cad8399f58bea494ec6c05bcd93eb771f7afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 05/13] fix: refuse to encode data longer than the length
 header can express

The length was truncated to 16 bits and the data could not be decoded.
---
 lib/sia/rust/encoding/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 5fd9689..7b3bcc5 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -49,6 +49,10 @@ fn get_code_for_decode(length: usize) -> Option<LDPCCode> {
 }
 
 pub fn encode(input: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    if input.len() > u16::MAX as usize {
+        panic!("too long data: {:?}", input.len());
+    }
+
     // Prepend input data with amount of bytes
     let bytes_length = input.len() as u16;
     let (length_byte1, length_byte2) = u16_to_bytes(bytes_length);
-- 
2.43.0


From 8a005be4d3dc6ce9a86f5cbe0228b744bb2ca3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 06/13] fix: a malformed signature does not verify

verify() panicked instead of returning false.
---
 lib/sia/rust/signature/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 1b418d6..abe9bf6 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -34,7 +34,10 @@ pub fn verify(data: &Vec<u8>, signature: &Vec<u8>, public_key: &str) -> bool {
 
     let verifier = DSVerifier { verify_key };
 
-    let sig = Signature::from_bytes(signature.as_slice()).unwrap();
+    let sig = match Signature::from_bytes(signature.as_slice()) {
+        Ok(sig) => sig,
+        Err(_) => return false,
+    };
     verifier.verify(data.as_slice(), &sig).is_ok()
 }
 
-- 
2.43.0


From 5c05a0f1d06064b558ee891d92b2258faef68721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 07/13] fix: watermark landscape and portrait images

Pixels are stored row by row, so the matrix has `height` rows of `width`
pixels. The Zernike basis has to cover the longer side: it was built for one
side only, and moments of images higher than wide panicked.
---
 lib/sia/rust/watermarking/src/process.rs | 4 ++--
 lib/sia/rust/zernike/src/calc.rs         | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/sia/rust/watermarking/src/process.rs b/lib/sia/rust/watermarking/src/process.rs
index f5729ef..8a678e1 100644
--- a/lib/sia/rust/watermarking/src/process.rs
+++ b/lib/sia/rust/watermarking/src/process.rs
@@ -24,7 +24,7 @@ pub fn watermark_channel(
     let raw_data = Vec::from(channel.as_raw().clone());
 
     let &(width, height) = &channel.dimensions();
-    let shape = [width as usize, height as usize];
+    let shape = [height as usize, width as usize];
     let pixels_array = Array2::from_shape_vec(shape, raw_data).unwrap();
 
     // 1. Calculate channel features
@@ -76,7 +76,7 @@ pub fn authenticate_channel(
 ) -> bool {
     let raw_data = Vec::from(channel.as_raw().clone());
     let (width, height) = channel.dimensions();
-    let shape = [width as usize, height as usize];
+    let shape = [height as usize, width as usize];
     let pixels_array = Array2::from_shape_vec(shape, raw_data).unwrap();
 
     // 1. Calculate channel features
diff --git a/lib/sia/rust/zernike/src/calc.rs b/lib/sia/rust/zernike/src/calc.rs
index 37f2b5c..39881ba 100644
--- a/lib/sia/rust/zernike/src/calc.rs
+++ b/lib/sia/rust/zernike/src/calc.rs
@@ -12,7 +12,10 @@ pub fn calculate_zernike_image_moment(
 ) -> Complex<f64> {
     let (width, height) = image.dim();
 
-    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, width).into_raw_vec();
+    // A rectangular image is centered in the square grid of its longer side
+    let dimension = width.max(height);
+    let offset = (dimension - width) / 2 * dimension + (dimension - height) / 2;
+    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, dimension).into_raw_vec();
 
     let integral =
         image
@@ -20,7 +23,9 @@ pub fn calculate_zernike_image_moment(
             .enumerate()
             .fold(Complex::new(0., 0.), |accumulator, (i, &next)| {
                 let next_pixel = next as f64;
-                let zernike_multiplier = zernike_matrix_vector.get(i).unwrap();
+                let zernike_multiplier = zernike_matrix_vector
+                    .get(offset + i / height * dimension + i % height)
+                    .unwrap();
 
                 return accumulator + zernike_multiplier * next_pixel;
             });
-- 
2.43.0


From de18f97b7f7e8898318562e3a76a2726f7f0d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 08/13] verif: re-export internals for the conformance harness
 under cfg(sia_verif)

---
 lib/sia/rust/embedding/src/lib.rs    | 5 +++++
 lib/sia/rust/watermarking/src/lib.rs | 6 ++++++
 lib/sia/rust/web/src/lib.rs          | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index b070bcf..6efd9d1 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -8,6 +8,11 @@ use crate::io::data::{deserialize, Data};
 mod haar;
 mod io;
 
+#[cfg(sia_verif)]
+pub mod verif {
+    pub use crate::haar::dwt_2d;
+}
+
 fn get_domain_capacity(domain_width: usize, domain_height: usize) -> usize {
     let capacity = io::steganography::get_capacity(domain_width, domain_height);
     println!("domain capacity: {:?} bytes", capacity);
diff --git a/lib/sia/rust/watermarking/src/lib.rs b/lib/sia/rust/watermarking/src/lib.rs
index 581e3ce..6999e69 100644
--- a/lib/sia/rust/watermarking/src/lib.rs
+++ b/lib/sia/rust/watermarking/src/lib.rs
@@ -8,6 +8,12 @@ use image::{
     imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, Pixel, Rgba,
 };
 
+#[cfg(sia_verif)]
+pub mod verif {
+    pub use crate::process::{authenticate_channel, watermark_channel};
+    pub use crate::watermark::{deserialize, Watermark};
+}
+
 const DWT_LEVELS: usize = 3;
 
 pub fn watermark(
diff --git a/lib/sia/rust/web/src/lib.rs b/lib/sia/rust/web/src/lib.rs
index 602171c..5b6bf18 100644
--- a/lib/sia/rust/web/src/lib.rs
+++ b/lib/sia/rust/web/src/lib.rs
@@ -15,6 +15,12 @@ mod image_model;
 mod logging;
 mod watermarking_process;
 
+#[cfg(sia_verif)]
+pub mod verif {
+    pub use crate::image_model::ImageModel;
+    pub use crate::watermarking_process::WatermarkingProcess;
+}
+
 #[wasm_bindgen]
 pub fn get_watermarking_process(
     blob_js_array: Uint8Array,
-- 
2.43.0


From f93acbfce0818afd6345b7b243c41e50e7a838fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 09/13] fix: hex decoding read a digit after a plus sign as a
 byte

---
 lib/sia/rust/utils/src/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index d89c5e1..5304787 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -3,7 +3,11 @@ use std::{fmt::Write, num::ParseIntError};
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| match &s[i..i + 2] {
+            // a sign is no hex digit
+            pair if pair.starts_with('+') => u8::from_str_radix("+", 16),
+            pair => u8::from_str_radix(pair, 16),
+        })
         .collect()
 }
 
-- 
2.43.0


From e53bf7195b4f7aa7321ea0a8b9a31021e8e3725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 10/13] verif: re-export key generation for the conformance
 harness under cfg(sia_verif)

---
 lib/sia/rust/signature/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index abe9bf6..946c44e 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -8,6 +8,11 @@ use crate::ecdsa::{DalekSigner, DalekVerifier};
 mod ecdsa;
 mod keypair;
 
+#[cfg(sia_verif)]
+pub mod verif {
+    pub use crate::keypair::generate;
+}
+
 pub type DSSigner = DalekSigner<Keypair>;
 pub type DSVerifier = DalekVerifier<PublicKey>;
 
-- 
2.43.0


From 80967642163ffc18f3012e648130d2c6c0ddfe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 11/13] fix: accept data URLs of every media type

The page only stripped the header of data URLs whose media type is made of
letters and digits (image/x-ms-bmp, image/svg+xml, untyped files were refused).
---
 src/Content/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Content/utils.ts b/src/Content/utils.ts
index cc165a9..a940b3c 100644
--- a/src/Content/utils.ts
+++ b/src/Content/utils.ts
@@ -5,7 +5,7 @@ import {
 } from 'sia-watermarking-lib';
 import { ImageModel, WatermarkingProcess } from './image';
 
-const mimeRegex = /^data:image\/[a-zA-Z0-9]+;base64,/;
+const mimeRegex = /^data:[^,]*;base64,/;
 
 const removeMime = (dataUri: string) => dataUri.replace(mimeRegex, '');
 
-- 
2.43.0


From 8985e5990eae9bafba97c5fa1a964e67a360ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 12/13] fix: a slower, earlier file no longer replaces the one
 chosen later

---
 src/Content/Content.tsx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Content/Content.tsx b/src/Content/Content.tsx
index 36e2c21..56c5975 100644
--- a/src/Content/Content.tsx
+++ b/src/Content/Content.tsx
@@ -1,4 +1,4 @@
-import React, { useEffect, useState } from 'react';
+import React, { useEffect, useRef, useState } from 'react';
 import WatermarkingPreview from '../WatermarkingPreview/WatermarkingPreview';
 import init from 'sia-watermarking-lib';
 import * as loadImage from './peppers.jpg';
@@ -35,9 +35,17 @@ const Content = (_: ContentProps) => {
     });
   }, []);
 
+  // Files are read asynchronously: a slower, earlier selection must not replace a later one
+  const selections = useRef({ last: 0, shown: 0 });
+
   const loadImageFromFile = (file: File) => {
+    const selection = ++selections.current.last;
     fileToBase64(file).then(base64EncodedImage => {
+      if (selection < selections.current.shown) {
+        return;
+      }
       setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      selections.current.shown = selection;
     });
   };
 
-- 
2.43.0


From ebcf9b5634b3e65bacd3a2849051fa7725a5574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 13/13] fix: a full disk at the end of a PNG or GIF file was
 reported as a marked image

The encoders write the end of the file when they are dropped and ignore
errors there, so the tool reported outputs that were not complete and
ended successfully. Encode in memory and write the file in one go.
---
 lib/sia/rust/cli/src/main.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/sia/rust/cli/src/main.rs b/lib/sia/rust/cli/src/main.rs
index b6cec75..e8873e0 100644
--- a/lib/sia/rust/cli/src/main.rs
+++ b/lib/sia/rust/cli/src/main.rs
@@ -1,6 +1,6 @@
 extern crate getopts;
 
-use std::fs::File;
+use std::io::Cursor;
 use std::path::Path;
 use std::time::Instant;
 use std::{env, fs};
@@ -54,13 +54,11 @@ fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: O
                     );
                 }
 
-                let mut output_file = File::create(output_path.as_str()).unwrap();
+                let mut output = Cursor::new(Vec::new());
                 watermarked
-                    .write_to(
-                        &mut output_file,
-                        ImageFormat::from_path(&output_path).unwrap(),
-                    )
+                    .write_to(&mut output, ImageFormat::from_path(&output_path).unwrap())
                     .unwrap();
+                fs::write(&output_path, output.into_inner()).unwrap();
 
                 println!(
                     "Watermarked {} ({} -> {} channels) in {}",
-- 
2.43.0

