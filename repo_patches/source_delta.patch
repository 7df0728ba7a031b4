From 1e4c8e7fcc1536a5cc6ec6ac087b3812fb818ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/10] fix: address watermark bits by domain height so
 non-square domains work

The column of a bit was taken modulo the domain width while the row was
divided by the domain height, so in any non-square domain bits collided or
fell outside the domain.
---
 lib/sia/rust/embedding/src/io/steganography.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/embedding/src/io/steganography.rs b/lib/sia/rust/embedding/src/io/steganography.rs
index 76cddb5..fa68e21 100644
--- a/lib/sia/rust/embedding/src/io/steganography.rs
+++ b/lib/sia/rust/embedding/src/io/steganography.rs
@@ -20,7 +20,7 @@ pub fn get_capacity(width: usize, height: usize) -> usize {
 }
 
 fn get_column_and_row(offset: usize, width: usize, height: usize) -> (usize, usize) {
-    let column = offset % width;
+    let column = offset % height;
     let row = (offset as f64 / height as f64).floor() as usize;
     (column, row)
 }
-- 
2.43.0


From 138298bc326be36ceb1a6aab63cd084cca14932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 02/10] fix: choose an LDPC code for every capacity of at least
 16 bytes

Only a handful of exact capacities selected a code; any other capacity (e.g.
the one of a 640x640 image) was written uncoded and could not be read back.
---
 lib/sia/rust/encoding/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3fd5811..6e6dfac 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -16,11 +16,11 @@ fn u16_to_bytes(number: u16) -> (u8, u8) {
 }
 
 pub fn get_code_by_codeword_length(codeword_length: usize) -> Option<LDPCCode> {
-    match codeword_length * 8 {
-        128 => Option::Some(LDPCCode::TC128),
-        256 => Option::Some(LDPCCode::TC256),
-        512 | 1024 => Option::Some(LDPCCode::TC512),
-        2048 | 4096 => Option::Some(LDPCCode::TM2048),
+    match codeword_length.saturating_mul(8) {
+        128..=255 => Option::Some(LDPCCode::TC128),
+        256..=511 => Option::Some(LDPCCode::TC256),
+        512..=2047 => Option::Some(LDPCCode::TC512),
+        2048..=8191 => Option::Some(LDPCCode::TM2048),
         8192..=usize::MAX => Option::Some(LDPCCode::TM8192),
         _ => Option::None,
     }
-- 
2.43.0


From f400253a1177189bb7130aaf9c56b80ebafdbdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 03/10] fix: ignore a trailing partial codeword when decoding

The bytes read from a domain are as long as its capacity, which need not be a
multiple of the codeword size; the partial last chunk made decoding panic.
---
 lib/sia/rust/encoding/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 6e6dfac..bb00a0d 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -113,7 +113,7 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
         None => bytes.clone(),
         Some(code) => {
             let mut decoded_bytes = vec![];
-            let code_words = bytes.chunks(code.n() / 8);
+            let code_words = bytes.chunks_exact(code.n() / 8);
             println!("use LDPC code: ({:?}, {:?})", code.k(), code.n());
             println!("codewords to be decoded: {:?}", code_words.len());
 
-- 
2.43.0


From a4daba9c6e5292ffcf5059d2cc0f33c0d5bc6bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 04/10] fix: refuse to encode more bytes than the length header
 can hold

The length was truncated to 16 bits, so the longest payloads were embedded
with a wrong length and read back truncated.
---
 lib/sia/rust/encoding/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index bb00a0d..3cb7bda 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -49,6 +49,10 @@ fn get_code_for_decode(length: usize) -> Option<LDPCCode> {
 }
 
 pub fn encode(input: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    if input.len() > u16::MAX as usize {
+        panic!("too long data to be encoded: {:?}", input.len());
+    }
+
     // Prepend input data with amount of bytes
     let bytes_length = input.len() as u16;
     let (length_byte1, length_byte2) = u16_to_bytes(bytes_length);
-- 
2.43.0


From 251b7ba1b2b647d3dc12928ef9547579b0a6bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 05/10] fix: refuse domains of less than 16 bytes when
 embedding

The check looked the capacity up in the table of bit lengths, so capacities of
9 to 15 bytes were accepted and the payload embedded could not be extracted.
---
 lib/sia/rust/embedding/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index b070bcf..848f3c3 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -12,7 +12,7 @@ fn get_domain_capacity(domain_width: usize, domain_height: usize) -> usize {
     let capacity = io::steganography::get_capacity(domain_width, domain_height);
     println!("domain capacity: {:?} bytes", capacity);
 
-    let encode = encoding::get_code_for_encode(capacity);
+    let encode = encoding::get_code_by_codeword_length(capacity);
     if encode.is_none() {
         panic!("minimum allowed embedding capacity is 16 bytes");
     }
-- 
2.43.0


From 4c83ea740689c1160ff2fb8eef06f9e7af4c47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 06/10] fix: report malformed hex instead of panicking

Odd lengths and non-ASCII input made decode_hex panic although it returns a
Result, and a sign was accepted in place of a digit.
---
 lib/sia/rust/utils/src/format.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index d89c5e1..93f3eee 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -3,7 +3,10 @@ use std::{fmt::Write, num::ParseIntError};
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| {
+            let digits = s.get(i..i + 2).filter(|digits| !digits.starts_with('+'));
+            u8::from_str_radix(digits.unwrap_or(""), 16)
+        })
         .collect()
 }
 
-- 
2.43.0


From e29822767aea95046cf62f1e73f9522ba2cf2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 07/10] fix: calculate Zernike moments of images that are
 higher than wide

The matrix had width * width entries, fewer than the image has pixels when its
second dimension is the larger one.
---
 lib/sia/rust/zernike/src/calc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/zernike/src/calc.rs b/lib/sia/rust/zernike/src/calc.rs
index 37f2b5c..15eff72 100644
--- a/lib/sia/rust/zernike/src/calc.rs
+++ b/lib/sia/rust/zernike/src/calc.rs
@@ -12,7 +12,8 @@ pub fn calculate_zernike_image_moment(
 ) -> Complex<f64> {
     let (width, height) = image.dim();
 
-    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, width).into_raw_vec();
+    let dimension = width.max(height);
+    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, dimension).into_raw_vec();
 
     let integral =
         image
-- 
2.43.0


From 1ba77ea6e6a3210ca80a1978c4746b10ed3e94a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 08/10] fix: correct the quantized feature instead of
 quantizing a shifted one

Adding the step to the noised feature rounds, so the sum could fall into the
neighbouring quantization interval (e.g. 1.25 noised to 0.9999999999999999
with step 1 was restored as 2 instead of 1).
---
 .../rust/three-bit-quantization/src/lib.rs    | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/lib/sia/rust/three-bit-quantization/src/lib.rs b/lib/sia/rust/three-bit-quantization/src/lib.rs
index 8e4dc21..d239efc 100644
--- a/lib/sia/rust/three-bit-quantization/src/lib.rs
+++ b/lib/sia/rust/three-bit-quantization/src/lib.rs
@@ -110,15 +110,14 @@ pub fn three_bit_dequantization(
         .map(|chunk| chunk)
         .collect();
 
-    let restored_features = given_perturbation_vector
+    given_perturbation_vector
         .chunks(3)
         .enumerate()
         .map(|(i, given_perturbation_bits)| {
             let calculated_perturbation_bits =
                 *calculated_perturbation_vector_chunks.get(i).unwrap();
 
-            let noised_feature: f64 = *(*noised_features).get(i).unwrap();
-            //let noised_quantized_feature: i64 = *(*noised_quantized_features).get(i).unwrap();
+            let noised_quantized_feature: i64 = *noised_quantized_features.get(i).unwrap();
 
             let given_bit1 = given_perturbation_bits.get(0).unwrap().as_u8();
             let given_bit2 = given_perturbation_bits.get(1).unwrap().as_u8();
@@ -149,25 +148,23 @@ pub fn three_bit_dequantization(
             } as u8;
 
             /*println!(
-                "data: {:?}, {:?}, a: {:?}",
-                noised_feature, noised_quantized_feature, a
+                "data: {:?}, a: {:?}",
+                noised_quantized_feature, a
             );*/
 
             if a == 0 && given_bit3 == 0 {
-                noised_feature + step
+                noised_quantized_feature + 1
             } else if a == 0 && given_bit3 == 1 && calculated_bit3 == 1 {
-                noised_feature + step
+                noised_quantized_feature + 1
             } else if a == 1 && given_bit3 == 1 {
-                noised_feature - step
+                noised_quantized_feature - 1
             } else if a == 1 && given_bit3 == 0 && calculated_bit3 == 0 {
-                noised_feature - step
+                noised_quantized_feature - 1
             } else {
-                noised_feature
+                noised_quantized_feature
             }
         })
-        .collect();
-
-    quantize(&restored_features, step)
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From bc4ccf765124badd40a645c9f28091d4056415c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 09/10] verif: re-export private items under cfg(sia_verif)

---
 lib/sia/rust/embedding/src/lib.rs        | 12 ++++++++++++
 lib/sia/rust/watermarking/src/lib.rs     |  8 ++++++++
 lib/sia/rust/watermarking/src/process.rs |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index 848f3c3..9150fc1 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -8,6 +8,18 @@ use crate::io::data::{deserialize, Data};
 mod haar;
 mod io;
 
+/// Re-exports for the verification harnesses, only built with `--cfg sia_verif`.
+#[cfg(sia_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::haar::dwt_2d;
+    pub use crate::io::data::{deserialize, Data};
+    pub use crate::io::steganography::{
+        get_capacity, WatermarkFromDwtCoefficientsReader, WatermarkToDwtCoefficientsWriter,
+    };
+    pub use crate::io::{read, write};
+}
+
 fn get_domain_capacity(domain_width: usize, domain_height: usize) -> usize {
     let capacity = io::steganography::get_capacity(domain_width, domain_height);
     println!("domain capacity: {:?} bytes", capacity);
diff --git a/lib/sia/rust/watermarking/src/lib.rs b/lib/sia/rust/watermarking/src/lib.rs
index 581e3ce..c53a4cf 100644
--- a/lib/sia/rust/watermarking/src/lib.rs
+++ b/lib/sia/rust/watermarking/src/lib.rs
@@ -3,6 +3,14 @@ extern crate core;
 mod process;
 mod watermark;
 
+/// Re-exports for the verification harnesses, only built with `--cfg sia_verif`.
+#[cfg(sia_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::process::{authenticate_channel, watermark_channel, VERIF_PUBLIC_KEY};
+    pub use crate::watermark::{deserialize, Watermark};
+}
+
 use crate::process::watermark_channel;
 use image::{
     imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, Pixel, Rgba,
diff --git a/lib/sia/rust/watermarking/src/process.rs b/lib/sia/rust/watermarking/src/process.rs
index f5729ef..f57ca6e 100644
--- a/lib/sia/rust/watermarking/src/process.rs
+++ b/lib/sia/rust/watermarking/src/process.rs
@@ -14,6 +14,9 @@ use crate::watermark::{deserialize, Watermark};
 const PRIVATE_KEY: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
 const PUBLIC_KEY: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";
 
+#[cfg(sia_verif)]
+pub const VERIF_PUBLIC_KEY: &str = PUBLIC_KEY;
+
 pub fn watermark_channel(
     channel: &GrayImage,
     embedding_depth: f64,
-- 
2.43.0


From cd4ea37fb48117c82c1569c82fa361f089d1dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:13 +0000
Subject: [PATCH 10/10] verif: hook for the generation of key pairs

---
 lib/sia/rust/signature/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 1b418d6..e1c5a27 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -8,6 +8,13 @@ use crate::ecdsa::{DalekSigner, DalekVerifier};
 mod ecdsa;
 mod keypair;
 
+/// Re-exports for the verification harnesses, only built with `--cfg sia_verif`.
+#[cfg(sia_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::keypair::generate;
+}
+
 pub type DSSigner = DalekSigner<Keypair>;
 pub type DSVerifier = DalekVerifier<PublicKey>;
 
-- 
2.43.0

