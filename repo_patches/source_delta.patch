From 3940f6e90b4b5801a124e5484d4579f4c3e5401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 01/21] fix: mtf: include byte 255 in the initial alphabet

The move-to-front list held only 0..=254, so the tool panicked on the first
0xFF byte of its input.
---
 src/bin/mtf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 9fb08f3..b0424b7 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -5,7 +5,7 @@ use stringology::core;
 use stringology::io;
 
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
+    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
             Err(_) => break,
-- 
2.43.0


From 008f0bb76c2bd5f63e1651ee28eb0ba74dd6035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 02/21] fix: count_sigma: count all 256 byte values without
 overflow

The counter was a u8, so a text containing every byte value overflowed it.
---
 src/bin/count_sigma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/count_sigma.rs b/src/bin/count_sigma.rs
index 58330b0..4626623 100644
--- a/src/bin/count_sigma.rs
+++ b/src/bin/count_sigma.rs
@@ -8,9 +8,9 @@ use log::info;
 
 /// counts the number of different characters in a byte string
 // fn count_sigma(s : &[u8]) -> u8 {
-fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u8 {
-    let mut inc = 0_u8;
-    let mut alphabet_to_reduced: Vec<u8> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
+fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u16 {
+    let mut inc = 0_u16;
+    let mut alphabet_to_reduced: Vec<u16> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
     for c in text_iter {
         let index = *c as usize;
         if alphabet_to_reduced[index] == 0 {
-- 
2.43.0


From ea9d1eeab3bbaacdd4d75cd91eb2be8419ef33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 03/21] fix: power2_sequence: write the last character of the
 word

The loop stopped before position n, leaving a NUL byte where the
characteristic sequence has the power of two n = 2^k.
---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index 168b228..c854ef4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -597,7 +597,7 @@ pub fn power2_sequence(k: u8) -> Vec<u8> {
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
     let mut most_significant_bit = 0;
-    for j in 1..n {
+    for j in 1..=n {
         while j > 1 << (most_significant_bit + 1) {
             most_significant_bit += 1;
         }
-- 
2.43.0


From 995749505bd665b336514f47c7c0da4abfc7385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 04/21] fix: rle: do not overflow the run counter of the
 human-readable output

A run of more than 255 equal characters overflowed the u8 counter.
---
 src/bin/rle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index d179068..9681e71 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -10,7 +10,7 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0_u8; //@ counts the number of character runs
+            let mut run_counter = 0_u64; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
-- 
2.43.0


From 851dd724ca85d69a482549ff5d7fc5ef5fcb485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 05/21] fix: rle: split runs longer than 256 characters

A run is stored as its length minus one in a byte; a run of 256 characters
failed an assertion and a longer one overflowed the counter.
---
 src/bin/rle.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 9681e71..f2893f8 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -42,8 +42,7 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
                 match io::read_char(&mut reader) {
                     Err(_) => break,
                     Ok(next_char) => {
-                        if next_char != prev_char {
-                            assert_lt!(run_counter, u8::MAX);
+                        if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
                             prev_char = next_char;
                             run_counter = 0;
-- 
2.43.0


From bbd9306571b4e16c861c8e51a3944046c6b9e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 06/21] fix: rle --onlyzero: keep the character that ends a run
 of zeros

The character after a run of '0' was dropped, the run at the end of the
input was stored with a different length convention than the others, and
a run of more than 255 zeros overflowed the counter.
---
 src/bin/rle.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index f2893f8..cef4196 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -82,16 +82,21 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                                 writer
                                     .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
                                     .unwrap();
+                                writer.write_all(&[next_char]).unwrap();
                                 run_counter = 0;
                             }
                         } else {
+                            if run_counter == u8::MAX {
+                                writer.write_all(&[CHR_ZERO, run_counter - 1]).unwrap();
+                                run_counter = 0;
+                            }
                             run_counter += 1;
                         }
                     }
                 }
             }
             if run_counter > 0 {
-                writer.write_all(&[CHR_ZERO, run_counter]).unwrap();
+                writer.write_all(&[CHR_ZERO, run_counter - 1]).unwrap();
             }
         }
     }
-- 
2.43.0


From 33479dff31e0945a48874f559421696889e7c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 07/21] fix: escape: process the whole input when no prefix
 length is given

The default prefix length 0 was taken literally, so the invocation shown in
the README wrote nothing at all.
---
 src/bin/escape.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 89e7561..c24f09e 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -94,6 +94,13 @@ fn main() {
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
 
+    //@ zero (the default) means that the entire input is processed
+    let prefixlength = if args.prefixlength == 0 {
+        usize::MAX
+    } else {
+        args.prefixlength
+    };
+
     if args.is_reversion {
         let revert_mapping = {
             let mut revert_mapping = HashMap::new();
@@ -102,7 +109,7 @@ fn main() {
             }
             revert_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
@@ -129,7 +136,7 @@ fn main() {
             }
             char_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
-- 
2.43.0


From 8e81cb5067177a7b609959f8a799998c37c5d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 08/21] fix: bwt, count_r: make --use-matrix work on long texts
 with the dollar

bwt_by_matrix needs a text without zero bytes, but both programs passed it
the text with the appended zero byte once it had 100 or more characters,
which panicked.
---
 src/bin/bwt.rs     | 6 +++++-
 src/bin/count_r.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bin/bwt.rs b/src/bin/bwt.rs
index 87a1944..a1896a6 100644
--- a/src/bin/bwt.rs
+++ b/src/bin/bwt.rs
@@ -61,8 +61,12 @@ fn main() {
         true => {
             if text.len() < 100 {
                 core::bwt_by_matrix_naive(&text)
-            } else {
+            } else if args.no_dollar {
                 core::bwt_by_matrix(&text)
+            } else {
+                //@ text ends with a unique smallest character, so the sorting of its conjugates
+                //@ and of its suffixes coincide
+                core::bwt_from_text_by_sa(&text)
             }
         }
         false => core::bwt_from_text_by_sa(&text),
diff --git a/src/bin/count_r.rs b/src/bin/count_r.rs
index d9b0185..8568478 100644
--- a/src/bin/count_r.rs
+++ b/src/bin/count_r.rs
@@ -60,8 +60,12 @@ fn main() {
         true => {
             if text.len() < 100 {
                 core::bwt_by_matrix_naive(&text)
-            } else {
+            } else if args.no_dollar {
                 core::bwt_by_matrix(&text)
+            } else {
+                //@ text ends with a unique smallest character, so the sorting of its conjugates
+                //@ and of its suffixes coincide
+                core::bwt_from_text_by_sa(&text)
             }
         }
         false => core::bwt_from_text_by_sa(&text),
-- 
2.43.0


From 3a9d6c46fa3fb1395210e1737b0398aaaeb61c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 09/21] fix: mus: terminate the input with the sentinel get_mus
 expects

Without it the last character was taken for the sentinel, so minimal unique
substrings were missed, or the program panicked if the last character
occurred before.
---
 src/bin/mus.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bin/mus.rs b/src/bin/mus.rs
index a81400f..d6bba78 100644
--- a/src/bin/mus.rs
+++ b/src/bin/mus.rs
@@ -65,8 +65,17 @@ fn main() {
     info!("Build DS");
     let now = Instant::now();
 
-    let text =
-        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
+    let text = {
+        let mut text = io::file_or_stdin2byte_vector(
+            core::stringopt_stropt(&args.infilename),
+            args.prefixlength,
+        );
+        //@ get_mus expects the text to end with a sentinel
+        if text.last() != Some(&0u8) {
+            text.push(0u8);
+        }
+        text
+    };
 
     let sa = {
         let mut sa = vec![0; text.len()];
-- 
2.43.0


From 00ee5047df9bec77c9a86a45fadcd0b026256c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 10/21] fix: is_stringattractor: report uncovered substrings
 that are not UTF-8

The program panicked when an uncovered substring was not valid UTF-8
instead of reporting that the attractor is invalid.
---
 src/bin/is_stringattractor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index aa4505b..63618a6 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -222,7 +222,6 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
 
     use segment_tree::ops::Min;
     use segment_tree::SegmentPoint;
-    use std::str;
     let d_rmq = SegmentPoint::build(arr_d.clone(), Min);
 
     let mut is_attractor = true;
@@ -237,7 +236,7 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
             let endpos = std::cmp::min(sa[lcpinterval.begin as usize] as usize + lcplength, n);
             println!(
                 "substring '{}' not covered!",
-                str::from_utf8(&text[startpos..endpos]).unwrap()
+                String::from_utf8_lossy(&text[startpos..endpos])
             );
         }
     }
-- 
2.43.0


From 45caae61037ba86773383e9d9e7e9d688a6fb560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 11/21] fix: compute_plcp: the smallest suffix has no
 predecessor

phi maps the smallest suffix to the largest one. On unary texts these share
a prefix, so LCP[0] was not zero and lexparse emitted a factor with a
cyclic reference instead of the literal.
---
 src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 5f1dfb9..cd89c78 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -268,6 +268,11 @@ pub fn compute_plcp(text: &[u8], phi: &[i32]) -> Vec<u32> {
         {
             length += 1;
         }
+        //@ a suffix that is a prefix of the suffix at phi[position_b] is the smallest suffix, which
+        //@ has no lexicographic predecessor (phi wraps around to the largest suffix)
+        if position_b + length == text.len() {
+            length = 0;
+        }
         plcp[position_b] = length as u32;
         length = length.saturating_sub(1);
     }
-- 
2.43.0


From 5271d26ab7ea185f9fba476f01f1fb58b06e0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 12/21] fix: vtm_word, fibonacci_lyndonfactor: compute the size
 hint as usize

The hint was computed in i32, so vtm_word(30) asked for a negative capacity.
---
 src/word.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index c854ef4..00d0acc 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -684,7 +684,7 @@ pub fn vtm_morphism(c: u8) -> &'static [u8] {
 /// Francine Blanchet-Sadri, James D. Currie, Narad Rampersad, Nathan Fox:
 /// Abelian Complexity of Fixed Point of Morphism 0 ↦ 012, 1 ↦ 02, 2 ↦ 1. Integers 14: A11 (2014)
 pub fn vtm_word(k: u8) -> Vec<u8> {
-    iterate_general_morphism(k, vtm_morphism, (1 + (3 << (k))) as usize)
+    iterate_general_morphism(k, vtm_morphism, 1 + (3_usize << k))
 }
 
 #[test]
@@ -711,7 +711,7 @@ pub fn fibonacci_lyndonfactor(k: u8) -> Vec<u8> {
     iterate_general_morphism_with_startsymbol(
         k,
         fibonacci_lyndonfactor_morphism,
-        (1 + (3 << (k))) as usize,
+        1 + (3_usize << k),
         STR_AB,
     )
 }
-- 
2.43.0


From 272564b394cf90e47572b6cf6b66c3860fec3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 13/21] fix: rle: remove the ambiguous short options -o and -h

-o stood for both --outfilename and --onlyzero, and -h for both --human and
--help. The argument parser rejects such definitions, so the program
panicked on every invocation.
---
 src/bin/rle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index cef4196..485547b 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -118,11 +118,11 @@ struct Args {
     outfilename: Option<String>,
 
     /// the length of the prefix to parse
-    #[arg(short, long)]
+    #[arg(long)]
     onlyzero: bool,
 
     /// human-readable output
-    #[arg(short, long)]
+    #[arg(long)]
     human: bool,
 }
 
-- 
2.43.0


From 79418a92dca4618a6d94d4859bd97beafadd0912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 14/21] fix: stdin2byte_vector: accept inputs shorter than the
 prefix length

file2byte_vector reads at most prefix_length bytes, but the stdin variant
panicked if the input had fewer.
---
 src/io.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d95055d..ee5fb90 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -33,8 +33,11 @@ pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
     let mut reader = std::io::stdin();
     // let reader = stdin.lock();
     if prefix_length > 0 {
-        let mut buffer = vec![0; prefix_length];
-        reader.read_exact(buffer.as_mut_slice()).unwrap();
+        let mut buffer = Vec::new();
+        reader
+            .take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
         buffer
     } else {
         let mut buffer = Vec::new();
-- 
2.43.0


From 7841df7d2550f2fdba1d642fc7669daa1f6fdf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 15/21] fix: BinaryStringGenerator: stop after the last string
 and keep the order

The iterator wrapped around after 2^length strings instead of ending, wrote
the least significant bit first, which is not the lexicographic order, and
overflowed a shift for lengths above 64.
---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index cd89c78..63bcd47 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -505,12 +505,12 @@ impl Iterator for BinaryStringGenerator {
     type Item = Vec<u8>;
 
     fn next(&mut self) -> Option<Vec<u8>> {
-        if self.m_rank == u64::MAX {
+        if self.m_rank == u64::MAX || (self.m_length < 64 && self.m_rank >> self.m_length > 0) {
             return None;
         }
         let mut text = Vec::with_capacity(self.m_length as usize);
-        for i in 0..self.m_length {
-            let bit = self.m_rank & (1 << i);
+        for i in (0..self.m_length).rev() {
+            let bit = if i < 64 { self.m_rank & (1 << i) } else { 0 };
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
         self.m_rank += 1;
-- 
2.43.0


From 25874b2ac69b30d755814b5657ae5d16c3e9611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 16/21] fix: binary_debruijn_word: test for necklaces instead
 of pre-necklaces

The successor rule needs to know whether a word is a necklace, but
is_necklace accepts every prefix of a necklace. For k >= 4 the computed word
was too short and missed some substrings of length k+1.
---
 src/word.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index 00d0acc..56d309d 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -487,9 +487,9 @@ fn quaternary_to_binary(text: &[u8]) -> Vec<u8> {
     output
 }
 
-/// checks whether T[1..n] is a necklace, i.e., the lexicographically smallest string among all its
-/// shifted conjugates of the form T[i+1..n]T[1..i]
-pub fn is_necklace<T>(text: &T, n: usize) -> bool
+/// if T[1..n] is a pre-necklace, i.e., a prefix of a power of a Lyndon word, returns the length of
+/// the shortest such Lyndon word
+fn prenecklace_period<T>(text: &T, n: usize) -> Option<usize>
 where
     T: ?Sized + std::ops::Index<usize, Output = u8>,
 {
@@ -506,9 +506,18 @@ where
         j += 1;
     }
     if j != n {
-        return false;
+        return None;
     }
-    true
+    Some(j - i)
+}
+
+/// checks whether T[1..n] is a pre-necklace, i.e., a prefix of a necklace, which is the
+/// lexicographically smallest string among all its shifted conjugates of the form T[i+1..n]T[1..i]
+pub fn is_necklace<T>(text: &T, n: usize) -> bool
+where
+    T: ?Sized + std::ops::Index<usize, Output = u8>,
+{
+    prenecklace_period(text, n).is_some()
 }
 
 #[allow(dead_code)]
@@ -554,8 +563,11 @@ pub fn binary_debruijn_word(k: u8) -> Vec<u8> {
     loop {
         let mut first_char = word.pop_front().unwrap();
         word.push_back(CHR_B);
-        if is_necklace(&word, word.len()) {
-            first_char = reverse(first_char);
+        //@ a pre-necklace is a necklace if it is a full power of its Lyndon word
+        if let Some(period) = prenecklace_period(&word, n) {
+            if n % period == 0 {
+                first_char = reverse(first_char);
+            }
         }
         *word.back_mut().unwrap() = first_char;
         output.push(first_char);
-- 
2.43.0


From e246c973fb8fb5d1f0deaee26c2f89c856fab02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:31 +0000
Subject: [PATCH 17/21] fix: count the characters of texts of 2 GiB and more in
 zero_order_entropy

---
 src/bin/entropy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/entropy.rs b/src/bin/entropy.rs
index 0b7eff0..df90ee3 100644
--- a/src/bin/entropy.rs
+++ b/src/bin/entropy.rs
@@ -15,7 +15,7 @@ use log::info;
 
 fn zero_order_entropy<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> f64 {
     let mut char_counters: Vec<usize> = vec![0; u8::MAX as usize + 1];
-    let mut total_count = 0;
+    let mut total_count: usize = 0;
     for c in text_iter {
         let index: usize = (*c).into();
         char_counters[index] += 1;
-- 
2.43.0


From 6641a2def681a1a14f93036067a8ab9fa0b70056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:00 +0000
Subject: [PATCH 18/21] fix: read a named input to its end instead of to the
 length in its metadata (named pipes were read as empty)

---
 src/io.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ee5fb90..aa21ded 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -6,16 +6,15 @@ pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
 
     let path = std::path::Path::new(filename);
     let mut f = fs::File::open(path).expect("no file found");
-    let metadata = fs::metadata(path).expect("unable to read metadata");
-    let buffer_length = if prefix_length > 0 {
-        std::cmp::min(prefix_length as u64, metadata.len())
+    // the metadata of a named pipe does not tell how much there is to read
+    let mut buffer = Vec::new();
+    if prefix_length > 0 {
+        f.take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
     } else {
-        metadata.len()
-    };
-    assert!(buffer_length <= usize::MAX as u64);
-
-    let mut buffer = vec![0; buffer_length as usize];
-    f.read_exact(&mut buffer).unwrap();
+        f.read_to_end(&mut buffer).unwrap();
+    }
 
     // let mut buffer = Vec::new();
     // buffer.reserve_exact(buffer_length as usize);
-- 
2.43.0


From 0e37c2994582b31dbe58728ccfe604479181b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 19/21] fix: word, randomstring: flush standard output and
 report the error (output that ends without a newline was lost silently)

---
 src/bin/randomstring.rs | 1 +
 src/bin/word.rs         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bin/randomstring.rs b/src/bin/randomstring.rs
index ed12ab7..53a9dd9 100644
--- a/src/bin/randomstring.rs
+++ b/src/bin/randomstring.rs
@@ -58,4 +58,5 @@ fn main() {
         charset.insert(newchar);
         writer.write_all(&[newchar]).unwrap();
     }
+    writer.flush().unwrap();
 }
diff --git a/src/bin/word.rs b/src/bin/word.rs
index 3ce7afe..24a4a9b 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -54,4 +54,5 @@ fn main() {
         WordName::Vtm => word::vtm_word,
     };
     writer.write_all(fun(args.k).as_slice()).unwrap();
+    writer.flush().unwrap();
 }
-- 
2.43.0


From ea2681407e10f5a89c091f193d496b4764758fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 20/21] fix: lyndonfactorization: flush the output file and
 report the error (the buffered output was dropped silently on a full device)

---
 src/bin/lyndonfactorization.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 0838652..fd79b78 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -96,6 +96,7 @@ fn main() {
                 os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                     .unwrap();
             }
+            os.flush().unwrap();
         }
     };
 
-- 
2.43.0


From 74ea7a0043cad5c8d81e3912214d2cf58436a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:05 +0000
Subject: [PATCH 21/21] fix: read_char: a read error is not the end of the
 input (mtf, rle, escape and count_runs took it for the end of the text)

---
 src/io.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aa21ded..254fb4a 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -78,6 +78,7 @@ pub fn stream_or_stdout(filename: Option<&str>) -> Box<dyn std::io::Write> {
 }
 
 /// read a single u8 character
+/// - an error means that there is no character left: the function panics if reading fails
 pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
     let mut buffer = [0u8];
     match reader.read(buffer.as_mut()) {
@@ -92,6 +93,6 @@ pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
             }
             // assert_eq!(u, 1);
         }
-        Err(error) => Err(error),
+        Err(error) => panic!("cannot read the input: {}", error),
     }
 }
-- 
2.43.0

