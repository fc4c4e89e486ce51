From 573134c3f4551dc574e422fb87a25eab6fbc9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 01/13] fix: gear: incremental push reports the index after the
 byte it consumed

---
 src/gear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.rs b/src/gear.rs
index 184b405..84a3247 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -111,7 +111,7 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
         for (i, v) in data.iter().enumerate() {
             if self.state.push(&self.params, *v) {
                 self.state.reset();
-                return Some(i);
+                return Some(i + 1);
             }
         }
 
-- 
2.43.0


From a2ebc72342cd660ef984fbdcd351cd60d113d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 02/13] fix: ram: incremental push reports the index after the
 byte it consumed

---
 src/ram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ram.rs b/src/ram.rs
index c2b53a4..dfb3964 100644
--- a/src/ram.rs
+++ b/src/ram.rs
@@ -106,6 +106,6 @@ pub struct RamIncr {
 
 impl ChunkIncr for RamIncr {
     fn push(&mut self, data: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, data)
+        self.state.push(&self.params, data).map(|i| i + 1)
     }
 }
-- 
2.43.0


From 87c34fb2606950f1a0a88140c65316b386873ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 03/13] fix: zstd: incremental push reports the index after the
 byte it consumed

---
 src/zstd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 04fafd4..80e6909 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -256,7 +256,7 @@ impl ChunkIncr for ZstdIncr {
 
             if self.state.at_split(&self.params) {
                 // NOTE: don't clear window
-                return Some(i + use_len);
+                return Some(i + use_len + 1);
             }
         }
 
-- 
2.43.0


From 2c16bd124c740aea216862103155a8499af8261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 04/13] fix: zstd: find_chunk_edge resumes right after the
 split it reports

---
 src/zstd.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 80e6909..e13d5e1 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -211,8 +211,10 @@ impl Chunk for Zstd {
             let to_add = data[i];
             state.rotate(to_remove, to_add, self.prime_power);
             if state.at_split(self) {
-                let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
-                return (Some(i + 1), discard_ct);
+                // keep the window that ends at the split: the hash is not reset, and the data after
+                // the split has not been examined
+                state.offset = RSYNC_LENGTH;
+                return (Some(i + 1), i + 1 - RSYNC_LENGTH);
             }
         }
 
-- 
2.43.0


From 564c7f1be3bde6bdef6ae3f72d61306c34a6624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 05/13] fix: mii: first byte after a split does not count as an
 increment

---
 src/mii.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mii.rs b/src/mii.rs
index 718cb70..f5979e2 100644
--- a/src/mii.rs
+++ b/src/mii.rs
@@ -127,7 +127,7 @@ impl ChunkIncr for MiiIncr {
                 if self.increment == self.w {
                     // this is a split
                     self.increment = 0;
-                    self.prev = 0;
+                    self.prev = 0xff;
                     return Some(i + 1);
                 }
             } else {
-- 
2.43.0


From 418e4b8a265ee542f9ce8c6b72731ace5dfd011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 06/13] fix: bup: incremental push starts afresh after a split

---
 src/bup.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bup.rs b/src/bup.rs
index c888096..961ec22 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -226,6 +226,7 @@ impl ChunkIncr for RollSumIncr {
         for (i, &v) in data.iter().enumerate() {
             self.roll_byte(v);
             if self.at_split() {
+                *self = (&RollSum::with_window(self.window.len())).into();
                 return Some(i + 1);
             }
         }
-- 
2.43.0


From af801fc058d0c3b18c1162fb9acc5605ffe9c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 07/13] fix: bup: window lengths that are not a power of two

---
 src/bup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bup.rs b/src/bup.rs
index 961ec22..69aeae7 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -198,7 +198,7 @@ impl RollSumIncr {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
         self.window[self.wofs.0] = ch;
-        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 & (self.window.len() - 1));
+        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
     #[cfg(test)]
-- 
2.43.0


From 6e65dfa4727e0087ad9032f6022d97b976df40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 08/13] fix: zpaq: find_chunk_edge applies the size bounds to
 the actual chunk length

---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index bbd199a..7fa1f28 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -207,7 +207,7 @@ impl Chunk for Zpaq {
     ) -> (Option<usize>, usize) {
         for (i, v) in data.iter().enumerate() {
             let h = state.feed(*v);
-            if self.split_here(h, (state.idx + 1) as u64) {
+            if self.split_here(h, state.idx) {
                 *state = self.to_search_state();
                 return (Some(i + 1), i + 1);
             }
-- 
2.43.0


From 8bbc96b45e62ae3e92d4cb3419ca82711ff2da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 09/13] fix: zpaq: maximum chunk size for a given average is in
 bytes, as documented

---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 7fa1f28..c64fbd9 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,7 +83,7 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << fragment_ave
+        64 << (fragment_ave - 10)..8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-- 
2.43.0


From 649b6925c7e33bdc301a7b0c8989633fe323c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 10/13] fix: zpaq: average derived from a maximum is a quarter
 of it, as documented

---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index c64fbd9..8c11755 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -55,7 +55,7 @@ impl Zpaq {
     /* this is taken from go-dedup */
     fn fragment_ave_from_max(max: u64) -> u8 {
         /* TODO: convert this to pure integer math */
-        (max as f64 / (64f64 * 64f64)).log2() as u8
+        (max as f64 / 4f64).log2() as u8
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
-- 
2.43.0


From 0f1f467c6f73286e7a401c2d65c092e02916ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 11/13] fix: buzhash: remove the byte leaving the window with a
 rotation by the whole window

---
 src/buzhash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index e54789c..da5ed19 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -214,7 +214,7 @@ impl BuzHashState {
     fn add_overflow<H: BuzHashHash>(&mut self, params: &BuzHash<H>, add_v: u8, remove_v: u8) {
         let h = self.h.rotate_left(1);
         // need to find and "remove" a entry
-        let drop = params.h.hash(remove_v).rotate_left((params.k % 8) as u32);
+        let drop = params.h.hash(remove_v).rotate_left((params.k % 32) as u32);
         self.h = h ^ drop ^ params.h.hash(add_v);
     }
 }
-- 
2.43.0


From 562d21f8afec0d8d4c6633c1058b4c34ab79f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 12/13] fix: buzhash: find_chunk_edge enforces the maximum
 chunk size

---
 src/buzhash.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index da5ed19..03b1a61 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -132,21 +132,17 @@ impl<H: BuzHashHash + Clone> Chunk for BuzHash<H> {
     ) -> (Option<usize>, usize) {
         for i in state.offset..data.len() {
             state.state.add_buf(data, self, i);
+            state.input_idx += 1;
 
             if (state.state.h & self.mask) == self.mask {
                 state.reset();
                 return (Some(i + 1), i + 1);
             }
 
-            /*
-             * broken: `i` is not the number of bytes since prev chunk.
-             * need to track internal last chunk
-            if i as u64 > self.max_chunk_size {
+            if state.input_idx > self.max_chunk_size {
                 state.reset();
-                println!(" <- CHUNK: {}", i + 1);
                 return (Some(i + 1), i + 1);
             }
-            */
         }
 
         // keep k elements = discard all but k
@@ -172,12 +168,15 @@ impl<H: BuzHashHash + Clone> ToChunkIncr for BuzHash<H> {
 #[derive(Debug, Clone, PartialEq, Eq, Default)]
 pub struct BuzHashSearchState {
     offset: usize,
+    /// number of bytes examined since the previous chunk edge
+    input_idx: u64,
     state: BuzHashState,
 }
 
 impl BuzHashSearchState {
     fn reset(&mut self) {
         self.offset = 0;
+        self.input_idx = 0;
         self.state.reset();
     }
 }
-- 
2.43.0


From 8a14c59b7973fc2981c87853853df0a4fd37cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 13/13] fix: fastcdc: find_chunk_edge splits at the maximum
 size, within the data

---
 src/fastcdc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1a8b430..3616e93 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -75,7 +75,10 @@ impl<'a> Chunk for FastCdc<'a> {
         state: &mut Self::SearchState,
         data: &[u8],
     ) -> (Option<usize>, usize) {
+        let start = state.l;
         match state.push(self, data) {
+            // at the maximum size the split is before `data[i]`, which has not been examined
+            Some(i) if start + i as u64 >= self.max_size => (Some(i), i),
             Some(i) => (Some(i + 1), i + 1),
             None => (None, data.len()),
         }
-- 
2.43.0

