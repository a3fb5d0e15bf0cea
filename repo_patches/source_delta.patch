From 6e6cf35e132ad5ca78919aaa05a6193d49728e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:53 +0000
Subject: [PATCH 1/2] fix: squeeze outputs longer than one sponge block

lyra2() panicked for every output length above 96 bytes: the copy into the
result ran after the first squeezed block, when only 96 bytes exist. Copy
once all blocks are squeezed; shorter outputs are unchanged.
---
 src/lyra2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index c70339f..b2f3fd4 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -154,10 +154,10 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
         for _i in 0..BLOCKLENINT64 {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
-        //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
         state = blake2b_lyra(state);
     }
+    //be care in case of len(out[i:])<len(tmp)
+    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
     out
 }
 
-- 
2.43.0


From a69bd150137119eaaa820c7fd69c1d0a955299ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:20 +0000
Subject: [PATCH 2/2] fix: absorb each input block without copying the rest of
 the matrix

---
 src/lyra2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index b2f3fd4..e2d33fa 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -334,7 +334,7 @@ pub fn lyra2(
     let mut ptr_word = 0;
     for _i in 0..n_blocks_input {
         let (_, mut _right) = &whole_matrix.split_at(ptr_word);
-        state = absorb_block_blake2_safe(state, _right.to_vec()); //absorbs each block of pad(pwd || salt || basil)
+        state = absorb_block_blake2_safe(state, _right[..BLOCKLENBLAKE2SAFEINT64 as usize].to_vec()); //absorbs each block of pad(pwd || salt || basil)
         ptr_word += BLOCKLENBLAKE2SAFEINT64 as usize; //goes to next block of pad(pwd || salt || basil)
     }
 
-- 
2.43.0

