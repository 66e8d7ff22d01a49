From a2956f942db1b4bf6a1b15bef337e17dad6d49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 1/3] fix: keep a target's own block S-box routine when the
 alternate S-box is enabled

The AVX2 header supplies BLOCK_SBOX_PERMUTE in the byte order its
BS_LOAD_DEINTERLEAVE_8 expects.  With --enable-alt-sbox the generic
routine replaced it, so avx2 builds with the alternate S-box produced
wrong output.
---
 src/dvbcsa_bs_block.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 470e299..2108b5f 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -89,6 +89,8 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
     0x388c, 0x1a89, 0xe166, 0x7ffd, 0xccb2, 0x5aa9, 0x9e9b, 0x09c0,
   };
 
+#ifndef BLOCK_SBOX_PERMUTE
+
 #ifdef DVBCSA_USE_ALT_SBOX
 
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) \
@@ -119,8 +121,6 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
 
 #else
 
-#ifndef BLOCK_SBOX_PERMUTE
-
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) \
     { \
     dvbcsa_u8_aliasing_t *src = (dvbcsa_u8_aliasing_t *)in_buf; \
@@ -140,10 +140,10 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
       } \
     }
 
-#endif /* ifndef BLOCK_SBOX_PERMUTE */
-
 #endif /* USE_ALT_SBOX */
 
+#endif /* ifndef BLOCK_SBOX_PERMUTE */
+
 #else /* no BS_LOAD_DEINTERLEAVE_8 */
 
 #ifdef DVBCSA_USE_ALT_SBOX
-- 
2.43.0


From e643312d44ea07a9af49c742626f3ed28af37b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 2/3] fix: process only maxlen bytes of packets greater than
 maxlen in a batch

Packets greater than maxlen are documented to be partially processed,
but they were copied whole to and from the 184 byte slots of the packet
buffer, so a packet longer than that overwrote its neighbours and the
stack.
---
 src/dvbcsa_bs_algo.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/dvbcsa_bs_algo.c b/src/dvbcsa_bs_algo.c
index 54ff830..7d2ba67 100644
--- a/src/dvbcsa_bs_algo.c
+++ b/src/dvbcsa_bs_algo.c
@@ -38,6 +38,13 @@
 #include <assert.h>
 #endif
 
+/* part of a packet to be processed */
+DVBCSA_INLINE static inline unsigned int
+dvbcsa_pkt_buf_len(unsigned int len, unsigned int maxlen)
+{
+  return len < maxlen ? len : maxlen;
+}
+
 static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
                                 const struct dvbcsa_bs_batch_s *pcks,
                                 unsigned int maxlen)
@@ -47,8 +54,10 @@ static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
     {
-      pkt_buf->len8[i] = pcks[i].len & (unsigned)~0x7;
-      memcpy(block, pcks[i].data, pcks[i].len);
+      unsigned int len = dvbcsa_pkt_buf_len(pcks[i].len, maxlen);
+
+      pkt_buf->len8[i] = len & (unsigned)~0x7;
+      memcpy(block, pcks[i].data, len);
     }
 
   pkt_buf->n_packets = i;
@@ -62,7 +71,8 @@ static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
   const dvbcsa_bs_block8_t *block = pkt_buf->data;
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
-    memcpy(pcks[i].data, block, pcks[i].len);
+    memcpy(pcks[i].data, block,
+           dvbcsa_pkt_buf_len(pcks[i].len, pkt_buf->maxlen));
 }
 
 void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
-- 
2.43.0


From 4c90932457cb2409237cb2c477de078825713f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 3/3] fix: encrypt all blocks of payloads of 2 GB and more

The signed block index became negative at once for such lengths, so only
the last block went through the block cipher.
---
 src/dvbcsa_algo.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dvbcsa_algo.c b/src/dvbcsa_algo.c
index 268f03c..c36739b 100644
--- a/src/dvbcsa_algo.c
+++ b/src/dvbcsa_algo.c
@@ -50,7 +50,7 @@ void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
 {
   unsigned int  alen = len & (unsigned)~0x7;
-  int       i;
+  unsigned int  i;
 
   if (len < 8)
     return;
@@ -58,10 +58,10 @@ void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 #ifndef DVBCSA_DISABLE_BLOCK
   dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);
 
-  for (i = alen - 16; i >= 0; i -= 8)
+  for (i = alen - 8; i > 0; i -= 8)
     {
-      dvbcsa_xor_64(data + i, data + i + 8);
-      dvbcsa_block_encrypt(key->sch, data + i, data + i);
+      dvbcsa_xor_64(data + i - 8, data + i);
+      dvbcsa_block_encrypt(key->sch, data + i - 8, data + i - 8);
     }
 #endif
 
-- 
2.43.0

