From 98cd1a577615c8644210802bfa25f92e8ad18863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 1/3] fix: report failure of the random source in key
 generation and signing

The return value of rand_bytes was ignored: when the system random source
failed, key generation returned a key pair built from uninitialised memory and
signing used an uninitialised per-signature randomness block.
---
 faest_param.c.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/faest_param.c.in b/faest_param.c.in
index b433613..3b6bb08 100644
--- a/faest_param.c.in
+++ b/faest_param.c.in
@@ -32,7 +32,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_keygen(uint8_t* pk, uint8_t* sk) {
 
   bool done = false;
   while (!done) {
-    rand_bytes(sk, @SK_SIZE@);
+    if (rand_bytes(sk, @SK_SIZE@)) {
+      return -1;
+    }
     // declassify OWF input
     faest_declassify(SK_INPUT(sk), @PK_SIZE@ / 2);
     done = faest_@PARAM_L@_owf(SK_KEY(sk), SK_INPUT(sk), PK_OUTPUT(pk));
@@ -86,7 +88,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_sign(const uint8_t* sk, const uint8
   }
 
   uint8_t rho[FAEST_@PARAM@_LAMBDA / 8];
-  rand_bytes(rho, sizeof(rho));
+  if (rand_bytes(rho, sizeof(rho))) {
+    return -1;
+  }
 
   return faest_@PARAM_L@_sign_with_randomness(sk, message, message_len, rho, sizeof(rho), signature, signature_len);
 }
-- 
2.43.0


From c4c2e79358f2c888f2bf06f9c6803fd018f9e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 2/3] fix: absorb and squeeze inputs of 4 GiB and more
 correctly in the sponge

The number of bytes left was truncated to 32 bits before it was compared with
the space left in the block.  Long inputs following a partial block looped
forever or wrote past the Keccak state.
---
 sha3/KeccakSponge.inc       | 10 ++++++----
 sha3/KeccakSpongetimes4.inc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sha3/KeccakSponge.inc b/sha3/KeccakSponge.inc
index 7008092..e798cd6 100644
--- a/sha3/KeccakSponge.inc
+++ b/sha3/KeccakSponge.inc
@@ -187,9 +187,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char *data, size_t dat
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             #ifdef KeccakReference
             displayBytes(1, "Block to be absorbed (part)", curData, partialBlock);
             #endif
@@ -281,9 +282,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char *data, size_t dataByte
                 SnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             SnP_ExtractBytes(instance->state, curData, instance->byteIOIndex, partialBlock);
diff --git a/sha3/KeccakSpongetimes4.inc b/sha3/KeccakSpongetimes4.inc
index 080e2e5..07e67ec 100644
--- a/sha3/KeccakSpongetimes4.inc
+++ b/sha3/KeccakSpongetimes4.inc
@@ -96,9 +96,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char **data, size_t da
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
@@ -179,9 +180,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char **data, size_t dataByt
                 PlSnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes-instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
-- 
2.43.0


From 3ffc075df57e7a2bbb2d5b48837b79f798c96cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 3/3] fix: honour the build's request to avoid unaligned
 accesses in the sponge

---
 sha3/brg_endian.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sha3/brg_endian.h b/sha3/brg_endian.h
index cef6ccc..711ef89 100644
--- a/sha3/brg_endian.h
+++ b/sha3/brg_endian.h
@@ -14,4 +14,9 @@
 
 #define HTOLE64(x) htole64((x))
 
+/* the build system requests byte-wise access to unaligned data with this define */
+#if defined(DISABLE_MISALIGNED_ACCESS) && !defined(NO_MISALIGNED_ACCESSES)
+#define NO_MISALIGNED_ACCESSES
+#endif
+
 #endif
-- 
2.43.0

