From e3beaa7ed27b7fe37bd4231589e84e7b3ca757a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:53 +0000
Subject: [PATCH 1/6] fix: reject ciphertexts shorter than the tag before using
 clen - tag size

---
 crypto_aead/isapa128av20/avx_512/crypto_aead.c          | 5 +++++
 crypto_aead/isapa128av20/bi_32/crypto_aead.c            | 5 +++++
 crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c | 5 +++++
 crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c        | 5 +++++
 crypto_aead/isapa128av20/bi_8/crypto_aead.c             | 5 +++++
 crypto_aead/isapa128av20/opt_32/crypto_aead.c           | 5 +++++
 crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c       | 5 +++++
 crypto_aead/isapa128av20/opt_64/crypto_aead.c           | 5 +++++
 crypto_aead/isapa128av20/opt_8/crypto_aead.c            | 5 +++++
 crypto_aead/isapa128av20/ref/crypto_aead.c              | 5 +++++
 crypto_aead/isapa128v20/opt_32/crypto_aead.c            | 5 +++++
 crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c    | 5 +++++
 crypto_aead/isapa128v20/opt_64/crypto_aead.c            | 5 +++++
 crypto_aead/isapa128v20/ref/crypto_aead.c               | 5 +++++
 crypto_aead/isapk128av20/avx512/crypto_aead.c           | 5 +++++
 crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c    | 5 +++++
 crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c    | 5 +++++
 crypto_aead/isapk128av20/opt_64/crypto_aead.c           | 5 +++++
 crypto_aead/isapk128av20/ref/crypto_aead.c              | 5 +++++
 crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c     | 5 +++++
 crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c     | 5 +++++
 crypto_aead/isapk128v20/opt_64/crypto_aead.c            | 5 +++++
 crypto_aead/isapk128v20/ref/crypto_aead.c               | 5 +++++
 crypto_aead/isapxv20/ref/crypto_aead.c                  | 5 +++++
 24 files changed, 120 insertions(+)

diff --git a/crypto_aead/isapa128av20/avx_512/crypto_aead.c b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
index 58f7641..31450fc 100644
--- a/crypto_aead/isapa128av20/avx_512/crypto_aead.c
+++ b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
@@ -31,6 +31,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32/crypto_aead.c b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
index 4a9bd29..243cb8c 100644
--- a/crypto_aead/isapa128av20/bi_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index e0d533c..297c1dc 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -37,6 +37,11 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index e0d533c..297c1dc 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -37,6 +37,11 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_8/crypto_aead.c b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
index 4a9bd29..243cb8c 100644
--- a/crypto_aead/isapa128av20/bi_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32/crypto_aead.c b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapa128av20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index e0d533c..297c1dc 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -37,6 +37,11 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_64/crypto_aead.c b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapa128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_8/crypto_aead.c b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
index 4a9bd29..243cb8c 100644
--- a/crypto_aead/isapa128av20/opt_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/ref/crypto_aead.c b/crypto_aead/isapa128av20/ref/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapa128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128av20/ref/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32/crypto_aead.c b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapa128v20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_64/crypto_aead.c b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapa128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/ref/crypto_aead.c b/crypto_aead/isapa128v20/ref/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapa128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128v20/ref/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/avx512/crypto_aead.c b/crypto_aead/isapk128av20/avx512/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128av20/avx512/crypto_aead.c
+++ b/crypto_aead/isapk128av20/avx512/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_64/crypto_aead.c b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/ref/crypto_aead.c b/crypto_aead/isapk128av20/ref/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128av20/ref/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_64/crypto_aead.c b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/ref/crypto_aead.c b/crypto_aead/isapk128v20/ref/crypto_aead.c
index 2287e4d..a086afc 100644
--- a/crypto_aead/isapk128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128v20/ref/crypto_aead.c
@@ -36,6 +36,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapxv20/ref/crypto_aead.c b/crypto_aead/isapxv20/ref/crypto_aead.c
index 100427c..f3d66c0 100644
--- a/crypto_aead/isapxv20/ref/crypto_aead.c
+++ b/crypto_aead/isapxv20/ref/crypto_aead.c
@@ -35,6 +35,11 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than the tag cannot be valid
+	if (clen < ISAP_TAG_SZ) {
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
-- 
2.43.0


From 35bb12630eb2bcf60c05be05cfc2d9890784bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:03 +0000
Subject: [PATCH 2/6] fix: isapk opt_64: do not read six bytes past the last
 absorbed block

---
 crypto_aead/isapk128av20/opt_64/isap.c | 4 ++--
 crypto_aead/isapk128v20/opt_64/isap.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto_aead/isapk128av20/opt_64/isap.c b/crypto_aead/isapk128av20/opt_64/isap.c
index 8011b82..792def3 100644
--- a/crypto_aead/isapk128av20/opt_64/isap.c
+++ b/crypto_aead/isapk128av20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
diff --git a/crypto_aead/isapk128v20/opt_64/isap.c b/crypto_aead/isapk128v20/opt_64/isap.c
index 60ad9c2..cb9decc 100644
--- a/crypto_aead/isapk128v20/opt_64/isap.c
+++ b/crypto_aead/isapk128v20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
-- 
2.43.0


From 6c3e4ad32c66243412c165ea953f0f7686a63b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:33 +0000
Subject: [PATCH 3/6] fix: isapa128av20 *_stp: keep the state for the tag
 comparison per call, not in globals

Two threads decrypting at the same time overwrote each other's s0/s1, so
valid ciphertexts were rejected (and the compared values were not those of
the message being verified).
---
 .../bi_32_armv6m_stp/crypto_aead.c            |  8 ++++---
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 21 +++++++++----------
 .../isapa128av20/bi_32_armv6m_stp/isap.h      |  6 ++++--
 .../isapa128av20/bi_32_stp/crypto_aead.c      |  8 ++++---
 crypto_aead/isapa128av20/bi_32_stp/isap.c     | 21 +++++++++----------
 crypto_aead/isapa128av20/bi_32_stp/isap.h     |  6 ++++--
 .../isapa128av20/opt_32_stp/crypto_aead.c     |  8 ++++---
 crypto_aead/isapa128av20/opt_32_stp/isap.c    | 21 +++++++++----------
 crypto_aead/isapa128av20/opt_32_stp/isap.h    |  6 ++++--
 9 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index 297c1dc..5e1a1b1 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t sx[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, sx);
 	return 0;
 }
 
@@ -47,7 +48,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t sx[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, sx);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -55,7 +57,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, sx);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 2fa2aed..07b10ff 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *sx)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    sx[0] = s->x[0];
+    sx[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *sx)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = sx[0];
+    s->x[3] = sx[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = sx[0];
+    s->x[3] = sx[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
index ae37dcd..a6f098d 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *sx);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *sx);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index 297c1dc..5e1a1b1 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t sx[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, sx);
 	return 0;
 }
 
@@ -47,7 +48,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t sx[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, sx);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -55,7 +57,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, sx);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.c b/crypto_aead/isapa128av20/bi_32_stp/isap.c
index 2fa2aed..07b10ff 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *sx)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    sx[0] = s->x[0];
+    sx[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *sx)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = sx[0];
+    s->x[3] = sx[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = sx[0];
+    s->x[3] = sx[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.h b/crypto_aead/isapa128av20/bi_32_stp/isap.h
index ae37dcd..a6f098d 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *sx);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	const uint64_t *sx);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index 297c1dc..5e1a1b1 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t sx[2];
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, sx);
 	return 0;
 }
 
@@ -47,7 +48,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t sx[2];
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, sx);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -55,7 +57,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, sx);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.c b/crypto_aead/isapa128av20/opt_32_stp/isap.c
index 2fa2aed..07b10ff 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,8 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag,
+    uint64_t *sx)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +131,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    sx[0] = s->x[0];
+    sx[1] = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +153,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    const uint64_t *sx)
 {
     state_t state;
     state_t *s = &state;
@@ -163,8 +162,8 @@ int pvp(
     // Calculate U
     s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = sx[0];
+    s->x[3] = sx[1];
     s->x[4] = 0;
     P_PVP;
     uint64_t u0, u1;
@@ -174,8 +173,8 @@ int pvp(
     // Calculate U'
     s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
     s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
-    s->x[2] = s0;
-    s->x[3] = s1;
+    s->x[2] = sx[0];
+    s->x[3] = sx[1];
     s->x[4] = 0;
     P_PVP;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.h b/crypto_aead/isapa128av20/opt_32_stp/isap.h
index 55464cb..700c7d2 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.h
@@ -33,11 +33,13 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag,
+	uint64_t *sx);
 
 int pvp(
 	const uint8_t *T,
-	const uint8_t *T_star);
+	const uint8_t *T_star,
+	const uint64_t *sx);
 
 void isap_enc(
 	const uint8_t *k,
-- 
2.43.0


From dd6acdda875f21a188ded6b938cc19aa3888024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:53 +0000
Subject: [PATCH 4/6] fix: bi_32_armv6m*: declare the flags clobber and take
 round constants as immediates

The statement executes flag-setting instructions without a "cc" clobber, and its
"r" alternative lets the compiler place the round constants in registers that an
output written earlier may share.
---
 crypto_aead/isapa128av20/bi_32_armv6m/asconp.h         | 4 ++--
 crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h | 4 ++--
 crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32_armv6m/asconp.h b/crypto_aead/isapa128av20/bi_32_armv6m/asconp.h
index 0e9b69b..4ce6ae6 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m/asconp.h
@@ -239,8 +239,8 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [x1_o] "+r"(s->w[1][1]), [x2_o] "+r"(s->w[2][1]),
           [x3_o] "+r"(s->w[3][1]), [x4_o] "+r"(s->w[4][1]),
           [tmp0] "=l"(tmp0), [tmp1] "=l"(tmp1), [tmp2] "=l"(tmp2)
-        : [C_e] "ri"((uint32_t)C), [C_o] "ri"((uint32_t)(C >> 32))
-        :);
+        : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
+        : "cc");
 }
 
 /* ---------------------------------------------------------------- */
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h b/crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h
index f94d080..c834449 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_compact/asconp.h
@@ -239,8 +239,8 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [x1_o] "+r"(s->w[1][1]), [x2_o] "+r"(s->w[2][1]),
           [x3_o] "+r"(s->w[3][1]), [x4_o] "+r"(s->w[4][1]),
           [tmp0] "=l"(tmp0), [tmp1] "=l"(tmp1), [tmp2] "=l"(tmp2)
-        : [C_e] "ri"((uint32_t)C), [C_o] "ri"((uint32_t)(C >> 32))
-        :);
+        : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
+        : "cc");
 }
 
 /* ---------------------------------------------------------------- */
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h b/crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h
index a78e026..098295a 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/asconp.h
@@ -240,8 +240,8 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [x1_o] "+r"(s->w[1][1]), [x2_o] "+r"(s->w[2][1]),
           [x3_o] "+r"(s->w[3][1]), [x4_o] "+r"(s->w[4][1]),
           [tmp0] "=l"(tmp0), [tmp1] "=l"(tmp1), [tmp2] "=l"(tmp2)
-        : [C_e] "ri"((uint32_t)C), [C_o] "ri"((uint32_t)(C >> 32))
-        :);
+        : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
+        : "cc");
 }
 
 /* ---------------------------------------------------------------- */
-- 
2.43.0


From 67697e1a648632e7447e4f142b587065c1d10d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:53 +0000
Subject: [PATCH 5/6] fix: isapxv20/ref: prototypes in permutation.h agree with
 the definitions

The permutation files define these functions with unsigned int lengths and
offsets and a mutable state; the header declared size_t and const void *.
---
 crypto_aead/isapxv20/ref/permutation.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crypto_aead/isapxv20/ref/permutation.h b/crypto_aead/isapxv20/ref/permutation.h
index 5de32da..0ebd599 100644
--- a/crypto_aead/isapxv20/ref/permutation.h
+++ b/crypto_aead/isapxv20/ref/permutation.h
@@ -2,33 +2,33 @@
 #define ISAP_PERMUTATION_H
 
 void Permutation_Initialize(
-	const void *state
+	void *state
 );
 
 void Permutation_AddBytes(
 	void *state,
 	const unsigned char *data,
-	size_t offset,
-	size_t length
+	unsigned int offset,
+	unsigned int length
 );
 
 void Permutation_OverwriteBytes(
 	void *state,
 	const unsigned char *data,
-	size_t offset,
-	size_t length
+	unsigned int offset,
+	unsigned int length
 );
 
 void Permutation_Permute_Nrounds(
 	void *state,
-	size_t nrounds
+	unsigned int nrounds
 );
 
 void Permutation_ExtractBytes(
 	const void *state,
 	unsigned char *data,
-	size_t offset,
-	size_t length
+	unsigned int offset,
+	unsigned int length
 );
 
 #endif
-- 
2.43.0


From fb62898f9ca97cfe9aab6ef07098dc5cb0cff3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:54 +0000
Subject: [PATCH 6/6] fix: bi_32_armv7m: move the state words back to their
 places after each round

The assembly of ROUND leaves x0..x4 in the words of x2, x3, x4, x0, x1, so any
number of rounds that is not a multiple of five produced wrong results.
---
 crypto_aead/isapa128av20/bi_32_armv7m/asconp.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
index 87ab8e8..fa25487 100644
--- a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
@@ -159,6 +159,13 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [tmp1] "=r"(tmp1), [tmp2] "=r"(tmp2)
         : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
         :);
+    // the statement leaves x0..x4 in the words of x2, x3, x4, x0, x1
+    lane_t x3 = s->l[0];
+    s->l[0] = s->l[2];
+    s->l[2] = s->l[4];
+    s->l[4] = s->l[1];
+    s->l[1] = s->l[3];
+    s->l[3] = x3;
 }
 
 /* ---------------------------------------------------------------- */
-- 
2.43.0

