From 106d9703c9a22a065692d288888ed9f76ab07093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:34 +0000
Subject: [PATCH 01/70] fix: AES decryption used the encryption key schedule

---
 include/wbcrypto/aes.h | 3 ++-
 src/aes/aes.c          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wbcrypto/aes.h b/include/wbcrypto/aes.h
index 3f7b958..4a7c126 100644
--- a/include/wbcrypto/aes.h
+++ b/include/wbcrypto/aes.h
@@ -9,7 +9,8 @@ extern "C" {
 #endif
 
     struct aes_context {
-        AES_KEY aes_key;
+        AES_KEY aes_key;        // encryption key schedule
+        AES_KEY aes_dec_key;    // decryption key schedule
     };
 
     typedef struct aes_context WBCRYPTO_aes_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index bc77d33..96cc9ba 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -21,6 +21,7 @@ int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t
     uint8_t input_key[16];
     memcpy(input_key, key, keylen);
     AES_set_encrypt_key(key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
@@ -30,6 +31,6 @@ int WBCRYPTO_aes_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_a
 }
 
 int WBCRYPTO_aes_decrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_aes_context *ctx){
-    AES_decrypt(in, out, &ctx->aes_key);
+    AES_decrypt(in, out, &ctx->aes_dec_key);
     return 1;
 }
-- 
2.43.0


From b4325b1423d64b24ff8cdb6adfae20637d6439f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:34 +0000
Subject: [PATCH 02/70] fix: padding helpers reallocated the caller's buffer
 behind its back

The helpers take the destination by value, so a moved block left the caller
(CBC encryption among them) with a freed pointer.
---
 src/modes/cbc128.c  | 2 +-
 src/utils/padding.c | 4 ----
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d9c964f..0f0ef21 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -5,7 +5,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
     int ret=0,len;
-    unsigned char *afin = (unsigned char *)malloc(inlen*sizeof(unsigned char));
+    unsigned char *afin = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen)*sizeof(unsigned char));
     len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 14c9609..4477f5d 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -2,7 +2,6 @@
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -24,7 +23,6 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -46,7 +44,6 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
-    dst = (unsigned char *)realloc(dst, pad_len*sizeof(unsigned char));
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
         dst[i] = src[i];
@@ -66,7 +63,6 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-    dst = (unsigned char *)realloc(dst,afpad_len*sizeof(unsigned char));
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
-- 
2.43.0


From b875ea6e33f4dc7f62668d66bab1e458527593e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:16 +0000
Subject: [PATCH 03/70] fix: keys shorter than 16 bytes were over-read instead
 of PKCS7-expanded

AES, white-box AES (plain, WBGCM-EE, WBGCM-Mask) and the FPE applications
ignored the key length that SM4 and white-box SM4 honour.
---
 src/aes/aes.c                     | 7 +++----
 src/fpe_app/init.c                | 3 +--
 src/wbaes/wbaes.c                 | 4 +++-
 src/wbaes/wbaes_wbgcm_ee_init.c   | 4 +++-
 src/wbaes/wbaes_wbgcm_mask_init.c | 4 +++-
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 96cc9ba..77a2ada 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -17,11 +17,10 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
-    AES_set_encrypt_key(key, 128, &ctx->aes_key);
-    AES_set_decrypt_key(key, 128, &ctx->aes_dec_key);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    AES_set_encrypt_key(input_key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(input_key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 95db799..bf40ce6 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,9 +5,8 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
         WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 6f048ce..66341e7 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -20,7 +20,9 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_ee_init.c b/src/wbaes/wbaes_wbgcm_ee_init.c
index af91483..8adfdec 100644
--- a/src/wbaes/wbaes_wbgcm_ee_init.c
+++ b/src/wbaes/wbaes_wbgcm_ee_init.c
@@ -5,7 +5,9 @@ void WBCRYPTO_wbaes_wbgcm_ee_gen_table(WBCRYPTO_wbaes_wbgcm_ee_context *ctx, con
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f69a232..4d2563c 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -31,7 +31,9 @@ void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
-- 
2.43.0


From 8ae235f03a3de32618252c2ebc13f8ec0808d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:16 +0000
Subject: [PATCH 04/70] fix: FPE applications had no room for the terminator of
 the FPE result

---
 src/fpe_app/cn_utf8.c | 2 +-
 src/fpe_app/idcard.c  | 2 +-
 src/fpe_app/phone.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 875d71a..d66c297 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -21,7 +21,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4];
+    char ans[(len - tweak_len) * 4 + 1];
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index ee685ca..be3c31c 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -22,7 +22,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
     char input[len - tweak_len + 1];
     char tweak[tweak_len + 1];
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = idcard[i];
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 6d2a452..7deb3d5 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -18,7 +18,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     input[len - tweak_len] = '\0';
     char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = phone[i];
-- 
2.43.0


From d19406490e037d6cb0357b6affb23d6aaea23f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:16 +0000
Subject: [PATCH 05/70] fix: FF3 read tweak bytes past the end of a short tweak

---
 src/fpe/init.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 7e21f6e..92c5410 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -16,8 +16,14 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     ctx->block = block;
     ctx->radix = radix;
     ctx->tweaklen = twklen;
-    ctx->tweak = (unsigned char *) malloc(twklen);
-    memcpy(ctx->tweak, tweak, twklen);
+    // FF3 reads 8 and FF3-GMAC 16 tweak bytes: shorter tweaks are zero-extended
+    ctx->tweak = (unsigned char *) calloc(twklen > 16 ? twklen : 16, 1);
+    if (!ctx->tweak) {
+        goto cleanup;
+    }
+    if (twklen > 0) {
+        memcpy(ctx->tweak, tweak, twklen);
+    }
     return ctx;
 cleanup:
     return NULL;
-- 
2.43.0


From d0e49037528d549b89a197d814ee062c28481b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:16 +0000
Subject: [PATCH 06/70] fix: unrepresentable characters were replaced by stack
 garbage instead of being rejected

---
 src/fpe_app/cn_utf8.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index d66c297..1212b5b 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -11,6 +11,13 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     int len = strlen(cn) / 3;
     int i, tweak_len = 0;
 
+    // only characters that four duodecimal digits can represent
+    for (i = 0; i < len; i++) {
+        int uc_int = utf8Uint32ToInt(utf8CharToUint32(cn + 3 * i));
+        if (uc_int < 0 || uc_int > 20735) {
+            return 0;
+        }
+    }
     for (i = 0; i < strlen(sample); i++) {
         if (sample[i] == '*') {
             ++tweak_len;
-- 
2.43.0


From c20ee255575ec0163a9ddd5de59b61483207a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 07/70] fix: one-shot SM3 had no return value

---
 src/sm3/sm3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm3/sm3.c b/src/sm3/sm3.c
index c62f685..40f5aa7 100644
--- a/src/sm3/sm3.c
+++ b/src/sm3/sm3.c
@@ -199,5 +199,6 @@ int WBCRYPTO_sm3(const unsigned char *msg, size_t msglen, unsigned char *digest)
     WBCRYPTO_sm3_init(&ctx);
     WBCRYPTO_sm3_update(&ctx, msg, msglen);
     WBCRYPTO_sm3_final(&ctx, digest);
+    return 1;
 }
 
-- 
2.43.0


From dc6bb424f3dc56d04a4fc79794c9bd33b7975e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 08/70] fix: FF1-CMAC tag depended on uninitialised memory for
 one-block inputs

---
 src/fpe/ff1_cmac.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2785a3d..a72e707 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -120,6 +120,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
@@ -291,6 +292,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-- 
2.43.0


From 91fb7c6ca5e939615ce725119993fa806857f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 09/70] fix: setting a new GCM IV kept the previous message's
 AAD length

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 48b2347..dc65f3c 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -109,6 +109,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     memset( ctx->y,   0x00, sizeof(ctx->y  ) );
     memset( ctx->buf, 0x00, sizeof(ctx->buf) );
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if( len == 12 ) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy( ctx->y, iv, len );   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 5a1455f..ffa6a9d 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -109,6 +109,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 8f1acc0..a9510a8 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
-- 
2.43.0


From 897bf1771f4b3c3ca15c4488b3d90231909ef83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:02 +0000
Subject: [PATCH 10/70] fix: WBGCM tag of an empty message without AAD was left
 encoded

---
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 3 ++-
 src/wbaes/wbaes_wbgcm_mask_mode.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index ffa6a9d..c161498 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -264,7 +264,8 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    // even the tag of an empty message has to be decoded
+    {
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index a9510a8..6757f0e 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -287,7 +287,8 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
+    // even the tag of an empty message has to be decoded
+    {
         memset(work_buf, 0x00, 16);
 
         PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-- 
2.43.0


From c5a87d1bd662fcf122c462fde3c266ece312583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:02 +0000
Subject: [PATCH 11/70] fix: WBGCM-Mask encryption and decryption computed
 different tags

Init already takes the mask off when it derives the hash key; the tag did not.
---
 src/wbaes/wbaes_wbgcm_mask_mode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 6757f0e..e1585e1 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -300,9 +300,14 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
         wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
         for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+            // take the mask off, so that both directions yield the same tag
+            buff_change[i] = key->encMode ? ctx->buf[i] : MatMulNumM8(key->L1[i], ctx->buf[i]);
+            buff_change[i] = key->GBOX_TypeI[i][buff_change[i]];
 //            tag[i] ^= ctx->buf[i];
             tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+            if (key->encMode) {
+                tag[i] = MatMulNumM8(key->L1[i], tag[i]);
+            }
         }
     }
     return 1;
-- 
2.43.0


From fe1161a44970a39f8aa689537ce4430b5021eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:02 +0000
Subject: [PATCH 12/70] fix: parallel GCM threads shared the byte counter of
 the XOR loop

---
 src/modes/gcm_parallel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 84fb451..5f3c809 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -43,7 +43,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
             (*block)(y_arr[i], ectr, key);
-            for (j = 0; j < use_len; j++)
+            for (size_t j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
@@ -110,7 +110,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
             (*block)(y_arr[i], ectr, key);
-            for (j = 0; j < use_len; j++)
+            for (size_t j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
-- 
2.43.0


From 5b099bc61c6b7b9fe706effcd68e9c1f369d3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:02 +0000
Subject: [PATCH 13/70] fix: parallel GCM decryption authenticated the
 plaintext

Hash the ciphertext, before decryption may overwrite it in place.
---
 src/modes/gcm_parallel.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 5f3c809..05fa7ad 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -95,6 +95,20 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         for (j = 0; j < 16; j++)
             y_arr[i][j] = ctx->y[j];
     }
+    //unable to parallel
+    for (i = 0; i < len_s; i++)
+    {
+        size_t use_len = 16;
+        if (i == (len_s - 1))
+        {
+            use_len = (len % 16 == 0) ? 16 : len % 16;
+        }
+        for (j = 0; j < use_len; j++)
+        {
+            ctx->buf[j] ^= in[16 * i + j];
+        }
+        gcm_mult(ctx, ctx->buf, ctx->buf);
+    }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
@@ -116,20 +130,6 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             }
         }
     }
-    //unable to parallel
-    for (i = 0; i < len_s; i++)
-    {
-        size_t use_len = 16;
-        if (i == (len_s - 1))
-        {
-            use_len = (len % 16 == 0) ? 16 : len % 16;
-        }
-        for (j = 0; j < use_len; j++)
-        {
-            ctx->buf[j] ^= out[16 * i + j];
-        }
-        gcm_mult(ctx, ctx->buf, ctx->buf);
-    }
     ret=1;
 cleanup:
     return ret;
-- 
2.43.0


From d0563aeb647b66e7fe26f1fe215b53d0ae268d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:02 +0000
Subject: [PATCH 14/70] fix: parallel GCM processed one block of an empty
 message

---
 src/modes/gcm_parallel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 05fa7ad..24751a6 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -14,6 +14,9 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     block128_f block = ctx->block;
     void *key = ctx->key;
 
+    if(len==0){
+        return 1;
+    }
     ctx->len += len; // bump the GCM context's running length count
 
     size_t len_s = (len - 1) / 16 + 1;
@@ -81,6 +84,9 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     block128_f block = ctx->block;
     void *key = ctx->key;
 
+    if(len==0){
+        return 1;
+    }
     ctx->len += len; // bump the GCM context's running length count
 
     size_t len_s = (len - 1) / 16 + 1;
-- 
2.43.0


From 2f245860fc01bc5863442afefb9ee709be73c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:11 +0000
Subject: [PATCH 15/70] fix: GCM file modes closed streams that were never
 opened

---
 src/modes/gcmfile.c               | 18 ++++++++++--------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 18 ++++++++++--------
 src/wbaes/wbaes_wbgcm_mask_file.c | 18 ++++++++++--------
 3 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bc27395..de46f1a 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -35,7 +35,7 @@ cleanup:
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
     int len_outfpath, file_size, block_size;
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -82,7 +82,6 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     // Finish encrypt
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
 
     // #2 Write cipher file
     // add tag
@@ -101,9 +100,12 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL) fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
@@ -112,7 +114,7 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     int ret = 0;
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -166,8 +168,8 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d432370..adbed18 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -4,7 +4,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int ret = 0;
     int len_outfpath, file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -51,7 +51,6 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     // Finish encrypt
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
 
     // #2 Write cipher file
     // add tag
@@ -70,9 +69,12 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL) fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
@@ -82,7 +84,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -136,7 +138,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 94cc621..d3d790b 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -4,7 +4,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int ret = 0;
     int len_outfpath, file_size, block_size;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -51,7 +51,6 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     // Finish encrypt
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
 
     // #2 Write cipher file
     // add tag
@@ -70,9 +69,12 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL) fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL) fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
@@ -82,7 +84,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     int file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
@@ -136,7 +138,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL) fclose(infp);
+    if (outfp != NULL) fclose(outfp);
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 79c1c149ab00a641c33a7b5949f282f662fbf3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:11 +0000
Subject: [PATCH 16/70] fix: GCM file decryption never compared the tag

The stored tag was overwritten before any ciphertext had been read, so a
modified file was decrypted without complaint; short headers were accepted.
---
 src/modes/gcmfile.c               | 11 ++++++++---
 src/wbaes/wbaes_wbgcm_ee_file.c   | 11 ++++++++---
 src/wbaes/wbaes_wbgcm_mask_file.c | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index de46f1a..8f7f8dd 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -124,13 +124,13 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -146,7 +146,6 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -165,6 +164,12 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Invalid tag
+    unsigned char real_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    WBCRYPTO_gcm_finish(ctx->gcm, real_tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(real_tag, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index adbed18..8be90fd 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -94,13 +94,13 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -116,7 +116,6 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -135,6 +134,12 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Invalid tag
+    unsigned char real_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, real_tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(real_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index d3d790b..6942ed1 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -94,13 +94,13 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     memset(flag, 0, sizeof(flag));
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
@@ -116,7 +116,6 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
@@ -135,6 +134,12 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Invalid tag
+    unsigned char real_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, real_tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    if (memcmp(real_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-- 
2.43.0


From 978e623e3d15ca6529fb665a0710a29fcef25024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:11 +0000
Subject: [PATCH 17/70] fix: GCM file header contained four bytes of stack
 garbage

---
 src/modes/gcmfile.c               | 2 +-
 src/wbaes/wbaes_wbgcm_ee_file.c   | 2 +-
 src/wbaes/wbaes_wbgcm_mask_file.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 8f7f8dd..609a83d 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -61,7 +61,7 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 8be90fd..d1244ca 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -30,7 +30,7 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 6942ed1..1933c55 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -30,7 +30,7 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     fseek(infp, 0, SEEK_END);
     file_size = ftell(infp);
     memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    memcpy(size_buf, &file_size, sizeof(file_size));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
-- 
2.43.0


From 334d7a3e0874cde803f06f38564c90708ebdec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:11 +0000
Subject: [PATCH 18/70] fix: GCM file modes reported success after a failed
 read or write

---
 src/modes/gcmfile.c               | 6 ++++++
 src/wbaes/wbaes_wbgcm_ee_file.c   | 6 ++++++
 src/wbaes/wbaes_wbgcm_mask_file.c | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 609a83d..cc52906 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -97,6 +97,9 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
         fwrite(buf, sizeof(unsigned char), block_size, outfp);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    fflush(outfp);
+    if (ferror(infp) || ferror(tmpfp) || ferror(outfp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
@@ -160,6 +163,9 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     }
 
     fflush(outfp);
+    if (ferror(infp) || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d1244ca..0cabcf0 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -66,6 +66,9 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
         fwrite(buf, sizeof(unsigned char), block_size, outfp);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    fflush(outfp);
+    if (ferror(infp) || ferror(tmpfp) || ferror(outfp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
@@ -130,6 +133,9 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     }
 
     fflush(outfp);
+    if (ferror(infp) || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 1933c55..1bad3ce 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -66,6 +66,9 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
         fwrite(buf, sizeof(unsigned char), block_size, outfp);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
+    fflush(outfp);
+    if (ferror(infp) || ferror(tmpfp) || ferror(outfp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     ret = 1;
 cleanup:
@@ -130,6 +133,9 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     }
 
     fflush(outfp);
+    if (ferror(infp) || ferror(outfp)) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
-- 
2.43.0


From 1d0a75ed9ff47814b5a050df7c6da3fa7cddff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:53 +0000
Subject: [PATCH 19/70] fix: WBSM4 dummy rounds used uninitialised table
 entries

---
 src/wbsm4/wbsm4_gen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index c67b97b..3c16763 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -235,7 +235,7 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
                     wbsm4_ctx->Table[i][j][x]=0;
-//                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->DD[i][j][x]=0;
                 }
             }
 //            identityAff32(&wbsm4_ctx->CC[i]);
-- 
2.43.0


From 73c0d9d70229b64f50d219b08b454f1226495e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 20/70] fix: WBSM4 used the wrong round keys after adjacent
 dummy rounds

---
 src/wbsm4/wbsm4_gen.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index 3c16763..5017ea4 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -164,14 +164,10 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         D[i].Vec.V ^= P[i + 4].Vec.V ^ temp_u32;
     }
 
-    int flag = 0;
-    int point;
-    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++, point++)
+    int point = 0;  // real round that the next non-dummy round implements
+    for (i = 0; i < wbsm4_ctx->rounds; i++)
     {
         if(dummy_array[i]==0) {
-            point = flag ? point - 4 : point;
-            flag = 0;
-
             //1
             for (j = 0; j < 3; j++) {
                 Q_constant[j] = cus_random();
@@ -230,8 +226,8 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
                 }
                 wbsm4_ctx->Table[i][3][x] ^= Q[point].Vec.V ^ Q_constant[0] ^ Q_constant[1] ^ Q_constant[2];
             }
+            point++;
         }else{
-            flag=1;
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
                     wbsm4_ctx->Table[i][j][x]=0;
-- 
2.43.0


From 46a08d6c71ac3284e05eec723be67124c9905712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 21/70] fix: key import and export crashed on a file that
 cannot be opened

---
 src/utils/keystore.c    | 4 ++--
 src/wbsm4/wbsm4_exkey.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index f84ecfa..7608603 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -10,7 +10,7 @@ int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     fread(ctx , ctx_len, 1, rkey);
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL) fclose(rkey);
     return ret;
 }
 
@@ -24,6 +24,6 @@ int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     fwrite( ctx, ctx_len, 1, wkey);
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL) fclose(wkey);
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 006338a..6ea6c0b 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -43,7 +43,7 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL) fclose(wkey);
     return ret;
 }
 
@@ -95,7 +95,7 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL) fclose(rkey);
     return ret;
 }
 
-- 
2.43.0


From d54b7bdc6c8f62a4832517551b4e9e56df50dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 22/70] fix: key import and export ignored failed reads and
 writes

---
 src/utils/keystore.c    | 8 ++++++--
 src/wbsm4/wbsm4_exkey.c | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index 7608603..4283dcc 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -7,7 +7,9 @@ int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
     }
-    fread(ctx , ctx_len, 1, rkey);
+    if(fread(ctx , 1, ctx_len, rkey)!=ctx_len){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
     ret=1;
 cleanup:
     if(rkey!=NULL) fclose(rkey);
@@ -21,7 +23,9 @@ int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
     }
-    fwrite( ctx, ctx_len, 1, wkey);
+    if(fwrite( ctx, 1, ctx_len, wkey)!=ctx_len || fflush(wkey)!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
     if(wkey!=NULL) fclose(wkey);
diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 6ea6c0b..141d825 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -41,6 +41,9 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
             }
         }
     }
+    if(fflush(wkey)!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
     if(wkey!=NULL) fclose(wkey);
-- 
2.43.0


From 10cab5f9f6085c8f0ecb852fa921254c2034ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 23/70] fix: importing a key file overran a context initialised
 with fewer rounds

The parameters of that initialisation are documented not to matter. Files
with an impossible number of rounds are rejected.
---
 src/wbsm4/wbsm4_exkey.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 141d825..198821a 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -1,5 +1,19 @@
 #include "wbsm4_local.h"
 
+// bytes of the tables of one round: MM[3][4][256], CC[4][256], DD[4][256], Table[4][256]
+#define WBSM4_ROUND_BYTES (6 * 4 * 256 * sizeof(uint32_t))
+
+// give ctx tables for that many rounds
+static int wbsm4_alloc_tables(WBCRYPTO_wbsm4_context *ctx, int encmode, int rounds){
+    WBCRYPTO_wbsm4_context *tmp = WBCRYPTO_wbsm4_context_init(encmode, (rounds - 32) / 4);
+    if(tmp==NULL){
+        return 0;
+    }
+    memcpy(ctx, tmp, sizeof(struct wbsm4_context));
+    free(tmp);
+    return 1;
+}
+
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
     FILE *wkey;
@@ -64,10 +78,25 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     if(strcmp(algname, "DummyRound-WBSM4")!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(!fread(&ctx->rounds, sizeof(int), 1, rkey)
-       ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
+    int rounds, encmode;
+    if(!fread(&rounds, sizeof(int), 1, rkey)
+       ||!fread(&encmode, sizeof(int), 1, rkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
+    // the tables must be complete before they replace those of the context
+    long start = ftell(rkey);
+    fseek(rkey, 0, SEEK_END);
+    long rest = ftell(rkey) - start;
+    fseek(rkey, start, SEEK_SET);
+    if(rounds<32 || (rounds-32)%4!=0
+       ||rest < (long)(rounds*WBSM4_ROUND_BYTES + sizeof(ctx->SE) + sizeof(ctx->FE))){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
+    if(rounds > ctx->rounds && !wbsm4_alloc_tables(ctx, encmode, rounds)){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    ctx->rounds = rounds;
+    ctx->encmode = encmode;
     for (i = 0;  i< ctx->rounds; i++) {
         for (j = 0;  j<3 ; j++) {
             for (k = 0;  k<4 ; k++) {
-- 
2.43.0


From 4e3d8c75eaa73cdac27288b5691f027a6c138efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:57 +0000
Subject: [PATCH 24/70] fix: WBSM4 key stream contained pointers instead of the
 key tables

A stream sent elsewhere, or read after the exporting context changed, did not
hold the key.
---
 src/wbsm4/wbsm4_exkey.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 198821a..9065a98 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -134,13 +134,30 @@ cleanup:
 int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     int ret=0;
     int ks_len = 0;
+    int i, j, k;
 
     ks_len = sizeof(struct wbsm4_context);
     ks_len += sizeof(uint32_t);
+    ks_len += ctx->rounds*WBSM4_ROUND_BYTES;
     *kstream = malloc(ks_len);
+    if(*kstream==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     *((uint32_t *)*kstream) = ks_len;
     uint8_t* ds  = *kstream + sizeof(uint32_t);
     memcpy(ds, ctx, sizeof(struct wbsm4_context));
+    ds += sizeof(struct wbsm4_context);
+
+    // the context only points to these tables
+    for (i = 0; i < ctx->rounds; i++) {
+        for (k = 0; k < 4; k++) {
+            const uint32_t *tables[6] = {ctx->MM[i][0][k], ctx->MM[i][1][k], ctx->MM[i][2][k],
+                                         ctx->CC[i][k], ctx->DD[i][k], ctx->Table[i][k]};
+            for (j = 0; j < 6; j++, ds += 256*sizeof(uint32_t)) {
+                memcpy(ds, tables[j], 256*sizeof(uint32_t));
+            }
+        }
+    }
 
     ret=1;
 cleanup:
@@ -149,10 +166,28 @@ cleanup:
 
 int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
     int ret=0;
+    int i, j, k;
+    struct wbsm4_context head;
 
     const uint8_t  *ptr = kstream;
     ptr += sizeof(uint32_t);
-    memcpy(ctx, ptr, sizeof(struct wbsm4_context));
+    memcpy(&head, ptr, sizeof(struct wbsm4_context));
+    ptr += sizeof(struct wbsm4_context);
+    if(!wbsm4_alloc_tables(ctx, head.encmode, head.rounds)){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    memcpy(ctx->SE, head.SE, sizeof(head.SE));
+    memcpy(ctx->FE, head.FE, sizeof(head.FE));
+
+    for (i = 0; i < ctx->rounds; i++) {
+        for (k = 0; k < 4; k++) {
+            uint32_t *tables[6] = {ctx->MM[i][0][k], ctx->MM[i][1][k], ctx->MM[i][2][k],
+                                   ctx->CC[i][k], ctx->DD[i][k], ctx->Table[i][k]};
+            for (j = 0; j < 6; j++, ptr += 256*sizeof(uint32_t)) {
+                memcpy(tables[j], ptr, 256*sizeof(uint32_t));
+            }
+        }
+    }
 
     ret=1;
 cleanup:
-- 
2.43.0


From 3a3987976e076a45a63c5a2b17f59f573d68b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:57 +0000
Subject: [PATCH 25/70] fix: removing the padding of an empty message read
 before its start

---
 src/utils/padding.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/padding.c b/src/utils/padding.c
index 4477f5d..b7b1d39 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -58,6 +58,9 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
+    if(srclen == 0){
+        return 0;
+    }
     int pad_num = (int)src[srclen-1], afpad_len;
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
@@ -74,6 +77,9 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
+    if(srclen == 0){
+        return 0;
+    }
     int pad_num = src[srclen-1], afpad_len;
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
-- 
2.43.0


From 7386e68e5dec7e9b996da86f2620c32506b0e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:57 +0000
Subject: [PATCH 26/70] fix: WBGCM reported a too small output buffer as
 success

Everywhere else 0 is the error value, and WBCRYPTO_MPI_CHK tests for it.
---
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 4 ++--
 src/wbaes/wbaes_wbgcm_mask_mode.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index c161498..79176c1 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -158,7 +158,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     unsigned char *out, size_t outlen) {
     int len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -208,7 +208,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     unsigned char *out, size_t outlen) {
     int len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index e1585e1..430e16f 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -171,7 +171,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       unsigned char *out, size_t outlen) {
     int len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -226,7 +226,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       unsigned char *out, size_t outlen) {
     int len;            // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
-- 
2.43.0


From d18ac3c3c3daa6245a84e262932c572e3d0d7deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:19 +0000
Subject: [PATCH 27/70] fix: a sample of another length than the text overran
 the buffers

---
 src/fpe_app/cn_utf8.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 1212b5b..b24a7e7 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -24,6 +24,10 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
         }
     }
     if (strcmp(sample, "") != 0) {
+        // the sample must have one '*' or one three-byte character for each character
+        if (tweak_len + (strlen(sample) - tweak_len) / 3 != len) {
+            return 0;
+        }
         tweak_len = len - tweak_len;
     }
     char input[(len - tweak_len) * 4 + 1];
-- 
2.43.0


From bdc2c2c7c3c5763d4c73d508b99c0e02e16054a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:19 +0000
Subject: [PATCH 28/70] fix: UDF wrote its message over the one-byte error flag

---
 udf/mysql5.cpp |  6 +++---
 udf/mysql8.cpp | 10 ++++------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index ce4bbf7..161f8a8 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -72,7 +72,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
+            *error = 1; // the length of phone should be 11
             return NULL;
         }
         if (args->arg_count == 3) {
@@ -82,7 +82,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
+            *error = 1; // the length of id-card should be 18
             return NULL;
         }
         if (args->arg_count == 3) {
@@ -97,7 +97,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
             WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+        *error = 1; // requires optional mode: phone or idcard or address
         return NULL;
     }
 
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 70ed153..33cb327 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -63,9 +63,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     if (args->arg_count == 3) {
         sample = args->args[2];
         if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0) {
-            char msg[200];
-            sprintf(msg, "sample should be as long as plain, plain: %s, sample: %s", plain, sample);
-            strcpy(error, msg);
+            *error = 1;
             return NULL;
         }
     }
@@ -78,7 +76,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-            strcpy(error, "the length of phone should be 11");
+            *error = 1; // the length of phone should be 11
             return NULL;
         }
         if (args->arg_count == 3) {
@@ -88,7 +86,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
-            strcpy(error, "the length of id-card should be 18");
+            *error = 1; // the length of id-card should be 18
             return NULL;
         }
         if (args->arg_count == 3) {
@@ -103,7 +101,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
             WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
-        strcpy(error, "requires optional mode: phone or idcard or address");
+        *error = 1; // requires optional mode: phone or idcard or address
         return NULL;
     }
 
-- 
2.43.0


From be0f197d46abcff2dda69d030f8f80ce39e50071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:19 +0000
Subject: [PATCH 29/70] fix: UDF overflowed the 255-byte result buffer

---
 udf/mysql5.cpp | 3 +--
 udf/mysql8.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 161f8a8..e8943fe 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -102,10 +102,9 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     }
 
     *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
 
     // char ret[1024];
     // sprintf(ret, "%s", result);
 
-    return result;
+    return initid->ptr;
 }
\ No newline at end of file
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 33cb327..5cf2ff4 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -106,10 +106,9 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     }
 
     *length = plain_len;
-    memcpy(result, initid->ptr, plain_len);
 
     // char ret[1024];
     // sprintf(ret, "%s", result);
 
-    return result;
+    return initid->ptr;
 }
\ No newline at end of file
-- 
2.43.0


From 77ffcb05c49d00e1ab4b7cb8b187a4d10cfbbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:19 +0000
Subject: [PATCH 30/70] fix: UDF required NUL-terminated, non-NULL arguments

MySQL passes a pointer and a length, and NULL for SQL NULL.
---
 udf/mysql5.cpp | 19 ++++++++++++++++---
 udf/mysql8.cpp | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index e8943fe..4902c74 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
 
@@ -55,13 +56,25 @@ void fpe_deinit(UDF_INIT *initid) {
 }
 
 char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
+    // SQL NULL yields SQL NULL
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            return NULL;
+        }
+    }
+    // the arguments need not be terminated
+    std::string plain_str(args->args[0], args->lengths[0]);
+    std::string mode_str(args->args[1], args->lengths[1]);
+    std::string sample_str;
+    char *plain = &plain_str[0];
+    char *mode = &mode_str[0];
     char *sample;
     int plain_len = args->lengths[0];
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
+        sample_str.assign(args->args[2], args->lengths[2]);
+        sample = &sample_str[0];
     }
 
     memcpy(initid->ptr, plain, plain_len);
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 5cf2ff4..98d0c72 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <string>
 #include <mysql.h>
 #include <wbcrypto/fpe_app.h>
 
@@ -55,13 +56,25 @@ void fpe_deinit(UDF_INIT *initid) {
 }
 
 char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length, char *is_null, char *error) {
-    char *plain = args->args[0];
-    char *mode = args->args[1];
+    // SQL NULL yields SQL NULL
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->args[i] == NULL) {
+            *is_null = 1;
+            return NULL;
+        }
+    }
+    // the arguments need not be terminated
+    std::string plain_str(args->args[0], args->lengths[0]);
+    std::string mode_str(args->args[1], args->lengths[1]);
+    std::string sample_str;
+    char *plain = &plain_str[0];
+    char *mode = &mode_str[0];
     char *sample;
     int plain_len = args->lengths[0];
 
     if (args->arg_count == 3) {
-        sample = args->args[2];
+        sample_str.assign(args->args[2], args->lengths[2]);
+        sample = &sample_str[0];
         if (plain_len != args->lengths[2] && strcmp(mode, "address") != 0) {
             *error = 1;
             return NULL;
-- 
2.43.0


From ed40110391050d18be8d5199d2ab880a7ca9619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:19 +0000
Subject: [PATCH 31/70] fix: UDF returned the plaintext when the encryption had
 failed

---
 udf/mysql5.cpp | 17 +++++++++++------
 udf/mysql8.cpp | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 4902c74..9fc7a21 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -80,6 +80,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
+    int ok = 0;
     WBCRYPTO_fpe_app_context app_ctx;
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
 
@@ -89,9 +90,9 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
@@ -99,21 +100,25 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
         *error = 1; // requires optional mode: phone or idcard or address
         return NULL;
     }
 
+    if (!ok) {
+        *error = 1;
+        return NULL;
+    }
     *length = plain_len;
 
     // char ret[1024];
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 98d0c72..abd00d9 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -84,6 +84,7 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
+    int ok = 0;
     WBCRYPTO_fpe_app_context app_ctx;
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
 
@@ -93,9 +94,9 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_phone_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_phone(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "idcard") == 0) {
         if (plain_len != 18) {
@@ -103,21 +104,25 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
             return NULL;
         }
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_idcard_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_idcard(&app_ctx, plain, initid->ptr);
         }
     } else if (strcmp(mode, "name") == 0 || strcmp(mode, "address") == 0) {
         if (args->arg_count == 3) {
-            WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&app_ctx, plain, initid->ptr, sample);
         }else {
-            WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
+            ok = WBCRYPTO_fpe_encrypt_cn_utf8(&app_ctx, plain, initid->ptr);
         }
     } else {
         *error = 1; // requires optional mode: phone or idcard or address
         return NULL;
     }
 
+    if (!ok) {
+        *error = 1;
+        return NULL;
+    }
     *length = plain_len;
 
     // char ret[1024];
-- 
2.43.0


From 190cd046cf9e1a7a97a9a14eec4f01340b746fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:28 +0000
Subject: [PATCH 32/70] fix: text that is not three-byte UTF-8 was encrypted as
 other characters

---
 src/fpe_app/cn_utf8.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index b24a7e7..73ae402 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -11,8 +11,14 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     int len = strlen(cn) / 3;
     int i, tweak_len = 0;
 
-    // only characters that four duodecimal digits can represent
+    // only three-byte characters that four duodecimal digits can represent
+    if (strlen(cn) % 3 != 0) {
+        return 0;
+    }
     for (i = 0; i < len; i++) {
+        if ((cn[3 * i] & 0xf0) != 0xe0 || (cn[3 * i + 1] & 0xc0) != 0x80 || (cn[3 * i + 2] & 0xc0) != 0x80) {
+            return 0;
+        }
         int uc_int = utf8Uint32ToInt(utf8CharToUint32(cn + 3 * i));
         if (uc_int < 0 || uc_int > 20735) {
             return 0;
-- 
2.43.0


From 3f33f2651e8753e63d9989618f88ab6ad3b9971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:32 +0000
Subject: [PATCH 33/70] fix: samples shorter than the text or not made of whole
 characters were read past their end

---
 src/fpe_app/cn_utf8.c | 17 ++++++++++-------
 src/fpe_app/idcard.c  |  3 +++
 src/fpe_app/phone.c   |  3 +++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 73ae402..2f25f9e 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -24,17 +24,20 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
             return 0;
         }
     }
-    for (i = 0; i < strlen(sample); i++) {
-        if (sample[i] == '*') {
-            ++tweak_len;
-        }
-    }
     if (strcmp(sample, "") != 0) {
         // the sample must have one '*' or one three-byte character for each character
-        if (tweak_len + (strlen(sample) - tweak_len) / 3 != len) {
+        int sample_len = 0, sample_bytes = strlen(sample);
+        for (i = 0; i < sample_bytes; sample_len++) {
+            if (sample[i] == '*') {
+                ++i;
+            } else {
+                ++tweak_len;
+                i += 3;
+            }
+        }
+        if (i != sample_bytes || sample_len != len) {
             return 0;
         }
-        tweak_len = len - tweak_len;
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index be3c31c..b0ae548 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -14,6 +14,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
         len--;
     }
     if (strcmp(sample, "") != 0) {
+        if (strlen(sample) < len) {
+            return 0;
+        }
         for (i = 0; i < len; i++) {
             if (sample[i] != '*') {
                 ++tweak_len;
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 7deb3d5..d8d08e3 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -8,6 +8,9 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     int i, j, k, tweak_len = 0;
 
     if (strcmp(sample, "") != 0) {
+        if (strlen(sample) < len) {
+            return 0;
+        }
         for (i = 0; i < len; i++) {
             if (sample[i] != '*') {
                 ++tweak_len;
-- 
2.43.0


From 6936afa50f4185757c2c07a0f57f02277e2da9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:24 +0000
Subject: [PATCH 34/70] fix: FF1 aborted for an empty tweak when no padding is
 needed

---
 src/fpe/ff1.c      | 4 ++--
 src/fpe/ff1_cmac.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c736995..c388623 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -63,7 +63,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad <= Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
@@ -214,7 +214,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad <= Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index a72e707..68dde07 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -89,7 +89,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad <= Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
@@ -261,7 +261,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad <= Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-- 
2.43.0


From 0c0bb0d56a00ab5881113156997a6accd154e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:35 +0000
Subject: [PATCH 35/70] fix: messages of 2 GiB and more in one call were cut
 short or crashed

---
 src/modes/cbc128.c                |  6 ++++--
 src/modes/gcm128.c                |  6 ++++--
 src/modes/gcm_parallel.c          |  6 ++++--
 src/utils/padding.c               | 11 +++++++----
 src/wbaes/wbaes_wbgcm_ee_mode.c   |  4 ++--
 src/wbaes/wbaes_wbgcm_mask_mode.c |  4 ++--
 6 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index 0f0ef21..b241465 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -4,7 +4,8 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     unsigned char *afin = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen)*sizeof(unsigned char));
     len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     if(max_olen<len){
@@ -47,7 +48,8 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key,unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index dc65f3c..61ddb8d 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -163,7 +163,8 @@ cleanup:
 int WBCRYPTO_gcm_encrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;          // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -212,7 +213,8 @@ cleanup:
 int WBCRYPTO_gcm_decrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;          // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 24751a6..c462536 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -4,7 +4,8 @@
 int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;          // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -74,7 +75,8 @@ cleanup:
 int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;          // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/utils/padding.c b/src/utils/padding.c
index b7b1d39..ef1d7c8 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -42,7 +42,8 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num, pad_len;
+    int pad_num;
+    size_t i, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
@@ -61,7 +62,8 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
     if(srclen == 0){
         return 0;
     }
-    int pad_num = (int)src[srclen-1], afpad_len;
+    int pad_num = (int)src[srclen-1];
+    size_t afpad_len;
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
     }
@@ -71,7 +73,7 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
-    int pad_len;
+    size_t pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     return pad_len;
 }
@@ -80,7 +82,8 @@ size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen)
     if(srclen == 0){
         return 0;
     }
-    int pad_num = src[srclen-1], afpad_len;
+    int pad_num = src[srclen-1];
+    size_t afpad_len;
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
     }
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 79176c1..a6fc589 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -156,7 +156,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_aad(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned c
 int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return 0;
     } else {
@@ -206,7 +206,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return 0;
     } else {
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 430e16f..1303277 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -169,7 +169,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_aad(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return 0;
     } else {
@@ -224,7 +224,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return 0;
     } else {
-- 
2.43.0


From fbfc0e49d1e5bc13ad6de2091d6164e183ebf712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:35 +0000
Subject: [PATCH 36/70] fix: FPE aborted the process for a text of one
 character or none

---
 src/fpe/ff1.c      | 2 --
 src/fpe/ff1_cmac.c | 2 --
 src/fpe/ff3.c      | 2 --
 src/fpe/ff3_gmac.c | 2 --
 4 files changed, 8 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c388623..d934734 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -130,7 +130,6 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         else BN_mod_add(c, anum, y, qpow_v, bn_ctx);
 
         // swap A and B
-        assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
@@ -278,7 +277,6 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         else BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
 
         // swap A and B
-        assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 68dde07..e6c49f9 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -176,7 +176,6 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         else BN_mod_add(c, anum, y, qpow_v, bn_ctx);
 
         // swap A and B
-        assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
@@ -345,7 +344,6 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         else BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
 
         // swap A and B
-        assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3e851d6..bf4ca8c 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -59,7 +59,6 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         if (i & 1) BN_mod_add(c, anum, y, qpow_v, bn_ctx);
         else BN_mod_add(c, anum, y, qpow_u, bn_ctx);
 
-        assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
@@ -142,7 +141,6 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         if (i & 1) BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
         else BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
 
-        assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index aba96af..7545809 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -152,7 +152,6 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         if (i & 1) BN_mod_add(c, anum, y, qpow_v, bn_ctx);
         else BN_mod_add(c, anum, y, qpow_u, bn_ctx);
 
-        assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
@@ -249,7 +248,6 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         if (i & 1) BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
         else BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
 
-        assert(A != B);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-- 
2.43.0


From eeec22fc9b38310cbfb1219f4e62a89691df1b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:59 +0000
Subject: [PATCH 37/70] fix: FPE turned characters outside the radix into text
 that does not decrypt

---
 src/fpe/ff1.c         | 6 ++++++
 src/fpe/ff1_cmac.c    | 6 ++++++
 src/fpe/ff3.c         | 6 ++++++
 src/fpe/ff3_gmac.c    | 6 ++++++
 src/fpe/fpe_locl.c    | 9 +++++++++
 src/fpe/fpe_locl.h    | 3 +++
 src/fpe_app/cn_utf8.c | 4 +++-
 src/fpe_app/idcard.c  | 4 +++-
 src/fpe_app/phone.c   | 4 +++-
 9 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index d934734..be0e75b 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -3,6 +3,9 @@
 
 int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -154,6 +157,9 @@ cleanup:
 
 int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index e6c49f9..4c8a1d5 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -29,6 +29,9 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -201,6 +204,9 @@ cleanup:
 
 int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index bf4ca8c..ede950e 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -3,6 +3,9 @@
 
 int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -83,6 +86,9 @@ cleanup:
 
 int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->radix)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index 7545809..f3998be 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -81,6 +81,9 @@ int gmac_gen_H(WBCRYPTO_fpe_mac_context *ctx, uint64_t *HH, uint64_t *HL) {
 
 int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -177,6 +180,9 @@ cleanup:
 
 int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (!check_chars(input, ctx->fpe_ctx->radix)) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/fpe_locl.c b/src/fpe/fpe_locl.c
index 74b8857..bd6bb10 100644
--- a/src/fpe/fpe_locl.c
+++ b/src/fpe/fpe_locl.c
@@ -36,6 +36,15 @@ void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *
     */
 }
 
+int check_chars(const char *str, unsigned int radix) {
+    for (; *str; ++str) {
+        if (*str >= '0' && *str <= '9' && *str - '0' < (int) radix) continue;
+        if (*str >= 'a' && *str <= 'z' && *str - 'a' + 10 < (int) radix) continue;
+        return 0;
+    }
+    return 1;
+}
+
 void map_chars(const unsigned char str[], unsigned int result[]) {
     int len = strlen(str);
 
diff --git a/src/fpe/fpe_locl.h b/src/fpe/fpe_locl.h
index 050dd1b..a7e9fd6 100644
--- a/src/fpe/fpe_locl.h
+++ b/src/fpe/fpe_locl.h
@@ -18,6 +18,9 @@
 
 void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
 
+// 1 if every character is a numeral (0-9, a-z) of the radix
+int check_chars(const char *str, unsigned int radix);
+
 void map_chars(const unsigned char str[], unsigned int result[]);
 
 void inverse_map_chars(unsigned result[], unsigned char str[], int len);
diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 2f25f9e..dd8e722 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -82,7 +82,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (!(*block)(fpe_ctx, input, ans)) {
+        goto cleanup;
+    }
 
     char *ori_add = cn;
     char *ans_p = ans;
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index b0ae548..f7c5a4f 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -48,7 +48,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (!(*block)(fpe_ctx, input, ans)) {
+        goto cleanup;
+    }
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index d8d08e3..7b68956 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -42,7 +42,9 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (!(*block)(fpe_ctx, input, ans)) {
+        goto cleanup;
+    }
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
-- 
2.43.0


From 208ee038bcfab7469b2f0b366fbcb7105d961a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:59 +0000
Subject: [PATCH 38/70] fix: initialising FPE with an unsupported radix leaked
 the context

---
 src/fpe/init.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 92c5410..3d3eb1b 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -4,11 +4,12 @@
 
 WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, unsigned int radix,
                                         void *cipher_ctx, block128_f block) {
-    struct fpe_ctx *ctx = malloc(sizeof(struct fpe_ctx));
-    if (!ctx) {
+    struct fpe_ctx *ctx = NULL;
+    if (radix < 2 || radix > 36) {
         goto cleanup;
     }
-    if (radix < 2 || radix > 36) {
+    ctx = malloc(sizeof(struct fpe_ctx));
+    if (!ctx) {
         goto cleanup;
     }
 
@@ -26,6 +27,7 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
@@ -40,16 +42,18 @@ void WBCRYPTO_fpe_free(WBCRYPTO_fpe_context *ctx) {
 
 WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twklen, unsigned int radix,
                                                 void *cipher_ctx, block128_f block){
-    struct fpe_mac_ctx *ctx = malloc(sizeof(struct fpe_mac_ctx));
-    if (!ctx) {
+    struct fpe_mac_ctx *ctx = NULL;
+    if (radix < 2 || radix > 36) {
         goto cleanup;
     }
-    if (radix < 2 || radix > 36) {
+    ctx = malloc(sizeof(struct fpe_mac_ctx));
+    if (!ctx) {
         goto cleanup;
     }
     ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From bd7cd082d80d65c1cd9494d4361dbbc541d82621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:17 +0000
Subject: [PATCH 39/70] fix: CBC encryption leaked a padded copy of the message

---
 src/modes/cbc128.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index b241465..f046a1b 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -7,6 +7,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     int ret=0;
     size_t len;
     unsigned char *afin = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen)*sizeof(unsigned char));
+    unsigned char *padded = afin;
     len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
@@ -41,6 +42,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     }
     ret=1;
 cleanup:
+    free(padded);
     return ret;
 }
 
-- 
2.43.0


From eab347d3dd8cdabed590a6f4da0f2dd5a9b850af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:17 +0000
Subject: [PATCH 40/70] fix: parallel GCM leaked the counter blocks of every
 message

---
 src/modes/gcm_parallel.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index c462536..05c4c4f 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -67,6 +67,11 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         }
         gcm_mult(ctx, ctx->buf, ctx->buf);
     }
+    for (i = 0; i < len_s; i++)
+    {
+        free(y_arr[i]);
+    }
+    free(y_arr);
     ret=1;
 cleanup:
     return ret;
@@ -138,6 +143,11 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             }
         }
     }
+    for (i = 0; i < len_s; i++)
+    {
+        free(y_arr[i]);
+    }
+    free(y_arr);
     ret=1;
 cleanup:
     return ret;
-- 
2.43.0


From 0cee0ef89d55dc9e800cfb82d3d640d9474d7c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:29 +0000
Subject: [PATCH 41/70] fix: freeing a context did not release it, and with -O3
 some were not even erased

---
 src/aes/aes.c                     |  6 +++++-
 src/modes/gcm128.c                |  6 +++++-
 src/modes/gcmfile.c               |  7 ++++++-
 src/se_wbsm4/se_wbsm4.c           |  6 +++++-
 src/sm4/sm4.c                     |  6 +++++-
 src/wbaes/wbaes.c                 |  6 +++++-
 src/wbaes/wbaes_wbgcm_ee_mode.c   |  3 ++-
 src/wbaes/wbaes_wbgcm_mask_mode.c |  3 ++-
 src/wbsm4/wbsm4.c                 | 32 ++++++++++++++++++++++++++++++-
 src/wbsm4/wbsm4_local.h           |  3 +++
 10 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 77a2ada..605cc34 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/aes.h>
+#include <openssl/crypto.h>
 
 WBCRYPTO_aes_context *WBCRYPTO_aes_context_init(){
     struct aes_context *ctx=malloc(sizeof(struct aes_context));
@@ -13,7 +14,10 @@ cleanup:
 }
 
 void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
-    memset(ctx,0,sizeof(struct aes_context));
+    if(ctx!=NULL){
+        OPENSSL_cleanse(ctx,sizeof(struct aes_context));
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 61ddb8d..fd6542a 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/modes.h>
+#include <openssl/crypto.h>
 
 void gcm_mult( WBCRYPTO_gcm_context *ctx,
                       const unsigned char x[16],
@@ -288,5 +289,8 @@ cleanup:
 }
 
 void WBCRYPTO_gcm_free(WBCRYPTO_gcm_context *ctx){
-    memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+    if(ctx!=NULL){
+        OPENSSL_cleanse( ctx, sizeof(WBCRYPTO_gcm_context) );
+        free(ctx);
+    }
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index cc52906..f0bb16b 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/modes.h>
+#include <openssl/crypto.h>
 
 WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     struct gcmfile_context *ctx = malloc(sizeof(struct gcmfile_context));
@@ -185,6 +186,10 @@ cleanup:
 }
 
 void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+    if (ctx != NULL) {
+        WBCRYPTO_gcm_free(ctx->gcm);
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_gcmfile_context));
+        free(ctx);
+    }
 }
 
diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 382a84c..98e5e20 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -1,4 +1,5 @@
 #include "se_wbsm4_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_se_wbsm4_context *WBCRYPTO_se_wbsm4_context_init(int encmode) {
     struct se_wbsm4_context *ctx = malloc(sizeof(struct se_wbsm4_context));
@@ -14,7 +15,10 @@ cleanup:
 }
 
 void WBCRYPTO_se_wbsm4_context_free(WBCRYPTO_se_wbsm4_context *ctx) {
-    memset(ctx, 0, sizeof(struct se_wbsm4_context));
+    if (ctx != NULL) {
+        OPENSSL_cleanse(ctx, sizeof(struct se_wbsm4_context));
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 7cd29b7..d14c4d8 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -10,6 +10,7 @@
  */
 
 #include <wbcrypto/sm4.h>
+#include <openssl/crypto.h>
 
 static const uint8_t SM4_S[256] = {
         0xD6, 0x90, 0xE9, 0xFE, 0xCC, 0xE1, 0x3D, 0xB7, 0x16, 0xB6, 0x14, 0xC2,
@@ -140,7 +141,10 @@ cleanup:
 }
 
 void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
-    memset(ctx,0,sizeof(struct sm4_context));
+    if(ctx!=NULL){
+        OPENSSL_cleanse(ctx,sizeof(struct sm4_context));
+        free(ctx);
+    }
 }
 
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 66341e7..59d3d58 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -1,5 +1,6 @@
 #include <wbcrypto/wbaes.h>
 #include "wbaes_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_wbaes_context *WBCRYPTO_wbaes_context_init(){
     struct wbaes_context *ctx=malloc(sizeof(struct wbaes_context));
@@ -14,7 +15,10 @@ cleanup:
 }
 
 void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
-    memset(ctx,0,sizeof(struct wbaes_context));
+    if(ctx!=NULL){
+        OPENSSL_cleanse(ctx,sizeof(struct wbaes_context));
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index a6fc589..4db59fb 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -1,4 +1,5 @@
 #include "wbcrypto/wbaes_wbgcm_ee.h"
+#include <openssl/crypto.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned char x[16], unsigned char output[16]) {
     int i;
@@ -286,8 +287,8 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 }
 
 void WBCRYPTO_wbaes_wbgcm_ee_free(WBCRYPTO_wbgcm_ee_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
     if (ctx != NULL) {
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_ee_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 1303277..36a8a76 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/wbaes_wbgcm_mask.h>
+#include <openssl/crypto.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_mask_context *ctx, const unsigned char x[16], unsigned char output[16]) {
     int i;
@@ -314,8 +315,8 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_free(WBCRYPTO_wbgcm_mask_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
     if (ctx != NULL) {
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_mask_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 56d390a..9fb27db 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -1,4 +1,5 @@
 #include "wbsm4_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds){
     int i,j,k;
@@ -44,8 +45,37 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
     return ctx;
 }
 
+void wbsm4_free_tables(WBCRYPTO_wbsm4_context *ctx){
+    int i,j,k;
+    for(i=0;i<ctx->rounds;i++){
+        for(k=0;k<4;k++){
+            uint32_t *tables[6] = {ctx->MM[i][0][k], ctx->MM[i][1][k], ctx->MM[i][2][k],
+                                   ctx->CC[i][k], ctx->DD[i][k], ctx->Table[i][k]};
+            for(j=0;j<6;j++){
+                OPENSSL_cleanse(tables[j],256*sizeof(uint32_t));
+                free(tables[j]);
+            }
+        }
+        for(j=0;j<3;j++){
+            free(ctx->MM[i][j]);
+        }
+        free(ctx->MM[i]);
+        free(ctx->CC[i]);
+        free(ctx->DD[i]);
+        free(ctx->Table[i]);
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
+}
+
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
-    memset(ctx,0,sizeof(struct wbsm4_context));
+    if(ctx!=NULL){
+        wbsm4_free_tables(ctx);
+        OPENSSL_cleanse(ctx,sizeof(struct wbsm4_context));
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_wbsm4_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_wbsm4_context *ctx){
diff --git a/src/wbsm4/wbsm4_local.h b/src/wbsm4/wbsm4_local.h
index 2e7c935..2c9eaa5 100644
--- a/src/wbsm4/wbsm4_local.h
+++ b/src/wbsm4/wbsm4_local.h
@@ -17,4 +17,7 @@
 
 extern const uint8_t SBOX[256];
 
+// erase and release the tables of all rounds
+void wbsm4_free_tables(WBCRYPTO_wbsm4_context *ctx);
+
 #endif //WBCRYPTO_WBSM4_LOCAL_H
-- 
2.43.0


From 994ce6ba550b31f0d2bc11d5cb1d55537e62137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:29 +0000
Subject: [PATCH 42/70] fix: importing a WBSM4 key leaked the tables it
 replaced

---
 src/wbsm4/wbsm4_exkey.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 9065a98..9ba9bc9 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -9,6 +9,7 @@ static int wbsm4_alloc_tables(WBCRYPTO_wbsm4_context *ctx, int encmode, int roun
     if(tmp==NULL){
         return 0;
     }
+    wbsm4_free_tables(ctx);
     memcpy(ctx, tmp, sizeof(struct wbsm4_context));
     free(tmp);
     return 1;
@@ -92,7 +93,7 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
        ||rest < (long)(rounds*WBSM4_ROUND_BYTES + sizeof(ctx->SE) + sizeof(ctx->FE))){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(rounds > ctx->rounds && !wbsm4_alloc_tables(ctx, encmode, rounds)){
+    if(rounds != ctx->rounds && !wbsm4_alloc_tables(ctx, encmode, rounds)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_ALLOC_FAILED);
     }
     ctx->rounds = rounds;
-- 
2.43.0


From 423dd6095da1c95b26f4a4931c4c7c8fb95e694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:29 +0000
Subject: [PATCH 43/70] fix: UDF leaked a key context for every row

---
 udf/mysql5.cpp | 5 +++++
 udf/mysql8.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 9fc7a21..5f218b4 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -82,6 +82,11 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     int ok = 0;
     WBCRYPTO_fpe_app_context app_ctx;
+    // gives the key back on every way out
+    struct key_guard {
+        WBCRYPTO_fpe_app_context *ctx;
+        ~key_guard() { WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *) ctx->cipher_ctx); }
+    } guard = {&app_ctx};
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
 
     if (strcmp(mode, "phone") == 0) {
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index abd00d9..7e04c27 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -86,6 +86,11 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
 
     int ok = 0;
     WBCRYPTO_fpe_app_context app_ctx;
+    // gives the key back on every way out
+    struct key_guard {
+        WBCRYPTO_fpe_app_context *ctx;
+        ~key_guard() { WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *) ctx->cipher_ctx); }
+    } guard = {&app_ctx};
     WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
 
     if (strcmp(mode, "phone") == 0) {
-- 
2.43.0


From 73474b69e039b001f44c438ab15610c0afaedf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:29 +0000
Subject: [PATCH 44/70] fix: UDF returned the part of a text behind a NUL
 character unencrypted

---
 udf/mysql5.cpp | 4 ++++
 udf/mysql8.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index 5f218b4..a35bb9e 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -77,6 +77,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
         sample = &sample_str[0];
     }
 
+    if (strlen(plain) != plain_len) {
+        *error = 1; // a NUL character would end the text early and leave the rest in plain
+        return NULL;
+    }
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 7e04c27..92cccf6 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -81,6 +81,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
         }
     }
 
+    if (strlen(plain) != plain_len) {
+        *error = 1; // a NUL character would end the text early and leave the rest in plain
+        return NULL;
+    }
     memcpy(initid->ptr, plain, plain_len);
     initid->ptr[plain_len] = '\0';
 
-- 
2.43.0


From c0946d6fee27468fd6814c721e3b2fa8f34dcc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:51 +0000
Subject: [PATCH 45/70] fix: generating white-box SM4 tables left the plain
 round keys on the heap

---
 src/se_wbsm4/se_wbsm4.c | 1 +
 src/wbsm4/wbsm4_gen.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 98e5e20..be592ec 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -91,6 +91,7 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
         ctx->FE[i].Mat = P_inv[35 - i].Mat;
         ctx->FE[i].Vec = P_inv[35 - i].Vec;
     }
+    WBCRYPTO_sm4_context_free(sm4_key);
     return 1;
 }
 
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index 5017ea4..a44ca84 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -271,6 +271,7 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     ret=1;
 cleanup:
     free(dummy_array);
+    WBCRYPTO_sm4_context_free(sm4_key);
     return ret;
 }
 
-- 
2.43.0


From 1fcf63a55d690df2714a432b3d3cbe5ae9c6bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:33 +0000
Subject: [PATCH 46/70] fix: an empty identity-card number was read before its
 start

---
 src/fpe_app/idcard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index f7c5a4f..8406e10 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -10,7 +10,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     int ret = 0;
     int len = strlen(idcard);
     int i, j, k, tweak_len = 0;
-    if (idcard[len - 1] == 'X') {
+    if (len > 0 && idcard[len - 1] == 'X') {
         len--;
     }
     if (strcmp(sample, "") != 0) {
-- 
2.43.0


From ec0683367ee0ed8e22af9bfc7bcf2e82ac61c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:04 +0000
Subject: [PATCH 47/70] fix: SM4 keying gave a copy of the key back to the
 allocator without erasing it

---
 src/sm4/sm4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index d14c4d8..5362ed5 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -200,6 +200,7 @@ int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keyle
     }
     ret=1;
 cleanup:
+    OPENSSL_cleanse(padkey,16);
     free(padkey);
     return ret;
 }
-- 
2.43.0


From 81bc637bcf4c982b88ab2afce0d20964a9ea30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:42 +0000
Subject: [PATCH 48/70] fix: generic CBC decryption did not report the length
 of the plaintext

---
 src/modes/cbc128.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index f046a1b..0ff97d2 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -58,6 +58,7 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
         len=inlen;
     }
     size_t n;
+    unsigned char *plain = out;
     union {
         size_t t[16 / sizeof(size_t)];
         unsigned char c[16];
@@ -116,6 +117,7 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
         in += 16;
         out += 16;
     }
+    *use_olen = WBCRYPTO_padding_pkcs7_separate_length(plain, inlen);
     ret=1;
 cleanup:
     return ret;
-- 
2.43.0


From 1ee186f8cec1c1a96ec914aed31ffcca589d96df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:45 +0000
Subject: [PATCH 49/70] fix: GCM, parallel GCM and GCM files ignored a failing
 block function

---
 src/modes/gcm128.c       |  1 +
 src/modes/gcm_parallel.c | 20 ++++++++++++++++----
 src/modes/gcmfile.c      |  8 ++++++--
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index fd6542a..f524c75 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -92,6 +92,7 @@ WBCRYPTO_gcm_context *WBCRYPTO_gcm_init(void *key, block128_f block)
     }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 05c4c4f..d524290 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -14,6 +14,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     size_t i, j; // local loop iterator
     block128_f block = ctx->block;
     void *key = ctx->key;
+    int failed = 0; // set when a block could not be encrypted
 
     if(len==0){
         return 1;
@@ -46,7 +47,12 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                failed = 1;
+                continue;
+            }
             for (size_t j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
@@ -72,7 +78,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
         free(y_arr[i]);
     }
     free(y_arr);
-    ret=1;
+    ret=!failed;
 cleanup:
     return ret;
 }
@@ -90,6 +96,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     size_t i, j; // local loop iterator
     block128_f block = ctx->block;
     void *key = ctx->key;
+    int failed = 0; // set when a block could not be encrypted
 
     if(len==0){
         return 1;
@@ -136,7 +143,12 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                failed = 1;
+                continue;
+            }
             for (size_t j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
@@ -148,7 +160,7 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
         free(y_arr[i]);
     }
     free(y_arr);
-    ret=1;
+    ret=!failed;
 cleanup:
     return ret;
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index f0bb16b..ebcd4aa 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -8,8 +8,12 @@ WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     }
     memset(ctx->tag, 0, sizeof(WBCRYPTO_GCM_FILE_TAG_LEN));
     ctx->gcm = WBCRYPTO_gcm_init(key, block);
+    if (ctx->gcm == NULL) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_init", WBCRYPTO_ERR_CALCULATE_ERROR);
+    }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
@@ -70,7 +74,7 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size));
         fwrite(out, sizeof(unsigned char), block_size, tmpfp);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
@@ -155,7 +159,7 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size));
         read_size += block_size;
         fwrite(out, sizeof(unsigned char), block_size, outfp);
 
-- 
2.43.0


From a178ae20aa155f6884b9f7e96a2ee3aedc6d7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:47 +0000
Subject: [PATCH 50/70] fix: FF1, FF3 and their authenticated forms ignored a
 failing block function

---
 src/fpe/ff1.c      | 12 ++++++------
 src/fpe/ff1_cmac.c | 28 ++++++++++++++++------------
 src/fpe/ff3.c      |  4 ++--
 src/fpe/ff3_gmac.c | 13 +++++++------
 4 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index be0e75b..713cd77 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -87,14 +87,14 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -117,7 +117,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
@@ -240,14 +240,14 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -269,7 +269,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 4c8a1d5..ad4bd5e 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -12,9 +12,10 @@ void left_shift_buffer(uint8_t *input, uint8_t *output, uint8_t length) {
     }
 }
 
-void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+int generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+    int ret = 0;
     char msg[16] = {0x00};
-    (*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx);
+    WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx));
 
     left_shift_buffer(K2, K1, 16);
     if (K2[0] & 0x80) {
@@ -25,6 +26,9 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
     if (K1[0] & 0x80) {
         K2[15] = K2[15] ^ 0x87;
     }
+    ret = 1;
+cleanup:
+    return ret;
 }
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
@@ -96,13 +100,13 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     unsigned char *S = (unsigned char *) malloc(Slen);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
@@ -118,7 +122,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
@@ -127,7 +131,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -139,7 +143,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -163,7 +167,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
@@ -270,13 +274,13 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     unsigned char *S = (unsigned char *) malloc(Slen);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
@@ -292,7 +296,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
@@ -301,7 +305,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -313,7 +317,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -336,7 +340,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index ede950e..542c2d3 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -51,7 +51,7 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
@@ -136,7 +136,7 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index f3998be..8694c30 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -109,7 +109,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16], M[16];
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
@@ -137,7 +137,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
@@ -203,15 +203,16 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
 
+    unsigned char S[16], P[16];
+    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16]={0}, M[16]={0};
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
 
-    unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
@@ -236,7 +237,7 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
-- 
2.43.0


From cdf3063b7d7a3ac9e5ac2601290b9d9cd6fa1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:40 +0000
Subject: [PATCH 51/70] fix: GCM hashed only the low 32 bits of the length of
 an IV of 512 MiB and more

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index f524c75..5e505c7 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -120,6 +120,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset( work_buf, 0x00, 16 );               // clear the working buffer
+        PUT_UINT32_BE( (uint64_t) len * 8 >> 32, work_buf, 8 );
         PUT_UINT32_BE( len * 8, work_buf, 12 );  // place the IV into buffer
 
         p = iv;
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 4db59fb..afc3ab0 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
+        PUT_UINT32_BE((uint64_t) len * 8 >> 32, work_buf, 8);
         PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
 
         p = iv;
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 36a8a76..4357a12 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -127,6 +127,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
+        PUT_UINT32_BE((uint64_t) len * 8 >> 32, work_buf, 8);
         PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
 
         p = iv;
-- 
2.43.0


From a1da2692bd2745831e9ac9c3e154f982551405ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:51 +0000
Subject: [PATCH 52/70] fix: white-box SM4 keys with dummy rounds exported
 uninitialised heap memory

---
 src/wbsm4/wbsm4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 9fb27db..4171a90 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -28,7 +28,8 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
             for (k = 0; k < 4; k++) {
-                ctx->MM[i][j][k] = (uint32_t *) malloc((256) * sizeof(uint32_t));
+                // zeroed: those of dummy rounds are never filled in, but exported
+                ctx->MM[i][j][k] = (uint32_t *) calloc((256), sizeof(uint32_t));
             }
         }
     }
-- 
2.43.0


From 23e8cc25254e352aae9a7be794bb9230603809ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:51 +0000
Subject: [PATCH 53/70] fix: report a failed allocation when creating a
 white-box SM4 context

---
 src/wbsm4/wbsm4.c | 80 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 4171a90..6658f81 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -3,26 +3,37 @@
 
 WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds){
     int i,j,k;
-    struct wbsm4_context *ctx=malloc(sizeof(struct wbsm4_context));
+    struct wbsm4_context *ctx=calloc(1,sizeof(struct wbsm4_context));
     if(ctx==NULL){
         return NULL;
     }
     int rounds = 32 + 4*dummyrounds;
-    ctx->MM = (uint32_t ****)malloc(rounds*sizeof(uint32_t***));
-    ctx->CC = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->DD = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->Table = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
+    ctx->MM = (uint32_t ****)calloc(rounds,sizeof(uint32_t***));
+    ctx->CC = (uint32_t ***)calloc(rounds,sizeof(uint32_t**));
+    ctx->DD = (uint32_t ***)calloc(rounds,sizeof(uint32_t**));
+    ctx->Table = (uint32_t ***)calloc(rounds,sizeof(uint32_t**));
+    if(!ctx->MM || !ctx->CC || !ctx->DD || !ctx->Table){
+        goto cleanup;
+    }
+    ctx->rounds=rounds;
+    ctx->encmode=encmode;
 
     for(i=0;i<rounds;i++){
-        ctx->MM[i]=(uint32_t ***)malloc((3)*sizeof(uint32_t**));
-        ctx->CC[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->DD[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->Table[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+        ctx->MM[i]=(uint32_t ***)calloc((3),sizeof(uint32_t**));
+        ctx->CC[i]=(uint32_t **)calloc((4),sizeof(uint32_t*));
+        ctx->DD[i]=(uint32_t **)calloc((4),sizeof(uint32_t*));
+        ctx->Table[i]=(uint32_t **)calloc((4),sizeof(uint32_t*));
+        if(!ctx->MM[i] || !ctx->CC[i] || !ctx->DD[i] || !ctx->Table[i]){
+            goto cleanup;
+        }
     }
 
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
-            ctx->MM[i][j]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+            ctx->MM[i][j]=(uint32_t **)calloc((4),sizeof(uint32_t*));
+            if(!ctx->MM[i][j]){
+                goto cleanup;
+            }
         }
     }
     for(i=0; i< rounds; i++) {
@@ -30,40 +41,51 @@ WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds
             for (k = 0; k < 4; k++) {
                 // zeroed: those of dummy rounds are never filled in, but exported
                 ctx->MM[i][j][k] = (uint32_t *) calloc((256), sizeof(uint32_t));
+                if(!ctx->MM[i][j][k]){
+                    goto cleanup;
+                }
             }
         }
     }
 
     for(i=0; i< rounds; i++) {
         for (j = 0; j < 4; j++) {
-            ctx->CC[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
-            ctx->DD[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
-            ctx->Table[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
+            ctx->CC[i][j]=(uint32_t *)calloc((256),sizeof(uint32_t));
+            ctx->DD[i][j]=(uint32_t *)calloc((256),sizeof(uint32_t));
+            ctx->Table[i][j]=(uint32_t *)calloc((256),sizeof(uint32_t));
+            if(!ctx->CC[i][j] || !ctx->DD[i][j] || !ctx->Table[i][j]){
+                goto cleanup;
+            }
         }
     }
-    ctx->rounds=rounds;
-    ctx->encmode=encmode;
     return ctx;
+cleanup:
+    WBCRYPTO_wbsm4_context_free(ctx);
+    return NULL;
+}
+
+static void wbsm4_free_row(uint32_t **row){
+    int k;
+    for(k=0;row!=NULL && k<4;k++){
+        if(row[k]!=NULL){
+            OPENSSL_cleanse(row[k],256*sizeof(uint32_t));
+            free(row[k]);
+        }
+    }
+    free(row);
 }
 
+// also frees what an unfinished WBCRYPTO_wbsm4_context_init has allocated
 void wbsm4_free_tables(WBCRYPTO_wbsm4_context *ctx){
-    int i,j,k;
+    int i,j;
     for(i=0;i<ctx->rounds;i++){
-        for(k=0;k<4;k++){
-            uint32_t *tables[6] = {ctx->MM[i][0][k], ctx->MM[i][1][k], ctx->MM[i][2][k],
-                                   ctx->CC[i][k], ctx->DD[i][k], ctx->Table[i][k]};
-            for(j=0;j<6;j++){
-                OPENSSL_cleanse(tables[j],256*sizeof(uint32_t));
-                free(tables[j]);
-            }
-        }
-        for(j=0;j<3;j++){
-            free(ctx->MM[i][j]);
+        for(j=0;ctx->MM[i]!=NULL && j<3;j++){
+            wbsm4_free_row(ctx->MM[i][j]);
         }
         free(ctx->MM[i]);
-        free(ctx->CC[i]);
-        free(ctx->DD[i]);
-        free(ctx->Table[i]);
+        wbsm4_free_row(ctx->CC[i]);
+        wbsm4_free_row(ctx->DD[i]);
+        wbsm4_free_row(ctx->Table[i]);
     }
     free(ctx->MM);
     free(ctx->CC);
-- 
2.43.0


From a00ee837ed8e66e82257856725d269457394aff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:51 +0000
Subject: [PATCH 54/70] fix: report a failed allocation when keying SM4 and its
 white-box variants

---
 src/se_wbsm4/se_wbsm4.c | 12 +++++++++---
 src/sm4/sm4.c           |  3 +++
 src/utils/wrandom.c     |  2 ++
 src/wbsm4/wbsm4_gen.c   | 25 +++++++++++++++++++++----
 4 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index be592ec..dc47546 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -29,11 +29,15 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
     Aff32 P_inv[36];
     Aff32 AA[32], BB[32];
 
+    int ret = 0;
     WBCRYPTO_sm4_context *sm4_key = WBCRYPTO_sm4_context_init();
+    if (sm4_key == NULL) {
+        return 0;
+    }
     if (ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE));
     } else {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE));
     }
     InitRandom(((unsigned int) time(NULL)));
 
@@ -91,8 +95,10 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
         ctx->FE[i].Mat = P_inv[35 - i].Mat;
         ctx->FE[i].Vec = P_inv[35 - i].Vec;
     }
+    ret = 1;
+cleanup:
     WBCRYPTO_sm4_context_free(sm4_key);
-    return 1;
+    return ret;
 }
 
 int WBCRYPTO_se_wbsm4_encrypt(const unsigned char *input, unsigned char *output, WBCRYPTO_se_wbsm4_context *ctx) {
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 5362ed5..c9715af 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -150,6 +150,9 @@ void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
     int ret=0;
     uint8_t *padkey = (uint8_t *)malloc(16*sizeof(uint8_t));
+    if(padkey==NULL){
+        return 0;
+    }
 
     WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);   //Operation after key-padding
 
diff --git a/src/utils/wrandom.c b/src/utils/wrandom.c
index d543e94..5148594 100644
--- a/src/utils/wrandom.c
+++ b/src/utils/wrandom.c
@@ -58,6 +58,8 @@ int wRandomShuffleU8(uint8_t *list, int len) {
     int t, roundCnt, ret;
     unsigned int *randNumbers;
     randNumbers = (unsigned int *)malloc((len + 10) * sizeof(unsigned int));
+    if (randNumbers == NULL)
+        return -1;
     memset(randNumbers, 0, (len + 10) * sizeof(unsigned int));
     wRandomList((int*) randNumbers, len);
     while (len > 0) {
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index a44ca84..e8448f2 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -82,11 +82,21 @@ void identityAff32(Aff32 *aff){
 uint8_t *wbsm4_gen_dummyround_array(int rounds, int dummyrounds) {
     int len_origin = rounds + dummyrounds;
     uint8_t *da = (uint8_t*) malloc(sizeof(uint8_t)*(len_origin));
+    if (da == NULL) {
+        return NULL;
+    }
     memset(da, 0, rounds);
     memset(da+rounds, 1, dummyrounds);
-    wRandomShuffleU8(da, len_origin);
+    if (wRandomShuffleU8(da, len_origin) != 0) {
+        free(da);
+        return NULL;
+    }
     int len_result = rounds + 4*dummyrounds;
     uint8_t *result = (uint8_t*) malloc(sizeof(uint8_t)*(len_result));
+    if (result == NULL) {
+        free(da);
+        return NULL;
+    }
     uint8_t *iter = result;
     int i;
     for (i=0; i<len_origin; i++) {
@@ -121,15 +131,22 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     Aff32 D[32];
     uint32_t Q_constant[3] = {0};
 
+    uint8_t *dummy_array = NULL;
     WBCRYPTO_sm4_context *sm4_key=WBCRYPTO_sm4_context_init();
+    if(sm4_key==NULL){
+        goto cleanup;
+    }
     if(wbsm4_ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE));
     }else{
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+        WBCRYPTO_MPI_CHK(aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE));
     }
     InitRandom(((unsigned int)time(NULL)));
 
-    uint8_t *dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    if(dummy_array==NULL){
+        goto cleanup;
+    }
 
     for (i = 0; i < 36; i++)
     {
-- 
2.43.0


From 524ae6f6169edc4a3bbdcb7ffad4c4cde09c1e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:51 +0000
Subject: [PATCH 55/70] fix: report a failed allocation in CBC encryption

---
 src/modes/cbc128.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index 0ff97d2..11de634 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -8,6 +8,9 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     size_t len;
     unsigned char *afin = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen)*sizeof(unsigned char));
     unsigned char *padded = afin;
+    if(afin==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
-- 
2.43.0


From ef8a71bfb37cbce7471329cc7394396a7dc19ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:51 +0000
Subject: [PATCH 56/70] fix: report a failed allocation in parallel GCM before
 anything is changed

---
 src/modes/gcm_parallel.c | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index d524290..c4bdb99 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -19,14 +19,30 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     if(len==0){
         return 1;
     }
-    ctx->len += len; // bump the GCM context's running length count
-
     size_t len_s = (len - 1) / 16 + 1;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    if (y_arr == NULL)
+    {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0; i < len_s; i++)
     {
         y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
+        if (y_arr[i] == NULL)
+        {
+            // nothing has been changed yet: the call can be repeated
+            while (i > 0)
+            {
+                free(y_arr[--i]);
+            }
+            free(y_arr);
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+        }
+    }
+    ctx->len += len; // bump the GCM context's running length count
+    for (i = 0; i < len_s; i++)
+    {
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
@@ -101,14 +117,30 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
     if(len==0){
         return 1;
     }
-    ctx->len += len; // bump the GCM context's running length count
-
     size_t len_s = (len - 1) / 16 + 1;
     //pretreatment
     unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    if (y_arr == NULL)
+    {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0; i < len_s; i++)
     {
         y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
+        if (y_arr[i] == NULL)
+        {
+            // nothing has been changed yet: the call can be repeated
+            while (i > 0)
+            {
+                free(y_arr[--i]);
+            }
+            free(y_arr);
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+        }
+    }
+    ctx->len += len; // bump the GCM context's running length count
+    for (i = 0; i < len_s; i++)
+    {
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
-- 
2.43.0


From cea5357a03f5231f5c5824fc72541850a613461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:52 +0000
Subject: [PATCH 57/70] fix: report a failed allocation in file encryption

---
 src/modes/gcmfile.c               | 2 ++
 src/wbaes/wbaes_wbgcm_ee_file.c   | 2 ++
 src/wbaes/wbaes_wbgcm_mask_file.c | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index ebcd4aa..85ae680 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -45,6 +45,8 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 0cabcf0..db07461 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -9,6 +9,8 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 1bad3ce..90b6aa7 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -9,6 +9,8 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
-- 
2.43.0


From cb68fc1e58fe98bfbf53539f85947a78c0fd53b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:52 +0000
Subject: [PATCH 58/70] fix: report a failed allocation when creating
 WBGCM-Mask tables

---
 src/wbaes/wbaes_wbgcm_mask_init.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index 4d2563c..79a9f43 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -15,16 +15,35 @@ WBCRYPTO_wbaes_wbgcm_mask_context* WBCRYPTO_wbaes_wbgcm_mask_init_table(){
     if(ctx==NULL){
         return NULL;
     }
-    ctx->GBOX_TypeIII=(uint8_t ***)malloc((16)*sizeof(uint8_t**));
+    ctx->GBOX_TypeIII=(uint8_t ***)calloc((16),sizeof(uint8_t**));
+    if(ctx->GBOX_TypeIII==NULL){
+        goto cleanup;
+    }
     for(i=0; i< 16; i++) {
-        ctx->GBOX_TypeIII[i]=(uint8_t **)malloc((256)*sizeof(uint8_t*));
+        ctx->GBOX_TypeIII[i]=(uint8_t **)calloc((256),sizeof(uint8_t*));
+        if(ctx->GBOX_TypeIII[i]==NULL){
+            goto cleanup;
+        }
     }
     for(i=0; i< 16; i++) {
         for (j = 0; j < 256; j++) {
             ctx->GBOX_TypeIII[i][j] = (uint8_t *) malloc((256) * sizeof(uint8_t));
+            if(ctx->GBOX_TypeIII[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
     return ctx;
+cleanup:
+    for(i=0; ctx->GBOX_TypeIII!=NULL && i< 16; i++) {
+        for (j = 0; ctx->GBOX_TypeIII[i]!=NULL && j < 256; j++) {
+            free(ctx->GBOX_TypeIII[i][j]);
+        }
+        free(ctx->GBOX_TypeIII[i]);
+    }
+    free(ctx->GBOX_TypeIII);
+    free(ctx);
+    return NULL;
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *ctx, const uint8_t *key, size_t keylen)
-- 
2.43.0


From d52e02179d2926032e0568f23c7cb64a9c8f7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:52 +0000
Subject: [PATCH 59/70] fix: report a failed allocation when creating a
 format-preserving MAC context

---
 src/fpe/init.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 3d3eb1b..d0fe608 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -51,6 +51,9 @@ WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twk
         goto cleanup;
     }
     ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
+    if (!ctx->fpe_ctx) {
+        goto cleanup;
+    }
     return ctx;
 cleanup:
     free(ctx);
-- 
2.43.0


From 6a2b370447c2811bd61c2ada5c2b7c7a072d6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:52 +0000
Subject: [PATCH 60/70] fix: report failed allocations in FF1 and FF3

---
 src/fpe/ff1.c      |  56 +++++++++++++++++--------
 src/fpe/ff1_cmac.c |  56 +++++++++++++++++--------
 src/fpe/ff3.c      |  44 ++++++++++++-------
 src/fpe/ff3_gmac.c |  44 ++++++++++++-------
 src/fpe/fpe_locl.c | 102 +++++++++++++++++++++++++++++++--------------
 src/fpe/fpe_locl.h |  12 +++---
 6 files changed, 209 insertions(+), 105 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 713cd77..443124d 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -21,13 +21,17 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx);
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx));
 
     unsigned int temp = (unsigned int) ceil(v * log2(ctx->radix));
     const int b = ceil2(temp, 3);
@@ -36,7 +40,11 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || (b > 0 && !Bytes)) {
+        goto cleanup;
+    }
 
     // initialize P
     P[0] = 0x1;
@@ -71,14 +79,17 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S) {
+        goto cleanup;
+    }
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
 
         // i
         Q[ctx->tweaklen + pad] = i & 0xff;
-        str2num(bnum, B, ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(bnum, B, ctx->radix, inlen - m, bn_ctx));
         int BytesLen = BN_bn2bin(bnum, Bytes);
         memset(Q + Qlen - b, 0x00, b);
 
@@ -124,19 +135,18 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         }
 
         // iv
-        BN_bin2bn(S, d, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, d, y));
         // vi
         // (num(A, radix, m) + y) % qpow(radix, m);
-        str2num(anum, A, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(anum, A, ctx->radix, m, bn_ctx));
         // anum = (anum + y) mod qpow_uv
-        if (m == u) BN_mod_add(c, anum, y, qpow_u, bn_ctx);
-        else BN_mod_add(c, anum, y, qpow_v, bn_ctx);
+        WBCRYPTO_MPI_CHK(BN_mod_add(c, anum, y, (m == u) ? qpow_u : qpow_v, bn_ctx));
 
         // swap A and B
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-        num2str(c, B, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str(c, B, ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
 
@@ -175,13 +185,17 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx);
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx));
 
     unsigned int temp = (unsigned int) ceil(v * log2(ctx->radix));
     const int b = ceil2(temp, 3);
@@ -190,7 +204,11 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || (b > 0 && !Bytes)) {
+        goto cleanup;
+    }
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -224,14 +242,17 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S) {
+        goto cleanup;
+    }
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
 
         // i
         Q[ctx->tweaklen + pad] = i & 0xff;
-        str2num(anum, A, ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(anum, A, ctx->radix, inlen - m, bn_ctx));
         memset(Q + Qlen - b, 0x00, b);
         int BytesLen = BN_bn2bin(anum, Bytes);
         int qtmp = Qlen - BytesLen;
@@ -275,18 +296,17 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         }
 
         // iv
-        BN_bin2bn(S, d, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, d, y));
         // vi
         // (num(B, radix, m) - y) % qpow(radix, m);
-        str2num(bnum, B, ctx->radix, m, bn_ctx);
-        if (m == u) BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
-        else BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(bnum, B, ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_sub(c, bnum, y, (m == u) ? qpow_u : qpow_v, bn_ctx));
 
         // swap A and B
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-        num2str(c, A, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str(c, A, ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
 
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index ad4bd5e..ec5ef30 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -51,13 +51,17 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx);
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx));
 
     unsigned int temp = (unsigned int) ceil(v * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
@@ -66,7 +70,11 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || (b > 0 && !Bytes)) {
+        goto cleanup;
+    }
 
     // initialize P
     P[0] = 0x1;
@@ -105,7 +113,10 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S) {
+        goto cleanup;
+    }
     WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
@@ -113,7 +124,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
         // i
         Q[ctx->fpe_ctx->tweaklen + pad] = i & 0xff;
-        str2num(bnum, B, ctx->fpe_ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(bnum, B, ctx->fpe_ctx->radix, inlen - m, bn_ctx));
         int BytesLen = BN_bn2bin(bnum, Bytes);
         memset(Q + Qlen - b, 0x00, b);
 
@@ -174,19 +185,18 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         }
 
         // iv
-        BN_bin2bn(S, d, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, d, y));
         // vi
         // (num(A, radix, m) + y) % qpow(radix, m);
-        str2num(anum, A, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(anum, A, ctx->fpe_ctx->radix, m, bn_ctx));
         // anum = (anum + y) mod qpow_uv
-        if (m == u) BN_mod_add(c, anum, y, qpow_u, bn_ctx);
-        else BN_mod_add(c, anum, y, qpow_v, bn_ctx);
+        WBCRYPTO_MPI_CHK(BN_mod_add(c, anum, y, (m == u) ? qpow_u : qpow_v, bn_ctx));
 
         // swap A and B
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-        num2str(c, B, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str(c, B, ctx->fpe_ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
     memcpy(ctx->tag, mac, 16);
@@ -226,13 +236,17 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx);
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx));
 
     unsigned int temp = (unsigned int) ceil(v * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
@@ -241,7 +255,11 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
+    if (!Q || (b > 0 && !Bytes)) {
+        goto cleanup;
+    }
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -279,7 +297,10 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (!S) {
+        goto cleanup;
+    }
     WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
@@ -287,7 +308,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
         // i
         Q[ctx->fpe_ctx->tweaklen + pad] = i & 0xff;
-        str2num(anum, A, ctx->fpe_ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(anum, A, ctx->fpe_ctx->radix, inlen - m, bn_ctx));
         memset(Q + Qlen - b, 0x00, b);
         int BytesLen = BN_bn2bin(anum, Bytes);
         int qtmp = Qlen - BytesLen;
@@ -346,18 +367,17 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         }
 
         // iv
-        BN_bin2bn(S, d, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, d, y));
         // vi
         // (num(B, radix, m) - y) % qpow(radix, m);
-        str2num(bnum, B, ctx->fpe_ctx->radix, m, bn_ctx);
-        if (m == u) BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
-        else BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num(bnum, B, ctx->fpe_ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_sub(c, bnum, y, (m == u) ? qpow_u : qpow_v, bn_ctx));
 
         // swap A and B
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
-        num2str(c, A, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str(c, A, ctx->fpe_ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
     memcpy(ctx->tag, mac, 16);
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 542c2d3..850d374 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -16,18 +16,25 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Bytes = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx);
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx));
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->radix));
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (b > 0 && !Bytes) {
+        goto cleanup;
+    }
 
     for (int i = 0; i < FF3_ROUNDS; ++i) {
         // i
@@ -41,7 +48,7 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         }
         P[3] ^= i & 0xff;
 
-        str2num_rev(bnum, B, ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(bnum, B, ctx->radix, inlen - m, bn_ctx));
         memset(Bytes, 0x00, b);
         int BytesLen = BN_bn2bin(bnum, Bytes);
         BytesLen = BytesLen > 12 ? 12 : BytesLen;
@@ -55,18 +62,17 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         rev_bytes(S, 16);
 
         // iv
-        BN_bin2bn(S, 16, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, 16, y));
 
         // v
-        str2num_rev(anum, A, ctx->radix, m, bn_ctx);
-        if (i & 1) BN_mod_add(c, anum, y, qpow_v, bn_ctx);
-        else BN_mod_add(c, anum, y, qpow_u, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(anum, A, ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_add(c, anum, y, (i & 1) ? qpow_v : qpow_u, bn_ctx));
 
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
 
-        num2str_rev(c, B, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str_rev(c, B, ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
 
@@ -99,18 +105,25 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Bytes = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx);
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->radix, u, v, bn_ctx));
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->radix));
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (b > 0 && !Bytes) {
+        goto cleanup;
+    }
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
@@ -125,7 +138,7 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
         // ii
 
-        str2num_rev(anum, A, ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(anum, A, ctx->radix, inlen - m, bn_ctx));
         memset(Bytes, 0x00, b);
         int BytesLen = BN_bn2bin(anum, Bytes);
         BytesLen = BytesLen > 12 ? 12 : BytesLen;
@@ -140,18 +153,17 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         rev_bytes(S, 16);
 
         // iv
-        BN_bin2bn(S, 16, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, 16, y));
 
         // v
-        str2num_rev(bnum, B, ctx->radix, m, bn_ctx);
-        if (i & 1) BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
-        else BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(bnum, B, ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_sub(c, bnum, y, (i & 1) ? qpow_v : qpow_u, bn_ctx));
 
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
 
-        num2str_rev(c, A, ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str_rev(c, A, ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
 
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index 8694c30..96b9ab7 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -94,18 +94,25 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Bytes = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx);
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx));
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (b > 0 && !Bytes) {
+        goto cleanup;
+    }
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
@@ -127,7 +134,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         P[3] ^= i & 0xff;
 
         // ii
-        str2num_rev(bnum, B, ctx->fpe_ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(bnum, B, ctx->fpe_ctx->radix, inlen - m, bn_ctx));
         memset(Bytes, 0x00, b);
         int BytesLen = BN_bn2bin(bnum, Bytes);
         BytesLen = BytesLen > 12 ? 12 : BytesLen;
@@ -148,18 +155,17 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         }
 
         // iv
-        BN_bin2bn(S, 16, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, 16, y));
 
         // v
-        str2num_rev(anum, A, ctx->fpe_ctx->radix, m, bn_ctx);
-        if (i & 1) BN_mod_add(c, anum, y, qpow_v, bn_ctx);
-        else BN_mod_add(c, anum, y, qpow_u, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(anum, A, ctx->fpe_ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_add(c, anum, y, (i & 1) ? qpow_v : qpow_u, bn_ctx));
 
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
 
-        num2str_rev(c, B, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str_rev(c, B, ctx->fpe_ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
     memcpy(ctx->tag, M, 16);
@@ -193,18 +199,25 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     unsigned int inlen = strlen(input);
     unsigned int in[inlen], out[inlen];
+    unsigned char *Bytes = NULL;
+    if (!bnum || !y || !c || !anum || !qpow_u || !qpow_v || !bn_ctx) {
+        goto cleanup;
+    }
     map_chars(input, in);
 
     memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
     int v = inlen - u;
     unsigned int *A = out, *B = out + u;
-    pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx);
+    WBCRYPTO_MPI_CHK(pow_uv(qpow_u, qpow_v, ctx->fpe_ctx->radix, u, v, bn_ctx));
     unsigned int temp = (unsigned int) ceil(u * log2(ctx->fpe_ctx->radix));
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (b > 0 && !Bytes) {
+        goto cleanup;
+    }
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
@@ -226,7 +239,7 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         P[3] ^= i & 0xff;
 
         // ii
-        str2num_rev(anum, A, ctx->fpe_ctx->radix, inlen - m, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(anum, A, ctx->fpe_ctx->radix, inlen - m, bn_ctx));
         memset(Bytes, 0x00, b);
         int BytesLen = BN_bn2bin(anum, Bytes);
         BytesLen = BytesLen > 12 ? 12 : BytesLen;
@@ -248,18 +261,17 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         }
 
         // iv
-        BN_bin2bn(S, 16, y);
+        WBCRYPTO_MPI_CHK(BN_bin2bn(S, 16, y));
 
         // v
-        str2num_rev(bnum, B, ctx->fpe_ctx->radix, m, bn_ctx);
-        if (i & 1) BN_mod_sub(c, bnum, y, qpow_v, bn_ctx);
-        else BN_mod_sub(c, bnum, y, qpow_u, bn_ctx);
+        WBCRYPTO_MPI_CHK(str2num_rev(bnum, B, ctx->fpe_ctx->radix, m, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_mod_sub(c, bnum, y, (i & 1) ? qpow_v : qpow_u, bn_ctx));
 
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
         B = (unsigned int *) ((uintptr_t) B ^ (uintptr_t) A);
         A = (unsigned int *) ((uintptr_t) A ^ (uintptr_t) B);
 
-        num2str_rev(c, A, ctx->fpe_ctx->radix, m, bn_ctx);
+        WBCRYPTO_MPI_CHK(num2str_rev(c, A, ctx->fpe_ctx->radix, m, bn_ctx));
     }
     inverse_map_chars(out, output, inlen);
     memcpy(ctx->tag, M, 16);
diff --git a/src/fpe/fpe_locl.c b/src/fpe/fpe_locl.c
index bd6bb10..e9a0761 100644
--- a/src/fpe/fpe_locl.c
+++ b/src/fpe/fpe_locl.c
@@ -1,25 +1,35 @@
+#include <wbcrypto/error.h>
 #include "fpe_locl.h"
 
 // quick power: result = x ^ e
-void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx) {
+int pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx) {
+    int ret = 0;
     BN_CTX_start(ctx);
     BIGNUM *base = BN_CTX_get(ctx),
             *e = BN_CTX_get(ctx);
+    if (!e) {
+        goto cleanup;
+    }
 
-    BN_set_word(base, x);
+    WBCRYPTO_MPI_CHK(BN_set_word(base, x));
     if (u > v) {
-        BN_set_word(e, v);
-        BN_exp(pow_v, base, e, ctx);
-        BN_mul(pow_u, pow_v, base, ctx);
+        WBCRYPTO_MPI_CHK(BN_set_word(e, v));
+        WBCRYPTO_MPI_CHK(BN_exp(pow_v, base, e, ctx));
+        WBCRYPTO_MPI_CHK(BN_mul(pow_u, pow_v, base, ctx));
     } else {
-        BN_set_word(e, u);
-        BN_exp(pow_u, base, e, ctx);
-        if (u == v) BN_copy(pow_v, pow_u);
-        else BN_mul(pow_v, pow_u, base, ctx);
+        WBCRYPTO_MPI_CHK(BN_set_word(e, u));
+        WBCRYPTO_MPI_CHK(BN_exp(pow_u, base, e, ctx));
+        if (u == v) {
+            WBCRYPTO_MPI_CHK(BN_copy(pow_v, pow_u));
+        } else {
+            WBCRYPTO_MPI_CHK(BN_mul(pow_v, pow_u, base, ctx));
+        }
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(ctx);
-    return;
+    return ret;
 
     /*
     // old veresion, classical quick power
@@ -68,45 +78,59 @@ void inverse_map_chars(unsigned result[], unsigned char str[], int len) {
 }
 
 // convert numeral string to number
-void str2num(BIGNUM *Y, const unsigned int *X, unsigned long long radix, unsigned int len, BN_CTX *ctx) {
+int str2num(BIGNUM *Y, const unsigned int *X, unsigned long long radix, unsigned int len, BN_CTX *ctx) {
+    int ret = 0;
     BN_CTX_start(ctx);
     BIGNUM *r = BN_CTX_get(ctx),
             *x = BN_CTX_get(ctx);
+    if (!x) {
+        goto cleanup;
+    }
 
-    BN_set_word(Y, 0);
-    BN_set_word(r, radix);
+    WBCRYPTO_MPI_CHK(BN_set_word(Y, 0));
+    WBCRYPTO_MPI_CHK(BN_set_word(r, radix));
     for (int i = 0; i < len; ++i) {
         // Y = Y * radix + X[i]
-        BN_set_word(x, X[i]);
-        BN_mul(Y, Y, r, ctx);
-        BN_add(Y, Y, x);
+        WBCRYPTO_MPI_CHK(BN_set_word(x, X[i]));
+        WBCRYPTO_MPI_CHK(BN_mul(Y, Y, r, ctx));
+        WBCRYPTO_MPI_CHK(BN_add(Y, Y, x));
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(ctx);
+    return ret;
 }
 
 // convert number to numeral string
-void num2str(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *ctx) {
+int num2str(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *ctx) {
+    int ret = 0;
     BN_CTX_start(ctx);
     BIGNUM *dv = BN_CTX_get(ctx),
             *rem = BN_CTX_get(ctx),
             *r = BN_CTX_get(ctx),
             *XX = BN_CTX_get(ctx);
+    if (!XX) {
+        goto cleanup;
+    }
 
-    BN_copy(XX, X);
-    BN_set_word(r, radix);
+    WBCRYPTO_MPI_CHK(BN_copy(XX, X));
+    WBCRYPTO_MPI_CHK(BN_set_word(r, radix));
     memset(Y, 0, len << 2);
 
     for (int i = len - 1; i >= 0; --i) {
         // XX / r = dv ... rem
-        BN_div(dv, rem, XX, r, ctx);
+        WBCRYPTO_MPI_CHK(BN_div(dv, rem, XX, r, ctx));
         // Y[i] = XX % r
         Y[i] = BN_get_word(rem);
         // XX = XX / r
-        BN_copy(XX, dv);
+        WBCRYPTO_MPI_CHK(BN_copy(XX, dv));
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(ctx);
+    return ret;
 }
 
 void rev_bytes(unsigned char X[], int len) {
@@ -120,43 +144,57 @@ void rev_bytes(unsigned char X[], int len) {
 }
 
 // convert numeral string in reverse order to number
-void str2num_rev(BIGNUM *Y, const unsigned int *X, unsigned int radix, unsigned int len, BN_CTX *bn_ctx) {
+int str2num_rev(BIGNUM *Y, const unsigned int *X, unsigned int radix, unsigned int len, BN_CTX *bn_ctx) {
+    int ret = 0;
     BN_CTX_start(bn_ctx);
     BIGNUM *r = BN_CTX_get(bn_ctx),
             *x = BN_CTX_get(bn_ctx);
+    if (!x) {
+        goto cleanup;
+    }
 
-    BN_set_word(Y, 0);
-    BN_set_word(r, radix);
+    WBCRYPTO_MPI_CHK(BN_set_word(Y, 0));
+    WBCRYPTO_MPI_CHK(BN_set_word(r, radix));
     for (int i = len - 1; i >= 0; --i) {
         // Y = Y * radix + X[i]
-        BN_set_word(x, X[i]);
-        BN_mul(Y, Y, r, bn_ctx);
-        BN_add(Y, Y, x);
+        WBCRYPTO_MPI_CHK(BN_set_word(x, X[i]));
+        WBCRYPTO_MPI_CHK(BN_mul(Y, Y, r, bn_ctx));
+        WBCRYPTO_MPI_CHK(BN_add(Y, Y, x));
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(bn_ctx);
+    return ret;
 }
 
 // convert number to numeral string in reverse order
-void num2str_rev(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *bn_ctx) {
+int num2str_rev(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *bn_ctx) {
+    int ret = 0;
     BN_CTX_start(bn_ctx);
     BIGNUM *dv = BN_CTX_get(bn_ctx),
             *rem = BN_CTX_get(bn_ctx),
             *r = BN_CTX_get(bn_ctx),
             *XX = BN_CTX_get(bn_ctx);
+    if (!XX) {
+        goto cleanup;
+    }
 
-    BN_copy(XX, X);
-    BN_set_word(r, radix);
+    WBCRYPTO_MPI_CHK(BN_copy(XX, X));
+    WBCRYPTO_MPI_CHK(BN_set_word(r, radix));
     memset(Y, 0, len << 2);
 
     for (int i = 0; i < len; ++i) {
         // XX / r = dv ... rem
-        BN_div(dv, rem, XX, r, bn_ctx);
+        WBCRYPTO_MPI_CHK(BN_div(dv, rem, XX, r, bn_ctx));
         // Y[i] = XX % r
         Y[i] = BN_get_word(rem);
         // XX = XX / r
-        BN_copy(XX, dv);
+        WBCRYPTO_MPI_CHK(BN_copy(XX, dv));
     }
 
+    ret = 1;
+cleanup:
     BN_CTX_end(bn_ctx);
+    return ret;
 }
\ No newline at end of file
diff --git a/src/fpe/fpe_locl.h b/src/fpe/fpe_locl.h
index a7e9fd6..95a5a13 100644
--- a/src/fpe/fpe_locl.h
+++ b/src/fpe/fpe_locl.h
@@ -16,7 +16,9 @@
 # define ceil2(x, bit) ( ((x) >> (bit)) + ( ((x) & ((1 << (bit)) - 1)) > 0 ) )
 # define floor2(x, bit) ( (x) >> (bit) )
 
-void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
+// the functions with a BN_CTX return 1 on success and 0 when out of memory
+
+int pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
 
 // 1 if every character is a numeral (0-9, a-z) of the radix
 int check_chars(const char *str, unsigned int radix);
@@ -26,18 +28,18 @@ void map_chars(const unsigned char str[], unsigned int result[]);
 void inverse_map_chars(unsigned result[], unsigned char str[], int len);
 
 // convert numeral string to number
-void str2num(BIGNUM *Y, const unsigned int *X, unsigned long long radix, unsigned int len, BN_CTX *ctx);
+int str2num(BIGNUM *Y, const unsigned int *X, unsigned long long radix, unsigned int len, BN_CTX *ctx);
 
 // convert number to numeral string
-void num2str(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *ctx);
+int num2str(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *ctx);
 
 void rev_bytes(unsigned char X[], int len);
 
 // convert numeral string in reverse order to number
-void str2num_rev(BIGNUM *Y, const unsigned int *X, unsigned int radix, unsigned int len, BN_CTX *bn_ctx);
+int str2num_rev(BIGNUM *Y, const unsigned int *X, unsigned int radix, unsigned int len, BN_CTX *bn_ctx);
 
 // convert number to numeral string in reverse order
-void num2str_rev(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *bn_ctx);
+int num2str_rev(const BIGNUM *X, unsigned int *Y, unsigned int radix, int len, BN_CTX *bn_ctx);
 
 //int log2(int x);
 
-- 
2.43.0


From 01009bbaec2bce6b92f2a79f9973040a5a8b7c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:52 +0000
Subject: [PATCH 61/70] fix: report failed allocations in the format-preserving
 application helpers

---
 src/fpe_app/cn_utf8.c |  2 +-
 src/fpe_app/idcard.c  |  2 +-
 src/fpe_app/init.c    | 24 ++++++++++++++++++++----
 src/fpe_app/phone.c   |  2 +-
 udf/mysql5.cpp        |  5 ++++-
 udf/mysql8.cpp        |  5 ++++-
 6 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index dd8e722..4ddf8b5 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -82,7 +82,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    if (!(*block)(fpe_ctx, input, ans)) {
+    if (!fpe_ctx || !(*block)(fpe_ctx, input, ans)) {
         goto cleanup;
     }
 
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index 8406e10..229aa51 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -48,7 +48,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    if (!(*block)(fpe_ctx, input, ans)) {
+    if (!fpe_ctx || !(*block)(fpe_ctx, input, ans)) {
         goto cleanup;
     }
 
diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index bf40ce6..fbe10a3 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,28 +5,44 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
+    ctx->cipher_ctx = NULL;
     uint8_t input_key[16];
     WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
-        WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
+        if (sm4_ctx == NULL || !WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key))) {
+            WBCRYPTO_sm4_context_free(sm4_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = sm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
         WBCRYPTO_wbsm4_context *wbsm4_ctx = WBCRYPTO_wbsm4_context_init(1, 1);
-        WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key));
+        if (wbsm4_ctx == NULL || !WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key))) {
+            WBCRYPTO_wbsm4_context_free(wbsm4_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = wbsm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        if (aes_ctx == NULL || !WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key))) {
+            WBCRYPTO_aes_context_free(aes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = aes_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
         WBCRYPTO_wbaes_context *wbaes_ctx = WBCRYPTO_wbaes_context_init();
+        if (wbaes_ctx == NULL) {
+            goto cleanup;
+        }
         WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key));
         ctx->cipher_ctx = wbaes_ctx;
     } else {
         // default: aes
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        if (aes_ctx == NULL || !WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key))) {
+            WBCRYPTO_aes_context_free(aes_ctx);
+            goto cleanup;
+        }
         ctx->cipher_ctx = aes_ctx;
     }
     ret = 1;
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 7b68956..c51e0c9 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -42,7 +42,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    if (!(*block)(fpe_ctx, input, ans)) {
+    if (!fpe_ctx || !(*block)(fpe_ctx, input, ans)) {
         goto cleanup;
     }
 
diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index a35bb9e..aba1509 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -91,7 +91,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
         WBCRYPTO_fpe_app_context *ctx;
         ~key_guard() { WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *) ctx->cipher_ctx); }
     } guard = {&app_ctx};
-    WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    if (!WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1")) {
+        *error = 1;
+        return NULL;
+    }
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
diff --git a/udf/mysql8.cpp b/udf/mysql8.cpp
index 92cccf6..6a25ea9 100644
--- a/udf/mysql8.cpp
+++ b/udf/mysql8.cpp
@@ -95,7 +95,10 @@ char *fpe(UDF_INIT *initid, UDF_ARGS *args, char *result, unsigned long *length,
         WBCRYPTO_fpe_app_context *ctx;
         ~key_guard() { WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *) ctx->cipher_ctx); }
     } guard = {&app_ctx};
-    WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1");
+    if (!WBCRYPTO_fpe_app_init(&app_ctx, key, sizeof(key), "sm4", "ff1")) {
+        *error = 1;
+        return NULL;
+    }
 
     if (strcmp(mode, "phone") == 0) {
         if (plain_len != 11) {
-- 
2.43.0


From 33c4eac95264c16100b8adb2f6e44a524867399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:18 +0000
Subject: [PATCH 62/70] fix: exported white-box SM4 key bytes contained
 addresses of the exporting process

---
 src/wbsm4/wbsm4_exkey.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 9ba9bc9..e7c0017 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -1,4 +1,5 @@
 #include "wbsm4_local.h"
+#include <stddef.h>
 
 // bytes of the tables of one round: MM[3][4][256], CC[4][256], DD[4][256], Table[4][256]
 #define WBSM4_ROUND_BYTES (6 * 4 * 256 * sizeof(uint32_t))
@@ -147,6 +148,11 @@ int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     *((uint32_t *)*kstream) = ks_len;
     uint8_t* ds  = *kstream + sizeof(uint32_t);
     memcpy(ds, ctx, sizeof(struct wbsm4_context));
+    // addresses in this process are not part of the key
+    memset(ds + offsetof(struct wbsm4_context, MM), 0, sizeof(ctx->MM));
+    memset(ds + offsetof(struct wbsm4_context, CC), 0, sizeof(ctx->CC));
+    memset(ds + offsetof(struct wbsm4_context, DD), 0, sizeof(ctx->DD));
+    memset(ds + offsetof(struct wbsm4_context, Table), 0, sizeof(ctx->Table));
     ds += sizeof(struct wbsm4_context);
 
     // the context only points to these tables
-- 
2.43.0


From da017885b035e48db3c1dbc60ba78096c51d79c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:51 +0000
Subject: [PATCH 63/70] fix: the shuffle helper always moved the first element
 to the end

---
 src/utils/wrandom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/wrandom.c b/src/utils/wrandom.c
index 5148594..9b11001 100644
--- a/src/utils/wrandom.c
+++ b/src/utils/wrandom.c
@@ -63,7 +63,7 @@ int wRandomShuffleU8(uint8_t *list, int len) {
     memset(randNumbers, 0, (len + 10) * sizeof(unsigned int));
     wRandomList((int*) randNumbers, len);
     while (len > 0) {
-        int r = randNumbers[len] % len;
+        int r = randNumbers[len - 1] % len;
         len--;
         uint8_t tmp = *(list + len);
         *(list + len) = *(list + r);
-- 
2.43.0


From 872fcdf3a4ef8d377ee6e85dec251d1095480bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:54 +0000
Subject: [PATCH 64/70] fix: the FPE application context kept pointers to the
 caller's name strings

---
 src/fpe_app/init.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index fbe10a3..6074e1d 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -4,7 +4,8 @@
 int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, size_t keylen, char *cipher, char *ffx) {
     int ret = 0;
     ctx->cipher = cipher;
-    ctx->ffx = ffx;
+    // the names given need not outlive this call
+    ctx->ffx = strcmp(ffx, WBCYRPTO_FPE_FFX_FF1) == 0 ? WBCYRPTO_FPE_FFX_FF1 : WBCYRPTO_FPE_FFX_FF3;
     ctx->cipher_ctx = NULL;
     uint8_t input_key[16];
     WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);
@@ -14,6 +15,7 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
             WBCRYPTO_sm4_context_free(sm4_ctx);
             goto cleanup;
         }
+        ctx->cipher = WBCYRPTO_FPE_CIPHER_SM4;
         ctx->cipher_ctx = sm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
         WBCRYPTO_wbsm4_context *wbsm4_ctx = WBCRYPTO_wbsm4_context_init(1, 1);
@@ -21,6 +23,7 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
             WBCRYPTO_wbsm4_context_free(wbsm4_ctx);
             goto cleanup;
         }
+        ctx->cipher = WBCYRPTO_FPE_CIPHER_WBSM4;
         ctx->cipher_ctx = wbsm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
@@ -28,6 +31,7 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
             WBCRYPTO_aes_context_free(aes_ctx);
             goto cleanup;
         }
+        ctx->cipher = WBCYRPTO_FPE_CIPHER_AES;
         ctx->cipher_ctx = aes_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
         WBCRYPTO_wbaes_context *wbaes_ctx = WBCRYPTO_wbaes_context_init();
@@ -35,6 +39,7 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
             goto cleanup;
         }
         WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key));
+        ctx->cipher = WBCYRPTO_FPE_CIPHER_WBAES;
         ctx->cipher_ctx = wbaes_ctx;
     } else {
         // default: aes
@@ -43,6 +48,7 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
             WBCRYPTO_aes_context_free(aes_ctx);
             goto cleanup;
         }
+        ctx->cipher = WBCYRPTO_FPE_CIPHER_AES;
         ctx->cipher_ctx = aes_ctx;
     }
     ret = 1;
-- 
2.43.0


From e31fa6980f058195deab7e3522615bf2e07f9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:02 +0000
Subject: [PATCH 65/70] fix: padding longer than the data was taken off, giving
 a length below zero

---
 src/utils/padding.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/padding.c b/src/utils/padding.c
index ef1d7c8..97f90d3 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -67,6 +67,9 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
     }
+    if((size_t)pad_num > srclen){
+        pad_num = 0;
+    }
     afpad_len = srclen - pad_num;
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
@@ -87,6 +90,9 @@ size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen)
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
     }
+    if((size_t)pad_num > srclen){
+        pad_num = 0;
+    }
     afpad_len = srclen - pad_num;
     return afpad_len;
 }
-- 
2.43.0


From 5e42730d06d123a1a0df6ba39859c95803fea471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:00 +0000
Subject: [PATCH 66/70] fix: an encrypted file with a changed upper half of its
 recorded length was accepted

---
 src/modes/gcmfile.c               | 6 ++++++
 src/wbaes/wbaes_wbgcm_ee_file.c   | 6 ++++++
 src/wbaes/wbaes_wbgcm_mask_file.c | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 85ae680..bfe9c8f 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -146,6 +146,12 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
                         | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
                         | ((size_buf[0] & 0xff) << 0)));
+    // the upper bytes are written as zero
+    for (size_t i = sizeof(file_size); i < sizeof(size_t); i++) {
+        if (size_buf[i] != 0) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
+        }
+    }
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index db07461..547a7e8 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -111,6 +111,12 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
                         | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
                         | ((size_buf[0] & 0xff) << 0)));
+    // the upper bytes are written as zero
+    for (size_t i = sizeof(file_size); i < sizeof(size_t); i++) {
+        if (size_buf[i] != 0) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
+        }
+    }
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 90b6aa7..bd1954e 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -111,6 +111,12 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     file_size = (int) ((((size_buf[3] & 0xff) << 24)
                         | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
                         | ((size_buf[0] & 0xff) << 0)));
+    // the upper bytes are written as zero
+    for (size_t i = sizeof(file_size); i < sizeof(size_t); i++) {
+        if (size_buf[i] != 0) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
+        }
+    }
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
-- 
2.43.0


From 811d2fec6d5436f0040b46d47bbc1cf186df9ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:05 +0000
Subject: [PATCH 67/70] fix: clear the MM tables of dummy rounds when white-box
 SM4 tables are generated

Dummy rounds never wrote MM, so a context keyed a second time kept (and
exported) round tables of its former key in its dummy rounds.
---
 src/wbsm4/wbsm4_gen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index e8448f2..c4b44c8 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -247,6 +247,9 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         }else{
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
+                    wbsm4_ctx->MM[i][0][j][x]=0;
+                    wbsm4_ctx->MM[i][1][j][x]=0;
+                    wbsm4_ctx->MM[i][2][j][x]=0;
                     wbsm4_ctx->Table[i][j][x]=0;
                     wbsm4_ctx->DD[i][j][x]=0;
                 }
-- 
2.43.0


From 3b13e49a45ab942f410df8bd7b5e3f288398e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 68/70] fix: announce a nullable result of the MySQL 5 function
 when any argument may be NULL

Only the first argument was considered, so a NULL mode or sample gave a
NULL result the server had been told could not occur.
---
 udf/mysql5.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/udf/mysql5.cpp b/udf/mysql5.cpp
index aba1509..dcc169d 100644
--- a/udf/mysql5.cpp
+++ b/udf/mysql5.cpp
@@ -41,7 +41,13 @@ my_bool fpe_init(UDF_INIT *initid, UDF_ARGS *args, char *message) {
     }
 
     initid->max_length = args->lengths[0];
-    initid->maybe_null = (my_bool) (*args->maybe_null);
+    // the result is NULL when any argument is
+    initid->maybe_null = 0;
+    for (unsigned int i = 0; i < args->arg_count; i++) {
+        if (args->maybe_null[i]) {
+            initid->maybe_null = 1;
+        }
+    }
     initid->ptr = (char *) malloc(initid->max_length + 1);
     if (initid->ptr == NULL) {
         strcpy(message, "could't allocate memory");
-- 
2.43.0


From 0c1d633951b6dcc204efa536cf09faa92c0412de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 69/70] fix: file encryption no longer overwrites and removes
 an existing file named <output>.tmp

The temporary file was opened under that name whatever it held; an input
file of that name was emptied, encrypted as empty and deleted.
---
 src/modes/gcmfile.c               | 8 +++++++-
 src/wbaes/wbaes_wbgcm_ee_file.c   | 8 +++++++-
 src/wbaes/wbaes_wbgcm_mask_file.c | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bfe9c8f..ae365f8 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -44,11 +44,17 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    char *tmp_file_path = (char *) malloc((len_outfpath + 16) * sizeof(char));
     if (tmp_file_path == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
+    // a file of that name is not ours, it may even be the input: take another name
+    int tmp_num = 0;
+    while ((tmpfp = fopen(tmp_file_path, "rb")) != NULL) {
+        fclose(tmpfp);
+        sprintf(tmp_file_path + len_outfpath, ".tmp%d", ++tmp_num);
+    }
 
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 547a7e8..88be3cb 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -8,11 +8,17 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    char *tmp_file_path = (char *) malloc((len_outfpath + 16) * sizeof(char));
     if (tmp_file_path == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
+    // a file of that name is not ours, it may even be the input: take another name
+    int tmp_num = 0;
+    while ((tmpfp = fopen(tmp_file_path, "rb")) != NULL) {
+        fclose(tmpfp);
+        sprintf(tmp_file_path + len_outfpath, ".tmp%d", ++tmp_num);
+    }
 
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index bd1954e..58ea7f2 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -8,11 +8,17 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
-    char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    char *tmp_file_path = (char *) malloc((len_outfpath + 16) * sizeof(char));
     if (tmp_file_path == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
+    // a file of that name is not ours, it may even be the input: take another name
+    int tmp_num = 0;
+    while ((tmpfp = fopen(tmp_file_path, "rb")) != NULL) {
+        fclose(tmpfp);
+        sprintf(tmp_file_path + len_outfpath, ".tmp%d", ++tmp_num);
+    }
 
     if ((infp = fopen(infpath, "rb")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
-- 
2.43.0


From 274fec063d866e3684c934ed2b45bd1d6e83e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:01 +0000
Subject: [PATCH 70/70] fix: a file can be encrypted onto itself

The output was emptied before the input had been read, so the encryption of
an empty file took its place and success was reported. It is opened only once
the whole input is encrypted in the temporary file.
---
 src/modes/gcmfile.c               | 7 +++++--
 src/wbaes/wbaes_wbgcm_ee_file.c   | 7 +++++--
 src/wbaes/wbaes_wbgcm_mask_file.c | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index ae365f8..fab87ad 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -60,8 +60,6 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((outfp = fopen(outfpath, "wb+")) == NULL)
-        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
@@ -94,9 +92,14 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
 
     // Finish encrypt
     fflush(tmpfp);
+    if (ferror(infp) || ferror(tmpfp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     fseek(tmpfp, 0, SEEK_SET);
 
     // #2 Write cipher file
+    // (opened only now that all is encrypted: it may be the input file)
+    if ((outfp = fopen(outfpath, "wb+")) == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add tag
     fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
     // add file len
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index 88be3cb..4ab858e 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -24,8 +24,6 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((outfp = fopen(outfpath, "wb+")) == NULL)
-        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
@@ -58,9 +56,14 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
 
     // Finish encrypt
     fflush(tmpfp);
+    if (ferror(infp) || ferror(tmpfp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     fseek(tmpfp, 0, SEEK_SET);
 
     // #2 Write cipher file
+    // (opened only now that all is encrypted: it may be the input file)
+    if ((outfp = fopen(outfpath, "wb+")) == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add tag
     fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
     // add file len
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 58ea7f2..07ffc7e 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -24,8 +24,6 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     if ((tmpfp = fopen(tmp_file_path, "wb+")) == NULL)
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
-    if ((outfp = fopen(outfpath, "wb+")) == NULL)
-        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
@@ -58,9 +56,14 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
 
     // Finish encrypt
     fflush(tmpfp);
+    if (ferror(infp) || ferror(tmpfp))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     fseek(tmpfp, 0, SEEK_SET);
 
     // #2 Write cipher file
+    // (opened only now that all is encrypted: it may be the input file)
+    if ((outfp = fopen(outfpath, "wb+")) == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add tag
     fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
     // add file len
-- 
2.43.0

