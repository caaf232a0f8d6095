From 5bbec7e6941cd97b4e2a53866e5c597e17ac45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:07 +0000
Subject: [PATCH 01/29] verify: mark input-length loops of the GOST primitives
 for the proofs (DSTU_VERIFY)

---
 dstulib/gost/gost89.c   | 13 +++++++++++--
 dstulib/gost/gosthash.c |  2 ++
 dstulib/gost/verify.h   | 15 +++++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)
 create mode 100644 dstulib/gost/verify.h

diff --git a/dstulib/gost/gost89.c b/dstulib/gost/gost89.c
index 337204b..50d8f4f 100644
--- a/dstulib/gost/gost89.c
+++ b/dstulib/gost/gost89.c
@@ -11,6 +11,7 @@
 #include <openssl/crypto.h>
 #include <openssl/rand.h>
 #include "gost89.h"
+#include "verify.h"
 /*-
    Substitution blocks from RFC 4357
 
@@ -387,6 +388,7 @@ void gost_enc(gost_ctx * c, const byte * clear, byte * cipher, int blocks)
 {
     int i;
     for (i = 0; i < blocks; i++) {
+        DSTU_LOOP_HEAD(gost_enc)
         gostcrypt(c, clear, cipher);
         clear += 8;
         cipher += 8;
@@ -398,6 +400,7 @@ void gost_dec(gost_ctx * c, const byte * cipher, byte * clear, int blocks)
 {
     int i;
     for (i = 0; i < blocks; i++) {
+        DSTU_LOOP_HEAD(gost_dec)
         gostdecrypt(c, cipher, clear);
         clear += 8;
         cipher += 8;
@@ -415,6 +418,7 @@ void gost_enc_cfb(gost_ctx * ctx, const byte * iv, const byte * clear,
     byte *out;
     memcpy(cur_iv, iv, 8);
     for (i = 0, in = clear, out = cipher; i < blocks; i++, in += 8, out += 8) {
+        DSTU_LOOP_HEAD(gost_enc_cfb)
         gostcrypt(ctx, cur_iv, gamma);
         for (j = 0; j < 8; j++) {
             cur_iv[j] = out[j] = in[j] ^ gamma[j];
@@ -433,6 +437,7 @@ void gost_dec_cfb(gost_ctx * ctx, const byte * iv, const byte * cipher,
     byte *out;
     memcpy(cur_iv, iv, 8);
     for (i = 0, in = cipher, out = clear; i < blocks; i++, in += 8, out += 8) {
+        DSTU_LOOP_HEAD(gost_dec_cfb)
         gostcrypt(ctx, cur_iv, gamma);
         for (j = 0; j < 8; j++) {
             out[j] = (cur_iv[j] = in[j]) ^ gamma[j];
@@ -593,8 +598,10 @@ int gost_mac(gost_ctx * ctx, int mac_len, const unsigned char *data,
     byte buffer[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };
     byte buf2[8];
     unsigned int i;
-    for (i = 0; i + 8 <= data_len; i += 8)
+    for (i = 0; i + 8 <= data_len; i += 8) {
+        DSTU_LOOP_HEAD(gost_mac)
         mac_block(ctx, buffer, data + i);
+    }
     if (i < data_len) {
         memset(buf2, 0, 8);
         memcpy(buf2, data + i, data_len - i);
@@ -618,8 +625,10 @@ int gost_mac_iv(gost_ctx * ctx, int mac_len, const unsigned char *iv,
     byte buf2[8];
     unsigned int i;
     memcpy(buffer, iv, 8);
-    for (i = 0; i + 8 <= data_len; i += 8)
+    for (i = 0; i + 8 <= data_len; i += 8) {
+        DSTU_LOOP_HEAD(gost_mac_iv)
         mac_block(ctx, buffer, data + i);
+    }
     if (i < data_len) {
         memset(buf2, 0, 8);
         memcpy(buf2, data + i, data_len - i);
diff --git a/dstulib/gost/gosthash.c b/dstulib/gost/gosthash.c
index 7fd3cb0..39da940 100644
--- a/dstulib/gost/gosthash.c
+++ b/dstulib/gost/gosthash.c
@@ -10,6 +10,7 @@
 
 #include "gost89.h"
 #include "gosthash.h"
+#include "verify.h"
 
 /*
  * Use OPENSSL_malloc for memory allocation if compiled with
@@ -219,6 +220,7 @@ int hash_block(gost_hash_ctx * ctx, const byte * block, size_t length)
         ctx->left = 0;
     }
     while (length >= 32) {
+        DSTU_LOOP_HEAD(hash_block)
         hash_step(ctx->cipher_ctx, ctx->H, block);
 
         add_blocks(32, ctx->S, block);
diff --git a/dstulib/gost/verify.h b/dstulib/gost/verify.h
new file mode 100644
index 0000000..f9d27a2
--- /dev/null
+++ b/dstulib/gost/verify.h
@@ -0,0 +1,15 @@
+/*
+ * Verification hooks. With DSTU_VERIFY undefined (every normal build) they
+ * expand to nothing. With it defined, the including proof supplies one
+ * DSTU_LOOP_HEAD_<id> macro per marked loop, stating that loop's invariant.
+ */
+#ifndef DSTU_VERIFY_H
+# define DSTU_VERIFY_H
+
+# ifdef DSTU_VERIFY
+#  define DSTU_LOOP_HEAD(id) DSTU_LOOP_HEAD_##id
+# else
+#  define DSTU_LOOP_HEAD(id)
+# endif
+
+#endif
-- 
2.43.0


From 5903d99750320c804772b045a56a1418661a0dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:07 +0000
Subject: [PATCH 02/29] fix: get_mac keeps the requested low bits of a MAC
 whose length is not whole bytes

---
 dstulib/gost/gost89.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dstulib/gost/gost89.c b/dstulib/gost/gost89.c
index 50d8f4f..7955590 100644
--- a/dstulib/gost/gost89.c
+++ b/dstulib/gost/gost89.c
@@ -580,7 +580,7 @@ void get_mac(byte * buffer, int nbits, byte * out)
 {
     int nbytes = nbits >> 3;
     int rembits = nbits & 7;
-    int mask = rembits ? ((1 < rembits) - 1) : 0;
+    int mask = rembits ? ((1 << rembits) - 1) : 0;
     int i;
     for (i = 0; i < nbytes; i++)
         out[i] = buffer[i];
-- 
2.43.0


From 850d1b8d5efb482a5889febcd2e7776be7966b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:33 +0000
Subject: [PATCH 03/29] verify: mark the unbounded loops of the signature code
 for the proofs (DSTU_VERIFY)

---
 engine/sign.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/sign.c b/engine/sign.c
index fd20c35..b69da3d 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -6,6 +6,7 @@
 #include "sign.h"
 #include "params.h" // bn_encode
 #include "err.h"
+#include "gost/verify.h"
 
 #include <openssl/bn.h>
 #include <openssl/crypto.h>
@@ -17,6 +18,7 @@ static int bn_truncate_bits(BIGNUM *bn, int bitsize)
     int num_bits = BN_num_bits(bn);
     while (num_bits > bitsize)
     {
+        DSTU_LOOP_HEAD(bn_truncate_bits)
         if (!BN_clear_bit(bn, num_bits - 1))
             return 0;
         num_bits = BN_num_bits(bn);
@@ -111,6 +113,7 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
         {
             do
             {
+                DSTU_LOOP_HEAD(dstu_do_sign)
                 if (!BN_rand_range(e, n))
                     goto err;
 
-- 
2.43.0


From ede2f54aabf5a76ea47464868c0d019f64554323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:33 +0000
Subject: [PATCH 04/29] fix: hash_to_field replaces a zero field element by one
 after truncation

A hash whose low degree bits are all zero became the zero element, for which
dstu_do_sign never terminates and dstu_do_verify rejects valid signatures.
---
 engine/sign.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index b69da3d..72e6b78 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -44,10 +44,11 @@ static int hash_to_field(const unsigned char *hash, int hash_len, BIGNUM *fe,
     }
 
     OPENSSL_free(h);
-    if (BN_is_zero(fe))
-        BN_one(fe);
+    if (!bn_truncate_bits(fe, fieldsize))
+        return 0;
 
-    return bn_truncate_bits(fe, fieldsize);
+    /* the truncated element must not be zero either */
+    return BN_is_zero(fe) ? BN_one(fe) : 1;
 }
 
 static int field_to_bn(BIGNUM *fe, const BIGNUM *order)
-- 
2.43.0


From 7bf81ffd94e2cc9cbc200c418825d6b911b91571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:57 +0000
Subject: [PATCH 05/29] verify: mark the unbounded loops of params.c and
 compress.c for the proofs (DSTU_VERIFY)

---
 dstulib/compress.c | 2 ++
 dstulib/params.c   | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 440648e..15a5fd4 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -5,6 +5,7 @@
 
 #include "compress.h"
 #include "params.h"
+#include "gost/verify.h"
 
 #include <openssl/bn.h>
 #include <openssl/ossl_typ.h>
@@ -24,6 +25,7 @@ static int bn_trace(const BIGNUM *bn, const BIGNUM *p, BN_CTX *ctx)
         goto err;
     for (i = 1; i <= (BN_num_bits(p) - 2); i++)
     {
+        DSTU_LOOP_HEAD(bn_trace)
         if (!BN_GF2m_mod_sqr(r, r, p, ctx))
             goto err;
         if (!BN_GF2m_add(r, r, bn))
diff --git a/dstulib/params.c b/dstulib/params.c
index f82780b..0a61265 100644
--- a/dstulib/params.c
+++ b/dstulib/params.c
@@ -4,6 +4,7 @@
  ==================================================================== */
 
 #include "params.h"
+#include "gost/verify.h"
 
 #include <openssl/bn.h>
 #include <openssl/crypto.h>
@@ -514,6 +515,7 @@ int dstu_generate_key(EC_KEY *key)
 
     do
     {
+        DSTU_LOOP_HEAD(dstu_generate_key)
         if (!BN_rand_range(prk, order))
             goto err;
     }
@@ -574,6 +576,7 @@ void reverse_bytes(void *mem, int size)
 
     for (i = 0; i < (size / 2); i++)
     {
+        DSTU_LOOP_HEAD(reverse_bytes)
         tmp = bytes[i];
         bytes[i] = bytes[size - 1 - i];
         bytes[size - 1 - i] = tmp;
@@ -587,7 +590,10 @@ void reverse_bytes_copy(void *dst, const void *src, int size)
     int i;
 
     for (i = 0; i < size; i++)
+    {
+        DSTU_LOOP_HEAD(reverse_bytes_copy)
         to[i] = from[size - 1 - i];
+    }
 }
 
 unsigned char *copy_sbox(const unsigned char *sbox)
-- 
2.43.0


From 83b6a82fe30c59e2123a31a01b1298533a33d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:57 +0000
Subject: [PATCH 06/29] fix: bn_trace failures are not taken for a trace when
 expanding a point

A failed BN_CTX_get crashed, and a failed trace computation in
dstu_point_expand yielded the negated point as if it had been decoded.
---
 dstulib/compress.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 15a5fd4..f7edd19 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -20,6 +20,8 @@ static int bn_trace(const BIGNUM *bn, const BIGNUM *p, BN_CTX *ctx)
     BN_CTX_start(ctx);
 
     r = BN_CTX_get(ctx);
+    if (!r)
+        goto err;
 
     if (!BN_copy(r, bn))
         goto err;
@@ -197,6 +199,8 @@ int dstu_point_expand(const unsigned char *compressed, int compressed_length,
         goto err;
 
     trace = bn_trace(y, p, ctx);
+    if (-1 == trace)
+        goto err;
 
     if ((k && !trace) || (!k && trace))
     {
-- 
2.43.0


From 394c90e3ba91b7236c866f2b1c7915f20f6168a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:10 +0000
Subject: [PATCH 07/29] fix: asn1_from_key fails instead of crashing when
 memory runs out

---
 dstulib/key.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index aef4155..50d9476 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -78,6 +78,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
         return NULL;
 
     params = DSTU_AlgorithmParameters_new();
+    if (!params)
+        return NULL;
 
     if (key->sbox)
     {
@@ -107,6 +109,9 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
             goto err;
 
         ctx = BN_CTX_new();
+        if (!ctx)
+            goto err;
+
         BN_CTX_start(ctx);
 
         p = BN_CTX_get(ctx);
-- 
2.43.0


From b51013932b9dea23ce32b06969dc4a6d12685082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:39 +0000
Subject: [PATCH 08/29] fix: group_from_asn1 refuses field exponents that do
 not fit an int

---
 dstulib/key.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dstulib/key.c b/dstulib/key.c
index 50d9476..68d30f7 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -14,6 +14,7 @@
 #include <openssl/obj_mac.h>
 #include <openssl/objects.h>
 
+#include <limits.h>
 #include <string.h>
 
 DSTU_KEY *DSTU_KEY_new(void)
@@ -223,6 +224,14 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
     return ret;
 }
 
+/* Exponent of a field polynomial, or -1 if it is not one an int can hold */
+static int exponent_from_asn1(const ASN1_INTEGER *exponent)
+{
+    long value = ASN1_INTEGER_get(exponent);
+
+    return ((value > 0) && (value <= INT_MAX)) ? (int)value : -1;
+}
+
 EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian)
 {
     BIGNUM *p, *a, *b, *N;
@@ -233,13 +242,13 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     int poly[6];
     unsigned char *reverse_buffer = NULL;
 
-    poly[0] = ASN1_INTEGER_get(spec->field->m);
+    poly[0] = exponent_from_asn1(spec->field->m);
     if (poly[0] <= 0)
         goto err;
 
     if (DSTU_TRINOMIAL == spec->field->poly->type)
     {
-        poly[1] = ASN1_INTEGER_get(spec->field->poly->poly.k);
+        poly[1] = exponent_from_asn1(spec->field->poly->poly.k);
         if (poly[1] <= 0)
             goto err;
         poly[2] = 0;
@@ -247,15 +256,15 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     }
     else
     {
-        poly[1] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->l);
+        poly[1] = exponent_from_asn1(spec->field->poly->poly.pentanomial->l);
         if (poly[1] <= 0)
             goto err;
 
-        poly[2] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->j);
+        poly[2] = exponent_from_asn1(spec->field->poly->poly.pentanomial->j);
         if (poly[2] <= 0)
             goto err;
 
-        poly[3] = ASN1_INTEGER_get(spec->field->poly->poly.pentanomial->k);
+        poly[3] = exponent_from_asn1(spec->field->poly->poly.pentanomial->k);
         if (poly[3] <= 0)
             goto err;
 
-- 
2.43.0


From 8ea6344df0ebe177d1c19ef537e21f26e13776bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 09/29] fix: dstu_asn1_priv_encode leaks the encoded parameters
 of a key it refuses

---
 engine/ameth.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index d4b74cd..9a3c61b 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -297,9 +297,11 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
-    if (!encoded_params_bytes)
+    if (encoded_params_bytes <= 0)
         goto err;
 
+    ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
+
     key = EVP_PKEY_get0(pk);
     if (!key)
     {
@@ -330,8 +332,6 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     reverse_bytes(prk_encoded, prk_encoded_bytes);
 
-    ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
-
     if (PKCS8_pkey_set0(p8, OBJ_nid2obj(algnid), 0, V_ASN1_SEQUENCE, params,
                         prk_encoded, prk_encoded_bytes))
     {
-- 
2.43.0


From f2760f02c8d8948c0e25fb984e0a3319184c9a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 10/29] fix: printing a DSTU key without key data crashes, a
 failed print leaks

---
 engine/ameth.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 9a3c61b..b194034 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -166,9 +166,13 @@ static int dstu_asn1_param_print(BIO *out, const EVP_PKEY *pkey, int indent,
 
     (void) pctx; // Unused
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
     {
+        EVP_PKEY_free(pk);
         DSTUerr(DSTU_F_DSTU_ASN1_PARAM_PRINT, ERR_R_EVP_LIB);
         return 0;
     }
@@ -696,9 +700,15 @@ static int dstu_asn1_priv_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
+    {
+        EVP_PKEY_free(pk);
         return 0;
+    }
 
     ret = EVP_PKEY_print_private(out, pk, indent, pctx);
 
@@ -714,9 +724,15 @@ static int dstu_asn1_pub_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
+    {
+        EVP_PKEY_free(pk);
         return 0;
+    }
 
     ret = EVP_PKEY_print_public(out, pk, indent, pctx);
 
-- 
2.43.0


From 61a6384e7c06c7844057e837b43b93a9270aff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 11/29] fix: keys with the default sbox stored and implied have
 equal parameters

---
 engine/ameth.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index b194034..bcb4406 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -139,16 +139,14 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
-    if (first->sbox != second->sbox)
-    {
-        if (first->sbox && second->sbox)
-        {
-            if (memcmp(first->sbox, second->sbox, sizeof(default_sbox)))
-                return 0;
-        }
-        else
-            return 0;
-    }
+    if (!EC_KEY_get0_group(first->ec) || !EC_KEY_get0_group(second->ec))
+        return -2;
+
+    /* A key without an sbox uses the default one */
+    if (memcmp(first->sbox ? first->sbox : default_sbox,
+               second->sbox ? second->sbox : default_sbox,
+               sizeof(default_sbox)))
+        return 0;
 
     if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_group(second->ec), NULL))
-- 
2.43.0


From 6914f1c2a5004d44a3619ab74cdbf7015223a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 12/29] fix: comparing DSTU keys without a public point crashes

---
 engine/ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index bcb4406..efa0fd4 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -638,6 +638,10 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
+    if (!EC_KEY_get0_group(first->ec) || !EC_KEY_get0_public_key(first->ec) ||
+        !EC_KEY_get0_public_key(second->ec))
+        return -2;
+
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
     if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
-- 
2.43.0


From ac550aef7bf9d8287b0db5eb1d50b75e194cd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 13/29] fix: dstu_asn1_param_copy replaces the sbox of the
 target key

---
 engine/ameth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index efa0fd4..33b04d5 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -118,6 +118,12 @@ static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
         return 0;
     }
 
+    if (to_key->sbox)
+    {
+        OPENSSL_free(to_key->sbox);
+        to_key->sbox = NULL;
+    }
+
     if (from_key->sbox)
     {
         to_key->sbox = copy_sbox(from_key->sbox);
-- 
2.43.0


From 10c76a43344cec74300c6c09543756ded5fa7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 14/29] fix: setting the cipher key after its ASN.1 parameters
 keeps their sbox and starts from their iv

---
 engine/cipher.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f145aa..a67361b 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -23,23 +23,37 @@
 /* 2 bytes for sequence header, 2 bytes for each octet string header and 8 bytes for iv and 64 bytes for dke. Total 78 < 128 so we are ok with 1 byte length */
 #define DSTU_CIPHER_ASN1_PARAM_SIZE (2 + 2 + DSTU_CIPHER_BLOCK_SIZE + 2 + sizeof(default_sbox))
 
+typedef struct dstu_cipher_data_st
+{
+    gost_ctx gost; /* Must be first, the cipher data is used as gost_ctx everywhere else */
+    int sbox_set;
+} dstu_cipher_data;
+
 static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc)
 {
     (void) enc; // Unused
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    dstu_cipher_data *data = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    gost_ctx *gctx = &data->gost;
 
-    unpack_sbox(default_sbox, &sbox);
-    gost_init(gctx, &sbox);
+    /* A custom sbox (set directly or with the ASN.1 parameters) stays in use when key or iv are set after it */
+    if (!data->sbox_set)
+    {
+        unpack_sbox(default_sbox, &sbox);
+        gost_init(gctx, &sbox);
+        data->sbox_set = 1;
+    }
 
     if (key)
         gost_key(gctx, key);
 
     if (iv)
-    {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
+
+    if (key || iv)
+    {
+        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
         gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
         EVP_CIPHER_CTX_set_num(ctx, 0);
     }
@@ -238,7 +252,7 @@ EVP_CIPHER *dstu_cipher_new()
         !EVP_CIPHER_meth_set_init(res, dstu_cipher_init) ||
         !EVP_CIPHER_meth_set_do_cipher(res, dstu_cipher_do_cipher) ||
         !EVP_CIPHER_meth_set_cleanup(res, dstu_cipher_cleanup) ||
-        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(gost_ctx)) ||
+        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(dstu_cipher_data)) ||
         !EVP_CIPHER_meth_set_set_asn1_params(res, dstu_cipher_set_asn1_parameters) ||
         !EVP_CIPHER_meth_set_get_asn1_params(res, dstu_cipher_get_asn1_parameters) ||
         !EVP_CIPHER_meth_set_ctrl(res, dstu_cipher_ctrl))
-- 
2.43.0


From 57be3f9191e1da2cee5f77d2a24456658949d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 15/29] fix: setting a custom sbox restarts the cipher stream
 at a block boundary

---
 engine/cipher.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/cipher.c b/engine/cipher.c
index a67361b..8b99d17 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -176,6 +176,7 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
             gost_init(gctx, &sbox);
             memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
             gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+            EVP_CIPHER_CTX_set_num(ctx, 0);
             return 1;
         case EVP_CTRL_PBE_PRF_NID:
             if (!p2)
-- 
2.43.0


From 40012026bb1e61736b6f03026d6dfc47dcef77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 16/29] fix: the random bit generator fails instead of crashing
 when it has no lock

---
 engine/rbg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index f7912a0..d564ede 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -112,7 +112,8 @@ static int dstu_rbg_status_nolock(void)
 
 static int dstu_rbg_status(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     int status = dstu_rbg_status_nolock();
 
@@ -127,7 +128,8 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
     byte j;
     int rv = 1;
 
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     if (!initialized)
     {
-- 
2.43.0


From a60efd9a779a8429902695a2f3468bdbe3af6eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 17/29] fix: using the random bit generator after its cleanup
 uses a freed lock

---
 engine/rbg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index d564ede..090af44 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -153,7 +153,10 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
 static void dstu_rbg_cleanup(void)
 {
-    dstu_lock();
+    static const CRYPTO_ONCE once_init = CRYPTO_ONCE_STATIC_INIT;
+
+    if (!dstu_lock())
+        return;
 
     OPENSSL_cleanse(I, sizeof(I));
     OPENSSL_cleanse(s, sizeof(s));
@@ -162,6 +165,9 @@ static void dstu_rbg_cleanup(void)
 
     dstu_unlock();
     CRYPTO_THREAD_lock_free(dstu_rand_lock);
+    /* A new lock will be made if the generator is used again */
+    dstu_rand_lock = NULL;
+    rand_lock_init = once_init;
 }
 
 RAND_METHOD dstu_rand_meth =
-- 
2.43.0


From c64b7237f6655037fd6122791bdf3529fbd3bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 18/29] verify: mark the output loop of the random bit
 generator for the proofs (DSTU_VERIFY)

---
 engine/rbg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine/rbg.c b/engine/rbg.c
index 090af44..37fd9d8 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -7,6 +7,7 @@
 #include "params.h" // default_sbox, unpack_sbox
 
 #include "gost/gost89.h" // gost_*
+#include "gost/verify.h"
 
 #include <openssl/crypto.h> // CRYPTO_*
 
@@ -139,6 +140,7 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
     for (i = 0; i < (unsigned)num; i++)
     {
+        DSTU_LOOP_HEAD(dstu_rbg_bytes)
         *(buf + i) = 0;
         for (j = 0; j < 8; j++)
         {
-- 
2.43.0


From 3bb8645746a272b8484781105909c4de81cd6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 19/29] fix: finishing the engine frees methods that are still
 in use

---
 engine/dstu.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 767705f..7404433 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -9,6 +9,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 #include <openssl/obj_mac.h>
+#include <openssl/objects.h>
 #include <openssl/ossl_typ.h>
 
 #include <string.h>
@@ -94,8 +95,27 @@ static int dstu_engine_init(ENGINE *e)
 static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
+    return 1;
+}
+
+/* The methods may be in use until the engine itself goes away: it can be finished and initialized again,
+   and they are known by name. */
+static int dstu_engine_destroy(ENGINE *e)
+{
+    (void) e; // Unused
+    OBJ_NAME_remove(SN_dstu34311, OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(LN_dstu34311, OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(SN_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(LN_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH);
+
     dstu_cipher_free(dstu_cipher);
+    dstu_cipher = NULL;
     dstu_digest_free(dstu_md);
+    dstu_md = NULL;
+
+    /* OpenSSL has already freed these */
+    memset(dstu_pkey_methods, 0, sizeof(dstu_pkey_methods));
+    memset(dstu_asn1_methods, 0, sizeof(dstu_asn1_methods));
 
     ERR_unload_DSTU_strings();
 
@@ -191,6 +211,7 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
+        !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
         !ENGINE_set_RAND(e, &dstu_rand_meth) ||
@@ -201,8 +222,10 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_register_ciphers(e) ||
         !ENGINE_register_pkey_meths(e) ||
         !ENGINE_register_pkey_asn1_meths(e) ||
-        !EVP_add_digest(dstu_md_get()) ||
-        !EVP_add_cipher(dstu_cipher_get()) ||
+        !dstu_md_get() ||
+        !EVP_add_digest(dstu_md) ||
+        !dstu_cipher_get() ||
+        !EVP_add_cipher(dstu_cipher) ||
         !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL)) /* Adding our algorithms to support PBKDF2 */
     {
         DSTUerr(DSTU_F_BIND_DSTU, ERR_R_EVP_LIB);
-- 
2.43.0


From 74b5e85e143d3af0170aadd7f6155dfa60f14eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 20/29] fix: a protected JKS entry that holds no key crashes
 the parser

---
 keylib/keystore.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/keystore.c b/keylib/keystore.c
index 2bfbc69..108ac2b 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -72,6 +72,8 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
 void KeyStoreFree(KeyStore* ks)
 {
     size_t i = 0;
+    if (ks == NULL)
+        return;
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
-- 
2.43.0


From 06206bf7a032c8856927ce51403cecf23b6da485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 21/29] fix: parseJKS reads past the end of a truncated
 container

---
 keylib/jks.c | 79 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 21 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 3d1dd86..96f9acc 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -33,6 +33,13 @@ static void copyAt(const void* base, size_t shift, void* dest, size_t size)
     memcpy(dest, ptrAt(base, shift), size);
 }
 
+// Checks that there are at least 'size' bytes at 'shift' before 'end'
+static int hasAt(const void* base, size_t shift, size_t size, const void* end)
+{
+    const size_t available = (const unsigned char*)end - (const unsigned char*)base;
+    return shift <= available && size <= available - shift;
+}
+
 static uint16_t read16(const void* base, size_t shift)
 {
     uint16_t res = 0;
@@ -141,13 +148,23 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
     return ok;
 }
 
-static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
+static const void* parseCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
 {
-    uint16_t typeLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    uint16_t typeLength = 0;
+    uint32_t dataLength = 0;
+    const unsigned char* dataPtr = NULL;
     X509* x509 = NULL;
 
+    if (!hasAt(data, 0, sizeof(typeLength), end))
+        return NULL;
+    typeLength = ntohs(read16(data, 0));
+    if (!hasAt(data, sizeof(typeLength) + typeLength, sizeof(dataLength), end))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
+    if (!hasAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength), dataLength, end))
+        return NULL;
+    dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+
     x509 = d2i_X509(NULL, &dataPtr, dataLength);
     if (x509 == NULL)
         return NULL;
@@ -301,36 +318,51 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     return 1;
 }
 
-static const void* parseKey(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseKey(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint16_t nameLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
-    uint32_t certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
-    const unsigned char* certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+    uint16_t nameLength = 0;
+    uint32_t dataLength = 0;
+    uint32_t certNum = 0;
+    const unsigned char* dataPtr = NULL;
+    const unsigned char* certPtr = NULL;
     size_t i = 0;
 
+    if (!hasAt(data, 0, sizeof(nameLength), end))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!hasAt(data, sizeof(nameLength) + nameLength + 8, sizeof(dataLength), end)) // 8 bytes - 64-bit timestamp
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8));
+    dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
+    if (!hasAt(dataPtr, dataLength, sizeof(certNum), end))
+        return NULL;
+    certNum = ntohl(read32(dataPtr, dataLength));
+    certPtr = ptrAt(dataPtr, dataLength + sizeof(certNum));
+
     if (decryptKey(dataPtr, dataLength, keyPass, keyPassSize, ks, keyPos, certPos) == 0)
         return NULL;
 
     for (i = 0; i < certNum; ++i)
     {
-        certPtr = parseCert(certPtr, ks, certPos);
+        certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
     }
     return certPtr;
 }
 
-static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint32_t tag = ntohl(read32(data, 0));
+    uint32_t tag = 0;
+    if (!hasAt(data, 0, sizeof(tag), end))
+        return NULL;
+    tag = ntohl(read32(data, 0));
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
-            return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
+            return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), ks, certPos);
+            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
@@ -338,9 +370,10 @@ static const void* parseEntry(const void* data, const char* keyPass, size_t keyP
 int parseJKS(const void* data, size_t size, const char* storagePass, size_t storagePassSize, const char* keyPass, size_t keyPassSize, KeyStore** ks)
 {
     const size_t digestLength = 20;
-    uint32_t magic = read32(data, 0);
-    uint32_t entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
-    const unsigned char* entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
+    uint32_t magic = 0;
+    uint32_t entries = 0;
+    const unsigned char* entryPtr = NULL;
+    const unsigned char* end = ptrAt(data, size);
     unsigned char digest[digestLength];
     size_t i = 0;
     size_t j = 0;
@@ -349,7 +382,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t keyPos = 0;
     size_t certPos = 0;
 
-    (void) size; // Unused
+    if (!hasAt(data, 0, sizeof(magic) + 4 + sizeof(entries), end)) // 4 bytes - 32-bit version
+        return 0;
+    magic = read32(data, 0);
+    entries = ntohl(read32(data, sizeof(magic) + 4));
+    entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
 
     // Check MAGIC
     if (magic != 0xedfeedfe && // JKS
@@ -366,12 +403,12 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
-    if (entryPtr == NULL)
+    if (entryPtr == NULL || !hasAt(entryPtr, 0, digestLength, end))
     {
         KeyStoreFree(*ks);
         return 0;
-- 
2.43.0


From 3c70b6a3d45a4121b49c2c90d106b6032926b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:42 +0000
Subject: [PATCH 22/29] fix: a protected JKS key shorter than its salt and
 digest overflows the heap

---
 keylib/jks.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index 96f9acc..ee4304f 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -197,6 +197,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     size_t pos = 0;
     int r = 0;
 
+    if (size < saltLength + digestLength)
+        return 0;
+
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
-- 
2.43.0


From a7e3c09f8044fc02bfbd769b839c37bba196bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 23/29] fix: a refused JKS container leaks the password and
 leaves a freed key store behind

---
 keylib/jks.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index ee4304f..bdac647 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -68,7 +68,8 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(res);
+        OPENSSL_free(buf);
+        BIO_free(res);
         return 0;
     }
     while (ss > 0)
@@ -414,12 +415,15 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     if (entryPtr == NULL || !hasAt(entryPtr, 0, digestLength, end))
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
+        OPENSSL_free(pwd16);
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         OPENSSL_free(pwd16);
         return 0;
     }
@@ -429,6 +433,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         if (digest[j] != entryPtr[j])
         {
             KeyStoreFree(*ks);
+            *ks = NULL;
             return 0;
         }
 
-- 
2.43.0


From 46725fd4ef3bc0e1524ed74d4af5137abb8f368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 24/29] fix: a refused PKCS#12 container leaves a freed key
 store behind

---
 keylib/pkcs12.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 48c5e2b..e6414e1 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -203,6 +203,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         sk_PKCS7_pop_free(safes, PKCS7_free);
         PKCS12_free(pkcs12);
         return 0;
-- 
2.43.0


From e63699269726735f38fcf7a03b2eb4b542c3058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 25/29] fix: parseKey6 parses uninitialised memory after the
 decrypted data

---
 keylib/key6.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 43d2415..48b1d8e 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -45,7 +45,7 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     gost_subst_block sbox;
     unsigned char key[32];
     const size_t sourceSize = size + padSize;
-    const size_t resSize = sourceSize + 8;
+    const size_t resSize = sourceSize / 8 * 8; // Only whole blocks are decrypted
     unsigned char* source = OPENSSL_malloc(sourceSize);
     unsigned char* res = OPENSSL_malloc(resSize);
     int r = 0;
-- 
2.43.0


From d6b4bb6435e86ffbd437211adee31392e19b354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 26/29] fix: invalid curve parameters in the key attributes
 crash the parser

---
 keylib/utils.c | 83 ++------------------------------------------------
 1 file changed, 3 insertions(+), 80 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 3af2aae..d507781 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -5,7 +5,6 @@
 #include "attrcurvespec_asn1.h"
 
 #include "asn1.h"
-#include "compress.h"
 #include "key.h"
 #include "params.h"
 
@@ -69,83 +68,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     return res;
 }
 
-static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
-{
-    BIGNUM* res = BN_CTX_get(ctx);
-    int poly[6];
-    poly[0] = ASN1_INTEGER_get(field->m);
-    if (field->poly->type == 0)
-    {
-        // Trinominal
-        poly[1] = ASN1_INTEGER_get(field->poly->poly.k);
-        poly[2] = 0;
-        poly[3] = -1;
-    }
-    else
-    {
-        // Pentanominal
-        poly[1] = ASN1_INTEGER_get(field->poly->poly.pentanomial->k);
-        poly[2] = ASN1_INTEGER_get(field->poly->poly.pentanomial->j);
-        poly[3] = ASN1_INTEGER_get(field->poly->poly.pentanomial->l);
-        poly[4] = 0;
-        poly[5] = -1;
-    }
-    if (BN_GF2m_arr2poly(poly, res) == 0)
-        return NULL;
-    return res;
-}
-
-static EC_POINT* makePoint(BN_CTX* ctx, const EC_GROUP* group, const ASN1_OCTET_STRING* p)
-{
-    (void) ctx;
-    EC_POINT* res = EC_POINT_new(group);
-    if (dstu_point_expand(ASN1_STRING_get0_data(p), ASN1_STRING_length(p), group, res) == 0)
-    {
-        EC_POINT_free(res);
-        return NULL;
-    }
-    return res;
-}
-
-static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* spec)
-{
-    BIGNUM* poly = makePoly(ctx, spec->field);
-    BIGNUM* a = BN_CTX_get(ctx);
-    BIGNUM* b = BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), BN_CTX_get(ctx));
-    BIGNUM* n = BN_CTX_get(ctx);
-    EC_POINT* point = NULL;
-    EC_GROUP* res = NULL;
-
-    ASN1_INTEGER_to_BN(spec->a, a);
-
-    res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
-
-    if (res == NULL)
-        return NULL;
-
-    point = makePoint(ctx, res, spec->bp);
-    if (point == NULL)
-    {
-        EC_GROUP_free(res);
-        return NULL;
-    }
-    if (EC_POINT_is_on_curve(res, point, ctx) == 0)
-    {
-        EC_POINT_free(point);
-        EC_GROUP_free(res);
-        return NULL;
-    }
-    ASN1_INTEGER_to_BN(spec->n, n);
-    if (EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
-    {
-        EC_GROUP_free(res);
-        res = NULL;
-    }
-    EC_POINT_free(point);
-    return res;
-}
-
-static EC_GROUP* makeECGROUP(BN_CTX* ctx, X509_ATTRIBUTE* attr)
+static EC_GROUP* makeECGROUP(X509_ATTRIBUTE* attr)
 {
     DSTU_AttrCurveSpec* spec = NULL;
     int count = X509_ATTRIBUTE_count(attr);
@@ -165,7 +88,7 @@ static EC_GROUP* makeECGROUP(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     if (spec == NULL)
         return NULL;
 
-    res = makeECGROUPFromSpec(ctx, spec->spec);
+    res = group_from_asn1(spec->spec, 0);
     DSTU_AttrCurveSpec_free(spec);
     return res;
 }
@@ -181,7 +104,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
-    group = makeECGROUP(ctx, curveAttr);
+    group = makeECGROUP(curveAttr);
     if (pkNum == NULL || group == NULL)
     {
         BN_CTX_end(ctx);
-- 
2.43.0


From 8a775aa3315af730b230a071325e0abe3ed1c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 27/29] fix: a refused key in the attributes leaks its curve
 and key

---
 keylib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index d507781..645b1f7 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -107,6 +107,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     group = makeECGROUP(curveAttr);
     if (pkNum == NULL || group == NULL)
     {
+        EC_GROUP_free(group);
         BN_CTX_end(ctx);
         BN_CTX_free(ctx);
         return NULL;
@@ -127,6 +128,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
         EC_KEY_set_private_key(key->ec, pkNum) == 0 ||
         dstu_add_public_key(key->ec) == 0)
     {
+        EVP_PKEY_free(res);
         DSTU_KEY_free(key);
         EC_GROUP_free(group);
         BN_CTX_end(ctx);
-- 
2.43.0


From 48f56c6fd129366aeb6fe516aaf45d03d374a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 28/29] verify: mark the loops of keylib for the proofs
 (DSTU_VERIFY)

---
 keylib/jks.c      |  7 +++++++
 keylib/key6.c     |  5 +++++
 keylib/keystore.c | 15 +++++++++++++++
 keylib/pkcs12.c   |  7 +++++++
 keylib/utils.c    |  5 +++++
 5 files changed, 39 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index bdac647..0f2dbd0 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -3,6 +3,7 @@
 #include "keystore_internal.h"
 #include "utils.h"
 
+#include "gost/verify.h"
 #include <iconv.h>
 
 #include <openssl/asn1.h>
@@ -74,6 +75,7 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     }
     while (ss > 0)
     {
+        DSTU_LOOP_HEAD(utf16_convert)
         d = buf;
         ds = bufSize;
         r = iconv(cd, (char**)&s, &ss, &d, &ds);
@@ -93,6 +95,7 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     }
     for (;;)
     {
+        DSTU_LOOP_HEAD(utf16_flush)
         d = buf;
         ds = bufSize;
         r = iconv(cd, NULL, NULL, &d, &ds);
@@ -206,6 +209,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     decrypted = OPENSSL_malloc(encryptedLength);
     for (i = 0; i < rounds; ++i)
     {
+        DSTU_LOOP_HEAD(key_protector)
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
         {
             OPENSSL_free(decrypted);
@@ -348,6 +352,7 @@ static const void* parseKey(const void* data, const void* end, const char* keyPa
 
     for (i = 0; i < certNum; ++i)
     {
+        DSTU_LOOP_HEAD(jks_certs)
         certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
@@ -407,6 +412,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
 
     for (i = 0; i < entries; ++i)
     {
+        DSTU_LOOP_HEAD(jks_entries)
         entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
@@ -462,6 +468,7 @@ int readJKS_bio(BIO* bio, const char* storagePass, size_t storagePassSize, const
     int res = 0;
     for (;;)
     {
+        DSTU_LOOP_HEAD(read_jks)
         if (!BIO_read_ex(bio, buf, sizeof(buf), &bytes))
         {
             if (total > 0)
diff --git a/keylib/key6.c b/keylib/key6.c
index 48b1d8e..1d3e7b9 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -7,6 +7,7 @@
 
 #include "gost/gost89.h"
 #include "gost/gosthash.h"
+#include "gost/verify.h"
 
 #include <openssl/asn1.h>
 #include <openssl/bio.h>
@@ -36,7 +37,10 @@ static void pkdf(const char* password, size_t passSize, unsigned char* key)
     int i = 0;
     hash(password, passSize, key);
     for (i = 0; i < 9999; ++i)
+    {
+        DSTU_LOOP_HEAD(pkdf)
         hash(key, 32, key);
+    }
 }
 
 static int decryptKey6(const void* data, size_t size, const void* pad, size_t padSize, const char* password, size_t passSize, KeyStore** ks)
@@ -125,6 +129,7 @@ int readKey6_bio(BIO* bio, const char* password, size_t passSize, KeyStore** ks)
     int res = 0;
     for (;;)
     {
+        DSTU_LOOP_HEAD(read_key6)
         if (!BIO_read_ex(bio, buf, sizeof(buf), &bytes))
         {
             if (total > 0)
diff --git a/keylib/keystore.c b/keylib/keystore.c
index 108ac2b..8708f17 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -1,6 +1,7 @@
 #include "keystore_internal.h"
 #include "keystore.h"
 
+#include "gost/verify.h"
 #include <openssl/crypto.h>
 #include <openssl/evp.h>
 #include <openssl/x509.h>
@@ -22,7 +23,10 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
         res->keyNum = keyNum;
         res->keys = OPENSSL_malloc(keyNum * sizeof(EVP_PKEY*));
         for (i = 0; i < keyNum; ++i)
+        {
+            DSTU_LOOP_HEAD(ks_new_keys)
             res->keys[i] = NULL;
+        }
     }
     else
     {
@@ -34,7 +38,10 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
         res->certNum = certNum;
         res->certs = OPENSSL_malloc(certNum * sizeof(X509*));
         for (i = 0; i < certNum; ++i)
+        {
+            DSTU_LOOP_HEAD(ks_new_certs)
             res->certs[i] = NULL;
+        }
     }
     else
     {
@@ -52,6 +59,7 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
         to->keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
         for (i = 0; i < from->keyNum; ++i)
         {
+            DSTU_LOOP_HEAD(ks_append_keys)
             to->keys[to->keyNum + i] = from->keys[i];
             from->keys[i] = NULL;
         }
@@ -62,6 +70,7 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
         to->certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
         for (i = 0; i < from->certNum; ++i)
         {
+            DSTU_LOOP_HEAD(ks_append_certs)
             to->certs[to->certNum + i] = from->certs[i];
             from->certs[i] = NULL;
         }
@@ -77,13 +86,19 @@ void KeyStoreFree(KeyStore* ks)
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
+        {
+            DSTU_LOOP_HEAD(ks_free_keys)
             EVP_PKEY_free(ks->keys[i]);
+        }
         OPENSSL_clear_free(ks->keys, ks->keyNum * sizeof(EVP_PKEY*));
     }
     if (ks->certs != NULL)
     {
         for (i = 0; i < ks->certNum; ++i)
+        {
+            DSTU_LOOP_HEAD(ks_free_certs)
             X509_free(ks->certs[i]);
+        }
         OPENSSL_clear_free(ks->certs, ks->certNum * sizeof(X509*));
     }
     OPENSSL_clear_free(ks, sizeof(KeyStore));
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index e6414e1..19832bf 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -2,6 +2,8 @@
 
 #include "keystore_internal.h"
 
+#include "gost/verify.h"
+
 #include <openssl/bio.h>
 #include <openssl/obj_mac.h>
 #include <openssl/objects.h>
@@ -37,6 +39,7 @@ static int countKeysCertsInBags(const STACK_OF(PKCS12_SAFEBAG)* bags, const char
     int i = 0;
     for (i = 0; i < sk_PKCS12_SAFEBAG_num(bags); ++i)
     {
+        DSTU_LOOP_HEAD(p12_count_bags)
         if (countKeysCertsInBag(sk_PKCS12_SAFEBAG_value(bags, i), password, passSize, numKeys, numCerts) == 0)
             return 0;
     }
@@ -52,6 +55,7 @@ static int countKeysCerts(const STACK_OF(PKCS7)* safes, const char* password, si
 
     for (i = 0; i < sk_PKCS7_num(safes); ++i)
     {
+        DSTU_LOOP_HEAD(p12_count_safes)
         pkcs7 = sk_PKCS7_value(safes, i);
         if (pkcs7 == NULL)
             continue;
@@ -123,6 +127,7 @@ static int fromBags(const STACK_OF(PKCS12_SAFEBAG)* bags, const char* password,
     int i = 0;
     for (i = 0; i < sk_PKCS12_SAFEBAG_num(bags); ++i)
     {
+        DSTU_LOOP_HEAD(p12_bags)
         if (fromBag(sk_PKCS12_SAFEBAG_value(bags, i), password, passSize, ks, keyPos, certPos) == 0)
             return 0;
     }
@@ -138,6 +143,7 @@ static int fromSafes(const STACK_OF(PKCS7)* safes, const char* password, size_t
 
     for (i = 0; i < sk_PKCS7_num(safes); ++i)
     {
+        DSTU_LOOP_HEAD(p12_safes)
         pkcs7 = sk_PKCS7_value(safes, i);
         if (pkcs7 == NULL)
             continue;
@@ -237,6 +243,7 @@ int readPKCS12_bio(BIO* bio, const char* password, size_t passSize, KeyStore** k
     int res = 0;
     for (;;)
     {
+        DSTU_LOOP_HEAD(read_pkcs12)
         if (!BIO_read_ex(bio, buf, sizeof(buf), &bytes))
         {
             if (total > 0)
diff --git a/keylib/utils.c b/keylib/utils.c
index 645b1f7..5391a68 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -8,6 +8,7 @@
 #include "key.h"
 #include "params.h"
 
+#include "gost/verify.h"
 #include <openssl/ossl_typ.h>
 #include <openssl/asn1.h>
 #include <openssl/bn.h>
@@ -38,6 +39,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         return NULL;
     for (i = 0; i < count; ++i)
     {
+        DSTU_LOOP_HEAD(attr_scalar)
         type = ASN1_TYPE_get(X509_ATTRIBUTE_get0_type(attr, i));
         if (type != V_ASN1_OCTET_STRING && type != V_ASN1_BIT_STRING)
             continue;
@@ -52,6 +54,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     buf = OPENSSL_malloc(length);
     for (i = 0; i < length; ++i)
     {
+        DSTU_LOOP_HEAD(attr_reverse)
         // Swap bits
         b = data[i];
         b = (b & 0xF0) >> 4 | (b & 0x0F) << 4;
@@ -80,6 +83,7 @@ static EC_GROUP* makeECGROUP(X509_ATTRIBUTE* attr)
 
     for (i = 0; i < count; ++i)
     {
+        DSTU_LOOP_HEAD(attr_curve)
         spec = ASN1_TYPE_unpack_sequence(ASN1_ITEM_rptr(DSTU_AttrCurveSpec), X509_ATTRIBUTE_get0_type(attr, i));
         if (spec != NULL)
             break;
@@ -165,6 +169,7 @@ static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
 
     for (i = 0; i < nattr; ++i)
     {
+        DSTU_LOOP_HEAD(attr_find)
         attr = sk_X509_ATTRIBUTE_value(attributes, i);
         if (attr == NULL)
             continue;
-- 
2.43.0


From 7e6684eee0f72e5212c3ee09767f70504fb6f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:24 +0000
Subject: [PATCH 29/29] verify: mark the inner loop of the key protector
 (DSTU_VERIFY)

---
 keylib/jks.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index 0f2dbd0..170a9f5 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -217,6 +217,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
         }
         for (j = 0; j < digestLength; ++j)
         {
+            DSTU_LOOP_HEAD(key_protector_block)
             decrypted[pos] = encrypted[pos] ^ digest[j];
             ++pos;
             if (pos == encryptedLength)
-- 
2.43.0

