From 51ec455ea5845d26735c2a2574679b59c40b51e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 01/70] fix: reject IVs of the wrong length in
 openssl_aes256_encrypt before OpenSSL reads past them

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index fc48e27..8f71a76 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -409,6 +409,11 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         return NULL;
     }
     
+    /* A provided IV must be exactly the length the cipher requires, OpenSSL will read that many bytes from it */
+    if (iv && iv->length != cipher.iv_len) {
+        return NULL;
+    }
+    
     /* If an IV is not passed in, generate a random one */
     wickr_buffer_t *iv_f = iv ? wickr_buffer_copy(iv) : openssl_crypto_random(cipher.iv_len);
     
-- 
2.43.0


From 110cab5797dd95681803a19b3be440e748503b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 02/70] fix: refuse HKDF expand output sizes the metadata
 cannot represent

---
 src/wickrcrypto/src/kdf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 86cd7e8..cd5cff4 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -68,6 +68,12 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_hkdf_expand(const wickr_digest_t *digest
     }
     
     wickr_kdf_algo_t algo = KDF_HKDF_SHA512_EXPAND;
+    
+    // The output size of an algorithm is held in a single byte
+    if (output_size > UINT8_MAX) {
+        return NULL;
+    }
+    
     algo.output_size = output_size;
     
     return wickr_kdf_meta_create(algo, NULL, info);
-- 
2.43.0


From 8f1fc893dfc382a388f6748dc2fc1e5e97aa2758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 03/70] fix: fail the raw conversion of ECDSA signatures whose
 integers do not fit

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 8f71a76..70a0977 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -953,8 +953,9 @@ int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
     unsigned int out_buffer_len = (unsigned int)out_buffer->length;
     
-    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) &&
-        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2);
+    /* BN_bn2binpad returns -1 when the value does not fit in the component */
+    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) > 0 &&
+        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2) > 0;
 }
 #else
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
-- 
2.43.0


From e39a940a7730cf855b5785e002a9f210186f1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 04/70] fix: reject private EC keys whose public half does not
 match on import

---
 src/wickrcrypto/src/openssl_suite.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 70a0977..cb1a00e 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -866,6 +866,12 @@ wickr_ec_key_t *openssl_ec_key_import(const wickr_buffer_t *buffer, bool is_priv
         return NULL;
     }
     
+    /* The encoded public half of a private key must match its private half */
+    if (is_private && 1 != EC_KEY_check_key(ec_key)) {
+        EVP_PKEY_free(key);
+        return NULL;
+    }
+    
     wickr_buffer_t *public_key = __openssl_ec_pub_key_to_buffer(*curve, ec_key);
     
     if (!public_key) {
-- 
2.43.0


From 66af41a5bf62e645acdcd00e954c117497ad09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 05/70] fix: keep base64 and hex decoding inside the buffer and
 reject bytes above 0x7f

---
 src/wickrcrypto/src/util.c | 39 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index a76a634..95496ff 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -97,12 +97,12 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 	const char * objPointer = (const char *)strBase64->bytes;
 	if (objPointer == NULL)  return NULL;
 
-	size_t intLength = strlen(objPointer);
-    if (intLength > strBase64->length)
-        intLength = strBase64->length;
+	/* The text may or may not carry a terminator within its length */
+	size_t intLength = strnlen(objPointer, strBase64->length);
+	if (intLength == 0) return NULL;
     
 	int intCurrent;
-	int i = 0, j = 0, k;
+	int i = 0, j = 0;
 
     wickr_buffer_t *objResult;
 	objResult = wickr_buffer_create_empty_zero(intLength);
@@ -110,9 +110,11 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         return NULL;
     
 	// Run through the whole string, converting as we go
-	while ( ((intCurrent = *objPointer++) != '\0') && (intLength-- > 0) ) {
+	while (intLength > 0) {
+		intCurrent = (unsigned char)*objPointer++;
+		intLength--;
 		if (intCurrent == '=') {
-			if (*objPointer != '=' && ((i % 4) == 1)) {// || (intLength > 0)) {
+			if ((intLength == 0 || *objPointer != '=') && ((i % 4) == 1)) {// || (intLength > 0)) {
 				// the padding character is invalid at this point -- so this entire string is invalid
                 wickr_buffer_destroy(&objResult);
 				return NULL;
@@ -152,21 +154,10 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 		i++;
 	}
 
-	// mop things up if we ended on a boundary
-	k = j;
-	if (intCurrent == '=') {
-		switch (i % 4) {
-			case 1:
-				// Invalid state
-                wickr_buffer_destroy(&objResult);
-				return NULL;
-
-			case 2:
-				k++;
-				// flow through
-			case 3:
-				objResult->bytes[k] = 0;
-		}
+	/* Text that carries no complete byte does not represent any data */
+	if (j == 0) {
+        wickr_buffer_destroy(&objResult);
+		return NULL;
 	}
 
     objResult->length = j;
@@ -227,7 +218,8 @@ getDataFromHexString(const wickr_buffer_t *hexString)
         return NULL;
     
     const char * bytes = (const char *)hexString->bytes;
-    size_t length = strlen(bytes);
+    /* The text may or may not carry a terminator within its length */
+    size_t length = strnlen(bytes, hexString->length);
     wickr_buffer_t *result = wickr_buffer_create_empty((length / 2));
     if (!result)
         return NULL;
@@ -237,10 +229,11 @@ getDataFromHexString(const wickr_buffer_t *hexString)
     if (r != NULL) {
         unsigned char * index = r;
         
-        while ((*bytes) && (*(bytes +1))) {
+        while (length >= 2) {
             *index = strToChar(*bytes, *(bytes +1));
             index++;
             bytes+=2;
+            length-=2;
         }
         
         return result;
-- 
2.43.0


From 936a6e4c3ec95b5b39eb1e6fb3c3a542b0350790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 06/70] fix: null terminate the output of base32_encode as
 documented

---
 src/wickrcrypto/src/b32.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/b32.c b/src/wickrcrypto/src/b32.c
index 4664ce5..1f40cd0 100644
--- a/src/wickrcrypto/src/b32.c
+++ b/src/wickrcrypto/src/b32.c
@@ -226,12 +226,21 @@ wickr_buffer_t *base32_encode(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    wickr_buffer_t *return_buffer = wickr_buffer_create_empty_zero(__base32_encode_length(buffer->length));
+    size_t encode_length = __base32_encode_length(buffer->length);
+    
+    if (encode_length == 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *return_buffer = wickr_buffer_create_empty_zero(encode_length + 1);
     
     if (!return_buffer) {
         return NULL;
     }
     
+    /* The length is the string length, not including the null byte */
+    return_buffer->length = encode_length;
+    
     if (!__base32_encode_base32(buffer->bytes, buffer->length, return_buffer->bytes)) {
         wickr_buffer_destroy(&return_buffer);
         return NULL;
-- 
2.43.0


From 7214d8e61ce5a887d5cf111851b803c389eff498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 07/70] fix: produce the bilateral fingerprint of two identical
 fingerprints

---
 src/wickrcrypto/src/fingerprint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/fingerprint.c b/src/wickrcrypto/src/fingerprint.c
index d2801d6..3e45b84 100644
--- a/src/wickrcrypto/src/fingerprint.c
+++ b/src/wickrcrypto/src/fingerprint.c
@@ -75,6 +75,11 @@ static wickr_fingerprint_t *__wickr_fingerprint_sha512_combine(wickr_crypto_engi
         
     }
     
+    /* Both inputs are the same fingerprint, so either order produces the same output */
+    if (!concat_buffer) {
+        concat_buffer = wickr_buffer_concat(f1->data, f2->data);
+    }
+    
     if (!concat_buffer) {
         return NULL;
     }
-- 
2.43.0


From ab137943203f21b4cc99576f4693555faeb29a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 08/70] fix: copy a rotated key pair before destroying the
 node's current one

---
 src/wickrcrypto/src/node.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wickrcrypto/src/node.c b/src/wickrcrypto/src/node.c
index 0bb0253..db10d2e 100644
--- a/src/wickrcrypto/src/node.c
+++ b/src/wickrcrypto/src/node.c
@@ -31,21 +31,21 @@ bool wickr_node_rotate_keypair(wickr_node_t *node, wickr_ephemeral_keypair_t *ne
         return false;
     }
     
-    wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
+    /* Copy before destroying the current key pair: 'new_keypair' may be the key pair the node already holds,
+       and a failed copy must leave the node as it was */
+    wickr_ephemeral_keypair_t *rotated_keypair = copy ? wickr_ephemeral_keypair_copy(new_keypair) : new_keypair;
     
-    node->status = NODE_STATUS_UNKNOWN;
-    
-    if (copy) {
-        wickr_ephemeral_keypair_t *copy_keypair = wickr_ephemeral_keypair_copy(new_keypair);
-        if (!copy_keypair) {
-            return false;
-        }
-        node->ephemeral_keypair = copy_keypair;
+    if (!rotated_keypair) {
+        return false;
     }
-    else {
-        node->ephemeral_keypair = new_keypair;
+    
+    if (rotated_keypair != node->ephemeral_keypair) {
+        wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
     }
     
+    node->ephemeral_keypair = rotated_keypair;
+    node->status = NODE_STATUS_UNKNOWN;
+    
     return true;
 }
 
-- 
2.43.0


From bac5e7f262622f4fe7cceb5e08d5562b044320e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 09/70] fix: node status cache must depend on the identity
 chain's state

---
 src/wickrcrypto/src/node_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 8a3adaf..bbc02b9 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -122,6 +122,7 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
     wickr_buffer_t *buffers[] = {
         node->ephemeral_keypair->ec_key->pub_data,
         node->ephemeral_keypair->signature->sig_data,
+        node->id_chain->_status_cache, /* ties the node status to the identity chain it was determined with */
         &status_buffer
     };
     
-- 
2.43.0


From 1c65bf9e31afc4eab93d6790faff62998605666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 10/70] fix: include the signature's digest mode in
 verification status caches

---
 src/wickrcrypto/src/identity_priv.c | 5 +++--
 src/wickrcrypto/src/node_priv.c     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/identity_priv.c b/src/wickrcrypto/src/identity_priv.c
index c439ec3..53df450 100644
--- a/src/wickrcrypto/src/identity_priv.c
+++ b/src/wickrcrypto/src/identity_priv.c
@@ -257,8 +257,9 @@ wickr_buffer_t *wickr_identity_chain_make_status_cache(const wickr_identity_chai
         return NULL;
     }
     
-    uint8_t status_int = (uint8_t)chain->status;
-    wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
+    /* The digest mode of the signature determines if it verifies, so it is cached along with the status */
+    uint8_t status_bytes[] = { (uint8_t)chain->status, (uint8_t)chain->node->signature->digest_mode.digest_id };
+    wickr_buffer_t status_buffer =  { .length = sizeof(status_bytes), .bytes = status_bytes };
     
     wickr_buffer_t *buffers[] = {
         chain->root->sig_key->pub_data,
diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index bbc02b9..b2064d4 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -116,8 +116,9 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
         return NULL;
     }
     
-    uint8_t status_int = (uint8_t)node->status;
-    wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
+    /* The digest mode of the signature determines if it verifies, so it is cached along with the status */
+    uint8_t status_bytes[] = { (uint8_t)node->status, (uint8_t)node->ephemeral_keypair->signature->digest_mode.digest_id };
+    wickr_buffer_t status_buffer =  { .length = sizeof(status_bytes), .bytes = status_bytes };
     
     wickr_buffer_t *buffers[] = {
         node->ephemeral_keypair->ec_key->pub_data,
-- 
2.43.0


From 7ba37ae4bacfa7ef153d24f598050a62399fbba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 11/70] fix: refuse to serialize root keys that have no private
 signature root

---
 src/wickrcrypto/src/root_keys.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index 3434e0a..0517f11 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -125,6 +125,11 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
 
 wickr_buffer_t *wickr_root_keys_serialize(const wickr_root_keys_t *keys)
 {
+    /* The serialized form carries the private signature root, so there is no form for keys without one */
+    if (!keys || !keys->node_signature_root->pri_data) {
+        return NULL;
+    }
+    
     Wickr__Proto__RootKeys rootkeys = WICKR__PROTO__ROOT_KEYS__INIT;
     rootkeys.version = CURRENT_ROOT_KEY_VERSION;
     
-- 
2.43.0


From 65086e10c2c553bb068ce9234784b98f5aa53071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 12/70] fix: release the derived key when passphrase-protected
 data is malformed

---
 src/wickrcrypto/src/crypto_engine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/crypto_engine.c b/src/wickrcrypto/src/crypto_engine.c
index 7178dea..a2f5671 100644
--- a/src/wickrcrypto/src/crypto_engine.c
+++ b/src/wickrcrypto/src/crypto_engine.c
@@ -153,6 +153,7 @@ wickr_buffer_t *wickr_crypto_engine_kdf_decipher(const wickr_crypto_engine_t *en
     wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(&cipher_text);
     
     if (!cipher_result) {
+        wickr_kdf_result_destroy(&kdf_result);
         return NULL;
     }
     
-- 
2.43.0


From 5359867de3bdfcf86a65b1a9e8b85bce91feff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 13/70] fix: release the signature of a packet refused for its
 digest or curve

---
 src/wickrcrypto/src/protocol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 3813daf..a9febac 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -358,6 +358,7 @@ wickr_packet_t *wickr_packet_create_from_buffer(const wickr_buffer_t *buffer)
     if (!signature ||
         signature->digest_mode.digest_id != digest.digest_id ||
         signature->curve.identifier != curve->identifier) {
+        wickr_ecdsa_result_destroy(&signature);
         return NULL;
     }
     
-- 
2.43.0


From 96f1c075e323cdcd6f976680aa5a6ba551f2122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 14/70] fix: release the user data of a rejected serialized
 stream key

---
 src/wickrcrypto/src/stream_key_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index b8ac43f..3ee86d0 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -100,6 +100,7 @@ wickr_stream_key_t *wickr_stream_key_create_from_proto(const Wickr__Proto__Strea
     if (!stream_key) {
         wickr_cipher_key_destroy(&cipher_key);
         wickr_buffer_destroy_zero(&evo_key);
+        wickr_buffer_destroy(&user_data);
         return NULL;
     }
     
-- 
2.43.0


From c8987f887c15451e1edf7e1695b120102b47cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 15/70] fix: do not send the handshake start after the state
 callback put the transport in error

---
 src/wickrcrypto/src/transport_ctx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 53a1808..5d8bd05 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -338,6 +338,13 @@ void wickr_transport_ctx_start(wickr_transport_ctx_t *ctx)
     }
     
     __wickr_transport_ctx_update_status(ctx, TRANSPORT_STATUS_INITIAL_HANDSHAKE);
+    
+    /* The state callback may have moved the transport into error, in which case nothing can be sent */
+    if (ctx->status != TRANSPORT_STATUS_INITIAL_HANDSHAKE) {
+        wickr_buffer_destroy(&serialized_packet);
+        return;
+    }
+    
     ctx->callbacks.tx(ctx, serialized_packet);
 }
 
-- 
2.43.0


From 138e8b6d2b9cd1e687ca4f8c1193b53fe2691014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 16/70] fix: ignore an identity answer that arrives after the
 transport failed

---
 src/wickrcrypto/src/transport_ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 5d8bd05..c976fa2 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -252,6 +252,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     /* Remove const for internal work */
     wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
     
+    /* An answer that arrives after the transport has failed must not bring it back */
+    if (!_ctx || _ctx->status == TRANSPORT_STATUS_ERROR) {
+        return;
+    }
+    
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-- 
2.43.0


From d0f5d3a396863b1504c562031235db3ec002630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 17/70] fix: check which handshake message a packet carries
 before using it

---
 src/wickrcrypto/src/transport_handshake.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index bc9a349..e29b3a0 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -387,7 +387,8 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
         return;
     }
     
-    if (!handshake_data->response ||
+    if (handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE ||
+        !handshake_data->response ||
         !handshake_data->response->has_encrypted_response_data ||
         !handshake_data->response->has_ephemeral_pubkey) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -511,7 +512,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-    if (!handshake_data || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
+    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED ||
+        !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
         || !handshake_data->seed->has_identity_required) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
-- 
2.43.0


From cd94eaacc516bf108421f664f785b04e0338e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 18/70] fix: refuse to start a transport that is already
 answering a handshake

---
 src/wickrcrypto/src/transport_ctx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index c976fa2..22415f6 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -312,7 +312,8 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
 
 void wickr_transport_ctx_start(wickr_transport_ctx_t *ctx)
 {
-    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE) {
+    /* A handshake that is already pending (waiting for the remote identity to be verified) can't be replaced */
+    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE || ctx->pending_handshake) {
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_BAD_START_STATUS);
         return;
     }
-- 
2.43.0


From bb150d7cd3b918c047de81b93681e56255bf87d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 19/70] fix: fail the transport when a completed handshake
 yields no usable stream keys

---
 src/wickrcrypto/src/transport_ctx.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 22415f6..ea78518 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -222,6 +222,7 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     
     if (!tx_stream) {
         wickr_stream_key_destroy(&tx_key);
+        wickr_transport_handshake_res_destroy(&res);
         return false;
     }
     
@@ -260,10 +261,15 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(_ctx);
+        if (!__wickr_transport_ctx_finalize_handshake(_ctx)) {
+            wickr_transport_packet_destroy(&volley_packet);
+            __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+            return;
+        }
     }
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+        wickr_transport_packet_destroy(&volley_packet);
         __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
         return;
     }
@@ -399,10 +405,15 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
     if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(ctx);
+        if (!__wickr_transport_ctx_finalize_handshake(ctx)) {
+            wickr_transport_packet_destroy(&volley_packet);
+            __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
+            return;
+        }
     }
     
     if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+        wickr_transport_packet_destroy(&volley_packet);
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
         return;
     }
-- 
2.43.0


From 4402cc7300a6a50b655d6a44462251afca25b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 20/70] fix: send the last handshake packet ahead of data sent
 from the state callback

---
 .../wickrcrypto/private/transport_priv.h      |   1 +
 src/wickrcrypto/src/transport_ctx.c           | 114 ++++++++++--------
 2 files changed, 64 insertions(+), 51 deletions(-)

diff --git a/src/wickrcrypto/include/wickrcrypto/private/transport_priv.h b/src/wickrcrypto/include/wickrcrypto/private/transport_priv.h
index fdf8c63..c5f93ea 100644
--- a/src/wickrcrypto/include/wickrcrypto/private/transport_priv.h
+++ b/src/wickrcrypto/include/wickrcrypto/private/transport_priv.h
@@ -37,6 +37,7 @@ struct wickr_transport_ctx {
     wickr_transport_callbacks_t callbacks;
     void *user;
     wickr_transport_handshake_t *pending_handshake;
+    wickr_buffer_t *pending_volley;
     wickr_transport_error err;
 };
 
diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index ea78518..7ad71e5 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -132,6 +132,7 @@ void wickr_transport_ctx_destroy(wickr_transport_ctx_t **ctx)
     wickr_stream_ctx_destroy(&(*ctx)->tx_stream);
     wickr_stream_ctx_destroy(&(*ctx)->rx_stream);
     wickr_transport_handshake_destroy(&(*ctx)->pending_handshake);
+    wickr_buffer_destroy(&(*ctx)->pending_volley);
     
     wickr_free(*ctx);
     *ctx = NULL;
@@ -207,6 +208,25 @@ static wickr_transport_packet_t *__wickr_transport_ctx_encode_pkt(const wickr_tr
     return pkt;
 }
 
+/* Hand the last packet of the handshake to the user, the remote party can't read any data before it has this packet */
+static void __wickr_transport_ctx_send_pending_volley(wickr_transport_ctx_t *ctx)
+{
+    wickr_buffer_t *volley_buffer = ctx->pending_volley;
+    
+    if (!volley_buffer) {
+        return;
+    }
+    
+    ctx->pending_volley = NULL;
+    
+    if (ctx->status == TRANSPORT_STATUS_ERROR) {
+        wickr_buffer_destroy(&volley_buffer);
+        return;
+    }
+    
+    ctx->callbacks.tx(ctx, volley_buffer);
+}
+
 static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
 {
     wickr_transport_handshake_res_t *res = wickr_transport_handshake_finalize(ctx->pending_handshake);
@@ -248,44 +268,54 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     return true;
 }
 
-static void __wickr_transport_validate_identity_complete(const wickr_transport_ctx_t *ctx, bool is_valid)
+/* Take the transport to where its pending handshake got to, volley_packet is the handshake's reply to the remote party */
+static void __wickr_transport_ctx_advance_handshake(wickr_transport_ctx_t *ctx,
+                                                    wickr_transport_packet_t *volley_packet,
+                                                    wickr_transport_error handshake_error,
+                                                    wickr_transport_error serialization_error)
 {
-    /* Remove const for internal work */
-    wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
-    
-    /* An answer that arrives after the transport has failed must not bring it back */
-    if (!_ctx || _ctx->status == TRANSPORT_STATUS_ERROR) {
+    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(ctx, handshake_error);
         return;
     }
     
-    wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
+    if (volley_packet) {
+        wickr_buffer_destroy(&ctx->pending_volley);
+        ctx->pending_volley = wickr_transport_packet_serialize(volley_packet);
+        wickr_transport_packet_destroy(&volley_packet);
+        
+        if (!ctx->pending_volley) {
+            __wickr_transport_ctx_set_error(ctx, serialization_error);
+            return;
+        }
+    }
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        if (!__wickr_transport_ctx_finalize_handshake(_ctx)) {
-            wickr_transport_packet_destroy(&volley_packet);
-            __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+    /* Becoming active gives the user the chance to send data, which puts the pending volley ahead of that data */
+    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
+        if (!__wickr_transport_ctx_finalize_handshake(ctx)) {
+            wickr_buffer_destroy(&ctx->pending_volley);
+            __wickr_transport_ctx_set_error(ctx, handshake_error);
             return;
         }
     }
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-        wickr_transport_packet_destroy(&volley_packet);
-        __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+    __wickr_transport_ctx_send_pending_volley(ctx);
+}
+
+static void __wickr_transport_validate_identity_complete(const wickr_transport_ctx_t *ctx, bool is_valid)
+{
+    /* Remove const for internal work */
+    wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
+    
+    /* An answer that arrives after the transport has failed must not bring it back */
+    if (!_ctx || _ctx->status == TRANSPORT_STATUS_ERROR) {
         return;
     }
     
-    if (volley_packet) {
-        wickr_buffer_t *volley_buffer = wickr_transport_packet_serialize(volley_packet);
-        wickr_transport_packet_destroy(&volley_packet);
-        
-        if (!volley_buffer) {
-            __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_VOLLEY_FAILED);
-            return;
-        }
-        
-        _ctx->callbacks.tx(ctx, volley_buffer);
-    }
+    wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
+    __wickr_transport_ctx_advance_handshake(_ctx, volley_packet, TRANSPORT_ERROR_HANDSHAKE_FAILED, TRANSPORT_ERROR_HANDSHAKE_VOLLEY_FAILED);
 }
 
 static void __wickr_transport_handshake_identity_callback(const wickr_transport_handshake_t *handshake,
@@ -367,6 +397,13 @@ void wickr_transport_ctx_process_tx_buffer(wickr_transport_ctx_t *ctx, const wic
         return;
     }
     
+    __wickr_transport_ctx_send_pending_volley(ctx);
+    
+    /* Sending the volley may have moved the transport into error */
+    if (ctx->status != TRANSPORT_STATUS_ACTIVE) {
+        return;
+    }
+    
     wickr_transport_packet_t *tx_packet = __wickr_transport_ctx_encode_pkt(ctx, buffer);
     
     if (!tx_packet) {
@@ -404,32 +441,7 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     /* Process the packet with the handshake */
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        if (!__wickr_transport_ctx_finalize_handshake(ctx)) {
-            wickr_transport_packet_destroy(&volley_packet);
-            __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
-            return;
-        }
-    }
-    
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-        wickr_transport_packet_destroy(&volley_packet);
-        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
-        return;
-    }
-    
-    if (volley_packet) {
-        wickr_buffer_t *volley_buffer = wickr_transport_packet_serialize(volley_packet);
-        wickr_transport_packet_destroy(&volley_packet);
-        
-        if (!volley_buffer) {
-            __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED);
-            return;
-        }
-        
-        ctx->callbacks.tx(ctx, volley_buffer);
-    }
-    
+    __wickr_transport_ctx_advance_handshake(ctx, volley_packet, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED, TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED);
 }
 
 static bool __wickr_transport_ctx_can_process_handshake(const wickr_transport_ctx_t *ctx)
-- 
2.43.0


From 2db87a0c956d3ff984a21b0d339b497179d02016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 21/70] fix: keep the user data of a stream key when the key
 evolves

---
 src/wickrcrypto/src/stream_ctx.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 7baa2eb..dfbfe00 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -120,11 +120,21 @@ static wickr_stream_key_t *__wickr_stream_key_create_with_evo_buffer(wickr_strea
         return NULL;
     }
     
-    wickr_stream_key_t *new_key = wickr_stream_key_create(cipher_key, new_evo_key, old_key->packets_per_evolution);
+    /* The user data of the key stays with it across evolutions */
+    wickr_buffer_t *user_data = wickr_buffer_copy(old_key->user_data);
+    
+    if (old_key->user_data && !user_data) {
+        wickr_cipher_key_destroy(&cipher_key);
+        wickr_buffer_destroy_zero(&new_evo_key);
+        return NULL;
+    }
+    
+    wickr_stream_key_t *new_key = wickr_stream_key_create_user_data(cipher_key, new_evo_key, old_key->packets_per_evolution, user_data);
     
     if (!new_key) {
         wickr_cipher_key_destroy(&cipher_key);
         wickr_buffer_destroy_zero(&new_evo_key);
+        wickr_buffer_destroy(&user_data);
         return NULL;
     }
     
-- 
2.43.0


From 5c0db668656906cda8fd89f85a2c157cf7890aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 22/70] fix: advance a stream only when its packet was
 encrypted or decrypted

---
 src/wickrcrypto/src/stream_ctx.c | 53 +++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index dfbfe00..fcebf48 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -141,8 +141,12 @@ static wickr_stream_key_t *__wickr_stream_key_create_with_evo_buffer(wickr_strea
     return new_key;
 }
 
-static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder, uint64_t seq_num)
+/* Find the key for seq_num. If the current key has to evolve to get there, the result is returned in 'evolved_key',
+   and the context keeps its current key until the packet of seq_num was successfully encrypted or decrypted */
+static bool __wickr_stream_ctx_evolove_key_material(const wickr_stream_ctx_t *encoder, uint64_t seq_num, wickr_stream_key_t **evolved_key)
 {
+    *evolved_key = NULL;
+    
     if (!encoder) {
         return false;
     }
@@ -187,15 +191,24 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         curr_evo++;
     }
     
-    wickr_stream_key_destroy(&encoder->key);
-    encoder->key = curr_key;
+    *evolved_key = curr_key;
     
     return true;
 }
 
+static void __wickr_stream_ctx_advance(wickr_stream_ctx_t *ctx, uint64_t seq_num, wickr_stream_key_t *evolved_key)
+{
+    if (evolved_key) {
+        wickr_stream_key_destroy(&ctx->key);
+        ctx->key = evolved_key;
+    }
+    
+    ctx->last_seq = seq_num;
+}
+
 wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wickr_buffer_t *data, const wickr_buffer_t *aad, uint64_t seq_num)
 {
-    if (!data || seq_num <= ctx->last_seq || ctx->direction != STREAM_DIRECTION_ENCODE) {
+    if (!ctx || !data || seq_num <= ctx->last_seq || ctx->direction != STREAM_DIRECTION_ENCODE) {
         return NULL;
     }
     
@@ -205,32 +218,50 @@ wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wi
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *evolved_key = NULL;
+    
+    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
         wickr_buffer_destroy(&iv);
         return NULL;
     }
     
-    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, ctx->key->cipher_key, iv);
+    const wickr_stream_key_t *key = evolved_key ? evolved_key : ctx->key;
+    
+    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, key->cipher_key, iv);
     wickr_buffer_destroy(&iv);
     
-    ctx->last_seq = seq_num;
+    if (!encrypt_result) {
+        wickr_stream_key_destroy(&evolved_key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_advance(ctx, seq_num, evolved_key);
     
     return encrypt_result;
 }
 
 wickr_buffer_t *wickr_stream_ctx_decode(wickr_stream_ctx_t *ctx, const wickr_cipher_result_t *data, const wickr_buffer_t *aad, uint64_t seq_num)
 {
-    if (!data || seq_num <= ctx->last_seq || ctx->direction != STREAM_DIRECTION_DECODE) {
+    if (!ctx || !data || seq_num <= ctx->last_seq || ctx->direction != STREAM_DIRECTION_DECODE) {
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *evolved_key = NULL;
+    
+    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
         return NULL;
     }
     
-    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, ctx->key->cipher_key, true);
+    const wickr_stream_key_t *key = evolved_key ? evolved_key : ctx->key;
     
-    ctx->last_seq = seq_num;
+    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, key->cipher_key, true);
+    
+    if (!decrypt_result) {
+        wickr_stream_key_destroy(&evolved_key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_advance(ctx, seq_num, evolved_key);
     
     return decrypt_result;
 }
-- 
2.43.0


From 167b6ffceac7cdd194d746c855b19927a4a22f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 23/70] fix: copy every part of a transport, also without a
 known remote identity

---
 src/wickrcrypto/src/transport_ctx.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 7ad71e5..e8a4d4d 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -76,7 +76,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
-    if (!remote_copy) {
+    if (!remote_copy && ctx->remote_identity) {
         wickr_identity_chain_destroy(&local_copy);
         return NULL;
     }
@@ -98,16 +98,27 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         return NULL;
     }
     
-    wickr_transport_ctx_t *copy = wickr_alloc_zero(sizeof(wickr_transport_ctx_t));
+    wickr_transport_handshake_t *handshake_copy = wickr_transport_handshake_copy(ctx->pending_handshake);
+    wickr_buffer_t *volley_copy = wickr_buffer_copy(ctx->pending_volley);
+    wickr_transport_ctx_t *copy = NULL;
+    
+    if ((handshake_copy || !ctx->pending_handshake) && (volley_copy || !ctx->pending_volley)) {
+        copy = wickr_alloc_zero(sizeof(wickr_transport_ctx_t));
+    }
     
     if (!copy) {
         wickr_identity_chain_destroy(&local_copy);
         wickr_identity_chain_destroy(&remote_copy);
         wickr_stream_ctx_destroy(&tx_copy);
         wickr_stream_ctx_destroy(&rx_copy);
+        wickr_transport_handshake_destroy(&handshake_copy);
+        wickr_buffer_destroy(&volley_copy);
         return NULL;
     }
     
+    /* The handshake reports to the transport that owns it */
+    wickr_transport_set_user_data(handshake_copy, copy);
+    
     copy->engine = ctx->engine;
     copy->local_identity = local_copy;
     copy->remote_identity = remote_copy;
@@ -117,6 +128,9 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     copy->callbacks = ctx->callbacks;
     copy->evo_count = ctx->evo_count;
     copy->user = ctx->user;
+    copy->pending_handshake = handshake_copy;
+    copy->pending_volley = volley_copy;
+    copy->err = ctx->err;
     
     return copy;
 }
-- 
2.43.0


From 941e68a61beb6a7d9dec104395fa1683af52fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 24/70] fix: fail context generation from a recovery instead of
 dereferencing NULL

---
 src/wickrcrypto/src/wickr_ctx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index acf6bcb..655fadc 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -164,6 +164,10 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_recovery(const wickr_crypto_engine_t
     wickr_ctx_gen_result_t *gen_result = wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
     wickr_root_keys_destroy(&root_keys);
     
+    if (!gen_result) {
+        return NULL;
+    }
+    
     /* Swap out the randomly assigned recovery key with the one that was specified */
     wickr_cipher_key_destroy(&gen_result->recovery_key);
     gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
-- 
2.43.0


From d568c4c1e5888e6756fd016a642476395e622da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 25/70] fix: fail a request for zero random bytes instead of
 dereferencing NULL

---
 src/wickrcrypto/src/openssl_suite.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index cb1a00e..bb8a6d3 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -360,6 +360,10 @@ wickr_buffer_t *openssl_crypto_random(size_t len)
     
     wickr_buffer_t *new_buffer = wickr_buffer_create_empty(len);
     
+    if (!new_buffer) {
+        return NULL;
+    }
+    
     if (1 != RAND_bytes(new_buffer->bytes, (int)len)) {
         wickr_buffer_destroy(&new_buffer);
         return NULL;
-- 
2.43.0


From 753939150a57a4f2644f389f7b5d21ef98730fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 26/70] fix: refuse to decrypt a file whose cipher is not the
 key's

---
 src/wickrcrypto/src/openssl_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index bb8a6d3..8fcdafd 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1430,8 +1430,8 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             goto process_error;
         }
         
-        /* OpenSSL does not allow decryption of buffers greater than INT_MAX in length */
-        if (key->key_data->length != cipher_result->cipher.key_len) {
+        /* The key must belong to the cipher the file claims to be encrypted with */
+        if (key->cipher.cipher_id != cipher_result->cipher.cipher_id || key->key_data->length != cipher_result->cipher.key_len) {
             goto process_error;
         }
         
-- 
2.43.0


From 76e85a33c57847edb3a13615d2b89f0da50cf4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 27/70] fix: report read errors while encrypting or decrypting
 a file

---
 src/wickrcrypto/src/openssl_suite.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 8fcdafd..3243baf 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1310,6 +1310,10 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         for (;;) {
             size_t bytes_read = fread(plainBuffer, 1, sizeof(plainBuffer), in_file);
             
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_EncryptUpdate(ctx, cipherBuffer, &outlength, plainBuffer, (int)bytes_read)) {
                 goto process_error;
             }
@@ -1480,6 +1484,10 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         for (;;) {
             size_t bytesRead = fread(cipherBuffer, 1, sizeof(cipherBuffer), in_file);
             
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_DecryptUpdate(ctx, plainBuffer, &outlength, cipherBuffer, (int)bytesRead)) {
                 goto process_error;
             }
-- 
2.43.0


From 575d6d464b9eb865a4784c6e877632dc146a016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 28/70] fix: detect write errors when returning to the start of
 an encrypted file

---
 src/wickrcrypto/src/openssl_suite.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 3243baf..9e73ab7 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1245,7 +1245,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             return false;
         }
         
-        rewind(out_file);
+        if (fseek(out_file, 0, SEEK_SET) != 0) {
+            return false;
+        }
         
         EVP_CIPHER_CTX *ctx = NULL;
         unsigned char *cipherBuffer = NULL;
@@ -1354,7 +1356,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         serialized = wickr_cipher_result_serialize(cipher_result);
         if (serialized) {
             //Seek to the position that the Tag zeros start in the file so we can fill in the tag
-            rewind(out_file);
+            if (fseek(out_file, 0, SEEK_SET) != 0) {
+                goto process_error;
+            }
             size_t bytes_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
             if (bytes_written != serialized->length) {
                 goto process_error;
-- 
2.43.0


From 02506c6995a0807a25e1f3d8b651af32ad60c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 29/70] fix: report failure when the output file cannot be
 flushed or closed

---
 src/wickrcrypto/src/openssl_file_suite.c | 13 ++++++++++---
 src/wickrcrypto/src/openssl_suite.c      | 11 +++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 8e6d7c3..1c154e3 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -146,19 +146,26 @@ static void aesFileOpRemoveTempFile(AESFileOperation *operation) {
     remove(operation->tempPath);
 }
 
-static void aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+static bool aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+    bool retVal = true;
 	if (operation->sourceHandle) {
 		fclose(operation->sourceHandle);
 		operation->sourceHandle = NULL;
 	}
 	if (operation->destinationHandle) {
-		fclose(operation->destinationHandle);
+		if (fclose(operation->destinationHandle) != 0) {
+			retVal = false;
+		}
 		operation->destinationHandle = NULL;
 	}
+    return retVal;
 }
 
 static bool aesFileOpMoveTempToDestination(AESFileOperation *operation) {
-    aesFileOpCloseSourceAndDestination(operation);
+    /* The data written is only known to be complete once the file has been closed */
+    if (!aesFileOpCloseSourceAndDestination(operation)) {
+        return false;
+    }
     
     bool retVal = true;
 #if defined(_WIN32)
diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 9e73ab7..e889b96 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1365,6 +1365,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             }
         }
         
+        /* Data that is still buffered may fail to be written */
+        if (fflush(out_file) != 0) {
+            goto process_error;
+        }
+        
         ret_val = true;
         
         // Fall through to clean up
@@ -1515,6 +1520,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
                 break;
             }
         }
+        
+        /* Data that is still buffered may fail to be written */
+        if (fflush(out_file) != 0) {
+            goto process_error;
+        }
+        
         ret_val = true;
         
     process_error:
-- 
2.43.0


From c0d0aece0dae73446f05679c71265ffd5595594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 30/70] fix: release the response data of a handshake response
 without a root key

---
 src/wickrcrypto/src/transport_handshake.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index e29b3a0..b7edec9 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -487,6 +487,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     wickr_buffer_destroy_zero(&response_buffer);
     
     if (!response_data || !response_data->root_key) {
+        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return;
     }
-- 
2.43.0


From c367d7de1ace26d512b221513acd9b20d8f296f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 31/70] fix: release a handshake packet that could not be
 signed

---
 src/wickrcrypto/src/transport_handshake.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index b7edec9..6dc19f8 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -235,6 +235,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     
     /* Sign the handshake packet */
     if (!handshake_pkt || !wickr_transport_packet_sign(handshake_pkt, &handshake->engine, handshake->local_identity)) {
+        wickr_transport_packet_destroy(&handshake_pkt);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
-- 
2.43.0


From aa4227241a68488bec76c97abfa542301f8738e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 32/70] fix: release the hashed handshake info when its kdf
 metadata cannot be made

---
 src/wickrcrypto/src/transport_handshake.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 6dc19f8..b1bfc8d 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -351,7 +351,7 @@ static wickr_kdf_meta_t *__wickr_transport_handshake_kdf_meta_gen(wickr_transpor
     wickr_kdf_meta_t *kdf_meta = wickr_kdf_meta_create(KDF_HKDF_SHA512, NULL, hashed_info);
     
     if (!kdf_meta) {
-        wickr_buffer_destroy(&info_data);
+        wickr_buffer_destroy(&hashed_info);
     }
     
     return kdf_meta;
-- 
2.43.0


From 38f5e26e1d920b2b025e543013685a6db950075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 33/70] fix: release the agreement keys when no transport root
 key can be generated

---
 src/wickrcrypto/src/transport_handshake.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index b1bfc8d..17321bf 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -563,6 +563,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     if (!handshake->root_key) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
+        wickr_ecdh_cipher_ctx_destroy(&cipher_ctx);
+        wickr_ec_key_destroy(&ephemeral_key);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
-- 
2.43.0


From d1908025b4021c60ee0b61bbdd5e7ab34e685ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 34/70] fix: release the derived key material when a stream key
 cannot be made

---
 src/wickrcrypto/src/transport_root_key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/transport_root_key.c b/src/wickrcrypto/src/transport_root_key.c
index cb7df79..bf2b1e3 100644
--- a/src/wickrcrypto/src/transport_root_key.c
+++ b/src/wickrcrypto/src/transport_root_key.c
@@ -98,6 +98,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     wickr_kdf_result_t *raw_key_material = engine->wickr_crypto_kdf_meta(&kdf_meta, root_key->secret);
     
     if (!raw_key_material || raw_key_material->hash->length != root_key->cipher.key_len * 2) {
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
@@ -106,6 +107,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     
     if (!cipher_key) {
         wickr_buffer_destroy_zero(&cipher_key_data);
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
-- 
2.43.0


From 5e18cb5c0a299da16076547810ae5407a4ee6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 35/70] fix: report a context copy that could not be created

---
 src/wickrcrypto/src/wickr_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index 655fadc..5064b2b 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -452,6 +452,7 @@ wickr_ctx_t *wickr_ctx_copy(const wickr_ctx_t *ctx)
         wickr_dev_info_destroy(&dev_info_copy);
         wickr_identity_chain_destroy(&id_chain_copy);
         wickr_storage_keys_destroy(&storage_keys_copy);
+        return NULL;
     }
     
     copy->pkt_enc_version = ctx->pkt_enc_version;
-- 
2.43.0


From 31aa26854432e351f68803015658ee83558f06d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 36/70] fix: report a cipher result or key that could not be
 allocated

---
 src/wickrcrypto/src/cipher.c        | 44 +++++++++++++++++++++++++++--
 src/wickrcrypto/src/openssl_suite.c |  8 +++++-
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index b9d669b..594e523 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -31,6 +31,11 @@ wickr_cipher_result_t *wickr_cipher_result_create(wickr_cipher_t cipher, wickr_b
     }
     
     wickr_cipher_result_t *new_result = wickr_alloc_zero(sizeof(wickr_cipher_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->cipher = cipher;
     
     
@@ -55,7 +60,20 @@ wickr_cipher_result_t *wickr_cipher_result_copy(const wickr_cipher_result_t *res
         cipher_text_copy = NULL;
     wickr_buffer_t *auth_tag_copy = result->auth_tag ? wickr_buffer_copy(result->auth_tag) : NULL;
     
-    return wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    wickr_cipher_result_t *copy = NULL;
+    
+    /* A result without its cipher text is not a copy of one that has it */
+    if (cipher_text_copy || !result->cipher_text) {
+        copy = wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    }
+    
+    if (!copy) {
+        wickr_buffer_destroy(&iv_copy);
+        wickr_buffer_destroy(&cipher_text_copy);
+        wickr_buffer_destroy(&auth_tag_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_cipher_result_destroy(wickr_cipher_result_t **result)
@@ -160,7 +178,16 @@ wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *buf
     } else {
         cipher_text = NULL;
     }
-    return wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    wickr_cipher_result_t *result = wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    if (!result) {
+        wickr_buffer_destroy(&iv);
+        wickr_buffer_destroy(&cipher_text);
+        wickr_buffer_destroy(&auth_tag);
+    }
+    
+    return result;
 }
 
 wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_t *key_data)
@@ -170,6 +197,11 @@ wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_
     }
     
     wickr_cipher_key_t *new_key = wickr_alloc_zero(sizeof(wickr_cipher_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->cipher = cipher;
     new_key->key_data = key_data;
     
@@ -241,5 +273,11 @@ wickr_cipher_key_t *wickr_cipher_key_from_buffer(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    return wickr_cipher_key_create(*cipher, key_buffer);
+    wickr_cipher_key_t *key = wickr_cipher_key_create(*cipher, key_buffer);
+    
+    if (!key) {
+        wickr_buffer_destroy_zero(&key_buffer);
+    }
+    
+    return key;
 }
diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index e889b96..2ae7806 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -486,9 +486,15 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         }
     }
     
+    wickr_cipher_result_t *result = wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    
+    if (!result) {
+        goto process_error;
+    }
+    
     EVP_CIPHER_CTX_free(ctx);
     
-    return wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    return result;
     
 process_error:
     if (auth_tag) {
-- 
2.43.0


From 76d112a5faec3ff64a5757575dc7a3ecae434c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 37/70] fix: report a signature that could not be allocated or
 padded

---
 src/wickrcrypto/src/ecdsa.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index f55267a..9180a5c 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -12,6 +12,11 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create(wickr_ec_curve_t curve, wickr_di
     }
     
     wickr_ecdsa_result_t *new_result = wickr_alloc_zero(sizeof(wickr_ecdsa_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->curve = curve;
     new_result->digest_mode = digest_mode;
     new_result->sig_data = sig_data;
@@ -45,7 +50,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t
         return NULL;
     }
     
-    return wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    wickr_ecdsa_result_t *result = wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    
+    if (!result) {
+        wickr_buffer_destroy(&key_data);
+    }
+    
+    return result;
 }
 
 wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
@@ -67,6 +78,10 @@ wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
     pad_count_buffer.length = sizeof(uint8_t);
     
     wickr_buffer_t *pad_buffer = wickr_buffer_create_empty_zero(pad_count);
+    
+    if (!pad_buffer && pad_count > 0) {
+        return NULL;
+    }
 
     wickr_buffer_t *buffers[] = { &meta_buffer, &pad_count_buffer, pad_buffer, result->sig_data };
     
@@ -84,7 +99,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_copy(const wickr_ecdsa_result_t *source
     
     wickr_buffer_t *sig_data_copy = wickr_buffer_copy(source->sig_data);
     
-    return wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    wickr_ecdsa_result_t *copy = wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&sig_data_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_ecdsa_result_destroy(wickr_ecdsa_result_t **result)
-- 
2.43.0


From f5331a1c77565d151548e18c3da663a936e4816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 38/70] fix: report a curve key that could not be allocated

---
 src/wickrcrypto/src/eckey.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 015cbac..faef95c 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -10,6 +10,11 @@ wickr_ec_key_t *wickr_ec_key_create(wickr_ec_curve_t curve, wickr_buffer_t *pub_
     }
     
     wickr_ec_key_t *new_key = wickr_alloc_zero(sizeof(wickr_ec_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->curve = curve;
     new_key->pub_data = pub_data;
     new_key->pri_data = pri_data;
@@ -40,7 +45,14 @@ wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *source)
         }
     }
     
-    return wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    wickr_ec_key_t *copy = wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy_zero(&pub_key_copy);
+        wickr_buffer_destroy_zero(&pri_key_copy);
+    }
+    
+    return copy;
 }
 
 wickr_buffer_t *wickr_ec_key_get_pubdata_fixed_len(const wickr_ec_key_t *key)
-- 
2.43.0


From b8dc2d6d206d52f990c8eec31cb591e5f0577b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 39/70] fix: report a digest whose result could not be
 allocated

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 2ae7806..ad90394 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -668,6 +668,11 @@ wickr_buffer_t *openssl_sha2(const wickr_buffer_t *buffer, const wickr_buffer_t
     
     wickr_buffer_t *hash_result = wickr_buffer_create_empty_zero(mode.size);
     
+    if (!hash_result) {
+        EVP_MD_CTX_destroy(c);
+        return NULL;
+    }
+    
     if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
         wickr_buffer_destroy(&hash_result);
         EVP_MD_CTX_destroy(c);
-- 
2.43.0


From d2c62291a54f068b2003a1b800a4b244537b502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 40/70] fix: release key derivation parts when a result cannot
 be allocated

---
 src/wickrcrypto/src/kdf.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index cd5cff4..21cf5d1 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -122,7 +122,13 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_with_buffer(const wickr_buffer_t *buffer
         return NULL;
     }
     
-    return wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    wickr_kdf_meta_t *meta = wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    
+    if (!meta) {
+        wickr_buffer_destroy(&salt_buffer);
+    }
+    
+    return meta;
 }
 
 wickr_buffer_t *wickr_kdf_meta_serialize(const wickr_kdf_meta_t *meta)
@@ -164,7 +170,14 @@ wickr_kdf_meta_t *wickr_kdf_meta_copy(const wickr_kdf_meta_t *source)
         return NULL;
     }
     
-    return wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    wickr_kdf_meta_t *copy = wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&salt_copy);
+        wickr_buffer_destroy(&info_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_meta_destroy(wickr_kdf_meta_t **meta)
@@ -216,7 +229,14 @@ wickr_kdf_result_t *wickr_kdf_result_copy(const wickr_kdf_result_t *source)
         return NULL;
     }
     
-    return wickr_kdf_result_create(meta_copy, hash_copy);
+    wickr_kdf_result_t *copy = wickr_kdf_result_create(meta_copy, hash_copy);
+    
+    if (!copy) {
+        wickr_kdf_meta_destroy(&meta_copy);
+        wickr_buffer_destroy_zero(&hash_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_result_destroy(wickr_kdf_result_t **result)
@@ -311,6 +331,7 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     wickr_buffer_t *passphrase_final = wickr_buffer_create_empty_zero(passphrase->length + 1);
     
     if (!wickr_buffer_modify_section(passphrase_final, passphrase->bytes, 0, passphrase->length)) {
+        wickr_buffer_destroy(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
@@ -471,7 +492,14 @@ wickr_kdf_result_t *wickr_perform_kdf_meta(const wickr_kdf_meta_t *existing_meta
         return NULL;
     }
     
-    return wickr_kdf_result_create(result_meta, hash_output);
+    wickr_kdf_result_t *result = wickr_kdf_result_create(result_meta, hash_output);
+    
+    if (!result) {
+        wickr_kdf_meta_destroy(&result_meta);
+        wickr_buffer_destroy_zero(&hash_output);
+    }
+    
+    return result;
 }
 
 const wickr_kdf_algo_t *wickr_hkdf_algo_for_digest(wickr_digest_t digest)
-- 
2.43.0


From 6c01ab616d0ef632fd49eb99809951e49f69c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 41/70] fix: report a fingerprint that could not be combined or
 encoded

---
 src/wickrcrypto/src/fingerprint.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/fingerprint.c b/src/wickrcrypto/src/fingerprint.c
index 3e45b84..b15b5bd 100644
--- a/src/wickrcrypto/src/fingerprint.c
+++ b/src/wickrcrypto/src/fingerprint.c
@@ -55,6 +55,7 @@ static wickr_fingerprint_t *__wickr_fingerprint_sha512_combine(wickr_crypto_engi
     }
     
     wickr_buffer_t *concat_buffer = NULL;
+    bool is_equal = true;
     
     /* Order the input fingerprints in a consistent way so that outputs are consistent
        regardless of input order */
@@ -64,6 +65,8 @@ static wickr_fingerprint_t *__wickr_fingerprint_sha512_combine(wickr_crypto_engi
             continue;
         }
         
+        is_equal = false;
+        
         if (f1->data->bytes[i] > f2->data->bytes[i]) {
             concat_buffer = wickr_buffer_concat(f1->data, f2->data);
             break;
@@ -76,7 +79,7 @@ static wickr_fingerprint_t *__wickr_fingerprint_sha512_combine(wickr_crypto_engi
     }
     
     /* Both inputs are the same fingerprint, so either order produces the same output */
-    if (!concat_buffer) {
+    if (is_equal) {
         concat_buffer = wickr_buffer_concat(f1->data, f2->data);
     }
     
@@ -186,6 +189,10 @@ static wickr_buffer_t *__wickr_fingerprint_encode_for_output_mode(const wickr_fi
     
     wickr_buffer_t *encoded_fingerprint_data = enc_func(fingerprint->data);
     
+    if (!encoded_fingerprint_data) {
+        return NULL;
+    }
+    
     if (output_mode == FINGERPRINT_OUTPUT_SHORT) {
         size_t short_length = encoded_fingerprint_data->length / 2;
         
-- 
2.43.0


From 6d45711f88373558d3f48f1afa928935e9254172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 42/70] fix: report a key exchange that could not be allocated

---
 src/wickrcrypto/src/key_exchange.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/key_exchange.c b/src/wickrcrypto/src/key_exchange.c
index b61bfeb..ce7e375 100644
--- a/src/wickrcrypto/src/key_exchange.c
+++ b/src/wickrcrypto/src/key_exchange.c
@@ -16,6 +16,11 @@ wickr_key_exchange_t *wickr_key_exchange_create(wickr_buffer_t *exchange_id,
     }
     
     wickr_key_exchange_t *new_exchange = wickr_alloc_zero(sizeof(wickr_key_exchange_t));
+    
+    if (!new_exchange) {
+        return NULL;
+    }
+    
     new_exchange->exchange_id = exchange_id;
     new_exchange->key_id = key_id;
     new_exchange->exchange_ciphertext = exchange_ciphertext;
-- 
2.43.0


From 2b114b73811e1bfbfd85e9e043c5bd9bfa019563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 43/70] fix: report packet metadata that could not be allocated

---
 src/wickrcrypto/src/packet_meta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/packet_meta.c b/src/wickrcrypto/src/packet_meta.c
index 4262b87..b0fe8c8 100644
--- a/src/wickrcrypto/src/packet_meta.c
+++ b/src/wickrcrypto/src/packet_meta.c
@@ -9,6 +9,11 @@ wickr_packet_meta_t *wickr_packet_meta_create(wickr_ephemeral_info_t ephemeralit
     }
     
     wickr_packet_meta_t *new_packet_meta = wickr_alloc_zero(sizeof(wickr_packet_meta_t));
+    
+    if (!new_packet_meta) {
+        return NULL;
+    }
+    
     new_packet_meta->channel_tag = channel_tag;
     new_packet_meta->content_type = content_type;
     new_packet_meta->ephemerality_settings = ephemerality_settings;
-- 
2.43.0


From 56ec182a08661b22050fb0626a50bd5a0a12d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 44/70] fix: report storage keys that could not be serialized

---
 src/wickrcrypto/src/storage.c      | 5 +++++
 src/wickrcrypto/src/storage_priv.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/storage.c b/src/wickrcrypto/src/storage.c
index 1bf93a0..7b6c078 100644
--- a/src/wickrcrypto/src/storage.c
+++ b/src/wickrcrypto/src/storage.c
@@ -58,6 +58,11 @@ wickr_buffer_t *wickr_storage_keys_serialize(const wickr_storage_keys_t *keys)
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_storage_keys_to_proto(keys);
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     size_t buffer_size = wickr__proto__storage_keys__get_packed_size(proto_keys);
     wickr_buffer_t *concat_buffer = wickr_buffer_create_empty(buffer_size);
     
diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index ef5cd62..c517010 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -23,6 +23,11 @@ Wickr__Proto__StorageKeys *wickr_storage_keys_to_proto(const wickr_storage_keys_
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_alloc_zero(sizeof(Wickr__Proto__StorageKeys));
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     wickr__proto__storage_keys__init(proto_keys);
     proto_keys->version = CURRENT_STORAGE_KEY_VERSION;
     
-- 
2.43.0


From fea1dd5da5b365c48229e0c2b5f2137808794eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 45/70] fix: do not copy an identity without its signature

---
 src/wickrcrypto/src/identity.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index e215af8..171f9e1 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -91,6 +91,12 @@ wickr_identity_t *wickr_identity_copy(const wickr_identity_t *source)
     
     wickr_ecdsa_result_t *sig_copy = wickr_ecdsa_result_copy(source->signature);
     
+    if (source->signature && !sig_copy) {
+        wickr_buffer_destroy(&identifier_copy);
+        wickr_ec_key_destroy(&sig_key_copy);
+        return NULL;
+    }
+    
     wickr_identity_t *copy = wickr_identity_create(source->type, identifier_copy, sig_key_copy, sig_copy);
     
     if (!copy) {
-- 
2.43.0


From 288b846d7f29967f79c12a65f7addf24e56a8963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 46/70] fix: report a packet whose payload or signature could
 not be serialized

---
 src/wickrcrypto/src/protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index a9febac..96fe645 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -271,6 +271,11 @@ wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t
     
     wickr_buffer_t *enc_payload_bytes = wickr_cipher_result_serialize(enc_payload);
     
+    if (!enc_payload_bytes) {
+        wickr_buffer_destroy(&enc_header_bytes);
+        return NULL;
+    }
+    
     proto_packet.enc_header.data = enc_header_bytes->bytes;
     proto_packet.enc_header.len = enc_header_bytes->length;
     proto_packet.enc_payload.data = enc_payload_bytes->bytes;
@@ -396,6 +401,7 @@ wickr_buffer_t *wickr_packet_serialize(const wickr_packet_t *packet)
     wickr_buffer_t *sig_data = wickr_ecdsa_result_serialize(packet->signature);
     
     if (!sig_data || sig_data->length != packet->signature->curve.signature_size) {
+        wickr_buffer_destroy(&sig_data);
         return NULL;
     }
     
-- 
2.43.0


From a3df859ab399dfdc5997ddb4c0cdc1865b9859e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 47/70] fix: report key exchanges that could not be allocated

---
 src/wickrcrypto/src/protocol.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 96fe645..7e5339b 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -620,6 +620,10 @@ wickr_packet_t *wickr_packet_create_from_components(const wickr_crypto_engine_t
     
     wickr_exchange_array_t *exchange_array = wickr_exchange_array_new(recipient_count);
     
+    if (!exchange_array) {
+        return NULL;
+    }
+    
     for (int i = 0; i < recipient_count; i++) {
         
         wickr_node_t *one_node = wickr_node_array_fetch_item(recipients, i);
-- 
2.43.0


From 7d9f3fbe482faa5fa842c794c85dc538a697298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 48/70] fix: do not copy a parse or decode result without its
 contents

---
 src/wickrcrypto/src/protocol.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 7e5339b..fbaa481 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -498,7 +498,14 @@ wickr_parse_result_t *wickr_parse_result_copy(const wickr_parse_result_t *source
     wickr_cipher_result_t *enc_payload_copy = wickr_cipher_result_copy(source->enc_payload);
     wickr_key_exchange_t *key_exchange_copy = wickr_key_exchange_copy(source->key_exchange);
     
-    wickr_parse_result_t *copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
+    wickr_parse_result_t *copy = NULL;
+    
+    /* A member that is present but could not be copied fails the copy as a whole */
+    if ((header_copy || !source->key_exchange_set) &&
+        (enc_payload_copy || !source->enc_payload) &&
+        (key_exchange_copy || !source->key_exchange)) {
+        copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
+    }
     
     if (!copy) {
         wickr_key_exchange_set_destroy(&header_copy);
@@ -557,10 +564,16 @@ wickr_decode_result_t *wickr_decode_result_copy(const wickr_decode_result_t *res
     wickr_payload_t *payload_copy = wickr_payload_copy(result->decrypted_payload);
     wickr_cipher_key_t *cipher_key_copy = wickr_cipher_key_copy(result->payload_key);
     
-    wickr_decode_result_t *copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
+    wickr_decode_result_t *copy = NULL;
+    
+    /* A member that is present but could not be copied fails the copy as a whole */
+    if ((payload_copy || !result->decrypted_payload) && (cipher_key_copy || !result->payload_key)) {
+        copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
+    }
     
     if (!copy) {
         wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
     }
     
     return copy;
-- 
2.43.0


From 4e02b8b5cc9ff3af0b5def9794311af3d236ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 49/70] fix: report a stream or stream key that could not be
 allocated or serialized

---
 src/wickrcrypto/src/stream_ctx.c      | 1 +
 src/wickrcrypto/src/stream_key.c      | 2 +-
 src/wickrcrypto/src/stream_key_priv.c | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index fcebf48..6aab015 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -23,6 +23,7 @@ wickr_stream_ctx_t *wickr_stream_ctx_create(const wickr_crypto_engine_t engine,
     wickr_stream_ctx_t *stream_cipher = wickr_alloc_zero(sizeof(wickr_stream_ctx_t));
     
     if (!stream_cipher) {
+        wickr_stream_iv_destroy(&iv_factory);
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/stream_key.c b/src/wickrcrypto/src/stream_key.c
index 04a339e..ab8979e 100644
--- a/src/wickrcrypto/src/stream_key.c
+++ b/src/wickrcrypto/src/stream_key.c
@@ -110,7 +110,7 @@ wickr_buffer_t *wickr_stream_key_serialize(const wickr_stream_key_t *key)
     
     Wickr__Proto__StreamKey *proto_key = wickr_stream_key_to_proto(key);
     
-    if (!key) {
+    if (!proto_key) {
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index 3ee86d0..57c0edf 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -35,6 +35,7 @@ Wickr__Proto__StreamKey *wickr_stream_key_to_proto(const wickr_stream_key_t *key
     
     if (!wickr_buffer_to_protobytes(&proto->cipher_key, key_buffer)) {
         wickr_buffer_destroy_zero(&key_buffer);
+        wickr_free(proto);
         return NULL;
     }
     
-- 
2.43.0


From d1ad42a505c5ccefad830f8691276a7123c5a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 50/70] fix: release the identity chain of a node that cannot
 be serialized

---
 src/wickrcrypto/src/node_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index b2064d4..0ed444f 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -41,6 +41,7 @@ Wickr__Proto__Node *wickr_node_to_proto(const wickr_node_t *node)
     
     if (!proto_node) {
         wickr_ephemeral_keypair_proto_free(ephemeral_keypair);
+        wickr_identity_chain_proto_free(identity_chain);
         return NULL;
     }
     
-- 
2.43.0


From 7885cb1333cf0630b9c57841c751be34a7b72f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 51/70] fix: release everything of a context that cannot be
 created

---
 src/wickrcrypto/src/wickr_ctx.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index 5064b2b..ddf7b31 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -221,12 +221,17 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_identity_chain_t *new_id_chain = wickr_identity_chain_create(root_identity, new_node_identity);
     
-    if (!new_id_chain || !wickr_identity_chain_validate(new_id_chain, &engine)) {
+    if (!new_id_chain) {
         wickr_identity_destroy(&new_node_identity);
         wickr_identity_destroy(&root_identity);
         return NULL;
     }
     
+    if (!wickr_identity_chain_validate(new_id_chain, &engine)) {
+        wickr_identity_chain_destroy(&new_id_chain);
+        return NULL;
+    }
+    
     wickr_storage_keys_t *new_storage_keys = wickr_root_keys_localize(root_keys, &engine, dev_info);
     
     if (!new_storage_keys) {
@@ -260,7 +265,7 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_root_keys_t *root_keys_copy = wickr_root_keys_copy(root_keys);
     
-    if (!root_keys) {
+    if (!root_keys_copy) {
         wickr_ctx_destroy(&ctx);
         wickr_cipher_key_destroy(&recovery_key);
         return NULL;
@@ -401,6 +406,7 @@ wickr_ctx_t *wickr_ctx_create(const wickr_crypto_engine_t engine, wickr_dev_info
     wickr_ctx_t *new_ctx = wickr_alloc_zero(sizeof(wickr_ctx_t));
     
     if (!new_ctx) {
+        wickr_cipher_key_destroy(&packet_header_key);
         return NULL;
     }
     
-- 
2.43.0


From f2402a726dcbe59827ebbf4bcc833e825676fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 52/70] fix: release the parts of a handshake packet that
 cannot be allocated

---
 .../src/transport_handshake_priv.c            | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index 6591cf8..7efa1a5 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -26,13 +26,8 @@ Wickr__Proto__HandshakeV1__Seed *wickr_proto_handshake_seed_create(const wickr_i
     seed->has_identity_required = true;
     seed->identity_required = needs_remote_identity;
     
-    if (!wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
-        wickr_free(seed);
-        return NULL;
-    }
-    
-    if (!seed->id_chain) {
-        wickr_free(seed);
+    if (!seed->id_chain || !wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
+        wickr_proto_handshake_seed_free(seed);
         return NULL;
     }
     
@@ -131,13 +126,9 @@ Wickr__Proto__HandshakeV1__Response *wickr_proto_handshake_response_create(const
         }
     }
     
-    if (!wickr_buffer_to_protobytes(&response->ephemeral_pubkey, ephemeral_pubkey)) {
-        wickr_free(response);
-        return NULL;
-    }
-    
-    if (!wickr_buffer_to_protobytes(&response->encrypted_response_data, encrypted_response_data)) {
-        wickr_free(response);
+    if (!wickr_buffer_to_protobytes(&response->ephemeral_pubkey, ephemeral_pubkey) ||
+        !wickr_buffer_to_protobytes(&response->encrypted_response_data, encrypted_response_data)) {
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
-- 
2.43.0


From cd758558edd88ee19d9ade456458aaad3c035a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 53/70] fix: fail a handshake whose transcript could not be
 recorded

---
 src/wickrcrypto/src/transport_handshake.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 17321bf..39fcacb 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -241,7 +241,11 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     }
     
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, packet_num, handshake_pkt->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, packet_num, handshake_pkt->network_buffer, true)) { //TODO: Use hash builder instead of array
+        wickr_transport_packet_destroy(&handshake_pkt);
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return NULL;
+    }
     
     return handshake_pkt;
 }
@@ -379,7 +383,10 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
                                                          const wickr_transport_packet_t *packet)
 {
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, 1, packet->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, 1, packet->network_buffer, true)) { //TODO: Use hash builder instead of array
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return;
+    }
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
@@ -510,7 +517,10 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
                                                                              const wickr_transport_packet_t *packet)
 {
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, 0, packet->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, 0, packet->network_buffer, true)) { //TODO: Use hash builder instead of array
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return NULL;
+    }
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-- 
2.43.0


From d32eea60faac40b2e9f63f77b480ef058032bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 54/70] fix: fail a handshake that cannot ask for its remote
 identity to be verified

---
 src/wickrcrypto/src/transport_handshake.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 39fcacb..05e9634 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -739,7 +739,11 @@ wickr_transport_packet_t *wickr_transport_handshake_process(wickr_transport_hand
         
         wickr_identity_chain_t *identity_chain_copy = wickr_identity_chain_copy(handshake->remote_identity);
         
-        if (handshake->status == TRANSPORT_HANDSHAKE_STATUS_FAILED || identity_chain_copy == NULL) {
+        /* The remote identity can't be verified without asking for it */
+        if (!identity_chain_copy) {
+            handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+            wickr_transport_packet_destroy(&handshake->pending_identity_verify_packet);
+            wickr_transport_root_key_destroy(&handshake->root_key);
             return NULL;
         }
         
-- 
2.43.0


From a740792e1915b51486832d3de89ba41b518a58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 55/70] fix: do not start a handshake without the remote
 identity it is meant for

---
 src/wickrcrypto/src/transport_ctx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index e8a4d4d..8f26b62 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -345,6 +345,12 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
     wickr_identity_chain_t *local_copy = wickr_identity_chain_copy(ctx->local_identity);
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
+    /* Without its copy the handshake would not know that the remote identity has to be this one */
+    if (!remote_copy && ctx->remote_identity) {
+        wickr_identity_chain_destroy(&local_copy);
+        return NULL;
+    }
+    
     wickr_transport_handshake_t *handshake = wickr_transport_handshake_create(ctx->engine,
                                                                               local_copy,
                                                                               remote_copy,
-- 
2.43.0


From a9fa37b1bd6b465457ce112beeff09a1d328f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 56/70] fix: do not activate a transport that failed while its
 remote identity was verified

---
 src/wickrcrypto/src/transport_ctx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 8f26b62..6b9e21f 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -294,6 +294,12 @@ static void __wickr_transport_ctx_advance_handshake(wickr_transport_ctx_t *ctx,
         return;
     }
     
+    /* The transport may have failed while the remote identity was verified, and stays that way */
+    if (ctx->status == TRANSPORT_STATUS_ERROR) {
+        wickr_transport_packet_destroy(&volley_packet);
+        return;
+    }
+    
     if (volley_packet) {
         wickr_buffer_destroy(&ctx->pending_volley);
         ctx->pending_volley = wickr_transport_packet_serialize(volley_packet);
-- 
2.43.0


From eb51891aa21c74427e395fc8b1e8568be6317314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 57/70] fix: report a file that could not be encrypted or
 decrypted for lack of memory

---
 src/wickrcrypto/src/openssl_suite.c | 38 ++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index ad90394..bc4d464 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1269,6 +1269,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(key->cipher, iv_f, NULL, auth_tag);
         
+        if (!cipher_result) {
+            wickr_buffer_destroy(&iv_f);
+            wickr_buffer_destroy(&auth_tag);
+            return false;
+        }
+        
         wickr_buffer_t *serialized = wickr_cipher_result_serialize(cipher_result);
         if (!serialized)
             goto process_error;
@@ -1318,6 +1324,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         // Use a 4kb block size
         unsigned char plainBuffer[4096];
         cipherBuffer = (unsigned char *)wickr_alloc(sizeof(plainBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        if (!cipherBuffer) {
+            goto process_error;
+        }
         int outlength = 0;
         
         for (;;) {
@@ -1365,15 +1374,18 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         // Complete the saving of data to the file
         serialized = wickr_cipher_result_serialize(cipher_result);
-        if (serialized) {
-            //Seek to the position that the Tag zeros start in the file so we can fill in the tag
-            if (fseek(out_file, 0, SEEK_SET) != 0) {
-                goto process_error;
-            }
-            size_t bytes_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
-            if (bytes_written != serialized->length) {
-                goto process_error;
-            }
+        if (!serialized) {
+            goto process_error;
+        }
+        
+        //Seek to the position that the Tag zeros start in the file so we can fill in the tag
+        if (fseek(out_file, 0, SEEK_SET) != 0) {
+            goto process_error;
+        }
+        
+        num_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
+        if (num_written != serialized->length) {
+            goto process_error;
         }
         
         /* Data that is still buffered may fail to be written */
@@ -1448,6 +1460,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(cipher_buffer);
         
+        if (!cipher_result) {
+            wickr_buffer_destroy(&cipher_buffer);
+            return false;
+        }
+        
         unsigned char *plainBuffer = NULL;
         const EVP_CIPHER *cipher = __openssl_get_cipher_mode(cipher_result->cipher);
         if (!cipher) {
@@ -1499,6 +1516,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         unsigned char cipherBuffer[4096];
         plainBuffer = wickr_alloc(sizeof(cipherBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        if (!plainBuffer) {
+            goto process_error;
+        }
         int outlength = 0;
         
         for (;;) {
-- 
2.43.0


From 7e9c53e82f187dc0211a372bbe58e717c3e8e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 58/70] fix: remove the temporary file of a file operation that
 cannot start

---
 src/wickrcrypto/src/openssl_file_suite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 1c154e3..b5b6d4f 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -133,6 +133,7 @@ process_error:
     }
     if (destinationHandle) {
         fclose(destinationHandle);
+        remove(tempPath);
     }
     if (tempPath) {
         wickr_free(tempPath);
-- 
2.43.0


From d9504bf4c699d43da42dffb2a034b84c58f78b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 59/70] fix: the Java bindings release the native copy of every
 byte array passed or returned

---
 src/wickrcrypto/swig/buffer_java.i | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/swig/buffer_java.i b/src/wickrcrypto/swig/buffer_java.i
index 8418249..0baa24c 100644
--- a/src/wickrcrypto/swig/buffer_java.i
+++ b/src/wickrcrypto/swig/buffer_java.i
@@ -15,6 +15,13 @@
   
 %}
 
+%typemap(freearg) const wickr_buffer_t *
+%{
+  if ($1 != NULL) {
+    (*jenv)->ReleaseByteArrayElements(jenv,$input,(jbyte *)temp$argnum.bytes,JNI_ABORT);
+  }
+%}
+
 %typemap(in) wickr_buffer_t * ( wickr_buffer_t * )
 %{
 
@@ -22,6 +29,7 @@
     jbyte *bytes = (*jenv)->GetByteArrayElements(jenv,$input,0);
     size_t length = (*jenv)->GetArrayLength(jenv,$input);
     $1 = wickr_buffer_create((uint8_t *)bytes, length);
+    (*jenv)->ReleaseByteArrayElements(jenv,$input,bytes,JNI_ABORT);
   }
   
 %}
@@ -33,7 +41,7 @@
     jsize returnDataL = (jsize)result->length;
     jbyteArray returnDataJ = (*jenv)->NewByteArray(jenv, returnDataL);
     (*jenv)->SetByteArrayRegion(jenv,returnDataJ,0,returnDataL,returnDataC);
-    return returnDataJ;
+    $result = returnDataJ;
   }
 %}
 
-- 
2.43.0


From c0b5cd7deec614457718a0c1020f3337aa1044a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 60/70] fix: the Java bindings free a byte array copy that no
 object took over

---
 src/wickrcrypto/swig/buffer_java.i | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wickrcrypto/swig/buffer_java.i b/src/wickrcrypto/swig/buffer_java.i
index 0baa24c..4966f61 100644
--- a/src/wickrcrypto/swig/buffer_java.i
+++ b/src/wickrcrypto/swig/buffer_java.i
@@ -45,6 +45,14 @@
   }
 %}
 
+/* A buffer passed this way belongs to the object that the call returns, so it is given back when there is none */
+%typemap(freearg) wickr_buffer_t *
+%{
+  if (!result) {
+    wickr_buffer_destroy(&$1);
+  }
+%}
+
 /* These 3 typemaps tell SWIG what JNI and Java types to use */
 %typemap(jni) wickr_buffer_t * "jbyteArray"
 %typemap(jtype) wickr_buffer_t * "byte[]"
-- 
2.43.0


From f03cf7bf4893456b21f0f8fa09bcd0827a1d4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 61/70] fix: the bindings of context generation do not leak the
 buffers they only read

---
 src/wickrcrypto/swig/wickr_ctx.i | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index 0b0ab5f..9938b28 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -217,29 +217,29 @@
     %newobject import_recovery_key_passphrase;
     %newobject import_recovery;
     
-	static wickr_ctx_gen_result_t *gen_new(wickr_dev_info_t *dev_info,wickr_buffer_t *identifier) {
+	static wickr_ctx_gen_result_t *gen_new(wickr_dev_info_t *dev_info, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_new(engine, dev_info, identifier);
+		return wickr_ctx_gen_new(engine, dev_info, (wickr_buffer_t *)identifier);
 	}
 
-	static wickr_ctx_gen_result_t *gen_new_with_sig_key(wickr_dev_info_t *dev_info, wickr_ec_key_t *sig_key, wickr_buffer_t *identifier) {
+	static wickr_ctx_gen_result_t *gen_new_with_sig_key(wickr_dev_info_t *dev_info, wickr_ec_key_t *sig_key, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_new_with_sig_key(engine, dev_info, sig_key, identifier);
+		return wickr_ctx_gen_new_with_sig_key(engine, dev_info, sig_key, (wickr_buffer_t *)identifier);
 	}
 
-	static wickr_ctx_gen_result_t *gen_with_root_keys(wickr_dev_info_t *dev_info, wickr_root_keys_t *root_keys, wickr_buffer_t *identifier) {
+	static wickr_ctx_gen_result_t *gen_with_root_keys(wickr_dev_info_t *dev_info, wickr_root_keys_t *root_keys, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
+		return wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, (wickr_buffer_t *)identifier);
     }
 
-    static wickr_ctx_gen_result_t *gen_with_passphrase(wickr_dev_info_t *dev_info, wickr_buffer_t *exported_recovery_key, wickr_buffer_t *passphrase, wickr_buffer_t *recovery_data, wickr_buffer_t *identifier) {
+    static wickr_ctx_gen_result_t *gen_with_passphrase(wickr_dev_info_t *dev_info, const wickr_buffer_t *exported_recovery_key, const wickr_buffer_t *passphrase, const wickr_buffer_t *recovery_data, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_with_passphrase(engine, dev_info, exported_recovery_key, passphrase, recovery_data, identifier);
+		return wickr_ctx_gen_with_passphrase(engine, dev_info, (wickr_buffer_t *)exported_recovery_key, (wickr_buffer_t *)passphrase, (wickr_buffer_t *)recovery_data, (wickr_buffer_t *)identifier);
     }
 
-    static wickr_ctx_gen_result_t *gen_with_recovery(wickr_dev_info_t *dev_info, wickr_buffer_t *recovery_data, wickr_cipher_key_t *recovery_key, wickr_buffer_t *identifier) {
+    static wickr_ctx_gen_result_t *gen_with_recovery(wickr_dev_info_t *dev_info, const wickr_buffer_t *recovery_data, wickr_cipher_key_t *recovery_key, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_with_recovery(engine, dev_info, recovery_data, recovery_key, identifier);
+		return wickr_ctx_gen_with_recovery(engine, dev_info, (wickr_buffer_t *)recovery_data, recovery_key, (wickr_buffer_t *)identifier);
     }
 
     wickr_buffer_t *export_recovery_key_passphrase(const wickr_buffer_t *passphrase) {
-- 
2.43.0


From 2aafe0154dd3222e59a8180fc8bbafcc035948e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 62/70] fix: the bindings own every object and buffer that a
 call creates for them

---
 src/wickrcrypto/swig/cipher.i    | 2 ++
 src/wickrcrypto/swig/eckey.i     | 2 ++
 src/wickrcrypto/swig/engine.i    | 6 ++++++
 src/wickrcrypto/swig/identity.i  | 4 ++--
 src/wickrcrypto/swig/keypairs.i  | 3 +++
 src/wickrcrypto/swig/node.i      | 3 +++
 src/wickrcrypto/swig/wickr_ctx.i | 6 +++++-
 7 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/swig/cipher.i b/src/wickrcrypto/swig/cipher.i
index 5992d40..59f1549 100644
--- a/src/wickrcrypto/swig/cipher.i
+++ b/src/wickrcrypto/swig/cipher.i
@@ -24,6 +24,8 @@
 
 %immutable;
 
+%newobject wickr_cipher_key_create;
+
 %include "wickrcrypto/cipher.h"
 
 %extend struct wickr_cipher {
diff --git a/src/wickrcrypto/swig/eckey.i b/src/wickrcrypto/swig/eckey.i
index 7e5dfc7..fa9f710 100644
--- a/src/wickrcrypto/swig/eckey.i
+++ b/src/wickrcrypto/swig/eckey.i
@@ -14,6 +14,8 @@
 
 %immutable;
 
+%newobject wickr_ec_key_get_pubdata_fixed_len;
+
 %include "wickrcrypto/eckey.h"
 
 %extend struct wickr_ec_curve {
diff --git a/src/wickrcrypto/swig/engine.i b/src/wickrcrypto/swig/engine.i
index 5d2e888..b95222c 100644
--- a/src/wickrcrypto/swig/engine.i
+++ b/src/wickrcrypto/swig/engine.i
@@ -27,8 +27,11 @@ struct wickr_crypto_engine{
     %newobject ec_sign;
     %newobject digest;
     %newobject ecdh_gen_key;
+    %newobject ecdh_gen_shared_secret;
+    %newobject kdf_full;
     %newobject kdf;
     %newobject kdf_salt;
+    %newobject kdf_salt_full;
     %newobject kdf_encrypt;
     %newobject kdf_decrypt; 
     %newobject ecdsa_to_raw;
@@ -158,4 +161,7 @@ struct wickr_crypto_engine{
 
 };
 
+%newobject wickr_crypto_engine_kdf_cipher;
+%newobject wickr_crypto_engine_kdf_decipher;
+
 %include "wickrcrypto/crypto_engine.h"
diff --git a/src/wickrcrypto/swig/identity.i b/src/wickrcrypto/swig/identity.i
index fc96136..13cd986 100644
--- a/src/wickrcrypto/swig/identity.i
+++ b/src/wickrcrypto/swig/identity.i
@@ -52,8 +52,8 @@
  %newobject sign_data;
  %newobject gen_node;
  %newobject from_buffer;
- %newobject get_fingerprint;
- %newobject get_bilateral_fingerprint;
+ %newobject fingerprint;
+ %newobject bilateral_fingerprint;
  %newobject serialize;
 
  static wickr_identity_t *from_buffer(const wickr_buffer_t *data) {
diff --git a/src/wickrcrypto/swig/keypairs.i b/src/wickrcrypto/swig/keypairs.i
index a199fe2..22ac4a2 100644
--- a/src/wickrcrypto/swig/keypairs.i
+++ b/src/wickrcrypto/swig/keypairs.i
@@ -28,6 +28,9 @@
 %ignore wickr_ephemeral_keypair_make_public;
 %ignore wickr_ephemeral_keypair_destroy;
 
+%newobject wickr_ephemeral_keypair_serialize;
+%newobject wickr_ephemeral_keypair_create_from_buffer;
+
 %include "wickrcrypto/ephemeral_keypair.h"
 
 %extend struct wickr_ephemeral_keypair {
diff --git a/src/wickrcrypto/swig/node.i b/src/wickrcrypto/swig/node.i
index 7934e29..111c9ee 100644
--- a/src/wickrcrypto/swig/node.i
+++ b/src/wickrcrypto/swig/node.i
@@ -35,6 +35,8 @@
 %ignore wickr_node_serialize;
 %ignore wickr_node_from_buffer;
 
+%newobject wickr_node_create_from_buffer;
+
 %include "wickrcrypto/node.h"
 
 %extend struct wickr_node {
@@ -44,6 +46,7 @@
 	}
 
 	%newobject from_values;
+  %newobject from_buffer;
   %newobject serialize;
 
  	static wickr_node_t *from_values(wickr_buffer_t *dev_id, wickr_identity_chain_t *id_chain, wickr_ephemeral_keypair_t *ephemeral_keypair) {
diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index 9938b28..f4b4aed 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -83,6 +83,9 @@
 %ignore wickr_parse_result_from_packet;
 %ignore wickr_decode_result_from_parse_result;
 
+%newobject wickr_key_exchange_set_encrypt;
+%newobject wickr_key_exchange_set_create_from_cipher;
+
 %include "wickrcrypto/wickr_ctx.h"
 %include "wickrcrypto/protocol.h"
 
@@ -118,7 +121,8 @@
     %newobject stateless_parse;
     %newobject decode_packet;
     %newobject from_buffer;
-    %newobject export;
+    %newobject export_passphrase;
+    %newobject serialize;
     %newobject import_from_buffer;
 
 	wickr_buffer_t *export_storage_keys(const wickr_buffer_t *passphrase);
-- 
2.43.0


From 0e1ba8788cf270a28f1893a74dd91554bd16e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 63/70] fix: an object obtained from another one through the
 bindings keeps the other one alive

---
 src/wickrcrypto/swig/cipher.i       |  13 +++
 src/wickrcrypto/swig/ecdh_cipher.i  | 132 ++++++++++++------------
 src/wickrcrypto/swig/ecdsa.i        |  13 +++
 src/wickrcrypto/swig/eckey.i        |  13 +++
 src/wickrcrypto/swig/kdf.i          |   4 +-
 src/wickrcrypto/swig/key_exchange.i | 154 ++++++++++++++--------------
 src/wickrcrypto/swig/wickr_ctx.i    |   4 +-
 7 files changed, 186 insertions(+), 147 deletions(-)

diff --git a/src/wickrcrypto/swig/cipher.i b/src/wickrcrypto/swig/cipher.i
index 59f1549..abb8f7b 100644
--- a/src/wickrcrypto/swig/cipher.i
+++ b/src/wickrcrypto/swig/cipher.i
@@ -4,6 +4,19 @@
 #include <wickrcrypto/cipher.h>	
 %}
 
+#if defined(SWIGJAVA)
+%typemap(javaout) wickr_cipher_t *cipher {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) wickr_cipher_t *cipher {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
 %ignore CIPHER_AES256_GCM;
 %ignore CIPHER_AES256_CTR;
 %ignore wickr_cipher_find;
diff --git a/src/wickrcrypto/swig/ecdh_cipher.i b/src/wickrcrypto/swig/ecdh_cipher.i
index 75f44d5..981f5fc 100644
--- a/src/wickrcrypto/swig/ecdh_cipher.i
+++ b/src/wickrcrypto/swig/ecdh_cipher.i
@@ -1,67 +1,67 @@
-%module ecdh_cipher
-
-%include engine.i
-
-%{
-#include <wickrcrypto/ecdh_cipher_ctx.h>
-%}
-
-#if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *local_key {
-  long cPtr = $jnicall;
-    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
-}
-#elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *local_key {
-  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
-    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
-  }
-}
-#endif
-
-%ignore wickr_ecdh_cipher_ctx_create;
-%ignore wickr_ecdh_cipher_ctx_create_key;
-%ignore wickr_ecdh_cipher_ctx_copy;
-%ignore wickr_ecdh_cipher_ctx_destroy;
-%ignore wickr_ecdh_cipher_ctx_cipher;
-%ignore wickr_ecdh_cipher_ctx_decipher;
-
-%immutable;
-
-%include "wickrcrypto/ecdh_cipher_ctx.h"
-
-%extend struct wickr_ecdh_cipher_ctx {
-
- ~wickr_ecdh_cipher_ctx() {
-   wickr_ecdh_cipher_ctx_destroy(&$self);
- }
-
- %newobject gen;
- %newobject from_components;
- %newobject encrypt;
- %newobject decrypt;
-
- static wickr_ecdh_cipher_ctx_t *gen(wickr_ec_curve_t curve, wickr_cipher_t cipher) {
-    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-    return wickr_ecdh_cipher_ctx_create(engine, curve, cipher);
- }
-
- static wickr_ecdh_cipher_ctx_t *from_components(wickr_ec_key_t *key, wickr_cipher_t cipher) {
-    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-    wickr_ec_key_t *key_copy = wickr_ec_key_copy(key);
-    wickr_ecdh_cipher_ctx_t *ctx = wickr_ecdh_cipher_ctx_create_key(engine, key_copy, cipher);
-    if (!ctx) {
-        wickr_ec_key_destroy(&key_copy);
-    }
-    return ctx;
- }
-
- wickr_cipher_result_t *encrypt(const wickr_buffer_t *plaintext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
-   return wickr_ecdh_cipher_ctx_cipher($self, plaintext, remote_pub, kdf_params);
- }
-
- wickr_buffer_t *decrypt(const wickr_cipher_result_t *ciphertext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
-   return wickr_ecdh_cipher_ctx_decipher($self, ciphertext, remote_pub, kdf_params);
- }
-
+%module ecdh_cipher
+
+%include engine.i
+
+%{
+#include <wickrcrypto/ecdh_cipher_ctx.h>
+%}
+
+#if defined(SWIGJAVA)
+%typemap(javaout) SWIGTYPE *local_key, wickr_crypto_engine_t *engine {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) SWIGTYPE *local_key, wickr_crypto_engine_t *engine {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
+%ignore wickr_ecdh_cipher_ctx_create;
+%ignore wickr_ecdh_cipher_ctx_create_key;
+%ignore wickr_ecdh_cipher_ctx_copy;
+%ignore wickr_ecdh_cipher_ctx_destroy;
+%ignore wickr_ecdh_cipher_ctx_cipher;
+%ignore wickr_ecdh_cipher_ctx_decipher;
+
+%immutable;
+
+%include "wickrcrypto/ecdh_cipher_ctx.h"
+
+%extend struct wickr_ecdh_cipher_ctx {
+
+ ~wickr_ecdh_cipher_ctx() {
+   wickr_ecdh_cipher_ctx_destroy(&$self);
+ }
+
+ %newobject gen;
+ %newobject from_components;
+ %newobject encrypt;
+ %newobject decrypt;
+
+ static wickr_ecdh_cipher_ctx_t *gen(wickr_ec_curve_t curve, wickr_cipher_t cipher) {
+    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+    return wickr_ecdh_cipher_ctx_create(engine, curve, cipher);
+ }
+
+ static wickr_ecdh_cipher_ctx_t *from_components(wickr_ec_key_t *key, wickr_cipher_t cipher) {
+    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+    wickr_ec_key_t *key_copy = wickr_ec_key_copy(key);
+    wickr_ecdh_cipher_ctx_t *ctx = wickr_ecdh_cipher_ctx_create_key(engine, key_copy, cipher);
+    if (!ctx) {
+        wickr_ec_key_destroy(&key_copy);
+    }
+    return ctx;
+ }
+
+ wickr_cipher_result_t *encrypt(const wickr_buffer_t *plaintext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
+   return wickr_ecdh_cipher_ctx_cipher($self, plaintext, remote_pub, kdf_params);
+ }
+
+ wickr_buffer_t *decrypt(const wickr_cipher_result_t *ciphertext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
+   return wickr_ecdh_cipher_ctx_decipher($self, ciphertext, remote_pub, kdf_params);
+ }
+
 };
\ No newline at end of file
diff --git a/src/wickrcrypto/swig/ecdsa.i b/src/wickrcrypto/swig/ecdsa.i
index 6ce40f5..5a72197 100644
--- a/src/wickrcrypto/swig/ecdsa.i
+++ b/src/wickrcrypto/swig/ecdsa.i
@@ -4,6 +4,19 @@
 #include <wickrcrypto/ecdsa.h>
 %}
 
+#if defined(SWIGJAVA)
+%typemap(javaout) SWIGTYPE *curve, SWIGTYPE *digest_mode {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) SWIGTYPE *curve, SWIGTYPE *digest_mode {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
 %ignore wickr_ecdsa_result_create;
 %ignore wickr_ecdsa_result_serialize;
 %ignore wickr_ecdsa_result_create_from_buffer;
diff --git a/src/wickrcrypto/swig/eckey.i b/src/wickrcrypto/swig/eckey.i
index fa9f710..72330cb 100644
--- a/src/wickrcrypto/swig/eckey.i
+++ b/src/wickrcrypto/swig/eckey.i
@@ -4,6 +4,19 @@
 #include <wickrcrypto/eckey.h>
 %}
 
+#if defined(SWIGJAVA)
+%typemap(javaout) SWIGTYPE *curve {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) SWIGTYPE *curve {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
 %ignore wickr_ec_key_create;
 %ignore wickr_ec_key_copy;
 %ignore wickr_ec_key_destroy;
diff --git a/src/wickrcrypto/swig/kdf.i b/src/wickrcrypto/swig/kdf.i
index 8ebd9d1..fabafb9 100644
--- a/src/wickrcrypto/swig/kdf.i
+++ b/src/wickrcrypto/swig/kdf.i
@@ -1,12 +1,12 @@
 %module kdf
 
 #if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *meta {
+%typemap(javaout) SWIGTYPE *meta, SWIGTYPE *algo {
   long cPtr = $jnicall;
     return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
 }
 #elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *meta {
+%typemap(ret) SWIGTYPE *meta, SWIGTYPE *algo {
   if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
     SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
   }
diff --git a/src/wickrcrypto/swig/key_exchange.i b/src/wickrcrypto/swig/key_exchange.i
index 2aebb97..6b3439a 100644
--- a/src/wickrcrypto/swig/key_exchange.i
+++ b/src/wickrcrypto/swig/key_exchange.i
@@ -1,78 +1,78 @@
-%module key_exchange
-
-%include engine.i
-
-%{
-#include <wickrcrypto/key_exchange.h>
-%}
-
-#if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *exchange_ciphertext {
-	long cPtr = $jnicall;
-    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
-}
-#elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *exchange_ciphertext {
-  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
-    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
-  }
-}
-#endif
-
-%ignore wickr_key_exchange_create;
-%ignore wickr_key_exchange_copy;
-%ignore wickr_key_exchange_destroy;
-%ignore wickr_exchange_array_new;
-%ignore wickr_exchange_array_set_item;
-%ignore wickr_exchange_array_fetch_item;
-%ignore wickr_exchange_array_copy;
-%ignore wickr_exchange_array_destroy;
-%ignore wickr_key_exchange_set_create;
-%ignore wickr_key_exchange_set_find;
-%ignore wickr_key_exchange_set_copy;
-%ignore wickr_key_exchange_set_destroy;
-%ignore wickr_key_exchange_set_serialize;
-%ignore wickr_key_exchange_set_create_from_buffer;
-%ignore exchanges;
-
-%immutable;
-
-%include "wickrcrypto/key_exchange.h"
-
-%extend struct wickr_key_exchange {
-
- ~wickr_key_exchange() {
-   wickr_key_exchange_destroy(&$self);
- }
-
- %newobject from_values;
-
- static wickr_key_exchange_t *from_values(wickr_buffer_t *exchange_id, uint64_t key_id, wickr_cipher_result_t *exchange_ciphertext) {
- 	wickr_cipher_result_t *ciphertext_copy = wickr_cipher_result_copy(exchange_ciphertext);
-   	wickr_key_exchange_t *exchange = wickr_key_exchange_create(exchange_id, key_id, ciphertext_copy);
-   	if (!exchange) {
-   		wickr_cipher_result_destroy(&ciphertext_copy);
-   	}
-   	return exchange;
- }
-
-};
-
-%extend struct wickr_key_exchange_set {
-
- ~wickr_key_exchange_set() {
-   wickr_key_exchange_set_destroy(&$self);
- }
-
- %newobject from_buffer;
- %newobject serialize;
-
- static wickr_key_exchange_set_t *from_buffer(const wickr_buffer_t *buffer) {
-     const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-     return wickr_key_exchange_set_create_from_buffer(&engine, buffer);
- }
-
- wickr_buffer_t *serialize();
- 
-
+%module key_exchange
+
+%include engine.i
+
+%{
+#include <wickrcrypto/key_exchange.h>
+%}
+
+#if defined(SWIGJAVA)
+%typemap(javaout) SWIGTYPE *exchange_ciphertext, SWIGTYPE *sender_pub {
+	long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) SWIGTYPE *exchange_ciphertext, SWIGTYPE *sender_pub {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
+%ignore wickr_key_exchange_create;
+%ignore wickr_key_exchange_copy;
+%ignore wickr_key_exchange_destroy;
+%ignore wickr_exchange_array_new;
+%ignore wickr_exchange_array_set_item;
+%ignore wickr_exchange_array_fetch_item;
+%ignore wickr_exchange_array_copy;
+%ignore wickr_exchange_array_destroy;
+%ignore wickr_key_exchange_set_create;
+%ignore wickr_key_exchange_set_find;
+%ignore wickr_key_exchange_set_copy;
+%ignore wickr_key_exchange_set_destroy;
+%ignore wickr_key_exchange_set_serialize;
+%ignore wickr_key_exchange_set_create_from_buffer;
+%ignore exchanges;
+
+%immutable;
+
+%include "wickrcrypto/key_exchange.h"
+
+%extend struct wickr_key_exchange {
+
+ ~wickr_key_exchange() {
+   wickr_key_exchange_destroy(&$self);
+ }
+
+ %newobject from_values;
+
+ static wickr_key_exchange_t *from_values(wickr_buffer_t *exchange_id, uint64_t key_id, wickr_cipher_result_t *exchange_ciphertext) {
+ 	wickr_cipher_result_t *ciphertext_copy = wickr_cipher_result_copy(exchange_ciphertext);
+   	wickr_key_exchange_t *exchange = wickr_key_exchange_create(exchange_id, key_id, ciphertext_copy);
+   	if (!exchange) {
+   		wickr_cipher_result_destroy(&ciphertext_copy);
+   	}
+   	return exchange;
+ }
+
+};
+
+%extend struct wickr_key_exchange_set {
+
+ ~wickr_key_exchange_set() {
+   wickr_key_exchange_set_destroy(&$self);
+ }
+
+ %newobject from_buffer;
+ %newobject serialize;
+
+ static wickr_key_exchange_set_t *from_buffer(const wickr_buffer_t *buffer) {
+     const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+     return wickr_key_exchange_set_create_from_buffer(&engine, buffer);
+ }
+
+ wickr_buffer_t *serialize();
+ 
+
 };
\ No newline at end of file
diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index f4b4aed..b6ee2fc 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -12,12 +12,12 @@
 %}
 
 #if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *dev_info, SWIGTYPE *id_chain, SWIGTYPE *storage_keys, SWIGTYPE *packet_header_key, SWIGTYPE *recovery_key, SWIGTYPE *ctx, SWIGTYPE *root_keys, SWIGTYPE *recovery_key, SWIGTYPE *packet, SWIGTYPE *sender, SWIGTYPE *parse_result, SWIGTYPE *packet_key, SWIGTYPE *encoded_packet, SWIGTYPE *signature, SWIGTYPE *header, SWIGTYPE *key_exchange, SWIGTYPE *enc_payload, SWIGTYPE *payload_key, SWIGTYPE *decrypted_payload {
+%typemap(javaout) SWIGTYPE *dev_info, SWIGTYPE *id_chain, SWIGTYPE *storage_keys, SWIGTYPE *packet_header_key, SWIGTYPE *recovery_key, SWIGTYPE *ctx, SWIGTYPE *root_keys, SWIGTYPE *recovery_key, SWIGTYPE *packet, SWIGTYPE *sender, SWIGTYPE *parse_result, SWIGTYPE *packet_key, SWIGTYPE *encoded_packet, SWIGTYPE *signature, SWIGTYPE *header, SWIGTYPE *key_exchange, SWIGTYPE *key_exchange_set, wickr_crypto_engine_t *engine, SWIGTYPE *enc_payload, SWIGTYPE *payload_key, SWIGTYPE *decrypted_payload {
 	long cPtr = $jnicall;
     return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
 }
 #elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *dev_info, SWIGTYPE *id_chain, SWIGTYPE *storage_keys, SWIGTYPE *packet_header_key, SWIGTYPE *recovery_key, SWIGTYPE *ctx, SWIGTYPE *root_keys, SWIGTYPE *recovery_key, SWIGTYPE *packet, SWIGTYPE *sender, SWIGTYPE *parse_result, SWIGTYPE *packet_key, SWIGTYPE *encoded_packet, SWIGTYPE *signature, SWIGTYPE *header, SWIGTYPE *key_exchange, SWIGTYPE *enc_payload, SWIGTYPE *payload_key, SWIGTYPE *decrypted_payload {
+%typemap(ret) SWIGTYPE *dev_info, SWIGTYPE *id_chain, SWIGTYPE *storage_keys, SWIGTYPE *packet_header_key, SWIGTYPE *recovery_key, SWIGTYPE *ctx, SWIGTYPE *root_keys, SWIGTYPE *recovery_key, SWIGTYPE *packet, SWIGTYPE *sender, SWIGTYPE *parse_result, SWIGTYPE *packet_key, SWIGTYPE *encoded_packet, SWIGTYPE *signature, SWIGTYPE *header, SWIGTYPE *key_exchange, SWIGTYPE *key_exchange_set, wickr_crypto_engine_t *engine, SWIGTYPE *enc_payload, SWIGTYPE *payload_key, SWIGTYPE *decrypted_payload {
     if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
         SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
     }
-- 
2.43.0


From 3d5b74e457db286eb2f261cefd8f512b1f943ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 64/70] fix: creating storage keys through the bindings does
 not destroy the keys of the caller when it fails

---
 src/wickrcrypto/swig/storage_keys.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/swig/storage_keys.i b/src/wickrcrypto/swig/storage_keys.i
index 26a2780..a29b163 100644
--- a/src/wickrcrypto/swig/storage_keys.i
+++ b/src/wickrcrypto/swig/storage_keys.i
@@ -44,8 +44,8 @@
    wickr_cipher_key_t *remote_copy = wickr_cipher_key_copy(remote);
    wickr_storage_keys_t *keys = wickr_storage_keys_create(local_copy, remote_copy);
    if (!keys) {
-   		wickr_cipher_key_destroy(&local);
-   		wickr_cipher_key_destroy(&remote);
+   		wickr_cipher_key_destroy(&local_copy);
+   		wickr_cipher_key_destroy(&remote_copy);
    }
    return keys;
  }
-- 
2.43.0


From 189b3cd6f3c2de267cb62e2213f06cad0710bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 65/70] fix: a key derivation that fails through the bindings
 returns nothing instead of crashing or leaking

---
 src/wickrcrypto/swig/engine.i | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/swig/engine.i b/src/wickrcrypto/swig/engine.i
index b95222c..7e8ef53 100644
--- a/src/wickrcrypto/swig/engine.i
+++ b/src/wickrcrypto/swig/engine.i
@@ -100,6 +100,9 @@ struct wickr_crypto_engine{
     static wickr_buffer_t *kdf(wickr_kdf_algo_t algo, const wickr_buffer_t *passphrase) {
       wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
       wickr_kdf_result_t *result = engine.wickr_crypto_kdf_gen(algo, passphrase);
+      if (!result) {
+        return NULL;
+      }
       wickr_buffer_t *copy_out = wickr_buffer_copy(result->hash);
       wickr_kdf_result_destroy(&result);
       return copy_out;
@@ -128,6 +131,7 @@ struct wickr_crypto_engine{
       wickr_kdf_result_t *result = engine.wickr_crypto_kdf_meta(meta_copy, passphrase);
 
       if (!result) {
+        wickr_kdf_meta_destroy(&meta_copy);
         return NULL;
       }
 
-- 
2.43.0


From 44f02b24243f1351629704501258828165e4a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 66/70] fix: the bindings free the copies of ciphers, digests
 and kdf algorithms that calls return by value

---
 src/wickrcrypto/swig/cipher.i | 1 -
 src/wickrcrypto/swig/digest.i | 1 -
 src/wickrcrypto/swig/kdf.i    | 1 -
 3 files changed, 3 deletions(-)

diff --git a/src/wickrcrypto/swig/cipher.i b/src/wickrcrypto/swig/cipher.i
index abb8f7b..64318a5 100644
--- a/src/wickrcrypto/swig/cipher.i
+++ b/src/wickrcrypto/swig/cipher.i
@@ -33,7 +33,6 @@
 %ignore wickr_cipher_result_is_valid;
 
 %nodefaultctor wickr_cipher;
-%nodefaultdtor wickr_cipher;
 
 %immutable;
 
diff --git a/src/wickrcrypto/swig/digest.i b/src/wickrcrypto/swig/digest.i
index bdd2e91..8dc4433 100644
--- a/src/wickrcrypto/swig/digest.i
+++ b/src/wickrcrypto/swig/digest.i
@@ -6,7 +6,6 @@
 
 %ignore wickr_digest_find_with_id;
 %nodefaultctor wickr_digest;
-%nodefaultdtor wickr_digest;
 
 %immutable;
 
diff --git a/src/wickrcrypto/swig/kdf.i b/src/wickrcrypto/swig/kdf.i
index fabafb9..5d6c826 100644
--- a/src/wickrcrypto/swig/kdf.i
+++ b/src/wickrcrypto/swig/kdf.i
@@ -32,7 +32,6 @@
 %ignore wickr_hkdf_algo_for_expand;
 
 %nodefaultctor wickr_kdf_algo;
-%nodefaultdtor wickr_kdf_algo;
 
 %immutable;
 
-- 
2.43.0


From 64c1a1fda4444fc81862e3b4d2ae2e1860266da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:03 +0000
Subject: [PATCH 67/70] fix: the bindings free everything a parse or decode
 result holds

---
 src/wickrcrypto/swig/wickr_ctx.i | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index b6ee2fc..84fe870 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -101,6 +101,24 @@
 	static wickr_packet_t *create_from_buffer(const wickr_buffer_t *buffer);
 }
 
+%extend struct wickr_parse_result {
+	~wickr_parse_result() {
+		wickr_parse_result_destroy(&$self);
+	}
+}
+
+%extend struct wickr_decode_result {
+	~wickr_decode_result() {
+		wickr_decode_result_destroy(&$self);
+	}
+}
+
+%extend struct wickr_ctx_packet {
+	~wickr_ctx_packet() {
+		wickr_ctx_packet_destroy(&$self);
+	}
+}
+
 %extend struct wickr_ctx {
 
 	~wickr_ctx() {
-- 
2.43.0


From 30fddd2ff27462842c8436f25d367fb5d5d125bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 68/70] fix: sets of key exchanges that the bindings encrypt or
 decrypt are freed (and the two interface files keep their line endings)

---
 src/wickrcrypto/swig/ecdh_cipher.i  | 132 +++++++++++------------
 src/wickrcrypto/swig/key_exchange.i | 157 ++++++++++++++--------------
 src/wickrcrypto/swig/wickr_ctx.i    |   3 -
 3 files changed, 146 insertions(+), 146 deletions(-)

diff --git a/src/wickrcrypto/swig/ecdh_cipher.i b/src/wickrcrypto/swig/ecdh_cipher.i
index 981f5fc..a9eafc1 100644
--- a/src/wickrcrypto/swig/ecdh_cipher.i
+++ b/src/wickrcrypto/swig/ecdh_cipher.i
@@ -1,67 +1,67 @@
-%module ecdh_cipher
-
-%include engine.i
-
-%{
-#include <wickrcrypto/ecdh_cipher_ctx.h>
-%}
-
-#if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *local_key, wickr_crypto_engine_t *engine {
-  long cPtr = $jnicall;
-    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
-}
-#elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *local_key, wickr_crypto_engine_t *engine {
-  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
-    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
-  }
-}
-#endif
-
-%ignore wickr_ecdh_cipher_ctx_create;
-%ignore wickr_ecdh_cipher_ctx_create_key;
-%ignore wickr_ecdh_cipher_ctx_copy;
-%ignore wickr_ecdh_cipher_ctx_destroy;
-%ignore wickr_ecdh_cipher_ctx_cipher;
-%ignore wickr_ecdh_cipher_ctx_decipher;
-
-%immutable;
-
-%include "wickrcrypto/ecdh_cipher_ctx.h"
-
-%extend struct wickr_ecdh_cipher_ctx {
-
- ~wickr_ecdh_cipher_ctx() {
-   wickr_ecdh_cipher_ctx_destroy(&$self);
- }
-
- %newobject gen;
- %newobject from_components;
- %newobject encrypt;
- %newobject decrypt;
-
- static wickr_ecdh_cipher_ctx_t *gen(wickr_ec_curve_t curve, wickr_cipher_t cipher) {
-    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-    return wickr_ecdh_cipher_ctx_create(engine, curve, cipher);
- }
-
- static wickr_ecdh_cipher_ctx_t *from_components(wickr_ec_key_t *key, wickr_cipher_t cipher) {
-    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-    wickr_ec_key_t *key_copy = wickr_ec_key_copy(key);
-    wickr_ecdh_cipher_ctx_t *ctx = wickr_ecdh_cipher_ctx_create_key(engine, key_copy, cipher);
-    if (!ctx) {
-        wickr_ec_key_destroy(&key_copy);
-    }
-    return ctx;
- }
-
- wickr_cipher_result_t *encrypt(const wickr_buffer_t *plaintext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
-   return wickr_ecdh_cipher_ctx_cipher($self, plaintext, remote_pub, kdf_params);
- }
-
- wickr_buffer_t *decrypt(const wickr_cipher_result_t *ciphertext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
-   return wickr_ecdh_cipher_ctx_decipher($self, ciphertext, remote_pub, kdf_params);
- }
-
+%module ecdh_cipher
+
+%include engine.i
+
+%{
+#include <wickrcrypto/ecdh_cipher_ctx.h>
+%}
+
+#if defined(SWIGJAVA)
+%typemap(javaout) SWIGTYPE *local_key, wickr_crypto_engine_t *engine {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) SWIGTYPE *local_key, wickr_crypto_engine_t *engine {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
+%ignore wickr_ecdh_cipher_ctx_create;
+%ignore wickr_ecdh_cipher_ctx_create_key;
+%ignore wickr_ecdh_cipher_ctx_copy;
+%ignore wickr_ecdh_cipher_ctx_destroy;
+%ignore wickr_ecdh_cipher_ctx_cipher;
+%ignore wickr_ecdh_cipher_ctx_decipher;
+
+%immutable;
+
+%include "wickrcrypto/ecdh_cipher_ctx.h"
+
+%extend struct wickr_ecdh_cipher_ctx {
+
+ ~wickr_ecdh_cipher_ctx() {
+   wickr_ecdh_cipher_ctx_destroy(&$self);
+ }
+
+ %newobject gen;
+ %newobject from_components;
+ %newobject encrypt;
+ %newobject decrypt;
+
+ static wickr_ecdh_cipher_ctx_t *gen(wickr_ec_curve_t curve, wickr_cipher_t cipher) {
+    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+    return wickr_ecdh_cipher_ctx_create(engine, curve, cipher);
+ }
+
+ static wickr_ecdh_cipher_ctx_t *from_components(wickr_ec_key_t *key, wickr_cipher_t cipher) {
+    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+    wickr_ec_key_t *key_copy = wickr_ec_key_copy(key);
+    wickr_ecdh_cipher_ctx_t *ctx = wickr_ecdh_cipher_ctx_create_key(engine, key_copy, cipher);
+    if (!ctx) {
+        wickr_ec_key_destroy(&key_copy);
+    }
+    return ctx;
+ }
+
+ wickr_cipher_result_t *encrypt(const wickr_buffer_t *plaintext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
+   return wickr_ecdh_cipher_ctx_cipher($self, plaintext, remote_pub, kdf_params);
+ }
+
+ wickr_buffer_t *decrypt(const wickr_cipher_result_t *ciphertext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
+   return wickr_ecdh_cipher_ctx_decipher($self, ciphertext, remote_pub, kdf_params);
+ }
+
 };
\ No newline at end of file
diff --git a/src/wickrcrypto/swig/key_exchange.i b/src/wickrcrypto/swig/key_exchange.i
index 6b3439a..15de7a1 100644
--- a/src/wickrcrypto/swig/key_exchange.i
+++ b/src/wickrcrypto/swig/key_exchange.i
@@ -1,78 +1,81 @@
-%module key_exchange
-
-%include engine.i
-
-%{
-#include <wickrcrypto/key_exchange.h>
-%}
-
-#if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *exchange_ciphertext, SWIGTYPE *sender_pub {
-	long cPtr = $jnicall;
-    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
-}
-#elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *exchange_ciphertext, SWIGTYPE *sender_pub {
-  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
-    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
-  }
-}
-#endif
-
-%ignore wickr_key_exchange_create;
-%ignore wickr_key_exchange_copy;
-%ignore wickr_key_exchange_destroy;
-%ignore wickr_exchange_array_new;
-%ignore wickr_exchange_array_set_item;
-%ignore wickr_exchange_array_fetch_item;
-%ignore wickr_exchange_array_copy;
-%ignore wickr_exchange_array_destroy;
-%ignore wickr_key_exchange_set_create;
-%ignore wickr_key_exchange_set_find;
-%ignore wickr_key_exchange_set_copy;
-%ignore wickr_key_exchange_set_destroy;
-%ignore wickr_key_exchange_set_serialize;
-%ignore wickr_key_exchange_set_create_from_buffer;
-%ignore exchanges;
-
-%immutable;
-
-%include "wickrcrypto/key_exchange.h"
-
-%extend struct wickr_key_exchange {
-
- ~wickr_key_exchange() {
-   wickr_key_exchange_destroy(&$self);
- }
-
- %newobject from_values;
-
- static wickr_key_exchange_t *from_values(wickr_buffer_t *exchange_id, uint64_t key_id, wickr_cipher_result_t *exchange_ciphertext) {
- 	wickr_cipher_result_t *ciphertext_copy = wickr_cipher_result_copy(exchange_ciphertext);
-   	wickr_key_exchange_t *exchange = wickr_key_exchange_create(exchange_id, key_id, ciphertext_copy);
-   	if (!exchange) {
-   		wickr_cipher_result_destroy(&ciphertext_copy);
-   	}
-   	return exchange;
- }
-
-};
-
-%extend struct wickr_key_exchange_set {
-
- ~wickr_key_exchange_set() {
-   wickr_key_exchange_set_destroy(&$self);
- }
-
- %newobject from_buffer;
- %newobject serialize;
-
- static wickr_key_exchange_set_t *from_buffer(const wickr_buffer_t *buffer) {
-     const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-     return wickr_key_exchange_set_create_from_buffer(&engine, buffer);
- }
-
- wickr_buffer_t *serialize();
- 
-
+%module key_exchange
+
+%include engine.i
+
+%{
+#include <wickrcrypto/key_exchange.h>
+%}
+
+#if defined(SWIGJAVA)
+%typemap(javaout) SWIGTYPE *exchange_ciphertext, SWIGTYPE *sender_pub {
+	long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) SWIGTYPE *exchange_ciphertext, SWIGTYPE *sender_pub {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
+%ignore wickr_key_exchange_create;
+%ignore wickr_key_exchange_copy;
+%ignore wickr_key_exchange_destroy;
+%ignore wickr_exchange_array_new;
+%ignore wickr_exchange_array_set_item;
+%ignore wickr_exchange_array_fetch_item;
+%ignore wickr_exchange_array_copy;
+%ignore wickr_exchange_array_destroy;
+%ignore wickr_key_exchange_set_create;
+%ignore wickr_key_exchange_set_find;
+%ignore wickr_key_exchange_set_copy;
+%ignore wickr_key_exchange_set_destroy;
+%ignore wickr_key_exchange_set_serialize;
+%ignore wickr_key_exchange_set_create_from_buffer;
+%ignore exchanges;
+
+%newobject wickr_key_exchange_set_encrypt;
+%newobject wickr_key_exchange_set_create_from_cipher;
+
+%immutable;
+
+%include "wickrcrypto/key_exchange.h"
+
+%extend struct wickr_key_exchange {
+
+ ~wickr_key_exchange() {
+   wickr_key_exchange_destroy(&$self);
+ }
+
+ %newobject from_values;
+
+ static wickr_key_exchange_t *from_values(wickr_buffer_t *exchange_id, uint64_t key_id, wickr_cipher_result_t *exchange_ciphertext) {
+ 	wickr_cipher_result_t *ciphertext_copy = wickr_cipher_result_copy(exchange_ciphertext);
+   	wickr_key_exchange_t *exchange = wickr_key_exchange_create(exchange_id, key_id, ciphertext_copy);
+   	if (!exchange) {
+   		wickr_cipher_result_destroy(&ciphertext_copy);
+   	}
+   	return exchange;
+ }
+
+};
+
+%extend struct wickr_key_exchange_set {
+
+ ~wickr_key_exchange_set() {
+   wickr_key_exchange_set_destroy(&$self);
+ }
+
+ %newobject from_buffer;
+ %newobject serialize;
+
+ static wickr_key_exchange_set_t *from_buffer(const wickr_buffer_t *buffer) {
+     const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+     return wickr_key_exchange_set_create_from_buffer(&engine, buffer);
+ }
+
+ wickr_buffer_t *serialize();
+ 
+
 };
\ No newline at end of file
diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index 84fe870..d0b20b4 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -83,9 +83,6 @@
 %ignore wickr_parse_result_from_packet;
 %ignore wickr_decode_result_from_parse_result;
 
-%newobject wickr_key_exchange_set_encrypt;
-%newobject wickr_key_exchange_set_create_from_cipher;
-
 %include "wickrcrypto/wickr_ctx.h"
 %include "wickrcrypto/protocol.h"
 
-- 
2.43.0


From 96e670982311fefd0fac6e7416338f3940db69b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:45 +0000
Subject: [PATCH 69/70] fix: copy the network buffer of a transport packet

---
 src/wickrcrypto/src/transport_packet.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index 516b4a6..9792dce 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -162,16 +162,26 @@ wickr_transport_packet_t *wickr_transport_packet_copy(const wickr_transport_pack
         return NULL;
     }
     
+    wickr_buffer_t *network_copy = wickr_buffer_copy(pkt->network_buffer);
+    
+    if (pkt->network_buffer && !network_copy) {
+        wickr_buffer_destroy(&body_copy);
+        wickr_buffer_destroy(&mac_copy);
+        return NULL;
+    }
+    
     wickr_transport_packet_t *copy =wickr_transport_packet_create(pkt->meta,
                                                                   body_copy);
     
     if (!copy) {
         wickr_buffer_destroy(&body_copy);
         wickr_buffer_destroy(&mac_copy);
+        wickr_buffer_destroy(&network_copy);
         return NULL;
     }
     
     copy->mac = mac_copy;
+    copy->network_buffer = network_copy;
     
     return copy;
 }
-- 
2.43.0


From 63d1b6f4abf8ee23b5e76bacc33c9503340f021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:21 +0000
Subject: [PATCH 70/70] fix: File operations write to a new temporary file
 instead of one that exists, which may be the source

---
 src/wickrcrypto/src/openssl_file_suite.c | 49 ++++++++++++++++--------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index b5b6d4f..e950334 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -11,6 +11,7 @@
 #include <openssl/sha.h>
 #include <openssl/ec.h>
 
+#include <errno.h>
 #include <limits.h>
 
 #include <string.h>
@@ -64,6 +65,35 @@ errno_t windowsOpenFile(FILE **fileHandle, char *fname, wchar_t *openOpts)
 
 #endif
 
+#define MAX_TEMP_FILES 1000
+
+/* Open a file for writing that does not exist yet, any file that is there already belongs to the user (it may even be the source) */
+static FILE *openNewTempFile(char *tempPath, size_t len, const char *destination) {
+    
+    FILE *handle = NULL;
+    
+    for (unsigned int i = 0; i < MAX_TEMP_FILES; i++) {
+        if (i == 0) {
+            snprintf(tempPath, len, "%s.temp", destination);
+        } else {
+            snprintf(tempPath, len, "%s.temp%u", destination, i);
+        }
+        
+#if defined(_WIN32)
+        errno_t error = windowsOpenFile(&handle, tempPath, L"wbx");
+#else
+        handle = fopen(tempPath, "wbx");
+        int error = handle ? 0 : errno;
+#endif
+        
+        if (error != EEXIST) {
+            return error == 0 ? handle : NULL;
+        }
+    }
+    
+    return NULL;
+}
+
 static AESFileOperation *createFileOperation(const char *source, const char *destination) {
     
     // Must have a source and destination file name
@@ -92,30 +122,17 @@ static AESFileOperation *createFileOperation(const char *source, const char *des
         return NULL;
     }
     
-    // Open the Destination file for writing
-    const size_t len = strlen(destination) + 6;
+    // Open a new file next to the Destination for writing
+    const size_t len = strlen(destination) + 16;
     tempPath = wickr_alloc(len);
 
     if (!tempPath)
         goto process_error;
 
-    snprintf(tempPath, len, "%s.temp", destination);
-
-#if defined(_WIN32)
-    if (windowsOpenFile(&destinationHandle, tempPath, L"wb") != 0 || !destinationHandle) {
-        goto process_error;
-    }
-#elif defined(__ANDROID__)
-    destinationHandle = fopen(tempPath, "wb");
+    destinationHandle = openNewTempFile(tempPath, len, destination);
     if (! destinationHandle) {
         goto process_error;
     }
-#else
-    destinationHandle = fopen(tempPath, "wb");
-    if (! destinationHandle) {
-        goto process_error;
-    }
-#endif
 
     returnOp = wickr_alloc_zero(sizeof(AESFileOperation));
     if (returnOp) {
-- 
2.43.0

