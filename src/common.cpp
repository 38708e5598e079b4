#include "common.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/bn.h>
#include <openssl/x509.h>
#include <openssl/obj_mac.h>

const wickr_crypto_engine_t ENG = wickr_crypto_engine_get_default();

std::string S(const wickr_buffer_t *b) { return b ? hex(b->bytes, b->length) : "null"; }

bool same(const wickr_cipher_t &a, const wickr_cipher_t &b) { return a.cipher_id == b.cipher_id && a.key_len == b.key_len && a.iv_len == b.iv_len && a.auth_tag_len == b.auth_tag_len && a.is_authenticated == b.is_authenticated; }
#define NULLS if (!a || !b) return a == b
bool same(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b) { NULLS; return same(a->cipher, b->cipher) && eq(a->key_data, b->key_data); }
bool same(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b) { NULLS; return same(a->cipher, b->cipher) && eq(a->iv, b->iv) && eq(a->cipher_text, b->cipher_text) && eq(a->auth_tag, b->auth_tag); }
bool same_pub(const wickr_ec_key_t *a, const wickr_ec_key_t *b) { NULLS; return a->curve.identifier == b->curve.identifier && eq(a->pub_data, b->pub_data); }
bool same(const wickr_ec_key_t *a, const wickr_ec_key_t *b) { NULLS; return same_pub(a, b) && eq(a->pri_data, b->pri_data); }
bool same(const wickr_ecdsa_result_t *a, const wickr_ecdsa_result_t *b) { NULLS; return a->curve.identifier == b->curve.identifier && a->digest_mode.digest_id == b->digest_mode.digest_id && eq(a->sig_data, b->sig_data); }
bool same_pub(const wickr_identity_t *a, const wickr_identity_t *b) { NULLS; return a->type == b->type && eq(a->identifier, b->identifier) && same_pub(a->sig_key, b->sig_key) && same(a->signature, b->signature); }
bool same(const wickr_identity_t *a, const wickr_identity_t *b) { NULLS; return same_pub(a, b) && same(a->sig_key, b->sig_key); }
bool same_pub(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b) { NULLS; return same_pub(a->root, b->root) && same_pub(a->node, b->node); }
bool same(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b) { NULLS; return same(a->root, b->root) && same(a->node, b->node); }
bool same_pub(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b) { NULLS; return a->identifier == b->identifier && same_pub(a->ec_key, b->ec_key) && same(a->signature, b->signature); }
bool same(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b) { NULLS; return same_pub(a, b) && same(a->ec_key, b->ec_key); }
bool same_pub(const wickr_node_t *a, const wickr_node_t *b) { NULLS; return eq(a->dev_id, b->dev_id) && same_pub(a->id_chain, b->id_chain) && same_pub(a->ephemeral_keypair, b->ephemeral_keypair); }
bool same(const wickr_node_t *a, const wickr_node_t *b) { NULLS; return same_pub(a, b) && same(a->id_chain, b->id_chain) && same(a->ephemeral_keypair, b->ephemeral_keypair); }
bool same(const wickr_kdf_algo_t &a, const wickr_kdf_algo_t &b) { return a.algo_id == b.algo_id && a.kdf_id == b.kdf_id && a.salt_size == b.salt_size && a.output_size == b.output_size && a.cost == b.cost; }
bool same(const wickr_kdf_meta_t *a, const wickr_kdf_meta_t *b) { NULLS; return same(a->algo, b->algo) && eq(a->salt, b->salt) && eq(a->info, b->info); }
bool same(const wickr_packet_meta_t *a, const wickr_packet_meta_t *b) { NULLS; return a->ephemerality_settings.ttl == b->ephemerality_settings.ttl && a->ephemerality_settings.bor == b->ephemerality_settings.bor && eq(a->channel_tag, b->channel_tag) && a->content_type == b->content_type; }
bool same(const wickr_payload_t *a, const wickr_payload_t *b) { NULLS; return same(a->meta, b->meta) && eq(a->body, b->body); }
bool same(const wickr_root_keys_t *a, const wickr_root_keys_t *b) { NULLS; return same(a->node_signature_root, b->node_signature_root) && same(a->node_storage_root, b->node_storage_root) && same(a->remote_storage_root, b->remote_storage_root); }
bool same(const wickr_storage_keys_t *a, const wickr_storage_keys_t *b) { NULLS; return same(a->local, b->local) && same(a->remote, b->remote); }
bool same(const wickr_dev_info_t *a, const wickr_dev_info_t *b) { NULLS; return eq(a->dev_salt, b->dev_salt) && eq(a->system_salt, b->system_salt) && eq(a->msg_proto_id, b->msg_proto_id) && eq(a->srv_comm_id, b->srv_comm_id); }
bool same(const wickr_stream_key_t *a, const wickr_stream_key_t *b) { NULLS; return same(a->cipher_key, b->cipher_key) && eq(a->evolution_key, b->evolution_key) && a->packets_per_evolution == b->packets_per_evolution; }
bool same(const wickr_transport_root_key_t *a, const wickr_transport_root_key_t *b) { NULLS; return eq(a->secret, b->secret) && same(a->cipher, b->cipher) && a->packets_per_evo_send == b->packets_per_evo_send && a->packets_per_evo_recv == b->packets_per_evo_recv; }
bool same(const wickr_key_exchange_t *a, const wickr_key_exchange_t *b) { NULLS; return eq(a->exchange_id, b->exchange_id) && a->key_id == b->key_id && same(a->exchange_ciphertext, b->exchange_ciphertext); }
bool same(const wickr_key_exchange_set_t *a, const wickr_key_exchange_set_t *b) {
    NULLS; if (!same_pub(a->sender_pub, b->sender_pub)) return false;
    uint32_t n = wickr_array_get_item_count(a->exchanges); if (n != wickr_array_get_item_count(b->exchanges)) return false;
    for (uint32_t i = 0; i < n; i++) if (!same(wickr_exchange_array_fetch_item(a->exchanges, i), wickr_exchange_array_fetch_item(b->exchanges, i))) return false;
    return true;
}
bool same(const wickr_packet_t *a, const wickr_packet_t *b) { NULLS; return a->version == b->version && eq(a->content, b->content) && same(a->signature, b->signature); }
bool same(const wickr_fingerprint_t *a, const wickr_fingerprint_t *b) { NULLS; return a->type == b->type && eq(a->data, b->data); }
bool same(const wickr_transport_packet_t *a, const wickr_transport_packet_t *b) {
    NULLS; if (a->meta.body_type != b->meta.body_type || a->meta.mac_type != b->meta.mac_type || !eq(a->body, b->body) || !eq(a->mac, b->mac)) return false;
    if (a->meta.body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) return a->meta.body_meta.data.sequence_number == b->meta.body_meta.data.sequence_number;
    return a->meta.body_meta.handshake.protocol_version == b->meta.body_meta.handshake.protocol_version && a->meta.body_meta.handshake.flags == b->meta.body_meta.handshake.flags;
}

// ------------------------------------------------------------------------------------------ reference implementations
namespace ref {
static const EVP_MD *md(int id) { return id == DIGEST_ID_SHA256 ? EVP_sha256() : id == DIGEST_ID_SHA384 ? EVP_sha384() : EVP_sha512(); }

// SHA-2 written from FIPS 180-4.
static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static uint64_t K512[80]; static uint64_t H512[8], H384[8]; static uint32_t H256[8];
static void sha_init() {
    // constants of SHA-512: first 64 bits of the fractional parts of cube roots of the first 80 primes; initial values from square roots.
    static bool done = false; if (done) return; done = true;
    int primes[80], n = 0; for (int p = 2; n < 80; p++) { bool ok = true; for (int i = 0; i < n && ok; i++) if (p % primes[i] == 0) ok = false; if (ok) primes[n++] = p; }
    BIGNUM *x = BN_new(), *lo = BN_new(), *hi = BN_new(), *mid = BN_new(), *pw = BN_new(), *one = BN_new(), *mask = BN_new(); BN_CTX *bc = BN_CTX_new();
    auto root = [&](int p, int k) -> uint64_t { // floor(p^(1/k) * 2^64) mod 2^64
        BN_set_word(x, p); BN_lshift(x, x, 64 * k); BN_zero(lo); BN_one(hi); BN_lshift(hi, hi, 72); BN_one(one);
        while (true) { BN_sub(mid, hi, lo); if (BN_cmp(mid, one) <= 0) break; BN_add(mid, lo, hi); BN_rshift1(mid, mid);
            BN_copy(pw, mid); for (int i = 1; i < k; i++) BN_mul(pw, pw, mid, bc);
            if (BN_cmp(pw, x) <= 0) BN_copy(lo, mid); else BN_copy(hi, mid); }
        BN_mask_bits(lo, 64); return (uint64_t)BN_get_word(lo);
    };
    for (int i = 0; i < 80; i++) K512[i] = root(primes[i], 3);
    for (int i = 0; i < 8; i++) { H512[i] = root(primes[i], 2); H256[i] = (uint32_t)(H512[i] >> 32); H384[i] = root(primes[i + 8], 2); }
    BN_free(x); BN_free(lo); BN_free(hi); BN_free(mid); BN_free(pw); BN_free(one); BN_free(mask); BN_CTX_free(bc);
}
template <class W> static Bytes sha2(const W *iv, const W *K, int rounds, const int (&R)[12], const Bytes &in, size_t outlen) {
    const size_t B = sizeof(W) * 16, L = sizeof(W) * 2; const int wb = sizeof(W) * 8;
    Bytes m = in; m.push_back(0x80); while (m.size() % B != B - L) m.push_back(0);
    for (size_t i = 0; i < L; i++) { size_t sh = (L - 1 - i); m.push_back(sh >= 8 ? 0 : (uint8_t)(((uint64_t)in.size() * 8) >> (8 * sh))); }
    auto rot = [&](W v, int r) -> W { return (W)((v >> r) | (v << (wb - r))); };
    W h[8]; for (int i = 0; i < 8; i++) h[i] = iv[i];
    std::vector<W> w(rounds);
    for (size_t o = 0; o < m.size(); o += B) {
        for (int t = 0; t < 16; t++) { W v = 0; for (size_t k = 0; k < sizeof(W); k++) v = (W)((v << 8) | m[o + t * sizeof(W) + k]); w[t] = v; }
        for (int t = 16; t < rounds; t++) { W a = w[t - 15], b = w[t - 2]; W s0 = rot(a, R[6]) ^ rot(a, R[7]) ^ (a >> R[8]), s1 = rot(b, R[9]) ^ rot(b, R[10]) ^ (b >> R[11]); w[t] = w[t - 16] + s0 + w[t - 7] + s1; }
        W v[8]; for (int i = 0; i < 8; i++) v[i] = h[i];
        for (int t = 0; t < rounds; t++) {
            W S1 = rot(v[4], R[3]) ^ rot(v[4], R[4]) ^ rot(v[4], R[5]), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
            W t1 = v[7] + S1 + ch + K[t] + w[t];
            W S0 = rot(v[0], R[0]) ^ rot(v[0], R[1]) ^ rot(v[0], R[2]), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            W t2 = S0 + mj;
            v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += v[i];
    }
    Bytes out; for (int i = 0; i < 8; i++) for (int k = (int)sizeof(W) - 1; k >= 0; k--) out.push_back((uint8_t)(h[i] >> (8 * k)));
    out.resize(outlen); return out;
}
Bytes sha(int bits, const Bytes &data) {
    sha_init();
    static const int R256[12] = {2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10}, R512[12] = {28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6};
    if (data.size() > 20000) { Bytes o(64); unsigned n = 0; EVP_Digest(data.data(), data.size(), o.data(), &n, bits == 256 ? EVP_sha256() : bits == 384 ? EVP_sha384() : EVP_sha512(), nullptr); o.resize(n); return o; }
    if (bits == 256) return sha2<uint32_t>(H256, K256, 64, R256, data, 32);
    return sha2<uint64_t>(bits == 384 ? H384 : H512, K512, 80, R512, data, bits / 8);
}
static int bits_of(int id) { return id == DIGEST_ID_SHA256 ? 256 : id == DIGEST_ID_SHA384 ? 384 : 512; }
Bytes digest(int id, const Bytes &data, const Bytes &salt) { return sha(bits_of(id), salt.empty() ? data : cat(data, salt)); }
Bytes hmac(int id, const Bytes &key, const Bytes &data) {
    int bits = bits_of(id); size_t B = bits == 256 ? 64 : 128;
    Bytes k = key.size() > B ? sha(bits, key) : key; k.resize(B, 0);
    Bytes i = k, o = k; for (auto &x : i) x ^= 0x36; for (auto &x : o) x ^= 0x5c;
    return sha(bits, cat(o, sha(bits, cat(i, data))));
}
Bytes hkdf_expand(int id, const Bytes &prk, const Bytes &info, size_t len) {
    Bytes t, out; uint8_t n = 1;
    while (out.size() < len) { Bytes d = t; d.insert(d.end(), info.begin(), info.end()); d.push_back(n++); t = hmac(id, prk, d); out.insert(out.end(), t.begin(), t.end()); if (n == 0) break; }
    out.resize(len); return out;
}
Bytes hkdf(int id, const Bytes &ikm, const Bytes &salt, const Bytes &info, size_t len) {
    Bytes s = salt.empty() ? Bytes(bits_of(id) / 8, 0) : salt;
    return hkdf_expand(id, hmac(id, s, ikm), info, len);
}

// AES-256 written from FIPS 197.
static uint8_t SB[256]; static bool aes_ready = false;
static uint8_t xt(uint8_t a) { return (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); }
static void aes_init() {
    if (aes_ready) return; aes_ready = true;
    uint8_t p = 1, q = 1;
    do { p = p ^ (uint8_t)(p << 1) ^ ((p & 0x80) ? 0x1b : 0); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09;
        uint8_t x = q ^ (uint8_t)((q << 1) | (q >> 7)) ^ (uint8_t)((q << 2) | (q >> 6)) ^ (uint8_t)((q << 3) | (q >> 5)) ^ (uint8_t)((q << 4) | (q >> 4));
        SB[p] = x ^ 0x63; } while (p != 1);
    SB[0] = 0x63;
}
struct AesKey { uint8_t rk[240]; };
static void aes_expand(AesKey &k, const uint8_t *key) {
    aes_init(); memcpy(k.rk, key, 32); uint8_t rc = 1;
    for (int i = 8; i < 60; i++) {
        uint8_t t[4]; memcpy(t, k.rk + 4 * (i - 1), 4);
        if (i % 8 == 0) { uint8_t a = t[0]; t[0] = SB[t[1]] ^ rc; t[1] = SB[t[2]]; t[2] = SB[t[3]]; t[3] = SB[a]; rc = xt(rc); }
        else if (i % 8 == 4) for (int j = 0; j < 4; j++) t[j] = SB[t[j]];
        for (int j = 0; j < 4; j++) k.rk[4 * i + j] = k.rk[4 * (i - 8) + j] ^ t[j];
    }
}
static void aes_enc(const AesKey &k, const uint8_t *in, uint8_t *out) {
    uint8_t s[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ k.rk[i];
    for (int r = 1; r <= 14; r++) {
        uint8_t t[16]; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) t[4 * c + w] = SB[s[4 * ((c + w) & 3) + w]];
        if (r < 14) for (int c = 0; c < 4; c++) { uint8_t *x = t + 4 * c, a = x[0] ^ x[1] ^ x[2] ^ x[3], x0 = x[0];
            uint8_t y0 = x[0] ^ a ^ xt(x[0] ^ x[1]), y1 = x[1] ^ a ^ xt(x[1] ^ x[2]), y2 = x[2] ^ a ^ xt(x[2] ^ x[3]), y3 = x[3] ^ a ^ xt(x[3] ^ x0); x[0] = y0; x[1] = y1; x[2] = y2; x[3] = y3; }
        for (int i = 0; i < 16; i++) s[i] = t[i] ^ k.rk[16 * r + i];
    }
    memcpy(out, s, 16);
}
Bytes aes_block(const Bytes &key, const Bytes &b) { AesKey k; aes_expand(k, key.data()); Bytes o(16); aes_enc(k, b.data(), o.data()); return o; }
static Bytes ctr(const AesKey &k, uint8_t *ctrb, const Bytes &d, bool ctr32) {
    Bytes o(d.size()); uint8_t ks[16];
    for (size_t i = 0; i < d.size(); i++) {
        if (i % 16 == 0) { aes_enc(k, ctrb, ks); for (int j = 15; j >= (ctr32 ? 12 : 0); j--) if (++ctrb[j]) break; }
        o[i] = d[i] ^ ks[i % 16];
    }
    return o;
}
Bytes aes_ctr(const Bytes &key, const Bytes &iv, const Bytes &d) { AesKey k; aes_expand(k, key.data()); uint8_t c[16]; memcpy(c, iv.data(), 16); return ctr(k, c, d, false); }
static void gmul(const uint8_t *x, const uint8_t *y, uint8_t *out) {
    uint64_t vh = 0, vl = 0, zh = 0, zl = 0; for (int i = 0; i < 8; i++) { vh = vh << 8 | y[i]; vl = vl << 8 | y[8 + i]; }
    for (int i = 0; i < 128; i++) {
        if ((x[i / 8] >> (7 - i % 8)) & 1) { zh ^= vh; zl ^= vl; }
        bool lsb = vl & 1; vl = vl >> 1 | vh << 63; vh >>= 1; if (lsb) vh ^= 0xe100000000000000ull;
    }
    for (int i = 0; i < 8; i++) { out[i] = (uint8_t)(zh >> (56 - 8 * i)); out[8 + i] = (uint8_t)(zl >> (56 - 8 * i)); }
}
void aes_gcm(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag) {
    AesKey k; aes_expand(k, key.data()); uint8_t z[16] = {0}, h[16], j0[16], e[16], c[16]; aes_enc(k, z, h);
    memcpy(j0, iv.data(), 12); j0[12] = j0[13] = j0[14] = 0; j0[15] = 1; aes_enc(k, j0, e); memcpy(c, j0, 16); c[15] = 2;
    ct = ctr(k, c, pt, true);
    uint8_t y[16] = {0};
    auto absorb = [&](const Bytes &d) { for (size_t i = 0; i < d.size(); i += 16) { for (size_t j = 0; j < 16 && i + j < d.size(); j++) y[j] ^= d[i + j]; uint8_t t[16]; gmul(y, h, t); memcpy(y, t, 16); } };
    absorb(aad); absorb(ct);
    Bytes len(16); for (int i = 0; i < 8; i++) { len[i] = (uint8_t)(((uint64_t)aad.size() * 8) >> (56 - 8 * i)); len[8 + i] = (uint8_t)(((uint64_t)ct.size() * 8) >> (56 - 8 * i)); }
    absorb(len);
    tag.assign(16, 0); for (int i = 0; i < 16; i++) tag[i] = y[i] ^ e[i];
}
Bytes base64(const Bytes &b) {
    static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Bytes o;
    for (size_t i = 0; i < b.size(); i += 3) { uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
        o.push_back(t[v >> 18]); o.push_back(t[(v >> 12) & 63]); o.push_back(i + 1 < b.size() ? t[(v >> 6) & 63] : '='); o.push_back(i + 2 < b.size() ? t[v & 63] : '='); }
    return o;
}
Bytes base32(const Bytes &b) {
    static const char *t = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"; Bytes o; uint64_t acc = 0; int n = 0;
    for (uint8_t x : b) { acc = (acc << 8 | x) & 0xffff; n += 8; while (n >= 5) { o.push_back(t[(acc >> (n - 5)) & 31]); n -= 5; } }
    if (n) o.push_back(t[(acc << (5 - n)) & 31]);
    return o;
}
Bytes hexs(const Bytes &b) { static const char *t = "0123456789abcdef"; Bytes o; for (uint8_t x : b) { o.push_back(t[x >> 4]); o.push_back(t[x & 15]); } return o; }
int digest_id(const wickr_digest_t &d) { return (int)d.digest_id; }

static EC_GROUP *grp() { static EC_GROUP *g = EC_GROUP_new_by_curve_name(NID_secp521r1); return g; }
static EC_POINT *decode(const Bytes &o) { EC_POINT *p = EC_POINT_new(grp()); if (o.empty() || EC_POINT_oct2point(grp(), p, o.data(), o.size(), nullptr) != 1 || EC_POINT_is_at_infinity(grp(), p) || EC_POINT_is_on_curve(grp(), p, nullptr) != 1) { EC_POINT_free(p); return nullptr; } return p; }
static Bytes encode(EC_POINT *p) { Bytes o(133); size_t n = EC_POINT_point2oct(grp(), p, POINT_CONVERSION_UNCOMPRESSED, o.data(), o.size(), nullptr); o.resize(n); return o; }
Bytes p521_decode(const Bytes &l) { if (l.size() < 2 || l[0] != 0) return {}; EC_POINT *p = decode(Bytes(l.begin() + 1, l.end())); if (!p) return {}; Bytes o = encode(p); EC_POINT_free(p); return o; }
Bytes p521_pub_of(const Bytes &s) { BIGNUM *k = BN_bin2bn(s.data(), (int)s.size(), nullptr); EC_POINT *p = EC_POINT_new(grp()); EC_POINT_mul(grp(), p, k, nullptr, nullptr, nullptr); Bytes o = encode(p); EC_POINT_free(p); BN_free(k); return o; }
Bytes p521_scalar(const Bytes &der) {
    // SEQUENCE { INTEGER 1, OCTET STRING key, ... }
    size_t i = 0; auto len = [&](size_t &n) { if (i >= der.size()) return false; n = der[i++]; if (n & 0x80) { int k = n & 0x7f; n = 0; while (k--) { if (i >= der.size()) return false; n = n << 8 | der[i++]; } } return true; };
    size_t n; if (der.size() < 8 || der[i++] != 0x30 || !len(n)) return {}; if (der[i++] != 2 || !len(n) || i + n + 2 > der.size()) return {}; i += n; // the version is not interpreted
    if (der[i++] != 4 || !len(n) || i + n > der.size()) return {};
    Bytes s(der.begin() + i, der.begin() + i + n); while (s.size() < 66) s.insert(s.begin(), 0); return s;
}
Bytes p521_ecdh(const Bytes &sc, const Bytes &unc) {
    EC_POINT *p = decode(unc); if (!p) return {};
    BIGNUM *k = BN_bin2bn(sc.data(), (int)sc.size(), nullptr), *x = BN_new(); EC_POINT *q = EC_POINT_new(grp());
    EC_POINT_mul(grp(), q, nullptr, p, k, nullptr); EC_POINT_get_affine_coordinates(grp(), q, x, nullptr, nullptr);
    Bytes o(66); BN_bn2binpad(x, o.data(), 66); BN_free(k); BN_free(x); EC_POINT_free(p); EC_POINT_free(q); return o;
}
// ECDSA verification from FIPS 186-4 over point arithmetic
bool p521_verify(int did, const Bytes &unc, const Bytes &data, const Bytes &rb, const Bytes &sb) {
    EC_POINT *q = decode(unc); if (!q) return false;
    BN_CTX *bc = BN_CTX_new(); BIGNUM *n = BN_new(), *r = BN_bin2bn(rb.data(), (int)rb.size(), nullptr), *s = BN_bin2bn(sb.data(), (int)sb.size(), nullptr), *w = BN_new(), *u1 = BN_new(), *u2 = BN_new(), *x = BN_new();
    EC_GROUP_get_order(grp(), n, bc); bool ok = false; Bytes h = digest(did, data); BIGNUM *z = BN_bin2bn(h.data(), (int)h.size(), nullptr); EC_POINT *p = EC_POINT_new(grp());
    if (!BN_is_zero(r) && !BN_is_zero(s) && BN_cmp(r, n) < 0 && BN_cmp(s, n) < 0 && BN_mod_inverse(w, s, n, bc)) {
        BN_mod_mul(u1, z, w, n, bc); BN_mod_mul(u2, r, w, n, bc);
        EC_POINT_mul(grp(), p, u1, q, u2, bc);
        if (!EC_POINT_is_at_infinity(grp(), p)) { EC_POINT_get_affine_coordinates(grp(), p, x, nullptr, bc); BN_nnmod(x, x, n, bc); ok = BN_cmp(x, r) == 0; }
    }
    BN_free(n); BN_free(r); BN_free(s); BN_free(w); BN_free(u1); BN_free(u2); BN_free(x); BN_free(z); EC_POINT_free(p); EC_POINT_free(q); BN_CTX_free(bc);
    return ok;
}
bool der_sig(const Bytes &d, Bytes &r, Bytes &s, size_t *used) {
    size_t i = 0; auto len = [&](size_t &n) { if (i >= d.size()) return false; n = d[i++]; if (n & 0x80) { int k = n & 0x7f; n = 0; if (k > 2) return false; while (k--) { if (i >= d.size()) return false; n = n << 8 | d[i++]; } } return true; };
    size_t n; if (d.size() < 8 || d[i++] != 0x30 || !len(n) || i + n > d.size()) return false; size_t end = i + n;
    for (Bytes *o : {&r, &s}) { if (i >= end || d[i++] != 2 || !len(n) || n == 0 || i + n > end) return false; o->assign(d.begin() + i, d.begin() + i + n); i += n; }
    if (i != end) return false; if (used) *used = end; return true;
}
bool sig_ok(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const wickr_buffer_t *data) {
    if (!s || !k || !data || !s->sig_data || !k->pub_data) return false;
    static std::map<Bytes, bool> memo; Bytes key = to(s->sig_data); key.push_back((uint8_t)s->digest_mode.digest_id); key.push_back((uint8_t)(key.size() >> 8)); key.push_back((uint8_t)key.size());
    key = cat(cat(key, to(k->pub_data)), to(data)); auto it = memo.find(key); if (it != memo.end()) return it->second;
    Bytes r, sv; size_t used = 0; Bytes der = to(s->sig_data);
    bool v = der_sig(der, r, sv, &used) && used == der.size() && p521_verify((int)s->digest_mode.digest_id, p521_decode(to(k->pub_data)), to(data), r, sv);
    if (memo.size() > 50000) memo.clear();
    return memo[key] = v;
}
bool chain_ok(const wickr_identity_chain_t *c) { return sig_ok(c->node->signature, c->root->sig_key, c->node->sig_key->pub_data); }
bool eph_ok(const wickr_node_t *n) { return n->ephemeral_keypair && sig_ok(n->ephemeral_keypair->signature, n->id_chain->node->sig_key, n->ephemeral_keypair->ec_key->pub_data); }
bool node_ok(const wickr_node_t *n) { return chain_ok(n->id_chain) && eph_ok(n); }
bool pb_parse(const Bytes &b, std::vector<PbField> &out) {
    size_t i = 0; auto vi = [&](uint64_t &v) { v = 0; for (int k = 0; k < 10; k++) { if (i >= b.size()) return false; uint8_t x = b[i++]; v |= (uint64_t)(x & 0x7f) << (7 * k); if (!(x & 0x80)) return true; } return false; };
    while (i < b.size()) { uint64_t t, v; if (!vi(t)) return false; PbField f; f.num = (uint32_t)(t >> 3); f.wire = t & 7; f.val = 0;
        if (f.wire == 0) { if (!vi(f.val)) return false; } else if (f.wire == 2) { if (!vi(v) || v > b.size() - i) return false; f.data.assign(b.begin() + i, b.begin() + i + v); i += v; } else return false;
        out.push_back(f); }
    return true;
}
Bytes pb_varint(uint64_t v) { Bytes o; do { uint8_t x = v & 0x7f; v >>= 7; o.push_back(v ? x | 0x80 : x); } while (v); return o; }
Bytes pb_bytes(uint32_t num, const Bytes &d) { return cat(cat(pb_varint(num << 3 | 2), pb_varint(d.size())), d); }
Bytes pb_uint(uint32_t num, uint64_t v) { return cat(pb_varint(num << 3), pb_varint(v)); }
} // namespace ref

// ------------------------------------------------------------------------------------------ generators
int digest_count() { return 3; }
const wickr_digest_t &digest_at(unsigned i) { static const wickr_digest_t d[3] = {DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512}; return d[i % 3]; }
wickr_digest_t gen_digest(Case &c) { return digest_at((unsigned)c.draw(2)); }
const wickr_cipher_t &gen_cipher(Case &c) { return c.draw(1) ? CIPHER_AES256_CTR : CIPHER_AES256_GCM; }
CipherKey gen_cipher_key(Case &c, const wickr_cipher_t &ci) { return CipherKey(wickr_cipher_key_create(ci, mk(c.blob(ci.key_len)))); }
CipherRes gen_cipher_result(Case &c) {
    const wickr_cipher_t &ci = gen_cipher(c); Bytes iv = c.blob(ci.iv_len), tag = c.blob(ci.auth_tag_len), ct = c.data_upto(300);
    return CipherRes(wickr_cipher_result_create(ci, mk(iv), mk(ct), ci.is_authenticated ? mk(tag) : nullptr));
}
static std::vector<wickr_ec_key_t *> &pool() { static std::vector<wickr_ec_key_t *> v; return v; }
EcKey fresh_ec_key() { return EcKey(openssl_ec_rand_key(EC_CURVE_NIST_P521)); }
static const unsigned POOL = 24;
EcKey pool_key(unsigned i) {
    auto &v = pool();
    if (v.empty()) { // fixed scalars, so that the pool is the same in every process and leaves the random source alone
        for (unsigned k = 0; k < POOL; k++) {
            Bytes seed = {'p', 'o', 'o', 'l', (uint8_t)k}; Bytes h = ref::sha(512, seed); std::string hx = k == 0 ? "1" : k == 1 ? "2" : k == 2 ? "ffffffffffffffffffffffffffffffff" : hex(h.data(), h.size(), 1000);
            if (k == 3) hx = "01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386402"; // order - 7
            v.push_back(openssl_ec_key_import_test_key(EC_CURVE_NIST_P521, hx.c_str()));
        }
    }
    return EcKey(wickr_ec_key_copy(v[i % POOL]));
}
EcKey gen_ec_key(Case &c, bool allow_fresh) { if (allow_fresh && c.chance(1, 6)) return fresh_ec_key(); return pool_key((unsigned)c.draw(POOL - 1)); }
EcKey pub_only(const wickr_ec_key_t *k) { return EcKey(wickr_ec_key_create(k->curve, wickr_buffer_copy(k->pub_data), nullptr)); }
Bytes gen_identifier(Case &c, size_t maxlen) { return c.pick({3, 1}) == 0 ? c.blob(32) : c.blob(1 + (size_t)c.edge(maxlen - 1)); }
Identity make_root(const wickr_ec_key_t *key, const Bytes &id) { return Identity(wickr_identity_create(IDENTITY_TYPE_ROOT, mk(id), wickr_ec_key_copy(key), nullptr)); }
Chain make_chain(Case &c, bool fresh) {
    EcKey rk = gen_ec_key(c, fresh), nk = gen_ec_key(c, fresh);
    Bytes rid = gen_identifier(c), nid = gen_identifier(c);
    Identity root = make_root(rk.get(), rid);
    Sig sig(wickr_identity_sign(root.get(), &ENG, nk->pub_data));
    Identity node(wickr_identity_create(IDENTITY_TYPE_NODE, mk(nid), nk.release(), sig.release()));
    return Chain(wickr_identity_chain_create(root.release(), node.release()));
}
Node make_node(const wickr_identity_chain_t *ch, const Bytes &dev, uint64_t kid, const wickr_ec_key_t *mk_) {
    Sig sig(wickr_identity_sign(ch->node, &ENG, mk_->pub_data));
    EphKey eph(wickr_ephemeral_keypair_create(kid, wickr_ec_key_copy(mk_), sig.release()));
    return Node(wickr_node_create(mk(dev), wickr_identity_chain_copy(ch), eph.release()));
}
DevInfo make_devinfo(const Bytes &sys) { View v(sys); return DevInfo(wickr_dev_info_create_new(&ENG, v)); }
DevInfo gen_devinfo(Case &c) { return make_devinfo(c.data1(64)); }
Ctx make_ctx(Case &c, const Bytes &ident, const Bytes &sys) {
    EcKey rk = gen_ec_key(c, false), nk = gen_ec_key(c, false);
    Identity root = make_root(rk.get(), ident);
    DevInfo di = make_devinfo(sys);
    Sig sig(wickr_identity_sign(root.get(), &ENG, nk->pub_data));
    Identity node(wickr_identity_create(IDENTITY_TYPE_NODE, ENG.wickr_crypto_engine_crypto_random(IDENTIFIER_LEN), nk.release(), sig.release()));
    Chain ch(wickr_identity_chain_create(root.release(), node.release()));
    StorageKeys sk(wickr_storage_keys_create(openssl_cipher_key_random(CIPHER_AES256_GCM), openssl_cipher_key_random(CIPHER_AES256_GCM)));
    return Ctx(wickr_ctx_create(ENG, di.release(), ch.release(), sk.release()));
}
Payload gen_payload(Case &c, size_t maxbody) {
    wickr_ephemeral_info_t e; e.ttl = c.edge(~0ull); e.bor = c.edge(~0ull);
    uint16_t ct = (uint16_t)c.edge(65535); Bytes tag = c.chance(1, 40) ? c.blob1(3000) : c.data1(64);
    Bytes body = c.data1(maxbody);
    PktMeta m(wickr_packet_meta_create(e, mk(tag), ct));
    return Payload(wickr_payload_create(m.release(), mk(body)));
}
Bytes gen_passphrase(Case &c) { return c.data1(100); }
