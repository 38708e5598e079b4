// Shared wrappers over the library for the harnesses: ownership, generators, independent reference implementations.
#pragma once
#include <sanitizer/asan_interface.h>
#include "pbt.h"
#include <memory>
#include <algorithm>
#include <optional>
#define restrict __restrict__
extern "C" {
#include "wickr_ctx.h"
#include "buffer.h"
#include "array.h"
#include "cipher.h"
#include "digest.h"
#include "eckey.h"
#include "ecdsa.h"
#include "kdf.h"
#include "crypto_engine.h"
#include "openssl_suite.h"
#include "openssl_file_suite.h"
#include "identity.h"
#include "node.h"
#include "ephemeral_keypair.h"
#include "devinfo.h"
#include "root_keys.h"
#include "storage.h"
#include "fingerprint.h"
#include "protocol.h"
#include "payload.h"
#include "packet_meta.h"
#include "key_exchange.h"
#include "encoder_result.h"
#include "ecdh_cipher_ctx.h"
#include "stream_ctx.h"
#include "stream_iv.h"
#include "stream_key.h"
#include "transport_ctx.h"
#include "transport_handshake.h"
#include "transport_packet.h"
#include "transport_root_key.h"
#include "transport_error.h"
#include "util.h"
#include "b32.h"
#include "memory.h"
}
#include "shim.h"

using pbt::Bytes; using pbt::Case; using pbt::hex; using pbt::rng;

// ------------------------------------------------------------------------------------------ ownership
template <class T, void (*D)(T **)> struct Own {
    T *p = nullptr;
    Own() {} explicit Own(T *q) : p(q) {}
    Own(const Own &) = delete; Own &operator=(const Own &) = delete;
    Own(Own &&o) noexcept : p(o.p) { o.p = nullptr; }
    Own &operator=(Own &&o) noexcept { if (this != &o) { reset(); p = o.p; o.p = nullptr; } return *this; }
    ~Own() { reset(); }
    void reset(T *q = nullptr) { if (p) D(&p); p = q; }
    T *get() const { return p; } T *operator->() const { return p; } T &operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
    T *release() { T *q = p; p = nullptr; return q; }
};
typedef Own<wickr_buffer_t, wickr_buffer_destroy> Buf;
typedef Own<wickr_cipher_result_t, wickr_cipher_result_destroy> CipherRes;
typedef Own<wickr_cipher_key_t, wickr_cipher_key_destroy> CipherKey;
typedef Own<wickr_dev_info_t, wickr_dev_info_destroy> DevInfo;
typedef Own<wickr_ecdh_cipher_ctx_t, wickr_ecdh_cipher_ctx_destroy> EcdhCtx;
typedef Own<wickr_ecdsa_result_t, wickr_ecdsa_result_destroy> Sig;
typedef Own<wickr_ec_key_t, wickr_ec_key_destroy> EcKey;
typedef Own<wickr_encoder_result_t, wickr_encoder_result_destroy> EncRes;
typedef Own<wickr_ephemeral_keypair_t, wickr_ephemeral_keypair_destroy> EphKey;
typedef Own<wickr_fingerprint_t, wickr_fingerprint_destroy> Fingerprint;
typedef Own<wickr_identity_t, wickr_identity_destroy> Identity;
typedef Own<wickr_identity_chain_t, wickr_identity_chain_destroy> Chain;
typedef Own<wickr_kdf_meta_t, wickr_kdf_meta_destroy> KdfMeta;
typedef Own<wickr_kdf_result_t, wickr_kdf_result_destroy> KdfRes;
typedef Own<wickr_key_exchange_t, wickr_key_exchange_destroy> KeyEx;
typedef Own<wickr_exchange_array_t, wickr_exchange_array_destroy> ExArray;
typedef Own<wickr_key_exchange_set_t, wickr_key_exchange_set_destroy> ExSet;
typedef Own<wickr_node_t, wickr_node_destroy> Node;
typedef Own<wickr_node_array_t, wickr_node_array_destroy> NodeArray;
typedef Own<wickr_packet_meta_t, wickr_packet_meta_destroy> PktMeta;
typedef Own<wickr_payload_t, wickr_payload_destroy> Payload;
typedef Own<wickr_packet_t, wickr_packet_destroy> Packet;
typedef Own<wickr_parse_result_t, wickr_parse_result_destroy> ParseRes;
typedef Own<wickr_decode_result_t, wickr_decode_result_destroy> DecodeRes;
typedef Own<wickr_root_keys_t, wickr_root_keys_destroy> RootKeys;
typedef Own<wickr_storage_keys_t, wickr_storage_keys_destroy> StorageKeys;
typedef Own<wickr_stream_ctx_t, wickr_stream_ctx_destroy> StreamCtx;
typedef Own<wickr_stream_iv_t, wickr_stream_iv_destroy> StreamIv;
typedef Own<wickr_stream_key_t, wickr_stream_key_destroy> StreamKey;
typedef Own<wickr_transport_ctx_t, wickr_transport_ctx_destroy> Transport;
typedef Own<wickr_transport_handshake_t, wickr_transport_handshake_destroy> Handshake;
typedef Own<wickr_transport_handshake_res_t, wickr_transport_handshake_res_destroy> HandshakeRes;
typedef Own<wickr_transport_packet_t, wickr_transport_packet_destroy> TPacket;
typedef Own<wickr_transport_root_key_t, wickr_transport_root_key_destroy> TRootKey;
typedef Own<wickr_ctx_gen_result_t, wickr_ctx_gen_result_destroy> GenRes;
typedef Own<wickr_ctx_t, wickr_ctx_destroy> Ctx;
typedef Own<wickr_ctx_packet_t, wickr_ctx_packet_destroy> CtxPacket;

// ------------------------------------------------------------------------------------------ buffers
// An exact-size heap view of bytes: any access past the end is caught by AddressSanitizer.
struct View {
    wickr_buffer_t b{0, nullptr};
    explicit View(const Bytes &s) { b.length = s.size(); b.bytes = (uint8_t *)malloc(s.size() ? s.size() : 1); if (!s.empty()) memcpy(b.bytes, s.data(), s.size()); else __asan_poison_memory_region(b.bytes, 1); } // not even one byte of an empty buffer may be read
    View(const View &) = delete; View &operator=(const View &) = delete;
    ~View() { __asan_unpoison_memory_region(b.bytes, 1); free(b.bytes); }
    operator const wickr_buffer_t *() const { return &b; }
    wickr_buffer_t *ptr() { return &b; }
    Bytes bytes() const { return Bytes(b.bytes, b.bytes + b.length); }
};
inline wickr_buffer_t *mk(const Bytes &b) { return b.empty() ? nullptr : wickr_buffer_create(b.data(), b.size()); } // null when empty
inline Bytes to(const wickr_buffer_t *b) { return b ? Bytes(b->bytes, b->bytes + b->length) : Bytes(); }
inline Bytes to(const Buf &b) { return to(b.get()); }
inline Bytes take(wickr_buffer_t *b) { Bytes r = to(b); if (b) wickr_buffer_destroy(&b); return r; }
inline bool eq(const wickr_buffer_t *a, const wickr_buffer_t *b) { return (!a || !b) ? a == b : (a->length == b->length && !memcmp(a->bytes, b->bytes, a->length)); }
inline Bytes cat(const Bytes &a, const Bytes &b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline bool contains(const Bytes &hay, const Bytes &needle) { return !needle.empty() && std::search(hay.begin(), hay.end(), needle.begin(), needle.end()) != hay.end(); }
std::string S(const wickr_buffer_t *b);

// ------------------------------------------------------------------------------------------ structural equality
bool same(const wickr_cipher_t &a, const wickr_cipher_t &b);
bool same(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b);
bool same(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b);
bool same_pub(const wickr_ec_key_t *a, const wickr_ec_key_t *b);
bool same(const wickr_ec_key_t *a, const wickr_ec_key_t *b);
bool same(const wickr_ecdsa_result_t *a, const wickr_ecdsa_result_t *b);
bool same_pub(const wickr_identity_t *a, const wickr_identity_t *b);
bool same(const wickr_identity_t *a, const wickr_identity_t *b);
bool same_pub(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b);
bool same(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b);
bool same_pub(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b);
bool same(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b);
bool same_pub(const wickr_node_t *a, const wickr_node_t *b);
bool same(const wickr_node_t *a, const wickr_node_t *b);
bool same(const wickr_kdf_algo_t &a, const wickr_kdf_algo_t &b);
bool same(const wickr_kdf_meta_t *a, const wickr_kdf_meta_t *b);
bool same(const wickr_packet_meta_t *a, const wickr_packet_meta_t *b);
bool same(const wickr_payload_t *a, const wickr_payload_t *b);
bool same(const wickr_root_keys_t *a, const wickr_root_keys_t *b);
bool same(const wickr_storage_keys_t *a, const wickr_storage_keys_t *b);
bool same(const wickr_dev_info_t *a, const wickr_dev_info_t *b);
bool same(const wickr_stream_key_t *a, const wickr_stream_key_t *b);
bool same(const wickr_transport_root_key_t *a, const wickr_transport_root_key_t *b);
bool same(const wickr_key_exchange_t *a, const wickr_key_exchange_t *b);
bool same(const wickr_key_exchange_set_t *a, const wickr_key_exchange_set_t *b);
bool same(const wickr_packet_t *a, const wickr_packet_t *b);
bool same(const wickr_fingerprint_t *a, const wickr_fingerprint_t *b);
bool same(const wickr_transport_packet_t *a, const wickr_transport_packet_t *b);

// ------------------------------------------------------------------------------------------ reference implementations (independent of the library)
namespace ref {
Bytes digest(int id, const Bytes &data, const Bytes &salt = {});           // id: DIGEST_ID_*
Bytes sha(int bits, const Bytes &data);
Bytes hmac(int id, const Bytes &key, const Bytes &data);
Bytes hkdf(int id, const Bytes &ikm, const Bytes &salt, const Bytes &info, size_t len); // extract and expand
Bytes hkdf_expand(int id, const Bytes &prk, const Bytes &info, size_t len);
Bytes aes_ctr(const Bytes &key, const Bytes &iv16, const Bytes &data);
void aes_gcm(const Bytes &key, const Bytes &iv12, const Bytes &aad, const Bytes &pt, Bytes &ct, Bytes &tag);
Bytes aes_block(const Bytes &key, const Bytes &block);
Bytes base64(const Bytes &b);
Bytes base32(const Bytes &b);   // Crockford
Bytes hexs(const Bytes &b);
int digest_id(const wickr_digest_t &d);
// P-521
struct Pub { Bytes uncompressed; };          // 04 | X(66) | Y(66), empty when invalid
Bytes p521_decode(const Bytes &lib_pub);     // library public form (curve byte + octets) to 04|X|Y, empty when invalid
Bytes p521_pub_of(const Bytes &scalar66);    // scalar * G as 04|X|Y
Bytes p521_scalar(const Bytes &der);         // private scalar (66 bytes) of an ECPrivateKey DER
bool p521_verify(int digest_id, const Bytes &uncompressed, const Bytes &data, const Bytes &r, const Bytes &s);
Bytes p521_ecdh(const Bytes &scalar66, const Bytes &uncompressed); // X coordinate, 66 bytes
bool der_sig(const Bytes &der, Bytes &r, Bytes &s, size_t *used = nullptr);
// whether signatures are genuine, recomputed from the public fields of the objects
bool sig_ok(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const wickr_buffer_t *data);
bool chain_ok(const wickr_identity_chain_t *c);
bool eph_ok(const wickr_node_t *n);
bool node_ok(const wickr_node_t *n);
// protocol buffers wire format
struct PbField { uint32_t num; unsigned wire; uint64_t val; Bytes data; };
bool pb_parse(const Bytes &b, std::vector<PbField> &out);
Bytes pb_varint(uint64_t v); Bytes pb_bytes(uint32_t num, const Bytes &d); Bytes pb_uint(uint32_t num, uint64_t v);
}

// ------------------------------------------------------------------------------------------ generators
extern const wickr_crypto_engine_t ENG;
int digest_count();
const wickr_digest_t &digest_at(unsigned i);        // SHA256, SHA384, SHA512
wickr_digest_t gen_digest(Case &c);
const wickr_cipher_t &gen_cipher(Case &c);          // GCM or CTR
CipherKey gen_cipher_key(Case &c, const wickr_cipher_t &ci);
CipherRes gen_cipher_result(Case &c);               // structurally valid, contents arbitrary
// Key pairs are taken from a pool generated once per worker (P-521 key generation is the expensive part), unless fresh is asked for.
EcKey pool_key(unsigned i);
EcKey gen_ec_key(Case &c, bool allow_fresh = false);
EcKey pub_only(const wickr_ec_key_t *k);
EcKey fresh_ec_key();
Bytes gen_identifier(Case &c, size_t maxlen = 127);
Identity make_root(const wickr_ec_key_t *key, const Bytes &identifier);
Chain make_chain(Case &c, bool allow_fresh = false);       // valid chain with private keys
Node make_node(const wickr_identity_chain_t *chain, const Bytes &dev_id, uint64_t key_id, const wickr_ec_key_t *msg_key); // valid node: message key signed by chain node
DevInfo make_devinfo(const Bytes &system_id);
DevInfo gen_devinfo(Case &c);
Ctx make_ctx(Case &c, const Bytes &identifier, const Bytes &system_id);
inline Ctx clone(const Ctx &x) { return Ctx(wickr_ctx_copy(x.get())); }
Payload gen_payload(Case &c, size_t maxbody = 4096);
Bytes gen_passphrase(Case &c);
