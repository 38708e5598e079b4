// A catalogue of the library's object types: how to make, copy, destroy, read, serialize and parse each.
// Shared by the harnesses that check something for every type (C12, C14, C23, C26).
#pragma once
#include "common.h"
#include "proto.h"

namespace objs {
enum Kind { PLAIN, SECRET, PRIVATE_EC, CACHE }; // CACHE: internal memo, not part of the value; PRIVATE_EC: private half of a key pair, absent from public forms
struct Visitor {
    virtual ~Visitor() {}
    virtual void obj(const char *name, bool present) = 0;               // an owned part
    virtual void buf(const char *name, wickr_buffer_t *&b, Kind k) = 0; // an owned buffer
    virtual void num(const char *name, uint64_t v) = 0;
    virtual bool root_signature() { return true; }                     // a root identity has none in its serialized form
};
#define VSTART(T) inline void visit(Visitor &v, const char *nm, T *x) { v.obj(nm, x != nullptr); if (!x) return;
#define B_(f, k) v.buf(#f, x->f, k)
#define N_(f) v.num(#f, (uint64_t)x->f)
#define O_(f) visit(v, #f, x->f)
inline void visit(Visitor &v, const wickr_cipher_t &c) { v.num("cipher_id", c.cipher_id); v.num("key_len", c.key_len); v.num("iv_len", c.iv_len); v.num("tag_len", c.auth_tag_len); v.num("authenticated", c.is_authenticated); }
inline void visit(Visitor &v, const wickr_ec_curve_t &c) { v.num("curve", c.identifier); v.num("sig_size", c.signature_size); v.num("raw_size", c.raw_signature_size); v.num("pub_size", c.max_pub_size); }
inline void visit(Visitor &v, const wickr_digest_t &d) { v.num("digest", d.digest_id); v.num("size", d.size); v.num("dtype", d.type); }
inline void visit(Visitor &v, const wickr_crypto_engine_t &e) { Bytes b((const uint8_t *)&e.wickr_crypto_engine_crypto_random, (const uint8_t *)&e.wickr_crypto_engine_crypto_random + sizeof(void *)); uint64_t p; memcpy(&p, b.data(), 8); v.num("engine", p); v.num("default_curve", e.default_curve.identifier); v.num("default_cipher", e.default_cipher.cipher_id); }
VSTART(wickr_buffer_t) wickr_buffer_t *y = x; v.buf("bytes", y, PLAIN); }
VSTART(wickr_cipher_result_t) visit(v, x->cipher); B_(iv, PLAIN); B_(cipher_text, PLAIN); B_(auth_tag, PLAIN); }
VSTART(wickr_cipher_key_t) visit(v, x->cipher); B_(key_data, SECRET); }
VSTART(wickr_dev_info_t) B_(dev_salt, PLAIN); B_(system_salt, PLAIN); B_(msg_proto_id, PLAIN); B_(srv_comm_id, PLAIN); }
VSTART(wickr_ec_key_t) visit(v, x->curve); B_(pub_data, PLAIN); B_(pri_data, PRIVATE_EC); }
VSTART(wickr_ecdh_cipher_ctx_t) visit(v, x->engine); visit(v, x->cipher); O_(local_key); }
VSTART(wickr_ecdsa_result_t) visit(v, x->curve); visit(v, x->digest_mode); B_(sig_data, PLAIN); }
VSTART(wickr_packet_meta_t) v.num("ttl", x->ephemerality_settings.ttl); v.num("bor", x->ephemerality_settings.bor); B_(channel_tag, PLAIN); N_(content_type); }
VSTART(wickr_payload_t) O_(meta); B_(body, PLAIN); }
VSTART(wickr_packet_t) N_(version); B_(content, PLAIN); O_(signature); }
VSTART(wickr_encoder_result_t) O_(packet_key); O_(packet); }
VSTART(wickr_ephemeral_keypair_t) N_(identifier); O_(ec_key); O_(signature); }
VSTART(wickr_fingerprint_t) N_(type); B_(data, PLAIN); }
VSTART(wickr_identity_t) N_(type); B_(identifier, PLAIN); O_(sig_key); if (v.root_signature() || x->type == IDENTITY_TYPE_NODE) O_(signature); }
VSTART(wickr_identity_chain_t) N_(status); O_(root); O_(node); B_(_status_cache, CACHE); }
VSTART(wickr_node_t) N_(status); B_(dev_id, PLAIN); O_(id_chain); O_(ephemeral_keypair); B_(_status_cache, CACHE); }
VSTART(wickr_kdf_meta_t) v.num("algo", x->algo.algo_id); v.num("kdf", x->algo.kdf_id); v.num("salt_size", x->algo.salt_size); v.num("output_size", x->algo.output_size); v.num("cost", x->algo.cost); B_(salt, PLAIN); B_(info, PLAIN); }
VSTART(wickr_kdf_result_t) O_(meta); B_(hash, SECRET); }
VSTART(wickr_key_exchange_t) B_(exchange_id, PLAIN); N_(key_id); O_(exchange_ciphertext); }
VSTART(wickr_key_exchange_set_t) O_(sender_pub); uint32_t n = wickr_array_get_item_count(x->exchanges); v.num("count", n); for (uint32_t i = 0; i < n; i++) visit(v, "exchange", wickr_exchange_array_fetch_item(x->exchanges, i)); }
VSTART(wickr_parse_result_t) N_(err); N_(signature_status); O_(key_exchange_set); O_(key_exchange); O_(enc_payload); }
VSTART(wickr_decode_result_t) N_(err); O_(payload_key); O_(decrypted_payload); }
VSTART(wickr_root_keys_t) O_(node_signature_root); O_(node_storage_root); O_(remote_storage_root); }
VSTART(wickr_storage_keys_t) O_(local); O_(remote); }
VSTART(wickr_stream_key_t) O_(cipher_key); B_(evolution_key, SECRET); B_(user_data, PLAIN); N_(packets_per_evolution); }
VSTART(wickr_stream_iv_t) visit(v, x->engine); B_(seed, PLAIN); visit(v, x->cipher); N_(gen_count); }
VSTART(wickr_stream_ctx_t) visit(v, x->engine); O_(key); O_(iv_factory); N_(last_seq); N_(direction); }
inline uint64_t raw_enum(const void *p) { uint32_t u; memcpy(&u, p, 4); return u; } // received values may be outside the enumeration
VSTART(wickr_transport_packet_t) v.num("body_type", raw_enum(&x->meta.body_type)); v.num("mac_type", raw_enum(&x->meta.mac_type)); if (raw_enum(&x->meta.body_type) == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) v.num("seq", x->meta.body_meta.data.sequence_number); else { v.num("proto", x->meta.body_meta.handshake.protocol_version); v.num("flags", x->meta.body_meta.handshake.flags); } B_(body, PLAIN); B_(mac, PLAIN); B_(network_buffer, CACHE); }
VSTART(wickr_transport_root_key_t) B_(secret, SECRET); visit(v, x->cipher); N_(packets_per_evo_send); N_(packets_per_evo_recv); }
VSTART(wickr_ctx_t) visit(v, x->engine); O_(dev_info); O_(id_chain); O_(storage_keys); O_(packet_header_key); N_(pkt_enc_version); }
VSTART(wickr_ctx_gen_result_t) O_(ctx); O_(recovery_key); O_(root_keys); }
VSTART(wickr_ctx_packet_t) O_(packet); O_(sender); O_(parse_result); }
struct Arr {}; // arrays are visited through wrappers, since both kinds are the same C type
inline void visit_nodes(Visitor &v, wickr_node_array_t *x) { v.obj("nodes", x); if (!x) return; uint32_t n = wickr_array_get_item_count(x); v.num("count", n); for (uint32_t i = 0; i < n; i++) visit(v, "node", wickr_node_array_fetch_item(x, i)); }
inline void visit_exchanges(Visitor &v, wickr_exchange_array_t *x) { v.obj("exchanges", x); if (!x) return; uint32_t n = wickr_array_get_item_count(x); v.num("count", n); for (uint32_t i = 0; i < n; i++) visit(v, "exchange", wickr_exchange_array_fetch_item(x, i)); }
inline void visit_hres(Visitor &v, wickr_transport_handshake_res_t *x) { v.obj("res", x); if (!x) return; visit(v, "local", (wickr_stream_key_t *)wickr_transport_handshake_res_get_local_key(x)); visit(v, "remote", (wickr_stream_key_t *)wickr_transport_handshake_res_get_remote_key(x)); }
#undef VSTART
#undef B_
#undef N_
#undef O_

// The value of an object as text; with pub, without private key halves.
struct Dump : Visitor {
    std::string s; bool pub, status; int depth = 0;
    Dump(bool p = false, bool st = true) : pub(p), status(st) {}
    void obj(const char *n, bool p) override { s += n; s += p ? "{ " : "=absent "; }
    void buf(const char *n, wickr_buffer_t *&b, Kind k) override { if (k == CACHE || (pub && k == PRIVATE_EC)) return; s += n; s += '='; s += b ? "[" + std::to_string(b->length) + "]" + hex(b->bytes, b->length, 1 << 20) : "absent"; s += ' '; }
    bool root_signature() override { return status; }
    void num(const char *n, uint64_t x) override { if (!status && !strcmp(n, "status")) return; s += n; s += '=' + std::to_string(x) + ' '; }
};
struct Scramble : Visitor { size_t n = 0; void obj(const char *, bool) override {} void num(const char *, uint64_t) override {} void buf(const char *, wickr_buffer_t *&b, Kind) override { if (b) for (size_t i = 0; i < b->length; i++, n++) b->bytes[i] ^= 0xA5; } };
struct Collect : Visitor { std::set<const void *> blocks; std::vector<Bytes> secrets; int priv = 0; void obj(const char *, bool) override {} void num(const char *, uint64_t) override {} void buf(const char *, wickr_buffer_t *&b, Kind k) override { if (!b) return; blocks.insert(b); blocks.insert(b->bytes); if (k == SECRET || k == PRIVATE_EC) secrets.push_back(to(b)); if (k == PRIVATE_EC) priv++; } };
inline std::string first_difference(const std::string &a, const std::string &b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = i; while (s > 0 && a[s - 1] != ' ') s--;
    auto cut = [&](const std::string &x) { return s < x.size() ? x.substr(s, std::min<size_t>(120, x.find(' ', i) == std::string::npos ? 120 : x.find(' ', i) - s + 1)) : std::string("(end)"); }; return cut(a) + " / " + cut(b);
}

// ------------------------------------------------------------------------------------------ generators: arbitrary well-formed values (signatures and ciphertexts need not be genuine)
inline Sig g_sig(Case &c) { return Sig(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, gen_digest(c), mk(c.blob(c.chance(1, 3) ? 141 - (size_t)c.draw(4) : 1 + (size_t)c.draw(140))))); }
inline EcKey g_key(Case &c) { EcKey k = gen_ec_key(c); return c.chance(1, 3) ? pub_only(k.get()) : std::move(k); }
inline Identity g_identity(Case &c, int type, int priv /* 0 public, 1 private, 2 either */) { EcKey k = gen_ec_key(c); if (priv == 0 || (priv == 2 && c.chance(1, 3))) k = pub_only(k.get()); return Identity(wickr_identity_create(type ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT, mk(gen_identifier(c)), k.release(), type ? g_sig(c).release() : nullptr)); }
inline Chain g_chain(Case &c, int priv) { if (priv == 2) priv = (int)c.draw(2); Identity r = g_identity(c, 0, priv), n = g_identity(c, 1, priv); return Chain(wickr_identity_chain_create(r.release(), n.release())); }
inline EphKey g_eph(Case &c) { uint64_t id = c.edge(~0ull); EcKey k = g_key(c); Sig s = c.chance(1, 4) ? Sig() : g_sig(c); return EphKey(wickr_ephemeral_keypair_create(id, k.release(), s.release())); }
inline Node g_node(Case &c) { Bytes d = c.data1(60); Chain ch = g_chain(c, 2); EphKey e = c.chance(1, 5) ? EphKey() : g_eph(c); return Node(wickr_node_create(mk(d), ch.release(), e.release())); }
inline KeyEx g_exchange(Case &c) { Bytes id = c.data1(50); uint64_t k = c.edge(~0ull); return KeyEx(wickr_key_exchange_create(mk(id), k, gen_cipher_result(c).release())); }
inline wickr_exchange_array_t *g_exchanges(Case &c, unsigned lo) { unsigned n = lo + (unsigned)c.edge(c.chance(1, 8) ? 40 : 4); wickr_exchange_array_t *a = wickr_exchange_array_new(n); for (unsigned i = 0; i < n; i++) wickr_exchange_array_set_item(a, i, g_exchange(c).release()); return a; }
inline ExSet g_set(Case &c) { EcKey k = gen_ec_key(c); EcKey p = pub_only(k.get()); return ExSet(wickr_key_exchange_set_create(p.release(), g_exchanges(c, 1))); }
inline Packet g_packet(Case &c) { uint8_t v = (uint8_t)(4 - c.draw(2)); Sig s(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, mk(c.blob(1 + (size_t)c.draw(140))))); return Packet(wickr_packet_create(v, mk(c.data1(600)), s.release())); }
inline CipherKey g_ckey(Case &c) { return gen_cipher_key(c, gen_cipher(c)); }
inline RootKeys g_root(Case &c) { EcKey k = gen_ec_key(c); CipherKey a = g_ckey(c), b = g_ckey(c); return RootKeys(wickr_root_keys_create(k.release(), a.release(), b.release())); }
inline StorageKeys g_storage(Case &c) { CipherKey a = g_ckey(c), b = g_ckey(c); return StorageKeys(wickr_storage_keys_create(a.release(), b.release())); }
inline StreamKey g_stream(Case &c) { CipherKey k = gen_cipher_key(c, c.chance(1, 4) ? CIPHER_AES256_CTR : CIPHER_AES256_GCM); Bytes e = c.data1(c.chance(1, 4) ? 200 : 32), u = c.data_upto(60); uint32_t n = 1 + (uint32_t)c.edge(32767); return StreamKey(wickr_stream_key_create_user_data(k.release(), mk(e), n, mk(u))); }
inline TPacket g_tpacket(Case &c) {
    wickr_transport_packet_meta_t m; auto mac = (wickr_transport_packet_mac_type)c.draw(2);
    if (c.draw(1)) wickr_transport_packet_meta_initialize_data(&m, c.edge(~0ull), mac); else { wickr_transport_packet_meta_initialize_handshake(&m, (uint8_t)c.edge(255), mac); m.body_meta.handshake.flags = c.edge(~0ull); }
    TPacket p(wickr_transport_packet_create(m, mk(c.data1(400)))); if (mac == TRANSPORT_MAC_TYPE_EC_P521) p->mac = mk(c.blob(143)); return p;
}
inline KdfMeta g_meta(Case &c, bool passphrase_only) {
    static const wickr_kdf_algo_t A[8] = {KDF_SCRYPT_2_17, KDF_SCRYPT_2_18, KDF_SCRYPT_2_19, KDF_SCRYPT_2_20, KDF_BCRYPT_15, KDF_HKDF_SHA256, KDF_HKDF_SHA384, KDF_HKDF_SHA512};
    auto &a = A[c.draw(passphrase_only ? 4 : 7)]; bool hk = a.algo_id == KDF_HMAC_SHA2; Bytes salt = hk ? c.blob_upto(80) : c.blob(a.salt_size), info = passphrase_only ? Bytes() : c.blob_upto(60); if (salt.empty() && info.empty()) info = {1};
    return KdfMeta(wickr_kdf_meta_create(a, mk(salt), mk(info)));
}
inline DevInfo g_dev(Case &c) { if (c.chance(1, 2)) return gen_devinfo(c); Bytes a = c.data1(40), b = c.data1(40), d = c.data1(40), e = c.data1(40); return DevInfo(wickr_dev_info_create(mk(a), mk(b), mk(d), mk(e))); }
inline Ctx g_ctx(Case &c) { DevInfo d = g_dev(c); Chain ch = g_chain(c, 1); StorageKeys s = g_storage(c); Ctx x(wickr_ctx_create(ENG, d.release(), ch.release(), s.release())); x->pkt_enc_version = (uint8_t)(4 - c.draw(2)); return x; }
inline Chain g_status_chain(Case &c) { Chain ch = c.chance(1, 2) ? g_chain(c, 2) : make_chain(c); if (c.chance(1, 2)) wickr_identity_chain_validate(ch.get(), &ENG); return ch; }
inline Node g_status_node(Case &c) { if (c.chance(1, 2)) { Node n = g_node(c); if (c.chance(1, 3)) wickr_node_verify_signature_chain(n.get(), &ENG); return n; } Chain ch = make_chain(c); EcKey k = gen_ec_key(c); Node n = make_node(ch.get(), c.blob1(40), c.edge(~0ull), k.get()); if (c.chance(1, 2)) wickr_node_verify_signature_chain(n.get(), &ENG); return n; }
inline ParseRes g_parse(Case &c) { if (c.chance(1, 4)) return ParseRes(wickr_parse_result_create_failure((wickr_packet_signature_status)c.draw(2), (wickr_decode_error)c.range(1, 5))); ExSet s = g_set(c); KeyEx k = c.chance(1, 3) ? KeyEx() : g_exchange(c); return ParseRes(wickr_parse_result_create_success(s.release(), k.release(), gen_cipher_result(c).release())); }
inline DecodeRes g_decode(Case &c) { if (c.chance(1, 4)) return DecodeRes(wickr_decode_result_create_failure((wickr_decode_error)c.range(1, 5))); Payload p = gen_payload(c, 300); return DecodeRes(wickr_decode_result_create_success(p.release(), g_ckey(c).release())); }
inline StreamCtx g_sctx(Case &c) { CipherKey k = gen_cipher_key(c, CIPHER_AES256_GCM); Bytes e = c.data1(64), u = c.data_upto(20); uint32_t n = 1 + (uint32_t)c.edge(32767); StreamKey sk(wickr_stream_key_create_user_data(k.release(), mk(e), n, mk(u))); StreamCtx s(wickr_stream_ctx_create(ENG, sk.release(), c.draw(1) ? STREAM_DIRECTION_DECODE : STREAM_DIRECTION_ENCODE)); s->last_seq = c.edge(n * 3ull); return s; }
inline StreamIv g_iv(Case &c) { StreamIv v(wickr_stream_iv_create(ENG, gen_cipher(c))); v->gen_count = c.edge(~0ull); return v; }
inline TRootKey g_troot(Case &c) { const wickr_cipher_t &ci = gen_cipher(c); Bytes s = c.blob(ci.key_len); uint32_t a = (uint32_t)c.edge(~0u), b = (uint32_t)c.edge(~0u); return TRootKey(wickr_transport_root_key_create(mk(s), ci, a, b)); }
inline EncRes g_enc(Case &c) { CipherKey k = g_ckey(c); return EncRes(wickr_encoder_result_create(k.release(), g_packet(c).release())); }
inline KdfRes g_kres(Case &c) { KdfMeta m = g_meta(c, false); return KdfRes(wickr_kdf_result_create(m.release(), mk(c.data1(70)))); }
inline EcdhCtx g_ecdh(Case &c) { EcKey k = gen_ec_key(c); return EcdhCtx(wickr_ecdh_cipher_ctx_create_key(ENG, k.release(), gen_cipher(c))); }
inline GenRes g_gen(Case &c) { Bytes id = gen_identifier(c); Buf ib(mk(id)); DevInfo d = make_devinfo(c.data1(30)); RootKeys r = g_root(c); return GenRes(wickr_ctx_gen_with_root_keys(ENG, d.get(), r.get(), ib.get())); }
inline HandshakeRes g_hres(Case &c) { StreamKey a = g_stream(c), b = g_stream(c); return HandshakeRes(wickr_transport_handshake_res_create(a.release(), b.release())); }

// ------------------------------------------------------------------------------------------ the catalogue
struct Type {
    const char *name;
    std::function<void *(Case &)> gen;
    std::function<void *(const void *)> copy;
    std::function<void(void **)> destroy;
    std::function<void(Visitor &, void *)> visit;
    std::function<wickr_buffer_t *(const void *)> ser;          // absent for types that are not serialized
    std::function<void *(const wickr_buffer_t *)> parse;
    bool pub = false;                                           // the serialized form carries public halves only
    bool secret = false;                                        // owns secret key bytes
};
struct Any { // an owned object of any catalogued type
    const Type *t = nullptr; void *p = nullptr;
    Any() {} Any(const Type *t_, void *p_) : t(t_), p(p_) {} Any(const Any &) = delete; Any &operator=(const Any &) = delete; Any(Any &&o) noexcept : t(o.t), p(o.p) { o.p = nullptr; } Any &operator=(Any &&o) noexcept { reset(); t = o.t; p = o.p; o.p = nullptr; return *this; }
    ~Any() { reset(); } void reset() { if (p) t->destroy(&p); p = nullptr; } explicit operator bool() const { return p != nullptr; }
    std::string dump(bool pub = false, bool status = true) const { Dump d(pub, status); t->visit(d, p); return d.s; }
    Any copy() const { return Any(t, t->copy(p)); }
};
template <class T, class F> void *rel(F f) { return f.release(); }
#define TY(T, nm, g, cp, ds) Type{nm, [](Case &c) -> void * { return (g).release(); }, [](const void *p) -> void * { return cp((T *)p); }, [](void **p) { T *q = (T *)*p; ds(&q); *p = q; }, [](Visitor &v, void *p) { visit(v, nm, (T *)p); }, nullptr, nullptr}
template <class T> static wickr_buffer_t *ser_as(const void *p, wickr_buffer_t *(*f)(const T *)) { return f((const T *)p); }
inline const std::vector<Type> &types() {
    static std::vector<Type> v; if (!v.empty()) return v;
    auto add = [&](Type t, std::function<wickr_buffer_t *(const void *)> s = nullptr, std::function<void *(const wickr_buffer_t *)> p = nullptr, bool pub = false, bool secret = false) { t.ser = s; t.parse = p; t.pub = pub; t.secret = secret; v.push_back(t); };
    add(TY(wickr_cipher_result_t, "cipher result", gen_cipher_result(c), wickr_cipher_result_copy, wickr_cipher_result_destroy), [](const void *p) { return wickr_cipher_result_serialize((wickr_cipher_result_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_cipher_result_from_buffer(b); });
    add(TY(wickr_cipher_key_t, "cipher key", g_ckey(c), wickr_cipher_key_copy, wickr_cipher_key_destroy), [](const void *p) { return wickr_cipher_key_serialize((wickr_cipher_key_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_cipher_key_from_buffer(b); }, false, true);
    add(TY(wickr_ecdsa_result_t, "signature", g_sig(c), wickr_ecdsa_result_copy, wickr_ecdsa_result_destroy), [](const void *p) { return wickr_ecdsa_result_serialize((wickr_ecdsa_result_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_ecdsa_result_create_from_buffer(b); });
    add(TY(wickr_kdf_meta_t, "kdf metadata", g_meta(c, true), wickr_kdf_meta_copy, wickr_kdf_meta_destroy), [](const void *p) { return wickr_kdf_meta_serialize((wickr_kdf_meta_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_kdf_meta_create_with_buffer(b); });
    add(TY(wickr_identity_t, "identity", g_identity(c, (int)c.draw(1), 2), wickr_identity_copy, wickr_identity_destroy), [](const void *p) { return wickr_identity_serialize((wickr_identity_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_identity_create_from_buffer(b, &ENG); }, true, true);
    add(TY(wickr_identity_chain_t, "identity chain", g_status_chain(c), wickr_identity_chain_copy, wickr_identity_chain_destroy), [](const void *p) { return wickr_identity_chain_serialize((wickr_identity_chain_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_identity_chain_create_from_buffer(b, &ENG); }, true, true);
    add(TY(wickr_identity_chain_t, "private identity chain", g_chain(c, 1), wickr_identity_chain_copy, wickr_identity_chain_destroy), [](const void *p) { return wickr_identity_chain_serialize_private((wickr_identity_chain_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_identity_chain_create_from_buffer(b, &ENG); }, false, true);
    add(TY(wickr_ephemeral_keypair_t, "message key pair", g_eph(c), wickr_ephemeral_keypair_copy, wickr_ephemeral_keypair_destroy), [](const void *p) { return wickr_ephemeral_keypair_serialize((wickr_ephemeral_keypair_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_ephemeral_keypair_create_from_buffer(b, &ENG); }, true, true);
    add(TY(wickr_node_t, "node", g_status_node(c), wickr_node_copy, wickr_node_destroy), [](const void *p) { return wickr_node_serialize((wickr_node_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_node_create_from_buffer(b, &ENG); }, true, true);
    add(TY(wickr_payload_t, "payload", gen_payload(c, 500), wickr_payload_copy, wickr_payload_destroy), [](const void *p) { return wickr_payload_serialize((wickr_payload_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_payload_create_from_buffer(b); });
    add(TY(wickr_key_exchange_set_t, "key exchange set", g_set(c), wickr_key_exchange_set_copy, wickr_key_exchange_set_destroy), [](const void *p) { return wickr_key_exchange_set_serialize((wickr_key_exchange_set_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_key_exchange_set_create_from_buffer(&ENG, b); });
    add(TY(wickr_packet_t, "packet", g_packet(c), wickr_packet_copy, wickr_packet_destroy), [](const void *p) { return wickr_packet_serialize((wickr_packet_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_packet_create_from_buffer(b); });
    add(TY(wickr_root_keys_t, "root keys", g_root(c), wickr_root_keys_copy, wickr_root_keys_destroy), [](const void *p) { return wickr_root_keys_serialize((wickr_root_keys_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_root_keys_create_from_buffer(&ENG, b); }, false, true);
    add(TY(wickr_storage_keys_t, "storage keys", g_storage(c), wickr_storage_keys_copy, wickr_storage_keys_destroy), [](const void *p) { return wickr_storage_keys_serialize((wickr_storage_keys_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_storage_keys_create_from_buffer(b); }, false, true);
    add(TY(wickr_stream_key_t, "stream key", g_stream(c), wickr_stream_key_copy, wickr_stream_key_destroy), [](const void *p) { return wickr_stream_key_serialize((wickr_stream_key_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_stream_key_create_from_buffer(b); }, false, true);
    add(TY(wickr_transport_packet_t, "transport packet", g_tpacket(c), wickr_transport_packet_copy, wickr_transport_packet_destroy), [](const void *p) { return wickr_transport_packet_serialize((wickr_transport_packet_t *)p); }, [](const wickr_buffer_t *b) -> void * { return wickr_transport_packet_create_from_buffer(b); });
    add(TY(wickr_ec_key_t, "EC key", g_key(c), wickr_ec_key_copy, wickr_ec_key_destroy), [](const void *p) { auto *k = (wickr_ec_key_t *)p; return wickr_buffer_copy(k->pri_data ? k->pri_data : k->pub_data); }, nullptr, false, true); // parsed by the caller: the form does not say which half it is
    add(TY(wickr_ctx_t, "context", g_ctx(c), wickr_ctx_copy, wickr_ctx_destroy), [](const void *p) { return wickr_ctx_serialize((wickr_ctx_t *)p); }, nullptr, false, true); // parsed by the caller: needs a device
    // not serialized
    add(TY(wickr_buffer_t, "buffer", Buf(mk(c.data1(200))), wickr_buffer_copy, wickr_buffer_destroy));
    add(TY(wickr_dev_info_t, "device info", g_dev(c), wickr_dev_info_copy, wickr_dev_info_destroy));
    add(TY(wickr_ecdh_cipher_ctx_t, "ECDH context", g_ecdh(c), wickr_ecdh_cipher_ctx_copy, wickr_ecdh_cipher_ctx_destroy), nullptr, nullptr, false, true);
    add(TY(wickr_encoder_result_t, "encoder result", g_enc(c), wickr_encoder_result_copy, wickr_encoder_result_destroy), nullptr, nullptr, false, true);
    add(TY(wickr_fingerprint_t, "fingerprint", Fingerprint(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mk(c.blob(64)))), wickr_fingerprint_copy, wickr_fingerprint_destroy));
    add(TY(wickr_kdf_meta_t, "any kdf metadata", g_meta(c, false), wickr_kdf_meta_copy, wickr_kdf_meta_destroy));
    add(TY(wickr_kdf_result_t, "kdf result", g_kres(c), wickr_kdf_result_copy, wickr_kdf_result_destroy), nullptr, nullptr, false, true);
    add(TY(wickr_key_exchange_t, "key exchange", g_exchange(c), wickr_key_exchange_copy, wickr_key_exchange_destroy));
    add(TY(wickr_packet_meta_t, "packet metadata", PktMeta(wickr_packet_meta_create(wickr_ephemeral_info_t{c.edge(~0ull), c.edge(~0ull)}, mk(c.data1(50)), (uint16_t)c.edge(65535))), wickr_packet_meta_copy, wickr_packet_meta_destroy));
    add(TY(wickr_parse_result_t, "parse result", g_parse(c), wickr_parse_result_copy, wickr_parse_result_destroy));
    add(TY(wickr_decode_result_t, "decode result", g_decode(c), wickr_decode_result_copy, wickr_decode_result_destroy), nullptr, nullptr, false, true);
    add(TY(wickr_stream_iv_t, "stream IV", g_iv(c), wickr_stream_iv_copy, wickr_stream_iv_destroy));
    add(TY(wickr_stream_ctx_t, "stream context", g_sctx(c), wickr_stream_ctx_copy, wickr_stream_ctx_destroy), nullptr, nullptr, false, true);
    add(TY(wickr_transport_root_key_t, "transport root key", g_troot(c), wickr_transport_root_key_copy, wickr_transport_root_key_destroy), nullptr, nullptr, false, true);
    add(TY(wickr_ctx_gen_result_t, "generation result", g_gen(c), wickr_ctx_gen_result_copy, wickr_ctx_gen_result_destroy), nullptr, nullptr, false, true);
    add(Type{"handshake result", [](Case &c) -> void * { return g_hres(c).release(); }, [](const void *p) -> void * { return wickr_transport_handshake_res_copy((wickr_transport_handshake_res_t *)p); }, [](void **p) { auto *q = (wickr_transport_handshake_res_t *)*p; wickr_transport_handshake_res_destroy(&q); *p = q; }, [](Visitor &v, void *p) { visit_hres(v, (wickr_transport_handshake_res_t *)p); }}, nullptr, nullptr, false, true);
    add(Type{"exchange array", [](Case &c) -> void * { return g_exchanges(c, 1); }, [](const void *p) -> void * { return wickr_exchange_array_copy((wickr_exchange_array_t *)p); }, [](void **p) { auto *q = (wickr_exchange_array_t *)*p; wickr_exchange_array_destroy(&q); *p = q; }, [](Visitor &v, void *p) { visit_exchanges(v, (wickr_exchange_array_t *)p); }});
    return v;
}
inline const Type &type(const char *name) { for (auto &t : types()) if (!strcmp(t.name, name)) return t; abort(); }
} // namespace objs
