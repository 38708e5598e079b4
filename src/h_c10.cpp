// C10: passphrase-protected data opens only with its own passphrase
#include "common.h"
extern "C" char *vf_crypt_rn(const char *key, const char *setting, void *data, int size);

// What a passphrase means to the algorithm: PBKDF2-HMAC-SHA256 (inside scrypt) pads short keys with zeros and hashes long ones.
static Bytes hmac_class(const Bytes &p) { Bytes k = p.size() > 64 ? ref::sha(256, p) : p; k.resize(64, 0); return k; }
static Bytes bcrypt_class(const Bytes &p) { Bytes k; for (size_t i = 0; i < p.size() && i < 72 && p[i]; i++) k.push_back(p[i]); return k; }
static bool distinct(const wickr_kdf_algo_t &a, const Bytes &p, const Bytes &q) { return a.algo_id == KDF_BCRYPT ? bcrypt_class(p) != bcrypt_class(q) : hmac_class(p) != hmac_class(q); }
static Bytes other_pass(Case &c, const Bytes &p) { Bytes q = p; if (c.chance(1, 4)) q = gen_passphrase(c); else c.tamper(q); return q; }
static int log_n(const wickr_kdf_algo_t &a) { switch (a.kdf_id) { case KDF_ID_SCRYPT_17: return 17; case KDF_ID_SCRYPT_18: return 18; case KDF_ID_SCRYPT_19: return 19; default: return 20; } }
static const wickr_kdf_algo_t &algo_at(unsigned i) { static const wickr_kdf_algo_t a[] = {KDF_SCRYPT_2_17, KDF_SCRYPT_2_18, KDF_SCRYPT_2_19, KDF_SCRYPT_2_20, KDF_BCRYPT_15, KDF_HKDF_SHA256, KDF_HKDF_SHA384, KDF_HKDF_SHA512}; return a[i]; }

// scrypt from RFC 7914
static Bytes pbkdf2_1(const Bytes &pw, const Bytes &salt, size_t n) { Bytes o; for (uint32_t i = 1; o.size() < n; i++) { Bytes s = salt; for (int k = 3; k >= 0; k--) s.push_back((uint8_t)(i >> (8 * k))); o = cat(o, ref::hmac(DIGEST_ID_SHA256, pw, s)); } o.resize(n); return o; }
static inline uint32_t rl(uint32_t a, int b) { return a << b | a >> (32 - b); }
static void salsa8(uint32_t *B) {
    uint32_t x[16]; memcpy(x, B, 64);
    for (int i = 0; i < 4; i++) {
        auto qr = [&](int a, int b, int c, int d) { x[b] ^= rl(x[a] + x[d], 7); x[c] ^= rl(x[b] + x[a], 9); x[d] ^= rl(x[c] + x[b], 13); x[a] ^= rl(x[d] + x[c], 18); };
        qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11);
        qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14);
    }
    for (int i = 0; i < 16; i++) B[i] += x[i];
}
static void blockmix(const uint32_t *in, uint32_t *out, int r) {
    uint32_t x[16]; memcpy(x, in + (2 * r - 1) * 16, 64);
    for (int i = 0; i < 2 * r; i++) { for (int j = 0; j < 16; j++) x[j] ^= in[i * 16 + j]; salsa8(x); memcpy(out + ((i & 1) * r + i / 2) * 16, x, 64); }
}
__attribute__((no_sanitize("address", "undefined"))) static Bytes ref_scrypt(const Bytes &pw, const Bytes &salt, int logn, int r, int p, size_t n) {
    Bytes B = pbkdf2_1(pw, salt, (size_t)128 * r * p); size_t w = 32 * (size_t)r, N = (size_t)1 << logn; std::vector<uint32_t> V(N * w), X(w), Y(w);
    for (int k = 0; k < p; k++) {
        memcpy(X.data(), B.data() + 128 * (size_t)r * k, 128 * (size_t)r);
        for (size_t i = 0; i < N; i++) { memcpy(&V[i * w], X.data(), w * 4); blockmix(X.data(), Y.data(), r); X.swap(Y); }
        for (size_t i = 0; i < N; i++) { size_t j = X[(2 * r - 1) * 16] & (N - 1); for (size_t q = 0; q < w; q++) X[q] ^= V[j * w + q]; blockmix(X.data(), Y.data(), r); X.swap(Y); }
        memcpy(B.data() + 128 * (size_t)r * k, X.data(), 128 * (size_t)r);
    }
    return pbkdf2_1(pw, B, n);
}
static Bytes want_hash(const wickr_kdf_algo_t &a, const Bytes &salt, const Bytes &pw) {
    if (a.algo_id == KDF_SCRYPT) {
        if (!vf_fast_kdf) return ref_scrypt(pw, salt, log_n(a), 8, 1, 32);
        Bytes o(32); vf_fast_scrypt(pw.data(), pw.size(), salt.data(), salt.size(), 1ull << log_n(a), 8, 1, o.data(), 32); return o;
    }
    if (a.algo_id == KDF_BCRYPT) { std::string set = "$2y$15$" + std::string(salt.begin(), salt.end()), p(pw.begin(), pw.end()); char out[128] = {0}; p = p.c_str(); if (!vf_crypt_rn(p.c_str(), set.c_str(), out, 64)) return {}; return Bytes(out, out + strlen(out)); }
    int d = a.kdf_id == KDF_ID_HKDF_SHA256 ? DIGEST_ID_SHA256 : a.kdf_id == KDF_ID_HKDF_SHA384 ? DIGEST_ID_SHA384 : DIGEST_ID_SHA512;
    return ref::hkdf(d, pw, salt, {}, a.output_size);
}

static void kdf_case(Case &c, const wickr_kdf_algo_t &a) {
    Bytes pw = gen_passphrase(c); View pv(pw);
    KdfRes r(ENG.wickr_crypto_kdf_gen(a, pv)); CHECK(c, r && same(r->meta->algo, a), "kdf failed");
    CHECK(c, r->meta->salt && r->meta->salt->length == a.salt_size && !r->meta->info, "salt");
    Bytes salt = to(r->meta->salt); CHECK(c, to(r->hash) == want_hash(a, salt, pw), "kdf %d differs from the reference for salt %s", a.kdf_id, hex(salt).c_str());
    KdfRes r2(ENG.wickr_crypto_kdf_meta(r->meta, pv)); CHECK(c, r2 && eq(r2->hash, r->hash) && same(r2->meta, r->meta), "repeating with the recorded parameters differs");
    if (a.algo_id != KDF_HMAC_SHA2) { // metadata survives serialization
        Buf s(wickr_kdf_meta_serialize(r->meta)); CHECK(c, s, "meta serialize"); View sv(to(s)); KdfMeta m(wickr_kdf_meta_create_with_buffer(sv)); CHECK(c, m && same(m.get(), r->meta), "metadata changed by serialization");
        if (vf_fast_kdf) { KdfRes r3(ENG.wickr_crypto_kdf_meta(m.get(), pv)); CHECK(c, r3 && eq(r3->hash, r->hash), "parsed metadata gives another output"); }
    }
    if (!vf_fast_kdf) return;
    KdfRes g(ENG.wickr_crypto_kdf_gen(a, pv)); CHECK(c, g && !eq(g->meta->salt, r->meta->salt) && !eq(g->hash, r->hash), "two derivations share salt or output");
    Bytes q = other_pass(c, pw); if (!q.empty()) { View qv(q); KdfRes w(ENG.wickr_crypto_kdf_meta(r->meta, qv)); if (distinct(a, pw, q)) CHECK(c, !w || !eq(w->hash, r->hash), "another passphrase gives the same output"); c.label("other-pass"); }
    if (a.algo_id == KDF_SCRYPT) { // explicit salts and algorithms
        Bytes s2 = c.blob(16); KdfMeta m(wickr_kdf_meta_create(a, mk(s2), nullptr)); KdfRes w(ENG.wickr_crypto_kdf_meta(m.get(), pv)); CHECK(c, w && to(w->hash) == want_hash(a, s2, pw), "explicit salt"); if (s2 != salt) CHECK(c, !eq(w->hash, r->hash), "salt ignored");
        const wickr_kdf_algo_t &b = algo_at((unsigned)c.draw(3)); KdfMeta mb(wickr_kdf_meta_create(b, mk(salt), nullptr)); KdfRes x(ENG.wickr_crypto_kdf_meta(mb.get(), pv)); CHECK(c, x && (eq(x->hash, r->hash) == (b.kdf_id == a.kdf_id)), "cost ignored");
        size_t n = c.size(40); Buf bad(mk(c.blob(n))); wickr_buffer_t *bb = bad.release(); wickr_kdf_meta_t *t = wickr_kdf_meta_create(a, bb, nullptr); CHECK(c, (t != nullptr) == (n == 16), "salt of %zu bytes", n); if (t) wickr_kdf_meta_destroy(&t); else if (bb) wickr_buffer_destroy(&bb);
    }
    vf_kdf_fail = 1; KdfRes f; if (a.algo_id != KDF_HMAC_SHA2) f.reset(ENG.wickr_crypto_kdf_meta(r->meta, pv)); vf_kdf_fail = 0; CHECK(c, !f, "result although the algorithm failed");
    CHECK(c, !ENG.wickr_crypto_kdf_gen(a, nullptr) && !ENG.wickr_crypto_kdf_meta(nullptr, pv) && !ENG.wickr_crypto_kdf_meta(r->meta, nullptr), "missing argument accepted");
}
PROP(C10, kdf, 60000, 3000000) {
    const wickr_kdf_algo_t &a = algo_at((unsigned)c.draw(7)); kdf_case(c, a); c.label("kdf-" + std::to_string(a.kdf_id)); c.nontrivial(); c.note("kdf %d", a.kdf_id);
}
PROP(C10, real_kdf, 24, 400) { // the real third-party algorithms at full cost
    unsigned i = c.pick({6, pbt::thorough() ? 1u : 0u, pbt::thorough() ? 1u : 0u, 0, 2}); vf_fast_kdf = 0; c.own([] { vf_fast_kdf = 1; }); const wickr_kdf_algo_t &a = algo_at(i);
    kdf_case(c, a); c.label("kdf-" + std::to_string(a.kdf_id)); c.nontrivial(); c.note("real kdf %d", a.kdf_id);
}

// the export format: kdf id | salt | cipher id | iv | tag | ciphertext
static Bytes want_export(const Bytes &e, const Bytes &pw, const Bytes &value) {
    if (e.size() != 1 + 16 + 1 + 12 + 16 + value.size() || e[0] < 1 || e[0] > 4 || e[17] != CIPHER_ID_AES256_GCM) return {};
    Bytes salt(e.begin() + 1, e.begin() + 17), iv(e.begin() + 18, e.begin() + 30), ct, tag; Bytes key = want_hash(algo_at(e[0] - 1), salt, pw);
    ref::aes_gcm(key, iv, {}, value, ct, tag); Bytes r(e.begin(), e.begin() + 30); return cat(cat(r, tag), ct);
}
static Bytes altered(Case &c, const Bytes &e, std::string &how) {
    Bytes a = e;
    switch (c.draw(5)) {
        case 0: a[c.draw(a.size() - 1)] ^= (uint8_t)(1u << c.draw(7)); how = "bit"; break;
        case 1: { size_t pos = c.draw(17); a[pos] = (uint8_t)(a[pos] + 1 + c.draw(254)); how = "header"; break; }
        case 2: a.resize(c.draw(a.size() - 1)); how = "truncated"; break;
        case 3: a = cat(a, c.data1(20)); how = "extended"; break;
        case 4: { static const uint8_t ids[] = {0, 2, 3, 4, 5, 6, 7, 8, 9, 255}; a[0] = ids[c.draw(9)]; if (a == e) a[0] = 1; how = "kdf-id"; break; }
        default: c.tamper(a); how = "edit"; break;
    }
    return a;
}
PROP(C10, cipher, 80000, 4000000) {
    const wickr_kdf_algo_t &a = algo_at((unsigned)c.draw(3)); Bytes pw = gen_passphrase(c), v = c.data1(400); View pv(pw), vv(v);
    Buf e(wickr_crypto_engine_kdf_cipher(&ENG, a, CIPHER_AES256_GCM, vv, pv)); CHECK(c, e, "kdf_cipher failed");
    CHECK(c, to(e) == want_export(to(e), pw, v) && e->bytes[0] == a.kdf_id, "protected bytes are not kdf metadata followed by AES-GCM under the derived key");
    View ev(to(e)); Buf d(wickr_crypto_engine_kdf_decipher(&ENG, ev, pv)); CHECK(c, to(d) == v, "own passphrase does not recover the data");
    Bytes q = other_pass(c, pw); if (!q.empty() && distinct(a, pw, q)) { View qv(q); Buf n(wickr_crypto_engine_kdf_decipher(&ENG, ev, qv)); CHECK(c, !n, "opened with another passphrase"); c.label("other-pass"); }
    std::string how; Bytes t = altered(c, to(e), how); if (t != to(e)) { View tv(t); Buf n(wickr_crypto_engine_kdf_decipher(&ENG, tv, pv)); CHECK(c, !n, "opened although altered (%s)", how.c_str()); c.label(how); }
    Buf u1(wickr_crypto_engine_kdf_cipher(&ENG, a, CIPHER_AES256_CTR, vv, pv)), u2(wickr_crypto_engine_kdf_cipher(&ENG, algo_at(4 + (unsigned)c.draw(3)), CIPHER_AES256_GCM, vv, pv)); CHECK(c, !u1 && !u2, "unsupported KDF or unauthenticated cipher accepted");
    // unauthenticated data under the right key is refused
    Bytes salt = c.blob(16), iv = c.blob(16), f = {(uint8_t)a.kdf_id}; f = cat(f, salt); f.push_back(CIPHER_ID_AES256_CTR); f = cat(cat(f, iv), ref::aes_ctr(want_hash(a, salt, pw), iv, v)); View fv(f); Buf uf(wickr_crypto_engine_kdf_decipher(&ENG, fv, pv)); CHECK(c, !uf, "unauthenticated ciphertext accepted");
    // a genuine container made independently opens
    Bytes g = {(uint8_t)a.kdf_id}; g = cat(g, salt); Bytes gi = c.blob(12), ct, tag; ref::aes_gcm(want_hash(a, salt, pw), gi, {}, v, ct, tag); g.push_back(CIPHER_ID_AES256_GCM); g = cat(cat(cat(g, gi), tag), ct); View gv(g); Buf go(wickr_crypto_engine_kdf_decipher(&ENG, gv, pv)); CHECK(c, to(go) == v, "independently made container does not open");
    vf_kdf_fail = 1; Buf x(wickr_crypto_engine_kdf_cipher(&ENG, a, CIPHER_AES256_GCM, vv, pv)), y(wickr_crypto_engine_kdf_decipher(&ENG, ev, pv)); vf_kdf_fail = 0; CHECK(c, !x && !y, "result although the KDF failed");
    c.nontrivial(); c.note("kdf %d value %zu pass %zu %s", a.kdf_id, v.size(), pw.size(), how.c_str());
}

PROP(C10, exports, 5000, 250000) {
    Bytes ident = gen_identifier(c), sys = c.data1(40), pw = gen_passphrase(c); View pv(pw); Bytes q = other_pass(c, pw); bool qd = !q.empty() && distinct(KDF_SCRYPT_2_17, pw, q); View qv(q);
    DevInfo di = make_devinfo(sys); unsigned kind = (unsigned)c.draw(3); std::string how;
    if (kind == 0) { // storage keys
        Ctx x = make_ctx(c, ident, sys); Buf e(wickr_ctx_export_storage_keys(x.get(), pv)); CHECK(c, e, "export"); View ev(to(e)); StorageKeys k(wickr_ctx_import_storage_keys(ENG, ev, pv)); CHECK(c, k && same(k.get(), x->storage_keys), "imported storage keys differ");
        Buf ser(wickr_storage_keys_serialize(x->storage_keys)); CHECK(c, to(e) == want_export(to(e), pw, to(ser)), "export format");
        if (qd) { StorageKeys n(wickr_ctx_import_storage_keys(ENG, ev, qv)); CHECK(c, !n, "storage keys opened with another passphrase"); }
        Bytes t = altered(c, to(e), how); if (t != to(e)) { View tv(t); StorageKeys n(wickr_ctx_import_storage_keys(ENG, tv, pv)); CHECK(c, !n, "altered storage keys accepted (%s)", how.c_str()); }
        c.label("storage");
    } else if (kind == 1) { // whole context
        Ctx x = make_ctx(c, ident, sys); Buf e(wickr_ctx_export(x.get(), pv)); CHECK(c, e, "export"); View ev(to(e));
        Ctx k(wickr_ctx_import(ENG, wickr_dev_info_copy(x->dev_info), ev, pv)); CHECK(c, k && same(k->id_chain, x->id_chain) && same(k->storage_keys, x->storage_keys), "imported context differs");
        auto refuse = [&](const wickr_buffer_t *b, const wickr_buffer_t *p) { wickr_dev_info_t *d = wickr_dev_info_copy(x->dev_info); wickr_ctx_t *n = wickr_ctx_import(ENG, d, b, p); if (n) { wickr_ctx_destroy(&n); return false; } wickr_dev_info_destroy(&d); return true; };
        if (qd) CHECK(c, refuse(ev, qv), "context opened with another passphrase");
        Bytes t = altered(c, to(e), how); if (t != to(e)) { View tv(t); CHECK(c, refuse(tv, pv), "altered context accepted (%s)", how.c_str()); }
        c.label("context");
    } else { // recovery key
        Buf id(mk(ident)); EcKey sk = gen_ec_key(c); GenRes g(wickr_ctx_gen_new_with_sig_key(ENG, di.get(), sk.get(), id.get())); CHECK(c, g, "context generation");
        Buf e(wickr_ctx_gen_export_recovery_key_passphrase(g.get(), pv)); CHECK(c, e, "export"); View ev(to(e));
        CipherKey k(wickr_ctx_gen_import_recovery_key_passphrase(ENG, ev, pv)); CHECK(c, k && same(k.get(), g->recovery_key), "imported recovery key differs");
        Buf rec(wickr_ctx_gen_result_make_recovery(g.get())); View rv(to(rec));
        { View e2(to(e)), p2(pw); GenRes h(wickr_ctx_gen_with_passphrase(ENG, di.get(), e2.ptr(), p2.ptr(), rv.ptr(), id.get())); CHECK(c, h && same(h->root_keys, g->root_keys) && same(h->recovery_key, g->recovery_key), "recovery by passphrase gives other keys"); }
        if (qd) { CipherKey n(wickr_ctx_gen_import_recovery_key_passphrase(ENG, ev, qv)); CHECK(c, !n, "recovery key opened with another passphrase"); GenRes h(wickr_ctx_gen_with_passphrase(ENG, di.get(), ev.ptr(), qv.ptr(), rv.ptr(), id.get())); CHECK(c, !h, "account recovered with another passphrase"); }
        Bytes t = altered(c, to(e), how); if (t != to(e)) { View tv(t); CipherKey n(wickr_ctx_gen_import_recovery_key_passphrase(ENG, tv, pv)); CHECK(c, !n, "altered recovery key accepted"); GenRes h(wickr_ctx_gen_with_passphrase(ENG, di.get(), tv.ptr(), pv.ptr(), rv.ptr(), id.get())); CHECK(c, !h, "account recovered from an altered recovery key"); }
        c.label("recovery");
    }
    if (qd) c.label("other-pass"); c.nontrivial(); c.note("kind %u pass %zu altered %s", kind, pw.size(), how.c_str());
}
