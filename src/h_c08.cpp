// C08: key agreement is symmetric, correct, and bound to its parameters
#include "common.h"
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/obj_mac.h>

// curve equation, independently of point decoding
static bool on_curve(const Bytes &x, const Bytes &y) {
    static BIGNUM *p = nullptr, *b = nullptr; static BN_CTX *bc = nullptr;
    if (!p) { bc = BN_CTX_new(); p = BN_new(); BN_one(p); BN_lshift(p, p, 521); BN_sub_word(p, 1);
        BN_hex2bn(&b, "0051953EB9618E1C9A1F929A21A0B68540EEA2DA725B99B315F3B8B489918EF109E156193951EC7E937B1652C0BD3BB1BF073573DF883D2C34F1EF451FD46B503F00"); }
    BIGNUM *X = BN_bin2bn(x.data(), (int)x.size(), nullptr), *Y = BN_bin2bn(y.data(), (int)y.size(), nullptr), *l = BN_new(), *r = BN_new(), *t = BN_new(); bool ok = false;
    if (BN_cmp(X, p) < 0 && BN_cmp(Y, p) < 0) { BN_mod_sqr(l, Y, p, bc); BN_mod_sqr(r, X, p, bc); BN_mod_mul(r, r, X, p, bc); BN_copy(t, X); BN_mul_word(t, 3); BN_mod_sub(r, r, t, p, bc); BN_mod_add(r, r, b, p, bc); ok = BN_cmp(l, r) == 0; }
    BN_free(X); BN_free(Y); BN_free(l); BN_free(r); BN_free(t); return ok;
}

PROP(C08, shared_secret, 8000, 250000) {
    EcKey a = gen_ec_key(c, true), b = gen_ec_key(c, true);
    EcKey bp = pub_only(b.get()), ap = pub_only(a.get());
    Buf s1(ENG.wickr_crypto_engine_gen_shared_secret(a.get(), bp.get())), s2(ENG.wickr_crypto_engine_gen_shared_secret(b.get(), ap.get()));
    CHECK(c, s1 && s2 && eq(s1.get(), s2.get()), "the two parties disagree");
    Bytes sc = ref::p521_scalar(to(a->pri_data)); CHECK(c, !sc.empty(), "private key is not an ECPrivateKey");
    CHECK(c, to(s1) == ref::p521_ecdh(sc, ref::p521_decode(to(b->pub_data))), "secret differs from the independent ECDH");
    Buf n1(ENG.wickr_crypto_engine_gen_shared_secret(ap.get(), bp.get())), n2(ENG.wickr_crypto_engine_gen_shared_secret(a.get(), nullptr)), n3(ENG.wickr_crypto_engine_gen_shared_secret(nullptr, bp.get()));
    CHECK(c, !n1 && !n2 && !n3, "secret produced without a private key or peer");
    EcKey x = gen_ec_key(c); if (!same_pub(x.get(), b.get())) { Buf o(ENG.wickr_crypto_engine_gen_shared_secret(a.get(), x.get())); CHECK(c, o && !eq(o.get(), s1.get()), "different peers give the same secret"); }
    if (to(s1)[0] == 0 && to(s1)[1] == 0) c.label("leading-zeros"); c.nontrivial(); c.note("secret %s", S(s1.get()).substr(0, 12).c_str());
}

PROP(C08, import_public, 30000, 1000000) {
    EcKey k = gen_ec_key(c, false); Bytes pub = to(k->pub_data); CHECK(c, pub.size() == 134 && pub[0] == 0 && pub[1] == 4, "public form");
    unsigned kind = (unsigned)c.draw(5); Bytes b = pub;
    switch (kind) {
        case 0: break;
        case 1: c.mutate(b); break;
        case 2: { b[c.range(2, 133)] ^= (uint8_t)(1u << c.draw(7)); break; }
        case 3: { Bytes x(pub.begin() + 2, pub.begin() + 68); uint8_t par = pub[133] & 1; b = {0, (uint8_t)(2 + (c.chance(1, 2) ? par : 1 - par))}; if (c.chance(1, 2)) x[c.draw(65)] ^= (uint8_t)(1 + c.draw(254)); b.insert(b.end(), x.begin(), x.end()); c.label("compressed"); break; }
        case 4: { static const uint8_t heads[] = {0, 2, 3, 5, 6, 7, 1, 8}; b[1] = heads[c.draw(7)]; if (b[1] == 0 && c.chance(1, 2)) b.resize(2); break; }
        case 5: { Bytes v = c.blob_upto(160); b = v; if (!b.empty() && c.chance(2, 3)) b[0] = 0; break; }
    }
    View v(b); EcKey r(b.empty() ? nullptr : ENG.wickr_crypto_engine_ec_key_import(v, false));
    Bytes want = b.empty() ? Bytes() : ref::p521_decode(b);
    if (b.size() == 134 && b[0] == 0 && b[1] == 4) CHECK(c, want.empty() == !on_curve(Bytes(b.begin() + 2, b.begin() + 68), Bytes(b.begin() + 68, b.end())), "reference mismatch");
    CHECK(c, (bool)r == !want.empty(), "import of %s: %s, but the bytes %s a point of the curve", hex(b, 8).c_str(), r ? "accepted" : "refused", want.empty() ? "are not" : "are");
    if (r) {
        CHECK(c, !r->pri_data, "public import produced a private key"); CHECK(c, ref::p521_decode(to(r->pub_data)) == want, "imported another point");
        if (b == pub) CHECK(c, same_pub(r.get(), k.get()), "export then import changed the key");
        View v2(to(r->pub_data)); EcKey r2(ENG.wickr_crypto_engine_ec_key_import(v2, false)); CHECK(c, r2 && same_pub(r2.get(), r.get()), "import is not stable");
        EcKey me = pool_key(5); Buf s(ENG.wickr_crypto_engine_gen_shared_secret(me.get(), r.get())); CHECK(c, s && to(s) == ref::p521_ecdh(ref::p521_scalar(to(me->pri_data)), want), "secret with imported key");
        c.label("accepted");
    } else c.label("refused");
    c.nontrivial(); c.note("kind %u len %zu %s", kind, b.size(), r ? "accepted" : "refused");
}

static Bytes other_curve_der(int nid) { EC_KEY *k = EC_KEY_new_by_curve_name(nid); BIGNUM *d = BN_new(); BN_set_word(d, 0x1234567); EC_KEY_set_private_key(k, d); EC_POINT *p = EC_POINT_new(EC_KEY_get0_group(k)); EC_POINT_mul(EC_KEY_get0_group(k), p, d, nullptr, nullptr, nullptr); EC_KEY_set_public_key(k, p); unsigned char *o = nullptr; int n = i2d_ECPrivateKey(k, &o); Bytes b(o, o + n); OPENSSL_free(o); EC_POINT_free(p); BN_free(d); EC_KEY_free(k); return b; }

PROP(C08, import_private, 8000, 250000) {
    EcKey k = gen_ec_key(c, true); Bytes b = to(k->pri_data); unsigned kind = (unsigned)c.draw(5);
    bool must_fail = false, must_pass = false;
    switch (kind) {
        case 0: must_pass = true; break;
        case 1: c.mutate(b); break;
        case 2: { static const int nids[] = {NID_X9_62_prime256v1, NID_secp384r1, NID_secp256k1, NID_secp224r1}; b = other_curve_der(nids[c.draw(3)]); must_fail = true; break; }
        case 3: { // public half of another key: not a matching private key
            EcKey o = gen_ec_key(c); if (same_pub(o.get(), k.get())) return; Bytes pt(to(k->pub_data)), po(to(o->pub_data)); auto it = std::search(b.begin(), b.end(), pt.begin() + 1, pt.end()); if (it == b.end()) return; std::copy(po.begin() + 1, po.end(), it); must_fail = true; break; }
        case 4: b = to(k->pub_data); must_fail = true; break;
        case 5: b = c.blob1(300); break;
    }
    if (b.empty()) return;
    View v(b); EcKey r(ENG.wickr_crypto_engine_ec_key_import(v, true));
    if (must_pass) CHECK(c, r && same(r.get(), k.get()), "exported private key does not import unchanged");
    if (must_fail) CHECK(c, !r, "imported %s as a private key", kind == 2 ? "a key of another curve" : kind == 3 ? "a private key with the public half of another key" : "public bytes");
    if (r) {
        CHECK(c, r->pri_data && r->pub_data && r->curve.identifier == EC_CURVE_ID_NIST_P521, "imported key incomplete");
        Bytes sc = ref::p521_scalar(to(r->pri_data)); CHECK(c, !sc.empty(), "imported private part is not an ECPrivateKey");
        CHECK(c, ref::p521_pub_of(sc) == ref::p521_decode(to(r->pub_data)), "imported key pair does not match: its public part is not the private scalar times the generator");
        View d(Bytes{1, 2, 3}); Sig s(ENG.wickr_crypto_engine_ec_sign(r.get(), d, DIGEST_SHA_512)); CHECK(c, s && ENG.wickr_crypto_engine_ec_verify(s.get(), r.get(), d), "imported key pair cannot verify its own signature");
        c.label("accepted");
    } else c.label("refused");
    { View pv(to(k->pri_data)); EcKey x(ENG.wickr_crypto_engine_ec_key_import(pv, false)); CHECK(c, !x, "private key bytes imported as a public key"); EcKey y(ENG.wickr_crypto_engine_ec_key_import(nullptr, true)); CHECK(c, !y, "null import"); }
    c.nontrivial(); c.note("kind %u len %zu", kind, b.size());
}

struct Params { wickr_kdf_algo_t algo; int digest; bool expand; Bytes salt, info; };
static Params gen_params(Case &c) {
    Params p; unsigned k = (unsigned)c.draw(3); p.expand = k == 3; p.algo = k == 0 ? KDF_HKDF_SHA256 : k == 1 ? KDF_HKDF_SHA384 : k == 2 ? KDF_HKDF_SHA512 : KDF_HKDF_SHA512_EXPAND;
    p.digest = k == 0 ? DIGEST_ID_SHA256 : k == 1 ? DIGEST_ID_SHA384 : DIGEST_ID_SHA512;
    if (p.expand) { p.algo.output_size = 32; p.info = c.data1(60); }
    else { if (c.chance(2, 3)) p.salt = c.data1(80); if (p.salt.empty() || c.chance(1, 2)) p.info = c.data1(c.chance(1, 20) ? 1024 : 80); }
    return p;
}
static KdfMeta meta_of(const Params &p) { return KdfMeta(wickr_kdf_meta_create(p.algo, mk(p.salt), mk(p.info))); }
static Bytes ref_key(const Params &p, const Bytes &secret) { return p.expand ? ref::hkdf_expand(p.digest, secret, p.info, 32) : ref::hkdf(p.digest, secret, p.salt, p.info, 32); }

PROP(C08, cipher_ctx, 8000, 250000) {
    const wickr_cipher_t &ci = gen_cipher(c); EcKey bob = gen_ec_key(c, true); EcKey bobp = pub_only(bob.get());
    EcdhCtx alice; if (c.chance(1, 4)) alice.reset(wickr_ecdh_cipher_ctx_create(ENG, EC_CURVE_NIST_P521, ci)); else { EcKey k = gen_ec_key(c); alice.reset(wickr_ecdh_cipher_ctx_create_key(ENG, k.release(), ci)); }
    CHECK(c, alice, "ctx"); EcKey alicep = pub_only(alice->local_key);
    if (same_pub(alicep.get(), bobp.get())) return;
    Params p = gen_params(c); KdfMeta m = meta_of(p); CHECK(c, m, "kdf meta refused");
    Bytes pt = c.chance(1, 400) ? c.blob1(1300000) : c.data1(300); View pv(pt);
    CipherRes ct(wickr_ecdh_cipher_ctx_cipher(alice.get(), pv, bobp.get(), m.get())); if (!ct && p.info.size() > 1024) { c.label("info-over-limit"); return; } CHECK(c, ct && same(ct->cipher, ci), "cipher failed");
    Bytes secret = ref::p521_ecdh(ref::p521_scalar(to(bob->pri_data)), ref::p521_decode(to(alicep->pub_data)));
    Bytes key = ref_key(p, secret), e, tag; if (ci.is_authenticated) ref::aes_gcm(key, to(ct->iv), {}, pt, e, tag); else e = ref::aes_ctr(key, to(ct->iv), pt);
    CHECK(c, to(ct->cipher_text) == e && to(ct->auth_tag) == tag, "ciphertext differs from ECDH + HKDF + cipher computed independently");
    EcdhCtx b(wickr_ecdh_cipher_ctx_create_key(ENG, wickr_ec_key_copy(bob.get()), ci)); EcdhCtx b2(wickr_ecdh_cipher_ctx_copy(b.get())); CHECK(c, b2, "copy"); b.reset();
    KdfMeta m2(wickr_kdf_meta_copy(m.get()));
    Buf out(wickr_ecdh_cipher_ctx_decipher(b2.get(), ct.get(), alicep.get(), m2.get())); CHECK(c, to(out) == pt, "holder of the private key does not recover the data");
    // nobody else
    unsigned kind = (unsigned)c.draw(6); Params q = p; EcdhCtx o(wickr_ecdh_cipher_ctx_copy(b2.get())); EcKey rp = pub_only(alicep.get());
    switch (kind) {
        case 0: { EcKey x = gen_ec_key(c); if (same_pub(x.get(), bob.get())) return; o.reset(wickr_ecdh_cipher_ctx_create_key(ENG, x.release(), ci)); break; }
        case 1: if (p.expand) return; if (q.salt.empty()) q.salt = c.blob1(30); else { // HMAC pads keys with zeros and hashes long ones: only a genuinely different salt counts
                c.tamper(q.salt); if (q.salt.empty()) return; Bytes a = p.salt, d = q.salt; a.resize(128, 0); d.resize(128, 0); if (a == d) return; } { Bytes z = q.salt; bool allz = true; for (auto x : z) if (x) allz = false; if (allz && (p.salt.empty())) return; } break;
        case 2: if (q.info.empty()) q.info = c.blob1(30); else { c.tamper(q.info); if (q.info.empty()) return; } break;
        case 3: { if (p.expand) return; int d; do { q = p; unsigned k = (unsigned)c.draw(2); q.algo = k == 0 ? KDF_HKDF_SHA256 : k == 1 ? KDF_HKDF_SHA384 : KDF_HKDF_SHA512; d = k == 0 ? DIGEST_ID_SHA256 : k == 1 ? DIGEST_ID_SHA384 : DIGEST_ID_SHA512; q.digest = d; if (d == p.digest) return; } while (0); break; }
        case 4: { const wickr_cipher_t &oc = ci.is_authenticated ? CIPHER_AES256_CTR : CIPHER_AES256_GCM; o.reset(wickr_ecdh_cipher_ctx_create_key(ENG, wickr_ec_key_copy(bob.get()), oc)); break; }
        case 5: { EcKey x = gen_ec_key(c); if (same_pub(x.get(), alicep.get())) return; rp = pub_only(x.get()); break; }
        case 6: if (!ci.is_authenticated) return; { Bytes t = to(ct->cipher_text); t[c.draw(t.size() - 1)] ^= (uint8_t)(1u << c.draw(7)); wickr_buffer_destroy(&ct->cipher_text); ct->cipher_text = mk(t); } break;
    }
    KdfMeta mq = meta_of(q); CHECK(c, mq, "meta");
    Buf bad(wickr_ecdh_cipher_ctx_decipher(o.get(), ct.get(), rp.get(), mq.get()));
    static const char *kn[] = {"key", "salt", "info", "digest", "cipher", "remote", "ciphertext"};
    if (ci.is_authenticated || kind == 4) CHECK(c, !bad, "deciphered with a different %s", kn[kind]);
    else if (pt.size() >= 8) CHECK(c, to(bad) != pt, "recovered the data with a different %s", kn[kind]);
    KdfMeta sm(wickr_kdf_meta_create(KDF_SCRYPT_2_17, mk(Bytes(16, 1)), nullptr)); CipherRes none(wickr_ecdh_cipher_ctx_cipher(alice.get(), pv, bobp.get(), sm.get())); CHECK(c, !none, "accepted a passphrase KDF");
    c.label(kn[kind]); if (p.expand) c.label("expand"); c.nontrivial(); c.note("wrong %s, pt %zu, salt %zu info %zu", kn[kind], pt.size(), p.salt.size(), p.info.size());
}
