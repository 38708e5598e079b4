// C06: symmetric encryption round-trips and detects every alteration
#include "common.h"

static wickr_buffer_t *ENC_ARG(const View &v) { return const_cast<wickr_buffer_t *>((const wickr_buffer_t *)v); }
struct Setup { const wickr_cipher_t *ci; CipherKey key; Bytes keyb, pt, aad, iv; bool has_aad = false, has_iv = false; };
static Setup setup(Case &c, size_t maxpt) {
    Setup s; s.ci = &gen_cipher(c); s.keyb = c.blob(32); s.key.reset(wickr_cipher_key_create(*s.ci, mk(s.keyb)));
    CHECK(c, s.key, "cipher_key_create refused a full-length key");
    s.pt = c.data1(maxpt);
    s.has_aad = s.ci->is_authenticated && c.chance(1, 2); if (s.has_aad) s.aad = c.data1(c.chance(1, 8) ? 3000 : 80);
    s.has_iv = c.chance(2, 3); if (s.has_iv) s.iv = c.blob(s.ci->iv_len);
    return s;
}
static CipherRes encrypt(Case &c, Setup &s) {
    View pt(s.pt), aad(s.aad), iv(s.iv);
    CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(pt, s.has_aad ? (const wickr_buffer_t *)aad : nullptr, s.key.get(), s.has_iv ? (const wickr_buffer_t *)iv : nullptr));
    CHECK(c, r, "encrypt failed: cipher %d, %zu bytes, aad %zu", s.ci->cipher_id, s.pt.size(), s.aad.size());
    CHECK(c, pt.bytes() == s.pt && aad.bytes() == s.aad && iv.bytes() == s.iv && to(s.key->key_data) == s.keyb, "encrypt modified its inputs");
    CHECK(c, same(r->cipher, *s.ci), "result names another cipher");
    CHECK(c, r->iv && r->iv->length == s.ci->iv_len, "IV length");
    if (s.has_iv) CHECK(c, to(r->iv) == s.iv, "the caller's IV was not used"); else s.iv = to(r->iv);
    CHECK(c, r->cipher_text && r->cipher_text->length == s.pt.size(), "ciphertext length differs from plaintext length");
    if (s.ci->is_authenticated) CHECK(c, r->auth_tag && r->auth_tag->length == 16, "tag length"); else CHECK(c, !r->auth_tag, "unauthenticated result carries a tag");
    return r;
}
static Bytes dec(const wickr_cipher_result_t *r, const Bytes *aad, const wickr_cipher_key_t *k, bool only_auth, bool *ok) {
    std::unique_ptr<View> a; if (aad) a.reset(new View(*aad));
    Buf b(ENG.wickr_crypto_engine_cipher_decrypt(r, aad ? (const wickr_buffer_t *)*a : nullptr, k, only_auth));
    *ok = (bool)b; return to(b);
}

PROP(C06, roundtrip, 400000, 15000000) {
    Setup s = setup(c, c.chance(1, 20) ? 20000 : 600);
    CipherRes r = encrypt(c, s); bool ok;
    if (s.ci->is_authenticated) {
        Bytes ct, tag; ref::aes_gcm(s.keyb, s.iv, s.aad, s.pt, ct, tag);
        CHECK(c, to(r->cipher_text) == ct, "GCM ciphertext differs from the independent AES-GCM");
        CHECK(c, to(r->auth_tag) == tag, "GCM tag differs from the independent AES-GCM");
    } else CHECK(c, to(r->cipher_text) == ref::aes_ctr(s.keyb, s.iv, s.pt), "CTR ciphertext differs from the independent AES-CTR");
    bool only = s.ci->is_authenticated ? c.chance(1, 2) : false;
    Bytes out = dec(r.get(), s.has_aad ? &s.aad : nullptr, s.key.get(), only, &ok);
    CHECK(c, ok && out == s.pt, "decrypt(encrypt(x)) != x");
    // through the serialized form and a copy
    Buf ser(wickr_cipher_result_serialize(r.get())); CHECK(c, ser, "serialize failed");
    Bytes want; want.push_back((uint8_t)s.ci->cipher_id); want = cat(cat(cat(want, s.iv), to(r->auth_tag)), to(r->cipher_text));
    CHECK(c, to(ser) == want, "serialized form is not | id | iv | tag | ciphertext |");
    View sv(to(ser)); CipherRes r2(wickr_cipher_result_from_buffer(sv)); CHECK(c, r2 && same(r2.get(), r.get()), "parsed result differs");
    CipherRes r3(wickr_cipher_result_copy(r2.get())); CHECK(c, r3 && same(r3.get(), r.get()), "copied result differs");
    Buf ks(wickr_cipher_key_serialize(s.key.get())); View kv(to(ks)); CipherKey k2(wickr_cipher_key_from_buffer(kv)); CHECK(c, k2 && same(k2.get(), s.key.get()), "parsed key differs");
    out = dec(r3.get(), s.has_aad ? &s.aad : nullptr, k2.get(), only, &ok);
    CHECK(c, ok && out == s.pt, "decrypt after serialization differs");
    if (!s.ci->is_authenticated) { dec(r.get(), nullptr, s.key.get(), true, &ok); CHECK(c, !ok, "only_auth_ciphers accepted CTR ciphertext"); }
    c.label(s.ci->is_authenticated ? "gcm" : "ctr"); if (s.has_aad) c.label("aad"); if (!s.has_iv) c.label("random-iv"); if (s.pt.size() > 4096) c.label("large");
    if (s.pt.size() > 16) c.nontrivial();
    c.note("%s pt=%zu aad=%zu iv=%s", s.ci->is_authenticated ? "gcm" : "ctr", s.pt.size(), s.aad.size(), s.has_iv ? "given" : "random");
}

PROP(C06, tamper, 600000, 20000000) {
    Setup s = setup(c, 300); while (!s.ci->is_authenticated) { s.ci = &CIPHER_AES256_GCM; s.key.reset(wickr_cipher_key_create(*s.ci, mk(s.keyb))); if (s.has_iv) s.iv.resize(12, 7); }
    CipherRes r = encrypt(c, s); bool ok;
    unsigned kind = (unsigned)c.draw(7); Bytes b; const Bytes *aad = s.has_aad ? &s.aad : nullptr; Bytes aad2 = s.aad;
    static const char *names[] = {"ciphertext", "tag", "iv", "key", "aad", "serialized", "cipher-id", "aad-presence"};
    CipherKey k(wickr_cipher_key_copy(s.key.get())); CipherRes t(wickr_cipher_result_copy(r.get()));
    bool expect_parse = true;
    switch (kind) {
        case 0: b = to(r->cipher_text); if (!c.tamper(b) || b.empty()) return; wickr_buffer_destroy(&t->cipher_text); t->cipher_text = mk(b); break;
        case 1: b = to(r->auth_tag); c.tamper(b); if (b.empty()) return; wickr_buffer_destroy(&t->auth_tag); t->auth_tag = mk(b); break;
        case 2: b = to(r->iv); b[c.draw(b.size() - 1)] ^= (uint8_t)(1 + c.draw(254)); wickr_buffer_destroy(&t->iv); t->iv = mk(b); break;
        case 3: b = s.keyb; b[c.draw(31)] ^= (uint8_t)(1u << c.draw(7)); k.reset(wickr_cipher_key_create(*s.ci, mk(b))); break;
        case 4: if (!s.has_aad) return; c.tamper(aad2); if (aad2.empty()) return; aad = &aad2; break;
        case 5: { Buf ser(wickr_cipher_result_serialize(r.get())); b = to(ser); c.tamper(b); View v(b); t.reset(wickr_cipher_result_from_buffer(v)); if (!t) expect_parse = false; break; }
        case 6: { Buf ser(wickr_cipher_result_serialize(r.get())); b = to(ser); b[0] = (uint8_t)(1 + c.draw(254)); View v(b); t.reset(wickr_cipher_result_from_buffer(v)); if (!t) expect_parse = false;
                  if (t && c.chance(1, 2)) k.reset(wickr_cipher_key_create(t->cipher, mk(s.keyb))); break; }
        case 7: if (s.has_aad) aad = nullptr; else { aad2 = c.blob1(40); aad = &aad2; } break;
    }
    c.label(names[kind]);
    if (expect_parse) {
        CHECK(c, t && k, "copy failed");
        bool was_ctr = !t->cipher.is_authenticated;
        Bytes out = dec(t.get(), was_ctr ? nullptr : aad, k.get(), true, &ok);
        CHECK(c, !ok, "authenticated decrypt accepted altered %s (%zu bytes out)", names[kind], out.size());
        if (!was_ctr) { dec(t.get(), aad, k.get(), false, &ok); CHECK(c, !ok, "decrypt accepted altered %s", names[kind]); }
    } else c.label("rejected-by-parser");
    // the failed attempt leaves the key and the true result usable
    Bytes out = dec(r.get(), s.has_aad ? &s.aad : nullptr, s.key.get(), true, &ok);
    CHECK(c, ok && out == s.pt, "original no longer decrypts");
    c.nontrivial(); c.note("altered %s of pt=%zu", names[kind], s.pt.size());
}

PROP(C06, arguments, 200000, 4000000) {
    Setup s = setup(c, 100); bool ok;
    unsigned kind = (unsigned)c.draw(7);
    View pt(s.pt);
    switch (kind) {
        case 0: { // an IV of any other length than the cipher's is refused without being read past its end
            size_t n = 1 + (size_t)c.draw(39); if (n == s.ci->iv_len) return; View iv(c.blob(n));
            CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(pt, nullptr, s.key.get(), iv));
            CHECK(c, !r, "encrypt accepted an IV of %zu bytes for cipher %d", n, s.ci->cipher_id); c.label("iv-length"); break; }
        case 1: { View aad(c.blob1(20)); CipherKey k(wickr_cipher_key_create(CIPHER_AES256_CTR, mk(s.keyb)));
            CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(pt, aad, k.get(), nullptr)); CHECK(c, !r, "CTR silently ignored associated data");
            CipherRes q(ENG.wickr_crypto_engine_cipher_encrypt(pt, nullptr, k.get(), nullptr)); Buf o(ENG.wickr_crypto_engine_cipher_decrypt(q.get(), aad, k.get(), false)); CHECK(c, !o, "CTR decrypt silently ignored associated data"); c.label("ctr-aad"); break; }
        case 2: { size_t n = (size_t)c.draw(64); if (n == 32) return; Bytes kb = c.blob(n); Buf kd(mk(kb)); CipherKey k(wickr_cipher_key_create(*s.ci, kd.get())); if (k) { k.release(); c.fail("cipher_key_create accepted %zu key bytes", n); } c.label("key-length"); break; }
        case 3: { // key of the other cipher
            CipherRes r = encrypt(c, s); CipherKey k(wickr_cipher_key_create(s.ci->is_authenticated ? CIPHER_AES256_CTR : CIPHER_AES256_GCM, mk(s.keyb)));
            dec(r.get(), s.has_aad ? &s.aad : nullptr, k.get(), false, &ok); CHECK(c, !ok, "decrypt accepted a key of another cipher"); c.label("key-cipher"); break; }
        case 4: { CipherRes r = encrypt(c, s); CipherRes t(wickr_cipher_result_copy(r.get())); wickr_buffer_destroy(&t->auth_tag); t->auth_tag = nullptr;
            if (!s.ci->is_authenticated) return; dec(t.get(), s.has_aad ? &s.aad : nullptr, s.key.get(), false, &ok); CHECK(c, !ok, "GCM decrypt without a tag succeeded");
            CHECK(c, !wickr_cipher_result_is_valid(t.get()), "result without tag called valid"); Buf ser(wickr_cipher_result_serialize(t.get())); CHECK(c, !ser, "result without tag serialized"); c.label("no-tag"); break; }
        case 5: { Buf iv(mk(c.blob1(40))), tag(mk(c.blob_upto(40))), ct(mk(c.blob1(20)));
            bool good = iv->length == s.ci->iv_len && (s.ci->is_authenticated ? (tag && tag.get()->length == 16) : (!tag || tag.get()->length == 0));
            CipherRes r(wickr_cipher_result_create(*s.ci, iv.get(), ct.get(), tag.get()));
            CHECK(c, (bool)r == good, "cipher_result_create iv %zu tag %zu: %d", iv->length, tag ? tag->length : (size_t)0, (int)(bool)r);
            if (r) { iv.release(); ct.release(); tag.release(); } c.label("result-create"); break; }
        case 6: { CipherRes a(ENG.wickr_crypto_engine_cipher_encrypt(nullptr, nullptr, s.key.get(), nullptr)), b2(ENG.wickr_crypto_engine_cipher_encrypt(pt, nullptr, nullptr, nullptr)); CHECK(c, !a && !b2, "encrypt with missing argument");
            CipherRes r = encrypt(c, s); Buf x(ENG.wickr_crypto_engine_cipher_decrypt(nullptr, nullptr, s.key.get(), false)), y(ENG.wickr_crypto_engine_cipher_decrypt(r.get(), nullptr, nullptr, false)); CHECK(c, !x && !y, "decrypt with missing argument"); c.label("missing"); break; }
        case 7: { uint8_t id = (uint8_t)c.draw(255); const wickr_cipher_t *f = wickr_cipher_find(id); CHECK(c, (f != nullptr) == (id <= 1), "cipher_find(%u)", id); if (f) CHECK(c, f->cipher_id == id && f->key_len == 32, "cipher_find(%u) parameters", id); c.label("find"); break; }
    }
    c.nontrivial(); c.note("kind=%u", kind);
}
