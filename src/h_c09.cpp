// C09: digests, HMAC and HKDF equal their standards for every input
#include "common.h"
#include <unistd.h>

PROP(C09, digest, 400000, 15000000) {
    wickr_digest_t dg = gen_digest(c); Bytes d = c.chance(1, 40) ? c.data_upto(20000) : c.data_upto(400), salt; bool hs = c.chance(1, 2); if (hs) salt = c.data1(200);
    View v(d), sv(salt); Buf o(ENG.wickr_crypto_engine_digest(v, hs ? (const wickr_buffer_t *)sv : nullptr, dg));
    Bytes want = ref::digest(dg.digest_id, d, salt);
    CHECK(c, to(o) == want, "digest %d of %zu bytes (+%zu salt): %s, expected %s", dg.digest_id, d.size(), salt.size(), S(o.get()).c_str(), hex(want).c_str());
    CHECK(c, o->length == dg.size && v.bytes() == d, "length or input");
    Buf n(ENG.wickr_crypto_engine_digest(nullptr, sv, dg)); CHECK(c, !n, "digest of nothing");
    wickr_digest_t bad = dg; bad.digest_id = (wickr_digest_id)(4 + c.draw(20)); Buf b(ENG.wickr_crypto_engine_digest(v, nullptr, bad)); CHECK(c, !b, "unknown digest accepted");
    uint8_t id = (uint8_t)c.draw(255); const wickr_digest_t *f = wickr_digest_find_with_id(id); CHECK(c, (f != nullptr) == (id >= 1 && id <= 3), "digest_find(%u)", id); if (f) CHECK(c, f->digest_id == id && f->size == (id == 1 ? 32 : id == 2 ? 48 : 64), "digest parameters");
    size_t m = (d.size() + salt.size()) % (dg.digest_id == 1 ? 64 : 128); if (m > 50) c.label("near-block-end"); if (hs) c.label("salted"); if (d.empty()) c.label("empty"); if (d.size() > 1) c.nontrivial();
    c.note("digest %d, %zu+%zu bytes", dg.digest_id, d.size(), salt.size());
}

PROP(C09, file, 40000, 1000000) {
    wickr_digest_t dg = gen_digest(c); size_t n = c.pick({3, 2, 2}) == 0 ? c.size(600) : c.chance(1, 2) ? 4096 * (size_t)c.draw(4) + (size_t)c.draw(2) - 1 + 1 : c.size(20000);
    Bytes d = c.blob(n); std::string p = pbt::scratch() + "/digest"; FILE *f = fopen(p.c_str(), "w+b"); CHECK(c, f, "scratch file"); if (n) fwrite(d.data(), 1, n, f); rewind(f);
    size_t off = c.chance(1, 6) ? (size_t)c.draw(n) : 0; fseek(f, (long)off, SEEK_SET);
    Buf o(ENG.wickr_crypto_engine_digest_file(f, dg)); fclose(f); unlink(p.c_str());
    CHECK(c, to(o) == ref::digest(dg.digest_id, Bytes(d.begin() + off, d.end())), "file digest of %zu bytes from %zu", n, off);
    Buf x(ENG.wickr_crypto_engine_digest_file(nullptr, dg)); CHECK(c, !x, "null file");
    if (n && n % 4096 == 0) c.label("exact-chunk"); if (n > 4096) c.label("multi-chunk"); c.nontrivial(); c.note("digest %d, file %zu", dg.digest_id, n);
}

PROP(C09, hmac, 400000, 15000000) {
    wickr_digest_t dg = gen_digest(c); Bytes k = c.data1(c.chance(1, 4) ? 400 : 140), d = c.data_upto(c.chance(1, 40) ? 15000 : 300); View kv(k), dv(d);
    Buf o(ENG.wickr_crypto_engine_hmac_create(dv, kv, dg)); Bytes want = ref::hmac(dg.digest_id, k, d); CHECK(c, to(o) == want, "HMAC digest %d key %zu data %zu differs", dg.digest_id, k.size(), d.size());
    View wv(want); CHECK(c, ENG.wickr_crypto_engine_hmac_verify(dv, kv, dg, wv), "exact tag refused");
    Bytes t = want; unsigned kind = (unsigned)c.draw(4); bool r;
    if (kind == 0) { c.tamper(t); if (t == want) return; View tv(t); r = ENG.wickr_crypto_engine_hmac_verify(dv, kv, dg, tv); }
    else if (kind == 1) { Bytes d2 = d; c.tamper(d2); if (d2 == d) return; View d2v(d2); r = ENG.wickr_crypto_engine_hmac_verify(d2v, kv, dg, wv); }
    else if (kind == 2) { Bytes k2 = k; c.tamper(k2); if (k2.empty() || k2 == k) return; View k2v(k2); r = ENG.wickr_crypto_engine_hmac_verify(dv, k2v, dg, wv); if (ref::hmac(dg.digest_id, k2, d) == want) return; }
    else if (kind == 3) { wickr_digest_t o2 = gen_digest(c); if (o2.digest_id == dg.digest_id) return; r = ENG.wickr_crypto_engine_hmac_verify(dv, kv, o2, wv); }
    else { r = ENG.wickr_crypto_engine_hmac_verify(dv, kv, dg, nullptr) || ENG.wickr_crypto_engine_hmac_verify(nullptr, kv, dg, wv) || ENG.wickr_crypto_engine_hmac_verify(dv, nullptr, dg, wv); Bytes pre(want.begin(), want.begin() + c.draw(want.size() - 1)); View p(pre); r = r || ENG.wickr_crypto_engine_hmac_verify(dv, kv, dg, p); }
    CHECK(c, !r, "HMAC verification accepted a wrong %s", kind == 0 ? "tag" : kind == 1 ? "message" : kind == 2 ? "key" : kind == 3 ? "digest" : "or missing argument");
    if (k.size() > (dg.digest_id == 1 ? 64u : 128u)) c.label("long-key"); c.nontrivial(); c.note("digest %d key %zu data %zu kind %u", dg.digest_id, k.size(), d.size(), kind);
}

PROP(C09, hkdf, 300000, 10000000) {
    Bytes ikm = c.data1(200), salt, info; if (c.chance(1, 2)) salt = c.data1(200); if (c.chance(2, 3)) info = c.data1(c.chance(1, 6) ? 1100 : 100);
    wickr_digest_t dg = gen_digest(c); View iv(ikm), sv(salt), nv(info); const wickr_buffer_t *sp = salt.empty() ? nullptr : (const wickr_buffer_t *)sv, *np = info.empty() ? nullptr : (const wickr_buffer_t *)nv;
    unsigned kind = (unsigned)c.draw(3);
    if (kind == 0) { Buf o(openssl_hkdf(iv, sp, np, dg)); if (info.size() > 1024 && !o) c.label("over-limit"); else CHECK(c, to(o) == ref::hkdf(dg.digest_id, ikm, salt, info, dg.size), "HKDF digest %d differs", dg.digest_id); c.label("extract-expand"); }
    else if (kind == 1) { size_t n = c.size1(c.chance(1, 3) ? 255 * dg.size + 5 : 200); Buf o(openssl_hkdf_expand(iv, np, dg, n)); if (info.size() > 1024 && !o) c.label("over-limit"); else if (n > 255u * dg.size) CHECK(c, !o, "expand beyond the limit accepted (%zu)", n); else CHECK(c, to(o) == ref::hkdf_expand(dg.digest_id, ikm, info, n), "HKDF-Expand digest %d to %zu differs", dg.digest_id, n); c.label("expand"); }
    else if (kind == 2) { // through the KDF interface
        const wickr_kdf_algo_t *a = wickr_hkdf_algo_for_digest(dg); CHECK(c, a, "no HKDF algorithm for digest"); KdfMeta m(wickr_kdf_meta_create(*a, mk(salt), mk(info))); CHECK(c, (bool)m == !(salt.empty() && info.empty()), "HKDF metadata without salt and info"); if (!m) return;
        KdfRes r(ENG.wickr_crypto_kdf_meta(m.get(), iv)); if (info.size() > 1024 && !r) return; CHECK(c, r && to(r->hash) == ref::hkdf(dg.digest_id, ikm, salt, info, dg.size) && same(r->meta, m.get()), "HKDF through kdf_meta differs"); c.label("kdf-meta"); }
    else { size_t n = c.size(600); if (info.empty()) return; KdfMeta m(wickr_kdf_meta_create_hkdf_expand(&dg, wickr_buffer_copy(nv), n));
        if (dg.digest_id != DIGEST_ID_SHA512) { CHECK(c, !m, "expand metadata for an unsupported digest"); return; }
        if (!m) { CHECK(c, n == 0 || n > 255, "expand metadata of %zu bytes refused", n); c.label("refused-size"); return; }
        KdfRes r(ENG.wickr_crypto_kdf_meta(m.get(), iv)); if (n == 0) { CHECK(c, !r, "zero-length output"); return; } if (info.size() > 1024 && !r) return;
        CHECK(c, r && to(r->hash) == ref::hkdf_expand(dg.digest_id, ikm, info, n), "HKDF expand of %zu bytes through its metadata gave %zu bytes that are not the requested output", n, r ? r->hash->length : (size_t)0); c.label("kdf-expand"); }
    c.nontrivial(); c.note("kind %u digest %d ikm %zu salt %zu info %zu", kind, dg.digest_id, ikm.size(), salt.size(), info.size());
}
