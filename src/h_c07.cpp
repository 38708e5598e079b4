// C07: signatures verify exactly for the signed data, digest and key
#include "common.h"

static bool verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const Bytes &d) { View v(d); return ENG.wickr_crypto_engine_ec_verify(s, k, v); }
static Sig sign(Case &c, const wickr_ec_key_t *k, const Bytes &d, const wickr_digest_t &dg) {
    View v(d); Sig s(ENG.wickr_crypto_engine_ec_sign(k, v, dg)); CHECK(c, s, "sign failed for %zu bytes", d.size()); return s;
}
static EcKey reimport(Case &c, const wickr_ec_key_t *k, bool priv) {
    View v(to(priv ? k->pri_data : k->pub_data)); EcKey r(ENG.wickr_crypto_engine_ec_key_import(v, priv));
    CHECK(c, r, "exported %s key does not import", priv ? "private" : "public"); return r;
}
static Bytes data(Case &c) { return c.chance(1, 150) ? c.blob1(1300000) : c.data1(c.chance(1, 10) ? 5000 : 200); }
static Bytes strip(Bytes b) { while (b.size() > 66 && b[0] == 0) b.erase(b.begin()); return b; }
static Bytes der_int(Bytes v) { while (v.size() > 1 && v[0] == 0 && !(v[1] & 0x80)) v.erase(v.begin()); if (v.empty() || (v[0] & 0x80)) v.insert(v.begin(), 0); Bytes o = {2, (uint8_t)v.size()}; return cat(o, v); }
static Bytes der_make(const Bytes &r, const Bytes &s) { Bytes b = cat(der_int(r), der_int(s)); Bytes o = {0x30}; if (b.size() > 127) o.push_back(0x81); o.push_back((uint8_t)b.size()); return cat(o, b); }

PROP(C07, roundtrip, 6000, 200000) {
    EcKey k = gen_ec_key(c, true); Bytes d = data(c); wickr_digest_t dg = gen_digest(c);
    Sig s = sign(c, k.get(), d, dg);
    CHECK(c, s->digest_mode.digest_id == dg.digest_id && s->curve.identifier == EC_CURVE_ID_NIST_P521, "signature does not record its digest and curve");
    CHECK(c, verify(s.get(), k.get(), d), "signature does not verify");
    EcKey p = pub_only(k.get()), p2 = reimport(c, k.get(), false), k2 = reimport(c, k.get(), true);
    CHECK(c, same_pub(p2.get(), k.get()) && !p2->pri_data && same(k2.get(), k.get()), "key changed by export and import");
    CHECK(c, verify(s.get(), p.get(), d) && verify(s.get(), p2.get(), d) && verify(s.get(), k2.get(), d), "re-imported key does not verify");
    Bytes r, sv; size_t used = 0; Bytes der = to(s->sig_data);
    CHECK(c, ref::der_sig(der, r, sv, &used) && used == der.size(), "signature is not a DER ECDSA signature");
    CHECK(c, ref::p521_verify(dg.digest_id, ref::p521_decode(to(k->pub_data)), d, r, sv), "independent verifier rejects the signature");
    // raw form
    Buf raw(ENG.wickr_crypto_engine_ecdsa_to_raw(s.get())); CHECK(c, raw && raw->length == 132, "to_raw");
    Bytes rr = strip(r), ss = strip(sv); while (rr.size() < 66) rr.insert(rr.begin(), 0); while (ss.size() < 66) ss.insert(ss.begin(), 0);
    CHECK(c, to(raw) == cat(rr, ss), "raw form is not r||s of 66 bytes each");
    View rv(to(raw)); Sig s2(ENG.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, dg, rv)); CHECK(c, s2 && verify(s2.get(), p.get(), d), "signature converted to raw and back does not verify");
    // serialized form
    Buf ser(wickr_ecdsa_result_serialize(s.get())); CHECK(c, ser && ser->length == EC_CURVE_NIST_P521.signature_size, "serialized signature has no fixed length");
    View sv2(to(ser)); Sig s3(wickr_ecdsa_result_create_from_buffer(sv2)); CHECK(c, s3 && same(s3.get(), s.get()), "parsed signature differs");
    Sig s4(wickr_ecdsa_result_copy(s3.get())); CHECK(c, s4 && verify(s4.get(), p.get(), d), "copied signature");
    // signed by the re-imported private key
    Sig s5 = sign(c, k2.get(), d, dg); CHECK(c, verify(s5.get(), p.get(), d), "signature by the re-imported key");
    c.label(der.size() < 138 ? "short-der" : "full-der"); if (rr[0] == 0 && rr[1] == 0) c.label("short-r"); if (ss[0] == 0 && ss[1] == 0) c.label("short-s"); c.nontrivial(); c.note("%zu bytes, digest %d, der %zu", d.size(), dg.digest_id, der.size());
}

PROP(C07, mismatch, 8000, 250000) {
    EcKey k = gen_ec_key(c); Bytes d = data(c); wickr_digest_t dg = gen_digest(c);
    Sig s = sign(c, k.get(), d, dg); unsigned kind = (unsigned)c.draw(4);
    switch (kind) {
        case 0: { Bytes d2 = d; if (!c.tamper(d2)) return; if (d2.empty()) return; CHECK(c, !verify(s.get(), k.get(), d2), "verifies for different data"); c.label("data"); break; }
        case 1: { EcKey k2 = gen_ec_key(c, true); if (same_pub(k2.get(), k.get())) return; CHECK(c, !verify(s.get(), k2.get(), d), "verifies under a different key"); c.label("key"); break; }
        case 2: { Sig t(wickr_ecdsa_result_copy(s.get())); wickr_digest_t o = gen_digest(c); if (o.digest_id == dg.digest_id) return; t->digest_mode = o; CHECK(c, !verify(t.get(), k.get(), d), "verifies with a different digest"); c.label("digest"); break; }
        case 3: { // altered integers: accepted only when the independent verifier accepts those integers
            Bytes r, sv; ref::der_sig(to(s->sig_data), r, sv); r = strip(r); sv = strip(sv); while (r.size() < 66) r.insert(r.begin(), 0); while (sv.size() < 66) sv.insert(sv.begin(), 0);
            Bytes raw = cat(r, sv); raw[c.draw(131)] ^= (uint8_t)(1u << c.draw(7)); View v(raw); Sig t(ENG.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, dg, v)); if (!t) return;
            bool want = ref::p521_verify(dg.digest_id, ref::p521_decode(to(k->pub_data)), d, Bytes(raw.begin(), raw.begin() + 66), Bytes(raw.begin() + 66, raw.end()));
            bool got = verify(t.get(), k.get(), d); CHECK(c, got == want, "verifies an altered r or s"); CHECK(c, !got, "altered r or s accepted by both"); c.label("integers"); break; }
        case 4: { // extreme integers
            static const char *n = "01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409";
            Bytes nb; for (int i = 0; i < 66; i++) { unsigned x; sscanf(n + 2 * i, "%2x", &x); nb.push_back((uint8_t)x); }
            Bytes r, sv; ref::der_sig(to(s->sig_data), r, sv);
            auto ext = [&](const Bytes &o) -> Bytes { switch (c.draw(6)) { case 0: return o; case 1: return Bytes(1, 0); case 2: return nb; case 3: { Bytes x = nb; x[65]++; return x; } case 4: { Bytes x(66 + c.draw(2), 0xff); return x; } case 5: return Bytes(1, 1); default: { // o + n
                Bytes a = o; while (a.size() > 1 && a[0] == 0) a.erase(a.begin()); while (a.size() < 67) a.insert(a.begin(), 0); Bytes b2 = nb; b2.insert(b2.begin(), 0); unsigned cy = 0; for (int i = 66; i >= 0; i--) { cy += a[i] + b2[i]; a[i] = (uint8_t)cy; cy >>= 8; } return a; } } };
            Bytes r2 = ext(r), s2 = ext(sv); bool same_ints = (r2 == r && s2 == sv); Bytes der = der_make(r2, s2);
            Sig t(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dg, mk(der)));
            bool want = ref::p521_verify(dg.digest_id, ref::p521_decode(to(k->pub_data)), d, r2, s2);
            CHECK(c, verify(t.get(), k.get(), d) == want, "out-of-range integers: library and independent verifier disagree (expected %d)", want); if (!same_ints) CHECK(c, !want, "reference accepts");
            Buf raw(ENG.wickr_crypto_engine_ecdsa_to_raw(t.get())); auto sig_len = [](Bytes b) { while (b.size() > 1 && b[0] == 0) b.erase(b.begin()); return b.size(); };
            if (sig_len(r2) > 66 || sig_len(s2) > 66) CHECK(c, !raw, "to_raw silently produced a raw form of integers that do not fit"); else CHECK(c, raw, "to_raw refused integers that fit");
            if (raw) { View v(to(raw)); Sig u(ENG.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, dg, v)); CHECK(c, u && verify(u.get(), k.get(), d) == want, "raw round trip changed the verdict"); }
            c.label("extreme"); break; }
    }
    CHECK(c, verify(s.get(), k.get(), d), "original no longer verifies");
    c.nontrivial(); c.note("kind %u, %zu bytes", kind, d.size());
}

PROP(C07, malformed, 20000, 600000) {
    EcKey k = gen_ec_key(c); Bytes d = data(c); wickr_digest_t dg = gen_digest(c); Sig s = sign(c, k.get(), d, dg);
    Bytes sb = to(s->sig_data), kb = to(k->pub_data); unsigned kind = (unsigned)c.draw(4);
    EcKey kk; Sig t;
    if (kind == 0) { c.mutate(sb); if (c.chance(1, 2)) c.mutate(sb); if (sb.empty()) return; t.reset(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dg, mk(sb))); kk = pub_only(k.get()); }
    else if (kind == 1) { sb = c.blob1(200); t.reset(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dg, mk(sb))); kk = pub_only(k.get()); }
    else if (kind == 2) { c.mutate(kb); if (kb.empty()) return; kk.reset(wickr_ec_key_create(EC_CURVE_NIST_P521, mk(kb), nullptr)); t.reset(wickr_ecdsa_result_copy(s.get())); }
    else if (kind == 3) { Bytes pb = to(k->pri_data); c.mutate(pb); if (pb.empty()) return; EcKey pk(wickr_ec_key_create(EC_CURVE_NIST_P521, mk(kb), mk(pb))); View v(d); Sig x(ENG.wickr_crypto_engine_ec_sign(pk.get(), v, dg)); // any outcome but a crash; a produced signature must be genuine for that private key
        if (x) { c.label("signed-with-mutated"); Bytes sc = ref::p521_scalar(pb); Bytes r, q; CHECK(c, ref::der_sig(to(x->sig_data), r, q), "not DER"); } c.label("private"); c.nontrivial(); return; }
    else { EcKey p = pub_only(k.get()); View v(d); Sig x(ENG.wickr_crypto_engine_ec_sign(p.get(), v, dg)), y(ENG.wickr_crypto_engine_ec_sign(nullptr, v, dg)), z(ENG.wickr_crypto_engine_ec_sign(k.get(), nullptr, dg)); CHECK(c, !x && !y && !z, "signing without a private key or data");
        CHECK(c, !ENG.wickr_crypto_engine_ec_verify(nullptr, k.get(), v) && !ENG.wickr_crypto_engine_ec_verify(s.get(), nullptr, v) && !ENG.wickr_crypto_engine_ec_verify(s.get(), k.get(), nullptr), "verify with missing argument");
        size_t n = (size_t)c.edge(300); Bytes rb = c.blob(n); View rv(rb); Sig fr(ENG.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, dg, rv)); CHECK(c, (bool)fr == (n == 132), "from_raw accepted %zu bytes", n);
        if (fr) { Buf back(ENG.wickr_crypto_engine_ecdsa_to_raw(fr.get())); CHECK(c, back && to(back) == rb, "raw -> DER -> raw differs"); } c.label("args"); c.nontrivial(); return; }
    bool got = verify(t.get(), kk.get(), d);
    if (got) { Bytes r, q; Bytes der = to(t->sig_data); CHECK(c, ref::der_sig(der, r, q) && ref::p521_verify(dg.digest_id, ref::p521_decode(to(kk->pub_data)), d, r, q), "accepted a signature the independent verifier rejects"); c.label("accepted"); }
    Buf raw(ENG.wickr_crypto_engine_ecdsa_to_raw(t.get()));
    if (raw) CHECK(c, raw->length == 132, "raw length");
    c.label(kind == 2 ? "key" : "signature"); c.nontrivial(); c.note("kind %u accepted %d", kind, got);
}
