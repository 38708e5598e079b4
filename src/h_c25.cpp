// C25: fingerprints identify key and identifier exactly and symmetrically
#include "common.h"

static const wickr_fingerprint_type T = WICKR_FINGERPRINT_TYPE_SHA512;
// The documented computation, over the fixed-length (zero-padded) public key.
static Bytes want_of(const Bytes &id, const Bytes &pub) { Bytes p = pub; p.resize(134, 0); return ref::sha(512, cat(id, p)); }
static Bytes want_pair(const Bytes &a, const Bytes &b) { return ref::sha(512, a > b ? cat(a, b) : cat(b, a)); }
// Public key octets in the form wanted by the case: uncompressed, or compressed with the same point
static Bytes compressed(const Bytes &pub) { Bytes o(68); o[0] = pub[0]; o[1] = 2 + (pub.back() & 1); std::copy(pub.begin() + 2, pub.begin() + 68, o.begin() + 2); return o; }
static EcKey key_with(const Bytes &pub) { return EcKey(wickr_ec_key_create(EC_CURVE_NIST_P521, mk(pub), nullptr)); }
static void render(Case &c, const wickr_fingerprint_t *f, const Bytes &data) {
    for (int sh = 0; sh < 2; sh++) for (int hx = 0; hx < 2; hx++) {
        wickr_fingerprint_output mode = sh ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG; Buf t(hx ? wickr_fingerprint_get_hex(f, mode) : wickr_fingerprint_get_b32(f, mode));
        Bytes full = hx ? ref::hexs(data) : ref::base32(data), want = sh ? Bytes(full.begin(), full.begin() + full.size() / 2) : full;
        CHECK(c, t && to(t) == want, "%s %s rendering is '%.*s', expected '%.*s'", sh ? "short" : "long", hx ? "hex" : "base32", t ? (int)t->length : 4, t ? (char *)t->bytes : "none", (int)want.size(), (char *)want.data());
        CHECK(c, t->bytes[t->length] == 0, "%s %s rendering is not NUL-terminated", sh ? "short" : "long", hx ? "hex" : "base32");
    }
    CHECK(c, to(f->data) == data, "rendering changed the fingerprint");
}

PROP(C25, generate, 60000, 2000000) {
    EcKey k = gen_ec_key(c); bool comp = c.chance(1, 4); Bytes pub = to(k->pub_data); if (comp) { pub = compressed(pub); k = key_with(pub); } else if (c.chance(1, 3)) k = pub_only(k.get());
    Bytes id = c.data1(c.chance(1, 10) ? 2000 : 140); View iv(id);
    Fingerprint f(wickr_fingerprint_gen(ENG, k.get(), iv, T)); Bytes want = want_of(id, pub);
    CHECK(c, f && f->type == T && to(f->data) == want, "fingerprint of identifier %s is %s, expected %s", hex(id).c_str(), f ? S(f->data).c_str() : "none", hex(want).c_str());
    CHECK(c, iv.bytes() == id && to(k->pub_data) == pub, "generation changed its inputs");
    Fingerprint g(wickr_fingerprint_gen(ENG, k.get(), iv, T)), cp(wickr_fingerprint_copy(f.get())); CHECK(c, same(f.get(), g.get()) && same(f.get(), cp.get()), "not deterministic or not copied");
    // another identifier or key gives another fingerprint; boundary moves included
    Bytes id2 = id, pub2 = pub; unsigned kind = (unsigned)c.draw(3); EcKey k2(wickr_ec_key_copy(k.get()));
    if (kind == 0) { if (!c.tamper(id2) || id2.empty()) return; } else if (kind == 1) { EcKey o = gen_ec_key(c); pub2 = to(o->pub_data); k2 = o.get() ? pub_only(o.get()) : std::move(k2); } else if (kind == 2) { id2.push_back((uint8_t)c.draw(255)); } else { id2.insert(id2.end(), pub.begin(), pub.begin() + 1); }
    View iv2(id2); Fingerprint h(wickr_fingerprint_gen(ENG, k2.get(), iv2, T)); CHECK(c, h, "second fingerprint");
    CHECK(c, (to(h->data) == want) == (id2 == id && pub2 == pub), "different identifier or key, same fingerprint (kind %u)", kind);
    render(c, f.get(), want);
    Fingerprint z(wickr_fingerprint_gen(ENG, nullptr, iv, T)), y(wickr_fingerprint_gen(ENG, k.get(), nullptr, T)), x(wickr_fingerprint_gen(ENG, k.get(), iv, (wickr_fingerprint_type)(1 + c.draw(300)))); CHECK(c, !x && !y && !z, "missing or unknown argument accepted");
    if (comp) c.label("compressed-key"); c.label(id.size() > 128 ? "long-id" : "id"); c.nontrivial(); c.note("identifier %zu bytes, key form %zu, kind %u", id.size(), pub.size(), kind);
}

PROP(C25, identities, 40000, 1000000) {
    EcKey ka = gen_ec_key(c), kb = gen_ec_key(c); Bytes ia = gen_identifier(c), ib = c.chance(1, 4) ? ia : gen_identifier(c); if (c.chance(1, 6)) kb = EcKey(wickr_ec_key_copy(ka.get()));
    Identity a = make_root(ka.get(), ia), b = make_root(kb.get(), ib); CHECK(c, a && b, "identity");
    if (c.chance(1, 2)) { Bytes d = to(ka->pub_data); EcKey nk = gen_ec_key(c); b = Identity(wickr_identity_create(IDENTITY_TYPE_NODE, mk(ib), wickr_ec_key_copy(kb.get()), wickr_identity_sign(a.get(), &ENG, kb->pub_data))); } // type and signature do not matter
    Bytes wa = want_of(ia, to(ka->pub_data)), wb = want_of(ib, to(kb->pub_data));
    Fingerprint fa(wickr_identity_get_fingerprint(a.get(), ENG)), fb(wickr_identity_get_fingerprint(b.get(), ENG)); CHECK(c, fa && fb && to(fa->data) == wa && to(fb->data) == wb, "identity fingerprint differs from the documented computation");
    Fingerprint ab(wickr_identity_get_bilateral_fingerprint(a.get(), b.get(), ENG)), ba(wickr_identity_get_bilateral_fingerprint(b.get(), a.get(), ENG)), m(wickr_fingerprint_gen_bilateral(ENG, fa.get(), fb.get(), T)); Bytes w = want_pair(wa, wb);
    CHECK(c, ab && ba && m, "bilateral fingerprint of %s parties failed", wa == wb ? "equal" : "two"); CHECK(c, to(ab->data) == w && to(ba->data) == w && to(m->data) == w, "bilateral fingerprint is %s / %s, expected %s", S(ab->data).c_str(), S(ba->data).c_str(), hex(w).c_str());
    Identity ac(wickr_identity_copy(a.get())); Buf ser(wickr_identity_serialize(b.get())); Identity br(ser ? wickr_identity_create_from_buffer(ser.get(), &ENG) : nullptr); CHECK(c, ac && br, "copy or round trip"); Fingerprint fr(wickr_identity_get_fingerprint(br.get(), ENG)), fc(wickr_identity_get_fingerprint(ac.get(), ENG)), mm(wickr_identity_get_bilateral_fingerprint(br.get(), ac.get(), ENG));
    CHECK(c, same(fr.get(), fb.get()) && same(fc.get(), fa.get()) && same(mm.get(), ab.get()), "copied or reserialized identity has another fingerprint"); render(c, ab.get(), w);
    Fingerprint n1(wickr_identity_get_bilateral_fingerprint(nullptr, b.get(), ENG)), n2(wickr_identity_get_bilateral_fingerprint(a.get(), nullptr, ENG)), n3(wickr_identity_get_fingerprint(nullptr, ENG)); CHECK(c, !n1 && !n2 && !n3, "missing identity accepted");
    if (wa == wb) c.label("same-party"); if (ia == ib) c.label("same-identifier"); c.nontrivial(); c.note("identifiers %zu and %zu bytes", ia.size(), ib.size());
}

// Combination over arbitrary fingerprint data: near-equal values, shared prefixes, other lengths.
PROP(C25, combine, 150000, 6000000) {
    size_t n = c.chance(2, 3) ? 64 : c.size1(80); Bytes a = c.blob(n), b = a; unsigned kind = (unsigned)c.draw(3);
    if (kind == 0) b = c.blob(n); else if (kind == 1) b[c.draw(n - 1)] ^= (uint8_t)(1 << c.draw(7)); else if (kind == 2) { b[c.draw(n - 1)] ^= 0x80; b[n - 1] ^= (uint8_t)c.draw(255); } else c.mutate(b);
    if (b.empty()) return; Fingerprint fa(wickr_fingerprint_create(T, mk(a))), fb(wickr_fingerprint_create(T, mk(b))); CHECK(c, fa && fb, "create");
    Fingerprint ab(wickr_fingerprint_gen_bilateral(ENG, fa.get(), fb.get(), T)), ba(wickr_fingerprint_gen_bilateral(ENG, fb.get(), fa.get(), T));
    if (a.size() != b.size()) { CHECK(c, !ab && !ba, "fingerprints of different length were combined"); c.label("length-mismatch"); }
    else { Bytes w = want_pair(a, b); CHECK(c, ab && ba && to(ab->data) == w && to(ba->data) == w, "combination of %s and %s: %s / %s, expected %s", hex(a).c_str(), hex(b).c_str(), ab ? S(ab->data).c_str() : "none", ba ? S(ba->data).c_str() : "none", hex(w).c_str()); c.label(a == b ? "equal" : "different"); }
    render(c, fa.get(), a); fb->type = (wickr_fingerprint_type)1; Fingerprint x(wickr_fingerprint_gen_bilateral(ENG, fa.get(), fb.get(), T)), y(wickr_fingerprint_gen_bilateral(ENG, fa.get(), fa.get(), (wickr_fingerprint_type)1)), z(wickr_fingerprint_gen_bilateral(ENG, nullptr, fa.get(), T)); CHECK(c, !x && !y && !z, "mismatching type accepted");
    Fingerprint cc(wickr_fingerprint_create(T, nullptr)), cd(wickr_fingerprint_copy(nullptr)); CHECK(c, !cc && !cd && !wickr_fingerprint_get_b32(nullptr, FINGERPRINT_OUTPUT_LONG) && !wickr_fingerprint_get_hex(nullptr, FINGERPRINT_OUTPUT_SHORT), "missing fingerprint");
    c.nontrivial(); c.note("combine %zu and %zu bytes, kind %u", a.size(), b.size(), kind);
}
