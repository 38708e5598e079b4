// C14: any bytes are parsed into a valid object or cleanly rejected
#include "objs.h"
#include "leak.h"
#include "tworld.h"
using namespace ref;
using objs::Any; using objs::Type;

static char g_bad[400]; // a failure noticed inside a cycle (which must not touch the Case)
static volatile uint64_t g_sink;
static void bad(const char *fmt, ...) { if (*g_bad) return; va_list a; va_start(a, fmt); vsnprintf(g_bad, sizeof g_bad, fmt, a); va_end(a); }
struct Sum : objs::Visitor { uint64_t h = 0; void obj(const char *, bool p) override { h = h * 31 + p; } void num(const char *, uint64_t v) override { h = h * 31 + v; } void buf(const char *, wickr_buffer_t *&b, objs::Kind k) override { if (k == objs::CACHE) return; h = h * 31 + (b ? b->length : 7); if (b) for (size_t i = 0; i < b->length; i++) h = h * 131 + b->bytes[i]; } };
static uint64_t sum(const Type &t, void *p) { Sum s; t.visit(s, p); return s.h; }

// ---- arbitrary bytes: raw, damaged, spliced, or a message grammar with lies
static Bytes pb_tree(Case &c, int depth) {
    Bytes b; unsigned n = (unsigned)c.draw(5);
    for (unsigned i = 0; i < n; i++) {
        uint32_t num = c.chance(1, 12) ? (uint32_t)c.edge(0x1fffffff) : 1 + (uint32_t)c.draw(5); unsigned wt = c.pick({6, 3, 1, 1, 1});
        if (wt == 0) { Bytes d; switch (c.pick({4, 2, 2, 1, 1})) { case 0: d = depth > 0 ? pb_tree(c, depth - 1) : c.blob_upto(20); break; case 1: d = to(gen_ec_key(c)->pub_data); break; case 2: { Bytes k = {(uint8_t)c.draw(1)}; d = cat(k, c.blob(32)); break; } case 3: { Buf s(wickr_ecdsa_result_serialize(objs::g_sig(c).get())); d = to(s); break; } default: d = c.blob_upto(60); } Bytes f = pb_bytes(num, d); if (c.chance(1, 15)) f = cat(pb_varint((uint64_t)num << 3 | 2), cat(pb_varint(c.edge(~0ull)), d)); b = cat(b, f); }
        else if (wt == 1) b = cat(b, pb_uint(num, c.edge(~0ull)));
        else if (wt == 2) b = cat(b, cat(pb_varint((uint64_t)num << 3 | 5), c.blob(4)));
        else if (wt == 3) b = cat(b, cat(pb_varint((uint64_t)num << 3 | 1), c.blob(8)));
        else b = cat(b, cat(pb_varint((uint64_t)num << 3 | c.draw(7)), c.blob_upto(6)));
    }
    return b;
}
static Bytes hostile(Case &c, const Bytes &valid, const char **kind) {
    switch (c.pick({2, 6, 3, 2, 2, 1})) {
        case 0: *kind = "raw"; return c.blob_upto(c.chance(1, 10) ? 5000 : 200);
        case 1: { *kind = "damaged"; Bytes b = valid; int n = 1 + (int)c.draw(3); for (int i = 0; i < n; i++) c.mutate(b); return b; }
        case 2: *kind = "message"; return pb_tree(c, 3);
        case 3: { *kind = "truncated"; Bytes b = valid; b.resize(c.size(b.size())); return b; }
        case 4: { *kind = "spliced"; auto &ts = objs::types(); const Type *t; do t = &ts[c.draw(ts.size() - 1)]; while (!t->ser); Any o(t, t->gen(c)); Buf s(t->ser(o.p)); Bytes x = to(s), b(valid.begin(), valid.begin() + c.draw(valid.size())); size_t from = x.empty() ? 0 : (size_t)c.draw(x.size()); return cat(b, Bytes(x.begin() + from, x.end())); }
        default: *kind = "prefixed"; { Bytes b = {(uint8_t)c.edge(255), (uint8_t)c.edge(255)}; return cat(b, c.blob_upto(300)); }
    }
}
static Bytes edit(Case &c, const Bytes &valid) { // damage inside an otherwise genuine envelope
    const char *k; return c.chance(1, 6) ? valid : hostile(c, valid, &k);
}

static wickr_cipher_key_t *header_keygen(const wickr_crypto_engine_t e, const wickr_cipher_t ci, const wickr_identity_chain_t *) { return e.wickr_crypto_engine_cipher_key_random(ci); }
// ---- what an application does with a parsed object
static void use(const Type &t, void *p) {
    uint64_t h = sum(t, p); Any cp(&t, t.copy(p)); std::string n = t.name;
    if (!cp) bad("a parsed %s cannot be copied", t.name); else if (sum(t, cp.p) != h) bad("the copy of a parsed %s differs", t.name);
    if (t.ser) { Buf s(t.ser(p)); g_sink += s ? s->length : 0; }
    auto msg = mk({1, 2, 3}); Buf m(msg);
    if (n == "cipher result") { CipherKey k(ENG.wickr_crypto_engine_cipher_key_random(((wickr_cipher_result_t *)p)->cipher)); Buf o(k ? ENG.wickr_crypto_engine_cipher_decrypt((wickr_cipher_result_t *)p, m.get(), k.get(), false) : nullptr); Buf o2(k ? ENG.wickr_crypto_engine_cipher_decrypt((wickr_cipher_result_t *)p, nullptr, k.get(), true) : nullptr); }
    else if (n == "cipher key") { auto *k = (wickr_cipher_key_t *)p; CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(m.get(), nullptr, k, nullptr)); Buf o(r ? ENG.wickr_crypto_engine_cipher_decrypt(r.get(), nullptr, k, k->cipher.is_authenticated) : nullptr); if (!r || !o || !eq(o.get(), m.get())) bad("an accepted cipher key does not encrypt and decrypt"); }
    else if (n == "signature") { static EcKey *k = new EcKey(pool_key(3)); g_sink += ENG.wickr_crypto_engine_ec_verify((wickr_ecdsa_result_t *)p, k->get(), m.get()); }
    else if (n == "identity") { auto *i = (wickr_identity_t *)p; Fingerprint f(wickr_identity_get_fingerprint(i, ENG)); Sig s(i->sig_key->pri_data ? wickr_identity_sign(i, &ENG, m.get()) : nullptr); if (i->sig_key->pri_data && (!s || !ENG.wickr_crypto_engine_ec_verify(s.get(), i->sig_key, m.get()))) bad("an accepted private identity does not sign verifiably"); if (!f) bad("no fingerprint for an accepted identity"); }
    else if (n.find("identity chain") != std::string::npos) { auto *ch = (wickr_identity_chain_t *)p; bool v = wickr_identity_chain_validate(ch, &ENG); if (v != chain_ok(ch)) bad("chain verdict %d", v); }
    else if (n == "node") { auto *x = (wickr_node_t *)p; bool v = wickr_node_verify_signature_chain(x, &ENG); if (v != node_ok(x)) bad("node verdict %d", v); }
    else if (n == "message key pair") { auto *e = (wickr_ephemeral_keypair_t *)p; wickr_ephemeral_keypair_make_public(e); }
    else if (n == "key exchange set") { auto *s = (wickr_key_exchange_set_t *)p; wickr_key_exchange_t *x = wickr_exchange_array_fetch_item(s->exchanges, 0); KeyEx f(x ? wickr_key_exchange_set_find(s, x->exchange_id) : nullptr); if (x && !f) bad("an accepted exchange is not found by its id"); KeyEx g(wickr_key_exchange_set_find(s, m.get())); }
    else if (n == "root keys") { DevInfo d = make_devinfo({1, 2, 3}); StorageKeys k(wickr_root_keys_localize((wickr_root_keys_t *)p, &ENG, d.get())); }
    else if (n == "stream key") { auto *k = (wickr_stream_key_t *)p; if (k->cipher_key->cipher.is_authenticated) { StreamKey k2(wickr_stream_key_copy(k)); StreamCtx e(wickr_stream_ctx_create(ENG, k2.get(), STREAM_DIRECTION_ENCODE)); if (e) k2.release(); CipherRes r(e ? wickr_stream_ctx_encode(e.get(), m.get(), nullptr, 1) : nullptr); if (!r) bad("an accepted stream key does not start a stream"); } }
    else if (n == "packet") { static Chain *ch = nullptr; if (!ch) { Identity r = make_root(pool_key(1).get(), {1}); Identity nd(wickr_node_identity_gen(&ENG, r.get(), m.get())); ch = new Chain(wickr_identity_chain_create(r.release(), nd.release())); } ParseRes r(wickr_parse_result_from_packet(&ENG, (wickr_packet_t *)p, m.get(), header_keygen, ch->get())); }
    else if (n == "kdf metadata") { KdfRes r(ENG.wickr_crypto_kdf_meta((wickr_kdf_meta_t *)p, m.get())); if (!r && ((wickr_kdf_meta_t *)p)->algo.algo_id == KDF_SCRYPT) bad("accepted kdf metadata cannot be used"); }
    else if (n == "EC key") { auto *k = (wickr_ec_key_t *)p; Sig s(k->pri_data ? ENG.wickr_crypto_engine_ec_sign(k, m.get(), DIGEST_SHA_512) : nullptr); if (k->pri_data && (!s || !ENG.wickr_crypto_engine_ec_verify(s.get(), k, m.get()))) bad("an accepted private key does not sign verifiably"); if (!k->pri_data && p521_decode(to(k->pub_data)).empty()) bad("an accepted public key is not a point of the curve"); }
    else if (n == "transport packet") { static Chain *id = nullptr; if (!id) { Identity r = make_root(pool_key(2).get(), {7}); Identity nd(wickr_node_identity_gen(&ENG, r.get(), m.get())); id = new Chain(wickr_identity_chain_create(r.release(), nd.release())); } g_sink += wickr_transport_packet_verify((wickr_transport_packet_t *)p, &ENG, id->get()); }
    else if (n == "context") { auto *x = (wickr_ctx_t *)p; CipherRes r(wickr_ctx_cipher_local(x, m.get())); Buf o(r ? wickr_ctx_decipher_local(x, r.get()) : nullptr); if (!r || (!o && x->storage_keys->local->cipher.is_authenticated)) bad("an accepted context cannot use its storage key"); }
    if (cp) { h = sum(t, cp.p); cp.reset(); }
}
static std::vector<const Type *> parsable() { std::vector<const Type *> v; for (auto &t : objs::types()) if (t.ser) v.push_back(&t); return v; }
static void *parse(const Type &t, const wickr_buffer_t *b, bool priv) {
    if (t.parse) return t.parse(b); if (!strcmp(t.name, "EC key")) return ENG.wickr_crypto_engine_ec_key_import(b, priv);
    DevInfo d = make_devinfo({1, 2, 3}); wickr_ctx_t *x = wickr_ctx_create_from_buffer(ENG, d.get(), b); if (x) d.release(); return x;
}

PROP(C14, objects, 200000, 6000000) {
    static auto ts = parsable(); const Type &t = *ts[c.draw(ts.size() - 1)]; const char *kind = ""; bool priv = c.draw(1); Any a(&t, t.gen(c)); Buf s(t.ser(a.p)); Bytes in = hostile(c, to(s), &kind); a.reset(); s.reset(); g_bad[0] = 0;
    bool accepted = false; std::string l = leak::check([&] { View v(in); Any p(&t, parse(t, v, priv)); accepted = (bool)p; if (p) { use(t, p.p); p.reset(); if (p.p) bad("destroying a parsed %s leaves the pointer", t.name); } if (memcmp(v.b.bytes, in.data(), in.size())) bad("parsing a %s changed its input", t.name); });
    CHECK(c, !*g_bad, "%s (input %s)", g_bad, hex(in, 300).c_str()); CHECK(c, l.empty(), "parsing %s bytes as a %s (%s) leaves memory behind: %s (input %s)", kind, t.name, accepted ? "accepted" : "rejected", l.c_str(), hex(in, 200).c_str());
    if (in.size() > 1) c.nontrivial(); c.label(std::string(t.name) + (accepted ? " accepted" : " rejected")); c.label(kind); c.note("%s %s: %s %s", t.name, kind, accepted ? "accepted" : "rejected", hex(in).c_str());
}

// Password-protected containers and recovery blobs
PROP(C14, containers, 12000, 300000) {
    unsigned k = (unsigned)c.draw(4); Bytes pass = gen_passphrase(c); if (pass.empty()) pass = {'p'}; View pv(pass); Bytes inner, outer; vf_fast_kdf = 1; const char *kind = "";
    Ctx x = make_ctx(c, gen_identifier(c), c.blob1(20)); CipherKey rk = objs::g_ckey(c); RootKeys roots = objs::g_root(c);
    switch (k) { case 0: { Buf b(wickr_ctx_serialize(x.get())); inner = to(b); break; } case 1: { Buf b(wickr_storage_keys_serialize(x->storage_keys)); inner = to(b); break; } case 2: { Buf b(wickr_cipher_key_serialize(rk.get())); inner = to(b); break; } case 3: { Buf b(wickr_root_keys_serialize(roots.get())); inner = to(b); break; } default: inner = c.blob1(50); }
    bool deep = c.chance(1, 2); if (deep) { inner = edit(c, inner); if (inner.empty()) inner = {0}; } // damage under the protection: what a wrong but authentic writer could produce
    View iv(inner); if (k == 3) { CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(iv, nullptr, rk.get(), nullptr)); Buf b(wickr_cipher_result_serialize(r.get())); outer = to(b); } else { Buf b(wickr_crypto_engine_kdf_cipher(&ENG, KDF_SCRYPT_2_17, CIPHER_AES256_GCM, iv, pv)); outer = to(b); }
    CHECK(c, !outer.empty(), "wrapping failed"); if (!deep) outer = hostile(c, outer, &kind); g_bad[0] = 0; bool accepted = false;
    std::string l = leak::check([&] {
        View o(outer); Any p;
        switch (k) {
            case 0: { DevInfo d = make_devinfo({1, 2}); p = Any(&objs::type("context"), wickr_ctx_import(ENG, d.get(), o, pv)); if (p) d.release(); break; }
            case 1: p = Any(&objs::type("storage keys"), wickr_ctx_import_storage_keys(ENG, o, pv)); break;
            case 2: p = Any(&objs::type("cipher key"), wickr_ctx_gen_import_recovery_key_passphrase(ENG, o, pv)); break;
            case 3: p = Any(&objs::type("root keys"), wickr_ctx_gen_import_recovery(ENG, o, rk.get())); break;
            default: { Buf b(wickr_crypto_engine_kdf_decipher(&ENG, o, pv)); accepted = (bool)b; }
        }
        if (p) { accepted = true; use(*p.t, p.p); }
    });
    CHECK(c, !*g_bad, "%s (container kind %u, inner %s)", g_bad, k, hex(inner, 300).c_str()); CHECK(c, l.empty(), "container kind %u (%s) leaves memory behind: %s (inner %s)", k, accepted ? "accepted" : "rejected", l.c_str(), hex(inner, 200).c_str());
    c.nontrivial(); c.label("container " + std::to_string(k) + (deep ? " inner" : " outer") + (accepted ? " accepted" : " rejected"));
}

// A message packet whose every layer may be hostile although its signature and encryption are genuine (a malicious sender).
PROP(C14, packets, 8000, 500000) {
    Party A = make_party(c, gen_identifier(c)), B = make_party(c, gen_identifier(c)); Payload pl = gen_payload(c, 200); NodeArray na = nodes_of({B.node.get()}); uint8_t ver = A.ctx->pkt_enc_version;
    EncRes er(wickr_ctx_encode_packet(A.ctx.get(), pl.get(), na.get())); CHECK(c, er, "encode"); Buf ser(wickr_packet_serialize(er->packet)); Bytes pkt = to(ser); unsigned layer = c.pick({2, 2, 2, 2, 2, 1}); CipherKey hk(wickr_cipher_key_create(CIPHER_AES256_GCM, mk(ref_header_key(A.ctx->id_chain))));
    RefDecode rd; CHECK(c, ref_parse(pkt, A.ctx->id_chain, rd), "reference parse");
    auto gcm = [&](const Bytes &pt, wickr_cipher_key_t *k) { Bytes x = pt; if (x.empty()) x = {0}; View v(x); CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(v, nullptr, k, nullptr)); Buf b(wickr_cipher_result_serialize(r.get())); return to(b); };
    Bytes content(pkt.begin() + 2, pkt.end() - 143), header, payload = rd.enc_payload, set = cat(pb_bytes(1, rd.sender_pub), pb_bytes(2, cat(cat(pb_bytes(1, rd.who[0].first), pb_uint(2, rd.who[0].second)), pb_bytes(3, rd.exchanges[0]))));
    switch (layer) {
        case 0: content = edit(c, content); break;                                                                                     // signed content
        case 1: content = cat(pb_bytes(1, gcm(edit(c, set), hk.get())), pb_bytes(2, payload)); break;                                  // header plaintext
        case 2: { Buf ps(wickr_payload_serialize(pl.get())); content = cat(pb_bytes(1, gcm(set, hk.get())), pb_bytes(2, gcm(edit(c, to(ps)), er->packet_key))); break; } // payload plaintext
        case 3: { Bytes ex = edit(c, rd.exchanges[0]); unsigned n = 1 + (unsigned)c.draw(2); Bytes s2 = pb_bytes(1, c.chance(1, 4) ? to(gen_ec_key(c)->pub_data) : rd.sender_pub); for (unsigned i = 0; i < n; i++) s2 = cat(s2, pb_bytes(2, cat(cat(pb_bytes(1, c.chance(1, 4) ? c.blob_upto(20) : rd.who[0].first), pb_uint(2, c.edge(~0ull))), pb_bytes(3, ex)))); content = cat(pb_bytes(1, gcm(s2, hk.get())), pb_bytes(2, payload)); break; } // key exchanges
        case 4: content = cat(pb_bytes(1, c.chance(1, 2) ? edit(c, gcm(set, hk.get())) : gcm(set, hk.get())), pb_bytes(2, edit(c, payload))); break; // serialized ciphertexts
        default: break;
    }
    Bytes out; if (layer == 5) { const char *k; out = hostile(c, pkt, &k); } else { if (content.empty()) content = {0}; Bytes head = {ver, pkt[1]}; View sv(content); Sig sg(ENG.wickr_crypto_engine_ec_sign(A.ctx->id_chain->node->sig_key, sv, DIGEST_SHA_512)); out = cat(cat(head, content), take(wickr_ecdsa_result_serialize(sg.get()))); }
    g_bad[0] = 0; int stage = 0; Chain pub = public_chain(A.ctx->id_chain);
    std::string l = leak::check([&] {
        View v(out); Chain sender(wickr_identity_chain_copy(pub.get())); stage = 0; Buf pb(wickr_buffer_copy(v)); CtxPacket cp(wickr_ctx_parse_packet(B.ctx.get(), pb.get(), sender.get())); if (!cp) return; stage = 1;
        ParseRes c2(wickr_parse_result_copy(cp->parse_result)); if (!c2) bad("a parse result cannot be copied"); else c2.reset();
        if (cp->parse_result->err != E_SUCCESS) return; stage = 2; EcKey mk2(wickr_ec_key_copy(B.eph->ec_key)); DecodeRes d(wickr_ctx_decode_packet(B.ctx.get(), cp.get(), mk2.get())); if (!d) return;
        if (d->err == E_SUCCESS) { stage = 3; use(objs::type("payload"), d->decrypted_payload); }
    });
    CHECK(c, !*g_bad, "%s (layer %u)", g_bad, layer); CHECK(c, l.empty(), "processing a packet hostile at layer %u up to stage %d leaves memory behind: %s (packet %s)", layer, stage, l.c_str(), hex(out, 200).c_str());
    c.nontrivial(); c.label("layer " + std::to_string(layer) + " stage " + std::to_string(stage)); c.note("layer %u, %zu bytes, reached stage %d", layer, out.size(), stage);
}

// Text and raw-form decoders
PROP(C14, text, 60000, 2000000) {
    unsigned k = (unsigned)c.draw(5); Bytes in; const char *what = ""; bool accepted = false; g_bad[0] = 0; EcKey key = gen_ec_key(c);
    if (k == 5) { View m(c.blob1(20)); Sig s(ENG.wickr_crypto_engine_ec_sign(key.get(), m, DIGEST_SHA_512)); Buf raw(openssl_ecdsa_to_raw(s.get())); const char *kd; in = hostile(c, to(raw), &kd); }
    else if (c.chance(1, 3)) in = c.blob_upto(100); else { size_t n = c.size(120); static const char *al[4] = {"0123456789abcdefABCDEF", "0123456789ABCDEFGHJKMNPQRSTVWXYZ", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=", "0123456789abcdefgGzZ=-_\n "}; const char *a = al[c.draw(3)]; size_t m = strlen(a); for (size_t i = 0; i < n; i++) in.push_back((uint8_t)a[c.draw(m - 1)]); }
    if (c.chance(1, 3)) in.push_back(0); Bytes z = in; z.push_back(0);
    std::string l = leak::check([&] {
        View v(in), vz(z); const char *str = (const char *)vz.b.bytes; Buf o;
        switch (k) {
            case 0: what = "base64"; o.reset(getDataFromBase64(v)); break;
            case 1: what = "base32"; o.reset(base32_decode(v)); break;
            case 2: what = "hex"; o.reset(getDataFromHexString(v)); break;
            case 3: what = "terminated hex"; o.reset(getDataFromHexString(vz)); break;
            case 4: { what = "test key"; EcKey e(openssl_ec_key_import_test_key(EC_CURVE_NIST_P521, str)); accepted = (bool)e; break; }
            default: { what = "raw signature"; Sig s(openssl_ecdsa_from_raw(EC_CURVE_NIST_P521, DIGEST_SHA_512, v)); accepted = (bool)s; if (s) { Buf b(openssl_ecdsa_to_raw(s.get())); if (!b || to(b) != in) bad("an accepted raw signature does not convert back"); Buf w(wickr_ecdsa_result_serialize(s.get())); g_sink += ENG.wickr_crypto_engine_ec_verify(s.get(), key.get(), v); } }
        }
        if (o) { accepted = true; for (size_t i = 0; i < o->length; i++) g_sink += o->bytes[i]; }
    });
    CHECK(c, !*g_bad, "%s", g_bad); CHECK(c, l.empty(), "decoding %s (%s) leaves memory behind: %s (input %s)", what, accepted ? "accepted" : "rejected", l.c_str(), hex(in, 200).c_str());
    if (in.size() > 1) c.nontrivial(); c.label(std::string(what) + (accepted ? " accepted" : " rejected"));
}

// Endpoints and bare handshakes given anything in any state, also by a peer whose signatures and encryption are genuine
struct HsWorld { wickr_transport_handshake_t *h = nullptr; bool asked = false; };
static void hs_ask(const wickr_transport_handshake_t *h, wickr_identity_chain_t *ch, void *user) { ((HsWorld *)user)->asked = true; if (wickr_transport_handshake_get_status(h) != TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) bad("the identity question comes in handshake state %d", wickr_transport_handshake_get_status(h)); Buf s(wickr_identity_chain_serialize(ch)); if (!s) bad("an accepted remote identity does not serialize"); wickr_identity_chain_destroy(&ch); }
typedef Handshake HsObj; typedef HandshakeRes HsRes;
static void hs_settle(HsObj &h) { // a handshake can be copied, and used, in every state
    HsObj c(wickr_transport_handshake_copy(h.get())); if (!c) { bad("a handshake in state %d cannot be copied", wickr_transport_handshake_get_status(h.get())); return; }
    if (wickr_transport_handshake_get_status(c.get()) != wickr_transport_handshake_get_status(h.get())) bad("a copied handshake is in another state");
    auto *r = wickr_transport_handshake_get_remote_identity(h.get()); if (r) { Buf s(wickr_identity_chain_serialize(r)); Fingerprint f(wickr_identity_get_fingerprint(r->node, ENG)); if (!s || !f) bad("a handshake's remote identity cannot be used"); }
}
static void hs_finish(HsObj &h, bool &complete) {
    auto was = wickr_transport_handshake_get_status(h.get()); HsRes r(wickr_transport_handshake_finalize(h.get())); auto now = wickr_transport_handshake_get_status(h.get());
    if ((bool)r != (now == TRANSPORT_HANDSHAKE_STATUS_COMPLETE)) bad("finalizing a handshake in state %d: result %d, state %d", was, (bool)r, now); if (r && was != TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) bad("a handshake in state %d finalizes", was);
    if (r) { complete = true; HsRes c(wickr_transport_handshake_res_copy(r.get())); const wickr_stream_key_t *l = wickr_transport_handshake_res_get_local_key(r.get()), *m = wickr_transport_handshake_res_get_remote_key(r.get()); if (!c || !l || !m || !same(l, wickr_transport_handshake_res_get_local_key(c.get()))) bad("a handshake result cannot be copied"); else { StreamKey k(wickr_stream_key_copy(l)); Buf s(wickr_stream_key_serialize(k.get())); StreamCtx e(wickr_stream_ctx_create(ENG, k.get(), STREAM_DIRECTION_ENCODE)); if (e) k.release(); if (!s || (!e && l->cipher_key->cipher.is_authenticated)) bad("a handshake's stream key cannot be used: serialized %d, stream %d, cipher %d, interval %u", (bool)s, (bool)e, l->cipher_key->cipher.cipher_id, l->packets_per_evolution); } }
}
PROP(C14, transport, 5000, 200000) {
    using namespace tw; hmac_full() = 1 << 12; Chain A = party_chain(c, 0), B = party_chain(c, 1), pubB = public_chain(B.get()); bool init = c.draw(1), pin = c.draw(1), object = c.chance(2, 5), far = false; int policy = (int)c.draw(2) - 1; if (c.chance(1, 2)) policy = 1; uint32_t evo = gen_evo(c); if (object && !evo) evo = 512; uint64_t seed = c.draw(~0ull);
    EcKey peph = gen_ec_key(c); if (!peph->pri_data) peph = pool_key(20);
    auto peer = [&] { RefPeer p; p.local = chain_bytes(B.get()); p.sign_key.reset(wickr_ec_key_copy(B->node->sig_key)); p.eph.reset(wickr_ec_key_copy(peph.get())); return p; };
    Bytes secret = c.blob(32); unsigned state = c.pick({4, 5, 2, 4, 1}); // waiting, started, approval pending, active, error
    if (state == 2) { policy = 0; pin = false; } if (state == 1) init = true; if (state == 0) init = false; if (state == 3 && policy == 0) policy = 1; if (state == 3 && policy < 0 && !pin) policy = 1;
    // what the endpoint says, learnt from a rehearsal with the same random numbers
    Bytes first, answer; RefPeer P = peer(); bool need = c.draw(1);
    auto begin = [&](End &e) { rng().reseed(seed); e.policy = policy; e.create("endpoint", A.get(), pin ? pubB.get() : nullptr, evo); if (init) e.start(); };
    { End e; begin(e); CHECK(c, e.t, "endpoint not created"); if (init) { CHECK(c, !e.out.empty(), "start emits nothing"); first = e.pop(); answer = P.respond(first, secret, 1 + (uint32_t)c.draw(600), 1 + (uint32_t)c.draw(600)); } else { if (!need) P.remote = chain_bytes(A.get()); first = P.seed(need); e.recv(first); if (!e.out.empty()) { std::string w = P.finish(e.pop()); CHECK(c, w.empty(), "%s", w.c_str()); } } CHECK(c, e.bad.empty(), "%s", e.bad.c_str()); }
    Bytes honest = init ? answer : first, body = init ? parse_hs(answer).body : parse_hs(first).body; CHECK(c, !honest.empty() && !body.empty(), "rehearsal");
    auto signed_hs = [&](const Bytes &b, const Bytes &meta) { Bytes m = cat(meta, b.empty() ? Bytes{0} : b); return cat(m, sign(B->node->sig_key, m)); };
    auto handshake_attack = [&](std::string &kind) -> Bytes {
        Bytes chain = P.local, eph = to(P.eph->pub_data); const char *k = ""; Bytes me = hs_meta(2, 1, 0);
        switch (c.pick({3, 4, 2, 2, 4, 1, 1})) {
            case 0: { Bytes b = hostile(c, honest, &k); kind = std::string("bytes ") + k; return b; }
            case 1: kind = "signed body"; return signed_hs(edit(c, body), me);
            case 2: kind = "signed chain"; chain = edit(c, chain); return signed_hs(c.draw(1) ? seed_body(chain, eph, c.draw(1)) : response_body(eph, parse_hs(answer).enc, &chain), me);
            case 3: kind = "signed ephemeral key"; eph = edit(c, eph); return signed_hs(init ? response_body(eph, parse_hs(answer).enc, c.draw(1) ? &chain : nullptr) : seed_body(chain, eph, c.draw(1)), me);
            case 4: { if (!init) { kind = "response to nothing"; return signed_hs(response_body(eph, c.blob_upto(80), &chain), me); } kind = "sealed root key"; RefPeer q = peer(); q.remote = parse_hs(first).chain; Bytes key = q.response_key(parse_hs(first).eph), root; CHECK(c, !key.empty(), "agreement");
                switch (c.draw(3)) { case 0: root = edit(c, root_body(secret, 0, 5, 5)); break; case 1: { static const int ids[] = {0, 1, 2, 255, -1}; root = root_body(c.draw(1) ? secret : c.blob_upto(40), ids[c.draw(4)], (uint32_t)c.edge(0xffffffff), (uint32_t)c.edge(0xffffffff)); break; } case 2: root = pb_tree(c, 2); break; default: root = pb_bytes(1, edit(c, cat(pb_bytes(1, secret), pb_uint(2, 0)))); }
                Bytes enc = gcm_seal(key, c.blob(12), {}, root); if (c.chance(1, 5)) enc = edit(c, enc); return signed_hs(response_body(eph, enc, parse_hs(first).need || c.draw(1) ? &chain : nullptr), me); }
            case 5: kind = "meta"; return signed_hs(body, hs_meta((uint8_t)c.draw(15), (uint8_t)c.edge(255), c.edge(~0ull)));
            default: { kind = "empty or missing parts"; Bytes b; switch (c.draw(5)) { case 0: b = pb_bytes(2, {}); break; case 1: b = pb_bytes(3, {}); break; case 2: b = pb_bytes(3, cat(pb_bytes(2, eph), pb_bytes(3, {}))); break; case 3: b = pb_bytes(2, cat(pb_bytes(3, eph), pb_uint(4, 1))); break; case 4: b = pb_bytes(2, pb_bytes(2, chain)); break; default: b = cat(seed_body(chain, eph, true), response_body(eph, eph, &chain)); } return signed_hs(b, me); }
        }
    };
    auto data_attack = [&](std::string &kind) -> Bytes {
        const char *k; Bytes msg = c.blob1(60), p = P.data(msg);
        switch (c.pick({4, 3, 2, 2})) {
            case 0: { Bytes b = hostile(c, p, &k); kind = std::string("data ") + k; return b; }
            case 1: { kind = "data sequence"; uint64_t s = c.edge(1 << 22); Bytes m = data_meta(s, (uint8_t)c.pick({1, 8, 1, 1})); RefKey q = P.tx; if (s / q.per >= q.gen && s / q.per < q.gen + 2000) q.at(s); return cat(m, gcm_seal(q.key, c.blob(12), m, msg)); }
            case 2: { kind = "data ciphertext"; Bytes m = data_meta(P.tx_seq); return cat(m, edit(c, Bytes(p.begin() + 9, p.end()))); }
            default: kind = "data"; return p;
        }
    };
    unsigned n = 1 + (unsigned)c.draw(3); struct Step { unsigned op; Bytes b; std::string kind; bool yes; }; std::vector<Step> steps; std::string kinds;
    for (unsigned i = 0; i < n; i++) { Step s; s.op = i ? c.pick({8, 1, 1, 2}) : 0; s.yes = c.chance(3, 4); if (s.op == 0) { s.b = state == 3 && c.chance(5, 6) ? data_attack(s.kind) : c.chance(1, 8) ? honest : handshake_attack(s.kind); if (s.kind.empty()) s.kind = "genuine"; kinds += " " + s.kind; if (s.b.size() > 9 && s.b[0] >> 4 == 1) { uint64_t q = 0; for (int j = 0; j < 8; j++) q |= (uint64_t)s.b[1 + j] << 8 * j; if (q >> 40) { far = true; } } } steps.push_back(s); }
    g_bad[0] = 0; bool complete = false; int end_state = -1, deepest = 0; bool hung = false;
    std::string l = leak::check([&] {
        if (object) {
            rng().reseed(seed); HsWorld w; Chain lo(wickr_identity_chain_copy(A.get())), re(pin ? wickr_identity_chain_copy(pubB.get()) : nullptr); HsObj h(wickr_transport_handshake_create(ENG, lo.get(), re.get(), hs_ask, evo, &w)); if (!h) { bad("handshake not created"); return; } lo.release(); re.release();
            TPacket out; if (init) { out.reset(wickr_transport_handshake_start(h.get())); if (!out) bad("a handshake does not start"); } hs_settle(h);
            auto feed = [&](const Bytes &b) { View v(b); TPacket p(b.empty() ? nullptr : wickr_transport_packet_create_from_buffer(v)); if (!p) return; auto was = wickr_transport_handshake_get_status(h.get()); TPacket r(wickr_transport_handshake_process(h.get(), p.get())); auto now = wickr_transport_handshake_get_status(h.get()); if (r && now == TRANSPORT_HANDSHAKE_STATUS_FAILED) bad("a failed handshake answers"); if (was != TRANSPORT_HANDSHAKE_STATUS_UNKNOWN && was != TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS && now != TRANSPORT_HANDSHAKE_STATUS_FAILED) bad("a packet in handshake state %d leads to state %d", was, now); if (r) { Buf s(wickr_transport_packet_serialize(r.get())); TPacket q(s ? wickr_transport_packet_create_from_buffer(s.get()) : nullptr); if (!q) bad("a handshake's answer is no packet"); } deepest = std::max(deepest, (int)now); };
            if (state >= 2) { feed(honest); hs_settle(h); if (state == 3 && wickr_transport_handshake_get_status(h.get()) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) TPacket r(wickr_transport_handshake_verify_identity(h.get(), true)); if (state == 3) hs_finish(h, complete); if (state == 4) { feed(honest); } }
            for (auto &s : steps) { switch (s.op) { case 0: feed(s.b); break; case 1: { TPacket r(wickr_transport_handshake_start(h.get())); break; } case 2: { TPacket r(wickr_transport_handshake_verify_identity(h.get(), s.yes)); break; } default: { HsObj k(wickr_transport_handshake_copy(h.get())); if (k) h = HsObj(k.release()); } } hs_settle(h); }
            if (wickr_transport_handshake_get_status(h.get()) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) TPacket r(wickr_transport_handshake_verify_identity(h.get(), steps[0].yes)); hs_settle(h); hs_finish(h, complete); hs_settle(h); end_state = wickr_transport_handshake_get_status(h.get());
        } else {
            End e; begin(e); if (!e.t) { bad("endpoint not created"); return; } hang() = false;
            auto settle = [&] { Transport k(wickr_transport_ctx_copy(e.t.get())); if (!k) bad("an endpoint in state %s cannot be copied", status_name(e.status())); else if (wickr_transport_ctx_get_status(k.get()) != (wickr_transport_status)e.status()) bad("a copied endpoint is in another state"); };
            if (state >= 2) { e.recv(honest); settle(); if (state == 3 && !e.active()) bad("an honest handshake leads to %s, error %d", status_name(e.status()), e.err()); if (state == 4) e.recv(honest); }
            for (auto &s : steps) { if (hang()) break; switch (s.op) { case 0: e.recv(s.b); break; case 1: e.start(); break; case 2: e.send({1, 2, 3}); break; default: if (!e.asks.empty()) e.answer(e.asks.size() - 1, s.yes); } if (!hang()) settle(); }
            if (!e.bad.empty()) bad("%s", e.bad.c_str()); end_state = 10 + e.status(); hung |= hang(); hang() = false;
        }
    });
    (void)far; CHECK(c, !*g_bad, "%s (%s%s, state %u:%s)", g_bad, object ? "handshake" : "endpoint", init ? ", initiator" : "", state, kinds.c_str());
    if (hung) { c.known("far-sequence", "one unauthenticated data packet makes an active endpoint derive more than 4096 keys"); return; }
    CHECK(c, l.empty(), "%s%s%s in state %u given%s leaves memory behind: %s", init ? "an initiating " : "a responding ", object ? "handshake" : "endpoint", pin ? " with a pinned remote" : "", state, kinds.c_str(), l.c_str());
    c.nontrivial(); c.label((object ? "handshake from " : "endpoint from ") + std::to_string(state) + " to " + std::to_string(end_state) + (complete ? " complete" : "")); for (auto &s : steps) if (!s.kind.empty()) c.label("sent " + s.kind); c.note("%s from state %u, given%s: ends in %d", object ? "handshake" : "endpoint", state, kinds.c_str(), end_state);
}

// Receiving must not take work without bound: how many keys does one unauthenticated packet make a decoder derive?
PROP(C14, work, 300, 5000) {
    uint32_t per = 1 + (uint32_t)c.edge(32767); uint64_t seq = c.edge(~0ull); StreamKey k(wickr_stream_key_create_rand(ENG, CIPHER_AES256_GCM, per)); CHECK(c, k, "stream key"); StreamCtx d(wickr_stream_ctx_create(tw::engine(), k.get(), STREAM_DIRECTION_DECODE)); CHECK(c, d, "decoder"); k.release();
    Bytes ser = cat({0}, c.blob(29 + c.size(40))); View v(ser); CipherRes r(wickr_cipher_result_from_buffer(v)); CHECK(c, r, "cipher result"); tw::hmac_budget() = 1 << 12; tw::hang() = false; Buf o(wickr_stream_ctx_decode(d.get(), r.get(), nullptr, seq)); CHECK(c, !o, "forged bytes are accepted");
    long used = (1 << 12) - tw::hmac_budget(); bool over = tw::hang(); tw::hang() = false; c.nontrivial(); c.label(over ? "over budget" : "bounded"); c.note("sequence number %llu, interval %u: %s", (unsigned long long)seq, per, over ? "more than 4096 key derivations" : std::to_string(used).c_str());
    if (over) { c.known("far-sequence", "one forged packet with a far-away sequence number makes a stream decoder derive one key per skipped evolution, up to 2^64, before the packet is authenticated"); return; }
    if (seq > 0) CHECK(c, (uint64_t)used <= seq / per + 1, "%ld derivations for sequence number %llu at interval %u", used, (unsigned long long)seq, per);
}
