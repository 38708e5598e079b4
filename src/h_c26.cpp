// C26: destroying a key-holding object erases its secrets from memory
#include "erase.h"
#include "tworld.h"
using namespace objs;

PROP(C26, objects, 60000, 2000000) {
    static std::vector<const Type *> ts; if (ts.empty()) for (auto &t : types()) if (t.secret || !strcmp(t.name, "handshake result")) ts.push_back(&t);
    auto &t = *ts[c.draw(ts.size() - 1)]; Any x(&t, t.gen(c)); CHECK(c, x, "generating a %s failed", t.name); erase::reset(); { erase::Randomize r(c.draw(~0ull)); t.visit(r, x.p); } const char *how = "made";
    switch (c.pick({3, 3, 2, 3})) {
        case 1: x = x.copy(); how = "copied"; break;
        case 2: { Any y = x.copy(); CHECK(c, y, "copying failed"); x = y.copy(); how = "copied twice"; break; }
        case 3: if (!t.ser || !t.parse || t.pub) break; { Buf b(t.ser(x.p)); if (!b) break; Any y(&t, t.parse(b.get())); if (!y) break; x = std::move(y); how = "parsed"; } break;
        default: break;
    }
    CHECK(c, x, "copying a %s failed", t.name); erase::Watch w; t.visit(w, x.p); std::string bad = erase::during([&] { x.reset(); });
    CHECK(c, bad.empty(), "destroying a %s %s: %s", how, t.name, bad.c_str()); CHECK(c, erase::st().watched >= w.n, "destroying a %s %s releases %zu of its %zu secret buffers", how, t.name, erase::st().watched, w.n);
    if (w.n) { c.nontrivial(); c.label(t.name); } c.note("%s %s, %zu secrets, %zu blocks released", how, t.name, w.n, erase::st().freed);
}

// Objects made by the library itself, and the operations that dispose of a secret while the object lives on.
template <class T, class V> static void dispose(Case &c, const char *what, T &o, V &&vis) { erase::reset(); erase::Watch w; vis(w, o.get()); CHECK(c, w.n > 0, "%s holds no secret", what); std::string bad = erase::during([&] { o.reset(); }); CHECK(c, bad.empty(), "destroying %s: %s", what, bad.c_str()); CHECK(c, erase::st().watched >= w.n, "destroying %s releases %zu of %zu secret buffers", what, erase::st().watched, w.n); c.label(what); c.nontrivial(); }
#define VIS [](Visitor &v, auto *p) { visit(v, "x", p); }
PROP(C26, operations, 6000, 150000) {
    rng().reseed(c.draw(~0ull)); Bytes ident = gen_identifier(c); Buf ib(mk(ident));
    switch (c.draw(12)) {
        case 0: { CipherKey k(ENG.wickr_crypto_engine_cipher_key_random(gen_cipher(c))); dispose(c, "a random cipher key", k, VIS); break; }
        case 1: { EcKey k(ENG.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); dispose(c, "a random EC key", k, VIS); break; }
        case 2: { RootKeys k(wickr_root_keys_generate(&ENG)); dispose(c, "generated root keys", k, VIS); break; }
        case 3: { RootKeys k = g_root(c); DevInfo d = make_devinfo(c.blob1(30)); erase::Randomize r(c.draw(~0ull)); visit(r, "x", k.get()); StorageKeys s(wickr_root_keys_localize(k.get(), &ENG, d.get())); CHECK(c, s, "localizing failed"); dispose(c, "localized storage keys", s, VIS); break; }
        case 4: { DevInfo d = make_devinfo(c.blob1(30)); GenRes g(wickr_ctx_gen_new(ENG, d.get(), ib.get())); CHECK(c, g, "context generation failed"); dispose(c, "a generated context", g, VIS); break; }
        case 5: { StreamKey k(wickr_stream_key_create_rand(ENG, CIPHER_AES256_GCM, 1 + (uint32_t)c.draw(100))); dispose(c, "a random stream key", k, VIS); break; }
        case 6: { Chain ch = make_chain(c); EphKey e(wickr_ephemeral_keypair_generate_identity(&ENG, c.draw(~0ull), ch->node)); CHECK(c, e, "message key generation failed"); erase::reset(); erase::key(e->ec_key); std::string bad = erase::during([&] { wickr_ephemeral_keypair_make_public(e.get()); }); CHECK(c, bad.empty(), "making a message key pair public: %s", bad.c_str()); CHECK(c, !e->ec_key->pri_data && erase::st().watched == 1, "making a message key pair public keeps its private half"); c.label("made public"); c.nontrivial(); break; }
        case 7: { Chain ch = make_chain(c); EcKey k = gen_ec_key(c), k2 = gen_ec_key(c); Node n = make_node(ch.get(), c.blob1(20), 1, k.get()); bool copy = c.draw(1); Sig s(wickr_identity_sign(ch->node, &ENG, k2->pub_data)); EphKey e(wickr_ephemeral_keypair_create(2, k2.release(), s.release())); erase::reset(); erase::block(n->ephemeral_keypair->ec_key->pri_data); std::string bad; bool ok = false; bad = erase::during([&] { ok = wickr_node_rotate_keypair(n.get(), e.get(), copy); }); if (!copy && ok) e.release(); CHECK(c, ok, "rotation failed"); CHECK(c, bad.empty(), "rotating a node's message key: %s", bad.c_str()); CHECK(c, erase::st().watched == 1, "rotation does not release the former key"); c.label("rotated"); c.nontrivial(); break; }
        case 8: { bool enc = c.draw(1); Bytes kb = ref::sha(256, c.blob(32)), ev = ref::sha(512, c.blob(32)); ev.resize(32); uint32_t per = 1 + (uint32_t)c.edge(20); auto mks = [&](wickr_stream_direction d) { CipherKey k(wickr_cipher_key_create(CIPHER_AES256_GCM, mk(kb))); StreamKey s(wickr_stream_key_create(k.release(), mk(ev), per)); return StreamCtx(wickr_stream_ctx_create(ENG, s.release(), d)); }; StreamCtx a = mks(STREAM_DIRECTION_ENCODE), b = mks(STREAM_DIRECTION_DECODE); uint64_t seq = per + (uint64_t)c.draw(3 * per); Bytes d{1, 2, 3}; View dv(d);
            CipherRes r; Buf out; std::string bad; erase::reset(); auto watch = [&](StreamCtx &s) { erase::block(s->key->cipher_key->key_data); erase::block(s->key->evolution_key); tw::RefKey m; m.key = kb; m.evo = ev; m.per = per; for (;;) { erase::secret(m.key); erase::secret(m.evo); if (m.gen >= seq / per) break; m.step(); } };
            if (enc) { watch(a); bad = erase::during([&] { r.reset(wickr_stream_ctx_encode(a.get(), dv, nullptr, seq)); }); CHECK(c, r, "encoding failed"); } else { r.reset(wickr_stream_ctx_encode(a.get(), dv, nullptr, seq)); watch(b); bad = erase::during([&] { out.reset(wickr_stream_ctx_decode(b.get(), r.get(), nullptr, seq)); }); CHECK(c, out, "decoding failed"); }
            CHECK(c, bad.empty(), "evolving a stream's key while %s: %s", enc ? "encoding" : "decoding", bad.c_str()); CHECK(c, erase::st().watched == 2, "the former stream key is not released"); dispose(c, "an evolved stream", enc ? a : b, VIS); break; }
        case 9: { Bytes b = c.blob1(c.chance(1, 4) ? 70000 : 300); erase::Randomize r(c.draw(~0ull)); wickr_buffer_t *p = mk(b); r.buf("b", p, SECRET); erase::reset(); erase::block(p); erase::secret(to(p)); std::string bad = erase::during([&] { wickr_buffer_destroy_zero(&p); }); CHECK(c, bad.empty() && !p, "erasing a buffer of %zu bytes: %s", b.size(), bad.c_str()); size_t n = c.size1(300), at = c.size(n), len = c.size(n - at); Bytes z = c.blob(n), w = z; wickr_zero(z.data() + at, len); std::fill(w.begin() + (long)at, w.begin() + (long)(at + len), 0); CHECK(c, z == w, "wickr_zero(%zu bytes) leaves bytes behind or writes outside", len); wickr_zero(nullptr, 5); c.label("buffer"); c.nontrivial(); break; }
        case 10: { Bytes ib2 = c.blob1(20); Ctx a = make_ctx(c, ident, ib2); EcKey k = gen_ec_key(c); Node n = make_node(a->id_chain, to(a->dev_info->msg_proto_id), 5, k.get()); NodeArray na(wickr_node_array_new(1)); wickr_node_array_set_item(na.get(), 0, n.get()); Payload p = gen_payload(c, 100); EncRes e(wickr_ctx_encode_packet(a.get(), p.get(), na.get())); CHECK(c, e, "encoding failed"); if (c.draw(1)) { dispose(c, "an encoder result", e, VIS); break; }
            Buf ser(wickr_packet_serialize(e->packet)); CtxPacket in(wickr_ctx_parse_packet(a.get(), ser.get(), a->id_chain)); DecodeRes out(in ? wickr_ctx_decode_packet(a.get(), in.get(), k.get()) : nullptr); CHECK(c, out && out->payload_key, "decoding failed"); dispose(c, "a decode result", out, VIS); break; }
        case 11: { Chain ch = make_chain(c); Buf s(wickr_identity_chain_serialize_private(ch.get())); Chain q(wickr_identity_chain_create_from_buffer(s.get(), &ENG)); CHECK(c, q && q->node->sig_key->pri_data, "a private chain does not parse"); dispose(c, "a parsed private chain", q, VIS); break; }
        default: { Ctx a = make_ctx(c, ident, c.blob1(20)); Buf s(wickr_ctx_serialize(a.get())); DevInfo d(wickr_dev_info_copy(a->dev_info)); Ctx b(wickr_ctx_create_from_buffer(ENG, d.get(), s.get())); CHECK(c, b, "a context does not parse"); d.release(); dispose(c, "a parsed context", b, VIS); break; }
    }
}

// A transport and its handshake: the agreed secrets are known from the reference peer.
PROP(C26, transport, 900, 25000) {
    Chain lc = tw::party_chain(c, 0), rc = tw::party_chain(c, 1); tw::End L; tw::RefPeer R; R.local = tw::chain_bytes(rc.get()); R.sign_key.reset(wickr_ec_key_copy(rc->node->sig_key)); R.eph = pool_key(18 + (unsigned)c.draw(5)); bool pin = c.draw(1), initiator = c.draw(1); R.remote = tw::chain_bytes(lc.get()); rng().reseed(c.draw(~0ull)); uint32_t evo = 1 + (uint32_t)c.draw(4); L.create("transport", lc.get(), pin ? rc.get() : nullptr, evo); CHECK(c, L.t, "creation failed"); unsigned stage = (unsigned)c.draw(2); if (stage == 0) L.policy = 0;
    Bytes sec = ref::sha(256, c.blob(8)); erase::reset(); auto &st = erase::st();
    if (initiator) { L.start(); Bytes seed = L.pop(); Bytes ans = R.respond(seed, sec, 1 + (uint32_t)c.draw(5), 1 + (uint32_t)c.draw(5)); L.recv(ans); }
    else { L.recv(R.seed(false)); if (!L.out.empty()) { std::string e = R.finish(L.pop()); CHECK(c, e.empty(), "%s", e.c_str()); sec = R.secret; } else { rng().record = true; } }
    if (L.active() && stage == 2) { unsigned n = (unsigned)c.draw(12); for (unsigned i = 0; i < n; i++) if (c.draw(1)) { L.send(c.blob1(20)); Bytes pt; uint64_t q; CHECK(c, R.open(L.pop(), pt, q), "packet does not open"); } else L.recv(R.data(c.blob1(20))); CHECK(c, L.active(), "fails"); }
    bool active = L.active(); erase::key(lc->node->sig_key); erase::key(lc->root->sig_key); st.own.clear(); erase::secret(sec); if (active) { for (auto *k : {&R.tx, &R.rx}) { erase::secret(k->key); erase::secret(k->evo); } }
    std::string bad = erase::during([&] { L.t.reset(); }); CHECK(c, bad.empty(), "destroying a transport (%s): %s", active ? "active" : "handshaking", bad.c_str()); if (st.windows.size() > 60) c.nontrivial(); c.label(active ? "active" : "handshaking"); rng().record = false;
}
