// C23: copies are equal to and independent of their source
#include "objs.h"
#include "leak.h"
#include "tworld.h"
using namespace objs;

static std::string overlap(Any &a, Any &b) { Collect x, y; a.t->visit(x, a.p); b.t->visit(y, b.p); for (auto *p : x.blocks) if (y.blocks.count(p)) return "shared"; return ""; }
static void scramble(Any &a) { Scramble s; a.t->visit(s, a.p); }

PROP(C23, values, 90000, 3000000) {
    auto &ts = types(); auto &t = ts[c.draw(ts.size() - 1)]; Any src(&t, t.gen(c)); CHECK(c, src, "generating a %s failed", t.name); c.label(t.name);
    void *none = nullptr; t.destroy(&none); CHECK(c, !t.copy(nullptr), "the copy of an absent %s is not absent", t.name);
    std::string d0 = src.dump(); Any cp = src.copy(); CHECK(c, cp, "copying a %s failed: %s", t.name, d0.substr(0, 300).c_str()); CHECK(c, cp.p != src.p, "the copy is the source");
    std::string d1 = cp.dump(); CHECK(c, d1 == d0, "the copy of a %s differs: %s", t.name, first_difference(d0, d1).c_str()); CHECK(c, src.dump() == d0, "copying changed the source %s", t.name);
    CHECK(c, overlap(src, cp).empty(), "the copy of a %s shares storage with its source", t.name);
    if (t.ser) { Buf a(t.ser(src.p)), b(t.ser(cp.p)); CHECK(c, eq(a.get(), b.get()), "a %s and its copy serialize differently", t.name); CHECK(c, src.dump() == d0 && cp.dump() == d0, "serializing a %s changed it", t.name); }
    Any second; if (c.chance(1, 3)) { second = cp.copy(); CHECK(c, second && second.dump() == d0, "the copy of a copied %s differs", t.name); }
    switch (c.draw(4)) {
        case 0: scramble(cp); CHECK(c, src.dump() == d0, "changing a copied %s changed its source: %s", t.name, first_difference(d0, src.dump()).c_str()); c.label("copy changed"); break;
        case 1: scramble(src); CHECK(c, cp.dump() == d0, "changing a %s changed its copy: %s", t.name, first_difference(d0, cp.dump()).c_str()); src.reset(); CHECK(c, cp.dump() == d0, "destroying a changed %s changed its copy", t.name); c.label("source changed"); break;
        case 2: { void *p = src.p; src.p = nullptr; t.destroy(&p); CHECK(c, !p, "destroying a %s leaves the caller's pointer set", t.name); CHECK(c, cp.dump() == d0, "destroying a %s changed its copy: %s", t.name, first_difference(d0, cp.dump()).c_str()); Any again = cp.copy(); CHECK(c, again && again.dump() == d0, "a copied %s cannot be copied once its source is gone", t.name); c.label("source destroyed"); break; }
        case 3: { void *p = cp.p; cp.p = nullptr; t.destroy(&p); CHECK(c, !p, "destroying a copied %s leaves the caller's pointer set", t.name); t.destroy(&p); CHECK(c, src.dump() == d0, "destroying a copied %s changed its source: %s", t.name, first_difference(d0, src.dump()).c_str()); c.label("copy destroyed"); break; }
        default: { std::string l = leak::check([&] { void *p = t.copy(src.p); t.destroy(&p); }); CHECK(c, l.empty(), "copying and destroying a %s leaves memory behind: %s", t.name, l.c_str()); c.label("accounted"); break; }
    }
    if (second) CHECK(c, second.dump() == d0, "a second copy of a %s changed", t.name); if (d0.size() > 30) c.nontrivial(); c.note("%s", t.name);
}

// The copy of an object in use does what the source would have done.
PROP(C23, use, 1600, 40000) {
    switch (c.draw(6)) {
        case 0: { Bytes ident = gen_identifier(c); Ctx a = make_ctx(c, ident, c.blob1(30)); a->pkt_enc_version = (uint8_t)(4 - c.draw(2)); Ctx b = clone(a); CHECK(c, b, "copying a context failed"); Bytes data = c.blob1(200); View dv(data);
            CipherRes l(wickr_ctx_cipher_local(b.get(), dv)), r(wickr_ctx_cipher_remote(a.get(), dv)); CHECK(c, l && r, "local or remote encryption failed"); EcKey mk_ = gen_ec_key(c); Node n = make_node(a->id_chain, to(a->dev_info->msg_proto_id), 5, mk_.get()); NodeArray na(wickr_node_array_new(1)); wickr_node_array_set_item(na.get(), 0, n.get());
            Payload p = gen_payload(c, 200); EncRes e(wickr_ctx_encode_packet(b.get(), p.get(), na.get())); CHECK(c, e, "a copied context does not encode"); if (c.draw(1)) b.reset(); Buf x(wickr_ctx_decipher_local(a.get(), l.get())); CHECK(c, x && to(x) == data, "the source context cannot decrypt what its copy encrypted"); b = clone(a); a.reset(); Buf y(wickr_ctx_decipher_remote(b.get(), r.get())); CHECK(c, y && to(y) == data, "the copied context cannot decrypt what the source encrypted");
            Buf ser(wickr_packet_serialize(e->packet)); CtxPacket in(wickr_ctx_parse_packet(b.get(), ser.get(), b->id_chain)); CHECK(c, in, "a copied context does not parse a packet"); DecodeRes out(wickr_ctx_decode_packet(b.get(), in.get(), mk_.get())); CHECK(c, out && out->decrypted_payload && same(out->decrypted_payload, p.get()), "a copied context does not decode a packet of the source"); c.label("context"); break; }
        case 1: { Chain a = make_chain(c); if (c.draw(1)) wickr_identity_chain_validate(a.get(), &ENG); Chain b(wickr_identity_chain_copy(a.get())); CHECK(c, b, "copying a chain failed"); bool bad = c.draw(1); if (bad) a->node->signature->sig_data->bytes[20] ^= 1; CHECK(c, wickr_identity_chain_validate(b.get(), &ENG), "a copied chain is invalid"); CHECK(c, wickr_identity_chain_validate(a.get(), &ENG) == !bad, "the source chain's verdict is wrong after copying"); a.reset(); CHECK(c, wickr_identity_chain_validate(b.get(), &ENG), "a copied chain is invalid after the source is gone"); c.label("chain"); break; }
        case 2: { Chain ch = make_chain(c); EcKey k = gen_ec_key(c); Node a = make_node(ch.get(), c.blob1(30), c.edge(~0ull), k.get()); if (c.draw(1)) wickr_node_verify_signature_chain(a.get(), &ENG); Node b(wickr_node_copy(a.get())); CHECK(c, b, "copying a node failed"); EcKey k2 = gen_ec_key(c); Sig s(wickr_identity_sign(ch->node, &ENG, k2->pub_data)); bool rot = wickr_node_rotate_keypair(a.get(), EphKey(wickr_ephemeral_keypair_create(9, k2.release(), s.release())).get(), true); CHECK(c, rot, "rotation failed");
            CHECK(c, wickr_node_verify_signature_chain(b.get(), &ENG) && wickr_node_verify_signature_chain(a.get(), &ENG), "node and copy do not both verify after the source rotated its key"); CHECK(c, same_pub(b->ephemeral_keypair->ec_key, k.get()), "rotating a node's key changed its copy"); a.reset(); CHECK(c, wickr_node_verify_signature_chain(b.get(), &ENG), "a copied node does not verify after the source is gone"); c.label("node"); break; }
        case 3: { EcKey k1 = gen_ec_key(c), k2 = gen_ec_key(c), p1 = pub_only(k1.get()), p2 = pub_only(k2.get()); const wickr_cipher_t &ci = CIPHER_AES256_GCM; EcdhCtx a(wickr_ecdh_cipher_ctx_create_key(ENG, k1.release(), ci)), b(wickr_ecdh_cipher_ctx_copy(a.get())), o(wickr_ecdh_cipher_ctx_create_key(ENG, k2.release(), ci)); CHECK(c, b, "copying an ECDH context failed"); Bytes data = c.blob1(100), salt = c.blob1(10); View dv(data); KdfMeta m(wickr_kdf_meta_create(KDF_HKDF_SHA512, mk(salt), mk(Bytes{1}))); CipherRes r(wickr_ecdh_cipher_ctx_cipher(b.get(), dv, p2.get(), m.get())); CHECK(c, r, "a copied ECDH context does not encrypt"); b.reset(); Buf x(wickr_ecdh_cipher_ctx_decipher(o.get(), r.get(), p1.get(), m.get())); CHECK(c, x && to(x) == data, "what a copied ECDH context encrypted does not decrypt"); r.reset(wickr_ecdh_cipher_ctx_cipher(a.get(), dv, p2.get(), m.get())); CHECK(c, r, "an ECDH context stops working when its copy is destroyed"); c.label("ECDH context"); break; }
        case 4: { StreamIv a = g_iv(c); if (a->gen_count > ~0ull - 10) a->gen_count = 3; StreamIv b(wickr_stream_iv_copy(a.get())); Buf x1(wickr_stream_iv_generate(a.get())), x2(wickr_stream_iv_generate(a.get())); CHECK(c, b->gen_count + 2 == a->gen_count, "generating on the source moved the copy"); Buf y1(wickr_stream_iv_generate(b.get())); a.reset(); Buf y2(wickr_stream_iv_generate(b.get())); CHECK(c, eq(x1.get(), y1.get()) && eq(x2.get(), y2.get()), "a copied IV generator continues differently"); c.label("IV generator"); break; }
        case 5: { EcKey a = gen_ec_key(c), b(wickr_ec_key_copy(a.get())); Bytes d = c.blob1(50); View dv(d); Sig s(ENG.wickr_crypto_engine_ec_sign(b.get(), dv, DIGEST_SHA_512)); CHECK(c, s, "a copied key does not sign"); b.reset(); Sig t(wickr_ecdsa_result_copy(s.get())); s.reset(); CHECK(c, ENG.wickr_crypto_engine_ec_verify(t.get(), a.get(), dv), "a copied key's signature does not verify under the source"); c.label("EC key"); break; }
        default: { unsigned n = 1 + (unsigned)c.draw(5); NodeArray a(wickr_node_array_new(n)); std::vector<Node> own; std::vector<std::string> want; for (unsigned i = 0; i < n; i++) { own.push_back(g_node(c)); wickr_node_array_set_item(a.get(), i, own.back().get()); Dump d; visit(d, "node", own.back().get()); want.push_back(d.s); }
            NodeArray b(wickr_node_array_copy(a.get())); CHECK(c, b && wickr_array_get_item_count(b.get()) == n, "copying a node array failed"); a.reset(); own.clear(); for (unsigned i = 0; i < n; i++) { wickr_node_t *x = wickr_node_array_fetch_item(b.get(), i); Dump d; visit(d, "node", x); CHECK(c, d.s == want[i], "node %u of a copied array changed when the source nodes were destroyed", i); } for (unsigned i = 0; i < n; i++) { wickr_node_t *x = wickr_node_array_fetch_item(b.get(), i); wickr_node_destroy(&x); } c.label("node array"); break; }
    }
    c.nontrivial();
}

// ---- handshakes: at any stage a copy can take over, on either side, in any order of destruction
struct Hs { Handshake h; bool asked = false; int policy = 1; std::vector<TPacket> answers; };
static void hs_ask(const wickr_transport_handshake_t *h, wickr_identity_chain_t *id, void *user) { Hs *s = (Hs *)user; wickr_identity_chain_destroy(&id); s->asked = true; if (s->policy) { wickr_transport_packet_t *p = wickr_transport_handshake_verify_identity(h, s->policy > 0); if (p) s->answers.emplace_back(p); } }
PROP(C23, handshakes, 1300, 40000) {
    Chain ca = tw::party_chain(c, 0), cb = tw::party_chain(c, 1); bool pin[2] = {(bool)c.draw(1), (bool)c.draw(1)}; Hs s[2]; uint32_t evo[2] = {1 + (uint32_t)c.edge(32767), 1 + (uint32_t)c.edge(32767)}; for (int i = 0; i < 2; i++) { s[i].policy = (int)c.draw(1); auto *l = i ? cb.get() : ca.get(), *r = i ? ca.get() : cb.get(); Chain lc(wickr_identity_chain_copy(l)), rc(pin[i] ? wickr_identity_chain_copy(r) : nullptr); s[i].h.reset(wickr_transport_handshake_create(ENG, lc.get(), rc.get(), hs_ask, evo[i], &s[i])); CHECK(c, s[i].h, "handshake creation failed"); lc.release(); rc.release(); }
    std::vector<Handshake> kept; unsigned copies = 0; std::string at;
    auto maybe_copy = [&](const char *stage) { for (int i = 0; i < 2; i++) if (c.chance(1, 3)) { auto *h = s[i].h.get(); Handshake n(wickr_transport_handshake_copy(h)); CHECK(c, n, "copying the %s's handshake %s failed", i ? "responder" : "initiator", stage); CHECK(c, wickr_transport_handshake_get_status(n.get()) == wickr_transport_handshake_get_status(h) && wickr_transport_handshake_get_user_data(n.get()) == &s[i] && same(wickr_transport_handshake_get_local_identity(n.get()), wickr_transport_handshake_get_local_identity(h)) && (bool)wickr_transport_handshake_get_remote_identity(n.get()) == (bool)wickr_transport_handshake_get_remote_identity(h) && (!wickr_transport_handshake_get_remote_identity(h) || same(wickr_transport_handshake_get_remote_identity(n.get()), wickr_transport_handshake_get_remote_identity(h))), "a handshake copied %s has another state, user or identity", stage);
        copies++; at += std::string(i ? "responder " : "initiator ") + stage + "; "; unsigned what = (unsigned)c.draw(2); std::swap(s[i].h, n); // continue on the copy
        if (what == 0) n.reset(); else if (what == 1) kept.push_back(std::move(n)); else { wickr_transport_packet_t *p = wickr_transport_handshake_verify_identity(n.get(), false); wickr_transport_packet_destroy(&p); kept.push_back(std::move(n)); } } };
    auto settle = [&](int i, wickr_transport_packet_t *direct) -> TPacket { TPacket r(direct); for (auto &p : s[i].answers) r = std::move(p); s[i].answers.clear(); return r; };
    auto packet_copy = [&](TPacket &q) { if (!c.chance(1, 3)) return; TPacket n(wickr_transport_packet_copy(q.get())); CHECK(c, n, "copying a handshake packet failed"); q = std::move(n); at += "the packet, "; };
    maybe_copy("before starting"); TPacket p0(wickr_transport_handshake_start(s[0].h.get())); CHECK(c, p0, "start failed (copied %s)", at.c_str()); maybe_copy("after the start");
    Buf w0(wickr_transport_packet_serialize(p0.get())); TPacket q0(wickr_transport_packet_create_from_buffer(w0.get())); packet_copy(q0); TPacket p1 = settle(1, wickr_transport_handshake_process(s[1].h.get(), q0.get()));
    if (wickr_transport_handshake_get_status(s[1].h.get()) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) { maybe_copy("while the responder decides"); p1.reset(wickr_transport_handshake_verify_identity(s[1].h.get(), true)); }
    CHECK(c, p1, "the responder has no answer (copied %s)", at.c_str()); maybe_copy("after the response"); Buf w1(wickr_transport_packet_serialize(p1.get())); TPacket q1(wickr_transport_packet_create_from_buffer(w1.get())); packet_copy(q1); TPacket none = settle(0, wickr_transport_handshake_process(s[0].h.get(), q1.get())); CHECK(c, !none, "the initiator answers a response");
    if (wickr_transport_handshake_get_status(s[0].h.get()) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) { maybe_copy("while the initiator decides"); none.reset(wickr_transport_handshake_verify_identity(s[0].h.get(), true)); }
    maybe_copy("before finalizing"); if (c.draw(1)) kept.clear(); HandshakeRes ra(wickr_transport_handshake_finalize(s[0].h.get())), rb(wickr_transport_handshake_finalize(s[1].h.get())); CHECK(c, ra && rb, "a handshake continued on copies does not finalize (%s; copied %s)", ra ? "responder" : "initiator", at.c_str());
    auto kv = [](const wickr_stream_key_t *k) { return std::string(hex(to(k->cipher_key->key_data), 64) + hex(to(k->evolution_key), 64) + std::to_string(k->packets_per_evolution)); };
    CHECK(c, kv(wickr_transport_handshake_res_get_local_key(ra.get())) == kv(wickr_transport_handshake_res_get_remote_key(rb.get())) && kv(wickr_transport_handshake_res_get_remote_key(ra.get())) == kv(wickr_transport_handshake_res_get_local_key(rb.get())), "the sides of a handshake continued on copies derive different keys (copied %s)", at.c_str());
    if (c.chance(1, 3)) { maybe_copy("after completion"); }
    for (int i = 0; i < 2; i++) CHECK(c, s[i].asked == !pin[i], "identity question %s with a %s remote", s[i].asked ? "asked" : "not asked", pin[i] ? "pinned" : "free"); if (copies) c.nontrivial(); c.note("copied %s", at.c_str());
}

// ---- transports: at any moment a copy can take over, and what happens to the source afterwards does not matter
PROP(C23, transports, 1500, 45000) {
    Chain ca = tw::party_chain(c, 0), cb = tw::party_chain(c, 1); tw::End e[2]; bool pin[2] = {(bool)c.draw(1), (bool)c.draw(1)}; for (int i = 0; i < 2; i++) { e[i].policy = (int)c.draw(1); e[i].create(i ? "responder" : "initiator", i ? cb.get() : ca.get(), pin[i] ? (i ? ca.get() : cb.get()) : nullptr, tw::gen_evo(c)); CHECK(c, e[i].t, "transport creation failed"); }
    tw::End ghost; ghost.name = "abandoned source"; std::vector<Transport> kept; std::vector<Bytes> sent[2]; unsigned copies = 0, copied_state = 0; auto waiting = [&](int i) { for (auto &a : e[i].asks) if (a.approved < 0) return true; return false; };
    auto copy_one = [&](int i) {
        tw::End &x = e[i]; Transport n(wickr_transport_ctx_copy(x.t.get())); CHECK(c, n, "copying the %s transport in state %s failed (remote %s)", x.name.c_str(), tw::status_name(x.status()), wickr_transport_ctx_get_remote_identity_ptr(x.t.get()) ? "known" : "unknown"); CHECK(c, wickr_transport_ctx_get_status(n.get()) == x.status() && wickr_transport_ctx_get_last_error(n.get()) == x.err() && wickr_transport_ctx_get_user_ctx(n.get()) == &x, "a copied transport has another state, error or user: %d/%d instead of %d/%d", wickr_transport_ctx_get_status(n.get()), wickr_transport_ctx_get_last_error(n.get()), x.status(), x.err());
        auto *r = wickr_transport_ctx_get_remote_identity_ptr(x.t.get()), *rn = wickr_transport_ctx_get_remote_identity_ptr(n.get()); CHECK(c, same(wickr_transport_ctx_get_local_identity_ptr(n.get()), wickr_transport_ctx_get_local_identity_ptr(x.t.get())) && (bool)r == (bool)rn && (!r || (r != rn && same(r, rn))), "a copied transport has another identity"); std::swap(x.t, n); copies++; copied_state |= 1u << x.status(); if (waiting(i)) c.label("copied while the identity question is open");
        switch (c.draw(2)) { case 0: n.reset(); break; case 1: kept.push_back(std::move(n)); break; default: { wickr_transport_ctx_set_user_ctx(n.get(), &ghost); ghost.t = std::move(n); ghost.last = ghost.status(); ghost.bad.clear(); if (ghost.status() == TRANSPORT_STATUS_ERROR) ghost.last = TRANSPORT_STATUS_ERROR; Bytes junk = c.blob1(40); if (ghost.active() && c.draw(1)) ghost.send(junk); else ghost.recv(junk); kept.push_back(std::move(ghost.t)); } }
    };
    if (c.chance(1, 3)) copy_one((int)c.draw(1)); e[0].start(); unsigned sends = 0, ops = 0;
    for (; ops < 120; ops++) {
        std::vector<int> can; for (int i = 0; i < 2; i++) { if (!e[1 - i].out.empty() && !waiting(i)) can.push_back(i); if (waiting(i)) can.push_back(2 + i); if (e[i].active() && sends < 12) can.push_back(4 + i); if (copies < 6) can.push_back(6 + i); }
        if (can.empty()) break; int k = can[c.draw(can.size() - 1)], i = k & 1; if (k < 2) e[i].recv(e[1 - i].pop()); else if (k < 4) { for (size_t q = 0; q < e[i].asks.size(); q++) if (e[i].asks[q].approved < 0) { e[i].answer(q, true); break; } } else if (k < 6) { Bytes b = c.blob1(60); sends++; sent[i].push_back(b); e[i].send(b); } else copy_one(i);
        for (int j = 0; j < 2; j++) { CHECK(c, e[j].bad.empty(), "%s (after %u copies)", e[j].bad.c_str(), copies); CHECK(c, !e[j].error(), "the %s continued on a copy fails with error %d", e[j].name.c_str(), e[j].err()); }
    }
    for (int i = 0; i < 2; i++) { CHECK(c, e[i].active(), "the %s continued on copies is not active", e[i].name.c_str()); CHECK(c, e[i].got == sent[1 - i], "the %s continued on copies received %zu of %zu buffers or other data", e[i].name.c_str(), e[i].got.size(), sent[1 - i].size()); }
    int i = (int)c.draw(1); if (c.chance(1, 3)) { e[i].recv(c.blob1(30)); CHECK(c, e[i].error(), "garbage does not fail the transport"); copies = 0; copy_one(i); e[i].send({1, 2}); CHECK(c, e[i].error() && e[i].bad.empty(), "the copy of a failed transport works: %s", e[i].bad.c_str()); }
    for (int s = 0; s < 4; s++) if (copied_state >> s & 1) c.label(std::string("copied in ") + tw::status_name(s)); if (copied_state) c.nontrivial(); kept.clear();
}

// Arrays copy shallowly or deeply, with empty slots
// copies of a transport carry on with a peer that follows the documented protocol, with the interval that was asked for
PROP(C23, transport_peers, 1500, 40000) {
    using namespace tw; Chain lc = party_chain(c, 0), rc = party_chain(c, 1); End L; RefPeer R; R.local = chain_bytes(rc.get()); R.sign_key.reset(wickr_ec_key_copy(rc->node->sig_key)); R.eph = gen_ec_key(c); Chain pub(wickr_identity_chain_copy(rc.get()));
    bool pin = c.draw(1), initiator = c.draw(1), know = c.draw(1); uint32_t evo = gen_evo(c); L.create(initiator ? "initiator" : "responder", lc.get(), pin ? pub.get() : nullptr, evo); CHECK(c, L.t, "transport creation failed"); if (know) R.remote = chain_bytes(lc.get()); std::vector<Transport> kept; unsigned copies = 0;
    auto swap = [&] { if (c.chance(1, 3)) return; Transport n(wickr_transport_ctx_copy(L.t.get())); CHECK(c, n, "copying the transport in state %s failed", status_name(L.status())); std::swap(L.t, n); copies++; if (c.draw(1)) kept.push_back(std::move(n)); };
    swap(); if (c.chance(1, 4)) swap();
    if (initiator) { L.start(); CHECK(c, L.bad.empty() && L.out.size() == 1, "start emits %zu packets %s", L.out.size(), L.bad.c_str()); Bytes seed = L.pop(); swap(); L.recv(R.respond(seed, c.blob(32), 1 + (uint32_t)c.edge(c.draw(1) ? 6 : 32767), 1 + (uint32_t)c.edge(c.draw(1) ? 6 : 32767))); }
    else { L.recv(R.seed(!know)); CHECK(c, L.bad.empty() && L.out.size() == 1, "a responder continued on copies answers a valid seed with %zu packets %s (error %d)", L.out.size(), L.bad.c_str(), L.err()); std::string e = R.finish(L.pop()); CHECK(c, e.empty(), "%s", e.c_str()); CHECK(c, R.evo == (evo ? evo : 512), "a copied transport asks for an evolution interval of %u, the source was created with %u", R.evo, evo); }
    CHECK(c, L.bad.empty() && L.active(), "the %s, continued on copies, is not active with a peer following the documented protocol: %s, error %d %s", L.name.c_str(), status_name(L.status()), L.err(), L.bad.c_str());
    unsigned n = 1 + (unsigned)c.draw(8); uint64_t last = 0;
    for (unsigned i = 0; i < n; i++) { Bytes b = c.data1(60); if (c.chance(1, 2)) swap();
        if (c.draw(1)) { L.send(b); CHECK(c, L.out.size() == 1, "a sent buffer gives %zu packets", L.out.size()); Bytes pt; uint64_t seq; CHECK(c, R.open(L.pop(), pt, seq) && pt == b && seq == last + 1, "a packet sent by a copy does not open as the next one"); last = seq; }
        else { size_t h = L.got.size(); L.recv(R.data(b)); CHECK(c, L.got.size() == h + 1 && L.got.back() == b, "a copy does not deliver a genuine packet (error %d)", L.err()); }
        CHECK(c, L.bad.empty(), "%s", L.bad.c_str()); }
    if (copies) { c.nontrivial(); c.label(L.name + (pin ? " pinned" : " approving")); } c.note("%s, interval %u, %u copies", L.name.c_str(), evo, copies);
}

PROP(C23, arrays, 20000, 400000) {
    uint32_t n = 1 + (uint32_t)c.draw(8); wickr_array_t *a = wickr_array_new(n, 1, (wickr_array_copy_func)wickr_buffer_copy, (wickr_array_destroy_func)wickr_buffer_destroy); std::vector<Bytes> v(n); for (uint32_t i = 0; i < n; i++) if (!c.chance(1, 4)) { v[i] = c.blob1(20); wickr_array_set_item(a, i, mk(v[i]), false); }
    bool deep = c.draw(1); wickr_array_t *b = wickr_array_copy(a, deep); CHECK(c, b && wickr_array_get_item_count(b) == n, "copying an array of %u failed", n); for (uint32_t i = 0; i < n; i++) { auto *x = (wickr_buffer_t *)wickr_array_fetch_item(a, i, false), *y = (wickr_buffer_t *)wickr_array_fetch_item(b, i, false); CHECK(c, to(x) == v[i] && to(y) == v[i], "item %u of a copied array differs", i); CHECK(c, !x || (x == y) == !deep, "item %u of a %s array copy is %s", i, deep ? "deep" : "shallow", x == y ? "shared" : "not shared"); }
    uint32_t k = (uint32_t)c.draw(n - 1); bool first = c.draw(1);
    if (deep) { wickr_array_t **g = first ? &a : &b, *o = first ? b : a; wickr_array_destroy(g, true); CHECK(c, !*g, "destroying an array leaves the caller's pointer set"); CHECK(c, to((wickr_buffer_t *)wickr_array_fetch_item(o, k, false)) == v[k], "destroying one array changed the other"); wickr_array_destroy(&o, true); } else { wickr_array_set_item(b, k, nullptr, false); CHECK(c, to((wickr_buffer_t *)wickr_array_fetch_item(a, k, false)) == v[k], "emptying a slot of a shallow copy changed the source"); wickr_array_destroy(&b, false); wickr_array_destroy(&a, true); }
    if (n > 1) c.nontrivial();
}
