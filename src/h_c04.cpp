// C04: encoding refuses recipients whose keys are not properly signed
#include "idworld.h"
#include "proto.h"

static EcKey private_of(const wickr_ec_key_t *pub) { // the private half of a pool key
    for (unsigned i = 0; i < 24; i++) { EcKey k = pool_key(i); if (same_pub(k.get(), pub)) return k; } return EcKey();
}
// Encodes and checks the outcome against the truth about every recipient.
static bool encode(Case &c, const Ctx &snd, const std::vector<wickr_node_t *> &l, const wickr_ec_key_t *old_key) {
    bool all = !l.empty(); for (auto *n : l) all = all && n && node_ok(n); bool sup = snd->pkt_enc_version >= 2 && snd->pkt_enc_version <= 4;
    NodeArray a = nodes_of(l); Payload pay = gen_payload(c, 60); EncRes e(wickr_ctx_encode_packet(snd.get(), pay.get(), a.get()));
    c.note("encode to %zu (all properly signed: %d, version %d) -> %d", l.size(), all, snd->pkt_enc_version, (bool)e);
    CHECK(c, (bool)e == (all && sup), "encoding %s: recipients are %s signed, version %d", e ? "succeeded" : "was refused", all ? "all properly" : "not all properly", snd->pkt_enc_version);
    if (!e) return false;
    Buf ser(wickr_packet_serialize(e->packet)); RefDecode rd; CHECK(c, ref_parse(to(ser), snd->id_chain, rd), "packet does not parse"); CHECK(c, rd.who.size() == l.size(), "%zu exchanges for %zu recipients", rd.who.size(), l.size());
    Bytes want = {(uint8_t)e->packet_key->cipher.cipher_id}; want = cat(want, to(e->packet_key->key_data));
    for (size_t i = 0; i < l.size(); i++) {
        CHECK(c, rd.who[i].first == to(l[i]->id_chain->node->identifier) && rd.who[i].second == l[i]->ephemeral_keypair->identifier, "recipient %zu is not wrapped under its current key id", i);
        EcKey k = private_of(l[i]->ephemeral_keypair->ec_key); if (!k) continue; Bytes info = ref_kdf_info(snd->pkt_enc_version, snd->id_chain, l[i]->id_chain, to(l[i]->dev_id));
        CHECK(c, ref_packet_key(snd->pkt_enc_version, rd.exchanges[i], rd.sender_pub, k.get(), info) == want, "recipient %zu is not wrapped to its current message key", i);
        if (old_key && !same_pub(old_key, k.get())) CHECK(c, ref_packet_key(snd->pkt_enc_version, rd.exchanges[i], rd.sender_pub, old_key, info) != want, "wrapped to a message key that was rotated out");
    }
    return true;
}
static void set_bad(Case &c, wickr_node_t *n, unsigned how) {
    EcKey o = gen_ec_key(c);
    auto flip = [&](wickr_buffer_t *b) { b->bytes[c.draw(b->length - 1)] ^= (uint8_t)(1u << c.draw(7)); };
    switch (how) {
        case 0: wickr_ecdsa_result_destroy(&n->id_chain->node->signature); break;
        case 1: flip(n->id_chain->node->signature->sig_data); break;
        case 2: wickr_ec_key_destroy(&n->id_chain->root->sig_key); n->id_chain->root->sig_key = o.release(); break;
        case 3: wickr_ec_key_destroy(&n->id_chain->node->sig_key); n->id_chain->node->sig_key = o.release(); break;
        case 4: wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); break;
        case 5: flip(n->ephemeral_keypair->signature->sig_data); break;
        case 6: wickr_ec_key_destroy(&n->ephemeral_keypair->ec_key); n->ephemeral_keypair->ec_key = o.release(); break;
        case 7: wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair); break;
        case 8: { // message key signed by the root instead of the node, or by a stranger
            Identity id = make_root(o.get(), Bytes(4, 1)); Sig s(wickr_identity_sign(id.get(), &ENG, n->ephemeral_keypair->ec_key->pub_data)); wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); n->ephemeral_keypair->signature = s.release(); break; }
        case 9: { // a whole new node identity signed by a stranger's root, properly signing the message key
            EcKey nk = gen_ec_key(c); Identity st = make_root(o.get(), Bytes(4, 1)); Sig s(wickr_identity_sign(st.get(), &ENG, nk->pub_data)); Identity nn(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(n->id_chain->node->identifier), wickr_ec_key_copy(nk.get()), s.release())); Sig es(wickr_identity_sign(nn.get(), &ENG, n->ephemeral_keypair->ec_key->pub_data));
            wickr_identity_destroy(&n->id_chain->node); n->id_chain->node = nn.release(); wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); n->ephemeral_keypair->signature = es.release(); break; }
    }
}

PROP(C04, position, 2500, 90000) { // one or more bad recipients at any position, in fresh or previously verified nodes
    Ctx snd = make_ctx(c, gen_identifier(c), c.blob1(10)); snd->pkt_enc_version = (uint8_t)(c.chance(9, 10) ? 2 + c.draw(2) : c.edge(255));
    unsigned n = 1 + (unsigned)c.edge(!c.chance(1, 25) ? 5 : c.chance(1, 6) ? 300 : 40); std::vector<Node> ns; std::vector<wickr_node_t *> l;
    for (unsigned i = 0; i < n; i++) { Chain ch = make_chain(c); EcKey k = gen_ec_key(c); Node x = make_node(ch.get(), c.blob1(40), c.edge(~0ull), k.get()); if (c.chance(1, 2)) make_public(x->id_chain); ns.push_back(std::move(x)); }
    for (auto &x : ns) l.push_back(x.get());
    unsigned warm = (unsigned)c.draw(3); if (warm == 1) encode(c, snd, l, nullptr); else if (warm == 2) for (auto *x : l) wickr_node_verify_signature_chain(x, &ENG); else if (warm == 3) for (auto *x : l) wickr_identity_chain_validate(x->id_chain, &ENG);
    unsigned bad = c.pick({1, 4, 1}); std::vector<Node> saved;
    for (unsigned b = 0; b < bad; b++) { size_t i = (size_t)c.draw(n - 1); if (!l[i]->ephemeral_keypair || !l[i]->ephemeral_keypair->signature || !l[i]->id_chain->node->signature) continue; unsigned how = (unsigned)c.draw(9); c.note("recipient %zu made bad: %u", i, how); c.label("bad" + std::to_string(how)); set_bad(c, l[i], how); }
    if (c.chance(1, 12)) { l.insert(l.begin() + c.draw(l.size()), nullptr); c.label("missing-recipient"); }
    if (c.chance(1, 12)) { l.push_back(l[c.draw(l.size() - 1)]); c.label("duplicate"); }
    if (c.chance(1, 30)) l.clear();
    if (c.chance(1, 3)) for (auto *x : l) if (x && c.chance(1, 2)) { if (c.chance(1, 2)) wickr_identity_chain_validate(x->id_chain, &ENG); else wickr_node_verify_signature_chain(x, &ENG); }
    bool ok = encode(c, snd, l, nullptr); if (c.chance(1, 3)) CHECK(c, encode(c, snd, l, nullptr) == ok, "the answer changed on repetition");
    if (c.chance(1, 4)) { std::vector<Node> cp; std::vector<wickr_node_t *> l2; for (auto *x : l) { cp.push_back(Node(wickr_node_copy(x))); } for (auto &x : cp) l2.push_back(x.get()); CHECK(c, encode(c, snd, l2, nullptr) == ok, "copied recipients are treated differently"); }
    if (!ok || n > 1) c.nontrivial(); c.label(ok ? "encoded" : "refused");
}

PROP(C04, history, 1500, 60000) { // encoding at any point of a history of changes to the nodes
    World w(c); Ctx snd = make_ctx(c, gen_identifier(c), c.blob1(10)); unsigned n = 1 + (unsigned)c.draw(2);
    for (unsigned i = 0; i < n; i++) { w.chains.push_back(make_chain(c)); EcKey k = gen_ec_key(c); w.nodes.push_back(make_node(w.chains.back().get(), c.blob1(20), c.edge(~0ull), k.get())); }
    unsigned steps = 3 + (unsigned)c.edge(14); int good = 0, refusedn = 0;
    for (unsigned s = 0; s < steps; s++) switch (c.pick({6, 4, 3, 2, 2, 1})) {
        case 0: { std::vector<wickr_node_t *> l; for (auto &x : w.nodes) if (c.chance(3, 4)) l.push_back(x.get()); snd->pkt_enc_version = (uint8_t)(2 + c.draw(2)); (encode(c, snd, l, nullptr) ? good : refusedn)++; w.verified++; break; }
        case 1: w.mutate_node(w.nodes[c.draw(w.nodes.size() - 1)].get()); break;
        case 2: { Node &x = w.nodes[c.draw(w.nodes.size() - 1)]; if (!x->id_chain->node->sig_key->pri_data) break; EcKey k = gen_ec_key(c); Sig sg(wickr_identity_sign(x->id_chain->node, &ENG, k->pub_data)); if (!sg) break; EcKey old; if (x->ephemeral_keypair) old = private_of(x->ephemeral_keypair->ec_key); // a proper rotation
            EphKey e(wickr_ephemeral_keypair_create(c.edge(~0ull), k.release(), sg.release())); CHECK(c, wickr_node_rotate_keypair(x.get(), e.get(), true), "rotation"); c.note("rotate properly"); snd->pkt_enc_version = (uint8_t)(2 + c.draw(2)); (encode(c, snd, {x.get()}, old ? old.get() : nullptr) ? good : refusedn)++; break; }
        case 3: { Node &x = w.nodes[c.draw(w.nodes.size() - 1)]; w.check_node(x.get()); break; }
        case 4: w.check_chain(w.any_chain()); break;
        case 5: w.derive_node(w.nodes[c.draw(w.nodes.size() - 1)].get()); break;
    }
    for (auto &x : w.nodes) encode(c, snd, {x.get()}, nullptr);
    if (w.mutated_after_verify) c.nontrivial(); if (good) c.label("encoded"); if (refusedn) c.label("refused");
}

PROP(C04, arguments, 200, 2000) {
    Ctx snd = make_ctx(c, gen_identifier(c), c.blob1(10)); Chain ch = make_chain(c); EcKey k = gen_ec_key(c); Node x = make_node(ch.get(), c.blob1(20), 1, k.get()); NodeArray a = nodes_of({x.get()}), none(wickr_node_array_new(0)); Payload p = gen_payload(c, 20);
    EncRes e1(wickr_ctx_encode_packet(nullptr, p.get(), a.get())), e2(wickr_ctx_encode_packet(snd.get(), nullptr, a.get())), e3(wickr_ctx_encode_packet(snd.get(), p.get(), nullptr)); CHECK(c, !e1 && !e2 && !e3, "encoded with a missing argument");
    if (none) { EncRes e4(wickr_ctx_encode_packet(snd.get(), p.get(), none.get())); CHECK(c, !e4, "encoded to nobody"); }
    // a sender that cannot sign
    Ctx pubs = clone(snd); make_public(pubs->id_chain->node); EncRes e5(wickr_ctx_encode_packet(pubs.get(), p.get(), a.get())); CHECK(c, !e5, "encoded without a private signing key"); c.nontrivial();
}
