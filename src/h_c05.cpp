// C05: identity and node verification is correct after any history of changes
#include "idworld.h"

PROP(C05, history, 3000, 120000) {
    World w(c);
    w.chains.push_back(make_chain(c)); EcKey mk1 = gen_ec_key(c); w.nodes.push_back(make_node(w.chains[0].get(), c.blob1(40), c.edge(~0ull), mk1.get()));
    unsigned steps = 3 + (unsigned)c.edge(25);
    for (unsigned i = 0; i < steps; i++) {
        size_t ci = (size_t)c.draw(w.chains.size() - 1), ni = (size_t)c.draw(w.nodes.size() - 1);
        switch (c.pick({6, 6, 4, 5, 2, 2, 1, 2, 1})) {
            case 0: w.check_node(w.nodes[ni].get()); break;
            case 1: w.check_chain(w.any_chain()); break;
            case 2: w.mutate_chain(w.any_chain()); break;
            case 3: w.mutate_node(w.nodes[ni].get()); break;
            case 4: w.derive_chain(w.any_chain()); break;
            case 5: w.derive_node(w.nodes[ni].get()); break;
            case 6: if (w.chains.size() < 5) w.chains.push_back(make_chain(c)); break;
            case 7: { // undo: put the chain of another node or chain back in place (swap)
                std::swap(w.nodes[ni]->id_chain, w.chains[ci].p); c.note("swap chain %zu with node %zu", ci, ni); break; }
            case 8: { Node &n = w.nodes[ni]; if (n->ephemeral_keypair) { bool g = wickr_ephemeral_keypair_verify_owner(n->ephemeral_keypair, &ENG, n->id_chain->node); CHECK(c, g == eph_ok(n.get()), "key pair ownership answered %d", g); } break; }
        }
    }
    for (auto &n : w.nodes) w.check_node(n.get());
    for (auto &ch : w.chains) w.check_chain(ch.get());
    for (auto &n : w.nodes) { w.check_chain(n->id_chain); w.check_node(n.get()); }
    if (w.mutated_after_verify) { c.nontrivial(); c.label("mutated-after-verify"); } if (w.valid && w.invalid) c.label("valid-and-invalid");
}

PROP(C05, generated, 1200, 40000) { // identities and message keys the library makes itself verify under their real owner only
    EcKey rk = gen_ec_key(c); Bytes rid = gen_identifier(c); Identity root = make_root(rk.get(), rid); Bytes nid = c.chance(1, 2) ? gen_identifier(c) : Bytes(); View iv(nid);
    bool priv = c.chance(5, 6), rtype = c.chance(7, 8);
    if (!priv) wickr_buffer_destroy(&root->sig_key->pri_data); if (!rtype) root->type = IDENTITY_TYPE_NODE;
    Identity node(wickr_node_identity_gen(&ENG, root.get(), nid.empty() ? nullptr : (const wickr_buffer_t *)iv));
    if (!priv || !rtype) { CHECK(c, !node, "node identity generated from %s", rtype ? "a root without a private key" : "a non-root identity"); c.label("refused"); c.nontrivial(); return; }
    CHECK(c, node && node->type == IDENTITY_TYPE_NODE && node->sig_key->pri_data && (nid.empty() ? node->identifier->length == IDENTIFIER_LEN : to(node->identifier) == nid), "generated node identity is malformed");
    CHECK(c, sig_ok(node->signature, root->sig_key, node->sig_key->pub_data), "generated node identity is not signed by its root");
    uint64_t kid = c.edge(~0ull); EphKey e(wickr_ephemeral_keypair_generate_identity(&ENG, kid, node.get())); CHECK(c, e && e->identifier == kid && e->ec_key->pri_data, "generated key pair is malformed");
    CHECK(c, sig_ok(e->signature, node->sig_key, e->ec_key->pub_data) && wickr_ephemeral_keypair_verify_owner(e.get(), &ENG, node.get()), "generated key pair is not signed by its node");
    if (c.chance(1, 3)) { Ctx x = make_ctx(c, rid, c.blob1(10)); uint64_t id2 = c.edge(~0ull); EphKey g(wickr_ctx_ephemeral_keypair_gen(x.get(), id2)); CHECK(c, g && g->identifier == id2 && g->ec_key->pri_data && sig_ok(g->signature, x->id_chain->node->sig_key, g->ec_key->pub_data) && wickr_ephemeral_keypair_verify_owner(g.get(), &ENG, x->id_chain->node), "message key %llu of a context is not signed by its node", (unsigned long long)id2); }
    EcKey o = gen_ec_key(c); Identity other = make_root(o.get(), rid); CHECK(c, wickr_ephemeral_keypair_verify_owner(e.get(), &ENG, other.get()) == same_pub(o.get(), node->sig_key), "key pair verifies under an identity that did not sign it");
    CHECK(c, wickr_ephemeral_keypair_verify_owner(e.get(), &ENG, root.get()) == false, "key pair verifies under the root");
    CHECK(c, !wickr_ephemeral_keypair_verify_owner(nullptr, &ENG, node.get()) && !wickr_ephemeral_keypair_verify_owner(e.get(), &ENG, nullptr), "missing arguments verify");
    // signatures by identities
    Bytes d = c.data1(200); View v(d); Sig s(wickr_identity_sign(node.get(), &ENG, v)); CHECK(c, s && sig_ok(s.get(), node->sig_key, v), "identity signature");
    Identity pub(wickr_identity_copy(node.get())); wickr_buffer_destroy(&pub->sig_key->pri_data); CHECK(c, !Sig(wickr_identity_sign(pub.get(), &ENG, v)) && !Sig(wickr_identity_sign(node.get(), &ENG, nullptr)) && !Sig(wickr_identity_sign(nullptr, &ENG, v)), "signed without a private key or data");
    CHECK(c, !EphKey(wickr_ephemeral_keypair_generate_identity(&ENG, kid, pub.get())), "key pair generated by a public identity");
    // the chain and node made of them
    Chain ch(wickr_identity_chain_create(root.release(), node.release())); CHECK(c, ch->status == IDENTITY_CHAIN_STATUS_UNKNOWN && wickr_identity_chain_validate(ch.get(), &ENG), "chain of generated identities");
    Bytes dev = c.blob1(40); Node n(wickr_node_create(mk(dev), wickr_identity_chain_copy(ch.get()), e.release())); CHECK(c, wickr_node_verify_signature_chain(n.get(), &ENG), "node of generated keys");
    Buf b(wickr_node_serialize(n.get())); View bv(to(b)); Node n2(wickr_node_create_from_buffer(bv, &ENG)); CHECK(c, n2 && same_pub(n2.get(), n.get()) && wickr_node_verify_signature_chain(n2.get(), &ENG), "parsed node does not verify");
    CHECK(c, !wickr_identity_chain_validate(nullptr, &ENG) && !wickr_identity_chain_validate(ch.get(), nullptr) && !wickr_node_verify_signature_chain(nullptr, &ENG) && !wickr_node_verify_signature_chain(n.get(), nullptr), "missing arguments verify");
    c.nontrivial(); c.label("generated");
}
