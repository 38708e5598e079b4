// A population of identity chains and nodes under arbitrary changes, with the truth about every signature (C04, C05).
#pragma once
#include "common.h"

// The truth is recomputed from the public fields of the object each time, by an independent ECDSA verifier.
using ref::sig_ok; using ref::chain_ok; using ref::eph_ok; using ref::node_ok;

struct World {
    Case &c; std::vector<Chain> chains; std::vector<Node> nodes; int verified = 0, valid = 0, invalid = 0; bool mutated_after_verify = false;
    explicit World(Case &k) : c(k) {}
    wickr_identity_chain_t *any_chain() { size_t n = chains.size() + nodes.size(); size_t i = (size_t)c.draw(n - 1); return i < chains.size() ? chains[i].get() : nodes[i - chains.size()]->id_chain; }
    void check_chain(wickr_identity_chain_t *ch) {
        bool t = chain_ok(ch), g = wickr_identity_chain_validate(ch, &ENG); c.note("validate chain -> %d (truth %d)", g, t);
        CHECK(c, g == t, "chain validation answered %d, the signature is %s", g, t ? "genuine" : "not genuine");
        CHECK(c, ch->status == (g ? IDENTITY_CHAIN_STATUS_VALID : IDENTITY_CHAIN_STATUS_INVALID), "chain status %d disagrees with the answer %d", (int)ch->status, g);
        verified++; (g ? valid : invalid)++;
    }
    void check_node(wickr_node_t *n) {
        bool t = node_ok(n), g = wickr_node_verify_signature_chain(n, &ENG); c.note("verify node -> %d (truth %d: chain %d, message key %d)", g, t, chain_ok(n->id_chain), eph_ok(n));
        CHECK(c, g == t, "node verification answered %d, the signatures are %s", g, t ? "genuine" : "not all genuine");
        CHECK(c, n->status == (g ? NODE_STATUS_VALID : NODE_STATUS_INVALID), "node status %d disagrees with the answer %d", (int)n->status, g);
        if (g) CHECK(c, n->id_chain->status == IDENTITY_CHAIN_STATUS_VALID, "valid node with a chain whose status is %d", (int)n->id_chain->status);
        verified++; (g ? valid : invalid)++;
    }
    // A signature for data under some key: genuine, by another key, over other data, altered, or absent
    Sig any_sig(const wickr_ec_key_t *signer, const wickr_buffer_t *data) {
        unsigned k = c.pick({4, 2, 2, 2, 1}); EcKey other = gen_ec_key(c); Bytes d2 = to(other->pub_data); View ov(d2); wickr_digest_t dg = c.chance(3, 4) ? DIGEST_SHA_512 : gen_digest(c);
        if (k == 4) { c.note("  signature: none"); return Sig(); }
        Sig s(ENG.wickr_crypto_engine_ec_sign(k == 1 || !signer->pri_data ? other.get() : signer, k == 2 ? (const wickr_buffer_t *)ov : data, dg));
        if (s && k == 3) { if (c.chance(1, 2)) s->digest_mode = gen_digest(c); else s->sig_data->bytes[c.draw(s->sig_data->length - 1)] ^= (uint8_t)(1u << c.draw(7)); }
        c.note("  signature: kind %u", k); return s;
    }
    void mutate_chain(wickr_identity_chain_t *ch) {
        unsigned k = c.pick({3, 2, 2, 2, 2, 1, 1, 2, 2}); c.note("mutate chain: %u", k); if (verified) mutated_after_verify = true;
        auto set_sig = [&](Sig s) { wickr_ecdsa_result_destroy(&ch->node->signature); ch->node->signature = s.release(); };
        auto set_key = [&](wickr_identity_t *id, EcKey n) { wickr_ec_key_destroy(&id->sig_key); id->sig_key = n.release(); };
        switch (k) {
            case 0: set_sig(any_sig(ch->root->sig_key, ch->node->sig_key->pub_data)); break;
            case 1: if (ch->node->signature) ch->node->signature->sig_data->bytes[c.draw(ch->node->signature->sig_data->length - 1)] ^= (uint8_t)(1u << c.draw(7)); break;
            case 2: set_key(ch->node, gen_ec_key(c)); break;
            case 3: set_key(ch->root, gen_ec_key(c)); break;
            case 4: { EcKey nk = gen_ec_key(c); set_sig(any_sig(ch->root->sig_key, nk->pub_data)); set_key(ch->node, std::move(nk)); break; } // both at once, possibly consistent
            case 5: ch->status = (wickr_identity_chain_status)c.draw(2); break;
            case 6: if (ch->node->signature) ch->node->signature->digest_mode = gen_digest(c); break;
            case 7: { wickr_identity_chain_t *o = any_chain(); Identity id(wickr_identity_copy(o->root)); if (!id) return; wickr_identity_destroy(&ch->root); ch->root = id.release(); break; }
            case 8: { wickr_identity_chain_t *o = any_chain(); Identity id(wickr_identity_copy(o->node)); if (!id) return; wickr_identity_destroy(&ch->node); ch->node = id.release(); break; }
        }
    }
    void mutate_node(wickr_node_t *n) {
        unsigned k = c.pick({4, 3, 2, 2, 1, 1, 2, 2}); c.note("mutate node: %u", k); if (verified) mutated_after_verify = true;
        switch (k) {
            case 0: { // rotate to a new key, signed properly or not
                EcKey ek = gen_ec_key(c); Sig s = any_sig(n->id_chain->node->sig_key, ek->pub_data); EphKey e(wickr_ephemeral_keypair_create(c.edge(~0ull), ek.release(), s.release())); bool cp = c.chance(1, 2); EphKey keep(wickr_ephemeral_keypair_copy(e.get()));
                bool ok = wickr_node_rotate_keypair(n, e.get(), cp); CHECK(c, ok, "rotation failed"); if (!cp) e.release();
                CHECK(c, same(n->ephemeral_keypair, keep.get()), "the node does not hold the rotated key pair"); CHECK(c, n->status == NODE_STATUS_UNKNOWN, "status after rotation is %d", (int)n->status); break; }
            case 1: { // replace the whole chain with a copy of another (which may have been verified on its own)
                Chain o(wickr_identity_chain_copy(any_chain())); if (!o) return; wickr_identity_chain_destroy(&n->id_chain); n->id_chain = o.release(); break; }
            case 2: mutate_chain(n->id_chain); break;
            case 3: if (n->ephemeral_keypair && n->ephemeral_keypair->signature) n->ephemeral_keypair->signature->sig_data->bytes[c.draw(n->ephemeral_keypair->signature->sig_data->length - 1)] ^= (uint8_t)(1u << c.draw(7)); break;
            case 4: n->status = (wickr_node_status)c.draw(2); break;
            case 5: wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair); break;
            case 6: if (n->ephemeral_keypair) { Sig s = any_sig(n->id_chain->node->sig_key, n->ephemeral_keypair->ec_key->pub_data); wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); n->ephemeral_keypair->signature = s.release(); } break;
            case 7: if (n->ephemeral_keypair) { // rotate with a copy of its own key pair
                EphKey keep(wickr_ephemeral_keypair_copy(n->ephemeral_keypair)); CHECK(c, wickr_node_rotate_keypair(n, n->ephemeral_keypair, c.chance(1, 2)), "rotation to its own key pair failed"); CHECK(c, same(n->ephemeral_keypair, keep.get()), "own key pair changed by rotation"); } break;
        }
    }
    // a copy or a parsed serialization must verify the same as its source
    void derive_chain(wickr_identity_chain_t *ch) {
        bool t = chain_ok(ch); unsigned k = (unsigned)c.draw(2); Chain d; c.note("derive chain %u", k);
        if (k == 0) { d.reset(wickr_identity_chain_copy(ch)); CHECK(c, d && same(d.get(), ch), "copied chain differs"); CHECK(c, d->status == ch->status, "copied status"); }
        else { Buf b(k == 1 ? wickr_identity_chain_serialize(ch) : wickr_identity_chain_serialize_private(ch)); if (!b) return; View v(to(b)); d.reset(wickr_identity_chain_create_from_buffer(v, &ENG)); if (!d) { CHECK(c, !t, "a valid chain does not parse back"); return; } CHECK(c, d->status == IDENTITY_CHAIN_STATUS_UNKNOWN, "a parsed chain already claims status %d", (int)d->status); }
        CHECK(c, chain_ok(d.get()) == t, "derived chain has other signatures than its source");
        if (chains.size() < 5) chains.push_back(std::move(d)); else { size_t i = (size_t)c.draw(4); chains[i] = std::move(d); }
    }
    void derive_node(wickr_node_t *n) {
        bool t = node_ok(n); Node d; bool cp = c.chance(1, 2); c.note("derive node %d", cp);
        if (cp) { d.reset(wickr_node_copy(n)); CHECK(c, d && same(d.get(), n), "copied node differs"); CHECK(c, d->status == n->status, "copied status"); }
        else { Buf b(wickr_node_serialize(n)); if (!b) return; View v(to(b)); d.reset(wickr_node_create_from_buffer(v, &ENG)); if (!d) { CHECK(c, !t, "a valid node does not parse back"); return; } CHECK(c, d->status == NODE_STATUS_UNKNOWN, "a parsed node already claims status %d", (int)d->status); }
        CHECK(c, node_ok(d.get()) == t, "derived node has other signatures than its source");
        if (nodes.size() < 4) nodes.push_back(std::move(d)); else nodes[c.draw(3)] = std::move(d);
    }
};

