// C01: every addressed recipient decodes exactly the message that was sent
#include "proto.h"

static std::vector<Party> parties(Case &c, unsigned n) {
    std::vector<Party> v; Bytes ident; for (unsigned i = 0; i < n; i++) { if (i == 0 || c.chance(2, 3)) ident = gen_identifier(c); v.push_back(make_party(c, ident)); } return v; // devices may share an account identifier
}
static void check_decoded(Case &c, const wickr_decode_result_t *d, const wickr_payload_t *sent, const wickr_cipher_key_t *key, const char *how) {
    CHECK(c, d, "%s: no result", how); CHECK(c, d->err == E_SUCCESS, "%s: error %d", how, (int)d->err);
    CHECK(c, d->decrypted_payload && same(d->decrypted_payload, sent), "%s: decoded payload differs from the sent one", how);
    CHECK(c, d->payload_key && same(d->payload_key, key), "%s: packet key differs from the encoder's", how);
}
static void check_names(Case &c, const wickr_key_exchange_set_t *set, const std::vector<wickr_node_t *> &to_) {
    CHECK(c, set, "no key exchange set"); CHECK(c, wickr_array_get_item_count(set->exchanges) == to_.size(), "%u key exchanges for %zu recipients", wickr_array_get_item_count(set->exchanges), to_.size());
    std::multiset<std::pair<Bytes, uint64_t>> got, want;
    for (uint32_t i = 0; i < to_.size(); i++) { wickr_key_exchange_t *e = wickr_exchange_array_fetch_item(set->exchanges, i); got.insert({to(e->exchange_id), e->key_id}); want.insert({to(to_[i]->id_chain->node->identifier), to_[i]->ephemeral_keypair->identifier}); }
    CHECK(c, got == want, "the key exchange list does not name the addressed devices and their message key ids");
}

PROP(C01, exchange, 1200, 40000) {
    unsigned n = 1 + (unsigned)c.edge(5); std::vector<Party> ps = parties(c, n); Party &snd = ps[c.draw(n - 1)]; unsigned ver = 4 - (unsigned)c.draw(2); snd.ctx->pkt_enc_version = (uint8_t)ver;
    std::vector<size_t> rcpt; for (size_t i = 0; i < n; i++) if (c.chance(3, 4)) rcpt.push_back(i); if (rcpt.empty()) rcpt.push_back((size_t)c.draw(n - 1));
    for (size_t i = rcpt.size(); i > 1; i--) std::swap(rcpt[i - 1], rcpt[c.draw(i - 1)]);
    std::vector<wickr_node_t *> list; for (size_t r : rcpt) list.push_back(ps[r].node.get());
    std::vector<Node> near; if (c.chance(1, 4)) for (unsigned k = 1 + (unsigned)c.draw(1); k; k--) { // devices of others whose ids nearly are those of a recipient
        Bytes id = ps[rcpt[c.draw(rcpt.size() - 1)]].id(); if (c.draw(1)) id.resize(1 + c.edge(id.size() - 2)); else if (c.draw(1)) id.push_back((uint8_t)c.edge(255)); else id[c.draw(id.size() - 1)] ^= (uint8_t)(1u << c.draw(7)); bool dup = false; for (auto &p : ps) dup |= p.id() == id; for (auto &x : near) dup |= to(x->id_chain->node->identifier) == id; if (dup) continue;
        EcKey rk = gen_ec_key(c), nk = gen_ec_key(c), ek = gen_ec_key(c); Identity root = make_root(rk.get(), gen_identifier(c)); Sig sg(wickr_identity_sign(root.get(), &ENG, nk->pub_data)); Identity node(wickr_identity_create(IDENTITY_TYPE_NODE, mk(id), nk.release(), sg.release())); Chain ch(wickr_identity_chain_create(root.release(), node.release())); near.push_back(make_node(ch.get(), c.blob1(20), c.edge(~0ull), ek.get())); list.insert(list.begin() + (long)c.draw(list.size()), near.back().get()); c.label("nearly equal ids"); }
    NodeArray arr = nodes_of(list); Payload pay = gen_payload(c, c.chance(1, 15) ? c.chance(1, 5) ? 1300000 : 70000 : 600); Payload keep(wickr_payload_copy(pay.get())); CHECK(c, pay && keep && same(pay.get(), keep.get()), "payload");
    EncRes enc(wickr_ctx_encode_packet(snd.ctx.get(), pay.get(), arr.get())); CHECK(c, enc && enc->packet && enc->packet_key, "encoding to %zu valid recipients (version %u) failed", rcpt.size(), ver);
    CHECK(c, same(pay.get(), keep.get()), "the payload was changed by encoding it"); CHECK(c, enc->packet->version == ver, "packet version %d, context asks for %u", enc->packet->version, ver);
    Buf ser(wickr_packet_serialize(enc->packet)); CHECK(c, ser, "packet does not serialize"); Bytes wire = to(ser);
    CHECK(c, wire.size() > 2 && wire[0] == ver, "serialized packet does not carry its version");
    { View v(wire); Packet p(wickr_packet_create_from_buffer(v)); CHECK(c, p && same(p.get(), enc->packet), "parsed packet differs"); Buf again(wickr_packet_serialize(p.get())); CHECK(c, to(again) == wire, "packet re-serializes differently"); }
    // what a third party implementing the documented format sees
    { Bytes content = to(enc->packet->content); View cv(content); CHECK(c, ref::sig_ok(enc->packet->signature, snd.ctx->id_chain->node->sig_key, cv), "independent verifier rejects the packet signature"); }
    RefDecode rd; CHECK(c, ref_parse(wire, snd.ctx->id_chain, rd), "the packet header does not open under SHA-256(root id, node id)");
    CHECK(c, rd.who.size() == list.size(), "%zu exchanges in the packet for %zu recipients", rd.who.size(), list.size());
    Chain sender = c.chance(1, 2) ? public_chain(snd.ctx->id_chain) : Chain(wickr_identity_chain_copy(snd.ctx->id_chain));
    View wv(wire);
    for (size_t r : rcpt) {
        Party &p = ps[r]; bool cp = c.chance(1, 4); Ctx cc; if (cp) cc = clone(p.ctx); wickr_ctx_t *x = cp ? cc.get() : p.ctx.get();
        CtxPacket cpk(c.chance(1, 5) ? wickr_ctx_stateless_parse_packet(&ENG, p.ctx->id_chain->node->identifier, wv, sender.get()) : wickr_ctx_parse_packet(x, wv, sender.get()));
        CHECK(c, cpk && cpk->parse_result, "recipient cannot parse"); wickr_parse_result_t *pr = cpk->parse_result;
        CHECK(c, pr->err == E_SUCCESS && pr->signature_status == PACKET_SIGNATURE_VALID, "recipient %zu: parse error %d, signature status %d", r, (int)pr->err, (int)pr->signature_status);
        CHECK(c, pr->key_exchange && to(pr->key_exchange->exchange_id) == p.id() && pr->key_exchange->key_id == p.node->ephemeral_keypair->identifier, "recipient %zu was given the wrong key exchange", r);
        CHECK(c, pr->enc_payload && pr->key_exchange_set, "incomplete parse result"); check_names(c, pr->key_exchange_set, list);
        CHECK(c, same_pub(cpk->sender, sender.get()) && same(cpk->packet, enc->packet), "the parsed packet records another sender or packet");
        for (int k = 0; k < 1 + (int)c.chance(1, 5); k++) { DecodeRes d(wickr_ctx_decode_packet(x, cpk.get(), p.eph->ec_key)); check_decoded(c, d.get(), keep.get(), enc->packet_key, "recipient"); // decoding is repeatable
            if (k == 0 && c.chance(1, 4)) { DecodeRes d2(wickr_decode_result_copy(d.get())); d.reset(); check_decoded(c, d2.get(), keep.get(), enc->packet_key, "copied decode result"); } }
        if (c.chance(1, 4)) { ParseRes pc(wickr_parse_result_copy(pr)); DecodeRes d(wickr_decode_result_from_parse_result(cpk->packet, &ENG, pc.get(), x->dev_info->msg_proto_id, p.eph->ec_key, x->id_chain, sender.get())); check_decoded(c, d.get(), keep.get(), enc->packet_key, "copied parse result"); }
        // independent decoding
        size_t at = 0; while (at < rd.who.size() && rd.who[at].first != p.id()) at++; CHECK(c, at < rd.who.size(), "recipient not in the packet");
        Bytes pk = ref_packet_key((int)ver, rd.exchanges[at], rd.sender_pub, p.eph->ec_key, ref_kdf_info((int)ver, snd.ctx->id_chain, p.ctx->id_chain, p.dev()));
        Bytes want = {(uint8_t)enc->packet_key->cipher.cipher_id}; want = cat(want, to(enc->packet_key->key_data)); CHECK(c, pk == want, "the wrapped packet key is not the documented derivation for version %u", ver);
        Bytes pt; CHECK(c, ref_open(Bytes(pk.begin() + 1, pk.end()), rd.enc_payload, pt), "the payload does not open under the packet key");
    }
    { CtxPacket nd(wickr_ctx_parse_packet_no_decode(ps[0].ctx.get(), wv, sender.get())); CHECK(c, nd && nd->parse_result->err == E_SUCCESS && nd->parse_result->signature_status == PACKET_SIGNATURE_VALID && !nd->parse_result->key_exchange, "parse without decode"); check_names(c, nd->parse_result->key_exchange_set, list); }
    { CtxPacket nd(wickr_ctx_stateless_parse_packet(&ENG, nullptr, wv, sender.get())); CHECK(c, nd && nd->parse_result->err == E_SUCCESS, "stateless parse"); check_names(c, nd->parse_result->key_exchange_set, list); }
    { EncRes e2(wickr_encoder_result_copy(enc.get())); enc.reset(); CHECK(c, e2, "encoder result copy"); Buf s2(wickr_packet_serialize(e2->packet)); CHECK(c, to(s2) == wire, "copied encoder result differs"); }
    c.nontrivial(); c.label("version" + std::to_string(ver)); if (rcpt.size() > 1) c.label("several-recipients"); if (keep->body->length > 4096) c.label("large"); c.note("%u parties, %zu recipients, version %u, body %zu", n, rcpt.size(), ver, keep->body->length);
}

// conversations: parties keep exchanging and rotating message keys, and messages are delivered late and out of order
PROP(C01, conversation, 250, 10000) {
    unsigned n = 2 + (unsigned)c.draw(2); std::vector<Party> ps = parties(c, n); std::vector<std::map<uint64_t, EcKey>> keys(n);
    uint64_t next = 1; for (unsigned i = 0; i < n; i++) { ps[i].eph->identifier = next++; publish(ps[i]); keys[i][ps[i].eph->identifier] = EcKey(wickr_ec_key_copy(ps[i].eph->ec_key)); }
    struct Msg { Bytes wire; Payload pay; size_t from; std::vector<size_t> to_; CipherKey key; }; std::vector<Msg> msgs; int delivered = 0;
    auto deliver = [&](Msg &m) {
        size_t r = m.to_[c.draw(m.to_.size() - 1)]; View v(m.wire); Chain sc = public_chain(ps[m.from].ctx->id_chain);
        CtxPacket p(wickr_ctx_parse_packet(ps[r].ctx.get(), v, sc.get())); CHECK(c, p && p->parse_result->err == E_SUCCESS && p->parse_result->signature_status == PACKET_SIGNATURE_VALID, "late message does not parse");
        auto it = keys[r].find(p->parse_result->key_exchange->key_id); CHECK(c, it != keys[r].end(), "message names a key id the recipient never published");
        DecodeRes d(wickr_ctx_decode_packet(ps[r].ctx.get(), p.get(), it->second.get())); check_decoded(c, d.get(), m.pay.get(), m.key.get(), "conversation"); delivered++;
    };
    unsigned steps = 3 + (unsigned)c.draw(9);
    for (unsigned s = 0; s < steps; s++) switch (c.pick({4, 3, 3, 1, 1})) {
        case 0: { Msg m; m.from = (size_t)c.draw(n - 1); std::vector<wickr_node_t *> l; for (size_t i = 0; i < n; i++) if (c.chance(1, 2)) { m.to_.push_back(i); l.push_back(ps[i].node.get()); } if (l.empty()) { m.to_.push_back(0); l.push_back(ps[0].node.get()); }
            m.pay = gen_payload(c, 200); NodeArray a = nodes_of(l); EncRes e(wickr_ctx_encode_packet(ps[m.from].ctx.get(), m.pay.get(), a.get())); CHECK(c, e, "encode"); Buf b(wickr_packet_serialize(e->packet)); m.wire = to(b); m.key.reset(wickr_cipher_key_copy(e->packet_key)); msgs.push_back(std::move(m)); break; }
        case 1: if (!msgs.empty()) deliver(msgs[c.draw(msgs.size() - 1)]); break;
        case 2: { size_t i = (size_t)c.draw(n - 1); EcKey k = gen_ec_key(c); Sig sg(wickr_identity_sign(ps[i].ctx->id_chain->node, &ENG, k->pub_data)); uint64_t id = next++; keys[i][id] = EcKey(wickr_ec_key_copy(k.get())); // published key rotates in the sender's view of the node
            EphKey e(wickr_ephemeral_keypair_create(id, k.release(), sg.release())); if (c.chance(1, 2)) wickr_ephemeral_keypair_make_public(e.get()); CHECK(c, wickr_node_rotate_keypair(ps[i].node.get(), e.get(), true), "rotate"); break; }
        case 3: { size_t i = (size_t)c.draw(n - 1); ps[i].ctx = clone(ps[i].ctx); break; }
        case 4: { size_t i = (size_t)c.draw(n - 1); Buf b(wickr_ctx_serialize(ps[i].ctx.get())); uint8_t ver = ps[i].ctx->pkt_enc_version; DevInfo di(wickr_dev_info_copy(ps[i].ctx->dev_info)); View v(to(b)); Ctx r(wickr_ctx_create_from_buffer(ENG, di.get(), v)); CHECK(c, r, "context does not restore"); di.release(); r->pkt_enc_version = ver; ps[i].ctx = std::move(r); break; }
    }
    for (auto &m : msgs) deliver(m);
    if (delivered) c.nontrivial(); if (msgs.size() > 1) c.label("several-messages");
}

// a crowd: many addressed devices in one packet
PROP(C01, crowd, 48, 1200) {
    unsigned n = c.chance(1, 3) ? 40 + (unsigned)c.edge(c.chance(1, 2) ? 300 : 100) : 6 + (unsigned)c.draw(40); unsigned distinct = std::min(n, 6u + (unsigned)c.draw(40)); std::vector<Party> ps = parties(c, distinct); Party &snd = ps[c.draw(distinct - 1)];
    std::vector<size_t> rcpt; for (unsigned i = 0; i < n; i++) rcpt.push_back(i < distinct ? i : c.draw(distinct - 1)); for (size_t i = rcpt.size(); i > 1; i--) std::swap(rcpt[i - 1], rcpt[c.draw(i - 1)]);
    // beyond the distinct parties: further devices of the same accounts (same root, a device identity and message key of their own)
    std::vector<Party> more; more.reserve(n); std::vector<Party *> who; std::set<size_t> used;
    for (size_t r : rcpt) {
        if (used.insert(r).second) { who.push_back(&ps[r]); continue; }
        Party q; Identity node(wickr_node_identity_gen(&ENG, ps[r].ctx->id_chain->root, nullptr)); q.ctx = clone(ps[r].ctx); CHECK(c, node && q.ctx, "device"); wickr_identity_destroy(&q.ctx->id_chain->node); q.ctx->id_chain->node = node.release();
        wickr_buffer_destroy(&q.ctx->packet_header_key->key_data); q.ctx->packet_header_key->key_data = mk(ref_header_key(q.ctx->id_chain));
        CHECK(c, q.ctx->packet_header_key->key_data, "key"); new_message_key(c, q); publish(q); more.push_back(std::move(q)); who.push_back(&more.back());
    }
    std::vector<wickr_node_t *> list; for (Party *p : who) list.push_back(p->node.get());
    NodeArray arr = nodes_of(list); Payload pay = gen_payload(c, 300);
    EncRes enc(wickr_ctx_encode_packet(snd.ctx.get(), pay.get(), arr.get())); CHECK(c, enc, "encoding to %zu valid recipients failed", list.size());
    Buf ser(wickr_packet_serialize(enc->packet)); CHECK(c, ser, "packet for %zu recipients does not serialize", list.size()); View v(to(ser)); Chain sc = public_chain(snd.ctx->id_chain);
    std::set<size_t> at = {0, list.size() - 1}; while (at.size() < std::min<size_t>(list.size(), 6)) at.insert(c.draw(list.size() - 1));
    for (size_t i : at) { Party &p = *who[i];
        CtxPacket pk(wickr_ctx_parse_packet(p.ctx.get(), v, sc.get())); CHECK(c, pk && pk->parse_result && pk->parse_result->err == E_SUCCESS && pk->parse_result->signature_status == PACKET_SIGNATURE_VALID, "recipient %zu of %zu cannot parse", i, list.size());
        if (i == 0) check_names(c, pk->parse_result->key_exchange_set, list);
        CHECK(c, pk->parse_result->key_exchange && to(pk->parse_result->key_exchange->exchange_id) == p.id(), "recipient %zu of %zu was given the wrong key exchange", i, list.size());
        DecodeRes d(wickr_ctx_decode_packet(p.ctx.get(), pk.get(), p.eph->ec_key)); check_decoded(c, d.get(), pay.get(), enc->packet_key, "one of many recipients"); }
    c.nontrivial(); c.label(list.size() > 64 ? "over-64" : list.size() > 32 ? "over-32" : "up-to-32"); c.note("%zu recipients, %u accounts", list.size(), distinct);
}
