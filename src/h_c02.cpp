// C02: only the addressed device holding the right message key can decode
#include "proto.h"

static void refused(Case &c, const wickr_decode_result_t *d, const char *what) {
    if (!d) return; // no result at all
    CHECK(c, d->err != E_SUCCESS, "%s: decode reports success", what);
    CHECK(c, !d->decrypted_payload, "%s: decode failed but released a payload", what); CHECK(c, !d->payload_key, "%s: decode failed but released a packet key", what);
}
static CtxPacket mkpkt(const wickr_packet_t *p, const wickr_identity_chain_t *sender, ParseRes r) { return CtxPacket(wickr_ctx_packet_create(wickr_packet_copy(p), wickr_identity_chain_copy(sender), r.release())); }

PROP(C02, strangers, 2500, 90000) {
    unsigned ver = 2 + (unsigned)c.draw(2), n = 1 + (unsigned)c.draw(3);
    Party snd = make_party(c, gen_identifier(c)); snd.ctx->pkt_enc_version = (uint8_t)ver;
    std::vector<Party> ps; std::vector<wickr_node_t *> l; for (unsigned i = 0; i < n; i++) { ps.push_back(make_party(c, gen_identifier(c))); } for (auto &p : ps) l.push_back(p.node.get());
    NodeArray a = nodes_of(l); Payload pay = gen_payload(c, 200); EncRes enc(wickr_ctx_encode_packet(snd.ctx.get(), pay.get(), a.get())); CHECK(c, enc, "encode"); Buf ser(wickr_packet_serialize(enc->packet)); Bytes wire = to(ser); View wv(wire);
    Chain sender = public_chain(snd.ctx->id_chain); Party &me = ps[c.draw(n - 1)];
    CtxPacket good(wickr_ctx_parse_packet(me.ctx.get(), wv, sender.get())); CHECK(c, good && good->parse_result->err == E_SUCCESS, "parse");
    unsigned kind = (unsigned)c.draw(12); c.label("kind" + std::to_string(kind));
    switch (kind) {
        case 0: { // a device that is not among the recipients
            Party x = make_party(c, c.chance(1, 2) ? gen_identifier(c) : to(me.ctx->id_chain->root->identifier)); CtxPacket p(wickr_ctx_parse_packet(x.ctx.get(), wv, sender.get())); CHECK(c, p && p->parse_result, "parse gave no result");
            CHECK(c, p->parse_result->err == ERROR_NODE_NOT_FOUND, "a device not among the recipients got error %d", (int)p->parse_result->err); CHECK(c, !p->parse_result->key_exchange && !p->parse_result->enc_payload && !p->parse_result->key_exchange_set, "contents released to a device not among the recipients");
            DecodeRes d(wickr_ctx_decode_packet(x.ctx.get(), p.get(), x.eph->ec_key)); refused(c, d.get(), "not addressed");
            // the same device reading another recipient's exchange
            DecodeRes d2(wickr_ctx_decode_packet(x.ctx.get(), good.get(), x.eph->ec_key)); if (!same_pub(x.eph->ec_key, me.eph->ec_key) || x.dev() != me.dev()) refused(c, d2.get(), "another recipient's exchange with one's own key");
            Bytes sid = c.chance(1, 2) ? c.blob1(60) : [&] { Bytes i = me.id(); c.tamper(i); return i; }(); if (sid.empty() ) return; for (auto &q : ps) if (q.id() == sid) return; View sv(sid); CtxPacket st(wickr_ctx_stateless_parse_packet(&ENG, sv, wv, sender.get())); CHECK(c, st && st->parse_result->err == ERROR_NODE_NOT_FOUND && !st->parse_result->key_exchange, "stateless search for an absent device found something"); break; }
        case 1: { // another message private key
            EcKey k = c.chance(1, 3) ? EcKey(wickr_ec_key_copy(me.ctx->id_chain->node->sig_key)) : gen_ec_key(c, true); if (same_pub(k.get(), me.eph->ec_key)) return; DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), good.get(), k.get())); refused(c, d.get(), "another message key"); break; }
        case 2: { // another device id
            Ctx x = clone(me.ctx); Bytes dv = me.dev(); if (c.chance(1, 2)) { if (!c.tamper(dv) || dv.empty()) return; } else { dv = c.data1(64); if (dv == me.dev()) return; } wickr_buffer_destroy(&x->dev_info->msg_proto_id); x->dev_info->msg_proto_id = mk(dv);
            DecodeRes d(wickr_ctx_decode_packet(x.get(), good.get(), me.eph->ec_key)); refused(c, d.get(), "another device id"); break; }
        case 3: { // another receiver root identity (not bound in version 2)
            if (ver == 2) return; Ctx x = clone(me.ctx); EcKey k = gen_ec_key(c); if (same_pub(k.get(), x->id_chain->root->sig_key)) return; wickr_ec_key_destroy(&x->id_chain->root->sig_key); x->id_chain->root->sig_key = k.release();
            DecodeRes d(wickr_ctx_decode_packet(x.get(), good.get(), me.eph->ec_key)); refused(c, d.get(), "another receiver identity"); break; }
        case 4: { // another claimed sender after parsing (not bound in version 2)
            if (ver == 2) return; Chain s2(wickr_identity_chain_copy(sender.get())); EcKey k = gen_ec_key(c); if (same_pub(k.get(), s2->root->sig_key)) return; wickr_ec_key_destroy(&s2->root->sig_key); s2->root->sig_key = k.release();
            CtxPacket p = mkpkt(good->packet, s2.get(), ParseRes(wickr_parse_result_copy(good->parse_result))); DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), p.get(), me.eph->ec_key)); refused(c, d.get(), "another claimed sender"); break; }
        case 5: { // relabelled version
            CtxPacket p = mkpkt(good->packet, sender.get(), ParseRes(wickr_parse_result_copy(good->parse_result))); uint8_t v2 = (uint8_t)c.pick({1, 1, 1, 1, 1, 1}); if (v2 == ver) return; p->packet->version = v2; DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), p.get(), me.eph->ec_key)); refused(c, d.get(), "another packet version"); break; }
        case 6: { // exchange of another message, or of another recipient
            Payload p2 = gen_payload(c, 100); NodeArray a2 = nodes_of(l); EncRes e2(wickr_ctx_encode_packet(snd.ctx.get(), p2.get(), a2.get())); Buf s2(wickr_packet_serialize(e2->packet)); View v2(to(s2)); CtxPacket o(wickr_ctx_parse_packet(me.ctx.get(), v2, sender.get())); CHECK(c, o && o->parse_result->err == E_SUCCESS, "parse");
            ParseRes r(wickr_parse_result_copy(good->parse_result)); unsigned w = (unsigned)c.draw(2); if (w == 0) std::swap(r.get()->enc_payload, o->parse_result->enc_payload); else if (w == 1) std::swap(r.get()->key_exchange, o->parse_result->key_exchange); else std::swap(r.get()->key_exchange_set, o->parse_result->key_exchange_set);
            CtxPacket p = mkpkt(good->packet, sender.get(), std::move(r)); DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), p.get(), me.eph->ec_key)); refused(c, d.get(), "parts of two messages"); break; }
        case 7: { // another recipient's exchange, with that recipient's device but one's own key, and the reverse
            Party &o = ps[c.draw(n - 1)]; if (o.id() == me.id() || same_pub(o.eph->ec_key, me.eph->ec_key)) return; DecodeRes d(wickr_ctx_decode_packet(o.ctx.get(), good.get(), o.eph->ec_key)); refused(c, d.get(), "another recipient's exchange"); DecodeRes d2(wickr_ctx_decode_packet(o.ctx.get(), good.get(), me.eph->ec_key)); refused(c, d2.get(), "right key on another device"); break; }
        case 8: { // public half only, or none
            EcKey p = pub_only(me.eph->ec_key); DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), good.get(), p.get())); refused(c, d.get(), "public key"); DecodeRes d2(wickr_ctx_decode_packet(me.ctx.get(), good.get(), nullptr)); refused(c, d2.get(), "no key");
            DecodeRes d3(wickr_ctx_decode_packet(nullptr, good.get(), me.eph->ec_key)); refused(c, d3.get(), "no context"); DecodeRes d4(wickr_ctx_decode_packet(me.ctx.get(), nullptr, me.eph->ec_key)); refused(c, d4.get(), "no packet"); break; }
        case 9: { // parsed without requesting the exchange: cannot be decoded
            CtxPacket p(wickr_ctx_parse_packet_no_decode(me.ctx.get(), wv, sender.get())); DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), p.get(), me.eph->ec_key)); refused(c, d.get(), "no key exchange"); break; }
        case 10: { // a failed parse result never decodes, whatever it carries
            ParseRes r(wickr_parse_result_copy(good->parse_result)); if (c.chance(1, 2)) r->err = (wickr_decode_error)(1 + c.draw(4)); else r->signature_status = c.chance(1, 2) ? PACKET_SIGNATURE_INVALID : PACKET_SIGNATURE_UNKNOWN;
            CtxPacket p = mkpkt(good->packet, sender.get(), std::move(r)); DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), p.get(), me.eph->ec_key)); refused(c, d.get(), "failed parse result"); break; }
        case 11: { // forwarding: a recipient re-signs the message as its own, re-encrypting the header under its own header key (versions 3 and 4 bind the sender)
            if (ver == 2) return; Party &fw = snd; (void)fw; Party att = make_party(c, gen_identifier(c)); if (same_pub(att.ctx->id_chain->root->sig_key, snd.ctx->id_chain->root->sig_key)) return;
            CipherRes eh(wickr_key_exchange_set_encrypt(good->parse_result->key_exchange_set, &ENG, att.ctx->packet_header_key)); std::vector<ref::PbField> f; CHECK(c, ref::pb_parse(to(good->packet->content), f), "content"); Buf ehs(wickr_cipher_result_serialize(eh.get())); Bytes epl; for (auto &x : f) if (x.num == 2) epl = x.data;
            Bytes content = cat(ref::pb_bytes(1, to(ehs)), ref::pb_bytes(2, epl)); View cv(content); Sig sg(wickr_identity_sign(att.ctx->id_chain->node, &ENG, cv)); Packet pk(wickr_packet_create((uint8_t)ver, mk(content), sg.release())); Buf s(wickr_packet_serialize(pk.get())); View sv(to(s));
            CtxPacket p(wickr_ctx_parse_packet(me.ctx.get(), sv, att.ctx->id_chain)); CHECK(c, p && p->parse_result->err == E_SUCCESS, "re-signed packet should parse under its signer"); DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), p.get(), me.eph->ec_key)); refused(c, d.get(), "message re-signed by another sender"); break; }
        case 12: { // a chain claiming the sender's node but another one's root or node key
            Party att = make_party(c, gen_identifier(c)); Chain s2(wickr_identity_chain_copy(sender.get())); Identity x(wickr_identity_copy(att.ctx->id_chain->node)); if (same_pub(x->sig_key, s2->node->sig_key)) return; wickr_identity_destroy(&s2->node); s2->node = x.release();
            CtxPacket p(wickr_ctx_parse_packet(me.ctx.get(), wv, s2.get())); CHECK(c, p && p->parse_result->err != E_SUCCESS && p->parse_result->signature_status == PACKET_SIGNATURE_INVALID, "packet accepted from a sender that did not sign it"); CHECK(c, !p->parse_result->key_exchange && !p->parse_result->enc_payload && !p->parse_result->key_exchange_set, "contents released for a wrong sender"); DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), p.get(), me.eph->ec_key)); refused(c, d.get(), "wrong sender"); break; }
    }
    { DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), good.get(), me.eph->ec_key)); CHECK(c, d && d->err == E_SUCCESS && same(d->decrypted_payload, pay.get()), "the addressed device no longer decodes"); }
    c.nontrivial(); c.label("version" + std::to_string(ver));
}

PROP(C02, matrix, 250, 10000) { // every party tries every packet with every key: exactly the addressed device with its own key succeeds
    unsigned n = 3 + (unsigned)c.draw(1); std::vector<Party> ps; for (unsigned i = 0; i < n; i++) ps.push_back(make_party(c, c.chance(1, 3) && i ? to(ps[i - 1].ctx->id_chain->root->identifier) : gen_identifier(c)));
    size_t s = (size_t)c.draw(n - 1); ps[s].ctx->pkt_enc_version = (uint8_t)(2 + c.draw(2)); std::vector<size_t> r; std::vector<wickr_node_t *> l; for (size_t i = 0; i < n; i++) if (c.chance(1, 2)) { r.push_back(i); l.push_back(ps[i].node.get()); } if (l.empty()) { r.push_back(0); l.push_back(ps[0].node.get()); }
    NodeArray a = nodes_of(l); Payload pay = gen_payload(c, 100); EncRes e(wickr_ctx_encode_packet(ps[s].ctx.get(), pay.get(), a.get())); CHECK(c, e, "encode"); Buf ser(wickr_packet_serialize(e->packet)); View wv(to(ser)); Chain sender = public_chain(ps[s].ctx->id_chain);
    for (size_t i = 0; i < n; i++) {
        bool addressed = std::find(r.begin(), r.end(), i) != r.end(); CtxPacket p(wickr_ctx_parse_packet(ps[i].ctx.get(), wv, sender.get())); CHECK(c, p, "parse"); CHECK(c, (p->parse_result->err == E_SUCCESS) == addressed && (addressed || p->parse_result->err == ERROR_NODE_NOT_FOUND), "device %zu (addressed %d) got error %d", i, addressed, (int)p->parse_result->err);
        for (size_t k = 0; k < n; k++) { bool want = addressed && same_pub(ps[k].eph->ec_key, ps[i].eph->ec_key); DecodeRes d(wickr_ctx_decode_packet(ps[i].ctx.get(), p.get(), ps[k].eph->ec_key)); if (want) CHECK(c, d && d->err == E_SUCCESS && same(d->decrypted_payload, pay.get()), "addressed device cannot decode"); else refused(c, d.get(), "matrix"); }
    }
    c.nontrivial();
}

// The exchange functions underneath: wrapped data is recovered with exactly the parameters it was wrapped with.
PROP(C02, exchange, 2500, 90000) {
    unsigned ver = 2 + (unsigned)c.draw(2); Party snd = make_party(c, gen_identifier(c)), me = make_party(c, gen_identifier(c)); EcKey xk = gen_ec_key(c); EcKey xpub = pub_only(xk.get());
    bool has_psk = c.chance(2, 3); Bytes psk = has_psk ? (c.chance(1, 4) ? c.data1(300) : c.data1(40)) : Bytes(); View pv(psk); const wickr_buffer_t *pp = has_psk ? (const wickr_buffer_t *)pv : nullptr;
    bool key = c.draw(1), gcm = !key && c.draw(1); CipherKey ck = gen_cipher_key(c, CIPHER_AES256_GCM); Bytes data = key ? cat({0}, to(ck->key_data)) : c.data1(c.chance(1, 10) ? 5000 : 80); View dv(data);
    Chain sender = public_chain(snd.ctx->id_chain);
    KeyEx x(key ? wickr_key_exchange_create_with_packet_key(&ENG, sender.get(), me.node.get(), xk.get(), ck.get(), pp, (uint8_t)ver) : wickr_key_exchange_create_with_data(&ENG, sender.get(), me.node.get(), xk.get(), dv, gcm ? CIPHER_AES256_GCM : CIPHER_AES256_CTR, pp, (uint8_t)ver));
    CHECK(c, x, "wrapping %s failed", key ? "a packet key" : "data"); CHECK(c, to(x->exchange_id) == me.id() && x->key_id == me.node->ephemeral_keypair->identifier, "the exchange names another device or key");
    // documented derivation, with the pre-shared key as salt
    { Bytes z = ref::p521_ecdh(ref::p521_scalar(to(xk->pri_data)), ref::p521_decode(to(me.node->ephemeral_keypair->ec_key->pub_data))); Bytes k = ref::hkdf(ver == 4 ? DIGEST_ID_SHA512 : DIGEST_ID_SHA256, z, psk, ref_kdf_info((int)ver, snd.ctx->id_chain, me.ctx->id_chain, me.dev()), 32);
      Bytes iv = to(x->exchange_ciphertext->iv), ct = to(x->exchange_ciphertext->cipher_text), pt, t, ct2; if (gcm) { CHECK(c, x->exchange_ciphertext->auth_tag, "no tag"); ref::aes_gcm(k, iv, {}, data, ct2, t); CHECK(c, ct2 == ct && t == to(x->exchange_ciphertext->auth_tag), "wrapped data is not under the documented key (psk %zu bytes)", psk.size()); } else CHECK(c, ref::aes_ctr(k, iv, ct) == data, "wrapped data is not under the documented key (psk %zu bytes)", psk.size()); }
    Chain mine(wickr_identity_chain_copy(me.ctx->id_chain)); auto receiver = [&](const Bytes &dev, const wickr_ec_key_t *k) { return make_node(mine.get(), dev, me.eph->identifier, k); };
    auto derive = [&](const wickr_identity_chain_t *s, const wickr_node_t *r, wickr_ec_key_t *pub, const wickr_key_exchange_t *e, const wickr_buffer_t *k, uint8_t v) -> Bytes {
        if (!key) return take(wickr_key_exchange_derive_data(&ENG, s, r, pub, e, k, v)); CipherKey got(wickr_key_exchange_derive_packet_key(&ENG, s, r, pub, e, k, v)); return got ? cat({(uint8_t)got->cipher.cipher_id}, to(got->key_data)) : Bytes(); };
    Node good = receiver(me.dev(), me.eph->ec_key); CHECK(c, derive(sender.get(), good.get(), xpub.get(), x.get(), pp, (uint8_t)ver) == data, "the addressed device does not recover the data");
    // one component wrong: the data is never recovered, and authenticated data is refused
    auto wrong = [&](const Bytes &got, const char *what) { CHECK(c, got != data || (!gcm && !key && data.size() < 8), "%s: the wrapped data is recovered", what); if (gcm) CHECK(c, got.empty(), "%s: an authenticated exchange opens", what); c.label(what); };
    switch (c.draw(7)) {
        case 0: { Bytes q = psk; if (!has_psk) q = c.blob1(40); else if (c.chance(2, 3)) { if (!c.tamper(q)) return; } if (q == psk || q.empty()) return;
            // HMAC pads a salt up to its block with zero bytes, so such salts are the same key
            auto norm = [&](Bytes b) { size_t blk = ver == 4 ? 128 : 64; if (b.size() > blk) b = ref::sha(ver == 4 ? 512 : 256, b); while (!b.empty() && !b.back()) b.pop_back(); return b; }; if (norm(q) == norm(psk)) return;
            View qv(q); wrong(derive(sender.get(), good.get(), xpub.get(), x.get(), qv, (uint8_t)ver), "another psk"); break; }
        case 1: { if (!has_psk || std::all_of(psk.begin(), psk.end(), [](uint8_t b) { return !b; })) return; wrong(derive(sender.get(), good.get(), xpub.get(), x.get(), nullptr, (uint8_t)ver), "no psk"); break; }
        case 2: { Bytes d = me.dev(); if (!c.tamper(d) || d.empty() || d == me.dev()) return; Node n = receiver(d, me.eph->ec_key); wrong(derive(sender.get(), n.get(), xpub.get(), x.get(), pp, (uint8_t)ver), "another device id"); break; }
        case 3: { EcKey k = gen_ec_key(c, true); if (same_pub(k.get(), me.eph->ec_key)) return; Node n = receiver(me.dev(), k.get()); wrong(derive(sender.get(), n.get(), xpub.get(), x.get(), pp, (uint8_t)ver), "another message key"); break; }
        case 4: { EcKey k = gen_ec_key(c, true); if (same_pub(k.get(), xk.get())) return; wrong(derive(sender.get(), good.get(), k.get(), x.get(), pp, (uint8_t)ver), "another exchange key"); break; }
        case 5: { uint8_t v = (uint8_t)c.draw(6); if (v == ver) return; Bytes got = derive(sender.get(), good.get(), xpub.get(), x.get(), pp, v); wrong(got, "another version"); if (v < 2 || v > 4) CHECK(c, got.empty(), "unknown version %d derives something", v); break; }
        case 6: { if (ver == 2) return; EcKey k = gen_ec_key(c); if (c.draw(1)) { if (same_pub(k.get(), sender->root->sig_key)) return; Chain s2 = public_chain(sender.get()); wickr_ec_key_destroy(&s2->root->sig_key); s2->root->sig_key = k.release(); wrong(derive(s2.get(), good.get(), xpub.get(), x.get(), pp, (uint8_t)ver), "another sender"); }
            else { if (same_pub(k.get(), mine->root->sig_key)) return; Node n = receiver(me.dev(), me.eph->ec_key); wickr_ec_key_destroy(&n->id_chain->root->sig_key); n->id_chain->root->sig_key = k.release(); wrong(derive(sender.get(), n.get(), xpub.get(), x.get(), pp, (uint8_t)ver), "another receiver identity"); } break; }
        case 7: { if (!gcm) return; KeyEx y(wickr_key_exchange_copy(x.get())); wickr_cipher_result_t *r = y->exchange_ciphertext; wickr_buffer_t *b = c.pick({2, 1, 1}) == 0 ? r->cipher_text : c.draw(1) ? r->iv : r->auth_tag; b->bytes[c.draw(b->length - 1)] ^= (uint8_t)(1u << c.draw(7)); wrong(derive(sender.get(), good.get(), xpub.get(), y.get(), pp, (uint8_t)ver), "altered"); break; }
    }
    c.nontrivial(); c.label(has_psk ? "psk" : "without-psk"); c.label(key ? "packet-key" : gcm ? "authenticated" : "data");
}
