// C03: a modified or misattributed packet never yields different content
#include "proto.h"

static void released_nothing(Case &c, const wickr_parse_result_t *r, const char *what) { CHECK(c, !r->key_exchange_set && !r->key_exchange && !r->enc_payload, "%s: parse failed but released contents", what); }

// Processes arbitrary bytes as a packet from `sender`; every outcome but the genuine one has to be a failure.
static const char *process(Case &c, const Bytes &wire, const wickr_identity_chain_t *sender, Party &me, const std::vector<std::pair<Bytes, const wickr_payload_t *>> &genuine) {
    View wv(wire); CtxPacket p(c.chance(1, 6) ? wickr_ctx_stateless_parse_packet(&ENG, me.ctx->id_chain->node->identifier, wv, sender) : wickr_ctx_parse_packet(me.ctx.get(), wv, sender));
    if (!p) return "unparsable";
    wickr_parse_result_t *r = p->parse_result; CHECK(c, r, "no parse result");
    Bytes content = to(p->packet->content); View cv(content); bool signed_ok = ref::sig_ok(p->packet->signature, sender->node->sig_key, cv);
    CHECK(c, (r->signature_status == PACKET_SIGNATURE_VALID) <= signed_ok, "signature status valid, but the claimed sender's node key did not sign this content");
    const wickr_payload_t *orig = nullptr; bool known_content = false; for (auto &g : genuine) if (g.first == content) { known_content = true; orig = g.second; }
    if (!known_content) CHECK(c, r->signature_status != PACKET_SIGNATURE_VALID, "content differs from everything the sender signed, but the signature status is valid");
    if (r->signature_status != PACKET_SIGNATURE_VALID) { CHECK(c, r->err != E_SUCCESS, "error-free parse with signature status %d", (int)r->signature_status); released_nothing(c, r, "bad signature"); }
    if (r->err != E_SUCCESS) released_nothing(c, r, "failed parse");
    DecodeRes d(wickr_ctx_decode_packet(me.ctx.get(), p.get(), me.eph->ec_key));
    if (r->err != E_SUCCESS) { CHECK(c, !d || d->err != E_SUCCESS, "decoded a packet that failed to parse"); }
    if (d && d->err == E_SUCCESS) { CHECK(c, orig && same(d->decrypted_payload, orig), "decoded content differs from what was signed"); return "accepted"; }
    if (d) CHECK(c, !d->decrypted_payload && !d->payload_key, "failed decode released contents");
    return r->err == E_SUCCESS ? "undecodable" : "rejected";
}

PROP(C03, tamper, 4000, 200000) {
    Party snd = make_party(c, gen_identifier(c)), me = make_party(c, gen_identifier(c)); unsigned ver = 2 + (unsigned)c.draw(2); snd.ctx->pkt_enc_version = (uint8_t)ver;
    Chain sender = public_chain(snd.ctx->id_chain); std::vector<wickr_node_t *> l = {me.node.get()}; if (c.chance(1, 3)) l.push_back(snd.node.get()); NodeArray a = nodes_of(l);
    Payload p1 = gen_payload(c, 120), p2 = gen_payload(c, 120); EncRes e1(wickr_ctx_encode_packet(snd.ctx.get(), p1.get(), a.get())), e2(wickr_ctx_encode_packet(snd.ctx.get(), p2.get(), a.get())); CHECK(c, e1 && e2, "encode");
    Buf s1(wickr_packet_serialize(e1->packet)), s2(wickr_packet_serialize(e2->packet)); Bytes w1 = to(s1), w2 = to(s2);
    std::vector<std::pair<Bytes, const wickr_payload_t *>> gen = {{to(e1->packet->content), p1.get()}, {to(e2->packet->content), p2.get()}};
    Bytes w = w1; const wickr_identity_chain_t *claim = sender.get(); Party other = make_party(c, gen_identifier(c)); Chain oc = public_chain(other.ctx->id_chain); std::vector<std::pair<Bytes, const wickr_payload_t *>> none;
    unsigned kind = (unsigned)c.draw(9); bool must_fail = false;
    switch (kind) {
        case 0: { unsigned k = 1 + (unsigned)c.edge(3); for (unsigned i = 0; i < k; i++) w[c.draw(w.size() - 1)] ^= (uint8_t)(1u << c.draw(7)); break; }
        case 1: w[c.draw(3)] = (uint8_t)c.draw(255); break;                                      // version, meta, start of content
        case 2: c.mutate(w); if (c.chance(1, 3)) c.mutate(w); break;                               // truncate, extend, delete, insert, duplicate
        case 3: { size_t n = std::min(w1.size(), w2.size()), x = (size_t)c.draw(n), y = (size_t)c.draw(n); if (x > y) std::swap(x, y); std::copy(w2.begin() + x, w2.begin() + y, w.begin() + x); break; } // splice
        case 4: w = cat(Bytes(w1.begin(), w1.end() - 143), Bytes(w2.end() - 143, w2.end())); must_fail = true; break;      // other packet's signature
        case 5: { // rebuilt content: header of one, payload of the other
            std::vector<ref::PbField> f1, f2; ref::pb_parse(gen[0].first, f1); ref::pb_parse(gen[1].first, f2); Bytes h, p; for (auto &x : f1) if (x.num == 1) h = x.data; for (auto &x : f2) if (x.num == 2) p = x.data; Bytes ct = cat(ref::pb_bytes(1, h), ref::pb_bytes(2, p)); if (c.chance(1, 2)) { ct = gen[0].first; Bytes junk = ref::pb_bytes(3 + (uint32_t)c.draw(20), c.blob_upto(20)); ct = c.chance(1, 2) ? cat(ct, junk) : cat(junk, ct); }
            w = cat(cat(Bytes(w1.begin(), w1.begin() + 2), ct), Bytes(w1.end() - 143, w1.end())); must_fail = true; break; }
        case 6: claim = oc.get(); must_fail = !same_pub(oc->node->sig_key, sender->node->sig_key); break;   // misattributed
        case 7: { // signed by another key over the same content
            View cv(gen[0].first); Sig sg(wickr_identity_sign(c.chance(1, 2) ? other.ctx->id_chain->node : snd.ctx->id_chain->root, &ENG, cv)); EcKey signer = EcKey(wickr_ec_key_copy(sender->node->sig_key)); Packet pk(wickr_packet_create((uint8_t)ver, mk(gen[0].first), sg.release())); must_fail = !ref::sig_ok(pk->signature, signer.get(), cv); Buf s(wickr_packet_serialize(pk.get())); w = to(s); break; }
        case 8: { // signature under another digest or curve marker; raw edits of the trailing signature
            w[w.size() - 143 + c.draw(2)] = (uint8_t)c.draw(4); break; }
        case 9: { // right root, another node of the same account (a different signing key)
            EcKey nk = gen_ec_key(c); if (same_pub(nk.get(), sender->node->sig_key)) return; Sig sg(wickr_identity_sign(snd.ctx->id_chain->root, &ENG, nk->pub_data)); Identity nn(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(sender->node->identifier), pub_only(nk.get()).release(), sg.release())); Chain c2(wickr_identity_chain_create(wickr_identity_copy(sender->root), nn.release())); CHECK(c, ref::chain_ok(c2.get()), "chain"); oc = std::move(c2); claim = oc.get(); must_fail = true; break; }
    }
    const char *out = process(c, w, claim, me, gen); std::string o = out; if (must_fail) CHECK(c, o != "accepted" && o != "undecodable", "kind %u: %s", kind, out);
    if (w == w1 && claim == sender.get()) CHECK(c, o == "accepted", "unmodified packet %s", out);
    if (w != w1 || claim != sender.get()) c.nontrivial(); c.label("kind" + std::to_string(kind)); c.label(o); c.note("kind %u version %u: %s", kind, ver, out);
}

PROP(C03, exhaustive_bits, 24, 500) { // every bit of the fixed-position parts, and sampled bits of the rest, of one packet
    Party snd = make_party(c, c.blob1(8)), me = make_party(c, c.blob1(8)); snd.ctx->pkt_enc_version = (uint8_t)(2 + c.draw(2)); Chain sender = public_chain(snd.ctx->id_chain); NodeArray a = nodes_of({me.node.get()}); Payload p1 = gen_payload(c, 20); EncRes e1(wickr_ctx_encode_packet(snd.ctx.get(), p1.get(), a.get())); Buf s1(wickr_packet_serialize(e1->packet)); Bytes w1 = to(s1);
    std::vector<std::pair<Bytes, const wickr_payload_t *>> gen = {{to(e1->packet->content), p1.get()}}; std::vector<size_t> bits; for (size_t i = 0; i < 8 * 4; i++) bits.push_back(i); for (size_t i = 0; i < 8 * 8; i++) bits.push_back(8 * (w1.size() - 143) + i); for (int i = 0; i < 60; i++) bits.push_back((size_t)c.draw(8 * w1.size() - 1));
    for (size_t b : bits) { Bytes w = w1; w[b / 8] ^= (uint8_t)(1u << (b % 8)); process(c, w, sender.get(), me, gen); }
    c.nontrivial();
}

// The payload and the recipient list, opened directly from their ciphertexts: only what was authenticated under the key comes out.
PROP(C03, contents, 4000, 150000) {
    bool list = c.draw(1); CipherKey k = gen_cipher_key(c, CIPHER_AES256_GCM), k2 = gen_cipher_key(c, CIPHER_AES256_GCM); Payload pay = gen_payload(c, c.chance(1, 20) ? 5000 : 100); ExSet set; Buf plain;
    if (list) { unsigned n = 1 + (unsigned)c.draw(3); Party snd = make_party(c, c.blob1(8)); std::vector<Party> ps; std::vector<wickr_node_t *> l; for (unsigned i = 0; i < n; i++) ps.push_back(make_party(c, gen_identifier(c))); for (auto &p : ps) l.push_back(p.node.get()); NodeArray a = nodes_of(l); EncRes e(wickr_ctx_encode_packet(snd.ctx.get(), pay.get(), a.get())); CHECK(c, e, "encode"); Buf s(wickr_packet_serialize(e->packet)); View v(to(s)); CtxPacket p(wickr_ctx_parse_packet_no_decode(snd.ctx.get(), v, snd.ctx->id_chain)); CHECK(c, p && p->parse_result->err == E_SUCCESS, "parse"); set.reset(wickr_key_exchange_set_copy(p->parse_result->key_exchange_set)); plain.reset(wickr_key_exchange_set_serialize(set.get())); }
    else plain.reset(wickr_payload_serialize(pay.get())); CHECK(c, plain, "serialize");
    CipherRes good(list ? wickr_key_exchange_set_encrypt(set.get(), &ENG, k.get()) : wickr_payload_encrypt(pay.get(), &ENG, k.get())); CHECK(c, good && good->cipher.is_authenticated && good->auth_tag, "encryption is not authenticated");
    auto open = [&](const wickr_cipher_result_t *r, const wickr_cipher_key_t *key) -> int { // 0 refused, 1 the original, 2 something else
        if (list) { ExSet s(wickr_key_exchange_set_create_from_cipher(&ENG, r, key)); return !s ? 0 : same(s.get(), set.get()) ? 1 : 2; } Payload p(wickr_payload_create_from_cipher(&ENG, r, key)); return !p ? 0 : same(p.get(), pay.get()) ? 1 : 2; };
    CHECK(c, open(good.get(), k.get()) == 1, "the genuine ciphertext does not open"); unsigned kind = (unsigned)c.draw(4);
    if (kind == 0) { Buf ser(wickr_cipher_result_serialize(good.get())); Bytes b = to(ser); if (!c.tamper(b)) return; View v(b); CipherRes r(wickr_cipher_result_from_buffer(v)); if (!r) return; CHECK(c, open(r.get(), k.get()) == 0, "altered ciphertext opens"); }
    else if (kind == 1) { if (same(k.get(), k2.get())) return; CHECK(c, open(good.get(), k2.get()) == 0, "opens under another key"); }
    else if (kind == 2) { // the unauthenticated cipher, under a key of that cipher: what comes out could be anyone's
        CipherKey ctr(wickr_cipher_key_create(CIPHER_AES256_CTR, wickr_buffer_copy(k->key_data))); CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(plain.get(), nullptr, ctr.get(), nullptr)); CHECK(c, r, "encrypt"); CHECK(c, open(r.get(), ctr.get()) == 0, "a ciphertext without authentication opens"); }
    else if (kind == 3) { Bytes aad = c.blob1(20); View av(aad); CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(plain.get(), av, k.get(), nullptr)); CHECK(c, r && open(r.get(), k.get()) == 0, "a ciphertext bound to other associated data opens"); }
    else { Bytes junk = c.chance(1, 2) ? c.blob1(60) : to(plain); if (junk == to(plain) && !c.tamper(junk)) return; if (junk.empty()) return; View jv(junk); CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(jv, nullptr, k.get(), nullptr)); CHECK(c, r, "encrypt"); open(r.get(), k.get()); } // authenticated but malformed: no crash
    c.nontrivial(); c.label(list ? "recipients" : "payload"); c.label("kind" + std::to_string(kind));
}
