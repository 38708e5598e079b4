// Parties exchanging message packets, shared by the message-protocol harnesses (C01-C04, C13, C27).
#pragma once
#include "common.h"

struct Party {
    Ctx ctx;            // the device's own context
    EphKey eph;         // its message key pair (private)
    Node node;          // what it published: chain and message key, signed
    Bytes dev() const { return to(ctx->dev_info->msg_proto_id); }
    Bytes id() const { return to(ctx->id_chain->node->identifier); }
};
inline void make_public(wickr_identity_t *i) { if (i->sig_key->pri_data) wickr_buffer_destroy_zero(&i->sig_key->pri_data); }
inline void make_public(wickr_identity_chain_t *ch) { make_public(ch->root); make_public(ch->node); }
inline Chain public_chain(const wickr_identity_chain_t *ch) { Chain x(wickr_identity_chain_copy(ch)); make_public(x.get()); return x; }
inline void publish(Party &p) { // (re)build the published node from the context and the current message key
    p.node.reset(make_node(p.ctx->id_chain, p.dev(), p.eph->identifier, p.eph->ec_key).release());
    make_public(p.node->id_chain); wickr_ephemeral_keypair_make_public(p.node->ephemeral_keypair);
}
inline void new_message_key(Case &c, Party &p) {
    EcKey k = gen_ec_key(c); Sig s(wickr_identity_sign(p.ctx->id_chain->node, &ENG, k->pub_data));
    p.eph.reset(wickr_ephemeral_keypair_create(c.edge(~0ull), k.release(), s.release()));
}
inline Party make_party(Case &c, const Bytes &ident) {
    Party p; p.ctx = make_ctx(c, ident, c.blob1(20)); p.ctx->pkt_enc_version = (uint8_t)(4 - c.draw(2)); new_message_key(c, p); publish(p); return p;
}
inline NodeArray nodes_of(const std::vector<wickr_node_t *> &v) {
    NodeArray a(wickr_node_array_new((uint32_t)v.size())); for (uint32_t i = 0; i < v.size(); i++) wickr_node_array_set_item(a.get(), i, v[i]); return a;
}
// What the receiver of a packet can compute from the documented format alone.
struct RefDecode { bool header = false; std::vector<std::pair<Bytes, uint64_t>> who; std::vector<Bytes> exchanges; Bytes sender_pub, enc_payload; };
inline bool ref_open(const Bytes &key, const Bytes &ser, Bytes &pt) { // serialized GCM cipher result
    if (ser.size() < 29 || ser[0] != 0) return false;
    Bytes iv(ser.begin() + 1, ser.begin() + 13), tag(ser.begin() + 13, ser.begin() + 29), ct(ser.begin() + 29, ser.end()), t2;
    // GCM decryption is encryption of the ciphertext; the tag is over the ciphertext
    Bytes tmp; ref::aes_gcm(key, iv, {}, ct, pt, tmp); Bytes ct2; ref::aes_gcm(key, iv, {}, pt, ct2, t2); return t2 == tag;
}
inline Bytes ref_header_key(const wickr_identity_chain_t *sender) { return ref::sha(256, cat(to(sender->root->identifier), to(sender->node->identifier))); }
inline bool ref_parse(const Bytes &packet, const wickr_identity_chain_t *sender, RefDecode &r) {
    if (packet.size() <= 2 + 143) return false; Bytes content(packet.begin() + 2, packet.end() - 143);
    std::vector<ref::PbField> f; if (!ref::pb_parse(content, f)) return false; Bytes hdr; for (auto &x : f) { if (x.num == 1) hdr = x.data; if (x.num == 2) r.enc_payload = x.data; }
    Bytes pt; if (!ref_open(ref_header_key(sender), hdr, pt)) return false;
    std::vector<ref::PbField> s; if (!ref::pb_parse(pt, s)) return false;
    for (auto &x : s) { if (x.num == 1) r.sender_pub = x.data; if (x.num == 2) { std::vector<ref::PbField> e; if (!ref::pb_parse(x.data, e)) return false; Bytes id, ex; uint64_t k = 0; for (auto &y : e) { if (y.num == 1) id = y.data; if (y.num == 2) k = y.val; if (y.num == 3) ex = y.data; } r.who.push_back({id, k}); r.exchanges.push_back(ex); } }
    return r.header = true;
}
inline Bytes ref_kdf_info(int version, const wickr_identity_chain_t *sender, const wickr_identity_chain_t *receiver, const Bytes &dev) {
    return version == 2 ? dev : cat(cat(to(sender->root->sig_key->pub_data), to(receiver->root->sig_key->pub_data)), dev);
}
inline Bytes ref_packet_key(int version, const Bytes &exchange, const Bytes &sender_pub, const wickr_ec_key_t *priv, const Bytes &info) { // empty when it cannot be one
    if (exchange.size() < 17 || exchange[0] != 1) return {};
    Bytes z = ref::p521_ecdh(ref::p521_scalar(to(priv->pri_data)), ref::p521_decode(sender_pub)); if (z.empty()) return {};
    Bytes k = ref::hkdf(version == 4 ? DIGEST_ID_SHA512 : DIGEST_ID_SHA256, z, {}, info, 32);
    return ref::aes_ctr(k, Bytes(exchange.begin() + 1, exchange.begin() + 17), Bytes(exchange.begin() + 17, exchange.end()));
}
