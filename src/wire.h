// Independent writers of every documented wire format, from the objects' public fields.
#pragma once
#include "common.h"
namespace wirefmt {
using namespace ref;
// ---- the documented formats, written from the object's public fields
inline Bytes w(const wickr_cipher_result_t *r) { Bytes b = {(uint8_t)r->cipher.cipher_id}; b = cat(b, to(r->iv)); if (r->cipher.is_authenticated) b = cat(b, to(r->auth_tag)); return cat(b, to(r->cipher_text)); }
inline Bytes w(const wickr_cipher_key_t *k) { return cat({(uint8_t)k->cipher.cipher_id}, to(k->key_data)); }
inline Bytes w(const wickr_ecdsa_result_t *s) { Bytes b = {(uint8_t)(s->curve.identifier << 4 | s->digest_mode.digest_id), (uint8_t)(141 - s->sig_data->length)}; b.resize(2 + 141 - s->sig_data->length, 0); return cat(b, to(s->sig_data)); }
inline Bytes w(const wickr_kdf_meta_t *m) { return cat({(uint8_t)m->algo.kdf_id}, to(m->salt)); }
inline Bytes w(const wickr_identity_t *i, bool priv) {
    Bytes b = cat(pb_bytes(1, to(i->identifier)), pb_bytes(2, to(priv ? i->sig_key->pri_data : i->sig_key->pub_data)));
    if (i->type == IDENTITY_TYPE_NODE && i->signature) b = cat(b, pb_bytes(3, w(i->signature))); return cat(cat(b, pb_uint(4, i->type)), pb_uint(5, priv));
}
inline Bytes w(const wickr_identity_chain_t *c, bool priv) { return cat(pb_bytes(1, w(c->root, priv)), pb_bytes(2, w(c->node, priv))); }
inline Bytes w(const wickr_ephemeral_keypair_t *e) { Bytes b = cat(pb_uint(1, e->identifier), pb_bytes(2, to(e->ec_key->pub_data))); return e->signature ? cat(b, pb_bytes(3, w(e->signature))) : b; }
inline Bytes w(const wickr_node_t *n) { Bytes b = cat(pb_bytes(1, to(n->dev_id)), pb_bytes(2, w(n->id_chain, false))); return n->ephemeral_keypair ? cat(b, pb_bytes(3, w(n->ephemeral_keypair))) : b; }
inline Bytes w(const wickr_payload_t *p) { Bytes e = pb_uint(1, p->meta->ephemerality_settings.ttl); if (p->meta->ephemerality_settings.bor) e = cat(e, pb_uint(2, p->meta->ephemerality_settings.bor)); Bytes m = cat(cat(pb_bytes(1, e), pb_bytes(2, to(p->meta->channel_tag))), pb_uint(3, p->meta->content_type)); return cat(pb_bytes(3, m), pb_bytes(4, to(p->body))); }
inline Bytes w(const wickr_key_exchange_set_t *s) { Bytes b = pb_bytes(1, to(s->sender_pub->pub_data)); for (uint32_t i = 0; i < wickr_array_get_item_count(s->exchanges); i++) { auto *x = wickr_exchange_array_fetch_item(s->exchanges, i); b = cat(b, pb_bytes(2, cat(cat(pb_bytes(1, to(x->exchange_id)), pb_uint(2, x->key_id)), pb_bytes(3, w(x->exchange_ciphertext))))); } return b; }
inline Bytes w(const wickr_packet_t *p) { return cat(cat({p->version, (uint8_t)p->signature->curve.identifier}, to(p->content)), w(p->signature)); }
inline Bytes w(const wickr_root_keys_t *k) { return cat(cat(pb_uint(1, 1), pb_bytes(2, w(k->node_storage_root))), cat(pb_bytes(3, w(k->remote_storage_root)), pb_bytes(4, to(k->node_signature_root->pri_data)))); }
inline Bytes w(const wickr_storage_keys_t *k) { return cat(cat(pb_uint(1, 1), pb_bytes(2, w(k->local))), pb_bytes(3, w(k->remote))); }
inline Bytes w(const wickr_stream_key_t *k) { Bytes b = cat(cat(pb_bytes(1, w(k->cipher_key)), pb_bytes(2, to(k->evolution_key))), pb_uint(3, k->packets_per_evolution)); return k->user_data ? cat(b, pb_bytes(4, to(k->user_data))) : b; }
inline Bytes le64(uint64_t v) { Bytes b; for (int i = 0; i < 8; i++) b.push_back((uint8_t)(v >> 8 * i)); return b; }
inline Bytes w(const wickr_transport_packet_t *p) { Bytes b = {(uint8_t)(p->meta.body_type << 4 | p->meta.mac_type)}; if (p->meta.body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) b = cat(b, le64(p->meta.body_meta.data.sequence_number)); else { b.push_back(p->meta.body_meta.handshake.protocol_version); b = cat(b, le64(p->meta.body_meta.handshake.flags)); } return cat(cat(b, to(p->body)), to(p->mac)); }
inline Bytes w(const wickr_ec_key_t *k) { return to(k->pri_data ? k->pri_data : k->pub_data); }
inline Bytes w(const wickr_ctx_t *x) { return cat(pb_bytes(1, w(x->storage_keys)), pb_bytes(2, w(x->id_chain, true))); }
inline Bytes wire(const char *type, const void *p) {
    std::string t = type;
#define F(n, T) if (t == n) return w((const T *)p);
    F("cipher result", wickr_cipher_result_t) F("cipher key", wickr_cipher_key_t) F("signature", wickr_ecdsa_result_t) F("kdf metadata", wickr_kdf_meta_t) F("message key pair", wickr_ephemeral_keypair_t) F("node", wickr_node_t) F("payload", wickr_payload_t) F("key exchange set", wickr_key_exchange_set_t)
    F("packet", wickr_packet_t) F("root keys", wickr_root_keys_t) F("storage keys", wickr_storage_keys_t) F("stream key", wickr_stream_key_t) F("transport packet", wickr_transport_packet_t) F("EC key", wickr_ec_key_t) F("context", wickr_ctx_t)
#undef F
    if (t == "identity") return w((const wickr_identity_t *)p, false); if (t == "identity chain") return w((const wickr_identity_chain_t *)p, false); if (t == "private identity chain") return w((const wickr_identity_chain_t *)p, true);
    abort();
}
}
