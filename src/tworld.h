// Transports under observation: a monitored endpoint, and an independent implementation of the documented
// handshake and data protocol that can play either side, honestly or not.
#pragma once
#include "common.h"
#include "wire.h"
#include <deque>

namespace tw {
using namespace wirefmt;
// One unauthenticated packet with a far-away sequence number makes the decoder step its key once per skipped
// evolution. The worlds cap that work so a case terminates: past the cap the step fails, and `hang` is set.
inline long &hmac_full() { static long b = 1 << 16; return b; }
inline long &hmac_budget() { static long b = 1 << 16; return b; }
inline bool *&gate() { static bool *g = nullptr; return g; } // faults are switched off there while the application itself works
inline bool &hang() { static bool h; return h; }
inline wickr_buffer_t *budget_hmac(const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t dg) { if (hmac_budget()-- <= 0) { hang() = true; return nullptr; } return ENG.wickr_crypto_engine_hmac_create(d, k, dg); }
inline const wickr_crypto_engine_t &engine() { static wickr_crypto_engine_t e = [] { wickr_crypto_engine_t x = ENG; x.wickr_crypto_engine_hmac_create = budget_hmac; return x; }(); return e; }

inline const char *status_name(int s) { static const char *n[] = {"NONE", "INITIAL_HANDSHAKE", "ACTIVE", "ERROR"}; return s >= 0 && s < 4 ? n[s] : "?"; }

struct End {
    struct Ask { Bytes chain; wickr_transport_validate_identity_callback complete; int approved = -1; int at_packet; Bytes packet; };
    Transport t; std::string name; bool pinned = false;
    std::deque<Bytes> out;              // emitted, not yet delivered
    std::vector<Bytes> emitted, got;    // everything ever emitted / delivered to the application
    std::vector<int> states;            // every reported state
    std::vector<Ask> asks;              // identity questions put to the application
    int policy = 1;                     // answer identity questions: 1 yes at once, -1 no at once, 0 later
    std::function<int(const Bytes &chain)> decide; // overrides policy
    std::function<void()> on_active; std::function<void(int)> on_state; std::function<void(const Bytes &)> on_rx, on_tx;
    std::string bad;                    // first violation seen by the monitor
    int last = TRANSPORT_STATUS_NONE, rx_calls = 0, depth = 0;
    Bytes active_after;                 // the buffer being processed when it became active
    Bytes processing;
    bool answering = false;
    void oops(const char *f, ...) __attribute__((format(printf, 2, 3))) { if (!bad.empty()) return; char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); bad = name + ": " + b; }
    int status() const { return wickr_transport_ctx_get_status(t.get()); }
    int err() const { return wickr_transport_ctx_get_last_error(t.get()); }
    bool active() const { return status() == TRANSPORT_STATUS_ACTIVE; }
    bool error() const { return status() == TRANSPORT_STATUS_ERROR; }
    void settle(const char *after) { // invariants between calls
        if (status() != last) oops("after %s the status is %s but the last state reported was %s", after, status_name(status()), status_name(last));
        if ((err() != TRANSPORT_ERROR_NONE) != error()) oops("after %s the status is %s and the last error is %d", after, status_name(status()), err());
    }
    template <class F> void call(const char *what, F f) { hmac_budget() = hmac_full(); depth++; f(); depth--; settle(what); }
    void start() { call("start", [&] { wickr_transport_ctx_start(t.get()); }); }
    void send(const Bytes &b) { View v(b); call("send", [&] { wickr_transport_ctx_process_tx_buffer(t.get(), v); }); if (v.bytes() != b) oops("sending changed the caller's buffer"); }
    void recv(const Bytes &b) { View v(b); Bytes outer = processing; processing = b; rx_calls++; call("receive", [&] { wickr_transport_ctx_process_rx_buffer(t.get(), v); }); processing = outer; if (v.bytes() != b) oops("receiving changed the caller's buffer"); }
    void answer(size_t i, bool yes) { Ask &a = asks[i]; a.approved = yes; auto f = a.complete; bool o = answering; answering = true; call("identity answer", [&] { f(t.get(), yes); }); answering = o; }
    Bytes pop() { Bytes b = out.front(); out.pop_front(); return b; }
    // --- callbacks
    static End *of(const wickr_transport_ctx_t *x) { return (End *)wickr_transport_ctx_get_user_ctx(x); }
    static void cb_tx(const wickr_transport_ctx_t *x, wickr_buffer_t *b) { End *e = of(x); Bytes d = take(b); if (d.empty()) e->oops("emits an empty buffer"); if (e->last == TRANSPORT_STATUS_ERROR || e->status() == TRANSPORT_STATUS_ERROR) e->oops("emits %zu bytes while in error", d.size()); e->out.push_back(d); e->emitted.push_back(d); if (e->on_tx) e->on_tx(d); }
    static void cb_rx(const wickr_transport_ctx_t *x, wickr_buffer_t *b) { End *e = of(x); Bytes d = take(b); if (e->last != TRANSPORT_STATUS_ACTIVE || !e->active()) e->oops("delivers data in state %s", status_name(e->status())); e->got.push_back(d); if (e->on_rx) e->on_rx(d); }
    static void cb_state(const wickr_transport_ctx_t *x, wickr_transport_status s) {
        End *e = of(x); int n = (int)s; static const bool ok[4][4] = {{0, 1, 1, 1}, {0, 0, 1, 1}, {0, 0, 0, 1}, {0, 0, 0, 0}};
        if (n < 0 || n > 3 || !ok[e->last][n]) e->oops("reports state %s after %s", status_name(n), status_name(e->last));
        if (e->status() != n) e->oops("reports state %s while its status is %s", status_name(n), status_name(e->status()));
        if ((e->err() != TRANSPORT_ERROR_NONE) != (n == TRANSPORT_STATUS_ERROR)) e->oops("reports state %s with last error %d", status_name(n), e->err());
        e->last = n; e->states.push_back(n); if (n == TRANSPORT_STATUS_ACTIVE) { e->active_after = e->processing; if (e->on_active) e->on_active(); }
        if (e->on_state) e->on_state(n);
    }
    static void cb_verify(const wickr_transport_ctx_t *x, wickr_identity_chain_t *ch, wickr_transport_validate_identity_callback done) {
        End *e = of(x); Ask a; bool *g = gate(), on = g && *g; if (g) *g = false; Buf s(wickr_identity_chain_serialize(ch)); if (g) *g = on; a.chain = to(s); a.complete = done; a.at_packet = e->rx_calls; a.packet = e->processing; wickr_identity_chain_destroy(&ch);
        if (e->pinned) e->oops("asks for approval although the remote is pinned"); if (e->last != TRANSPORT_STATUS_NONE && e->last != TRANSPORT_STATUS_INITIAL_HANDSHAKE) e->oops("asks for approval in state %s", status_name(e->last));
        e->asks.push_back(a); size_t i = e->asks.size() - 1; int pol = e->decide ? e->decide(e->asks[i].chain) : e->policy; if (pol) { e->asks[i].approved = pol > 0; bool o = e->answering; e->answering = true; done(x, pol > 0); e->answering = o; }
    }
    static wickr_transport_callbacks_t callbacks() { wickr_transport_callbacks_t c; memset(&c, 0, sizeof c); c.tx = cb_tx; c.rx = cb_rx; c.on_state = cb_state; c.on_identity_verify = cb_verify; return c; }
    void create(const char *nm, const wickr_identity_chain_t *local, const wickr_identity_chain_t *pin, uint32_t evo, const wickr_crypto_engine_t &e = engine()) {
        name = nm; pinned = pin; Chain l(wickr_identity_chain_copy(local)), r(pin ? wickr_identity_chain_copy(pin) : nullptr);
        t.reset(wickr_transport_ctx_create(e, l.get(), r.get(), evo, callbacks(), this)); if (t) { l.release(); r.release(); }
    }
};

// ---- the documented protocol, independently
struct RefKey { Bytes key, evo; uint32_t per = 1; uint64_t gen = 0; void step() { Bytes h = ref::hmac(DIGEST_ID_SHA512, evo, key); key.assign(h.begin(), h.begin() + 32); evo.assign(h.begin() + 32, h.end()); gen++; } void at(uint64_t seq) { while (gen < seq / per) step(); } };
inline Bytes chain_bytes(const wickr_identity_chain_t *c) { return w(c, false); }
inline Bytes hs_meta(uint8_t mac, uint8_t version, uint64_t flags) { return cat({(uint8_t)(0 << 4 | mac), version}, le64(flags)); }
inline Bytes data_meta(uint64_t seq, uint8_t mac = 1) { return cat({(uint8_t)(1 << 4 | mac)}, le64(seq)); }
inline Bytes sign(const wickr_ec_key_t *k, const Bytes &d) { View v(d); Sig s(ENG.wickr_crypto_engine_ec_sign(k, v, DIGEST_SHA_512)); return s ? w(s.get()) : Bytes(); }
inline Bytes seed_body(const Bytes &chain, const Bytes &eph, bool need) { return pb_bytes(2, cat(cat(pb_bytes(2, chain), pb_bytes(3, eph)), pb_uint(4, need))); }
inline Bytes response_body(const Bytes &eph, const Bytes &enc, const Bytes *chain) { Bytes b = cat(pb_bytes(2, eph), pb_bytes(3, enc)); if (chain) b = cat(b, pb_bytes(4, *chain)); return pb_bytes(3, b); }
inline Bytes root_body(const Bytes &secret, int cipher, uint32_t send, uint32_t recv) { return pb_bytes(1, cat(cat(pb_bytes(1, secret), pb_uint(2, cipher)), cat(pb_uint(3, send), pb_uint(4, recv)))); }
struct Parsed { bool ok = false, seed = false, need = false, has_chain = false; uint8_t mac = 0, version = 0; Bytes eph, chain, enc, root_key, node_key, body; };
inline Parsed parse_hs(const Bytes &p) {
    Parsed r; if (p.size() < 10 + 143 + 1 || p[0] >> 4 != 0) return r; r.mac = p[0] & 15; r.version = p[1]; if (r.mac != 2) return r; r.body.assign(p.begin() + 10, p.end() - 143);
    std::vector<PbField> f, g; if (!pb_parse(r.body, f) || f.size() != 1 || f[0].wire != 2 || (f[0].num != 2 && f[0].num != 3) || !pb_parse(f[0].data, g)) return r; r.seed = f[0].num == 2;
    for (auto &x : g) { if (r.seed) { if (x.num == 2) r.chain = x.data, r.has_chain = true; if (x.num == 3) r.eph = x.data; if (x.num == 4) r.need = x.val; } else { if (x.num == 2) r.eph = x.data; if (x.num == 3) r.enc = x.data; if (x.num == 4) r.chain = x.data, r.has_chain = true; } }
    r.ok = true; return r;
}
// GCM opening by the reference
inline bool gcm_open(const Bytes &key, const Bytes &ser, const Bytes &aad, Bytes &pt) { if (ser.size() < 29 || ser[0] != 0) return false; Bytes iv(ser.begin() + 1, ser.begin() + 13), tag(ser.begin() + 13, ser.begin() + 29), ct(ser.begin() + 29, ser.end()), tmp, t2; ref::aes_gcm(key, iv, aad, ct, pt, tmp); ref::aes_gcm(key, iv, aad, pt, tmp, t2); return t2 == tag; }
inline Bytes gcm_seal(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &pt) { Bytes ct, tag; ref::aes_gcm(key, iv, aad, pt, ct, tag); return cat(cat(cat({0}, iv), tag), ct); }
struct RefPeer {
    Bytes local, remote;            // serialized chains
    EcKey sign_key, eph; Bytes p0, p1; bool initiator = false; RefKey tx, rx; uint64_t tx_seq = 0; uint32_t evo = 512, evo2 = 512; Bytes secret; int ctr = 0;
    Bytes response_key(const Bytes &peer_eph) const {
        Bytes z = p521_ecdh(p521_scalar(to(eph->pri_data)), p521_decode(peer_eph)); if (z.empty()) return {};
        Bytes mine = to(eph->pub_data), info = initiator ? cat(cat(local, remote), cat(mine, peer_eph)) : cat(cat(remote, local), cat(peer_eph, mine));
        return hkdf(DIGEST_ID_SHA512, z, {}, sha(512, info), 32);
    }
    void keys(const Bytes &sec, uint32_t send, uint32_t recv) {
        Bytes salt = sha(512, cat(p0, p1)); auto k = [&](const char *i, uint32_t per) { Bytes m = hkdf(DIGEST_ID_SHA512, sec, salt, Bytes(i, i + strlen(i)), 64); RefKey r; r.key.assign(m.begin(), m.begin() + 32); r.evo.assign(m.begin() + 32, m.end()); r.per = per; return r; };
        RefKey s = k("sender", send), r = k("receiver", recv); tx = initiator ? s : r; rx = initiator ? r : s;
    }
    Bytes seed(bool need) { initiator = true; Bytes m = cat(hs_meta(2, 1, 0), seed_body(local, to(eph->pub_data), need)); return p0 = cat(m, sign(sign_key.get(), m)); }
    // answer a seed packet
    Bytes respond(const Bytes &packet, const Bytes &sec, uint32_t send, uint32_t recv) {
        Parsed s = parse_hs(packet); if (!s.ok || !s.seed) return {}; initiator = false; p0 = packet; if (remote.empty()) remote = s.chain; Bytes k = response_key(s.eph); if (k.empty()) return {};
        Bytes enc = gcm_seal(k, Bytes(12, 7), {}, root_body(sec, 0, send, recv)), m = cat(hs_meta(2, 1, 0), response_body(to(eph->pub_data), enc, s.need ? &local : nullptr)); p1 = cat(m, sign(sign_key.get(), m)); keys(sec, send, recv); return p1;
    }
    // read the answer to our seed
    std::string finish(const Bytes &packet) {
        p1 = packet; Parsed r = parse_hs(packet); if (!r.ok || r.seed) return "the answer is not a signed handshake response"; if (r.version != 1) return "the answer has another protocol version"; if (remote.empty()) remote = r.chain; Bytes k = response_key(r.eph), pt; if (k.empty()) return "the answer's ephemeral key is not a point"; if (!gcm_open(k, r.enc, {}, pt)) return "the answer's root key does not open under the documented agreement";
        std::vector<PbField> f, g; if (!pb_parse(pt, f) || f.size() != 1 || f[0].num != 1 || !pb_parse(f[0].data, g)) return "the answer's root key is malformed"; uint64_t cipher = 9, send = 0, recv = 0; for (auto &x : g) { if (x.num == 1) secret = x.data; if (x.num == 2) cipher = x.val; if (x.num == 3) send = x.val; if (x.num == 4) recv = x.val; }
        if (cipher != 0 || secret.size() != 32) return "the answer's root key is not an AES-256-GCM key"; evo = (uint32_t)send; evo2 = (uint32_t)recv; keys(secret, (uint32_t)send, (uint32_t)recv); return "";
    }
    Bytes data(const Bytes &pt) { tx_seq++; tx.at(tx_seq); Bytes iv(12, 0); ctr++; memcpy(iv.data(), &ctr, 4); Bytes m = data_meta(tx_seq); return cat(m, gcm_seal(tx.key, iv, m, pt)); }
    bool open(const Bytes &packet, Bytes &pt, uint64_t &seq) { if (packet.size() < 9 + 29 || packet[0] != (1 << 4 | 1)) return false; seq = 0; for (int i = 0; i < 8; i++) seq |= (uint64_t)packet[1 + i] << 8 * i; if (seq < rx.gen * rx.per || seq > 100000000) return false; rx.at(seq); return gcm_open(rx.key, Bytes(packet.begin() + 9, packet.end()), Bytes(packet.begin(), packet.begin() + 9), pt); }
};
// whether a handshake packet is signed by the node key of this (public) chain, recomputed independently
inline bool packet_signed_by(const Bytes &p, const wickr_identity_chain_t *ch) {
    if (p.size() <= 143 + 10 || (p[0] & 15) != 2) return false; View mac(Bytes(p.end() - 143, p.end())); Sig s(wickr_ecdsa_result_create_from_buffer(mac)); if (!s) return false; View d(Bytes(p.begin(), p.end() - 143)); return sig_ok(s.get(), ch->node->sig_key, d);
}
// chains of different parties share no key
inline Chain party_chain(Case &c, unsigned who) {
    EcKey rk = pool_key(6 * who + (unsigned)c.draw(2)), nk = pool_key(6 * who + 3 + (unsigned)c.draw(2)); Bytes rid = gen_identifier(c), nid = gen_identifier(c); Identity root = make_root(rk.get(), rid); Sig sig(wickr_identity_sign(root.get(), &ENG, nk->pub_data));
    Identity node(wickr_identity_create(IDENTITY_TYPE_NODE, mk(nid), nk.release(), sig.release())); return Chain(wickr_identity_chain_create(root.release(), node.release()));
}
inline uint32_t gen_evo(Case &c) { return c.chance(1, 3) ? 0 : 1 + (uint32_t)c.edge(c.chance(1, 2) ? 8 : 32767); }
} // namespace tw
