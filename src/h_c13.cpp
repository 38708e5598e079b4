// C13: private keys never leave through public forms
#include "erase.h"
#include "tworld.h"
using namespace objs;

// Stretches of 12 bytes of any secret, searched in everything that leaves.
struct Scan {
    static const size_t W = 12; std::map<Bytes, std::string> win;
    void add(const std::string &what, const Bytes &b) { for (size_t i = 0; i + W <= b.size(); i++) { std::set<uint8_t> d(b.begin() + (long)i, b.begin() + (long)(i + W)); if (d.size() >= 8) win.emplace(Bytes(b.begin() + (long)i, b.begin() + (long)(i + W)), what); } }
    void key(const std::string &what, const wickr_ec_key_t *k) { if (k && k->pri_data) add(what, ref::p521_scalar(to(k->pri_data))); }
    void chain(const std::string &who, const wickr_identity_chain_t *c) { key(who + " root signing key", c->root->sig_key); key(who + " node signing key", c->node->sig_key); }
    void storage(const std::string &who, const wickr_storage_keys_t *k) { add(who + " local storage key", to(k->local->key_data)); add(who + " remote storage key", to(k->remote->key_data)); }
    std::string find(const Bytes &b) const { for (size_t i = 0; i + W <= b.size(); i++) { auto it = win.find(Bytes(b.begin() + (long)i, b.begin() + (long)(i + W))); if (it != win.end()) return it->second + " at offset " + std::to_string(i); } return ""; }
};
static void keyless(Case &c, const char *what, const wickr_ec_key_t *k) {
    CHECK(c, k, "%s: no key", what); CHECK(c, !k->pri_data, "%s: the key has a private half", what); Bytes d{1, 2, 3}; View dv(d); Sig s(ENG.wickr_crypto_engine_ec_sign(k, dv, DIGEST_SHA_512)); CHECK(c, !s, "%s: a public key signs", what);
    EcKey peer = pool_key(0), mine(wickr_ec_key_copy(k)); CHECK(c, mine, "%s: copy", what); Buf z(ENG.wickr_crypto_engine_gen_shared_secret(k, peer.get())); CHECK(c, !z, "%s: a public key makes a shared secret", what); CHECK(c, !mine->pri_data, "%s: its copy has a private half", what);
}
static void keyless(Case &c, const char *what, const wickr_identity_t *i) { CHECK(c, i, "%s: no identity", what); keyless(c, what, i->sig_key); Bytes d{9}; View dv(d); Sig s(wickr_identity_sign(i, &ENG, dv)); CHECK(c, !s, "%s: a public identity signs", what); }
static void keyless(Case &c, const char *what, const wickr_identity_chain_t *ch) { CHECK(c, ch, "%s: no chain", what); keyless(c, what, ch->root); keyless(c, what, ch->node); Buf p(wickr_identity_chain_serialize_private(ch)); CHECK(c, !p, "%s: a public chain has a private serialization", what); }

// Public serializations of objects with any combination of private halves, also after copies, private round trips and verification.
PROP(C13, serialized, 24000, 1000000) {
    unsigned kind = (unsigned)c.draw(4); bool rp = c.chance(2, 3), np = c.chance(3, 4), mp = c.chance(3, 4); Bytes rid = gen_identifier(c), nid = gen_identifier(c);
    EcKey rk = gen_ec_key(c), nk = gen_ec_key(c), mk_ = gen_ec_key(c); Scan s; s.key("the root signing key", rk.get()); s.key("the node signing key", nk.get()); s.key("the message key", mk_.get());
    Identity root = make_root(rk.get(), rid); Sig sig(wickr_identity_sign(root.get(), &ENG, nk->pub_data)), ms(ENG.wickr_crypto_engine_ec_sign(nk.get(), mk_->pub_data, DIGEST_SHA_512)); Identity node(wickr_identity_create(IDENTITY_TYPE_NODE, mk(nid), wickr_ec_key_copy(nk.get()), sig.release()));
    bool unsig = c.chance(1, 5); if (unsig) ms.reset();
    Chain ch(wickr_identity_chain_create(root.release(), node.release())); const char *how = "made";
    if (c.chance(1, 4)) { Buf b(wickr_identity_chain_serialize_private(ch.get())); CHECK(c, b, "private serialization failed"); { Scan own; own.chain("the", ch.get()); CHECK(c, own.win.empty() || !own.find(to(b)).empty(), "the private serialization of a chain carries no private key"); } Chain q(wickr_identity_chain_create_from_buffer(b.get(), &ENG)); CHECK(c, q && q->root->sig_key->pri_data && q->node->sig_key->pri_data, "a private chain does not parse back"); ch = std::move(q); how = "parsed"; }
    if (c.chance(1, 3)) wickr_identity_chain_validate(ch.get(), &ENG); if (!rp) make_public(ch->root); if (!np) make_public(ch->node); if (c.chance(1, 4)) { ch.reset(wickr_identity_chain_copy(ch.get())); how = "copied"; }
    auto leaves = [&](const char *what, const Bytes &b) { CHECK(c, !b.empty(), "%s does not serialize (root private %d, node private %d)", what, rp, np); std::string f = s.find(b); CHECK(c, f.empty(), "the public serialization of %s carries %s", what, f.c_str()); };
    c.note("kind %u, root private %d, node private %d, message private %d, %s", kind, rp, np, mp, how); static const char *names[] = {"identity", "chain", "node", "key exchange set", "message key pair"}; c.label(names[kind]);
    if (!mp) wickr_buffer_destroy_zero(&mk_->pri_data);
    switch (kind) {
        case 0: for (auto *i : {ch->root, ch->node}) { Buf b(wickr_identity_serialize(i)); leaves("an identity", to(b)); Identity q(wickr_identity_create_from_buffer(b.get(), &ENG)); keyless(c, "a parsed identity", q.get()); } if (rp || np) c.nontrivial(); break;
        case 1: { Buf b(wickr_identity_chain_serialize(ch.get())); leaves("an identity chain", to(b)); Chain q(wickr_identity_chain_create_from_buffer(b.get(), &ENG)); keyless(c, "a parsed chain", q.get()); Chain q2(wickr_identity_chain_copy(q.get())); keyless(c, "a copied parsed chain", q2.get()); CHECK(c, wickr_identity_chain_validate(q.get(), &ENG), "a public chain does not validate");
            if (!rp || !np) { Buf p(wickr_identity_chain_serialize_private(ch.get())); CHECK(c, !p, "a chain without both private keys has a private serialization"); } if (rp || np) c.nontrivial(); break; }
        case 2: { Node n(wickr_node_create(mk(c.blob1(40)), ch.release(), wickr_ephemeral_keypair_create(c.edge(~0ull), mk_.release(), ms.release()))); if (c.chance(1, 3)) n.reset(wickr_node_copy(n.get())); if (c.chance(1, 3)) wickr_node_verify_signature_chain(n.get(), &ENG);
            Buf b(wickr_node_serialize(n.get())); leaves("a node", to(b)); Node q(wickr_node_create_from_buffer(b.get(), &ENG)); CHECK(c, q, "a node does not parse back"); keyless(c, "a parsed node's chain", q->id_chain); keyless(c, "a parsed node's message key", q->ephemeral_keypair->ec_key);
            if (c.chance(1, 3)) { NodeArray a(wickr_node_array_new(1)); wickr_node_array_set_item(a.get(), 0, n.get()); NodeArray a2(wickr_node_array_copy(a.get())); auto *m = wickr_node_array_fetch_item(a2.get(), 0); Buf b2(wickr_node_serialize(m)); bool same_ = to(b2) == to(b); wickr_node_destroy(&m); CHECK(c, same_, "a node copied in an array serializes differently"); } if (rp || np || mp) c.nontrivial(); break; }
        case 3: { bool p = mk_->pri_data; ExSet x(wickr_key_exchange_set_create(mk_.release(), g_exchanges(c, 1))); CHECK(c, x, "no exchange set"); Buf b(wickr_key_exchange_set_serialize(x.get())); leaves("a key exchange set", to(b)); ExSet q(wickr_key_exchange_set_create_from_buffer(&ENG, b.get())); CHECK(c, q, "an exchange set does not parse back"); keyless(c, "a parsed exchange set", q->sender_pub); if (p) c.nontrivial(); break; }
        default: { bool p = mk_->pri_data; Bytes scal = p ? ref::p521_scalar(to(mk_->pri_data)) : Bytes(); EphKey e(wickr_ephemeral_keypair_create(c.edge(~0ull), mk_.release(), ms.release())); if (c.chance(1, 2)) { EphKey e2(wickr_ephemeral_keypair_copy(e.get())); if (p) CHECK(c, e2->ec_key->pri_data, "a copied message key pair lost its private half"); e = std::move(e2); }
            Buf b(wickr_ephemeral_keypair_serialize(e.get())); leaves("a message key pair", to(b)); if (p) CHECK(c, e->ec_key->pri_data, "serializing a message key pair drops its private half"); EphKey q(wickr_ephemeral_keypair_create_from_buffer(b.get(), &ENG)); CHECK(c, q, "a message key pair does not parse back"); keyless(c, "a parsed message key pair", q->ec_key);
            wickr_ephemeral_keypair_make_public(e.get()); keyless(c, "a message key pair made public", e->ec_key); wickr_ephemeral_keypair_make_public(e.get()); EphKey e3(wickr_ephemeral_keypair_copy(e.get())); keyless(c, "a copied public message key pair", e3->ec_key); CHECK(c, unsig || wickr_ephemeral_keypair_verify_owner(e.get(), &ENG, ch->node), "a message key pair made public no longer verifies"); Buf b2(wickr_ephemeral_keypair_serialize(e.get())); CHECK(c, to(b2) == to(b), "the public form differs after make_public"); if (p) c.nontrivial(); }
    }
}

static void randomize(Case &c, wickr_storage_keys_t *k) { erase::Randomize r(c.draw(~0ull)); visit(r, "k", k); }

// Message packets: neither the packet nor what its recipients can decrypt carries anything private of the sender, nor any random value meant to stay secret.
PROP(C13, packets, 4000, 60000) {
    Bytes ident = gen_identifier(c); unsigned n = 1 + (unsigned)c.edge(3); std::vector<Party> ps; for (unsigned i = 0; i < n; i++) ps.push_back(make_party(c, c.draw(1) ? ident : gen_identifier(c))); Party &snd = ps[0]; unsigned ver = 4 - (unsigned)c.draw(2); snd.ctx->pkt_enc_version = (uint8_t)ver; randomize(c, snd.ctx->storage_keys);
    bool rootless = c.draw(1); Scan s; for (unsigned i = 0; i < n; i++) { s.chain("party " + std::to_string(i) + "'s", ps[i].ctx->id_chain); s.key("a message key", ps[i].eph->ec_key); } s.storage("the sender's", snd.ctx->storage_keys); if (rootless) make_public(snd.ctx->id_chain->root);
    bool privnodes = c.chance(1, 3); std::vector<Node> keep; std::vector<wickr_node_t *> list; for (unsigned i = 0; i < n; i++) if (privnodes) { keep.push_back(make_node(ps[i].ctx->id_chain, ps[i].dev(), ps[i].eph->identifier, ps[i].eph->ec_key)); if (!rootless || i) list.push_back(keep.back().get()); else list.push_back(ps[i].node.get()); } else list.push_back(ps[i].node.get());
    NodeArray arr = nodes_of(list); Payload p = gen_payload(c, 400); if (!s.find(to(p->body)).empty() || !s.find(to(p->meta->channel_tag)).empty()) return;
    rng().outputs.clear(); rng().record = true; EncRes e(wickr_ctx_encode_packet(snd.ctx.get(), p.get(), arr.get())); std::vector<Bytes> outs = rng().outputs; rng().record = false; CHECK(c, e, "encoding failed"); Buf ser(wickr_packet_serialize(e->packet)); CHECK(c, ser, "serializing failed");
    for (auto &o : outs) if (o.size() >= 32) s.add("a secret random value", o); s.add("the packet key", to(e->packet_key->key_data)); std::string f = s.find(to(ser)); CHECK(c, f.empty(), "an encoded packet carries %s", f.c_str());
    RefDecode rd; CHECK(c, ref_parse(to(ser), snd.ctx->id_chain, rd), "the header does not open"); { std::vector<ref::PbField> pf; Bytes content = to(e->packet->content); CHECK(c, ref::pb_parse(content, pf), "content"); for (auto &x : pf) if (x.num == 1) { Bytes hdr; CHECK(c, ref_open(ref_header_key(snd.ctx->id_chain), x.data, hdr), "header"); f = s.find(hdr); CHECK(c, f.empty(), "the packet header carries %s", f.c_str()); } }
    Bytes pt; CHECK(c, ref_open(to(e->packet_key->key_data), rd.enc_payload, pt), "the payload does not open"); f = s.find(pt); CHECK(c, f.empty(), "the encrypted payload carries %s", f.c_str());
    s.win.clear(); for (unsigned i = 0; i < n; i++) { s.chain("party " + std::to_string(i) + "'s", ps[i].ctx->id_chain); s.key("a message key", ps[i].eph->ec_key); } s.storage("the sender's", snd.ctx->storage_keys); // the unwrapped exchange is the packet key itself
    for (unsigned i = 0; i < n; i++) for (auto &x : rd.exchanges) { Bytes k = ref_packet_key((int)ver, x, rd.sender_pub, ps[i].eph->ec_key, ref_kdf_info((int)ver, snd.ctx->id_chain, ps[i].ctx->id_chain, ps[i].dev())); f = s.find(k); CHECK(c, f.empty(), "a key exchange carries %s", f.c_str()); }
    // without private halves nothing is sent or read
    View wv(to(ser)); unsigned r = (unsigned)c.draw(n - 1); CtxPacket in(wickr_ctx_parse_packet(ps[r].ctx.get(), wv, snd.ctx->id_chain)); CHECK(c, in && in->parse_result->err == E_SUCCESS, "recipient cannot parse"); CHECK(c, !in->sender->node->sig_key->pri_data || snd.ctx->id_chain->node->sig_key->pri_data, "sender");
    EphKey pub(wickr_ephemeral_keypair_copy(ps[r].eph.get())); wickr_ephemeral_keypair_make_public(pub.get()); DecodeRes d(wickr_ctx_decode_packet(ps[r].ctx.get(), in.get(), pub->ec_key)); CHECK(c, !d || d->err != E_SUCCESS, "a public message key decodes a packet"); CHECK(c, !d || (!d->decrypted_payload && !d->payload_key), "a failed decode yields content");
    DecodeRes d2(wickr_ctx_decode_packet(ps[r].ctx.get(), in.get(), ps[r].eph->ec_key)); CHECK(c, d2 && d2->err == E_SUCCESS, "the private message key does not decode");
    make_public(snd.ctx->id_chain->node); EncRes e2(wickr_ctx_encode_packet(snd.ctx.get(), p.get(), arr.get())); CHECK(c, !e2, "a context without its signing key encodes a packet"); EphKey g(wickr_ctx_ephemeral_keypair_gen(snd.ctx.get(), 1)); CHECK(c, !g, "a context without its signing key makes a message key"); c.nontrivial(); c.label("version" + std::to_string(ver)); if (rootless) c.label("root public"); if (privnodes) c.label("private recipient nodes");
}

// Encrypted exports and stores of a context carry no key in the clear.
extern "C" int vf_fast_kdf;
PROP(C13, exports, 3000, 100000) {
    Bytes ident = gen_identifier(c); DevInfo dev = make_devinfo(c.blob1(20)); Buf ib(mk(ident)); rng().reseed(c.draw(~0ull)); RootKeys rk(wickr_root_keys_generate(&ENG)); GenRes g(wickr_ctx_gen_with_root_keys(ENG, dev.get(), rk.get(), ib.get())); CHECK(c, g, "generation failed");
    Scan s; s.chain("the owner's", g->ctx->id_chain); s.storage("the owner's", g->ctx->storage_keys); s.add("the recovery key", to(g->recovery_key->key_data)); s.key("the root signature key", g->root_keys->node_signature_root); s.add("the node storage root", to(g->root_keys->node_storage_root->key_data)); s.add("the remote storage root", to(g->root_keys->remote_storage_root->key_data)); Bytes pass = c.blob1(20); View pv(pass); Buf b; const char *what = "";
    switch (c.draw(5)) {
        case 0: b.reset(wickr_ctx_export(g->ctx, pv)); what = "a context export"; break;
        case 1: b.reset(wickr_ctx_export_storage_keys(g->ctx, pv)); what = "a storage key export"; break;
        case 2: b.reset(wickr_ctx_gen_export_recovery_key_passphrase(g.get(), pv)); what = "a recovery key export"; break;
        case 3: b.reset(wickr_ctx_gen_result_make_recovery(g.get())); what = "a recovery"; break;
        case 4: { CipherRes r(wickr_ctx_cipher_local(g->ctx, pv)); b.reset(wickr_cipher_result_serialize(r.get())); what = "a local store"; break; }
        default: { Buf x(wickr_ctx_serialize(g->ctx)); CHECK(c, x && !s.find(to(x)).empty(), "a context serialization carries no private key"); b.reset(wickr_identity_chain_serialize(g->ctx->id_chain)); what = "a generated public chain"; } }
    CHECK(c, b, "%s failed", what); std::string f = s.find(to(b)); CHECK(c, f.empty(), "%s carries %s", what, f.c_str()); s.win.clear(); s.add("the passphrase", pass); if (!s.find(ident).empty() || !s.find(to(dev->dev_salt)).empty()) s.win.clear(); /* the same bytes are also public */ f = s.find(to(b)); CHECK(c, f.empty(), "%s carries %s", what, f.c_str()); c.nontrivial(); c.label(what);
}

// Everything a transport emits, in either role, raw and as its peer decrypts it.
PROP(C13, transport, 5000, 80000) {
    Chain lc = tw::party_chain(c, 0), rc = tw::party_chain(c, 1); Scan s; s.chain("the local", lc.get()); bool rootless = c.draw(1); if (rootless) make_public(lc->root); tw::End L; tw::RefPeer R; Chain pub = public_chain(lc.get());
    R.local = tw::chain_bytes(rc.get()); R.sign_key.reset(wickr_ec_key_copy(rc->node->sig_key)); R.eph = pool_key(18 + (unsigned)c.draw(5)); R.remote = tw::chain_bytes(lc.get()); bool pin = c.draw(1), initiator = c.draw(1), need = c.draw(1); rng().outputs.clear(); rng().record = true; L.create("transport", lc.get(), pin ? rc.get() : nullptr, 1 + (uint32_t)c.draw(4)); CHECK(c, L.t, "creation failed");
    Bytes sec = ref::sha(256, c.blob(8)); std::vector<Bytes> opened; auto data = [&](const char *when) { for (unsigned i = 0, k = (unsigned)c.draw(6); i < k; i++) if (c.draw(1)) { L.send(c.blob1(30)); CHECK(c, !L.out.empty(), "%s: nothing sent", when); Bytes p = L.pop(), pt; uint64_t q; CHECK(c, R.open(p, pt, q), "%s: packet does not open", when); opened.push_back(pt); } else L.recv(R.data(c.blob1(20))); };
    Bytes response_clear;
    if (initiator) { L.start(); CHECK(c, L.out.size() == 1, "no seed"); Bytes a = R.respond(L.pop(), sec, 1 + (uint32_t)c.draw(5), 1 + (uint32_t)c.draw(5)); L.recv(a); CHECK(c, L.active(), "not active"); data("initiator"); }
    else { L.recv(R.seed(need)); CHECK(c, L.out.size() == 1, "no answer"); Bytes p = L.pop(); std::string e = R.finish(p); CHECK(c, e.empty(), "%s", e.c_str()); sec = R.secret; L.recv(R.data(c.blob1(5))); CHECK(c, L.active(), "not active"); data("responder"); tw::Parsed r = tw::parse_hs(p); Bytes k = R.response_key(r.eph); CHECK(c, tw::gcm_open(k, r.enc, {}, response_clear), "response"); }
    rng().record = false; CHECK(c, L.bad.empty(), "%s", L.bad.c_str()); std::string f; for (auto &x : opened) { f = s.find(x); CHECK(c, f.empty(), "a decrypted packet carries %s", f.c_str()); } f = s.find(response_clear); CHECK(c, f.empty(), "the handshake response carries %s", f.c_str());
    for (auto &o : rng().outputs) if (o.size() >= 32) s.add("a secret random value", o); s.add("the agreed secret", sec); for (auto *k : {&R.tx, &R.rx}) { s.add("a stream key", k->key); s.add("an evolution key", k->evo); }
    for (auto &x : L.emitted) { f = s.find(x); CHECK(c, f.empty(), "a transport emits %s (%s)", f.c_str(), initiator ? "initiator" : "responder"); } c.nontrivial(); c.label(initiator ? "initiator" : "responder"); if (rootless) c.label("root public");
    // a transport whose own identity is public cannot speak
    tw::End P; P.create("public", pub.get(), nullptr, 4); if (P.t) { if (c.draw(1)) P.start(); else { tw::RefPeer Q; Q.local = R.local; Q.sign_key.reset(wickr_ec_key_copy(rc->node->sig_key)); Q.eph = pool_key(20); P.recv(Q.seed(true)); } CHECK(c, P.emitted.empty() && !P.active(), "a transport without a signing key emits %zu packets, status %s", P.emitted.size(), tw::status_name(P.status())); CHECK(c, P.error(), "a transport without a signing key does not fail"); }
}
