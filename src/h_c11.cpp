// C11: contexts survive export and import, accounts survive recovery onto other devices
#include "proto.h"

struct Device { Ctx ctx; DevInfo dev; Bytes sys, ident; size_t acct; EphKey eph; Node pub; // as published when it was provisioned
    Chain chain0; StorageKeys keys0; };
struct Account { Bytes ident; RootKeys roots; CipherKey rkey; Bytes recovery, exported, pass; GenRes gen; };
struct Stored { size_t dev; bool remote; Bytes pt, ser; };
struct Signed { size_t dev; Bytes data; Sig sig; bool root; };
struct Mail { size_t from, to_; Bytes wire; Payload pay; CipherKey key; };

struct Story {
    Case &c; std::vector<Account> ac; std::vector<Device> dv; std::vector<Stored> st; std::vector<Signed> sg; std::vector<Mail> ml; int restored = 0, recovered = 0, refused = 0;
    explicit Story(Case &k) : c(k) {}

    // what a freshly provisioned context must look like
    void check_new(const wickr_ctx_gen_result_t *g, const Bytes &ident, const wickr_root_keys_t *roots, const wickr_dev_info_t *dev, const char *how) {
        CHECK(c, g && g->ctx && g->recovery_key && g->root_keys, "%s: no context", how); const wickr_ctx_t *x = g->ctx;
        CHECK(c, same(g->root_keys, roots), "%s: the result's root keys are not the account's", how);
        CHECK(c, to(x->id_chain->root->identifier) == ident && x->id_chain->root->type == IDENTITY_TYPE_ROOT, "%s: root identifier differs", how);
        CHECK(c, same(x->id_chain->root->sig_key, roots->node_signature_root), "%s: the root identity does not hold the account's signing key", how);
        CHECK(c, ref::chain_ok(x->id_chain), "%s: the node is not genuinely signed by the root", how); CHECK(c, x->id_chain->node->type == IDENTITY_TYPE_NODE && x->id_chain->node->sig_key->pri_data, "%s: node identity is incomplete", how);
        for (auto &d : dv) CHECK(c, !eq(d.ctx->id_chain->node->identifier, x->id_chain->node->identifier) && !same_pub(d.ctx->id_chain->node->sig_key, x->id_chain->node->sig_key), "%s: the new node repeats another device's node identity", how);
        Chain cp = public_chain(x->id_chain); cp->status = IDENTITY_CHAIN_STATUS_UNKNOWN; CHECK(c, wickr_identity_chain_validate(cp.get(), &ENG), "%s: the chain does not validate", how);
        CHECK(c, same(x->storage_keys->remote, roots->remote_storage_root), "%s: the remote storage key is not the account's", how);
        CHECK(c, to(x->storage_keys->local->key_data) == ref::sha(256, cat(to(roots->node_storage_root->key_data), to(dev->system_salt))), "%s: the local storage key is not bound to this device", how);
        CHECK(c, same(x->dev_info, dev), "%s: device info differs", how); check_header(x, how);
    }
    void check_header(const wickr_ctx_t *x, const char *how) { CHECK(c, x->packet_header_key && to(x->packet_header_key->key_data) == ref_header_key(x->id_chain) && x->packet_header_key->cipher.cipher_id == CIPHER_ID_AES256_GCM, "%s: packet header key is not SHA-256(root id, node id)", how); }
    void add(const wickr_ctx_gen_result_t *g, size_t acct, const Bytes &sys, const Bytes &ident) {
        Device d; d.ctx.reset(wickr_ctx_copy(g->ctx)); CHECK(c, d.ctx, "context copy failed"); d.dev.reset(wickr_dev_info_copy(g->ctx->dev_info)); d.sys = sys; d.ident = ident; d.acct = acct; d.chain0.reset(wickr_identity_chain_copy(d.ctx->id_chain)); d.keys0.reset(wickr_storage_keys_copy(d.ctx->storage_keys));
        d.eph.reset(wickr_ctx_ephemeral_keypair_gen(d.ctx.get(), c.edge(~0ull))); CHECK(c, d.eph && d.eph->ec_key->pri_data, "message key generation failed"); CHECK(c, ref::sig_ok(d.eph->signature, d.ctx->id_chain->node->sig_key, d.eph->ec_key->pub_data), "message key %llu is not signed by its node", (unsigned long long)d.eph->identifier); d.pub = make_node(d.ctx->id_chain, to(d.dev->msg_proto_id), d.eph->identifier, d.eph->ec_key); make_public(d.pub->id_chain); wickr_ephemeral_keypair_make_public(d.pub->ephemeral_keypair);
        dv.push_back(std::move(d));
    }
    void create() {
        Account a; a.ident = gen_identifier(c); Bytes sys = c.data1(30); DevInfo dev = make_devinfo(sys); View iv(a.ident); GenRes g; unsigned k = (unsigned)c.draw(2);
        if (k == 0) g.reset(wickr_ctx_gen_new(ENG, dev.get(), iv.ptr()));
        else if (k == 1) { EcKey sk = gen_ec_key(c); g.reset(wickr_ctx_gen_new_with_sig_key(ENG, dev.get(), sk.get(), iv.ptr())); CHECK(c, g && same(g->root_keys->node_signature_root, sk.get()), "the given signing key is not the root's"); }
        else { RootKeys rk(wickr_root_keys_create(gen_ec_key(c).release(), ENG.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM), ENG.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM))); g.reset(wickr_ctx_gen_with_root_keys(ENG, dev.get(), rk.get(), iv.ptr())); CHECK(c, g && same(g->root_keys, rk.get()), "the given root keys are not used"); }
        CHECK(c, g, "generating a context failed (identifier of %zu bytes)", a.ident.size()); check_new(g.get(), a.ident, g->root_keys, dev.get(), "new context"); CHECK(c, iv.bytes() == a.ident, "identifier changed");
        for (auto &o : ac) CHECK(c, !eq(o.rkey->key_data, g->recovery_key->key_data) && !eq(o.roots->remote_storage_root->key_data, g->root_keys->remote_storage_root->key_data), "two accounts share generated keys");
        a.roots.reset(wickr_root_keys_copy(g->root_keys)); a.rkey.reset(wickr_cipher_key_copy(g->recovery_key)); c.note("account %zu created (%u), identifier of %zu bytes", ac.size(), k, a.ident.size());
        Buf rec(wickr_ctx_gen_result_make_recovery(g.get())); CHECK(c, rec, "no recovery could be made"); a.recovery = to(rec); a.pass = gen_passphrase(c); if (a.pass.empty()) a.pass = {1}; View pv(a.pass); Buf ex(wickr_ctx_gen_export_recovery_key_passphrase(g.get(), pv)); CHECK(c, ex, "the recovery key could not be exported"); a.exported = to(ex);
        // the recovery is the documented form: root keys sealed under the recovery key
        Bytes pt; CHECK(c, ref_open(to(a.rkey->key_data), a.recovery, pt), "the recovery does not open under the recovery key"); Buf rs(wickr_root_keys_serialize(a.roots.get())); CHECK(c, pt == to(rs), "the recovery holds something else than the root keys");
        add(g.get(), ac.size(), sys, a.ident); a.gen = std::move(g); ac.push_back(std::move(a));
    }
    void restored_as(Device &d, Ctx x, const char *how) { // x replaces the device's context
        CHECK(c, x, "%s: nothing came back", how); CHECK(c, same(x->id_chain, d.chain0.get()), "%s: identities or signing keys changed", how); CHECK(c, same(x->storage_keys, d.keys0.get()), "%s: storage keys changed", how); CHECK(c, same(x->dev_info, d.dev.get()), "%s: device info changed", how); check_header(x.get(), how); CHECK(c, ref::chain_ok(x->id_chain), "%s: the chain is not genuine any more", how);
        d.ctx = std::move(x); restored++;
    }
    void restore() {
        Device &d = dv[c.draw(dv.size() - 1)]; unsigned k = c.pick({3, 3, 2, 1}); c.note("restore a device (%u)", k); DevInfo di(wickr_dev_info_copy(d.dev.get())); Ctx x;
        if (k == 0) { Buf b(wickr_ctx_serialize(d.ctx.get())); CHECK(c, b, "serialization failed"); View v(to(b)); x.reset(wickr_ctx_create_from_buffer(ENG, di.get(), v)); if (x) di.release(); CHECK(c, v.bytes() == to(b), "buffer changed"); restored_as(d, std::move(x), "restoring the serialized context"); }
        else if (k == 1) {
            Bytes pw = gen_passphrase(c); if (pw.empty()) pw = {0}; View pv(pw); Buf b(wickr_ctx_export(d.ctx.get(), pv)); CHECK(c, b, "export failed"); Bytes e = to(b);
            if (c.chance(1, 2)) { Bytes e2 = e, pw2 = pw; bool w = c.chance(1, 2); if (w) c.tamper(pw2); else c.tamper(e2); View v2(e2), p2(pw2); if (!(pw2.empty() || (e2 == e && pw2 == pw)) && !same_pass(pw, pw2)) { Ctx y(wickr_ctx_import(ENG, di.get(), v2, p2)); if (y) di.release(); CHECK(c, !y, "a context was imported %s", w ? "with a wrong passphrase" : "from an altered export"); refused++; } }
            View v(e); x.reset(wickr_ctx_import(ENG, di.get(), v, pv)); if (x) di.release(); restored_as(d, std::move(x), "importing the exported context"); }
        else if (k == 2) restored_as(d, Ctx(wickr_ctx_copy(d.ctx.get())), "copying the context");
        else { // only the storage keys
            Bytes pw = gen_passphrase(c); if (pw.empty()) pw = {0}; View pv(pw); Buf b(wickr_ctx_export_storage_keys(d.ctx.get(), pv)); CHECK(c, b, "storage key export failed"); View v(to(b)); StorageKeys sk(wickr_ctx_import_storage_keys(ENG, v, pv)); CHECK(c, sk && same(sk.get(), d.keys0.get()), "imported storage keys differ");
            x.reset(wickr_ctx_create(ENG, di.get(), wickr_identity_chain_copy(d.chain0.get()), sk.get())); CHECK(c, x, "context from imported storage keys"); di.release(); sk.release(); restored_as(d, std::move(x), "a context from the exported storage keys"); }
    }
    static Bytes hmac_key(Bytes p) { if (p.size() > 64) p = ref::sha(256, p); while (!p.empty() && !p.back()) p.pop_back(); return p; } // scrypt feeds the passphrase to HMAC-SHA-256 as its key
    static bool same_pass(const Bytes &a, const Bytes &b) { return hmac_key(a) == hmac_key(b); }
    void recover() {
        size_t ai = (size_t)c.draw(ac.size() - 1); Account &a = ac[ai]; bool samedev = c.chance(1, 4); Bytes sys = samedev ? dv[c.draw(dv.size() - 1)].sys : c.data1(30), ident = c.chance(5, 6) ? a.ident : gen_identifier(c); DevInfo dev = make_devinfo(sys); View iv(ident), rv(a.recovery), pv(a.pass), ev(a.exported); GenRes g; unsigned k = (unsigned)c.draw(2);
        c.note("re-provision account %zu (%u)", ai, k); const char *how = k == 0 ? "recovery with the key" : k == 1 ? "recovery with the passphrase" : "recovery with the imported key";
        if (k == 0) g.reset(wickr_ctx_gen_with_recovery(ENG, dev.get(), rv.ptr(), a.rkey.get(), iv.ptr()));
        else if (k == 1) g.reset(wickr_ctx_gen_with_passphrase(ENG, dev.get(), ev.ptr(), pv.ptr(), rv.ptr(), iv.ptr()));
        else { CipherKey rk(wickr_ctx_gen_import_recovery_key_passphrase(ENG, ev, pv)); CHECK(c, rk && same(rk.get(), a.rkey.get()), "the imported recovery key differs"); RootKeys rt(wickr_ctx_gen_import_recovery(ENG, rv, rk.get())); CHECK(c, rt && same(rt.get(), a.roots.get()), "the imported root keys differ"); g.reset(wickr_ctx_gen_with_recovery(ENG, dev.get(), rv.ptr(), rk.get(), iv.ptr())); }
        CHECK(c, g, "%s failed", how); check_new(g.get(), ident, a.roots.get(), dev.get(), how); CHECK(c, same(g->recovery_key, a.rkey.get()), "%s: the recovery key changed", how);
        // a recovery made from the recovered account opens with the same key
        if (c.chance(1, 2)) { Buf r2(wickr_ctx_gen_result_make_recovery(g.get())); CHECK(c, r2 && to(r2) != a.recovery, "a second recovery"); Bytes pt; CHECK(c, ref_open(to(a.rkey->key_data), to(r2), pt), "a recovery made after re-provisioning does not open under the account's recovery key"); a.recovery = to(r2); }
        if (c.chance(1, 4)) { View p2(a.pass); Buf e2(wickr_ctx_gen_export_recovery_key_passphrase(g.get(), p2)); CHECK(c, e2, "export"); a.exported = to(e2); }
        if (c.chance(1, 4)) { GenRes cp(wickr_ctx_gen_result_copy(g.get())); CHECK(c, cp, "copying the result failed"); g = std::move(cp); check_new(g.get(), ident, a.roots.get(), dev.get(), "copied result"); CHECK(c, same(g->recovery_key, a.rkey.get()), "copied recovery key"); }
        add(g.get(), ai, sys, ident); recovered++;
    }
    void refuse() { // attempts that must yield nothing
        size_t ai = (size_t)c.draw(ac.size() - 1); Account &a = ac[ai]; Bytes rec = a.recovery, ident = a.ident, pass = a.pass, exp = a.exported; CipherKey key(wickr_cipher_key_copy(a.rkey.get())); unsigned k = c.pick({3, 3, 2, 2, 2, 2, 2, 2}), via = (unsigned)c.draw(2); const char *what = "";
        switch (k) {
            case 0: { Bytes kb = to(key->key_data); c.tamper(kb); kb.resize(32); if (kb == to(a.rkey->key_data)) return; key.reset(wickr_cipher_key_create(CIPHER_AES256_GCM, mk(kb))); CHECK(c, key, "key"); if (via == 1) via = 0; what = "wrong recovery key"; break; }
            case 1: if (!c.tamper(rec)) return; what = "altered recovery"; break;
            case 2: rec.resize((size_t)c.draw(rec.size() - 1)); what = "truncated recovery"; break;
            case 3: { ident = c.blob(128 + c.size(80)); what = "identifier too long"; break; }
            case 4: if (!c.tamper(pass) || pass.empty() || same_pass(pass, a.pass)) return; via = 1; what = "wrong passphrase"; break;
            case 5: if (!c.tamper(exp)) return; via = 1; what = "altered exported recovery key"; break;
            case 6: { if (ac.size() < 2) return; Account &o = ac[(ai + 1) % ac.size()]; if (c.chance(1, 2)) rec = o.recovery; else { key.reset(wickr_cipher_key_copy(o.rkey.get())); exp = o.exported; pass = o.pass; } what = "another account's recovery"; break; }
            case 7: ident.clear(); what = "empty identifier"; break;
        }
        DevInfo dev = make_devinfo(c.blob1(20)); View iv(ident), rv(rec), pv(pass), ev(exp); c.note("refuse: %s (%u)", what, via);
        if (via == 1) { GenRes g(wickr_ctx_gen_with_passphrase(ENG, dev.get(), ev.ptr(), pv.ptr(), rv.ptr(), iv.ptr())); CHECK(c, !g, "re-provisioned through the passphrase: %s", what); if (k == 4 || k == 5) { CipherKey i(wickr_ctx_gen_import_recovery_key_passphrase(ENG, ev, pv)); CHECK(c, !i, "recovery key imported: %s", what); } }
        else if (via == 2 && k != 3 && k != 7) { RootKeys r(wickr_ctx_gen_import_recovery(ENG, rv, key.get())); CHECK(c, !r, "root keys imported: %s", what); }
        else { GenRes g(wickr_ctx_gen_with_recovery(ENG, dev.get(), rv.ptr(), key.get(), iv.ptr())); CHECK(c, !g, "re-provisioned: %s", what); if (k == 3 || k == 7) { GenRes n(c.chance(1, 2) ? wickr_ctx_gen_new(ENG, dev.get(), iv.ptr()) : wickr_ctx_gen_with_root_keys(ENG, dev.get(), a.roots.get(), iv.ptr())); CHECK(c, !n, "provisioned: %s", what); } }
        refused++; c.label(what);
    }
    void write() {
        size_t i = (size_t)c.draw(dv.size() - 1); Device &d = dv[i];
        switch (c.pick({2, 2, 1, 2})) {
            case 0: case 1: { Stored s; s.dev = i; s.remote = c.chance(1, 2); s.pt = c.data1(120); View v(s.pt); CipherRes r(s.remote ? wickr_ctx_cipher_remote(d.ctx.get(), v) : wickr_ctx_cipher_local(d.ctx.get(), v)); CHECK(c, r, "storage encryption failed"); Buf b(wickr_cipher_result_serialize(r.get())); s.ser = to(b); st.push_back(std::move(s)); break; }
            case 2: { Signed s; s.dev = i; s.root = c.chance(1, 2); s.data = c.data1(60); View v(s.data); s.sig.reset(wickr_identity_sign(s.root ? d.ctx->id_chain->root : d.ctx->id_chain->node, &ENG, v)); CHECK(c, s.sig, "signing failed"); sg.push_back(std::move(s)); break; }
            case 3: { Mail m; m.from = i; m.to_ = (size_t)c.draw(dv.size() - 1); m.pay = gen_payload(c, 100); NodeArray a = nodes_of({dv[m.to_].pub.get()}); EncRes e(wickr_ctx_encode_packet(d.ctx.get(), m.pay.get(), a.get())); CHECK(c, e, "encoding failed"); Buf b(wickr_packet_serialize(e->packet)); m.wire = to(b); m.key.reset(wickr_cipher_key_copy(e->packet_key)); ml.push_back(std::move(m)); break; }
        }
    }
    void read_all() {
        for (auto &s : st) for (size_t i = 0; i < dv.size(); i++) {
            bool want = s.remote ? dv[i].acct == dv[s.dev].acct : i == s.dev || (dv[i].acct == dv[s.dev].acct && dv[i].sys == dv[s.dev].sys); View v(s.ser); CipherRes r(wickr_cipher_result_from_buffer(v)); CHECK(c, r, "stored data does not parse");
            Buf o(s.remote ? wickr_ctx_decipher_remote(dv[i].ctx.get(), r.get()) : wickr_ctx_decipher_local(dv[i].ctx.get(), r.get())); if (want) CHECK(c, o && to(o) == s.pt, "data stored %s by device %zu does not open on device %zu", s.remote ? "remotely" : "locally", s.dev, i); else CHECK(c, !o, "data stored %s by device %zu opens on device %zu", s.remote ? "remotely" : "locally", s.dev, i);
        }
        for (auto &s : sg) { auto *ch = dv[s.dev].ctx->id_chain; View v(s.data); CHECK(c, ref::sig_ok(s.sig.get(), (s.root ? ch->root : ch->node)->sig_key, v), "a signature made before does not verify under the restored identity"); }
        for (auto &m : ml) { Device &r = dv[m.to_]; Chain sc = public_chain(dv[m.from].ctx->id_chain); View w(m.wire); CtxPacket p(wickr_ctx_parse_packet(r.ctx.get(), w, sc.get())); CHECK(c, p && p->parse_result->err == E_SUCCESS && p->parse_result->signature_status == PACKET_SIGNATURE_VALID, "an earlier message does not parse for the restored device"); DecodeRes d(wickr_ctx_decode_packet(r.ctx.get(), p.get(), r.eph->ec_key)); CHECK(c, d && d->err == E_SUCCESS && same(d->decrypted_payload, m.pay.get()) && same(d->payload_key, m.key.get()), "an earlier message does not decode on the restored device"); }
    }
};

PROP(C11, story, 2500, 80000) {
    Story s(c); s.create(); unsigned steps = 3 + (unsigned)c.draw(9);
    for (unsigned i = 0; i < steps; i++) switch (c.pick({4, 4, 3, 2, 1})) { case 0: s.write(); break; case 1: s.restore(); break; case 2: if (s.dv.size() < 5) s.recover(); break; case 3: s.refuse(); break; case 4: if (s.ac.size() < 2) s.create(); break; }
    s.read_all(); if (s.restored + s.recovered && s.st.size() + s.ml.size() + s.sg.size()) c.nontrivial();
    if (s.restored) c.label("restored"); if (s.recovered) c.label("recovered"); if (s.ac.size() > 1) c.label("two accounts"); if (s.dv.size() > 2) c.label("several devices"); if (s.ml.size()) c.label("messages");
}

// one account, one attempt with one thing wrong: cheaper, so every kind is tried often
PROP(C11, refuse, 6000, 200000) {
    Story s(c); s.create(); if (c.chance(1, 6)) s.create(); for (int i = 0; i < 4; i++) s.refuse(); if (s.refused) c.nontrivial();
}
