// C27: secrets are fresh random values, and generation fails without randomness
#include "tworld.h"
#include "proto.h"
#include "objs.h"
#include <sys/stat.h>
#include <limits.h>
using namespace objs;
extern "C" char *vf_crypt_gensalt_rn(const char *, unsigned long, const char *, int, char *, int);

struct Piece { enum K { RAW, SCALAR, PUB, BCRYPT, UNIQ } k; std::string what; Bytes v; size_t len; };
struct Out {
    std::vector<Piece> p; bool ok = false; std::string leaked; // leaked: what a failing operation left outside
    void raw(const std::string &w, const wickr_buffer_t *b, size_t n) { p.push_back({Piece::RAW, w, to(b), n}); }
    void raw(const std::string &w, const Bytes &b, size_t n) { p.push_back({Piece::RAW, w, b, n}); }
    void key(const std::string &w, const wickr_cipher_key_t *k) { raw(w, k->key_data, k->cipher.key_len); }
    void ec(const std::string &w, const wickr_ec_key_t *k) { p.push_back({Piece::SCALAR, w, k->pri_data ? ref::p521_scalar(to(k->pri_data)) : Bytes(), 66}); }
    void pub(const std::string &w, const Bytes &b) { p.push_back({Piece::PUB, w, b, 134}); }
    void uniq(const std::string &w, const Bytes &b) { p.push_back({Piece::UNIQ, w, b, b.size()}); }
    void iv(const std::string &w, const wickr_cipher_result_t *r) { raw(w, r->iv, r->cipher.iv_len); }
    void iv_of(const std::string &w, const Bytes &ser) { size_t n = !ser.empty() && ser[0] == 0 ? 12 : 16; raw(w, ser.size() > n ? Bytes(ser.begin() + 1, ser.begin() + 1 + (long)n) : Bytes(), n); }
    void root(const wickr_root_keys_t *r) { ec("the node signature root", r->node_signature_root); key("the node storage root", r->node_storage_root); key("the remote storage root", r->remote_storage_root); }
};
struct Op { std::string name; std::function<void(Out &)> run; };
template <class T> static std::shared_ptr<T> sh(T &&x) { return std::make_shared<T>(std::move(x)); }
template <class T> static std::shared_ptr<T> sh(T &x) { return std::make_shared<T>(std::move(x)); }
static std::shared_ptr<View> view(const Bytes &b) { return std::make_shared<View>(b); }
static Bytes slurp(const std::string &p) { Bytes b; if (FILE *f = fopen(p.c_str(), "rb")) { uint8_t t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, f))) b.insert(b.end(), t, t + n); fclose(f); } return b; }

static const unsigned OPS = 32;
static Op make_op(Case &c, unsigned which) {
    static const wickr_kdf_algo_t A[9] = {KDF_SCRYPT_2_17, KDF_SCRYPT_2_18, KDF_SCRYPT_2_19, KDF_SCRYPT_2_20, KDF_BCRYPT_15, KDF_HKDF_SHA256, KDF_HKDF_SHA384, KDF_HKDF_SHA512, KDF_SCRYPT_2_17};
    Bytes ident = gen_identifier(c); auto idb = view(ident); auto dev = sh(make_devinfo(c.blob1(20))); auto data = view(c.blob1(200)), pass = view(c.blob1(20));
    switch (which) {
        case 0: { const wickr_cipher_t &ci = gen_cipher(c); return {"random cipher key", [=](Out &o) { CipherKey k(ENG.wickr_crypto_engine_cipher_key_random(ci)); if ((o.ok = (bool)k)) o.key("a cipher key", k.get()); }}; }
        case 1: return {"random EC key", [=](Out &o) { EcKey k(ENG.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); if ((o.ok = (bool)k)) o.ec("an EC key", k.get()); }};
        case 2: { size_t n = 8 + c.size(c.chance(1, 8) ? 70000 : 300); return {"random bytes", [=](Out &o) { Buf b(ENG.wickr_crypto_engine_crypto_random(n)); if ((o.ok = (bool)b)) o.raw("random bytes", b.get(), n); }}; }
        case 3: { auto k = sh(gen_cipher_key(c, gen_cipher(c))); bool gcm = (*k)->cipher.is_authenticated, aad = gcm && c.draw(1); return {"encryption", [=](Out &o) { CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(*data, aad ? (const wickr_buffer_t *)*pass : nullptr, k->get(), nullptr)); if ((o.ok = (bool)r)) o.iv("an IV", r.get()); }}; }
        case 4: return {"root key generation", [=](Out &o) { RootKeys k(wickr_root_keys_generate(&ENG)); if ((o.ok = (bool)k)) o.root(k.get()); }};
        case 5: return {"context generation", [=](Out &o) { GenRes g(wickr_ctx_gen_new(ENG, dev->get(), idb->ptr())); if ((o.ok = (bool)g)) { o.root(g->root_keys); o.key("the recovery key", g->recovery_key); o.ec("the node signing key", g->ctx->id_chain->node->sig_key); o.raw("the node identifier", g->ctx->id_chain->node->identifier, 32); } }};
        case 6: { auto k = sh(gen_ec_key(c)); return {"context generation with a signing key", [=](Out &o) { GenRes g(wickr_ctx_gen_new_with_sig_key(ENG, dev->get(), k->get(), idb->ptr())); if ((o.ok = (bool)g)) { o.key("the node storage root", g->root_keys->node_storage_root); o.key("the remote storage root", g->root_keys->remote_storage_root); o.key("the recovery key", g->recovery_key); o.ec("the node signing key", g->ctx->id_chain->node->sig_key); o.raw("the node identifier", g->ctx->id_chain->node->identifier, 32); } }}; }
        case 7: { auto k = sh(g_root(c)); return {"context generation with root keys", [=](Out &o) { GenRes g(wickr_ctx_gen_with_root_keys(ENG, dev->get(), k->get(), idb->ptr())); if ((o.ok = (bool)g)) { o.key("the recovery key", g->recovery_key); o.ec("the node signing key", g->ctx->id_chain->node->sig_key); o.raw("the node identifier", g->ctx->id_chain->node->identifier, 32); } }}; }
        case 8: { RootKeys k = g_root(c); GenRes g0(wickr_ctx_gen_with_root_keys(ENG, dev->get(), k.get(), idb->ptr())); auto rec = sh(Buf(wickr_ctx_gen_result_make_recovery(g0.get()))); auto rk = sh(CipherKey(wickr_cipher_key_copy(g0->recovery_key))); bool viapass = c.draw(1); auto exp = sh(Buf(wickr_ctx_gen_export_recovery_key_passphrase(g0.get(), *pass)));
            return {"re-provisioning", [=](Out &o) { GenRes g(viapass ? wickr_ctx_gen_with_passphrase(ENG, dev->get(), exp->get(), pass->ptr(), rec->get(), idb->ptr()) : wickr_ctx_gen_with_recovery(ENG, dev->get(), rec->get(), rk->get(), idb->ptr())); if ((o.ok = (bool)g)) { o.ec("the node signing key", g->ctx->id_chain->node->sig_key); o.raw("the node identifier", g->ctx->id_chain->node->identifier, 32); } }}; }
        case 9: { EcKey k = gen_ec_key(c); auto root = sh(make_root(k.get(), ident)); bool named = c.chance(1, 3); return {"node identity", [=](Out &o) { Identity i(wickr_node_identity_gen(&ENG, root->get(), named ? (const wickr_buffer_t *)*pass : nullptr)); if ((o.ok = (bool)i)) { o.ec("the node signing key", i->sig_key); if (!named) o.raw("the node identifier", i->identifier, 32); o.uniq("the identity signature", to(i->signature->sig_data)); } }}; }
        case 10: { auto ch = sh(make_chain(c)); uint64_t id = c.edge(~0ull); return {"message key pair", [=](Out &o) { EphKey e(wickr_ephemeral_keypair_generate_identity(&ENG, id, (*ch)->node)); if ((o.ok = (bool)e)) { o.ec("the message key", e->ec_key); o.uniq("its signature", to(e->signature->sig_data)); } }}; }
        case 11: { auto x = sh(make_ctx(c, ident, c.blob1(20))); uint64_t id = c.edge(~0ull); return {"message key pair of a context", [=](Out &o) { EphKey e(wickr_ctx_ephemeral_keypair_gen(x->get(), id)); if ((o.ok = (bool)e)) o.ec("the message key", e->ec_key); }}; }
        case 12: { auto a = A[c.draw(3)]; return {"scrypt", [=](Out &o) { KdfRes r(ENG.wickr_crypto_kdf_gen(a, *pass)); if ((o.ok = (bool)r)) o.raw("the salt", r->meta->salt, 16); }}; }
        case 13: return {"bcrypt", [=](Out &o) { KdfRes r(ENG.wickr_crypto_kdf_gen(KDF_BCRYPT_15, *pass)); if ((o.ok = (bool)r)) o.p.push_back({Piece::BCRYPT, "the salt", to(r->meta->salt), 22}); }};
        case 14: { auto a = A[5 + c.draw(2)]; return {"hkdf", [=](Out &o) { KdfRes r(ENG.wickr_crypto_kdf_gen(a, *pass)); if ((o.ok = (bool)r)) o.raw("the salt", r->meta->salt, a.salt_size); }}; }
        case 15: return {"device info", [=](Out &o) { DevInfo d(wickr_dev_info_create_new(&ENG, *data)); if ((o.ok = (bool)d)) o.raw("the device salt", d->dev_salt, 64); }};
        case 16: { uint32_t n = 1 + (uint32_t)c.edge(32767); return {"stream key", [=](Out &o) { StreamKey k(wickr_stream_key_create_rand(ENG, CIPHER_AES256_GCM, n)); if ((o.ok = (bool)k)) { o.key("the stream key", k->cipher_key); o.raw("the evolution key", k->evolution_key, 32); } }}; }
        case 17: return {"transport root key", [=](Out &o) { TRootKey k(wickr_transport_root_key_create_random(&ENG, CIPHER_AES256_GCM, 4, 5)); if ((o.ok = (bool)k)) o.raw("the root secret", k->secret, 32); }};
        case 18: { const wickr_cipher_t &ci = gen_cipher(c); return {"IV generator", [=](Out &o) { StreamIv v(wickr_stream_iv_create(ENG, ci)); if ((o.ok = (bool)v)) { o.raw("the seed", v->seed, 64); for (int i = 0; i < 3; i++) { Buf b(wickr_stream_iv_generate(v.get())); o.uniq("a generated IV", to(b)); } } }}; }
        case 19: { auto k = sh(g_stream(c)); auto dir = STREAM_DIRECTION_ENCODE; (*k)->cipher_key->cipher = CIPHER_AES256_GCM; return {"stream", [=](Out &o) { StreamCtx s; StreamKey kk(wickr_stream_key_copy(k->get())); s.reset(wickr_stream_ctx_create(ENG, kk.get(), dir)); if (s) kk.release(); if ((o.ok = (bool)s)) { o.raw("the IV seed", s->iv_factory->seed, 64); CipherRes r(wickr_stream_ctx_encode(s.get(), *data, nullptr, 1)); if (r) o.uniq("a packet IV", to(r->iv)); } }}; }
        case 20: return {"ECDH context", [=](Out &o) { EcdhCtx x(wickr_ecdh_cipher_ctx_create(ENG, EC_CURVE_NIST_P521, CIPHER_AES256_GCM)); if ((o.ok = (bool)x)) o.ec("the local key", x->local_key); }};
        case 21: { EcKey k = gen_ec_key(c); auto peer = sh(gen_ec_key(c)); const wickr_cipher_t &ci = gen_cipher(c); auto x = sh(EcdhCtx(wickr_ecdh_cipher_ctx_create_key(ENG, k.release(), ci))); auto m = sh(KdfMeta(wickr_kdf_meta_create(KDF_HKDF_SHA256, mk({1, 2}), mk({3})))); return {"ECDH encryption", [=](Out &o) { CipherRes r(wickr_ecdh_cipher_ctx_cipher(x->get(), *data, peer->get(), m->get())); if ((o.ok = (bool)r)) o.iv("an IV", r.get()); }}; }
        case 22: case 23: { unsigned n = 1 + (unsigned)(c.chance(1, 8) ? c.draw(11) : c.draw(2)); auto ps = std::make_shared<std::vector<Party>>(); for (unsigned i = 0; i < n; i++) ps->push_back(make_party(c, gen_identifier(c))); auto p = sh(gen_payload(c, 200)); return {"packet encoding", [=](Out &o) {
            std::vector<wickr_node_t *> l; for (auto &q : *ps) l.push_back(q.node.get()); NodeArray a = nodes_of(l); auto *ctx = (*ps)[0].ctx.get(); EncRes e(wickr_ctx_encode_packet(ctx, p->get(), a.get())); if (!(o.ok = (bool)e)) return; o.key("the packet key", e->packet_key); Buf ser(wickr_packet_serialize(e->packet)); RefDecode rd; ref_parse(to(ser), ctx->id_chain, rd); o.pub("the exchange key", rd.sender_pub); o.iv_of("the payload IV", rd.enc_payload); for (auto &x : rd.exchanges) o.iv_of("an exchange IV", x); std::vector<ref::PbField> f; ref::pb_parse(to(e->packet->content), f); for (auto &x : f) if (x.num == 1) o.iv_of("the header IV", x.data); o.uniq("the packet signature", to(e->packet->signature->sig_data)); }}; }
        case 24: { auto x = sh(make_ctx(c, ident, c.blob1(20))); bool local = c.draw(1); return {"context encryption", [=](Out &o) { CipherRes r(local ? wickr_ctx_cipher_local(x->get(), *data) : wickr_ctx_cipher_remote(x->get(), *data)); if ((o.ok = (bool)r)) o.iv("an IV", r.get()); }}; }
        case 25: { auto x = sh(make_ctx(c, ident, c.blob1(20))); unsigned k = (unsigned)c.draw(1); return {"context export", [=](Out &o) { Buf b(k ? wickr_ctx_export(x->get(), *pass) : wickr_ctx_export_storage_keys(x->get(), *pass)); if ((o.ok = (bool)b)) { Bytes v = to(b); o.raw("the salt", Bytes(v.begin() + 1, v.begin() + 17), 16); o.iv_of("the IV", Bytes(v.begin() + 17, v.end())); } }}; }
        case 26: { RootKeys k = g_root(c); auto g = sh(GenRes(wickr_ctx_gen_with_root_keys(ENG, dev->get(), k.get(), idb->ptr()))); bool rec = c.draw(1); return {"recovery export", [=](Out &o) { Buf b(rec ? wickr_ctx_gen_result_make_recovery(g->get()) : wickr_ctx_gen_export_recovery_key_passphrase(g->get(), *pass)); if ((o.ok = (bool)b)) { Bytes v = to(b); if (rec) o.iv_of("the IV", v); else { o.raw("the salt", Bytes(v.begin() + 1, v.begin() + 17), 16); o.iv_of("the IV", Bytes(v.begin() + 17, v.end())); } } }}; }
        case 27: { auto k = sh(gen_ec_key(c)); auto dg = gen_digest(c); return {"signature", [=](Out &o) { Sig s(ENG.wickr_crypto_engine_ec_sign(k->get(), *data, dg)); if ((o.ok = (bool)s)) { Bytes r, t; ref::der_sig(to(s->sig_data), r, t); o.uniq("the signature nonce point", r); } }}; }
        case 28: { auto k = sh(gen_cipher_key(c, CIPHER_AES256_GCM)); bool open = c.draw(1); return {"file encryption", [=](Out &o) { std::string in = pbt::scratch() + "/f.in", out = pbt::scratch() + "/f.out"; remove(out.c_str()); FILE *f = fopen(in.c_str(), "wb"); Bytes b = data->bytes(); fwrite(b.data(), 1, b.size(), f); fclose(f);
            if (open) { FILE *a = fopen(in.c_str(), "rb"), *z = fopen(out.c_str(), "wb"); o.ok = ENG.wickr_crypto_engine_encrypt_ofile(a, k->get(), z); fclose(a); fclose(z); } else o.ok = ENG.wickr_crypto_engine_encrypt_file(k->get(), in.c_str(), out.c_str()); Bytes r = slurp(out); if (o.ok) o.iv_of("the file's IV", r); else { struct stat st; if (open ? !r.empty() : stat(out.c_str(), &st) == 0) o.leaked = "a destination file of " + std::to_string(r.size()) + " bytes"; } }}; }
        default: { // transports
            auto lc = sh(tw::party_chain(c, 0)), rc = sh(tw::party_chain(c, 1)); auto eph = sh(pool_key(18 + (unsigned)c.draw(5))); bool initiator = which & 1, pin = c.draw(1), need = c.draw(1), need_data = c.draw(1);
            return {initiator ? "transport initiator" : "transport responder", [=](Out &o) {
                tw::End L; tw::RefPeer R; R.local = tw::chain_bytes(rc->get()); R.remote = tw::chain_bytes(lc->get()); R.sign_key.reset(wickr_ec_key_copy((*rc)->node->sig_key)); R.eph.reset(wickr_ec_key_copy(eph->get())); auto &r = rng(); bool was = false; auto after = [&](const char *w, size_t before) { if (r.failed && !was) { was = true; if (L.emitted.size() > before) o.leaked = std::to_string(L.emitted.size() - before) + " packets during " + w; } };
                std::vector<Bytes> sigs; L.create("transport", lc->get(), pin ? rc->get() : nullptr, 3); if (!L.t) return; auto send = [&] { for (int i = 0; i < 2; i++) { size_t n = L.emitted.size(); L.send({1, 2, 3}); after("send", n); if (L.emitted.size() > n) { Bytes d = L.emitted.back(); if (d.size() > 22) o.uniq("a data packet's IV", Bytes(d.begin() + 10, d.begin() + 22)); } } };
                auto quiet = [&](auto f) { int64_t fa = r.fail_at; uint64_t k = r.calls; bool fl = r.failed, rec = r.record; r.fail_at = -1; r.record = false; f(); r.fail_at = fa; r.calls = k; r.failed = fl; r.record = rec; }; // the peer has a random source of its own
                if (initiator) { L.start(); after("start", 0); if (L.emitted.size() != 1) return; tw::Parsed p = tw::parse_hs(L.emitted[0]); o.pub("the ephemeral key", p.eph); Bytes a; quiet([&] { a = R.respond(L.emitted[0], ref::sha(256, {1}), 3, 3); }); size_t n = L.emitted.size(); L.recv(a); after("the response", n); if (!L.active()) { if (!L.error()) o.leaked = "a transport that is not in error"; return; } send(); o.ok = L.active() && L.emitted.size() == n + 2; }
                else { Bytes s; quiet([&] { s = R.seed(need); }); L.recv(s); after("the seed", 0); if (L.emitted.size() != 1) { if (!L.error()) o.leaked = "a transport that is not in error"; return; } Bytes p1 = L.emitted[0]; tw::Parsed p = tw::parse_hs(p1); o.pub("the ephemeral key", p.eph); o.iv_of("the response IV", p.enc); std::string e; e = R.finish(p1); if (!e.empty()) return; o.raw("the root secret", R.secret, 32); Bytes d = R.data({5}); size_t n = L.emitted.size(); L.recv(d); after("the first packet", n); if (!L.active()) return; send(); o.ok = L.active() && L.emitted.size() == n + 2; }
                if (!L.bad.empty()) o.leaked = L.bad; }}; }
    }
}

// The operation fails, and emits nothing, whichever request for randomness fails.
PROP(C27, fail, 4000, 120000) {
    Op op = make_op(c, (unsigned)c.draw(OPS - 1)); uint64_t seed = c.draw(0xffff); auto &r = rng(); r.reseed(seed); Out base; op.run(base); CHECK(c, base.ok && base.leaked.empty(), "%s fails with a working random source %s", op.name.c_str(), base.leaked.c_str()); uint64_t n = r.calls; { Buf z(ENG.wickr_crypto_engine_crypto_random(0)), h(ENG.wickr_crypto_engine_crypto_random((size_t)INT_MAX + 1 + c.draw(~0u))); CHECK(c, !z && !h, "a request for no or too many random bytes succeeds"); } CHECK(c, n > 0, "%s asks for no randomness", op.name.c_str());
    c.note("%s: %llu requests", op.name.c_str(), (unsigned long long)n); c.label(op.name); std::vector<uint64_t> at; if (n <= 4) for (uint64_t i = 0; i < n; i++) at.push_back(i); else { at = {0, n - 1}; for (int i = 0; i < 4; i++) at.push_back(c.draw(n - 1)); }
    bool once = c.draw(1); for (uint64_t i : at) { r.reseed(seed); r.fail_at = (int64_t)i; r.once = once; Out o; op.run(o); bool failed = r.failed; r.reseed(seed); if (!failed) continue; CHECK(c, !o.ok, "%s succeeds although request %llu of %llu for randomness fails%s", op.name.c_str(), (unsigned long long)i, (unsigned long long)n, once ? " (only that one)" : ""); CHECK(c, o.leaked.empty(), "%s, whose request %llu for randomness fails, leaves behind %s", op.name.c_str(), (unsigned long long)i, o.leaked.c_str()); c.nontrivial(); }
    r.reseed(seed); Out again; op.run(again); CHECK(c, again.ok, "%s no longer works once the random source is back", op.name.c_str());
}

// A history of generations: every value is a part of the random source's output that no other value uses, has full length and never repeats.
PROP(C27, fresh, 3000, 90000) {
    auto &r = rng(); unsigned n = 2 + (unsigned)c.draw(6); std::vector<Op> ops; for (unsigned i = 0; i < n; i++) ops.push_back(c.chance(1, 3) && i ? ops[c.draw(i - 1)] : make_op(c, (unsigned)c.draw(OPS - 1)));
    std::vector<std::pair<size_t, size_t>> used; std::map<Bytes, std::string> seen; size_t total = 0; r.outputs.clear(); r.record = true;
    for (auto &op : ops) {
        size_t from = r.outputs.size(); Out o; r.record = true; op.run(o); r.record = false; CHECK(c, o.ok, "%s fails", op.name.c_str()); c.label(op.name); c.note("%s: %zu values from %zu outputs", op.name.c_str(), o.p.size(), r.outputs.size() - from);
        // a value may be drawn in one request or in several consecutive ones
        Bytes all; std::vector<size_t> start; for (size_t i = 0; i < r.outputs.size(); i++) { start.push_back(all.size()); all.insert(all.end(), r.outputs[i].begin(), r.outputs[i].end()); } size_t base = from < start.size() ? start[from] : all.size();
        auto claim = [&](const Piece &p, size_t at, size_t len) { for (auto &u : used) CHECK(c, at + len <= u.first || u.second <= at, "%s: %s reuses random bytes another value was made of", op.name.c_str(), p.what.c_str()); used.push_back({at, at + len}); };
        for (auto &p : o.p) {
            total++; CHECK(c, p.v.size() == p.len, "%s: %s has %zu bytes, not %zu", op.name.c_str(), p.what.c_str(), p.v.size(), p.len); auto it = seen.find(p.v); CHECK(c, it == seen.end(), "%s: %s repeats %s", op.name.c_str(), p.what.c_str(), it->second.c_str()); seen[p.v] = op.name + "'s " + p.what; bool ok = p.k == Piece::UNIQ;
            if (p.k == Piece::RAW) { auto f = std::search(all.begin() + (long)base, all.end(), p.v.begin(), p.v.end()); if (f != all.end()) { ok = true; claim(p, (size_t)(f - all.begin()), p.len); } }
            for (size_t i = from; !ok && i < r.outputs.size(); i++) { const Bytes &x = r.outputs[i]; size_t at = start[i];
                if (p.k == Piece::SCALAR) { if (x.size() == 66 && Bytes(x.begin() + 1, x.end()) == Bytes(p.v.begin() + 1, p.v.end())) { ok = true; claim(p, at, 66); } }
                else if (p.k == Piece::PUB) { if (x.size() == 66) { Bytes s = x; s[0] &= 1; if (ref::p521_pub_of(s) == ref::p521_decode(p.v)) { ok = true; claim(p, at, 66); } } }
                else if (p.k == Piece::BCRYPT) { char b[64]; if (at + 16 <= all.size() && vf_crypt_gensalt_rn("$2y$", 15, (const char *)all.data() + at, 16, b, sizeof b) && strlen(b) == 29 && !memcmp(b + 7, p.v.data(), 22)) { ok = true; claim(p, at, 16); } } }
            CHECK(c, ok, "%s: %s (%s) is not taken from the random source", op.name.c_str(), p.what.c_str(), hex(p.v, 70).c_str());
        }
    }
    if (total > 1) c.nontrivial();
}
