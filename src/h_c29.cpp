// C29: an operation whose random source or crypto engine fails reports it, and leaves nothing behind
// C30: so does one that runs out of memory
// WRAPS: wickr_alloc wickr_alloc_zero
#include "objs.h"
#include "leak.h"
#include "tworld.h"
#include "fileio.h"
using namespace ref;
using objs::Any; using objs::Type;

extern "C" void __sanitizer_print_stack_trace();
// ---- the faults
enum Kind { NONE, PRIMITIVE, RANDOM, MEMORY };
struct Fault { Kind kind = NONE; long at = 0, n = 0, n_engine = 0, n_random = 0, n_memory = 0; bool sticky = false, armed = false, fired = false; const char *what = ""; } F;
static bool trip(Kind k, const char *what) { if (!F.armed) return false; long &m = k == PRIMITIVE ? F.n_engine : F.n_memory; long i = m++; if (F.kind != k || i < F.at || (i > F.at && !F.sticky)) return false; if (!F.fired) F.what = what; F.fired = true; if (getenv("VERIF_TRIP")) __sanitizer_print_stack_trace(); return true; }
struct Arm { // faults happen only while one of these lives
    Arm() { F.armed = true; if (F.kind == RANDOM) { rng().fail_at = (int64_t)rng().calls + F.at; rng().once = !F.sticky; rng().failed = false; } c0 = rng().calls; }
    ~Arm() { F.armed = false; F.n_random += (long)(rng().calls - c0); if (F.kind == RANDOM) { if (rng().failed) { F.fired = true; F.what = "random bytes"; } rng().fail_at = -1; rng().failed = false; } }
    uint64_t c0;
};
extern "C" { void *__real_wickr_alloc(size_t); void *__real_wickr_alloc_zero(size_t); void *__wrap_wickr_alloc(size_t n) { return trip(MEMORY, "wickr_alloc") ? nullptr : __real_wickr_alloc(n); } void *__wrap_wickr_alloc_zero(size_t n) { return trip(MEMORY, "wickr_alloc_zero") ? nullptr : __real_wickr_alloc_zero(n); } }
#define HOOK(m) template <class R, class... A> static R h_##m(A... a) { if (trip(PRIMITIVE, #m)) return R{}; return ENG.m(a...); } template <class R, class... A> static void set_##m(R (*&f)(A...)) { f = h_##m<R, A...>; }
#define HOOKS(X) X(wickr_crypto_engine_crypto_random) X(wickr_crypto_engine_cipher_key_random) X(wickr_crypto_engine_cipher_encrypt) X(wickr_crypto_engine_cipher_decrypt) X(wickr_crypto_engine_digest) X(wickr_crypto_engine_ec_rand_key) X(wickr_crypto_engine_ec_key_import) X(wickr_crypto_engine_ec_sign) X(wickr_crypto_engine_gen_shared_secret) X(wickr_crypto_engine_hmac_create) X(wickr_crypto_kdf_gen) X(wickr_crypto_kdf_meta)
HOOKS(HOOK)
static const wickr_crypto_engine_t &fe() { static wickr_crypto_engine_t e = [] { wickr_crypto_engine_t x = ENG;
#define SET(m) set_##m(x.m);
    HOOKS(SET) return x; }(); return e; }

// ---- operations: each prepares its inputs once, and can then be run any number of times
struct World { std::vector<std::function<std::string()>> args; std::function<bool()> run; bool tolerant = false; }; // tolerant: a digest may fail unnoticed (verdict caches) // run says whether the operation succeeded
static char g_bad[400];
static void bad(const char *fmt, ...) { if (*g_bad) return; va_list a; va_start(a, fmt); vsnprintf(g_bad, sizeof g_bad, fmt, a); va_end(a); }
template <class T> struct Sh { std::shared_ptr<T> o; Sh(T t) : o(std::make_shared<T>(std::move(t))) {} auto *get() const { return o->get(); } auto *operator->() const { return o->get(); } };
template <class T> static Sh<T> arg(World &w, T t) { Sh<T> s(std::move(t)); w.args.push_back([s] { objs::Dump d(false, false); objs::visit(d, "argument", s.get()); return d.s; }); return s; }
struct BufArg { std::shared_ptr<View> v; operator const wickr_buffer_t *() const { return &v->b; } wickr_buffer_t *ptr() const { return v->ptr(); } };
static BufArg arg(World &w, const Bytes &b) { BufArg a{std::make_shared<View>(b)}; w.args.push_back([a] { return hex(a.v->bytes(), 1 << 20); }); return a; }
#define FAULTY(expr) [&] { Arm arm_; return (expr); }()
static std::string g_out; // the value of a result, where it can be compared
template <class T> static void out(const T &r) { g_out.clear(); if (r) { objs::Dump d(false, false); objs::visit(d, "result", r.get()); g_out = d.s; } }
#define RUN(T, expr) w.run = [=]() -> bool { T res_(FAULTY(expr)); out(res_); return (bool)res_; }
// an operation that takes ownership of x only when it succeeds
#define RUN_TAKES(T, prep, expr, give) w.run = [=]() -> bool { prep; T res_(FAULTY(expr)); out(res_); if (res_) { give; } return (bool)res_; }
static Ctx fctx(Case &c) { Ctx x = make_ctx(c, gen_identifier(c), c.blob1(20)); x->engine = fe(); return x; }
static Party fparty(Case &c) { Party p = make_party(c, gen_identifier(c)); p.ctx->engine = fe(); return p; }
static const wickr_buffer_t *psk_of(const BufArg &b) { return b.v->b.length ? &b.v->b : nullptr; }
struct OpDef { const char *name; std::function<void(Case &, World &)> make; };
static const std::vector<OpDef> &ops() {
    static std::vector<OpDef> v; if (!v.empty()) return v;
#define OP(name, ...) v.push_back({name, [](Case &c, World &w) { (void)c; __VA_ARGS__ }})
    // contexts
    OP("wickr_ctx_gen_new", auto d = arg(w, gen_devinfo(c)); auto id = arg(w, gen_identifier(c)); RUN(GenRes, wickr_ctx_gen_new(fe(), d.get(), id.ptr())););
    OP("wickr_ctx_gen_new_with_sig_key", auto d = arg(w, gen_devinfo(c)); auto id = arg(w, gen_identifier(c)); auto k = arg(w, gen_ec_key(c)); RUN(GenRes, wickr_ctx_gen_new_with_sig_key(fe(), d.get(), k.get(), id.ptr())););
    OP("wickr_ctx_gen_with_root_keys", auto d = arg(w, gen_devinfo(c)); auto id = arg(w, gen_identifier(c)); auto k = arg(w, objs::g_root(c)); RUN(GenRes, wickr_ctx_gen_with_root_keys(fe(), d.get(), k.get(), id.ptr())););
    OP("wickr_ctx_gen_with_recovery", auto d = arg(w, gen_devinfo(c)); auto id = arg(w, gen_identifier(c)); auto k = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); RootKeys rk = objs::g_root(c); CipherRes r(wickr_root_keys_export(rk.get(), &ENG, k.get())); auto rec = arg(w, take(wickr_cipher_result_serialize(r.get()))); RUN(GenRes, wickr_ctx_gen_with_recovery(fe(), d.get(), rec.ptr(), k.get(), id.ptr())););
    OP("wickr_ctx_gen_with_passphrase", auto d = arg(w, gen_devinfo(c)); auto id = arg(w, gen_identifier(c)); auto pass = arg(w, c.blob1(20)); GenRes g(wickr_ctx_gen_new(ENG, d.get(), id.ptr())); auto rec = arg(w, take(wickr_ctx_gen_result_make_recovery(g.get()))); auto ek = arg(w, take(wickr_ctx_gen_export_recovery_key_passphrase(g.get(), pass))); RUN(GenRes, wickr_ctx_gen_with_passphrase(fe(), d.get(), ek.ptr(), pass.ptr(), rec.ptr(), id.ptr())););
    OP("wickr_ctx_gen_export_recovery_key_passphrase", auto g = arg(w, objs::g_gen(c)); g->ctx->engine = fe(); auto pass = arg(w, c.blob1(20)); RUN(Buf, wickr_ctx_gen_export_recovery_key_passphrase(g.get(), pass)););
    OP("wickr_ctx_gen_import_recovery_key_passphrase", auto g = arg(w, objs::g_gen(c)); auto pass = arg(w, c.blob1(20)); auto ek = arg(w, take(wickr_ctx_gen_export_recovery_key_passphrase(g.get(), pass))); RUN(CipherKey, wickr_ctx_gen_import_recovery_key_passphrase(fe(), ek, pass)););
    OP("wickr_ctx_gen_result_make_recovery", auto g = arg(w, objs::g_gen(c)); g->ctx->engine = fe(); RUN(Buf, wickr_ctx_gen_result_make_recovery(g.get())););
    OP("wickr_ctx_gen_import_recovery", auto g = arg(w, objs::g_gen(c)); auto rec = arg(w, take(wickr_ctx_gen_result_make_recovery(g.get()))); RUN(RootKeys, wickr_ctx_gen_import_recovery(fe(), rec, g->recovery_key)););
    OP("wickr_ctx_create", auto d = arg(w, gen_devinfo(c)); auto ch = arg(w, objs::g_chain(c, 1)); auto s = arg(w, objs::g_storage(c)); RUN_TAKES(Ctx, DevInfo d2(wickr_dev_info_copy(d.get())); Chain c2(wickr_identity_chain_copy(ch.get())); StorageKeys s2(wickr_storage_keys_copy(s.get())), wickr_ctx_create(fe(), d2.get(), c2.get(), s2.get()), d2.release(); c2.release(); s2.release()););
    OP("wickr_ctx_copy", auto x = arg(w, fctx(c)); RUN(Ctx, wickr_ctx_copy(x.get())););
    OP("wickr_ctx_serialize", auto x = arg(w, fctx(c)); RUN(Buf, wickr_ctx_serialize(x.get())););
    OP("wickr_ctx_create_from_buffer", auto x = arg(w, fctx(c)); auto b = arg(w, take(wickr_ctx_serialize(x.get()))); RUN_TAKES(Ctx, DevInfo d2(wickr_dev_info_copy(x->dev_info)), wickr_ctx_create_from_buffer(fe(), d2.get(), b), d2.release()););
    OP("wickr_ctx_export", auto x = arg(w, fctx(c)); auto pass = arg(w, c.blob1(20)); RUN(Buf, wickr_ctx_export(x.get(), pass)););
    OP("wickr_ctx_import", auto x = arg(w, fctx(c)); auto pass = arg(w, c.blob1(20)); auto b = arg(w, take(wickr_ctx_export(x.get(), pass))); RUN_TAKES(Ctx, DevInfo d2(wickr_dev_info_copy(x->dev_info)), wickr_ctx_import(fe(), d2.get(), b, pass), d2.release()););
    OP("wickr_ctx_export_storage_keys", auto x = arg(w, fctx(c)); auto pass = arg(w, c.blob1(20)); RUN(Buf, wickr_ctx_export_storage_keys(x.get(), pass)););
    OP("wickr_ctx_import_storage_keys", auto x = arg(w, fctx(c)); auto pass = arg(w, c.blob1(20)); auto b = arg(w, take(wickr_ctx_export_storage_keys(x.get(), pass))); RUN(StorageKeys, wickr_ctx_import_storage_keys(fe(), b, pass)););
    OP("wickr_ctx_cipher_local", auto x = arg(w, fctx(c)); auto b = arg(w, c.blob1(100)); RUN(CipherRes, wickr_ctx_cipher_local(x.get(), b)););
    OP("wickr_ctx_decipher_local", auto x = arg(w, fctx(c)); auto b = arg(w, c.blob1(100)); auto r = arg(w, CipherRes(wickr_ctx_cipher_local(x.get(), b))); RUN(Buf, wickr_ctx_decipher_local(x.get(), r.get())););
    OP("wickr_ctx_cipher_remote", auto x = arg(w, fctx(c)); auto b = arg(w, c.blob1(100)); RUN(CipherRes, wickr_ctx_cipher_remote(x.get(), b)););
    OP("wickr_ctx_decipher_remote", auto x = arg(w, fctx(c)); auto b = arg(w, c.blob1(100)); auto r = arg(w, CipherRes(wickr_ctx_cipher_remote(x.get(), b))); RUN(Buf, wickr_ctx_decipher_remote(x.get(), r.get())););
    OP("wickr_ctx_ephemeral_keypair_gen", auto x = arg(w, fctx(c)); uint64_t id = c.edge(~0ull); RUN(EphKey, wickr_ctx_ephemeral_keypair_gen(x.get(), id)););
    // messages
    static auto message = [](Case &c, World &w, Sh<Ctx> *snd, Sh<Ctx> *rcv, Sh<EcKey> *key, Sh<CipherRes> *, Bytes *wire, std::shared_ptr<std::vector<Party>> *parties, Sh<Payload> *pl) {
        auto ps = std::make_shared<std::vector<Party>>(); unsigned n = 1 + (unsigned)c.draw(2); for (unsigned i = 0; i <= n; i++) { bool dup; Party p; do { p = fparty(c); dup = false; for (auto &q : *ps) dup |= q.id() == p.id(); } while (dup); ps->push_back(std::move(p)); }
        *pl = arg(w, gen_payload(c, 300)); *snd = arg(w, Ctx(wickr_ctx_copy((*ps)[0].ctx.get()))); unsigned r = 1 + (unsigned)c.draw(n - 1); *rcv = arg(w, Ctx(wickr_ctx_copy((*ps)[r].ctx.get()))); *key = arg(w, EcKey(wickr_ec_key_copy((*ps)[r].eph->ec_key)));
        std::vector<wickr_node_t *> l; for (unsigned i = 1; i <= n; i++) l.push_back((*ps)[i].node.get()); NodeArray na = nodes_of(l); EncRes e(wickr_ctx_encode_packet((*ps)[0].ctx.get(), pl->get(), na.get())); if (!e) bad("encode failed without a fault"); *wire = e ? take(wickr_packet_serialize(e->packet)) : Bytes(); *parties = ps;
    };
#define MESSAGE Sh<Ctx> snd{Ctx()}, rcv{Ctx()}; Sh<EcKey> key{EcKey()}; Bytes wire; std::shared_ptr<std::vector<Party>> ps; Sh<Payload> pl{Payload()}; message(c, w, &snd, &rcv, &key, nullptr, &wire, &ps, &pl); auto pub = arg(w, public_chain((*ps)[0].ctx->id_chain));
    OP("wickr_ctx_encode_packet", MESSAGE for (auto &p : *ps) { auto *nd = p.node.get(); w.args.push_back([nd, ps] { objs::Dump d(false, false); objs::visit(d, "node", nd); return d.s; }); } w.run = [=]() -> bool { std::vector<Node> own; std::vector<wickr_node_t *> l; for (size_t i = 1; i < ps->size(); i++) { own.emplace_back(wickr_node_copy((*ps)[i].node.get())); l.push_back(own.back().get()); } NodeArray na = nodes_of(l); EncRes e(FAULTY(wickr_ctx_encode_packet(snd.get(), pl.get(), na.get()))); out(e); return (bool)e; };);
    OP("wickr_ctx_parse_packet", MESSAGE auto b = arg(w, wire); w.run = [=]() -> bool { Chain s(wickr_identity_chain_copy(pub.get())); CtxPacket p(FAULTY(wickr_ctx_parse_packet(rcv.get(), b, s.get()))); out(p); return p && p->parse_result && p->parse_result->err == E_SUCCESS; };);
    OP("wickr_ctx_parse_packet_no_decode", MESSAGE auto b = arg(w, wire); w.run = [=]() -> bool { Chain s(wickr_identity_chain_copy(pub.get())); CtxPacket p(FAULTY(wickr_ctx_parse_packet_no_decode(rcv.get(), b, s.get()))); out(p); return p && p->parse_result && p->parse_result->err == E_SUCCESS; };);
    OP("wickr_ctx_stateless_parse_packet", MESSAGE auto b = arg(w, wire); auto id = arg(w, to(rcv->id_chain->node->identifier)); w.run = [=]() -> bool { Chain s(wickr_identity_chain_copy(pub.get())); CtxPacket p(FAULTY(wickr_ctx_stateless_parse_packet(&fe(), id, b, s.get()))); out(p); return p && p->parse_result && p->parse_result->err == E_SUCCESS; };);
    OP("wickr_ctx_decode_packet", MESSAGE View b(wire); auto p = arg(w, CtxPacket(wickr_ctx_parse_packet(rcv.get(), b, pub.get()))); w.run = [=]() -> bool { DecodeRes d(FAULTY(wickr_ctx_decode_packet(rcv.get(), p.get(), key.get()))); out(d); if (d && d->err != E_SUCCESS && (d->decrypted_payload || d->payload_key)) bad("a failed decode returns contents"); return d && d->err == E_SUCCESS; };);
    OP("wickr_key_exchange_create_with_packet_key", MESSAGE auto k = arg(w, fresh_ec_key()); auto pk = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); auto psk = arg(w, c.chance(1, 2) ? Bytes() : c.blob1(30)); int ver = 2 + (int)c.draw(2); RUN(KeyEx, wickr_key_exchange_create_with_packet_key(&fe(), snd->id_chain, (*ps)[1].node.get(), k.get(), pk.get(), psk_of(psk), (uint8_t)ver)););
    OP("wickr_key_exchange_derive_packet_key", MESSAGE auto k = arg(w, fresh_ec_key()); auto pk = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); auto psk = arg(w, c.chance(1, 2) ? Bytes() : c.blob1(30)); int ver = 2 + (int)c.draw(2); auto x = arg(w, KeyEx(wickr_key_exchange_create_with_packet_key(&ENG, snd->id_chain, (*ps)[1].node.get(), k.get(), pk.get(), psk_of(psk), (uint8_t)ver))); auto rn = arg(w, Node(wickr_node_copy((*ps)[1].node.get()))); { EcKey kk(wickr_ec_key_copy((*ps)[1].eph->ec_key)); std::swap(rn->ephemeral_keypair->ec_key, kk.p); } RUN(CipherKey, wickr_key_exchange_derive_packet_key(&fe(), snd->id_chain, rn.get(), k.get(), x.get(), psk_of(psk), (uint8_t)ver)););
    OP("wickr_parse_result_from_packet", MESSAGE View b(wire); auto p = arg(w, Packet(wickr_packet_create_from_buffer(b))); auto id = arg(w, to(rcv->id_chain->node->identifier)); auto hk = std::make_shared<int>(0); w.run = [=]() -> bool { ParseRes r(FAULTY(wickr_parse_result_from_packet(&fe(), p.get(), id, [](const wickr_crypto_engine_t e, wickr_cipher_t ci, const wickr_identity_chain_t *ch) -> wickr_cipher_key_t * { Bytes k = ref_header_key(ch); (void)e; bool a = F.armed; F.armed = false; auto *r = wickr_cipher_key_create(ci, mk(k)); F.armed = a; return r; }, pub.get()))); return r && r->err == E_SUCCESS; };);
    OP("wickr_packet_create_from_components", MESSAGE auto k = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); auto h = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); auto x = arg(w, fresh_ec_key()); int ver = 2 + (int)c.draw(2); w.run = [=]() -> bool { std::vector<Node> own; std::vector<wickr_node_t *> l; for (size_t i = 1; i < ps->size(); i++) { own.emplace_back(wickr_node_copy((*ps)[i].node.get())); l.push_back(own.back().get()); } NodeArray na = nodes_of(l); Packet p(FAULTY(wickr_packet_create_from_components(&fe(), h.get(), k.get(), x.get(), pl.get(), na.get(), snd->id_chain, (uint8_t)ver))); out(p); return (bool)p; };);
    OP("wickr_key_exchange_set_encrypt", auto k = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); auto set = arg(w, objs::g_set(c)); RUN(CipherRes, wickr_key_exchange_set_encrypt(set.get(), &fe(), k.get())););
    OP("wickr_key_exchange_set_create_from_cipher", auto k = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); ExSet set = objs::g_set(c); auto r = arg(w, CipherRes(wickr_key_exchange_set_encrypt(set.get(), &ENG, k.get()))); RUN(ExSet, wickr_key_exchange_set_create_from_cipher(&fe(), r.get(), k.get())););
    OP("wickr_payload_encrypt", auto p = arg(w, gen_payload(c, 300)); auto k = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); RUN(CipherRes, wickr_payload_encrypt(p.get(), &fe(), k.get())););
    OP("wickr_payload_create_from_cipher", Payload p = gen_payload(c, 300); auto k = arg(w, gen_cipher_key(c, CIPHER_AES256_GCM)); auto r = arg(w, CipherRes(wickr_payload_encrypt(p.get(), &ENG, k.get()))); RUN(Payload, wickr_payload_create_from_cipher(&fe(), r.get(), k.get())););
    // identities and nodes
    OP("wickr_identity_sign", auto i = arg(w, objs::g_identity(c, 0, 1)); auto b = arg(w, c.blob1(60)); RUN(Sig, wickr_identity_sign(i.get(), &fe(), b)););
    OP("wickr_node_identity_gen", auto i = arg(w, objs::g_identity(c, 0, 1)); auto b = arg(w, gen_identifier(c)); RUN(Identity, wickr_node_identity_gen(&fe(), i.get(), b)););
    OP("wickr_identity_create_from_buffer", Identity i = objs::g_identity(c, (int)c.draw(1), 2); auto b = arg(w, take(wickr_identity_serialize(i.get()))); RUN(Identity, wickr_identity_create_from_buffer(b, &fe())););
    OP("wickr_identity_chain_create_from_buffer", Chain i = objs::g_chain(c, 2); auto b = arg(w, take(wickr_identity_chain_serialize(i.get()))); RUN(Chain, wickr_identity_chain_create_from_buffer(b, &fe())););
    OP("wickr_identity_chain_create_from_buffer (private)", Chain i = objs::g_chain(c, 1); auto b = arg(w, take(wickr_identity_chain_serialize_private(i.get()))); RUN(Chain, wickr_identity_chain_create_from_buffer(b, &fe())););
    OP("wickr_identity_get_fingerprint", auto i = arg(w, objs::g_identity(c, 0, 2)); RUN(Fingerprint, wickr_identity_get_fingerprint(i.get(), fe())););
    OP("wickr_identity_get_bilateral_fingerprint", auto i = arg(w, objs::g_identity(c, 0, 2)); auto j = arg(w, objs::g_identity(c, 0, 2)); RUN(Fingerprint, wickr_identity_get_bilateral_fingerprint(i.get(), j.get(), fe())););
    OP("wickr_identity_chain_validate", auto ch = arg(w, make_chain(c)); w.run = [=]() -> bool { Chain k(wickr_identity_chain_copy(ch.get())); k->status = IDENTITY_CHAIN_STATUS_UNKNOWN; return FAULTY(wickr_identity_chain_validate(k.get(), &fe())); }; w.tolerant = true;);
    OP("wickr_node_verify_signature_chain", Chain ch = make_chain(c); EcKey k = gen_ec_key(c); auto n = arg(w, make_node(ch.get(), c.blob1(30), c.edge(~0ull), k.get())); w.run = [=]() -> bool { Node k(wickr_node_copy(n.get())); k->status = NODE_STATUS_UNKNOWN; return FAULTY(wickr_node_verify_signature_chain(k.get(), &fe())); }; w.tolerant = true;);
    OP("wickr_node_create_from_buffer", Node n = objs::g_node(c); auto b = arg(w, take(wickr_node_serialize(n.get()))); w.tolerant = b.v->b.length == 0; RUN(Node, wickr_node_create_from_buffer(b, &fe())););
    OP("wickr_node_rotate_keypair", auto n = arg(w, objs::g_node(c)); auto e = arg(w, objs::g_eph(c)); bool cp = c.draw(1); w.run = [=]() -> bool { Node k(wickr_node_copy(n.get())); EphKey x(wickr_ephemeral_keypair_copy(e.get())); objs::Dump d0(false, false); objs::visit(d0, "n", k.get()); bool r = FAULTY(wickr_node_rotate_keypair(k.get(), x.get(), cp)); if (r && !cp) x.release(); if (!r) { objs::Dump d1(false, false); objs::visit(d1, "n", k.get()); if (d0.s != d1.s) bad("a failed rotation changed the node"); } return r; };);
    OP("wickr_ephemeral_keypair_generate_identity", auto i = arg(w, objs::g_identity(c, 1, 1)); uint64_t id = c.edge(~0ull); RUN(EphKey, wickr_ephemeral_keypair_generate_identity(&fe(), id, i.get())););
    OP("wickr_ephemeral_keypair_create_from_buffer", EphKey e = objs::g_eph(c); auto b = arg(w, take(wickr_ephemeral_keypair_serialize(e.get()))); RUN(EphKey, wickr_ephemeral_keypair_create_from_buffer(b, &fe())););
    // device, root keys
    OP("wickr_dev_info_create_new", auto b = arg(w, c.blob1(40)); RUN(DevInfo, wickr_dev_info_create_new(&fe(), b)););
    OP("wickr_dev_info_derive", auto b = arg(w, c.blob1(40)); auto s = arg(w, c.blob1(16)); RUN_TAKES(DevInfo, Buf s2(wickr_buffer_copy(s)), wickr_dev_info_derive(&fe(), s2.get(), b), s2.release()););
    OP("wickr_root_keys_generate", (void)w; RUN(RootKeys, wickr_root_keys_generate(&fe())););
    OP("wickr_root_keys_create_from_buffer", RootKeys k = objs::g_root(c); auto b = arg(w, take(wickr_root_keys_serialize(k.get()))); RUN(RootKeys, wickr_root_keys_create_from_buffer(&fe(), b)););
    OP("wickr_root_keys_export", auto k = arg(w, objs::g_root(c)); auto e = arg(w, objs::g_ckey(c)); RUN(CipherRes, wickr_root_keys_export(k.get(), &fe(), e.get())););
    OP("wickr_root_keys_localize", auto k = arg(w, objs::g_root(c)); auto d = arg(w, gen_devinfo(c)); RUN(StorageKeys, wickr_root_keys_localize(k.get(), &fe(), d.get())););
    // fingerprints
    OP("wickr_fingerprint_gen", auto k = arg(w, gen_ec_key(c)); auto b = arg(w, gen_identifier(c)); RUN(Fingerprint, wickr_fingerprint_gen(fe(), k.get(), b, WICKR_FINGERPRINT_TYPE_SHA512)););
    OP("wickr_fingerprint_gen_bilateral", auto a = arg(w, Fingerprint(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mk(c.blob(64))))); auto b = arg(w, Fingerprint(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mk(c.blob(64))))); RUN(Fingerprint, wickr_fingerprint_gen_bilateral(fe(), a.get(), b.get(), WICKR_FINGERPRINT_TYPE_SHA512)););
    OP("wickr_fingerprint_get_b32", auto a = arg(w, Fingerprint(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mk(c.blob(64))))); auto o = c.draw(1) ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG; RUN(Buf, wickr_fingerprint_get_b32(a.get(), o)););
    OP("wickr_fingerprint_get_hex", auto a = arg(w, Fingerprint(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mk(c.blob(64))))); auto o = c.draw(1) ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG; RUN(Buf, wickr_fingerprint_get_hex(a.get(), o)););
    // streams
    OP("wickr_stream_key_create_rand", uint32_t n = 1 + (uint32_t)c.edge(32767); RUN(StreamKey, wickr_stream_key_create_rand(fe(), CIPHER_AES256_GCM, n)););
    OP("wickr_stream_iv_create", RUN(StreamIv, wickr_stream_iv_create(fe(), CIPHER_AES256_GCM)););
    OP("wickr_stream_iv_generate", auto i = arg(w, [&] { StreamIv i = objs::g_iv(c); i->engine = fe(); return i; }()); w.run = [=]() -> bool { StreamIv k(wickr_stream_iv_copy(i.get())); uint64_t g = k->gen_count; Buf b(FAULTY(wickr_stream_iv_generate(k.get()))); (void)g; return (bool)b; };);
    OP("wickr_stream_ctx_create", CipherKey ck = gen_cipher_key(c, CIPHER_AES256_GCM); auto k = arg(w, StreamKey(wickr_stream_key_create(ck.release(), mk(c.blob(64)), 1 + (uint32_t)c.edge(100)))); auto d = c.draw(1) ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE; RUN_TAKES(StreamCtx, StreamKey k2(wickr_stream_key_copy(k.get())), wickr_stream_ctx_create(fe(), k2.get(), d), k2.release()););
    OP("wickr_stream_ctx_copy", auto s = arg(w, objs::g_sctx(c)); RUN(StreamCtx, wickr_stream_ctx_copy(s.get())););
    static auto stream = [](Case &c, wickr_stream_direction d, const StreamKey &k) { StreamKey k2(wickr_stream_key_copy(k.get())); StreamCtx s(wickr_stream_ctx_create(fe(), k2.get(), d)); if (s) k2.release(); return s; };
    static auto skey = [](Case &c) { CipherKey ck = gen_cipher_key(c, CIPHER_AES256_GCM); return StreamKey(wickr_stream_key_create(ck.release(), mk(c.blob(32)), 1 + (uint32_t)c.draw(4))); };
    OP("wickr_stream_ctx_encode", StreamKey k = skey(c); auto s = arg(w, stream(c, STREAM_DIRECTION_ENCODE, k)); auto b = arg(w, c.blob1(60)); auto aad = arg(w, c.blob1(20)); uint64_t seq = 1 + c.draw(30); w.run = [=]() -> bool { StreamCtx e(wickr_stream_ctx_copy(s.get())); auto count = e->iv_factory->gen_count; objs::Dump d0; objs::visit(d0, "s", e.get()); CipherRes r(FAULTY(wickr_stream_ctx_encode(e.get(), b, aad, seq))); if (!r) { e->iv_factory->gen_count = count; objs::Dump d1; objs::visit(d1, "s", e.get()); if (d0.s != d1.s) bad("a failed encode changed the stream: %s", objs::first_difference(d0.s, d1.s).c_str()); } return (bool)r; };);
    OP("wickr_stream_ctx_decode", StreamKey k = skey(c); auto s = arg(w, stream(c, STREAM_DIRECTION_DECODE, k)); StreamCtx e = stream(c, STREAM_DIRECTION_ENCODE, k); auto aad = arg(w, c.blob1(20)); uint64_t seq = 1 + c.draw(30); View m(c.blob1(60)); auto r = arg(w, CipherRes(wickr_stream_ctx_encode(e.get(), m, aad, seq))); w.run = [=]() -> bool { StreamCtx e(wickr_stream_ctx_copy(s.get())); objs::Dump d0; objs::visit(d0, "s", e.get()); Buf o(FAULTY(wickr_stream_ctx_decode(e.get(), r.get(), aad, seq))); if (!o) { objs::Dump d1; objs::visit(d1, "s", e.get()); if (d0.s != d1.s) bad("a failed decode changed the stream: %s", objs::first_difference(d0.s, d1.s).c_str()); } return (bool)o; };);
    // agreement, password protection
    OP("wickr_ecdh_cipher_ctx_create", RUN(EcdhCtx, wickr_ecdh_cipher_ctx_create(fe(), EC_CURVE_NIST_P521, CIPHER_AES256_GCM)););
    OP("wickr_ecdh_cipher_ctx_create_key", auto k = arg(w, gen_ec_key(c)); RUN_TAKES(EcdhCtx, EcKey k2(wickr_ec_key_copy(k.get())), wickr_ecdh_cipher_ctx_create_key(fe(), k2.get(), CIPHER_AES256_GCM), k2.release()););
    static auto ecdh = [](Case &c) { EcdhCtx x = objs::g_ecdh(c); x->engine = fe(); x->cipher = CIPHER_AES256_GCM; return x; };
    OP("wickr_ecdh_cipher_ctx_copy", auto x = arg(w, ecdh(c)); RUN(EcdhCtx, wickr_ecdh_cipher_ctx_copy(x.get())););
    OP("wickr_ecdh_cipher_ctx_cipher", auto x = arg(w, ecdh(c)); auto k = arg(w, gen_ec_key(c)); auto b = arg(w, c.blob1(50)); auto m = arg(w, KdfMeta(wickr_kdf_meta_create(KDF_HKDF_SHA256, mk(c.blob1(20)), mk(c.blob1(20))))); RUN(CipherRes, wickr_ecdh_cipher_ctx_cipher(x.get(), b, k.get(), m.get())););
    OP("wickr_ecdh_cipher_ctx_decipher", auto x = arg(w, ecdh(c)); auto k = arg(w, gen_ec_key(c)); View b(c.blob1(50)); auto m = arg(w, KdfMeta(wickr_kdf_meta_create(KDF_HKDF_SHA256, mk(c.blob1(20)), mk(c.blob1(20))))); auto r = arg(w, CipherRes(wickr_ecdh_cipher_ctx_cipher(x.get(), b, k.get(), m.get()))); RUN(Buf, wickr_ecdh_cipher_ctx_decipher(x.get(), r.get(), k.get(), m.get())););
    OP("wickr_crypto_engine_kdf_cipher", auto b = arg(w, c.blob1(50)); auto p = arg(w, c.blob1(20)); RUN(Buf, wickr_crypto_engine_kdf_cipher(&fe(), KDF_SCRYPT_2_17, CIPHER_AES256_GCM, b, p)););
    OP("wickr_crypto_engine_kdf_decipher", View b(c.blob1(50)); auto p = arg(w, c.blob1(20)); auto e = arg(w, take(wickr_crypto_engine_kdf_cipher(&ENG, KDF_SCRYPT_2_17, CIPHER_AES256_GCM, b, p))); RUN(Buf, wickr_crypto_engine_kdf_decipher(&fe(), e, p)););
    // files and texts (the functions themselves, they take no engine)
    for (int dec = 0; dec < 2; dec++) for (int h = 0; h < 2; h++) v.push_back({dec ? h ? "openssl_decrypt_file" : "openssl_aes256_file_decrypt" : h ? "openssl_encrypt_file" : "openssl_aes256_file_encrypt", [dec, h](Case &c, World &w) {
        auto k = arg(w, gen_cipher_key(c, c.draw(1) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR)); Bytes m = c.blob(c.chance(1, 5) ? 4090 + c.draw(12) : c.size(300)); auto d = std::make_shared<Dir>("f"); std::string in = *d / "in", o = *d / "out"; Bytes src = dec ? ref_file(k.get(), c.blob(k->cipher.iv_len), m) : m, old = c.draw(1) ? Bytes() : c.blob1(30); put(in, src);
        w.run = [=]() -> bool {
            unlink(o.c_str()); if (!old.empty()) put(o, old); bool ok; if (h) { FILE *f = fopen(in.c_str(), "rb"), *g = fopen(o.c_str(), "w+b"); ok = FAULTY(dec ? openssl_decrypt_file(f, k.get(), g, false) : openssl_encrypt_file(f, k.get(), g)); fclose(f); fclose(g); } else ok = FAULTY(dec ? openssl_aes256_file_decrypt(k.get(), in.c_str(), o.c_str(), false) : openssl_aes256_file_encrypt(k.get(), in.c_str(), o.c_str()));
            Bytes s, r; if (!slurp(in, s) || s != src) bad("the source file changed"); if (ok) { if (!slurp(o, r)) bad("no result file"); else if (dec ? r != m : !ref_unfile(k.get(), r, false, s) || s != m) bad("the result file does not hold the source's contents"); g_out = hex(r, 1 << 20); }
            if (!h) { std::set<std::string> l = d->list(); l.erase("in"); l.erase("out"); if (!l.empty()) bad("%s is left behind", l.begin()->c_str()); if (!ok && (exists(o) != !old.empty() || (exists(o) && slurp(o, r) && r != old))) bad("a failed file operation touched its destination"); } return ok; };
    }});
    OP("openssl_sha2_file", Bytes m = c.blob_upto(300); w.run = [=]() -> bool { FILE *f = fopen((pbt::scratch() + "/h").c_str(), "w+b"); fwrite(m.data(), 1, m.size(), f); rewind(f); Buf b(FAULTY(openssl_sha2_file(f, DIGEST_SHA_256))); fclose(f); out(b); return (bool)b; };);
    OP("openssl_hkdf", auto b = arg(w, c.blob1(60)); auto s = arg(w, c.blob1(30)); auto i = arg(w, c.blob1(30)); RUN(Buf, openssl_hkdf(b, s, i, DIGEST_SHA_256)););
    OP("openssl_hkdf_expand", auto b = arg(w, c.blob(32)); auto i = arg(w, c.blob1(30)); size_t n = 1 + c.draw(200); RUN(Buf, openssl_hkdf_expand(b, i, DIGEST_SHA_256, n)););
    OP("openssl_hmac_create", auto b = arg(w, c.blob1(60)); auto k = arg(w, c.blob1(60)); RUN(Buf, openssl_hmac_create(b, k, DIGEST_SHA_512)););
    OP("openssl_ecdsa_to_raw", auto s = arg(w, Sig(openssl_ec_sign(pool_key(0).get(), View(c.blob1(20)), DIGEST_SHA_512))); RUN(Buf, openssl_ecdsa_to_raw(s.get())););
    OP("openssl_ecdsa_from_raw", Sig s0(openssl_ec_sign(pool_key(0).get(), View(c.blob1(20)), DIGEST_SHA_512)); auto b = arg(w, take(openssl_ecdsa_to_raw(s0.get()))); RUN(Sig, openssl_ecdsa_from_raw(EC_CURVE_NIST_P521, DIGEST_SHA_512, b)););
    OP("getBase64FromData", auto b = arg(w, c.blob1(60)); RUN(Buf, getBase64FromData(b)););
    OP("getDataFromBase64", View m(c.blob1(60)); auto b = arg(w, take(getBase64FromData(m))); RUN(Buf, getDataFromBase64(b)););
    OP("getHexStringFromData", auto b = arg(w, c.blob1(60)); RUN(Buf, getHexStringFromData(b)););
    OP("getDataFromHexString", View m(c.blob1(60)); auto b = arg(w, take(getHexStringFromData(m))); RUN(Buf, getDataFromHexString(b)););
    OP("base32_encode", auto b = arg(w, c.blob1(60)); RUN(Buf, base32_encode(b)););
    OP("base32_decode", View m(c.blob1(60)); auto b = arg(w, take(base32_encode(m))); RUN(Buf, base32_decode(b)););
    // transports
    OP("wickr_transport_root_key_create_random", RUN(TRootKey, wickr_transport_root_key_create_random(&fe(), CIPHER_AES256_GCM, 5, 6)););
    OP("wickr_transport_root_key_to_stream_key", auto k = arg(w, [&] { TRootKey k = objs::g_troot(c); k->packets_per_evo_recv = k->packets_per_evo_send = 7; return k; }()); auto a = arg(w, c.blob1(20)); auto b = arg(w, c.blob1(20)); RUN(StreamKey, wickr_transport_root_key_to_stream_key(k.get(), &fe(), a, b, STREAM_DIRECTION_ENCODE)););
    OP("wickr_transport_packet_sign", auto ch = arg(w, make_chain(c)); auto p = arg(w, [&] { wickr_transport_packet_meta_t m; wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_NONE); return TPacket(wickr_transport_packet_create(m, mk(c.blob1(60)))); }()); w.run = [=]() -> bool { TPacket k(wickr_transport_packet_copy(p.get())); return FAULTY(wickr_transport_packet_sign(k.get(), &fe(), ch.get())); };);
    struct HsUser { int asked = 0; };
    static auto hs = [](const wickr_identity_chain_t *l, const wickr_identity_chain_t *r) { Chain a(wickr_identity_chain_copy(l)), b(r ? wickr_identity_chain_copy(r) : nullptr); Handshake h(wickr_transport_handshake_create(fe(), a.get(), b.get(), [](const wickr_transport_handshake_t *, wickr_identity_chain_t *ch, void *) { wickr_identity_chain_destroy(&ch); }, 5, nullptr)); if (h) a.release(), b.release(); return h; };
    for (int pin = 0; pin < 2; pin++) for (int step : {0, 1, 2, 3, 6}) { // (approvals use no engine and no memory)
        static const char *names[7] = {"wickr_transport_handshake_start", "wickr_transport_handshake_process (seed)", "wickr_transport_handshake_process (response)", "wickr_transport_handshake_finalize", "", "", "wickr_transport_handshake_finalize (responder)"};
        v.push_back({names[step], [pin, step](Case &c, World &w) {
            auto A = arg(w, tw::party_chain(c, 0)); auto B = arg(w, tw::party_chain(c, 1)); w.tolerant = true;
            w.run = [=]() -> bool { // an honest handshake up to the step that meets the fault
                Chain pa = public_chain(A.get()), pb = public_chain(B.get()); Handshake a = hs(A.get(), pin ? pb.get() : nullptr), b = hs(B.get(), pin ? pa.get() : nullptr); if (!a || !b) { bad("handshake not created"); return true; }
                enum { IN = TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS, ASK = TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION, FIN = TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION, DONE = TRANSPORT_HANDSHAKE_STATUS_COMPLETE, FAILED = TRANSPORT_HANDSHAKE_STATUS_FAILED };
                // a step either ends in the state (and with the answer) it would have without the fault, or in the failed state without an answer
                auto after = [&](const char *what, const Handshake &h, int want, bool answers, bool answered) { Handshake k(wickr_transport_handshake_copy(a.get())), l(wickr_transport_handshake_copy(b.get())); if (!k || !l) bad("a handshake cannot be copied after %s", what); int s = wickr_transport_handshake_get_status(h.get()); if (s == want && answered == answers) return true; if (s != FAILED || answered) bad("after %s the handshake is in state %d %s an answer", what, s, answered ? "with" : "without"); return false; };
#define STEP(n, expr) (step == (n) ? FAULTY(expr) : (expr))
                TPacket s(STEP(0, wickr_transport_handshake_start(a.get()))); if (!after("start", a, IN, true, (bool)s)) return false; if (step == 0) return true;
                View sw(take(wickr_transport_packet_serialize(s.get()))); TPacket s2(wickr_transport_packet_create_from_buffer(sw)); TPacket r(STEP(1, wickr_transport_handshake_process(b.get(), s2.get()))); if (!after("the seed", b, pin ? FIN : ASK, pin, (bool)r)) return false;
                if (!pin) { r = TPacket(STEP(4, wickr_transport_handshake_verify_identity(b.get(), true))); if (!after("the initiator's approval", b, FIN, true, (bool)r)) return false; } if (step == 1 || step == 4) return true;
                View rw(take(wickr_transport_packet_serialize(r.get()))); TPacket r2(wickr_transport_packet_create_from_buffer(rw)); TPacket z(STEP(2, wickr_transport_handshake_process(a.get(), r2.get()))); if (!after("the response", a, pin ? FIN : ASK, false, (bool)z)) return false;
                if (!pin) { z = TPacket(STEP(5, wickr_transport_handshake_verify_identity(a.get(), true))); if (!after("the responder's approval", a, FIN, false, (bool)z)) return false; } if (step == 2 || step == 5) return true;
                auto &h = step == 6 ? b : a; HandshakeRes f(FAULTY(wickr_transport_handshake_finalize(h.get()))); return after("finalize", h, DONE, true, (bool)f);
#undef STEP
            };
        }});
    }
    OP("wickr_transport_ctx", auto A = arg(w, tw::party_chain(c, 0)); auto B = arg(w, tw::party_chain(c, 1)); w.tolerant = true; bool pin = c.draw(1); int where = (int)c.draw(4); Bytes m1 = c.blob1(40), m2 = c.blob1(40); uint32_t evo = 1 + (uint32_t)c.draw(3);
        w.run = [=]() -> bool { // the step that meets the fault: 0 first start, 1 responder, 2 initiator's completion, 3 sending, 4 receiving
            Chain pa = public_chain(A.get()), pb = public_chain(B.get()); tw::End a, b; a.create("initiator", A.get(), pin ? pb.get() : nullptr, evo, fe()); b.create("responder", B.get(), pin ? pa.get() : nullptr, evo, fe()); if (!a.t || !b.t) { bad("endpoint not created"); return true; }
            auto step = [&](int i, auto f) { if (i == where) { Arm arm; f(); } else f(); Transport k(wickr_transport_ctx_copy(a.t.get())), l(wickr_transport_ctx_copy(b.t.get())); if (!k || !l) bad("an endpoint cannot be copied after a failed step"); }; auto sane = [&](bool ok) { if (!a.bad.empty()) bad("%s", a.bad.c_str()); if (!b.bad.empty()) bad("%s", b.bad.c_str()); return ok; };
            step(0, [&] { a.start(); }); if (a.out.empty()) { if (!a.error()) bad("nothing sent and no error"); return sane(false); } Bytes p = a.pop(); step(1, [&] { b.recv(p); }); if (b.out.empty()) { if (!b.error()) bad("no answer and no error"); return sane(false); } p = b.pop(); step(2, [&] { a.recv(p); }); if (!a.active()) { if (!a.error()) bad("neither active nor in error"); return sane(false); }
            for (int i = 0; i < 2; i++) { Bytes m = i ? m2 : m1; size_t had = b.got.size(); step(i ? 3 : 9, [&] { a.send(m); }); if (a.out.empty()) { if (!a.error()) bad("nothing sent and no error"); return sane(false); } p = a.pop(); step(i ? 4 : 9, [&] { b.recv(p); }); if (b.got.size() == had) { if (!b.error()) bad("neither delivered nor an error"); return sane(false); } if (b.got.back() != m) bad("other data delivered"); } return sane(!a.error() && !b.error());
        };);
    return v;
}
// every copy, serialization and parse of every type (only memory can fail)
static void type_op(Case &c, World &w, std::string &name) {
    auto &ts = objs::types(); const Type &t = ts[c.draw(ts.size() - 1)]; auto o = std::make_shared<Any>(&t, t.gen(c)); w.args.push_back([o] { return o->dump(); }); unsigned k = t.ser ? (unsigned)c.draw(2) : 0;
    static const char *n[] = {"copying a ", "serializing a ", "parsing a "}; name = std::string(n[k]) + t.name; if (k == 2 && !t.parse) k = 1, name = std::string(n[1]) + t.name;
    if (k == 0) w.run = [=]() -> bool { Any r(o->t, FAULTY(o->t->copy(o->p))); if (r && r.dump() != o->dump()) bad("the copy of a %s made under failing allocations differs: %s", o->t->name, objs::first_difference(o->dump(), r.dump()).c_str()); return (bool)r; };
    else if (k == 1) { Buf ref_(t.ser(o->p)); Bytes want = to(ref_); w.run = [=]() -> bool { Buf r(FAULTY(o->t->ser(o->p))); if (r && to(r) != want) bad("a %s serialized under failing allocations differs", o->t->name); return (bool)r; }; }
    else { auto b = arg(w, take(t.ser(o->p))); Any p0(&t, t.parse(b)); if (!p0) { w.run = nullptr; return; } std::string want = p0.dump(); w.run = [=]() -> bool { Any r(o->t, FAULTY(o->t->parse(b))); if (r && r.dump() != want) bad("a %s parsed under failing allocations differs: %s", o->t->name, objs::first_difference(want, r.dump()).c_str()); return (bool)r; }; }
}
static void run_case(Case &c, bool memory) {
    vf_fast_kdf = 1; F = Fault(); tw::gate() = &F.armed; g_bad[0] = 0; World w; std::string name; uint64_t seed = c.draw(~0ull); bool types = memory && c.chance(1, 3);
    if (types) { type_op(c, w, name); if (!w.run) return; } else { auto &o = ops()[c.draw(ops().size() - 1)]; name = o.name; o.make(c, w); }
    auto dump = [&] { std::string s; for (auto &f : w.args) s += f() + "; "; return s; }; std::string before = dump(), l, after;
    auto again = [&](bool &ok) { rng().reseed(seed); tw::hmac_budget() = 1 << 16; F.n = F.n_engine = F.n_random = F.n_memory = 0; F.fired = false; g_out.clear(); ok = w.run(); };
    bool ok; again(ok); CHECK(c, !*g_bad, "%s: %s", name.c_str(), g_bad); CHECK(c, ok, "%s fails without any fault", name.c_str()); std::string result = g_out; long ne = F.n_engine, nr = F.n_random, nm = F.n_memory;
    Kind k = memory ? MEMORY : c.draw(1) ? RANDOM : PRIMITIVE; if (k == RANDOM && !nr) k = PRIMITIVE; if (k == PRIMITIVE && !ne) k = RANDOM; long n = k == MEMORY ? nm : k == PRIMITIVE ? ne : nr; if (!n) { c.label("no such step"); return; }
    F.kind = k; F.at = (long)c.draw((uint64_t)n - 1); F.sticky = c.draw(1); bool fired = false; std::string what, result2;
    l = leak::check([&] { again(ok); fired = F.fired; }); result2 = g_out; what = F.what; F.kind = NONE; after = dump();
    const char *kinds[] = {"", "engine call", "request for random bytes", "allocation"}; std::string at = name + " with " + kinds[k] + " " + std::to_string(F.at + 1) + " of " + std::to_string(n) + (F.sticky ? " and all later ones" : "") + " (" + what + ") failing";
    CHECK(c, !*g_bad, "%s: %s", at.c_str(), g_bad); CHECK(c, fired, "%s: not reached", at.c_str()); if (ok && !(w.tolerant && (k == MEMORY || what == "wickr_crypto_engine_digest"))) { CHECK(c, !result.empty() && k != RANDOM, "%s still reports success", at.c_str()); CHECK(c, result == result2, "%s reports success with another result: %s", at.c_str(), objs::first_difference(result, result2).c_str()); }
    CHECK(c, l.empty(), "%s leaves memory behind: %s", at.c_str(), l.c_str()); CHECK(c, before == after, "%s changed its arguments: %s", at.c_str(), objs::first_difference(before, after).c_str());
    again(ok); CHECK(c, !*g_bad, "%s, repeated without the fault: %s", at.c_str(), g_bad); CHECK(c, ok, "%s; repeated without the fault it fails", at.c_str());
    c.nontrivial(); c.label(name + (ok ? "" : "")); c.label(what); c.note("%s: reported", at.c_str());
}
PROP(C29, faults, 12000, 300000) { run_case(c, false); }
PROP(C30, memory, 12000, 200000) { run_case(c, true); }
