// C28: device ids and storage keys derive deterministically and stay device-bound
#include "common.h"

static void check_dev(Case &c, const wickr_dev_info_t *d, const Bytes &salt, const Bytes &sys, const char *how) {
    Bytes h = ref::sha(512, cat(sys, salt));
    CHECK(c, to(d->dev_salt) == salt, "%s: device salt", how); CHECK(c, to(d->system_salt) == ref::sha(256, sys), "%s: system salt is %s", how, S(d->system_salt).c_str());
    CHECK(c, to(d->msg_proto_id) == Bytes(h.begin(), h.begin() + 32) && to(d->srv_comm_id) == Bytes(h.begin() + 32, h.end()), "%s: ids %s / %s are not the documented hash %s", how, S(d->msg_proto_id).c_str(), S(d->srv_comm_id).c_str(), hex(h, 64).c_str());
}
PROP(C28, devinfo, 150000, 5000000) {
    Bytes salt = c.data1(c.chance(1, 10) ? 500 : 80), sys = c.data1(c.chance(1, 10) ? 2000 : 100); View sv(sys);
    DevInfo d(wickr_dev_info_derive(&ENG, mk(salt), sv)); CHECK(c, d, "derivation failed for salt %zu, system id %zu", salt.size(), sys.size()); check_dev(c, d.get(), salt, sys, "derived"); CHECK(c, sv.bytes() == sys, "input changed");
    Bytes salt2 = salt, sys2 = sys; unsigned k = (unsigned)c.draw(2); if (k == 0) c.tamper(salt2); else if (k == 1) c.tamper(sys2); else if (sys2.size() > 1) { salt2.insert(salt2.begin(), sys2.back()); sys2.pop_back(); }
    if (salt2.empty() || sys2.empty()) return; View s2(sys2); DevInfo e(wickr_dev_info_derive(&ENG, mk(salt2), s2)); CHECK(c, e, "second derivation"); check_dev(c, e.get(), salt2, sys2, "second");
    // moving a byte from the system id to the salt keeps the hash input, but never the private system salt
    if (k == 0 && salt2 != salt) CHECK(c, to(e->msg_proto_id) != to(d->msg_proto_id) && to(e->srv_comm_id) != to(d->srv_comm_id), "ids do not depend on the device salt");
    if (k == 1 && sys2 != sys) CHECK(c, to(e->msg_proto_id) != to(d->msg_proto_id) && to(e->system_salt) != to(d->system_salt), "ids do not depend on the system id");
    if (sys2 != sys) CHECK(c, to(e->system_salt) != to(d->system_salt), "system salt does not depend on the system id");
    DevInfo n(wickr_dev_info_create_new(&ENG, sv)), m(wickr_dev_info_create_new(&ENG, sv)); CHECK(c, n && m && n->dev_salt->length == 64, "new device info"); check_dev(c, n.get(), to(n->dev_salt), sys, "new"); CHECK(c, to(n->dev_salt) != to(m->dev_salt) && eq(n->system_salt, m->system_salt) && !eq(n->msg_proto_id, m->msg_proto_id), "two new devices on one system");
    DevInfo cp(wickr_dev_info_copy(n.get())); CHECK(c, same(cp.get(), n.get()), "copy");
    Buf keep(mk(salt)); DevInfo x(wickr_dev_info_derive(nullptr, keep.get(), sv)), y(wickr_dev_info_derive(&ENG, nullptr, sv)), z(wickr_dev_info_derive(&ENG, keep.get(), nullptr)), w(wickr_dev_info_create_new(&ENG, nullptr)), v(wickr_dev_info_create_new(nullptr, sv)); CHECK(c, !x && !y && !z && !w && !v && to(keep) == salt, "missing argument accepted");
    c.nontrivial(); c.label(k == 0 ? "other-salt" : k == 1 ? "other-system" : "moved-byte"); c.note("salt %zu, system id %zu, kind %u", salt.size(), sys.size(), k);
}

static RootKeys gen_root(Case &c) { EcKey k = gen_ec_key(c); const wickr_cipher_t &c1 = c.chance(5, 6) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR, &c2 = c.chance(5, 6) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR; CipherKey a = gen_cipher_key(c, c1), b = gen_cipher_key(c, c2); return RootKeys(wickr_root_keys_create(k.release(), a.release(), b.release())); }

PROP(C28, localize, 100000, 3000000) {
    RootKeys rk = gen_root(c); Bytes s1 = c.data1(60), s2 = c.chance(1, 3) ? s1 : c.data1(60), ds = c.data1(70), ds2 = c.data1(70); View v1(s1), v2(s2); DevInfo d1(wickr_dev_info_derive(&ENG, mk(ds), v1)), d2(wickr_dev_info_derive(&ENG, mk(ds2), v2)); RootKeys before(wickr_root_keys_copy(rk.get()));
    StorageKeys a(wickr_root_keys_localize(rk.get(), &ENG, d1.get())), b(wickr_root_keys_localize(rk.get(), &ENG, d2.get())); CHECK(c, a && b, "localization failed"); CHECK(c, same(rk.get(), before.get()), "root keys changed");
    for (int i = 0; i < 2; i++) { auto *k = i ? b.get() : a.get(); Bytes want = ref::sha(256, cat(to(rk->node_storage_root->key_data), ref::sha(256, i ? s2 : s1))); CHECK(c, to(k->local->key_data) == want && same(k->local->cipher, rk->node_storage_root->cipher), "local storage key is %s, documented derivation gives %s", S(k->local->key_data).c_str(), hex(want).c_str()); CHECK(c, same(k->remote, rk->remote_storage_root) && k->remote->key_data->bytes != rk->remote_storage_root->key_data->bytes, "remote storage key is not the root's"); }
    { Bytes salt = c.data1(c.draw(1) ? 200 : 60); DevInfo d(wickr_dev_info_create(mk(ds), mk(salt), mk(c.blob1(20)), mk(c.blob1(20)))); StorageKeys k(wickr_root_keys_localize(rk.get(), &ENG, d.get())); CHECK(c, k && to(k->local->key_data) == ref::sha(256, cat(to(rk->node_storage_root->key_data), salt)) && same(k->remote, rk->remote_storage_root), "localization for a system salt of %zu bytes is not the documented derivation", salt.size()); }
    CHECK(c, same(a->local, b->local) == (s1 == s2), "local key depends on something else than root key and system (%s)", s1 == s2 ? "same system, other key" : "other system, same key");
    RootKeys r2 = gen_root(c); StorageKeys o(wickr_root_keys_localize(r2.get(), &ENG, d1.get())); CHECK(c, o && eq(o->local->key_data, a->local->key_data) == eq(r2->node_storage_root->key_data, rk->node_storage_root->key_data), "local key does not depend on the root key");
    StorageKeys x(wickr_root_keys_localize(nullptr, &ENG, d1.get())), y(wickr_root_keys_localize(rk.get(), &ENG, nullptr)); CHECK(c, !x && !y, "missing argument accepted");
    c.nontrivial(); c.label(s1 == s2 ? "same-system" : "two-systems"); c.note("systems %zu/%zu bytes", s1.size(), s2.size());
}

// Contexts provisioned from one set of root keys on several devices: what opens what.
PROP(C28, stores, 12000, 300000) {
    EcKey sk = gen_ec_key(c); RootKeys rk(wickr_root_keys_create(sk.release(), gen_cipher_key(c, CIPHER_AES256_GCM).release(), gen_cipher_key(c, CIPHER_AES256_GCM).release())); Bytes s1 = c.data1(40), s2 = c.chance(1, 3) ? s1 : c.data1(40), id = gen_identifier(c);
    DevInfo d1 = make_devinfo(s1), d2 = make_devinfo(s2); Ctx x, y; std::string how;
    auto prov = [&](DevInfo &d) { Buf ib(mk(id)); GenRes g(wickr_ctx_gen_with_root_keys(ENG, d.get(), rk.get(), ib.get())); CHECK(c, g && g->ctx, "provisioning failed"); return Ctx(wickr_ctx_copy(g->ctx)); };
    x = prov(d1); y = prov(d2); if (c.chance(1, 2)) { StorageKeys k(wickr_root_keys_localize(rk.get(), &ENG, d1.get())); CHECK(c, same(k.get(), x->storage_keys), "the provisioned context's storage keys are not the localized root keys"); }
    Bytes p = c.data_upto(200); View pv(p); CipherRes L(wickr_ctx_cipher_local(x.get(), pv)), R(wickr_ctx_cipher_remote(x.get(), pv)); CHECK(c, L && R, "storage encryption");
    struct R_ { bool ok; Bytes b; }; auto chk = [&](wickr_buffer_t *b, bool want, const char *what) { Buf o(b); if (want) CHECK(c, p.empty() ? true : (o && to(o) == p), "%s did not give the stored data back", what); else CHECK(c, !o, "%s opened data it must not", what); };
    bool samesys = s1 == s2;
    chk(wickr_ctx_decipher_local(x.get(), L.get()), true, "local store on its own device"); chk(wickr_ctx_decipher_remote(x.get(), R.get()), true, "remote store on its own device");
    chk(wickr_ctx_decipher_remote(y.get(), R.get()), true, "remote store on another device"); chk(wickr_ctx_decipher_local(y.get(), L.get()), samesys, samesys ? "local store re-provisioned on the same system" : "local store of another device");
    bool cross = eq(x->storage_keys->local->key_data, x->storage_keys->remote->key_data);
    chk(wickr_ctx_decipher_local(x.get(), R.get()), cross, "local store on remote data"); chk(wickr_ctx_decipher_remote(x.get(), L.get()), cross, "remote store on local data"); if (!samesys) chk(wickr_ctx_decipher_local(y.get(), R.get()), eq(y->storage_keys->local->key_data, x->storage_keys->remote->key_data), "local store of another device on remote data");
    CHECK(c, to(L->cipher_text) != p || p.size() < 4, "stored in the clear"); Bytes dec; { Bytes ct, tag; ref::aes_gcm(to(x->storage_keys->local->key_data), to(L->iv), {}, p, ct, tag); CHECK(c, ct == to(L->cipher_text) && tag == to(L->auth_tag), "local store does not use the local key"); ref::aes_gcm(to(x->storage_keys->remote->key_data), to(R->iv), {}, p, ct, tag); CHECK(c, ct == to(R->cipher_text) && tag == to(R->auth_tag), "remote store does not use the remote key"); }
    CipherRes n1(wickr_ctx_cipher_local(nullptr, pv)), n2(wickr_ctx_cipher_remote(x.get(), nullptr)); CHECK(c, !n1 && !n2 && !wickr_ctx_decipher_local(x.get(), nullptr) && !wickr_ctx_decipher_remote(nullptr, R.get()), "missing argument");
    c.nontrivial(); c.label(samesys ? "same-system" : "two-systems"); c.note("plaintext %zu, same system %d", p.size(), (int)samesys);
}
