// C12: every serializable object round-trips without loss, in the documented format
#include "objs.h"
#include "wire.h"
using namespace ref;

using namespace wirefmt;
static const std::vector<const objs::Type *> &serializable() { static std::vector<const objs::Type *> v; if (v.empty()) for (auto &t : objs::types()) if (t.ser) v.push_back(&t); return v; }
static objs::Any parse(const objs::Type &t, const void *orig, const wickr_buffer_t *b) {
    if (t.parse) return objs::Any(&t, t.parse(b));
    if (!strcmp(t.name, "EC key")) return objs::Any(&t, ENG.wickr_crypto_engine_ec_key_import(b, ((wickr_ec_key_t *)orig)->pri_data != nullptr));
    DevInfo d(wickr_dev_info_copy(((wickr_ctx_t *)orig)->dev_info)); wickr_ctx_t *x = wickr_ctx_create_from_buffer(ENG, d.get(), b); if (x) d.release(); return objs::Any(&t, x);
}
static void normalize(const objs::Type &t, objs::Any &a) { // what the form is documented not to carry
    if (!strcmp(t.name, "context")) ((wickr_ctx_t *)a.p)->pkt_enc_version = CURRENT_PACKET_VERSION;
}

PROP(C12, roundtrip, 120000, 3000000) {
    const auto &t = *serializable()[c.draw(serializable().size() - 1)]; objs::Any a(&t, t.gen(c)); CHECK(c, a, "generating a %s failed", t.name); c.label(t.name);
    std::string before = a.dump(); Buf s(t.ser(a.p)); CHECK(c, s, "a %s does not serialize: %s", t.name, a.dump().c_str()); CHECK(c, a.dump() == before, "serializing changed the %s", t.name);
    Bytes bytes = to(s), want = wire(t.name, a.p); CHECK(c, bytes == want, "%s serializes to %s, its documented form is %s", t.name, hex(bytes, 400).c_str(), hex(want, 400).c_str());
    View v(bytes); objs::Any b = parse(t, a.p, v); CHECK(c, b, "a serialized %s does not parse back: %s", t.name, hex(bytes, 400).c_str()); CHECK(c, v.bytes() == bytes, "parsing changed its input");
    normalize(t, a); std::string da = a.dump(t.pub, false), db = b.dump(t.pub, false); CHECK(c, da == db, "%s changed by a round trip: %s", t.name, objs::first_difference(da, db).c_str());
    if (t.pub) { objs::Collect cl; t.visit(cl, b.p); CHECK(c, cl.priv == 0, "a %s parsed from its public form has private key data", t.name); }
    Buf s2(t.ser(b.p)); CHECK(c, s2 && to(s2) == bytes, "re-serializing the parsed %s gives other bytes", t.name);
    c.nontrivial(); c.note("%s, %zu bytes", t.name, bytes.size());
}

// Bytes that are not the library's own output: whatever is accepted must itself be a value that round-trips.
PROP(C12, accepted, 120000, 4000000) {
    const auto &t = *serializable()[c.draw(serializable().size() - 1)]; objs::Any a(&t, t.gen(c)); Buf s(t.ser(a.p)); Bytes bytes = to(s); int n = 1 + (int)c.draw(2); for (int i = 0; i < n; i++) c.mutate(bytes);
    bool changed = bytes != to(s); View v(bytes); objs::Any b = parse(t, a.p, v); if (!b) { if (!changed) c.fail("unchanged %s does not parse", t.name); c.label(std::string(t.name) + " refused"); c.nontrivial(); return; }
    Buf s1(t.ser(b.p)); if (!s1) { c.label(std::string(t.name) + " accepted, too large to serialize"); return; } View v1(to(s1)); objs::Any d = parse(t, b.p, v1); CHECK(c, d, "a %s accepted from bytes serializes to bytes it does not accept: %s", t.name, hex(to(s1), 200).c_str());
    std::string x = b.dump(t.pub, false), y = d.dump(t.pub, false); CHECK(c, x == y, "%s accepted from bytes changes by a round trip: %s", t.name, objs::first_difference(x, y).c_str()); Buf s2(t.ser(d.p)); CHECK(c, s2 && to(s2) == to(s1), "%s re-serializes differently", t.name);
    if (changed) c.nontrivial(); c.label(std::string(t.name) + " accepted");
}

// Values at and beyond the limits of a format are refused somewhere, never silently altered.
PROP(C12, limits, 30000, 800000) {
    unsigned k = (unsigned)c.draw(8); const objs::Type *t = nullptr; objs::Any a; bool fits = true; wickr_buffer_t *nul = nullptr;
    switch (k) {
        case 0: { size_t n = (size_t)c.range(136, 300); if (c.chance(1, 4)) n = 256 + (size_t)c.draw(141); t = &objs::type("signature"); a = objs::Any(t, wickr_ecdsa_result_create(EC_CURVE_NIST_P521, gen_digest(c), mk(c.blob(n)))); fits = n <= 141; break; }
        case 1: { uint32_t n = c.draw(1) ? 32768 + (uint32_t)c.edge(~0u - 32768) : (uint32_t)c.edge(40000); if (c.chance(1, 6)) n = 0; CipherKey ck = gen_cipher_key(c, CIPHER_AES256_GCM); Bytes ev = c.blob1(40); Buf e(mk(ev)); t = &objs::type("stream key"); wickr_stream_key_t *sk = wickr_stream_key_create(ck.get(), e.get(), n); fits = n >= PACKET_PER_EVO_MIN && n <= PACKET_PER_EVO_MAX; if (sk) { ck.release(); e.release(); } a = objs::Any(t, sk); break; }
        case 2: { size_t n = (size_t)c.range(120, 300); EcKey ek = gen_ec_key(c); Buf ib(mk(c.blob(n))); bool node = c.draw(1); Sig s = node ? objs::g_sig(c) : Sig(); t = &objs::type("identity"); wickr_identity_t *i = wickr_identity_create(node ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT, ib.get(), ek.get(), s.get()); if (i) { ib.release(); ek.release(); s.release(); } a = objs::Any(t, i); fits = n < MAX_IDENTIFIER_LEN; break; }
        case 3: { uint8_t ver = (uint8_t)c.edge(255); t = &objs::type("packet"); Sig s(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, mk(c.blob(100)))); a = objs::Any(t, wickr_packet_create(ver, mk(c.blob1(50)), s.release())); fits = ver >= 2 && ver <= 4; break; }
        case 4: { wickr_digest_t d = gen_digest(c); t = &objs::type("packet"); Sig s(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, d, mk(c.blob(100)))); a = objs::Any(t, wickr_packet_create(4, mk(c.blob1(50)), s.release())); fits = d.digest_id == DIGEST_ID_SHA512; break; }
        case 5: { t = &objs::type("root keys"); EcKey ek = gen_ec_key(c); bool pub = c.draw(1); if (pub) ek = pub_only(ek.get()); a = objs::Any(t, wickr_root_keys_create(ek.release(), objs::g_ckey(c).release(), objs::g_ckey(c).release())); fits = !pub; break; }
        case 6: { t = &objs::type("private identity chain"); int r = (int)c.draw(1), n = (int)c.draw(1); Identity ri = objs::g_identity(c, 0, r), ni = objs::g_identity(c, 1, n); a = objs::Any(t, wickr_identity_chain_create(ri.release(), ni.release())); fits = r && n; break; }
        case 7: { t = &objs::type("key exchange set"); EcKey ek = gen_ec_key(c); EcKey p = pub_only(ek.get()); a = objs::Any(t, wickr_key_exchange_set_create(p.release(), wickr_exchange_array_new((uint32_t)c.draw(2)))); fits = false; break; }
        case 8: { t = &objs::type("context"); DevInfo d = objs::g_dev(c); int pr = (int)c.draw(1); Chain ch = objs::g_chain(c, pr); StorageKeys s = objs::g_storage(c); a = objs::Any(t, wickr_ctx_create(ENG, d.release(), ch.release(), s.release())); fits = pr; break; }
    }
    c.label(t->name); (void)nul; c.nontrivial();
    if (!a) { CHECK(c, !fits, "a %s within its limits is refused at construction (kind %u)", t->name, k); c.label("refused-create"); return; }
    Buf s(t->ser(a.p)); if (!s) { CHECK(c, !fits, "a %s within its limits does not serialize (kind %u)", t->name, k); c.label("refused-serialize"); return; }
    View v(to(s)); objs::Any b = parse(*t, a.p, v); if (!b) { CHECK(c, !fits, "a %s within its limits does not parse back (kind %u)", t->name, k); c.label("refused-parse"); return; }
    normalize(*t, a); std::string x = a.dump(t->pub, false), y = b.dump(t->pub, false); CHECK(c, x == y, "%s silently altered by serialization: %s", t->name, objs::first_difference(x, y).c_str()); c.label("fits");
}

// The kdf, cipher and digest identifiers on the wire select exactly the algorithm they name.
PROP(C12, transport_meta, 30000, 600000) {
    wickr_transport_packet_meta_t m; memset(&m, 0, sizeof m); bool data = c.draw(1); auto mac = (wickr_transport_packet_mac_type)c.draw(2); uint64_t v = c.edge(~0ull), fl = c.edge(~0ull);
    if (data) wickr_transport_packet_meta_initialize_data(&m, v, mac); else { wickr_transport_packet_meta_initialize_handshake(&m, (uint8_t)v, mac); CHECK(c, m.body_meta.handshake.flags == 0, "fresh handshake meta has flags"); m.body_meta.handshake.flags = fl; }
    CHECK(c, m.mac_type == mac && m.body_type == (data ? TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT : TRANSPORT_PAYLOAD_TYPE_HANDSHAKE), "meta types");
    Bytes want = {(uint8_t)((data ? 1 : 0) << 4 | mac)}; want[0] = (uint8_t)(m.body_type << 4 | mac); if (data) want = cat(want, le64(v)); else { want.push_back((uint8_t)v); want = cat(want, le64(fl)); }
    Buf s(wickr_transport_packet_meta_serialize(&m)); CHECK(c, s && to(s) == want, "meta serializes to %s, expected %s", hex(to(s)).c_str(), hex(want).c_str());
    Bytes in = cat(want, c.blob_upto(20)); size_t cut = c.chance(1, 3) ? c.size(in.size()) : in.size(); in.resize(cut); View iv(in); wickr_transport_packet_meta_t o; memset(&o, 0xEE, sizeof o); int r = wickr_transport_packet_meta_initialize_buffer(&o, iv);
    if (cut < want.size()) CHECK(c, r <= 0, "truncated meta accepted"); else { CHECK(c, r == (int)want.size(), "meta parse returned %d, its length is %zu", r, want.size()); CHECK(c, o.body_type == m.body_type && o.mac_type == m.mac_type, "types"); if (data) CHECK(c, o.body_meta.data.sequence_number == v, "sequence"); else CHECK(c, o.body_meta.handshake.flags == fl && o.body_meta.handshake.protocol_version == (uint8_t)v, "handshake fields"); }
    if (v) c.nontrivial(); c.label(data ? "data" : "handshake");
}

// An object holds exactly the values it was created from.
PROP(C12, constructed, 40000, 1000000) {
    unsigned k = (unsigned)c.draw(14); const char *what = "";
    auto is = [&](const char *field, const wickr_buffer_t *b, const Bytes &want) { CHECK(c, b && to(b) == want, "the %s of a new %s is %s instead of %s", field, what, b ? hex(to(b)).c_str() : "missing", hex(want).c_str()); };
    auto num = [&](const char *field, uint64_t v, uint64_t want) { CHECK(c, v == want, "the %s of a new %s is %llu instead of %llu", field, what, (unsigned long long)v, (unsigned long long)want); };
    auto none = [&](const char *field, const void *p) { CHECK(c, !p, "a new %s has a %s that was not given", what, field); };
    auto made = [&](bool ok) { CHECK(c, ok, "creating a %s failed", what); c.label(what); };
    const wickr_cipher_t &ci = gen_cipher(c); Bytes a = c.data1(60), b = c.data1(60), d = c.data1(60), e = c.data1(60); uint64_t n = c.edge(~0ull), m = c.edge(~0ull);
    auto cipher = [&](const wickr_cipher_t &x) { CHECK(c, x.cipher_id == ci.cipher_id && x.key_len == ci.key_len && x.iv_len == ci.iv_len && x.auth_tag_len == ci.auth_tag_len && x.is_authenticated == ci.is_authenticated, "a new %s has another cipher", what); };
    auto ckey = [&](Bytes &out) { out = c.blob(ci.key_len); return wickr_cipher_key_create(ci, mk(out)); };
    switch (k) {
        case 0: { what = "cipher result"; Bytes iv = c.blob(ci.iv_len), tag = c.blob(16); bool t = ci.is_authenticated; CipherRes r(wickr_cipher_result_create(ci, mk(iv), mk(a), t ? mk(tag) : nullptr)); made((bool)r); cipher(r->cipher); is("IV", r->iv, iv); is("ciphertext", r->cipher_text, a); if (t) is("tag", r->auth_tag, tag); else none("tag", r->auth_tag); break; }
        case 1: { what = "cipher key"; Bytes kb; CipherKey r(ckey(kb)); made((bool)r); cipher(r->cipher); is("key", r->key_data, kb); CipherKey q(ENG.wickr_crypto_engine_cipher_key_random(ci)); what = "random cipher key"; made((bool)q); cipher(q->cipher); num("length", q->key_data->length, ci.key_len); break; }
        case 2: { what = "device info"; bool sys = c.chance(3, 4); DevInfo r(wickr_dev_info_create(mk(a), sys ? mk(b) : nullptr, mk(d), mk(e))); made((bool)r); is("device salt", r->dev_salt, a); if (sys) is("system salt", r->system_salt, b); else none("system salt", r->system_salt); is("message protocol id", r->msg_proto_id, d); is("server communication id", r->srv_comm_id, e); break; }
        case 3: { what = "signature"; wickr_digest_t dg = gen_digest(c); Sig r(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, dg, mk(a))); made((bool)r); is("data", r->sig_data, a); num("digest", r->digest_mode.digest_id, dg.digest_id); num("digest size", r->digest_mode.size, dg.size); num("curve", r->curve.identifier, EC_CURVE_NIST_P521.identifier); break; }
        case 4: { what = "EC key"; bool pri = c.draw(1); EcKey r(wickr_ec_key_create(EC_CURVE_NIST_P521, mk(a), pri ? mk(b) : nullptr)); made((bool)r); is("public half", r->pub_data, a); if (pri) is("private half", r->pri_data, b); else none("private half", r->pri_data); num("curve", r->curve.identifier, EC_CURVE_NIST_P521.identifier); break; }
        case 5: { what = "message key pair"; EcKey key = objs::g_key(c); Bytes pub = to(key->pub_data), pri = to(key->pri_data); Sig s = c.draw(1) ? objs::g_sig(c) : Sig(); Bytes sd = s ? to(s->sig_data) : Bytes(); bool has = (bool)s; EphKey r(wickr_ephemeral_keypair_create(n, key.release(), s.release())); made((bool)r); num("identifier", r->identifier, n); is("public half", r->ec_key->pub_data, pub); CHECK(c, to(r->ec_key->pri_data) == pri, "another private half"); if (has) is("signature", r->signature->sig_data, sd); else none("signature", r->signature); break; }
        case 6: { what = "identity"; bool node = c.draw(1); EcKey key = objs::g_key(c); Bytes id = c.blob1(127), pub = to(key->pub_data), pri = to(key->pri_data); Sig s = node ? objs::g_sig(c) : Sig(); Bytes sd = s ? to(s->sig_data) : Bytes(); Identity r(wickr_identity_create(node ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT, mk(id), key.release(), s.release())); made((bool)r); num("type", r->type, node ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT); is("identifier", r->identifier, id); is("public half", r->sig_key->pub_data, pub); CHECK(c, to(r->sig_key->pri_data) == pri, "another private half"); if (node) is("signature", r->signature->sig_data, sd); else none("signature", r->signature); break; }
        case 7: { what = "KDF metadata"; wickr_kdf_algo_t al = c.draw(1) ? KDF_SCRYPT_2_17 : KDF_HKDF_SHA512; bool scr = al.algo_id != KDF_HMAC_SHA2, info = c.draw(1), salt = scr || !info || c.draw(1); if (scr) a = c.blob(al.salt_size); KdfMeta r(wickr_kdf_meta_create(al, salt ? mk(a) : nullptr, info ? mk(b) : nullptr)); made((bool)r); num("algorithm", r->algo.kdf_id, al.kdf_id); num("cost", r->algo.cost, al.cost); num("output size", r->algo.output_size, al.output_size); if (salt) is("salt", r->salt, a); else none("salt", r->salt); if (info) is("info", r->info, b); else none("info", r->info); break; }
        case 8: { what = "key exchange"; CipherRes x(wickr_cipher_result_create(CIPHER_AES256_CTR, mk(c.blob(16)), mk(b), nullptr)); KeyEx r(wickr_key_exchange_create(mk(a), n, x.release())); made((bool)r); is("recipient", r->exchange_id, a); num("key id", r->key_id, n); is("ciphertext", r->exchange_ciphertext->cipher_text, b); break; }
        case 9: { what = "packet metadata"; uint16_t ct = (uint16_t)c.edge(65535); PktMeta r(wickr_packet_meta_create(wickr_ephemeral_info_t{n, m}, mk(a), ct)); made((bool)r); num("time to live", r->ephemerality_settings.ttl, n); num("burn on read time", r->ephemerality_settings.bor, m); is("channel tag", r->channel_tag, a); num("content type", r->content_type, ct);
            what = "payload"; Payload p(wickr_payload_create(r.release(), mk(b))); made((bool)p); is("body", p->body, b); num("content type", p->meta->content_type, ct); break; }
        case 10: { what = "packet"; uint8_t ver = 2 + (uint8_t)c.draw(2); Sig s(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, mk(b))); Packet r(wickr_packet_create(ver, mk(a), s.release())); made((bool)r); num("version", r->version, ver); is("content", r->content, a); is("signature", r->signature->sig_data, b); break; }
        case 11: { what = "root keys"; EcKey key = gen_ec_key(c); Bytes pri = to(key->pri_data), k1, k2; CipherKey x(ckey(k1)), y(ckey(k2)); RootKeys r(wickr_root_keys_create(key.release(), x.release(), y.release())); made((bool)r); is("signing key", r->node_signature_root->pri_data, pri); is("node storage key", r->node_storage_root->key_data, k1); is("remote storage key", r->remote_storage_root->key_data, k2); break; }
        case 12: { what = "storage keys"; Bytes k1, k2; CipherKey x(ckey(k1)), y(ckey(k2)); StorageKeys r(wickr_storage_keys_create(x.release(), y.release())); made((bool)r); is("local key", r->local->key_data, k1); is("remote key", r->remote->key_data, k2); break; }
        case 13: { what = "stream key"; Bytes k1 = c.blob(32); uint32_t per = 1 + (uint32_t)c.edge(32767); StreamKey r(wickr_stream_key_create(wickr_cipher_key_create(CIPHER_AES256_GCM, mk(k1)), mk(a), per)); made((bool)r); is("key", r->cipher_key->key_data, k1); is("evolution key", r->evolution_key, a); num("interval", r->packets_per_evolution, per); break; }
        default: { what = "transport root key"; uint32_t s = (uint32_t)n, t = (uint32_t)m; Bytes sec = c.blob(ci.key_len); TRootKey r(wickr_transport_root_key_create(mk(sec), ci, s, t)); made((bool)r); is("secret", r->secret, sec); cipher(r->cipher); num("sending interval", r->packets_per_evo_send, s); num("receiving interval", r->packets_per_evo_recv, t);
            what = "random transport root key"; TRootKey q(wickr_transport_root_key_create_random(&ENG, ci, s, t)); made((bool)q); cipher(q->cipher); num("length", q->secret->length, ci.key_len); num("sending interval", q->packets_per_evo_send, s); num("receiving interval", q->packets_per_evo_recv, t); TRootKey q2(wickr_transport_root_key_create_random(&ENG, ci, s, t)); CHECK(c, q2 && to(q2->secret) != to(q->secret), "two random transport root keys are equal"); break; }
    }
    c.nontrivial();
}

// A form that lacks one of its fields is refused, or gives an object that lacks exactly that field: parsing invents nothing.
struct Field { size_t at, len, body, blen; };
static bool fields(const Bytes &b, size_t from, size_t to_, std::vector<Field> &out) {
    out.clear(); size_t i = from; auto varint = [&](uint64_t &v) { v = 0; for (int s = 0; i < to_ && s < 70; s += 7) { uint8_t x = b[i++]; if (s < 64) v |= (uint64_t)(x & 127) << s; if (!(x & 128)) return true; } return false; };
    while (i < to_) { Field f; f.at = i; uint64_t tag, v; if (!varint(tag) || tag < 8) return false; f.body = i; f.blen = 0; switch (tag & 7) { case 0: if (!varint(v)) return false; break; case 2: if (!varint(v) || v > to_ - i) return false; f.body = i; f.blen = (size_t)v; i += (size_t)v; break; default: return false; } f.len = i - f.at; out.push_back(f); }
    return !out.empty();
}
static Bytes without(Case &c, const Bytes &b, int depth, std::string &path) {
    std::vector<Field> fs; if (!fields(b, 0, b.size(), fs)) return Bytes(); const Field &f = fs[c.draw(fs.size() - 1)]; path += "." + std::to_string(b[f.at] >> 3); Bytes r(b.begin(), b.begin() + (long)f.at);
    if (depth > 0 && f.blen && c.draw(1)) { Bytes in = without(c, Bytes(b.begin() + (long)f.body, b.begin() + (long)(f.body + f.blen)), depth - 1, path); if (!in.empty()) r = cat(r, pb_bytes(b[f.at] >> 3, in)); else return Bytes(); }
    return cat(r, Bytes(b.begin() + (long)(f.at + f.len), b.end()));
}
PROP(C12, missing, 40000, 1000000) {
    const auto &t = *serializable()[c.draw(serializable().size() - 1)]; objs::Any a(&t, t.gen(c)); Buf s(t.ser(a.p)); Bytes bytes = to(s); std::string path; std::vector<Field> fs; if (!fields(bytes, 0, bytes.size(), fs)) { c.label("no fields"); return; }
    Bytes less = without(c, bytes, 3, path); if (less.empty()) { c.label("no fields"); return; } View v(less); objs::Any b = parse(t, a.p, v); c.nontrivial(); c.note("%s without %s", t.name, path.c_str()); if (!b) { c.label(std::string(t.name) + " refused"); return; }
    Buf s1(t.ser(b.p)); std::string n = t.name;
    if (n == "payload" && path == ".3.3") { CHECK(c, ((wickr_payload_t *)b.p)->meta->content_type == 0, "a payload without a content type has type %u", ((wickr_payload_t *)b.p)->meta->content_type); c.label("the default content type"); return; }
    if ((n == "identity" ? path == ".5" : n == "identity chain" ? path == ".1.5" || path == ".2.5" : n == "node" && (path == ".2.1.5" || path == ".2.2.5"))) { CHECK(c, s1 && to(s1) == bytes, "a public %s without its privacy flag is accepted as %s instead of %s", t.name, s1 ? hex(to(s1), 200).c_str() : "nothing", hex(bytes, 200).c_str()); c.label("public by default"); return; }
    if (!s1 && (n == "identity" ? path == ".3" : n == "node" || n == "context" ? path == ".2.2.3" : n == "identity chain" || n == "private identity chain" ? path == ".2.3" : false)) { c.label("an unsigned node identity"); return; }
    CHECK(c, s1 && to(s1) == less, "a %s without its field %s is accepted as one that serializes to %s instead of %s", t.name, path.c_str(), s1 ? hex(to(s1), 200).c_str() : "nothing", hex(less, 200).c_str()); c.label(std::string(t.name) + " without " + path);
}
