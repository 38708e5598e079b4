// C15: a stream pair delivers in sequence and rejects replays and forgeries
#include "tworld.h"
using tw::RefKey;

static bool &fail_hmac() { static bool b; return b; }
static bool &fail_cipher() { static bool b; return b; }
static wickr_buffer_t *f_hmac(const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t dg) { return fail_hmac() ? nullptr : ENG.wickr_crypto_engine_hmac_create(d, k, dg); }
static wickr_cipher_result_t *f_enc(const wickr_buffer_t *p, const wickr_buffer_t *a, const wickr_cipher_key_t *k, const wickr_buffer_t *iv) { return fail_cipher() ? nullptr : ENG.wickr_crypto_engine_cipher_encrypt(p, a, k, iv); }
static wickr_buffer_t *f_dec(const wickr_cipher_result_t *r, const wickr_buffer_t *a, const wickr_cipher_key_t *k, bool only) { return fail_cipher() ? nullptr : ENG.wickr_crypto_engine_cipher_decrypt(r, a, k, only); }
static const wickr_crypto_engine_t &engine() { static wickr_crypto_engine_t e = [] { wickr_crypto_engine_t x = ENG; x.wickr_crypto_engine_hmac_create = f_hmac; x.wickr_crypto_engine_cipher_encrypt = f_enc; x.wickr_crypto_engine_cipher_decrypt = f_dec; return x; }(); return e; }

struct Pkt { CipherRes r; Bytes data, aad; bool has_aad; uint64_t seq; int stream; };
struct Side { StreamCtx ctx; RefKey key; uint64_t last = 0; bool enc; int id; };
struct Base { Bytes key, evo, user; uint32_t per; uint64_t start = 0; };
static const uint64_t STEPS = 400; // evolutions one operation may skip

static Base gen_base(Case &c) { Base b; b.key = c.blob(32); b.evo = c.chance(3, 4) ? c.blob(32) : c.data1(200); if (c.chance(1, 3)) b.user = c.data1(40); b.per = c.chance(2, 3) ? 1 + (uint32_t)c.edge(9) : 1 + (uint32_t)c.edge(32767);
    if (c.chance(1, 3)) { uint64_t mark = c.chance(1, 8) ? UINT64_MAX : 1ull << c.range(8, 63), off = c.chance(1, 2) ? c.draw(3) : c.edge(40ull * b.per); b.start = mark > off ? mark - off : 0; } // a stream that is already under way
    return b; }
static StreamKey stream_key(Case &c, const Base &b) { CipherKey k(wickr_cipher_key_create(CIPHER_AES256_GCM, mk(b.key))); StreamKey s(wickr_stream_key_create_user_data(k.get(), mk(b.evo), b.per, mk(b.user))); CHECK(c, s, "stream key with interval %u refused", b.per); k.release(); return s; }
static Side side(Case &c, const Base &b, bool enc, int id) {
    Side s; s.enc = enc; s.id = id; s.key.key = b.key; s.key.evo = b.evo; s.key.per = b.per; StreamKey k = stream_key(c, b);
    if (c.chance(1, 4)) { Buf ser(wickr_stream_key_serialize(k.get())); CHECK(c, ser, "stream key does not serialize"); k.reset(wickr_stream_key_create_from_buffer(ser.get())); CHECK(c, k, "stream key does not parse"); }
    s.ctx.reset(wickr_stream_ctx_create(engine(), k.get(), enc ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE)); CHECK(c, s.ctx, "stream context refused"); k.release(); s.ctx->last_seq = s.last = b.start; s.key.gen = b.start / b.per; return s;
}
static void agrees(Case &c, const Side &s, const Base &b, const char *after) {
    CHECK(c, s.ctx->last_seq == s.last, "after %s the %s's last sequence number is %llu instead of %llu", after, s.enc ? "encoder" : "decoder", (unsigned long long)s.ctx->last_seq, (unsigned long long)s.last);
    CHECK(c, to(s.ctx->key->cipher_key->key_data) == s.key.key && to(s.ctx->key->evolution_key) == s.key.evo, "after %s at sequence %llu the %s's key is not the one of evolution %llu (interval %u)", after, (unsigned long long)s.last, s.enc ? "encoder" : "decoder", (unsigned long long)(s.last / b.per), b.per);
    CHECK(c, s.ctx->key->packets_per_evolution == b.per && same(s.ctx->key->cipher_key->cipher, CIPHER_AES256_GCM), "after %s the key's interval or cipher changed", after);
    CHECK(c, to(s.ctx->key->user_data) == b.user, "after %s at sequence %llu the key's user data is lost", after, (unsigned long long)s.last);
}
static Buf decode(Side &s, const wickr_cipher_result_t *r, bool has_aad, const Bytes &aad, uint64_t seq) { View a(aad); return Buf(wickr_stream_ctx_decode(s.ctx.get(), r, has_aad ? (const wickr_buffer_t *)a : nullptr, seq)); }
static uint64_t next_seq(Case &c, uint64_t last, uint32_t per) {
    uint64_t room = (uint64_t)per * STEPS, gap;
    switch (c.pick({5, 3, 2, 2})) { case 0: gap = 1; break; case 1: gap = 1 + c.draw(per + 1); break; case 2: gap = per - last % per + c.draw(2); gap = gap > 1 ? gap - c.draw(1) : gap; break; default: gap = 1 + c.edge(room - 1); }
    return gap > UINT64_MAX - last ? last : last + gap;
}

PROP(C15, histories, 26000, 900000) {
    fail_hmac() = fail_cipher() = false; Base b = gen_base(c), ob = gen_base(c); ob.per = c.draw(1) ? b.per : ob.per; if (c.chance(1, 4)) ob.evo = b.evo; if (c.chance(1, 8) || ob.key == b.key) { ob = b; ob.key[c.draw(31)] ^= 1; }
    std::vector<Side> encs, decs; encs.push_back(side(c, b, true, 0)); decs.push_back(side(c, b, false, 0)); Side oenc = side(c, ob, true, 1);
    std::vector<Pkt> log; unsigned ops = 4 + (unsigned)c.draw(c.chance(1, 6) ? 80 : 24), ok = 0, refused = 0;
    for (unsigned op = 0; op < ops; op++) {
        size_t ei = c.draw(encs.size() - 1), di = c.draw(decs.size() - 1); Side &e = encs[ei], &d = decs[di]; const char *what = "";
        unsigned k = c.pick({10, 10, 3, 3, 4, 2, 2, 2, 2, 1, 1});
        auto random_pkt = [&]() -> Pkt * { return log.empty() ? nullptr : &log[c.chance(1, 2) ? log.size() - 1 : (size_t)c.draw(log.size() - 1)]; };
        if (k == 0 || k == 6) { // encode; 6: with a failing engine
            bool other = k == 0 && c.chance(1, 8); Side &x = other ? oenc : e; const Base &xb = other ? ob : b; uint64_t seq = c.chance(1, 6) ? c.draw(std::min<uint64_t>(x.last, 1 << 20)) : next_seq(c, x.last, xb.per); if (c.chance(1, 12)) seq = x.last;
            Pkt p; p.data = c.data1(c.chance(1, 20) ? 5000 : 60); p.has_aad = c.draw(1); if (p.has_aad) p.aad = c.data1(30); p.seq = seq; p.stream = x.id; View dv(p.data), av(p.aad);
            bool evolves = seq > x.last && seq / xb.per != x.last / xb.per, hm = k == 6 && (evolves ? c.draw(1) : 0); if (k == 6) (hm ? fail_hmac() : fail_cipher()) = true;
            p.r.reset(wickr_stream_ctx_encode(x.ctx.get(), dv, p.has_aad ? (const wickr_buffer_t *)av : nullptr, seq)); fail_hmac() = fail_cipher() = false; what = k == 6 ? "a failed encoding" : "encoding";
            CHECK(c, dv.bytes() == p.data && av.bytes() == p.aad, "encoding changed its inputs");
            if (seq <= x.last || k == 6) { CHECK(c, !p.r, "encoding at sequence %llu after %llu %s", (unsigned long long)seq, (unsigned long long)x.last, k == 6 ? "succeeded without its engine" : "accepted"); refused++; what = k == 6 ? what : "a refused encoding"; c.label(k == 6 ? (hm ? "evolution fails" : "encryption fails") : "stale encode"); }
            else { CHECK(c, p.r, "encoding at sequence %llu after %llu failed", (unsigned long long)seq, (unsigned long long)x.last); if (evolves) c.label(seq / xb.per - x.last / xb.per > 1 ? "skips evolutions" : "evolves"); x.key.at(seq); x.last = seq; Bytes pt, ser = wirefmt::w(p.r.get()); CHECK(c, tw::gcm_open(x.key.key, ser, p.has_aad ? p.aad : Bytes(), pt) && pt == p.data, "the packet at sequence %llu (interval %u) does not open under the documented key", (unsigned long long)seq, xb.per); log.push_back(std::move(p)); }
            agrees(c, x, xb, what); continue;
        }
        if (k == 1 || k == 7) { // decode a genuine packet: the next one, or any; 7: with a failing engine
            Pkt *p = nullptr; if (c.chance(3, 4)) for (auto &q : log) if (q.stream == 0 && q.seq > d.last) { p = &q; if (!c.chance(1, 4)) break; } if (!p) p = random_pkt(); if (!p) continue;
            bool good = p->stream == 0 && p->seq > d.last, evolves = good && p->seq / b.per != d.last / b.per, hm = k == 7 && evolves && c.draw(1); if (p->seq > d.last && p->seq / b.per - d.last / b.per > 3 * STEPS) continue;
            if (k == 7) (hm ? fail_hmac() : fail_cipher()) = true; Buf out = decode(d, p->r.get(), p->has_aad, p->aad, p->seq); fail_hmac() = fail_cipher() = false;
            if (good && k == 1) { CHECK(c, out, "the genuine packet at sequence %llu is refused after %llu (interval %u)", (unsigned long long)p->seq, (unsigned long long)d.last, b.per); CHECK(c, to(out) == p->data, "sequence %llu decodes to other data", (unsigned long long)p->seq); d.key.at(p->seq); d.last = p->seq; ok++; what = "decoding"; }
            else { CHECK(c, !out, k == 7 ? "decoding succeeded without its engine" : p->stream ? "a packet of another stream is accepted" : "the packet at sequence %llu is accepted again after %llu", (unsigned long long)p->seq, (unsigned long long)d.last); refused++; what = k == 7 ? "a failed decoding" : "a refused packet"; c.label(k == 7 ? "decryption fails" : p->stream ? "foreign packet" : "replay"); }
            agrees(c, d, b, what); continue;
        }
        if (k == 2 || k == 3 || k == 4) { // forgeries
            Pkt *p = random_pkt(); if (!p) continue; CipherRes r(wickr_cipher_result_copy(p->r.get())); CHECK(c, r, "copy of a cipher result failed"); Bytes aad = p->aad; bool has = p->has_aad; uint64_t seq = p->seq; bool genuine = p->stream == 0;
            if (k == 2) { wickr_buffer_t *part = c.pick({1, 1, 1}) == 0 ? r->iv : c.draw(1) ? r->auth_tag : r->cipher_text; size_t i = c.draw(part->length - 1); part->bytes[i] ^= (uint8_t)(1 << c.draw(7)); genuine = false; if (c.draw(1) && seq <= d.last) seq = next_seq(c, d.last, b.per); c.label("altered packet"); }
            else if (k == 3) { if (has && c.draw(1)) { if (!c.tamper(aad)) continue; if (aad.empty()) has = false; } else if (has) { has = false; } else { has = true; aad = c.data1(10); } genuine = false; if (c.draw(1) && seq <= d.last) seq = next_seq(c, d.last, b.per); c.label("altered associated data"); }
            else { seq = next_seq(c, d.last, b.per); if (seq / b.per != p->seq / b.per) genuine = false; c.label(genuine ? "renumbered within one key" : "renumbered across keys"); }
            if (seq <= d.last) genuine = false; else if (seq / b.per - d.last / b.per > 3 * STEPS) continue;
            Buf out = decode(d, r.get(), has, aad, seq);
            if (genuine) { CHECK(c, out && to(out) == p->data, "a packet presented under another number of the same key is refused"); d.key.at(seq); d.last = seq; what = "decoding"; }
            else { CHECK(c, !out, "a forged packet is accepted at sequence %llu after %llu (%s)", (unsigned long long)seq, (unsigned long long)d.last, k == 2 ? "altered bytes" : k == 3 ? "altered associated data" : "another evolution's key"); refused++; what = "a forged packet"; }
            agrees(c, d, b, what); continue;
        }
        if (k == 5) { // copies: continue on the copy, or on both
            bool en = c.draw(1); auto &v = en ? encs : decs; Side &s = v[c.draw(v.size() - 1)]; Side n; n.enc = s.enc; n.id = s.id; n.key = s.key; n.last = s.last; n.ctx.reset(wickr_stream_ctx_copy(s.ctx.get())); CHECK(c, n.ctx, "copying a stream context failed"); CHECK(c, n.ctx->direction == s.ctx->direction && n.ctx->ref_count == 1, "the copy's direction or reference count differs"); agrees(c, n, b, "copying"); c.label("copied");
            if (v.size() < 4 && c.draw(1)) v.push_back(std::move(n)); else s = std::move(n); continue;
        }
        if (k == 8) { // wrong direction
            Pkt *p = random_pkt(); Bytes data = c.blob1(20); View dv(data); uint64_t seq = next_seq(c, d.last, b.per); CipherRes r(wickr_stream_ctx_encode(d.ctx.get(), dv, nullptr, seq)); CHECK(c, !r, "a decoding stream encodes"); agrees(c, d, b, "encoding on a decoder");
            if (p) { Buf out = decode(e, p->r.get(), p->has_aad, p->aad, next_seq(c, e.last, b.per)); CHECK(c, !out, "an encoding stream decodes"); agrees(c, e, b, "decoding on an encoder"); } c.label("wrong direction"); continue;
        }
        if (k == 9) { // missing arguments
            CHECK(c, !wickr_stream_ctx_encode(e.ctx.get(), nullptr, nullptr, e.last + 1), "encoding nothing succeeds"); CHECK(c, !wickr_stream_ctx_decode(d.ctx.get(), nullptr, nullptr, d.last + 1), "decoding nothing succeeds"); agrees(c, e, b, "encoding nothing"); agrees(c, d, b, "decoding nothing");
            Bytes x{1}; View v(x); CHECK(c, !wickr_stream_ctx_encode(nullptr, v, nullptr, 1) && !wickr_stream_ctx_copy(nullptr) && !wickr_stream_ctx_ref_up(nullptr), "a missing context is accepted"); if (!log.empty()) CHECK(c, !wickr_stream_ctx_decode(nullptr, log[0].r.get(), nullptr, 1), "a missing context decodes"); continue;
        }
        { // shared references: the context lives until every holder has destroyed it
            Side &s = c.draw(1) ? e : d; unsigned n = 1 + (unsigned)c.draw(3); for (unsigned i = 0; i < n; i++) CHECK(c, wickr_stream_ctx_ref_up(s.ctx.get()), "reference refused"); CHECK(c, s.ctx->ref_count == 1 + n, "reference count is %zu after %u references", s.ctx->ref_count, n);
            for (unsigned i = 0; i < n; i++) { wickr_stream_ctx_t *x = s.ctx.get(); wickr_stream_ctx_destroy(&x); } CHECK(c, s.ctx->ref_count == 1, "reference count is %zu after releasing every reference", s.ctx->ref_count); agrees(c, s, b, "releasing a reference"); c.label("references");
        }
    }
    // independence at the end: every decoder still reads what its position allows
    for (auto &d : decs) for (auto &p : log) if (p.stream == 0 && p.seq > d.last && p.seq / b.per - d.last / b.per <= 3 * STEPS) { Buf out = decode(d, p.r.get(), p.has_aad, p.aad, p.seq); CHECK(c, out && to(out) == p.data, "a genuine packet at sequence %llu is refused at the end, after %llu", (unsigned long long)p.seq, (unsigned long long)d.last); d.key.at(p.seq); d.last = p.seq; ok++; agrees(c, d, b, "decoding"); }
    if (ok && refused) c.nontrivial(); if (b.start) c.label("under way from " + std::string(b.start >> 32 ? "beyond 2^32" : "below 2^32")); c.note("%u delivered, %u refused, interval %u, %zu encoders, %zu decoders", ok, refused, b.per, encs.size(), decs.size());
}
