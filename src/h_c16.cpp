// C16: stream keys evolve one-way on schedule and IVs never repeat
#include "tworld.h"
using tw::RefKey;

static StreamCtx ctx_of(Case &c, const Bytes &key, const Bytes &evo, uint32_t per, wickr_stream_direction dir) {
    CipherKey k(wickr_cipher_key_create(CIPHER_AES256_GCM, mk(key))); StreamKey s(wickr_stream_key_create(k.get(), mk(evo), per)); CHECK(c, s, "stream key with interval %u refused", per); k.release(); StreamCtx x(wickr_stream_ctx_create(ENG, s.get(), dir)); CHECK(c, x, "stream context refused"); s.release(); return x;
}

// The key changes exactly when the sequence number crosses a multiple of the interval, to the documented next key.
PROP(C16, evolution, 26000, 900000) {
    RefKey r; r.key = c.blob(32); r.evo = c.chance(3, 4) ? c.blob(32) : c.blob1(150); r.per = c.chance(1, 2) ? 1 + (uint32_t)c.edge(6) : 1 + (uint32_t)c.edge(32767); bool enc = c.chance(2, 3); StreamCtx e = ctx_of(c, r.key, r.evo, r.per, STREAM_DIRECTION_ENCODE), d = ctx_of(c, r.key, r.evo, r.per, STREAM_DIRECTION_DECODE);
    struct Old { CipherRes r; Bytes data; uint64_t gen; }; std::vector<Old> old; std::set<Bytes> ivs, keys; keys.insert(r.key); uint64_t last = 0; unsigned n = 1 + (unsigned)c.draw(14), evolved = 0;
    for (unsigned i = 0; i < n; i++) {
        if (c.chance(1, 6)) { StreamCtx q(wickr_stream_ctx_copy(e.get())); CHECK(c, q, "the encoder cannot be copied"); e = std::move(q); c.label("goes on as a copy"); }
        uint64_t seq; switch (c.pick({4, 3, 3, 1})) { case 0: seq = last + 1; break; case 1: seq = (last / r.per + 1) * r.per - c.draw(1) + c.draw(1); break; case 2: seq = last + 1 + c.draw(2ull * r.per); break; default: seq = last + 1 + c.edge(300ull * r.per); } if (seq <= last) continue;
        Bytes data = c.data1(40), before = to(e->key->cipher_key->key_data); View dv(data); CipherRes p(wickr_stream_ctx_encode(e.get(), dv, nullptr, seq)); CHECK(c, p, "encoding at %llu after %llu failed", (unsigned long long)seq, (unsigned long long)last);
        uint64_t g = seq / r.per, was = last / r.per; r.at(seq); Bytes now = to(e->key->cipher_key->key_data);
        CHECK(c, (now != before) == (g != was), "between sequence %llu and %llu at interval %u the key %s", (unsigned long long)last, (unsigned long long)seq, r.per, now != before ? "changed" : "did not change");
        CHECK(c, now == r.key && to(e->key->evolution_key) == r.evo, "at sequence %llu (interval %u) the key is not the result of %llu documented steps", (unsigned long long)seq, r.per, (unsigned long long)g); if (g != was) { evolved++; CHECK(c, keys.insert(now).second, "an evolution returned to an earlier key"); }
        CHECK(c, ivs.insert(to(p->iv)).second && p->iv->length == 12, "an IV is repeated or has another length");
        for (auto &o : old) if (o.gen != g) { Buf b(ENG.wickr_crypto_engine_cipher_decrypt(o.r.get(), nullptr, e->key->cipher_key, true)); CHECK(c, !b, "the key of evolution %llu decrypts a packet of evolution %llu", (unsigned long long)g, (unsigned long long)o.gen); }
        if (enc || i == n - 1) { Buf b(wickr_stream_ctx_decode(d.get(), p.get(), nullptr, seq)); CHECK(c, b && to(b) == data, "the decoder at %llu does not reach sequence %llu", (unsigned long long)d->last_seq, (unsigned long long)seq); CHECK(c, eq(d->key->cipher_key->key_data, e->key->cipher_key->key_data) && eq(d->key->evolution_key, e->key->evolution_key), "encoder and decoder hold different keys at sequence %llu", (unsigned long long)seq); }
        old.push_back({std::move(p), data, g}); last = seq;
    }
    if (evolved) c.nontrivial(); c.label(evolved > 1 ? "several evolutions" : evolved ? "one evolution" : "no evolution"); c.note("interval %u, last %llu, %u evolutions", r.per, (unsigned long long)last, evolved);
}

// The same far into a stream: sequence numbers around the powers of two that counters of other widths would wrap at.
PROP(C16, far, 14, 500) {
    RefKey r; r.key = c.blob(32); r.evo = c.blob(32); r.per = c.chance(1, 3) ? 32768 : c.chance(1, 2) ? 32768 - (uint32_t)c.draw(200) : 20000 + (uint32_t)c.draw(12768); StreamCtx e = ctx_of(c, r.key, r.evo, r.per, STREAM_DIRECTION_ENCODE), d = ctx_of(c, r.key, r.evo, r.per, STREAM_DIRECTION_DECODE);
    uint64_t mark = 1ull << (c.pick({2, 4, 1}) == 0 ? 31 : c.chance(1, 6) ? 33 : 32), last = 0; unsigned n = 3 + (unsigned)c.draw(5); struct Old { CipherRes p; uint64_t seq; }; std::vector<Old> old; Bytes data = {1, 2, 3}; View dv(data);
    for (unsigned i = 0; i < n; i++) {
        uint64_t seq = i == 0 ? 1 + c.draw(70000) : i == 1 ? mark - 1 - c.edge(2ull * r.per) : last + 1 + (c.chance(1, 2) ? c.draw(2) : c.edge(2ull * r.per)); if (seq <= last) continue; uint64_t was = last / r.per; Bytes before = to(e->key->cipher_key->key_data);
        CipherRes p(wickr_stream_ctx_encode(e.get(), dv, nullptr, seq)); CHECK(c, p, "encoding at %llu after %llu failed", (unsigned long long)seq, (unsigned long long)last); r.at(seq); Bytes now = to(e->key->cipher_key->key_data);
        CHECK(c, now == r.key && to(e->key->evolution_key) == r.evo, "at sequence %llu (interval %u) the key is not the result of %llu documented steps", (unsigned long long)seq, r.per, (unsigned long long)(seq / r.per)); CHECK(c, (now != before) == (seq / r.per != was), "between sequence %llu and %llu the key %s", (unsigned long long)last, (unsigned long long)seq, now != before ? "changed" : "did not change"); CHECK(c, e->last_seq == seq, "the encoder is at %llu instead of %llu", (unsigned long long)e->last_seq, (unsigned long long)seq);
        for (uint64_t s : std::initializer_list<uint64_t>{seq, seq - 1, seq & 0xffffffffull, seq - mark}) if (s <= seq) { CipherRes q(wickr_stream_ctx_encode(e.get(), dv, nullptr, s)); CHECK(c, !q, "encoding at %llu after %llu is accepted", (unsigned long long)s, (unsigned long long)seq); }
        Buf b(wickr_stream_ctx_decode(d.get(), p.get(), nullptr, seq)); CHECK(c, b && to(b) == data, "the decoder at %llu does not reach sequence %llu", (unsigned long long)d->last_seq, (unsigned long long)seq); CHECK(c, d->last_seq == seq && eq(d->key->cipher_key->key_data, e->key->cipher_key->key_data), "encoder and decoder differ at sequence %llu", (unsigned long long)seq);
        old.push_back({std::move(p), seq}); for (auto &o : old) { Buf x(wickr_stream_ctx_decode(d.get(), o.p.get(), nullptr, o.seq)); CHECK(c, !x, "the packet of sequence %llu is accepted again after %llu", (unsigned long long)o.seq, (unsigned long long)seq); } last = seq;
    }
    if (last > mark) c.nontrivial(); c.label(mark > 1ull << 32 ? "2^33" : mark > 1ull << 31 ? "2^32" : "2^31"); c.note("interval %u up to sequence %llu", r.per, (unsigned long long)last);
}

// IVs under one key are pairwise distinct, also far into a stream and across streams created separately.
PROP(C16, ivs, 5000, 120000) {
    std::map<Bytes, std::string> seen; unsigned streams = 1 + (unsigned)c.draw(3), total = 0; Bytes key = c.blob(32), evo = c.blob(32); bool direct = c.draw(1);
    for (unsigned s = 0; s < streams; s++) {
        unsigned n = c.chance(1, 10) ? 600 : 4 + (unsigned)c.draw(20); uint64_t start = c.chance(1, 2) ? 0 : c.edge(UINT64_MAX - 2000); char w[80];
        if (direct) {
            const wickr_cipher_t &ci = gen_cipher(c); StreamIv g(wickr_stream_iv_create(ENG, ci)); CHECK(c, g && g->seed && g->seed->length == 64, "the IV generator has no 64 byte seed"); Bytes seed = to(g->seed);
            if (c.chance(1, 3)) { StreamIv q(wickr_stream_iv_copy(g.get())); CHECK(c, q && to(q->seed) == seed && q->gen_count == g->gen_count && q->seed != g->seed, "a copied generator differs"); g = std::move(q); }
            for (unsigned i = 0; i < n; i++) { if (c.chance(1, 12)) { StreamIv q(wickr_stream_iv_copy(g.get())); CHECK(c, q && q->gen_count == g->gen_count, "a generator's copy is at another count"); g = std::move(q); } if (i == n / 2) g->gen_count = std::max<uint64_t>(start, g->gen_count); uint64_t k = g->gen_count; Buf iv(wickr_stream_iv_generate(g.get())); CHECK(c, iv && iv->length == ci.iv_len, "an IV has length %zu instead of %zu", iv ? iv->length : 0, (size_t)ci.iv_len); CHECK(c, g->gen_count == k + 1, "the generator's count goes from %llu to %llu", (unsigned long long)k, (unsigned long long)g->gen_count); CHECK(c, to(g->seed) == seed, "the seed changes"); Bytes m = ref::hmac(DIGEST_ID_SHA512, seed, wirefmt::le64(k)); m.resize(ci.iv_len); CHECK(c, to(iv) == m, "IV %llu is not the documented HMAC of the count under the seed", (unsigned long long)k);
                Bytes v = to(iv); v.resize(12); snprintf(w, sizeof w, "stream %u, count %llu", s, (unsigned long long)k); auto q = seen.emplace(v, w); CHECK(c, q.second, "%s and %s produce the same IV", q.first->second.c_str(), w); total++; }
        } else {
            StreamCtx e = ctx_of(c, key, evo, 1 + (uint32_t)c.edge(32767), STREAM_DIRECTION_ENCODE); Bytes d{1}; View dv(d); uint64_t seq = 0;
            for (unsigned i = 0; i < n; i++) { seq += c.chance(1, 4) ? 1 + c.draw(50) : 1; if (c.chance(1, 12)) { StreamCtx q(wickr_stream_ctx_copy(e.get())); CHECK(c, q, "the encoder cannot be copied"); e = std::move(q); c.label("goes on as a copy"); } if (i == n / 2) e->iv_factory->gen_count = std::max<uint64_t>(start, e->iv_factory->gen_count); CipherRes p(wickr_stream_ctx_encode(e.get(), dv, nullptr, seq)); CHECK(c, p, "encoding failed"); snprintf(w, sizeof w, "stream %u, sequence %llu", s, (unsigned long long)seq); auto q = seen.emplace(to(p->iv), w); CHECK(c, q.second, "%s and %s use the same IV", q.first->second.c_str(), w); total++; }
        }
        if (start) c.label(start > UINT32_MAX ? "count beyond 2^32" : start > 255 ? "count beyond 255" : "count");
    }
    if (total > 5) c.nontrivial(); c.label(direct ? "generator" : streams > 1 ? "several streams of one key" : "one stream"); c.note("%u IVs from %u streams", total, streams);
}

// Only documented intervals, complete keys and authenticated ciphers make a stream.
PROP(C16, creation, 40000, 900000) {
    uint32_t per; switch (c.pick({3, 2, 2, 2})) { case 0: per = (uint32_t)c.edge(UINT32_MAX); break; case 1: per = 32768 + (uint32_t)c.draw(2) - 1; break; case 2: per = (uint32_t)c.draw(2); break; default: per = 1 + (uint32_t)c.draw(32767); }
    bool ok = per >= 1 && per <= 32768; Bytes kb = c.blob(32), ev = c.data1(100), ud = c.draw(1) ? c.data1(30) : Bytes(); const wickr_cipher_t &ci = gen_cipher(c); CipherKey k(wickr_cipher_key_create(ci, mk(kb))); Buf e(mk(ev)), u(mk(ud)); StreamKey s;
    switch (c.pick({3, 2, 2, 2})) {
        case 0: s.reset(wickr_stream_key_create_user_data(k.get(), e.get(), per, u.get())); if (s) k.release(), e.release(), u.release(); c.label("create"); break;
        case 1: s.reset(wickr_stream_key_create_rand(ENG, ci, per)); if (s) { CHECK(c, s->cipher_key->key_data->length == 32 && s->evolution_key && s->evolution_key->length == 32 && !eq(s->evolution_key, s->cipher_key->key_data) && same(s->cipher_key->cipher, ci) && !s->user_data, "a random stream key is incomplete"); StreamKey t(wickr_stream_key_create_rand(ENG, ci, per)); CHECK(c, t && !eq(t->cipher_key->key_data, s->cipher_key->key_data) && !eq(t->evolution_key, s->evolution_key), "two random stream keys are equal"); } c.label("random"); break;
        case 2: { Bytes b = cat(cat(ref::pb_bytes(1, cat({(uint8_t)ci.cipher_id}, kb)), ref::pb_bytes(2, ev)), cat(ref::pb_uint(3, per), ud.empty() ? Bytes() : ref::pb_bytes(4, ud))); View v(b); s.reset(wickr_stream_key_create_from_buffer(v)); c.label("parsed"); break; }
        default: { unsigned m = (unsigned)c.draw(2); s.reset(m == 0 ? wickr_stream_key_create(nullptr, e.get(), per) : m == 1 ? wickr_stream_key_create(k.get(), nullptr, per) : wickr_stream_key_create(nullptr, nullptr, per)); CHECK(c, !s, "a stream key without %s is created", m == 1 ? "evolution key" : "cipher key"); c.label("incomplete"); return; }
    }
    CHECK(c, (bool)s == ok, "a stream key with interval %u is %s", per, s ? "created" : "refused"); if (!ok) { c.nontrivial(); c.label("bad interval"); return; }
    CHECK(c, s->packets_per_evolution == per, "the interval is %u instead of %u", s->packets_per_evolution, per); wickr_stream_direction dir = c.draw(1) ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE; bool null = c.chance(1, 10);
    StreamCtx x(wickr_stream_ctx_create(ENG, null ? nullptr : s.get(), dir)); if (x) s.release(); CHECK(c, (bool)x == (!null && ci.is_authenticated), "a stream context over %s is %s", null ? "no key" : ci.is_authenticated ? "an authenticated cipher" : "an unauthenticated cipher", x ? "created" : "refused"); if (!x) { c.nontrivial(); c.label("refused context"); return; }
    CHECK(c, x->last_seq == 0 && x->ref_count == 1 && x->direction == dir && (bool)x->iv_factory == (dir == STREAM_DIRECTION_ENCODE), "a new stream context is not at its start");
    Bytes d{7}; View dv(d); CHECK(c, !wickr_stream_ctx_encode(x.get(), dv, nullptr, 0), "sequence number 0 is accepted"); if (per > 1) c.nontrivial();
}
