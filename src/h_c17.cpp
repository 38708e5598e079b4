// C17: a transport delivers only what the peer sent, once, in order
#include "tworld.h"
using namespace tw;

struct Pair {
    Chain ca, cb; End A, B; std::vector<Bytes> sentA, sentB; std::set<Bytes> used; unsigned serial = 0; bool sync = false; int budget = 200;
    End &e(int i) { return i ? B : A; } std::vector<Bytes> &sent(int i) { return i ? sentB : sentA; }
    void setup(Case &c, const Chain &a, const Chain &b) {
        ca.reset(wickr_identity_chain_copy(a.get())); cb.reset(wickr_identity_chain_copy(b.get())); Chain pa = Chain(wickr_identity_chain_copy(a.get())), pb = Chain(wickr_identity_chain_copy(b.get()));
        for (auto *x : {pa.get(), pb.get()}) { wickr_buffer_destroy_zero(&x->root->sig_key->pri_data); wickr_buffer_destroy_zero(&x->node->sig_key->pri_data); }
        bool pinA = c.draw(1), pinB = c.draw(1); A.policy = (int)c.draw(1); B.policy = (int)c.draw(1); uint32_t ea = gen_evo(c), eb = gen_evo(c);
        A.create("initiator", a.get(), pinA ? pb.get() : nullptr, ea); B.create("responder", b.get(), pinB ? pa.get() : nullptr, eb);
        CHECK(c, A.t && B.t, "transport creation failed (intervals %u, %u)", ea, eb);
    }
    Bytes payload(Case &c) { for (;;) { size_t n = c.size1(c.chance(1, 20) ? (c.chance(1, 10) ? 1500000 : 70000) : 300); Bytes b = c.blob(n); unsigned s = serial++; for (size_t i = 0; i < 4 && i < n; i++) b[i] = (uint8_t)(s >> 8 * i); if (n < 4) b.resize(4, 0), b[3] = (uint8_t)s; if (used.insert(b).second) return b; } }
    bool waiting(int i) { for (auto &a : e(i).asks) if (a.approved < 0) return true; return false; }
    int sending[2] = {0, 0};
    void send(Case &c, int i) { if (sending[i]) return; /* a send inside another send of the same end has no defined order */ Bytes b = payload(c); sent(i).push_back(b); sending[i] = 1; e(i).send(b); sending[i] = 0; }
    void check(Case &c) { CHECK(c, A.bad.empty(), "%s", A.bad.c_str()); CHECK(c, B.bad.empty(), "%s", B.bad.c_str()); }
    // got must be a subsequence of sent
    void subsequence(Case &c, int to) {
        auto &s = sent(1 - to), &g = e(to).got; size_t j = 0; for (size_t i = 0; i < g.size(); i++) { while (j < s.size() && s[j] != g[i]) j++; CHECK(c, j < s.size(), "%s delivered as item %zu of %zu %s: %s", e(to).name.c_str(), i, g.size(), std::find(s.begin(), s.end(), g[i]) == s.end() ? "data its peer never sent" : "data out of order or twice", hex(g[i]).c_str()); j++; }
    }
};

// A network that delivers everything, in order, but with any interleaving of the two directions, of sending and of approvals.
PROP(C17, faithful, 2600, 60000) {
    Pair p; p.setup(c, party_chain(c, 0), party_chain(c, 1)); p.sync = c.chance(1, 4); int from_state[2] = {(int)c.draw(2), (int)c.draw(2)}, echo[2] = {c.chance(1, 3) ? (int)c.draw(4) : 0, c.chance(1, 3) ? (int)c.draw(4) : 0}; unsigned bulk = c.chance(1, 6) ? 80 : 12;
    std::function<void(int)> pump = [&](int to) { End &src = p.e(1 - to); while (!src.out.empty() && !p.waiting(to)) p.e(to).recv(src.pop()); };
    int pumping[2] = {0, 0};
    for (int i = 0; i < 2; i++) {
        p.e(i).on_active = [&, i] { for (int k = 0; k < from_state[i]; k++) p.send(c, i); };
        p.e(i).on_rx = [&, i](const Bytes &) { if (echo[i] > 0) { echo[i]--; p.send(c, i); } };
        p.e(i).on_tx = [&, i](const Bytes &) { if (p.sync && !pumping[1 - i]) { pumping[1 - i] = 1; pump(1 - i); pumping[1 - i] = 0; } };
    }
    p.A.start(); unsigned sends = 0, ops = 0;
    for (; ops < 400; ops++) {
        std::vector<int> can; // 0/1 deliver to, 2/3 approve, 4/5 send
        for (int i = 0; i < 2; i++) { if (!p.e(1 - i).out.empty() && !p.waiting(i)) can.push_back(i); if (p.waiting(i)) can.push_back(2 + i); if (p.e(i).active() && sends < bulk) can.push_back(4 + i); }
        if (can.empty()) break; int k = can[c.draw(can.size() - 1)], i = k & 1;
        if (k < 2) p.e(i).recv(p.e(1 - i).pop()); else if (k < 4) { for (size_t q = 0; q < p.e(i).asks.size(); q++) if (p.e(i).asks[q].approved < 0) { p.e(i).answer(q, true); break; } if (p.sync) pump(i); } else { sends++; p.send(c, i); }
        p.check(c); for (int j = 0; j < 2; j++) CHECK(c, !p.e(j).error(), "the %s ends in error %d over a faithful network (%s mode, after delivering %zu and %zu)", p.e(j).name.c_str(), p.e(j).err(), p.sync ? "synchronous" : "queued", p.A.got.size(), p.B.got.size());
    }
    for (int i = 0; i < 2; i++) { CHECK(c, p.e(i).active(), "the %s is not active after a faithful handshake (state %s)", p.e(i).name.c_str(), status_name(p.e(i).status())); p.subsequence(c, i); CHECK(c, p.e(i).got.size() == p.sent(1 - i).size(), "the %s received %zu of the %zu buffers sent", p.e(i).name.c_str(), p.e(i).got.size(), p.sent(1 - i).size()); }
    if (p.sentA.size() + p.sentB.size()) c.nontrivial(); c.label(p.sync ? "synchronous" : "queued"); if (from_state[0] || from_state[1]) c.label("sends-from-state-callback"); c.label(p.A.pinned ? "A pinned" : p.A.policy ? "A approves at once" : "A approves later"); c.label(p.B.pinned ? "B pinned" : p.B.policy ? "B approves at once" : "B approves later");
    c.note("%zu and %zu buffers, %u operations", p.sentA.size(), p.sentB.size(), ops);
}

// A hostile network between the two, with a second session of the same identities to splice from.
PROP(C17, adversary, 3500, 90000) {
    Chain ca = party_chain(c, 0), cb = party_chain(c, 1); Pair p, q; p.setup(c, ca, cb); q.setup(c, ca, cb); for (End *e : {&q.A, &q.B}) e->policy = 1; p.A.policy = p.B.policy = c.chance(3, 4) ? 1 : 0;
    // the other session runs to completion first
    q.A.start(); for (int k = 0; k < 8; k++) { for (int i = 0; i < 2; i++) { if (!q.e(1 - i).out.empty()) q.e(i).recv(q.e(1 - i).pop()); else if (q.e(i).active()) q.send(c, i); } } q.check(c);
    unsigned attacks = 0, ops = 10 + (unsigned)c.draw(50), hostile_from = c.chance(3, 5) ? 4 + (unsigned)c.draw(14) : 0; p.A.start(); if (c.chance(1, 12)) p.B.start();
    auto far = [](const Bytes &b) { if (b.size() < 9 || b[0] >> 4 != 1) return false; for (int i = 3; i < 9; i++) if (b[i]) return true; return false; };
    for (unsigned op = 0; op < ops; op++) {
        int to = (int)c.draw(1); End &r = p.e(to), &s = p.e(1 - to); unsigned k = op < hostile_from ? c.pick({0, 6, 4, 1}) : c.pick({0, 8, 6, 1, 2, 2, 2, 1, 2, 1, 1});
        auto any = [&](bool other) -> Bytes { std::vector<const Bytes *> v; for (int i = 0; i < 2; i++) for (auto &b : other ? q.e(i).emitted : p.e(i).emitted) v.push_back(&b); return v.empty() ? Bytes() : *v[c.draw(v.size() - 1)]; };
        Bytes b; bool attack = true;
        switch (k) {
            case 1: if (s.out.empty()) continue; b = s.pop(); attack = false; break;
            case 2: if (!r.active()) continue; p.send(c, to); p.check(c); continue;
            case 3: for (size_t i = 0; i < r.asks.size(); i++) if (r.asks[i].approved < 0) r.answer(i, true); p.check(c); continue;
            case 4: if (s.out.empty()) continue; s.pop(); attacks++; c.label("drop"); continue;
            case 5: if (s.out.empty()) continue; b = s.out.front(); attacks++; c.label("duplicate"); attack = false; break; // deliver and keep
            case 6: if (s.out.size() < 2) continue; { size_t i = 1 + (size_t)c.draw(s.out.size() - 2); b = s.out[i]; s.out.erase(s.out.begin() + (long)i); } attacks++; attack = false; c.label("reorder"); break;
            case 7: b = any(false); c.label("replay-or-reflect"); break;
            case 8: b = any(false); if (b.empty() || !c.tamper(b)) continue; c.label("tamper"); break;
            case 9: b = any(true); c.label("splice-session"); break;
            default: b = any(false); { Bytes o = any(c.draw(1)); if (b.size() < 30 || o.size() < 30) continue; size_t n = 1 + (size_t)c.draw(std::min(b.size(), o.size()) - 2); std::copy(o.begin(), o.begin() + (long)n, b.begin()); } c.label("splice-bytes"); break;
        }
        if (b.empty() || far(b)) continue; if (attack) attacks++; bool was = r.error(); size_t had = r.got.size(); r.recv(b); p.check(c); if (hang()) { hang() = false; return; }
        p.subsequence(c, to); if (was) CHECK(c, r.got.size() == had, "delivery after an error");
        if (r.got.size() > had && attack) { auto &em = s.emitted; CHECK(c, std::find(em.begin(), em.end(), b) != em.end(), "the %s delivered data from bytes its peer never emitted", r.name.c_str()); }
    }
    if (attacks && (p.A.got.size() + p.B.got.size())) c.nontrivial(); c.label(p.A.error() || p.B.error() ? "ends in error" : p.A.active() && p.B.active() ? "stays active" : "never active"); c.note("%u attacks, delivered %zu and %zu", attacks, p.A.got.size(), p.B.got.size());
}

// Interoperation with an independent implementation of the documented protocol, on either side.
PROP(C17, reference_peer, 2000, 50000) {
    Chain lc = party_chain(c, 0), rc = party_chain(c, 1); End L; RefPeer R; R.local = chain_bytes(rc.get()); R.sign_key.reset(wickr_ec_key_copy(rc->node->sig_key)); R.eph = gen_ec_key(c); Chain pub(wickr_identity_chain_copy(rc.get()));
    bool pin = c.draw(1), initiator = c.draw(1); uint32_t evo = gen_evo(c); L.create(initiator ? "initiator" : "responder", lc.get(), pin ? pub.get() : nullptr, evo); Bytes lchain = chain_bytes(lc.get()); bool know = c.draw(1); if (know) R.remote = lchain;
    uint32_t s = 1 + (uint32_t)c.edge(c.draw(1) ? 6 : 32767), r = 1 + (uint32_t)c.edge(c.draw(1) ? 6 : 32767);
    if (initiator) {
        L.start(); CHECK(c, L.bad.empty() && L.out.size() == 1, "start emits %zu packets %s", L.out.size(), L.bad.c_str()); Bytes seed = L.pop(); Parsed ps = parse_hs(seed); CHECK(c, ps.ok && ps.seed && ps.version == 1 && ps.mac == 2 && ps.chain == lchain && ps.need == !pin, "the start packet is not the documented handshake seed: %s", hex(seed, 60).c_str()); CHECK(c, packet_signed_by(seed, lc.get()), "the start packet is not signed by the local node key");
        L.recv(R.respond(seed, c.blob(32), s, r));
    } else {
        Bytes seed = R.seed(!know); L.recv(seed); CHECK(c, L.bad.empty() && L.out.size() == 1, "the responder answers a valid seed with %zu packets %s (error %d)", L.out.size(), L.bad.c_str(), L.err()); Bytes ans = L.pop(); Parsed pr = parse_hs(ans); CHECK(c, pr.ok && !pr.seed && pr.has_chain == !know, "the response is not the documented one"); CHECK(c, packet_signed_by(ans, lc.get()), "the response is not signed by the local node key");
        std::string e = R.finish(ans); CHECK(c, e.empty(), "%s", e.c_str()); CHECK(c, R.evo == (evo ? evo : 512) && R.evo2 == R.evo, "the response carries the intervals %u and %u instead of %u", R.evo, R.evo2, evo);
    }
    CHECK(c, L.bad.empty() && L.active(), "the %s is not active with a peer following the documented protocol: %s, error %d %s", L.name.c_str(), status_name(L.status()), L.err(), L.bad.c_str());
    unsigned n = 1 + (unsigned)c.draw(c.chance(1, 5) ? 60 : 10), sent = 0, got = 0; uint64_t last = 0;
    for (unsigned i = 0; i < n; i++) {
        Bytes b = c.data1(c.chance(1, 10) ? 5000 : 100);
        if (c.draw(1)) { L.send(b); CHECK(c, L.out.size() == 1, "a sent buffer gives %zu packets", L.out.size()); Bytes pkt = L.pop(), pt; uint64_t seq; CHECK(c, R.open(pkt, pt, seq), "packet %u does not open under the documented stream key: %s", sent, hex(pkt, 60).c_str()); CHECK(c, pt == b && seq == last + 1, "packet %u carries other data or sequence number %llu after %llu", sent, (unsigned long long)seq, (unsigned long long)last); last = seq; sent++; }
        else { if (c.chance(1, 5)) R.tx_seq += c.draw(20); size_t h = L.got.size(); L.recv(R.data(b)); CHECK(c, L.got.size() == h + 1 && L.got.back() == b, "a genuine packet at sequence %llu is not delivered (error %d)", (unsigned long long)R.tx_seq, L.err()); got++; }
        CHECK(c, L.bad.empty(), "%s", L.bad.c_str());
    }
    c.nontrivial(); c.label(L.name + (pin ? " pinned" : " approving")); c.note("%u sent, %u received", sent, got);
}

// A long session: far more packets than a test sends, in both directions, over any interval.
PROP(C17, long_session, 10, 400) {
    Pair p; p.setup(c, party_chain(c, 0), party_chain(c, 1)); p.A.policy = p.B.policy = 1; p.A.start();
    for (int k = 0; k < 4; k++) for (int i = 0; i < 2; i++) if (!p.e(1 - i).out.empty()) p.e(i).recv(p.e(1 - i).pop());
    CHECK(c, p.A.active() && p.B.active(), "the handshake does not complete"); unsigned n = 500 + (unsigned)c.edge(c.chance(1, 2) ? 70000 : 20000), share = (unsigned)c.draw(4), window = 1 + (unsigned)c.draw(9); uint32_t x = (uint32_t)c.draw(~0u) | 1; unsigned sent[2] = {0, 0}, got[2] = {0, 0};
    auto mk_data = [](int from, unsigned k) { Bytes b = {(uint8_t)from, (uint8_t)k, (uint8_t)(k >> 8), (uint8_t)(k >> 16)}; b.resize(4 + k % 23, (uint8_t)k); return b; };
    for (unsigned i = 0; i < n; i++) {
        x ^= x << 13; x ^= x >> 17; x ^= x << 5; int from = (x >> 8) % 5 < share; p.e(from).send(mk_data(from, sent[from]++)); if (p.e(from).error()) c.fail("the %s is in error %d after sending %u and receiving %u buffers", p.e(from).name.c_str(), p.e(from).err(), sent[from], got[1 - from]);
        for (int d = 0; d < 2; d++) { End &s = p.e(d), &r = p.e(1 - d); while (s.out.size() >= (i == n - 1 ? 1 : window)) { r.recv(s.pop()); s.emitted.clear(); if (r.got.size() != 1 || r.got[0] != mk_data(d, got[d])) c.fail("the %s, after %u buffers, is given %s (state %s, error %d)", r.name.c_str(), got[d], r.got.empty() ? "nothing" : r.got.size() > 1 ? "several buffers for one packet" : "another buffer than the next one sent", status_name(r.status()), r.err()); r.got.clear(); got[d]++; } }
        if (!p.A.bad.empty() || !p.B.bad.empty()) p.check(c);
    }
    CHECK(c, got[0] == sent[0] && got[1] == sent[1], "the last buffers are missing"); c.nontrivial(); c.label(n > 65536 ? "over 65536" : n > 32768 ? "over 32768" : n > 5000 ? "over 5000" : "thousands"); c.note("%u and %u buffers, %u in flight", sent[0], sent[1], window);
}
