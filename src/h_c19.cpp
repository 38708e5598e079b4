// C19: transport states follow the protocol and errors are final
#include "tworld.h"
using namespace tw;

static int framing(const Bytes &b) { // -1 not a packet, 0 handshake, 1 data
    if (b.size() < 2) return -1; int t = b[0] >> 4; size_t head = t == 0 ? 10 : 9, mac = (b[0] & 15) == 2 ? 143 : 0; if (t > 1 || b.size() < head || b.size() <= head + mac) return -1; return t;
}
static unsigned g_nested; // calls made from inside callbacks
struct Model { // what one call must do
    static void start(Case &c, End &e) {
        bool pend = false; for (auto &a : e.asks) pend |= a.approved < 0; int st = e.status(); size_t out = e.emitted.size(), got = e.got.size(); bool rng_ok = rng().fail_at < 0; unsigned nn = g_nested; e.start(); if (nn != g_nested) return;
        if (st == TRANSPORT_STATUS_NONE && !pend && !rng_ok) return;
        if (st == TRANSPORT_STATUS_NONE && !pend) { CHECK(c, e.emitted.size() >= out + 1, "start emits nothing (error %d)", e.err()); }
        else { CHECK(c, e.error() && e.err() == TRANSPORT_ERROR_BAD_START_STATUS, "start in state %s%s leads to %s with error %d", status_name(st), pend ? " with an identity question open" : "", status_name(e.status()), e.err()); CHECK(c, e.emitted.size() == out && e.got.size() == got, "start in state %s emits or delivers", status_name(st)); }
    }
    static void send(Case &c, End &e, const Bytes *b) {
        int st = e.status(); size_t out = e.emitted.size(), got = e.got.size(); bool rng_ok = rng().fail_at < 0; unsigned nn = g_nested; if (b) e.send(*b); else e.call("send nothing", [&] { wickr_transport_ctx_process_tx_buffer(e.t.get(), nullptr); }); if (nn != g_nested) return;
        if (st == TRANSPORT_STATUS_ACTIVE && b) { if (rng_ok) CHECK(c, e.emitted.size() >= out + 1, "sending while active emits nothing (error %d)", e.err()); return; }
        CHECK(c, e.error(), "sending %s in state %s leads to state %s", b ? "data" : "nothing", status_name(st), status_name(e.status())); CHECK(c, e.err() == TRANSPORT_ERROR_BAD_TX_STATE, "sending in state %s gives error %d", status_name(st), e.err());
        CHECK(c, e.emitted.size() == out && e.got.size() == got, "a refused send in state %s emits or delivers", status_name(st));
    }
    static void recv(Case &c, End &e, const Bytes *b) {
        int st = e.status(), er = e.err(); size_t out = e.emitted.size(), got = e.got.size(); int f = b ? framing(*b) : -1; bool asking = false; for (auto &a : e.asks) asking |= a.approved < 0; unsigned nn = g_nested; if (b) e.recv(*b); else e.call("receive nothing", [&] { wickr_transport_ctx_process_rx_buffer(e.t.get(), nullptr); }); if (nn != g_nested) return;
        if (st == TRANSPORT_STATUS_ERROR) { CHECK(c, e.emitted.size() == out && e.got.size() == got, "receiving in error emits or delivers"); CHECK(c, !b || e.err() == er, "receiving in error changes the error from %d to %d", er, e.err()); return; }
        int want = -1; if (f < 0) want = TRANSPORT_ERROR_INVALID_RXDATA; else if (f == 1 && st != TRANSPORT_STATUS_ACTIVE) want = TRANSPORT_ERROR_BAD_RX_STATE; else if (f == 0 && st == TRANSPORT_STATUS_ACTIVE) want = TRANSPORT_ERROR_PACKET_DECODE_FAILED; else if (f == 0 && asking) want = TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED;
        if (want >= 0) { CHECK(c, e.error() && e.err() == want, "receiving %s in state %s leads to state %s, error %d instead of %d", !b ? "nothing" : f < 0 ? "bytes that are no packet" : f ? "a data packet" : "a handshake packet", status_name(st), status_name(e.status()), e.err(), want); CHECK(c, e.emitted.size() == out && e.got.size() == got, "an invalid receive in state %s emits or delivers", status_name(st)); }
        else if (f == 1) { CHECK(c, e.got.size() > got || (e.error()), "a data packet is neither delivered nor an error"); CHECK(c, e.got.size() > got || e.err() == TRANSPORT_ERROR_PACKET_DECODE_FAILED || e.states.size() > 2, "an undecodable packet gives error %d", e.err()); }
    }
};

// Any sequence of calls on two endpoints, over any network, with any answers at any time, also from inside callbacks.
PROP(C19, histories, 6000, 150000) {
    Chain cc[2] = {party_chain(c, 0), party_chain(c, 1)}; Chain pub[2] = {Chain(wickr_identity_chain_copy(cc[0].get())), Chain(wickr_identity_chain_copy(cc[1].get()))}; End E[2]; bool pin[2] = {(bool)c.draw(1), (bool)c.draw(1)};
    for (int i = 0; i < 2; i++) { E[i].policy = (int)c.draw(2) - 1; if (c.chance(1, 2)) E[i].policy = 1; E[i].create(i ? "second" : "first", cc[i].get(), pin[i] ? pub[1 - i].get() : nullptr, gen_evo(c)); CHECK(c, E[i].t && E[i].status() == TRANSPORT_STATUS_NONE && E[i].err() == TRANSPORT_ERROR_NONE, "a new transport is in state %s, error %d", status_name(E[i].status()), E[i].err()); }
    // what the application does from inside its callbacks: per end and callback, a short list of calls (7: nothing)
    bool reentrant = c.chance(2, 5); unsigned odd = 0, serial = 0; std::set<std::string> seen; std::deque<int> todo[2][3];
    if (reentrant) for (auto &end : todo) for (auto &q : end) { unsigned n = (unsigned)c.draw(3); for (unsigned x = 0; x < n; x++) q.push_back(c.chance(1, 3) ? 7 : c.chance(1, 3) ? 1 : (int)c.draw(6)); }
    auto act = [&](int i, int hook) { // no model of the result, the monitor decides
        End &e = E[i]; auto &q = todo[i][hook]; if (q.empty()) return; int kind = q.front(); q.pop_front(); if (kind == 7) return; odd++; g_nested++;
        switch (kind) { case 0: e.start(); break; case 1: e.send({1, 2, 3}); break; case 2: e.recv({9, 9, 9}); break; case 3: e.call("send nothing", [&] { wickr_transport_ctx_process_tx_buffer(e.t.get(), nullptr); }); break; case 4: if (!E[1 - i].out.empty()) e.recv(E[1 - i].pop()); break; default: if (!e.asks.empty()) e.answer(0, kind == 5); }
    };
    for (int i = 0; i < 2; i++) { E[i].on_state = [&, i](int) { act(i, 0); }; E[i].on_tx = [&, i](const Bytes &) { act(i, 1); }; E[i].on_rx = [&, i](const Bytes &) { act(i, 2); }; }
    if (c.chance(4, 5)) Model::start(c, E[0]);
    unsigned n = 4 + (unsigned)c.draw(30), calm = c.chance(2, 3) ? (unsigned)c.draw(14) : 0;
    for (unsigned op = 0; op < n; op++) {
        int i = (int)c.draw(1); End &e = E[i], &o = E[1 - i]; unsigned k = op < calm ? c.pick({8, 4, 2}) : c.pick({6, 3, 2, 2, 1, 1, 1, 1, 2, 1, 1});
        if (k >= 3) odd++;
        switch (k) {
            case 0: if (o.out.empty()) continue; { Bytes b = o.pop(); Model::recv(c, e, &b); } break;
            case 1: if (k == 1 && !e.active() && op < calm) continue; { Bytes b = c.blob1(40); b.push_back((uint8_t)serial++); Model::send(c, e, &b); } break;
            case 2: case 3: { std::vector<size_t> open; for (size_t q = 0; q < e.asks.size(); q++) if (k == 3 || e.asks[q].approved < 0) open.push_back(q); if (open.empty()) continue; size_t q = open[c.draw(open.size() - 1)]; bool first = e.asks[q].approved < 0, yes = k == 2 ? true : c.draw(1); int st = e.status(); size_t out = e.emitted.size(); unsigned nn = g_nested; e.answer(q, yes); if (nn != g_nested) break;
                if (st == TRANSPORT_STATUS_ERROR) CHECK(c, e.emitted.size() == out, "an answer after an error emits"); else if (first && !yes && st != TRANSPORT_STATUS_ACTIVE) CHECK(c, e.error() && e.err() == TRANSPORT_ERROR_HANDSHAKE_FAILED && e.emitted.size() == out, "a negative answer in state %s leads to %s, error %d", status_name(st), status_name(e.status()), e.err()); break; }
            case 4: Model::start(c, e); break;
            case 5: Model::send(c, e, nullptr); break;
            case 6: Model::recv(c, e, nullptr); break;
            case 7: { Bytes b = c.blob1(200); if (c.draw(1) && b.size() > 9) { b[0] = (uint8_t)(c.draw(1) << 4 | c.draw(2)); for (size_t q = 3; q < 9; q++) b[q] = 0; } if (b[0] >> 4 == 1 && b.size() > 9) for (size_t q = 3; q < 9; q++) b[q] = 0; Model::recv(c, e, &b); break; }
            case 8: { auto &v = E[c.draw(1)].emitted; if (v.empty()) continue; Bytes b = v[c.draw(v.size() - 1)]; if (c.draw(1)) { c.tamper(b); if (b.size() > 9 && b[0] >> 4 == 1) for (size_t q = 3; q < 9; q++) b[q] = 0; } Model::recv(c, e, &b); break; }
            case 9: if (o.emitted.empty()) continue; { Bytes b = o.emitted.back(); Model::recv(c, e, &b); } break;
            default: rng().fail_at = rng().fail_at < 0 ? (int64_t)rng().calls + (int64_t)c.draw(3) : -1; break;
        }
        for (auto &x : E) { CHECK(c, x.bad.empty(), "%s", x.bad.c_str()); seen.insert(status_name(x.status())); } hang() = false;
    }
    rng().fail_at = -1; if (odd && seen.size() > 1) c.nontrivial(); for (auto &x : E) { std::string s; for (int q : x.states) s += std::string(s.empty() ? "" : ">") + status_name(q); c.label(s.empty() ? "NONE" : s); if (x.error()) c.label("error " + std::to_string(x.err())); } c.note("%u odd operations", odd);
}

// Construction limits and missing transports
PROP(C19, edges, 400, 4000) {
    Chain a = make_chain(c); uint32_t evo = c.draw(1) ? (uint32_t)c.edge(40000) : (uint32_t)c.edge(~0u); End e; e.create("end", a.get(), c.draw(1) ? a.get() : nullptr, evo); CHECK(c, (bool)e.t == (evo <= PACKET_PER_EVO_MAX), "a transport with interval %u is %s", evo, e.t ? "created" : "refused");
    wickr_transport_ctx_start(nullptr); View v(c.blob1(20)); wickr_transport_ctx_process_tx_buffer(nullptr, v); wickr_transport_ctx_process_rx_buffer(nullptr, v); CHECK(c, wickr_transport_ctx_get_status(nullptr) == TRANSPORT_STATUS_NONE && wickr_transport_ctx_get_last_error(nullptr) == TRANSPORT_ERROR_NONE && !wickr_transport_ctx_get_user_ctx(nullptr), "a missing transport has a state"); CHECK(c, !wickr_transport_ctx_create(ENG, nullptr, nullptr, 0, End::callbacks(), nullptr), "a transport without a local identity is created");
    if (e.t) { CHECK(c, wickr_transport_ctx_get_local_identity_ptr(e.t.get()) && same_pub(wickr_transport_ctx_get_local_identity_ptr(e.t.get()), a.get()), "local identity differs"); CHECK(c, (wickr_transport_ctx_get_remote_identity_ptr(e.t.get()) != nullptr) == e.pinned, "remote identity of a new transport"); }
    c.nontrivial(); c.label(e.t ? "created" : "refused");
}
