// C18: a transport becomes active only with the authenticated, approved peer
#include "tworld.h"
using namespace tw;

static Chain parse_chain(const Bytes &b) { View v(b); return Chain(wickr_identity_chain_create_from_buffer(v, &ENG)); }
static Chain pubc(const wickr_identity_chain_t *x) { Buf b(wickr_identity_chain_serialize(x)); return Chain(wickr_identity_chain_create_from_buffer(b.get(), &ENG)); }
static bool is_data(const Bytes &b) { return !b.empty() && b[0] >> 4 == 1; }
// What must be true of an endpoint now, whatever happened to it. `hs` is every handshake packet it was given.
static void authentic(Case &c, End &e, const wickr_identity_chain_t *pin, const std::vector<Bytes> &hs, const char *what) {
    CHECK(c, e.bad.empty(), "%s", e.bad.c_str());
    if (std::find(e.states.begin(), e.states.end(), (int)TRANSPORT_STATUS_ACTIVE) == e.states.end()) { CHECK(c, e.got.empty(), "the %s delivered data without ever being active (%s)", e.name.c_str(), what); for (auto &b : e.emitted) CHECK(c, !is_data(b), "the %s emitted a data packet without ever being active (%s)", e.name.c_str(), what); return; }
    if (pin) { CHECK(c, chain_ok(pin), "the %s is active although its pinned chain is not validly signed (%s)", e.name.c_str(), what); bool ok = false; for (auto &b : hs) ok |= packet_signed_by(b, pin); CHECK(c, ok, "the %s became active although no handshake packet was signed by the pinned identity (%s)", e.name.c_str(), what); return; }
    const End::Ask *yes = nullptr; for (auto &a : e.asks) if (a.approved == 1) yes = &a; CHECK(c, yes, "the %s became active without an approval (%s)", e.name.c_str(), what); CHECK(c, e.asks.size() == 1 || yes == &e.asks.back(), "the %s became active on the approval of an earlier identity (%s)", e.name.c_str(), what);
    Chain ch = parse_chain(yes->chain); CHECK(c, ch && chain_ok(ch.get()), "the %s became active with an identity chain that is not validly signed (%s)", e.name.c_str(), what); CHECK(c, packet_signed_by(yes->packet, ch.get()), "the %s became active although its handshake packet is not signed by the approved identity (%s)", e.name.c_str(), what);
    Parsed p = parse_hs(yes->packet); CHECK(c, p.ok && p.version == 1, "the %s became active on a packet of another version (%s)", e.name.c_str(), what);
}

// One remote that builds its handshake message from parts that may be wrong, one at a time or several.
PROP(C18, crafted, 6000, 150000) {
    Chain L = party_chain(c, 0), P = party_chain(c, 1), Q = party_chain(c, 2); bool initiator = c.draw(1), pinned = c.draw(1); End V; V.policy = (int)c.pick({1, 4, 3}) - 1; if (V.policy == 0 && c.draw(1)) V.policy = 1;
    // the pinned chain, possibly itself unsigned
    Chain pin = pubc(P.get()); bool pin_bad = pinned && c.chance(1, 12); if (pin_bad) { Sig s(wickr_ecdsa_result_copy(Q->node->signature)); std::swap(pin->node->signature, s.p); pin->status = c.draw(1) ? IDENTITY_CHAIN_STATUS_UNKNOWN : IDENTITY_CHAIN_STATUS_INVALID; }
    V.create(initiator ? "initiator" : "responder", L.get(), pinned ? pin.get() : nullptr, gen_evo(c)); Bytes lchain = chain_bytes(L.get());
    std::string wrong; auto flaw = [&](const char *n) { wrong += std::string(wrong.empty() ? "" : "+") + n; }; bool changed_chain = false;
    // who answers
    Chain who = pubc(P.get()); EcKey signer(wickr_ec_key_copy(P->node->sig_key)); const char *sn = "";
    switch (c.pick({10, 2, 2, 2, 2, 1, 1, 1})) {
        case 1: who = pubc(Q.get()); signer.reset(wickr_ec_key_copy(Q->node->sig_key)); if (pinned) flaw("other identity"); changed_chain = true; break;
        case 2: signer.reset(wickr_ec_key_copy(Q->node->sig_key)); flaw("signed by another node"); break;
        case 3: signer.reset(wickr_ec_key_copy(P->root->sig_key)); flaw("signed by the root"); break;
        case 4: { Chain q = pubc(Q.get()); std::swap(who->node, q->node); signer.reset(wickr_ec_key_copy(Q->node->sig_key)); flaw("node of another root"); changed_chain = true; break; }
        case 5: { Chain q = pubc(Q.get()); std::swap(who->node->sig_key, q->node->sig_key); signer.reset(wickr_ec_key_copy(Q->node->sig_key)); flaw("node key replaced"); changed_chain = true; break; }
        case 6: { Chain q = pubc(Q.get()); std::swap(who->root, q->root); flaw(pinned ? "" : "root replaced"); changed_chain = true; break; }
        case 7: { Sig s(wickr_identity_sign(Q->node, &ENG, who->node->sig_key->pub_data)); std::swap(who->node->signature, s.p); flaw(pinned ? "" : "chain signed by a stranger"); changed_chain = true; break; }
        default: break;
    }
    (void)sn; Bytes sent_chain = chain_bytes(who.get()); bool chain_in = true;
    // the identity both sides mix into the agreement is the pinned one, or the one sent
    Bytes agreed = pinned ? chain_bytes(pin.get()) : sent_chain; if (pin_bad) flaw("pinned chain unsigned");
    EcKey eph = gen_ec_key(c); Bytes epub = to(eph->pub_data); uint8_t version = 1, mac = 2; uint64_t flags = c.chance(1, 6) ? c.edge(~0ull) : 0; bool seed_msg = !initiator, need = c.draw(1); unsigned e1 = c.pick({16, 1, 1, 1, 1, 1, 1});
    switch (e1) { case 1: version = (uint8_t)c.draw(255); if (version != 1) flaw("version"); break; case 2: mac = (uint8_t)c.draw(15); if (mac != 2) flaw("mac type"); break; case 3: seed_msg = !seed_msg; flaw("wrong message"); break; case 4: c.mutate(epub); { EcKey k; View v(epub); if (epub != to(eph->pub_data)) { flaw("ephemeral key"); } } break; case 5: chain_in = false; if (!pinned) flaw("no chain"); break; case 6: epub.clear(); flaw("no ephemeral key"); break; default: break; }
    RefPeer R; R.eph = EcKey(wickr_ec_key_copy(eph.get())); R.local = agreed; R.remote = lchain; std::vector<Bytes> hs; Bytes seedpkt, secret = c.blob(32); uint32_t s = 1 + (uint32_t)c.draw(5), r = 1 + (uint32_t)c.draw(5); int cipher = 0;
    if (initiator) { V.start(); CHECK(c, V.out.size() == 1, "start"); seedpkt = V.pop(); }
    Bytes body, chainf = chain_in ? pb_bytes(2, sent_chain) : Bytes();
    if (seed_msg) body = pb_bytes(2, cat(cat(chainf, epub.empty() && c.draw(1) ? Bytes() : pb_bytes(3, epub)), c.chance(1, 20) && seed_msg == !initiator ? (flaw("no identity flag"), Bytes()) : pb_uint(4, need)));
    else {
        R.initiator = false; R.p0 = seedpkt; Parsed ps; if (initiator) ps = parse_hs(seedpkt); else ps.eph = to(gen_ec_key(c)->pub_data);
        switch (c.pick({16, 1, 1, 1, 1, 1, 1, 1, 1})) { case 1: cipher = 1; flaw("unauthenticated stream cipher"); break; case 2: cipher = 2 + (int)c.edge(300); flaw("unknown cipher"); break; case 3: secret = c.blob_upto(80); if (secret.size() != 32) flaw("root secret length"); break; case 4: s = 0; flaw("interval 0"); break; case 5: r = 32769 + (uint32_t)c.draw(1000); flaw("interval over the limit"); break; case 6: R.local = chain_bytes(pinned ? (changed_chain ? P.get() : Q.get()) : Q.get()); if (R.local != agreed) flaw("agreement under another identity"); break; case 7: R.initiator = true; flaw("agreement in the wrong role"); break; case 8: ps.eph = to(gen_ec_key(c)->pub_data); if (ps.eph != parse_hs(seedpkt).eph) flaw("agreement with another key"); break; default: break; }
        Bytes k = R.response_key(ps.eph), rootb = root_body(secret, cipher, s, r); if (c.chance(1, 30)) { rootb = c.blob_upto(40); flaw("root key bytes"); }
        Bytes enc = gcm_seal(k.empty() ? Bytes(32) : k, c.blob(12), {}, rootb); if (c.chance(1, 30)) { Bytes o = enc; c.mutate(enc); if (enc != o) flaw("ciphertext"); } R.initiator = false;
        body = pb_bytes(3, cat(cat(epub.empty() && c.draw(1) ? Bytes() : pb_bytes(2, epub), pb_bytes(3, enc)), chain_in ? pb_bytes(4, sent_chain) : Bytes()));
    }
    Bytes m = cat(hs_meta(mac, version, flags), body), pkt = cat(m, sign(signer.get(), m)); bool mutated = false; if (c.chance(1, 6)) { Bytes o = pkt; c.tamper(pkt); if (c.draw(1)) c.tamper(pkt); mutated = pkt != o; }
    // what a chain replaced by one signed differently means depends on the pin alone
    V.recv(pkt); hs.push_back(pkt); if (V.asks.size() && V.asks[0].approved < 0 && !V.error()) V.answer(0, c.chance(2, 3));
    std::string desc = std::string(initiator ? "initiator" : "responder") + (pinned ? ", pinned" : ", unpinned") + ", flaws: " + (wrong.empty() ? "none" : wrong) + (mutated ? " +bytes" : ""); authentic(c, V, pinned ? pin.get() : nullptr, hs, desc.c_str());
    bool refused = !V.asks.empty() && V.asks[0].approved == 0; Chain sc = parse_chain(sent_chain); bool sent_ok = sc && chain_ok(sc.get()); bool good = wrong.find_first_not_of('+') == std::string::npos && !mutated && !refused && (pinned || sent_ok);
    if (good) { CHECK(c, V.active(), "a genuine handshake with the right, approved identity ends in %s, error %d (%s)", status_name(V.status()), V.err(), desc.c_str());
        if (initiator) { R.p1 = pkt; R.keys(secret, s, r); Bytes b = c.blob1(50); V.recv(R.data(b)); CHECK(c, V.got.size() == 1 && V.got[0] == b, "data of the authenticated peer is not delivered (error %d)", V.err()); } }
    else if (!mutated) CHECK(c, V.error(), "a handshake that must not succeed ends in %s instead of the error state (%s%s)", status_name(V.status()), desc.c_str(), refused ? ", approval refused" : "");
    else CHECK(c, V.error() || V.active(), "an altered handshake ends in %s (%s)", status_name(V.status()), desc.c_str());
    if (!good) { size_t g = V.got.size(), em = V.emitted.size(); if (!V.active()) { V.recv(cat(data_meta(1), c.blob(40))); V.recv(seedpkt.empty() ? pkt : seedpkt); V.send({1, 2}); CHECK(c, V.got.size() == g && V.emitted.size() == em && V.error() && V.bad.empty(), "an endpoint whose handshake failed went on (%s) %s", desc.c_str(), V.bad.c_str()); } }
    c.nontrivial(); c.label(std::string(V.name) + (good ? " good" : refused ? " refused" : mutated ? " altered" : " " + (wrong.size() > 30 ? "several" : wrong))); c.note("%s -> %s", desc.c_str(), status_name(V.status()));
}

// Two honest endpoints, each accepting only the other's identity, with an attacker that relays, drops, alters, replays packets
// of earlier handshakes of the same two, and speaks under its own identity.
PROP(C18, mitm, 2500, 60000) {
    Chain ca = party_chain(c, 0), cb = party_chain(c, 1), ce = party_chain(c, 2); Chain pa = pubc(ca.get()), pb = pubc(cb.get()); Bytes ba = chain_bytes(ca.get()), bb = chain_bytes(cb.get()), be = chain_bytes(ce.get()); std::vector<Bytes> seen; std::set<Bytes> honest[2]; // packets each identity really made, without signature
    auto body = [](const Bytes &p) { return p.size() > 143 ? Bytes(p.begin(), p.end() - 143) : p; };
    struct World { End A, B; std::vector<Bytes> inA, inB; }; bool pinA = c.draw(1), pinB = c.draw(1);
    auto make = [&](World &w) { w.A.create("initiator", ca.get(), pinA ? pb.get() : nullptr, gen_evo(c)); w.B.create("responder", cb.get(), pinB ? pa.get() : nullptr, gen_evo(c)); w.A.decide = [&](const Bytes &ch) { return ch == bb ? 1 : -1; }; w.B.decide = [&](const Bytes &ch) { return ch == ba ? 1 : -1; }; };
    World old, w; make(old); make(w); old.A.start(); for (int i = 0; i < 4; i++) { if (!old.A.out.empty()) old.B.recv(old.A.pop()); if (!old.B.out.empty()) old.A.recv(old.B.pop()); } for (auto &b : old.A.emitted) honest[0].insert(body(b)), seen.push_back(b); for (auto &b : old.B.emitted) honest[1].insert(body(b)), seen.push_back(b);
    w.A.start(); unsigned n = 3 + (unsigned)c.draw(6), own = 0; std::string trail;
    for (unsigned i = 0; i < n; i++) {
        for (auto &b : w.A.emitted) { honest[0].insert(body(b)); if (std::find(seen.begin(), seen.end(), b) == seen.end()) seen.push_back(b); } for (auto &b : w.B.emitted) { honest[1].insert(body(b)); if (std::find(seen.begin(), seen.end(), b) == seen.end()) seen.push_back(b); }
        bool toA = c.draw(1); End &v = toA ? w.A : w.B, &o = toA ? w.B : w.A; Bytes b; unsigned k = c.pick({4, 2, 2, 3, 3, 2, 1});
        switch (k) {
            case 0: if (o.out.empty()) continue; b = o.pop(); break;
            case 1: b = seen[c.draw(seen.size() - 1)]; own++; break;
            case 2: b = seen[c.draw(seen.size() - 1)]; c.tamper(b); own++; break;
            case 3: { RefPeer E; E.local = be; E.sign_key.reset(wickr_ec_key_copy(ce->node->sig_key)); E.eph = gen_ec_key(c); if (toA) { if (w.A.emitted.empty()) continue; b = E.respond(w.A.emitted[0], c.blob(32), 5, 5); } else b = E.seed(true); own++; break; }  // as itself
            case 4: { RefPeer E; E.local = toA ? bb : ba; E.sign_key.reset(wickr_ec_key_copy(c.draw(1) ? ce->node->sig_key : ce->root->sig_key)); E.eph = gen_ec_key(c); if (toA) { if (w.A.emitted.empty()) continue; b = E.respond(w.A.emitted[0], c.blob(32), 5, 5); } else b = E.seed(c.draw(1)); own++; break; } // claiming the other's identity
            case 5: { b = seen[c.draw(seen.size() - 1)]; if (b.size() < 200 || is_data(b)) continue; Parsed p = parse_hs(b); EcKey e = gen_ec_key(c); Bytes nb = p.seed ? seed_body(p.chain, to(e->pub_data), p.need) : response_body(to(e->pub_data), p.enc, p.has_chain ? &p.chain : nullptr); b = cat(cat(hs_meta(2, 1, 0), nb), Bytes(b.end() - 143, b.end())); own++; break; } // ephemeral key swapped, signature kept
            default: { Bytes x = seen[c.draw(seen.size() - 1)]; if (x.size() < 160) continue; b = cat(body(x), sign(ce->node->sig_key, body(x))); own++; break; }                          // re-signed
        }
        if (b.empty()) continue; bool far = false; if (is_data(b) && b.size() > 9) for (int q = 3; q < 9; q++) far |= b[(size_t)q] != 0; if (far) continue;
        trail += std::to_string(k) + (toA ? "A" : "B") + " "; int before = v.status(); v.recv(b); (toA ? w.inA : w.inB).push_back(b); hang() = false; CHECK(c, v.bad.empty(), "%s", v.bad.c_str());
        authentic(c, v, (toA ? pinA : pinB) ? (toA ? pb.get() : pa.get()) : nullptr, toA ? w.inA : w.inB, trail.c_str());
        if (before != TRANSPORT_STATUS_ACTIVE && v.active()) { CHECK(c, honest[toA ? 1 : 0].count(body(b)), "the %s became active on a handshake packet its true peer never made (%s)", v.name.c_str(), trail.c_str()); if (toA) { bool fresh = false; for (auto &x : w.B.emitted) fresh |= body(x) == body(b); CHECK(c, fresh, "the initiator became active on a replayed response (%s)", trail.c_str()); } c.label(own ? "active under attack" : "active"); }
        if (v.active() && c.chance(1, 3)) v.send(c.blob1(30));
        CHECK(c, v.got.empty() || honest[0].size(), "unreachable"); for (auto &g : v.got) (void)g;
    }
    if (own) c.nontrivial(); c.label(w.A.error() ? "initiator error" : w.A.active() ? "initiator active" : "initiator waiting"); c.label(w.B.error() ? "responder error" : w.B.active() ? "responder active" : "responder waiting"); c.note("%s", trail.c_str());
}

// The handshake interface itself, in any order of calls: stream keys come out only after verification, and both sides get the same ones.
struct HS { Handshake h; std::vector<Bytes> asked; static void cb(const wickr_transport_handshake_t *, wickr_identity_chain_t *id, void *u) { HS *s = (HS *)u; Buf b(wickr_identity_chain_serialize(id)); s->asked.push_back(to(b)); wickr_identity_chain_destroy(&id); } };
PROP(C18, handshake_api, 3000, 70000) {
    Chain cc[2] = {party_chain(c, 0), party_chain(c, 1)}; Chain pc[2] = {pubc(cc[0].get()), pubc(cc[1].get())}; HS H[2]; bool pin[2] = {(bool)c.draw(1), (bool)c.draw(1)}; struct M { bool started = false, accepted = false, approved = false, failed = false, done = false; Bytes pkt; } M[2]; std::vector<Bytes> bag; Bytes keyL[2], keyR[2]; std::string trail; unsigned odd = 0; int initiator = -1;
    for (int i = 0; i < 2; i++) { Chain l(wickr_identity_chain_copy(cc[i].get())), r(pin[i] ? wickr_identity_chain_copy(pc[1 - i].get()) : nullptr); uint32_t evo = 1 + (uint32_t)c.edge(32767); H[i].h.reset(wickr_transport_handshake_create(ENG, l.release(), r.release(), HS::cb, evo, &H[i])); CHECK(c, H[i].h, "create"); }
    auto st = [&](int i) { return (int)wickr_transport_handshake_get_status(H[i].h.get()); };
    unsigned n = 6 + (unsigned)c.draw(8), step = 0; bool straight = c.chance(1, 2); if (straight) n = 8;
    for (unsigned q = 0; q < n; q++) {
        int i, k; if (straight) { static const int I[8] = {0, 1, 1, 1, 0, 0, 0, 0}, K[8] = {0, 1, 2, 3, 1, 2, 3, 3}; if (step >= 8) break; i = I[step]; k = K[step]; step++; if (c.chance(1, 12)) { i = (int)c.draw(1); k = (int)c.draw(4); odd++; } } else { i = (int)c.draw(1); k = (int)c.pick({2, 4, 3, 2, 1}); odd++; }
        if (straight && k == 2 && pin[i]) continue; static const char *const KN[5] = {"start", "process", "approve", "finalize", "tamper"}; trail += std::string(KN[k]) + std::to_string(i) + " "; int before = st(i); size_t asked = H[i].asked.size(); M[i].failed |= before == TRANSPORT_HANDSHAKE_STATUS_FAILED; wickr_transport_packet_t *out = nullptr;
        if (k == 0) { out = wickr_transport_handshake_start(H[i].h.get()); if (before == TRANSPORT_HANDSHAKE_STATUS_UNKNOWN) { CHECK(c, out && st(i) == TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS, "start fails"); M[i].started = true; initiator = i; } else CHECK(c, !out && st(i) == TRANSPORT_HANDSHAKE_STATUS_FAILED, "start in status %d is not refused", before); }
        else if (k == 1 || k == 4) {
            if (bag.empty()) continue; Bytes b = straight ? bag.back() : bag[c.draw(bag.size() - 1)]; if (k == 4) c.tamper(b); View v(b); TPacket p(wickr_transport_packet_create_from_buffer(v)); if (!p) continue; out = wickr_transport_handshake_process(H[i].h.get(), p.get());
            if (before != TRANSPORT_HANDSHAKE_STATUS_UNKNOWN && before != TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS) CHECK(c, !out && H[i].asked.size() == asked && st(i) == TRANSPORT_HANDSHAKE_STATUS_FAILED, "a packet that arrives in status %d leads to status %d", before, st(i));
            if (st(i) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION || st(i) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) { M[i].accepted = true; M[i].pkt = b; } CHECK(c, (H[i].asked.size() > asked) == (st(i) == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION && before != TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION), "identity question and status %d disagree", st(i)); if (out && !pin[i]) c.fail("a handshake packet is answered before the identity is approved (%s)", trail.c_str());
        }
        else if (k == 2) { bool yes = straight && !odd ? true : c.chance(3, 4); out = wickr_transport_handshake_verify_identity(H[i].h.get(), yes); if (yes && before == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION) M[i].approved = true; else CHECK(c, !out && st(i) == TRANSPORT_HANDSHAKE_STATUS_FAILED, "%s approval in status %d leads to status %d", yes ? "an untimely" : "a negative", before, st(i)); }
        else { HandshakeRes r(wickr_transport_handshake_finalize(H[i].h.get())); bool may = before == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION; CHECK(c, (bool)r == may, "finalize in status %d %s", before, r ? "gives keys" : "fails"); CHECK(c, st(i) == (r ? TRANSPORT_HANDSHAKE_STATUS_COMPLETE : TRANSPORT_HANDSHAKE_STATUS_FAILED), "finalize leaves status %d", st(i));
            if (r) { CHECK(c, !M[i].done && !M[i].failed, "keys come out twice or after a failure (%s)", trail.c_str()); M[i].done = true; CHECK(c, M[i].accepted && (pin[i] || M[i].approved), "keys come out without a verified identity (%s)", trail.c_str()); CHECK(c, packet_signed_by(M[i].pkt, pin[i] ? pc[1 - i].get() : parse_chain(H[i].asked.back()).get()), "keys come out of a packet its claimed sender did not sign (%s)", trail.c_str());
                Buf me(wickr_identity_chain_serialize(wickr_transport_handshake_get_local_identity(H[i].h.get()))), they(wickr_identity_chain_serialize(wickr_transport_handshake_get_remote_identity(H[i].h.get()))), own(wickr_identity_chain_serialize(cc[i].get())), peer(pin[i] ? wickr_identity_chain_serialize(pc[1 - i].get()) : mk(H[i].asked.back()));
                CHECK(c, eq(me.get(), own.get()), "the handshake reports another local identity than it was created with"); CHECK(c, eq(they.get(), peer.get()), "the handshake reports another remote identity than the one that was %s", pin[i] ? "pinned" : "approved"); CHECK(c, wickr_transport_handshake_get_user_data(H[i].h.get()) == &H[i], "the handshake's user data differs");
                auto *l = wickr_transport_handshake_res_get_local_key(r.get()), *rk = wickr_transport_handshake_res_get_remote_key(r.get()); keyL[i] = cat(to(l->cipher_key->key_data), to(l->evolution_key)); keyR[i] = cat(to(rk->cipher_key->key_data), to(rk->evolution_key)); CHECK(c, keyL[i] != keyR[i], "both directions have the same key"); if (!keyL[1 - i].empty() && bag.size() == 2 && keyL[1 - i] != keyR[i] && !M[0].failed && !M[1].failed && initiator >= 0) CHECK(c, k == 4 || odd, "the two sides derived different keys"); if (!odd && !keyL[1 - i].empty()) CHECK(c, keyL[1 - i] == keyR[i] && keyR[1 - i] == keyL[i], "the two sides of a straight handshake derived different keys"); } }
        if (out) { Buf s(wickr_transport_packet_serialize(out)); bag.push_back(to(s)); wickr_transport_packet_destroy(&out); }
        if (before == TRANSPORT_HANDSHAKE_STATUS_FAILED) CHECK(c, st(i) == TRANSPORT_HANDSHAKE_STATUS_FAILED, "a failed handshake leaves that status (%s)", trail.c_str());
    }
    if (!odd) CHECK(c, M[0].done && M[1].done, "a straight handshake does not complete: statuses %d %d (%s)", st(0), st(1), trail.c_str());
    c.nontrivial(); c.label(M[0].done && M[1].done ? "both complete" : M[0].done || M[1].done ? "one complete" : "none complete"); c.note("%s", trail.c_str());
}
