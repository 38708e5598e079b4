// C22: buffers and arrays behave as exact bounded values
#include "common.h"
#include <map>

static const size_t MAXB = (size_t)INT32_MAX - sizeof(wickr_buffer_t);
// a length that cannot be honoured for a buffer of n bytes, biased towards wrap-around values
static size_t wild(Case &c, size_t n) {
    switch (c.pick({3, 2, 2, 2, 2})) {
        case 0: return n + (size_t)c.edge(40);
        case 1: return MAXB - (size_t)c.draw(3) + (size_t)c.draw(3);
        case 2: return (size_t)0 - (size_t)c.edge(64);
        case 3: return ((size_t)1 << (31 + c.draw(32))) + (size_t)c.draw(4) - 2;
        default: return (size_t)c.edge(~0ull);
    }
}
static int cmp_calls; static const volatile void *cmp_a, *cmp_b; static size_t cmp_n; static int cmp_ret;
static int spy_cmp(const volatile void *a, const volatile void *b, size_t n) { cmp_calls++; cmp_a = a; cmp_b = b; cmp_n = n; return cmp_ret; }
static int loose_cmp(const volatile void *a, const volatile void *b, size_t n) { for (size_t i = 0; i < n; i++) if ((((const volatile uint8_t *)a)[i] ^ ((const volatile uint8_t *)b)[i]) & 0xdf) return 1; return 0; }

PROP(C22, create, 200000, 8000000) {
    unsigned k = (unsigned)c.draw(3); size_t n = c.chance(1, 4) ? wild(c, 0) : c.size(3000); Bytes d;
    if (k >= 2 && n <= 4096) d = c.blob(n);
    if (n > 4096 && n <= MAXB) return; // large but legal allocations are not made
    View v(d); Buf b;
    if (k == 0) b.reset(wickr_buffer_create_empty(n)); else if (k == 1) b.reset(wickr_buffer_create_empty_zero(n)); else if (k == 2) b.reset(wickr_buffer_create(v.b.bytes, n));
    else { wickr_buffer_t f = v.b; f.length = n; b.reset(wickr_buffer_copy(&f)); }
    bool ok = n > 0 && n <= MAXB;
    CHECK(c, (bool)b == ok, "constructor %u for %zu bytes %s", k, n, b ? "succeeded" : "failed");
    if (!ok) { c.label("refused"); c.nontrivial(); c.note("constructor %u refused %zu", k, n); return; }
    CHECK(c, b->length == n, "constructor %u: length %zu for %zu", k, b->length, n);
    if (k == 0) memset(b->bytes, 0xa5, n); // every byte is usable
    if (k == 1) CHECK(c, to(b) == Bytes(n, 0), "empty_zero of %zu is not zero", n);
    if (k >= 2) { CHECK(c, to(b) == d && b->bytes != v.b.bytes, "copied bytes"); v.b.bytes[0] ^= 1; CHECK(c, to(b) == d, "the new buffer shares storage with its source"); }
    wickr_buffer_t *raw = b.release(); if (c.chance(1, 2)) wickr_buffer_destroy(&raw); else wickr_buffer_destroy_zero(&raw); CHECK(c, raw == nullptr, "destroy leaves the pointer"); wickr_buffer_destroy(&raw); wickr_buffer_destroy_zero(nullptr); wickr_buffer_destroy(nullptr);
    CHECK(c, !wickr_buffer_create(nullptr, n) && !wickr_buffer_copy(nullptr), "missing argument accepted");
    if (n > 1) c.nontrivial(); c.note("constructor %u, %zu bytes", k, n);
}

PROP(C22, section, 400000, 15000000) {
    Bytes d = c.data1(c.chance(1, 20) ? 3000 : 64), src; size_t n = d.size();
    size_t st = c.chance(1, 4) ? wild(c, n) : (size_t)c.edge(n), len = c.chance(1, 4) ? wild(c, n) : (size_t)c.edge(n + 1);
    if (c.chance(1, 8)) len = n - st; else if (c.chance(1, 8)) len = (size_t)0 - st + (size_t)c.draw(3); // exact fit; sum wraps round
    bool ok = len > 0 && st < n && len <= n - st;
    View v(d);
    Buf s(wickr_buffer_copy_section(v, st, len));
    CHECK(c, (bool)s == ok, "copy_section(%zu, %zu) of %zu bytes %s", st, len, n, s ? "succeeded" : "refused");
    if (ok) { CHECK(c, to(s) == Bytes(d.begin() + st, d.begin() + st + len), "copy_section(%zu, %zu) of %zu bytes returned other bytes", st, len, n); CHECK(c, s->bytes != v.b.bytes + st, "shared storage"); }
    CHECK(c, v.bytes() == d, "copy_section changed its source");
    src = c.blob(ok ? len : std::min<size_t>(len, 100)); View sv(src);
    bool m = wickr_buffer_modify_section(v, sv.b.bytes, st, len);
    CHECK(c, m == ok, "modify_section(%zu, %zu) of %zu bytes returned %d", st, len, n, (int)m);
    Bytes want = d; if (ok) std::copy(src.begin(), src.end(), want.begin() + st);
    CHECK(c, v.bytes() == want, "modify_section(%zu, %zu) of %zu bytes left other bytes", st, len, n);
    Buf z(wickr_buffer_copy_section(nullptr, st, len)); CHECK(c, !z && !wickr_buffer_modify_section(v, nullptr, st, len) && !wickr_buffer_modify_section(nullptr, sv.b.bytes, st, len), "missing argument accepted");
    c.label(ok ? (st + len == n ? "fits-to-end" : "inside") : "refused"); c.nontrivial(); c.note("section [%zu,+%zu) of %zu: %d", st, len, n, (int)ok);
}

PROP(C22, concat, 300000, 10000000) {
    Bytes a = c.data_upto(200), b = c.data_upto(200); View va(a), vb(b);
    if (c.chance(1, 5)) { // lengths that cannot be joined; the bytes are never read
        wickr_buffer_t fa = va.b, fb = vb.b; if (c.draw(1)) fa.length = MAXB - (size_t)c.edge(30); else fa.length = wild(c, MAXB); fb.length = fa.length > MAXB ? c.size(100) : MAXB - fa.length + 1 + (size_t)c.edge(1000); if (c.chance(1, 3)) fb.length = wild(c, MAXB);
        if (fa.length <= MAXB && fb.length <= MAXB - fa.length) return; if (c.draw(1)) std::swap(fa, fb);
        Buf o(wickr_buffer_concat(&fa, &fb)); wickr_buffer_t *l[2] = {&fa, &fb}; Buf p; if (fa.length && fb.length) p.reset(wickr_buffer_concat_multi(l, 2));
        CHECK(c, !o && !p, "concatenation of %zu and %zu bytes, beyond the limit, succeeded", fa.length, fb.length); c.label("over-limit"); c.nontrivial(); c.note("over limit %zu+%zu", fa.length, fb.length); return;
    }
    Buf o(wickr_buffer_concat(va, vb)); Bytes want = cat(a, b);
    CHECK(c, (bool)o == !want.empty() && to(o) == want, "concat of %zu and %zu bytes", a.size(), b.size()); CHECK(c, va.bytes() == a && vb.bytes() == b, "sources changed");
    Buf x(wickr_buffer_concat(nullptr, vb)), y(wickr_buffer_concat(va, nullptr)); CHECK(c, !x && !y, "missing argument accepted");
    if (a.size() && b.size()) c.nontrivial(); c.label("pair"); c.note("concat %zu+%zu", a.size(), b.size());
}

PROP(C22, concat_multi, 200000, 6000000) {
    size_t n = c.chance(1, 30) ? 250 + (size_t)c.draw(5) : c.size1(12); std::vector<View *> vs; std::vector<wickr_buffer_t *> l; Bytes want; size_t gaps = 0;
    for (size_t i = 0; i < n; i++) { unsigned k = c.pick({6, 1, 1}); if (k == 1) { l.push_back(nullptr); gaps++; continue; } View *v = new View(k == 2 ? Bytes() : c.blob1(40)); c.own([v] { delete v; }); vs.push_back(v); l.push_back(v->ptr()); Bytes b = v->bytes(); if (b.empty()) gaps++; want = cat(want, b); }
    wickr_buffer_t **list = (wickr_buffer_t **)malloc(n * sizeof *list); memcpy(list, l.data(), n * sizeof *list); c.own([list] { free(list); });
    Buf o(wickr_buffer_concat_multi(list, (uint8_t)n));
    CHECK(c, (bool)o == !want.empty() && to(o) == want, "concat_multi of %zu buffers gave %zu bytes, expected %zu", n, o ? o->length : (size_t)0, want.size());
    Buf z(wickr_buffer_concat_multi(list, 0)), y(wickr_buffer_concat_multi(nullptr, (uint8_t)n)); CHECK(c, !z && !y, "concat_multi of nothing");
    if (n > 200) c.label("many"); if (gaps) c.label("gaps"); if (n > 1) c.nontrivial(); c.note("%zu buffers, %zu bytes, %zu absent or empty", n, want.size(), gaps);
}

PROP(C22, equal, 200000, 6000000) {
    Bytes a = c.blob_upto(100), b = a; if (c.chance(2, 3)) c.mutate(b); if (c.chance(1, 8) && !b.empty()) b[c.draw(b.size() - 1)] ^= 0x20; View va(a), vb(b);
    bool same = a == b; CHECK(c, wickr_buffer_is_equal(va, vb, nullptr) == same, "is_equal(%s, %s) without a function", hex(a).c_str(), hex(b).c_str());
    if (a.size() == b.size()) { bool loose = true; for (size_t i = 0; i < a.size(); i++) loose &= !((a[i] ^ b[i]) & 0xdf); CHECK(c, wickr_buffer_is_equal(va, vb, loose_cmp) == loose, "is_equal does not use the given comparison"); }
    else CHECK(c, !wickr_buffer_is_equal(va, vb, loose_cmp), "buffers of different length are equal");
    cmp_calls = 0; static const int R[5] = {0, 1, -1, 1 << 30, INT32_MIN}; cmp_ret = R[c.draw(4)]; bool r = wickr_buffer_is_equal(va, vb, spy_cmp);
    if (a.size() == b.size()) CHECK(c, cmp_calls == 1 && cmp_n == a.size() && ((cmp_a == va.b.bytes && cmp_b == vb.b.bytes) || (cmp_b == va.b.bytes && cmp_a == vb.b.bytes)) && r == (cmp_ret == 0), "comparison function called with other data or its result %d ignored", cmp_ret); else CHECK(c, !r, "different lengths equal");
    CHECK(c, !wickr_buffer_is_equal(nullptr, vb, nullptr) && !wickr_buffer_is_equal(va, nullptr, nullptr) && !wickr_buffer_is_equal(nullptr, nullptr, nullptr), "missing buffer equal");
    CHECK(c, wickr_buffer_is_equal(va, va, nullptr), "not equal to itself"); c.label(same ? "equal" : a.size() == b.size() ? "same-length" : "other-length"); if (a.size()) c.nontrivial(); c.note("%zu vs %zu bytes", a.size(), b.size());
}

// ------------------------------------------------------------------------------------------ arrays
struct Item { int val; };
static std::map<Item *, int> live; static long copies_left; static bool bad_free; static long n_copies;
static Item *item_new(int v) { Item *i = (Item *)malloc(sizeof *i); i->val = v; live[i] = v; return i; }
static void item_free(Item *i) { live.erase(i); free(i); }
static void *cb_copy(void *p) { n_copies++; if (copies_left == 0) return nullptr; if (copies_left > 0) copies_left--; if (!live.count((Item *)p)) { bad_free = true; return nullptr; } return item_new(((Item *)p)->val); }
static void cb_destroy(void **p) { Item *i = (Item *)*p; if (!live.count(i)) { bad_free = true; return; } item_free(i); *p = nullptr; }
struct Arr { wickr_array_t *a; std::vector<Item *> s; };

PROP(C22, array_history, 120000, 5000000) {
    live.clear(); bad_free = false; copies_left = -1; int next = 1; std::vector<Arr> as;
    auto fresh = [&](uint32_t n) { Arr x; x.a = wickr_array_new(n, (uint8_t)c.draw(255), cb_copy, cb_destroy); x.s.assign(n, nullptr); return x; };
    auto check = [&](Arr &x, const char *what) {
        CHECK(c, !bad_free, "after %s: an item that is not alive was copied or destroyed", what); CHECK(c, wickr_array_get_item_count(x.a) == x.s.size(), "after %s: item count %u, expected %zu", what, wickr_array_get_item_count(x.a), x.s.size());
        for (size_t i = 0; i < x.s.size(); i++) { Item *p = (Item *)wickr_array_fetch_item(x.a, (uint32_t)i, false); CHECK(c, p == x.s[i], "after %s: slot %zu holds another item", what, i); }
    };
    uint32_t n0 = (uint32_t)c.size(c.chance(1, 40) ? 1500 : 8); { Arr x = fresh(n0); CHECK(c, x.a, "array of %u refused", n0); as.push_back(x); } c.own([] { live.clear(); });
    CHECK(c, !wickr_array_new(3, 1, nullptr, cb_destroy) && !wickr_array_new(3, 1, cb_copy, nullptr), "array without functions");
    unsigned steps = (unsigned)c.range(1, 25); size_t sets = 0, fails = 0, deep = 0; std::string tr;
    for (unsigned st = 0; st < steps; st++) {
        size_t ai = c.draw(as.size() - 1); Arr &x = as[ai]; uint32_t idx = c.chance(1, 6) ? (c.draw(1) ? (uint32_t)x.s.size() : (uint32_t)c.edge(UINT32_MAX)) : x.s.empty() ? 0 : (uint32_t)c.draw(x.s.size() - 1); bool in = idx < x.s.size();
        switch (c.pick({5, 4, 2, 3, 2, 2, 1})) {
            case 0: { // set a copy of an outside item (or of the item already there)
                bool self = in && x.s[idx] && c.chance(1, 5); Item *it = self ? x.s[idx] : item_new(next++); int val = it->val; bool fail = c.chance(1, 6); copies_left = fail ? 0 : -1; size_t before = live.size(); Item *old = in ? x.s[idx] : nullptr;
                bool r = wickr_array_set_item(x.a, idx, it, true); copies_left = -1;
                CHECK(c, r == (in && !fail), "set_item(copy) at %u of %zu returned %d (copy %s)", idx, x.s.size(), (int)r, fail ? "fails" : "works");
                if (r) { Item *p = (Item *)wickr_array_fetch_item(x.a, idx, false); CHECK(c, p && p != it && live.count(p) && p->val == val, "set_item(copy) did not store a copy"); x.s[idx] = p; if (old) CHECK(c, !live.count(old), "the replaced item was not destroyed"); CHECK(c, live.size() == before + 1 - (old ? 1 : 0), "items alive after set: %zu, before %zu", live.size(), before); sets++; }
                else { CHECK(c, live.size() == before, "failed set_item created or destroyed items"); fails++; }
                if (!self) { CHECK(c, live.count(it) && it->val == val, "set_item(copy) took or changed the caller's item"); item_free(it); } tr += r ? "C" : "c"; break; }
            case 1: { // hand an item over
                Item *it = item_new(next++), *old = in ? x.s[idx] : nullptr; bool r = wickr_array_set_item(x.a, idx, it, false); CHECK(c, r == in, "set_item at %u of %zu returned %d", idx, x.s.size(), (int)r);
                if (r) { x.s[idx] = it; if (old) { CHECK(c, live.count(old), "set_item without copy destroyed the caller's item"); item_free(old); } sets++; } else { item_free(it); fails++; } tr += r ? "H" : "h"; break; }
            case 2: { // clear
                bool cp = c.draw(1); Item *old = in ? x.s[idx] : nullptr; bool r = wickr_array_set_item(x.a, idx, nullptr, cp); CHECK(c, r == in, "clearing slot %u of %zu returned %d", idx, x.s.size(), (int)r); if (in) { x.s[idx] = nullptr; if (old) { if (cp) CHECK(c, !live.count(old), "cleared item not destroyed"); else { CHECK(c, live.count(old), "cleared item destroyed"); item_free(old); } } } tr += "0"; break; }
            case 3: { // fetch
                bool cp = c.draw(1), fail = cp && c.chance(1, 5); copies_left = fail ? 0 : -1; Item *p = (Item *)wickr_array_fetch_item(x.a, idx, cp); copies_left = -1; Item *w = in ? x.s[idx] : nullptr;
                if (!w || fail) CHECK(c, !p, "fetch at %u of %zu returned an item", idx, x.s.size()); else if (!cp) CHECK(c, p == w, "fetch returned another item"); else { CHECK(c, p && p != w && live.count(p) && p->val == w->val, "fetch(copy) did not copy"); item_free(p); } tr += "F"; break; }
            case 4: { // deep copy
                long have = 0; for (Item *i : x.s) have += i != nullptr; bool fail = have && c.chance(1, 4); copies_left = fail ? (long)c.draw(have - 1) : -1; size_t before = live.size(); wickr_array_t *y = wickr_array_copy(x.a, true); copies_left = -1;
                CHECK(c, (y != nullptr) == !fail, "deep copy %s", y ? "succeeded although an item copy failed" : "failed"); if (!y) { CHECK(c, live.size() == before, "failed deep copy left %zd items behind", (ssize_t)live.size() - (ssize_t)before); fails++; break; }
                Arr z; z.a = y; z.s.assign(x.s.size(), nullptr); CHECK(c, wickr_array_get_item_count(y) == x.s.size(), "deep copy size"); for (size_t i = 0; i < x.s.size(); i++) { Item *p = (Item *)wickr_array_fetch_item(y, (uint32_t)i, false); CHECK(c, (p != nullptr) == (x.s[i] != nullptr) && (!p || (p != x.s[i] && live.count(p) && p->val == x.s[i]->val)), "deep copy slot %zu", i); z.s[i] = p; }
                as.push_back(z); deep++; tr += "D"; break; }
            case 5: { // shallow copy
                size_t before = live.size(); wickr_array_t *y = wickr_array_copy(x.a, false); CHECK(c, y && live.size() == before && wickr_array_get_item_count(y) == x.s.size(), "shallow copy"); for (size_t i = 0; i < x.s.size(); i++) CHECK(c, wickr_array_fetch_item(y, (uint32_t)i, false) == x.s[i], "shallow copy slot %zu", i);
                if (in) { Item *it = item_new(next++); CHECK(c, wickr_array_set_item(y, idx, it, false), "set in shallow copy"); CHECK(c, wickr_array_fetch_item(x.a, idx, false) == x.s[idx], "a change to the shallow copy shows in the original"); item_free(it); }
                wickr_array_destroy(&y, false); CHECK(c, !y && live.size() == before, "destroying a shallow copy destroyed items"); tr += "S"; break; }
            default: if (as.size() > 1) { // destroy one array
                bool di = c.draw(1); size_t have = 0; for (Item *i : x.s) have += i != nullptr; size_t before = live.size(); wickr_array_destroy(&x.a, di); CHECK(c, !x.a && live.size() == before - (di ? have : 0), "destroy(%d) of %zu items: %zu alive before, %zu after", (int)di, have, before, live.size()); CHECK(c, !bad_free, "destroy touched a dead item"); if (!di) for (Item *i : x.s) if (i) item_free(i); as.erase(as.begin() + ai); tr += "X"; }
        }
        for (auto &y : as) check(y, "a step");
    }
    for (auto &x : as) { wickr_array_destroy(&x.a, true); CHECK(c, !x.a, "destroy leaves the pointer"); }
    CHECK(c, !bad_free && live.empty(), "%zu items leaked by their arrays", live.size());
    CHECK(c, !wickr_array_copy(nullptr, true) && wickr_array_get_item_count(nullptr) == 0 && !wickr_array_fetch_item(nullptr, 0, false) && !wickr_array_set_item(nullptr, 0, &next, false), "missing array"); wickr_array_t *nul = nullptr; wickr_array_destroy(&nul, true); wickr_array_destroy(nullptr, true);
    if (sets > 1) c.nontrivial(); if (deep) c.label("deep-copy"); if (fails) c.label("refusals"); c.note("array of %u: %s", n0, tr.c_str());
}

PROP(C22, typed_arrays, 12000, 300000) {
    uint32_t n = (uint32_t)c.range(1, c.chance(1, 60) ? 400 : 6); std::vector<Node> nodes; wickr_node_array_t *na = wickr_node_array_new(n); std::vector<wickr_node_t *> at(n, nullptr); CHECK(c, na, "node array");
    for (unsigned i = 0; i < n + 2; i++) { if (c.chance(1, 5)) continue; Chain ch = make_chain(c); EcKey mk_ = gen_ec_key(c); Bytes dev = c.blob1(40); EphKey e(wickr_ephemeral_keypair_create(c.edge(~0ull), mk_.release(), nullptr)); nodes.push_back(Node(wickr_node_create(mk(dev), ch.release(), e.release()))); bool r = wickr_node_array_set_item(na, i, nodes.back().get()); CHECK(c, r == (i < n), "node_array_set_item(%u) of %u", i, n); if (r) at[i] = nodes.back().get(); }
    for (unsigned i = 0; i < n + 2; i++) CHECK(c, wickr_node_array_fetch_item(na, i) == (i < n ? at[i] : nullptr), "node_array_fetch_item(%u)", i);
    wickr_node_array_t *cp = wickr_node_array_copy(na); CHECK(c, cp && wickr_array_get_item_count(cp) == n, "node array copy"); 
    for (unsigned i = 0; i < n; i++) { wickr_node_t *p = wickr_node_array_fetch_item(cp, i); CHECK(c, (p != nullptr) == (at[i] != nullptr) && (!p || (p != at[i] && same(p, at[i]))), "copied node %u differs", i); }
    wickr_array_destroy(&cp, true); CHECK(c, !cp, "pointer"); wickr_node_array_destroy(&na); CHECK(c, !na, "node_array_destroy leaves the pointer");
    for (auto &x : nodes) { Node y(wickr_node_copy(x.get())); CHECK(c, same(x.get(), y.get()), "the caller's node was touched"); }
    wickr_exchange_array_t *ea = wickr_exchange_array_new(n); std::vector<wickr_key_exchange_t *> ex(n, nullptr); CHECK(c, ea, "exchange array");
    for (unsigned i = 0; i < n + 1; i++) { CipherRes cr = gen_cipher_result(c); KeyEx k(wickr_key_exchange_create(mk(c.blob1(40)), c.edge(~0ull), cr.release())); CHECK(c, k, "key exchange"); bool r = wickr_exchange_array_set_item(ea, i, k.get()); CHECK(c, r == (i < n), "exchange_array_set_item(%u) of %u", i, n); if (r) ex[i] = k.release(); }
    for (unsigned i = 0; i < n + 1; i++) CHECK(c, wickr_exchange_array_fetch_item(ea, i) == (i < n ? ex[i] : nullptr), "exchange_array_fetch_item(%u)", i);
    wickr_exchange_array_t *ec = wickr_exchange_array_copy(ea); CHECK(c, ec, "exchange array copy"); for (unsigned i = 0; i < n; i++) { auto *p = wickr_exchange_array_fetch_item(ec, i); CHECK(c, p && p != ex[i] && same(p, ex[i]), "copied exchange %u differs", i); }
    wickr_exchange_array_destroy(&ea); for (unsigned i = 0; i < n; i++) { auto *p = wickr_exchange_array_fetch_item(ec, i); KeyEx k(wickr_key_exchange_copy(p)); CHECK(c, same(k.get(), p), "copy depends on the destroyed array"); } wickr_exchange_array_destroy(&ec); CHECK(c, !ea && !ec, "destroy leaves the pointer");
    c.nontrivial(); c.label("typed"); c.note("%u nodes", n);
}
