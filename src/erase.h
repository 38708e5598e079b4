// Watches heap blocks as they are released: secrets must have been overwritten by then.
#pragma once
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include "objs.h"
namespace erase {
struct Own { const uint8_t *p; Bytes was; };
struct State { bool on = false, installed = false; std::vector<Own> own; std::set<Bytes> windows; /* 16 bytes */ std::set<uint64_t> heads; std::string bad; size_t freed = 0, watched = 0; };
inline State &st() { static State s; return s; }
static const size_t W = 16;
inline uint64_t head(const uint8_t *p) { uint64_t h; memcpy(&h, p, 8); return h; }
__attribute__((no_sanitize("address"))) inline void on_free(const volatile void *vp) {
    State &s = st(); if (!s.on || !vp) return; s.on = false; const uint8_t *p = (const uint8_t *)vp; s.freed++; size_t n = __sanitizer_get_allocated_size(p);
    auto site = [&] { void *tr[12]; int tid; size_t k = __asan_get_alloc_stack((void *)p, tr, 12, &tid); std::string r; char b[256]; for (size_t i = 1; i < k && i < 7; i++) { __sanitizer_symbolize_pc(tr[i], "%f", b, sizeof b); r += (r.empty() ? "" : " < "); r += b; } return r; };
    for (auto &o : s.own) if (o.p == p) { s.watched++; size_t kept = 0, m = std::min(n, o.was.size()); bool constant = true; for (size_t i = 0; i < m; i++) { if (o.was[i] && p[i] == o.was[i]) kept++; if (p[i] != p[0]) constant = false; } if (kept && !constant && s.bad.empty()) { s.bad = std::to_string(kept) + " of " + std::to_string(m) + " secret bytes are still in their block when it is released (allocated in " + site() + ")"; } }
    if (s.bad.empty() && n >= W) for (size_t i = 0; i + W <= n; i++) if (s.heads.count(head(p + i)) && s.windows.count(Bytes(p + i, p + i + W))) { s.bad = "a block of " + std::to_string(n) + " bytes is released with a secret in it (allocated in " + site() + ")"; break; }
    s.on = true;
}
inline void on_malloc(const volatile void *, size_t) {}
inline void reset() { State &s = st(); s.on = false; s.own.clear(); s.windows.clear(); s.heads.clear(); s.bad.clear(); s.freed = s.watched = 0; if (!s.installed) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); s.installed = true; } }
// every 16 byte stretch of a secret that is not too regular to be recognised
inline void secret(const Bytes &b) { State &s = st(); for (size_t i = 0; i + W <= b.size(); i++) { std::set<uint8_t> d(b.begin() + (long)i, b.begin() + (long)(i + W)); if (d.size() >= 11) { s.windows.insert(Bytes(b.begin() + (long)i, b.begin() + (long)(i + W))); s.heads.insert(head(b.data() + i)); } } }
__attribute__((no_sanitize("address"))) inline void block(const wickr_buffer_t *b) { if (!b) return; size_t n = __sanitizer_get_allocated_size(b->bytes); st().own.push_back({b->bytes, Bytes(b->bytes, b->bytes + n)}); }
inline void key(const wickr_ec_key_t *k) { if (!k || !k->pri_data) return; block(k->pri_data); secret(ref::p521_scalar(to(k->pri_data))); }
struct Watch : objs::Visitor { size_t n = 0; void obj(const char *, bool) override {} void num(const char *, uint64_t) override {} void buf(const char *, wickr_buffer_t *&b, objs::Kind k) override { if (!b) return; if (k == objs::SECRET) { block(b); secret(to(b)); n++; } if (k == objs::PRIVATE_EC) { block(b); secret(ref::p521_scalar(to(b))); n++; } } };
struct Randomize : objs::Visitor { uint64_t s; Randomize(uint64_t x) : s(x) {} void obj(const char *, bool) override {} void num(const char *, uint64_t) override {} void buf(const char *, wickr_buffer_t *&b, objs::Kind k) override { if (!b || k != objs::SECRET) return; Bytes h; for (size_t i = 0; i < b->length; i++) { if (i % 64 == 0) { Bytes seed = {'s'}; for (int j = 0; j < 8; j++) seed.push_back((uint8_t)(s >> 8 * j)); h = ref::sha(512, seed); s++; } b->bytes[i] = h[i % 64]; } } };
template <class F> std::string during(F &&f) { st().on = true; f(); st().on = false; return st().bad; }
}
