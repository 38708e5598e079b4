// Counts heap blocks that outlive an operation. A block is reported only if every repetition of the operation leaves some behind, so one-time caches do not count.
#pragma once
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <openssl/err.h>
#include <openssl/crypto.h>
#include "common.h"
namespace leak {
static const size_t CAP = 1 << 17; static const volatile void *tab[CAP]; static size_t live = 0; static bool on = false, installed = false;
inline size_t slot(const volatile void *p) { return (size_t)((uintptr_t)p * 0x9E3779B97F4A7C15ull >> 47) & (CAP - 1); }
__attribute__((no_sanitize("address"))) inline void on_malloc(const volatile void *p, size_t) { if (!on || !p || live > CAP / 2) return; size_t i = slot(p); while (tab[i]) i = (i + 1) & (CAP - 1); tab[i] = p; live++; }
__attribute__((no_sanitize("address"))) inline void on_free(const volatile void *p) {
    if (!on || !p) return; size_t i = slot(p); while (tab[i] && tab[i] != p) i = (i + 1) & (CAP - 1); if (!tab[i]) return; live--;
    for (size_t j = i;;) { tab[i] = nullptr; for (;;) { j = (j + 1) & (CAP - 1); if (!tab[j]) return; size_t k = slot(tab[j]); if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue; break; } tab[i] = tab[j]; i = j; }
}
inline std::string where(const volatile void *p) { // the library function that allocated the block
    void *tr[12]; int tid; size_t n = __asan_get_alloc_stack((void *)p, tr, 12, &tid); std::string s; char buf[256];
    for (size_t i = 1; i < n; i++) { __sanitizer_symbolize_pc(tr[i], "%f@%l", buf, sizeof buf); s += (s.empty() ? "" : " < "); s += buf; } return s;
}
template <class F> std::string check(F &&f) {
    if (!installed) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); installed = true; }
    for (int round = 0; round < 3; round++) {
        ERR_clear_error(); memset((void *)tab, 0, live || round ? sizeof tab : 0); live = 0; on = true; f(); ERR_clear_error(); if (live) OPENSSL_thread_stop(); on = false; if (!live) return "";
        if (round == 2) { std::string s = std::to_string(live) + " blocks, first from "; for (size_t i = 0; i < CAP; i++) if (tab[i]) { s += where(tab[i]); break; } if (getenv("LEAKDBG")) for (size_t i = 0; i < CAP; i++) if (tab[i]) __asan_describe_address((void *)tab[i]); memset((void *)tab, 0, sizeof tab); live = 0; return s; }
    }
    return "";
}
}
