// A small choice-sequence property-based testing engine with coverage-guided mutation.
//
// A property is a function of a Case; every random decision it makes is one recorded 64-bit choice.
// Replaying the recorded choices reproduces the case exactly; shrinking edits the choices.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

struct Failure { std::string msg; };
struct Discard {};

class Case {
public:
    // --- choices -------------------------------------------------------------
    uint64_t draw(uint64_t max);                 // uniform in [0,max]
    uint64_t edge(uint64_t max);                 // biased to small, powers of two, constants seen in comparisons
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    uint64_t edge_range(uint64_t lo, uint64_t hi) { return lo + edge(hi - lo); }
    size_t size(size_t max) { return (size_t)edge(max); }
    size_t size1(size_t max) { return 1 + (size_t)edge(max - 1); }
    bool chance(unsigned num, unsigned den);     // true num times in den; shrinks to false
    unsigned pick(std::initializer_list<unsigned> weights); // weighted index, shrinks to 0
    Bytes blob(size_t n);                        // n bytes: constant, counting, random or poked
    Bytes blob_upto(size_t max) { return blob(size(max)); }
    Bytes blob1(size_t max) { return blob(size1(max)); }
    // contents of no particular size: up to max, now and then far beyond it
    size_t far(size_t max) { return chance(1, 100) ? std::max<size_t>(max, !chance(1, 4) ? 5000 : chance(1, 5) ? 1300000 : 70000) : max; }
    Bytes data_upto(size_t max) { return blob_upto(far(max)); }
    Bytes data1(size_t max) { return blob1(far(max)); }
    void mutate(Bytes &b);                       // one random structural edit (flip, set, delete, insert, truncate, dup)
    bool tamper(Bytes &b);                       // edit guaranteed to change b; false if impossible

    // --- reporting -----------------------------------------------------------
    void label(const std::string &l) { labels.insert(l); }
    void nontrivial() { nontriv = true; }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // A known, listed defect was reached: counted, never a violation.
    void known(const std::string &id, const std::string &what) { knowns[id] = what; }
    void own(std::function<void()> d) { cleanups.push_back(std::move(d)); }

    // --- engine side ---------------------------------------------------------
    std::set<std::string> labels;
    std::map<std::string, std::string> knowns;
    bool nontriv = false;
    bool want_notes = false;
    std::string notes;
    std::vector<std::function<void()>> cleanups;
    void run_cleanups();
    uint64_t raw(uint64_t max, bool edgy);
};

#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

typedef void (*PropFn)(Case &);
struct Sub { const char *prop; const char *name; PropFn fn; long quick; long thorough; };
std::vector<Sub> &subs();
struct Register { Register(const char *p, const char *n, PropFn f, long q, long t) { subs().push_back({p, n, f, q, t}); } };

// PROP(C06, roundtrip, quick_cases, thorough_cases) { ... use c ... }
#define PROP(id, name, quick, thorough) \
    static void prop_##id##_##name(pbt::Case &c); \
    static pbt::Register reg_##id##_##name(#id, #name, prop_##id##_##name, quick, thorough); \
    static void prop_##id##_##name(pbt::Case &c)

// --- deterministic random source behind OpenSSL's RAND ------------------------
struct Rng {
    void reseed(uint64_t s);
    uint64_t calls = 0;         // requests since reseed
    uint64_t bytes = 0;
    int64_t fail_at = -1;       // fail the request with this index and every later one
    bool once = false;          // fail only that request
    bool failed = false;
    bool record = false;
    std::vector<Bytes> outputs; // when record
    int fill(uint8_t *p, size_t n);
    uint64_t s[2];
};
Rng &rng();

std::string hex(const uint8_t *p, size_t n, size_t max = 32);
inline std::string hex(const Bytes &b, size_t max = 32) { return hex(b.data(), b.size(), max); }

// scratch directory private to the running worker
const std::string &scratch();

// True while running in the thorough tier.
bool thorough();
} // namespace pbt
