#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <openssl/rand.h>

namespace pbt {

std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
static bool g_thorough = false;
bool thorough() { return g_thorough; }
static std::string g_scratch;
const std::string &scratch() { return g_scratch; }

static inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
struct Prng {
    uint64_t s = 0;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : next(); } // n==0: full range
};

// ---------------------------------------------------------------------------------- shared state
static const size_t MAXCH = 1 << 17;
static const size_t HISTN = 128, HISTCH = 4000;
struct Shared {
    volatile int running;       // a case is in progress
    volatile int sub;
    volatile uint64_t index;
    volatile uint64_t nchoices;
    volatile int failed;        // PropFail recorded
    char msg[4096];
    uint64_t choices[MAXCH];
    // the last cases this process ran, for failures that need the state an earlier case left behind
    volatile uint64_t nhist;
    struct { uint32_t sub, n; uint64_t ch[HISTCH]; } hist[HISTN];
};
static Shared *g_sh;

enum Mode { RANDOM, REPLAY, MUTATED };
static Mode g_mode;
static Prng g_prng;
static std::vector<uint64_t> g_pre;    // REPLAY / MUTATED prefix
static size_t g_pos;

// ---------------------------------------------------------------------------------- coverage
static std::vector<std::pair<uint8_t *, uint8_t *>> &counters() { static std::vector<std::pair<uint8_t *, uint8_t *>> v; return v; }
static std::map<int, std::vector<uint8_t>> g_seenmap; // per sub-property: seen buckets per counter
static std::vector<uint64_t> g_dict;     // constants seen in comparisons (sorted)
static std::set<uint64_t> g_dictset;
static bool g_incase = false;
static std::vector<std::pair<uint64_t,uint64_t>> g_cmps; // operand pairs of the current case
static bool g_collect = false;
static __thread bool t_case = false; // only the thread that runs cases counts (a JVM has others)

static void dict_add(uint64_t v) {
    if (!g_collect || !t_case || v <= 16 || g_dictset.size() > 4000) return;
    if (g_dictset.insert(v).second) g_dict.push_back(v);
}
static void on_cmp(uint64_t a, uint64_t b) {
    if (!g_collect || !t_case || a == b) return;
    if (g_cmps.size() < 512 && (a > 16 || b > 16)) g_cmps.push_back({a, b});
}
} // namespace pbt

extern "C" {
#define NOSAN __attribute__((no_sanitize("address", "undefined", "coverage")))
NOSAN void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) { if (a < b) pbt::counters().push_back({a, b}); }
NOSAN void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}
NOSAN void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { pbt::on_cmp(a, b); }
NOSAN void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { pbt::on_cmp(a, b); }
NOSAN void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { pbt::on_cmp(a, b); }
NOSAN void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { pbt::on_cmp(a, b); }
NOSAN void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { pbt::dict_add(a); (void)b; }
NOSAN void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { pbt::dict_add(a); (void)b; }
NOSAN void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { pbt::dict_add(a); (void)b; }
NOSAN void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { pbt::dict_add(a); (void)b; }
NOSAN void __sanitizer_cov_trace_switch(uint64_t, uint64_t *cases) { for (uint64_t i = 0; i < cases[0]; i++) pbt::dict_add(cases[2 + i]); }
NOSAN void __sanitizer_cov_trace_div4(uint32_t v) { pbt::dict_add(v); }
NOSAN void __sanitizer_cov_trace_div8(uint64_t v) { pbt::dict_add(v); }
NOSAN void __sanitizer_cov_trace_gep(uintptr_t) {}
}

namespace pbt {

static void cov_reset() { for (auto &r : counters()) memset(r.first, 0, r.second - r.first); g_cmps.clear(); g_cmps.reserve(512); }
static inline uint8_t bucket(uint8_t c) {
    if (c == 0) return 0; if (c == 1) return 1; if (c == 2) return 2; if (c == 3) return 4; if (c < 8) return 8;
    if (c < 16) return 16; if (c < 32) return 32; if (c < 128) return 64; return 128;
}
static size_t g_features = 0;
static bool cov_new(int sub) {
    auto &g_seen = g_seenmap[sub];
    size_t total = 0; for (auto &r : counters()) total += r.second - r.first;
    if (g_seen.size() < total) g_seen.resize(total, 0);
    bool fresh = false; size_t k = 0;
    for (auto &r : counters()) for (uint8_t *p = r.first; p < r.second; p++, k++) {
        uint8_t b = bucket(*p);
        if (b & ~g_seen[k]) { g_seen[k] |= b; fresh = true; g_features++; }
    }
    return fresh;
}

// ---------------------------------------------------------------------------------- choices
static uint64_t gen_edge(uint64_t max) {
    uint64_t m1 = max + 1; // 0 means full range
    uint64_t r = g_prng.below(100), v;
    if (r < 30) v = g_prng.below(17);
    else if (r < 50) { unsigned bits = 0; while (bits < 64 && (max >> bits)) bits++;
        uint64_t k = g_prng.below(bits + 1); v = (k >= 64 ? 0 : (1ull << k)) + g_prng.below(3) - 1; }
    else if (r < 65 && !g_dict.empty()) { v = g_dict[g_prng.below(g_dict.size())];
        uint64_t t = g_prng.below(8); v += t == 0 ? 1 : t == 1 ? (uint64_t)-1 : t == 2 ? (uint64_t)-2 : 0; }
    else if (r < 85) { unsigned bits = 0; while (bits < 64 && (max >> bits)) bits++;
        uint64_t k = g_prng.below(bits + 1); v = k >= 64 ? g_prng.next() : g_prng.below(1ull << k); }
    else if (r < 88) v = max - g_prng.below(3);
    else v = g_prng.below(m1);
    if (v > max) v = m1 ? v % m1 : v;
    return v;
}

uint64_t Case::raw(uint64_t max, bool edgy) {
    uint64_t v, m1 = max + 1;
    if (g_mode != RANDOM && g_pos < g_pre.size()) {
        v = g_pre[g_pos];
        if (v > max) v = m1 ? v % m1 : v;
    } else if (g_mode == REPLAY) v = 0;
    else v = edgy ? gen_edge(max) : g_prng.below(m1);
    g_pos++;
    if (g_sh->nchoices >= MAXCH) throw Discard();
    g_sh->choices[g_sh->nchoices] = v;
    g_sh->nchoices = g_sh->nchoices + 1;
    return v;
}
uint64_t Case::draw(uint64_t max) { return max == 0 ? 0 : raw(max, false); }
uint64_t Case::edge(uint64_t max) { return max == 0 ? 0 : raw(max, true); }
bool Case::chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
unsigned Case::pick(std::initializer_list<unsigned> w) {
    uint64_t tot = 0; for (auto x : w) tot += x;
    uint64_t v = draw(tot - 1); unsigned i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
Bytes Case::blob(size_t n) {
    Bytes b(n);
    if (!n) return b;
    uint64_t kind = draw(9);
    uint64_t seed = draw(0xffff);
    if (kind == 0) memset(b.data(), (int)(seed & 0xff), n);
    else if (kind == 1) for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(seed + i);
    else if (kind == 2) { static const uint8_t sp[] = {0, 0xff, 0x7f, 0x80, '\n', '=', ' ', 1}; Prng p; p.s = seed; for (size_t i = 0; i < n; i++) b[i] = sp[p.next() & 7]; }
    else { Prng p; p.s = mix(seed * 31 + n); for (size_t i = 0; i < n; i += 8) { uint64_t x = p.next(); memcpy(&b[i], &x, std::min<size_t>(8, n - i)); } }
    if (kind == 9) { // pokes
        unsigned k = 1 + (unsigned)draw(3);
        for (unsigned i = 0; i < k; i++) { size_t pos = (size_t)edge(n - 1); uint64_t v = edge(~0ull); size_t w = (size_t)1 << draw(3); memcpy(&b[pos], &v, std::min(w, n - pos)); }
    }
    return b;
}
void Case::mutate(Bytes &b) {
    unsigned k = (unsigned)draw(9);
    size_t n = b.size();
    if (n == 0) { b = blob(size1(32)); return; }
    size_t pos = chance(1, 2) ? (size_t)draw(n - 1) : (size_t)edge(n - 1);
    switch (k) {
        case 0: case 1: b[pos] ^= (uint8_t)(1u << draw(7)); break;
        case 2: b[pos] = (uint8_t)edge(255); break;
        case 3: b[pos] = (uint8_t)(b[pos] + 1 + draw(2) * 254); break;
        case 4: { size_t l = 1 + (size_t)edge(std::min<size_t>(n - pos, 64) - 1); b.erase(b.begin() + pos, b.begin() + pos + l); break; }
        case 5: { Bytes x = blob(1 + (size_t)draw(15)); b.insert(b.begin() + pos, x.begin(), x.end()); break; }
        case 6: b.resize(pos); break;
        case 7: { Bytes x = blob(1 + (size_t)draw(31)); b.insert(b.end(), x.begin(), x.end()); break; }
        case 8: { uint64_t v = edge(~0ull); size_t w = (size_t)1 << draw(3); memcpy(&b[pos], &v, std::min(w, n - pos)); break; }
        case 9: { size_t l = 1 + (size_t)draw(std::min<size_t>(n - pos, 64) - 1); Bytes x(b.begin() + pos, b.begin() + pos + l); size_t at = (size_t)draw(n); b.insert(b.begin() + at, x.begin(), x.end()); break; }
    }
}
bool Case::tamper(Bytes &b) {
    Bytes o = b; unsigned k = 1 + (unsigned)draw(2);
    for (unsigned i = 0; i < k; i++) mutate(b);
    if (b == o) { if (b.empty()) return false; b[(size_t)draw(b.size() - 1)] ^= 1; }
    return b != o;
}
void Case::note(const char *fmt, ...) {
    if (!want_notes || notes.size() > 6000) return;
    char buf[512]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    notes += buf; notes += "; ";
}
void Case::fail(const char *fmt, ...) {
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Failure{buf};
}
void Case::run_cleanups() { while (!cleanups.empty()) { auto f = std::move(cleanups.back()); cleanups.pop_back(); f(); } }

std::string hex(const uint8_t *p, size_t n, size_t max) {
    static const char *d = "0123456789abcdef"; std::string s;
    for (size_t i = 0; i < n && i < max; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    if (n > max) s += "...(" + std::to_string(n) + ")";
    return s;
}

// ---------------------------------------------------------------------------------- RAND
static Rng g_rng;
Rng &rng() { return g_rng; }
void Rng::reseed(uint64_t x) { s[0] = mix(x); s[1] = mix(x ^ 0x5555); calls = bytes = 0; fail_at = -1; once = false; failed = false; record = false; outputs.clear(); }
int Rng::fill(uint8_t *p, size_t n) {
    uint64_t k = calls++;
    if (fail_at >= 0 && (once ? (int64_t)k == fail_at : (int64_t)k >= fail_at)) { failed = true; return 0; }
    bytes += n;
    for (size_t i = 0; i < n; ) { s[0] += 0x9e3779b97f4a7c15ull; uint64_t v = mix(s[0] ^ s[1]); size_t m = std::min<size_t>(8, n - i); memcpy(p + i, &v, m); i += m; }
    if (record) outputs.emplace_back(p, p + n);
    return 1;
}
static int rnd_bytes(unsigned char *b, int n) { return n < 0 ? 0 : g_rng.fill(b, (size_t)n); }
static int rnd_seed(const void *, int) { return 1; }
static int rnd_add(const void *, int, double) { return 1; }
static int rnd_status(void) { return 1; }
static RAND_METHOD g_rm = { rnd_seed, rnd_bytes, nullptr, rnd_add, rnd_bytes, rnd_status };

// ---------------------------------------------------------------------------------- running one case
enum Outcome { PASS, FAILED, DISCARDED };
static unsigned g_cpu_limit = 60;
static void on_prof(int) { static const char m[] = "case exceeded its CPU limit (does not terminate in practice)\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(78); }
static void arm(unsigned s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); }

static Outcome run_case(const Sub &s, Case &c) {
    g_pos = 0; g_sh->nchoices = 0; g_sh->failed = 0; g_sh->msg[0] = 0; g_sh->running = 1;
    cov_reset();
    g_rng.reseed(0);
    Outcome o = PASS;
    arm(g_cpu_limit);
    t_case = true; g_collect = true;
    try {
        g_rng.reseed(c.draw(0xffff));
        s.fn(c);
    } catch (const Failure &f) {
        g_collect = false;
        o = FAILED; g_sh->failed = 1; snprintf(g_sh->msg, sizeof g_sh->msg, "%s", f.msg.c_str());
    } catch (const Discard &) { g_collect = false; o = DISCARDED; }
    g_collect = false;
    if (o != FAILED) c.run_cleanups(); else c.cleanups.clear();
    arm(0);
    g_sh->running = 0;
    return o;
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += (char)ch;
    }
    return r + "\"";
}

// ---------------------------------------------------------------------------------- worker
struct Opts { std::string prop, out, replay; uint64_t seed = 1; int workers = 8; double scale = 1; double budget = 600; bool notes = false; std::string only; };
static Opts O;
static std::string worker_dir(int w) { return O.out + "/w" + std::to_string(w); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void rmrf(const std::string &d) { // only ever called on directories this program created under O.out
    pid_t p = fork();
    if (p == 0) { execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char *)nullptr); _exit(127); }
    int st; waitpid(p, &st, 0);
}

static void mutate_choices(std::vector<uint64_t> &v, const std::vector<std::vector<uint64_t>> &corpus) {
    unsigned n = 1 + (unsigned)g_prng.below(4);
    for (unsigned i = 0; i < n; i++) {
        if (v.empty()) return;
        size_t p = g_prng.below(v.size());
        switch (g_prng.below(10)) {
            case 0: v[p] = g_prng.next(); break;
            case 1: v[p] += 1; break;
            case 2: v[p] -= 1; break;
            case 3: v[p] = g_prng.below(17); break;
            case 4: if (!g_dict.empty()) v[p] = g_dict[g_prng.below(g_dict.size())] + g_prng.below(3) - 1; break;
            case 5: { size_t l = 1 + g_prng.below(std::min<size_t>(16, v.size() - p)); v.erase(v.begin() + p, v.begin() + p + l); break; }
            case 6: { size_t l = 1 + g_prng.below(std::min<size_t>(16, v.size() - p)); std::vector<uint64_t> x(v.begin() + p, v.begin() + p + l); v.insert(v.begin() + g_prng.below(v.size() + 1), x.begin(), x.end()); break; }
            case 7: v.resize(p); break;
            case 8: { const auto &o = corpus[g_prng.below(corpus.size())]; if (o.empty()) break; size_t q = g_prng.below(o.size()); v.resize(p); v.insert(v.end(), o.begin() + q, o.end()); break; }
            case 9: { // input-to-state: an operand of a comparison equals a choice; replace it by the other operand
                if (g_cmps.empty()) break;
                for (int t = 0; t < 8; t++) {
                    auto pr = g_cmps[g_prng.below(g_cmps.size())];
                    std::vector<size_t> hit;
                    for (size_t k = 0; k < v.size(); k++) if (v[k] == pr.first || v[k] == pr.second) hit.push_back(k);
                    if (!hit.empty()) { size_t k = hit[g_prng.below(hit.size())]; v[k] = v[k] == pr.first ? pr.second : pr.first; break; }
                }
                break;
            }
        }
    }
}

struct Stats {
    uint64_t evals = 0, nontriv = 0, discards = 0;
    std::set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::string> knowns;
    std::vector<std::string> samples;
};
static void write_stats(int w, const std::vector<const Sub *> &ss, std::vector<Stats> &st, bool complete, size_t corpus) {
    std::string p = worker_dir(w) + "/stats.json";
    FILE *f = fopen((p + ".tmp").c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"complete\":%s,\"features\":%zu,\"corpus\":%zu,\"subs\":[", complete ? "true" : "false", g_features, corpus);
    for (size_t i = 0; i < ss.size(); i++) {
        auto &s = st[i];
        fprintf(f, "%s{\"name\":%s,\"evals\":%llu,\"nontriv\":%llu,\"discards\":%llu,\"labels\":{", i ? "," : "", jstr(ss[i]->name).c_str(), (unsigned long long)s.evals, (unsigned long long)s.nontriv, (unsigned long long)s.discards);
        bool first = true;
        for (auto &l : s.labels) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long)l.second); first = false; }
        fprintf(f, "},\"knowns\":{"); first = true;
        for (auto &l : s.knowns) { fprintf(f, "%s%s:%s", first ? "" : ",", jstr(l.first).c_str(), jstr(l.second).c_str()); first = false; }
        fprintf(f, "},\"samples\":["); first = true;
        for (auto &l : s.samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(l).c_str()); first = false; }
        fprintf(f, "],\"hashes\":["); first = true;
        for (auto h : s.hashes) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
        fprintf(f, "]}");
    }
    fprintf(f, "]}\n");
    fclose(f);
    rename((p + ".tmp").c_str(), p.c_str());
}

// Scratch directories have paths of one length, so that a case that depends on the length of a path replays
static std::string scratch_at(std::string p) { p += "/"; p.resize(std::max<size_t>(p.size() + 1, 120), 's'); return p; }
static void redirect(const std::string &path) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

[[noreturn]] static void worker(int w, const std::vector<const Sub *> &ss, double deadline) {
    mkdir(worker_dir(w).c_str(), 0755);
    redirect(worker_dir(w) + "/log");
    mkdir((worker_dir(w) + "/scratch").c_str(), 0755); g_scratch = scratch_at(worker_dir(w) + "/scratch"); mkdir(g_scratch.c_str(), 0755);
    std::vector<Stats> st(ss.size());
    std::vector<std::vector<std::vector<uint64_t>>> corpus(ss.size());
    std::vector<long> todo(ss.size());
    bool complete = true;
    long total = 0;
    for (size_t i = 0; i < ss.size(); i++) {
        double n = (g_thorough ? ss[i]->thorough : ss[i]->quick) * O.scale;
        long k = (long)(n / O.workers); if (k * O.workers < (long)n) k += ((long)n - k * O.workers) > w;
        if (k == 0 && (long)n > 0 && (long)n < O.workers) k = w < (long)n;
        todo[i] = k; total += k;
    }
    std::vector<std::vector<uint64_t>> last(ss.size());
    std::vector<std::vector<std::pair<uint64_t,uint64_t>>> lastcmps(ss.size());
    std::vector<long> left = todo;
    long done = 0;
    // interleave the sub-properties proportionally, so that a budget stop covers all of them
    while (done < total) {
        size_t pickd = 0; double best = -1;
        for (size_t i = 0; i < ss.size(); i++) if (left[i] > 0) { double r = (double)left[i] / todo[i]; if (r > best) { best = r; pickd = i; } }
        size_t i = pickd; uint64_t idx = todo[i] - left[i];
        left[i]--; done++;
        if (now() > deadline) { complete = false; break; }
        uint64_t hseed = mix(mix(O.seed * 1000003 + w) ^ mix(std::hash<std::string>()(ss[i]->name)) ^ (idx * 0x2545F4914F6CDD1Dull));
        g_prng.s = hseed;
        auto &cp = corpus[i];
        g_sh->sub = (int)i; g_sh->index = idx;
        if (idx > 40 && !cp.empty() && (idx & 1)) {
            g_mode = MUTATED;
            // prefer recent entries
            size_t k = g_prng.below(2) ? cp.size() - 1 - g_prng.below(std::min<size_t>(cp.size(), 16)) : g_prng.below(cp.size());
            if (g_prng.below(4) == 0) { g_pre = last[i]; g_cmps = lastcmps[i]; } else { g_pre = cp[k]; g_cmps.clear(); }
            mutate_choices(g_pre, cp);
        } else { g_mode = RANDOM; g_pre.clear(); }
        Case c;
        c.want_notes = st[i].samples.size() < 3 || O.notes;
        Outcome o = run_case(*ss[i], c);
        if (o == FAILED) { write_stats(w, ss, st, false, 0); _exit(77); }
        st[i].evals++;
        if (g_sh->nchoices <= HISTCH) {
            auto &h = g_sh->hist[g_sh->nhist % HISTN];
            h.sub = (uint32_t)i; h.n = (uint32_t)g_sh->nchoices; memcpy(h.ch, g_sh->choices, h.n * sizeof(uint64_t));
            g_sh->nhist = g_sh->nhist + 1;
        }
        if (o == DISCARDED) { st[i].discards++; continue; }
        for (auto &l : c.labels) st[i].labels[l]++;
        for (auto &l : c.knowns) st[i].knowns[l.first] = l.second;
        if (c.nontriv) {
            st[i].nontriv++;
            uint64_t h = 1469598103934665603ull;
            for (uint64_t k = 1; k < g_sh->nchoices; k++) h = mix(h ^ g_sh->choices[k]); // choice 0 only seeds the random source
            st[i].hashes.insert(h & 0xffffffffffffull);
            if (c.want_notes && st[i].samples.size() < 3 && !c.notes.empty()) st[i].samples.push_back(c.notes);
        }
        last[i].assign(g_sh->choices, g_sh->choices + g_sh->nchoices); lastcmps[i] = g_cmps;
        if (cov_new((int)i) && g_sh->nchoices < 4000) { cp.emplace_back(g_sh->choices, g_sh->choices + g_sh->nchoices); if (cp.size() > 3000) cp.erase(cp.begin()); }
    }
    size_t cs = 0; for (auto &x : corpus) cs += x.size();
    write_stats(w, ss, st, complete, cs);
    rmrf(g_scratch);
    _exit(0);
}

// ---------------------------------------------------------------------------------- replay in a child
struct Verdict { bool fails = false; std::string msg; std::vector<uint64_t> used; bool hang = false; };
static int g_replay_no = 0;
static Shared *shared_new() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared *)p;
}
static std::string tail_of(const std::string &path) {
    std::string s; FILE *f = fopen(path.c_str(), "r"); if (!f) return s;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) { s.append(b, n); if (s.size() > 200000) break; } fclose(f);
    size_t p = s.find("ERROR: "); if (p == std::string::npos) p = s.find("runtime error:");
    if (p == std::string::npos) { return s.substr(0, 600); }
    size_t q = p > 120 ? p - 120 : 0;
    return s.substr(q, 1800);
}
struct Prev { const Sub *s; std::vector<uint64_t> ch; };
// 'before': cases run first in the same process; a failure of one of them counts as well
static Verdict replay(const Sub &s, const std::vector<uint64_t> &ch, unsigned cpu, std::string *notes = nullptr, const std::vector<Prev> &before = {}) {
    static Shared *sh = nullptr; if (!sh) sh = shared_new();
    std::string log = O.out + "/replay.log", nf = O.out + "/replay.notes", sc = O.out + "/rscratch" + std::to_string(g_replay_no++);
    unlink(nf.c_str());
    memset((void *)sh, 0, offsetof(Shared, choices));
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        redirect(log);
        g_sh = sh; mkdir(sc.c_str(), 0755); g_scratch = scratch_at(sc); mkdir(g_scratch.c_str(), 0755);
        g_mode = REPLAY; g_cpu_limit = cpu;
        for (auto &b : before) { g_pre = b.ch; Case c; if (run_case(*b.s, c) == FAILED) _exit(77); }
        g_pre = ch;
        Case c; c.want_notes = notes != nullptr;
        Outcome o = run_case(s, c);
        if (notes) { FILE *f = fopen(nf.c_str(), "w"); if (f) { fwrite(c.notes.data(), 1, c.notes.size(), f); fclose(f); } }
        _exit(o == FAILED ? 77 : 0);
    }
    int st = 0; waitpid(p, &st, 0);
    rmrf(sc);
    Verdict v;
    if (before.empty()) v.used.assign(sh->choices, sh->choices + sh->nchoices); else v.used = ch;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return v;
    v.fails = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { v.hang = true; v.msg = "case does not terminate"; }
    else if (sh->failed) v.msg = sh->msg;
    else { v.msg = "crash: " + tail_of(log); }
    if (notes) { FILE *f = fopen(nf.c_str(), "r"); if (f) { char b[8192]; size_t n = fread(b, 1, sizeof b, f); notes->assign(b, n); fclose(f); } }
    return v;
}

static std::vector<uint64_t> shrink(const Sub &s, std::vector<uint64_t> cur, double secs, int max_tries) {
    double end = now() + secs; int tries = 0;
    auto attempt = [&](std::vector<uint64_t> cand) -> bool {
        if (now() > end || tries >= max_tries) return false;
        tries++;
        Verdict v = replay(s, cand, 20);
        if (!v.fails || v.hang) return false;
        // normalise: the choices really consumed, without trailing zeros
        std::vector<uint64_t> u = v.used;
        while (!u.empty() && u.back() == 0) u.pop_back();
        if (u.size() > cur.size()) return false;
        if (u.size() == cur.size() && !std::lexicographical_compare(u.begin(), u.end(), cur.begin(), cur.end())) return false;
        cur = u; return true;
    };
    bool progress = true;
    while (progress && now() < end && tries < max_tries) {
        progress = false;
        for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= cur.size(); ) {
                std::vector<uint64_t> c = cur; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else i += len;
                if (now() > end || tries >= max_tries) break;
            }
            if (len == 1 || now() > end || tries >= max_tries) break;
        }
        for (size_t i = 0; i < cur.size() && now() < end && tries < max_tries; i++) {
            if (cur[i] == 0) continue;
            std::vector<uint64_t> c = cur; c[i] = 0; if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0;
            while (i < cur.size() && lo + 1 < cur[i] && now() < end && tries < max_tries) { // binary search the smallest failing value
                uint64_t mid = lo + (cur[i] - lo) / 2; c = cur; c[i] = mid; if (attempt(c)) progress = true; else lo = mid;
            }
        }
    }
    return cur;
}

static int do_replay(const std::vector<const Sub *> &ss) {
    FILE *f = fopen(O.replay.c_str(), "r"); if (!f) { perror(O.replay.c_str()); return 3; }
    unsigned long long v;
    // format: a line "sub <name>" starts a case, then one choice per line; '#' lines are comments. The last case is the
    // failing one, the ones before it are run first in the same process
    std::vector<Prev> seq; char line[8192], name[256];
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        if (sscanf(line, "sub %255s", name) == 1) {
            const Sub *found = nullptr; for (auto s : ss) if (!strcmp(s->name, name)) found = s;
            if (!found) { fprintf(stderr, "no sub-property %s\n", name); return 3; }
            seq.push_back({found, {}}); continue;
        }
        if (sscanf(line, "%llu", &v) == 1 && !seq.empty()) seq.back().ch.push_back(v);
    }
    fclose(f);
    if (seq.empty()) { fprintf(stderr, "no case in the file\n"); return 3; }
    Prev last = seq.back(); seq.pop_back();
    std::string notes; Verdict r = replay(*last.s, last.ch, 120, &notes, seq);
    printf("%s\n", r.fails ? r.msg.c_str() : "does not fail");
    printf("trace: %s\n", notes.c_str());
    return r.fails ? 1 : 0;
}

// A failure that its own choices do not reproduce may need the state that earlier cases left behind in the process:
// find a short run of the preceding cases with which it fails again.
static bool with_history(const Sub &s, const std::vector<uint64_t> &ch, Shared *sh, const std::vector<const Sub *> &ss, std::vector<Prev> &out) {
    std::vector<Prev> all; uint64_t n = sh->nhist, from = n > HISTN ? n - HISTN : 0;
    for (uint64_t k = from; k < n; k++) { auto &h = sh->hist[k % HISTN]; all.push_back({ss[h.sub], std::vector<uint64_t>(h.ch, h.ch + h.n)}); }
    double end = now() + 120;
    auto fails = [&](const std::vector<Prev> &b) { return replay(s, ch, 120, nullptr, b).fails; };
    for (size_t k = 1; ; k = std::min(k * 4, all.size())) {
        if (all.empty() || now() > end) return false;
        std::vector<Prev> b(all.end() - std::min(k, all.size()), all.end());
        if (fails(b)) { out = b; break; }
        if (k >= all.size()) return false;
    }
    for (size_t len = std::max<size_t>(1, out.size() / 2); len >= 1 && now() < end; len /= 2) {
        for (size_t i = 0; i + len <= out.size() && now() < end; ) { std::vector<Prev> b = out; b.erase(b.begin() + i, b.begin() + i + len); if (fails(b)) out = b; else i += len; }
        if (len == 1) break;
    }
    return true;
}

static int run() {
    RAND_set_rand_method(&g_rm);
    signal(SIGPROF, on_prof);
    signal(SIGPIPE, SIG_IGN);
    std::vector<const Sub *> ss;
    for (auto &s : subs()) if (O.prop == s.prop && (O.only.empty() || O.only == s.name)) ss.push_back(&s);
    if (ss.empty()) { fprintf(stderr, "unknown property %s\n", O.prop.c_str()); return 3; }
    mkdir(O.out.c_str(), 0755);
    g_rng.reseed(0);
    g_sh = shared_new();
    if (!O.replay.empty()) return do_replay(ss);
    // warm up library statics in the parent with one case, in a child first in case it crashes
    double deadline = now() + O.budget;
    std::vector<pid_t> pids; std::vector<Shared *> shs;
    fflush(stdout);
    for (int w = 0; w < O.workers; w++) {
        Shared *sh = shared_new(); shs.push_back(sh);
        pid_t p = fork();
        if (p == 0) { g_sh = sh; worker(w, ss, deadline); }
        pids.push_back(p);
    }
    int alive = O.workers; int bad = -1; bool hang = false;
    std::vector<int> failed_workers;
    std::vector<bool> dead(O.workers, false);
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < O.workers; i++) if (pids[i] == p) w = i;
        if (w < 0) continue;
        alive--; dead[w] = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && bad < 0) { // killed from outside (memory): not a verdict
            fprintf(stderr, "worker %d killed\n", w); continue; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGTERM) continue;
        failed_workers.push_back(w);
        if (bad < 0) {
            bad = w; hang = WIFEXITED(st) && WEXITSTATUS(st) == 78;
            for (int i = 0; i < O.workers; i++) if (!dead[i]) kill(pids[i], SIGTERM);
        }
    }
    for (int w = 0; w < O.workers; w++) rmrf(worker_dir(w) + "/scratch");
    if (bad < 0) { printf("RESULT pass\n"); return 0; }
    (void)hang;
    for (int fw : failed_workers) {
        Shared *sh = shs[fw]; const Sub &s = *ss[sh->sub];
        std::vector<uint64_t> ch(sh->choices, sh->choices + sh->nchoices);
        std::string first = sh->failed ? sh->msg : tail_of(worker_dir(fw) + "/log");
        Verdict v = replay(s, ch, 90);
        bool ok = v.fails;
        std::vector<Prev> before;
        if (!ok && !with_history(s, ch, sh, ss, before)) before.clear();
        if (ok && !v.hang) { const char *ss_ = getenv("VERIF_SHRINK"); ch = shrink(s, ch, ss_ ? atof(ss_) : 45, ss_ ? 30 : 600); }
        int rep = 0; std::string notes; Verdict last = v;
        if (v.hang) { rep = 2; notes = v.msg; } // each replay of a case that does not terminate takes its whole limit
        for (int i = rep; i < 3; i++) { Verdict r = replay(s, ch, 90, &notes, before); if (r.fails) { rep++; last = r; } }
        if (rep < 3) { printf("UNREPRODUCED sub=%s worker=%d index=%llu reproduced=%d/3 first=%s\n", s.name, fw, (unsigned long long)sh->index, rep, first.c_str()); if (rep == 0) continue; }
        std::string path = O.out + "/replay.txt";
        FILE *f = fopen(path.c_str(), "w");
        std::string m = last.msg; for (auto &x : m) if (x == '\n') x = ' ';
        fprintf(f, "# property %s: %s\n# trace: %s\n", O.prop.c_str(), m.c_str(), notes.c_str());
        if (!before.empty()) fprintf(f, "# the last case fails after the %zu case(s) before it\n", before.size());
        for (auto &b : before) { fprintf(f, "sub %s\n", b.s->name); for (auto x : b.ch) fprintf(f, "%llu\n", (unsigned long long)x); }
        fprintf(f, "sub %s\n", s.name);
        for (auto x : ch) fprintf(f, "%llu\n", (unsigned long long)x);
        fclose(f);
        printf("MESSAGE %s: %s\n", s.name, m.substr(0, 1500).c_str());
        printf("RESULT fail %s\n", path.c_str());
        return 1;
    }
    printf("RESULT unreproduced\n");
    return 2;
}
} // namespace pbt

extern "C" __attribute__((weak)) int vf_jvm; // a harness that embeds a JVM leaves its signals to it
#define ASANOPTS "detect_leaks=0:exitcode=76:allocator_may_return_null=1:max_allocation_size_mb=4096:quarantine_size_mb=48:" \
           "max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:symbolize=1"
extern "C" const char *__asan_default_options() { return &vf_jvm ? ASANOPTS ":handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:allow_user_segv_handler=1:use_sigaltstack=0" : ASANOPTS ":handle_abort=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1"; }

int main(int argc, char **argv) {
    using namespace pbt;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") O.prop = v; else if (a == "--out") O.out = v; else if (a == "--seed") O.seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--tier") g_thorough = v == "thorough"; else if (a == "--workers") O.workers = atoi(v.c_str());
        else if (a == "--scale") O.scale = atof(v.c_str()); else if (a == "--budget") O.budget = atof(v.c_str());
        else if (a == "--replay") O.replay = v; else if (a == "--notes") O.notes = v == "1"; else if (a == "--only") O.only = v;
    }
    if (O.out.empty() || O.prop.empty()) { fprintf(stderr, "usage: --prop ID --out DIR [--seed N] [--tier quick|thorough] [--replay FILE]\n"); return 3; }
    return run();
}
