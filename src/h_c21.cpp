// C21: file operations report success only when the result is complete
// WRAPS: fopen fopen64 rename remove unlink fileno fsync
#include "fileio.h"
#include <sys/wait.h>
#include <unordered_map>
#include <cerrno>

// Streams the library opens are replaced by cookie streams over the same files, so that the operations below stdio can be made to fail: the library's own stdio calls stay real, with their buffering.
enum Op { OPEN_R, OPEN_W, READ, WRITE, SEEK, CLOSE_R, CLOSE_W, RENAME, REMOVE, SYNC, NOPS };
static const char *opname[] = {"open for reading", "open for writing", "read", "write", "seek", "close after reading", "close after writing", "rename", "remove", "sync"};
static struct Plan { bool on = false, once = false, same = false, crash = false, after = false, partial = false; long at = -1, n = 0; int hit = -1; std::vector<int> ops; long bufsz = -1; } P;
static bool step(Op o) { // true: this operation fails
    if (!P.on) return false; long i = P.n++; P.ops.push_back(o); if (P.at < 0 || i < P.at || (P.once && i > P.at) || (P.same && P.hit >= 0 && o != P.hit)) return false; if (P.crash) { if (i == P.at && !P.after) _exit(77); return false; } if (P.hit < 0) P.hit = o; return true;
}
static void done() { if (P.on && P.crash && P.after && P.n == P.at + 1) _exit(77); } // crash right after the operation
struct Ck { int fd; bool w; std::string path; off_t end; };
static std::unordered_map<FILE *, Ck *> streams;
static ssize_t ck_read(void *v, char *b, size_t n) { Ck *k = (Ck *)v; if (step(READ)) { if (P.partial && n > 1) { ssize_t r = read(k->fd, b, n / 2); if (r > 0) return r; } errno = EIO; return -1; } ssize_t r = read(k->fd, b, n); done(); return r; }
static ssize_t ck_write(void *v, const char *b, size_t n) { Ck *k = (Ck *)v; if (step(WRITE)) { ssize_t r = 0; if (P.partial && n > 1) r = write(k->fd, b, n / 2); errno = ENOSPC; return r > 0 ? r : 0; } ssize_t r = write(k->fd, b, n); done(); return r < 0 ? 0 : r; }
static int ck_seek(void *v, off64_t *o, int wh) { Ck *k = (Ck *)v; if (step(SEEK)) { errno = EIO; return -1; } off_t r = lseek(k->fd, *o, wh); done(); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *v) { Ck *k = (Ck *)v; bool f = step(k->w ? CLOSE_W : CLOSE_R); if (f && k->w) { struct stat s; if (!fstat(k->fd, &s) && s.st_size) { if (ftruncate(k->fd, s.st_size / 2)) {} } } // a write the system had only promised
    close(k->fd); done(); for (auto it = streams.begin(); it != streams.end(); ++it) if (it->second == k) { streams.erase(it); break; } delete k; if (f) { errno = EIO; return EOF; } return 0; }
static FILE *cookie(const char *path, const char *mode) {
    bool w = mode[0] != 'r' || strchr(mode, '+'); if (step(mode[0] == 'r' ? OPEN_R : OPEN_W)) { errno = w ? ENOSPC : EACCES; return nullptr; }
    int fl = mode[0] == 'r' ? (w ? O_RDWR : O_RDONLY) : (mode[0] == 'w' ? O_TRUNC | O_CREAT : O_APPEND | O_CREAT) | (strchr(mode, '+') ? O_RDWR : O_WRONLY); if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = open(path, fl, 0666); if (fd < 0) return nullptr; done(); Ck *k = new Ck{fd, w, path, 0}; FILE *f = fopencookie(k, mode, cookie_io_functions_t{ck_read, ck_write, ck_seek, ck_close}); if (P.bufsz == 0) setvbuf(f, nullptr, _IONBF, 0); else if (P.bufsz > 0) setvbuf(f, nullptr, _IOFBF, (size_t)P.bufsz); streams[f] = k; return f;
}
extern "C" {
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *); int __real_rename(const char *, const char *); int __real_remove(const char *); int __real_unlink(const char *); int __real_fileno(FILE *); int __real_fsync(int);
FILE *__wrap_fopen(const char *p, const char *m) { return P.on ? cookie(p, m) : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return P.on ? cookie(p, m) : __real_fopen64(p, m); }
int __wrap_rename(const char *a, const char *b) { if (step(RENAME)) { errno = EIO; return -1; } int r = __real_rename(a, b); done(); return r; }
int __wrap_remove(const char *a) { if (step(REMOVE)) { errno = EIO; return -1; } int r = __real_remove(a); done(); return r; }
int __wrap_unlink(const char *a) { if (step(REMOVE)) { errno = EIO; return -1; } int r = __real_unlink(a); done(); return r; }
int __wrap_fileno(FILE *f) { auto it = streams.find(f); return it == streams.end() ? __real_fileno(f) : it->second->fd; }
int __wrap_fsync(int fd) { if (step(SYNC)) { errno = EIO; return -1; } int r = __real_fsync(fd); done(); return r; }
}

struct Job { // one file operation and what its complete result is
    Dir d; bool dec, auth; Bytes src, before, complete; bool had, inplace; CipherKey k; std::string in, out; uint64_t seed; size_t hdr;
    explicit Job(Case &c) : d(c) {
        Bytes pt = c.blob(gen_file_size(c)); k = gen_cipher_key(c, c.chance(3, 4) ? CIPHER_AES256_GCM : CIPHER_AES256_CTR); dec = c.chance(1, 2); auth = k->cipher.is_authenticated && c.chance(1, 2); inplace = c.chance(1, 10); had = inplace || c.chance(1, 2); if (!inplace && had) before = c.blob_upto(300); seed = c.draw(1000);
        Bytes f = ref_file(k.get(), c.blob(k->cipher.iv_len), pt); src = dec ? f : pt; complete = pt; hdr = 1 + k->cipher.iv_len + (k->cipher.is_authenticated ? 16 : 0); in = d / "in"; out = inplace ? in : d / "out"; if (inplace) before = src; }
    void reset() { d.clear(); put(in, src); if (had && !inplace) put(out, before); }
    bool run() { rng().reseed(seed); return dec ? ENG.wickr_crypto_engine_decrypt_file(k.get(), in.c_str(), out.c_str(), auth) : ENG.wickr_crypto_engine_encrypt_file(k.get(), in.c_str(), out.c_str()); }
    bool is_complete(const Bytes &b) { if (dec) return b == complete; if (b.size() != complete.size() + hdr) return false; return b == ref_file(k.get(), Bytes(b.begin() + 1, b.begin() + 1 + k->cipher.iv_len), complete); }
};

PROP(C21, faults, 20000, 600000) {
    Job j(c); P = Plan(); P.bufsz = c.chance(1, 2) ? -1 : c.chance(1, 4) ? 0 : 16 << c.draw(10);
    j.reset(); P.on = true; bool r = j.run(); P.on = false; Bytes now; CHECK(c, r, "operation without faults failed"); CHECK(c, slurp(j.out, now) && j.is_complete(now), "operation without faults left an incomplete result"); long n = P.n; std::vector<int> ops = P.ops;
    bool rnd = !j.dec && c.chance(1, 12); P.ops.clear(); P.n = 0; P.once = c.chance(1, 2); P.same = !P.once && c.chance(1, 2); P.partial = c.chance(1, 3);
    if (!rnd && n) { P.at = (long)c.draw(n - 1); if (c.chance(1, 2)) { int k = (int)c.draw(NOPS - 1); std::vector<long> v; for (long i = 0; i < n; i++) if (ops[i] == k) v.push_back(i); if (!v.empty()) P.at = v[c.draw(v.size() - 1)]; } }
    j.reset(); rng().reseed(j.seed); P.on = true;
    if (rnd) { rng().fail_at = 0; r = ENG.wickr_crypto_engine_encrypt_file(j.k.get(), j.in.c_str(), j.out.c_str()); rng().fail_at = -1; } else r = j.run();
    P.on = false; bool ex = exists(j.out); if (ex) CHECK(c, slurp(j.out, now), "destination unreadable");
    const char *what = rnd ? "the random source" : P.hit >= 0 ? opname[P.hit] : "nothing"; bool hit = rnd || P.hit >= 0;
    c.note("%s of %zu bytes%s, %s fails at operation %ld of %ld (%s)%s -> %d", j.dec ? "decryption" : "encryption", j.src.size(), j.inplace ? " in place" : "", what, P.at, n, P.once ? "once" : P.same ? "each time from then on" : "with all others from then on", P.partial ? " after half" : "", r);
    if (!hit) CHECK(c, r, "no operation failed, yet failure was reported");
    if (r) { CHECK(c, ex && j.is_complete(now), "success was reported although %s failed: the destination holds %zu bytes that are not the complete result", what, now.size()); if (!P.once && !P.same && hit) CHECK(c, P.hit == CLOSE_R || P.hit == REMOVE || P.hit == SEEK || P.hit == SYNC, "success was reported although %s failed", what); }
    else { if (j.had) CHECK(c, ex && now == j.before, "%s failed and failure was reported, but the destination no longer holds its previous content", what); else CHECK(c, !ex, "%s failed and failure was reported, but a destination file of %zu bytes was left", what, now.size()); }
    if (P.hit != REMOVE && (P.once || P.same || rnd || P.hit < 0)) { auto l = j.d.list(); std::set<std::string> w{"in"}; if (ex && !j.inplace) w.insert("out"); CHECK(c, l == w, "%s failed and %zu other files were left behind", what, l.size() - w.size()); }
    if (hit) { c.nontrivial(); c.label(std::string(j.dec ? "decrypt, " : "encrypt, ") + what + (r ? " (completed)" : "")); } CHECK(c, streams.empty(), "a stream was left open");
}

// the process dies right before or right after any operation
PROP(C21, crash, 4000, 120000) {
    Job j(c); P = Plan(); P.bufsz = c.chance(1, 2) ? -1 : 16 << c.draw(10); j.reset(); P.on = true; bool r = j.run(); P.on = false; CHECK(c, r, "operation without faults failed"); long n = P.n; std::vector<int> ops = P.ops; if (!n) return;
    P.at = (long)c.draw(n - 1); if (c.chance(1, 3)) for (long i = 0; i < n; i++) if (ops[i] == RENAME) P.at = i; P.crash = true; P.after = c.chance(1, 2); P.n = 0; P.ops.clear(); j.reset(); fflush(nullptr);
    pid_t pid = fork(); CHECK(c, pid >= 0, "fork"); if (!pid) { P.on = true; j.run(); _exit(0); }
    int st; waitpid(pid, &st, 0); CHECK(c, WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 0), "child ended strangely (%d)", st); bool crashed = WEXITSTATUS(st) == 77; Bytes now; bool ex = exists(j.out); if (ex) CHECK(c, slurp(j.out, now), "destination unreadable");
    c.note("%s of %zu bytes, killed %s %s (operation %ld of %ld)", j.dec ? "decryption" : "encryption", j.src.size(), P.after ? "after" : "before", opname[ops[P.at]], P.at, n);
    bool prior = j.had ? ex && now == j.before : !ex; CHECK(c, prior || (ex && j.is_complete(now)), "killed %s %s: the destination holds %zu bytes, neither its previous content nor the complete result", P.after ? "after" : "before", opname[ops[P.at]], now.size());
    if (!crashed) CHECK(c, ex && j.is_complete(now), "completed without a result"); else { c.nontrivial(); c.label(std::string(P.after ? "after " : "before ") + opname[ops[P.at]]); }
    // the operation can simply be repeated
    if (!j.inplace || prior) { P = Plan(); CHECK(c, j.run() && slurp(j.out, now) && j.is_complete(now), "repeating the operation after the crash does not give the complete result"); }
}

// operations on streams the caller opened: digests, and encryption and decryption by handle
PROP(C21, handles, 15000, 500000) {
    Job j(c); unsigned kind = (unsigned)c.draw(2); P = Plan(); P.bufsz = c.chance(1, 2) ? -1 : c.chance(1, 4) ? 0 : 16 << c.draw(10); wickr_digest_t dg = gen_digest(c); uint64_t seed = c.draw(1000); j.dec = kind == 1; Bytes now;
    if (kind != 1) j.src = j.complete; else j.src = ref_file(j.k.get(), c.blob(j.k->cipher.iv_len), j.complete);
    auto run = [&](Bytes &res) -> int { // 1 success, 0 failure, -1 could not open
        put(j.in, j.src); rng().reseed(seed); FILE *a = fopen(j.in.c_str(), "rb"); if (!a) return -1;
        if (kind == 2) { Buf b(ENG.wickr_crypto_engine_digest_file(a, dg)); fclose(a); res = to(b); return (bool)b; }
        FILE *b = fopen((j.d / "h").c_str(), "w+b"); if (!b) { fclose(a); return -1; } bool r = j.dec ? ENG.wickr_crypto_engine_decrypt_ofile(a, j.k.get(), b, false) : ENG.wickr_crypto_engine_encrypt_ofile(a, j.k.get(), b); fclose(a); if (fclose(b)) r = false; return r; };
    P.on = true; int r = run(now); P.on = false; auto good = [&] { if (kind == 2) return now == ref::digest(dg.digest_id, j.src); return slurp(j.d / "h", now) && j.is_complete(now); };
    CHECK(c, r == 1 && good(), "operation without faults: result %d", r); long n = P.n; std::vector<int> ops = P.ops; P.n = 0; P.ops.clear(); P.once = c.chance(1, 2); P.same = !P.once && c.chance(1, 2); P.partial = c.chance(1, 3); P.at = (long)c.draw(n - 1);
    P.on = true; r = run(now); P.on = false; const char *what = P.hit >= 0 ? opname[P.hit] : "nothing"; c.note("kind %u of %zu bytes: %s fails at %ld of %ld -> %d", kind, j.src.size(), what, P.at, n, r);
    if (r == 1) CHECK(c, good(), "%s reported success although %s failed, and the result is not complete", kind == 0 ? "encryption" : kind == 1 ? "decryption" : "digest", what); else CHECK(c, P.hit >= 0, "failure without a fault"); CHECK(c, streams.empty(), "a stream was left open");
    if (P.hit >= 0 && r >= 0) { c.nontrivial(); c.label(std::string(kind == 0 ? "encrypt, " : kind == 1 ? "decrypt, " : "digest, ") + what + (r ? " (completed)" : "")); }
}
