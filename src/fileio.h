// Scratch directories for the file harnesses: every case works in a directory of its own below the worker's scratch directory.
#pragma once
#include "common.h"
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>

struct Dir {
    std::string path; std::vector<std::string> above; explicit Dir(const char *n = "d") { path = pbt::scratch() + "/" + n; mkdir(path.c_str(), 0700); clear(); }
    // now and then far down a tree, with a path that is much longer than a file name may be
    explicit Dir(Case &c) : Dir() { if (c.chance(1, 8)) { unsigned n = 1 + (unsigned)c.draw(c.draw(1) ? 14 : 2); for (unsigned i = 0; i <= n; i++) { above.push_back(path); path += "/" + std::string(i ? 240 : 1, (char)('a' + i)); mkdir(path.c_str(), 0700); } clear(); c.label("long path"); } }
    std::set<std::string> list() const { std::set<std::string> r; if (DIR *d = opendir(path.c_str())) { while (dirent *e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != "..") r.insert(s); } closedir(d); } return r; }
    void clear() const { for (auto &n : list()) { std::string p = path + "/" + n; if (unlink(p.c_str())) rmdir(p.c_str()); } }
    ~Dir() { clear(); rmdir(path.c_str()); while (!above.empty()) { rmdir(above.back().c_str()); above.pop_back(); } }
    std::string operator/(const std::string &n) const { return path + "/" + n; }
};
inline void put(const std::string &p, const Bytes &b) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (fd >= 0 && o < b.size()) { ssize_t n = write(fd, b.data() + o, b.size() - o); if (n <= 0) break; o += (size_t)n; } if (fd >= 0) close(fd); if (fd < 0 || o < b.size()) { fprintf(stderr, "harness cannot write %s\n", p.c_str()); _exit(99); } }
inline bool slurp(const std::string &p, Bytes &b) { b.clear(); int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false; uint8_t t[65536]; ssize_t n; while ((n = read(fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + n); close(fd); return n == 0; }
inline bool exists(const std::string &p) { struct stat s; return !lstat(p.c_str(), &s); }

// The documented file format: |cipher id|iv|tag (authenticated ciphers)|ciphertext|
inline Bytes ref_file(const wickr_cipher_key_t *k, const Bytes &iv, const Bytes &pt) {
    Bytes key = to(k->key_data), r{(uint8_t)k->cipher.cipher_id}; r = cat(r, iv);
    if (k->cipher.cipher_id == CIPHER_ID_AES256_GCM) { Bytes ct, tag; ref::aes_gcm(key, iv, {}, pt, ct, tag); return cat(cat(r, tag), ct); }
    return cat(r, ref::aes_ctr(key, iv, pt));
}
// What a receiver with the key makes of the bytes of an encrypted file; false when it must refuse.
inline bool ref_unfile(const wickr_cipher_key_t *k, const Bytes &f, bool only_auth, Bytes &pt) {
    if (f.empty() || f[0] != (uint8_t)k->cipher.cipher_id || (only_auth && !k->cipher.is_authenticated)) return false;
    size_t h = 1 + k->cipher.iv_len + (k->cipher.is_authenticated ? k->cipher.auth_tag_len : 0); if (f.size() < h) return false;
    Bytes iv(f.begin() + 1, f.begin() + 1 + k->cipher.iv_len), ct(f.begin() + h, f.end()), key = to(k->key_data);
    if (!k->cipher.is_authenticated) { pt = ref::aes_ctr(key, iv, ct); return true; }
    Bytes tag(f.begin() + 13, f.begin() + 29), tmp, tag2, ct2; ref::aes_gcm(key, iv, {}, ct, pt, tmp); ref::aes_gcm(key, iv, {}, pt, ct2, tag2); return tag2 == tag;
}
inline size_t gen_file_size(Case &c) { switch (c.pick({3, 3, 1, 1})) { case 0: return c.size(300); case 1: { size_t k = 4096 * (size_t)c.draw(5); long d = (long)c.draw(80) - 40; return (long)k + d < 0 ? 0 : k + d; } case 2: return c.size(30000); default: return c.chance(1, 8) ? 65536 + c.size(140000) : 4096 * c.size(4); } }
