// C20: file encryption round-trips, matches its format, and rejects altered or foreign files
#include "fileio.h"
#include <map>

static std::string gen_name(Case &c) { static const char *odd[] = {"out", "a b", "%s%n%x", "d\xc3\xa9j\xc3\xa0", "x.temp", ".hidden", "-rf", "out.enc"}; if (c.chance(1, 2)) return odd[c.draw(7)]; std::string s; size_t n = c.size1(240); for (size_t i = 0; i < n; i++) s += (char)('a' + (i * 7 + n) % 26); return s; }
struct Dest { // a destination that is absent or holds something
    std::string path, name; bool had; Bytes before;
    Dest(Case &c, const Dir &d, const std::string &nm) : path(d / nm), name(nm) { had = c.chance(1, 2); if (had) { before = c.blob_upto(c.chance(1, 4) ? 9000 : 100); put(path, before); c.label("existing destination"); } }
    void untouched(Case &c, const char *what) { Bytes now; bool e = exists(path); if (!had) CHECK(c, !e, "%s, yet a destination file was left behind", what); else CHECK(c, e && slurp(path, now) && now == before, "%s, yet the existing destination was changed", what); }
};
static void only(Case &c, const Dir &d, std::set<std::string> want, const char *what) { auto l = d.list(); if (l == want) return; std::string s; for (auto &x : l) s += " '" + x + "'"; c.fail("%s left other files behind:%s", what, s.c_str()); }
static bool encrypt_ofile(const std::string &s, const wickr_cipher_key_t *k, const std::string &t, size_t skip = 0) { FILE *a = fopen(s.c_str(), "rb"), *b = fopen(t.c_str(), "w+b"); if (skip) fseek(a, (long)skip, SEEK_SET); bool r = ENG.wickr_crypto_engine_encrypt_ofile(a, k, b); if (a) fclose(a); if (b && fclose(b)) r = false; return r; }
static bool decrypt_ofile(const std::string &s, const wickr_cipher_key_t *k, const std::string &t, bool auth) { FILE *a = fopen(s.c_str(), "rb"), *b = fopen(t.c_str(), "w+b"); bool r = ENG.wickr_crypto_engine_decrypt_ofile(a, k, b, auth); if (a) fclose(a); if (b && fclose(b)) r = false; return r; }

PROP(C20, roundtrip, 12000, 400000) {
    Dir d(c); Bytes pt = c.blob(gen_file_size(c)); CipherKey k = gen_cipher_key(c, gen_cipher(c)); bool gcm = k->cipher.is_authenticated; put(d / "src", pt); Bytes enc, now;
    bool inplace = c.chance(1, 8), handles = !inplace && c.chance(1, 4); std::string en = inplace ? "src" : gen_name(c); if (en == "src" && !inplace) en = "enc";
    rng().record = true; rng().outputs.clear();
    { Dest t(c, d, "e_" + en); if (inplace) { unlink(t.path.c_str()); t.path = d / "src"; }
      bool ok = handles ? encrypt_ofile(d / "src", k.get(), t.path) : ENG.wickr_crypto_engine_encrypt_file(k.get(), (d / "src").c_str(), t.path.c_str());
      CHECK(c, ok, "encrypting a file of %zu bytes failed", pt.size()); CHECK(c, slurp(t.path, enc), "the encrypted file is missing"); en = t.path; }
    rng().record = false;
    size_t ivl = k->cipher.iv_len; CHECK(c, enc.size() == 1 + ivl + (gcm ? 16 : 0) + pt.size(), "encrypted file of %zu bytes for %zu", enc.size(), pt.size());
    Bytes iv(enc.begin() + 1, enc.begin() + 1 + ivl); CHECK(c, enc == ref_file(k.get(), iv, pt), "the encrypted file is not the documented format over the content");
    { Bytes all; for (auto &o : rng().outputs) all.insert(all.end(), o.begin(), o.end()); bool drawn = contains(all, iv); CHECK(c, drawn, "the file's IV was not drawn from the random source"); }
    if (!inplace) { CHECK(c, slurp(d / "src", now) && now == pt, "the source was changed"); only(c, d, {"src", en.substr(d.path.size() + 1)}, "encryption"); } else only(c, d, {"src"}, "encryption in place");
    // back, by path, by handle, by the in-memory functions
    { bool auth = gcm && c.chance(1, 2); unsigned how = (unsigned)c.draw(3);
      if (how < 2) { std::string dn = gen_name(c); Dest t(c, d, "d_" + dn); CHECK(c, ENG.wickr_crypto_engine_decrypt_file(k.get(), en.c_str(), t.path.c_str(), auth), "decrypting a genuine file failed"); CHECK(c, slurp(t.path, now) && now == pt, "the decrypted file differs from the original (%zu bytes of %zu)", now.size(), pt.size()); std::set<std::string> w{en.substr(d.path.size() + 1), t.name, "src"}; only(c, d, w, "decryption"); }
      else if (how == 2) { CHECK(c, decrypt_ofile(en, k.get(), d / "plain", auth), "decrypting a genuine file by handle failed"); CHECK(c, slurp(d / "plain", now) && now == pt, "the decrypted file differs from the original (by handle)"); }
      else { CHECK(c, ENG.wickr_crypto_engine_decrypt_file(k.get(), en.c_str(), en.c_str(), auth), "decrypting in place failed"); CHECK(c, slurp(en, now) && now == pt, "decryption in place differs"); c.label("in place"); }
      if (!pt.empty()) { View v(enc); CipherRes r(wickr_cipher_result_from_buffer(v)); CHECK(c, r, "the encrypted file does not parse as a cipher result"); Buf o(ENG.wickr_crypto_engine_cipher_decrypt(r.get(), nullptr, k.get(), gcm)); CHECK(c, o && to(o) == pt, "the in-memory functions do not decrypt the file"); } }
    if (inplace) c.label("in place"); if (handles) c.label("by handle"); c.label(gcm ? "GCM" : "CTR"); if (pt.empty()) c.label("empty"); else c.nontrivial(); if (pt.size() > 4096) c.label("several chunks"); if (pt.size() && pt.size() % 4096 == 0) c.label("exact chunks"); c.note("%zu bytes, cipher %d", pt.size(), (int)k->cipher.cipher_id);
}

// files made by the in-memory functions (and by the reference) decrypt; every altered or foreign one is refused
PROP(C20, reject, 25000, 800000) {
    Dir d(c); Bytes pt = c.blob(c.chance(1, 3) ? gen_file_size(c) : c.size(200)); CipherKey k = gen_cipher_key(c, gen_cipher(c)), use(wickr_cipher_key_copy(k.get())); bool gcm = k->cipher.is_authenticated, auth = c.chance(1, 2); Bytes file, want, now;
    unsigned how = (unsigned)c.draw(2); put(d / "src", pt);
    if (how == 0) { CHECK(c, ENG.wickr_crypto_engine_encrypt_file(k.get(), (d / "src").c_str(), (d / "enc").c_str()) && slurp(d / "enc", file), "encrypt"); }
    else if (how == 1 && !pt.empty()) { View v(pt); CipherRes r(ENG.wickr_crypto_engine_cipher_encrypt(v, nullptr, k.get(), nullptr)); CHECK(c, r, "encrypt"); Buf b(wickr_cipher_result_serialize(r.get())); file = to(b); }
    else file = ref_file(k.get(), c.blob(k->cipher.iv_len), pt);
    unlink((d / "enc").c_str()); unlink((d / "src").c_str()); Bytes genuine = file; const char *what = "genuine file";
    switch (c.pick({2, 3, 3, 2, 2, 3, 2, 1, 2, 2})) {
        case 0: break;
        case 1: { size_t i = (size_t)c.draw(file.size() - 1); file[i] ^= (uint8_t)(1u << c.draw(7)); what = "one bit flipped"; break; }
        case 2: file.resize((size_t)c.draw(file.size() - 1)); what = "truncated"; break;
        case 3: file = cat(file, c.data1(c.chance(1, 4) ? 5000 : 20)); what = "extended"; break;
        case 4: c.mutate(file); what = "edited"; break;
        case 5: { Bytes kb = to(use->key_data); c.tamper(kb); kb.resize(32); use.reset(wickr_cipher_key_create(k->cipher, mk(kb))); CHECK(c, use, "key"); what = "wrong key"; break; }
        case 6: use.reset(wickr_cipher_key_create(gcm ? CIPHER_AES256_CTR : CIPHER_AES256_GCM, mk(to(k->key_data)))); what = "key of the other cipher"; break;
        case 7: file[0] = (uint8_t)c.draw(255); what = "another cipher id"; break;
        case 8: { // same bytes re-labelled as the other cipher
            file[0] ^= 1; if (file[0] > 1) file[0] = 0; what = "re-labelled cipher"; break; }
        case 9: { size_t n = file.size(); if (n > 60) { size_t a = 29 + (size_t)c.draw(n - 30), b = 29 + (size_t)c.draw(n - 30); std::swap(file[a], file[b]); } what = "swapped bytes"; break; }
    }
    bool ok_ref = ref_unfile(use.get(), file, auth, want); put(d / "in", file); Dest t(c, d, gen_name(c) + "_o"); unsigned how2 = (unsigned)c.draw(3); bool ok;
    if (how2 == 3) { ok = decrypt_ofile(d / "in", use.get(), t.path, auth); if (ok_ref) CHECK(c, ok && slurp(t.path, now) && now == want, "by handle: %s not decrypted", what); else CHECK(c, !ok, "by handle: %s (%zu bytes) accepted%s", what, file.size(), auth ? " with authentication required" : ""); }
    else {
        ok = ENG.wickr_crypto_engine_decrypt_file(use.get(), (d / "in").c_str(), t.path.c_str(), auth);
        if (ok_ref) { CHECK(c, ok, "%s of %zu bytes refused", what, file.size()); CHECK(c, slurp(t.path, now) && now == want, "%s: decrypted content differs from an independent decryption", what); }
        else { CHECK(c, !ok, "%s (%zu bytes, cipher %d, file says %d) was accepted%s", what, file.size(), (int)use->cipher.cipher_id, file.empty() ? -1 : file[0], auth ? " with authentication required" : ""); t.untouched(c, "decryption failed"); }
        std::set<std::string> w{"in"}; if (ok || t.had) w.insert(t.name); only(c, d, w, "decryption");
    }
    CHECK(c, slurp(d / "in", now) && now == file, "the encrypted file was changed by decrypting it");
    if (file != genuine || use->cipher.cipher_id != k->cipher.cipher_id || to(use->key_data) != to(k->key_data) || !ok_ref) c.nontrivial(); c.label(std::string(ok_ref ? "accepted: " : "refused: ") + what); c.note("%s, %zu of %zu bytes, auth %d -> %d", what, file.size(), genuine.size(), auth, ok);
}

// files next to the destination, one of which may be the source, whatever their names: none is ever changed
PROP(C20, neighbours, 5000, 150000) {
    Dir d(c); Bytes pt = c.blob(c.chance(1, 3) ? gen_file_size(c) : c.size(200)), now; CipherKey k = gen_cipher_key(c, gen_cipher(c)); bool gcm = k->cipher.is_authenticated, dec = c.chance(1, 2), good = !dec || c.chance(2, 3);
    Bytes in = dec ? ref_file(k.get(), c.blob(k->cipher.iv_len), pt) : pt; if (!good) { if (!gcm) { good = true; } else in[c.draw(in.size() - 1)] ^= (uint8_t)(1u << c.draw(7)); }
    std::string out = gen_name(c); static const char *ext[] = {".temp", ".temp1", ".temp2", ".tmp", "~", ".temp0", ".bak", ".temp.temp"}; std::map<std::string, Bytes> files; unsigned n = (unsigned)c.draw(4);
    for (unsigned j = 0; j < n; j++) files[out + ext[c.chance(1, 2) ? c.draw(2) : c.draw(7)]] = c.blob_upto(c.chance(1, 6) ? 9000 : 100);
    if (c.chance(1, 2)) files[out] = c.blob_upto(100); std::string src = c.chance(1, 4) ? "a_source" : out + ext[c.chance(2, 3) ? c.draw(1) : c.draw(7)]; files[src] = in; for (auto &f : files) put(d / f.first, f.second);
    bool ok = dec ? ENG.wickr_crypto_engine_decrypt_file(k.get(), (d / src).c_str(), (d / out).c_str(), gcm) : ENG.wickr_crypto_engine_encrypt_file(k.get(), (d / src).c_str(), (d / out).c_str());
    CHECK(c, ok == good, "%s '%s' to '%s' %s", dec ? "decrypting" : "encrypting", src.c_str(), out.c_str(), ok ? "succeeded for an altered file" : "failed");
    if (ok) { Bytes res; CHECK(c, slurp(d / out, res), "the result is missing"); if (dec) CHECK(c, res == pt, "the decrypted file differs from the original (%zu bytes of %zu, source '%s')", res.size(), pt.size(), src.c_str());
        else { size_t ivl = k->cipher.iv_len; CHECK(c, res.size() > ivl && res == ref_file(k.get(), Bytes(res.begin() + 1, res.begin() + 1 + (long)ivl), pt), "the encrypted file is not the documented format over the content (%zu bytes for %zu, source '%s')", res.size(), pt.size(), src.c_str()); } files[out] = res; }
    std::set<std::string> want; for (auto &f : files) { want.insert(f.first); CHECK(c, slurp(d / f.first, now) && now == f.second, "the file '%s' was changed by %s '%s' to '%s'", f.first.c_str(), dec ? "decrypting" : "encrypting", src.c_str(), out.c_str()); } only(c, d, want, dec ? "decryption" : "encryption");
    if (files.size() > 1) c.nontrivial(); if (src == out + ".temp") c.label("source named like a temporary file"); if (!ok) c.label("refused"); c.note("%s %zu bytes, %zu files around, source %s", dec ? "decrypt" : "encrypt", pt.size(), files.size(), src.c_str());
}

// calls that cannot succeed: missing arguments, sources and directories that do not exist, unusable keys
PROP(C20, unusable, 8000, 200000) {
    Dir d(c); Bytes pt = c.blob_upto(5000), now; CipherKey k = gen_cipher_key(c, gen_cipher(c)); put(d / "src", pt); CHECK(c, ENG.wickr_crypto_engine_encrypt_file(k.get(), (d / "src").c_str(), (d / "enc").c_str()), "encrypt");
    bool dec = c.chance(1, 2); std::string in = dec ? d / "enc" : d / "src"; Dest t(c, d, gen_name(c) + "_o"); const char *s = in.c_str(), *o = t.path.c_str(); const wickr_cipher_key_t *key = k.get(); CipherKey bad; std::string tmp; std::set<std::string> w{"src", "enc"}; if (t.had) w.insert(t.name); unsigned kind = (unsigned)c.draw(6);
    switch (kind) {
        case 0: s = nullptr; break; case 1: o = nullptr; break; case 2: key = nullptr; break;
        case 3: tmp = d / "absent"; s = tmp.c_str(); break;
        case 4: tmp = d / "nodir/out"; o = tmp.c_str(); break;
        case 5: s = d.path.c_str(); break; // a directory cannot be read
        case 6: { bad.reset(wickr_cipher_key_copy(k.get())); Bytes kb = c.blob1(64); if (kb.size() == 32) kb.resize(31); wickr_buffer_destroy(&bad->key_data); bad->key_data = mk(kb); key = bad.get(); break; } // a key of the wrong length
    }
    bool r = dec ? ENG.wickr_crypto_engine_decrypt_file(key, s, o, c.chance(1, 2)) : ENG.wickr_crypto_engine_encrypt_file(key, s, o);
    CHECK(c, !r, "%s reported success with %s", dec ? "decryption" : "encryption", kind == 3 ? "a source that does not exist" : kind == 4 ? "a destination directory that does not exist" : kind == 5 ? "a directory as its source" : kind == 6 ? "a key of the wrong length" : "a missing argument");
    t.untouched(c, "the operation failed"); only(c, d, w, "a failed operation");
    if (kind >= 3) c.nontrivial(); c.label(std::string(dec ? "decrypt " : "encrypt ") + std::to_string(kind)); c.note("kind %u", kind);
}
