// C24: text encodings are exact inverses and reject invalid text
#include "common.h"

static Bytes str(const wickr_buffer_t *b) { return to(b); }
// A text presented to a decoder: exact-size without a terminator, or terminated inside the allocation but outside / inside the length.
struct Text { Bytes store; View v; wickr_buffer_t b; Text(const Bytes &t, unsigned mode) : store(mode ? cat(t, Bytes(1, 0)) : t), v(store), b(v.b) { if (mode == 1) b.length = t.size(); } };

typedef wickr_buffer_t *(*Fn)(const wickr_buffer_t *);
struct Enc { const char *name; Fn enc, dec; Bytes (*refenc)(const Bytes &); };
static const Enc ENCS[3] = {{"base64", getBase64FromData, getDataFromBase64, ref::base64}, {"hex", getHexStringFromData, getDataFromHexString, ref::hexs}, {"base32", base32_encode, base32_decode, ref::base32}};

PROP(C24, roundtrip, 600000, 20000000) {
    const Enc &e = ENCS[c.draw(2)]; Bytes d = c.data1(c.chance(1, 30) ? 5000 : 200); View v(d);
    Buf t(e.enc(v)); Bytes want = e.refenc(d);
    CHECK(c, t, "%s encoding of %zu bytes failed", e.name, d.size());
    CHECK(c, str(t.get()) == want, "%s encoding of %s is '%.*s', expected '%.*s'", e.name, hex(d).c_str(), (int)std::min<size_t>(t->length, 60), (char *)t->bytes, (int)std::min<size_t>(want.size(), 60), (char *)want.data());
    CHECK(c, t->bytes[t->length] == 0, "%s encoding of %zu bytes is not NUL-terminated", e.name, d.size()); // ASan catches a missing terminator byte
    CHECK(c, v.bytes() == d, "%s encoding changed its input", e.name);
    // decode the library's own text in place and the independent text with and without terminator
    unsigned mode = (unsigned)c.draw(e.dec == base32_decode ? 1 : 2); Text x(want, mode);
    Buf back(e.dec(&x.b)), own(e.dec(t.get()));
    CHECK(c, to(back) == d && back, "%s decoding of '%.*s' (mode %u) gave %s, expected %s", e.name, (int)std::min<size_t>(want.size(), 60), (char *)want.data(), mode, S(back.get()).c_str(), hex(d).c_str());
    CHECK(c, own && to(own) == d, "%s decoding of the library's own text differs", e.name);
    Bytes after = x.v.bytes(); CHECK(c, after == x.store, "%s decoding changed its input", e.name);
    c.label(e.name); c.label("tail-" + std::to_string(d.size() % 15)); if (mode == 0) c.label("unterminated"); if (d.size() > 1) c.nontrivial();
    c.note("%s of %zu bytes, terminator mode %u", e.name, d.size(), mode);
}

// Base32 text outside the alphabet is refused; inside it, the value is the one of an independent decoder.
PROP(C24, base32_text, 500000, 20000000) {
    static const char *al = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"; int rm[256]; for (int &x : rm) x = -1; for (int i = 0; i < 32; i++) rm[(uint8_t)al[i]] = i;
    size_t n = c.size1(100); Bytes t(n); for (auto &x : t) x = al[c.draw(31)];
    bool bad = c.chance(1, 2); if (bad) { unsigned k = (unsigned)c.range(1, 3); while (k--) t[c.draw(n - 1)] = c.chance(1, 2) ? (uint8_t)c.draw(255) : (uint8_t)"ILOUabcdefghijklmnopqrstuvwxyz-= \n"[c.draw(33)]; }
    bool valid = true; for (uint8_t x : t) valid &= rm[x] >= 0;
    View v(t); Buf o(base32_decode(v));
    if (!valid) { CHECK(c, !o, "base32 text '%s' with a character outside the alphabet decoded to %s", hex(t).c_str(), S(o.get()).c_str()); c.label("invalid"); c.nontrivial(); c.note("invalid base32 of %zu characters", n); return; }
    Bytes want; uint32_t acc = 0; int bits = 0; for (uint8_t x : t) { acc = (acc << 5 | (uint32_t)rm[x]) & 0xfff; bits += 5; if (bits >= 8) { bits -= 8; want.push_back((uint8_t)(acc >> bits)); } }
    if (want.empty()) { CHECK(c, !o, "base32 text of %zu characters decoded to %s", n, S(o.get()).c_str()); return; }
    CHECK(c, o && to(o) == want, "base32 '%.*s' decoded to %s, expected %s", (int)std::min<size_t>(n, 60), (char *)t.data(), S(o.get()).c_str(), hex(want).c_str());
    CHECK(c, v.bytes() == t, "base32 decoding changed its input"); c.label("valid"); c.nontrivial(); c.note("base32 of %zu characters", n);
}

// Any text at all: memory safe (sanitizers), the result, if any, is usable, never longer than the text, and deterministic.
PROP(C24, any_text, 600000, 30000000) {
    const Enc &e = ENCS[c.draw(2)]; Bytes t;
    switch (c.pick({3, 3, 3})) {
        case 0: t = c.data1(200); break;
        case 1: { Bytes d = c.data1(60); t = e.refenc(d); unsigned k = (unsigned)c.range(1, 3); while (k--) c.mutate(t); break; }
        default: { static const char *cs[3] = {"=AZaz09+/9=-_ \n\t\r\x80\xff\x7f=", "0123456789abcdefABCDEFxX+- gG\x80\xff", "0123456789ABCDEFGHJKMNPQRSTVWXYZILOUabcxyz=\x80\xff"}; const char *s = cs[&e - ENCS]; size_t n = c.size1(40), m = strlen(s); t.resize(n); for (auto &x : t) x = s[c.draw(m - 1)]; }
    }
    if (t.empty()) return;
    View v(t); Buf o(e.dec(v)), o2(e.dec(v));
    CHECK(c, eq(o.get(), o2.get()), "%s decoding is not deterministic for %s", e.name, hex(t).c_str());
    CHECK(c, v.bytes() == t, "%s decoding changed its input", e.name);
    if (o) { CHECK(c, o->length > 0 && o->bytes && o->length <= t.size(), "%s decoding of %zu characters gave an unusable buffer of %zu bytes", e.name, t.size(), o->length); Buf cp(wickr_buffer_copy(o.get())); CHECK(c, eq(cp.get(), o.get()), "copy"); c.label("accepted"); }
    else c.label("rejected");
    if (&e == &ENCS[1]) { // well-formed pairs have one value
        size_t n = strnlen((char *)t.data(), t.size()); bool all = n >= 2; Bytes want; auto hv = [](uint8_t x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; };
        for (size_t i = 0; i < n; i++) all &= hv(t[i]) >= 0; for (size_t i = 0; all && i + 1 < n; i += 2) want.push_back((uint8_t)(hv(t[i]) << 4 | hv(t[i + 1])));
        if (all) CHECK(c, o && to(o) == want, "hex text '%.*s' decoded to %s", (int)std::min<size_t>(n, 60), (char *)t.data(), S(o.get()).c_str());
    }
    if (&e == &ENCS[0]) { // text with only alphabet characters and white space has one value
        static const char *al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; size_t n = strnlen((char *)t.data(), t.size()); bool all = true, inv = false; uint32_t acc = 0; int bits = 0; Bytes want;
        for (size_t i = 0; i < n; i++) { uint8_t x = t[i]; if (strchr(" \n\r\t\v", x) && x) continue; const char *q = strchr(al, x); if (!q || !x) { all = false; if (x != '=' && x != '\t' && x != '\v' && x != '\f') inv = true; continue; } acc = (acc << 6 | (uint32_t)(q - al)) & 0x3fff; bits += 6; if (bits >= 8) { bits -= 8; want.push_back((uint8_t)(acc >> bits)); } }
        if (inv) CHECK(c, !o, "base64 text %s with an invalid character was accepted", hex(t).c_str());
        else if (all && !want.empty() && !memchr(t.data(), '\v', n)) CHECK(c, o && to(o) == want, "base64 text '%.*s' decoded to %s, expected %s", (int)std::min<size_t>(n, 60), (char *)t.data(), S(o.get()).c_str(), hex(want).c_str());
    }
    c.label(e.name); c.nontrivial(); c.note("%s text %s", e.name, hex(t).c_str());
}

PROP(C24, missing, 20, 20) { for (const Enc &e : ENCS) { Buf a(e.enc(nullptr)), b(e.dec(nullptr)); CHECK(c, !a && !b, "%s of nothing", e.name); } c.nontrivial(); c.label("null"); }
