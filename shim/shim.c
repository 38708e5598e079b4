/* Third-party password hashes for the harness: real ones over OpenSSL / libcrypt, or - when vf_fast_kdf is
   set - a cheap keyed function of every parameter, so that thousands of export/import cases fit in a run.
   The library's own code is the same in both modes; only the third-party primitive is replaced. */
#include "shim.h"
#include "libscrypt.h"
#include <crypt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <openssl/evp.h>

int vf_fast_kdf = 1;
unsigned long vf_kdf_calls = 0;
int vf_kdf_fail = 0;

int vf_fast_scrypt(const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t saltlen,
                   uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen)
{
    uint8_t s[512]; size_t n = saltlen > 400 ? 400 : saltlen;
    memcpy(s, salt, n);
    n += (size_t)sprintf((char *)s + n, "|%llu|%u|%u", (unsigned long long)N, r, p);
    return PKCS5_PBKDF2_HMAC((const char *)pw, (int)pwlen, s, (int)n, 1, EVP_sha256(), (int)buflen, buf) ? 0 : -1;
}

int libscrypt_scrypt(const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t saltlen,
                     uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen)
{
    vf_kdf_calls++;
    if (vf_kdf_fail) return -1;
    if (vf_fast_kdf) return vf_fast_scrypt(pw, pwlen, salt, saltlen, N, r, p, buf, buflen);
    return EVP_PBE_scrypt((const char *)pw, pwlen, salt, saltlen, N, r, p, 4ull << 30, buf, buflen) == 1 ? 0 : -1;
}

static const char b64[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
/* MCF-shaped fast hash: setting "$2y$NN$" + 22 salt chars, then 31 chars */
char *vf_crypt_rn(const char *key, const char *setting, void *data, int size)
{
    vf_kdf_calls++;
    if (vf_kdf_fail) return NULL;
    if (!vf_fast_kdf) { /* libxcrypt wants its own large scratch area; Openwall's crypt_rn takes any output size */
        static __thread struct crypt_data cd; char *r = (crypt_rn)(key, setting, &cd, (int)sizeof cd);
        if (!r || r[0] == '*' || (int)strlen(r) >= size) return NULL;
        strcpy(data, r); return data;
    }
    if (size < 61 || strlen(setting) < 29 || setting[0] != '$') return NULL;
    uint8_t h[31]; char *o = data; size_t kl = strnlen(key, 72);
    if (!PKCS5_PBKDF2_HMAC(key, (int)kl, (const uint8_t *)setting, 29, 1, EVP_sha256(), 31, h)) return NULL;
    memcpy(o, setting, 29);
    for (int i = 0; i < 31; i++) o[29 + i] = b64[h[i] & 63];
    o[60] = 0;
    return o;
}
char *vf_crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *out, int outsize)
{
    return (crypt_gensalt_rn)(prefix, count, input, size, out, outsize);
}
