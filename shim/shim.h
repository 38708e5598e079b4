#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int vf_fast_kdf;
extern unsigned long vf_kdf_calls;
extern int vf_kdf_fail;
int vf_fast_scrypt(const uint8_t *pw, size_t pwlen, const uint8_t *salt, size_t saltlen,
                   uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen);
#ifdef __cplusplus
}
#endif
