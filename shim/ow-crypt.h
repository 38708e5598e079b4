/* Stand-in for the third-party crypt_blowfish, over the system libcrypt. */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
char *vf_crypt_rn(const char *key, const char *setting, void *data, int size);
char *vf_crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int output_size);
#ifdef __cplusplus
}
#endif
#define crypt_rn vf_crypt_rn
#define crypt_gensalt_rn vf_crypt_gensalt_rn
