// Reference oracles: OpenSSL where it implements the standard, own code (validated against published vectors) elsewhere.
#ifndef VF_REF_H
#define VF_REF_H
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <openssl/md4.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <openssl/aes.h>
#include <openssl/des.h>
#include <openssl/seed.h>
#include <openssl/blowfish.h>
#include <openssl/rc4.h>
#include <openssl/bn.h>
#include "common.h"

// ---- own digest references ----
struct RefMd2 { uint8_t x[16], c[16], buf[16]; int n; };
struct RefHas { uint32_t h[5]; uint64_t len; uint8_t buf[64]; };
void ref_md2_init(RefMd2 *m); void ref_md2_upd(RefMd2 *m, const uint8_t *d, size_t n); void ref_md2_fin(RefMd2 *m, uint8_t *out);
void ref_has_init(RefHas *m); void ref_has_upd(RefHas *m, const uint8_t *d, size_t n); void ref_has_fin(RefHas *m, uint8_t *out);

// ---- uniform view of the digests of the library and of the reference ----
enum { D_MD2, D_MD4, D_MD5, D_SHA1, D_224, D_256, D_384, D_512, D_512_224, D_512_256, D_HAS, D_COUNT };
extern const char *d_name[D_COUNT];
extern const int d_len[D_COUNT], d_blk[D_COUNT];
struct RefDigest {
	int alg; RefMd2 md2; RefHas has; MD4_CTX md4; MD5_CTX md5; SHA_CTX sha1; SHA256_CTX s256; SHA512_CTX s512; 
	explicit RefDigest(int a); void upd(const void *d, size_t n); void fin(uint8_t *out);
};
void ref_digest(int alg, const void *d, size_t n, uint8_t *out);

size_t d_ctxsize(int a);
int d_create(int a, void **ctx);
void d_destroy(int a, void *ctx);
void d_init(int a, void *ctx);
void d_update(int a, void *ctx, const uint8_t *d, int n);
void d_final(int a, void *ctx, uint8_t *out);
extern uint64_t d_direct;
bool d_has_oneshot(int a);
void d_oneshot(int a, const uint8_t *d, int n, uint8_t *out);

// ---- ciphers ----
enum { C_AES128, C_AES192, C_AES256, C_DES, C_EDE2, C_EDE3, C_SEED, C_ARIA128, C_ARIA192, C_ARIA256, C_BF, C_COUNT };
extern const char *c_name[C_COUNT];
extern const int c_blk[C_COUNT], c_keylen[C_COUNT];	// key length (Blowfish: default)
size_t c_ctxsize(int c);
int c_create(int c, const uint8_t *key, int klen, int mode, void **ctx);
void c_destroy(int c, void *ctx);
void c_init(int c, void *ctx, const uint8_t *key, int klen, int mode);
void c_setiv(int c, void *ctx, const uint8_t *iv);
void c_getiv(int c, void *ctx, uint8_t *iv);
int c_enc(int c, void *ctx, const uint8_t *in, int n, uint8_t *out);
int c_dec(int c, void *ctx, const uint8_t *in, int n, uint8_t *out);
int c_encfin(int c, void *ctx, const uint8_t *in, int n, uint8_t *out, int pad);
int c_decfin(int c, void *ctx, const uint8_t *in, int n, uint8_t *out, int pad);

// block-level reference
struct RefCipher {
	int c, blk; AES_KEY ae, ad; DES_key_schedule k[3]; SEED_KEY_SCHEDULE seed; BF_KEY bf; EVP_CIPHER_CTX *e, *d; uint64_t rk[3][16];
	RefCipher(int c, const uint8_t *key, int klen);
	~RefCipher();
	void enc(const uint8_t *in, uint8_t *out); void dec(const uint8_t *in, uint8_t *out);
private: RefCipher(const RefCipher &); RefCipher &operator=(const RefCipher &);
};
// DES only: force the standard even where the library has the recorded deviation (known finding des-sbox1)
extern bool vf_des_std;
// mode-level reference over whole blocks; iv is advanced
void ref_mode(RefCipher &r, int mode, bool encrypt, uint8_t *iv, const uint8_t *in, size_t nblocks, uint8_t *out);
#endif
