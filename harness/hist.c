#include "hist.h"
#include "keys.h"
#include <racrypt.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
extern void __msan_check_mem_is_initialized(const volatile void *, size_t) __attribute__((weak));
static uint64_t rnd(struct Hist *h) { uint64_t x = h->st += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static uint32_t below(struct Hist *h, uint32_t n) { if (n < 2) return 0; return (h->take ? h->take(h, n <= 256 ? 1 : n <= 65536 ? 2 : 4) : (uint32_t)(rnd(h) >> 16)) % n; }
static int range(struct Hist *h, int a, int b) { return a + (int)below(h, (uint32_t)(b - a) + 1); }
static int chance(struct Hist *h, int n, int d) { return (int)below(h, (uint32_t)d) < n; }
static void mixin(struct Hist *h, const void *p, size_t n) { const uint8_t *b = p; if (__msan_check_mem_is_initialized && n) __msan_check_mem_is_initialized(p, n); for (size_t i = 0; i < n; i++) { h->th ^= b[i]; h->th *= 0x100000001b3ull; } }
static void mixint(struct Hist *h, int64_t v) { mixin(h, &v, 8); }
static void done(struct Hist *h, const char *op) { h->ops++; if (h->step) h->step(h, op, h->th); }
static void bad(struct Hist *h, const char *op, const char *what) { if (h->fail) h->fail(h, op, what); else { fprintf(stderr, "VF-HIST %s: %s\n", op, what); abort(); } }
static void need(struct Hist *h, const char *op, int rc) { if (rc != 0) { char m[60]; snprintf(m, sizeof m, "returned %d", rc); bad(h, op, m); } }
/* one call, repeated when the harness made an allocation fail; the argument must start from the same state every time */
#define TRY(op_, expr_) ({ int rc_; h->attempt = 0; h->last = op_; do { if (h->pre) h->pre(h, op_); rc_ = (expr_); h->attempt++; } while (h->post && h->post(h, op_, rc_)); rc_; })
#define MUST(op_, expr_) need(h, op_, TRY(op_, expr_))
void *(*hist_buf)(size_t n); void (*hist_buf_free)(void *p);
static uint8_t *buf(size_t n) { uint8_t *p = hist_buf ? hist_buf(n) : malloc(n ? n : 1); if (!p) abort(); return p; }
static void bfree(void *p) { if (hist_buf_free) hist_buf_free(p); else free(p); }
static uint8_t *rbuf(struct Hist *h, size_t n)
{
	uint8_t *p = buf(n); int m = below(h, 4); for (size_t i = 0; i < n; i++) p[i] = m == 0 ? (uint8_t)(h->ops & 1 ? 0xff : 0) : (uint8_t)(i & 7 ? p[i - 1] * 5 + 17 : rnd(h)); return p;
}
static int len(struct Hist *h) { int m = below(h, 8); return m == 0 ? 0 : m < 4 ? range(h, 1, 40) : m < 7 ? range(h, 1, 300) : range(h, 1, 3000); }

/* ---- digests ---- */
#define ND 11
const int hx_dlen[ND] = { 16, 16, 16, 20, 28, 32, 48, 64, 28, 32, 20 };
static const enum RaDigestAlgorithm dalg[ND] = { 0, 0, 0, 0, RA_DGST_SHA2_224, RA_DGST_SHA2_256, RA_DGST_SHA2_384, RA_DGST_SHA2_512, RA_DGST_SHA2_512_224, RA_DGST_SHA2_512_256, 0 };
const size_t hx_dsize[ND] = { sizeof(struct RaMd2Ctx), sizeof(struct RaMd4Ctx), sizeof(struct RaMd5Ctx), sizeof(struct RaSha1Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaHas160Ctx) };
int hx_dcreate(int a, void **c) { *c = NULL; switch (a) { case 0: return RaMd2Create((struct RaMd2Ctx **)c); case 1: return RaMd4Create((struct RaMd4Ctx **)c); case 2: return RaMd5Create((struct RaMd5Ctx **)c); case 3: return RaSha1Create((struct RaSha1Ctx **)c); case 10: return RaHas160Create((struct RaHas160Ctx **)c); default: return RaSha2Create(dalg[a], (struct RaSha2Ctx **)c); } }
void hx_ddestroy(int a, void *c) { switch (a) { case 0: RaMd2Destroy(c); break; case 1: RaMd4Destroy(c); break; case 2: RaMd5Destroy(c); break; case 3: RaSha1Destroy(c); break; case 10: RaHas160Destroy(c); break; default: RaSha2Destroy(c); } }
void hx_dinit(int a, void *c) { switch (a) { case 0: RaMd2Init(c); break; case 1: RaMd4Init(c); break; case 2: RaMd5Init(c); break; case 3: RaSha1Init(c); break; case 10: RaHas160Init(c); break; default: RaSha2Init(c, dalg[a]); } }
void hx_dupd(int a, void *c, const uint8_t *d, int n) { switch (a) { case 0: RaMd2Update(c, d, n); break; case 1: RaMd4Update(c, d, n); break; case 2: RaMd5Update(c, d, n); break; case 3: RaSha1Update(c, d, n); break; case 10: RaHas160Update(c, d, n); break; default: RaSha2Update(c, d, n); } }
void hx_dfin(int a, void *c, uint8_t *o) { switch (a) { case 0: RaMd2Final(c, o); break; case 1: RaMd4Final(c, o); break; case 2: RaMd5Final(c, o); break; case 3: RaSha1Final(c, o); break; case 10: RaHas160Final(c, o); break; default: RaSha2Final(c, o); } }
int hx_done1(int a, const uint8_t *d, int n, uint8_t *o) { switch (a) { case 0: RaMd2(d, n, o); break; case 1: RaMd4(d, n, o); break; case 2: RaMd5(d, n, o); break; case 3: RaSha1(d, n, o); break; case 5: RaSha256(d, n, o); break; case 7: RaSha512(d, n, o); break; case 10: RaHas160(d, n, o); break; default: return 0; } return 1; }

/* ---- ciphers: 11 block ciphers ---- */
#define NC 11
const int hx_cblk[NC] = { 16, 16, 16, 8, 8, 8, 16, 16, 16, 16, 8 };
const int hx_cklen[NC] = { 16, 24, 32, 8, 16, 24, 16, 16, 24, 32, 16 };
static const int ctyp[NC] = { RA_AES_128, RA_AES_192, RA_AES_256, RA_DES, RA_DES_EDE2, RA_DES_EDE3, 0, RA_ARIA_128, RA_ARIA_192, RA_ARIA_256, 0 };
const size_t hx_csize[NC] = { sizeof(struct RaAesCtx), sizeof(struct RaAesCtx), sizeof(struct RaAesCtx), sizeof(struct RaDesCtx), sizeof(struct RaDesCtx), sizeof(struct RaDesCtx), sizeof(struct RaSeedCtx), sizeof(struct RaAriaCtx), sizeof(struct RaAriaCtx), sizeof(struct RaAriaCtx), sizeof(struct RaBlowfishCtx) };
static int fam(int c) { return c < 3 ? 0 : c < 6 ? 1 : c == 6 ? 2 : c < 10 ? 3 : 4; }
int hx_ccreate(int c, const uint8_t *k, int kl, int mode, void **x) { *x = NULL; switch (fam(c)) { case 0: return RaAesCreate(k, ctyp[c], mode, (struct RaAesCtx **)x); case 1: return RaDesCreate(k, ctyp[c], mode, (struct RaDesCtx **)x); case 2: return RaSeedCreate(k, mode, (struct RaSeedCtx **)x); case 3: return RaAriaCreate(k, ctyp[c], mode, (struct RaAriaCtx **)x); default: return RaBlowfishCreate(k, kl, mode, (struct RaBlowfishCtx **)x); } }
void hx_cinit(int c, void *x, const uint8_t *k, int kl, int mode) { switch (fam(c)) { case 0: RaAesInit(x, k, ctyp[c], mode); break; case 1: RaDesInit(x, k, ctyp[c], mode); break; case 2: RaSeedInit(x, k, mode); break; case 3: RaAriaInit(x, k, ctyp[c], mode); break; default: RaBlowfishInit(x, k, kl, mode); } }
#define CALL5(c, A, args) switch (fam(c)) { case 0: return RaAes##A args; case 1: return RaDes##A args; case 2: return RaSeed##A args; case 3: return RaAria##A args; default: return RaBlowfish##A args; }
void hx_cdestroy(int c, void *x) { CALL5(c, Destroy, (x)) }
void hx_csetiv(int c, void *x, const uint8_t *v) { CALL5(c, SetIV, (x, v)) }
void hx_cgetiv(int c, void *x, uint8_t *v) { CALL5(c, GetIV, (x, v)) }
int hx_cenc(int c, void *x, const uint8_t *i, int n, uint8_t *o) { CALL5(c, Encrypt, (x, i, n, o)) }
int hx_cdec(int c, void *x, const uint8_t *i, int n, uint8_t *o) { CALL5(c, Decrypt, (x, i, n, o)) }
int hx_cencf(int c, void *x, const uint8_t *i, int n, uint8_t *o, int p) { CALL5(c, EncryptFinal, (x, i, n, o, p)) }
int hx_cdecf(int c, void *x, const uint8_t *i, int n, uint8_t *o, int p) { CALL5(c, DecryptFinal, (x, i, n, o, p)) }

/* ---- state of a history ---- */
#define SD 4
#define SC 4
#define SR 3
#define SB 6
#define CAPBITS 4096
#define KEEPBITS 700
struct State {
	struct { int a; void *c; int own; } d[SD];
	struct { int c, dir, own; void *x; } c[SC];
	struct RaRc4Ctx *rc4; int rc4own;
	struct { struct RaRandom *r; int scripted; } r[SR];
	struct RaBigNumber *b[SB];
	struct RaMontCtx *mont; int montbits;
	struct { struct RaRsaKeyPair *k; int priv, unknown, bits; } k[2];
};
static void dkill(struct State *s, int i) { if (!s->d[i].c) return; if (s->d[i].own) bfree(s->d[i].c); else hx_ddestroy(s->d[i].a, s->d[i].c); s->d[i].c = NULL; }
static void ckill(struct State *s, int i) { if (!s->c[i].x) return; if (s->c[i].own) bfree(s->c[i].x); else hx_cdestroy(s->c[i].c, s->c[i].x); s->c[i].x = NULL; }
static void wordsize_free(struct RaBigNumber *b, int clear) { if (clear) BnClearFree(b); else BnFree(b); }

static void opdigest(struct Hist *h, struct State *s)
{
	int i = below(h, SD), m = below(h, 10); uint8_t *p, *o;
	if (m == 9) { int a = below(h, ND), n = len(h); p = rbuf(h, n); o = buf(hx_dlen[a]); if (hx_done1(a, p, n, o)) mixin(h, o, hx_dlen[a]); bfree(p); bfree(o); done(h, "one-shot digest"); return; }
	if (!s->d[i].c) {
		int a = s->d[i].a = below(h, ND); s->d[i].own = chance(h, 1, 3);
		if (s->d[i].own) { s->d[i].c = buf(hx_dsize[a]); hx_dinit(a, s->d[i].c); } else { MUST("digest create", hx_dcreate(a, &s->d[i].c)); hx_dinit(a, s->d[i].c); }
		done(h, "digest create"); return;
	}
	int a = s->d[i].a;
	if (m < 5) { int n = len(h); p = rbuf(h, n); hx_dupd(a, s->d[i].c, p, n); bfree(p); done(h, "digest update"); }
	else if (m < 7) { o = buf(hx_dlen[a]); hx_dfin(a, s->d[i].c, o); mixin(h, o, hx_dlen[a]); bfree(o); if (chance(h, 1, 2)) hx_dinit(a, s->d[i].c); else dkill(s, i); done(h, "digest final"); }
	else if (m == 7) { int j = below(h, SD); if (s->d[j].c && s->d[j].a == a && j != i) { memcpy(s->d[j].c, s->d[i].c, hx_dsize[a]); } else { hx_dinit(a, s->d[i].c); } done(h, "digest copy or restart"); }
	else { dkill(s, i); done(h, "digest destroy"); }
}
static void opcipher(struct Hist *h, struct State *s)
{
	int i = below(h, SC), m = below(h, 16); uint8_t *p, *o, *k; int n, r;
	if (!s->c[i].x || m == 0) {
		int c = s->c[i].x ? s->c[i].c : (int)below(h, NC), kl = c == 10 ? range(h, 1, 72) : hx_cklen[c], mode = below(h, 4); k = rbuf(h, kl);
		if (s->c[i].x) hx_cinit(c, s->c[i].x, k, kl, mode);
		else { s->c[i].c = c; s->c[i].own = chance(h, 1, 3); if (s->c[i].own) { s->c[i].x = buf(hx_csize[c]); hx_cinit(c, s->c[i].x, k, kl, mode); } else MUST("cipher create", hx_ccreate(c, k, kl, mode, &s->c[i].x)); }
		s->c[i].dir = -1; bfree(k); done(h, "cipher create or init"); return;
	}
	int c = s->c[i].c, B = hx_cblk[c]; void *x = s->c[i].x;
	if (m == 1) { k = rbuf(h, B); hx_csetiv(c, x, k); bfree(k); s->c[i].dir = -1; done(h, "set IV"); return; }
	if (m == 2) { k = buf(B); hx_cgetiv(c, x, k); mixin(h, k, B); bfree(k); done(h, "get IV"); return; }
	if (m == 3) { ckill(s, i); done(h, "cipher destroy"); return; }
	if (s->c[i].dir < 0) s->c[i].dir = below(h, 2);
	n = chance(h, 1, 2) ? B * range(h, 0, 12) : len(h); p = rbuf(h, n); o = buf(n + 2 * B);
	if (m < 12) { r = s->c[i].dir ? hx_cdec(c, x, p, n, o) : hx_cenc(c, x, p, n, o); if (r < 0 || r > n + B) bad(h, "cipher", "impossible length"); mixint(h, r); mixin(h, o, r); done(h, s->c[i].dir ? "decrypt" : "encrypt"); }
	else { int pad = below(h, 3); r = s->c[i].dir ? hx_cdecf(c, x, p, n, o, pad) : hx_cencf(c, x, p, n, o, pad); if (r > n + 2 * B) bad(h, "cipher", "impossible length"); mixint(h, r); if (r > 0) mixin(h, o, r); s->c[i].dir = -1; done(h, "cipher final"); }
	bfree(p); bfree(o);
}
static void oprc4(struct Hist *h, struct State *s)
{
	int m = below(h, 8), n; uint8_t *p, *o;
	if (!s->rc4 || m == 0) { n = range(h, 1, 64); p = rbuf(h, n); if (s->rc4) RaRc4Init(s->rc4, p, n); else { s->rc4own = chance(h, 1, 3); if (s->rc4own) { s->rc4 = (struct RaRc4Ctx *)buf(sizeof *s->rc4); RaRc4Init(s->rc4, p, n); } else MUST("rc4 create", (s->rc4 = NULL, RaRc4Create(p, n, &s->rc4))); } bfree(p); done(h, "rc4 create or init"); return; }
	if (m == 1) { if (s->rc4own) bfree(s->rc4); else RaRc4Destroy(s->rc4); s->rc4 = NULL; done(h, "rc4 destroy"); return; }
	n = len(h); p = rbuf(h, n); if (chance(h, 1, 3)) { int r = m & 1 ? RaRc4Encrypt(s->rc4, p, n, p) : RaRc4Decrypt(s->rc4, p, n, p); mixint(h, r); mixin(h, p, n); } else { o = buf(n); int r = m & 1 ? RaRc4Encrypt(s->rc4, p, n, o) : RaRc4Decrypt(s->rc4, p, n, o); mixint(h, r); mixin(h, o, n); bfree(o); } bfree(p); done(h, "rc4");
}
static int mixable(struct Hist *h, struct State *s, int i) { return s->r[i].scripted ? h->flags & HIST_SCRIPTED : 1; }
static void oprandom(struct Hist *h, struct State *s)
{
	int i = below(h, SR), m = below(h, 10);
	if (!s->r[i].r) {
		int a = below(h, 4); int n = range(h, 1, 60); uint8_t *p = rbuf(h, n); s->r[i].scripted = chance(h, 1, 4);
		if (s->r[i].scripted) MUST("random create from system entropy", (s->r[i].r = NULL, RaRandomCreate(a, NULL, 0, &s->r[i].r))); else MUST("random create", (s->r[i].r = NULL, RaRandomCreate(a, p, n, &s->r[i].r)));
		bfree(p); done(h, "random create"); return;
	}
	struct RaRandom *r = s->r[i].r; int ok = mixable(h, s, i);
	if (m < 4) { int n = len(h); uint8_t *o = buf(n); RaRandomBytes(r, n, o); if (ok) mixin(h, o, n); bfree(o); done(h, "random bytes"); }
	else if (m < 6) { double d = RaRandom(r); if (!(d > 0 && d < 1)) bad(h, "RaRandom", "outside (0, 1)"); if (ok) mixin(h, &d, 8); done(h, "random real"); }
	else if (m < 8) { uint32_t a = (uint32_t)rnd(h), b = (uint32_t)rnd(h), v; if (a > b) { v = a; a = b; b = v; } if (chance(h, 1, 2)) { a &= 255; b = a + (b & 63); } v = RaRandomInt(r, a, b); if (v < a || v > b) bad(h, "RaRandomInt", "outside the range"); if (ok) mixint(h, v); done(h, "random integer"); }
	else if (m == 8) { RaRandomDestroy(r); s->r[i].r = NULL; done(h, "random destroy"); }
	else { int n = range(h, 0, 50); uint8_t *o = buf(n); int own = chance(h, 1, 2); MUST("random byte array", BnGenRandomByteArray(o, n, own ? NULL : r)); if (own ? h->flags & HIST_SCRIPTED : ok) mixin(h, o, n); bfree(o); done(h, "random byte array"); }
}

/* ---- numbers: slots of a fixed capacity whose values are cut to a moderate length ---- */
static struct RaBigNumber *bnew(struct Hist *h, int bits) { struct RaBigNumber *b = NULL; MUST("BnNew", ((b = BnNew(bits)) ? 0 : RA_ERR_OUT_OF_MEMORY)); return b; }
static void bmix(struct Hist *h, struct RaBigNumber *b)
{
	int n = BnToByteArray(b, NULL, 0); uint8_t *o = buf(n); int r = TRY("BnToByteArray", BnToByteArray(b, o, n)); if (r != n) bad(h, "BnToByteArray", "length differs from the announced one"); mixin(h, o, r); bfree(o);
	if (b->length < 1 || b->length > b->max_length || (b->length > 1 && !b->data[b->length - 1])) bad(h, h->last, "number is not canonical");
}
static void bcut(struct RaBigNumber *b) { int n = BnGetBitLength(b); if (n > KEEPBITS) BnShiftR(b, n - KEEPBITS); }
static void brand(struct Hist *h, struct RaBigNumber *b, int most)
{
	int n = range(h, 1, chance(h, 1, 3) ? 80 : 12); if (n > most) n = most; uint8_t *p = rbuf(h, n); if (chance(h, 1, 2)) need(h, "BnSetByteArray", BnSetByteArray(b, p, n)); else need(h, "BnSetUByteArray", BnSetUByteArray(b, p, n)); bfree(p);
}
static struct RaBigNumber *slot(struct Hist *h, struct State *s, int i) { if (!s->b[i]) { s->b[i] = bnew(h, CAPBITS); brand(h, s->b[i], 80); bcut(s->b[i]); } return s->b[i]; }
static void put(struct Hist *h, struct State *s, int i, struct RaBigNumber *r) { bcut(r); BnSet(slot(h, s, i), r); wordsize_free(r, chance(h, 1, 2)); }
static void opbn(struct Hist *h, struct State *s)
{
	int ia = below(h, SB), ib = below(h, SB), id = below(h, SB), m = below(h, 34); struct RaBigNumber *a = slot(h, s, ia), *b = slot(h, s, ib), *r = NULL, *q = NULL, *t = NULL; uint32_t w = chance(h, 1, 3) ? (uint32_t)(0u - below(h, 3)) : chance(h, 1, 2) ? below(h, 300) : (uint32_t)rnd(h); bn_uint_t rem;
	const char *nm = "number"; int light = h->flags & HIST_LIGHT, ali = chance(h, 1, 3);
	switch (m) {
	case 0: case 1: nm = "BnAdd"; r = bnew(h, CAPBITS); if (ali) BnSet(r, a); need(h, nm, BnAdd(r, ali ? r : a, b)); break;
	case 2: case 3: nm = "BnSub"; r = bnew(h, CAPBITS); if (ali) BnSet(r, a); need(h, nm, BnSub(r, ali ? r : a, b)); break;
	case 4: nm = "BnDouble"; r = bnew(h, CAPBITS); need(h, nm, BnDouble(r, a)); break;
	case 5: case 6: nm = "BnMul"; r = bnew(h, CAPBITS); need(h, nm, TRY(nm, BnMul(r, a, b))); break;
	case 7: nm = "BnSqr"; r = bnew(h, CAPBITS); need(h, nm, TRY(nm, BnSqr(r, a))); break;
	case 8: case 9: if (BN_ISZERO(b)) return; nm = "BnDiv"; r = bnew(h, CAPBITS); q = bnew(h, CAPBITS); need(h, nm, TRY(nm, (ali ? (void)BnSet(r, a) : (void)0, BnDiv(q, r, ali ? r : a, b)))); bmix(h, q); break;
	case 10: if (BN_ISZERO(b)) return; nm = "BnMod"; r = bnew(h, CAPBITS); need(h, nm, TRY(nm, (ali ? (void)BnSet(r, a) : (void)0, BnMod(r, ali ? r : a, b)))); break;
	case 11: nm = "BnClone"; MUST(nm, ((r = BnClone(a)) ? 0 : RA_ERR_OUT_OF_MEMORY)); break;
	case 12: nm = "word addition"; r = bnew(h, CAPBITS); BnSet(r, a); need(h, nm, chance(h, 1, 2) ? BnAddUInt(r, w) : BnAddInt(r, (int32_t)w)); break;
	case 13: nm = "word subtraction"; r = bnew(h, CAPBITS); BnSet(r, a); need(h, nm, chance(h, 1, 2) ? BnSubUInt(r, w) : BnSubInt(r, (int32_t)w)); break;
	case 14: nm = "word multiplication"; r = bnew(h, CAPBITS); BnSet(r, a); need(h, nm, chance(h, 1, 2) ? BnMulUInt(r, w) : BnMulInt(r, (int32_t)w)); break;
	case 15: if (!w) w = 1; nm = "word division"; r = bnew(h, CAPBITS); BnSet(r, a); rem = 0; need(h, nm, chance(h, 1, 2) ? BnDivUInt(r, w, &rem) : BnDivInt(r, (int32_t)w, &rem)); mixint(h, (int64_t)(uint32_t)rem); break;
	case 16: if (!w) w = 1; nm = "word modulo"; rem = 0; need(h, nm, BnModUInt(a, w, &rem)); mixint(h, (int64_t)(uint32_t)rem); break;
	case 17: nm = "shift left"; r = bnew(h, CAPBITS); BnSet(r, a); need(h, nm, BnShiftL(r, below(h, 200))); break;
	case 18: nm = "shift right"; r = bnew(h, CAPBITS); BnSet(r, a); need(h, nm, BnShiftR(r, below(h, 800))); break;
	case 19: nm = "comparison"; mixint(h, BnCmp(a, b) < 0 ? -1 : BnCmp(a, b) > 0); mixint(h, BnCmpUInt(a, w) < 0 ? -1 : BnCmpUInt(a, w) > 0); mixint(h, BnCmpInt(a, (int32_t)w) < 0 ? -1 : BnCmpInt(a, (int32_t)w) > 0); mixint(h, BnGetBitLength(a)); break;
	case 20: nm = "assignment"; r = bnew(h, CAPBITS); switch (below(h, 5)) { case 0: BnSetInt(r, (int32_t)w); break; case 1: BnSetUInt(r, w); break; case 2: BnSetInt64(r, (int64_t)rnd(h)); break; case 3: BnSetUInt64(r, rnd(h)); break; default: BnSetInt32(r, (int32_t)w); } mixint(h, (int64_t)_BnGetUInt64(r)); mixint(h, _BnGetUInt32(r)); break;
	case 21: nm = "fixed bytes"; { int n = range(h, 1, 100); uint8_t *o = buf(n); int k = BnToFixedByteArray(a, o, n); mixint(h, k); if (k > 0) mixin(h, o, k); bfree(o); } break;
	case 22: if (BN_ISZERO(a) || BN_ISZERO(b)) return; nm = "GetGCD"; r = bnew(h, CAPBITS); need(h, nm, TRY(nm, GetGCD(r, a, b))); break;
	case 23: if (BN_ISZERO(a) || BN_ISZERO(b) || BN_ISNEG(a) || BN_ISNEG(b)) return; nm = "GetGCDEx"; r = bnew(h, CAPBITS); q = bnew(h, CAPBITS); t = bnew(h, CAPBITS); { int u = below(h, 2), only = below(h, 3); need(h, nm, TRY(nm, GetGCDEx(r, only == 1 ? NULL : q, only == 2 ? NULL : t, a, b, u))); if (only != 1) bmix(h, q); if (only != 2) bmix(h, t); } break;
	case 24: nm = "number from bytes"; brand(h, a, 80); bcut(a); bmix(h, a); break;
	case 25: nm = "number destroy"; wordsize_free(s->b[ia], chance(h, 1, 2)); s->b[ia] = NULL; break;
	case 26: case 27: case 28: {	/* random numbers whose length takes the same generator bytes for both word sizes */
		static const int bits[] = { 33, 40, 50, 63, 64, 100, 128, 161, 192, 250, 256, 320, 610 }; int n = bits[below(h, 13)], k = below(h, 3), i = below(h, SR); struct RaRandom *g = s->r[i].r; r = bnew(h, CAPBITS); nm = "random number"; int ok = g ? mixable(h, s, i) : h->flags & HIST_SCRIPTED;
		MUST(nm, k == 0 ? BnGenRandom(r, n, g) : k == 1 ? BnGetRandomOdd(r, n, g) : BnGetRandomRSA(r, n, g)); if (!ok) { BnFree(r); r = NULL; } } break;
	case 29: if (light) return; { nm = "RaIsPrimeNumber"; r = bnew(h, 512); BnSet(r, a); if (BnGetBitLength(r) > 200) BnShiftR(r, BnGetBitLength(r) - 200); r->data[0] |= 1; r->sign = 0; if (BN_ISONE(r)) BnSetUInt(r, 3); int rc = TRY(nm, RaIsPrimeNumber(r)); if (rc != 0 && rc != RA_ERR_INVALID_DATA) need(h, nm, rc); mixint(h, rc); } break;
	case 30: if (light) return; { static const int bits[] = { 40, 48, 64, 100, 128 }; int n = bits[below(h, 5)]; uint8_t sd[8]; uint64_t x = rnd(h); memcpy(sd, &x, 8); struct RaRandom *g = NULL; nm = "RaGenPrimeNumberEx"; r = bnew(h, CAPBITS);
		MUST(nm, ({ int e_ = RaRandomCreate(RA_RAND_SHA256, sd, 8, &g); if (e_ == 0) { e_ = RaGenPrimeNumberEx(r, n, NULL, NULL, g); RaRandomDestroy(g); } e_; })); if (h->flags & HIST_CROSS) { BnFree(r); r = NULL; } } break;
	case 31: if (light) return; { nm = "RaGenPrimeNumber"; r = bnew(h, CAPBITS); MUST(nm, RaGenPrimeNumber(r, 64)); if (!(h->flags & HIST_SCRIPTED) || h->flags & HIST_CROSS) { BnFree(r); r = NULL; } } break;
	default: /* Montgomery */
		if (!s->mont || chance(h, 1, 6)) { nm = "RaMontCreate"; q = bnew(h, CAPBITS); BnSet(q, a); if (BN_ISZERO(q)) BnSetUInt(q, 15); q->sign = 0; struct RaMontCtx *c = NULL; int even = BN_ISEVEN(q), rc = TRY(nm, (c = NULL, RaMontCreate(q, &c))); if (even ? rc != RA_ERR_INVALID_PARAM : rc != 0) need(h, nm, rc ? rc : 1); mixint(h, rc); if (rc == 0) { RaMontDestroy(s->mont); s->mont = c; s->montbits = BnGetBitLength(q); } break; }
		nm = "RaMontExpMod"; q = bnew(h, CAPBITS); BnSet(q, a); q->sign = 0; if (BnGetBitLength(q) > s->montbits) BnShiftR(q, BnGetBitLength(q) - s->montbits); t = bnew(h, CAPBITS); BnSet(t, b); t->sign = 0; if (BnGetBitLength(t) > 150) BnShiftR(t, BnGetBitLength(t) - 150); r = bnew(h, s->montbits + 64); MUST(nm, RaMontExpMod(s->mont, r, q, t)); break;
	}
	mixin(h, nm, 4); if (r) { bmix(h, r); if (r->max_length * 8 * BN_WORD_BYTE >= CAPBITS) put(h, s, id, r); else BnFree(r); } if (q) BnFree(q); if (t) BnClearFree(t); done(h, nm);
}

/* ---- RSA ---- */
static int kload(int how, const uint8_t *p, int n, struct RaRsaKeyPair **k) { *k = NULL; return how == 0 ? RaRsaCreateKeyFromByteArray(p, n, k) : how == 1 ? RaRsaCreateKeyPriv(p, n, k) : RaRsaCreateKeyPub(p, n, k); }
static void oprsa(struct Hist *h, struct State *s)
{
	int i = below(h, 2), m = below(h, 14); struct RaBigNumber *x, *y;
	if (!s->k[i].k) {
		uint8_t *p; int n, rc; s->k[i].unknown = 0;
		if (!(h->flags & HIST_LIGHT) && chance(h, 1, 8)) { static const int bits[] = { 80, 96, 128, 200, 256 }; int kb = bits[below(h, 5)]; MUST("RaRsaCreateKeyPair", (s->k[i].k = NULL, RaRsaCreateKeyPair(kb, &s->k[i].k))); s->k[i].priv = 1; s->k[i].unknown = !(h->flags & HIST_SCRIPTED) || h->flags & HIST_CROSS; done(h, "RSA key generation"); }
		else { int w = below(h, HKEYS), pub = chance(h, 1, 3); n = hkeys[w].n; p = buf(n); memcpy(p, hkeys[w].d, n); MUST("RSA import", kload(0, p, n, &s->k[i].k)); bfree(p); s->k[i].priv = 1;
			if (pub) { struct RaRsaKeyPair *k = NULL; MUST("public export length", RaRsaPubKeyToByteArray(s->k[i].k, NULL, 0, &n)); p = buf(n); MUST("public export", RaRsaPubKeyToByteArray(s->k[i].k, p, n, &rc)); mixin(h, p, n); MUST("public import", kload(0, p, n, &k)); bfree(p); RaRsaDestroyKeyPair(s->k[i].k); s->k[i].k = k; s->k[i].priv = 0; } done(h, "RSA import"); }
		s->k[i].bits = RaRsaKeyBitLength(s->k[i].k); return;
	}
	struct RaRsaKeyPair *k = s->k[i].k; int bits = s->k[i].bits, ok = !s->k[i].unknown, rc;
	switch (m) {
	case 0: RaRsaDestroyKeyPair(k); s->k[i].k = NULL; done(h, "RSA destroy"); return;
	case 1: case 2: { int priv = below(h, 2), n = -1, l = -1; rc = TRY("export length", priv ? RaRsaPrivKeyToByteArray(k, NULL, 0, &n) : RaRsaPubKeyToByteArray(k, NULL, 0, &n)); if (priv && !s->k[i].priv) { if (rc == 0) bad(h, "export", "a public key is exported as private"); done(h, "export refused"); return; } need(h, "export", rc); uint8_t *p = buf(n); MUST("export", priv ? RaRsaPrivKeyToByteArray(k, p, n, &l) : RaRsaPubKeyToByteArray(k, p, n, &l)); if (l != n) bad(h, "export", "length"); if (ok) mixin(h, p, n);
		uint8_t *sm = buf(n - 1); rc = TRY("export into a short buffer", priv ? RaRsaPrivKeyToByteArray(k, sm, n - 1, &l) : RaRsaPubKeyToByteArray(k, sm, n - 1, &l)); if (rc == 0) bad(h, "export", "short buffer accepted"); bfree(sm); struct RaRsaKeyPair *k2; MUST("import of an export", kload(0, p, n, &k2)); RaRsaDestroyKeyPair(k2); bfree(p); done(h, "RSA export and import"); return; }
	case 3: { int n = len(h) % 400; uint8_t *p = rbuf(h, n); if (chance(h, 2, 3)) { int w = below(h, HKEYS); bfree(p); n = hkeys[w].n; p = buf(n); memcpy(p, hkeys[w].d, n); int t = range(h, 1, 3); while (t--) p[below(h, chance(h, 1, 2) ? 40 : n)] = chance(h, 1, 2) ? (uint8_t)rnd(h) : 0x80; if (chance(h, 1, 3)) n = range(h, 0, n); } uint8_t *e = buf(n); memcpy(e, p, n); struct RaRsaKeyPair *g; int how = below(h, 3); rc = TRY("import of damaged bytes", kload(how, e, n, &g)); mixint(h, rc == 0); if (rc == 0) RaRsaDestroyKeyPair(g); bfree(p); bfree(e); done(h, "import of damaged bytes"); return; }
	case 4: if (h->flags & HIST_LIGHT) return; rc = TRY("RaRsaVerifyKey", RaRsaVerifyKey(k)); if (rc != 0) need(h, "RaRsaVerifyKey", rc); done(h, "RaRsaVerifyKey"); return;
	}
	x = bnew(h, bits + 64); y = bnew(h, bits + 64); brand(h, x, bits / 8 + 8); x->sign = 0; if (BnGetBitLength(x) >= bits) BnShiftR(x, BnGetBitLength(x) - bits + 1);
	if (m < 8) { MUST("RaRsaEncrypt", RaRsaEncrypt(k, x, y)); if (ok) bmix(h, y); if (s->k[i].priv) { struct RaBigNumber *z = bnew(h, bits + 64); MUST("RaRsaDecrypt", RaRsaDecrypt(k, y, z)); if (BnCmp(x, z)) bad(h, "RaRsaDecrypt", "does not undo the encryption"); BnFree(z); } done(h, "RSA encrypt"); }
	else if (m < 12) { rc = TRY("RaRsaSign", RaRsaSign(k, x, y)); if (!s->k[i].priv) { if (rc == 0) bad(h, "RaRsaSign", "a public key signs"); } else { need(h, "RaRsaSign", rc); if (ok) bmix(h, y); MUST("RaRsaVerify", RaRsaVerify(k, y, x)); BnAddUInt(x, 1); rc = TRY("RaRsaVerify", RaRsaVerify(k, y, x)); if (rc == 0) bad(h, "RaRsaVerify", "accepts another message"); } done(h, "RSA sign and verify"); }
	else { BnShiftL(x, 3); brand(h, y, bits / 8 + 8); rc = TRY("RaRsaVerify", RaRsaVerify(k, x, y)); if (ok) mixint(h, rc == 0); done(h, "RSA verify of arbitrary numbers"); }
	BnFree(x); BnClearFree(y);
}
/* ---- calls that are refused ---- */
extern int vf_ndebug __attribute__((weak));
static int cancel(int count, void *u) { (void)count; return --*(int *)u <= 0; }	/* anything but zero stops the search */
static void refused(struct Hist *h, const char *nm, int rc, int must) { if (must && rc == 0) bad(h, nm, "not refused"); mixint(h, rc != 0); }
static void oprefuse(struct Hist *h, struct State *s)
{
	int ia = below(h, SB), ib = below(h, SB), m = below(h, 20), n, rc = 0; struct RaBigNumber *a = slot(h, s, ia), *b = slot(h, s, ib), *z = NULL, *r = NULL, *q = NULL; uint8_t *o; bn_uint_t rem = 0; const char *nm = "refused call";
	/* with assertions on these calls stop at one: they are made when assertions are off (and never in histories compared across configurations) */
	if ((1u << m & (1u << 4 | 1u << 5 | 1u << 6 | 1u << 8 | 1u << 9 | 1u << 10 | 1u << 11 | 1u << 15 | 1u << 16 | 1u << 18 | 1u << 19)) && (h->flags & HIST_CROSS || !&vf_ndebug || !vf_ndebug)) return;
	switch (m) {
	case 0: case 1: case 2: nm = "BnToByteArray into a short buffer"; n = BnToByteArray(a, NULL, 0); if (n < 1) bad(h, nm, "no length"); n = chance(h, 1, 2) ? n - 1 : (int)below(h, n); o = buf(n); h->attempt = 0; if (BnToByteArray(a, o, n) != 0) bad(h, nm, "not refused"); bfree(o); break;
	case 3: nm = "BnToFixedByteArray into a short buffer"; n = BnToFixedByteArray(a, NULL, 0); n = n > 1 ? (int)below(h, n) : 0; o = buf(n); if (BnToFixedByteArray(a, o, n) != 0) bad(h, nm, "not refused"); bfree(o); break;
	case 4: nm = "division by zero"; z = bnew(h, 64); q = bnew(h, CAPBITS); r = bnew(h, CAPBITS); if (chance(h, 1, 2)) rc = TRY(nm, BnDiv(q, r, a, z)); else rc = TRY(nm, BnMod(r, a, z)); refused(h, nm, rc, 1); break;
	case 5: nm = "word division by zero"; r = bnew(h, CAPBITS); BnSet(r, a); rc = chance(h, 1, 3) ? BnDivUInt(r, 0, &rem) : chance(h, 1, 2) ? BnDivInt(r, 0, &rem) : BnModUInt(r, 0, &rem); refused(h, nm, rc, 1); if (BnCmp(r, a)) bad(h, nm, "the number changed"); break;
	case 6: nm = "GCD of zero"; { z = bnew(h, 64); r = bnew(h, CAPBITS); q = bnew(h, CAPBITS); int w = below(h, 4); rc = w < 2 ? TRY(nm, w ? GetGCD(r, a, z) : GetGCD(r, z, a)) : TRY(nm, GetGCDEx(r, q, NULL, a, z, 1)); mixint(h, rc != 0); } break;
	case 7: nm = "RaMontCreate of an impossible modulus"; { struct RaMontCtx *c = NULL; z = bnew(h, CAPBITS); if (chance(h, 1, 2)) { BnSet(z, a); z->data[0] &= ~(bn_uint_t)1; z->sign = 0; if (BN_ISZERO(z)) BnSetUInt(z, 6); } else if (h->flags & HIST_CROSS || !&vf_ndebug || !vf_ndebug) BnSetUInt(z, 2); rc = TRY(nm, (c = NULL, RaMontCreate(z, &c))); refused(h, nm, rc, 1); if (c) bad(h, nm, "an object was stored"); } break;
	case 8: case 9: nm = "RaMontExpMod out of range"; if (!s->mont) return; { int w = below(h, 3); q = bnew(h, CAPBITS); BnSetUInt(q, 3); r = bnew(h, s->montbits + 64); if (w == 0) { need(h, "BnShiftL", BnShiftL(q, s->montbits + 200)); } z = bnew(h, 300); BnSet(z, q->length < 3 ? q : z); if (w == 1 && s->montbits > 300) { BnFree(r); r = bnew(h, 64); } if (w == 2) { BnSubUInt(q, 5); } rc = TRY(nm, RaMontExpMod(s->mont, r, q, z)); if (w < 1) mixint(h, rc != 0); } break;
	case 10: case 11: nm = "result too small"; { int w = below(h, 8); r = bnew(h, 32 * range(h, 1, 6)); q = bnew(h, 32 * range(h, 1, 6)); z = NULL;
		switch (w) { case 0: rc = BnAdd(r, a, b); break; case 1: rc = BnSub(r, a, b); break; case 2: case 3: rc = TRY(nm, BnMul(r, a, b)); break; case 4: rc = TRY(nm, BnSqr(r, a)); break; case 5: if (!BN_ISZERO(b)) rc = TRY(nm, BnDiv(q, r, a, b)); break; case 6: if (!BN_ISZERO(b)) rc = TRY(nm, BnMod(r, a, b)); break; default: rc = BnSet(r, a); if (rc == 0) rc = BnShiftL(r, below(h, 400)); } } break;
	case 12: nm = "bytes that do not fit"; { r = bnew(h, 64); n = range(h, 9, 60); o = rbuf(h, n); o[0] |= 1; rc = chance(h, 1, 2) ? BnSetByteArray(r, o, n) : BnSetUByteArray(r, o, n); if (n > 16) { int all = 1; for (int i = 1; i < n; i++) if (o[i] != 0xff) all = 0; if (!all && o[0] != 0xff) refused(h, nm, rc, 1); } bfree(o); } break;
	case 13: nm = "RaGenPrimeNumberEx stopped by its callback"; if (h->flags & HIST_LIGHT && chance(h, 2, 3)) return; { int t = range(h, 1, 3), left; uint8_t sd[8]; uint64_t x = rnd(h); memcpy(sd, &x, 8); int own = chance(h, 1, 2); r = bnew(h, 128);
		rc = TRY(nm, ({ struct RaRandom *g = NULL; left = t; int e_ = own ? 0 : RaRandomCreate(RA_RAND_SHA256, sd, 8, &g); if (e_ == 0) { e_ = RaGenPrimeNumberEx(r, 64, cancel, &left, g); RaRandomDestroy(g); } e_; })); if (rc == 0 && left <= 0) bad(h, nm, "reports success"); } break;
	case 14: nm = "prime of an impossible length"; { r = bnew(h, 64); int bits = -(int)below(h, 40) + 1; rc = TRY(nm, RaGenPrimeNumber(r, bits)); refused(h, nm, rc, 1); } break;
	case 15: nm = "prime that does not fit"; if (h->flags & HIST_LIGHT) return; { r = bnew(h, 64); n = 300 + (int)below(h, 100); rc = TRY(nm, RaGenPrimeNumber(r, n)); refused(h, nm, rc, 1); } break;
	case 16: nm = "random number that does not fit"; { r = bnew(h, 64); int g = below(h, SR), k = below(h, 3); rc = TRY(nm, k == 0 ? BnGenRandom(r, 200, s->r[g].r) : k == 1 ? BnGetRandomOdd(r, 200, s->r[g].r) : BnGetRandomRSA(r, 200, s->r[g].r)); refused(h, nm, rc, 1); } break;
	case 17: nm = "RaIsPrimeNumber of a composite"; r = bnew(h, 256); BnSet(r, a); if (BnGetBitLength(r) > 100) BnShiftR(r, BnGetBitLength(r) - 100); r->sign = 0; if (chance(h, 1, 2)) BnMulUInt(r, 6); else { z = bnew(h, 128); BnSet(z, r); need(h, nm, TRY(nm, BnSqr(r, z))); } rc = TRY(nm, RaIsPrimeNumber(r)); refused(h, nm, rc, 1); break;
	case 18: nm = "RSA result too small"; { struct RaRsaKeyPair *k = s->k[below(h, 2)].k; if (!k || RaRsaKeyBitLength(k) < 256) return; q = bnew(h, 64); BnSetUInt(q, 2); r = bnew(h, 64); int w = below(h, 3); rc = TRY(nm, w == 0 ? RaRsaEncrypt(k, q, r) : w == 1 ? RaRsaDecrypt(k, q, r) : RaRsaSign(k, q, r)); } break;
	default: nm = "RSA message too long"; { struct RaRsaKeyPair *k = s->k[below(h, 2)].k; if (!k) return; int bits = RaRsaKeyBitLength(k); q = bnew(h, bits + 400); BnSetUInt(q, 5); need(h, nm, BnShiftL(q, bits + 200)); r = bnew(h, bits + 64); z = bnew(h, bits + 64); BnSetUInt(z, 7); int w = below(h, 4); rc = TRY(nm, w == 0 ? RaRsaEncrypt(k, q, r) : w == 1 ? RaRsaDecrypt(k, q, r) : w == 2 ? RaRsaSign(k, q, r) : RaRsaVerify(k, q, z)); refused(h, nm, rc, 1); } break;
	}
	if (r) BnFree(r); if (q) BnFree(q); if (z) BnClearFree(z); mixin(h, nm, 4); bmix(h, a); done(h, nm);
}
void hist_init(struct Hist *h, uint64_t seed, int flags) { memset(h, 0, sizeof *h); h->st = seed * 0x9E3779B97F4A7C15ull + 1; h->th = 0xcbf29ce484222325ull; h->flags = flags; }
static void nulls(void)
{	/* destroying nothing is allowed by all these */
	RaMd2Destroy(NULL); RaMd4Destroy(NULL); RaMd5Destroy(NULL); RaSha1Destroy(NULL); RaSha2Destroy(NULL); RaHas160Destroy(NULL); RaAesDestroy(NULL); RaDesDestroy(NULL); RaSeedDestroy(NULL); RaAriaDestroy(NULL); RaBlowfishDestroy(NULL); RaRc4Destroy(NULL); RaRandomDestroy(NULL); RaMontDestroy(NULL); RaRsaDestroyKeyPair(NULL); BnFree(NULL);
}
static void finish(struct Hist *h, struct State *s)
{
	int o = below(h, 2); for (int j = 0; j < 6; j++) { int i = o ? j : 5 - j; if (i < SD) dkill(s, i); if (i < SC) ckill(s, i); if (i < SR && s->r[i].r) { RaRandomDestroy(s->r[i].r); s->r[i].r = NULL; } if (s->b[i]) { wordsize_free(s->b[i], j & 1); s->b[i] = NULL; } if (i < 2 && s->k[i].k) { RaRsaDestroyKeyPair(s->k[i].k); s->k[i].k = NULL; } }
	if (s->rc4) { if (s->rc4own) bfree(s->rc4); else RaRc4Destroy(s->rc4); s->rc4 = NULL; } if (s->mont) RaMontDestroy(s->mont); s->mont = NULL;
}
void hist_run(struct Hist *h, int nops)
{
	struct State s; memset(&s, 0, sizeof s); int focus = below(h, 9);
	while (nops--) { int m = chance(h, 1, 2) ? focus : (int)below(h, 9); switch (m) { case 0: opdigest(h, &s); break; case 1: case 2: opcipher(h, &s); break; case 3: oprc4(h, &s); break; case 4: oprandom(h, &s); break; case 5: case 6: opbn(h, &s); break; case 7: oprsa(h, &s); break; default: oprefuse(h, &s); } }
	finish(h, &s); if (chance(h, 1, 8)) nulls();
}
const char *const hist_kind[HIST_KINDS] = { "MD2", "MD4", "MD5", "SHA-1", "SHA-224", "SHA-256", "SHA-384", "SHA-512", "SHA-512/224", "SHA-512/256", "HAS-160", "AES-128", "AES-192", "AES-256", "DES", "3DES-112", "3DES-168", "SEED", "ARIA-128", "ARIA-256", "Blowfish", "RC4", "random, primes", "RSA" };
void hist_one(struct Hist *h, int kind)
{
	uint8_t in[200], out[232], iv[16]; for (int i = 0; i < 200; i++) in[i] = (uint8_t)(i * 7 + kind);
	if (kind < ND) { void *c; MUST("digest create", hx_dcreate(kind, &c)); hx_dinit(kind, c); hx_dupd(kind, c, in, 131); hx_dupd(kind, c, in, 69); hx_dfin(kind, c, out); mixin(h, out, hx_dlen[kind]); hx_ddestroy(kind, c); if (hx_done1(kind, in, 200, out)) mixin(h, out, hx_dlen[kind]); }
	else if (kind < ND + 10) { static const int map[10] = { 0, 1, 2, 3, 4, 5, 6, 7, 9, 10 }; int c = map[kind - ND]; for (int mode = 0; mode < 4; mode++) { void *x; MUST("cipher create", hx_ccreate(c, in, hx_cklen[c], mode, &x)); hx_csetiv(c, x, in + 50); int n = hx_cenc(c, x, in, 150, out); n += hx_cencf(c, x, in + 150, 50, out + n, RA_BLOCK_PADDING_PKCS7); mixin(h, out, n); uint8_t *b = buf(n + 16); hx_cinit(c, x, in, hx_cklen[c], mode); hx_csetiv(c, x, in + 50); int l = hx_cdec(c, x, out, n - 20, b); l += hx_cdecf(c, x, out + n - 20, 20, b + l, RA_BLOCK_PADDING_PKCS7); mixint(h, l); if (l == 200 && memcmp(b, in, 200)) bad(h, hist_kind[kind], "does not decrypt its own output"); hx_cgetiv(c, x, iv); mixin(h, iv, hx_cblk[c]); hx_cdestroy(c, x); bfree(b); } }
	else if (kind == 21) { struct RaRc4Ctx *c; MUST("rc4 create", RaRc4Create(in, 20, &c)); RaRc4Encrypt(c, in, 200, out); mixin(h, out, 200); RaRc4Destroy(c); }
	else if (kind == 22) { struct RaRandom *r; int ra = below(h, 4); MUST("random create", RaRandomCreate(ra, in, 30, &r)); RaRandomBytes(r, 100, out); mixin(h, out, 100); struct RaBigNumber *b = bnew(h, 256); MUST("prime", RaGenPrimeNumberEx(b, 64, NULL, NULL, r)); if (!(h->flags & HIST_CROSS)) bmix(h, b); MUST("prime test", RaIsPrimeNumber(b)); BnFree(b); RaRandomDestroy(r); MUST("random create", (r = NULL, RaRandomCreate(RA_RAND_SHA160, NULL, 0, &r))); RaRandomBytes(r, 20, out); RaRandomDestroy(r); }
	else { struct State s; memset(&s, 0, sizeof s); for (int i = 0; i < 10; i++) oprsa(h, &s); for (int i = 0; i < 6; i++) opbn(h, &s); finish(h, &s); }
	done(h, hist_kind[kind]);
}
