/* Random legal histories over the whole interface, in plain C so that every sanitizer can watch them.
   The outputs of every step go into a transcript: equal seeds must give equal transcripts in every configuration,
   in every thread, and with or without failed allocations in between. */
#ifndef VF_HIST_H
#define VF_HIST_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { HIST_SCRIPTED = 1 /* system entropy is scripted: values from it are part of the transcript */, HIST_LIGHT = 2 /* no slow operations */, HIST_CROSS = 4 /* results of prime generation, which depend on the trial-division table, are left out */ };
struct Hist {
	uint64_t st, th; int flags; long ops, retries; const char *last;
	/* around every call: pre may arm a fault, post tells whether the call has to be repeated */
	void (*pre)(struct Hist *h, const char *op); int (*post)(struct Hist *h, const char *op, int rc); void *arg;
	void (*step)(struct Hist *h, const char *op, uint64_t th);
	void (*fail)(struct Hist *h, const char *op, const char *what);
	int attempt;
	uint32_t (*take)(struct Hist *h, int bytes);	/* where choices come from, if not from the seed */
};
void hist_init(struct Hist *h, uint64_t seed, int flags);
void hist_run(struct Hist *h, int nops);	/* a history; everything made is destroyed again */
#define HIST_KINDS 24
void hist_one(struct Hist *h, int kind);	/* one algorithm or object kind from creation to destruction */
extern void *(*hist_buf)(size_t n); extern void (*hist_buf_free)(void *p);	/* where the buffers given to the library come from */
extern const char *const hist_kind[HIST_KINDS];
/* uniform access to the digests and block ciphers (key length kl matters for Blowfish only) */
#define HX_ND 11
#define HX_NC 11
extern const int hx_dlen[HX_ND], hx_cblk[HX_NC], hx_cklen[HX_NC]; extern const size_t hx_dsize[HX_ND], hx_csize[HX_NC];
int hx_dcreate(int a, void **c); void hx_ddestroy(int a, void *c); void hx_dinit(int a, void *c); void hx_dupd(int a, void *c, const uint8_t *d, int n); void hx_dfin(int a, void *c, uint8_t *o); int hx_done1(int a, const uint8_t *d, int n, uint8_t *o);
int hx_ccreate(int c, const uint8_t *k, int kl, int mode, void **x); void hx_cinit(int c, void *x, const uint8_t *k, int kl, int mode); void hx_cdestroy(int c, void *x); void hx_csetiv(int c, void *x, const uint8_t *v); void hx_cgetiv(int c, void *x, uint8_t *v);
int hx_cenc(int c, void *x, const uint8_t *i, int n, uint8_t *o); int hx_cdec(int c, void *x, const uint8_t *i, int n, uint8_t *o); int hx_cencf(int c, void *x, const uint8_t *i, int n, uint8_t *o, int p); int hx_cdecf(int c, void *x, const uint8_t *i, int n, uint8_t *o, int p);
#ifdef __cplusplus
}
#endif
#endif
