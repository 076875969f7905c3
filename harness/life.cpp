// M01..M05, V01: whole-interface monitors: failing allocations, random legal histories, placement, threads, erasure, configurations.
#include "rsakey.h"
#include "ref.h"
#include "hist.h"
#include "threads.h"
#include "keys.h"
#include <map>
#include <set>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
extern "C" int vf_mintable;

static void hfail(struct Hist *h, const char *op, const char *what) { vf_fail_case("history", "operation %ld, %s: %s", h->ops, op, what); }
static void hstep(struct Hist *h, const char *op, uint64_t th) { char b[80]; snprintf(b, sizeof b, "op %s", op); vf_cover(b); vf_evals++; }
static void hfresh(struct Hist *h, uint64_t seed, int flags) { hist_init(h, seed, flags); h->fail = hfail; }
struct Clock { Clock(Src &s) { reseed(s); } };

// ---- M01: every allocation of every call fails once, in the middle of a history ----
struct Inj { long k; int all, script; long live; uint64_t n, mk; Src *s; };
static void m01pre(struct Hist *h, const char *)
{
	Inj *i = (Inj *)h->arg;
	if (h->attempt == 0) { i->k = 1; i->script = vf_script_at(-1); i->live = vf_live(); i->all = i->s->chance(1, 2); } else vf_script_at(i->script);
	vf_fail_at(i->k, i->all);
}
static int m01post(struct Hist *h, const char *op, int rc)
{
	Inj *i = (Inj *)h->arg; vf_fail_stop(); long nf = vf_failed(); if (!nf) return 0;
	bool lenfn = !strcmp(op, "BnToByteArray");
	CHECK(rc == RA_ERR_OUT_OF_MEMORY || (lenfn && rc == 0), "oom-result", "%s returns %d when allocation %ld%s fails", op, rc, i->k, i->all ? " and all later ones" : "");
	CHECK(vf_live() == i->live, "oom-leak", "%s: %ld block(s) stay allocated after allocation %ld%s failed", op, vf_live() - i->live, i->k, i->all ? " and all later ones" : "");
	i->n++; if ((uint64_t)i->k > i->mk) i->mk = i->k; uint64_t d[3] = { h->th, (uint64_t)i->k, (uint64_t)i->all }; vf_distinct(vf_hash(d, sizeof d, vf_hash(op, strlen(op))));
	char b[80]; snprintf(b, sizeof b, "allocation failed in %s", op); vf_cover(b);
	i->k += i->k < 24 ? 1 : i->k < 200 ? i->s->range(1, 12) : i->s->range(1, 200);
	return 1;
}
CASE(M01, history, 1600, 60000, 0)
{
	uint64_t seed = s.u64(); int ops = s.range(6, 30), fl = HIST_SCRIPTED | (idx % 8 ? HIST_LIGHT : 0); struct Hist a, b; Src t(s.rnd()); Src e0 = t, e1 = t;
	reseed(e0); hfresh(&a, seed, fl); hist_run(&a, ops);
	reseed(e1); hfresh(&b, seed, fl); Inj in; memset(&in, 0, sizeof in); in.s = &s; b.arg = &in; b.pre = m01pre; b.post = m01post; hist_run(&b, ops);
	CHECK(a.th == b.th && a.ops == b.ops, "oom-state", "a history of %d operations gives other results when %llu of its calls ran out of memory in between and were repeated", ops, (unsigned long long)in.n);
	vf_cover_n("calls that ran out of memory and were repeated", in.n); vf_cover_max("latest allocation of one call made to fail", in.mk); if (!in.n) vf_trivial();
	vf_sample("%ld operations, %llu failed calls", b.ops, (unsigned long long)in.n);
}
// object-making calls, with what becomes of the output pointer
struct Maker { const char *name; std::function<int(void **)> make; std::function<void(void *)> drop; std::function<uint64_t(void *)> use; };
static uint64_t cipher_use(int n, const uint8_t *o) { return vf_hash(o, n > 0 ? n : 0, n); }
static std::vector<Maker> makers(Src &s)
{
	static uint8_t key[80], in[200], out[260]; s.fill(key, sizeof key); s.fill(in, sizeof in);
	std::vector<Maker> v; int n = s.range(0, 200), mode = s.range(0, 3), bl = s.range(1, 72);
#define DG(N, T, len) v.push_back({ "Ra" #N "Create", [](void **o) { return Ra##N##Create((T **)o); }, [](void *o) { Ra##N##Destroy((T *)o); }, [n](void *o) { Ra##N##Init((T *)o); Ra##N##Update((T *)o, in, n); Ra##N##Final((T *)o, out); return vf_hash(out, len); } })
	DG(Md2, struct RaMd2Ctx, 16); DG(Md4, struct RaMd4Ctx, 16); DG(Md5, struct RaMd5Ctx, 16); DG(Sha1, struct RaSha1Ctx, 20); DG(Has160, struct RaHas160Ctx, 20);
	for (int a : { RA_DGST_SHA2_224, RA_DGST_SHA2_256, RA_DGST_SHA2_384, RA_DGST_SHA2_512, RA_DGST_SHA2_512_224, RA_DGST_SHA2_512_256 }) v.push_back({ "RaSha2Create", [a](void **o) { return RaSha2Create((enum RaDigestAlgorithm)a, (struct RaSha2Ctx **)o); }, [](void *o) { RaSha2Destroy((struct RaSha2Ctx *)o); }, [n, a](void *o) { RaSha2Init((struct RaSha2Ctx *)o, (enum RaDigestAlgorithm)a); RaSha2Update((struct RaSha2Ctx *)o, in, n); RaSha2Final((struct RaSha2Ctx *)o, out); return vf_hash(out, 28); } });
#define CU(N) [n](void *o) { struct Ra##N##Ctx *c = (struct Ra##N##Ctx *)o; return cipher_use(Ra##N##EncryptFinal(c, in, n, out, RA_BLOCK_PADDING_PKCS7), out); }
#define CM(N, ...) v.push_back({ "Ra" #N "Create", [=](void **o) { struct Ra##N##Ctx **x = (struct Ra##N##Ctx **)o; return __VA_ARGS__; }, [](void *o) { Ra##N##Destroy((struct Ra##N##Ctx *)o); }, CU(N) })
	enum RaBlockCipherMode md = (enum RaBlockCipherMode)mode;
	for (int a : { RA_AES_128, RA_AES_192, RA_AES_256 }) CM(Aes, RaAesCreate(key, (decltype(RA_AES_128))a, md, x));
	for (int a : { RA_DES, RA_DES_EDE2, RA_DES_EDE3 }) CM(Des, RaDesCreate(key, (decltype(RA_DES))a, md, x));
	for (int a : { RA_ARIA_128, RA_ARIA_192, RA_ARIA_256 }) CM(Aria, RaAriaCreate(key, (decltype(RA_ARIA_128))a, md, x));
	CM(Seed, RaSeedCreate(key, md, x)); CM(Blowfish, RaBlowfishCreate(key, bl, md, x));
	v.push_back({ "RaRc4Create", [bl](void **o) { return RaRc4Create(key, bl, (struct RaRc4Ctx **)o); }, [](void *o) { RaRc4Destroy((struct RaRc4Ctx *)o); }, [n](void *o) { RaRc4Encrypt((struct RaRc4Ctx *)o, in, n, out); return vf_hash(out, n); } });
	for (int a = 0; a < 4; a++) for (int e = 0; e < 2; e++) v.push_back({ e ? "RaRandomCreate (system entropy)" : "RaRandomCreate", [a, e, bl](void **o) { return RaRandomCreate((enum RaRandomAlgorithm)a, e ? NULL : key, e ? 0 : bl, (struct RaRandom **)o); }, [](void *o) { RaRandomDestroy((struct RaRandom *)o); }, [](void *o) { RaRandomBytes((struct RaRandom *)o, 100, out); return vf_hash(out, 100); } });
	return v;
}
static void makeall(std::vector<Maker> &v, Src &s, uint64_t idx)
{
	long keep = vf_live();
	for (auto &m : v) {
		Src e(s.rnd()), e0 = e; uint64_t want = 0, got; void *o = NULL; static char mark[64];
		reseed(e0); vf_fail_at(0, 0); int rc = m.make(&o); long total = vf_fail_stop(); CHECK(rc == 0 && o, "make", "%s: %d", m.name, rc); want = m.use(o); m.drop(o);
		CHECK(vf_live() == keep, "leak", "%s and destruction leave %ld block(s)", m.name, vf_live() - keep); vf_cover_max("allocations of one object-making call", total);
		for (long k = 1; k <= total; k += k < 40 ? 1 : s.range(1, (int)(total / 30) + 2)) for (int all = 0; all < 2; all++) {
			Src e1 = e; reseed(e1); o = mark; vf_fail_at(k, all); rc = m.make(&o); vf_fail_stop(); if (!vf_failed()) continue;
			CHECK(rc == RA_ERR_OUT_OF_MEMORY, "oom-result", "%s returns %d when allocation %ld%s fails", m.name, rc, k, all ? " and all later ones" : "");
			CHECK(o == mark || o == NULL, "oom-object", "%s hands out an object when allocation %ld fails", m.name, k);
			CHECK(vf_live() == keep, "oom-leak", "%s: %ld block(s) stay allocated after allocation %ld failed", m.name, vf_live() - keep, k);
			vf_distinct(vf_hash(m.name, strlen(m.name), idx * 4096 + k * 2 + all)); char b[80]; snprintf(b, sizeof b, "allocation failed in %s", m.name); vf_cover(b);
			if (k > 3 && !s.chance(1, total > 60 ? 30 : 8)) continue;
			Src e2 = e; reseed(e2); o = NULL; rc = m.make(&o); CHECK(rc == 0, "oom-retry", "%s: %d on retry", m.name, rc); got = m.use(o); m.drop(o); CHECK(got == want, "oom-retry", "%s: another result on retry", m.name);
		}
	}
}
CASE(M01, makers, 120, 6000, 0) { std::vector<Maker> v = makers(s); makeall(v, s, idx); }
static uint64_t hnum(struct RaBigNumber *b) { int n = BnToByteArray(b, NULL, 0); Bytes o(n + 1); BnToByteArray(b, o.data(), n); return vf_hash(o.data(), n); }
// a PKCS #8 key with attributes, so that the document has many elements
static Bytes attributed(Src &s, const RKey &k)
{
	Bytes at; for (int n = s.range(1, 40); n--;) { Bytes x = s.chance(1, 4) ? tlv(0x30, cat({ tlv(6, oidrsa()), tlv(0x31, tlv(4, s.bytes(s.range(0, 5)))) })) : tlv(s.chance(1, 2) ? 0x0c : 5, Bytes()); at.insert(at.end(), x.begin(), x.end()); }
	return tlv(0x30, cat({ dint(Z(0)), algid(), tlv(4, pkcs1priv(k)), tlv(0xa0, at) }));
}
CASE(M01, keys, 160, 6000, 0)
{
	std::vector<Maker> v; RKey k = anykey(s, 520); int kg = s.range(18, idx % 6 ? 32 : 140) * 2, nb = s.range(1, 200); Z m = gnat(s, 10); BN_set_bit(m.v, 0); if (m < Z(15)) m = Z(15);
	struct RaBigNumber *mn = BnNew(m.bits() + 1); { Bytes b = m.be(); BnSetUByteArray(mn, b.data(), (int)b.size()); }
	auto hk = [](void *o) { Bytes b = exported((Rsa *)o, false); return vf_hash(b.data(), b.size()); }; auto dk = [](void *o) { RaRsaDestroyKeyPair((Rsa *)o); };
	Ber ber(s, 30);
	Bytes e[6] = { pkcs8(k, s.chance(1, 2) ? ber : Ber()), spki(k, s.chance(1, 2) ? ber : Ber()), pkcs1priv(k, s.chance(1, 2) ? ber : Ber()), pkcs1pub(k), Bytes(hkeys[idx % HKEYS].d, hkeys[idx % HKEYS].d + hkeys[idx % HKEYS].n), attributed(s, k) };
	for (int i = 0; i < 6; i++) { Bytes &b = e[i]; int w = i == 2 ? I_PRIV : i == 3 ? I_PUB : I_ANY; v.push_back({ I_NAME[w], [&b, w](void **o) { Rsa **x = (Rsa **)o; int n = (int)b.size(); return w == I_ANY ? RaRsaCreateKeyFromByteArray(b.data(), n, x) : w == I_PRIV ? RaRsaCreateKeyPriv(b.data(), n, x) : RaRsaCreateKeyPub(b.data(), n, x); }, dk, hk }); }
	v.push_back({ "RaRsaCreateKeyPair", [kg](void **o) { return RaRsaCreateKeyPair(kg, (Rsa **)o); }, dk, hk });
	v.push_back({ "RaMontCreate", [mn](void **o) { return RaMontCreate(mn, (struct RaMontCtx **)o); }, [](void *o) { RaMontDestroy((struct RaMontCtx *)o); }, [mn](void *o) { struct RaBigNumber *b = BnNew(64), *r = BnClone(mn); BnSetUInt(b, mn->length == 1 ? 2 : 7); int rc = RaMontExpMod((struct RaMontCtx *)o, r, b, b); uint64_t h = rc ? rc : hnum(r); BnFree(b); BnFree(r); return h; } });
	auto bd = [](void *o) { BnFree((struct RaBigNumber *)o); }; auto bu = [](void *o) { return hnum((struct RaBigNumber *)o); };
	auto nul = [](void **o, struct RaBigNumber *b) { *o = b; return b ? 0 : RA_ERR_OUT_OF_MEMORY; };
	v.push_back({ "BnNew", [=](void **o) { return nul(o, BnNew(nb)); }, bd, bu }); v.push_back({ "BnNewW", [=](void **o) { return nul(o, BnNewW(nb)); }, bd, bu }); v.push_back({ "BnClone", [=](void **o) { return nul(o, BnClone(mn)); }, bd, bu });
	makeall(v, s, idx); BnFree(mn);
}

// ---- M02: random legal histories under every detector ----
static struct { Src *s; } taker;
static uint32_t htake(struct Hist *, int n) { return (uint32_t)taker.s->take(n); }
CASE(M02, history, 12000, 400000, F_FUZZ)
{
	struct Hist h; uint64_t seed = s.p ? s.st : s.u64(); int ops = s.range(3, 80), slow = s.chance(1, 30); hfresh(&h, seed, HIST_SCRIPTED | (slow ? 0 : HIST_LIGHT)); reseed(s); h.step = hstep;
	if (s.p) { taker.s = &s; h.take = htake; ops = ops % 30; }
	hist_run(&h, ops); vf_distinct(h.th); vf_cover_max("operations in one history", h.ops); vf_sample("%ld operations, transcript %016llx", h.ops, (unsigned long long)h.th);
}
CASE(M02, kinds, 48, 960, F_ENUM)
{
	struct Hist h; hfresh(&h, s.u64(), HIST_SCRIPTED); reseed(s); h.step = hstep; hist_one(&h, idx % HIST_KINDS); vf_distinct(h.th ^ idx);
}

static Bytes element(Src &s, int depth)
{
	if (depth > 0 && s.chance(1, 3)) { Bytes c; for (int n = s.below(s.chance(1, 6) ? 30 : 5); n--;) { Bytes x = element(s, depth - 1); c.insert(c.end(), x.begin(), x.end()); } if (!s.chance(1, 4)) return tlv(s.chance(1, 6) ? 0xa0 : 0x30, c); Bytes r = { 0x30, 0x80 }; r.insert(r.end(), c.begin(), c.end()); if (!s.chance(1, 9)) { r.push_back(0); r.push_back(0); } return r; }
	static const int T[] = { 2, 5, 6, 4, 3, 0x0c, 0x80, 1 }; return tlv(T[s.below(8)], s.bytes(s.range(0, 9)), s.chance(1, 8) ? Ber(s, 60) : Ber());
}
CASE(M02, documents, 2400, 60000, F_FUZZ)
{	// documents of few and of many elements, with and without a key in them, given to every import function
	reseed(s); RKey k = rkey(s, s.range(4, 40), s.range(4, 40)); Bytes b; int kind = s.below(6), extra = s.chance(1, 2) ? s.range(0, 6) : s.range(7, 70);
	if (kind < 4) { b = kind == 0 ? pkcs8(k) : kind == 1 ? spki(k) : kind == 2 ? pkcs1priv(k) : pkcs1pub(k); size_t hd = b[1] < 0x80 ? 2 : 2 + (b[1] & 0x7f); b.erase(b.begin(), b.begin() + hd); }
	for (int i = 0; i < extra; i++) { Bytes x = element(s, s.range(0, 5)); b.insert(s.chance(1, 40) ? b.begin() : b.end(), x.begin(), x.end()); }
	b = tlv(0x30, b, s.chance(1, 3) ? Ber(s, 50) : Ber()); if (s.chance(1, 6)) b.resize(s.range(0, (int)b.size())); if (s.chance(1, 6) && b.size()) b[s.below(b.size())] = (uint8_t)s.below(256);
	for (int w = 0; w < 3; w++) { long l = vf_live(); { KeyH h; int rc = h.load(w, b); if (rc == 0) { exported(h, false); COVERF("document taken by %s", I_NAME[w]); } else CHECK(vf_live() == l, "leak", "%s refuses a document and leaves %ld block(s)", I_NAME[w], vf_live() - l); } CHECK(vf_live() == l, "leak", "%ld block(s) left after %s and destruction", vf_live() - l, I_NAME[w]); }
	if (extra > 20) COVER("documents of more than twenty elements"); vf_distinct(vf_hash(b.data(), b.size()));
}

// ---- M03: buffers between inaccessible pages, inputs in read-only pages ----
struct G {
	uint8_t *p; size_t n; const char *what;
	G(size_t len, int where, const char *w) : n(len), what(w) { p = (uint8_t *)vf_gbuf(len, where); if (len) memset(p, 0xC3, len); }
	G(const Bytes &b, int where, const char *w) : n(b.size()), what(w) { p = (uint8_t *)vf_gbuf(n, where); if (n) memcpy(p, b.data(), n); vf_protect(p, 1); }
	void done() { uint8_t *q = p; p = NULL; CHECK(!vf_gbuf_free(q), "overrun", "%s (%zu bytes): bytes next to it were changed", what, n); }
	~G() { if (p) vf_gbuf_free(p); }
private: G(const G &); G &operator=(const G &);
};
static int place(Src &s) { return s.chance(1, 2) ? -1 : s.range(0, 17); }
// contexts of the caller need the alignment of their type only
static int placectx(Src &s, size_t n) { return n % 8 == 0 && s.chance(1, 2) ? -1 : 8 * s.range(0, 3); }
struct Guarded { Guarded(int m) { vf_guard = m; } ~Guarded() { vf_guard = 0; } };
CASE(M03, digests, 40000, 300000, 0)
{
	int a = idx % HX_ND, k = s.range(1, 4), len = hx_dlen[a], own = s.chance(1, 2); uint64_t h = a; std::vector<Bytes> in; int total = 0;
	for (int i = 0; i < k; i++) { in.push_back(s.texture(s.chance(1, 4) ? s.range(0, 400) : s.range(0, 140))); total += (int)in.back().size(); }
	void *c; hx_dcreate(a, &c); hx_dinit(a, c); for (auto &b : in) hx_dupd(a, c, b.data(), (int)b.size()); uint8_t want[64]; hx_dfin(a, c, want); hx_ddestroy(a, c);
	{
		Guarded g(s.range(1, 2)); void *x; G *ctx = NULL; if (own) { ctx = new G(hx_dsize[a], placectx(s, hx_dsize[a]), "the digest context"); x = ctx->p; } else { int rc = hx_dcreate(a, &x); CHECK(rc == 0, "create", "%d", rc); }
		hx_dinit(a, x); for (auto &b : in) { int w = place(s); G m(b, w, "the message"); hx_dupd(a, x, m.p, (int)b.size()); m.done(); h = h * 31 + b.size() * 32 + w; if (b.size() && w < 0) COVER("message up to the last byte before an inaccessible page"); if (((uintptr_t)w & 7) && w > 0) COVER("unaligned message"); }
		G o(len, place(s), "the digest"); hx_dfin(a, x, o.p); CHECK(!memcmp(o.p, want, len), "placement", "%s: %d bytes in %d parts digest to another value when placed elsewhere", hist_kind[a], total, k); o.done();
		if (ctx) { ctx->done(); delete ctx; } else hx_ddestroy(a, x);
		Bytes all; for (auto &b : in) all.insert(all.end(), b.begin(), b.end()); G m(all, place(s), "the message"), q(len, place(s), "the digest"); if (hx_done1(a, m.p, (int)all.size(), q.p)) { CHECK(!memcmp(q.p, want, len), "placement", "one-shot %s of %d bytes", hist_kind[a], total); q.done(); m.done(); }
	}
	vf_distinct(h); COVERF("digest %s", hist_kind[a]); vf_sample("%s of %d bytes in %d parts, %s context", hist_kind[a], total, k, own ? "caller's" : "library's");
}
static const char *cname(int c) { static const char *n[HX_NC] = { "AES-128", "AES-192", "AES-256", "DES", "3DES-112", "3DES-168", "SEED", "ARIA-128", "ARIA-192", "ARIA-256", "Blowfish" }; return n[c]; }
CASE(M03, ciphers, 60000, 500000, 0)
{
	int c = idx % HX_NC, mode = (idx / HX_NC) & 3, dec = (idx / (4 * HX_NC)) & 1, B = hx_cblk[c], kl = c == 10 ? s.range(1, 72) : hx_cklen[c], parts = s.range(0, 3), own = s.chance(1, 2), pad = s.range(0, 2); Bytes key = s.bytes(kl), iv = s.bytes(B); bool setiv = mode && s.chance(4, 5);
	std::vector<Bytes> in; for (int i = 0; i <= parts; i++) in.push_back(s.texture(s.chance(1, 3) ? B * s.range(0, 9) : s.range(0, 150)));
	std::vector<int> ret; std::vector<Bytes> out; int held = 0; std::vector<int> room;
	void *x; hx_ccreate(c, key.data(), kl, mode, &x); if (setiv) hx_csetiv(c, x, iv.data()); Bytes v1(B), v2(B);
	for (int i = 0; i <= parts; i++) {
		Bytes o(in[i].size() + 2 * B + 8, 0x77); int n = (int)in[i].size(), last = i == parts, r = last ? dec ? hx_cdecf(c, x, in[i].data(), n, o.data(), pad) : hx_cencf(c, x, in[i].data(), n, o.data(), pad) : dec ? hx_cdec(c, x, in[i].data(), n, o.data()) : hx_cenc(c, x, in[i].data(), n, o.data());
		ret.push_back(r); int whole = (held + n) / B * B; room.push_back(r > whole ? r : whole); held = (held + n) % B; o.resize(r > 0 ? r : 0); out.push_back(o);
	}
	hx_cgetiv(c, x, v1.data()); hx_cdestroy(c, x);
	uint64_t h = idx; bool inplace = s.chance(1, 3); held = 0;
	{
		Guarded g(s.range(1, 2)); G k(key, place(s), "the key"), v(iv, place(s), "the IV"); G *ctx = NULL; if (own) { ctx = new G(hx_csize[c], placectx(s, hx_csize[c]), "the cipher context"); x = ctx->p; hx_cinit(c, x, k.p, kl, mode); } else { int rc = hx_ccreate(c, k.p, kl, mode, &x); CHECK(rc == 0, "create", "%d", rc); }
		k.done(); if (setiv) hx_csetiv(c, x, v.p); v.done();
		for (int i = 0; i <= parts; i++) {
			int n = (int)in[i].size(), last = i == parts, r, w = place(s), ow = place(s); bool ip = inplace && !held && room[i] <= n; G *m = NULL, *o;
			if (ip) { o = new G(n, w, "the data"); if (n) memcpy(o->p, in[i].data(), n); COVER("in place at the page border"); } else { m = new G(in[i], w, "the input"); o = new G(room[i], ow, "the output"); }
			const uint8_t *ip_ = ip ? o->p : m->p; r = last ? dec ? hx_cdecf(c, x, ip_, n, o->p, pad) : hx_cencf(c, x, ip_, n, o->p, pad) : dec ? hx_cdec(c, x, ip_, n, o->p) : hx_cenc(c, x, ip_, n, o->p);
			CHECK(r == ret[i], "placement", "%s mode %d %s: part %d of %d bytes returns %d, elsewhere %d", cname(c), mode, dec ? "decryption" : "encryption", i, n, r, ret[i]);
			CHECK(r <= 0 || !memcmp(o->p, out[i].data(), r), "placement", "%s mode %d %s: part %d of %d bytes gives another result when placed elsewhere", cname(c), mode, dec ? "decryption" : "encryption", i, n);
			if (m) { m->done(); delete m; } o->done(); delete o; held = (held + n) % B; h = h * 37 + n * 40 + w * 3 + ow; if (w < 0 && n) COVER("input up to the last byte before an inaccessible page"); if (ow < 0 && r > 0) COVER("output up to the last byte before an inaccessible page");
		}
		G gv(B, place(s), "the IV output"); hx_cgetiv(c, x, gv.p); CHECK(!memcmp(gv.p, v1.data(), B), "placement", "%s mode %d: another IV", cname(c), mode); gv.done();
		if (ctx) { ctx->done(); delete ctx; } else hx_cdestroy(c, x);
	}
	vf_distinct(h); COVERF("cipher %s", cname(c)); vf_sample("%s mode %d %s, %d parts, padding %d", cname(c), mode, dec ? "decryption" : "encryption", parts + 1, pad);
}
CASE(M03, streams, 20000, 100000, 0)	// RC4 and generators
{
	Guarded g(s.range(1, 2)); int kl = s.range(1, 80); Bytes key = s.bytes(kl); int n = s.range(0, 300); Bytes in = s.texture(n), want(n + 1);
	if (idx & 1) {
		struct RaRc4Ctx *r, *q; RaRc4Create(key.data(), kl, &r); RaRc4Encrypt(r, in.data(), n, want.data()); RaRc4Destroy(r);
		G k(key, place(s), "the RC4 key"), m(in, place(s), "the input"), o(n, place(s), "the output"); G c(sizeof *q, placectx(s, sizeof *q), "the RC4 context"); bool own = s.chance(1, 2); if (own) RaRc4Init(q = (struct RaRc4Ctx *)c.p, k.p, kl); else RaRc4Create(k.p, kl, &q);
		int a = s.range(0, n); RaRc4Encrypt(q, m.p, a, o.p); RaRc4Decrypt(q, m.p + a, n - a, o.p + a); CHECK(!n || !memcmp(o.p, want.data(), n), "placement", "RC4 of %d bytes", n); if (!own) RaRc4Destroy(q); k.done(); m.done(); o.done(); c.done(); COVER("RC4");
	} else {
		int alg = (idx >> 1) & 3; struct RaRandom *r, *q; RaRandomCreate((enum RaRandomAlgorithm)alg, key.data(), kl, &r); RaRandomBytes(r, n, want.data()); double d0 = RaRandom(r); RaRandomDestroy(r);
		G k(key, place(s), "the seed"), o(n, place(s), "the output"); RaRandomCreate((enum RaRandomAlgorithm)alg, k.p, kl, &q); k.done(); RaRandomBytes(q, n, o.p); CHECK(!n || !memcmp(o.p, want.data(), n), "placement", "generator, %d bytes", n); CHECK(RaRandom(q) == d0, "placement", "real number"); o.done();
		G o2(n, place(s), "the random byte array"); int rc = BnGenRandomByteArray(o2.p, n, q); CHECK(rc == 0, "random", "%d", rc); o2.done(); RaRandomDestroy(q); COVER("generator");
	}
	vf_distinct(vf_hash(key.data(), kl, idx & 7) + n);
}
static void gset(struct RaBigNumber *b, const Z &z) { int n = z.nwords(); if (n > b->max_length) abort(); memset(b->data, 0, n * WB); BN_bn2lebinpad(z.v, (unsigned char *)b->data, n * WB); b->length = n; b->sign = z.neg(); }
CASE(M03, numbers, 30000, 500000, 0)	// numbers in blocks ending at an inaccessible page, operands read-only
{
	Guarded g(s.chance(3, 4) ? 1 : 2); Z a = gint(s, glen(s, 40)), b = gint(s, glen(s, 40)); int op = idx % 24; if (op == 12 || op == 13) { a = gint(s, glen(s, 6)); b = gint(s, glen(s, 6)); } if (op >= 14 && op <= 16) { a = gnat(s, glen(s, 8)); b = gnat(s, glen(s, 4)); }
	if ((op == 5 || op == 6 || op == 12 || op == 13) && b.zero()) b = Z(1); if ((op == 12 || op == 13) && a.zero()) a = Z(3); if (op == 12 || op == 13) { a = a.abs(); b = b.abs(); }
	Z m = gnat(s, glen(s, 8)); BN_set_bit(m.v, 0); if (m == Z(1)) m = Z(15); if (op == 15) { a = zmod(a, m); }
	struct RaBigNumber *A = BnNewW(a.nwords()), *B = BnNewW(b.nwords()), *R = NULL, *Q = NULL; gset(A, a); gset(B, b); vf_protect(A, 1); vf_protect(B, 1); int rc = 0; const char *nm = ""; bn_uint_t w = gword(s), rem = 0; if (!w) w = 7; Z want, q, t; bool cmp = true; struct RaMontCtx *mc = NULL;
	auto R_ = [&](int n) { R = BnNewW(n < 1 ? 1 : n); }; int an = a.nwords(), bn = b.nwords(), mx = std::max(an, bn);
	switch (op) {
	case 0: nm = "BnAdd"; want = a + b; R_(std::max(mx, want.nwords())); rc = BnAdd(R, A, B); break;
	case 1: nm = "BnSub"; want = a - b; R_(std::max(mx, want.nwords())); rc = BnSub(R, A, B); break;
	case 2: nm = "BnMul"; want = a * b; R_(an + bn); rc = BnMul(R, A, B); break;
	case 3: nm = "BnSqr"; want = a * a; R_(2 * an); rc = BnSqr(R, A); break;
	case 4: nm = "BnDouble"; want = a + a; R_(want.nwords()); rc = BnDouble(R, A); break;
	case 5: { nm = "BnDiv"; R_(bn); Q = BnNewW(std::max(1, an - bn + 2)); rc = BnDiv(Q, R, A, B); cmp = false; CHECK(rc || zval(Q) * b + zval(R) == a, "value", "BnDiv(%.100s, %.100s)", a.str().c_str(), b.str().c_str()); break; }
	case 6: nm = "BnMod"; zdiv(a, b, q, want); R_(bn); rc = BnMod(R, A, B); break;
	case 7: nm = "BnClone"; want = a; R = BnClone(A); break;
	case 8: nm = "BnSet"; want = a; R_(an); rc = BnSet(R, A); break;
	case 9: { nm = "BnCmp"; cmp = false; int c = BnCmp(A, B); CHECK((c > 0) - (c < 0) == zcmp(a, b), "value", "BnCmp"); c = BnCmpUInt(A, w); Z d = a - Z::U(w); CHECK((c > 0) - (c < 0) == (d.zero() ? 0 : d.neg() ? -1 : 1), "value", "BnCmpUInt"); c = BnCmpInt(A, (bn_int_t)w); BnGetBitLength(A); (void)_BnGetUInt64(A); break; }
	case 10: { nm = "BnModUInt"; cmp = false; rc = BnModUInt(A, w, &rem); CHECK(rc || rem == a.abs().mod(w) || a.neg(), "value", "BnModUInt"); break; }
	case 11: { nm = "bytes"; cmp = false; int n = BnToByteArray(A, NULL, 0); G o(n, place(s), "the byte array"); int r = BnToByteArray(A, o.p, n); CHECK(r == n, "value", "BnToByteArray gives %d, then %d", n, r); Bytes e(o.p, o.p + n); o.done(); G in(e, place(s), "the byte array"); R_((n + WB - 1) / WB); rc = BnSetByteArray(R, in.p, n); in.done(); want = a; cmp = true; int f = s.range(n, n + 20); G o2(f, place(s), "the fixed byte array"); BnToFixedByteArray(A, o2.p, f); o2.done(); break; }
	case 12: nm = "GetGCD"; want = zgcd(a, b); R_(mx + 2); rc = GetGCD(R, A, B); break;
	case 13: nm = "GetGCDEx"; cmp = false; R_(mx * 2 + 2); Q = BnNewW(mx * 2 + 2); { int u = (int)s.below(2); rc = GetGCDEx(NULL, R, Q, A, B, u); CHECK(rc || u || zval(R) * a + zval(Q) * b == zgcd(a, b), "value", "GetGCDEx"); } break;
	case 14: nm = "RaMontCreate"; { struct RaBigNumber *M = BnNewW(m.nwords()); gset(M, m); vf_protect(M, 1); rc = RaMontCreate(M, &mc); vf_protect(M, 0); BnFree(M); cmp = false; RaMontDestroy(mc); mc = NULL; break; }
	case 15: case 16: nm = "RaMontExpMod"; { if (op == 16) { vf_protect(A, 0); BnFree(A); a = zmod(a, m); A = BnNewW(a.nwords()); gset(A, a); vf_protect(A, 1); } struct RaBigNumber *M = BnNewW(m.nwords()); gset(M, m); rc = RaMontCreate(M, &mc); BnFree(M); CHECK(rc == 0, "mont", "RaMontCreate: %d", rc); want = zpow(a, b, m); R_(m.nwords()); rc = RaMontExpMod(mc, R, A, B); RaMontDestroy(mc); break; }
	case 17: nm = "BnShiftL"; { int k = s.range(0, 300); want = zshl(a, k); R_(want.nwords()); BnSet(R, A); rc = BnShiftL(R, k); break; }
	case 18: nm = "BnShiftR"; { int k = s.range(0, 600); want = zshr(a.abs(), k); if (a.neg()) want = -want; if (want.zero()) want = Z(); R_(an); BnSet(R, A); rc = BnShiftR(R, k); break; }
	case 19: nm = "RaIsPrimeNumber"; { cmp = false; vf_protect(A, 0); BnFree(A); a = gnat(s, glen(s, 3)); BN_set_bit(a.v, 0); A = BnNewW(a.nwords()); gset(A, a); vf_protect(A, 1); reseed(s); (void)RaIsPrimeNumber(A); break; }
	case 20: nm = "BnAddUInt"; want = a + Z::U(w); R_(std::max(an, want.nwords())); BnSet(R, A); rc = BnAddUInt(R, w); break;
	case 21: nm = "BnSubUInt"; want = a - Z::U(w); R_(std::max(an, want.nwords())); BnSet(R, A); rc = BnSubUInt(R, w); break;
	case 22: nm = "BnMulUInt"; want = a * Z::U(w); R_(std::max(an, want.nwords())); BnSet(R, A); rc = BnMulUInt(R, w); break;
	case 23: nm = "BnGenRandom"; { cmp = false; int bits = s.range(1, 40 * WBIT); R_((bits + WBIT - 1) / WBIT); struct RaRandom *r; uint8_t sd[8]; s.fill(sd, 8); RaRandomCreate(RA_RAND_SHA160, sd, 8, &r); rc = BnGenRandom(R, bits, r); BnGetRandomOdd(R, bits, r); BnGetRandomRSA(R, bits, r); RaRandomDestroy(r); break; }
	}
	CHECK(rc == 0, "refused", "%s(%.100s, %.100s): %d", nm, a.str().c_str(), b.str().c_str(), rc);
	if (cmp) ZEQ(zval(R), want, "value", "%s(%.100s, %.100s)", nm, a.str().c_str(), b.str().c_str());
	vf_protect(A, 0); vf_protect(B, 0); ZEQ(zval(A), a, "operand-changed", "%s", nm); ZEQ(zval(B), b, "operand-changed", "%s", nm);
	BnFree(A); BnFree(B); if (R) BnFree(R); if (Q) BnFree(Q); vf_distinct(zh(a, zh(b, op))); COVERF("guarded %s", nm);
}
CASE(M03, keys, 2400, 80000, 0)
{
	RKey k = anykey(s, 1024); Ber ber(s, 20); int w = idx % 4; Bytes e = w == 0 ? pkcs8(k, ber) : w == 1 ? spki(k, ber) : w == 2 ? pkcs1priv(k, ber) : pkcs1pub(k, ber); int how = w < 2 ? I_ANY : w == 2 ? I_PRIV : I_PUB;
	int d = s.range(0, 3); if (d == 1) e.resize(s.range(0, (int)e.size())); if (d == 2) { int t = s.range(1, 4); while (t--) e[s.below(s.chance(1, 2) ? 40 < e.size() ? 40 : e.size() : e.size())] = s.chance(1, 2) ? s.u8() : (uint8_t)(0x80 | s.below(9)); }
	Guarded g(s.range(1, 2)); Rsa *x = NULL; int rc; { G in(e, place(s), "the encoded key"); int n = (int)e.size(); rc = how == I_ANY ? RaRsaCreateKeyFromByteArray(in.p, n, &x) : how == I_PRIV ? RaRsaCreateKeyPriv(in.p, n, &x) : RaRsaCreateKeyPub(in.p, n, &x); in.done(); }
	if (d == 0 || d == 3) CHECK(rc == 0 || vf_vkey, "import", "a valid key is refused (%d)", rc);
	if (rc == 0) {
		for (int priv = 0; priv < 2; priv++) { int n = -1, l = -1, r = exportfn(priv, x, NULL, 0, &n); if (r) continue; G o(n, place(s), "the exported key"); r = exportfn(priv, x, o.p, n, &l); CHECK(r == 0 && l == n, "export", "%d, %d of %d bytes", r, l, n); o.done(); if (n > 1) { int sh = s.range(0, n - 1); G q(sh, place(s), "the short buffer"); r = exportfn(priv, x, q.p, sh, &l); CHECK(r != 0, "export", "%d bytes fit into %d", n, sh); q.done(); } }
		if (d == 0 || d == 3) {
			Z n = k.f[F_N], m = zmod(gnat(s, n.nwords()), n); struct RaBigNumber *M = BnNewW(m.nwords()), *S = BnNewW(n.nwords()); gset(M, m); vf_protect(M, 1);
			rc = RaRsaEncrypt(x, M, S); CHECK(rc == 0, "encrypt", "%d", rc); ZEQ(zval(S), zpow(m, k.f[F_E], n), "value", "encryption"); if (w == 0 || w == 2) { struct RaBigNumber *D = BnNewW(n.nwords()); vf_protect(S, 1); rc = RaRsaDecrypt(x, S, D); CHECK(rc == 0, "decrypt", "%d", rc); ZEQ(zval(D), m, "value", "decryption"); rc = RaRsaSign(x, M, D); CHECK(rc == 0, "sign", "%d", rc); vf_protect(D, 1); rc = RaRsaVerify(x, D, M); CHECK(rc == 0, "verify", "%d", rc); vf_protect(D, 0); vf_protect(S, 0); BnFree(D); }
			vf_protect(M, 0); BnFree(M); BnFree(S); COVER("RSA operations on read-only numbers");
		}
		RaRsaDestroyKeyPair(x);
	}
	vf_distinct(vf_hash(e.data(), e.size(), how)); COVERF("%s of %s data", I_NAME[how], d == 1 ? "truncated" : d == 2 ? "altered" : "good");
}
static Src *bufsrc;
static void *gb(size_t n) { return vf_gbuf(n, n % 8 == 0 && bufsrc->chance(1, 2) ? -1 : 8 * (int)bufsrc->below(3)); }
static void gf(void *p) { if (vf_gbuf_free(p)) { hist_buf = NULL; hist_buf_free = NULL; vf_fail_case("overrun", "bytes next to a buffer were changed"); } }
CASE(M03, history, 2400, 60000, 0)	// whole histories with every buffer and block guarded
{
	uint64_t seed = s.u64(); int ops = s.range(6, 40); struct Hist a, b; Src e0(s.rnd()), e1 = e0, bs(s.rnd()); bufsrc = &bs;
	reseed(e0); hfresh(&a, seed, HIST_SCRIPTED | HIST_LIGHT); hist_run(&a, ops); reseed(e1); hfresh(&b, seed, HIST_SCRIPTED | HIST_LIGHT);
	{ Guarded g(s.range(1, 2)); hist_buf = gb; hist_buf_free = gf; try { hist_run(&b, ops); } catch (...) { hist_buf = NULL; hist_buf_free = NULL; throw; } hist_buf = NULL; hist_buf_free = NULL; }
	CHECK(a.th == b.th, "placement", "a history of %d operations gives other results when its buffers lie elsewhere", ops); vf_distinct(a.th); vf_cover_n("guarded operations", b.ops);
}

// ---- M04: threads with objects of their own ----
CASE(M04, threads, 160, 4000, 0)
{
	struct ThrOut o; int rc = thr_trial(s.u64(), &o); static const char *key[] = { "", "differs", "died", "hang" }, *st[] = { "same first use", "staggered first use", "unsynchronised first use" };
	CHECK(rc == 0, key[o.status], "%s", o.msg); vf_distinct(o.order); COVERF("%d threads", o.threads); COVERF("%s", st[o.style]); vf_cover_n("operations of threads", o.steps); vf_cover_n("switches between threads", o.switches);
	vf_sample("%d threads, %u operations, %u switches", o.threads, o.steps, o.switches);
}

// ---- M05: twins: the same life with two different secrets must leave the same memory behind ----
struct Freed { uintptr_t at; Bytes b; };
static std::vector<Freed> *grave; static std::map<uintptr_t, size_t> *born;
static void onfree(void *p, size_t n) { if (grave) grave->push_back({ (uintptr_t)p, Bytes((uint8_t *)p, (uint8_t *)p + n) }); }
static void onalloc(void *p, size_t n) { if (born) (*born)[(uintptr_t)p] = n; }
// pointers to blocks of the library: by their place among the freed blocks
static void canon(std::vector<Freed> &v, std::map<uintptr_t, size_t> &known)
{
	for (auto &f : v) for (size_t o = 0; o + 8 <= f.b.size(); o += 8) {
		uint64_t w; memcpy(&w, &f.b[o], 8); if (w < 4096) continue; auto it = known.upper_bound((uintptr_t)w); if (it == known.begin()) continue; --it; if (w > it->first + it->second) continue;
		uint64_t r = 0xE000000000000000ull | (w - it->first); for (size_t i = 0; i < v.size(); i++) if (v[i].at == it->first) { r = 0xF000000000000000ull | i << 32 | (w - it->first); break; }
		memcpy(&f.b[o], &r, 8);
	}
}
struct Twin {
	std::vector<Freed> g[2]; std::map<uintptr_t, size_t> b[2]; int cur;
	Twin() : cur(-1) {}
	~Twin() { vf_free_hook = NULL; vf_alloc_hook = NULL; grave = NULL; born = NULL; }
	void life(int i) { cur = i; g[i].clear(); b[i].clear(); born = &b[i]; grave = NULL; vf_alloc_hook = onalloc; vf_free_hook = onfree; }
	void death() { grave = &g[cur]; }
	void over() { grave = NULL; born = NULL; vf_free_hook = NULL; vf_alloc_hook = NULL; }
	bool same_shape() { if (g[0].size() != g[1].size()) return false; for (size_t i = 0; i < g[0].size(); i++) if (g[0][i].b.size() != g[1][i].b.size()) return false; return true; }
	void compare(const char *kind, const char *when)
	{
		CHECK(!g[0].empty(), "not-released", "destroying %s releases no memory", kind);
		if (!same_shape()) { COVER("twins of different shape (not compared)"); return; }
		canon(g[0], b[0]); canon(g[1], b[1]);
		for (size_t i = 0; i < g[0].size(); i++) {
			Bytes &x = g[0][i].b, &y = g[1][i].b; size_t o = 0, k = 0, n = 0; for (; o < x.size() && x[o] == y[o]; o++) {} if (o == x.size()) { vf_cover_n("released bytes compared", x.size()); continue; }
			for (k = o; k < x.size(); k++) n += x[k] != y[k]; size_t e = o + 24 < x.size() ? o + 24 : x.size();
			CHECK(false, "secret-left", "%s destroyed %s: block %zu of %zu (%zu bytes) is released with %zu bytes that depend on its secrets, from offset %zu on: %s or %s", kind, when, i + 1, g[0].size(), x.size(), n, o, vf_hex(&x[o], e - o).c_str(), vf_hex(&y[o], e - o).c_str());
		}
		vf_evals++; COVERF("erased: %s %s", kind, when);
	}
};
#define TWIN Twin tw; Src ctl(s.rnd()); Src sec[2] = { Src(s.rnd()), Src(s.rnd()) }; for (int z = 0; z < 2; z++)
CASE(M05, digests, 26000, 400000, 0)
{
	int a = idx % HX_ND; static const char *W[] = { "when new", "when initialised", "after an update", "after the digest", "after the digest and more" }; int w = s.below(5); uint64_t h = idx;
	TWIN {
		Src c = ctl; Src &q = sec[z]; void *x; tw.life(z); hx_dcreate(a, &x); uint8_t o[64];
		if (w > 0) hx_dinit(a, x); if (w > 1) { int k = c.range(1, 4); while (k--) { Bytes m = q.bytes(c.range(1, 300)); hx_dupd(a, x, m.data(), (int)m.size()); h = h * 31 + m.size(); } } if (w > 2) hx_dfin(a, x, o);
		if (w > 3) { if (c.chance(1, 2)) hx_dinit(a, x); Bytes m = q.bytes(c.range(1, 120)); hx_dupd(a, x, m.data(), (int)m.size()); h = h * 31 + m.size(); }
		tw.death(); hx_ddestroy(a, x); tw.over();
	}
	tw.compare(hist_kind[a], W[w]); vf_distinct(h);
}
CASE(M05, ciphers, 42000, 600000, 0)
{
	int c = idx % HX_NC, mode = s.below(4), B = hx_cblk[c], kl = c == 10 ? s.range(1, 72) : hx_cklen[c], w = s.below(5), dec = s.below(2); static const char *W[] = { "when new", "with an IV", "in the middle of a stream", "after the last call", "after another key" }; uint64_t h = idx * 8 + mode;
	TWIN {
		Src k = ctl; Src &q = sec[z]; void *x; Bytes key = q.bytes(kl), iv = q.bytes(B), o; tw.life(z); hx_ccreate(c, key.data(), kl, mode, &x); if (w > 0) hx_csetiv(c, x, iv.data());
		if (w > 1) { int t = k.range(1, 4); while (t--) { Bytes m = q.bytes(k.range(1, 100)); o.resize(m.size() + 2 * B); dec ? hx_cdec(c, x, m.data(), (int)m.size(), o.data()) : hx_cenc(c, x, m.data(), (int)m.size(), o.data()); h = h * 31 + m.size(); } }
		if (w > 2) { Bytes m = q.bytes(k.range(1, 100)); o.resize(m.size() + 2 * B); dec ? hx_cdecf(c, x, m.data(), (int)m.size(), o.data(), 0) : hx_cencf(c, x, m.data(), (int)m.size(), o.data(), k.below(3)); h = h * 31 + m.size(); }
		if (w > 3) { key = q.bytes(kl); hx_cinit(c, x, key.data(), kl, mode); }
		tw.death(); hx_cdestroy(c, x); tw.over();
	}
	tw.compare(cname(c), W[w]); vf_distinct(h);
}
CASE(M05, streams, 16000, 400000, 0)
{
	int a = idx % 5, w = s.below(3), e = s.chance(1, 3); static const char *N[] = { "generator", "generator (SHA-160)", "generator (SHA-256)", "generator (SHA-512)", "RC4 context" }, *W[] = { "when new", "after use", "after long use" }; uint64_t h = idx * 4 + w;
	TWIN {
		Src k = ctl; Src &q = sec[z]; reseed(q); Bytes key = q.bytes(k.range(1, 100)); Bytes o(700); tw.life(z);
		if (a == 4) { struct RaRc4Ctx *c; RaRc4Create(key.data(), (int)key.size(), &c); if (w) for (int t = k.range(1, 3); t; t--) { int n = k.range(1, w * 300); RaRc4Encrypt(c, q.bytes(n).data(), n, o.data()); h = h * 31 + n; } tw.death(); RaRc4Destroy(c); }
		else { struct RaRandom *r; RaRandomCreate((enum RaRandomAlgorithm)a, e ? NULL : key.data(), e ? 0 : (int)key.size(), &r); if (w) for (int t = k.range(1, 3); t; t--) { int n = k.range(1, w * 300); RaRandomBytes(r, n, o.data()); h = h * 31 + n; if (k.chance(1, 2)) RaRandom(r); } tw.death(); RaRandomDestroy(r); }
		tw.over();
	}
	tw.compare(N[a], W[w]); vf_distinct(h);
}
CASE(M05, numbers, 20000, 400000, 0)
{
	int kind = idx % 4, bits = s.range(1, 2000), w = s.below(4); static const char *N[] = { "number", "number that became shorter", "number after arithmetic", "Montgomery context" }; uint64_t h = idx * 4096 + bits;
	if (kind == 3 && bits < 8) bits = 8;
	TWIN {
		Src k = ctl; Src &q = sec[z]; int nb = (bits + 7) / 8; auto num = [&](struct RaBigNumber *b) { Bytes v = q.bytes(nb); v[0] = (uint8_t)((v[0] | 0x80) >> (nb * 8 - bits)); BnSetUByteArray(b, v.data(), nb); };
		tw.life(z);
		if (kind < 3) {
			struct RaBigNumber *b = BnNew(bits * 2 + k.range(64, 300)), *t = BnNew(bits * 2 + 300); num(b);
			if (kind == 1) { switch (w) { case 0: BnSetUInt(b, 1); break; case 1: BnShiftR(b, bits); break; case 2: BnShiftR(b, bits / 2); break; default: BnSet(t, b); BnSub(b, b, t); } }
			if (kind == 2) { num(t); if (w == 0) BnMulUInt(b, 77); else if (w == 1) BnShiftL(b, k.range(1, 60)); else if (w == 2) { struct RaBigNumber *c = BnClone(b); BnMul(b, c, t); BnClearFree(c); } else BnMod(b, b, t); }
			if (k.chance(1, 3)) { struct RaBigNumber *c = BnClone(b); tw.death(); BnClearFree(c); grave = NULL; }
			tw.death(); BnClearFree(b); grave = NULL; BnClearFree(t);
		} else {
			struct RaBigNumber *m = BnNew(bits), *b = BnNew(bits), *r = BnNew(bits), *e = BnNew(200); num(m); m->data[0] |= 1; struct RaMontCtx *c; RaMontCreate(m, &c); BnSetUInt(e, 65537 + q.below(100));
			for (int t = w; t; t--) { num(b); RaMontExpMod(c, r, b, e); } tw.death(); RaMontDestroy(c); grave = NULL; BnClearFree(m); BnClearFree(b); BnClearFree(r); BnClearFree(e);
		}
		tw.over();
	}
	tw.compare(N[kind], kind == 3 ? w ? "after use" : "when new" : kind == 1 ? w == 0 ? "by assignment" : w < 3 ? "by a shift" : "by subtraction" : ""); vf_distinct(h + w);
}
// the same modulus, other private numbers: the primes change places and the private exponent grows by lcm(p-1, q-1)
static struct RaBigNumber *big(const Z &z, int words) { struct RaBigNumber *b = BnNewW(words); gset(b, z); return b; }
CASE(M05, keys, 900, 30000, 0)
{
	RKey k[2]; for (;;) { int b = s.chance(1, 8) ? s.range(200, 520) : s.range(12, 200); Z p = gprime(s, b, true), q = gprime(s, b, true), l; Z e = s.chance(1, 2) ? Z(65537) : Z(3); if (b <= 12) e = Z(5); if (p == q || !mkkey(k[0], p, q, e, true)) continue; mkkey(k[1], q, p, e, true);
		l = zlcm(p - Z(1), q - Z(1)); k[1].f[F_D] = k[1].f[F_D] + l; bool same = true; for (int i = 0; i < 8; i++) same = same && k[0].f[i].nwords() == k[1].f[i].nwords() && intbytes(k[0].f[i]).size() == intbytes(k[1].f[i]).size(); if (same) break; }
	int w = idx % 5, how = s.below(2); static const char *W[] = { "when imported", "after encryption and decryption", "after signing and verifying", "after an export", "after a verification of the key" }; uint64_t h = vf_hash(k[0].f[F_N].be().data(), k[0].f[F_N].be().size(), idx);
	TWIN {
		Src c = ctl; Src &q = sec[z]; Bytes e = how ? pkcs1priv(k[z]) : pkcs8(k[z]); Rsa *x = NULL; Z n = k[z].f[F_N]; int nw = n.nwords(); reseed(c); tw.life(z);
		int rc = how ? RaRsaCreateKeyPriv(e.data(), (int)e.size(), &x) : RaRsaCreateKeyFromByteArray(e.data(), (int)e.size(), &x); CHECK(rc == 0, "import", "%d", rc);
		struct RaBigNumber *m = big(zmod(gnat(q, nw), n), nw), *y = BnNewW(nw), *r = BnNewW(nw);
		if (w == 1) { RaRsaEncrypt(x, m, y); RaRsaDecrypt(x, y, r); } else if (w == 2) { RaRsaSign(x, m, y); rc = RaRsaVerify(x, y, m); CHECK(rc == 0, "verify", "%d", rc); } else if (w == 3) { int l; Bytes o(e.size() + 100); RaRsaPrivKeyToByteArray(x, o.data(), (int)o.size(), &l); } else if (w == 4) RaRsaVerifyKey(x);
		tw.death(); RaRsaDestroyKeyPair(x); grave = NULL; BnClearFree(m); BnClearFree(y); BnClearFree(r); tw.over();
	}
	tw.compare("RSA key", W[w]); vf_distinct(h);
}
CASE(M05, generated, 240, 3000, 0)
{
	Twin tw; reseed(s); Rsa *x = NULL; int bits = s.range(66, 130) * 2; tw.life(0); int rc = RaRsaCreateKeyPair(bits, &x); CHECK(rc == 0, "create", "%d", rc); Bytes e = exported(x, true); Z f[8]; const char *why; El r, o; bool in = rdany(e.data(), e.size(), f, &why) == 8 || rdpriv1(e.data(), e.size(), f, &why) == 8; CHECK(in, "export", "%s", why);
	tw.death(); RaRsaDestroyKeyPair(x); tw.over(); CHECK(!tw.g[0].empty(), "not-released", "destroying a key releases no memory");
	auto le = [](const Z &z) { Bytes b = z.be(); return Bytes(b.rbegin(), b.rend()); };
	for (int i = F_D; i < 8; i++) for (int rev = 0; rev < 2; rev++) {
		Bytes v = rev ? f[i].be() : le(f[i]); for (size_t j = 0; j + 8 <= v.size(); j += 8) for (size_t g = 0; g < tw.g[0].size(); g++) { Bytes &b = tw.g[0][g].b; void *hit = memmem(b.data(), b.size(), &v[j], 8); vf_evals++;
			CHECK(!hit, "secret-left", "generated key of %d bits: block %zu of %zu (%zu bytes) is released with a part of the %s in it (offset %zu)", bits, g + 1, tw.g[0].size(), b.size(), F_NAME[i], (size_t)((uint8_t *)hit - b.data())); }
	}
	vf_distinct(vf_hash(e.data(), e.size())); COVER("erased: generated RSA key");
}

// ---- V01: the same inputs in every configuration ----
static void result(const char *name, uint64_t idx, uint64_t h, const char *group = "") { vf_trace(name, idx, h, group); vf_distinct(h); vf_evals++; }
CASE(V01, history, 12000, 400000, 0)
{
	struct Hist h; uint64_t seed = s.u64(); int ops = s.range(4, 60); reseed(s); hfresh(&h, seed, HIST_SCRIPTED | HIST_CROSS | (idx % 12 ? HIST_LIGHT : 0)); h.step = hstep; hist_run(&h, ops);
	result("history", idx, h.th); vf_sample("%ld operations, transcript %016llx", h.ops, (unsigned long long)h.th);
}
CASE(V01, kinds, HIST_KINDS * 2, HIST_KINDS * 20, F_ENUM)
{
	struct Hist h; uint64_t seed = s.u64(); if (idx % HIST_KINDS == 22) { vf_trivial(); return; } hfresh(&h, seed, HIST_SCRIPTED | HIST_CROSS); reseed(s); hist_one(&h, idx % HIST_KINDS); result("kinds", idx, h.th);
}
CASE(V01, bulk, 2240, 56000, 0)	// long inputs
{
	uint64_t h = 0; auto mixb = [&](const void *p, size_t n) { h = vf_hash(p, n, h ^ 0x9E37); }; int w = idx % 28;
	if (w < 11) { void *x; hx_dcreate(w, &x); hx_dinit(w, x); int t = s.range(1, 5); while (t--) { Bytes m = s.bytes(s.range(0, 20000)); hx_dupd(w, x, m.data(), (int)m.size()); } uint8_t o[64]; hx_dfin(w, x, o); mixb(o, hx_dlen[w]); hx_ddestroy(w, x); COVERF("bulk %s", hist_kind[w]); }
	else if (w < 22) {
		int c = w - 11, B = hx_cblk[c], kl = c == 10 ? s.range(1, 72) : hx_cklen[c]; Bytes key = s.bytes(kl), iv = s.bytes(B);
		for (int mode = 0; mode < 4; mode++) for (int dec = 0; dec < 2; dec++) { void *x; hx_ccreate(c, key.data(), kl, mode, &x); hx_csetiv(c, x, iv.data()); for (int t = 0; t < 3; t++) { Bytes m = s.bytes(s.chance(1, 2) ? B * s.range(0, 300) : s.range(0, 5000)), o(m.size() + 2 * B); int r = dec ? hx_cdec(c, x, m.data(), (int)m.size(), o.data()) : hx_cenc(c, x, m.data(), (int)m.size(), o.data()); mixb(&r, 4); if (r > 0) mixb(o.data(), r); } hx_cgetiv(c, x, iv.data()); mixb(iv.data(), B); hx_cdestroy(c, x); }
		COVERF("bulk %s", cname(c));
	} else if (w == 22) { Bytes key = s.bytes(s.range(1, 256)), m = s.bytes(30000), o(30000); struct RaRc4Ctx *c; RaRc4Create(key.data(), (int)key.size(), &c); RaRc4Encrypt(c, m.data(), 30000, o.data()); mixb(o.data(), o.size()); RaRc4Destroy(c); COVER("bulk RC4"); }
	else if (w == 23) { for (int a = 0; a < 4; a++) { Bytes sd = s.bytes(s.range(1, 200)), o(5000); struct RaRandom *r; RaRandomCreate((enum RaRandomAlgorithm)a, sd.data(), (int)sd.size(), &r); RaRandomBytes(r, 5000, o.data()); mixb(o.data(), o.size()); double d = RaRandom(r); mixb(&d, 8); uint32_t v = RaRandomInt(r, 3, 1000000007); mixb(&v, 4); RaRandomDestroy(r); } COVER("bulk generators"); }
	else if (w < 26) {	// numbers of 64-bit granularity, so that both word sizes see the same values
		int al = s.range(1, 60), bl = s.range(1, 60); Bytes a = s.texture(al * 8), b = s.texture(bl * 8); int cap = (2 * std::max(al, bl) + 12) * 64; struct RaBigNumber *A = BnNew(cap), *B = BnNew(cap), *R = BnNew(cap), *Q = BnNew(cap);
		auto out = [&](struct RaBigNumber *x) { int n = BnToByteArray(x, NULL, 0); Bytes o(n + 1); BnToByteArray(x, o.data(), n); mixb(o.data(), n); };
		BnSetByteArray(A, a.data(), (int)a.size()); BnSetByteArray(B, b.data(), (int)b.size()); BnAdd(R, A, B); out(R); BnSub(R, A, B); out(R); BnMul(R, A, B); out(R); BnSqr(R, A); out(R); if (!BN_ISZERO(B)) { BnDiv(Q, R, A, B); out(Q); out(R); BnMod(R, A, B); out(R); }
		if (!BN_ISZERO(A) && !BN_ISZERO(B)) { GetGCD(R, A, B); out(R); } int k = s.range(0, 500); BnSet(R, A); BnShiftR(R, k); out(R); BnSet(R, A); k = s.range(0, bl * 64); BnShiftL(R, k); out(R); int c = BnCmp(A, B); c = (c > 0) - (c < 0); mixb(&c, 4); c = BnGetBitLength(A); mixb(&c, 4);
		BnFree(A); BnFree(B); BnFree(R); BnFree(Q); COVER("bulk numbers");
	} else {
		const RKey &k = poolkey(w == 26 ? 512 : 1024, s.below(4)); Bytes e = pkcs8(k); KeyH x; x.load(I_ANY, e); Bytes o = exported(x, true); mixb(o.data(), o.size()); o = exported(x, false); mixb(o.data(), o.size()); int rc = RaRsaVerifyKey(x); mixb(&rc, 4); Z n = k.f[F_N], m; { Bytes t = s.bytes(100); BN_bin2bn(t.data(), 100, m.v); m = zmod(m, n); }
		struct RaBigNumber *M = big(m, n.nwords()), *S = BnNewW(n.nwords()); auto out = [&](struct RaBigNumber *b) { int l = BnToByteArray(b, NULL, 0); Bytes p(l + 1); BnToByteArray(b, p.data(), l); mixb(p.data(), l); };
		RaRsaEncrypt(x, M, S); out(S); RaRsaDecrypt(x, M, S); out(S); RaRsaSign(x, M, S); out(S); rc = RaRsaVerify(x, S, M); mixb(&rc, 4); BnFree(M); BnFree(S); COVER("bulk RSA");
	}
	result("bulk", idx, h);
}
// prime generation depends on the trial-division table, which has two sizes
// numbers of 32-bit granularity with extreme words: carries and corrections that random words never need
static Bytes words32(Src &s, int n)
{
	static const uint32_t E[] = { 0, 0xffffffffu, 1, 0x80000000u, 0x7fffffffu, 0xfffffffeu, 0x80000001u, 2 }; Bytes b(n * 4); int m = s.below(6); uint32_t rep = s.u32(), two[2] = { E[s.below(8)], E[s.below(8)] };
	for (int i = 0; i < n; i++) { uint32_t w = m == 0 ? s.u32() : m == 1 ? E[s.below(8)] : m == 2 ? (s.chance(1, 3) ? s.u32() : E[s.below(8)]) : m == 3 ? rep : m == 4 ? two[s.below(2)] : s.chance(1, 6) ? s.u32() : s.chance(1, 2) ? 0xffffffffu : 0; for (int j = 0; j < 4; j++) b[4 * i + j] = (uint8_t)(w >> (24 - 8 * j)); }
	return b;
}
CASE(V01, numbers, 6000, 300000, 0)
{
	uint64_t h = 0; int cap = 100 * 64; struct RaBigNumber *A = BnNew(cap), *B = BnNew(cap), *R = BnNew(cap), *Q = BnNew(cap), *T = BnNew(cap); int rc;
	auto out = [&](struct RaBigNumber *x) { int n = BnToByteArray(x, NULL, 0); Bytes o(n + 1); BnToByteArray(x, o.data(), n); h = vf_hash(o.data(), n, h ^ 0x9E37); };
	auto num = [&](int64_t v) { h = vf_hash(&v, 8, h); };
	for (int k = 0; k < 8; k++) {
		int al = s.range(1, s.chance(1, 4) ? 44 : 12), bl = s.range(1, s.chance(1, 4) ? 44 : 12); Bytes a = words32(s, al), b = words32(s, bl); int sg = s.below(4); uint32_t w = s.chance(1, 2) ? s.u32() : (uint32_t)(s.below(5) - 2); if (!w) w = 0xffffffffu;
		(sg & 1 ? BnSetByteArray : BnSetUByteArray)(A, a.data(), (int)a.size()); (sg & 2 ? BnSetByteArray : BnSetUByteArray)(B, b.data(), (int)b.size());
		BnAdd(R, A, B); out(R); BnSub(R, A, B); out(R); BnMul(R, A, B); out(R); BnSqr(R, A); out(R); BnMul(Q, A, A); out(Q); BnDouble(R, B); out(R);
		if (!BN_ISZERO(B)) {
			rc = BnDiv(Q, R, A, B); num(rc); out(Q); out(R); rc = BnMod(R, A, B); num(rc); out(R);
			BnMul(T, A, B); Bytes r = words32(s, s.range(1, bl)); BnSetUByteArray(R, r.data(), (int)r.size()); BnAdd(T, T, R); rc = BnDiv(Q, R, T, B); num(rc); out(Q); out(R); rc = BnMod(R, T, B); num(rc); out(R); BnSubUInt(T, 1); rc = BnDiv(Q, R, T, B); num(rc); out(Q); out(R);
			if (!BN_ISZERO(A) && k < 3) { int na = BN_ISNEG(A), nb = BN_ISNEG(B); if (na) A->sign = 0; if (nb) B->sign = 0; rc = GetGCD(R, A, B); num(rc); out(R); rc = GetGCDEx(R, Q, T, A, B, s.below(2)); num(rc); out(R); out(Q); out(T); }
		}
		bn_uint_t rem; for (int o = 0; o < 8; o++) { BnSet(R, A); rem = 0; switch (o) { case 0: BnAddUInt(R, w); break; case 1: BnSubUInt(R, w); break; case 2: BnMulUInt(R, w); break; case 3: BnDivUInt(R, w, &rem); break; case 4: BnAddInt(R, (int32_t)w); break; case 5: BnSubInt(R, (int32_t)w); break; case 6: BnMulInt(R, (int32_t)w); break; default: BnDivInt(R, (int32_t)w, &rem); } out(R); num((int64_t)rem); }
		rem = 0; BnModUInt(A, w, &rem); num((int64_t)rem); int c = BnCmp(A, B); num((c > 0) - (c < 0)); c = BnCmpUInt(A, w); num((c > 0) - (c < 0)); c = BnCmpInt(A, (int32_t)w); num((c > 0) - (c < 0)); num(BnGetBitLength(A)); num((int64_t)_BnGetUInt64(A)); num(_BnGetUInt32(A));
		int d = s.chance(1, 2) ? 32 * s.range(0, 12) + s.range(-1, 1) : s.range(0, 400); if (d < 0) d = 0; BnSet(R, A); BnShiftR(R, d); out(R); BnSet(R, A); BnShiftL(R, d); out(R); Bytes f(s.range(1, 60)); rc = BnToFixedByteArray(A, f.data(), (int)f.size()); num(rc); if (rc > 0) h = vf_hash(f.data(), f.size(), h);
		if (k < 2) { A->sign = 0; B->sign = 0; if (BN_ISEVEN(A)) BnAddUInt(A, 1); if (BN_ISONE(A)) BnSetUInt(A, 3); BnMod(B, B, A); Bytes e = words32(s, s.range(1, 5)); BnSetUByteArray(T, e.data(), (int)e.size()); struct RaMontCtx *m = NULL; rc = RaMontCreate(A, &m); num(rc); if (rc == 0) { rc = RaMontExpMod(m, R, B, T); num(rc); out(R); RaMontDestroy(m); } }
	}
	BnFree(A); BnFree(B); BnFree(R); BnFree(Q); BnFree(T); COVER("numbers with extreme 32-bit words"); result("numbers", idx, h);
}
CASE(V01, primes, 1200, 40000, 0)
{
	static const int bits[] = { 40, 48, 63, 64, 100, 127, 128, 161, 192, 250, 256 }; int n = bits[s.below(11)], alg = s.below(4), w = s.below(4); uint64_t h = 0; Bytes sd = s.bytes(20); const char *grp = vf_mintable ? "small-table" : "full-table";
	auto out = [&](struct RaBigNumber *b) { int l = BnToByteArray(b, NULL, 0); Bytes p(l + 1); BnToByteArray(b, p.data(), l); h = vf_hash(p.data(), l, h); };
	if (w < 3) { struct RaRandom *r; RaRandomCreate((enum RaRandomAlgorithm)alg, sd.data(), 20, &r); struct RaBigNumber *b = BnNew(n); int rc = RaGenPrimeNumberEx(b, n, NULL, NULL, r); h = rc; out(b); RaRandomDestroy(r); BnFree(b); COVER("primes from a seed"); }
	else { reseed(s); Rsa *x; int kb = bits[s.below(11)] & ~1; kb = kb < 64 ? 64 : 128; int rc = RaRsaCreateKeyPair(kb * 2, &x); CHECK(rc == 0, "create", "%d", rc); Bytes e = exported(x, true); h = vf_hash(e.data(), e.size()); RaRsaDestroyKeyPair(x); COVER("key pairs from scripted entropy"); }
	result("primes", idx, h, grp);
}
