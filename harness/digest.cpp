// D01 D02 D03: digests against reference implementations.
#include "ref.h"
#include <sys/mman.h>
#include <unistd.h>

static size_t pick_len(Src &s, int blk)
{
	switch (s.below(10)) {
	case 0: case 1: case 2: return s.below(4 * blk + 8);
	case 3: case 4: { long v = (long)blk * s.range(0, 40) + s.range(-20, 20); return v < 0 ? 0 : (size_t)v; }
	case 5: case 6: return s.below(4096);
	case 7: { long v = (1l << s.range(3, 16)) + s.range(-3, 3); return (size_t)v; }
	case 8: return s.below(20000);
	default: return s.chance(1, 12) ? s.below(400000) : s.below(2000);
	}
}

static void one_digest(int a, const Bytes &m, int inal, int outal, bool oneshot)
{
	Buf in(m.size(), inal), out(d_len[a], outal);
	if (m.size()) memcpy(in.p, m.data(), m.size());
	uint8_t want[64];
	ref_digest(a, m.data(), m.size(), want);
	if (oneshot) d_oneshot(a, in.p, (int)m.size(), out.p);
	else {
		void *c = NULL;
		int r = d_create(a, &c);
		CHECK(r == RA_ERR_SUCCESS && c, "create", "%s create returned %d", d_name[a], r);
		d_update(a, c, in.p, (int)m.size());
		d_final(a, c, out.p);
		d_destroy(a, c);
	}
	CHECK(!memcmp(out.p, want, d_len[a]), "value", "%s (%s) of %zu bytes %s = %s, standard says %s", d_name[a], oneshot ? "one-shot" : "create/update/final", m.size(), vf_hex(m).c_str(), vf_hex(out.p, d_len[a]).c_str(), vf_hex(want, d_len[a]).c_str());
	out.check("digest output");
	in.check("digest input");
	CHECK(!m.size() || !memcmp(in.p, m.data(), m.size()), "input-changed", "%s changed its input", d_name[a]);
	COVERF("%s %s", d_name[a], oneshot ? "one-shot" : "streamed");
	vf_cover_max("longest message", m.size());
	vf_distinct(vf_hash(m.data(), m.size(), a * 2 + oneshot + 77));
	vf_sample("%s %s of %zu bytes = %s", d_name[a], oneshot ? "one-shot" : "streamed", m.size(), vf_hex(want, d_len[a]).c_str());
}

// every length around all padding boundaries
CASE(D01, lengths, 11 * 2 * 560, 11 * 2 * 4200, F_ENUM)
{
	int a = idx % 11, os = (idx / 11) % 2; size_t len = idx / 22;
	if (os && !d_has_oneshot(a)) { os = 0; }
	one_digest(a, s.texture(len), (int)(len & 7), (int)(len & 3), os);
}
CASE(D01, random, 60000, 1500000, F_FUZZ)
{
	int a = s.below(D_COUNT); bool os = d_has_oneshot(a) && s.chance(1, 2);
	one_digest(a, s.texture(pick_len(s, d_blk[a])), s.below(16), s.below(16), os);
}
// digests feeding themselves: long dependent chains reach many internal word values
CASE(D01, chain, 400, 6000, 0)
{
	int a = s.below(D_COUNT); Bytes m = s.bytes(s.below(150)); uint8_t o[64], w[64];
	for (int i = 0; i < 200; i++) {
		void *c = NULL; CHECK(d_create(a, &c) == 0, "create", "create failed");
		d_update(a, c, m.data(), (int)m.size()); d_final(a, c, o); d_destroy(a, c);
		ref_digest(a, m.data(), m.size(), w);
		CHECK(!memcmp(o, w, d_len[a]), "value", "%s of %s = %s, standard says %s", d_name[a], vf_hex(m).c_str(), vf_hex(o, d_len[a]).c_str(), vf_hex(w, d_len[a]).c_str());
		vf_distinct(vf_hash(m.data(), m.size(), a + 7));
		if (m.size() > 300) m.erase(m.begin(), m.begin() + 200);
		m.insert(m.end(), o, o + d_len[a]);
	}
	COVERF("%s chain", d_name[a]);
}

// ---- D02: several contexts, arbitrary histories ----
struct Slot { int alg; void *ctx; bool heap; RefDigest *ref; uint64_t fed; };
static void d02(Src &s, int maxops, bool big)
{
	const int NS = 4;
	Slot sl[NS]; memset(sl, 0, sizeof sl);
	uint64_t h = 1469598103934665603ull;
	struct Cleanup { Slot *sl; ~Cleanup() { for (int i = 0; i < NS; i++) { if (sl[i].ctx) { if (sl[i].heap) d_destroy(sl[i].alg, sl[i].ctx); else free(sl[i].ctx); } delete sl[i].ref; } } } cl = { sl };
	int base = s.below(D_COUNT + 4);	// often all slots of one algorithm
	int ops = s.range(3, maxops);
	for (int o = 0; o < ops; o++) {
		int i = s.below(NS); Slot &x = sl[i];
		if (!x.ctx) {
			x.alg = base < D_COUNT ? base : (int)s.below(D_COUNT); x.heap = s.chance(1, 2);
			if (x.heap) { int r = d_create(x.alg, &x.ctx); CHECK(r == 0 && x.ctx, "create", "%s create %d", d_name[x.alg], r); }
			else { x.ctx = malloc(d_ctxsize(x.alg)); memset(x.ctx, s.u8(), d_ctxsize(x.alg)); d_init(x.alg, x.ctx); }
			x.ref = new RefDigest(x.alg); x.fed = 0; h = vf_mix(h ^ (x.alg * 8 + 1)); COVER("context opened");
		}
		switch (s.below(12)) {
		case 0: {	// final, then re-init the same object
			Buf out(d_len[x.alg], s.below(8)); uint8_t w[64]; d_final(x.alg, x.ctx, out.p); x.ref->fin(w); out.check("digest");
			CHECK(!memcmp(out.p, w, d_len[x.alg]), "value", "%s after %llu streamed bytes = %s, expected %s (step %d)", d_name[x.alg], (unsigned long long)x.fed, vf_hex(out.p, d_len[x.alg]).c_str(), vf_hex(w, d_len[x.alg]).c_str(), o);
			if (x.alg >= D_224 && x.alg <= D_512_256 && s.chance(1, 2)) { x.alg = s.range(D_224, D_512_256); COVER("re-init with another SHA-2"); }
			d_init(x.alg, x.ctx); delete x.ref; x.ref = new RefDigest(x.alg); x.fed = 0; h = vf_mix(h ^ 2); COVER("final then re-init");
			break; }
		case 1:		// re-init in the middle
			if (x.alg >= D_224 && x.alg <= D_512_256 && s.chance(1, 2)) x.alg = s.range(D_224, D_512_256);
			d_init(x.alg, x.ctx); delete x.ref; x.ref = new RefDigest(x.alg); COVERF("re-init after %s", x.fed == 0 ? "nothing" : x.fed % d_blk[x.alg] ? "a partial block" : "whole blocks"); x.fed = 0; h = vf_mix(h ^ 3);
			break;
		case 2: {	// copy into another slot
			int j = s.below(NS); if (j == i) break; Slot &y = sl[j];
			if (y.ctx) { if (y.heap) d_destroy(y.alg, y.ctx); else free(y.ctx); delete y.ref; y.ctx = NULL; y.ref = NULL; }
			y.alg = x.alg; y.heap = false; y.ctx = malloc(d_ctxsize(x.alg)); memcpy(y.ctx, x.ctx, d_ctxsize(x.alg)); y.ref = new RefDigest(*x.ref); y.fed = x.fed; h = vf_mix(h ^ (4 + j)); COVER("context copied");
			break; }
		case 3: d_update(x.alg, x.ctx, (const uint8_t *)"x", 0); COVER("empty update"); break;
		default: {
			size_t n; int b = d_blk[x.alg]; int fill = (int)(x.fed % b);
			switch (s.below(9)) {
			case 0: n = s.below(8); break; case 1: n = b - fill; break; case 2: n = b - fill + s.range(-1, 1); break; case 3: n = b; break; case 4: n = s.below(2 * b); break;
			case 5: n = (size_t)b * s.range(1, 6); break; case 6: n = 2 * b - fill; break; case 7: n = big ? s.below(140000) : s.below(1000); break; default: n = s.below(300); }
			Buf in(n, s.below(16)); Bytes t = s.texture(n); if (n) memcpy(in.p, t.data(), n);
			d_update(x.alg, x.ctx, in.p, (int)n); x.ref->upd(in.p, n); x.fed += n;
			CHECK(!n || !memcmp(in.p, t.data(), n), "input-changed", "%s update changed its input", d_name[x.alg]);
			COVERF("update from fill %s to %s", fill ? (fill == b - 1 ? "last" : "partial") : "empty", (fill + n) % b ? ((int)((fill + n) / b) ? "partial after block(s)" : "partial") : "exact");
			h = vf_mix(h ^ (n * 16 + 9)); vf_cover_max("longest stream", x.fed); }
		}
	}
	for (int i = 0; i < NS; i++) if (sl[i].ctx) {
		Slot &x = sl[i]; Buf out(d_len[x.alg]); uint8_t w[64]; d_final(x.alg, x.ctx, out.p); x.ref->fin(w);
		CHECK(!memcmp(out.p, w, d_len[x.alg]), "value", "%s after %llu streamed bytes = %s, expected %s (end)", d_name[x.alg], (unsigned long long)x.fed, vf_hex(out.p, d_len[x.alg]).c_str(), vf_hex(w, d_len[x.alg]).c_str());
		COVERF("%s finals", d_name[x.alg]);
	}
	vf_distinct(h);
	vf_sample("%d operations on up to %d contexts (%s)", ops, NS, base < D_COUNT ? d_name[base] : "mixed algorithms");
}
CASE(D02, histories, 40000, 800000, F_FUZZ) { d02(s, 40, s.chance(1, 20)); }
CASE(D02, long_histories, 200, 4000, 0) { d02(s, 1200, s.chance(1, 4)); }
// all two- and three-way splits of messages around the block size
CASE(D02, splits, 11 * 290, 11 * 900, F_ENUM)
{
	int a = idx % 11; size_t len = idx / 11; Bytes m = s.bytes(len); uint8_t w[64]; ref_digest(a, m.data(), len, w);
	void *c = malloc(d_ctxsize(a)); struct F { void *c; ~F() { free(c); } } f = { c };
	for (size_t i = 0; i <= len; i++) {
		Buf out(d_len[a]); size_t j = len > i ? i + s.below(len - i + 1) : len;
		d_init(a, c); d_update(a, c, m.data(), (int)i); d_update(a, c, m.data() + i, (int)(j - i)); d_update(a, c, m.data() + j, (int)(len - j)); d_final(a, c, out.p);
		CHECK(!memcmp(out.p, w, d_len[a]), "value", "%s of %zu bytes split at %zu and %zu = %s, expected %s", d_name[a], len, i, j, vf_hex(out.p, d_len[a]).c_str(), vf_hex(w, d_len[a]).c_str());
		vf_distinct(vf_mix(a + len * 16 + (uint64_t)i * 70000 + ((uint64_t)j << 40)));
	}
	COVERF("%s split messages", d_name[a]);
}
// byte-at-a-time and fixed chunk sizes
CASE(D02, chunks, 11 * 140, 11 * 300, F_ENUM)
{
	int a = idx % 11; int chunk = (int)(idx / 11) + 1; size_t len = 700 + s.below(600); Bytes m = s.bytes(len); uint8_t w[64]; ref_digest(a, m.data(), len, w);
	void *c = NULL; CHECK(d_create(a, &c) == 0, "create", "create failed");
	for (size_t i = 0; i < len; i += chunk) d_update(a, c, m.data() + i, (int)(len - i < (size_t)chunk ? len - i : chunk));
	Buf out(d_len[a]); d_final(a, c, out.p); d_destroy(a, c);
	CHECK(!memcmp(out.p, w, d_len[a]), "value", "%s of %zu bytes in chunks of %d wrong", d_name[a], len, chunk);
	COVERF("%s chunked", d_name[a]); vf_distinct(vf_hash(m.data(), len, chunk));
}

// ---- D03: length counters beyond 2^29 bytes and 2^32 bytes ----
static const size_t SEG = 8u << 20, WIN = (size_t)1 << 31;
static uint8_t *window()
{
	static uint8_t *w;
	if (w) return w;
	int fd = memfd_create("vf", 0); if (fd < 0 || ftruncate(fd, SEG)) abort();
	w = (uint8_t *)mmap(NULL, WIN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (w == MAP_FAILED) abort();
	for (size_t o = 0; o < WIN; o += SEG) if (mmap(w + o, SEG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
	close(fd);
	return w;
}
static void final_both(int a, void *ctx, RefDigest &r, uint64_t fed, const char *how)
{
	void *c = malloc(d_ctxsize(a)); memcpy(c, ctx, d_ctxsize(a)); RefDigest rr(r); uint8_t o[64], w[64]; d_final(a, c, o); rr.fin(w); free(c);
	CHECK(!memcmp(o, w, d_len[a]), "value", "%s of %llu bytes (%s) = %s, expected %s", d_name[a], (unsigned long long)fed, how, vf_hex(o, d_len[a]).c_str(), vf_hex(w, d_len[a]).c_str());
	vf_distinct(vf_mix(fed * 16 + a)); COVERF("%s %s", d_name[a], how);
	vf_cover_max("longest message", fed);
	vf_sample("%s of %llu bytes (%s) = %s", d_name[a], (unsigned long long)fed, how, vf_hex(w, d_len[a]).c_str());
}
static void cross(int a, Src &s, uint64_t limit, bool also_64)
{
	uint8_t *w = window(); Bytes seed = s.bytes(SEG); memcpy(w, seed.data(), SEG);
	void *ctx = malloc(d_ctxsize(a)); struct F { void *c; ~F() { free(c); } } f = { ctx };
	d_init(a, ctx); RefDigest r(a); uint64_t fed = 0;
	auto feed = [&](void *c, RefDigest &rr, uint64_t n) { while (n) { size_t k = n > 0x7fffffff ? 0x40000000 : n; d_update(a, c, w, (int)k); rr.upd(w, k); n -= k; } };
	static const int pw[] = {24, 29, 31, 32, 33};
	for (int p : pw) {
		uint64_t edge = 1ull << p; if (edge > limit) break;
		uint64_t delta = 64 + s.below(300);
		feed(ctx, r, edge - delta - fed); fed = edge - delta;
		{	// a copy crosses in small steps
			void *c = malloc(d_ctxsize(a)); memcpy(c, ctx, d_ctxsize(a)); RefDigest rr(r); uint64_t n = fed;
			struct G { void *c; ~G() { free(c); } } g = { c };
			while (n < edge + 200) {
				uint64_t k = s.below(40); if (n < edge && n + k > edge && s.chance(1, 2)) k = edge - n;
				d_update(a, c, w, (int)k); rr.upd(w, k); n += k;
				if (n + 130 >= edge) { char b[40]; snprintf(b, sizeof b, "2^%d in small steps", p); final_both(a, c, rr, n, b); }
			}
		}
		{	// another copy crosses in one large update
			void *c = malloc(d_ctxsize(a)); memcpy(c, ctx, d_ctxsize(a)); RefDigest rr(r); struct G { void *c; ~G() { free(c); } } g = { c };
			uint64_t n = delta + 1 + s.below(1 << 22); d_update(a, c, w, (int)n); rr.upd(w, n); char b[40]; snprintf(b, sizeof b, "2^%d in one update", p); final_both(a, c, rr, fed + n, b);
		}
	}
	(void)also_64;
}
CASE(D03, counters, 11, 11, F_ENUM | F_SLOW)
{
	static const int order[11] = {D_HAS, D_MD5, D_384, D_512, D_512_224, D_512_256, D_MD2, D_MD4, D_SHA1, D_224, D_256};
	int a = order[idx]; if (vf_asan()) { return; }
	uint64_t lim = a == D_MD2 ? (vf_tier() ? 1ull << 29 : 1ull << 25) : (vf_tier() ? 1ull << 33 : 1ull << 32);
	cross(a, s, lim, false);
}
// one single update call of nearly 2^31 bytes followed by ordinary ones
CASE(D03, single_huge_update, 10, 10, F_ENUM | F_SLOW)
{
	static const int order[10] = {D_SHA1, D_256, D_MD4, D_224, D_512, D_MD5, D_384, D_HAS, D_512_224, D_512_256};
	int a = order[idx]; uint8_t *w = window(); Bytes seed = s.bytes(SEG); memcpy(w, seed.data(), SEG);
	void *ctx = malloc(d_ctxsize(a)); struct F { void *c; ~F() { free(c); } } f = { ctx };
	d_init(a, ctx); RefDigest r(a); uint64_t fed = s.below(100); d_update(a, ctx, w, (int)fed); r.upd(w, fed);
	uint64_t n = 0x7fffffffull - s.below(70); d_update(a, ctx, w, (int)n); r.upd(w, n); fed += n;
	final_both(a, ctx, r, fed, "one update of almost 2^31 bytes");
	for (int i = 0; i < 3; i++) { n = s.below(200); d_update(a, ctx, w, (int)n); r.upd(w, n); fed += n; final_both(a, ctx, r, fed, "ordinary updates after a huge one"); }
}
CASE(D03, medium, 300, 3000, 0)
{
	int a = s.below(D_COUNT); uint8_t *w = window(); static bool init; if (!init) { Bytes seed = s.bytes(SEG); memcpy(w, seed.data(), SEG); init = true; }
	uint64_t n = a == D_MD2 ? s.below(200000) : s.below(3 << 20), off = s.below(4096); uint8_t o[64], x[64];
	void *c = NULL; CHECK(d_create(a, &c) == 0, "create", "create failed"); d_update(a, c, w + off, (int)n); d_final(a, c, o); d_destroy(a, c);
	ref_digest(a, w + off, n, x); CHECK(!memcmp(o, x, d_len[a]), "value", "%s of %llu bytes wrong", d_name[a], (unsigned long long)n); vf_distinct(vf_mix(n ^ off << 40)); COVER("medium messages");
}
// the state after a message so long that it cannot be hashed here: the byte counts of a context and of the reference are
// moved ahead by the same multiple of the block, as that many more bytes would have moved them (the chaining value stays)
template <class C> static auto ahead(C *c, uint64_t fed, uint64_t hi, uint64_t lo, int) -> decltype((void)c->totalLen_hh, (void)c->totalLen_h, (void)c->totalLen_l, bool())
{
	if (c->totalLen_hh || c->totalLen_h || c->totalLen_l != fed) return false;
	c->totalLen_hh = hi; c->totalLen_h = (uint32_t)((lo + fed) >> 32); c->totalLen_l = (uint32_t)(lo + fed); return true;
}
template <class C> static auto ahead(C *c, uint64_t fed, uint64_t hi, uint64_t lo, long) -> decltype((void)c->totalLen_h, (void)c->totalLen_l, bool())
{
	if (hi || c->totalLen_h || c->totalLen_l != fed) return false;
	c->totalLen_h = (uint32_t)((lo + fed) >> 32); c->totalLen_l = (uint32_t)(lo + fed); return true;
}
template <class C> static bool ahead(C *, uint64_t, uint64_t, uint64_t, ...) { return false; }
CASE(D03, deep, 12000, 300000, 0)
{
	int a = s.below(D_COUNT); bool wide = d_blk[a] == 128; if (a == D_MD2) { vf_trivial(); return; }	// no length in MD2
	uint8_t w[1200], o[64]; Bytes seed = s.bytes(sizeof w); memcpy(w, seed.data(), sizeof w);
	void *ctx = NULL; CHECK(d_create(a, &ctx) == 0, "create", "create failed"); RefDigest r(a);
	uint64_t fed = s.below(300); d_update(a, ctx, w, (int)fed); r.upd(w, fed);
	// below 2^64 bits (wide: 2^128 bits), the largest message of the standards
	int top = wide ? s.range(32, 124) : s.range(32, 60); unsigned __int128 n = (unsigned __int128)1 << top, below = 128 * (fed / 128 + 1 + s.below(3));
	if (s.chance(1, 2)) { n = 0; for (int i = 0; i < 4; i++) n = n << 32 | s.u32(); n &= ((unsigned __int128)1 << top) - 1; if (s.chance(1, 2)) n |= 0xfffffc00; below = 0; }
	n = (n - below) & ~(unsigned __int128)127; uint64_t hi = (uint64_t)(n >> 64), lo = (uint64_t)n; bool ok = lo + fed >= lo;
	if (ok) switch (a) { case D_MD4: ok = ahead((RaMd4Ctx *)ctx, fed, hi, lo, 0); break; case D_MD5: ok = ahead((RaMd5Ctx *)ctx, fed, hi, lo, 0); break; case D_SHA1: ok = ahead((RaSha1Ctx *)ctx, fed, hi, lo, 0); break; case D_HAS: ok = ahead((RaHas160Ctx *)ctx, fed, hi, lo, 0); break; default: ok = ahead((RaSha2Ctx *)ctx, fed, hi, lo, 0); }
	if (!ok) { d_destroy(a, ctx); vf_trivial(); COVER("length not set"); return; }
	n += fed; unsigned __int128 bits = n * 8;
	switch (a) { case D_MD4: r.md4.Nl = (uint32_t)bits; r.md4.Nh = (uint32_t)(bits >> 32); break; case D_MD5: r.md5.Nl = (uint32_t)bits; r.md5.Nh = (uint32_t)(bits >> 32); break; case D_SHA1: r.sha1.Nl = (uint32_t)bits; r.sha1.Nh = (uint32_t)(bits >> 32); break;
	case D_HAS: r.has.len = (uint64_t)n; break; case D_224: case D_256: r.s256.Nl = (uint32_t)bits; r.s256.Nh = (uint32_t)(bits >> 32); break; default: r.s512.Nl = (uint64_t)bits; r.s512.Nh = (uint64_t)(bits >> 64); }
	for (int i = s.range(0, 4); i > 0; i--) { int k = s.below(400); d_update(a, ctx, w + 3, k); r.upd(w + 3, k); n += k; }
	uint8_t want[64]; r.fin(want); d_final(a, ctx, o); char len[60]; snprintf(len, sizeof len, "0x%llx%016llx", (unsigned long long)(n >> 64), (unsigned long long)n);
	CHECK(!memcmp(o, want, d_len[a]), "value", "%s of a message of %s bytes = %s, standard says %s", d_name[a], len, vf_hex(o, d_len[a]).c_str(), vf_hex(want, d_len[a]).c_str());
	// nothing of the long message is left when the context is used again
	int k = s.below(300); d_init(a, ctx); d_update(a, ctx, w, k); d_final(a, ctx, o); ref_digest(a, w, k, want);
	CHECK(!memcmp(o, want, d_len[a]), "reuse", "%s of %d bytes in a context that was used for a message of %s bytes is wrong", d_name[a], k, len);
	d_destroy(a, ctx); vf_distinct(vf_mix((uint64_t)n ^ (uint64_t)(n >> 64) * 977 ^ a)); COVERF("%s after 2^%d bytes", d_name[a], top);
}
