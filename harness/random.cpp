// R01..R03: the generator against a model of its hash chain, ranges and coverage, system entropy.
#include "env.h"
#include "ref.h"
#include <set>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/wait.h>

static const int R_DIG[4] = { D_SHA1, D_256, D_512, D_MD5 };	// by enum RaRandomAlgorithm
static const char *R_NAME[4] = { "sha160", "sha256", "sha512", "md5" };
// the documented chain: a running digest over seed, counter, block, counter, block, ...; each block is the digest so far
struct Chain {
	RefDigest run; int alg, n; uint32_t count; uint8_t blk[64]; int off;
	Chain(int a, const uint8_t *seed, int len) : run(R_DIG[a]), alg(a), n(d_len[R_DIG[a]]), count(0), off(0) { step(seed, len); }
	void step(const uint8_t *d, int len) { uint8_t c[4] = { (uint8_t)(count >> 24), (uint8_t)(count >> 16), (uint8_t)(count >> 8), (uint8_t)count }; if (len) run.upd(d, len); run.upd(c, 4); RefDigest t = run; t.fin(blk); off = 0; count++; }
	void get(uint8_t *o, int len) { while (len-- > 0) { if (off >= n) { uint8_t t[64]; memcpy(t, blk, n); step(t, n); } *o++ = blk[off++]; } }
};
static struct RaRandom *mk(int alg, Bytes &seed) { struct RaRandom *r = NULL; Bytes keep = seed; static uint8_t dummy[1]; int rc = RaRandomCreate((enum RaRandomAlgorithm)alg, seed.size() ? seed.data() : dummy, (int)seed.size(), &r); CHECK(rc == 0 && r, "error", "RaRandomCreate returned %d", rc); CHECK(keep == seed, "seed-changed", "the seed was modified"); return r; }
static int reqlen(Src &s) { switch (s.below(7)) { case 0: return 0; case 1: return 1; case 2: return s.range(1, 8); case 3: return s.range(15, 21); case 4: return s.range(60, 70); case 5: return s.range(1, 200); default: return 20 * s.range(1, 4); } }

// ---- R01 ----
CASE(R01, streams, 40000, 1500000, F_FUZZ)
{
	int ng = s.range(1, 3); struct RaRandom *g[3]; std::vector<Chain> m; uint64_t h = 11;
	for (int i = 0; i < ng; i++) {
		int alg = s.range(0, 3); Bytes seed = s.texture(s.chance(1, 12) ? s.chance(1, 3) ? s.range(400, 9000) : s.range(100, 400) : s.range(0, 70));
		if (i && s.chance(1, 3)) { alg = m[0].alg; }
		g[i] = mk(alg, seed); m.push_back(Chain(alg, seed.data(), (int)seed.size())); h = vf_hash(seed.data(), seed.size(), h + alg); if (seed.empty()) COVER("empty seed"); if (seed.size() > 64) COVER("seed longer than a block"); COVERF("algorithm %s", R_NAME[alg]);
		if (seed.size()) { memset(seed.data(), 0xEE, seed.size()); }	// the generator keeps no reference to the seed
	}
	int ops = s.range(1, 14);
	for (int k = 0; k < ops; k++) {
		int i = s.range(0, ng - 1), n = reqlen(s); h = h * 31 + n * 3 + i; Buf o(n, s.range(0, 15)); Bytes w(n + 1);
		if (s.chance(1, 8)) {	// a real number takes four bytes
			uint8_t b[4]; uint32_t v; do { m[i].get(b, 4); v = (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; } while (v == 0 || v == 0xffffffffu);
			double d = RaRandom(g[i]); CHECK(d == (double)v / 4294967295.0, "real", "RaRandom gave %.17g where the stream holds %08x", d, v); COVER("real taken from the stream"); continue;
		}
		RaRandomBytes(g[i], n, o.p); o.check("RaRandomBytes"); m[i].get(w.data(), n);
		CHECK(!memcmp(o.p, w.data(), n), "stream", "%s generator, request %d of %d bytes: got %s, the chain gives %s", R_NAME[m[i].alg], k, n, vf_hex(o.p, n).c_str(), vf_hex(w.data(), n).c_str());
		if (ng > 1) COVER("interleaved generators"); if (n > m[i].n) COVER("request longer than a block"); if (n == 0) COVER("empty request");
	}
	for (int i = 0; i < ng; i++) { vf_cover_max("blocks drawn from one generator", m[i].count); RaRandomDestroy(g[i]); }
	vf_distinct(h); vf_sample("%d generator(s), %d requests", ng, ops);
}
CASE(R01, partition, 1600, 20000, F_ENUM)	// every way to cut the first bytes in two
{
	int alg = idx & 3, a = (int)(idx >> 2) % 150, b = s.range(1, 150); Bytes seed = s.bytes(s.range(1, 30)); struct RaRandom *r = mk(alg, seed), *q = mk(alg, seed); Bytes x(a + b), y(a + b);
	RaRandomBytes(r, a, x.data()); RaRandomBytes(r, b, x.data() + a); RaRandomBytes(q, a + b, y.data());
	CHECK(x == y, "partition", "%s: %d then %d bytes differ from %d at once", R_NAME[alg], a, b, a + b); Chain c(alg, seed.data(), (int)seed.size()); c.get(y.data(), a + b); CHECK(x == y, "stream", "%s stream differs from the chain", R_NAME[alg]);
	RaRandomDestroy(r); RaRandomDestroy(q); vf_distinct(vf_hash(seed.data(), seed.size(), idx)); COVER("two-way partition");
}
CASE(R01, longrun, 16, 64, F_ENUM | F_SLOW)	// long streams: compared with the chain block by block, and no block ever comes twice
{
	int alg = idx & 3; Bytes seed = s.bytes(s.range(1, 40)); struct RaRandom *r = mk(alg, seed); Chain c(alg, seed.data(), (int)seed.size()); int blocks = vf_asan() ? 3000 : vf_tier() ? 400000 : 70000; std::set<uint64_t> seen; std::vector<uint64_t> v; v.reserve(blocks);
	uint8_t a[64], b[64];
	for (int i = 0; i < blocks; i++) { RaRandomBytes(r, c.n, a); c.get(b, c.n); if (memcmp(a, b, c.n)) CHECK(0, "stream", "%s generator leaves the chain at block %d", R_NAME[alg], i); uint64_t x; memcpy(&x, a, 8); v.push_back(x); }
	vf_evals += blocks; std::sort(v.begin(), v.end()); CHECK(std::adjacent_find(v.begin(), v.end()) == v.end(), "repeats", "the %s stream repeats within %d blocks", R_NAME[alg], blocks);
	RaRandomDestroy(r); vf_cover_max("blocks drawn from one generator", blocks); vf_distinct(vf_hash(seed.data(), seed.size(), alg));
}
// the state after so many blocks that they cannot be drawn here: the block counters of generator and chain are moved ahead
template <class R> static auto ahead(R *r, uint32_t was, uint32_t n, int) -> decltype((void)r->count, bool()) { if ((uint32_t)r->count != was) return false; r->count = n; return true; }
template <class R> static bool ahead(R *, uint32_t, uint32_t, long) { return false; }
CASE(R01, counter, 8000, 200000, 0)
{
	int alg = s.range(0, 3); Bytes seed = s.bytes(s.range(1, 40)); struct RaRandom *r = mk(alg, seed); Chain c(alg, seed.data(), (int)seed.size()); uint8_t a[400], b[400]; int n = s.below(200);
	RaRandomBytes(r, n, a); c.get(b, n); CHECK(!memcmp(a, b, n), "stream", "%s stream differs from the chain", R_NAME[alg]);
	int top = s.range(8, 32); uint32_t to = s.chance(1, 2) ? (uint32_t)((1ull << top) - 1 - s.below(4)) : s.u32() >> (32 - top);
	if (!ahead(r, c.count, to, 0)) { RaRandomDestroy(r); vf_trivial(); COVER("counter not set"); return; }
	c.count = to; n = s.range(50, 400); RaRandomBytes(r, n, a); c.get(b, n); CHECK(!memcmp(a, b, n), "stream", "%s generator leaves the chain after about %u blocks", R_NAME[alg], to);
	RaRandomDestroy(r); vf_distinct(vf_hash(seed.data(), seed.size(), (uint64_t)to * 4 + alg)); COVERF("counter at 2^%d", top);
}
CASE(R01, bigrequest, 24, 400, F_SLOW) { int alg = s.range(0, 3), n = s.range(100000, 1500000); Bytes seed = s.bytes(9); struct RaRandom *r = mk(alg, seed); Chain c(alg, seed.data(), 9); Bytes x(n), y(n); RaRandomBytes(r, n, x.data()); c.get(y.data(), n); CHECK(x == y, "stream", "one request of %d bytes differs from the %s chain", n, R_NAME[alg]); RaRandomDestroy(r); vf_cover_max("bytes in one request", n); vf_distinct(n); }
CASE(R01, nothing, 1200, 30000, 0)	// a request for no bytes, or for fewer than none, takes nothing from the stream and writes nothing
{
	int alg = s.range(0, 3), pre = s.range(0, 70); Bytes seed = s.bytes(s.range(1, 30)); struct RaRandom *r = mk(alg, seed); Chain c(alg, seed.data(), (int)seed.size()); Bytes x(200), y(200);
	RaRandomBytes(r, pre, x.data()); c.get(y.data(), pre);
	for (int k = 0; k < 3; k++) { int n = -(int)s.below(3) * (int)s.below(70), m = s.range(1, 60); Buf o(16, s.range(0, 15)); Bytes keep(o.p, o.p + 16); RaRandomBytes(r, n, o.p); o.check("RaRandomBytes"); CHECK(!memcmp(keep.data(), o.p, 16), "wrote", "a request for %d bytes wrote to its buffer", n); RaRandomBytes(r, m, x.data()); c.get(y.data(), m); CHECK(!memcmp(x.data(), y.data(), m), "stream", "%s generator: a request for %d bytes disturbed the stream", R_NAME[alg], n); COVER(n ? "request for fewer than no bytes" : "request for no bytes"); }
	RaRandomDestroy(r); vf_distinct(vf_hash(seed.data(), seed.size(), pre * 4 + alg));
}
CASE(R01, different, 3000, 100000, 0)	// other seeds and other algorithms, other streams
{
	Bytes a = s.bytes(s.range(1, 80)), b = a; int alg = s.range(0, 3), alg2 = alg;
	switch (s.below(4)) { case 0: b[s.below(b.size())] ^= (uint8_t)(1 << s.below(8)); break; case 1: b.push_back(0); break; case 2: alg2 = (alg + s.range(1, 3)) & 3; break; default: b.erase(b.begin() + s.below(b.size())); if (b == a) b.push_back(1); }
	struct RaRandom *r = mk(alg, a), *q = mk(alg2, b); uint8_t x[40], y[40]; RaRandomBytes(r, 40, x); RaRandomBytes(q, 40, y); RaRandomDestroy(r); RaRandomDestroy(q);
	CHECK(memcmp(x, y, 16) && memcmp(x + 16, y + 16, 16), "same-stream", "seeds %s (%s) and %s (%s) give the same stream", vf_hex(a).c_str(), R_NAME[alg], vf_hex(b).c_str(), R_NAME[alg2]); COVER(alg == alg2 ? "seeds that differ" : "algorithms that differ"); vf_distinct(vf_hash(x, 40, vf_hash(y, 40)));
}
CASE(R01, bignum, 6000, 200000, F_FUZZ)	// big numbers are drawn from the same stream
{
	Bytes seed = s.bytes(s.range(1, 40)); int alg = s.range(0, 3); struct RaRandom *r = mk(alg, seed); Chain c(alg, seed.data(), (int)seed.size());
	for (int k = s.range(1, 5); k > 0; k--) {
		int n = s.range(1, 300); Num N(n / WBIT + 2); int rc; Bytes w((n + WBIT - 1) / WBIT * WB); int kind = s.below(4);
		if (kind == 3) { Bytes o(s.range(0, 90)), e(o.size()); rc = BnGenRandomByteArray(o.data(), (int)o.size(), r); c.get(e.data(), (int)e.size()); CHECK(rc == 0 && o == e, "stream", "BnGenRandomByteArray differs from the chain"); COVER("random byte array"); continue; }
		rc = kind == 0 ? BnGenRandom(N, n, r) : kind == 1 ? BnGetRandomOdd(N, n, r) : BnGetRandomRSA(N, n, r); CHECK(rc == 0, "error", "random number of %d bits: %d", n, rc); zcanon(N, "random number");
		c.get(w.data(), (int)w.size()); Z z; BN_lebin2bn(w.data(), (int)w.size(), z.v); BN_mask_bits(z.v, n); if (kind) BN_set_bit(z.v, 0); if (kind == 2) BN_set_bit(z.v, n - 1);
		ZEQ(N.val(), z, "stream", "%d-bit random number (kind %d)", n, kind); COVERF("random number kind %d", kind);
	}
	RaRandomDestroy(r); vf_distinct(vf_hash(seed.data(), seed.size(), alg));
}

// ---- R02 ----
// put chosen raw bytes in front of the generator's stream
static void inject(struct RaRandom *r, const uint8_t *b, int n) { r->buffer_offset = r->buffer_len - n; memcpy(r->buffer + r->buffer_offset, b, n); }
static uint32_t rawval(Src &s) { switch (s.below(7)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return 0xfffffffeu; case 3: return 1; case 4: return 0x80000000u; case 5: return 0xffffffffu - (uint32_t)s.below(300); default: return (uint32_t)s.below(300); } }
CASE(R02, reals, 60000, 2000000, F_FUZZ)
{
	Bytes seed = s.bytes(6); int alg = s.range(0, 3); struct RaRandom *r = mk(alg, seed); int n = s.range(0, 3);
	for (int k = 0; k < 4; k++) {
		uint8_t raw[12]; for (int i = 0; i < n; i++) { uint32_t v = rawval(s); raw[4 * i] = v >> 24; raw[4 * i + 1] = v >> 16; raw[4 * i + 2] = v >> 8; raw[4 * i + 3] = v; if (v == 0) COVER("raw output 0"); if (v == 0xffffffffu) COVER("raw output 2^32-1"); }
		if (n) inject(r, raw, 4 * n);
		double d = RaRandom(r); CHECK(d > 0 && d < 1, "real-range", "RaRandom returned %.17g (raw outputs %s)", d, vf_hex(raw, 4 * n).c_str()); vf_distinct(vf_hash(&d, 8));
	}
	RaRandomDestroy(r); vf_sample("algorithm %d, %d chosen raw outputs", alg, n);
}
static uint32_t edge32(Src &s) { switch (s.below(6)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return 0x80000000u - 2 + (uint32_t)s.below(5); case 3: return 1u << s.below(32); case 4: return s.below(300); default: return s.u32(); } }
CASE(R02, ints, 60000, 2000000, F_FUZZ)
{
	Bytes seed = s.bytes(6); int alg = s.range(0, 3); struct RaRandom *r = mk(alg, seed); uint32_t lo = edge32(s), hi = edge32(s); if (lo > hi) std::swap(lo, hi); if (s.chance(1, 6)) hi = lo; if (s.chance(1, 8)) { lo = 0; hi = 0xffffffffu; } if (s.chance(1, 8) && lo < 0xfffffff0u) hi = lo + (uint32_t)s.below(9);
	for (int k = 0; k < 6; k++) {
		uint32_t v = rawval(s); uint8_t raw[4] = { (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v }; bool inj = s.chance(2, 3); if (inj) inject(r, raw, 4);
		uint32_t x = RaRandomInt(r, lo, hi); CHECK(x >= lo && x <= hi, "int-range", "RaRandomInt(%u, %u) returned %u (raw output %s)", lo, hi, x, inj ? vf_hex(raw, 4).c_str() : "random");
		if (x == lo) COVER("minimum returned"); if (x == hi) COVER("maximum returned");
	}
	if (lo == 0 && hi == 0xffffffffu) COVER("full range"); if (lo == hi) COVER("range of one value"); RaRandomDestroy(r); vf_distinct((uint64_t)lo << 32 | hi);
}
CASE(R02, cover_ints, 240, 10000, 0)	// every value of a small range occurs, and about equally often
{
	Bytes seed = s.bytes(12); int alg = s.range(0, 3); struct RaRandom *r = mk(alg, seed); uint32_t n = s.range(1, 40), lo = s.chance(1, 3) ? 0xffffffffu - (n - 1) : s.chance(1, 2) ? 0 : s.u32() / 2; std::vector<int> cnt(n); int per = 300;
	for (uint32_t i = 0; i < n * per; i++) { uint32_t x = RaRandomInt(r, lo, lo + n - 1); CHECK(x - lo < n, "int-range", "RaRandomInt(%u, %u) returned %u", lo, lo + n - 1, x); cnt[x - lo]++; }
	for (uint32_t i = 0; i < n; i++) CHECK(cnt[i] >= per / 3 && cnt[i] <= per * 2, "int-coverage", "RaRandomInt(%u, %u) gave %u %d times in %u draws", lo, lo + n - 1, lo + i, cnt[i], n * per);
	RaRandomDestroy(r); COVER("small range fully covered"); vf_distinct(vf_hash(seed.data(), 12));
}
CASE(R02, spread, 60, 3000, 0)	// large ranges and reals: all of 64 equal parts are hit
{
	Bytes seed = s.bytes(12); int alg = s.range(0, 3); struct RaRandom *r = mk(alg, seed); uint32_t lo = s.chance(1, 2) ? 0 : s.u32() / 4, hi = s.chance(1, 2) ? 0xffffffffu : 0x80000000u + s.u32() / 2; int a[64] = { 0 }, b[64] = { 0 }; double w = (double)hi - lo + 1;
	for (int i = 0; i < 64 * 100; i++) { a[(int)(((double)RaRandomInt(r, lo, hi) - lo) / w * 64)]++; double d = RaRandom(r); CHECK(d > 0 && d < 1, "real-range", "%.17g", d); b[(int)(d * 64)]++; }
	for (int i = 0; i < 64; i++) CHECK(a[i] >= 30 && a[i] <= 200 && b[i] >= 30 && b[i] <= 200, "spread", "part %d of 64 of [%u, %u] was hit %d times and of (0, 1) %d times in 6400 draws", i, lo, hi, a[i], b[i]);
	RaRandomDestroy(r); COVER("large range spread"); vf_distinct(vf_hash(seed.data(), 12));
}
typedef int (*GenFn)(struct RaBigNumber *, int, struct RaRandom *);
static const GenFn GEN[3] = { BnGenRandom, BnGetRandomOdd, BnGetRandomRSA };
static const char *GNAME[3] = { "BnGenRandom", "BnGetRandomOdd", "BnGetRandomRSA" };
CASE(R02, bits, 1300, 20000, F_ENUM)	// every bit count: range, fixed bits, and every free bit takes both values
{
	int bits = idx < 900 ? 1 + (int)idx % 300 : s.range(1, 1500), kind = idx < 900 ? (int)idx / 300 : s.range(0, 2); Bytes seed = s.bytes(8); int alg = s.range(0, 3); struct RaRandom *r = mk(alg, seed);
	int W = (bits + WBIT - 1) / WBIT; Bytes ones((bits + 7) / 8 + 8, 0), zeros((bits + 7) / 8 + 8, 0); int draws = 60; bool own = s.chance(1, 12);
	for (int k = 0; k < draws; k++) {
		Num N(W + (int)s.below(3)); N.dirty(gword(s)); 
		if (s.chance(1, 10)) { uint8_t x[16]; memset(x, s.chance(1, 2) ? 0xff : 0, 16); inject(r, x, 16); COVER("extreme raw bytes"); if (W * WB > 16) {} }
		int rc = GEN[kind](N, bits, own && k < 3 ? NULL : r); CHECK(rc == 0, "error", "%s(%d) returned %d", GNAME[kind], bits, rc); zcanon(N, GNAME[kind]); Z z = N.val();
		CHECK(!z.neg() && z.bits() <= bits, "bits-range", "%s(%d) gave %s%.200s", GNAME[kind], bits, z.neg() ? "negative " : "", z.str().c_str());
		if (kind) CHECK(z.odd(), "not-odd", "%s(%d) gave the even number %.200s", GNAME[kind], bits, z.str().c_str()); if (kind == 2) CHECK(z.bits() == bits, "top-bit", "%s(%d) gave a number of %d bits", GNAME[kind], bits, z.bits());
		for (int i = 0; i < bits; i++) (BN_is_bit_set(z.v, i) ? ones : zeros)[i >> 3] |= 1 << (i & 7);
		vf_distinct(zh(z, kind));
	}
	for (int i = 0; i < bits; i++) { bool o = ones[i >> 3] >> (i & 7) & 1, z = zeros[i >> 3] >> (i & 7) & 1; bool f1 = (kind && i == 0) || (kind == 2 && i == bits - 1); CHECK(o && (z || f1), "bit-coverage", "bit %d of %s(%d) never was %d in %d draws", i, GNAME[kind], bits, o ? 0 : 1, draws); }
	RaRandomDestroy(r); COVERF("%s", GNAME[kind]);
}
CASE(R02, values, 30, 300, F_ENUM)	// every value of a short number occurs
{
	int bits = 1 + (int)idx % 7, kind = (int)idx / 7 % 3; if (idx >= 21) { bits = 8; kind = idx % 3; } Bytes seed = s.bytes(8); int alg = 1; struct RaRandom *r = mk(alg, seed); std::vector<int> c(1 << bits); int n = (1 << bits) * 60;
	for (int k = 0; k < n; k++) { Num N(2); int rc = GEN[kind](N, bits, r); CHECK(rc == 0, "error", "%d", rc); Z z = N.val(); CHECK(z.bits() <= bits, "bits-range", "%s(%d) gave %s", GNAME[kind], bits, z.str().c_str()); c[BN_get_word(z.v)]++; }
	for (int v = 0; v < 1 << bits; v++) { bool can = (!kind || (v & 1)) && (kind < 2 || v >> (bits - 1)); CHECK(can ? c[v] > 0 : c[v] == 0, "value-coverage", "%s(%d) gave %d %d times in %d draws", GNAME[kind], bits, v, c[v], n); }
	RaRandomDestroy(r); COVER("all values of a short number"); vf_distinct(idx);
}
CASE(R02, misuse, 200, 4000, 0)
{
	Bytes seed = s.bytes(8); struct RaRandom *r = mk(0, seed); Num N(2); N.dirty(WMAX); 
	for (int b : { 0, -1, -64, -1000 }) { Num M(2); M.dirty(gword(s)); int rc = BnGenRandom(M, b, r); CHECK(rc != 0 || M.val().zero(), "bits-range", "BnGenRandom(%d) gave %s", b, M.val().str().c_str()); Num K(2); rc = BnGetRandomRSA(K, b, r); (void)rc; Num L(2); rc = BnGetRandomOdd(L, b, r); (void)rc; }
	if (vf_ndebug) { int b = N->max_length * WBIT + s.range(1, 500); for (int k = 0; k < 3; k++) { int rc = GEN[k](N, b, r); CHECK(rc != 0, "too-small-accepted", "%s put %d bits into %d words", GNAME[k], b, N->max_length); } COVER("number too small"); }
	RaRandomDestroy(r); vf_distinct(vf_hash(seed.data(), 8));
}

// ---- R03 ----
static int open_fds(void) { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
typedef std::vector<uint8_t> Out;
static Out fresh(int alg, bool *failed = NULL)
{
	struct RaRandom *r = NULL; int rc = RaRandomCreate((enum RaRandomAlgorithm)alg, NULL, 0, &r);
	if (failed && rc != 0) { *failed = true; return Out(); }
	CHECK(rc == 0 && r, "error", "RaRandomCreate without a seed returned %d", rc); Out o(40); RaRandomBytes(r, 40, o.data()); RaRandomDestroy(r); return o;
}
static void all_distinct(const std::vector<Out> &v, const char *what) { std::set<Out> t(v.begin(), v.end()); CHECK(t.size() == v.size(), "shared-stream", "%zu unseeded generators (%s) had only %zu different streams", v.size(), what, t.size()); vf_cover_n(what, v.size()); for (auto &o : v) vf_distinct(vf_hash(o.data(), o.size())); }
static void freeze(Src &s) { vf_clock_frozen = 1; vf_clock_ns = (long long)(s.u64() >> 8); }

CASE(R03, fresh, 160, 4000, 0)
{
	freeze(s); int fds = open_fds(); long b0 = vf_ent_bytes; std::vector<Out> v; int n = s.range(2, 60), alg = s.range(0, 3); for (int i = 0; i < n; i++) v.push_back(fresh(alg));
	all_distinct(v, "at one clock reading"); CHECK(open_fds() == fds, "fd-leak", "%d generators left %d descriptors open", n, open_fds() - fds); CHECK(vf_ent_bytes - b0 >= 16L * n, "entropy", "%d generators read only %ld bytes of system entropy", n, vf_ent_bytes - b0); vf_cover_n("entropy bytes read", vf_ent_bytes - b0);
	vf_sample("%d generators of algorithm %d at one clock reading", n, alg);
}
CASE(R03, every_bit, 96, 2000, F_ENUM)	// each entropy bit changes the stream
{
	freeze(s); vf_ent_script_len = 256; for (int i = 0; i < 256; i++) vf_ent_script[i] = s.u8(); int alg = (int)idx & 3; bool shortr = idx & 4;
	vf_ent_mode = shortr ? 6 : 4; std::vector<Out> v; vf_script_reset(); v.push_back(fresh(alg)); vf_script_reset(); Out again = fresh(alg); if (again != v[0]) { COVER("something else than entropy and clock enters the seed"); vf_trivial(); return; }
	for (int k = 0; k < 64; k++) { int bit = (int)(idx / 8 * 64 + k) % 256; vf_ent_script[bit >> 3] ^= 1 << (bit & 7); vf_script_reset(); Out o = fresh(alg); CHECK(o != v[0], "entropy-ignored", "bit %d of the system entropy does not influence the stream%s", bit, shortr ? " (short reads)" : ""); v.push_back(o); vf_ent_script[bit >> 3] ^= 1 << (bit & 7); }
	all_distinct(v, shortr ? "each with one entropy bit changed, short reads" : "each with one entropy bit changed");
}
CASE(R03, faults, 400, 8000, 0)
{
	static const char *W[] = { "", "source cannot be opened", "short reads", "reads fail", "", "interrupted reads" }; static const int M[] = { 1, 2, 3, 5 };
	int mode = M[s.below(4)], alg = s.range(0, 3), fds = open_fds(); std::vector<Out> v; bool failed = false; freeze(s); vf_ent_mode = mode;
	if (mode == 2 || mode == 5) { for (int i = 0; i < 12; i++) v.push_back(fresh(alg, &failed)); }	// entropy is still there
	else { long long t = vf_clock_ns; for (int i = 0; i < 12; i++) { v.push_back(fresh(alg, &failed)); t += 1000000ll * (i < 6 ? 1 : s.range(1, 100000000)); vf_clock_ns = t; } }
	vf_ent_mode = 0;
	if (!failed) all_distinct(v, W[mode]); else COVERF("refused: %s", W[mode]);
	CHECK(open_fds() == fds, "fd-leak", "%d descriptors left open (%s)", open_fds() - fds, W[mode]);
}
CASE(R03, descriptors, 40, 400, 0)	// standard descriptors closed
{
	freeze(s); int which = s.range(1, 7), save[3], lim = 3; for (int i = 0; i < lim; i++) { save[i] = fcntl(i, F_DUPFD_CLOEXEC, 100); }
	for (int i = 0; i < lim; i++) if (which >> i & 1) close(i);
	std::vector<Out> v; std::string err; int fds = open_fds(); long b0 = vf_ent_bytes;
	try { for (int i = 0; i < 10; i++) v.push_back(fresh(s.range(0, 3))); } catch (CaseFail &f) { err = f.key; }
	int fds2 = open_fds(); for (int i = 0; i < lim; i++) if (save[i] >= 0) { dup2(save[i], i); close(save[i]); }
	CHECK(err.empty(), "error", "creating a generator with closed descriptors failed"); CHECK(fds == fds2, "fd-leak", "%d descriptors left open", fds2 - fds); CHECK(vf_ent_bytes - b0 >= 160, "entropy", "with descriptors %d closed only %ld bytes of entropy were read", which, vf_ent_bytes - b0);
	all_distinct(v, which & 1 ? "descriptor 0 closed" : "descriptors 1 or 2 closed");
}
static void *thr(void *p) { std::vector<Out> *v = (std::vector<Out> *)p; for (int i = 0; i < 8; i++) { struct RaRandom *r = NULL; if (RaRandomCreate((enum RaRandomAlgorithm)(i & 3), NULL, 0, &r) == 0) { Out o(40); RaRandomBytes(r, 40, o.data()); RaRandomDestroy(r); v->push_back(o); } } return NULL; }
CASE(R03, threads, 24, 400, 0) { freeze(s); int fds = open_fds(); std::vector<Out> v[8], all; pthread_t t[8]; for (int i = 0; i < 8; i++) pthread_create(&t[i], NULL, thr, &v[i]); for (int i = 0; i < 8; i++) { pthread_join(t[i], NULL); all.insert(all.end(), v[i].begin(), v[i].end()); } CHECK(all.size() == 64, "error", "only %zu of 64 generators were created", all.size()); all_distinct(all, "8 threads at one clock reading"); CHECK(open_fds() == fds, "fd-leak", "descriptors left open"); }
CASE(R03, forks, 24, 300, 0)
{
	freeze(s); std::vector<Out> v; fresh(0);	// also after the parent used the library
	for (int i = 0; i < 4; i++) { int p[2]; if (pipe(p)) return; pid_t pid = fork(); if (!pid) { struct RaRandom *r = NULL; uint8_t o[40]; int rc = RaRandomCreate((enum RaRandomAlgorithm)(i & 1), NULL, 0, &r); if (rc == 0) { RaRandomBytes(r, 40, o); if (write(p[1], o, 40) != 40) _exit(2); } _exit(0); } close(p[1]); Out o(40); ssize_t n = read(p[0], o.data(), 40); close(p[0]); int st; waitpid(pid, &st, 0); CHECK(n == 40, "error", "a forked process could not create a generator"); v.push_back(o); }
	v.push_back(fresh(0)); v.push_back(fresh(1)); all_distinct(v, "forked processes at one clock reading");
}
CASE(R03, implicit, 60, 1000, 0)	// calls that make their own generator
{
	freeze(s); int fds = open_fds(); std::vector<Out> v; for (int i = 0; i < 12; i++) { Out o(24); int rc = BnGenRandomByteArray(o.data(), 24, NULL); CHECK(rc == 0, "error", "%d", rc); v.push_back(o); } all_distinct(v, "implicit generators");
	v.clear(); for (int i = 0; i < 6; i++) { Num N(8); int rc = (i & 1 ? BnGenRandom : BnGetRandomRSA)(N, 192, NULL); CHECK(rc == 0, "error", "%d", rc); Bytes b = N.val().be(); v.push_back(b); } all_distinct(v, "implicit generators for numbers");
	CHECK(open_fds() == fds, "fd-leak", "descriptors left open");
}
CASE(R03, many, 4, 40, F_SLOW) { freeze(s); int fds = open_fds(), n = vf_asan() ? 500 : 5000; std::vector<Out> v; for (int i = 0; i < n; i++) v.push_back(fresh(i & 3)); all_distinct(v, "thousands in a row"); CHECK(open_fds() == fds, "fd-leak", "descriptors left open"); }
