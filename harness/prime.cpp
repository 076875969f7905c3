// P01, P02: primality decisions and prime generation, judged by OpenSSL's test.
#include "env.h"
#include <set>
#include <limits.h>

static int isprime(Src &s, const Z &n)
{
	reseed(s);
	Num N(n); int rc = RaIsPrimeNumber(N);
	CHECK(N.val() == n, "operand-changed", "RaIsPrimeNumber changed its argument %.100s", n.str().c_str());
	return rc;
}
static void must_prime(Src &s, const Z &n, const char *what)
{
	int rc = isprime(s, n);
	CHECK(rc == 0, "prime-rejected", "the %d-bit prime %.300s (%s) was rejected with %d", n.bits(), n.str().c_str(), what, rc);
	COVERF("prime accepted: %s", what); vf_distinct(zh(n)); vf_sample("%s %.60s", what, n.str().c_str());
}
static void must_composite(Src &s, const Z &n, const char *what)
{
	int rc = isprime(s, n);
	vf_evals++;
	if (rc == 0) {
		// a random-base test errs with probability at most 4^-3 per call: ask again, independently
		int acc = 0; for (int i = 0; i < 16; i++) acc += isprime(s, n) == 0;
		COVER("composite accepted at first (random-base error)");
		CHECK(acc < 6, "composite-accepted", "%.300s (%d bits, %s) was called prime, and again in %d of 16 further tests", n.str().c_str(), n.bits(), what, acc);
	} else CHECK(rc == RA_ERR_INVALID_DATA, "error", "the test of %.100s returned %d", n.str().c_str(), rc);
	COVERF("composite rejected: %s", what); vf_distinct(zh(n)); vf_sample("%s %.60s", what, n.str().c_str());
}
static void judge(Src &s, const Z &n, const char *what) { if (zprime(n)) must_prime(s, n, what); else must_composite(s, n, what); }

CASE(P01, small, 400, 6000, F_ENUM) { for (int i = 0; i < 64; i++) { Z n((long long)(idx * 64 + i)); judge(s, n, n.bits() <= 8 ? "all below 256" : "all small numbers"); } if (idx < 4) for (int i = 1; i < 64; i++) must_composite(s, -Z((long long)(idx * 64 + i)), "negative number"); }
// every bit length: primes and near misses around the ends of the length and at random
CASE(P01, lengths, 700, 2100, F_ENUM)
{
	int b = 2 + (int)idx % 700;
	for (int k = 0; k < (b < 160 ? 3 : 1); k++) must_prime(s, gprime(s, b), "random of every length");
	Z lo = Z::pow2(b - 1), hi = Z::pow2(b) - Z(1);
	for (int i = 1; i < 8; i += 2) { judge(s, lo + Z(i), "just above a power of two"); if (b > 4) judge(s, hi - Z(i - 1), "just below a power of two"); }
	must_composite(s, lo + lo, "power of two"); if (b > 3) must_composite(s, lo + Z(2), "even");
	if (idx % 700 % 20 == 3) { Z p = lo + Z(1); while (!zprime(p)) p = p + Z(2); must_prime(s, p, "first of a length"); p = hi; while (!zprime(p)) p = p - Z(2); must_prime(s, p, "last of a length"); }
}
CASE(P01, semiprimes, 6000, 100000, 0)
{
	int b = s.range(3, s.chance(1, 6) ? 260 : 70); Z p = gprime(s, b), q = gprime(s, s.chance(1, 2) ? b : s.range(3, 70));
	must_composite(s, p * q, "semiprime"); must_composite(s, p * p, "prime square"); must_composite(s, p * p * p, "prime cube"); must_composite(s, p * Z(s.range(2, 400)), "small factor");
	Z m = gnat(s, glen(s, 6)); if (m.odd()) judge(s, m, "textured odd number"); else must_composite(s, m == Z(2) ? Z(4) : m, "textured even number");
}
// n - 1 divisible by a high power of two, around word boundaries
CASE(P01, proth, 280, 6000, F_ENUM)
{
	static const int S[] = { 1, 2, 3, 15, 16, 31, 32, 33, 47, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 160, 191, 192, 193, 255, 256, 257, 320 };
	int e = idx < 140 ? S[idx % 28] : (int)s.range(2, 330), kb = s.range(1, 40); Z two = Z::pow2(e);
	Z k = Z::U((s.u64() >> (64 - kb)) | 1); for (;; k = k + Z(2)) { Z n = k * two + Z(1); if (zprime(n)) { must_prime(s, n, e < 32 ? "k*2^s+1, s < 32" : e < 64 ? "k*2^s+1, s < 64" : e == 64 ? "k*2^s+1, s = 64" : "k*2^s+1, s > 64"); break; } if (s.chance(1, 2)) must_composite(s, n, e < 32 ? "k*2^s+1, s < 32" : e < 64 ? "k*2^s+1, s < 64" : e == 64 ? "k*2^s+1, s = 64" : "k*2^s+1, s > 64"); }
	for (k = Z::U((s.u64() >> (64 - kb)) | 1);; k = k + Z(2)) { Z n = k * two - Z(1); if (n.bits() > 1 && zprime(n)) { must_prime(s, n, "k*2^s-1"); break; } }
}
CASE(P01, special, 1, 4, F_ENUM)
{
	for (int e : { 2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607 }) must_prime(s, Z::pow2(e) - Z(1), "Mersenne");
	if (vf_tier()) for (int e : { 1279, 2203 }) must_prime(s, Z::pow2(e) - Z(1), "Mersenne");
	for (int e : { 11, 23, 29, 37, 41, 43, 47, 53, 59, 67, 71, 73, 79, 83, 97, 101, 103, 109, 113, 131, 137, 251, 257 }) must_composite(s, Z::pow2(e) - Z(1), "Mersenne composite");
	for (int e : { 1, 2, 4, 8, 16 }) must_prime(s, Z::pow2(e) + Z(1), "Fermat");
	for (int e : { 32, 64, 128, 256, 512 }) must_composite(s, Z::pow2(e) + Z(1), "Fermat composite");
	static const unsigned long long PSP[] = { 2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 25326001, 3215031751ull, 2152302898747ull, 3474749660383ull, 341550071728321ull, 3825123056546413051ull, 1194649, 12327121, 341, 561, 645, 1105, 1387, 1729, 1905, 2465, 2701, 2821, 6601, 8911, 10585, 41041, 62745, 162401, 825265, 321197185ull, 9746347772161ull, 1436697831295441ull, 60977817398996785ull, 7156857700403137441ull, 4295098369ull, 18446744073709551557ull - 4 };
	for (auto x : PSP) if (!zprime(Z::U(x))) must_composite(s, Z::U(x), "pseudoprime");
	must_composite(s, zhex("42928D2A2CB0BC1F40CDB4D6E7D3B6EF") * Z(3), "multiple of 3");
	must_prime(s, Z::U(18446744073709551557ull), "largest 64-bit"); must_prime(s, Z::U(4294967291u), "largest 32-bit"); must_prime(s, Z::U(4294967311ull), "first above 2^32"); must_prime(s, Z::pow2(64) + Z(13), "first above 2^64");
	// RFC 3526 / well-known moduli
	must_prime(s, Z::pow2(255) - Z(19), "2^255-19"); must_prime(s, Z::pow2(521) - Z(1), "P-521"); must_prime(s, Z::pow2(256) - Z::pow2(224) + Z::pow2(192) + Z::pow2(96) - Z(1), "P-256"); must_prime(s, Z::pow2(384) - Z::pow2(128) - Z::pow2(96) + Z::pow2(32) - Z(1), "P-384"); must_prime(s, Z::pow2(224) - Z::pow2(96) + Z(1), "P-224"); must_prime(s, Z::pow2(192) - Z::pow2(64) - Z(1), "P-192");
	{ Z m; BN_get_rfc2409_prime_768(m.v); must_prime(s, m, "RFC 2409 768"); BN_get_rfc2409_prime_1024(m.v); must_prime(s, m, "RFC 2409 1024"); if (vf_tier()) { BN_get_rfc3526_prime_2048(m.v); must_prime(s, m, "RFC 3526 2048"); } must_composite(s, m * Z(7), "large with factor 7"); must_composite(s, m - Z(2), "large"); }
	COVER("special numbers done");
}
CASE(P01, carmichael, 600, 10000, 0)
{
	// (6k+1)(12k+1)(18k+1), Carmichael when all three are prime
	int kb = s.range(4, s.chance(1, 4) ? 60 : 24); Z k = Z::U((s.u64() >> (64 - kb)) | 1);
	for (int i = 0; i < 60000; i++, k = k + Z(1)) {
		Z a = Z(6) * k + Z(1); uint64_t r = a.mod(1155); if (r % 3 == 0 || r % 5 == 0 || r % 7 == 0 || r % 11 == 0) continue; if (!zprime(a)) continue;
		Z b = Z(12) * k + Z(1); if (!zprime(b)) continue; Z c = Z(18) * k + Z(1); if (!zprime(c)) continue;
		must_composite(s, a * b * c, "Carmichael"); return;
	}
	vf_trivial();
}
CASE(P01, worst, 400, 8000, 0)
{
	// (2k+1)(4k+1), k odd: a quarter of all bases lie
	int kb = s.range(4, s.chance(1, 4) ? 120 : 40); Z k = gprime(s, kb);
	for (int i = 0; i < 40000; i++, k = k + Z(2)) { Z p = k + k + Z(1); if (p.mod(3) == 0 || p.mod(5) == 0 || !zprime(p)) continue; Z q = p + p - Z(1); if (!zprime(q)) continue; must_composite(s, p * q, "worst case"); return; }
	vf_trivial();
}
// how often the worst composites pass must stay within the bound that the number of rounds promises
static void error_rate(Src &s, const char *hex, int trials, int limit, const char *what)
{
	Z k = zhex(hex), n = (k + k + Z(1)) * (k + k + k + k + Z(1)); Num N(n); int acc = 0;
	for (int i = 0; i < trials; i++) { reseed(s); acc += RaIsPrimeNumber(N) == 0; vf_evals++; }
	vf_cover_n(what, trials); vf_cover_max((std::string(what) + ": most accepted").c_str(), acc); vf_distinct(zh(n, s.rnd()));
	CHECK(acc <= limit, "error-rate", "the %d-bit composite %.200s passed %d of %d tests (%s; at most %d expected)", n.bits(), n.str().c_str(), acc, trials, what, limit);
}
CASE(P01, error_rate, 8, 80, F_SLOW)
{
	if (idx % 8 == 7) error_rate(s, "72C66D0A95E60AF593BD04CF0FD630F1F29D0DA9953F48F1A09F76B5A170B33839263059F28C105D1FB17C2390C192CFD3AC94AF0F21DDB66CAD4A268D11A8F1", vf_asan() ? 130 : 1000, vf_asan() ? 18 : 45, "trials at 1025 bits");	// 4^-3: 15.6 expected
	else error_rate(s, idx & 1 ? "A69E0D3F2A74F2D" : idx & 2 ? "928B2F30C5C7FD0A6A3A45065132B8F" : "D2E6BCB", vf_asan() ? 4000 : 20000, vf_asan() ? 19 : 50, "trials at 59 to 250 bits");	// 4^-5: 19.5 expected
}
// numbers k*2^s+1 with a tiny k are strong pseudoprimes to base 2: only bases from the whole range tell
CASE(P01, tinyodd, 5, 40, F_SLOW)
{
	static const int E[] = { 32, 64, 128, 256, 512 }; int e = E[idx % 5], trials = e <= 128 ? (vf_asan() ? 300 : 1200) : e == 256 ? 300 : 120, acc = 0;
	Z n = Z::pow2(e) + Z(1); Num N(n);
	for (int i = 0; i < trials; i++) { reseed(s); int rc = RaIsPrimeNumber(N); vf_evals++; acc += rc == 0; }
	vf_cover_n("trials of Fermat composites", trials); vf_cover_max("Fermat composites: most accepted", acc); vf_distinct(zh(n, s.rnd()));
	CHECK(acc <= 3, "error-rate", "the composite 2^%d+1 passed %d of %d tests", e, acc, trials);
}
// small composites: the share of runs that pass is at most what five independent, uniformly drawn bases allow
CASE(P01, rates, 60, 1200, 0)
{
	double want = 0; int got = 0, runs = 0;
	for (int k = 0; k < 12; k++) {
		uint32_t n = s.range(4, 400) * 2 + 1; if (zprime(Z::U(n))) continue;
		uint32_t d = n - 1, e = 0; while (!(d & 1)) { d >>= 1; e++; }
		uint32_t liars = 0; for (uint32_t a = 2; a < n - 1; a++) { uint64_t x = 1, b = a; for (uint32_t t = d; t; t >>= 1) { if (t & 1) x = x * b % n; b = b * b % n; } bool l = x == 1 || x == n - 1; for (uint32_t i = 1; i < e && !l; i++) { x = x * x % n; l = x == n - 1; } liars += l; }
		double f = (double)liars / (n - 3); Num N(Z::U(n)); int t = 40;
		for (int i = 0; i < t; i++) { reseed(s); got += RaIsPrimeNumber(N) == 0; vf_evals++; }
		want += t * f * f * f * f * f; runs += t; vf_distinct(n);
	}
	CHECK(got <= want * 3 + 12, "error-rate", "small composites passed %d of %d tests, five uniform bases would let %.2f pass", got, runs, want);
	vf_cover_n("runs on small composites", runs); vf_cover_n("runs on small composites that passed", got);
}
CASE(P01, big, 24, 600, F_SLOW)
{
	int b = s.chance(1, 2) ? 1020 + (int)idx % 12 : s.range(700, 1300);
	if (s.chance(1, 3)) must_prime(s, gprime(s, b), "around 1024 bits"); Z m = gprime(s, b / 2) * gprime(s, b - b / 2); must_composite(s, m, "semiprime around 1024 bits"); must_composite(s, m - Z(1), "even around 1024 bits");
}

// ---- P02 ----
struct Prog { std::vector<int> calls; int cancel_at; struct RaRandom *rnd, snap; };
static int on_prog(int count, void *u)
{
	Prog *p = (Prog *)u; p->calls.push_back(count);
	if (p->rnd) p->snap = *p->rnd;
	static const int STOP[] = { 1, -1, 2, INT_MIN, 256, -7, INT_MAX, 0x10000 };
	return p->cancel_at && (int)p->calls.size() >= p->cancel_at ? STOP[(count + p->cancel_at) & 7] : 0;
}
static struct RaRandom *seeded(Src &s, Bytes &seed, int &alg) { struct RaRandom *r = NULL; CHECK(RaRandomCreate((enum RaRandomAlgorithm)alg, seed.data(), (int)seed.size(), &r) == 0, "error", "RaRandomCreate"); return r; }
static void generate(Src &s, int bits)
{
	Bytes seed = s.bytes(s.range(1, 40)); int alg = s.range(0, 3); Prog p = { {}, 0, NULL };
	int extra = s.chance(1, 2) ? 0 : s.range(1, 2);
	Num N((bits + WBIT - 1) / WBIT + extra); N.dirty(gword(s));
	struct RaRandom *r = seeded(s, seed, alg);
	int rc = RaGenPrimeNumberEx(N, bits, on_prog, &p, r); RaRandomDestroy(r);
	CHECK(rc == 0, "error", "generating a %d-bit prime returned %d", bits, rc); zcanon(N, "RaGenPrimeNumberEx");
	Z n = N.val();
	CHECK(n.bits() == bits, "size", "asked for %d bits, got %d: %.200s", bits, n.bits(), n.str().c_str());
	CHECK(zprime(n), "composite", "the generated %d-bit number %.300s is composite", bits, n.str().c_str());
	CHECK(!p.calls.empty(), "progress", "the callback was never called");
	for (size_t i = 0; i < p.calls.size(); i++) CHECK(p.calls[i] == (int)i + 1, "progress", "call %zu of the callback got count %d", i + 1, p.calls[i]);
	vf_cover_max("attempts for one prime", p.calls.size()); vf_cover_n("attempts", p.calls.size()); COVERF("bits %s", bits < 17 ? "2-16" : bits < 33 ? "17-32" : bits < 65 ? "33-64" : bits < 129 ? "65-128" : bits < 513 ? "129-512" : "513+");
	vf_distinct(zh(n, vf_hash(seed.data(), seed.size(), bits)));
	vf_sample("%d bits: %.60s after %zu attempts", bits, n.str().c_str(), p.calls.size());
	// the same generator gives the same prime, whatever the callback
	Num M((bits + WBIT - 1) / WBIT + s.range(0, 2)); M.dirty(gword(s)); r = seeded(s, seed, alg); rc = RaGenPrimeNumberEx(M, bits, NULL, NULL, r); RaRandomDestroy(r);
	CHECK(rc == 0 && M.val() == n, "not-reproducible", "a generator with the same seed gave another %d-bit prime", bits);
	// cancel at every point that run reached
	int total = (int)p.calls.size(), at = s.chance(1, 2) ? total : s.range(1, total);
	for (int k = 0; k < 2; k++, at = k == 1 ? 1 : at) {
		Prog c = { {}, at, NULL }; r = seeded(s, seed, alg); c.rnd = r; bool own = s.chance(1, 4);
		if (own) { c.rnd = NULL; c.cancel_at = 1; reseed(s); }
		rc = RaGenPrimeNumberEx(M, bits, on_prog, &c, own ? NULL : r);
		CHECK(rc != 0, "cancel-success", "generation cancelled at call %d of %d reported success", at, total);
		CHECK((int)c.calls.size() == c.cancel_at, "cancel-late", "the callback asked to stop at call %d and was called %zu times", c.cancel_at, c.calls.size());
		if (!own) CHECK(!memcmp(r, &c.snap, sizeof *r), "cancel-late", "generation went on after the callback asked to stop");
		RaRandomDestroy(r); COVER(at == total ? "cancelled before the last attempt" : at == 1 ? "cancelled before the first attempt" : "cancelled between attempts");
	}
	// cancelling later than needed changes nothing
	{ Prog c = { {}, total + 1, NULL }; r = seeded(s, seed, alg); rc = RaGenPrimeNumberEx(M, bits, on_prog, &c, r); RaRandomDestroy(r); CHECK(rc == 0 && M.val() == n && (int)c.calls.size() == total, "not-reproducible", "a callback that would stop after call %d changed the result", total); }
}
CASE(P02, lengths, 330, 1200, F_ENUM) { generate(s, 2 + (int)idx % 330); }
CASE(P02, small, 8000, 200000, 0) { generate(s, s.range(2, s.chance(1, 2) ? 12 : 72)); }
CASE(P02, boundary, 700, 20000, 0) { static const int B[] = { 17, 18, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 159, 160, 161, 191, 192, 193, 255, 256, 257 }; generate(s, B[idx % 23]); }
CASE(P02, large, 60, 1000, F_SLOW) { generate(s, s.chance(1, 4) ? s.range(400, 640) : s.range(330, 480)); }
CASE(P02, huge, 1, 24, F_SLOW) { if (!vf_tier() && vf_asan()) { vf_trivial(); return; } generate(s, 1020 + (int)idx % 8); }
CASE(P02, attempts, 1, 8, F_SLOW)
{
	int sum = 0; for (int i = 0; i < 40; i++) { Bytes seed = s.bytes(20); int alg = 0; Prog p = { {}, 0, NULL }; struct RaRandom *r = seeded(s, seed, alg); Num N(256 / WBIT); int rc = RaGenPrimeNumberEx(N, 256, on_prog, &p, r); RaRandomDestroy(r); CHECK(rc == 0, "error", "%d", rc); sum += (int)p.calls.size(); vf_distinct(zh(N.val())); }
	CHECK(sum >= 80, "progress", "40 primes of 256 bits took only %d attempts: the callback is not called before each", sum); vf_cover_max("attempts for 40 primes of 256 bits", sum);
}
// seeds with which a prime takes more than 127 and more than 255 attempts
CASE(P02, manyattempts, 4, 10, F_ENUM)
{
	static const struct { int bits; const char *seed; } T[] = { { 768, "19" }, { 1024, "986" }, { 1024, "717" }, { 1024, "2994" } };
	if (vf_asan() && !vf_tier() && idx) { vf_trivial(); return; }
	int bits; Bytes seed; if (idx < 4) { bits = T[idx].bits; seed.assign(T[idx].seed, T[idx].seed + strlen(T[idx].seed)); } else { bits = 1024; seed = s.bytes(12); }
	int n[2]; Z v[2]; Prog p = { {}, 0, NULL };
	for (int k = 0; k < 2; k++) {
		p.calls.clear(); if (k) p.cancel_at = n[0]; Num N(bits / WBIT); struct RaRandom *r = NULL; CHECK(RaRandomCreate(RA_RAND_SHA256, seed.data(), (int)seed.size(), &r) == 0, "error", "RaRandomCreate");
		int rc = RaGenPrimeNumberEx(N, bits, on_prog, &p, r); RaRandomDestroy(r);
		if (!k) { CHECK(rc == 0, "error", "generating a %d-bit prime returned %d", bits, rc); Z x = N.val(); CHECK(x.bits() == bits && zprime(x), "composite", "generated %d bits: %.300s", x.bits(), x.str().c_str()); }
		else CHECK(rc != 0, "cancel-success", "generation cancelled at call %d reported success", n[0]);
		n[k] = (int)p.calls.size(); for (int i = 0; i < n[k]; i++) CHECK(p.calls[i] == i + 1, "progress", "call %d of the callback got count %d", i + 1, p.calls[i]); vf_distinct(vf_hash(seed.data(), seed.size(), bits + k));
	}
	CHECK(n[1] == n[0], "cancel-late", "the callback asked to stop at call %d and was called %d times", n[0], n[1]);
	vf_cover_max("attempts for one prime", n[0]); if (n[0] > 127) COVER("a prime of more than 127 attempts"); if (n[0] > 255) COVER("a prime of more than 255 attempts");
}
// the first draws are at the very top of the range, where the search for a prime runs out of it
CASE(P02, top, 3000, 60000, 0)
{
	int alg = s.range(0, 3), bits = 0; Bytes seed = s.bytes(9); struct RaRandom *r = seeded(s, seed, alg); int room = r->buffer_len;
	switch (s.below(3)) { case 0: bits = s.range(2, 40); break; case 1: bits = std::min(8 * room, 64 * s.range(1, 8)) + s.range(-1, 0); break; default: bits = s.range(41, 8 * room); }
	int one = (bits + 7) / 8, draws = s.range(1, std::max(1, room / one)), n = std::min(room, one * draws); r->buffer_offset = room - n; memset(r->buffer + r->buffer_offset, 0xff, n);
	for (int k = 0; k < draws; k++) if (s.chance(1, 2)) { int at = r->buffer_offset + k * one; if (at + one <= room) r->buffer[s.chance(1, 2) ? at : at + one - 1] = s.chance(1, 2) ? s.u8() : (uint8_t)(0xff - s.below(8)); }
	Prog p = { {}, 0, NULL }; Num N((bits + WBIT - 1) / WBIT); N.dirty(gword(s)); int rc = RaGenPrimeNumberEx(N, bits, on_prog, &p, r); RaRandomDestroy(r); CHECK(rc == 0, "error", "generating a %d-bit prime from draws at the top of the range returned %d", bits, rc); zcanon(N, "RaGenPrimeNumberEx"); Z v = N.val();
	CHECK(v.bits() == bits, "size", "asked for %d bits, got %d: %.200s (draws at the top of the range)", bits, v.bits(), v.str().c_str()); CHECK(zprime(v), "composite", "the generated %d-bit number %.300s is composite", bits, v.str().c_str()); for (size_t i = 0; i < p.calls.size(); i++) CHECK(p.calls[i] == (int)i + 1, "progress", "call %zu of the callback got count %d", i + 1, p.calls[i]);
	COVER("draws at the top of the range"); vf_distinct(zh(v, bits));
}
CASE(P02, misuse, 60, 1000, 0)
{
	Bytes seed = s.bytes(8); int alg = 0; struct RaRandom *r = seeded(s, seed, alg); Num N(4);
	for (int b : { 1, 0, -1 }) { int rc = RaGenPrimeNumberEx(N, b, NULL, NULL, r); CHECK(rc != 0, "bad-size-accepted", "a prime of %d bits was generated", b); }
	if (vf_ndebug) { int b = N->max_length * WBIT + s.range(1, 200); int rc = RaGenPrimeNumberEx(N, b, NULL, NULL, r); CHECK(rc != 0, "bad-size-accepted", "a prime of %d bits was put into %d words", b, N->max_length); reseed(s); rc = RaGenPrimeNumberEx(N, b, NULL, NULL, NULL); CHECK(rc != 0, "bad-size-accepted", "a prime of %d bits was put into %d words", b, N->max_length); COVER("number too small for the prime"); }
	RaRandomDestroy(r); COVER("invalid sizes refused"); vf_distinct(vf_hash(seed.data(), 8));
}
CASE(P02, unseeded, 400, 8000, 0)
{
	int bits = s.range(64, 160); Num A((bits + WBIT - 1) / WBIT), B((bits + WBIT - 1) / WBIT);
	int rc = RaGenPrimeNumber(A, bits); CHECK(rc == 0, "error", "RaGenPrimeNumber(%d) returned %d", bits, rc); rc = RaGenPrimeNumber(B, bits); CHECK(rc == 0, "error", "RaGenPrimeNumber(%d) returned %d", bits, rc);
	Z a = A.val(), b = B.val(); CHECK(a.bits() == bits && b.bits() == bits, "size", "asked for %d bits, got %d and %d", bits, a.bits(), b.bits()); CHECK(zprime(a) && zprime(b), "composite", "RaGenPrimeNumber(%d) gave a composite", bits);
	CHECK(a != b, "repeated", "two unseeded generations of %d bits gave the same prime", bits); vf_distinct(zh(a)); COVER("unseeded generation");
}
