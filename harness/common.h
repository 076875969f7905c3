// Shared machinery of all monitors: input source, oracle bookkeeping, case registry, guarded buffers.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <vector>
#include <string>
extern "C" {
#include <racrypt.h>
}
#include "vf_alloc.h"

typedef std::vector<uint8_t> Bytes;

static inline uint64_t vf_mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static inline uint64_t vf_hash(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
	return h;
}

// Source of choices. In campaign mode it is a seeded generator; in fuzz mode the given bytes come first.
struct Src {
	const uint8_t *p; size_t n, i; uint64_t st;
	Src(const uint8_t *d, size_t len) : p(d), n(len), i(0), st(vf_hash(d, len)) {}
	explicit Src(uint64_t seed) : p(NULL), n(0), i(0), st(seed) {}
	uint64_t rnd() { st += 0x9E3779B97F4A7C15ull; uint64_t x = st; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
	uint64_t take(int k) { if (i >= n) { uint64_t r = rnd(); return k >= 8 ? r : r & ((1ull << (8 * k)) - 1); } uint64_t v = 0; for (int j = 0; j < k; j++) v |= (uint64_t)(i < n ? p[i++] : 0) << (8 * j); return v; }
	uint8_t u8() { return (uint8_t)take(1); }
	uint16_t u16() { return (uint16_t)take(2); }
	uint32_t u32() { return (uint32_t)take(4); }
	uint64_t u64() { return take(8); }
	uint64_t below(uint64_t m) { if (m <= 1) return 0; if (m <= 256) return take(1) % m; if (m <= 65536) return take(2) % m; return take(8) % m; }
	int range(int a, int b) { return a + (int)below((uint64_t)(b - a) + 1); }
	bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
	void fill(uint8_t *b, size_t k) { size_t j = 0; for (; j < k && i < n; j++) b[j] = p[i++]; while (j < k) { uint64_t r = rnd(); size_t c = k - j < 8 ? k - j : 8; memcpy(b + j, &r, c); j += c; } }
	Bytes bytes(size_t k) { Bytes b(k); if (k) fill(&b[0], k); return b; }
	// bytes of varied texture: random, constant, sparse, ramps
	Bytes texture(size_t k)
	{
		Bytes b = Bytes(k);
		if (!k) return b;
		switch (below(6)) {
		case 0: case 1: case 2: fill(&b[0], k); break;
		case 3: memset(&b[0], u8() & 1 ? 0xff : 0x00, k); break;
		case 4: { memset(&b[0], 0, k); int c = range(1, 4); while (c--) b[below(k)] = u8(); break; }
		default: { uint8_t x = u8(), d = u8(); for (size_t j = 0; j < k; j++) { b[j] = x; x += d; } }
		}
		return b;
	}
};

struct CaseFail { std::string key; };
void vf_fail_case(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
extern uint64_t vf_evals;
// a deviation that known_findings.json may list under this id (a violation if it does not)
void vf_known(const char *id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void vf_cover(const char *name);
void vf_cover_n(const char *name, uint64_t n);
void vf_cover_max(const char *name, uint64_t v);
void vf_distinct(uint64_t h);	// one non-trivial input was tried
void vf_trivial(void);		// one trivial input was tried
void vf_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string vf_hex(const void *p, size_t n);
static inline std::string vf_hex(const Bytes &b) { return vf_hex(b.data(), b.size()); }

#define CHECK(cond, key, ...) do { vf_evals++; if (!(cond)) vf_fail_case(key, __VA_ARGS__); } while (0)
#define COVER(name) vf_cover(name)
// coverage bucket named at run time
#define COVERF(...) do { char nm_[96]; snprintf(nm_, sizeof nm_, __VA_ARGS__); vf_cover(nm_); } while (0)

typedef void (*CaseFn)(Src &s, uint64_t idx);
enum { F_ENUM = 1 /* idx enumerates; never scaled down */, F_FUZZ = 2 /* also a fuzz target */ , F_SLOW = 4 };
struct Case { const char *prop, *name; CaseFn fn; uint64_t quick, thorough; int flags; Case *next; };
void vf_register(Case *c);
#define CASE(prop_, name_, quick_, thorough_, flags_) \
	static void case_##prop_##_##name_(Src &s, uint64_t idx); \
	static Case reg_##prop_##_##name_ = { #prop_, #name_, case_##prop_##_##name_, quick_, thorough_, flags_, NULL }; \
	static struct Reg_##prop_##_##name_ { Reg_##prop_##_##name_() { vf_register(&reg_##prop_##_##name_); } } rg_##prop_##_##name_; \
	static void case_##prop_##_##name_(__attribute__((unused)) Src &s, __attribute__((unused)) uint64_t idx)
// the same body registered for another property
#define ALIAS(prop_, name_, fnprop_, quick_, thorough_, flags_) \
	static Case reg_##prop_##_##name_ = { #prop_, #name_, case_##fnprop_##_##name_, quick_, thorough_, flags_, NULL }; \
	static struct Reg_##prop_##_##name_ { Reg_##prop_##_##name_() { vf_register(&reg_##prop_##_##name_); } } rg_##prop_##_##name_;
const char *vf_prop(void);	// property being checked by this run
extern "C" int vf_ndebug;	// the library was compiled with assertions off
int vf_tier(void);			// 0 quick, 1 thorough
// a result that has to be the same in every configuration (of the same group, if one is given)
void vf_trace(const char *name, uint64_t idx, uint64_t h, const char *group = "");

extern "C" void __asan_init(void) __attribute__((weak));
static inline bool vf_asan(void) { return &__asan_init != NULL; }

// Buffer of exactly n usable bytes at a chosen alignment with canaries on both sides (ASan sees the end exactly).
struct Buf {
	uint8_t *raw, *p; size_t n; int off;
	static const int CAN = 32;
	explicit Buf(size_t len, int align_off = 0, int fillv = 0xC3) : n(len), off(align_off & 15)
	{
		// under AddressSanitizer the block ends exactly at the end of the buffer
		raw = (uint8_t *)malloc(CAN + off + len + (vf_asan() ? 0 : CAN));
		p = raw + CAN + off;
		memset(raw, 0x5B, CAN + off); if (len) memset(p, fillv, len);
		if (!vf_asan()) memset(p + len, 0x5B, CAN);
	}
	void check(const char *what)
	{
		vf_evals++;
		for (int j = 0; j < CAN + off; j++) if (raw[j] != 0x5B) vf_fail_case("overrun", "%s: byte %d before the buffer was overwritten", what, CAN + off - j);
		if (!vf_asan()) for (int j = 0; j < CAN; j++) if (p[n + j] != 0x5B) vf_fail_case("overrun", "%s: byte %d past the end of a %zu byte buffer was overwritten", what, j, n);
	}
	// bytes [from,n) still carry the fill value
	bool untouched(size_t from, int fillv = 0xC3) { for (size_t j = from; j < n; j++) if (p[j] != (uint8_t)fillv) return false; return true; }
	~Buf() { free(raw); }
private:
	Buf(const Buf &); Buf &operator=(const Buf &);
};
#endif
