// Big-number oracle: OpenSSL BIGNUM behind a value type, and a guarded RaBigNumber.
#ifndef VF_BNREF_H
#define VF_BNREF_H
#include "common.h"
#include <openssl/bn.h>
#include <algorithm>
static const int WB = BN_WORD_BYTE, WBIT = BN_WORD_BYTE * 8;
static const bn_uint_t WMAX = (bn_uint_t)~(bn_uint_t)0, WHALF = (bn_uint_t)1 << (BN_WORD_BYTE * 8 - 1);
static inline BN_CTX *zctx() { static BN_CTX *c = BN_CTX_new(); return c; }
struct Z {
	BIGNUM *v;
	Z() : v(BN_new()) {}
	Z(long long x) : v(BN_new()) { BN_set_word(v, x < 0 ? 0 - (unsigned long long)x : (unsigned long long)x); BN_set_negative(v, x < 0); }
	Z(const Z &o) : v(BN_dup(o.v)) {}
	Z(Z &&o) : v(o.v) { o.v = NULL; }
	Z &operator=(const Z &o) { if (this != &o) BN_copy(v, o.v); return *this; }
	Z &operator=(Z &&o) { std::swap(v, o.v); return *this; }
	~Z() { BN_free(v); }
	static Z U(uint64_t x) { Z r; BN_set_word(r.v, x); return r; }
	static Z words(const bn_uint_t *d, int n) { Z r; BN_lebin2bn((const unsigned char *)d, n * WB, r.v); return r; }
	static Z pow2(int k) { Z r; BN_set_bit(r.v, k); return r; }
	int bits() const { return BN_num_bits(v); }
	bool zero() const { return BN_is_zero(v); }
	bool neg() const { return BN_is_negative(v); }
	bool odd() const { return BN_is_odd(v); }
	Z abs() const { Z r(*this); BN_set_negative(r.v, 0); return r; }
	Z operator-() const { Z r(*this); BN_set_negative(r.v, !neg()); return r; }
	int nwords() const { int n = (bits() + WBIT - 1) / WBIT; return n < 1 ? 1 : n; }
	uint64_t mod(uint64_t w) const { Z r; BN_nnmod(r.v, v, U(w).v, zctx()); return BN_get_word(r.v); }
	std::string str() const { char *c = BN_bn2hex(v); std::string s(c); OPENSSL_free(c); return s; }
	Bytes be() const { Bytes b(BN_num_bytes(v)); if (b.size()) BN_bn2bin(v, b.data()); return b; }
};
static inline Z operator+(const Z &a, const Z &b) { Z r; BN_add(r.v, a.v, b.v); return r; }
static inline Z operator-(const Z &a, const Z &b) { Z r; BN_sub(r.v, a.v, b.v); return r; }
static inline Z operator*(const Z &a, const Z &b) { Z r; BN_mul(r.v, a.v, b.v, zctx()); return r; }
static inline bool operator==(const Z &a, const Z &b) { return BN_cmp(a.v, b.v) == 0; }
static inline bool operator!=(const Z &a, const Z &b) { return BN_cmp(a.v, b.v) != 0; }
static inline bool operator<(const Z &a, const Z &b) { return BN_cmp(a.v, b.v) < 0; }
static inline int zcmp(const Z &a, const Z &b) { return BN_cmp(a.v, b.v); }
// truncating division (C semantics)
static inline void zdiv(const Z &a, const Z &b, Z &q, Z &r) { BN_div(q.v, r.v, a.v, b.v, zctx()); }
static inline Z zgcd(const Z &a, const Z &b) { Z r; BN_gcd(r.v, a.v, b.v, zctx()); return r; }
static inline Z zpow(const Z &a, const Z &e, const Z &m) { Z r; BN_mod_exp_simple(r.v, a.v, e.v, m.v, zctx()); return r; }
static inline Z zmod(const Z &a, const Z &m) { Z r; BN_nnmod(r.v, a.v, m.v, zctx()); return r; }
static inline Z zshl(const Z &a, int k) { Z r; BN_lshift(r.v, a.v, k); return r; }
static inline Z zshr(const Z &a, int k) { Z r; BN_rshift(r.v, a.v, k); return r; }	// on the magnitude

// value of a library number
static inline Z zval(const struct RaBigNumber *b) { Z r = Z::words(b->data, b->length); if (b->sign) BN_set_negative(r.v, 1); return r; }
static inline void zcanon(const struct RaBigNumber *b, const char *what)
{
	CHECK(b->length >= 1 && b->length <= b->max_length, "canonical", "%s: length %d outside 1..%d", what, b->length, b->max_length);
	CHECK(b->length == 1 || b->data[b->length - 1] != 0, "canonical", "%s: leading zero word in a number of %d words", what, b->length);
	CHECK(b->sign == 0 || b->sign == 1, "canonical", "%s: sign is %d", what, b->sign);
	CHECK(!(b->sign && b->length == 1 && b->data[0] == 0), "canonical", "%s: negative zero", what);
}
// A library number of a chosen capacity. Words above the value hold garbage.
struct Num {
	struct RaBigNumber *b;
	explicit Num(int cap) { b = BnNewW(cap); if (!b) abort(); for (int i = 0; i < b->max_length; i++) b->data[i] = (bn_uint_t)0xD1D2D3D4D5D6D7D8ull; b->length = 1; }
	Num(const Z &z, int cap = 0) { int n = z.nwords(); if (cap < n) cap = n; b = BnNewW(cap); if (!b) abort(); for (int i = 0; i < b->max_length; i++) b->data[i] = (bn_uint_t)0xD1D2D3D4D5D6D7D8ull; set(z); }
	void set(const Z &z) { int n = z.nwords(); if (n > b->max_length) abort(); memset(b->data, 0, n * WB); BN_bn2lebinpad(z.v, (unsigned char *)b->data, n * WB); b->length = n; b->sign = z.neg() && !z.zero(); }
	void dirty(bn_uint_t w) { for (int i = 0; i < b->max_length; i++) b->data[i] = w; b->length = b->max_length; b->sign = (int)(w & 1); }
	operator struct RaBigNumber *() { return b; }
	struct RaBigNumber *operator->() { return b; }
	Z val() const { return zval(b); }
	~Num() { BnFree(b); }
private: Num(const Num &); Num &operator=(const Num &);
};
static inline bn_uint_t gword(Src &s)
{
	switch (s.below(12)) {
	case 0: return 0; case 1: return 1; case 2: return WMAX; case 3: return WMAX - 1; case 4: return WHALF; case 5: return WHALF - 1; case 6: return WHALF + 1;
	case 7: return (bn_uint_t)1 << s.below(WBIT); case 8: return ((bn_uint_t)1 << s.below(WBIT)) - 1; case 9: return (bn_uint_t)s.u8();
	default: return (bn_uint_t)s.u64();
	}
}
static inline int glen(Src &s, int maxw)
{
	int m = s.below(8);
	int n = m < 3 ? s.range(1, 3) : m < 6 ? s.range(1, 8) : m == 6 ? s.range(1, 20) : s.range(1, maxw);
	return n < maxw ? n : maxw;
}
static inline Z gnat(Src &s, int nw)
{
	std::vector<bn_uint_t> d(nw, 0);
	switch (s.below(12)) {
	case 0: return Z();
	case 1: return Z::U(gword(s));
	case 2: for (auto &x : d) x = WMAX; break;
	case 3: return Z::pow2((int)s.below(nw * WBIT));
	case 4: return Z::pow2((int)s.range(0, nw * WBIT)) - Z(1);
	case 5: return Z::pow2((int)s.below(nw * WBIT)) + Z(1);
	case 6: case 7: for (auto &x : d) x = gword(s); break;
	case 8: { int k = s.range(0, nw); for (int i = 0; i < nw; i++) d[i] = i < k ? 0 : gword(s); break; }		// low zero words
	case 9: { int i = 0; while (i < nw) { int k = s.range(1, 4); bn_uint_t w = s.chance(1, 2) ? WMAX : s.chance(1, 2) ? 0 : (bn_uint_t)s.u64(); while (k-- && i < nw) d[i++] = w; } break; }
	default: for (auto &x : d) x = (bn_uint_t)s.u64();
	}
	return Z::words(d.data(), nw);
}
static inline Z gint(Src &s, int nw) { Z z = gnat(s, nw); return s.chance(1, 2) ? -z : z; }
static inline uint64_t zh(const Z &z, uint64_t h = 0x1234) { Bytes b = z.be(); return vf_hash(b.data(), b.size(), h * 3 + z.neg()); }
#define ZEQ(got, want, key, ...) do { Z w_ = (want), g_ = (got); vf_evals++; if (g_ != w_) { char m_[256]; snprintf(m_, sizeof m_, __VA_ARGS__); vf_fail_case(key, "%s: got %.200s, exact result is %.200s", m_, g_.str().c_str(), w_.str().c_str()); } } while (0)
#endif
