// RSA keys made by the harness, DER/BER encoders and readers independent of the library.
#ifndef VF_RSAKEY_H
#define VF_RSAKEY_H
#define OPENSSL_SUPPRESS_DEPRECATED
#include "env.h"
#include <functional>
typedef struct RaRsaKeyPair Rsa;
enum { F_N, F_E, F_D, F_P, F_Q, F_DP, F_DQ, F_QI };
static const char *const F_NAME[8] = { "modulus", "public exponent", "private exponent", "prime1", "prime2", "exponent1", "exponent2", "coefficient" };
struct RKey { Z f[8]; };
static inline Z zlcm(const Z &a, const Z &b) { Z q, r; zdiv(a * b, zgcd(a, b), q, r); return q; }
// completes a key from its primes and public exponent; false if e has no inverse
static inline bool mkkey(RKey &k, const Z &p, const Z &q, const Z &e, bool lcm)
{
	Z p1 = p - Z(1), q1 = q - Z(1), ph = lcm ? zlcm(p1, q1) : p1 * q1;
	if (!(zgcd(e, ph) == Z(1)) || p == q) return false;
	k.f[F_N] = p * q; k.f[F_E] = e; k.f[F_D] = zinv(e, ph); k.f[F_P] = p; k.f[F_Q] = q; k.f[F_DP] = zmod(k.f[F_D], p1); k.f[F_DQ] = zmod(k.f[F_D], q1); k.f[F_QI] = zinv(q, p);
	return true;
}
static inline Z gexp(Src &s, const Z &n)
{
	switch (s.below(6)) { case 0: return Z(3); case 1: return Z(17); case 2: { Z e = zmod(gnat(s, n.nwords()), n); BN_set_bit(e.v, 0); return e < n ? e : Z(3); } default: return Z(65537); }
}
// a key with primes of the given lengths
static inline RKey rkey(Src &s, int pb, int qb)
{
	RKey k; if (pb < 3) pb = 3; if (qb < 3) qb = 3;
	for (;;) { Z p = gprime(s, pb), q = gprime(s, qb), n = p * q; if (p == q) { if (pb == qb && pb < 5) qb++; continue; } for (int t = 0; t < 8; t++) { Z e = gexp(s, n); if (e < n && !(e == Z(1)) && mkkey(k, p, q, e, s.chance(1, 2))) return k; } }
}
// keys of usual sizes are made once per process and size
static inline const RKey &poolkey(int bits, int i = 0)
{
	static std::vector<std::pair<int, RKey *>> pool;
	for (auto &x : pool) if (x.first == bits * 16 + i) return *x.second;
	Src t((uint64_t)(bits * 1000 + i)); RKey *k = new RKey;
	for (;;) { Z p = gprime(t, bits / 2, true), q = gprime(t, bits / 2, true); if (mkkey(*k, p, q, i & 2 ? Z(3) : Z(65537), i & 1)) break; }
	pool.push_back({ bits * 16 + i, k }); return *k;
}
// keys of varied sizes and balance
static inline RKey anykey(Src &s, int maxbits)
{
	int m = s.below(10);
	if (m == 9 && maxbits >= 512) { static const int B[] = { 512, 768, 1024, 2048 }; int b; do b = B[s.below(4)]; while (b > maxbits); return poolkey(b, s.below(4)); }
	if (m >= 7) { int a = s.range(20, maxbits / 2 < 200 ? maxbits / 2 : 200); return rkey(s, a, a + s.range(0, 2)); }
	if (m >= 5) { int a = s.range(10, 40), b = s.range(60, 160); return s.chance(1, 2) ? rkey(s, a, b) : rkey(s, b, a); }
	if (m == 4) { int a = WBIT * s.range(1, 2) + s.range(-1, 1); return rkey(s, a, a); }
	if (m == 3) return rkey(s, s.range(3, 12), s.range(3, 12));
	int a = s.range(17, 70); return rkey(s, a, a);
}

// ---- encoding ----
// how lengths are written: 0 minimal; otherwise chosen per element
struct Ber { Src *s; int pc; Ber() : s(NULL), pc(0) {} Ber(Src &x, int percent) : s(&x), pc(percent) {} };
static inline Bytes derlen(size_t n, int minoct = 0)
{
	Bytes b; int o = 0; for (size_t x = n; x; x >>= 8) o++;
	if (n < 0x80 && !minoct) { b.push_back((uint8_t)n); return b; }
	if (o < minoct) o = minoct; if (!o) o = 1; b.push_back((uint8_t)(0x80 | o)); while (o--) b.push_back((uint8_t)(n >> (8 * o)));
	return b;
}
static inline Bytes tlv(int tag, const Bytes &c, const Ber &how = Ber())
{
	Bytes r; r.push_back((uint8_t)tag);
	if (how.s && how.s->chance(how.pc, 100)) {
		if ((tag & 0x20) && how.s->chance(1, 2)) { r.push_back(0x80); r.insert(r.end(), c.begin(), c.end()); r.push_back(0); r.push_back(0); return r; }
		Bytes l = derlen(c.size(), how.s->range(1, 4)); r.insert(r.end(), l.begin(), l.end());
	} else { Bytes l = derlen(c.size()); r.insert(r.end(), l.begin(), l.end()); }
	r.insert(r.end(), c.begin(), c.end()); return r;
}
static inline Bytes intbytes(const Z &z) { Bytes b = z.abs().be(); if (!z.neg()) { if (b.empty() || (b[0] & 0x80)) b.insert(b.begin(), 0); return b; } int n = (int)b.size() + 1; Z w = Z::pow2(8 * n) + z; Bytes c = w.be(); while ((int)c.size() < n) c.insert(c.begin(), 0); while (c.size() > 1 && c[0] == 0xff && (c[1] & 0x80)) c.erase(c.begin()); return c; }
static inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
static inline Bytes dint(const Z &z, const Ber &how = Ber()) { return tlv(2, intbytes(z), how); }
static const uint8_t OIDRSA[9] = { 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01 };
static inline Bytes oidrsa() { return Bytes(OIDRSA, OIDRSA + 9); }
static inline Bytes algid(const Ber &how = Ber()) { return tlv(0x30, cat({ tlv(6, oidrsa(), how), tlv(5, Bytes(), how) }), how); }
static inline Bytes pkcs1priv(const RKey &k, const Ber &h = Ber()) { Bytes c = dint(Z(0), h); for (int i = 0; i < 8; i++) c = cat({ c, dint(k.f[i], h) }); return tlv(0x30, c, h); }
static inline Bytes pkcs1pub(const RKey &k, const Ber &h = Ber()) { return tlv(0x30, cat({ dint(k.f[F_N], h), dint(k.f[F_E], h) }), h); }
static inline Bytes pkcs8(const RKey &k, const Ber &h = Ber()) { return tlv(0x30, cat({ dint(Z(0), h), algid(h), tlv(4, pkcs1priv(k, h), h) }), h); }
static inline Bytes spki(const RKey &k, const Ber &h = Ber()) { Bytes b = pkcs1pub(k, h); b.insert(b.begin(), 0); return tlv(0x30, cat({ algid(h), tlv(3, b, h) }), h); }

// ---- reading: elements are looked up one by one, nothing is assumed about what is not needed ----
struct El { int tag; const uint8_t *c; size_t n; size_t total; };	// contents and whole length
static inline bool rdel(const uint8_t *d, size_t n, El &e, int depth = 0)
{
	if (n < 2 || depth > 200) return false;
	e.tag = d[0]; size_t i = 2, l = d[1];
	if (l == 0x80) {
		if (!(e.tag & 0x20)) return false;
		for (;;) { if (n - i < 2) return false; if (!d[i] && !d[i + 1]) break; El x; if (!rdel(d + i, n - i, x, depth + 1)) return false; i += x.total; }
		e.c = d + 2; e.n = i - 2; e.total = i + 2; return true;
	}
	if (l > 0x80) { int k = (int)l - 0x80; l = 0; if (k > 8 || n - 2 < (size_t)k) return false; for (; k; k--) { if (l >> 48) return false; l = l << 8 | d[i++]; } }
	if (n - i < l) return false;
	e.c = d + i; e.n = l; e.total = i + l; return true;
}
// the k-th element inside c
static inline bool child(const uint8_t *c, size_t n, int k, El &e) { for (;; k--) { if (!rdel(c, n, e)) return false; if (!k) return true; c += e.total; n -= e.total; } }
static inline bool elint(const El &e, Z &z)
{
	if (e.tag != 2 || !e.n) return false;
	BN_bin2bn(e.c, (int)e.n, z.v); if (e.c[0] & 0x80) z = z - Z::pow2(8 * (int)e.n); return true;
}
// numbers as they stand in an encoding; returns how many (8, 2) or 0 with the reason
static inline int rdpriv1(const uint8_t *d, size_t n, Z *f, const char **why)
{
	El r, e; *why = "no SEQUENCE"; if (!rdel(d, n, r) || r.tag != 0x30) return 0;
	*why = "no version"; if (!child(r.c, r.n, 0, e) || e.tag != 2) return 0;
	for (int i = 0; i < 8; i++) { *why = F_NAME[i]; if (!child(r.c, r.n, i + 1, e) || !elint(e, f[i])) return 0; }
	return 8;
}
static inline int rdpub1(const uint8_t *d, size_t n, Z *f, const char **why)
{
	El r, e; *why = "no SEQUENCE"; if (!rdel(d, n, r) || r.tag != 0x30) return 0;
	for (int i = 0; i < 2; i++) { *why = F_NAME[i]; if (!child(r.c, r.n, i, e) || !elint(e, f[i])) return 0; }
	return 2;
}
static inline int rdany(const uint8_t *d, size_t n, Z *f, const char **why)
{
	El r, e, o; *why = "no SEQUENCE"; if (!rdel(d, n, r) || r.tag != 0x30) return 0;
	int k = 0; *why = "nothing in it"; if (!child(r.c, r.n, 0, e)) return 0; bool priv = e.tag == 2; if (priv) k++;
	*why = "no algorithm"; if (!child(r.c, r.n, k, e) || e.tag != 0x30 || !child(e.c, e.n, 0, o)) return 0;
	*why = "algorithm is not rsaEncryption"; if (o.tag != 6 || o.n != 9 || memcmp(o.c, OIDRSA, 9)) return 0;
	*why = "no key"; if (!child(r.c, r.n, k + 1, e)) return 0;
	if (priv) return e.tag == 4 ? rdpriv1(e.c, e.n, f, why) : 0;
	return e.tag == 3 && e.n >= 1 && e.c[0] == 0 ? rdpub1(e.c + 1, e.n - 1, f, why) : 0;
}
enum { I_ANY, I_PRIV, I_PUB };
static const char *const I_NAME[3] = { "RaRsaCreateKeyFromByteArray", "RaRsaCreateKeyPriv", "RaRsaCreateKeyPub" };
static inline int rdnums(int which, const uint8_t *d, size_t n, Z *f, const char **why) { return which == I_ANY ? rdany(d, n, f, why) : which == I_PRIV ? rdpriv1(d, n, f, why) : rdpub1(d, n, f, why); }

// a library key; imports from a buffer that ends where the data ends
struct KeyH {
	Rsa *k; KeyH() : k(NULL) {} ~KeyH() { if (k) RaRsaDestroyKeyPair(k); }
	void drop() { RaRsaDestroyKeyPair(k); k = NULL; }
	int load(int which, const Bytes &b, int align = 0)
	{
		Buf in(b.size(), align); if (b.size()) memcpy(in.p, b.data(), b.size()); Rsa *mark = (Rsa *)&in; Rsa *r = mark;
		int rc = which == I_ANY ? RaRsaCreateKeyFromByteArray(in.p, (int)b.size(), &r) : which == I_PRIV ? RaRsaCreateKeyPriv(in.p, (int)b.size(), &r) : RaRsaCreateKeyPub(in.p, (int)b.size(), &r);
		in.check(I_NAME[which]); CHECK(!b.size() || !memcmp(in.p, b.data(), b.size()), "input-changed", "%s modified its input", I_NAME[which]);
		if (rc == 0) { CHECK(r && r != mark, "no-key", "%s reports success without a key", I_NAME[which]); k = r; }
		return rc;
	}
	operator Rsa *() { return k; }
private: KeyH(const KeyH &); KeyH &operator=(const KeyH &);
};
static inline int exportfn(bool priv, Rsa *k, uint8_t *o, int n, int *l) { return priv ? RaRsaPrivKeyToByteArray(k, o, n, l) : RaRsaPubKeyToByteArray(k, o, n, l); }
static inline Bytes exported(Rsa *k, bool priv)
{
	int n = -1, m = -1, rc = exportfn(priv, k, NULL, 0, &n); CHECK(rc == 0 && n > 0, "export", "size query of a %s key: %d, length %d", priv ? "private" : "public", rc, n);
	Buf o(n); rc = exportfn(priv, k, o.p, n, &m); o.check("export"); CHECK(rc == 0 && m == n, "export", "export into a buffer of the announced %d bytes: %d, length %d", n, rc, m);
	return Bytes(o.p, o.p + n);
}
extern "C" int vf_vkey;		// the library verifies private keys when it imports them
#endif
