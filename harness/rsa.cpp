// RSA keys, operations, encodings and key verification (K01-K07).
#include <sys/mman.h>
#include "rsakey.h"
#include <openssl/rsa.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <openssl/err.h>
#include <openssl/param_build.h>
#include <openssl/core_names.h>
#include <set>

static uint64_t kh(const RKey &k) { uint64_t h = 7; for (auto &z : k.f) h = zh(z, h); return h; }
static void loadkey(KeyH &h, const RKey &k, Src &s)
{
	int w = s.below(2); int rc = w ? h.load(I_PRIV, pkcs1priv(k), s.below(16)) : h.load(I_ANY, pkcs8(k), s.below(16));
	CHECK(rc == 0, "import", "%s refused a valid key of %d bits: %d", I_NAME[w ? I_PRIV : I_ANY], k.f[F_N].bits(), rc);
}
static void loadpub(KeyH &h, const RKey &k, Src &s)
{
	int w = s.below(2); int rc = w ? h.load(I_PUB, pkcs1pub(k), s.below(16)) : h.load(I_ANY, spki(k), s.below(16));
	CHECK(rc == 0, "import", "%s refused a public key of %d bits: %d", I_NAME[w ? I_PUB : I_ANY], k.f[F_N].bits(), rc);
}

// ---------------- K01: generation ----------------
static std::set<std::string> seen_num;
static void checkgen(Src &s, int bits, bool uniq)
{
	Rsa *r = NULL; KeyH k; int rc = RaRsaCreateKeyPair(bits, &r); k.k = rc == 0 ? r : NULL;
	CHECK(rc == 0 && r, "error", "RaRsaCreateKeyPair(%d) returned %d", bits, rc);
	Bytes e = exported(k, true), eu = exported(k, false); RKey K; Z u[8]; const char *why;
	CHECK(rdany(e.data(), e.size(), K.f, &why) == 8, "encoding", "the exported %d bit key is not readable: %s", bits, why);
	CHECK(rdany(eu.data(), eu.size(), u, &why) == 2 && u[0] == K.f[F_N] && u[1] == K.f[F_E], "encoding", "public and private export of a %d bit key differ", bits);
	Z *f = K.f; std::string ns = f[F_N].str();
	for (int i = 0; i < 8; i++) CHECK(!f[i].neg() && !f[i].zero(), "numbers", "%s of a %d bit key is %.300s", F_NAME[i], bits, f[i].str().c_str());
	CHECK(f[F_N].bits() == bits && RaRsaKeyBitLength(k) == bits, "size", "RaRsaCreateKeyPair(%d) made a modulus of %d bits (RaRsaKeyBitLength %d)", bits, f[F_N].bits(), RaRsaKeyBitLength(k));
	for (int i = F_P; i <= F_Q; i++) CHECK(f[i].bits() == bits / 2 && zprime(f[i]), "prime", "%s of a %d bit key: %.300s has %d bits and is %sprime", F_NAME[i], bits, f[i].str().c_str(), f[i].bits(), zprime(f[i]) ? "" : "not ");
	CHECK(f[F_P] != f[F_Q], "same-primes", "both primes of a %d bit key are %.300s", bits, f[F_P].str().c_str());
	ZEQ(f[F_N], f[F_P] * f[F_Q], "numbers", "modulus of a %d bit key", bits); ZEQ(f[F_E], Z(65537), "numbers", "public exponent");
	Z p1 = f[F_P] - Z(1), q1 = f[F_Q] - Z(1), ph = p1 * q1;
	CHECK(f[F_D] < ph, "numbers", "private exponent of a %d bit key is not reduced", bits); ZEQ(zmod(f[F_E] * f[F_D], ph), Z(1), "numbers", "e*d mod (p-1)(q-1) of the key with modulus %.300s", ns.c_str());
	ZEQ(f[F_DP], zmod(f[F_D], p1), "numbers", "exponent1"); ZEQ(f[F_DQ], zmod(f[F_D], q1), "numbers", "exponent2"); ZEQ(f[F_QI], zinv(f[F_Q], f[F_P]), "numbers", "coefficient of p=%.200s q=%.200s", f[F_P].str().c_str(), f[F_Q].str().c_str());
	rc = RaRsaVerifyKey(k); CHECK(rc == 0, "verify", "RaRsaVerifyKey refuses a generated %d bit key: %d", bits, rc);
	Z m = zmod(gnat(s, f[F_N].nwords()), f[F_N]); Num M(m), C(f[F_N].nwords()), R(f[F_N].nwords());
	CHECK(RaRsaEncrypt(k, M, C) == 0 && RaRsaDecrypt(k, C, R) == 0, "use", "a generated %d bit key cannot be used", bits); ZEQ(R.val(), m, "use", "decryption of an encryption with a generated %d bit key", bits);
	if (uniq) for (int i : { (int)F_N, (int)F_P, (int)F_Q }) { CHECK(seen_num.insert(f[i].str()).second, "shared", "the %s %.200s of a %d bit key occurred in an earlier key", F_NAME[i], f[i].str().c_str(), bits); COVER("numbers compared with all earlier keys"); }
	vf_distinct(kh(K)); COVERF("keys of %d..%d bits", bits & ~63, (bits & ~63) + 63); vf_cover_max("key bits", bits); vf_sample("%d bit key, modulus %.60s", bits, ns.c_str());
}
CASE(K01, smallsizes, 320, 6000, F_ENUM) { reseed(s); checkgen(s, 34 + 2 * (int)(idx % 160), 34 + 2 * (int)(idx % 160) >= 256); }
CASE(K01, bulk40, 6000, 200000, 0) { reseed(s); checkgen(s, s.chance(1, 2) ? 40 : 34 + 2 * s.range(0, 15), false); }
// the smallest keys, where chance makes the second prime equal the first in about one attempt in five thousand
CASE(K01, equalprimes, 96, 2400, F_ENUM)
{
	reseed(s); int bits = 34 + 2 * (idx % 4 == 3);
	for (int i = 0, n = vf_asan() ? 150 : 600; i < n; i++) {
		Rsa *r = NULL; KeyH k; int rc = RaRsaCreateKeyPair(bits, &r); k.k = rc == 0 ? r : NULL; CHECK(rc == 0 && r, "error", "RaRsaCreateKeyPair(%d) returned %d", bits, rc);
		Bytes e = exported(k, true); RKey K; const char *why; CHECK(rdany(e.data(), e.size(), K.f, &why) == 8, "encoding", "the exported %d bit key is not readable: %s", bits, why);
		CHECK(K.f[F_P] != K.f[F_Q], "same-primes", "both primes of a %d bit key are %.300s", bits, K.f[F_P].str().c_str()); ZEQ(K.f[F_N], K.f[F_P] * K.f[F_Q], "numbers", "modulus of a %d bit key", bits);
		CHECK(K.f[F_N].bits() == bits && K.f[F_P].bits() == bits / 2 && K.f[F_Q].bits() == bits / 2, "size", "a %d bit key has a modulus of %d bits and primes of %d and %d", bits, K.f[F_N].bits(), K.f[F_P].bits(), K.f[F_Q].bits());
		ZEQ(zmod(K.f[F_E] * K.f[F_D], (K.f[F_P] - Z(1)) * (K.f[F_Q] - Z(1))), Z(1), "numbers", "e*d"); vf_distinct(kh(K)); vf_cover_n("smallest keys, primes compared", 1);
	}
}
// 1703963 = 26*65537 + 1 is a prime of 21 bits: about one key of 42 bits in 20000 draws it and has to do without
CASE(K01, unsuitable, 96, 4800, F_ENUM)
{
	reseed(s);
	for (int i = 0, n = vf_asan() ? 40 : 1000; i < n; i++) {
		Rsa *r = NULL; KeyH k; int rc = RaRsaCreateKeyPair(42, &r); k.k = rc == 0 ? r : NULL; CHECK(rc == 0 && r, "error", "RaRsaCreateKeyPair(42) returned %d", rc);
		Bytes e = exported(k, true); RKey K; const char *why; CHECK(rdany(e.data(), e.size(), K.f, &why) == 8, "encoding", "the exported 42 bit key is not readable: %s", why);
		ZEQ(K.f[F_N], K.f[F_P] * K.f[F_Q], "numbers", "modulus of a 42 bit key"); ZEQ(K.f[F_E], Z(65537), "numbers", "public exponent"); ZEQ(zmod(K.f[F_E] * K.f[F_D], (K.f[F_P] - Z(1)) * (K.f[F_Q] - Z(1))), Z(1), "numbers", "e*d of the key with the primes %s and %s", K.f[F_P].str().c_str(), K.f[F_Q].str().c_str()); vf_distinct(kh(K)); vf_cover_n("keys of 42 bits", 1);
	}
}
CASE(K01, boundary, 96, 1500, 0) { static const int B[] = { 62, 64, 66, 126, 128, 130, 190, 192, 194, 254, 256, 258, 318, 320, 322, 382, 384, 386, 448, 510, 512, 514, 576, 640 }; reseed(s); int b = B[idx % 24]; checkgen(s, b, b >= 256); }
CASE(K01, large, 24, 400, F_SLOW) { static const int B[] = { 704, 768, 896, 1022, 1024, 1026 }; reseed(s); checkgen(s, B[idx % 6], true); }
CASE(K01, huge, 1, 24, F_SLOW) { reseed(s); checkgen(s, vf_tier() && idx % 3 == 0 ? 3072 : 2048, true); }
CASE(K01, realentropy, 16, 200, 0) { vf_ent_mode = 0; vf_clock_frozen = idx & 1; vf_clock_ns = 12345; int b = 256 + 64 * (int)(idx / 2 % 4); for (int i = 0; i < 8; i++) checkgen(s, i < 6 ? b : 256 + 2 * s.range(0, 20), true); COVER("keys of one size from the system's entropy, clock frozen or not"); }

// ---------------- K02: operations ----------------
static Z grep(Src &s, const RKey &k)
{
	const Z &n = k.f[F_N];
	switch (s.below(10)) {
	case 0: return Z(); case 1: return Z(1); case 2: return n - Z(1); case 3: return zmod(k.f[F_P] * gnat(s, k.f[F_Q].nwords()), n); case 4: return zmod(k.f[F_Q] * gnat(s, k.f[F_P].nwords()), n);
	case 5: return zmod(Z(s.range(2, 70000)), n); case 6: return zmod(Z::pow2(s.range(0, n.bits())), n); case 7: return zmod(n - gnat(s, 1).abs() - Z(1), n); default: return zmod(gnat(s, n.nwords()), n);
	}
}
static const char *const OP[3] = { "RaRsaEncrypt", "RaRsaDecrypt", "RaRsaSign" };
static int rsaop(int op, Rsa *k, struct RaBigNumber *a, struct RaBigNumber *r) { return op == 0 ? RaRsaEncrypt(k, a, r) : op == 1 ? RaRsaDecrypt(k, a, r) : RaRsaSign(k, a, r); }
static void opcheck(Src &s, Rsa *h, const RKey &k, int op, const Z &m)
{
	const Z &n = k.f[F_N]; Z want = zpow(m, k.f[op ? F_D : F_E], n); int cap = n.nwords() + (s.chance(1, 2) ? 0 : s.range(1, 5)), rc;
	Num M(m, s.chance(1, 3) ? cap : 0);
	if (s.chance(1, 4)) { Num A(m, cap); rc = rsaop(op, h, A, A); CHECK(rc == 0, "error", "%s in place returned %d (modulus %.200s)", OP[op], rc, n.str().c_str()); zcanon(A, OP[op]); ZEQ(A.val(), want, "value", "%s in place of %.100s mod %.200s", OP[op], m.str().c_str(), n.str().c_str()); COVER("operation in place"); }
	else { Num R(cap); if (s.chance(1, 2)) R.dirty(gword(s)); rc = rsaop(op, h, M, R); CHECK(rc == 0, "error", "%s returned %d (modulus %.200s, input %.200s)", OP[op], rc, n.str().c_str(), m.str().c_str()); zcanon(R, OP[op]); ZEQ(R.val(), want, "value", "%s of %.100s mod %.200s", OP[op], m.str().c_str(), n.str().c_str()); ZEQ(M.val(), m, "input-changed", "input of %s", OP[op]); }
	COVER(OP[op]);
}
static void hist(Src &s, const RKey &k, int nops)
{
	KeyH h, pub; loadkey(h, k, s); loadpub(pub, k, s); Bytes e0 = exported(h, true), u0 = exported(h, false), p0 = exported(pub, false); const Z &n = k.f[F_N];
	CHECK(e0 == pkcs8(k) && u0 == spki(k), "key-changed", "the imported key differs from its encoding"); CHECK(RaRsaKeyBitLength(h) == n.bits() && RaRsaKeyBitLength(pub) == n.bits(), "bits", "RaRsaKeyBitLength: %d and %d for a modulus of %d bits", RaRsaKeyBitLength(h), RaRsaKeyBitLength(pub), n.bits());
	while (nops--) {
		Z m = grep(s, k); vf_distinct(zh(m, kh(k)));
		switch (s.below(8)) {
		case 0: case 1: opcheck(s, h, k, 0, m); break; case 2: opcheck(s, h, k, 1, m); break; case 3: opcheck(s, h, k, 2, m); break; case 4: opcheck(s, pub, k, 0, m); break;
		case 5: { Num M(m), C(n.nwords()), R(n.nwords()); int op = s.range(0, 2), rc; if (op == 0) { rc = RaRsaEncrypt(h, M, C); CHECK(rc == 0, "error", "%d", rc); rc = RaRsaDecrypt(h, C, R); } else { rc = RaRsaSign(h, M, C); CHECK(rc == 0, "error", "%d", rc); rc = RaRsaEncrypt(pub, C, R); } CHECK(rc == 0, "error", "%d", rc); ZEQ(R.val(), m, "roundtrip", "round trip of %.200s mod %.200s", m.str().c_str(), n.str().c_str()); COVER("round trip"); break; }
		case 6: { Num M(m), R(n.nwords()); Z r0(12345); R.set(r0); int op = s.range(1, 2), rc = rsaop(op, pub, M, R); CHECK(rc != 0, "public-accepted", "%s works with a public key", OP[op]); COVER("private operation refused by a public key"); break; }
		default: { Z big = n * Z(s.range(1, 3)) + m; if (!vf_ndebug && big.nwords() > n.nwords()) big = m; Num M(big), R(n.nwords() + 2); int rc = rsaop(s.range(0, 2), h, M, R); if (s.chance(1, 2)) { Num S(big); rc = RaRsaVerify(h, S, M); } if (s.chance(1, 4)) RaRsaVerifyKey(h); (void)rc; COVER("out of range input in between"); }
		}
	}
	CHECK(exported(h, true) == e0 && exported(h, false) == u0 && exported(pub, false) == p0, "key-changed", "using a key of %d bits changed it", n.bits());
}
CASE(K02, history, 6000, 120000, F_FUZZ) { reseed(s); RKey k = anykey(s, 512); hist(s, k, s.range(1, 14)); COVERF("keys of %d..%d bits", k.f[F_N].bits() & ~63, (k.f[F_N].bits() & ~63) + 63); }
CASE(K02, large, 48, 800, F_SLOW) { reseed(s); bool four = idx % 48 == 7; RKey k = poolkey(four ? 4096 : idx % 6 == 0 ? 2048 : 1024, four ? 1 : s.below(4)); hist(s, k, four ? 3 : 6); COVER(four ? "keys of 4096 bits" : "keys of 1024 and 2048 bits"); }
// every representative of tiny keys
CASE(K02, exhaustive, 160, 2000, 0)
{
	reseed(s); RKey k = rkey(s, s.range(3, 5), s.range(3, 5)); KeyH h; loadkey(h, k, s); int n = (int)BN_get_word(k.f[F_N].v);
	for (int m = 0; m < n; m++) { opcheck(s, h, k, m % 3, Z(m)); if (m % 3) opcheck(s, h, k, 0, Z(m)); } vf_distinct(kh(k)); COVER("tiny key, every representative"); vf_cover_n("representatives of tiny keys", n);
}
// the same numbers as OpenSSL's own RSA (with its CRT and padding-free mode)
CASE(K02, openssl, 48, 800, 0)
{
	reseed(s); RKey k = poolkey(s.chance(1, 3) ? 1024 : 512, s.below(4)); RSA *r = RSA_new(); RSA_set0_key(r, BN_dup(k.f[F_N].v), BN_dup(k.f[F_E].v), BN_dup(k.f[F_D].v)); RSA_set0_factors(r, BN_dup(k.f[F_P].v), BN_dup(k.f[F_Q].v)); RSA_set0_crt_params(r, BN_dup(k.f[F_DP].v), BN_dup(k.f[F_DQ].v), BN_dup(k.f[F_QI].v));
	KeyH h; loadkey(h, k, s); int L = RSA_size(r);
	for (int i = 0; i < 4; i++) { Z m = grep(s, k); Bytes in(L), out(L); BN_bn2binpad(m.v, in.data(), L); Num M(m), R(k.f[F_N].nwords()); int op = i & 1; int g = op ? RSA_private_decrypt(L, in.data(), out.data(), r, RSA_NO_PADDING) : RSA_public_encrypt(L, in.data(), out.data(), r, RSA_NO_PADDING); if (g != L) { ERR_clear_error(); continue; }
		int rc = rsaop(op, h, M, R); CHECK(rc == 0, "error", "%d", rc); Buf o(L); rc = BnToFixedByteArray(R, o.p, L); CHECK(rc == L || rc == 0, "fixed", "%d", rc); CHECK(!memcmp(o.p, out.data(), L), "value", "%s differs from OpenSSL for a %d bit key", OP[op], k.f[F_N].bits()); COVER("compared with OpenSSL RSA"); vf_distinct(zh(m, op)); }
	RSA_free(r);
}

// ---------------- K03: verification ----------------
static void ver(Rsa *h, const RKey &k, const Z &sg, const Z &m, Src &s, const char *kind)
{
	const Z &n = k.f[F_N]; bool in = !sg.neg() && sg < n, want = in && zpow(sg, k.f[F_E], n) == m;
	Num S(sg, s.chance(1, 4) ? sg.nwords() + s.range(1, 4) : 0), M(m, s.chance(1, 4) ? m.nwords() + s.range(1, 4) : 0);
	int rc = RaRsaVerify(h, S, M); CHECK((rc == 0) == want, want ? "valid-refused" : "invalid-accepted", "RaRsaVerify returned %d for a %s (signature %s%.300s, message %.300s, modulus %.300s, e %.60s): expected %s", rc, kind, in ? "" : "outside the range ", sg.str().c_str(), m.str().c_str(), n.str().c_str(), k.f[F_E].str().c_str(), want ? "success" : "an error");
	ZEQ(S.val(), sg, "input-changed", "signature"); ZEQ(M.val(), m, "input-changed", "message"); COVERF("%s: %s", kind, want ? "accepted" : "refused"); vf_distinct(zh(sg, zh(m, zh(n))));
}
static void verall(Src &s, const RKey &k, bool allbits)
{
	KeyH h, pub; loadkey(h, k, s); loadpub(pub, k, s); const Z &n = k.f[F_N]; Z m = grep(s, k), sg = zpow(m, k.f[F_D], n); Rsa *v = s.chance(1, 2) ? h.k : pub.k;
	{ Num M(m), S(n.nwords()); int rc = RaRsaSign(h, M, S); CHECK(rc == 0, "error", "RaRsaSign: %d", rc); ZEQ(S.val(), sg, "value", "signature"); rc = RaRsaVerify(v, S, M); CHECK(rc == 0, "valid-refused", "RaRsaVerify refuses a signature just made: %d", rc); }
	ver(v, k, sg, m, s, "signature"); int nb = n.bits() + 2 * WBIT;
	for (int b = 0; b < nb; b++) if (allbits || s.chance(1, 8)) { Z x(sg); if (BN_is_bit_set(x.v, b)) BN_clear_bit(x.v, b); else BN_set_bit(x.v, b); ver(v, k, x, m, s, "altered bit"); }
	for (int j = 0; j < 24; j++) { int b = s.below(n.bits() + WBIT); Z x(m); if (BN_is_bit_set(x.v, b)) BN_clear_bit(x.v, b); else BN_set_bit(x.v, b); ver(v, k, sg, x, s, "altered message bit"); }
	ver(v, k, sg + n, m, s, "signature plus modulus"); ver(v, k, sg + n * Z(s.range(2, 1000)), m, s, "signature plus multiple"); ver(v, k, sg + zshl(n, s.range(1, 200)), m, s, "signature plus multiple"); ver(v, k, -sg, m, s, "negated signature"); ver(v, k, sg - n, m, s, "signature minus modulus"); ver(v, k, n - sg, m, s, "modulus minus signature"); ver(v, k, n, m, s, "modulus as signature"); ver(v, k, n, Z(), s, "modulus as signature");
	ver(v, k, n - sg, zmod(-m, n), s, "signature of the negated message"); ver(v, k, sg, zmod(-m, n), s, "negated message"); ver(v, k, sg, m - n, s, "message minus modulus"); ver(v, k, sg, -m, s, "negated message");
	ver(v, k, Z(), m, s, "zero"); ver(v, k, Z(1), m, s, "one"); ver(v, k, Z(), Z(), s, "zero for zero"); ver(v, k, Z(1), Z(1), s, "one for one"); ver(v, k, n - Z(1), n - Z(1), s, "minus one"); ver(v, k, n - Z(1), Z(1), s, "minus one for one"); ver(v, k, sg, m + Z(1), s, "next message"); ver(v, k, sg, m + n, s, "message plus modulus"); ver(v, k, sg, m + n * Z(s.range(2, 99)), s, "message plus multiple"); ver(v, k, m, m, s, "message as signature"); ver(v, k, sg, sg, s, "signature as message");
	Z m2 = grep(s, k); ver(v, k, zpow(m2, k.f[F_D], n), m, s, "signature of another message"); for (int j = 0; j < 6; j++) ver(v, k, gnat(s, s.range(1, n.nwords() * 2 + 2)), m, s, "random number"); for (int j = 0; j < 4; j++) ver(v, k, gint(s, s.range(1, n.nwords())), gint(s, s.range(1, n.nwords())), s, "random pair");
	for (int j = 0; j < 4; j++) { Z x = grep(s, k); ver(v, k, x, zpow(x, k.f[F_E], n), s, "forged from the signature (existential)"); }
	ver(v, k, zshl(sg, WBIT), m, s, "shifted signature"); ver(v, k, sg, zshl(m, WBIT), s, "shifted message"); if (n.nwords() > 1) { ver(v, k, zmod(sg, Z::pow2(WBIT * (n.nwords() - 1))), m, s, "shortened signature"); ver(v, k, sg, zmod(m, Z::pow2(WBIT * (n.nwords() - 1))), s, "shortened message"); }
	// the key survives all this
	ver(v, k, sg, m, s, "signature"); RKey k2 = rkey(s, k.f[F_P].bits() > 200 ? 60 : k.f[F_P].bits(), k.f[F_Q].bits() > 200 ? 60 : k.f[F_Q].bits()); KeyH o; loadpub(o, k2, s); ver(o, k2, sg, m, s, "other key");
}
CASE(K03, all, 1600, 40000, 0) { reseed(s); verall(s, anykey(s, 512), s.chance(1, 4)); }
CASE(K03, rand, 0, 0, F_FUZZ) { reseed(s); RKey k = rkey(s, 24 + s.below(50), 24 + s.below(50)); KeyH h; loadpub(h, k, s); for (int i = 0; i < 4; i++) { Z a = gint(s, s.range(1, 6)), b = gint(s, s.range(1, 6)); ver(h, k, a, b, s, "random pair"); if (s.chance(1, 2)) { Z x = zmod(a, k.f[F_N]); ver(h, k, s.chance(1, 2) ? x : x + k.f[F_N], zpow(x, k.f[F_E], k.f[F_N]), s, "existential"); } } }
CASE(K03, large, 24, 400, F_SLOW) { reseed(s); bool four = idx % 24 == 7; verall(s, poolkey(four ? 4096 : idx % 8 == 0 ? 2048 : 1024, four ? 1 : s.below(4)), false); COVER(four ? "keys of 4096 bits" : "keys of 1024 and 2048 bits"); }
CASE(K03, tiny, 60, 1000, 0)
{	// every signature and message
	reseed(s); RKey k = rkey(s, 3, s.range(3, 4)); KeyH h; loadkey(h, k, s); int n = (int)BN_get_word(k.f[F_N].v);
	for (int x = -2; x < 2 * n + 2; x++) for (int m = 0; m < n + 2; m++) ver(h, k, Z(x), Z(m), s, "tiny");
}
CASE(K03, exponents, 120, 3000, 0)
{	// public keys with unusual exponents (1, 2, even, as long as the modulus)
	reseed(s); RKey k = rkey(s, s.range(20, 70), s.range(20, 70)); static const int E[] = { 1, 2, 4, 6, 16, 65536 }; k.f[F_E] = idx % 8 < 6 ? Z(E[idx % 8]) : zmod(gnat(s, k.f[F_N].nwords()), k.f[F_N]); if (k.f[F_E].zero()) k.f[F_E] = Z(2);
	KeyH h; loadpub(h, k, s); for (int i = 0; i < 8; i++) { Z x = grep(s, k), m = zpow(x, k.f[F_E], k.f[F_N]); ver(h, k, x, m, s, "unusual exponent"); ver(h, k, x + Z(1), m, s, "unusual exponent, altered"); ver(h, k, x + k.f[F_N], m, s, "unusual exponent, plus modulus"); ver(h, k, x, m + Z(1), s, "unusual exponent, altered message"); }
}
CASE(K03, nomemory, 60, 1500, 0)
{
	reseed(s); RKey k = rkey(s, s.range(20, 100), s.range(20, 100)); KeyH h; loadpub(h, k, s); const Z &n = k.f[F_N]; Z x = grep(s, k), m = zpow(x, k.f[F_E], n);
	for (int bad = 0; bad < 3; bad++) { Z sg = bad == 2 ? zmod(x + Z(1), n) : x, mm = bad == 1 ? zmod(m + Z(1), n) : m; if (bad == 2 && zpow(sg, k.f[F_E], n) == m) continue;
		for (int all = 0; all < 2; all++) for (int j = 1; j < 60; j++) { Num S(sg), M(mm); vf_fail_at(j, all); int rc = RaRsaVerify(h, S, M); long f = vf_failed(); vf_fail_stop(); if (!f) break; CHECK(!(bad && rc == 0), "invalid-accepted", "RaRsaVerify accepts a wrong signature when allocation %d fails", j); CHECK(rc != 0, "internal-failure", "RaRsaVerify reports success although allocation %d failed", j); COVERF("allocation %d failed", j); vf_distinct(zh(sg, j * 8 + bad * 2 + all)); } }
	ver(h, k, x, m, s, "after memory ran out");
}

// ---------------- K04: export ----------------
static RKey oddkey(Src &s, int maxw)
{	// numbers that need not fit together: lengths at every boundary of the encoding
	RKey k; for (auto &z : k.f) { switch (s.below(5)) { case 0: z = Z::U(gword(s)); break; case 1: z = Z::pow2(s.range(0, maxw * WBIT)) - Z(s.range(0, 1)); break; case 2: { int by[] = { 1, 2, 126, 127, 128, 129, 254, 255, 256, 257 }; int b = by[s.below(10)]; if (b > maxw * WB) b = maxw * WB; z = Z::pow2(8 * b - s.range(0, 9)) - Z(s.range(0, 1)); if (z.neg()) z = Z(1); break; } default: z = gnat(s, s.range(1, maxw)); } }
	BN_set_bit(k.f[F_N].v, 0); return k;
}
static void sizes(Src &s, Rsa *h, const Bytes &want, bool priv, bool all)
{
	const char *W = priv ? "RaRsaPrivKeyToByteArray" : "RaRsaPubKeyToByteArray"; int L = (int)want.size(), n = -7;
	int rc = exportfn(priv, h, NULL, s.chance(1, 2) ? 0 : s.range(-5, 2 * L), &n); CHECK(rc == 0 && n == L, "query", "%s without buffer returned %d, length %d instead of %d", W, rc, n, L);
	rc = exportfn(priv, h, NULL, 0, NULL); CHECK(rc == 0, "query", "%s without buffer and length returned %d", W, rc);
	auto one = [&](int cap) {
		Buf b(cap < 0 ? 0 : cap, s.below(16)); bool noLen = s.chance(1, 6); n = -7; int r = exportfn(priv, h, b.p, cap, noLen ? NULL : &n); b.check(W); vf_distinct(vf_hash(want.data(), L, cap));
		if (cap < L) { CHECK(r != 0, "small-accepted", "%s accepts a buffer of %d bytes for %d", W, cap, L); CHECK(b.untouched(0), "small-written", "%s wrote into a buffer of %d bytes, too small for %d", W, cap, L); COVER("buffer too small"); }
		else { CHECK(r == 0 && (noLen || n == L), "export", "%s into %d bytes returned %d, length %d instead of %d", W, cap, r, n, L); CHECK(!memcmp(b.p, want.data(), L), "bytes", "%s wrote %s, the standard encoding is %s", W, vf_hex(b.p, L).c_str(), vf_hex(want).c_str()); CHECK(b.untouched(L), "written-beyond", "%s wrote beyond the reported length", W); COVER("buffer large enough"); }
	};
	if (all) for (int c = 0; c < L + 4; c++) one(c); else { for (int c : { 0, 1, 2, L / 2, L - 2, L - 1, L, L + 1, L + 2, L + 100 }) one(c); for (int i = 0; i < 6; i++) one(s.range(0, L + 20)); }
	one(-1);
}
static void lossless(Src &s, const RKey &k, bool all)
{
	KeyH h, pub; loadkey(h, k, s); loadpub(pub, k, s); Bytes w = pkcs8(k), u = spki(k); sizes(s, h, w, true, all); sizes(s, h, u, false, all); sizes(s, pub, u, false, false);
	uint8_t t[64]; int n = -7; memset(t, 0xC3, sizeof t); int rc = RaRsaPrivKeyToByteArray(pub, s.chance(1, 2) ? t : NULL, 64, &n); CHECK(rc != 0, "public-exported", "a public key is exported as a private key"); for (int i = 0; i < 64; i++) CHECK(t[i] == 0xC3, "small-written", "a refused export wrote");
	// and back again
	KeyH h2; CHECK(h2.load(I_ANY, w) == 0, "reimport", "the exported private key is refused"); CHECK(exported(h2, true) == w && exported(h2, false) == u, "lossless", "exporting an imported private key gives other bytes"); KeyH h3; CHECK(h3.load(I_ANY, u) == 0, "reimport", "the exported public key is refused"); CHECK(exported(h3, false) == u, "lossless", "exporting an imported public key gives other bytes");
	vf_cover_max("private encoding bytes", w.size()); vf_cover_max("public encoding bytes", u.size()); vf_sample("%d bit key, %zu and %zu bytes", k.f[F_N].bits(), w.size(), u.size());
}
CASE(K04, keys, 1500, 30000, 0) { reseed(s); lossless(s, anykey(s, 1024), s.chance(1, 4)); }
CASE(K04, numbers, 6000, 120000, 0) { reseed(s); if (vf_vkey) return; lossless(s, oddkey(s, s.chance(1, 3) ? 40 : s.range(1, 6)), s.chance(1, 8)); COVER("numbers that do not fit together"); }
CASE(K04, lengths, 2240, 12000, 0)
{	// every modulus length in bits across the steps of the length encoding
	reseed(s); RKey k = rkey(s, 20, 21); int b = 8 + (int)(idx % 560) * 4 + s.range(0, 3); k.f[F_N] = Z::pow2(b - 1); BN_set_bit(k.f[F_N].v, 0); k.f[F_N] = k.f[F_N] + zshl(zmod(gnat(s, (b + WBIT - 1) / WBIT), Z::pow2(b > 3 ? b - 3 : 0)), 1); if (vf_vkey && !(k.f[F_E] < k.f[F_N])) k.f[F_E] = Z(3); KeyH p; int rc = p.load(I_ANY, spki(k)); CHECK(rc == 0, "import", "a public key of %d bits is refused: %d", k.f[F_N].bits(), rc); sizes(s, p, spki(k), false, false); vf_cover_max("public modulus bits", k.f[F_N].bits());
}
CASE(K04, long, 2, 12, F_SLOW)
{	// encodings longer than 65535 bytes
	reseed(s); RKey k; int by = idx % 2 ? 65560 : 65500 + s.range(0, 60); Bytes b = s.bytes(by); b[0] |= 0x80; b[by - 1] |= 1; BN_bin2bn(b.data(), by, k.f[F_N].v); k.f[F_E] = Z(65537); KeyH p; int rc = p.load(I_PUB, pkcs1pub(k)); CHECK(rc == 0, "import", "a public key of %d bytes is refused: %d", by, rc); sizes(s, p, spki(k), false, false); COVER("encoding around 65535 bytes");
}
CASE(K04, huge, 6, 40, F_SLOW)
{	// encodings around and above 2^24 bytes: the last step of the length encoding
	if (vf_vkey || vf_asan()) return;	// such keys are not consistent; copying only, no arithmetic
	reseed(s); RKey k = rkey(s, 20, 21); bool priv = idx & 1; bool exact = idx % 3 == 1; int by = exact ? (1 << 24) : idx % 6 < 4 ? (1 << 24) - s.range(0, 80) : (1 << 24) + s.range(0, 300000), which = priv ? (idx & 2 ? F_D : F_D + s.range(0, 5)) : F_E;
	Bytes b = s.bytes(by); b[0] |= s.chance(1, 2) ? 0x80 : 1; if (exact) { b[0] = (b[0] & 0x7f) | 1; if (s.chance(1, 2)) { b.erase(b.begin()); by--; b[0] |= 0x80; } COVER("number of exactly 2^24 bytes"); } BN_bin2bn(b.data(), by, k.f[which].v); Bytes e = priv ? pkcs8(k) : spki(k); KeyH p; int rc = p.load(I_ANY, e); CHECK(rc == 0, "import", "a key encoded in %d bytes is refused: %d", (int)e.size(), rc); sizes(s, p, e, priv, false); COVERF("%s key encoded in %s 2^24 bytes", priv ? "private" : "public", e.size() < (1 << 24) ? "less than" : "at least"); vf_cover_max("bytes of one encoding", e.size());
}
// keys made and read by OpenSSL
static Z zget(EVP_PKEY *p, const char *name) { BIGNUM *b = NULL; Z z; if (EVP_PKEY_get_bn_param(p, name, &b)) { BN_copy(z.v, b); BN_free(b); } return z; }
static const char *const PN[8] = { OSSL_PKEY_PARAM_RSA_N, OSSL_PKEY_PARAM_RSA_E, OSSL_PKEY_PARAM_RSA_D, OSSL_PKEY_PARAM_RSA_FACTOR1, OSSL_PKEY_PARAM_RSA_FACTOR2, OSSL_PKEY_PARAM_RSA_EXPONENT1, OSSL_PKEY_PARAM_RSA_EXPONENT2, OSSL_PKEY_PARAM_RSA_COEFFICIENT1 };
CASE(K04, openssl, 80, 1500, 0)
{
	reseed(s); bool own = idx % 4 == 0; RKey k; KeyH h;
	if (own) { Rsa *r; int rc = RaRsaCreateKeyPair(512 + 2 * s.range(0, 40), &r); CHECK(rc == 0, "error", "%d", rc); h.k = r; Bytes e = exported(h, true); const char *why; CHECK(rdany(e.data(), e.size(), k.f, &why) == 8, "encoding", "%s", why); }
	else { k = poolkey(idx % 4 == 1 ? 1024 : idx % 4 == 2 ? 768 : 512, s.below(4)); loadkey(h, k, s); }
	Bytes e = exported(h, true), u = exported(h, false); const unsigned char *q = e.data(); EVP_PKEY *pk = d2i_AutoPrivateKey(NULL, &q, (long)e.size()); CHECK(pk && q == e.data() + e.size(), "openssl", "OpenSSL does not read the exported private key %s", vf_hex(e).c_str());
	for (int i = 0; i < 8; i++) ZEQ(zget(pk, PN[i]), k.f[i], "openssl", "%s read by OpenSSL", F_NAME[i]);
	q = u.data(); EVP_PKEY *pu = d2i_PUBKEY(NULL, &q, (long)u.size()); CHECK(pu && q == u.data() + u.size(), "openssl", "OpenSSL does not read the exported public key %s", vf_hex(u).c_str()); for (int i = 0; i < 2; i++) ZEQ(zget(pu, PN[i]), k.f[i], "openssl", "%s read by OpenSSL", F_NAME[i]);
	// what OpenSSL writes
	unsigned char *o = NULL; int n; PKCS8_PRIV_KEY_INFO *p8 = EVP_PKEY2PKCS8(pk); n = i2d_PKCS8_PRIV_KEY_INFO(p8, &o); Bytes b8(o, o + n); OPENSSL_free(o); PKCS8_PRIV_KEY_INFO_free(p8); o = NULL; n = i2d_PrivateKey(pk, &o); Bytes b1(o, o + n); OPENSSL_free(o); o = NULL; n = i2d_PUBKEY(pk, &o); Bytes bu(o, o + n); OPENSSL_free(o); o = NULL; n = i2d_PublicKey(pk, &o); Bytes bp(o, o + n); OPENSSL_free(o);
	{ KeyH x; CHECK(x.load(I_ANY, b8) == 0, "import", "OpenSSL's PKCS#8 key is refused"); CHECK(exported(x, true) == e, "import", "OpenSSL's PKCS#8 key is imported with other numbers"); } { KeyH x; CHECK(x.load(I_PRIV, b1) == 0, "import", "OpenSSL's PKCS#1 key is refused"); CHECK(exported(x, true) == e, "import", "OpenSSL's PKCS#1 key is imported with other numbers"); }
	{ KeyH x; CHECK(x.load(I_ANY, bu) == 0, "import", "OpenSSL's public key is refused"); CHECK(exported(x, false) == u, "import", "OpenSSL's public key is imported with other numbers"); } { KeyH x; CHECK(x.load(I_PUB, bp) == 0, "import", "OpenSSL's PKCS#1 public key is refused"); CHECK(exported(x, false) == u, "import", "OpenSSL's PKCS#1 public key is imported with other numbers"); }
	EVP_PKEY_free(pk); EVP_PKEY_free(pu); COVER(own ? "generated key through OpenSSL" : "key through OpenSSL"); vf_distinct(kh(k));
}

// ---------------- K05: arbitrary bytes ----------------
static void useall(Rsa *k, Src &s)
{
	int bits = RaRsaKeyBitLength(k); Bytes u = exported(k, false); Z f[8]; const char *why; CHECK(rdany(u.data(), u.size(), f, &why) == 2, "unusable", "the public export of an imported key is not readable: %s", why); const Z &n = f[0]; CHECK(n.bits() == bits, "unusable", "RaRsaKeyBitLength %d for a modulus of %d bits", bits, n.bits());
	int L = -1, rc = RaRsaPrivKeyToByteArray(k, NULL, 0, &L); bool priv = rc == 0; if (priv) { Bytes e = exported(k, true); CHECK(rdany(e.data(), e.size(), f, &why) == 8, "unusable", "the private export of an imported key is not readable: %s", why); COVER("private key used"); } else COVER("public key used");
	bool heavy = n.bits() > 1500 || f[F_E].bits() > 1500 || (priv && (f[F_D].bits() > 1500 || f[F_P].bits() > 700 || f[F_Q].bits() > 700));
	if (!heavy || s.chance(1, 16)) { if (n.bits() <= 6000) { rc = RaRsaVerifyKey(k); COVERF("RaRsaVerifyKey returned %d", rc); }
		Z m = zmod(gnat(s, n.nwords()), n); Num M(m), C(n.nwords()), R(n.nwords()); rc = RaRsaEncrypt(k, M, C); if (rc == 0) zcanon(C, "encrypted"); rc = RaRsaDecrypt(k, M, R); CHECK(priv || rc != 0, "unusable", "public key decrypts"); rc = RaRsaSign(k, M, R); if (rc == 0) { Num T(zmod(R.val(), n)); RaRsaVerify(k, T, M); } RaRsaVerify(k, M, M); }
	CHECK(exported(k, false) == u, "key-changed", "using an imported key changed it");
}
static void tryall(Src &s, const Bytes &b, const char *kind)
{
	for (int w = 0; w < 3; w++) { KeyH h; int rc = h.load(w, b, s.below(16)); if (rc == 0) { COVERF("%s: imported by %s", kind, I_NAME[w]); vf_distinct(vf_hash(b.data(), b.size(), w)); useall(h, s); } else { COVERF("%s: refused", kind); vf_distinct(vf_hash(b.data(), b.size(), w)); } }
}
static const int POS[] = { 0, 0, 1, 2 };
static Bytes enc(Src &s, const RKey &k, int which, const Ber &h = Ber()) { return which == 0 ? pkcs8(k, h) : which == 1 ? spki(k, h) : which == 2 ? pkcs1priv(k, h) : pkcs1pub(k, h); }
static Bytes mutate(Src &s, Bytes b)
{
	int n = s.range(1, 4);
	while (n--) {
		if (b.empty()) b.push_back(s.u8());
		size_t i = s.below(b.size()); if (s.chance(1, 3)) i = s.below(b.size() < 40 ? b.size() : 40);
		switch (s.below(9)) {
		case 0: b[i] ^= 1 << s.below(8); break; case 1: b[i] = s.u8(); break; case 2: b[i] = (uint8_t)"\x00\x01\x02\x03\x04\x05\x06\x30\x7f\x80\x81\x82\x83\x84\x85\xff\xfe\x20"[s.below(18)]; break;
		case 3: b.erase(b.begin() + i, b.begin() + std::min(b.size(), i + s.range(1, 5))); break; case 4: { Bytes x = s.texture(s.range(1, 6)); b.insert(b.begin() + i, x.begin(), x.end()); break; }
		case 5: b.resize(i); break; case 6: { size_t j = s.below(b.size()), l = s.range(1, 20); Bytes x(b.begin() + j, b.begin() + std::min(b.size(), j + l)); b.insert(b.begin() + i, x.begin(), x.end()); break; }
		case 7: { Bytes x = s.texture(s.range(1, 8)); b.insert(b.end(), x.begin(), x.end()); break; } default: b[i] = (uint8_t)(b[i] + s.range(-2, 2)); break;
		}
	}
	return b;
}
static Bytes rtree(Src &s, int depth)
{
	static const int T[] = { 0x30, 0x30, 0x30, 0x02, 0x02, 0x04, 0x03, 0x06, 0x05, 0x31, 0x24, 0x23, 0xa0, 0x00, 0x22, 0x3f, 0x1f };
	int t = T[s.below(17)]; Bytes c; Ber h(s, 30);
	if (t == 6 && s.chance(2, 3)) c = oidrsa(); else if (t == 2) c = s.chance(1, 8) ? Bytes() : s.texture(s.range(1, s.chance(1, 10) ? 300 : 20)); else if (depth && (t & 0x20 || t == 4 || t == 3)) { if (t == 3) c.push_back(s.chance(1, 8)); int n = s.chance(1, 12) ? s.range(8, 40) : s.range(0, 5); while (n--) { Bytes x = rtree(s, depth - 1); c.insert(c.end(), x.begin(), x.end()); if (c.size() > 3000) break; } } else c = s.texture(s.range(0, 12));
	Bytes r = tlv(t, c, h); if (s.chance(1, 25) && r.size() > 1) r[1] = s.u8(); return r;
}
// an encoding taken apart, altered at one or two elements and put together again with lengths that fit
struct DNode { int tag; Bytes c; Bytes pre; std::vector<DNode> k; bool open; };
static bool dparse(const uint8_t *d, size_t n, std::vector<DNode> &out, int depth = 0)
{
	while (n) {
		El e; if (!rdel(d, n, e)) return false; DNode x; x.tag = e.tag; x.open = false; const uint8_t *c = e.c; size_t l = e.n; if (e.tag == 3 && l) { x.pre = Bytes(1, c[0]); c++; l--; }
		if (depth < 6 && (e.tag & 0x20 || ((e.tag == 3 || e.tag == 4) && l > 2))) x.open = dparse(c, l, x.k, depth + 1); if (!x.open) { x.k.clear(); x.c.assign(c, c + l); } out.push_back(x); d += e.total; n -= e.total;
	}
	return true;
}
static Bytes dwrite(const std::vector<DNode> &v, const Ber &h)
{
	Bytes r; for (auto &x : v) { Bytes c = x.open ? dwrite(x.k, h) : x.c; c.insert(c.begin(), x.pre.begin(), x.pre.end()); Bytes t = tlv(x.tag, c, h); r.insert(r.end(), t.begin(), t.end()); } return r;
}
static void dflat(std::vector<DNode> &v, std::vector<std::pair<std::vector<DNode> *, size_t>> &at) { for (size_t i = 0; i < v.size(); i++) { at.push_back({ &v, i }); if (v[i].open) dflat(v[i].k, at); } }
static Bytes restructure(Src &s, const Bytes &b, const char **what)
{
	std::vector<DNode> r; *what = "unchanged"; if (!dparse(b.data(), b.size(), r)) return b;
	for (int t = s.chance(1, 4) ? 2 : 1; t; t--) {
		std::vector<std::pair<std::vector<DNode> *, size_t>> at; dflat(r, at); if (at.empty()) break; auto w = at[s.below(at.size())]; std::vector<DNode> &v = *w.first; size_t i = w.second; int m = s.below(12);
		bool last = s.chance(1, 3);	// nothing follows in this element and those around it
		if (last && m < 4) { v.resize(i + 1); std::vector<DNode> *o = &v; for (bool up = true; up;) { up = false; std::vector<std::pair<std::vector<DNode> *, size_t>> a2; dflat(r, a2); for (auto &z : a2) if ((*z.first)[z.second].open && &(*z.first)[z.second].k == o) { z.first->resize(z.second + 1); o = z.first; up = true; break; } } }
		DNode &x = v[i]; auto close = [&]() { if (x.open) { x.c = dwrite(x.k, Ber()); x.k.clear(); x.open = false; } };
		switch (m) {
		case 0: *what = "empty contents"; close(); x.c.clear(); if (s.chance(1, 2)) x.pre.clear(); break;
		case 1: *what = "one byte of contents"; close(); if (x.pre.size()) x.c.clear(); x.c.resize(1); if (s.chance(1, 2)) x.c[0] = s.u8(); break;
		case 2: *what = "contents cut"; close(); x.c.resize(s.below(x.c.size() + 1)); break;
		case 3: *what = "last byte cut"; close(); if (x.c.size()) x.c.pop_back(); break;
		case 4: *what = "element missing"; v.erase(v.begin() + i); break;
		case 5: *what = "element doubled"; { DNode y = x; v.insert(v.begin() + i, y); } break;
		case 6: *what = "element replaced by another of the encoding"; { auto u = at[s.below(at.size())]; DNode y = (*u.first)[u.second]; v[i] = y; } break;
		case 7: *what = "two elements exchanged"; if (v.size() > 1) { size_t j = s.below(v.size()); if (j != i) { DNode y = v[i]; v[i] = v[j]; v[j] = y; } } break;
		case 8: *what = "another tag"; x.tag = "\x02\x03\x04\x05\x06\x30\x31\x22\x24\x23\x82\xa0\x42\x12\x01\x0a\x00"[s.below(17)] & 0xff; break;
		case 9: *what = "sign octets in front"; close(); { uint8_t f = s.chance(1, 2) ? 0 : 0xff; int n = s.range(1, s.chance(1, 4) ? 40 : 3); x.c.insert(x.c.begin(), n, f); } break;
		case 10: *what = "another element in between"; { DNode y; y.open = false; y.tag = "\x02\x05\x30\x04\x00\x06\x03\x31"[s.below(8)]; y.c = s.texture(s.below(5)); v.insert(v.begin() + i, y); } break;
		default: *what = "other contents"; close(); { Bytes y = s.texture(s.range(0, 20)); x.c = y; } break;
		}
	}
	return dwrite(r, s.chance(1, 4) ? Ber(s, 30) : Ber());
}
CASE(K05, restructured, 16000, 400000, F_FUZZ) { reseed(s); RKey k = s.chance(1, 2) ? rkey(s, 20, 20) : rkey(s, s.range(3, 60), s.range(3, 60)); int w = s.below(4); const char *what; Bytes b = restructure(s, enc(s, k, w, s.chance(1, 4) ? Ber(s, 25) : Ber()), &what); tryall(s, b, "restructured"); COVERF("restructured: %s", what); }
CASE(K05, mutated, 16000, 400000, F_FUZZ) { reseed(s); RKey k = s.chance(1, 3) ? rkey(s, 20, 20) : s.chance(1, 2) ? oddkey(s, 3) : rkey(s, s.range(3, 60), s.range(3, 60)); int w = s.below(4); Bytes b = mutate(s, enc(s, k, w, s.chance(1, 3) ? Ber(s, 25) : Ber())); tryall(s, b, "mutated"); vf_sample("mutated %s", vf_hex(b).c_str()); }
CASE(K05, tree, 16000, 400000, F_FUZZ) { reseed(s); Bytes b = rtree(s, s.range(1, 12)); if (s.chance(1, 4)) b = mutate(s, b); tryall(s, b, "random structure"); }
CASE(K05, raw, 8000, 200000, F_FUZZ) { reseed(s); size_t n = s.n ? s.n - s.i : s.below(60); tryall(s, s.bytes(n), "raw bytes"); }
CASE(K05, lenfield, 4000, 60000, 0)
{	// the length of one element replaced by extreme values
	reseed(s); RKey k = rkey(s, 20, 20); Bytes b = enc(s, k, idx % 4); std::vector<size_t> at; for (size_t i = 0; i + 1 < b.size(); i++) if (b[i] == 0x30 || b[i] == 2 || b[i] == 4 || b[i] == 3 || b[i] == 6 || b[i] == 5) at.push_back(i + 1);
	size_t i = at[s.below(at.size())]; static const uint32_t V[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x7ffffffe, 0x7fffff00, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0xfffffff0, 0xffffff00, 0x01000000 }; uint32_t v = s.chance(1, 4) ? (uint32_t)b.size() - (uint32_t)s.range(-6, (int)i + 6) : s.chance(1, 6) ? 0u - (uint32_t)s.range(0, 300) : V[s.below(18)]; int oct = s.range(1, 5); Bytes l; l.push_back(0x80 | oct); for (int j = oct - 1; j >= 0; j--) l.push_back(j >= 4 ? 0 : (uint8_t)(v >> (8 * j)));
	if (s.chance(1, 2)) b.erase(b.begin() + i); b.insert(b.begin() + i, l.begin(), l.end()); tryall(s, b, "extreme length"); COVERF("length in %d octets", oct);
}
CASE(K05, vast, 3, 12, F_ENUM | F_SLOW)
{	// numbers whose bit length does not fit an int
	if (WBIT == 32 || vf_vkey) return;
	reseed(s); size_t L = idx % 3 == 0 ? (1u << 28) + s.range(0, 60) - 20 : (idx % 3 == 1 ? (1u << 29) : (1u << 28) + (1u << 27)) + s.range(0, 40); bool mod = idx % 3 == 2; Bytes head = cat({ derlen(L) }), a = mod ? Bytes() : dint(Z(0xfffffffbll)), z = mod ? dint(Z(3)) : Bytes(); size_t body = a.size() + 1 + head.size() + L + z.size(); Bytes o = derlen(body);
	size_t n = 1 + o.size() + body; uint8_t *p = (uint8_t *)mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return; uint8_t *q = p; *q++ = 0x30; memcpy(q, o.data(), o.size()); q += o.size(); memcpy(q, a.data(), a.size()); q += a.size(); *q++ = 2; memcpy(q, head.data(), head.size()); q += head.size(); q[0] = 1; q[L - 1] = 3; q += L; if (z.size()) memcpy(q, z.data(), z.size());
	Rsa *k = NULL; int rc = RaRsaCreateKeyPub(p, (int)n, &k); COVER(rc ? "number of 2^28 bytes refused" : "number of 2^28 bytes taken"); if (rc == 0) { CHECK(k, "no-key", "success without a key"); int m = 0; RaRsaPubKeyToByteArray(k, NULL, 0, &m); RaRsaDestroyKeyPair(k); } munmap(p, n); vf_cover_max("bytes of one number", L);
}
CASE(K05, truncated, 160, 4000, 0)
{	// every proper prefix of every encoding is refused
	reseed(s); RKey k = s.chance(1, 8) ? poolkey(512, s.below(4)) : rkey(s, s.range(3, 60), s.range(3, 60)); int w = idx % 4; Bytes b = enc(s, k, w, s.chance(1, 2) ? Ber(s, 40) : Ber());
	for (size_t n = 0; n < b.size(); n++) { Bytes t(b.begin(), b.begin() + n); for (int f = 0; f < 3; f++) { KeyH h; int rc = h.load(f, t); CHECK(rc != 0, "truncated-accepted", "%s accepts the first %zu of %zu bytes of %s", I_NAME[f], n, b.size(), vf_hex(b).c_str()); } vf_distinct(vf_hash(t.data(), n)); COVER("truncated encodings"); }
	// truncated inside: the outer lengths still fit, an inner element is cut off
	for (int j = 0; j < 8; j++) { Bytes in = w & 1 ? pkcs1pub(k) : pkcs1priv(k); in.resize(s.below(in.size())); if (w < 2) { if (w == 1) in.insert(in.begin(), 0); Bytes o = w == 0 ? tlv(0x30, cat({ dint(Z(0)), algid(), tlv(4, in) })) : tlv(0x30, cat({ algid(), tlv(3, in) })); KeyH h; CHECK(h.load(I_ANY, o) != 0, "truncated-accepted", "a key cut off inside is accepted: %s", vf_hex(o).c_str()); COVER("cut off inside"); } }
}
CASE(K05, deep, 400, 8000, 0)
{	// nesting, many elements, end-of-content in odd places
	reseed(s); Bytes b; int m = idx % 5, n = s.range(1, idx % 50 == 0 ? 3000 : 40);
	if (m == 0) { for (int i = 0; i < n; i++) b = tlv(0x30, b, Ber(s, 30)); } else if (m == 1) { for (int i = 0; i < n; i++) { b.push_back(0x30); b.push_back(0x80); } if (s.chance(1, 2)) for (int i = 0; i < n + s.range(-1, 1); i++) { b.push_back(0); b.push_back(0); } } else if (m == 2) { for (int i = 0; i < n; i++) { Bytes x = dint(Z(s.range(0, 300) | 1)); b.insert(b.end(), x.begin(), x.end()); } b = tlv(0x30, b, Ber(s, 30)); } else if (m == 3) { for (int i = 0; i < n; i++) b.push_back(s.chance(1, 3) ? 0x30 : s.chance(1, 2) ? 0x80 : 0); } else { for (int i = 0; i < n; i++) { Bytes x = tlv(s.chance(1, 2) ? 0 : 5, Bytes()); b.insert(b.begin() + s.below(b.size() + 1), x.begin(), x.end()); } b = tlv(0x30, b, Ber(s, 60)); }
	if (s.chance(1, 3)) { Bytes k = enc(s, rkey(s, 10, 10), s.below(4)); b.insert(b.begin() + (s.chance(1, 2) ? 0 : b.size()), k.begin(), k.end()); } tryall(s, b, "nested or repeated");
}
// every byte of short encodings replaced by every value (thorough; a part of it in quick)
CASE(K05, bytes, 256, 256, F_ENUM)
{
	Src t(77); RKey k = rkey(t, 18, 19); reseed(s);
	for (int w = 0; w < 4; w++) { Bytes b = enc(t, k, w); for (size_t i = 0; i < b.size(); i++) { if (!vf_tier() && i > 30 && (i * 7 + idx) % 5) continue; Bytes x(b); x[i] = (uint8_t)idx; KeyH h; int f = w < 2 ? I_ANY : w == 2 ? I_PRIV : I_PUB; if (h.load(f, x) == 0) useall(h, s); COVER("single byte replaced"); vf_distinct(vf_hash(x.data(), x.size())); } }
}

// ---------------- K06: exactly what was encoded ----------------
static int faithful(Src &s, int w, const Bytes &b)
{
	KeyH h; int rc = h.load(w, b, s.below(16)); vf_distinct(vf_hash(b.data(), b.size(), w)); if (rc) return rc;
	Z f[8], g[8]; const char *why = ""; int n = rdnums(w, b.data(), b.size(), f, &why); CHECK(n, "accepted", "%s accepts an encoding that holds no key (%s): %s", I_NAME[w], why, vf_hex(b).c_str());
	CHECK(!f[0].neg() && !f[0].zero() && f[0].odd(), "modulus", "%s accepts the modulus %.200s", I_NAME[w], f[0].str().c_str());
	Bytes e = exported(h, n == 8); const char *w2; CHECK(rdany(e.data(), e.size(), g, &w2) == n, "numbers", "%s: export of the imported key is not readable: %s", I_NAME[w], w2);
	for (int i = 0; i < n; i++) ZEQ(g[i], f[i], "numbers", "%s, %s of %s", I_NAME[w], F_NAME[i], vf_hex(b).c_str());
	if (n == 2) { int l; CHECK(RaRsaPrivKeyToByteArray(h, NULL, 0, &l) != 0, "numbers", "a public encoding became a private key"); }
	return 0;
}
CASE(K06, mutated, 24000, 600000, F_FUZZ) { reseed(s); if (vf_vkey) return; RKey k = s.chance(1, 2) ? oddkey(s, 2) : rkey(s, s.range(3, 40), s.range(3, 40)); int w = s.below(4); Bytes b = enc(s, k, w, s.chance(1, 3) ? Ber(s, 25) : Ber()); b = mutate(s, b); int rc = faithful(s, w < 2 ? I_ANY : w == 2 ? I_PRIV : I_PUB, b); COVERF("mutated: %s", rc ? "refused" : "accepted, same numbers"); }
CASE(K06, restructured, 24000, 600000, F_FUZZ) { reseed(s); if (vf_vkey) return; RKey k = s.chance(1, 2) ? oddkey(s, 2) : rkey(s, s.range(3, 40), s.range(3, 40)); int w = s.below(4); const char *what; Bytes b = restructure(s, enc(s, k, w, s.chance(1, 4) ? Ber(s, 25) : Ber()), &what); int rc = faithful(s, w < 2 ? I_ANY : w == 2 ? I_PRIV : I_PUB, b); COVERF("restructured (%s): %s", what, rc ? "refused" : "accepted, same numbers"); }
CASE(K06, tree, 8000, 200000, F_FUZZ) { reseed(s); if (vf_vkey) return; Bytes b = rtree(s, s.range(1, 6)); for (int w = 0; w < 3; w++) { int rc = faithful(s, w, b); COVERF("structure: %s", rc ? "refused" : "accepted, same numbers"); } }
CASE(K06, ber, 6000, 150000, F_FUZZ)
{	// well-formed encodings with other length forms are taken
	reseed(s); RKey k = vf_vkey ? rkey(s, s.range(10, 60), s.range(10, 60)) : s.chance(1, 2) ? oddkey(s, s.range(1, 20)) : anykey(s, 512); int w = s.below(4); Bytes b = enc(s, k, w, Ber(s, s.chance(1, 4) ? 100 : s.range(5, 80))); int rc = faithful(s, w < 2 ? I_ANY : w == 2 ? I_PRIV : I_PUB, b);
	CHECK(rc == 0, "ber-refused", "%s refuses (%d) a well-formed encoding: %s", I_NAME[w < 2 ? 0 : w - 1], rc, vf_hex(b).c_str()); KeyH h; h.load(w < 2 ? I_ANY : w == 2 ? I_PRIV : I_PUB, b); Bytes e = exported(h, !(w & 1)); CHECK(e == (w & 1 ? spki(k) : pkcs8(k)), "numbers", "a BER encoding was imported with other numbers"); COVERF("BER encoding %d", w); vf_sample("BER %s", vf_hex(b).c_str());
}
CASE(K06, replaced, 12000, 300000, 0)
{	// one thing wrong in an otherwise good encoding: must be refused
	reseed(s); RKey k = rkey(s, s.range(10, 40), s.range(10, 40)); std::vector<Bytes> e; bool priv = s.chance(2, 3), wrap = s.chance(1, 2); if (priv) e.push_back(dint(Z(0))); for (int i = 0; i < (priv ? 8 : 2); i++) e.push_back(dint(k.f[i])); std::string what; Bytes oid = oidrsa(); int algtag = 0x30, oidtag = 6, seqtag = 0x30, boxtag = priv ? 4 : 3, rootag = 0x30, unused = 0; bool noalg = false, nobox = false, swapbox = false;
	int m = s.below(wrap ? 14 : 7), i = s.below(e.size());
	switch (m) {
	case 0: what = "missing element"; e.resize(i); break;
	case 1: { what = "element of another type"; static const int T[] = { 0x04, 0x03, 0x05, 0x06, 0x01, 0x0a, 0x22, 0x82, 0x42, 0x00, 0x30, 0x12 }; int t = T[s.below(12)]; if (t == 0) e[i] = tlv(0, Bytes()); else if (t & 0x20) e[i] = tlv(t, e[i]); else e[i][0] = (uint8_t)t; break; }
	case 2: what = "zero modulus"; e[priv] = dint(Z(0)); break;
	case 3: what = "even modulus"; e[priv] = dint(zshl(k.f[F_N], s.range(1, 9))); break;
	case 4: what = "negative modulus"; e[priv] = dint(-k.f[F_N]); break;
	case 5: what = "empty integer"; if (priv && i == 0) i = 1; e[i] = tlv(2, Bytes()); break;
	case 6: what = "other outer type"; seqtag = "\x31\x04\x02\x24\x70\xb0"[s.below(6)] & 0xff; break;
	case 7: { what = "other algorithm"; static const char *O[] = { "2a864886f70d010102", "2a864886f70d01010a", "2a8648ce3d0201", "2a864886f70d01010101", "2a864886f70d0101", "2b864886f70d010101", "2a864886f70d010181", "" , "2a8648ce380401", "2b6570" }; int j = s.below(12); if (j < 10) { oid.clear(); for (const char *p = O[j]; *p; p += 2) { unsigned x; sscanf(p, "%2x", &x); oid.push_back(x); } } else if (j == 10) { int b = s.below(72); oid[b / 8] ^= 1 << (b % 8); } else oid = s.bytes(9); if (oid == oidrsa()) oid[8] ^= 1; break; }
	case 8: what = "identifier of another type"; oidtag = s.chance(1, 2) ? 0x04 : s.chance(1, 2) ? 0x02 : 0x0d; break;
	case 9: what = "algorithm of another type"; algtag = s.chance(1, 2) ? 0x31 : 0x04; break;
	case 10: what = "key in another type"; boxtag = priv ? (s.chance(1, 2) ? 3 : 0x24) : (s.chance(1, 2) ? 4 : 0x23); break;
	case 11: what = "no algorithm"; noalg = true; break; case 12: what = "no key"; nobox = true; break; default: if (priv) { what = "algorithm after key"; swapbox = true; } else { what = "unused bits"; unused = s.range(1, 255); } 
	}
	Bytes c; for (auto &x : e) c.insert(c.end(), x.begin(), x.end()); Bytes b = tlv(seqtag, c); int w = priv ? I_PRIV : I_PUB;
	if (wrap) { Bytes al = noalg ? Bytes() : tlv(algtag, cat({ tlv(oidtag, oid), tlv(5, Bytes()) })); if (!priv) b.insert(b.begin(), (uint8_t)unused); Bytes bx = nobox ? Bytes() : tlv(boxtag, b); b = tlv(rootag, cat({ priv ? dint(Z(0)) : Bytes(), swapbox ? bx : al, swapbox ? al : bx })); w = I_ANY; }
	KeyH h; int rc = h.load(w, b, s.below(16)); CHECK(rc != 0, "accepted", "%s accepts a key with %s: %s", I_NAME[w], what.c_str(), vf_hex(b).c_str()); COVERF("refused: %s", what.c_str()); vf_distinct(vf_hash(b.data(), b.size()));
}
CASE(K06, oids, 72, 72, F_ENUM) { RKey k = rkey(s, 20, 20); for (int priv = 0; priv < 2; priv++) { Bytes b = priv ? pkcs8(k) : spki(k); size_t at = 0; for (; memcmp(&b[at], OIDRSA, 9); at++); b[at + idx / 8] ^= 1 << (idx % 8); KeyH h; CHECK(h.load(I_ANY, b) != 0, "accepted", "an identifier that differs in bit %d is accepted", (int)idx); COVER("identifier bit flipped"); vf_distinct(vf_hash(b.data(), b.size())); } }
CASE(K06, crossed, 300, 6000, 0)
{	// an encoding given to the function for another kind
	reseed(s); RKey k = rkey(s, s.range(10, 40), s.range(10, 40)); Bytes b[4]; for (int i = 0; i < 4; i++) b[i] = enc(s, k, i); static const bool ok[4][3] = { { 1, 0, 0 }, { 1, 0, 0 }, { 0, 1, -0 }, { 0, 0, 1 } };
	for (int i = 0; i < 4; i++) for (int w = 0; w < 3; w++) { if (i == 2 && w == I_PUB) continue; KeyH h; int rc = h.load(w, b[i]); CHECK((rc == 0) == ok[i][w], ok[i][w] ? "refused" : "accepted", "%s returned %d for encoding kind %d", I_NAME[w], rc, i); vf_distinct(vf_hash(b[i].data(), b[i].size(), w)); } COVER("kinds crossed");
}

// ---------------- K07: key verification ----------------
// 1 consistent, 0 inconsistent
static int fits(const Z *f)
{
	const Z &n = f[F_N], &p = f[F_P], &q = f[F_Q]; Z one(1);
	for (int i = 0; i < 8; i++) if (f[i].neg()) return 0;
	if (!(p * q == n) || p == q || !zprime(p) || !zprime(q)) return 0;
	Z p1 = p - one, q1 = q - one, ed = f[F_E] * f[F_D];
	if (zmod(ed, p1) != zmod(one, p1) || zmod(ed, q1) != zmod(one, q1)) return 0;
	if (zmod(f[F_DP], p1) != zmod(f[F_D], p1) || zmod(f[F_DQ], q1) != zmod(f[F_D], q1) || zmod(f[F_QI] * q, p) != zmod(one, p)) return 0;
	// PKCS #1: every exponent and the coefficient are reduced
	if (!(f[F_E] < n) || !(f[F_D] < n) || !(f[F_DP] < p1) || !(f[F_DQ] < q1) || !(f[F_QI] < p)) return 0;
	return 1;
}
static void judge(Src &s, const RKey &k, const char *what, bool repeat = false)
{
	int want = fits(k.f);
	for (int t = 0;; t++) {
		KeyH h; int rc = h.load(s.chance(1, 2) ? I_PRIV : I_PRIV, pkcs1priv(k)), imp = rc; if (rc == 0) rc = RaRsaVerifyKey(h); else CHECK(vf_vkey || (!k.f[F_N].odd() || k.f[F_N].zero()), "import", "import refused (%d) a key with %s", rc, what);
		vf_distinct(kh(k) + t);
		if (want == 1) { CHECK(rc == 0, "valid-refused", "a consistent key is refused by %s: %d; %s; n=%.100s e=%.40s d=%.100s p=%.60s q=%.60s", imp ? "import" : "RaRsaVerifyKey", rc, what, k.f[0].str().c_str(), k.f[1].str().c_str(), k.f[2].str().c_str(), k.f[3].str().c_str(), k.f[4].str().c_str()); COVERF("accepted: %s", what); return; }
		if (rc != 0) { COVERF("detected: %s", what); return; }
		// a composite passes the primality test once in a while
		if (repeat && t < 3) { COVER("composite prime passed once"); reseed(s); continue; }
		CHECK(0, "undetected", "RaRsaVerifyKey accepts a key with %s: n=%.150s e=%.60s d=%.150s p=%.80s q=%.80s dp=%.80s dq=%.80s qi=%.80s", what, k.f[0].str().c_str(), k.f[1].str().c_str(), k.f[2].str().c_str(), k.f[3].str().c_str(), k.f[4].str().c_str(), k.f[5].str().c_str(), k.f[6].str().c_str(), k.f[7].str().c_str());
	}
}
static Z alter(Src &s, const RKey &k, int i, const char **w)
{
	const Z &v = k.f[i]; int b = v.bits();
	switch (s.below(16)) {
	case 14: case 15:
	{	// congruent, but not reduced
		*w = "not reduced any more"; Z p1 = k.f[F_P] - Z(1), q1 = k.f[F_Q] - Z(1), m;
		switch (i) { case F_DP: m = p1; break; case F_DQ: m = q1; break; case F_QI: m = k.f[F_P]; break; case F_P: case F_Q: case F_N: m = k.f[F_N]; break; default: { Z x = v; m = p1 * q1; while (x < k.f[F_N]) x = x + m; return x; } }
		return v + m * Z(s.chance(2, 3) ? 1 : s.range(2, 300));
	}
	case 0: *w = "plus 1"; return v + Z(1); case 1: *w = "minus 1"; return v.zero() ? Z(1) : v - Z(1); case 2: *w = "plus 2"; return v + Z(2); case 3: *w = "minus 2"; return v < Z(2) ? v + Z(2) : v - Z(2);
	case 4: *w = "0"; return Z(); case 5: *w = "1"; return Z(1); case 6: case 7: { *w = "one bit altered"; Z x(v); int j = s.below(b + 2); if (BN_is_bit_set(x.v, j)) BN_clear_bit(x.v, j); else BN_set_bit(x.v, j); return x; }
	case 8: *w = "another number of the key"; return k.f[s.below(8)]; case 9: *w = "random number of that size"; return zmod(gnat(s, v.nwords()), Z::pow2(b > 0 ? b : 1)); case 10: *w = "multiple"; return v * Z(s.range(2, 5));
	case 11: *w = "a word longer"; return v + zshl(Z(s.range(1, 9)), WBIT * v.nwords()); case 12: { *w = "truncated to its low words"; int nw = v.nwords(); return zmod(v, Z::pow2(nw > 1 ? WBIT * (nw - 1) : (b + 1) / 2)); } default: *w = "plus an even number"; return v + zshl(Z(s.range(1, 100)), s.range(1, b + 1));
	}
}
CASE(K07, valid, 500, 12000, 0) { reseed(s); RKey k = anykey(s, 512); judge(s, k, "nothing wrong"); RKey r = k; std::swap(r.f[F_P], r.f[F_Q]); std::swap(r.f[F_DP], r.f[F_DQ]); r.f[F_QI] = zinv(r.f[F_Q], r.f[F_P]); judge(s, r, "primes in the other order"); vf_cover_max("valid key bits", k.f[F_N].bits()); KeyH h; loadpub(h, k, s); int rc = RaRsaVerifyKey(h); CHECK(rc == 0, "valid-refused", "RaRsaVerifyKey refuses a public key: %d", rc); COVER("public keys"); vf_sample("%d bit key", k.f[F_N].bits()); }
CASE(K07, altered, 8000, 240000, F_FUZZ) { reseed(s); RKey k = s.chance(1, 40) ? poolkey(512, s.below(4)) : rkey(s, s.range(8, 70), s.range(8, 70)); int i = (int)(idx % 8); const char *w; RKey x = k; x.f[i] = alter(s, k, i, &w); char nm[80]; snprintf(nm, sizeof nm, "%s: %s", F_NAME[i], w); judge(s, x, nm); }
CASE(K07, bits, 96, 2000, 0)
{	// every bit of every number
	reseed(s); RKey k = idx % 16 == 15 ? poolkey(512, 0) : rkey(s, s.range(20, 66), s.range(20, 66)); int st = k.f[F_N].bits() > 200 ? 9 : 1;
	for (int i = 0; i < 8; i++) for (int j = s.below(st); j < k.f[i].bits() + 1; j += st) { RKey x = k; if (BN_is_bit_set(x.f[i].v, j)) BN_clear_bit(x.f[i].v, j); else BN_set_bit(x.f[i].v, j); char nm[80]; snprintf(nm, sizeof nm, "%s: one bit altered", F_NAME[i]); judge(s, x, nm); }
}
CASE(K07, structured, 2400, 60000, 0)
{	// several numbers changed so that all relations but one still hold
	reseed(s); RKey k = rkey(s, s.range(20, 60), s.range(20, 60)); const Z p1 = k.f[F_P] - Z(1), q1 = k.f[F_Q] - Z(1); RKey x = k; const char *w; bool rep = false;
	switch (idx % 12) {
	case 0: { w = "composite prime, otherwise consistent"; rep = true; Z a = gprime(s, s.range(15, 30)), b = gprime(s, s.range(15, 30)), q = gprime(s, 40); if (a == b || !mkkey(x, a * b, q, Z(65537), s.chance(1, 2))) return; x.f[F_QI] = zinv(q, a * b); if (s.chance(1, 2)) { std::swap(x.f[F_P], x.f[F_Q]); std::swap(x.f[F_DP], x.f[F_DQ]); x.f[F_QI] = zinv(x.f[F_Q], x.f[F_P]); } break; }
	case 1: w = "equal primes"; x.f[F_Q] = x.f[F_P]; x.f[F_N] = x.f[F_P] * x.f[F_P]; x.f[F_D] = zinv(k.f[F_E], p1); if (x.f[F_D].zero()) return; if (s.chance(1, 2)) { Z ph = x.f[F_P] * p1; x.f[F_D] = zinv(k.f[F_E], ph); if (x.f[F_D].zero()) return; } x.f[F_DP] = x.f[F_DQ] = zmod(x.f[F_D], p1); x.f[F_QI] = s.chance(1, 2) ? Z(1) : Z(); break;
	case 2: w = "private exponent right for one prime only"; { Z t = zshl(p1, s.range(0, 3)); x.f[F_D] = zmod(k.f[F_D] + t, k.f[F_N]); x.f[F_DP] = zmod(x.f[F_D], p1); x.f[F_DQ] = zmod(x.f[F_D], q1); } break;
	case 3: w = "private exponent right for the other prime only"; x.f[F_D] = zmod(k.f[F_D] + q1, k.f[F_N]); x.f[F_DP] = zmod(x.f[F_D], p1); x.f[F_DQ] = zmod(x.f[F_D], q1); break;
	case 4: w = "exponent1 and exponent2 exchanged"; std::swap(x.f[F_DP], x.f[F_DQ]); break;
	case 5: w = "coefficient of the other order"; x.f[F_QI] = zinv(k.f[F_P], k.f[F_Q]); break;
	case 6: w = "primes exchanged alone"; std::swap(x.f[F_P], x.f[F_Q]); break;
	case 7: w = "other prime of the same size"; { int i = s.chance(1, 2) ? F_P : F_Q; x.f[i] = gprime(s, k.f[i].bits()); } break;
	case 8: w = "modulus of other primes"; x.f[F_N] = gprime(s, k.f[F_P].bits()) * gprime(s, k.f[F_Q].bits()); break;
	case 9: w = "trivial factors"; x.f[F_P] = s.chance(1, 2) ? Z(1) : k.f[F_N]; x.f[F_Q] = x.f[F_P] == Z(1) ? k.f[F_N] : Z(1); if (s.chance(1, 2)) { x.f[F_DP] = Z(); x.f[F_DQ] = Z(); x.f[F_QI] = Z(); } break;
	case 10: w = "private exponent negated"; { Z ph = p1 * q1; x.f[F_D] = zmod(-k.f[F_D], ph); x.f[F_DP] = zmod(x.f[F_D], p1); x.f[F_DQ] = zmod(x.f[F_D], q1); } break;
	default: w = "another key's public exponent"; for (int e : { 3, 5, 7, 17, 257 }) if (Z(e) != k.f[F_E]) { x.f[F_E] = Z(e); break; } break;
	}
	judge(s, x, w, rep);
}
CASE(K07, tiny, 21, 60, F_ENUM)
{	// all pairs of small primes, with consistent numbers and with every single small change
	static const int P[] = { 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79 }; reseed(s); int a = P[idx % 21];
	for (int b : P) if (a != b && (vf_tier() || b <= 43)) for (int e : { 3, 5, 7, 11 }) { RKey k; if (e >= a * b || !mkkey(k, Z(a), Z(b), Z(e), (a + b + e) & 2)) continue; judge(s, k, "tiny key"); for (int i = 0; i < 8; i++) for (int d = -2; d <= 2; d++) { if (!d) continue; RKey x = k; x.f[i] = x.f[i] + Z(d); if (x.f[i].neg()) continue; judge(s, x, "tiny key altered"); } }
}
CASE(K07, large, 6, 100, F_SLOW) { reseed(s); const RKey &k = poolkey(idx % 3 == 0 ? 2048 : 1024, s.below(4)); judge(s, k, "nothing wrong"); for (int i = 0; i < 8; i++) { const char *w; RKey x = k; x.f[i] = alter(s, k, i, &w); char nm[80]; snprintf(nm, sizeof nm, "%s: %s", F_NAME[i], w); judge(s, x, nm); } }
CASE(K07, anynumbers, 3000, 80000, F_FUZZ) { reseed(s); RKey k = oddkey(s, s.chance(1, 20) ? 12 : 3); if (s.chance(1, 3)) { k.f[F_P] = gprime(s, s.range(2, 50)); k.f[F_Q] = gnat(s, 1) + Z(1); k.f[F_N] = k.f[F_P] * k.f[F_Q]; BN_set_bit(k.f[F_N].v, 0); } judge(s, k, "arbitrary numbers"); }
CASE(K07, generated, 60, 1500, 0) { reseed(s); Rsa *r; int rc = RaRsaCreateKeyPair(34 + 2 * s.range(0, 100), &r); CHECK(rc == 0, "error", "%d", rc); KeyH h; h.k = r; rc = RaRsaVerifyKey(h); CHECK(rc == 0, "valid-refused", "a generated key is refused: %d", rc); Bytes e = exported(h, true); KeyH g; CHECK(g.load(I_ANY, e) == 0, "import", "refused"); rc = RaRsaVerifyKey(g); CHECK(rc == 0, "valid-refused", "a generated key is refused after export and import: %d", rc); COVER("generated keys"); vf_distinct(vf_hash(e.data(), e.size())); }
