// S01..S06: ciphers, modes, streaming, padding, RC4, context independence.
#include <sys/mman.h>
#include <openssl/evp.h>
#include "ref.h"

static Bytes mkkey(Src &s, int c)
{
	int n = c_keylen[c];
	if (c == C_BF) n = s.chance(1, 3) ? (int)s.range(1, 72) : s.chance(1, 4) ? 72 - (int)s.below(3) : (int)s.range(1, 16);
	return s.chance(1, 3) ? s.texture(n) : s.bytes(n);
}
struct Ctx {	// library context, on the heap by Create or in caller memory by Init
	int c; void *x; bool heap;
	Ctx() : c(0), x(NULL), heap(false) {}
	void open(int c_, const Bytes &key, int mode, bool h, uint8_t dirt = 0xA5)
	{
		c = c_; heap = h;
		if (h) { int r = c_create(c, key.data(), (int)key.size(), mode, &x); CHECK(r == 0 && x, "create", "%s create returned %d", c_name[c], r); }
		else { x = malloc(c_ctxsize(c)); memset(x, dirt, c_ctxsize(c)); c_init(c, x, key.data(), (int)key.size(), mode); }
	}
	void close() { if (x) { if (heap) c_destroy(c, x); else free(x); } x = NULL; }
	~Ctx() { close(); }
private: Ctx(const Ctx &); Ctx &operator=(const Ctx &);
};

// ---- S01 ----
static void std_enc(RefCipher &r, const uint8_t *in, uint8_t *w, bool enc) { vf_des_std = true; if (enc) r.enc(in, w); else r.dec(in, w); vf_des_std = false; }
// The library's DES is known to use 0 instead of 13 as the last entry of S-box 1 (see known_findings.json). A result that is
// exactly what that table gives is counted as the finding; anything else is judged against the standard.
static void known_des(RefCipher &r, const uint8_t *in, const uint8_t *got, uint8_t *w, bool enc)
{
	if (r.c < C_DES || r.c > C_EDE3 || !memcmp(got, w, 8)) return;
	uint8_t d[8]; if (enc) r.enc(in, d); else r.dec(in, d);
	if (!memcmp(got, d, 8) && memcmp(d, w, 8)) { vf_known("des-sbox1", "%s block %s becomes %s, the standard says %s", c_name[r.c], vf_hex(in, 8).c_str(), vf_hex(got, 8).c_str(), vf_hex(w, 8).c_str()); memcpy(w, d, 8); }
}
static void block_case(int c, const Bytes &key, Src &s, int nblocks)
{
	int B = c_blk[c]; RefCipher ref(c, key.data(), (int)key.size());
	Ctx x; Buf kb(key.size(), s.below(8)); memcpy(kb.p, key.data(), key.size());
	Bytes k2(kb.p, kb.p + key.size()); x.open(c, k2, RA_BLOCK_MODE_ECB, s.chance(1, 2));
	uint8_t prev[16]; s.fill(prev, 16);
	for (int i = 0; i < nblocks; i++) {
		Bytes in = s.chance(1, 4) ? Bytes(prev, prev + B) : s.texture(B);
		Buf ib(B, s.below(16)), ob(B, s.below(16)), db(B, s.below(16)); memcpy(ib.p, in.data(), B); uint8_t w[16];
		std_enc(ref, in.data(), w, true);
		int n = c_enc(c, x.x, ib.p, B, ob.p);
		known_des(ref, in.data(), ob.p, w, true);
		CHECK(n == B, "length", "%s encrypting one block returned %d", c_name[c], n);
		CHECK(!memcmp(ob.p, w, B), "value", "%s key %s block %s encrypts to %s, standard says %s", c_name[c], vf_hex(key).c_str(), vf_hex(in).c_str(), vf_hex(ob.p, B).c_str(), vf_hex(w, B).c_str());
		n = c_dec(c, x.x, ob.p, B, db.p);
		CHECK(n == B && !memcmp(db.p, in.data(), B), "inverse", "%s key %s: decrypting %s gives %s, not %s", c_name[c], vf_hex(key).c_str(), vf_hex(w, B).c_str(), vf_hex(db.p, B).c_str(), vf_hex(in).c_str());
		// decryption of an arbitrary block
		std_enc(ref, in.data(), w, false); n = c_dec(c, x.x, ib.p, B, db.p);
		known_des(ref, in.data(), db.p, w, false);
		CHECK(n == B && !memcmp(db.p, w, B), "value-dec", "%s key %s block %s decrypts to %s, standard says %s", c_name[c], vf_hex(key).c_str(), vf_hex(in).c_str(), vf_hex(db.p, B).c_str(), vf_hex(w, B).c_str());
		ob.check("cipher output"); db.check("cipher output"); ib.check("cipher input");
		CHECK(!memcmp(ib.p, in.data(), B), "input-changed", "%s changed its input block", c_name[c]);
		memcpy(prev, ob.p, B);
		vf_distinct(vf_hash(in.data(), B, vf_hash(key.data(), key.size(), c)));
	}
	COVERF("%s blocks", c_name[c]); if (c == C_BF) COVERF("Blowfish key %02zu bytes", key.size());
	vf_sample("%s key %s, %d blocks both ways", c_name[c], vf_hex(key).c_str(), nblocks);
}
CASE(S01, random, 60000, 2000000, F_FUZZ)
{
	int c = s.below(C_COUNT); if (c == C_BF && !s.chance(1, 4)) c = s.below(C_BF);	// Blowfish key setup is slow
	block_case(c, mkkey(s, c), s, s.range(1, 8));
}
// one-bit keys and one-bit blocks (variable key / variable text of the standards' known answer tests), then Monte Carlo chains
CASE(S01, single_bits, 11 * 256, 11 * 256, F_ENUM)
{
	int c = idx % 11; int bit = (int)(idx / 11); int kl = c_keylen[c]; if (bit >= kl * 8) bit %= kl * 8;
	Bytes key(kl, s.chance(1, 4) ? 0xff : 0); key[bit / 8] ^= 0x80 >> (bit % 8);
	block_case(c, key, s, 2);
	Bytes zero(kl, s.chance(1, 2) ? 0 : 0x5a); RefCipher ref(c, zero.data(), kl); Ctx x; x.open(c, zero, RA_BLOCK_MODE_ECB, true);
	int B = c_blk[c]; uint8_t b[16] = {0}, o[16], w[16]; b[bit / 8 % B] = 0x80 >> (bit % 8);
	c_enc(c, x.x, b, B, o); ref.enc(b, w); CHECK(!memcmp(o, w, B), "value", "%s fixed key, single-bit block %s gives %s not %s", c_name[c], vf_hex(b, B).c_str(), vf_hex(o, B).c_str(), vf_hex(w, B).c_str());
	c_dec(c, x.x, b, B, o); ref.dec(b, w); CHECK(!memcmp(o, w, B), "value-dec", "%s fixed key, decrypting single-bit block %s gives %s not %s", c_name[c], vf_hex(b, B).c_str(), vf_hex(o, B).c_str(), vf_hex(w, B).c_str());
}
CASE(S01, blowfish_keylen, 72 * 2, 72 * 40, F_ENUM) { block_case(C_BF, s.bytes(idx % 72 + 1), s, 3); }
// DES weak, semi-weak and related keys, degenerate 3DES keys
CASE(S01, des_special, 600, 6000, 0)
{
	static const uint64_t wk[] = {0x0101010101010101ull,0xFEFEFEFEFEFEFEFEull,0x1F1F1F1F0E0E0E0Eull,0xE0E0E0E0F1F1F1F1ull,0x011F011F010E010Eull,0x1F011F010E010E01ull,0x01E001E001F101F1ull,0xE001E001F101F101ull,0x01FE01FE01FE01FEull,0xFE01FE01FE01FE01ull,0,~0ull};
	int c = s.range(C_DES, C_EDE3); Bytes key(c_keylen[c]);
	for (size_t o = 0; o < key.size(); o += 8) { uint64_t k = s.chance(1, 3) ? s.u64() : wk[s.below(12)]; for (int i = 0; i < 8; i++) key[o + i] = (uint8_t)(k >> (56 - 8 * i)); if (o && s.chance(1, 3)) memcpy(&key[o], &key[0], 8); if (s.chance(1, 3)) key[o + s.below(8)] ^= 1; }
	block_case(c, key, s, 3);
}
CASE(S01, chains, 300, 8000, 0)
{
	int c = s.below(C_COUNT); Bytes key = mkkey(s, c); int B = c_blk[c]; RefCipher ref(c, key.data(), (int)key.size()); Ctx x; x.open(c, key, RA_BLOCK_MODE_ECB, true);
	uint8_t b[16], w[16], first[16]; s.fill(b, 16); memcpy(w, b, 16); memcpy(first, b, 16);
	for (int i = 0; i < 1000; i++) { c_enc(c, x.x, b, B, b); ref.enc(w, w); CHECK(!memcmp(b, w, B), "value", "%s key %s: chained encryption differs at step %d", c_name[c], vf_hex(key).c_str(), i); vf_distinct(vf_hash(b, B, c)); }
	for (int i = 0; i < 1000; i++) c_dec(c, x.x, b, B, b);
	CHECK(!memcmp(b, first, B), "inverse", "%s key %s: 1000 decryptions do not undo 1000 encryptions", c_name[c], vf_hex(key).c_str()); COVERF("%s chain", c_name[c]);
}

// ---- S02: modes over whole blocks, IV hand-over ----
static void modes_case(Src &s, bool big)
{
	int c = s.below(C_COUNT); if (c == C_BF && s.chance(2, 3)) c = s.below(C_BF);
	int mode = s.below(4), B = c_blk[c]; bool enc = s.chance(1, 2);
	Bytes key = mkkey(s, c); RefCipher ref(c, key.data(), (int)key.size());
	Ctx x; x.open(c, key, mode, s.chance(1, 2), s.u8());
	uint8_t iv[16] = {0}, got[16]; uint64_t h = vf_hash(key.data(), key.size(), c * 8 + mode * 2 + enc);
	Buf g0(B); c_getiv(c, x.x, g0.p); g0.check("GetIV");
	CHECK(!memcmp(g0.p, iv, B), "initial-iv", "%s: a fresh context does not start with an all-zero IV but %s", c_name[c], vf_hex(g0.p, B).c_str());
	if (s.chance(3, 4)) { Buf ib(B, s.below(8)); Bytes t = s.texture(B); memcpy(ib.p, t.data(), B); memcpy(iv, t.data(), B); c_setiv(c, x.x, ib.p); CHECK(!memcmp(ib.p, iv, B), "input-changed", "SetIV changed its argument"); COVER("explicit IV"); }
	else COVER("zero IV");
	int calls = s.range(1, 6);
	for (int k = 0; k < calls; k++) {
		size_t nb = big ? s.below(6000) : s.chance(1, 6) ? s.below(80) : s.below(9);
		Bytes in = s.texture(nb * B), want(nb * B); Buf ib(nb * B, s.below(16)), ob(nb * B, s.below(16)); if (nb) memcpy(ib.p, in.data(), nb * B);
		ref_mode(ref, mode, enc, iv, in.data(), nb, want.data());
		bool ip = s.chance(1, 4); uint8_t *o = ip ? ib.p : ob.p;
		int n = enc ? c_enc(c, x.x, ib.p, (int)(nb * B), o) : c_dec(c, x.x, ib.p, (int)(nb * B), o);
		CHECK(n == (int)(nb * B), "length", "%s mode %d %s of %zu blocks returned %d", c_name[c], mode, enc ? "encrypt" : "decrypt", nb, n);
		CHECK(!nb || !memcmp(o, want.data(), nb * B), "value", "%s mode %d key %s %s%s call %d of %zu blocks: got %s expected %s", c_name[c], mode, vf_hex(key).c_str(), enc ? "encrypt" : "decrypt", ip ? " in place" : "", k, nb, vf_hex(o, nb * B).c_str(), vf_hex(want).c_str());
		ob.check("cipher output"); ib.check("cipher input"); if (ip) COVER("in place"); CHECK(!nb || ip || !memcmp(ib.p, in.data(), nb * B), "input-changed", "%s changed its input", c_name[c]);
		c_getiv(c, x.x, got);
		if (mode != RA_BLOCK_MODE_ECB) CHECK(!memcmp(got, iv, B), "iv", "%s mode %d %s: after %zu blocks the IV reads %s, the chaining value is %s", c_name[c], mode, enc ? "encrypt" : "decrypt", nb, vf_hex(got, B).c_str(), vf_hex(iv, B).c_str());
		h = vf_hash(in.data(), in.size(), h);
		if (s.chance(1, 3)) {	// continue in another context of the same key
			x.close(); x.open(c, key, mode, s.chance(1, 2), s.u8()); c_setiv(c, x.x, got); COVER("stream continued in another context through GetIV/SetIV");
			if (mode == RA_BLOCK_MODE_ECB) memcpy(iv, got, B);
		}
		COVERF("%s mode %d %s", c_name[c], mode, enc ? "enc" : "dec"); vf_cover_max("blocks in one call", nb);
	}
	vf_distinct(h); vf_sample("%s mode %d %s key %s, %d calls", c_name[c], mode, enc ? "encrypt" : "decrypt", vf_hex(key).c_str(), calls);
}
CASE(S02, modes, 60000, 2000000, F_FUZZ) { modes_case(s, false); }
CASE(S02, long_data, 60, 2000, 0) { modes_case(s, true); }
// every cipher, mode and direction with every whole-block count 0..20
CASE(S02, matrix, 11 * 4 * 2 * 21, 11 * 4 * 2 * 300, F_ENUM)
{
	int c = idx % 11, mode = idx / 11 % 4; bool enc = idx / 44 % 2; size_t nb = idx / 88; int B = c_blk[c]; Bytes key = s.bytes(c_keylen[c]); RefCipher ref(c, key.data(), (int)key.size());
	Ctx x; x.open(c, key, mode, true); uint8_t iv[16], got[16]; s.fill(iv, 16); c_setiv(c, x.x, iv);
	Bytes in = s.bytes(nb * B), want(nb * B), out(nb * B + 1);
	ref_mode(ref, mode, enc, iv, in.data(), nb, want.data());
	int n = enc ? c_enc(c, x.x, in.data(), (int)in.size(), out.data()) : c_dec(c, x.x, in.data(), (int)in.size(), out.data()); c_getiv(c, x.x, got);
	CHECK(n == (int)in.size() && !memcmp(out.data(), want.data(), in.size()) , "value", "%s mode %d %s of %zu blocks", c_name[c], mode, enc ? "encrypt" : "decrypt", nb);
	if (mode) CHECK(!memcmp(got, iv, B), "iv", "%s mode %d %s IV after %zu blocks", c_name[c], mode, enc ? "encrypt" : "decrypt", nb);
	vf_distinct(vf_hash(in.data(), in.size(), idx));
}

// ---- S03: streaming; the model is the reference plus a byte buffer ----
static void stream_case(Src &s, int maxcalls, int maxlen, bool inplace)
{
	int c = s.below(C_COUNT); if (c == C_BF && s.chance(2, 3)) c = s.below(C_BF);
	int mode = s.below(4), B = c_blk[c]; bool enc = s.chance(1, 2); Bytes key = mkkey(s, c); RefCipher ref(c, key.data(), (int)key.size());
	Ctx x; x.open(c, key, mode, s.chance(1, 2)); uint8_t iv[16]; s.fill(iv, 16); c_setiv(c, x.x, iv);
	Bytes pend; int calls = s.range(1, maxcalls); uint64_t h = c * 16 + mode * 2 + enc, total = 0;
	for (int k = 0; k < calls; k++) {
		size_t n; int f = (int)pend.size();
		switch (s.below(10)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = B - f; break; case 3: n = B - f + s.range(f == B ? 0 : -1, 1); break; case 4: n = B; break; case 5: n = (size_t)B * s.range(1, 5); break; case 6: n = 2 * B - f; break; case 7: n = s.below(maxlen); break; default: n = s.below(3 * B); }
		if (inplace && !f) n = n / B * B;
		bool ip = inplace && !f && n % B == 0 && n;
		Bytes in = s.texture(n); pend.insert(pend.end(), in.begin(), in.end()); size_t nb = pend.size() / B; Bytes want(nb * B);
		ref_mode(ref, mode, enc, iv, pend.data(), nb, want.data()); pend.erase(pend.begin(), pend.begin() + nb * B);
		Buf ib(n, s.below(16)), ob(nb * B, s.below(16)); if (n) memcpy(ib.p, in.data(), n);
		uint8_t *o = ip ? ib.p : ob.p;
		int r = enc ? c_enc(c, x.x, ib.p, (int)n, o) : c_dec(c, x.x, ib.p, (int)n, o);
		CHECK(r == (int)(nb * B), "count", "%s mode %d %s: call %d with %zu bytes (%d buffered) returned %d, %zu bytes of complete blocks are available", c_name[c], mode, enc ? "encrypt" : "decrypt", k, n, f, r, nb * B);
		CHECK(!nb || !memcmp(o, want.data(), nb * B), "value", "%s mode %d %s%s: call %d with %zu bytes (%d buffered) wrote %s, expected %s", c_name[c], mode, enc ? "encrypt" : "decrypt", ip ? " in place" : "", k, n, f, vf_hex(o, nb * B).c_str(), vf_hex(want).c_str());
		ob.check("cipher output"); ib.check("cipher input"); if (!ip) CHECK(!n || !memcmp(ib.p, in.data(), n), "input-changed", "%s changed its input", c_name[c]);
		h = vf_mix(h ^ n); total += n; COVERF("fill %s, call %s", f ? f == B - 1 ? "last" : "partial" : "empty", n == 0 ? "empty" : (f + n) % B == 0 ? "to a boundary" : nb ? "over a boundary" : "inside a block"); if (ip) COVER("in place");
	}
	COVERF("%s mode %d %s", c_name[c], mode, enc ? "enc" : "dec"); vf_distinct(vf_hash(key.data(), key.size(), h)); vf_cover_max("longest stream", total); vf_sample("%s mode %d %s: %d calls, %llu bytes", c_name[c], mode, enc ? "encrypt" : "decrypt", calls, (unsigned long long)total);
}
CASE(S03, streams, 60000, 1500000, F_FUZZ) { stream_case(s, 12, 200, s.chance(1, 3)); }
CASE(S03, long_streams, 150, 5000, 0) { stream_case(s, 400, s.chance(1, 4) ? 30000 : 2000, s.chance(1, 2)); }
CASE(S03, huge_calls, 24, 400, 0) { stream_case(s, 4, 1 << 20, s.chance(1, 2)); }
// all two-call splits of short streams
// one call of almost 2^31 bytes, with and without a few bytes already waiting; the input is zero pages
static uint8_t *vast_map(size_t n) { uint8_t *p = (uint8_t *)mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? NULL : p; }
CASE(S03, vast_call, 2, 16, F_SLOW)
{
	if (vf_asan() || sizeof(bn_uint_t) == 4) return;
	int mode = s.below(4), a = s.range(0, 15), n = 0x7fffffff - a - (s.chance(1, 2) ? 0 : s.range(0, 40)); bool enc = s.chance(1, 2); Bytes key = s.bytes(16); uint8_t iv[16], z[16] = { 0 }, o[32], w[32]; s.fill(iv, 16);
	uint8_t *p = vast_map((size_t)n + 64), *in = vast_map(n); if (!p || !in) return; Ctx x; x.open(C_AES128, key, mode, true); c_setiv(C_AES128, x.x, iv);
	CHECK((enc ? c_enc : c_dec)(C_AES128, x.x, z, a, o) == 0, "length", "%d bytes produced output", a);
	int r = (enc ? c_enc : c_dec)(C_AES128, x.x, in, n, p), total = (a + n) / 16 * 16; CHECK(r == total, "length", "AES-128 %s of %d bytes after %d returned %d, not %d", enc ? "encryption" : "decryption", n, a, r, total);
	EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new(); EVP_CipherInit_ex(e, mode == RA_BLOCK_MODE_ECB ? EVP_aes_128_ecb() : mode == RA_BLOCK_MODE_CBC ? EVP_aes_128_cbc() : mode == RA_BLOCK_MODE_CFB ? EVP_aes_128_cfb128() : EVP_aes_128_ofb(), NULL, key.data(), iv, enc); EVP_CIPHER_CTX_set_padding(e, 0);
	Bytes zin(1 << 20), want(1 << 20); for (int at = 0; at < total;) { int m = std::min(1 << 20, total - at), l = 0; EVP_CipherUpdate(e, want.data(), &l, zin.data(), m); CHECK(l == m && !memcmp(want.data(), p + at, m), "value", "AES-128 %s of %d bytes after %d differs between bytes %d and %d", enc ? "encryption" : "decryption", n, a, at, at + m); at += m; }
	int rest = a + n - total, l = 0; r = (enc ? c_enc : c_dec)(C_AES128, x.x, z, 16 - rest, o); EVP_CipherUpdate(e, w, &l, z, 16); CHECK(r == 16 && !memcmp(o, w, 16), "value", "AES-128: the block after a call of %d bytes is wrong (%d)", n, r);
	EVP_CIPHER_CTX_free(e); munmap(p, (size_t)n + 64); munmap(in, n); COVERF("call of almost 2^31 bytes, mode %d %s", mode, enc ? "enc" : "dec"); vf_cover_max("bytes in one call", n); vf_distinct(vf_hash(key.data(), 16, n));
}
CASE(S03, splits, 11 * 4 * 2 * 2, 11 * 4 * 2 * 12, F_ENUM)
{
	int c = idx % 11, mode = idx / 11 % 4; bool enc = idx / 44 % 2; int B = c_blk[c]; Bytes key = s.bytes(c_keylen[c]); RefCipher ref(c, key.data(), (int)key.size());
	uint8_t iv0[16]; s.fill(iv0, 16); size_t L = 3 * B + s.below(B); Bytes in = s.bytes(L), want(L); uint8_t iv[16]; memcpy(iv, iv0, 16); ref_mode(ref, mode, enc, iv, in.data(), L / B, want.data());
	Ctx x; x.open(c, key, mode, true);
	for (size_t i = 0; i <= L; i++) for (int third = 0; third < 3; third++) {
		size_t j = third == 0 ? L : i + s.below(L - i + 1); Buf out(L / B * B); c_setiv(c, x.x, iv0); size_t pos = 0, cut[4] = {0, i, j, L};
		for (int k = 0; k < 3; k++) { size_t n = cut[k + 1] - cut[k]; int r = enc ? c_enc(c, x.x, in.data() + cut[k], (int)n, out.p + pos) : c_dec(c, x.x, in.data() + cut[k], (int)n, out.p + pos); size_t exp = cut[k + 1] / B * B - cut[k] / B * B; CHECK(r == (int)exp, "count", "%s mode %d: bytes %zu..%zu of a stream returned %d not %zu", c_name[c], mode, cut[k], cut[k + 1], r, exp); pos += r; }
		CHECK(!memcmp(out.p, want.data(), L / B * B), "value", "%s mode %d %s split at %zu,%zu of %zu", c_name[c], mode, enc ? "encrypt" : "decrypt", i, j, L); out.check("cipher output"); vf_distinct(vf_mix(idx * 1000003 + i * 1000 + j));
	}
}

// ---- S04: padding and final ----
static size_t pad_len(int pad, size_t n, int B) { return pad == RA_BLOCK_PADDING_PKCS7 ? n / B * B + B : pad == RA_BLOCK_PADDING_ZERO ? (n + B - 1) / B * B : n / B * B; }
static void final_case(int c, int mode, int pad, size_t L, Src &s)
{
	int B = c_blk[c]; Bytes key = c == C_BF ? s.bytes(8) : mkkey(s, c); RefCipher ref(c, key.data(), (int)key.size()); uint8_t iv0[16], iv[16]; s.fill(iv0, 16);
	Ctx x, y; x.open(c, key, mode, true); y.open(c, key, mode, false);
	for (int round = 0; round < 2; round++) {	// the second message must not see anything of the first
		if (round) L = s.below(5 * B);
		Bytes pt = s.texture(L), padded = pt; size_t P = pad_len(pad, L, B);
		if (pad == RA_BLOCK_PADDING_PKCS7) padded.resize(P, (uint8_t)(P - L)); else if (pad == RA_BLOCK_PADDING_ZERO) padded.resize(P, 0); else padded.resize(P);
		Bytes want(P); memcpy(iv, iv0, 16);
		if (round == 0 || s.chance(1, 2)) { c_setiv(c, x.x, iv0); c_setiv(c, y.x, iv0); } else { c_getiv(c, x.x, iv); uint8_t t[16]; c_getiv(c, y.x, t); if (mode && memcmp(t, iv, B)) { c_setiv(c, x.x, iv0); c_setiv(c, y.x, iv0); memcpy(iv, iv0, 16); } COVER("second message without SetIV"); }
		uint8_t ivd[16]; memcpy(ivd, iv, 16);
		ref_mode(ref, mode, true, iv, padded.data(), P / B, want.data());
		// encryption: some of the data through Encrypt, the rest through EncryptFinal
		size_t cut = s.chance(1, 3) ? 0 : s.chance(1, 3) ? L : s.below(L + 1); Buf ob(P, s.below(16)), ib(L, s.below(16)); if (L) memcpy(ib.p, pt.data(), L);
		bool ip = L && L % B == 0 && cut % B == 0 && s.chance(1, 3); if (ip) { memcpy(ob.p, pt.data(), L); COVER("final in place"); }
		uint8_t *src = ip ? ob.p : ib.p; int r1 = c_enc(c, x.x, src, (int)cut, ob.p), r2 = c_encfin(c, x.x, src + cut, (int)(L - cut), ob.p + r1, pad);
		CHECK(r1 + r2 == (int)P, "enc-length", "%s mode %d padding %d: %zu bytes (%zu before final) gave %d+%d bytes, expected %zu", c_name[c], mode, pad, L, cut, r1, r2, P);
		CHECK(!P || !memcmp(ob.p, want.data(), P), "enc-value", "%s mode %d padding %d: %zu bytes encrypted to %s, expected %s", c_name[c], mode, pad, L, vf_hex(ob.p, P).c_str(), vf_hex(want).c_str());
		ob.check("EncryptFinal output"); ib.check("EncryptFinal input");
		// decryption, all of it in the final call (padding can only be stripped from what that call writes) or with a tail of at least one block
		size_t dcut = (P >= (size_t)B && s.chance(1, 2)) ? s.below(P / B) * B + (P / B > 1 && s.chance(1, 2) ? s.below(B) : 0) : 0; if (dcut > P) dcut = 0;
		size_t dwrote = dcut / B * B; Buf db(P, s.below(16));
		bool dp = P && dcut % B == 0 && s.chance(1, 3); if (dp) memcpy(db.p, want.data(), P); const uint8_t *dsrc = dp ? db.p : want.data();
		int d1 = c_dec(c, y.x, dsrc, (int)dcut, db.p); CHECK(d1 == (int)dwrote, "dec-count", "%s mode %d: decrypting %zu bytes returned %d", c_name[c], mode, dcut, d1);
		int d2 = c_decfin(c, y.x, dsrc + dcut, (int)(P - dcut), db.p + d1, pad);
		size_t exp = pad == RA_BLOCK_PADDING_PKCS7 ? L : P;
		CHECK(d1 + d2 == (int)exp, "dec-length", "%s mode %d padding %d: decrypting %zu bytes of padded ciphertext of %zu bytes (%zu before final) returned %d+%d", c_name[c], mode, pad, P, L, dcut, d1, d2);
		size_t cmp = exp < L ? exp : L; CHECK(!cmp || !memcmp(db.p, pt.data(), cmp), "dec-value", "%s mode %d padding %d: round trip of %zu bytes changed the data", c_name[c], mode, pad, L);
		if (pad == RA_BLOCK_PADDING_ZERO) for (size_t i = L; i < P; i++) CHECK(db.p[i] == 0, "dec-value", "zero padding is not zero");
		db.check("DecryptFinal output");
		COVERF("%s mode %d padding %d", c_name[c], mode, pad); COVERF("padding %d length %s", pad, L % B == 0 ? L ? "multiple" : "zero" : "partial"); vf_distinct(vf_hash(pt.data(), L, vf_mix(c * 64 + mode * 8 + pad + cut * 1000)));
	}
	vf_sample("%s mode %d padding %d, message of %zu bytes", c_name[c], mode, pad, L);
}
CASE(S04, roundtrip_matrix, 11 * 4 * 3 * 70, 11 * 4 * 3 * 600, F_ENUM) { int c = idx % 11; final_case(c, idx / 11 % 4, idx / 44 % 3, idx / 132, s); }
CASE(S04, roundtrip, 30000, 800000, F_FUZZ) { int c = s.below(C_COUNT); if (c == C_BF && s.chance(2, 3)) c = 0; final_case(c, s.below(4), s.below(3), s.chance(1, 30) ? s.below(20000) : s.below(100), s); }
// decryption of arbitrary (mostly badly padded) data: the model decides what may be stripped
static void badpad(Src &s, int forced_last)
{
	int c = s.below(C_COUNT - 1), mode = s.below(4), B = c_blk[c]; Bytes key = mkkey(s, c); RefCipher ref(c, key.data(), (int)key.size()); uint8_t iv0[16], iv[16]; s.fill(iv0, 16); memcpy(iv, iv0, 16);
	size_t nb = s.range(0, 4), extra = s.chance(1, 3) ? s.below(B) : 0; Bytes pt = s.bytes(nb * B), ct(nb * B);
	int v = forced_last >= 0 ? forced_last : s.chance(1, 2) ? s.range(0, B + 2) : s.u8(), k = s.chance(1, 3) ? v : s.range(0, B);
	if (nb) { for (int i = 0; i < k && i < (int)pt.size(); i++) pt[pt.size() - 1 - i] = (uint8_t)v; pt[pt.size() - 1] = (uint8_t)v; if (s.chance(1, 4) && k > 1 && v > 1 && v <= B) pt[pt.size() - 1 - s.range(1, v - 1)] ^= 1 << s.below(8); }
	ref_mode(ref, mode, true, iv, pt.data(), nb, ct.data());
	for (size_t i = 0; i < extra; i++) ct.push_back(s.u8());
	Ctx x; x.open(c, key, mode, true); c_setiv(c, x.x, iv0);
	size_t before = s.chance(1, 3) ? s.below(ct.size() + 1) : 0; Buf ob(nb * B, s.below(16)), ib(ct.size(), s.below(8)); if (ct.size()) memcpy(ib.p, ct.data(), ct.size());
	int r1 = c_dec(c, x.x, ib.p, (int)before, ob.p); CHECK(r1 == (int)(before / B * B), "dec-count", "decrypt count %d", r1);
	int r2 = c_decfin(c, x.x, ib.p + before, (int)(ct.size() - before), ob.p + r1, RA_BLOCK_PADDING_PKCS7);
	size_t wrote = nb * B - r1; int strip = 0;
	if (wrote) { int last = pt[pt.size() - 1]; if (last >= 1 && last <= B) { strip = last; for (int i = 0; i < last; i++) if (pt[pt.size() - 1 - i] != last) strip = 0; } }
	CHECK(r2 == (int)wrote - strip, "badpad-length", "%s mode %d: final decryption wrote %zu bytes ending in %s and returned %d, expected %d", c_name[c], mode, wrote, nb ? vf_hex(&pt[pt.size() - B], B).c_str() : "", r2, (int)wrote - strip);
	CHECK(!nb || !memcmp(ob.p, pt.data(), nb * B - strip), "badpad-value", "%s mode %d: data of a badly padded message changed", c_name[c], mode); ob.check("DecryptFinal output"); ib.check("input");
	// nothing left over: the next message is decrypted as by a new context
	c_setiv(c, x.x, iv0); memcpy(iv, iv0, 16); Bytes z = s.bytes(B), w(B); ref_mode(ref, mode, false, iv, z.data(), 1, w.data()); uint8_t o[32]; int r3 = c_dec(c, x.x, z.data(), B, o); CHECK(r3 == B && !memcmp(o, w.data(), B), "leftover", "after DecryptFinal the context is not clean");
	COVERF("last byte %s, %s", !wrote ? "absent" : v == 0 ? "0" : v > B ? "above block size" : v == B ? "block size" : "in range", strip ? "stripped" : "kept"); if (extra) COVER("incomplete trailing block"); vf_distinct(vf_hash(pt.data(), pt.size(), vf_mix(c * 4 + mode + before * 100)));
	vf_sample("%s mode %d: plaintext tail %s, stripped %d", c_name[c], mode, nb ? vf_hex(&pt[pt.size() - B], B).c_str() : "-", strip);
}
CASE(S04, bad_padding, 40000, 1000000, F_FUZZ) { badpad(s, -1); }
CASE(S04, last_byte_values, 256 * 8, 256 * 100, F_ENUM) { badpad(s, idx % 256); }
// after a final call without SetIV: buffered bytes of the finished message never reappear
CASE(S04, no_leftover, 8000, 200000, F_FUZZ)
{
	int c = s.below(C_COUNT - 1), mode = s.below(4), B = c_blk[c], pad = s.below(3); Bytes key = mkkey(s, c); RefCipher ref(c, key.data(), (int)key.size()); Ctx x; x.open(c, key, mode, true);
	for (int k = 0; k < 4; k++) {
		bool enc = s.chance(1, 2); Bytes m = s.bytes(s.below(3 * B)); Buf ob(m.size() + 2 * B); uint8_t iv[16], want[16], nxt[16], o[16];
		if (s.chance(1, 2)) { size_t cut = s.below(m.size() + 1); int r = enc ? c_enc(c, x.x, m.data(), (int)cut, ob.p) : c_dec(c, x.x, m.data(), (int)cut, ob.p); (void)r; if (enc) c_encfin(c, x.x, m.data() + cut, (int)(m.size() - cut), ob.p, pad); else c_decfin(c, x.x, m.data() + cut, (int)(m.size() - cut), ob.p, pad); }
		else if (enc) c_encfin(c, x.x, m.data(), (int)m.size(), ob.p, pad); else c_decfin(c, x.x, m.data(), (int)m.size(), ob.p, pad);
		c_getiv(c, x.x, iv); s.fill(nxt, B); bool e2 = s.chance(1, 2);
		ref_mode(ref, mode, e2, iv, nxt, 1, want); int r = e2 ? c_enc(c, x.x, nxt, B, o) : c_dec(c, x.x, nxt, B, o);
		CHECK(r == B && !memcmp(o, want, B), "leftover", "%s mode %d: after %s-final with padding %d of %zu bytes the next block came out as %s (count %d), expected %s", c_name[c], mode, enc ? "encrypt" : "decrypt", pad, m.size(), vf_hex(o, B).c_str(), r, vf_hex(want, B).c_str());
		vf_distinct(vf_hash(m.data(), m.size(), vf_mix(c * 32 + mode * 8 + pad * 2 + enc))); COVERF("%s final padding %d then next message", enc ? "encrypt" : "decrypt", pad);
	}
}

// ---- S05: RC4 ----
static void rc4_case(Src &s, int klen, int maxlen)
{
	Bytes key = s.texture(klen > 0 ? klen : 0); Bytes rk = key; if (klen <= 0) rk.assign(1, 0);
	RC4_KEY rc; RC4_set_key(&rc, (int)rk.size(), rk.data());
	Buf kb(key.size(), s.below(8)); if (key.size()) memcpy(kb.p, key.data(), key.size());
	const uint8_t *kp = klen == 0 && s.chance(1, 2) ? NULL : kb.p;
	bool heap = s.chance(1, 2); RaRc4Ctx *x = NULL; RaRc4Ctx st; memset(&st, s.u8(), sizeof st);
	if (heap) { int r = RaRc4Create(kp, klen, &x); CHECK(r == 0 && x, "create", "RaRc4Create returned %d", r); } else { x = &st; RaRc4Init(x, kp, klen); }
	struct F { RaRc4Ctx *x; bool h; ~F() { if (h) RaRc4Destroy(x); } } f = { x, heap };
	int calls = s.range(1, 8); uint64_t total = 0;
	for (int k = 0; k < calls; k++) {
		size_t n = s.chance(1, 6) ? s.below(maxlen) : s.below(70); Bytes in = s.texture(n), want(n); if (n) RC4(&rc, n, in.data(), want.data());
		Buf ib(n, s.below(16)), ob(n, s.below(16)); if (n) memcpy(ib.p, in.data(), n); bool ip = s.chance(1, 3), dec = s.chance(1, 2); uint8_t *o = ip ? ib.p : ob.p;
		int r = dec ? RaRc4Decrypt(x, ib.p, (int)n, o) : RaRc4Encrypt(x, ib.p, (int)n, o);
		CHECK(r == (int)n, "length", "RC4 call of %zu bytes returned %d", n, r);
		CHECK(!n || !memcmp(o, want.data(), n), "value", "RC4 key %s: %zu bytes at offset %llu are %s, expected %s", vf_hex(key).c_str(), n, (unsigned long long)total, vf_hex(o, n).c_str(), vf_hex(want).c_str());
		ob.check("RC4 output"); ib.check("RC4 input"); if (!ip) CHECK(!n || !memcmp(ib.p, in.data(), n), "input-changed", "RC4 changed its input"); total += n; COVERF("%s%s", dec ? "decrypt" : "encrypt", ip ? " in place" : "");
	}
	CHECK(!key.size() || !memcmp(kb.p, key.data(), key.size()), "input-changed", "RC4 changed its key");
	vf_cover_max("longest keystream", total); vf_distinct(vf_hash(rk.data(), rk.size(), total)); COVERF("key length %s", klen == 0 ? "0" : klen == 1 ? "1" : klen < 16 ? "2..15" : klen < 256 ? "16..255" : "256");
	vf_sample("key of %d bytes, %d calls, %llu bytes", klen, calls, (unsigned long long)total);
}
CASE(S05, key_lengths, 257 * 20, 257 * 400, F_ENUM) { rc4_case(s, idx % 257, 2000); }
CASE(S05, random, 20000, 400000, F_FUZZ) { rc4_case(s, s.chance(1, 2) ? s.range(0, 256) : s.range(1, 32), s.chance(1, 10) ? 70000 : 1000); }
CASE(S05, long_stream, 16, 200, 0)
{
	Bytes key = s.bytes(s.range(1, 256)); RC4_KEY rc; RC4_set_key(&rc, (int)key.size(), key.data()); RaRc4Ctx *x = NULL; CHECK(RaRc4Create(key.data(), (int)key.size(), &x) == 0, "create", "create failed"); struct F { RaRc4Ctx *x; ~F() { RaRc4Destroy(x); } } f = { x };
	Bytes in = s.bytes(1 << 18), o(1 << 18), w(1 << 18); for (int i = 0; i < (vf_asan() ? 4 : 24); i++) { size_t n = (1 << 18) - s.below(5000); RaRc4Encrypt(x, in.data(), (int)n, o.data()); RC4(&rc, n, in.data(), w.data()); CHECK(!memcmp(o.data(), w.data(), n), "value", "RC4 keystream differs in megabyte-long stream (chunk %d)", i); vf_distinct(vf_mix(n ^ s.st)); }
}
// re-initialisation and alternating contexts
CASE(S05, vast_call, 1, 6, F_SLOW)
{
	if (vf_asan() || sizeof(bn_uint_t) == 4) return;
	int n = 0x7fffffff - (s.chance(1, 2) ? 0 : s.range(0, 40)); Bytes key = s.bytes(s.range(1, 30)); uint8_t *p = vast_map(n); if (!p) return; struct RaRc4Ctx *x; CHECK(RaRc4Create(key.data(), (int)key.size(), &x) == 0, "create", "RaRc4Create failed");
	int r = s.chance(1, 2) ? RaRc4Encrypt(x, p, n, p) : RaRc4Decrypt(x, p, n, p); CHECK(r == n, "length", "a call of %d bytes returned %d", n, r); RC4_KEY k; RC4_set_key(&k, (int)key.size(), key.data()); Bytes z(1 << 20), w(1 << 20);
	for (int at = 0; at < n;) { int m = std::min(1 << 20, n - at); RC4(&k, m, z.data(), w.data()); CHECK(!memcmp(p + at, w.data(), m), "value", "keystream differs between bytes %d and %d of one call", at, at + m); at += m; }
	uint8_t b[16] = { 0 }, c[16]; RaRc4Encrypt(x, b, 16, b); uint8_t y[16] = { 0 }; RC4(&k, 16, y, c); CHECK(!memcmp(b, c, 16), "value", "keystream differs after a call of %d bytes", n);
	RaRc4Destroy(x); munmap(p, n); vf_cover_max("bytes in one call", n); vf_distinct(vf_hash(key.data(), key.size(), n));
}
CASE(S05, contexts, 4000, 80000, F_FUZZ)
{
	RaRc4Ctx x[3]; RC4_KEY rc[3];
	for (int i = 0; i < 3; i++) { Bytes k = s.bytes(s.range(1, 40)); RaRc4Init(&x[i], k.data(), (int)k.size()); RC4_set_key(&rc[i], (int)k.size(), k.data()); }
	for (int i = 0; i < 40; i++) { int j = s.below(3); if (s.chance(1, 10)) { Bytes k = s.bytes(s.range(1, 256)); RaRc4Init(&x[j], k.data(), (int)k.size()); RC4_set_key(&rc[j], (int)k.size(), k.data()); COVER("re-init"); } size_t n = s.below(64); Bytes in = s.bytes(n), o(n + 1), w(n + 1); RaRc4Encrypt(&x[j], in.data(), (int)n, o.data()); if (n) RC4(&rc[j], n, in.data(), w.data()); CHECK(!memcmp(o.data(), w.data(), n), "value", "RC4 context %d disturbed", j); vf_distinct(vf_hash(in.data(), n, j)); }
}

// ---- S06: independence, re-initialisation, SetIV ----
struct Model { int c, mode; Bytes key; RefCipher *ref; uint8_t iv[16]; Bytes pend; Ctx ctx; int dir; Model() : ref(NULL), dir(-1) {} ~Model() { delete ref; } };
static void s06(Src &s, int maxops)
{
	const int NS = 3; Model m[NS]; uint64_t h = 7; int ops = s.range(4, maxops);
	for (int o = 0; o < ops; o++) {
		Model &x = m[s.below(NS)];
		int act = x.ctx.x ? (int)s.below(12) : 0;
		if (act == 0 && x.ctx.x && s.chance(1, 2)) { x.ctx.close(); COVER("destroyed and created again"); }
		if (act <= 2) {
			bool fresh = !x.ctx.x; int c = x.c;
			if (fresh) { c = s.below(C_COUNT); if (c == C_BF && s.chance(2, 3)) c = s.below(C_BF); }
			else { static const int lo[C_COUNT] = {0,0,0,3,3,3,6,7,7,7,10}, hi[C_COUNT] = {2,2,2,5,5,5,6,9,9,9,10}; c = s.range(lo[c], hi[c]); COVERF("re-init %s %s", x.c == c ? "same key type" : "other key type", x.pend.size() ? "with buffered data" : "clean"); }
			x.key = mkkey(s, c); x.mode = s.below(4); delete x.ref; x.ref = NULL; x.ref = new RefCipher(c, x.key.data(), (int)x.key.size()); x.pend.clear(); memset(x.iv, 0, 16); x.dir = -1;
			if (fresh) x.ctx.open(c, x.key, x.mode, s.chance(1, 2), s.u8()); else { x.ctx.c = c; c_init(c, x.ctx.x, x.key.data(), (int)x.key.size(), x.mode); }
			x.c = c; h = vf_mix(h ^ (c * 8 + x.mode)); continue;
		}
		int B = c_blk[x.c];
		if (act == 3) { uint8_t iv[16]; s.fill(iv, 16); c_setiv(x.c, x.ctx.x, iv); memcpy(x.iv, iv, B); COVERF("SetIV %s", x.pend.size() ? "discarding buffered data" : "clean"); x.pend.clear(); x.dir = -1; h = vf_mix(h ^ 33); continue; }
		if (act == 4) { uint8_t iv[16]; c_getiv(x.c, x.ctx.x, iv); if (x.mode) CHECK(!memcmp(iv, x.iv, B), "iv", "%s mode %d: the IV reads %s, expected %s", c_name[x.c], x.mode, vf_hex(iv, B).c_str(), vf_hex(x.iv, B).c_str()); else CHECK(x.dir >= 0 || !memcmp(iv, x.iv, B), "iv", "%s: IV of an unused context reads %s", c_name[x.c], vf_hex(iv, B).c_str()); continue; }
		bool enc = x.pend.size() ? x.dir == 1 : s.chance(1, 2); x.dir = enc; size_t n = s.below(4 * B + 1); Bytes in = s.bytes(n); x.pend.insert(x.pend.end(), in.begin(), in.end());
		bool fin = act == 5; int pad = s.below(2) ? RA_BLOCK_PADDING_ZERO : RA_BLOCK_PADDING_NONE;
		if (fin && enc && pad == RA_BLOCK_PADDING_ZERO) x.pend.resize((x.pend.size() + B - 1) / B * B, 0);
		size_t nb = x.pend.size() / B; Bytes w(nb * B); ref_mode(*x.ref, x.mode, enc, x.iv, x.pend.data(), nb, w.data()); x.pend.erase(x.pend.begin(), x.pend.begin() + nb * B); if (fin) x.pend.clear();
		Buf ob(nb * B); int r = fin ? (enc ? c_encfin(x.c, x.ctx.x, in.data(), (int)n, ob.p, pad) : c_decfin(x.c, x.ctx.x, in.data(), (int)n, ob.p, pad)) : enc ? c_enc(x.c, x.ctx.x, in.data(), (int)n, ob.p) : c_dec(x.c, x.ctx.x, in.data(), (int)n, ob.p);
		CHECK(r == (int)(nb * B) && (!nb || !memcmp(ob.p, w.data(), nb * B)), "value", "%s mode %d key %s %s step %d: %zu bytes gave %d bytes %s, a new context would give %zu bytes %s", c_name[x.c], x.mode, vf_hex(x.key).c_str(), enc ? "encrypt" : "decrypt", o, n, r, vf_hex(ob.p, nb * B).c_str(), nb * B, vf_hex(w).c_str());
		ob.check("cipher output"); h = vf_mix(h ^ (n * 4 + enc)); COVERF("%s mode %d operations", c_name[x.c], x.mode);
	}
	vf_distinct(h); vf_sample("%d operations over %d contexts", ops, NS);
}
CASE(S06, histories, 30000, 800000, F_FUZZ) { s06(s, 40); }
CASE(S06, long_histories, 200, 4000, 0) { s06(s, 800); }
// every ordered pair of (key type, mode) on one context: the second use behaves as new
CASE(S06, reinit_pairs, 11 * 4 * 3 * 4 * 2, 11 * 4 * 3 * 4 * 30, F_ENUM)
{
	int c1 = idx % 11, m1 = idx / 11 % 4, k = idx / 44 % 3, m2 = idx / 132 % 4; static const int lo[C_COUNT] = {0,0,0,3,3,3,6,7,7,7,10}, cnt[C_COUNT] = {3,3,3,3,3,3,1,3,3,3,1}; int c2 = lo[c1] + k % cnt[c1];
	Bytes k1 = mkkey(s, c1), k2 = mkkey(s, c2); int B = c_blk[c1]; Ctx x; x.open(c1, k1, m1, s.chance(1, 2)); uint8_t iv[16], o[256]; s.fill(iv, 16); c_setiv(c1, x.x, iv); Bytes d = s.bytes(B * 3 + 5);
	if (s.chance(1, 2)) c_enc(c1, x.x, d.data(), (int)s.below(d.size()), o); else c_dec(c1, x.x, d.data(), (int)s.below(d.size()), o);
	x.c = c2; c_init(c2, x.x, k2.data(), (int)k2.size(), m2); RefCipher ref(c2, k2.data(), (int)k2.size()); memset(iv, 0, 16); bool enc = s.chance(1, 2); Bytes w(B * 3); Bytes e = s.bytes(B * 3); ref_mode(ref, m2, enc, iv, e.data(), 3, w.data());
	int r = enc ? c_enc(c2, x.x, e.data(), B * 3, o) : c_dec(c2, x.x, e.data(), B * 3, o); CHECK(r == B * 3 && !memcmp(o, w.data(), B * 3), "value", "%s mode %d re-initialised as %s mode %d does not behave as new", c_name[c1], m1, c_name[c2], m2); vf_distinct(idx);
}
