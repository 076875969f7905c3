// Deterministic surroundings: scripted entropy and a frozen clock, both drawn from the case's source of choices.
#ifndef VF_ENV_H
#define VF_ENV_H
#include "bnref.h"
static inline void reseed(Src &s)
{
	uint64_t x = s.rnd();
	for (int i = 0; i < 256; i += 8) { x = vf_mix(x + i); memcpy(vf_ent_script + i, &x, 8); }
	vf_ent_script_len = 256; vf_script_reset(); vf_ent_mode = 4; vf_clock_frozen = 1; vf_clock_ns = (long long)(x >> 16);
}
static inline bool zprime(const Z &z) { return !z.neg() && BN_check_prime(z.v, zctx(), NULL) == 1; }
// the first prime at or above a random number of the given bit length (steps of 2 within the length)
static inline Z gprime(Src &s, int bits, bool top2 = false)
{
	if (bits <= 2) return s.chance(1, 2) || bits < 2 ? Z(3) : Z(2);
	for (;;) {
		std::vector<uint8_t> b((bits + 7) / 8); for (auto &x : b) x = (uint8_t)s.rnd();
		Z z; BN_bin2bn(b.data(), (int)b.size(), z.v); BN_mask_bits(z.v, bits); BN_set_bit(z.v, bits - 1); if (top2) BN_set_bit(z.v, bits - 2); BN_set_bit(z.v, 0);
		for (int i = 0; i < 2000 && z.bits() == bits; i++) { if (zprime(z)) return z; BN_add_word(z.v, 2); }
	}
}
static inline Z zinv(const Z &a, const Z &m) { Z r; if (!BN_mod_inverse(r.v, a.v, m.v, zctx())) BN_zero(r.v); return r; }
static inline Z zhex(const char *h) { Z r; BN_hex2bn(&r.v, h); return r; }
#endif
