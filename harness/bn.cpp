// B01..B10: big-number arithmetic against OpenSSL BIGNUM.
#include "bnref.h"
static const int MAXW = 70;

// ---- B01 ----
static void addsub(Src &s, const Z &a, const Z &b)
{
	Z sum = a + b, dif = a - b;
	int ml = std::max(a.nwords(), b.nwords());
	for (int op = 0; op < 2; op++) {
		const Z &want = op ? dif : sum;
		int need = std::max(ml, want.nwords()), mode = s.below(4), cap = need + (s.chance(1, 2) ? 0 : s.range(0, 3));
		Num A(a, mode == 1 ? cap : 0), B(b, mode == 2 ? cap : 0), R(cap); R.dirty(gword(s));
		struct RaBigNumber *r = mode == 1 ? A.b : mode == 2 ? B.b : R.b;
		int rc = op ? BnSub(r, A, B) : BnAdd(r, A, B);
		CHECK(rc == 0, "error", "%s of %d and %d words into %d returned %d", op ? "BnSub" : "BnAdd", a.nwords(), b.nwords(), r->max_length, rc);
		ZEQ(zval(r), want, "value", "%s(%.120s, %.120s)%s", op ? "BnSub" : "BnAdd", a.str().c_str(), b.str().c_str(), mode == 1 ? " in place" : mode == 2 ? " into b" : "");
		zcanon(r, op ? "BnSub" : "BnAdd");
		if (mode != 1) ZEQ(A.val(), a, "operand-changed", "first operand");
		if (mode != 2) ZEQ(B.val(), b, "operand-changed", "second operand");
		if (want.zero()) COVER(op ? "difference is zero" : "sum is zero");
		if (want.nwords() > ml) COVER("carry into a new word");
		if (want.nwords() < ml) COVER("result loses words");
		COVERF("%s signs %d%d %s", op ? "sub" : "add", a.neg(), b.neg(), mode == 1 ? "in place" : mode == 2 ? "into b" : "");
	}
	// the in-place magnitude forms
	{ Z aa = a.abs(), bb = b.abs(); if (aa < bb) std::swap(aa, bb); Num A(aa), B(bb); int rc = _BnSubR(A, B); CHECK(rc == 0, "error", "_BnSubR returned %d", rc); ZEQ(A.val(), aa - bb, "value", "_BnSubR(%.120s, %.120s)", aa.str().c_str(), bb.str().c_str()); zcanon(A, "_BnSubR"); }
	{ Z aa = a.abs(), bb = b.abs(), w = aa + bb; Num A(aa, w.nwords()), B(bb); int rc = _BnAddR(A, B); CHECK(rc == 0, "error", "_BnAddR returned %d", rc); ZEQ(A.val(), w, "value", "_BnAddR(%.120s, %.120s)", aa.str().c_str(), bb.str().c_str()); zcanon(A, "_BnAddR"); }
	vf_distinct(zh(a, zh(b)));
	vf_sample("%.60s +- %.60s", a.str().c_str(), b.str().c_str());
}
static Z related(Src &s, const Z &a, int nw)	// a number near another one
{
	switch (s.below(9)) {
	case 0: return a; case 1: return -a; case 2: return a + Z(1); case 3: return a - Z(1);
	case 4: return a + Z::pow2((int)s.below(nw * WBIT)); case 5: return a - Z::pow2((int)s.below(nw * WBIT)); case 6: return Z::pow2(a.nwords() * WBIT) - a;
	case 7: return -(a + Z(s.range(-3, 3)));
	default: return gint(s, nw);
	}
}
CASE(B01, addsub, 120000, 6000000, F_FUZZ)
{
	int nw = glen(s, MAXW); Z a = gint(s, nw), b = s.chance(1, 3) ? related(s, a, nw) : gint(s, glen(s, MAXW));
	addsub(s, a, b);
}
// numbers of hundreds and thousands of words, rarely of more than 65536
static int gbiglen(Src &s, int most = 2100) { switch (s.below(6)) { case 0: return std::min(most, s.range(254, 259)); case 1: return std::min(most, s.range(510, 515)); case 2: return std::min(most, s.range(1022, 1027)); case 3: return std::min(most, s.range(71, 140)); default: return s.range(71, most); } }
static Z gbig(Src &s, int most = 2100) { Z z = gint(s, gbiglen(s, most)); COVERF("long numbers, %s words", z.nwords() > 65536 ? "over 65536" : z.nwords() > 1023 ? "over 1023" : z.nwords() > 255 ? "over 255" : "to 255"); return z; }
static Z gvast(Src &s) { int nw = s.range(65533, 65539); Z z; switch (s.below(4)) { case 0: z = Z::pow2(nw * WBIT) - Z(1); break; case 1: z = Z::pow2(nw * WBIT - 1); break; case 2: z = Z::pow2(nw * WBIT) - Z::pow2(WBIT) + Z(1); break; default: { Bytes b = s.bytes(4096), o; while ((int)o.size() < nw * WBIT / 8) o.insert(o.end(), b.begin(), b.end()); BN_bin2bn(o.data(), nw * WBIT / 8, z.v); } } COVER("numbers of 65533 to 65539 words"); return s.chance(1, 2) ? -z : z; }
CASE(B01, big, 1200, 40000, 0) { Z a = gbig(s); addsub(s, a, s.chance(1, 3) ? gint(s, glen(s, MAXW)) : s.chance(1, 2) ? related(s, a, a.nwords()) : gbig(s)); }
CASE(B01, vast, 8, 200, F_SLOW) { Z a = gvast(s); addsub(s, a, s.chance(1, 2) ? gint(s, 3) : s.chance(1, 2) ? related(s, a, a.nwords()) : gvast(s)); Z b = related(s, a, a.nwords()); Num A(a), B(b); int g = BnCmp(A, B); CHECK((g > 0) - (g < 0) == zcmp(a, b), "compare", "BnCmp of vast numbers = %d", g); }
CASE(B01, double, 60000, 2000000, F_FUZZ)
{
	Z a = gint(s, glen(s, MAXW)), w = a + a; bool inplace = s.chance(1, 2);
	Num A(a, inplace ? w.nwords() : 0), R(w.nwords()); R.dirty(gword(s));
	struct RaBigNumber *r = inplace ? A.b : R.b;
	int rc = BnDouble(r, A);
	CHECK(rc == 0, "error", "BnDouble of %d words into %d returned %d", a.nwords(), r->max_length, rc);
	ZEQ(zval(r), w, "value", "BnDouble(%.120s)", a.str().c_str()); zcanon(r, "BnDouble");
	if (!inplace) ZEQ(A.val(), a, "operand-changed", "BnDouble operand");
	vf_distinct(zh(a, 7));
}
CASE(B01, compare, 120000, 4000000, F_FUZZ)
{
	int nw = glen(s, MAXW); Z a = gint(s, nw), b = s.chance(3, 4) ? related(s, a, nw) : gint(s, glen(s, MAXW));
	if (s.chance(1, 4)) { b = a; if (!a.zero()) BN_set_bit(b.v, (int)s.below(a.bits())); }
	Num A(a), B(b); int g = BnCmp(A, B), h = BnCmp(B, A), w = zcmp(a, b);
	CHECK((g > 0) - (g < 0) == w && (h > 0) - (h < 0) == -w, "compare", "BnCmp(%.120s, %.120s) = %d and %d the other way, order is %d", a.str().c_str(), b.str().c_str(), g, h, w);
	CHECK(BnCmp(A, A) == 0, "compare", "a number differs from itself");
	{ Num C(A->max_length + 3); BnSet(C, A); CHECK(BnCmp(A, C) == 0 && C.val() == a, "copy", "BnSet copy differs"); zcanon(C, "BnSet"); struct RaBigNumber *k = BnClone(A); CHECK(k && zval(k) == a && BnCmp(k, A) == 0, "copy", "BnClone copy differs"); BnFree(k); }
	CHECK(BnGetLength(A) == a.nwords() && BnGetMaxLength(A) == A->max_length, "length", "length %d for %d words", BnGetLength(A), a.nwords());
	COVERF("compare result %d signs %d%d", w, a.neg(), b.neg());
	vf_distinct(zh(a, zh(b, 5)));
}
// every pair from a set of boundary values
static const std::vector<Z> &edges()
{
	static std::vector<Z> v;
	if (v.empty()) {
		for (int w = 0; w <= 4; w++) for (int d = -2; d <= 2; d++) { Z x = Z::pow2(w * WBIT) + Z(d); v.push_back(x); v.push_back(-x); }
		for (int w = 1; w <= 3; w++) for (int d = -1; d <= 1; d++) { Z x = Z::pow2(w * WBIT - 1) + Z(d); v.push_back(x); v.push_back(-x); }
		v.push_back(Z(0)); v.push_back(Z(3)); v.push_back(Z(-3)); v.push_back(Z::pow2(5 * WBIT) - Z::pow2(WBIT)); v.push_back(-(Z::pow2(5 * WBIT) - Z::pow2(WBIT)));
		v.push_back(Z::pow2(3 * WBIT) - Z::pow2(WBIT) + Z(1)); v.push_back(Z::pow2(3 * WBIT) + Z::pow2(WBIT - 1)); v.push_back(Z::pow2(70 * WBIT - 1)); v.push_back(Z::pow2(70 * WBIT) - Z(1));
		std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	}
	return v;
}
CASE(B01, edges, 5000, 5000, F_ENUM)
{
	const std::vector<Z> &v = edges(); if (idx >= v.size() * v.size()) { vf_trivial(); return; }
	const Z &a = v[idx / v.size()], &b = v[idx % v.size()]; addsub(s, a, b);
	Num A(a), B(b); int g = BnCmp(A, B), w = zcmp(a, b); CHECK((g > 0) - (g < 0) == w, "compare", "BnCmp(%.100s, %.100s) = %d", a.str().c_str(), b.str().c_str(), g);
}

// ---- B02 ----
// room BnMul and BnSqr ask for: the operands' bit lengths together
static int mulroom(const Z &a, const Z &b) { return a.zero() || b.zero() ? 1 : (a.bits() + b.bits() + WBIT - 1) / WBIT; }
static void mul(Src &s, const Z &a, const Z &b)
{
	Z w = a * b; int need = mulroom(a, b), sqneed = mulroom(a, a);
	{
		Num A(a), B(b), R(need + (s.chance(1, 2) ? 0 : s.range(0, 3))); R.dirty(gword(s));
		int rc = BnMul(R, A, B); CHECK(rc == 0, "error", "BnMul of %d and %d words into %d returned %d", a.nwords(), b.nwords(), R->max_length, rc);
		ZEQ(R.val(), w, "value", "BnMul(%.120s, %.120s)", a.str().c_str(), b.str().c_str()); zcanon(R, "BnMul");
		ZEQ(A.val(), a, "operand-changed", "BnMul"); ZEQ(B.val(), b, "operand-changed", "BnMul");
	}
	{
		Z q = a * a; Num A(a), R(sqneed + (s.chance(1, 2) ? 0 : 1)); R.dirty(gword(s));
		int rc = BnSqr(R, A); CHECK(rc == 0, "error", "BnSqr of %d words into %d returned %d", a.nwords(), R->max_length, rc);
		ZEQ(R.val(), q, "value", "BnSqr(%.120s)", a.str().c_str()); zcanon(R, "BnSqr"); ZEQ(A.val(), a, "operand-changed", "BnSqr");
		Num C(a), R2(sqneed); BnMul(R2, A, C); CHECK(BnCmp(R, R2) == 0, "sqr-mul", "BnSqr and BnMul differ for %.120s", a.str().c_str());
		Num R3(sqneed); rc = BnMul(R3, A, A); CHECK(rc == 0 && BnCmp(R, R3) == 0, "sqr-mul", "BnMul of a number with itself differs from BnSqr");
	}
	vf_distinct(zh(a, zh(b))); COVERF("product signs %d%d", a.neg(), b.neg()); if (w.zero()) COVER("product zero");
	if (!w.zero() && need < a.nwords() + b.nwords()) COVER("product without its top word"); vf_cover_max("words multiplied", a.nwords() + b.nwords());
	vf_sample("%.60s * %.60s", a.str().c_str(), b.str().c_str());
}
CASE(B02, mul, 60000, 3000000, F_FUZZ) { Z a = gint(s, glen(s, MAXW)), b = gint(s, glen(s, MAXW)); mul(s, a, b); }
CASE(B02, edges, 5000, 5000, F_ENUM) { const std::vector<Z> &v = edges(); if (idx >= v.size() * v.size()) { vf_trivial(); return; } mul(s, v[idx / v.size()], v[idx % v.size()]); }
static Z gwz(Src &s, bn_uint_t &w, bool sg) { w = gword(s); return sg ? ((bn_int_t)w < 0 ? -Z::U((bn_uint_t)(0 - w)) : Z::U(w)) : Z::U(w); }
CASE(B02, big, 240, 8000, 0) { Z a = gbig(s, 1100), b = s.chance(1, 2) ? gbig(s, 1100) : gint(s, glen(s, 20)); if (s.chance(1, 2)) std::swap(a, b); mul(s, a, b); }
CASE(B02, vast, 2, 60, F_SLOW)
{	// products of a vast number by a few words
	Z a = gvast(s), b = gint(s, s.range(1, 3)), w = a * b; if (b.zero()) { b = Z(7); w = a * b; } bool sw = s.chance(1, 2); Num A(a), B(b), R(mulroom(a, b)); R.dirty(gword(s));
	int rc = sw ? BnMul(R, B, A) : BnMul(R, A, B); CHECK(rc == 0, "error", "BnMul of %d and %d words returned %d", a.nwords(), b.nwords(), rc); ZEQ(R.val(), w, "value", "BnMul of %d and %d words", a.nwords(), b.nwords()); zcanon(R, "BnMul"); vf_distinct(zh(a, zh(b)));
}
CASE(B02, mulword, 100000, 4000000, F_FUZZ)
{
	Z a = gint(s, glen(s, MAXW)); bool sg = s.chance(1, 2); bn_uint_t w; Z m = gwz(s, w, sg), want = a * m;
	Num A(a, want.nwords());
	int rc = sg ? BnMulInt(A, (bn_int_t)w) : BnMulUInt(A, w);
	CHECK(rc == 0, "error", "BnMul%sInt of %.100s by %s within %d words returned %d", sg ? "" : "U", a.str().c_str(), m.str().c_str(), A->max_length, rc);
	ZEQ(A.val(), want, "value", "BnMul%sInt(%.120s, %s)", sg ? "" : "U", a.str().c_str(), m.str().c_str()); zcanon(A, "BnMulInt");
	vf_distinct(zh(a, zh(m))); COVERF("word product %s signs %d%d", sg ? "signed" : "unsigned", a.neg(), m.neg()); if (m.zero()) COVER("multiplied by zero");
}

// ---- B03 ----
static void floordiv(const Z &a, const Z &b, Z &q, Z &r) { zdiv(a, b, q, r); if (!r.zero() && r.neg() != b.neg()) { q = q - Z(1); r = r + b; } }
static void divide(Src &s, const Z &a, const Z &b)
{
	Z q, r, tq, tr; floordiv(a, b, q, r); zdiv(a, b, tq, tr);
	{
		// room: a quotient of the length difference plus one word, a remainder as long as the divisor (or the dividend if that is shorter)
		int qn = std::max({a.nwords() - b.nwords() + 1, q.nwords(), 1}), rn = b.nwords();
		bool alias = s.chance(1, 5);
		Num A(a, alias ? std::max(rn, a.nwords()) : 0), B(b), Q(qn + (s.chance(1, 2) ? 0 : 2)), R(rn + (s.chance(1, 2) ? 0 : 2)); Q.dirty(gword(s)); R.dirty(gword(s));
		int rc = BnDiv(Q, alias ? A.b : R.b, A, B);
		CHECK(rc == 0, "error", "BnDiv(%.100s, %.100s) with room for %d and %d words returned %d", a.str().c_str(), b.str().c_str(), Q->max_length, R->max_length, rc);
		ZEQ(Q.val(), q, "quotient", "BnDiv(%.150s, %.150s) quotient", a.str().c_str(), b.str().c_str());
		ZEQ(zval(alias ? A.b : R.b), r, "remainder", "BnDiv(%.150s, %.150s) remainder", a.str().c_str(), b.str().c_str());
		zcanon(Q, "quotient"); zcanon(alias ? A.b : R.b, "remainder");
		if (!alias) ZEQ(A.val(), a, "operand-changed", "BnDiv dividend"); ZEQ(B.val(), b, "operand-changed", "BnDiv divisor");
	}
	{
		bool alias = s.chance(1, 5);
		Num A(a, alias ? std::max(b.nwords(), a.nwords()) : 0), B(b), R(b.nwords() + (s.chance(2, 3) ? 0 : 2)); R.dirty(gword(s));
		int rc = BnMod(alias ? A.b : R.b, A, B);
		CHECK(rc == 0, "error", "BnMod(%.100s, %.100s) into %d words returned %d", a.str().c_str(), b.str().c_str(), R->max_length, rc);
		ZEQ(zval(alias ? A.b : R.b), tr, "modulo", "BnMod(%.150s, %.150s)", a.str().c_str(), b.str().c_str()); zcanon(alias ? A.b : R.b, "BnMod");
		if (!alias) ZEQ(A.val(), a, "operand-changed", "BnMod dividend"); ZEQ(B.val(), b, "operand-changed", "BnMod divisor");
	}
	vf_distinct(zh(a, zh(b))); COVERF("division signs %d%d%s", a.neg(), b.neg(), r.zero() ? " exact" : "");
	COVERF("divisor words %s dividend %s", b.nwords() == 1 ? "1" : b.nwords() == 2 ? "2" : "3+", a.nwords() < b.nwords() ? "shorter" : a.nwords() == b.nwords() ? "equal length" : "longer");
	vf_sample("%.60s / %.60s", a.str().c_str(), b.str().c_str());
}
CASE(B03, div, 60000, 3000000, F_FUZZ)
{
	int nb = glen(s, 40); Z b = gint(s, nb), a = s.chance(1, 4) ? related(s, b, nb) : gint(s, glen(s, MAXW)); if (b.zero()) b = Z(1);
	divide(s, a, b);
}
// dividends built from chosen quotient words and remainders: estimates that need correction, digits of zero and all ones
CASE(B03, digits, 90000, 5000000, F_FUZZ)
{
	int nb = s.chance(1, 2) ? s.range(2, 4) : s.range(1, 20), nq = s.chance(1, 2) ? s.range(1, 3) : s.range(1, 20);
	std::vector<bn_uint_t> bw(nb), qw(nq); for (auto &x : bw) x = gword(s); for (auto &x : qw) x = gword(s);
	if (s.chance(1, 2)) bw[nb - 1] = s.chance(1, 2) ? WHALF : s.chance(1, 2) ? WMAX : (bn_uint_t)1 << s.below(WBIT);
	if (nb > 1 && s.chance(1, 2)) bw[nb - 2] = s.chance(1, 2) ? WMAX : 0;
	Z b = Z::words(bw.data(), nb), q = Z::words(qw.data(), nq), r; if (b.zero()) b = Z(1);
	switch (s.below(6)) { case 0: r = Z(0); break; case 1: r = b - Z(1); break; case 2: r = b - Z::U(gword(s)); break; case 3: r = Z::U(gword(s)); break; default: r = gnat(s, nb); }
	r = zmod(r, b);
	Z a = q * b + r; if (s.chance(1, 4)) a = a - Z(1); if (s.chance(1, 3)) a = -a; if (s.chance(1, 3)) b = -b;
	divide(s, a, b);
}
// top words of dividend and divisor equal or nearly so
CASE(B03, equaltop, 40000, 3000000, F_FUZZ)
{
	int nb = s.range(1, 6), na = nb + s.range(0, 5); std::vector<bn_uint_t> bw(nb), aw(na); for (auto &x : bw) x = gword(s); for (auto &x : aw) x = gword(s);
	if (!bw[nb - 1]) bw[nb - 1] = 1 + (gword(s) >> 1);
	for (int i = 0, k = s.range(1, nb); i < k; i++) aw[na - 1 - i] = bw[nb - 1 - i];
	if (s.chance(1, 2)) aw[na - 1 - s.below(nb)] += s.range(-2, 2);
	Z a = Z::words(aw.data(), na), b = Z::words(bw.data(), nb); if (s.chance(1, 3)) a = -a; if (s.chance(1, 3)) b = -b;
	divide(s, a, b);
}
CASE(B03, edges, 5000, 5000, F_ENUM) { const std::vector<Z> &v = edges(); if (idx >= v.size() * v.size()) { vf_trivial(); return; } Z b = v[idx % v.size()]; if (b.zero()) b = Z(2); divide(s, v[idx / v.size()], b); }
CASE(B03, big, 300, 10000, 0)
{
	Z b = s.chance(1, 2) ? gint(s, glen(s, 40)) : gbig(s, 700), a = gbig(s, 1100); if (b.zero()) b = Z(3);
	if (s.chance(1, 3)) { Z q = gbig(s, 300); a = b * q + (s.chance(1, 2) ? Z(0) : b.abs() - Z(1)); }
	divide(s, a, b);
}
CASE(B03, vast, 2, 60, F_SLOW) { Z a = gvast(s), b = s.chance(1, 2) ? gint(s, s.range(1, 3)) : a - gint(s, s.range(1, 65530)); if (b.zero()) b = Z(5); divide(s, a, b); }
CASE(B03, byzero, 400, 4000, F_FUZZ)
{
	if (!vf_ndebug) { vf_trivial(); return; }	// with assertions on such a call stops at one
	Z a = gint(s, glen(s, 20)); Num A(a), B(Z(0)), Q(30), R(30); bn_uint_t rem = 5; B->data[1] = s.u8();
	CHECK(BnDiv(Q, R, A, B) == RA_ERR_DIVIDED_BY_ZERO, "by-zero", "BnDiv by zero is not refused");
	CHECK(BnMod(R, A, B) == RA_ERR_DIVIDED_BY_ZERO, "by-zero", "BnMod by zero is not refused");
	CHECK(BnDivInt(A, 0, &rem) == RA_ERR_DIVIDED_BY_ZERO && BnDivUInt(A, 0, &rem) == RA_ERR_DIVIDED_BY_ZERO, "by-zero", "BnDivInt by zero is not refused");
	CHECK(BnModUInt(A, 0, &rem) == RA_ERR_DIVIDED_BY_ZERO, "by-zero", "BnModUInt by zero does not report a division by zero");
	ZEQ(A.val(), a, "operand-changed", "dividend after division by zero");
	vf_distinct(zh(a)); COVER("division by zero refused");
}

// ---- B04 ----
static bn_uint_t edgew(Src &s) { static const int n = 15; static const bn_uint_t t[n] = { 0, 1, 2, 3, WMAX, (bn_uint_t)(WMAX - 1), WHALF, (bn_uint_t)(WHALF - 1), (bn_uint_t)(WHALF + 1), 0xffffffffu, 0x80000000u, 0x7fffffffu, (bn_uint_t)0x100000000ull, (bn_uint_t)-2, (bn_uint_t)-0x80000000ll }; return s.chance(1, 2) ? t[s.below(n)] : gword(s); }
static Z sz(bn_uint_t w) { return (bn_int_t)w < 0 ? -Z::U((bn_uint_t)(0 - w)) : Z::U(w); }
static Z gsmall(Src &s) { if (s.chance(1, 2)) { Z z = Z::U(edgew(s)); if (s.chance(1, 3)) z = z + Z::pow2(WBIT * (int)s.range(1, 3)); return s.chance(1, 2) ? -z : z; } return gint(s, glen(s, 12)); }
CASE(B04, assign, 60000, 2000000, F_FUZZ)
{
	Num A(s.range(1, 4)); A.dirty(gword(s)); bn_uint_t w = edgew(s); uint64_t q = s.chance(1, 2) ? s.u64() : (uint64_t)edgew(s); if (s.chance(1, 6)) q = 1ull << 63; uint32_t h = s.chance(1, 2) ? (uint32_t)edgew(s) : s.u32();
	BnSetInt(A, (bn_int_t)w); ZEQ(A.val(), sz(w), "assign", "BnSetInt"); zcanon(A, "BnSetInt");
	A.dirty(1); BnSetUInt(A, w); ZEQ(A.val(), Z::U(w), "assign", "BnSetUInt"); zcanon(A, "BnSetUInt"); CHECK(_BnGetUInt(A) == w, "read", "_BnGetUInt");
	A.dirty(1); BnSetInt32(A, (int32_t)h); ZEQ(A.val(), Z((long long)(int32_t)h), "assign", "BnSetInt32"); zcanon(A, "BnSetInt32");
	A.dirty(1); BnSetUInt32(A, h); ZEQ(A.val(), Z::U(h), "assign", "BnSetUInt32"); zcanon(A, "BnSetUInt32"); CHECK(_BnGetUInt32(A) == h && _BnGetUInt64(A) == h, "read", "_BnGetUInt32");
	A.dirty(1); BnSetInt64(A, (int64_t)q); ZEQ(A.val(), Z((long long)(int64_t)q), "assign", "BnSetInt64(%llx)", (unsigned long long)q); zcanon(A, "BnSetInt64");
	A.dirty(1); BnSetUInt64(A, q); ZEQ(A.val(), Z::U(q), "assign", "BnSetUInt64"); zcanon(A, "BnSetUInt64"); CHECK(_BnGetUInt64(A) == q && _BnGetUInt32(A) == (uint32_t)q, "read", "_BnGetUInt64");
	Z z = gsmall(s); Num B(z); Bytes m = z.abs().be(); std::reverse(m.begin(), m.end()); m.resize(8); uint64_t lo; memcpy(&lo, m.data(), 8);
	CHECK(_BnGetUInt64(B) == lo && _BnGetUInt32(B) == (uint32_t)lo && _BnGetUInt(B) == (bn_uint_t)lo, "read", "low words of %.100s", z.str().c_str());
	_BnInvert(B); ZEQ(B.val(), -z, "negate", "_BnInvert"); zcanon(B, "_BnInvert");
	vf_distinct(q * 31 + w * 7 + h);
}
CASE(B04, wordops, 200000, 8000000, F_FUZZ)
{
	static const char *nm[] = { "BnAddInt", "BnSubInt", "BnAddUInt", "BnSubUInt", "BnDivInt", "BnDivUInt", "BnModUInt", "BnMulInt", "BnMulUInt" };
	Z a = gsmall(s); bn_uint_t w = edgew(s); int op = s.below(9); bool sg = op == 0 || op == 1 || op == 4 || op == 7; Z m = sg ? sz(w) : Z::U(w), want, rem; bn_uint_t got = 0x77; int rc = 0;
	// a divisor related to the number's words
	if (op >= 4 && op <= 6) { if (s.chance(1, 3)) { Num T(a); w = T->data[s.below(T->length)]; m = sg ? sz(w) : Z::U(w); } if (m.zero()) { w = 1; m = Z(1); } }
	switch (op) {
	case 0: case 2: want = a + m; break; case 1: case 3: want = a - m; break;
	case 4: case 5: zdiv(a, m, want, rem); break; case 6: { Z q; zdiv(a, m, q, rem); want = a; break; }
	default: want = a * m;
	}
	Num A(a, std::max(a.nwords(), want.nwords()));
	bool norem = (op == 4 || op == 5) && s.chance(1, 8);
	switch (op) {
	case 0: rc = BnAddInt(A, (bn_int_t)w); break; case 1: rc = BnSubInt(A, (bn_int_t)w); break; case 2: rc = BnAddUInt(A, w); break; case 3: rc = BnSubUInt(A, w); break;
	case 4: rc = BnDivInt(A, (bn_int_t)w, norem ? NULL : &got); break; case 5: rc = BnDivUInt(A, w, norem ? NULL : &got); break; case 6: rc = BnModUInt(A, w, &got); break;
	case 7: rc = BnMulInt(A, (bn_int_t)w); break; case 8: rc = BnMulUInt(A, w); break;
	}
	CHECK(rc == 0, "error", "%s(%.100s, %s) within %d words returned %d", nm[op], a.str().c_str(), m.str().c_str(), A->max_length, rc);
	ZEQ(A.val(), want, "value", "%s(%.100s, %s)", nm[op], a.str().c_str(), m.str().c_str()); zcanon(A, nm[op]);
	if (op >= 4 && op <= 6 && !norem) ZEQ(Z::U(got), rem.abs(), "remainder", "%s(%.100s, %s) remainder", nm[op], a.str().c_str(), m.str().c_str());
	COVERF("%s signs %d%d%s", nm[op], a.neg(), m.neg(), want.zero() ? " zero result" : ""); vf_distinct(zh(a, zh(m, op + 1))); vf_sample("%s(%.50s, %s)", nm[op], a.str().c_str(), m.str().c_str());
}
CASE(B04, big, 3000, 100000, 0)
{	// word operations on long numbers
	Z a = s.chance(1, 300) ? gvast(s) : gbig(s); if (s.chance(1, 3)) a = (a.neg() ? -Z(1) : Z(1)) * (Z::pow2(a.nwords() * WBIT) - Z::U(edgew(s) >> s.below(WBIT)));
	bn_uint_t w = edgew(s); int op = s.below(8); bool sg = op & 1; Z m = sg ? sz(w) : Z::U(w), want, rem; bn_uint_t got = 0; int rc; if (op >= 4 && op < 6 && m.zero()) { w = 3; m = Z(3); }
	switch (op / 2) { case 0: want = a + m; break; case 1: want = a - m; break; case 2: zdiv(a, m, want, rem); break; default: want = a * m; }
	Num A(a, std::max(a.nwords(), want.nwords()));
	switch (op) { case 0: rc = BnAddUInt(A, w); break; case 1: rc = BnAddInt(A, (bn_int_t)w); break; case 2: rc = BnSubUInt(A, w); break; case 3: rc = BnSubInt(A, (bn_int_t)w); break;
	case 4: rc = BnDivUInt(A, w, &got); break; case 5: rc = BnDivInt(A, (bn_int_t)w, &got); break; case 6: rc = BnMulUInt(A, w); break; default: rc = BnMulInt(A, (bn_int_t)w); }
	CHECK(rc == 0, "error", "operation %d on %d words and %s returned %d", op, a.nwords(), m.str().c_str(), rc);
	ZEQ(A.val(), want, "value", "operation %d on %d words and %s", op, a.nwords(), m.str().c_str()); zcanon(A, "word operation");
	if (op / 2 == 2) { ZEQ(Z::U(got), rem.abs(), "remainder", "remainder of %d words and %s", a.nwords(), m.str().c_str()); Num B(a); bn_uint_t g2 = 0; if (op == 4) { CHECK(BnModUInt(B, w, &g2) == 0 && g2 == got, "remainder", "BnModUInt and BnDivUInt differ"); ZEQ(B.val(), a, "operand-changed", "BnModUInt"); } }
	vf_distinct(zh(a, zh(m, op)));
}
CASE(B04, wordcmp, 100000, 3000000, F_FUZZ)
{
	Z a = gsmall(s); bn_uint_t w = edgew(s); if (s.chance(1, 3)) { Num T(a); w = T->data[0] + s.range(-1, 1); if (s.chance(1, 2)) w = 0 - w; }
	Num A(a); int g = BnCmpInt(A, (bn_int_t)w), e = zcmp(a, sz(w)); CHECK((g > 0) - (g < 0) == e, "compare", "BnCmpInt(%.100s, %s) = %d", a.str().c_str(), sz(w).str().c_str(), g);
	g = BnCmpUInt(A, w); int f = zcmp(a, Z::U(w)); CHECK((g > 0) - (g < 0) == f, "compare", "BnCmpUInt(%.100s, %s) = %d", a.str().c_str(), Z::U(w).str().c_str(), g);
	CHECK(!!BN_ISZERO(A.b) == a.zero() && !!BN_ISONE(A.b) == (a == Z(1)) && !!BN_ISTWO(A.b) == (a == Z(2)) && !!BN_ISEVEN(A.b) == !a.odd() && !!BN_ISNEG(A.b) == (a.neg() && !a.zero()), "predicate", "predicate macros wrong for %.100s", a.str().c_str());
	COVERF("word compare %d/%d", e, f); vf_distinct(zh(a, w));
}
CASE(B04, edges, 40000, 40000, F_ENUM)
{	// boundary numbers x boundary words x operations
	static const bn_uint_t t[] = { 0, 1, 2, WMAX, (bn_uint_t)(WMAX - 1), WHALF, (bn_uint_t)(WHALF - 1), (bn_uint_t)(WHALF + 1), 0xffffffffu, 0x80000000u };
	const std::vector<Z> &v = edges(); uint64_t n = v.size() * 10 * 8; if (idx >= n) { vf_trivial(); return; }
	const Z &a = v[idx / 80]; bn_uint_t w = t[idx / 8 % 10]; int op = idx % 8; bool sg = op & 1; Z m = sg ? sz(w) : Z::U(w), want, rem; bn_uint_t got = 0; int rc;
	if (op >= 4 && op < 6 && m.zero()) { vf_trivial(); return; }
	switch (op / 2) { case 0: want = a + m; break; case 1: want = a - m; break; case 2: zdiv(a, m, want, rem); break; default: want = a * m; }
	Num A(a, std::max(a.nwords(), want.nwords()));
	switch (op) { case 0: rc = BnAddUInt(A, w); break; case 1: rc = BnAddInt(A, (bn_int_t)w); break; case 2: rc = BnSubUInt(A, w); break; case 3: rc = BnSubInt(A, (bn_int_t)w); break;
	case 4: rc = BnDivUInt(A, w, &got); break; case 5: rc = BnDivInt(A, (bn_int_t)w, &got); break; case 6: rc = BnMulUInt(A, w); break; default: rc = BnMulInt(A, (bn_int_t)w); }
	CHECK(rc == 0, "error", "operation %d on %.100s and %s returned %d", op, a.str().c_str(), m.str().c_str(), rc);
	ZEQ(A.val(), want, "value", "operation %d on %.100s and %s", op, a.str().c_str(), m.str().c_str()); zcanon(A, "word operation");
	if (op / 2 == 2) ZEQ(Z::U(got), rem.abs(), "remainder", "remainder of %.100s and %s", a.str().c_str(), m.str().c_str());
	vf_distinct(zh(a, zh(m, op)));
}

// ---- B05 ----
static void shift(Src &s, const Z &a, uint32_t k)
{
	{
		Z w = zshl(a, k); Num A(a, std::max(w.nwords(), a.nwords()) + (s.chance(1, 2) ? 0 : s.range(1, 3)));
		int rc = BnShiftL(A, k); CHECK(rc == 0, "error", "BnShiftL(%.100s, %u) within %d words returned %d", a.str().c_str(), k, A->max_length, rc);
		ZEQ(A.val(), w, "shift-left", "BnShiftL(%.150s, %u) capacity %d", a.str().c_str(), k, A->max_length); zcanon(A, "BnShiftL");
		CHECK(BnGetBitLength(A) == (w.zero() ? 1 : w.bits()), "bit-length", "bit length %d, should be %d", BnGetBitLength(A), w.bits());
	}
	{
		Z w = zshr(a, k); Num A(a); int rc = BnShiftR(A, k); CHECK(rc == 0, "error", "BnShiftR returned %d", rc);
		ZEQ(A.val(), w, "shift-right", "BnShiftR(%.150s, %u)", a.str().c_str(), k); zcanon(A, "BnShiftR");
		CHECK(BnGetBitLength(A) == (w.zero() ? 1 : w.bits()), "bit-length", "bit length %d, should be %d", BnGetBitLength(A), w.bits());
	}
	Num A(a); CHECK(BnGetBitLength(A) == (a.zero() ? 1 : a.bits()), "bit-length", "bit length %d of %.100s", BnGetBitLength(A), a.str().c_str()); ZEQ(A.val(), a, "operand-changed", "BnGetBitLength");
	vf_distinct(zh(a, k)); COVERF("distance %s%s", k == 0 ? "0" : k % WBIT == 0 ? "whole words" : k < (uint32_t)WBIT ? "below a word" : "words and bits", (int)k > a.bits() ? " beyond the number" : "");
	vf_sample("%.60s << >> %u", a.str().c_str(), k);
}
CASE(B05, shift, 120000, 5000000, F_FUZZ)
{
	Z a = gint(s, glen(s, 40)); uint32_t k;
	switch (s.below(6)) { case 0: k = WBIT * s.range(0, 6); break; case 1: k = s.below(WBIT); break; case 2: k = WBIT * s.range(0, 6) + s.range(0, 2); break; case 3: k = std::max(0, a.bits() + s.range(-3, 3)); break; case 4: k = std::max(0, a.nwords() * WBIT + s.range(-2, 2)); break; default: k = s.below(3000); }
	shift(s, a, k);
}
CASE(B05, big, 1500, 50000, 0) { Z a = s.chance(1, 300) ? gvast(s) : gbig(s); shift(s, a, s.chance(1, 4) ? s.below(200) : s.chance(1, 3) ? WBIT * s.below(2100) + s.below(2) : s.chance(1, 2) ? std::max(0, a.bits() + s.range(-70, 70)) : s.below(300000)); }
CASE(B05, enum, 600 * 12, 600 * 12, F_ENUM)
{	// every distance 0..599 x boundary textures
	uint32_t k = idx / 12; static const int n[] = { 1, 2, 3 }; int nw = n[idx % 3]; std::vector<bn_uint_t> d(nw);
	for (auto &x : d) switch (idx % 12 / 3) { case 0: x = WMAX; break; case 1: x = WHALF; break; case 2: x = 1; break; default: x = gword(s); }
	shift(s, Z::words(d.data(), nw), k);
}

CASE(B05, huge, 2000, 60000, F_FUZZ)
{	// distances up to the largest one
	Z a = gint(s, s.range(1, 6)); uint32_t k = s.chance(1, 2) ? 0xffffffffu - s.below(200) : s.chance(1, 2) ? 0x80000000u + (uint32_t)s.range(-200, 200) : 100000 + s.below(0xf0000000u);
	Num A(a); CHECK(BnShiftR(A, k) == 0, "error", "BnShiftR by %u failed", k); ZEQ(A.val(), Z(0), "shift-right", "BnShiftR(%.100s, %u)", a.str().c_str(), k); zcanon(A, "BnShiftR");
	CHECK(BnShiftL(A, k) == 0, "error", "BnShiftL of zero by %u failed", k); ZEQ(A.val(), Z(0), "shift-left", "BnShiftL(0, %u)", k); zcanon(A, "BnShiftL"); COVER("huge distance"); vf_distinct(zh(a, k));
}
// ---- B06 ----
static Bytes twos(const Z &z)	// minimal two's complement, big endian
{
	if (!z.neg() || z.zero()) { Bytes b = z.be(); if (b.empty() || (b[0] & 0x80)) b.insert(b.begin(), 0); return b; }
	Z m = z.abs() - Z(1); Bytes b = m.be(); if (b.empty() || (b[0] & 0x80)) b.insert(b.begin(), 0); for (auto &x : b) x = ~x; return b;
}
static Z untwos(const Bytes &b) { Z r; if (b[0] & 0x80) { Bytes c(b); for (auto &x : c) x = ~x; BN_bin2bn(c.data(), (int)c.size(), r.v); return -(r + Z(1)); } BN_bin2bn(b.data(), (int)b.size(), r.v); return r; }
static Z gbyteint(Src &s)
{
	Z z; switch (s.below(6)) { case 0: z = Z::pow2((int)s.below(12) * 8 + s.range(0, 1) * 7); break; case 1: z = Z::pow2((int)s.range(0, 200)) + Z(s.range(-1, 1)); break; case 2: z = Z::pow2(WBIT * (int)s.range(0, 5)) + Z(s.range(-1, 1)); break; case 3: z = Z((long long)s.range(-300, 300)); break; default: z = gint(s, glen(s, 20)); }
	return s.chance(1, 2) ? -z : z;
}
static void tobytes1(Src &s, const Z &z)
{
	Bytes want = twos(z); int n = (int)want.size(); Num A(z);
	int q = BnToByteArray(A, NULL, s.range(0, 3)); CHECK(q == n, "query", "BnToByteArray(%.100s, NULL) = %d, %d bytes are needed", z.str().c_str(), q, n);
	int cap = s.chance(1, 3) ? n : s.chance(1, 3) ? s.range(0, n - 1) : n + s.range(0, 20);
	Buf o(cap, s.below(8)); int g = BnToByteArray(A, o.p, cap);
	if (cap < n) { CHECK(g == 0, "short-buffer", "BnToByteArray of %d bytes into %d returned %d", n, cap, g); CHECK(o.untouched(0), "short-buffer", "BnToByteArray wrote into a buffer it refused"); }
	else { CHECK(g == n, "length", "BnToByteArray(%.100s) = %d, %d bytes expected", z.str().c_str(), g, n); CHECK(!memcmp(o.p, want.data(), n), "value", "BnToByteArray(%.100s) = %s, should be %s", z.str().c_str(), vf_hex(o.p, n).c_str(), vf_hex(want).c_str()); CHECK(o.untouched(n), "beyond", "BnToByteArray wrote beyond the result"); }
	o.check("BnToByteArray"); ZEQ(A.val(), z, "operand-changed", "BnToByteArray");
	// fixed width
	Bytes ub = z.abs().be(); if (ub.empty()) ub.push_back(0); int un = (int)ub.size();
	int wd = s.chance(1, 3) ? un : s.chance(1, 3) ? s.range(0, un - 1) : un + s.range(0, 40); Buf f(wd, s.below(8));
	if (z.neg() && !z.zero()) { int r = BnToFixedByteArray(A, f.p, wd); CHECK(r == 0, "negative", "BnToFixedByteArray accepted a negative number"); CHECK(f.untouched(0), "negative", "BnToFixedByteArray wrote for a negative number"); }
	else {
		CHECK(BnToFixedByteArray(A, NULL, 0) == un, "query", "BnToFixedByteArray(NULL) = %d, not %d", BnToFixedByteArray(A, NULL, 0), un);
		int r = BnToFixedByteArray(A, f.p, wd);
		if (wd < un) { CHECK(r == 0, "short-buffer", "BnToFixedByteArray of %d bytes into %d returned %d", un, wd, r); CHECK(f.untouched(0), "short-buffer", "BnToFixedByteArray wrote into a buffer it refused"); }
		else { CHECK(r == wd, "length", "BnToFixedByteArray width %d returned %d", wd, r); Bytes e(wd, 0); memcpy(e.data() + wd - un, ub.data(), un); CHECK(!wd || !memcmp(f.p, e.data(), wd), "value", "BnToFixedByteArray(%.100s, %d) = %s", z.str().c_str(), wd, vf_hex(f.p, wd).c_str()); }
	}
	f.check("BnToFixedByteArray");
	// and back
	Num R(A->max_length + 1); R.dirty(gword(s)); int rc = BnSetByteArray(R, want.data(), n); CHECK(rc == 0, "parse", "BnSetByteArray returned %d", rc); ZEQ(R.val(), z, "roundtrip", "BnSetByteArray(%s)", vf_hex(want).c_str()); zcanon(R, "BnSetByteArray");
	vf_distinct(zh(z, cap * 1000 + wd)); COVERF("to bytes sign %d%s", z.neg(), cap < n ? " refused" : ""); vf_sample("%.60s -> %d bytes (room %d)", z.str().c_str(), n, cap);
}
CASE(B06, tobytes, 120000, 5000000, F_FUZZ) { tobytes1(s, gbyteint(s)); }
CASE(B06, tobytes_big, 300, 10000, 0) { tobytes1(s, s.chance(1, 40) ? gvast(s) : gbig(s)); }
static void parse1(Src &s, int n)
{
	Bytes b = s.texture(n);
	switch (s.below(5)) { case 0: { int k = s.range(0, n); memset(b.data(), 0xff, k); break; } case 1: { int k = s.range(0, n); memset(b.data(), 0, k); break; } case 2: if (n > 1) { memset(b.data(), 0, n); b[0] = 0xff; if (s.chance(1, 2)) b[s.below(n)] = 0xff; } break; case 3: { int k = s.range(0, n - 1); memset(b.data() + k, 0, n - k); break; } }
	Z su = untwos(b), un; BN_bin2bn(b.data(), n, un.v);
	int over = s.chance(1, 2) ? 0 : s.range(0, 3);
	Buf in(n, s.below(8)); memcpy(in.p, b.data(), n);
	{ Num A(su.nwords() + over); A.dirty(gword(s)); int rc = BnSetByteArray(A, in.p, n); CHECK(rc == 0, "parse", "BnSetByteArray(%s) with room for %d words returned %d", vf_hex(b).c_str(), A->max_length, rc); ZEQ(A.val(), su, "signed", "BnSetByteArray(%s)", vf_hex(b).c_str()); zcanon(A, "BnSetByteArray"); }
	{ Num A(un.nwords() + over); A.dirty(gword(s)); int rc = BnSetUByteArray(A, in.p, n); CHECK(rc == 0, "parse", "BnSetUByteArray(%s) with room for %d words returned %d", vf_hex(b).c_str(), A->max_length, rc); ZEQ(A.val(), un, "unsigned", "BnSetUByteArray(%s)", vf_hex(b).c_str()); zcanon(A, "BnSetUByteArray"); }
	CHECK(!memcmp(in.p, b.data(), n), "input-changed", "parsed bytes were changed"); in.check("parsed bytes");
	{ Num A(3); CHECK(BnSetByteArray(A, in.p, 0) != 0 && BnSetUByteArray(A, in.p, -1) != 0, "empty", "empty byte strings are accepted"); }
	vf_distinct(vf_hash(b.data(), n)); COVERF("parsed %s%s", b[0] & 0x80 ? "negative" : "positive", n > 1 && (b[0] == 0 || b[0] == 0xff) ? " with sign bytes" : "");
}
CASE(B06, parse, 120000, 5000000, F_FUZZ) { parse1(s, s.chance(1, 2) ? s.range(1, 3 * WB + 2) : s.range(1, 200)); }
CASE(B06, parse_big, 300, 10000, 0) { parse1(s, s.range(200, s.chance(1, 6) ? 140000 : 5000)); }
CASE(B06, enum, 66000, 66000, F_ENUM)
{	// every one- and two-byte string
	Bytes b; if (idx < 256) b = { (uint8_t)idx }; else if (idx < 256 + 65536) b = { (uint8_t)((idx - 256) >> 8), (uint8_t)(idx - 256) }; else { vf_trivial(); return; }
	Z su = untwos(b), un; BN_bin2bn(b.data(), (int)b.size(), un.v); Num A(2); CHECK(BnSetByteArray(A, b.data(), (int)b.size()) == 0, "parse", "refused"); ZEQ(A.val(), su, "signed", "BnSetByteArray(%s)", vf_hex(b).c_str()); zcanon(A, "BnSetByteArray");
	uint8_t o[8]; Bytes w = twos(su); int g = BnToByteArray(A, o, 8); CHECK(g == (int)w.size() && !memcmp(o, w.data(), g), "value", "%s becomes %s", vf_hex(b).c_str(), vf_hex(o, g).c_str());
	CHECK(BnSetUByteArray(A, b.data(), (int)b.size()) == 0, "parse", "refused"); ZEQ(A.val(), un, "unsigned", "BnSetUByteArray(%s)", vf_hex(b).c_str()); zcanon(A, "BnSetUByteArray");
	vf_distinct(vf_hash(b.data(), b.size()));
}

// ---- B07 ----
struct Pool {
	static const int N = 5, CAP = 24; Num *n[N]; Z z[N]; int step; std::string log; struct RaRandom *rnd;
	Pool(Src &s) : step(0), rnd(NULL) { uint8_t sd[4]; s.fill(sd, 4); RaRandomCreate(RA_RAND_SHA160, sd, 4, &rnd); for (int i = 0; i < N; i++) { n[i] = new Num(CAP); n[i]->dirty(gword(s)); z[i] = s.chance(1, 2) ? gint(s, 3) : Z(s.range(-2, 2)); n[i]->set(z[i]); } }
	~Pool() { RaRandomDestroy(rnd); for (int i = 0; i < N; i++) delete n[i]; }
	// a result whose value is not known beforehand: canonical now, and its words are its value from here on
	void take(int i, const char *op) { zcanon(*n[i], op); z[i] = n[i]->val(); }
	void chk(int i, const char *op) { zcanon(*n[i], op); ZEQ(n[i]->val(), z[i], "value", "after %s step %d", op, step); }
	void cmpall() { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int g = BnCmp(*n[i], *n[j]), w = zcmp(z[i], z[j]); CHECK((g > 0) - (g < 0) == w, "compare", "numbers %.60s and %.60s compare as %d after %d operations (%s)", z[i].str().c_str(), z[j].str().c_str(), g, step, log.c_str()); } }
	void op(Src &s)
	{
		int r = s.below(N), a = s.below(N), b = s.below(N), k = s.below(34); const char *nm = "?"; Z q, t; bn_uint_t w; int rc = 0; bool done = true;
		switch (k) {
		case 0: nm = "add"; t = z[a] + z[b]; if (t.nwords() >= CAP || (r == b && r != a && 0)) { done = false; break; } rc = BnAdd(*n[r], *n[a], *n[b]); z[r] = t; break;
		case 1: nm = "sub"; t = z[a] - z[b]; if (t.nwords() >= CAP) { done = false; break; } rc = BnSub(*n[r], *n[a], *n[b]); z[r] = t; break;
		case 2: nm = "mul"; t = z[a] * z[b]; if (r == a || r == b || t.nwords() >= CAP) { done = false; break; } rc = BnMul(*n[r], *n[a], *n[b]); z[r] = t; break;
		case 3: nm = "sqr"; t = z[a] * z[a]; if (r == a || t.nwords() >= CAP) { done = false; break; } rc = BnSqr(*n[r], *n[a]); z[r] = t; break;
		case 4: nm = "mod"; if (r == a || r == b || z[b].zero()) { done = false; break; } zdiv(z[a], z[b], q, t); rc = BnMod(*n[r], *n[a], *n[b]); z[r] = t; break;
		case 5: { nm = "div"; int x = (r + 1) % N; if (r == a || r == b || x == a || x == b || z[b].zero()) { done = false; break; } floordiv(z[a], z[b], q, t); rc = BnDiv(*n[r], *n[x], *n[a], *n[b]); z[r] = q; z[x] = t; chk(x, "div remainder"); break; }
		case 6: nm = "double"; t = z[a] + z[a]; if (t.nwords() >= CAP) { done = false; break; } rc = BnDouble(*n[r], *n[a]); z[r] = t; break;
		case 7: { nm = "shl"; uint32_t d = s.chance(1, 2) ? s.below(3) * WBIT : s.below(2 * WBIT); t = zshl(z[r], d); if (t.nwords() >= CAP) { done = false; break; } rc = BnShiftL(*n[r], d); z[r] = t; break; }
		case 8: { nm = "shr"; uint32_t d = s.chance(1, 2) ? s.below(5) * WBIT : s.below(4 * WBIT); rc = BnShiftR(*n[r], d); z[r] = zshr(z[r], d); break; }
		case 9: nm = "addint"; w = edgew(s); t = z[r] + sz(w); if (t.nwords() >= CAP) { done = false; break; } rc = BnAddInt(*n[r], (bn_int_t)w); z[r] = t; break;
		case 10: nm = "subint"; w = s.chance(1, 2) ? (*n[r])->data[0] : edgew(s); t = z[r] - sz(w); if (t.nwords() >= CAP) { done = false; break; } rc = BnSubInt(*n[r], (bn_int_t)w); z[r] = t; break;
		case 11: nm = "subuint"; w = s.chance(1, 2) ? (*n[r])->data[0] : edgew(s); t = z[r] - Z::U(w); if (t.nwords() >= CAP) { done = false; break; } rc = BnSubUInt(*n[r], w); z[r] = t; break;
		case 12: nm = "mulint"; w = edgew(s); t = z[r] * sz(w); if (t.nwords() >= CAP) { done = false; break; } rc = BnMulInt(*n[r], (bn_int_t)w); z[r] = t; break;
		case 13: nm = "muluint"; w = edgew(s); t = z[r] * Z::U(w); if (t.nwords() >= CAP) { done = false; break; } rc = BnMulUInt(*n[r], w); z[r] = t; break;
		case 14: { nm = "divint"; w = s.chance(1, 2) ? (*n[r])->data[0] : edgew(s); if (!w) w = 3; bn_uint_t g; zdiv(z[r], sz(w), q, t); rc = BnDivInt(*n[r], (bn_int_t)w, &g); z[r] = q; break; }
		case 15: { nm = "divuint"; w = s.chance(1, 2) ? (*n[r])->data[0] : edgew(s); if (!w) w = 3; bn_uint_t g; zdiv(z[r], Z::U(w), q, t); rc = BnDivUInt(*n[r], w, &g); z[r] = q; break; }
		case 16: { nm = "bytes"; Bytes y = twos(z[a]); int ex = s.below(WB * 2); y.insert(y.begin(), ex, y[0] & 0x80 ? 0xff : 0); rc = BnSetByteArray(*n[r], y.data(), (int)y.size()); z[r] = z[a]; break; }
		case 17: nm = "invert"; _BnInvert(*n[r]); z[r] = -z[r]; break;
		case 18: { nm = "gcd"; if (z[a].zero() || z[b].zero() || z[a].neg() || z[b].neg() || r == a || r == b) { done = false; break; } rc = GetGCD(*n[r], *n[a], *n[b]); z[r] = zgcd(z[a], z[b]); break; }
		case 19: { nm = "ubytes"; Bytes y(std::max(1, BN_num_bytes(z[a].v))); if (!z[a].zero()) BN_bn2bin(z[a].v, y.data()); int ex = s.below(WB * 2); y.insert(y.begin(), ex, 0); rc = BnSetUByteArray(*n[r], y.data(), (int)y.size()); z[r] = z[a].abs(); break; }
		case 20: case 21: {	// every way of assigning a machine integer
			uint64_t v = s.chance(1, 2) ? s.u64() >> s.below(64) : (s.chance(1, 2) ? 1ull << s.below(64) : 1ull << 32) - s.below(3); if (s.chance(1, 4)) v = 0 - v;
			switch (s.below(6)) {
			case 0: nm = "setint"; BnSetInt(*n[r], (bn_int_t)v); z[r] = sz((bn_uint_t)v); break;
			case 1: nm = "setint32"; BnSetInt32(*n[r], (int32_t)v); z[r] = Z((long long)(int32_t)v); break;
			case 2: nm = "setint64"; BnSetInt64(*n[r], (int64_t)v); z[r] = (int64_t)v < 0 ? -Z::U(0 - v) : Z::U(v); break;
			case 3: nm = "setuint"; BnSetUInt(*n[r], (bn_uint_t)v); z[r] = Z::U((bn_uint_t)v); break;
			case 4: nm = "setuint32"; BnSetUInt32(*n[r], (uint32_t)v); z[r] = Z::U((uint32_t)v); break;
			default: nm = "setuint64"; BnSetUInt64(*n[r], v); z[r] = Z::U(v);
			}
			break;
		}
		case 22: nm = "adduint"; w = edgew(s); t = z[r] + Z::U(w); if (t.nwords() >= CAP) { done = false; break; } rc = BnAddUInt(*n[r], w); z[r] = t; break;
		case 23: case 24: case 25: {	// random numbers of few bits above a word boundary, so that whole words come out zero
			int bit = s.chance(2, 3) ? s.range(1, 4) * WBIT + s.range(-2, 9) : s.range(1, 5 * WBIT); nm = k == 23 ? "random" : k == 24 ? "random odd" : "random rsa";
			rc = k == 23 ? BnGenRandom(*n[r], bit, rnd) : k == 24 ? BnGetRandomOdd(*n[r], bit, rnd) : BnGetRandomRSA(*n[r], bit, rnd);
			if (rc == 0) { take(r, nm); CHECK(!z[r].neg() && z[r].bits() <= bit, "range", "%s of %d bits gave %.80s", nm, bit, z[r].str().c_str()); } break;
		}
		case 26: { nm = "addr"; t = z[r] + z[a]; if (z[r].neg() || z[a].neg() || r == a || t.nwords() >= CAP) { done = false; break; } rc = _BnAddR(*n[r], *n[a]); z[r] = t; break; }
		case 27: { nm = "subr"; if (z[r].neg() || z[a].neg() || r == a || z[r] < z[a]) { done = false; break; } rc = _BnSubR(*n[r], *n[a]); z[r] = z[r] - z[a]; break; }
		case 28: { nm = "clone"; struct RaBigNumber *c = BnClone(*n[a]); CHECK(c, "error", "BnClone"); zcanon(c, "BnClone"); Z v = zval(c); int e = BnCmp(c, *n[a]); BnFree(c); ZEQ(v, z[a], "value", "BnClone"); CHECK(e == 0, "compare", "a clone of %.80s differs from it", z[a].str().c_str()); break; }
		case 29: case 30: {	// extended gcd: all three results
			int x = (r + 1) % N, y = (r + 2) % N; bool un = k == 30; nm = un ? "inverse" : "gcdex";
			if (z[a].zero() || z[b].zero() || z[a].neg() || z[b].neg() || a == b || r == a || r == b || x == a || x == b || y == a || y == b) { done = false; break; }
			Z g = zgcd(z[a], z[b]); rc = GetGCDEx(*n[r], *n[x], *n[y], *n[a], *n[b], un); if (rc) break;
			z[r] = g; take(x, nm); take(y, nm); if (!un) ZEQ(z[x] * z[a] + z[y] * z[b], g, "value", "a*m + b*n"); break;
		}
		case 31: case 32: {	// modular exponentiation
			Z m = z[b]; if (r == a || r == b || m.neg() || !m.odd() || m == Z(1) || m.nwords() > 4 || z[a].neg() || z[a].nwords() > m.nwords()) { done = false; break; }
			nm = "expmod"; struct RaMontCtx *c = NULL; rc = RaMontCreate(*n[b], &c); if (rc) break; Z e = s.chance(1, 4) ? Z(s.range(0, 3)) : gnat(s, 1); Num E(e); rc = RaMontExpMod(c, *n[r], *n[a], E); RaMontDestroy(c); z[r] = zpow(z[a], e, m); break;
		}
		default: nm = "set"; rc = BnSet(*n[r], *n[a]); z[r] = z[a]; break;
		}
		if (!done) return;
		step++; log += nm; log += ' ';
		CHECK(rc == 0, "error", "%s returned %d after %s", nm, rc, log.c_str()); chk(r, nm); COVER(nm); if (z[r].zero()) COVERF("%s gives zero", nm);
	}
};
CASE(B07, history, 25000, 1000000, F_FUZZ) { Pool p(s); int n = s.range(2, 25); uint64_t h = 5; for (int i = 0; i < n; i++) p.op(s); p.cmpall(); for (int i = 0; i < Pool::N; i++) h = zh(p.z[i], h); vf_distinct(vf_hash(p.log.data(), p.log.size(), h)); vf_sample("%.150s", p.log.c_str()); }
// the same value reached in two ways compares equal
CASE(B07, equal, 60000, 2000000, F_FUZZ)
{
	Z a = s.chance(1, 4) ? Z(s.range(-1, 1)) : gint(s, glen(s, 8)), b = s.chance(1, 3) ? a : gint(s, glen(s, 8)), c = gint(s, 2); if (c.zero()) c = Z(-1);
	Num A(a, 40), B(b, 40), C(c, 40), R(40), S(40), T(40), Q(40), O(a, 40); int k = s.below(9); Z w;
	switch (k) {
	case 0: BnAdd(R, A, B); BnSub(S, R, B); w = a; break;					// (a+b)-b
	case 1: BnMul(R, A, C); BnDiv(S, T, R, C); w = a; break;				// (a*c)/c
	case 2: BnSub(S, A, A); w = Z(0); break;
	case 3: BnMul(R, A, C); BnMod(S, R, C); w = Z(0); break;
	case 4: BnSet(S, A); { int d = s.below(300); BnShiftL(S, d); BnShiftR(S, d); } w = a; break;
	case 5: BnSet(S, A); BnShiftR(S, a.nwords() * WBIT + s.below(3)); w = Z(0); break;
	case 6: BnSet(S, A); BnMulInt(S, 0); w = Z(0); break;
	case 7: BnSub(R, A, B); BnSub(S, B, A); BnAdd(T, R, S); BnSet(S, T); w = Z(0); break;
	default: BnSub(R, A, B); BnAdd(S, R, B); w = a; break;
	}
	zcanon(S, "recomputed value"); Num W(w); CHECK(BnCmp(S, W) == 0 && BnCmp(W, S) == 0, "equal", "the value %.100s reached by route %d does not compare equal to itself", w.str().c_str(), k);
	if (w.zero()) CHECK(BN_ISZERO(S.b) && BnCmpInt(S, 0) == 0 && BnCmpUInt(S, 0) == 0 && !BN_ISNEG(S.b), "zero", "zero reached by route %d is not recognised", k);
	COVERF("route %d", k); vf_distinct(zh(a, zh(b, zh(c, k))));
}

// ---- B08 ----
struct Guard {	// numbers that must not change while another operation is refused
	Num *n[3]; Z z[3]; int c; Guard() : c(0) {} ~Guard() {}
};
static void usable(Num &r, const char *what)
{
	CHECK(r->length >= 1 && r->length <= r->max_length, "unusable", "%s: length %d of %d after a refused operation", what, r->length, r->max_length);
	BnSetUInt(r, 77); Z v = r.val(); CHECK(v == Z(77), "unusable", "%s: cannot be assigned after a refused operation", what); zcanon(r, what);
}
CASE(B08, capacity, 150000, 6000000, F_FUZZ)
{
	if (!vf_ndebug) { vf_trivial(); return; }	// with assertions such misuse stops at one
	static const char *nm[] = { "BnSet", "BnAdd", "BnSub", "BnDouble", "BnMul", "BnSqr", "BnMod", "BnDiv quotient", "BnDiv remainder", "BnAddInt", "BnAddUInt", "BnSubInt", "BnMulInt", "BnMulUInt", "BnShiftL", "BnSetByteArray", "BnSetUByteArray", "_BnAddR", "BnSubUInt" };
	int op = s.below(19), nw = s.chance(3, 4) ? s.range(1, 6) : s.range(1, 30); Z a = gint(s, nw), b = gint(s, s.chance(1, 2) ? nw : s.range(1, 8)), w, q, r2; int need = 1;
	if (s.chance(1, 4)) { a = Z::pow2(nw * WBIT) - Z(1); if (s.chance(1, 2)) a = -a; }
	bn_uint_t x = edgew(s); uint32_t k = s.chance(1, 2) ? s.below(4 * WBIT) : s.range(0, 3) * WBIT; Bytes by;
	if ((op == 6 || op == 7 || op == 8) && b.zero()) b = Z(3);
	switch (op) {
	case 0: w = a; need = w.nwords(); break;
	case 1: w = a + b; need = std::max({ a.nwords(), b.nwords(), w.nwords() }); break;
	case 2: w = a - b; need = std::max({ a.nwords(), b.nwords(), w.nwords() }); break;
	case 3: w = a + a; need = w.nwords(); break;
	case 4: w = a * b; need = mulroom(a, b); break;
	case 5: w = a * a; need = mulroom(a, a); break;
	case 6: { zdiv(a, b, q, w); need = b.nwords(); break; }
	case 7: floordiv(a, b, w, r2); need = std::max({ w.nwords(), a.nwords() - b.nwords() + 1, 1 }); break;
	case 8: floordiv(a, b, q, w); need = b.nwords(); break;
	case 9: w = a + sz(x); need = w.nwords(); break;
	case 10: w = a + Z::U(x); need = w.nwords(); break;
	case 11: w = a - sz(x); need = w.nwords(); break;
	case 12: w = a * sz(x); need = w.nwords(); break;
	case 13: w = a * Z::U(x); need = w.nwords(); break;
	case 14: w = zshl(a, k); need = w.nwords(); break;
	case 15: by = twos(a); by.insert(by.begin(), s.below(2 * WB), by[0] & 0x80 ? 0xff : 0); w = a; need = w.nwords(); break;
	case 16: by = a.abs().be(); if (by.empty()) by.push_back(0); by.insert(by.begin(), s.below(2 * WB), 0); w = a.abs(); need = w.nwords(); break;
	case 17: a = a.abs(); b = b.abs(); w = a + b; need = w.nwords(); break;
	case 18: w = a - Z::U(x); need = w.nwords(); break;
	}
	bool inplace = op >= 9 && op <= 14 || op == 17 || op == 18; int lo = 2;
	if (inplace) { lo = std::max(2, a.nwords()); need = std::max(need, a.nwords()); }
	int cap = s.chance(1, 2) ? need : s.chance(2, 3) ? std::max(lo, need - s.range(1, 3)) : need + 1; if (cap < lo) cap = lo;
	bool fits = cap >= need;
	Num A(a), B(b), O(60), R(cap); if (inplace) R.set(a); else R.dirty(gword(s)); int rc = 0;
	switch (op) {
	case 0: rc = BnSet(R, A); break; case 1: rc = BnAdd(R, A, B); break; case 2: rc = BnSub(R, A, B); break; case 3: rc = BnDouble(R, A); break; case 4: rc = BnMul(R, A, B); break; case 5: rc = BnSqr(R, A); break;
	case 6: rc = BnMod(R, A, B); break; case 7: rc = BnDiv(R, O, A, B); break; case 8: rc = BnDiv(O, R, A, B); break;
	case 9: rc = BnAddInt(R, (bn_int_t)x); break; case 10: rc = BnAddUInt(R, x); break; case 11: rc = BnSubInt(R, (bn_int_t)x); break; case 12: rc = BnMulInt(R, (bn_int_t)x); break; case 13: rc = BnMulUInt(R, x); break; case 14: rc = BnShiftL(R, k); break;
	case 15: rc = BnSetByteArray(R, by.data(), (int)by.size()); break; case 16: rc = BnSetUByteArray(R, by.data(), (int)by.size()); break; case 17: rc = _BnAddR(R, B); break; case 18: rc = BnSubUInt(R, x); break;
	}
	if (fits) { CHECK(rc == 0, "refused-fit", "%s of %.100s and %.100s into %d words returned %d although it fits", nm[op], a.str().c_str(), b.str().c_str(), cap, rc); ZEQ(R.val(), w, "value", "%s of %.100s and %.100s into exactly %d words", nm[op], a.str().c_str(), b.str().c_str(), cap); zcanon(R, nm[op]); }
	else if (w.nwords() > R->max_length) { CHECK(rc != 0, "accepted", "%s of %.100s and %.100s into %d words reported success, %d are needed", nm[op], a.str().c_str(), b.str().c_str(), R->max_length, w.nwords()); usable(R, nm[op]); }
	else if (rc == 0) { ZEQ(R.val(), w, "value", "%s of %.100s and %.100s into %d words", nm[op], a.str().c_str(), b.str().c_str(), cap); zcanon(R, nm[op]); }	// refusing or succeeding are both right
	else usable(R, nm[op]);
	CHECK(R->max_length == std::max(cap, 2), "capacity-changed", "%s changed the capacity", nm[op]);
	if (!inplace) ZEQ(A.val(), a, "operand-changed", "%s first operand", nm[op]); ZEQ(B.val(), b, "operand-changed", "%s second operand", nm[op]);
	COVERF("%s %s", nm[op], fits ? cap == need ? "exact fit" : "fits" : w.nwords() > R->max_length ? "too small" : "short of the operand"); vf_distinct(zh(a, zh(b, op * 100 + cap + x)));
	vf_sample("%s into %d words, %d needed: %d", nm[op], cap, need, rc);
}
CASE(B08, hugeshift, 2000, 60000, F_FUZZ)
{	// distances whose word counts do not fit 32-bit arithmetic
	if (!vf_ndebug) { vf_trivial(); return; }
	Z a = gint(s, s.range(1, 6)); if (a.zero()) a = Z(1); uint32_t k = s.chance(1, 2) ? 0xffffffffu - s.below(200) : s.chance(1, 2) ? 0x80000000u + (uint32_t)s.range(-200, 200) : 100000 + s.below(0xf0000000u);
	Num A(a, s.range(6, 40)); int rc = BnShiftL(A, k); CHECK(rc != 0, "accepted", "BnShiftL(%.100s, %u) into %d words reported success", a.str().c_str(), k, A->max_length); usable(A, "BnShiftL"); COVER("huge shift refused"); vf_distinct(zh(a, k));
}
CASE(B08, gcd, 15000, 400000, F_FUZZ)
{
	if (!vf_ndebug) { vf_trivial(); return; }
	Z g = gnat(s, s.range(1, 3)), m = gnat(s, s.range(1, 4)), n = gnat(s, s.range(1, 4)); if (g.zero()) g = Z(1); if (m.zero()) m = Z(1); if (n.zero()) n = Z(1); m = m * g; n = n * g; g = zgcd(m, n);
	{ Num M(m), N(n), R(s.range(1, g.nwords() + 1)); int rc = GetGCD(R, M, N); if (R->max_length >= g.nwords()) { CHECK(rc == 0, "refused-fit", "GetGCD into %d words returned %d", R->max_length, rc); ZEQ(R.val(), g, "value", "GetGCD"); } else { CHECK(rc != 0, "accepted", "GetGCD of %d words into %d reported success", g.nwords(), R->max_length); usable(R, "gcd"); } ZEQ(M.val(), m, "operand-changed", "GetGCD"); ZEQ(N.val(), n, "operand-changed", "GetGCD"); COVERF("gcd %s", R->max_length >= g.nwords() ? "fits" : "too small"); }
	{
		Num M(m), N(n), R(g, 0), A(s.range(1, n.nwords() + 1)), B(s.range(1, m.nwords() + 1)), A2(n.nwords() + 2), B2(m.nwords() + 2); int u = s.below(2);
		int rc2 = GetGCDEx(NULL, A2, B2, M, N, u), rc = GetGCDEx(R, A, B, M, N, u); CHECK(rc2 == 0, "refused-fit", "GetGCDEx with room returned %d", rc2); Z av = A2.val(), bv = B2.val();
		if (av.nwords() > A->max_length || bv.nwords() > B->max_length) { CHECK(rc != 0, "accepted", "GetGCDEx coefficients of %d and %d words into %d and %d reported success", av.nwords(), bv.nwords(), A->max_length, B->max_length); usable(A, "gcdex"); usable(B, "gcdex"); COVER("gcdex too small"); }
		else if (A->max_length >= n.nwords() && B->max_length >= m.nwords()) { CHECK(rc == 0, "refused-fit", "GetGCDEx into %d and %d words returned %d", A->max_length, B->max_length, rc); ZEQ(A.val(), av, "value", "GetGCDEx"); ZEQ(B.val(), bv, "value", "GetGCDEx"); COVER("gcdex fits"); }
	}
	vf_distinct(zh(m, zh(n)));
}
CASE(B08, expmod, 4000, 100000, F_FUZZ)
{
	if (!vf_ndebug) { vf_trivial(); return; }
	int nw = s.range(1, 5); Z n = gnat(s, nw); if (!n.odd()) n = n + Z(1); if (n == Z(1)) n = Z(3); Z a = gnat(s, s.range(1, n.nwords() + 2)), e = gnat(s, s.range(1, 2)); struct RaMontCtx *c = NULL;
	Num N(n), A(a), E(e), R(s.range(1, n.nwords() + 1)); int rc = RaMontCreate(N, &c); CHECK(rc == 0, "error", "RaMontCreate returned %d", rc);
	rc = RaMontExpMod(c, R, A, E); Z w = zpow(a, e, n);
	if (a.nwords() > n.nwords()) { CHECK(rc != 0, "accepted", "a base of %d words for a modulus of %d was accepted", a.nwords(), n.nwords()); usable(R, "expmod"); COVER("expmod base too long"); }
	else if (R->max_length < w.nwords()) { CHECK(rc != 0, "accepted", "a result of %d words into %d was accepted", w.nwords(), R->max_length); usable(R, "expmod"); COVER("expmod result too long"); }
	else if (R->max_length >= n.nwords()) { CHECK(rc == 0, "refused-fit", "RaMontExpMod into %d words returned %d", R->max_length, rc); ZEQ(R.val(), w, "value", "RaMontExpMod"); COVER("expmod fits"); }
	RaMontDestroy(c); vf_distinct(zh(n, zh(a, zh(e))));
}

// ---- B09 ----
static void gcdcase(Src &s, const Z &m, const Z &n)
{
	Z g = zgcd(m, n); Num M(m), N(n);
	{ Num R(g.nwords() + (int)s.below(2)); R.dirty(gword(s)); int rc = GetGCD(R, M, N); CHECK(rc == 0, "error", "GetGCD(%.100s, %.100s) returned %d", m.str().c_str(), n.str().c_str(), rc); ZEQ(R.val(), g, "gcd", "GetGCD(%.120s, %.120s)", m.str().c_str(), n.str().c_str()); zcanon(R, "GetGCD"); }
	{
		Num R(g.nwords()), A(n.nwords() + 1), B(m.nwords() + 1); R.dirty(gword(s)); A.dirty(gword(s)); B.dirty(gword(s)); bool noR = s.chance(1, 4), noA = s.chance(1, 6), noB = !noA && s.chance(1, 6);
		int rc = GetGCDEx(noR ? NULL : R.b, noA ? NULL : A.b, noB ? NULL : B.b, M, N, 0); CHECK(rc == 0, "error", "GetGCDEx(%.100s, %.100s) returned %d", m.str().c_str(), n.str().c_str(), rc);
		if (!noR) { ZEQ(R.val(), g, "gcd", "GetGCDEx(%.120s, %.120s)", m.str().c_str(), n.str().c_str()); zcanon(R, "GetGCDEx gcd"); }
		if (!noA && !noB) ZEQ(A.val() * m + B.val() * n, g, "bezout", "a*m+b*n for m=%.120s n=%.120s", m.str().c_str(), n.str().c_str());
		if (!noA) zcanon(A, "GetGCDEx a"); if (!noB) zcanon(B, "GetGCDEx b");
	}
	{
		Num R(g.nwords()), A(n.nwords() + 1), B(m.nwords() + 1); A.dirty(gword(s)); B.dirty(gword(s)); bool noA = s.chance(1, 6), noB = !noA && s.chance(1, 6);
		int rc = GetGCDEx(s.chance(1, 2) ? NULL : R.b, noA ? NULL : A.b, noB ? NULL : B.b, M, N, 1); CHECK(rc == 0, "error", "GetGCDEx(%.100s, %.100s, unsigned) returned %d", m.str().c_str(), n.str().c_str(), rc);
		if (g == Z(1)) {
			if (!noA) { Z a = A.val(); zcanon(A, "inverse"); CHECK(!a.neg() && (a < n || n == Z(1)), "inverse-range", "inverse of %.100s modulo %.100s is %.100s", m.str().c_str(), n.str().c_str(), a.str().c_str()); ZEQ(zmod(a * m, n), zmod(Z(1), n), "inverse", "a*m mod n for m=%.100s n=%.100s a=%.100s", m.str().c_str(), n.str().c_str(), a.str().c_str()); COVER("inverse of m"); }
			if (!noB) { Z b = B.val(); zcanon(B, "inverse"); CHECK(!b.neg() && (b < m || m == Z(1)), "inverse-range", "inverse of %.100s modulo %.100s is %.100s", n.str().c_str(), m.str().c_str(), b.str().c_str()); ZEQ(zmod(b * n, m), zmod(Z(1), m), "inverse", "b*n mod m for m=%.100s n=%.100s b=%.100s", m.str().c_str(), n.str().c_str(), b.str().c_str()); COVER("inverse of n"); }
		}
	}
	ZEQ(M.val(), m, "operand-changed", "gcd operand m"); ZEQ(N.val(), n, "operand-changed", "gcd operand n");
	COVERF("gcd %s, lengths %s", g == Z(1) ? "1" : g == m || g == n ? "is an operand" : "proper", m.nwords() < n.nwords() ? "m shorter" : m.nwords() == n.nwords() ? "equal" : "n shorter"); vf_distinct(zh(m, zh(n))); vf_sample("gcd(%.60s, %.60s)", m.str().c_str(), n.str().c_str());
}
static Z gpos(Src &s, int nw) { Z z = gnat(s, nw); return z.zero() ? Z(1) : z; }
CASE(B09, gcd, 12000, 500000, F_FUZZ)
{
	Z m, n; int L = s.chance(1, 4) ? 20 : 5;
	switch (s.below(8)) {
	case 0: { Z g = gpos(s, s.range(1, 3)); m = g * gpos(s, s.range(1, L)); n = g * gpos(s, s.range(1, L)); break; }
	case 1: m = gpos(s, s.range(1, L)); n = m; break;
	case 2: n = gpos(s, s.range(1, L)); m = n * gpos(s, s.range(1, 3)); if (s.chance(1, 2)) std::swap(m, n); break;
	case 3: { Z x(1), y(1); int k = s.range(2, 600); while (k--) { Z t = x + y; x = y; y = t; } m = x; n = y; if (s.chance(1, 2)) std::swap(m, n); break; }	// Fibonacci: longest chain
	case 4: m = gpos(s, s.range(1, L)); n = m + Z(s.range(1, 3)); break;
	case 5: m = Z::pow2((int)s.below(L * WBIT)); n = Z::pow2((int)s.below(L * WBIT)) + Z(s.range(0, 1)); break;
	case 6: m = Z((long long)s.range(1, 40)); n = Z((long long)s.range(1, 40)); if (s.chance(1, 2)) n = gpos(s, L); break;
	default: m = gpos(s, s.range(1, L)); n = gpos(s, s.range(1, L));
	}
	gcdcase(s, m, n);
}
CASE(B09, big, 60, 3000, 0)
{	// long numbers
	Z m, n; int L = s.range(21, idx % 5 ? 70 : 300);
	switch (s.below(4)) { case 0: m = gpos(s, L); n = gpos(s, s.range(1, 4)); if (s.chance(1, 2)) std::swap(m, n); break; case 1: { Z g = gpos(s, s.range(1, L)); m = g * gpos(s, s.range(1, 20)); n = g * gpos(s, s.range(1, 20)); break; } default: m = gpos(s, L); n = gpos(s, s.range(1, L)); if (s.chance(1, 2)) std::swap(m, n); }
	gcdcase(s, m, n); COVER("gcd of long numbers");
}
CASE(B09, small, 14400, 90000, F_ENUM) { int q = idx < 14400 ? 120 : 300; gcdcase(s, Z((long long)(idx % 14400 % q + 1)), Z((long long)(idx / q % q + 1))); }
CASE(B09, edges, 5000, 5000, F_ENUM) { const std::vector<Z> &v = edges(); if (idx >= v.size() * v.size()) { vf_trivial(); return; } Z a = v[idx / v.size()].abs(), b = v[idx % v.size()].abs(); if (a.zero()) a = Z(6); if (b.zero()) b = Z(6); gcdcase(s, a, b); }

// ---- B10 ----
static Z gmodulus(Src &s, int nw)
{
	Z n; switch (s.below(8)) { case 0: n = Z::pow2(nw * WBIT) - Z(1); break; case 1: n = Z::pow2(nw * WBIT - (int)s.below(WBIT)) - Z(1 + 2 * (long long)s.below(200)); break; case 2: n = Z::pow2((nw - 1) * WBIT + (int)s.below(WBIT)) + Z(1 + 2 * (long long)s.below(200)); break; case 3: n = Z((long long)s.range(3, 2000)); break; default: n = gnat(s, nw); }
	n = n.abs(); if (!n.odd()) n = n + Z(1); if (n.nwords() > nw) n = Z::pow2(nw * WBIT) - Z(1); if (n == Z(1)) n = Z(3); return n;
}
static void expmods(Src &s, const Z &n, int reps, int emax)
{
	Num N(n); struct RaMontCtx *c = NULL; int rc = RaMontCreate(N, &c); CHECK(rc == 0 && c, "error", "RaMontCreate(%.100s) returned %d", n.str().c_str(), rc); ZEQ(N.val(), n, "operand-changed", "RaMontCreate modulus");
	if (s.chance(1, 3)) N.dirty(0);	// the context keeps its own copy
	for (int i = 0; i < reps; i++) {
		Z a, e;
		switch (s.below(9)) { case 0: a = Z(0); break; case 1: a = Z(1); break; case 2: a = n - Z(1); break; case 3: a = n; break; case 4: a = Z::pow2(n.nwords() * WBIT) - Z(1); break; case 5: a = n + Z((long long)s.below(5)); if (a.nwords() > n.nwords()) a = n; break; default: a = gnat(s, n.nwords()); }
		switch (s.below(9)) { case 0: e = Z((long long)s.below(40)); break; case 1: e = Z::pow2((int)s.below(emax)); break; case 2: e = Z::pow2((int)s.range(1, emax)) - Z(1); break; case 3: { std::vector<bn_uint_t> d(s.range(1, emax / WBIT + 1)); bn_uint_t p = (bn_uint_t)0x8421084210842108ull >> s.below(5); if (s.chance(1, 2)) p = (bn_uint_t)0x1111111111111111ull << s.below(4); for (auto &x : d) x = p; e = Z::words(d.data(), (int)d.size()); break; } case 4: e = n - Z(1); if (e.bits() > emax) e = Z(65537); break; default: e = gnat(s, s.range(1, (emax + WBIT - 1) / WBIT)); }
		bool alias = s.chance(1, 3); Num A(a, alias ? n.nwords() : 0), E(e), R(n.nwords() + (int)s.below(2)); R.dirty(gword(s));
		rc = RaMontExpMod(c, alias ? A.b : R.b, A, E); CHECK(rc == 0, "error", "RaMontExpMod returned %d", rc);
		ZEQ(zval(alias ? A.b : R.b), zpow(a, e, n), "value", "%.120s ^ %.120s mod %.120s%s", a.str().c_str(), e.str().c_str(), n.str().c_str(), alias ? " in place" : ""); zcanon(alias ? A.b : R.b, "RaMontExpMod");
		if (!alias) ZEQ(A.val(), a, "operand-changed", "base"); ZEQ(E.val(), e, "operand-changed", "exponent");
		vf_distinct(zh(n, zh(a, zh(e)))); if (e.zero()) COVER("exponent 0"); if (a.zero()) COVER("base 0"); if (!(a < n)) COVER("base not reduced"); if (alias) COVER("result replaces the base"); COVERF("modulus words %s", n.nwords() == 1 ? "1" : n.nwords() == 2 ? "2" : n.nwords() <= 8 ? "3-8" : "9+"); COVERF("exponent bits mod 4 = %d", e.bits() % 4);
		if (!i) vf_sample("%.50s ^ %.50s mod %.50s", a.str().c_str(), e.str().c_str(), n.str().c_str());
	}
	RaMontDestroy(c);
}
CASE(B10, expmod, 6000, 250000, F_FUZZ) { expmods(s, gmodulus(s, s.chance(1, 8) ? s.range(5, 20) : s.range(1, 4)), s.range(1, 5), s.chance(1, 4) ? 300 : 130); }
CASE(B10, large, 60, 3000, F_SLOW) { if (idx % 6 == 5) { expmods(s, gmodulus(s, s.chance(1, 3) ? 4096 / WBIT : 3072 / WBIT + (int)s.below(6000 / WBIT)), 1, 140); COVER("modulus of 3072 to 9000 bits"); return; } expmods(s, gmodulus(s, 128 * 8 / WBIT + (int)s.below(2048 / WBIT)), 2, 400); }
CASE(B10, longexp, 160, 8000, 0)
{	// exponents of up to thousands of words
	Z n = gmodulus(s, s.range(1, 3)), a = gnat(s, n.nwords()), e = gbig(s, s.chance(1, 6) ? 1030 : 270).abs(); if (s.chance(1, 5)) e = Z::pow2((int)s.range(4000, 17000)); if (s.chance(1, 8)) e = Z::pow2(e.bits()) - Z(1);
	Num N(n), A(a), E(e), R(n.nwords()); struct RaMontCtx *c = NULL; CHECK(RaMontCreate(N, &c) == 0, "error", "RaMontCreate failed");
	int rc = RaMontExpMod(c, R, A, E); CHECK(rc == 0, "error", "RaMontExpMod with an exponent of %d words returned %d", e.nwords(), rc);
	ZEQ(R.val(), zpow(a, e, n), "value", "%.100s to an exponent of %d bits modulo %.100s", a.str().c_str(), e.bits(), n.str().c_str()); zcanon(R, "RaMontExpMod"); RaMontDestroy(c); vf_distinct(zh(n, zh(a, zh(e)))); COVER("exponent of more than 70 words");
}
CASE(B10, small, 1500, 20000, F_ENUM) { long long n = 1 + 2 * (long long)(idx % 1500); Num N{Z(n)}; struct RaMontCtx *c = NULL; CHECK(RaMontCreate(N, &c) == 0, "error", "RaMontCreate(%lld)", n); for (int i = 0; i < 12; i++) { Z a((long long)s.below(2 * n)), e(i < 6 ? i : (long long)s.below(5000)); Num A(a), E(e), R(1); CHECK(RaMontExpMod(c, R, A, E) == 0, "error", "small exponentiation"); ZEQ(R.val(), zpow(a, e, Z(n)), "value", "%s^%s mod %lld", a.str().c_str(), e.str().c_str(), n); vf_distinct(zh(a, zh(e, n))); } RaMontDestroy(c); }
CASE(B10, refuse, 400, 20000, F_FUZZ)
{
	Z n = gnat(s, s.range(1, 4)); if (n.odd()) n = n + Z(1); struct RaMontCtx *c = (struct RaMontCtx *)-1; if (n.zero() && !vf_ndebug) n = Z(2);
	Num N(n); int rc = RaMontCreate(N, &c); CHECK(rc != 0, "even-accepted", "RaMontCreate accepted the %s modulus %.100s", n.zero() ? "zero" : "even", n.str().c_str()); COVER(n.zero() ? "zero modulus refused" : "even modulus refused"); vf_distinct(zh(n, 3));
	if (vf_ndebug) { Z m = gmodulus(s, s.range(1, 3)); Num M(m); CHECK(RaMontCreate(M, &c) == 0, "error", "RaMontCreate"); Num A(Z::pow2(m.nwords() * WBIT + (int)s.below(70))), E(Z(5)), R(12); rc = RaMontExpMod(c, R, A, E); CHECK(rc != 0, "long-base-accepted", "a base of %d words was accepted for a modulus of %d", A->length, M->length); RaMontDestroy(c); COVER("long base refused"); }
}
