// Replay harness of prime_field: every operation against GMP.  The source file is included so that its inline operators are reachable.
#include "linear_gkr/prime_field.cpp"
#include "linear_gkr/polynomial.h"
#include "common.h"
using namespace prime_field;
static std::vector<Z> pool;
static const Z T64("18446744073709551616"), T128 = T64 * T64, T256 = T128 * T128, T512 = T256 * T256, T508 = T512 / 16;
static Z pmod(Z a, const Z &m){ a %= m; if(a < 0) a += m; return a; }
static unsigned long long limb(){ switch(R(9)){ case 0: return 0; case 1: return 1; case 2: return ~0ull; case 3: return ~0ull - 1; case 4: return 1ull << R(64); case 5: return (1ull << R(64)) - 1; case 6: return dict.empty() ? 2 : (unsigned long long)dict[R(dict.size())]; default: return rng(); } }
static Z wide(int limbs){
	Z top = Z(1) << (64 * limbs);
	if(!pool.empty() && R(2)) return pmod(pool[R(pool.size())], top);
	switch(R(8)){
		case 0: { Z r = zrand() * MODP + (long)R(3) - 1; return pmod(r, top); }
		case 1: { Z r = (Z(1) << (unsigned)R(64 * limbs)) + (long)R(3) - 1; return pmod(r, top); }
		case 2: { Z r = top - 1 - (long)R(3); return pmod(r, top); }
		case 3: { Z r = MODP * (long)R(5) + (long)R(3) - 1; return pmod(r, top); }
		case 4: { Z r = zrand(); return pmod(r, top); }
		default: { int n = R(4) ? limbs : 1 + R(limbs); Z r = 0; for(int i = 0; i < n; ++i){ r <<= 64; r += Z((unsigned long)limb()); } return r; }
	}
}
static Z canon(){ if(!pool.empty() && R(2)) return zm(pool[R(pool.size())]); return R(2) ? zedge() : zm(wide(4)); }
static void two(const Z &a, const Z &b, const char *w){ CURCASE = std::string("a = ") + a.get_str() + "\nb = " + b.get_str() + "\n" + w + "\n"; }
static void T_field(Z a, Z b){
	a = zm(a); b = zm(b); two(a, b, "canonical field elements");
	FE x = feof(a), y = feof(b); const FE x0 = x, y0 = y;
	eqf("field", x + y, a + b, "a + b"); eqf("field", x - y, a - b, "a - b"); eqf("field", x * y, a * b, "a * b"); eqf("field", x * x, a * a, "a * a"); eqf("field", x - x, 0, "a - a"); eqf("field", x + x, a + a, "a + a");
	eqz("field", zof(x.mul_non_mod(y)), a * b, "unreduced product");
	check("field", (x == y) == (a == b), "a == b"); check("field", (x != y) == (a != b), "a != b"); check("field", x == x && !(x != x), "a == a");
	eqz("field", zof(x), a, "operand unchanged"); eqz("field", zof(y), b, "operand unchanged");
	FE d; eqz("field", zof(d), 0, "default value");
}
static void T_wide(const Z &a, const Z &b){
	two(a, b, "512-bit operands");
	u512b x = u512of(a), y = u512of(b);
	eqz("wide", zof(x + y), pmod(a + b, T512), "512-bit a + b"); eqz("wide", zof(x - y), pmod(a - b, T512), "512-bit a - b");
	check("cmp", (x != y) == (a != b), "512-bit a != b"); check("cmp", (x > y) == (a > b), "512-bit a > b"); check("cmp", (x >= y) == (a >= b), "512-bit a >= b"); check("cmp", (x < y) == (a < b), "512-bit a < b");
	check("cmp", !(x != x) && !(x > x) && x >= x && !(x < x), "512-bit comparison with itself");
	Z c = pmod(a, T256), d = pmod(b, T256); u512b u = u512of(c), v = u512of(d);
	eqz("wide", zof(u * v), c * d, "512-bit product of 256-bit values");
	Z e = pmod(a, T508); eqz("wide", zof(u512of(e) % mod), zm(e), "a mod p"); Z f = pmod(c * d, T508); eqz("wide", zof(u512of(f) % mod), zm(f), "a*b mod p");
	u256b s = u256of(c), t = u256of(d);
	eqz("wide", zof(s + t), pmod(c + d, T256), "256-bit a + b"); eqz("wide", zof(s - t), pmod(c - d, T256), "256-bit a - b"); eqz("wide", zof(s * t), pmod(c * d, T256), "256-bit a * b"); eqz("wide", zof(s.left_128()), pmod(c << 128, T256), "shift by 128");
	check("cmp", (s <= t) == (c <= d), "256-bit a <= b"); check("cmp", (s != t) == (c != d), "256-bit a != b"); check("cmp", (s > t) == (c > d), "256-bit a > b"); check("cmp", (s < t) == (c < d), "256-bit a < b"); check("cmp", s <= s && !(s != s) && !(s < s) && !(s > s), "256-bit comparison with itself");
	Z g = pmod(a, T128), h = pmod(b, T128); u256b hp; mul_no_hi(u256of(g), u256of(h), hp); eqz("wide", zof(hp), g * h, "half product");
	__uint128_t w = ((__uint128_t)low64(g >> 64) << 64) | low64(g); eqz("wide", zof(u256b(w)), g, "256-bit from 128-bit"); eqz("wide", zof(u512b(w)), g, "512-bit from 128-bit"); eqz("wide", zof(u512b(s)), c, "512-bit from 256-bit"); eqz("wide", zof(u256b((unsigned long long)low64(a))), Z((unsigned long)low64(a)), "256-bit from 64-bit");
	int i = R(256); check("wide", s.bit_at(i) == (int)mpz_tstbit(c.get_mpz_t(), i), "bit " + S(i)); check("wide", s.testBit(i) == (int)mpz_tstbit(c.get_mpz_t(), i), "test of bit " + S(i));
	if(c != 0) check("wide", s.bitLen() == (int)mpz_sizeinbase(c.get_mpz_t(), 2), "256-bit bit length");
}
static void T_conv(Z a){
	int i; switch(R(6)){ case 0: i = -2147483647 - 1; break; case 1: i = 2147483647; break; case 2: i = (int)R(5) - 2; break; case 3: i = dict.empty() ? -1 : (int)dict[R(dict.size())]; break; default: i = (int)rng(); }
	CURCASE = "int " + S(i) + "\n"; eqf("conv", FE(i), Z(i), "field element of an int"); unsigned long long u = limb(); CURCASE = "unsigned " + std::to_string(u) + "\n"; eqz("conv", zof(FE(u)), Z((unsigned long)u), "field element of an unsigned integer");
	a = zm(a); FE x = feof(a); CURCASE = "a = " + a.get_str() + "\n";
	eqz("conv", x.to_gmp_class(), a, "exported integer"); char *s = x.to_string(); for(int k = 0; k < 512; ++k) check("conv", s[k] == (k < 256 && mpz_tstbit(a.get_mpz_t(), k) ? '1' : '0'), "binary digit " + S(k));
	auto bs = x.bit_stream(); check("conv", bs.size() == 256, "256 bits"); for(int k = 0; k < 256; ++k) check("conv", bs[k] == (bool)mpz_tstbit(a.get_mpz_t(), k), "bit " + S(k));
	if(a != 0) check("conv", x.bitLen() == (int)mpz_sizeinbase(a.get_mpz_t(), 2), "bit length");
	Z b = wide(8); FE y; y.value = u512of(b); CURCASE = "raw a = " + b.get_str() + "\n"; if(b != 0) check("conv", y.bitLen() == (int)mpz_sizeinbase(b.get_mpz_t(), 2), "bit length"); s = y.to_string(); for(int k = 0; k < 512; ++k) check("conv", s[k] == (mpz_tstbit(b.get_mpz_t(), k) ? '1' : '0'), "binary digit " + S(k));
	Z n = wide(4); std::string t = n.get_str(); if(!R(4)) t = "0" + t; CURCASE = "numeral " + t + "\n"; eqz("conv", zof(u256b(t.c_str(), t.size(), 10)), n, "256-bit numeral"); eqz("conv", zof(u512b(t.c_str(), t.size(), 10)), n, "512-bit numeral");
}
static void T_consts(){
	CURCASE = "after init\n"; eqz("consts", zof(mod), MODP, "modulus"); eqz("consts", zof(mod_512), MODP, "wide modulus"); eqz("consts", zof(minus_mod_512), T512 - MODP, "negated modulus"); eqz("consts", zof(one), 1, "one"); eqz("consts", zof(zero), 0, "zero"); check("consts", initialized, "initialized flag");
}
static void T_random(){
	std::vector<Z> seen; CURCASE = "64 consecutive random elements\n"; Z orr = 0;
	for(int i = 0; i < 64; ++i){ Z a = zof(prime_field::random()); check("random", a >= 0 && a < MODP, "random element " + a.get_str() + " is not canonical"); for(auto &b : seen) check("random", a != b, "random element repeats: " + a.get_str()); seen.push_back(a); orr |= a; }
	check("random", mpz_sizeinbase(orr.get_mpz_t(), 2) >= 250, "random elements stay in a small range");
}
template<class PL> static Z pe(const PL &, const std::vector<Z> &c, const Z &x){ Z r = 0; for(auto &k : c) r = zm(r * x + k); return r; }
static void T_poly(){
	std::vector<Z> a, b; for(int i = 0; i < 6; ++i){ a.push_back(canon()); b.push_back(canon()); } Z x = canon(); std::string s = "coefficients"; for(auto &k : a) s += " " + k.get_str(); s += "\nother"; for(auto &k : b) s += " " + k.get_str(); CURCASE = s + "\nx = " + x.get_str() + "\n";
	std::vector<FE> A, B; for(int i = 0; i < 6; ++i){ A.push_back(feof(a[i])); B.push_back(feof(b[i])); } FE X = feof(x);
	auto ev = [&](int n, const std::vector<Z> &c){ Z r = 0; for(int i = 0; i < n; ++i) r = zm(r * x + c[i]); return r; };
	linear_poly l(A[0], A[1]), l2(B[0], B[1]); quadratic_poly q(A[0], A[1], A[2]), q2(B[0], B[1], B[2]); cubic_poly c(A[0], A[1], A[2], A[3]), c2(B[0], B[1], B[2], B[3]); quadruple_poly d(A[0], A[1], A[2], A[3], A[4]), d2(B[0], B[1], B[2], B[3], B[4]); quintuple_poly e(A[0], A[1], A[2], A[3], A[4], A[5]), e2(B[0], B[1], B[2], B[3], B[4], B[5]);
	eqf("poly", l.eval(X), ev(2, a), "linear value"); eqf("poly", q.eval(X), ev(3, a), "quadratic value"); eqf("poly", c.eval(X), ev(4, a), "cubic value"); eqf("poly", d.eval(X), ev(5, a), "quartic value"); eqf("poly", e.eval(X), ev(6, a), "quintic value");
	eqf("poly", (l + l2).eval(X), ev(2, a) + ev(2, b), "linear sum"); eqf("poly", (q + q2).eval(X), ev(3, a) + ev(3, b), "quadratic sum"); eqf("poly", (c + c2).eval(X), ev(4, a) + ev(4, b), "cubic sum"); eqf("poly", (d + d2).eval(X), ev(5, a) + ev(5, b), "quartic sum"); eqf("poly", (e + e2).eval(X), ev(6, a) + ev(6, b), "quintic sum");
	eqf("poly", (l * l2).eval(X), ev(2, a) * ev(2, b), "linear product"); eqf("poly", (q * l2).eval(X), ev(3, a) * ev(2, b), "quadratic times linear");
	eqf("poly", linear_poly(A[0]).eval(X), a[0], "constant"); quadratic_poly p = l * l2; eqf("poly", p.a, a[0] * b[0], "product coefficient"); eqf("poly", p.b, a[0] * b[1] + a[1] * b[0], "product coefficient"); eqf("poly", p.c, a[1] * b[1], "product coefficient");
	auto qs = q + q2; eqf("poly", qs.a, a[0] + b[0], "sum coefficient"); eqf("poly", qs.b, a[1] + b[1], "sum coefficient"); eqf("poly", qs.c, a[2] + b[2], "sum coefficient");
}
int main(int argc, char **argv){
	// field TESTS SECONDS SEED [DICT [POOL]]
	std::string t = argv[1]; double secs = atof(argv[2]); unsigned long seed = atol(argv[3]); load_dict(argc > 4 ? argv[4] : "");
	if(argc > 5){ std::ifstream in(argv[5]); std::string s; while(in >> s) pool.push_back(Z(s)); }
	rng.seed(seed); prime_field::init(PSTR, 10); srand(seed);
	time_t t0 = time(0); long it = 0;
	auto has = [&](char c){ return t.find(c) != std::string::npos; };
	for(size_t i = 0; i < pool.size() && i < 60; ++i) for(size_t j = 0; j < pool.size() && j < 60; ++j){ if(has('a')) T_field(pool[i], pool[j]); if(has('w')) T_wide(pmod(pool[i], T512), pmod(pool[j], T512)); }
	if(has('k')) T_consts();
	while(it < 40 || difftime(time(0), t0) < secs){
		++it; if(has('a')) T_field(canon(), R(8) ? canon() : MODP - canon()); if(has('w')) { Z a = wide(8), b = R(6) ? wide(8) : a + (long)R(3) - 1; if(b < 0) b = 0; b = pmod(b, T512); T_wide(a, b); } if(has('c')) T_conv(canon()); if(has('p')) T_poly(); if(has('g')) T_random();
	}
	printf("OK iterations=%ld comparisons=%ld\n", it, NCASE);
	return 0;
}
