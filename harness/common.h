// Shared by the replay harnesses.  The oracle is GMP arithmetic, independent of prime_field.
#pragma once
#include <gmpxx.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <functional>
#include <fstream>
#include <random>
#include <unistd.h>
#include <fcntl.h>
#include "linear_gkr/prime_field.h"
typedef mpz_class Z;
typedef prime_field::field_element FE;
static const char *PSTR = "16798108731015832284940804142231733909759579603404752749028378864165570215949";
static Z MODP(PSTR);
static std::mt19937_64 rng;
static std::vector<long long> dict;          // literals of the source under test
inline Z zm(Z a){ a %= MODP; if(a < 0) a += MODP; return a; }
inline Z zof128(__uint128_t x){ Z r((unsigned long)(unsigned long long)(x >> 64)); r <<= 64; r += Z((unsigned long)(unsigned long long)x); return r; }
inline Z zof(const prime_field::u256b &x){ Z r = zof128(x.hi); r <<= 64; r += Z((unsigned long)x.mid); r <<= 64; r += Z((unsigned long)x.lo); return r; }
inline Z zof(const prime_field::u512b &x){ Z r = zof(x.hi); r <<= 128; r += zof128(x.mid); r <<= 128; r += zof128(x.lo); return r; }
inline Z zof(const FE &x){ return zof(x.value); }
inline unsigned long long low64(const Z &x){ Z m = x & Z("18446744073709551615"); return (unsigned long long)m.get_ui(); }
inline prime_field::u256b u256of(Z x){ prime_field::u256b r; r.lo = low64(x); r.mid = low64(x >> 64); r.hi = (__uint128_t)low64(x >> 128) | ((__uint128_t)low64(x >> 192) << 64); return r; }
inline prime_field::u512b u512of(Z x){ prime_field::u512b r; r.lo = (__uint128_t)low64(x) | ((__uint128_t)low64(x >> 64) << 64); r.mid = (__uint128_t)low64(x >> 128) | ((__uint128_t)low64(x >> 192) << 64); r.hi = u256of(x >> 256); return r; }
inline FE feof(Z x){ FE r; r.value = u512of(zm(x)); return r; }
inline Z inv(Z a){ Z r; a = zm(a); mpz_invert(r.get_mpz_t(), a.get_mpz_t(), MODP.get_mpz_t()); return r; }
inline unsigned long long R(unsigned long long n){ return rng() % n; }
inline Z zrand(){ Z r; for(int i = 0; i < 5; ++i){ r <<= 64; r += Z((unsigned long)rng()); } return zm(r); }
inline Z zedge(){
	switch(R(12)){
		case 0: return 0; case 1: return 1; case 2: return MODP - 1; case 3: return MODP - 2;
		case 4: { Z r = 1; r <<= (unsigned)R(254); return zm(r); }
		case 5: { Z r = 1; r <<= (unsigned)R(254); return zm(r - 1); }
		case 6: { Z r = 1; r <<= (unsigned)R(254); return zm(MODP - r); }
		case 7: return zm(Z((long)(dict.empty() ? 7 : dict[R(dict.size())])));
		case 8: { Z r = 0; for(int i = 0; i < 4; ++i){ r <<= 64; int k = R(4); unsigned long long w = k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? 1ull << R(64) : rng(); r += Z((unsigned long)w);} return zm(r); }
		default: return zrand();
	}
}
static long NCASE = 0;
static std::string CURCASE;
// every failure ends the run: the case is printed in full and can be replayed with the same arguments
inline void fail(const char *tag, const std::string &msg){
	printf("COUNTEREXAMPLE %s: %s\n%s\n", tag, msg.c_str(), CURCASE.c_str());
	fflush(stdout);
	_exit(1);
}
inline void eqz(const char *tag, const Z &got, const Z &want, const std::string &what){
	++NCASE;
	if(got != want) fail(tag, what + ": got " + got.get_str() + ", expected " + want.get_str());
}
inline void eqf(const char *tag, const FE &got, const Z &want, const std::string &what){ eqz(tag, zof(got), zm(want), what); }
inline void check(const char *tag, bool ok, const std::string &what){ ++NCASE; if(!ok) fail(tag, what); }
inline std::string S(long long x){ return std::to_string(x); }
// eq~ weights and multilinear extensions, straight from the definition
inline Z eqw(long x, const std::vector<Z> &r){ Z a = 1; for(size_t i = 0; i < r.size(); ++i) a = zm(a * ((x >> i) & 1 ? r[i] : 1 - r[i])); return a; }
inline Z mleval(const std::vector<Z> &v, const std::vector<Z> &r){ Z a = 0; for(size_t x = 0; x < v.size(); ++x) a += v[x] * eqw(x, r); return zm(a); }
struct Quiet { int so, se; Quiet(){ fflush(0); se = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n);} ~Quiet(){ fflush(0); dup2(se, 2); close(se);} };
inline void load_dict(const char *f){ if(!f || !*f) return; std::ifstream in(f); long long x; while(in >> x) dict.push_back(x); }
