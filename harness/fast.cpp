// Replay harness of the linear-time prover/verifier: searches a concrete failing input for a failed obligation.
// With -DTRAD: the C log C prover and its verifier (add, mult and dummy gates, no relay layer).
#ifdef TRAD
#define PHDR "traditional_gkr/prover_clogc.h"
#define VHDR "traditional_gkr/verifier_traditional.h"
static const bool RELAY = false;
#else
#define PHDR "linear_gkr/prover_fast_track.h"
#define VHDR "linear_gkr/verifier_fast_track.h"
static const bool RELAY = true;
#endif
#define prover real_prover
#include PHDR
#undef prover
#undef __prover
#include PHDR
#include VHDR
#include "common.h"
prime_field::field_element* generate_randomness(unsigned int size);

struct G { int ty, u, v; };
struct Circ {
	std::vector<std::vector<G>> L; std::vector<int> bl;
	std::string str() const { std::string s = "circuit (layer: bit_length, gates ty,u,v):\n"; for(size_t i = 0; i < L.size(); ++i){ s += "  " + S(i) + ": " + S(bl[i]) + " |"; for(auto &g : L[i]) s += " " + S(g.ty) + "," + S(g.u) + "," + S(g.v); s += "\n"; } return s; }
};
static int maxbl(const Circ &c){ int m = 0; for(int b : c.bl) m = std::max(m, b); return m; }
static int in_value(){ switch(R(9)){ case 0: return 0; case 1: return 1; case 2: return 2147483647; case 3: if(!dict.empty()){ long long d = dict[R(dict.size())]; if(d >= 0 && d <= 2147483647) return d; } return 2; case 4: return R(4); case 5: return -(int)R(1000); default: return R(2147483648u); } }
static Circ gen(int maxb, int maxd){
	Circ c; int D = RELAY ? 2 + R(maxd - 1) : 1 + R(maxd); c.L.resize(D + 1); c.bl.resize(D + 1);
	for(int i = 1; i <= D; ++i) c.bl[i] = 1 + R(maxb);
	if(R(8) == 0) for(int i = 1, w = R(2); i <= D; ++i, w ^= 1) c.bl[i] = w ? 5 + R(3) : 1 + R(2);     // narrow and wide layers alternate
	c.bl[0] = RELAY ? c.bl[1] : D && c.bl[1] > 4 ? 1 + R(2) : 1 + R(maxb);
	static const int T[] = {0,1,2,5,6,7,8,9,10}; int NT = RELAY ? 9 : 3;
	int bias = R(3) ? -1 : T[R(NT)];
	for(int i = 0; i <= D; ++i) for(int g = 0; g < (1 << c.bl[i]); ++g){
		G q;
		if(i == 0){ q.ty = R(4) ? 3 : 2; q.u = in_value(); q.v = R(3) ? 0 : R(100); }
		else if(RELAY && i == 1){ q = G{4, g, 0}; }
		else {
			int n = 1 << c.bl[i - 1];
			q.ty = bias >= 0 && R(2) ? bias : T[R(NT)]; q.u = R(n); q.v = R(5) ? (int)R(n) : q.u;
			if(q.ty == 5){ int a = R(n + 1), b = R(n + 1); q.u = std::min(a, b); q.v = std::max(a, b); if(!R(6)){ q.u = 0; q.v = n; } }
			if(q.ty == 6 || q.ty == 10) q.v = 0;
			if(q.ty == 2 && R(2)) q.u = q.v = 0;
		}
		c.L[i].push_back(q);
	}
	return c;
}
static std::vector<std::vector<Z>> oracle(const Circ &c){
	std::vector<std::vector<Z>> V(c.L.size());
	for(size_t i = 0; i < c.L.size(); ++i) for(auto &g : c.L[i]){
		Z r = 0;
		if(i == 0) r = g.ty == 3 ? Z(g.u) : Z(0);
		else { auto &w = V[i - 1]; bool two = g.ty < 2 || (g.ty >= 7 && g.ty <= 9); Z x = g.ty == 5 || g.ty == 2 || g.ty == 3 ? Z(0) : w[g.u], y = two ? w[g.v] : Z(0);
			switch(g.ty){ case 3: r = g.u; break; case 0: r = x + y; break; case 1: r = x * y; break; case 2: r = 0; break; case 4: case 10: r = x; break;
				case 5: for(int j = g.u; j < g.v; ++j) r += w[j]; break; case 6: r = 1 - x; break; case 7: r = x - y; break; case 8: r = x + y - 2 * x * y; break; case 9: r = y - x * y; break; } }
		V[i].push_back(zm(r));
	}
	return V;
}
static layered_circuit build(const Circ &c){
	layered_circuit C; C.total_depth = c.L.size(); C.circuit = new layer[C.total_depth];
	for(int i = 0; i < C.total_depth; ++i){ C.circuit[i].bit_length = c.bl[i]; C.circuit[i].gates = new gate[1 << c.bl[i]]; for(int g = 0; g < (1 << c.bl[i]); ++g) C.circuit[i].gates[g] = gate(c.L[i][g].ty, c.L[i][g].u, c.L[i][g].v); }
	return C;
}
static void drop(layered_circuit &C){ for(int i = 0; i < C.total_depth; ++i) delete[] C.circuit[i].gates; delete[] C.circuit; }
static real_prover RPbuf, *RP = &RPbuf;
static prover PXbuf; static prover *PX = &PXbuf;
static std::vector<FE> fev(const std::vector<Z> &v){ std::vector<FE> r; for(auto &x : v) r.push_back(feof(x)); return r; }
static std::vector<Z> om(const std::vector<Z> &v){ std::vector<Z> r; for(auto &x : v) r.push_back(zm(1 - x)); return r; }
static std::vector<Z> rv(int n, bool edge = true){ std::vector<Z> r; for(int i = 0; i < n; ++i) r.push_back(edge ? zedge() : zrand()); return r; }
static std::string vs(const char *n, const std::vector<Z> &v){ std::string s = std::string(n) + " ="; for(auto &x : v) s += " " + x.get_str(); return s + "\n"; }

#include "reader.h"
// ---------------- honest forwarding prover with optional tampering
struct Msg { Z a, b, c; };
static struct Rec { std::vector<std::vector<Z>> ru, rv; std::vector<Z> al, be; std::vector<std::vector<Z>> r0, r1; std::vector<std::vector<Msg>> p1, p2; std::vector<Z> vu, vv, claimed; std::vector<Z> out; } rec, old;
static int layer_k, round_j;
static std::function<void(std::vector<Z>&)> t_out; static std::function<void(int, int, int, Msg&)> t_poly; static std::function<void(int, Z&)> t_claim; static std::function<void(int, Z&, Z&)> t_fin;
static std::vector<FE> outbuf; static int cur_n, phase;
void prover::get_circuit(const layered_circuit &c){ RP->get_circuit(c); }
void prover::init_array(int n){ told_n = n; RP->init_array(n); }
void prover::proof_init(){ RP->proof_init(); }
prover::~prover(){}
void prover::delete_self(){ RP->delete_self(); }
FE* prover::evaluate(){
	rec = Rec(); layer_k = -1; FE *r = RP->evaluate();
	int n = 1 << RP->C.circuit[RP->C.total_depth - 1].bit_length; outbuf.assign(r, r + n);
	std::vector<Z> o; for(auto &x : outbuf) o.push_back(zof(x)); rec.out = o;
	if(t_out){ t_out(o); outbuf = fev(o); }
	return outbuf.data();
}
FE prover::V_res(const FE *a, const FE *b, const FE *c, int n, int m){ return RP->V_res(a, b, c, n, m); }
void prover::sumcheck_init(int id, int bg, int bu, int bv, const FE &al, const FE &be, const FE *r0, const FE *r1, FE *o0, FE *o1){
	++layer_k; phase = 0; cur_n = bu; rec.al.push_back(zof(al)); rec.be.push_back(zof(be)); rec.ru.emplace_back(); rec.rv.emplace_back(); rec.p1.emplace_back(); rec.p2.emplace_back();
	rec.r0.emplace_back(); rec.r1.emplace_back(); for(int i = 0; i < bg; ++i){ rec.r0.back().push_back(zof(r0[i])); rec.r1.back().push_back(zof(r1[i])); }
	RP->sumcheck_init(id, bg, bu, bv, al, be, r0, r1, o0, o1);
}
void prover::sumcheck_phase1_init(){ RP->sumcheck_phase1_init(); phase = 1; }
static quadratic_poly tamper(quadratic_poly q, int ph, int j){
	Msg m{zof(q.a), zof(q.b), zof(q.c)}; if(t_poly) t_poly(ph, layer_k, j, m);
	(ph == 1 ? rec.p1 : rec.p2).back().push_back(m); return quadratic_poly(feof(m.a), feof(m.b), feof(m.c));
}
quadratic_poly prover::sumcheck_phase1_update(FE prev, int j){ if(j) rec.ru.back().push_back(zof(prev)); return tamper(RP->sumcheck_phase1_update(prev, j), 1, j); }
void prover::sumcheck_phase2_init(FE prev, const FE *ru, const FE *o){ rec.ru.back().push_back(zof(prev)); RP->sumcheck_phase2_init(prev, ru, o); Z c = zof(RP->v_u); if(t_claim) t_claim(layer_k, c); rec.claimed.push_back(c); v_u = feof(c); phase = 2; }
quadratic_poly prover::sumcheck_phase2_update(FE prev, int j){ if(j) rec.rv.back().push_back(zof(prev)); return tamper(RP->sumcheck_phase2_update(prev, j), 2, j); }
std::pair<FE, FE> prover::sumcheck_finalize(FE prev){
	rec.rv.back().push_back(zof(prev)); auto f = RP->sumcheck_finalize(prev); Z a = zof(f.first), b = zof(f.second); if(t_fin) t_fin(layer_k, a, b);
	rec.vu.push_back(a); rec.vv.push_back(b); return std::make_pair(feof(a), feof(b));
}
static void clear(){ t_out = nullptr; t_poly = nullptr; t_claim = nullptr; t_fin = nullptr; }
static bool run_verify(const Circ &c, unsigned seed){
	Quiet q; srand(seed);
	verifier v; v.C = build(c); v.p = PX; RP->C = v.C; int m = maxbl(c); RP->init_array(m);
	v.beta_g_r0 = new FE[1 << m]; v.beta_g_r1 = new FE[1 << m]; v.beta_u = new FE[1 << m]; v.beta_v = new FE[1 << m];
	return v.verify();
}

// ---------------- tests
static void T_eval(const Circ &c0){
	Circ c = c0;             // evaluation also defines constants in any layer and the operands a gate does not read
	for(size_t i = 1; i < c.L.size(); ++i) for(auto &q : c.L[i]){
		if(R(10) == 0) q = G{3, in_value(), (int)R(1000)}; else if(RELAY && i > 1 && R(10) == 0) q = G{4, (int)R(1 << c.bl[i - 1]), 0};
		if(R(3) == 0){ if(q.ty == 2) q.u = q.v = -1 - (int)R(1000); if(q.ty == 4 || q.ty == 6 || q.ty == 10) q.v = (int)R(1000); } }
	CURCASE = c.str(); layered_circuit C = build(c); RP->C = C; FE *o; { Quiet q; RP->proof_init(); o = RP->evaluate(); }
	auto V = oracle(c); int D = c.L.size();
	for(int i = 0; i < D; ++i) for(size_t g = 0; g < V[i].size(); ++g) eqf("evaluate", RP->circuit_value[i][g], V[i][g], "value of gate " + S(g) + " of layer " + S(i));
	for(size_t g = 0; g < V[D - 1].size(); ++g) eqf("evaluate", o[g], V[D - 1][g], "output " + S(g));
	for(int i = 0; i < D; ++i){ delete[] RP->circuit_value[i]; RP->circuit_value[i] = 0; } drop(C);
}
static void T_mle(){
	int n = R(2) ? R(4) : R(8); std::vector<Z> v = rv(1 << n), r = rv(n), o = om(r);
	CURCASE = vs("table", v) + vs("r", r) + vs("1-r", o);
	Z want = 0; for(int x = 0; x < (1 << n); ++x){ Z w = v[x]; for(int i = 0; i < n; ++i) w = zm(w * ((x >> i) & 1 ? r[i] : o[i])); want += w; }
	auto fv = fev(v), fr = fev(r), fo = fev(o); fr.push_back(FE()); fo.push_back(FE());
	eqf("mle", RP->V_res(fo.data(), fr.data(), fv.data(), n, 1 << n), want, "prover::V_res");
	static verifier ver; eqf("mle", ver.V_in(fr.data(), fo.data(), fv.data(), n, 1 << n), want, "verifier::V_in");
	for(int x = 0; x < (1 << n); ++x) eqf("mle", fv[x], v[x], "table is not modified");
}
static void T_pred(const Circ &c){
	layered_circuit C = build(c); int m = maxbl(c), D = c.L.size();
	verifier v; v.C = C; std::vector<FE> b[4]; for(auto &x : b) x.assign(1 << m, feof(zrand()));
	v.beta_g_r0 = b[0].data(); v.beta_g_r1 = b[1].data(); v.beta_u = b[2].data(); v.beta_v = b[3].data();
	for(int d = 1; d < D; ++d){
		auto r0 = rv(c.bl[d]), r1 = rv(c.bl[d]), ru = rv(c.bl[d - 1]), rw = rv(c.bl[d - 1]); Z al = zedge(), be = zedge();
		CURCASE = c.str() + "layer " + S(d) + "\n" + vs("r0", r0) + vs("r1", r1) + vs("ru", ru) + vs("rv", rw) + vs("alpha,beta", {al, be});
		auto f0 = fev(r0), f1 = fev(r1), fu = fev(ru), fw = fev(rw), o0 = fev(om(r0)), o1 = fev(om(r1)), ou = fev(om(ru)), ow = fev(om(rw));
		v.beta_init(d, feof(al), feof(be), f0.data(), f1.data(), fu.data(), fw.data(), o0.data(), o1.data(), ou.data(), ow.data());
		Z s[11]; for(auto &x : s) x = 0;
		for(size_t g = 0; g < c.L[d].size(); ++g){ auto &q = c.L[d][g]; Z w = zm(al * eqw(g, r0) + be * eqw(g, r1)), t = 0;
			if(q.ty == 5){ for(int j = q.u; j < q.v; ++j) t += eqw(j, ru); t *= eqw(0, rw); } else if(q.ty != 2) t = eqw(q.u, ru) * eqw(q.v, rw);
			s[q.ty] = zm(s[q.ty] + w * t); }
#ifdef TRAD
		FE got[] = {v.add(d), v.mult(d)}; int ty[] = {0, 1};
		for(int i = 0; i < 2; ++i) eqf("predicate", got[i], s[ty[i]], "wiring predicate of gate type " + S(ty[i]));
	}
#else
		FE got[] = {v.add(d), v.mult(d), v.sum_gate(d), v.not_gate(d), v.minus_gate(d), v.xor_gate(d), v.NAAB_gate(d), v.relay_gate(d)}; int ty[] = {0, 1, 5, 6, 7, 8, 9, 10};
		for(int i = 0; i < 8; ++i) eqf("predicate", got[i], s[ty[i]], "wiring predicate of gate type " + S(ty[i]));
		Z dr = 0; if(d == 1){ dr = 1; for(size_t i = 0; i < r0.size(); ++i) dr = zm(dr * (1 - r0[i] - ru[i] + 2 * r0[i] * ru[i])); }
		eqf("predicate", v.direct_relay(d, f0.data(), fu.data()), dr, "direct relay predicate");
	}
#endif
	drop(C);
}
struct Tab { std::vector<Z> V, am, av; };
static void fold(std::vector<Z> &t, const Z &r){ std::vector<Z> n(t.size() / 2); for(size_t i = 0; i < n.size(); ++i) n[i] = zm(t[2 * i] + r * (t[2 * i + 1] - t[2 * i])); t = n; }
static Msg roundpoly(const Tab &t){ Msg m{0, 0, 0}; for(size_t i = 0; i + 1 < t.V.size(); i += 2){ Z v0 = t.V[i], v1 = t.V[i + 1] - v0, a0 = t.am[i], a1 = t.am[i + 1] - a0, b0 = t.av[i], b1 = t.av[i + 1] - b0; m.a += a1 * v1; m.b += a1 * v0 + a0 * v1 + b1; m.c += a0 * v0 + b0; } m.a = zm(m.a); m.b = zm(m.b); m.c = zm(m.c); return m; }
static void cmp(const quadratic_poly &q, const Msg &m, const std::string &w){ eqf("round", q.a, m.a, w + " quadratic coefficient"); eqf("round", q.b, m.b, w + " linear coefficient"); eqf("round", q.c, m.c, w + " constant coefficient"); }
static void T_rounds(const Circ &c){
	layered_circuit C = build(c); RP->C = C; int m = maxbl(c), D = c.L.size(); auto V = oracle(c); CURCASE = c.str();
	{ Quiet q; RP->proof_init(); RP->init_array(m); RP->evaluate(); }
	for(int d = D - 1; d >= 1; --d){
		int n = c.bl[d - 1]; auto r0 = rv(c.bl[d]), r1 = rv(c.bl[d]), ru = rv(n), rw = rv(n); Z al = zedge(), be = zedge();
		CURCASE = c.str() + "layer " + S(d) + "\n" + vs("r0", r0) + vs("r1", r1) + vs("ru", ru) + vs("rv", rw) + vs("alpha,beta", {al, be});
		auto f0 = fev(r0), f1 = fev(r1), fu = fev(ru), o0 = fev(om(r0)), o1 = fev(om(r1)), ou = fev(om(ru));
		Quiet q; RP->sumcheck_init(d, c.bl[d], n, n, feof(al), feof(be), f0.data(), f1.data(), o0.data(), o1.data()); RP->sumcheck_phase1_init();
		Tab t; t.V = V[d - 1]; t.am.assign(1 << n, 0); t.av.assign(1 << n, 0); std::vector<Z> W;
		for(size_t g = 0; g < c.L[d].size(); ++g){ auto &x = c.L[d][g]; Z w = zm(al * eqw(g, r0) + be * eqw(g, r1)); W.push_back(w); if(x.ty == 2) continue; Z y = x.ty == 5 ? Z(0) : V[d - 1][x.v];
			switch(x.ty){ case 0: t.am[x.u] += w; t.av[x.u] += w * y; break; case 1: t.am[x.u] += w * y; break; case 4: case 10: t.am[x.u] += w; break; case 5: for(int j = x.u; j < x.v; ++j) t.am[j] += w; break; case 6: t.am[x.u] -= w; t.av[x.u] += w; break; case 7: t.am[x.u] += w; t.av[x.u] -= w * y; break; case 8: t.am[x.u] += w * (1 - 2 * y); t.av[x.u] += w * y; break; case 9: t.am[x.u] -= w * y; t.av[x.u] += w * y; break; } }
		for(auto &x : t.am) x = zm(x); for(auto &x : t.av) x = zm(x);
		FE prev = FE(0);
		for(int j = 0; j < n; ++j){ quadratic_poly p = RP->sumcheck_phase1_update(prev, j); cmp(p, roundpoly(t), "first phase round " + S(j)); prev = feof(ru[j]); fold(t.V, ru[j]); fold(t.am, ru[j]); fold(t.av, ru[j]); }
		Z vu = t.V[0]; RP->sumcheck_phase2_init(prev, fu.data(), ou.data()); eqf("round", RP->v_u, vu, "claimed V(u)");
		t.V = V[d - 1]; t.am.assign(1 << n, 0); t.av.assign(1 << n, 0);
		for(size_t g = 0; g < c.L[d].size(); ++g){ auto &x = c.L[d][g]; if(x.ty == 2 || x.ty == 4) continue; Z b = 0; if(x.ty == 5){ for(int j = x.u; j < x.v; ++j) b += eqw(j, ru); b *= W[g]; t.av[0] += b * vu; continue; } b = W[g] * eqw(x.u, ru);
			switch(x.ty){ case 0: t.am[x.v] += b; t.av[x.v] += b * vu; break; case 1: t.am[x.v] += b * vu; break; case 6: t.av[0] += b * (1 - vu); break; case 7: t.am[x.v] -= b; t.av[x.v] += b * vu; break; case 8: t.am[x.v] += b * (1 - 2 * vu); t.av[x.v] += b * vu; break; case 9: t.am[x.v] += b * (1 - vu); break; case 10: t.av[0] += b * vu; break; } }
		for(auto &x : t.am) x = zm(x); for(auto &x : t.av) x = zm(x);
		prev = FE(0);
		for(int j = 0; j < n; ++j){ quadratic_poly p = RP->sumcheck_phase2_update(prev, j); cmp(p, roundpoly(t), "second phase round " + S(j)); prev = feof(rw[j]); fold(t.V, rw[j]); fold(t.am, rw[j]); fold(t.av, rw[j]); }
		auto f = RP->sumcheck_finalize(prev); eqf("round", f.first, vu, "final V(u)"); eqf("round", f.second, t.V[0], "final V(v)");
	}
	for(int i = 0; i < D; ++i){ delete[] RP->circuit_value[i]; RP->circuit_value[i] = 0; } drop(C);
}
static unsigned vseed;
static void T_honest(const Circ &c, bool keep = false){
	clear(); if(!keep) vseed = R(1u << 30); CURCASE = c.str() + "srand(" + S(vseed) + "), honest prover\n";
	check("honest", run_verify(c, vseed), "the verifier rejects the honest proof");
	auto V = oracle(c); for(size_t g = 0; g < V.back().size(); ++g) eqz("honest", rec.out[g], V.back()[g], "accepted output " + S(g));
}
static Z diff(){ switch(R(9)){ case 0: return 1; case 1: return Z(1) << 64; case 2: return Z(1) << 128; case 3: return Z(1) << 192; case 4: return MODP - 1; case 5: return Z(1) << (unsigned)R(253); case 6: return Z(2) << 252; default: return zrand(); } }
static void T_cheat(const Circ &c){
	clear(); vseed = R(1u << 30); CURCASE = c.str() + "srand(" + S(vseed) + "), honest prover\n"; if(!run_verify(c, vseed)) fail("honest", "the verifier rejects the honest proof");
	old = rec; int K = c.L.size() - 1; int k = R(3) ? (int)R(K) : K - 1; int n = c.bl[K - k - 1]; int j = R(n); Z d = zm(diff()); if(d == 0) d = 1; std::string what;
	Z dr = 0; if(RELAY && k == K - 1){ Z a = 1, b = 1; for(int i = 0; i < n; ++i){ a = zm(a * (1 - old.r0[k][i] - old.ru[k][i] + 2 * old.r0[k][i] * old.ru[k][i])); b = zm(b * (1 - old.r1[k][i] - old.ru[k][i] + 2 * old.r1[k][i] * old.ru[k][i])); } dr = zm(old.al[k] * a + old.be[k] * b); }
	auto shift = [](Msg &m, const Z &sum, const Z &r, const Z &val){ Z a = zm((val * 2 - sum) * inv(2 * r - 1)), b = zm(val - a * r); m.b = zm(m.b + a); m.c = zm(m.c + b); };   // adds a line with given sum over {0,1} and given value at r
	int kind = R(9); if(!RELAY && (kind == 4 || kind == 5)) kind += 2;
	switch(kind){
	case 0: { int g = R(1 << c.bl[K]); what = "claimed output " + S(g) + " changed by " + d.get_str(); t_out = [=](std::vector<Z> &o){ o[g] = zm(o[g] + d); }; break; }
	case 1: what = "only the first-phase round check of layer step " + S(k) + " round " + S(j) + " violated"; t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 1 && kk == k && jj == j) shift(m, d, old.ru[k][j], 0); }; break;
	case 2: what = "only the second-phase round check of layer step " + S(k) + " round " + S(j) + " violated"; t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 2 && kk == k && jj == j) shift(m, d, old.rv[k][j], 0); }; break;
	case 3: what = "only the gate equation of layer step " + S(k) + " violated"; t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 2 && kk == k && jj == n - 1) shift(m, 0, old.rv[k][n - 1], d); }; break;
	case 4: { what = "claimed V(u) of layer step " + S(k) + " differs from the final one by " + d.get_str(); t_claim = [=](int kk, Z &x){ if(kk == k) x = zm(x + d); };
		// rounds: q(0)+q(1)+dr*X = claim, next claim q(r)+dr*X, last claim must be the honest one
		t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph != 2 || kk != k) return; static Z y; if(jj == 0) y = zm(-dr * d); if(jj < n - 1){ Z h = zm(y * inv(2)); shift(m, y, old.rv[k][jj], h); y = h; } else shift(m, y, old.rv[k][jj], zm(-dr * d)); }; break; }
	case 5: { k = K - 1; n = c.bl[0]; what = "final claim about the input layer wrong by " + d.get_str() + ", all earlier checks satisfied"; int kk0 = k, n0 = n; t_claim = [=](int kk, Z &x){ if(kk == kk0) x = zm(x + d); }; t_fin = [=](int kk, Z &a, Z &b){ if(kk == kk0) a = zm(a + d); };
		Z dr0 = 0; { Z a = 1, b = 1; for(int i = 0; i < n; ++i){ a = zm(a * (1 - old.r0[k][i] - old.ru[k][i] + 2 * old.r0[k][i] * old.ru[k][i])); b = zm(b * (1 - old.r1[k][i] - old.ru[k][i] + 2 * old.r1[k][i] * old.ru[k][i])); } dr0 = zm(old.al[k] * a + old.be[k] * b); }
		t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph != 2 || kk != kk0) return; static Z y; if(jj == 0) y = zm(-dr0 * d); if(jj < n0 - 1){ Z h = zm(y * inv(2)); shift(m, y, old.rv[kk0][jj], h); y = h; } else shift(m, y, old.rv[kk0][jj], 0); }; break; }
	case 6: case 7: { if(RELAY && K < 2) return; k = RELAY ? R(K - 1) : R(2) ? K - 1 : R(K); n = c.bl[K - k - 1]; int L = K - k, k0 = k, n0 = n; bool uu = kind == 6; what = std::string("final V(") + (uu ? "u" : "v") + ") of layer step " + S(k) + " wrong by " + d.get_str() + ", its own gate equation satisfied";
		Z x = old.vu[k], y = old.vv[k], x2 = uu ? zm(x + d) : x, y2 = uu ? y : zm(y + d), D0 = 0;
		for(size_t g = 0; g < c.L[L].size(); ++g){ auto &q = c.L[L][g]; if(q.ty == 2) continue; Z w = zm(old.al[k] * eqw(g, old.r0[k]) + old.be[k] * eqw(g, old.r1[k])), s = 0; if(q.ty == 5){ for(int i = q.u; i < q.v; ++i) s += eqw(i, old.ru[k]); s *= eqw(0, old.rv[k]); } else s = eqw(q.u, old.ru[k]) * eqw(q.v, old.rv[k]);
			auto f = [&](const Z &x, const Z &y)->Z { switch(q.ty){ case 0: return x + y; case 1: return x * y; case 5: case 10: return x; case 6: return 1 - x; case 7: return x - y; case 8: return x + y - 2 * x * y; case 9: return y - x * y; } return 0; };
			D0 = zm(D0 + w * s % MODP * (f(x2, y2) - f(x, y))); }
		t_claim = [=](int kk, Z &a){ if(kk == k0 && uu) a = zm(a + d); }; t_fin = [=](int kk, Z &a, Z &b){ if(kk == k0){ if(uu) a = zm(a + d); else b = zm(b + d); } };
		t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 2 && kk == k0 && jj == n0 - 1) shift(m, 0, old.rv[k0][n0 - 1], D0); }; break; }
	case 8: { // challenges: no value is used twice
		what = "challenges"; std::vector<Z> all; for(int i = 0; i < K; ++i){ for(auto &x : old.ru[i]) all.push_back(x); for(auto &x : old.rv[i]) all.push_back(x); if(i){ all.push_back(old.al[i]); all.push_back(old.be[i]); } else { for(auto &x : old.r0[0]) all.push_back(x); } }
		for(size_t a = 0; a < all.size(); ++a){ check("challenge", all[a] > 1 && all[a] < MODP, "challenge " + S(a) + " is degenerate: " + all[a].get_str()); for(size_t b = 0; b < a; ++b) check("challenge", all[a] != all[b], "the same challenge is used twice: " + all[a].get_str()); }
		return; }
	}
	CURCASE = c.str() + "srand(" + S(vseed) + "), prover honest except: " + what + "\n";
	bool acc = run_verify(c, vseed); clear();
	check("cheat", !acc, "the verifier accepts: " + what);
}
static void T_rand(){ int n = 1 + R(20); CURCASE = "generate_randomness(" + S(n) + ")"; FE *a = generate_randomness(n), *b = generate_randomness(n); std::vector<Z> all; for(int i = 0; i < n; ++i){ all.push_back(zof(a[i])); all.push_back(zof(b[i])); } for(size_t i = 0; i < all.size(); ++i){ check("challenge", all[i] < MODP, "draw not reduced"); for(size_t j = 0; j < i; ++j) check("challenge", all[i] != all[j], "repeated draw"); } delete[] a; delete[] b; }
static void T_file(long it){
	clear(); FileCirc f = genfile(RELAY, it % 40 == 0 ? 10 : it % 5 == 0 ? 5 : 3, it % 11 == 0 ? 8 : 4); CURCASE = "circuit file:\n" + f.txt.substr(0, 6000) + "\n"; told_n = -1;
	auto L = described(f, RELAY); verifier v; v.p = PX; Circ c; c.L = L; for(auto &l : L) c.bl.push_back(logof(l.size()));
	{ Quiet q; 
#ifdef TRAD
	FILE *in = fopen("case_circuit.txt", "r"); v.read_circuit_from_FILE(in); fclose(in);
#else
	v.read_circuit("case_circuit.txt");
#endif
	}
	cmpcirc(v.C, L, ""); cmptables(v, L);
	if(c.L.size() < 2 || told_n > 6) return;
	RP->C = v.C; vseed = R(1u << 30); CURCASE += "srand(" + S(vseed) + "), honest prover\n"; bool ok; { Quiet q; srand(vseed); ok = v.verify(); }
	check("reader", ok, "the verifier rejects the honest proof for the circuit read");
	auto V = oracle(c); for(size_t g = 0; g < V.back().size(); ++g) eqz("reader", rec.out[g], V.back()[g], "accepted output " + S(g));
}
int main(int argc, char **argv){
	// fast TESTS SECONDS SEED [DICT]
	std::string t = argv[1]; double secs = atof(argv[2]); unsigned long seed = atol(argv[3]); load_dict(argc > 4 ? argv[4] : "");
	rng.seed(seed); prime_field::init(PSTR, 10); srand(seed);
	time_t t0 = time(0); long it = 0;
	while(it < 40 || difftime(time(0), t0) < secs){
		++it; Circ c = gen(it % 50 == 0 ? 6 : it % 7 == 0 ? 4 : 3, it % 11 == 0 ? 7 : 4);
		for(char ch : t) switch(ch){ case 'e': T_eval(c); break; case 'm': T_mle(); break; case 'p': T_pred(c); break; case 'r': T_rounds(c); break; case 'h': T_honest(c); break; case 'c': T_cheat(c); break; case 'g': T_rand(); break; case 'f': T_file(it); break; }
		if(it > 2000000) break;
	}
	printf("OK iterations=%ld comparisons=%ld\n", it, NCASE);
	return 0;
}
