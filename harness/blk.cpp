// Replay harness of the data-parallel (blocked) prover/verifier: searches a concrete failing input for a failed obligation.
#define prover real_prover
#include "traditional_gkr/prover_bc_clogc.h"
#undef prover
#undef __prover
#include "traditional_gkr/prover_bc_clogc.h"
#include "traditional_gkr/verifier_bc_clogc.h"
#include "common.h"
prime_field::field_element* generate_randomness(unsigned int size);

struct G { int ty, u, v; };
struct Circ {            // L[0] holds the inputs of all blocks one after the other
	std::vector<std::vector<G>> L; std::vector<int> bl; int m;
	std::string str() const { std::string s = "2^" + S(m) + " blocks of the circuit (layer: bit_length, gates ty,u,v; layer 0 lists all blocks):\n"; for(size_t i = 0; i < L.size(); ++i){ s += "  " + S(i) + ": " + S(bl[i]) + " |"; for(auto &g : L[i]) s += " " + S(g.ty) + "," + S(g.u) + "," + S(g.v); s += "\n"; } return s; }
};
static int maxbl(const Circ &c){ int m = 0; for(int b : c.bl) m = std::max(m, b); return m; }
static int in_value(){ switch(R(9)){ case 0: return 0; case 1: return 1; case 2: return 2147483647; case 3: if(!dict.empty()){ long long d = dict[R(dict.size())]; if(d >= 0 && d <= 2147483647) return d; } return 2; case 4: return R(4); case 5: return -(int)R(1000); default: return R(2147483648u); } }
static Circ gen(int maxb, int maxd){
	Circ c; int D = 1 + R(maxd); c.L.resize(D + 1); c.bl.resize(D + 1); c.m = R(4);
	for(int i = 0; i <= D; ++i) c.bl[i] = 1 + R(maxb);
	if(R(8) == 0) for(int i = 0, w = R(2); i <= D; ++i, w ^= 1) c.bl[i] = w ? 5 + R(2) : 1 + R(2);     // narrow and wide layers alternate
	bool same = R(2);
	for(int i = 0; i <= D; ++i) for(int g = 0; g < (i ? 1 << c.bl[i] : 1 << (c.bl[0] + c.m)); ++g){
		G q;
		if(i == 0){ if(same && g >= (1 << c.bl[0])) q = c.L[0][g - (1 << c.bl[0])]; else { q.ty = R(5) ? 3 : 2; q.u = q.ty == 3 ? in_value() : 0; q.v = R(3) ? 0 : R(100); } }
		else { int n = 1 << c.bl[i - 1]; q.ty = R(5) ? (int)R(2) : 2; q.u = R(n); q.v = R(5) ? (int)R(n) : q.u; if(q.ty == 2 && R(2)) q.u = q.v = 0; }
		c.L[i].push_back(q);
	}
	return c;
}
typedef std::vector<std::vector<std::vector<Z>>> Vals;       // block, layer, gate
static Vals oracle(const Circ &c){
	Vals V(1 << c.m);
	for(int b = 0; b < (1 << c.m); ++b){ V[b].resize(c.L.size());
		for(size_t i = 0; i < c.L.size(); ++i) for(int g = 0; g < (1 << c.bl[i]); ++g){
			Z r = 0; const G &q = c.L[i][i ? g : (b << c.bl[0]) + g];
			if(i == 0 || q.ty == 3) r = q.u; else if(q.ty == 0) r = V[b][i - 1][q.u] + V[b][i - 1][q.v]; else if(q.ty == 1) r = V[b][i - 1][q.u] * V[b][i - 1][q.v];
			V[b][i].push_back(zm(r)); } }
	return V;
}
static blocked_circuit build(const Circ &c){
	blocked_circuit B; B.total_blocks = 1 << c.m; B.total_blocks_binary_length = c.m; B.blocks = new layered_circuit[B.total_blocks];
	for(int b = 0; b < B.total_blocks; ++b){ auto &C = B.blocks[b]; C.total_depth = c.L.size(); C.circuit = new layer[C.total_depth];
		for(int i = 0; i < C.total_depth; ++i){ C.circuit[i].bit_length = c.bl[i]; C.circuit[i].gates = new gate[1 << c.bl[i]]; for(int g = 0; g < (1 << c.bl[i]); ++g){ const G &q = c.L[i][i ? g : (b << c.bl[0]) + g]; C.circuit[i].gates[g] = gate(q.ty, q.u, q.v); } } }
	return B;
}
static void drop(blocked_circuit &B){ for(int b = 0; b < B.total_blocks; ++b){ for(int i = 0; i < B.blocks[b].total_depth; ++i) delete[] B.blocks[b].circuit[i].gates; delete[] B.blocks[b].circuit; } delete[] B.blocks; }
static real_prover RPbuf, *RP = &RPbuf;
static prover PXbuf; static prover *PX = &PXbuf;
static std::vector<FE> fev(const std::vector<Z> &v){ std::vector<FE> r; for(auto &x : v) r.push_back(feof(x)); return r; }
static std::vector<Z> om(const std::vector<Z> &v){ std::vector<Z> r; for(auto &x : v) r.push_back(zm(1 - x)); return r; }
static std::vector<Z> rv(int n, bool edge = true){ std::vector<Z> r; for(int i = 0; i < n; ++i) r.push_back(edge ? zedge() : zrand()); return r; }
static std::string vs(const char *n, const std::vector<Z> &v){ std::string s = std::string(n) + " ="; for(auto &x : v) s += " " + x.get_str(); return s + "\n"; }
static Z eqrr(const std::vector<Z> &a, const std::vector<Z> &b){ Z r = 1; for(size_t i = 0; i < a.size(); ++i) r = zm(r * (a[i] * b[i] + (1 - a[i]) * (1 - b[i]))); return r; }

#include "reader.h"
// ---------------- honest forwarding prover with optional tampering
struct Msg { Z a, b, c, d; };        // cubic: a x^3 + b x^2 + c x + d ; quadratic: a = 0
static struct Rec { std::vector<std::vector<Z>> rb, ru, rv, rb0, r0, r1; std::vector<Z> al, be, vu, vv; std::vector<std::vector<Msg>> p0, p1, p2; std::vector<Z> out; } rec, old;
static int layer_k; static std::vector<FE> outbuf;
static std::function<void(std::vector<Z>&)> t_out; static std::function<void(int, int, int, Msg&)> t_poly; static std::function<void(int, Z&, Z&)> t_fin; static std::function<void(int, Z&)> t_blk;
void prover::get_circuit(const blocked_circuit &c){ RP->get_circuit(c); }
static int told_m;
void prover::init_array(int n, int m){ told_n = n; told_m = m; RP->init_array(n, m); }
void prover::proof_init(){ RP->proof_init(); }
prover::~prover(){}
void prover::delete_self(){ RP->delete_self(); }
FE* prover::evaluate(){
	rec = Rec(); layer_k = -1; FE *r = RP->evaluate();
	int n = RP->C.total_blocks << RP->C.blocks[0].circuit[RP->C.blocks[0].total_depth - 1].bit_length; std::vector<Z> o; for(int i = 0; i < n; ++i) o.push_back(zof(r[i]));
	rec.out = o; if(t_out){ t_out(o); for(int i = 0; i < n; ++i) r[i] = feof(o[i]); }
	return r;
}
FE prover::V_res(const FE *a, const FE *b, const FE *c, const FE *d, const FE *e, int n, int m, int s){ return RP->V_res(a, b, c, d, e, n, m, s); }
void prover::sumcheck_init(int id, int bb, int bg, int bu, int bv, const FE &al, const FE &be, const FE *rb, const FE *r0, const FE *r1, FE *ob, FE *o0, FE *o1){
	++layer_k; rec.al.push_back(zof(al)); rec.be.push_back(zof(be)); for(auto *x : {&rec.rb, &rec.ru, &rec.rv, &rec.rb0, &rec.r0, &rec.r1}) x->emplace_back(); rec.p0.emplace_back(); rec.p1.emplace_back(); rec.p2.emplace_back();
	for(int i = 0; i < bg; ++i){ rec.r0.back().push_back(zof(r0[i])); rec.r1.back().push_back(zof(r1[i])); } for(int i = 0; i < bb; ++i) rec.rb0.back().push_back(zof(rb[i]));
	RP->sumcheck_init(id, bb, bg, bu, bv, al, be, rb, r0, r1, ob, o0, o1);
}
static cubic_poly tamper3(cubic_poly q, int j){ Msg m{zof(q.a), zof(q.b), zof(q.c), zof(q.d)}; if(t_poly) t_poly(0, layer_k, j, m); rec.p0.back().push_back(m); return cubic_poly(feof(m.a), feof(m.b), feof(m.c), feof(m.d)); }
static quadratic_poly tamper(quadratic_poly q, int ph, int j){ Msg m{0, zof(q.a), zof(q.b), zof(q.c)}; if(t_poly) t_poly(ph, layer_k, j, m); (ph == 1 ? rec.p1 : rec.p2).back().push_back(m); return quadratic_poly(feof(m.b), feof(m.c), feof(m.d)); }
void prover::sumcheck_phase0_init(){ RP->sumcheck_phase0_init(); }
cubic_poly prover::sumcheck_phase0_update(FE prev, int j){ if(j) rec.rb.back().push_back(zof(prev)); return tamper3(RP->sumcheck_phase0_update(prev, j), j); }
void prover::sumcheck_phase1_init(FE prev){ if(RP->C.total_blocks_binary_length) rec.rb.back().push_back(zof(prev)); RP->sumcheck_phase1_init(prev); Z b = zof(RP->beta_blk_val); if(t_blk) t_blk(layer_k, b); beta_blk_val = feof(b); }
quadratic_poly prover::sumcheck_phase1_update(FE prev, int j){ if(j) rec.ru.back().push_back(zof(prev)); return tamper(RP->sumcheck_phase1_update(prev, j), 1, j); }
void prover::sumcheck_phase2_init(FE prev){ rec.ru.back().push_back(zof(prev)); RP->sumcheck_phase2_init(prev); v_u = RP->v_u; }
quadratic_poly prover::sumcheck_phase2_update(FE prev, int j){ if(j) rec.rv.back().push_back(zof(prev)); return tamper(RP->sumcheck_phase2_update(prev, j), 2, j); }
std::pair<FE, FE> prover::sumcheck_finalize(FE prev){ rec.rv.back().push_back(zof(prev)); auto f = RP->sumcheck_finalize(prev); Z a = zof(f.first), b = zof(f.second); if(t_fin) t_fin(layer_k, a, b); rec.vu.push_back(a); rec.vv.push_back(b); return std::make_pair(feof(a), feof(b)); }
static void clear(){ t_out = nullptr; t_poly = nullptr; t_fin = nullptr; t_blk = nullptr; }
static bool run_verify(const Circ &c, unsigned seed){
	Quiet q; srand(seed); verifier v; v.C = build(c); v.p = PX; RP->C = v.C; int n = maxbl(c); RP->init_array(n, c.m);
	v.beta_g_r0 = new FE[1 << n]; v.beta_g_r1 = new FE[1 << n]; v.beta_u = new FE[1 << n]; v.beta_v = new FE[1 << n];
	return v.verify();
}
static void freevals(const Circ &c){ for(int b = 0; b < (1 << c.m); ++b){ for(size_t i = 0; i < c.L.size(); ++i) delete[] RP->circuit_value[b][i]; delete[] RP->circuit_value[b]; } delete[] RP->circuit_value; }

// ---------------- tests
static void T_eval(const Circ &c0){
	Circ c = c0;             // evaluation also defines constants in any layer and the operands a gate does not read
	for(size_t i = 1; i < c.L.size(); ++i) for(auto &q : c.L[i]){
		if(R(10) == 0) q = G{3, in_value(), (int)R(1000)};
		if(R(3) == 0 && q.ty == 2) q.u = q.v = -1 - (int)R(1000); }
	CURCASE = c.str(); blocked_circuit C = build(c); RP->C = C; FE *o; { Quiet q; RP->proof_init(); o = RP->evaluate(); }
	auto V = oracle(c); int D = c.L.size();
	for(int b = 0; b < (1 << c.m); ++b) for(int i = 0; i < D; ++i) for(size_t g = 0; g < V[b][i].size(); ++g) eqf("evaluate", RP->circuit_value[b][i][g], V[b][i][g], "block " + S(b) + ", value of gate " + S(g) + " of layer " + S(i));
	for(int b = 0; b < (1 << c.m); ++b) for(size_t g = 0; g < V[b][D - 1].size(); ++g) eqf("evaluate", o[b * V[b][D - 1].size() + g], V[b][D - 1][g], "output " + S(g) + " of block " + S(b));
	delete[] o; freevals(c); drop(C);
}
static void T_mle(){
	int n = R(5), m = R(4); std::vector<Z> v = rv(1 << (n + m)), r = rv(n), o = om(r), rb = rv(m), ob = om(rb);
	CURCASE = vs("table", v) + vs("r_g", r) + vs("1-r_g", o) + vs("r_b", rb) + vs("1-r_b", ob);
	Z want = 0; for(int x = 0; x < (1 << (n + m)); ++x){ Z w = v[x]; for(int i = 0; i < n + m; ++i) w = zm(w * (i < n ? ((x >> i) & 1 ? r[i] : o[i]) : ((x >> i) & 1 ? rb[i - n] : ob[i - n]))); want += w; }
	auto fv = fev(v), fr = fev(r), fo = fev(o), fb = fev(rb), fob = fev(ob); for(auto *x : {&fr, &fo, &fb, &fob}) x->push_back(FE());
	eqf("mle", RP->V_res(fo.data(), fr.data(), fob.data(), fb.data(), fv.data(), n, m, 1 << (n + m)), want, "prover::V_res");
	static verifier ver; eqf("mle", ver.V_in(fb.data(), fob.data(), fr.data(), fo.data(), fv.data(), m, n, 1 << (n + m)), want, "verifier::V_in");
	for(int x = 0; x < (1 << (n + m)); ++x) eqf("mle", fv[x], v[x], "table is not modified");
}
static void T_pred(const Circ &c){
	blocked_circuit C = build(c); int mb = maxbl(c), D = c.L.size();
	verifier v; v.C = C; std::vector<FE> b[4]; for(auto &x : b) x.assign(1 << mb, feof(zrand()));
	v.beta_g_r0 = b[0].data(); v.beta_g_r1 = b[1].data(); v.beta_u = b[2].data(); v.beta_v = b[3].data();
	for(int d = 1; d < D; ++d){
		auto r0 = rv(c.bl[d]), r1 = rv(c.bl[d]), ru = rv(c.bl[d - 1]), rw = rv(c.bl[d - 1]); Z al = zedge(), be = zedge();
		CURCASE = c.str() + "layer " + S(d) + "\n" + vs("r0", r0) + vs("r1", r1) + vs("ru", ru) + vs("rv", rw) + vs("alpha,beta", {al, be});
		auto f0 = fev(r0), f1 = fev(r1), fu = fev(ru), fw = fev(rw), o0 = fev(om(r0)), o1 = fev(om(r1)), ou = fev(om(ru)), ow = fev(om(rw));
		v.beta_init(d, feof(al), feof(be), f0.data(), f1.data(), fu.data(), fw.data(), o0.data(), o1.data(), ou.data(), ow.data());
		Z s[3] = {0, 0, 0}; for(size_t g = 0; g < c.L[d].size(); ++g){ auto &q = c.L[d][g]; s[q.ty] = zm(s[q.ty] + (al * eqw(g, r0) + be * eqw(g, r1)) % MODP * eqw(q.u, ru) * eqw(q.v, rw)); }
		eqf("predicate", v.add(d), s[0], "wiring predicate of addition gates"); eqf("predicate", v.mult(d), s[1], "wiring predicate of multiplication gates");
	}
	drop(C);
}
static void padd(std::vector<Z> &a, const std::vector<Z> &b){ if(a.size() < b.size()) a.resize(b.size(), 0); for(size_t i = 0; i < b.size(); ++i) a[i] = zm(a[i] + b[i]); }
static std::vector<Z> pmul(const std::vector<Z> &a, const std::vector<Z> &b){ std::vector<Z> r(a.size() + b.size() - 1, 0); for(size_t i = 0; i < a.size(); ++i) for(size_t j = 0; j < b.size(); ++j) r[i + j] = zm(r[i + j] + a[i] * b[j]); return r; }
static std::vector<Z> lin(const Z &lo, const Z &hi){ return {lo, zm(hi - lo)}; }
static std::vector<Z> foldr(const std::vector<Z> &t, const Z &r){ std::vector<Z> n(t.size() / 2); for(size_t i = 0; i < n.size(); ++i) n[i] = zm(t[2 * i] + r * (t[2 * i + 1] - t[2 * i])); return n; }
static void cmp(const quadratic_poly &q, std::vector<Z> p, const std::string &w){ p.resize(4, 0); eqf("round", q.a, p[2], w + " quadratic coefficient"); eqf("round", q.b, p[1], w + " linear coefficient"); eqf("round", q.c, p[0], w + " constant coefficient"); }
static void T_rounds(const Circ &c){
	blocked_circuit C = build(c); RP->C = C; int mb = maxbl(c), D = c.L.size(), NB = 1 << c.m; auto V = oracle(c); CURCASE = c.str(); FE *o;
	{ Quiet q; RP->proof_init(); RP->init_array(mb, c.m); o = RP->evaluate(); } delete[] o;
	for(int d = D - 1; d >= 1; --d){
		int n = c.bl[d - 1]; auto r0 = rv(c.bl[d]), r1 = rv(c.bl[d]), rb0 = rv(c.m), rb = rv(c.m), ru = rv(n), rw = rv(n); Z al = zedge(), be = zedge();
		CURCASE = c.str() + "layer " + S(d) + "\n" + vs("r0", r0) + vs("r1", r1) + vs("rb0", rb0) + vs("rb", rb) + vs("ru", ru) + vs("rv", rw) + vs("alpha,beta", {al, be});
		auto f0 = fev(r0), f1 = fev(r1), fb = fev(rb0), o0 = fev(om(r0)), o1 = fev(om(r1)), ob = fev(om(rb0));
		for(auto *x : {&fb, &ob}) x->push_back(FE());
		Quiet q; RP->sumcheck_init(d, c.m, c.bl[d], n, n, feof(al), feof(be), fb.data(), f0.data(), f1.data(), ob.data(), o0.data(), o1.data()); RP->sumcheck_phase0_init();
		std::vector<Z> W; for(size_t g = 0; g < c.L[d].size(); ++g) W.push_back(zm(al * eqw(g, r0) + be * eqw(g, r1)));
		std::vector<Z> B; std::vector<std::vector<Z>> T; for(int b = 0; b < NB; ++b){ B.push_back(eqw(b, rb0)); T.push_back(V[b][d - 1]); }
		FE prev = FE(0);
		for(int j = 0; j < c.m; ++j){
			std::vector<Z> want(4, 0);
			for(size_t b = 0; b + 1 < B.size(); b += 2){ std::vector<Z> s(1, 0); for(size_t g = 0; g < c.L[d].size(); ++g){ auto &x = c.L[d][g]; if(x.ty == 2) continue; auto lu = lin(T[b][x.u], T[b + 1][x.u]), lv = lin(T[b][x.v], T[b + 1][x.v]); std::vector<Z> e; if(x.ty == 0){ padd(lu, lv); e = lu; } else e = pmul(lu, lv); padd(s, pmul(e, {W[g]})); } padd(want, pmul(s, lin(B[b], B[b + 1]))); }
			cubic_poly p = RP->sumcheck_phase0_update(prev, j); std::string w = "block phase round " + S(j); want.resize(4, 0);
			eqf("round", p.a, want[3], w + " cubic coefficient"); eqf("round", p.b, want[2], w + " quadratic coefficient"); eqf("round", p.c, want[1], w + " linear coefficient"); eqf("round", p.d, want[0], w + " constant coefficient");
			prev = feof(rb[j]); B = foldr(B, rb[j]); std::vector<std::vector<Z>> T2(T.size() / 2); for(size_t b = 0; b < T2.size(); ++b) for(size_t x = 0; x < T[0].size(); ++x) T2[b].push_back(zm(T[2 * b][x] + rb[j] * (T[2 * b + 1][x] - T[2 * b][x]))); T = T2;
		}
		RP->sumcheck_phase1_init(prev); eqf("round", RP->beta_blk_val, B[0], "block weight"); std::vector<Z> base = T[0], cur = base;
		for(int ph = 1; ph <= 2; ++ph){
			auto &r = ph == 1 ? ru : rw; static Z vu; cur = base; std::vector<Z> w2; for(size_t g = 0; g < W.size(); ++g) w2.push_back(zm(B[0] * W[g] * (ph == 2 ? eqw(c.L[d][g].u, ru) : Z(1))));
			if(ph == 2){ RP->sumcheck_phase2_init(prev); eqf("round", RP->v_u, vu, "V(u)"); prev = FE(0); }
			for(int j = 0; j < n; ++j){
				std::vector<Z> want(3, 0);
				for(size_t g = 0; g < W.size(); ++g){ auto &x = c.L[d][g]; if(x.ty == 2) continue; int wire = ph == 1 ? x.u : x.v; int k = wire >> (j + 1); Z y = ph == 1 ? base[x.v] : vu; auto l = lin(cur[2 * k], cur[2 * k + 1]); std::vector<Z> e; if(x.ty == 0){ padd(l, {y}); e = l; } else e = pmul(l, {y}); std::vector<Z> bit = (wire >> j) & 1 ? std::vector<Z>{0, 1} : std::vector<Z>{1, MODP - 1}; padd(want, pmul(pmul(e, bit), {w2[g]})); }
				quadratic_poly p = ph == 1 ? RP->sumcheck_phase1_update(prev, j) : RP->sumcheck_phase2_update(prev, j); cmp(p, want, "phase " + S(ph) + " round " + S(j));
				prev = feof(r[j]); cur = foldr(cur, r[j]); for(size_t g = 0; g < W.size(); ++g){ int wire = ph == 1 ? c.L[d][g].u : c.L[d][g].v; w2[g] = zm(w2[g] * ((wire >> j) & 1 ? r[j] : 1 - r[j])); }
			}
			if(ph == 1) vu = cur[0]; else { auto f = RP->sumcheck_finalize(prev); eqf("round", f.first, vu, "final V(u)"); eqf("round", f.second, cur[0], "final V(v)"); }
		}
	}
	{ Quiet q; RP->delete_self(); } drop(C);
}
static unsigned vseed;
static void T_honest(const Circ &c){
	clear(); vseed = R(1u << 30); CURCASE = c.str() + "srand(" + S(vseed) + "), honest prover\n";
	check("honest", run_verify(c, vseed), "the verifier rejects the honest proof");
	auto V = oracle(c); size_t n = V[0].back().size(); for(int b = 0; b < (1 << c.m); ++b) for(size_t g = 0; g < n; ++g) eqz("honest", rec.out[b * n + g], V[b].back()[g], "accepted output " + S(g) + " of block " + S(b));
}
static Z diff(){ switch(R(9)){ case 0: return 1; case 1: return Z(1) << 64; case 2: return Z(1) << 128; case 3: return Z(1) << 192; case 4: return MODP - 1; case 5: return Z(1) << (unsigned)R(253); case 6: return Z(2) << 252; default: return zrand(); } }
static void T_cheat(const Circ &c){
	clear(); vseed = R(1u << 30); CURCASE = c.str() + "srand(" + S(vseed) + "), honest prover\n"; if(!run_verify(c, vseed)) fail("honest", "the verifier rejects the honest proof");
	old = rec; int K = c.L.size() - 1; int k = R(3) ? (int)R(K) : K - 1; int n = c.bl[K - k - 1]; int j = R(n); Z d = zm(diff()); if(d == 0) d = 1; std::string what;
	auto shift = [](Msg &m, const Z &sum, const Z &r, const Z &val){ Z a = zm((val * 2 - sum) * inv(2 * r - 1)), b = zm(val - a * r); m.c = zm(m.c + a); m.d = zm(m.d + b); };   // adds a line with given sum over {0,1} and given value at r
	int kind = R(9);
	switch(kind){
	case 0: { int g = R(1 << (c.bl[K] + c.m)); what = "claimed output " + S(g) + " changed by " + d.get_str(); t_out = [=](std::vector<Z> &o){ o[g] = zm(o[g] + d); }; break; }
	case 1: what = "only the round check of phase 1, layer step " + S(k) + " round " + S(j) + " violated"; t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 1 && kk == k && jj == j) shift(m, d, old.ru[k][j], 0); }; break;
	case 2: what = "only the round check of phase 2, layer step " + S(k) + " round " + S(j) + " violated"; t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 2 && kk == k && jj == j) shift(m, d, old.rv[k][j], 0); }; break;
	case 3: what = "only the gate equation of layer step " + S(k) + " violated"; t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 2 && kk == k && jj == n - 1) shift(m, 0, old.rv[k][n - 1], d); }; break;
	case 4: { if(c.m == 0) return; int jb = R(c.m); what = "only the round check of the block phase, layer step " + S(k) + " round " + S(jb) + " violated"; t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 0 && kk == k && jj == jb) shift(m, d, old.rb[k][jb], 0); }; break; }
	case 5: { // wrong output carried through the layer, the block weight the prover reports scaled to hide it
		int g = R(1 << (c.bl[K] + c.m)); what = "claimed output " + S(g) + " changed by " + d.get_str() + ", every round message of the top layer scaled to the false claim, and the block weight reported accordingly";
		std::vector<Z> r = old.r0[0]; r.insert(r.end(), old.rb0[0].begin(), old.rb0[0].end()); Z claim = mleval(old.out, r); if(claim == 0) return; Z s = zm((claim + d * eqw(g, r)) * inv(claim)); if(s == 1) return;
		t_out = [=](std::vector<Z> &o){ o[g] = zm(o[g] + d); }; t_poly = [=](int ph, int kk, int jj, Msg &m){ if(kk == 0){ m.a = zm(m.a * s); m.b = zm(m.b * s); m.c = zm(m.c * s); m.d = zm(m.d * s); } }; t_blk = [=](int kk, Z &b){ if(kk == 0) b = zm(b * s); }; break; }
	case 6: case 7: { k = R(2) ? K - 1 : (int)R(K); n = c.bl[K - k - 1]; int L = K - k, k0 = k, n0 = n; bool uu = kind == 6; what = std::string("final V(") + (uu ? "u" : "v") + ") of layer step " + S(k) + " wrong by " + d.get_str() + ", its own gate equation satisfied";
		Z x = old.vu[k], y = old.vv[k], x2 = uu ? zm(x + d) : x, y2 = uu ? y : zm(y + d), D0 = 0;
		for(size_t g = 0; g < c.L[L].size(); ++g){ auto &q = c.L[L][g]; if(q.ty == 2) continue; Z w = zm(old.al[k] * eqw(g, old.r0[k]) + old.be[k] * eqw(g, old.r1[k])), s = zm(eqw(q.u, old.ru[k]) * eqw(q.v, old.rv[k])); D0 = zm(D0 + w * s % MODP * (q.ty == 0 ? Z(x2 + y2 - x - y) : Z(x2 * y2 - x * y))); }
		D0 = zm(D0 * eqrr(old.rb0[k], old.rb[k]));
		t_fin = [=](int kk, Z &a, Z &b){ if(kk == k0){ if(uu) a = zm(a + d); else b = zm(b + d); } };
		t_poly = [=](int ph, int kk, int jj, Msg &m){ if(ph == 2 && kk == k0 && jj == n0 - 1) shift(m, 0, old.rv[k0][n0 - 1], D0); }; break; }
	case 8: { what = "challenges"; std::vector<Z> all; for(int i = 0; i < K; ++i){ for(auto *x : {&old.rb[i], &old.ru[i], &old.rv[i]}) for(auto &y : *x) all.push_back(y); if(i){ all.push_back(old.al[i]); all.push_back(old.be[i]); } else { for(auto &x : old.r0[0]) all.push_back(x); for(auto &x : old.rb0[0]) all.push_back(x); } }
		for(size_t a = 0; a < all.size(); ++a){ check("challenge", all[a] > 1 && all[a] < MODP, "challenge " + S(a) + " is degenerate: " + all[a].get_str()); for(size_t b = 0; b < a; ++b) check("challenge", all[a] != all[b], "the same challenge is used twice: " + all[a].get_str()); }
		return; }
	}
	CURCASE = c.str() + "srand(" + S(vseed) + "), prover honest except: " + what + "\n";
	bool acc = run_verify(c, vseed); clear();
	check("cheat", !acc, "the verifier accepts: " + what);
}
static void T_rand(){ int n = 1 + R(20); CURCASE = "generate_randomness(" + S(n) + ")"; FE *a = generate_randomness(n), *b = generate_randomness(n); std::vector<Z> all; for(int i = 0; i < n; ++i){ all.push_back(zof(a[i])); all.push_back(zof(b[i])); } for(size_t i = 0; i < all.size(); ++i){ check("challenge", all[i] < MODP, "draw not reduced"); for(size_t j = 0; j < i; ++j) check("challenge", all[i] != all[j], "repeated draw"); } delete[] a; delete[] b; }
static void T_file(long it){
	clear(); int m = R(4), nb = 1 << m; FileCirc f = genfile(false, it % 40 == 0 ? 10 : it % 5 == 0 ? 5 : 3, it % 11 == 0 ? 8 : 4); CURCASE = "2^" + S(m) + " copies of the circuit in this file:\n" + f.txt.substr(0, 6000) + "\n"; told_n = -1;
	auto L = described(f, false); verifier v; v.p = PX; Circ c; c.m = m; c.L = L; for(auto &l : L) c.bl.push_back(logof(l.size()));
	c.L[0].clear(); for(int b = 0; b < nb; ++b) for(auto &q : L[0]) c.L[0].push_back(q);
	{ Quiet q; v.set_blocks(nb, m); v.read_circuit("case_circuit.txt", nb); }
	check("reader", v.C.total_blocks == nb && v.C.total_blocks_binary_length == m && told_m == m, "number of copies");
	for(int b = 0; b < nb; ++b) cmpcirc(v.C.blocks[b], L, "copy " + S(b) + ": "); cmptables(v, L);
	if(L.size() < 2 || told_n > 5) return;
	RP->C = v.C; vseed = R(1u << 30); CURCASE += "srand(" + S(vseed) + "), honest prover\n"; bool ok; { Quiet q; srand(vseed); ok = v.verify(); }
	check("reader", ok, "the verifier rejects the honest proof for the circuit read");
	auto V = oracle(c); size_t n = V[0].back().size(); for(int b = 0; b < nb; ++b) for(size_t g = 0; g < n; ++g) eqz("reader", rec.out[b * n + g], V[b].back()[g], "accepted output " + S(g) + " of copy " + S(b));
}
int main(int argc, char **argv){
	std::string t = argv[1]; double secs = atof(argv[2]); unsigned long seed = atol(argv[3]); load_dict(argc > 4 ? argv[4] : "");
	rng.seed(seed); prime_field::init(PSTR, 10); srand(seed);
	time_t t0 = time(0); long it = 0;
	while(it < 40 || difftime(time(0), t0) < secs){
		++it; Circ c = gen(it % 50 == 0 ? 5 : it % 7 == 0 ? 4 : 3, it % 11 == 0 ? 6 : 3);
		for(char ch : t) switch(ch){ case 'e': T_eval(c); break; case 'm': T_mle(); break; case 'p': T_pred(c); break; case 'r': T_rounds(c); break; case 'h': T_honest(c); break; case 'c': T_cheat(c); break; case 'g': T_rand(); break; case 'f': T_file(it); break; }
		if(it > 2000000) break;
	}
	printf("OK iterations=%ld comparisons=%ld\n", it, NCASE);
	return 0;
}
