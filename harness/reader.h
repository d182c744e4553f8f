// Random well-formed circuit files, written to the working directory, and the circuit each of them describes.
#pragma once
#include <malloc.h>
static int told_n = -1;                      // size the verifier told the prover
struct FileCirc { std::vector<std::vector<G>> L; std::string txt; };
static FileCirc genfile(bool relay, int maxb, int maxd){
	FileCirc f; int D = 1 + R(maxd); f.L.resize(D); static const int T[] = {0,1,2,5,6,7,8,9,10}; int nt = relay ? 9 : 3;
	for(int i = 0; i < D; ++i){
		int n = R(4) ? 1 << R(maxb + 1) : 1;
		for(int g = 0; g < n; ++g){
			G q; if(i == 0){ q.ty = R(5) ? 3 : 2; q.u = in_value(); q.v = R(3) ? 0 : in_value(); if(!relay && q.ty == 2) q.u = 0; }
			else { int w = f.L[i - 1].size(); q.ty = T[R(nt)]; q.u = R(w); q.v = R(w); if(q.ty == 5 && q.u > q.v) std::swap(q.u, q.v); if(q.ty == 6 && R(3)) q.v = 0; if(q.ty == 10) q.v = 0; }
			f.L[i].push_back(q);
		}
	}
	const char *sp[] = {"\n", " ", "\n\n", "\t", "  "};
	auto ws = [&]{ return std::string(sp[R(3) ? 0 : R(5)]); };
	f.txt = S(D) + ws();
	for(auto &l : f.L){ f.txt += S(l.size()) + (R(2) ? " " : ws()); for(size_t g = 0; g < l.size(); ++g) f.txt += S(l[g].ty) + " " + S(g) + " " + S(l[g].u) + " " + S(l[g].v) + ws(); }
	FILE *o = fopen("case_circuit.txt", "w"); fputs(f.txt.c_str(), o); fclose(o);
	return f;
}
// the layers the file describes: a layer of one gate gets a dummy gate beside it; with relays, a copy of the input layer follows it
static std::vector<std::vector<G>> described(const FileCirc &f, bool relay){
	std::vector<std::vector<G>> L;
	for(size_t i = 0; i < f.L.size(); ++i){
		auto l = f.L[i]; if(relay) for(auto &q : l) if(q.ty == 6) q.v = 0;
		if(l.size() == 1) l.push_back(G{2, 0, 0});
		L.push_back(l);
		if(relay && i == 0){ std::vector<G> r; for(size_t g = 0; g < l.size(); ++g) r.push_back(G{4, (int)g, 0}); L.push_back(r); }
	}
	return L;
}
static int logof(size_t n){ int b = 0; while((size_t(1) << b) < n) ++b; return b; }
template<class LC> static void cmpcirc(const LC &C, const std::vector<std::vector<G>> &L, const std::string &where){
	check("reader", C.total_depth == (int)L.size(), where + "depth in memory is " + S(C.total_depth) + ", the file describes " + S(L.size()));
	for(size_t i = 0; i < L.size(); ++i){
		check("reader", C.circuit[i].bit_length == logof(L[i].size()), where + "bit length of layer " + S(i) + " in memory is " + S(C.circuit[i].bit_length) + ", the file describes " + S(logof(L[i].size())));
		check("reader", malloc_usable_size(C.circuit[i].gates) >= L[i].size() * sizeof(gate), where + "layer " + S(i) + " has no room for its gates");
		for(size_t g = 0; g < L[i].size(); ++g){ auto &a = C.circuit[i].gates[g]; auto &b = L[i][g];
			check("reader", a.ty == b.ty && a.u == b.u && a.v == b.v, where + "gate " + S(g) + " of layer " + S(i) + " in memory is " + S(a.ty) + "," + S(a.u) + "," + S(a.v) + ", the file describes " + S(b.ty) + "," + S(b.u) + "," + S(b.v)); }
	}
}
template<class VER> static void cmptables(VER &v, const std::vector<std::vector<G>> &L){
	size_t mx = 0; for(auto &l : L) mx = std::max(mx, l.size());
	check("reader", told_n >= 0 && (size_t(1) << told_n) >= mx, "the prover is told tables of 2^" + S(told_n) + " entries, a layer has " + S(mx) + " gates");
	for(auto *t : {v.beta_g_r0, v.beta_g_r1, v.beta_u, v.beta_v}) check("reader", malloc_usable_size(t) >= mx * sizeof(FE), "a table of the verifier is shorter than a layer of " + S(mx) + " gates");
}
