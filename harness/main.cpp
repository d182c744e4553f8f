// Replay harness of the programs: the real main runs with stand-ins for the verifier and prover that record how they are
// used and answer an arbitrary verdict.  -DKIND=0 linear time, 1 C log C, 2 data-parallel.
#if KIND == 0
#include "linear_gkr/prover_fast_track.h"
#include "linear_gkr/verifier_fast_track.h"
#elif KIND == 1
#include "traditional_gkr/prover_clogc.h"
#include "traditional_gkr/verifier_traditional.h"
#else
#include "traditional_gkr/prover_bc_clogc.h"
#include "traditional_gkr/verifier_bc_clogc.h"
#endif
#include "common.h"
#include <map>
int real_main(int, char**);
static std::vector<int> verdict; static size_t ran; static int tokens, nb, lognb;
static std::map<const void*, prover*> proverof; static std::map<const void*, int> tokenof, given; static std::map<const void*, std::pair<int, int>> blocksof; static std::map<const void*, bool> done;
prover::~prover(){}
void prover::delete_self(){}
void verifier::delete_self(){}
void verifier::get_prover(prover *pp){ for(auto &x : proverof) if(x.second == pp && x.first != this) check("program", false, "two verifiers share a prover"); p = pp; proverof[this] = pp; }
static void rd(const void *v){ check("program", proverof.count(v), "a verifier reads the circuit before it has a prover"); tokenof[v] = ++tokens; }
static bool vf(const void *v){
	check("program", prime_field::initialized && zof(prime_field::mod) == MODP, "the field is not initialised to the protocol's prime when a verification starts");
	check("program", proverof.count(v) && tokenof.count(v), "a verifier without prover or circuit runs");
	check("program", given[proverof[v]] == tokenof[v], "the prover of a verification does not have the circuit its verifier read");
	check("program", !done[v], "a verifier runs twice"); done[v] = true;
	return ran < verdict.size() ? verdict[ran++] : (++ran, 1);
}
#if KIND == 2
void verifier::set_blocks(int a, int b){ blocksof[this] = std::make_pair(a, b); C.total_blocks = a; C.total_blocks_binary_length = b; C.blocks = new layered_circuit[a]; }
void verifier::read_circuit(const char *f, int n){ check("program", std::string(f) == "circuit.txt", "another file is read"); check("program", n == nb && blocksof[this] == std::make_pair(nb, lognb), "the number of copies is not the requested one"); rd(this); C.blocks[0].total_depth = tokens; }
void prover::get_circuit(const blocked_circuit &c){ given[this] = c.blocks ? c.blocks[0].total_depth : 0; }
#else
void prover::get_circuit(const layered_circuit &c){ given[this] = c.total_depth; }
#if KIND == 0
void verifier::read_circuit(const char *f){ rd(this); C.total_depth = tokens; }
#else
void verifier::read_circuit_from_FILE(FILE *f){ char b[32] = {0}; check("program", f && fgets(b, 32, f) && std::string(b) == "circuit\n", "the circuit is not read from the start of the file"); rd(this); C.total_depth = tokens; }
#endif
#endif
bool verifier::verify(){ return vf(this); }
static std::string capture(std::vector<std::string> a){
	std::vector<char*> av; for(auto &x : a) av.push_back(&x[0]); av.push_back(0);
	fflush(0); int so = dup(1); int fd = open("out.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd);
	real_main(a.size(), av.data());
	fflush(0); dup2(so, 1); close(so); std::ifstream in("out.txt"); return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
int main(int argc, char **argv){
	double secs = atof(argv[2]); rng.seed(atol(argv[3])); time_t t0 = time(0); long it = 0;
	{ std::ofstream o("circuit.txt"); o << "circuit\n"; std::ofstream o2("test_circuit.txt"); o2 << "circuit\n"; }
	while(it < 300 || difftime(time(0), t0) < std::min(secs, 4.0)){
		++it; lognb = KIND ? R(4) : 0; nb = KIND ? (KIND == 1 ? 1 + R(9) : 1 << lognb) : 1; size_t want = KIND == 1 ? nb : 1;
		verdict.clear(); int bad = R(3); for(size_t i = 0; i < want; ++i) verdict.push_back(bad == 0 ? 1 : bad == 1 ? (int)R(2) : 1); if(bad == 2) verdict[R(want)] = 0;
		ran = 0; proverof.clear(); tokenof.clear(); given.clear(); blocksof.clear(); done.clear(); prime_field::initialized = false;
		bool all = true; CURCASE = S(nb) + " copies (log " + S(lognb) + "), the verifications answer:"; for(int x : verdict){ CURCASE += x ? " accept" : " reject"; all &= x; } CURCASE += "\n";
		std::string out = capture({"prog", "circuit.txt", S(nb), S(lognb)}); CURCASE += "output: " + out;
		bool pass = out.find("Pass") != std::string::npos, fl = out.find("Fail") != std::string::npos;
		check("program", pass != fl, "no single verdict is reported"); check("program", pass == all, "the reported verdict is not that of the verifications");
		check("program", !pass || ran == want, S(ran) + " verifications ran, " + S(want) + " were asked for");
	}
	printf("OK iterations=%ld comparisons=%ld\n", it, NCASE);
	return 0;
}
