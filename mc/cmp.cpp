// debugging aid: cmp GRAMMAR INPUT [args..]: run model and implementation, print both
#include "engine.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
static std::string slurp(const char* f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main(int c, char** v) {
	impl::init(); std::string g = slurp(v[1]), in = slurp(v[2]); impl::Args a; bool quiet = false; for (int i = 3; i < c; ++i) if (std::string(v[i]) == "-q") quiet = true; else a.push_back(v[i]);
	std::string w, x, err; mcg::Stats st;
	try { w = mcg::run(g, in, mcg::parse_args(a), &st); } catch (std::exception& e) { w = std::string("EXC ") + e.what() + "\n"; if (quiet) { std::cout << "MODEL " << w; return 2; } }
	try { auto G = impl::load(g, a, &err); if (!G) x = "REJECT " + err; else x = impl::run(*G, in, a, &err); } catch (std::exception& e) { x = e.what(); } 
	bool ms = !st.ambiguous.empty(); w = mcg::canon(w, ms); x = mcg::canon(x, ms);
	bool eq = w == x; std::cout << (eq ? "SAME" : "DIFFER") << (ms ? " (multiset)" : "") << " trans=" << st.transitions << (w.compare(0,3,"EXC")==0 ? " "+w.substr(0,100) : "") << "\n"; if (!quiet || !eq) { if (!quiet) std::cout << "---- model\n" << w << "---- impl\n" << x << "---- err\n" << err << "\n"; }
	if (!eq && quiet) { std::ofstream("/tmp/w.txt") << w; std::ofstream("/tmp/x.txt") << x; }
	return eq ? 0 : 1;
}
