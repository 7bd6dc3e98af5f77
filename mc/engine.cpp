#include "engine.hpp"
#include <cstring>
#include <unistd.h>
namespace engine {
Res compare(Ctx& c, const std::string& grammar, const std::string& input, const impl::Args& args, bool multiset) {
	std::string a; for (auto& s : args) a += " " + s;
	c.describe("args:" + a + "\n---- grammar\n" + grammar + "\n---- input\n" + input);
	Res r; mcg::Stats st; st.on_state = [&](uint64_t h) { c.state(h); };
	std::string want; bool fatal = false; std::string fw;
	try { want = mcg::run(grammar, input, mcg::parse_args(args), &st); }
	catch (mcg::Ambiguous& e) { c.count(AMBIG); r.ambiguous = true; if (!strncmp(e.what(), "endless", 7)) return r; }
	catch (mcg::Fatal& e) { fatal = true; fw = e.what(); c.count(FATAL); }
	catch (mcg::Unsupported& e) { c.fail(std::string("reference model: unsupported: ") + e.what()); }
	std::string got, err; bool exited = false, rejected = false;
	static std::string lastkey; static impl::GramP lastg; static int pid = 0;
	try {
		std::string key = grammar + "\x01" + a;
		if (pid != getpid() || key != lastkey || !lastg) {
			lastg.reset(); lastg = impl::load(grammar, args, &err); lastkey = key; pid = getpid();
		}
		if (!lastg) { rejected = true; lastkey.clear(); }
		else got = impl::run(*lastg, input, args, &err);
	}
	catch (ExitCalled& e) { exited = true; (void)lastg.release(); lastkey.clear(); }
	if (r.ambiguous) return r;
	if (fatal) { if (!exited && !rejected) c.fail("expected a fatal error (" + fw + ")", {{"got", got}}); return r; }
	if (exited) c.fail("the code under test exited", {{"want", want}, {"stderr", err}});
	if (rejected) c.fail("grammar rejected", {{"stderr", err}});
	bool ms = multiset || !st.ambiguous.empty();
	std::string w = mcg::canon(want, ms), g = mcg::canon(got, ms);
	c.count(C_TRANS, st.transitions); c.count(C_TRACES);
	if (w != g) {
		// while a check is being developed, SURVEY=file collects all differences instead of reporting the first ones
		if (const char* f = getenv("SURVEY")) { FILE* o = fopen(f, "a"); std::string s = "####\n" + grammar + a + "\n--in\n" + input + "--want\n" + w + "--got\n" + g; fwrite(s.data(), 1, s.size(), o); fclose(o); return r; }
		c.fail("output differs from the reference model", {{"want", w}, {"got", g}});
	}
	if (st.changed) { c.count(CHANGED); c.nontrivial(fnv(grammar + "\x01" + input + a)); }
	c.outcome(w); r.out = got; r.changed = st.changed;
	if (st.changed) c.sample("grammar: " + grammar.substr(0, 500) + " | input: " + input.substr(0, 300) + " | output: " + got.substr(0, 500));
	return r;
}
std::string cohorts(const std::string& s) {
	std::string o; size_t i = 0;
	while (i < s.size()) {
		if (s[i] == ' ') { ++i; continue; }
		size_t e = s.find(' ', i); if (e == std::string::npos) e = s.size();
		std::string t = s.substr(i, e - i); i = e;
		if (t[0] == '!') { o += t.substr(1) + "\n"; continue; } // raw line
		size_t col = t.find(':'); o += "\"<" + t.substr(0, col) + ">\"\n"; if (col == std::string::npos) continue;
		std::string rs = t.substr(col + 1); size_t p = 0;
		while (p <= rs.size()) {
			size_t q = rs.find('|', p); if (q == std::string::npos) q = rs.size();
			std::string rd = rs.substr(p, q - p); p = q + 1; size_t u = 0, depth = 1;
			while (u <= rd.size()) {
				size_t v = rd.find('/', u); if (v == std::string::npos) v = rd.size();
				std::string part = rd.substr(u, v - u); u = v + 1;
				o.append(depth++, '\t'); size_t k = 0; bool first = true;
				while (k <= part.size()) { size_t l = part.find(',', k); if (l == std::string::npos) l = part.size(); std::string tag = part.substr(k, l - k); k = l + 1; if (first) o += "\"" + tag + "\""; else o += " " + tag; first = false; }
				o += "\n";
			}
		}
	}
	return o;
}
std::vector<std::pair<std::string, int>> counters() { return {{"changed_by_some_rule", CHANGED}, {"not_compared_outcome_unspecified", AMBIG}, {"expected_fatal_errors", FATAL}}; }
std::vector<std::string> assumptions() { return {"the reference model in /verif/mc/model_*.cpp states the intended semantics (written from the manual and the pinned code; every explored trace is replayed on the implementation and compared)", "outcomes that depend on hash order (ties) are compared as multisets or not at all, and counted"}; }
}
