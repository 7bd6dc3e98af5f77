// Every text is processed on its own: what was run before makes no difference
#include "decl.hpp"
static const std::string FL = "<STREAMCMD:FLUSH>\n";
// numbers of cohorts run on through the whole stream, and are printed once the stream has had a dependency
static std::string strip(const std::string& s) {
	std::string r; for (size_t i = 0; i < s.size();) {
		if (s[i] == ' ' && (s.compare(i, 2, " #") == 0 || s.compare(i, 3, " R:") == 0 || s.compare(i, 4, " ID:") == 0)) { ++i; while (i < s.size() && s[i] != ' ' && s[i] != '\n') ++i; } else r += s[i++];
	}
	return r;
}
static void check(Ctx& c, const std::string& g, const SV& in, const impl::Args& args) {
	bool stateful = false;
	auto fail = [&](const std::string& what, std::map<std::string, std::string> kv) { survey_fail(c, g, what, kv); };
	// dependencies, relations and variables are remembered by the stream, on purpose
	for (auto w : {"PARENT", "SETCHILD", "RELATION", "VARIABLE", "MERGECOHORTS", "SPLITCOHORT"}) if (g.find(w) != std::string::npos) stateful = true;
	for (auto& i : in) if (i.find("->") != std::string::npos || i.find("SETVAR") != std::string::npos || i.find(" R:") != std::string::npos) stateful = true;
	// the >>> cohort has dependency number 0 in the first window of a stream only, and relations to later windows are resolved as far as these have been read
	bool edge = false; for (auto w : {"SETCHILD", "REVERSE", "WITHCHILD", "REMVARIABLE (/"}) if (g.find(w) != std::string::npos) edge = true;
	for (auto& i : in) if (i.find(" R:") != std::string::npos) edge = true;
	describe(c, g, in[0], args);
	auto load = [&]() { impl::GramP r; std::string err; try { r = impl::load(g, args, &err); } catch (ExitCalled&) { (void)r.release(); } return r; };
	impl::GramP t; 
	std::vector<std::string> ins, base;
	for (auto& i : in) {
		describe(c, g, i, args); if (!usable(g, i, args)) continue;
		t = load(); if (!t) return;
		try { base.push_back(impl::run(*t, i, args)); ins.push_back(i); } catch (ExitCalled&) { (void)t.release(); }
		c.count(C_TRANS);
	}
	if (ins.empty()) return;
	c.count(C_TRACES);
	// all of them one after the other, forwards and backwards: with one grammar, and with one applicator
	std::vector<size_t> order; for (size_t i = 0; i < ins.size(); ++i) order.push_back(i); for (size_t i = ins.size(); i-- > 0;) order.push_back(i);
	try {
		t = load(); size_t prev = order[0];
		for (size_t i : order) { std::string o = impl::run(*t, ins[i], args); if (o != base[i]) return fail("a grammar gives other output after it was used for another text", {{"text", ins[i]}, {"before", ins[prev]}, {"alone", base[i]}, {"after", o}}); prev = i; c.count(C_TRANS); }
		if (stateful) order.clear(); else prev = order[0];
		t = load(); auto app = impl::applicator(*t, args);
		for (size_t i : order) { std::string o = impl::run_app(*app, ins[i]); if (stateful ? strip(o) != strip(base[i]) : o != base[i]) return fail("an applicator gives other output after it was used for another text", {{"text", ins[i]}, {"before", ins[prev]}, {"alone", base[i]}, {"after", o}}); prev = i; c.count(C_TRANS); }
	} catch (ExitCalled&) { (void)t.release(); return fail("the program exits when texts follow each other", {}); }
	for (size_t a = 0; !edge && a < ins.size(); ++a) {
		if (ins[a].find(":EXIT>") != std::string::npos || ins[a].find(":IGNORE>") != std::string::npos) continue; // what follows these is not processed
		size_t b = (a + 1) % ins.size(); size_t lv = ins[a].rfind("VAR:"), lc = ins[a].rfind("\"<"); if (lv != std::string::npos && (lc == std::string::npos || lc < lv)) continue; // variables that no window has seen are not written at a FLUSH
		t = load(); std::string both = ins[a] + FL + ins[b]; describe(c, g, both, args);
		std::string o = impl::run(*t, both, args), want = base[a] + FL + base[b]; c.count(C_TRANS);
		if (stateful ? strip(o) != strip(want) : o != want) return fail("a FLUSH does not separate texts", {{"separate", want}, {"flushed", o}});
		c.outcome(o); if (o != both) c.nontrivial(fnv(g + "\x01" + both));
	}
}
int main(int argc, char** argv) {
	return meta_main(argc, argv, "C17", "every grammar of every menu is run on its inputs alone, after other inputs, and separated by FLUSH", "", [](bool thorough) { std::vector<Space> v{decl_space(check)}, w = corpus_spaces(thorough, "", 3, 8, check); v.insert(v.end(), w.begin(), w.end()); return v; });
}
