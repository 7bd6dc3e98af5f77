// A grammar written back as text behaves exactly like the original
#include "decl.hpp"
static std::string run(impl::GramP& g, const std::string& src, const std::string& in, const impl::Args& args) {
	try { return impl::run(*g, in, args); }
	catch (ExitCalled& e) { (void)g.release(); g = impl::load(src, args); return "\x02 exit " + std::to_string(e.code); }
}
static void check(Ctx& c, const std::string& g, const SV& in, const impl::Args& args0) {
	impl::Args args; for (auto& a : args0) { if (a.find("trace") != std::string::npos || a.find("rule") != std::string::npos) return; args.push_back(a); } // those refer to line numbers
	if (g.find("--trace") != std::string::npos) return;
	auto fail = [&](const std::string& what, std::map<std::string, std::string> kv) {
		survey_fail(c, g, what, kv); return true;
	};
	describe(c, g, in[0], args);
	std::string err; impl::GramP t, w, t2, t3; bool ex = false;
	try { t = impl::load(g, args, &err); } catch (ExitCalled&) { ex = true; (void)t.release(); }
	if (ex || !t) return; // rejected: other checks decide that
	w = impl::load(g, args, &err);
	auto again = [&](const std::string& text, const char* what, impl::GramP& r) -> bool {
		try { r = impl::load(text, args, &err); } catch (ExitCalled&) { (void)r.release(); }
		if (!r) { fail(std::string(what) + " is rejected", {{"stderr", err}, {"text", text}}); return false; } return true;
	};
	std::string text = impl::write_text(*w), text2;
	if (!again(text, "the written grammar", t2)) return;
	{ impl::GramP tmp; if (!again(text, "the written grammar", tmp)) return; text2 = impl::write_text(*tmp); }
	if (!again(text2, "a grammar that was written twice", t3)) return;
	c.count(C_TRACES);
	for (auto& i : in) {
		describe(c, g, i, args); if (!usable(g, i, args)) continue;
		std::string o1 = run(t, g, i, args), o2 = run(t2, text, i, args), o4 = run(t3, text2, i, args);
		if (o1 != o2) { fail("the written grammar gives other output than the original", {{"original", o1}, {"written", o2}, {"text", text}}); return; }
		if (o1 != o4) { fail("a grammar that was written twice gives other output", {{"original", o1}, {"written", o4}, {"text", text2}}); return; }
		impl::GramP u; // the program writes the grammar after it has run it
		std::string after = impl::write_text(*t); if (!again(after, "a grammar that was written after it was run", u)) return;
		std::string o5 = run(u, after, i, args);
		if (o1 != o5) { fail("a grammar that was written after it was run gives other output", {{"original", o1}, {"written", o5}, {"text", after}}); return; }
		c.count(C_TRANS, 4); c.outcome(o1); if (o1 != i) c.nontrivial(fnv(g + "\x01" + i));
	}
}
int main(int argc, char** argv) {
	return meta_main(argc, argv, "C16", "every grammar of every menu is written as text, reparsed and run next to the original", "", [](bool thorough) { std::vector<Space> v{decl_space(check)}, w = corpus_spaces(thorough, "", 2, 6, check); v.insert(v.end(), w.begin(), w.end()); return v; });
}
