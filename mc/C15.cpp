// A grammar compiled to binary behaves exactly like its text
#include "decl.hpp"
static std::string run(impl::GramP& g, const std::string& src, const std::string& in, const impl::Args& args) {
	try { return impl::run(*g, in, args); }
	catch (ExitCalled& e) { (void)g.release(); g = impl::load(src, args); return "\x02 exit " + std::to_string(e.code); }
}
static void check(Ctx& c, const std::string& g, const SV& in, const impl::Args& args) {
	describe(c, g, in[0], args);
	std::string err; impl::GramP t, w, b, b2; bool ex = false; std::string bin, bin2;
	try { t = impl::load(g, args, &err); } catch (ExitCalled&) { ex = true; (void)t.release(); }
	if (ex || !t) { return; } // rejected: other checks decide that
	w = impl::load(g, args, &err);
	bin = impl::write_binary(*w);
	auto again = [&](const std::string& bytes, const char* what) -> impl::GramP {
		impl::GramP r; try { r = impl::load(bytes, args, &err); } catch (ExitCalled&) { c.fail(std::string(what) + " is refused", {{"stderr", err}}); }
		if (!r) c.fail(std::string(what) + " is rejected", {{"stderr", err}}); return r;
	};
	b = again(bin, "the written binary grammar");
	{ impl::GramP tmp = again(bin, "the written binary grammar"); bin2 = impl::write_binary(*tmp); }
	b2 = again(bin2, "a binary grammar that was read and written again");
	c.count(C_TRACES);
	for (auto& i : in) {
		describe(c, g, i, args); if (!usable(g, i, args)) continue;
		std::string o1 = run(t, g, i, args), o2 = run(b, bin, i, args), o3 = run(w, g, i, args), o4 = run(b2, bin2, i, args);
		if (o1 != o2) c.fail("binary grammar gives other output than the text grammar", {{"text", o1}, {"binary", o2}});
		if (o1 != o3) c.fail("writing the grammar changed what it does", {{"before", o1}, {"after", o3}});
		if (o1 != o4) c.fail("binary grammar that was read and written again gives other output", {{"text", o1}, {"binary", o4}});
		std::string after = impl::write_binary(*t); impl::GramP u = again(after, "a binary grammar that was written after running"); // as the program does it
		std::string o5 = run(u, after, i, args); if (o1 != o5) c.fail("binary grammar that was written after running gives other output", {{"text", o1}, {"binary", o5}});
		c.count(C_TRANS, 5); c.outcome(o1); if (o1 != i) c.nontrivial(fnv(g + "\x01" + i));
	}
}
int main(int argc, char** argv) {
	return meta_main(argc, argv, "C15", "every grammar of every menu is compiled, reloaded and run next to its text form", "", [](bool thorough) { std::vector<Space> v{decl_space(check)}, w = corpus_spaces(thorough, "", 2, 6, check); v.insert(v.end(), w.begin(), w.end()); return v; });
}
