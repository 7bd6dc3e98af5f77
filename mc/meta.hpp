// Metamorphic checks: reuse every (grammar, input, options) menu of the engine checks C01..C14.
// Those files are compiled a second time with -DENGINE_LIB, which only collects their menus.
#pragma once
#include "enumr.hpp"
struct Corpus { std::string prop, name; SV g, in; std::vector<impl::Args> args; std::vector<Case> cs; };
const std::vector<Corpus>& corpora(bool thorough);
// "---- grammar" description for crash reports
inline void describe(Ctx& c, const std::string& g, const std::string& in, const impl::Args& args, const std::string& extra = "") {
	std::string a; for (auto& s : args) a += " " + s;
	c.describe("args:" + a + (extra.empty() ? "" : "\nvariant: " + extra) + "\n---- grammar\n" + g + "\n---- input\n" + in);
}
// reports a failure; while a check is being developed, SURVEY=file collects all of them instead
inline void survey_fail(Ctx& c, const std::string& g, const std::string& what, std::map<std::string, std::string> kv) {
	if (const char* f = getenv("SURVEY")) { FILE* o = fopen(f, "a"); std::string s = "#### " + what + "\n" + g; for (auto& p : kv) s += "--" + p.first + "\n" + p.second + "\n"; fwrite(s.data(), 1, s.size(), o); fclose(o); return; }
	c.fail(what, kv);
}
// false if the reference model finds that the case never terminates (or is outside the menu's bounds)
bool usable(const std::string& g, const std::string& in, const impl::Args& args);
// All distinct grammars of the corpora, each with its inputs. `per` > 0 limits to the first `per` inputs of each.
struct Prog { std::string g; const SV* in; SV own; const std::vector<impl::Args>* args; };
std::vector<Space> corpus_spaces(bool thorough, const std::string& label, size_t per_quick, size_t per_thorough, std::function<void(Ctx&, const std::string& g, const SV& in, const impl::Args& args)> fn, std::function<bool(const Corpus&)> use = nullptr);
inline int meta_main(int argc, char** argv, const std::string& prop, const std::string& rule, const std::string& bounds, std::function<std::vector<Space>(bool)> f, std::vector<std::string> assume = {}) {
	impl::init();
	CheckDef d; d.property = prop; d.level = "exploration"; d.rule = rule; d.bounds = bounds; d.assumptions = assume;
	return explore_main(argc, argv, d, f);
}
