// A stream in another format is treated exactly like the same stream in CG format
#include "decl.hpp"
#include <regex>
#include <set>
#include <sstream>
using impl::Fmt;
static const struct { const char* name; Fmt f; const char *in, *out; } FMTS[] = {
	{"jsonl", impl::F_JSONL, "--in-jsonl", "--out-jsonl"}, {"niceline", impl::F_NICELINE, "--in-niceline", "--out-niceline"},
	{"fst", impl::F_FST, "--in-fst", "--out-fst"}, {"apertium", impl::F_APERTIUM, "--in-apertium", "--out-apertium"}};
// ignores blank lines and the order of the readings of a cohort, which not every format keeps; deleted readings are written by some
static std::string noblank(const std::string& s) {
	std::string r, l; std::istringstream is(s); std::multiset<std::string> rd; std::string cur;
	auto flush = [&]() { if (!cur.empty()) rd.insert(cur); cur.clear(); for (auto& x : rd) r += x; rd.clear(); };
	while (std::getline(is, l)) {
		if (l.empty() || l[0] == ';') continue;
		if (l[0] != '\t') { flush(); r += l + "\n"; }
		else if (l[1] == '\t') cur += l + "\n"; else { if (!cur.empty()) rd.insert(cur); cur = l + "\n"; }
	}
	flush(); return r;
}
// tags of a reading that start with a mapping prefix are put in order
static std::string norm(const std::string& in, bool deps) {
	std::string s = in, l, out; static const std::regex dep(" #[0-9]+->[0-9]+"), id("\\n\t.*? ID:([0-9]+)"), use("( ID:| R:[^ \\n]*:)([0-9]+)");
	if (s.find(" ID:") != std::string::npos) { // identifiers are the number of the cohort among those that have one
		std::map<long, int> n; for (std::sregex_iterator i(s.begin(), s.end(), id), e; i != e; ++i) n.emplace(std::stol((*i)[1]), int(n.size()) + 1);
		std::string r; size_t at = 0; for (std::sregex_iterator i(s.begin(), s.end(), use), e; i != e; ++i) { r.append(s, at, size_t(i->position()) - at); auto k = n.find(std::stol((*i)[2])); r += (*i)[1].str() + (k == n.end() ? "?" : std::to_string(k->second)); at = size_t(i->position() + i->length()); }
		s = std::regex_replace(r + s.substr(at), std::regex(" R:[^ \\n]*:\\?"), ""); // relations to removed cohorts are not kept by every format
	}
	std::istringstream is(s);
	while (std::getline(is, l)) {
		if (l[0] == '\t' && !deps) l = std::regex_replace(l, dep, "");
		if (l[0] == '\t') { std::istringstream t(l); std::string w, r; std::set<std::string> maps; while (std::getline(t, w, ' ')) if (w[0] == '@' || w[0] == '%' || w.compare(0, 2, "¤") == 0 || w.compare(0, 2, "R:") == 0 || w.compare(0, 3, "ID:") == 0) maps.insert(w); else r += (r.empty() ? "" : " ") + w; for (auto& q : maps) r += " " + q; l = r; }
		out += l + "\n";
	}
	return out;
}
// is the text one window, so that the numbers of its cohorts are the same in every format?
static bool one_window(const std::string& s) {
	std::istringstream is(s); std::string l; bool fresh = false, plain = false; long n = 0; std::smatch m; static const std::regex re("\t.* #([0-9]+)->([0-9]+).*");
	while (std::getline(is, l)) if (l[0] != '\t' && l[0] != ';') fresh = true; else if (l[0] == '\t' && l.find("->") == std::string::npos) plain = true; else if (plain && l.find("->") != std::string::npos) return false; else if (fresh && std::regex_match(l, m, re)) { fresh = false; long v = std::stol(m[1]); if (v != n + 1) return false; n = v; if (std::stol(m[2]) > 999) return false; }
	return true;
}
// does a cohort have readings that only differ in the order of their tags? When readings are merged it is chance which of these is kept
static bool same_tags(const std::string& s) {
	std::istringstream is(s); std::string l, w; std::set<std::multiset<std::string>> seen;
	while (std::getline(is, l)) {
		if (l[0] != '\t') { seen.clear(); continue; }
		std::istringstream t(l); std::multiset<std::string> k; while (t >> w) if (w[0] != '@') k.insert(w);
		if (l[1] != '\t' && k.size() > 2 && !seen.insert(k).second) return true;
	}
	return false;
}
static std::string conv(const std::string& s, Fmt a, Fmt b, const std::string& g) { impl::ConvOpts o; if (g.find("MAPPING-PREFIX = ¤") != std::string::npos) o.prefix = u'¤'; if (g.find("MAPPING-PREFIX = %") != std::string::npos) o.prefix = u'%'; if (g.find("SUBREADINGS = LTR") != std::string::npos && (a == impl::F_APERTIUM || b == impl::F_APERTIUM || a == impl::F_FST || b == impl::F_FST)) o.sub_ltr = true; return impl::convert(s, a, b, o); }
static void check(Ctx& c, const std::string& g, const SV& in, const impl::Args& args) {
	auto fail = [&](const std::string& what, std::map<std::string, std::string> kv) { survey_fail(c, g, what, kv); };
	for (auto& a : args) if (a.find("trace") != std::string::npos || a == "--dep-original") return; // only the CG format can carry these
	if (g.find("--trace") != std::string::npos) return;
	bool whole = true, depdel = false, soft = false; for (auto& a : args) { if (a == "--soft-limit") soft = true; if (a == "--num-windows") whole = false; if (a == "--dep-delimit") whole = false, depdel = true; } // the start of the window after the last one in reach can be seen while it is being read, but these are read whole in binary, and run earlier in JSONL and Apertium; nor do these look back for soft delimiters
	bool text_delim = g.find("TEXT-DELIMITERS") != std::string::npos; // only the CG format knows these
	describe(c, g, in[0], args);
	impl::GramP t; auto load = [&]() { impl::GramP r; try { r = impl::load(g, args); } catch (ExitCalled&) { (void)r.release(); } return r; };
	t = load(); if (!t) return;
	auto more = [&](std::initializer_list<const char*> x) { impl::Args a = args; for (auto s : x) a.push_back(s); return a; };
	for (auto& i : in) {
		describe(c, g, i, args); if (!usable(g, i, args)) continue;
		std::string base; try { base = impl::run(*t, i, args); } catch (ExitCalled&) { (void)t.release(); t = load(); if (!t) return; continue; }
		c.count(C_TRACES); c.outcome(base); if (base != i) c.nontrivial(fnv(g + "\x01" + i));
		std::string what;
		try {
			// the binary format carries everything, including the windows
			describe(c, g, i, args, what = "binary");
			auto none = more({"--no-before-sections", "--no-sections", "--no-after-sections"});
			auto none_out = none; none_out.push_back("--out-binary");
			std::string x = impl::run(*t, i, none), bin = impl::run(*t, i, none_out);
			std::string ref = x == i ? base : impl::run(*t, x, args); c.count(C_TRANS, 4);
			bool relcopy = g.find("COPYCOHORT") != std::string::npos && g.find("RELATION") != std::string::npos; // the relations of a copy are looked for among the identifiers of the input, and every cohort has one in binary
			if (whole && !depdel && !relcopy && noblank(ref) == noblank(base) && (x.find(" #") == std::string::npos || one_window(x))) { // dependencies to printed windows are lost
				std::string o = impl::run(*t, bin, more({"--in-binary"})); c.count(C_TRANS);
				if (noblank(norm(o, true)) != noblank(norm(base, true))) return fail("binary input is treated differently", {{"text", i}, {"from text", base}, {"from binary", o}});
			}
			std::string ob = impl::run(*t, i, more({"--out-binary"})); c.count(C_TRANS);
			std::string o = conv(ob, impl::F_BINARY, impl::F_CG, g), split = impl::run(*t, i, more({"--split-mappings"})), w = conv(split, impl::F_CG, impl::F_CG, g);
			// the binary format keeps readings apart that only differ in their mapping, and always has dependencies; cg-conv moves variable commands; relations to the start of the window are in no format
			bool dep = base.find(" #") != std::string::npos, rel = base.find(" ID:") != std::string::npos, rel0 = std::regex_search(base, std::regex("R:[^ ]*:0"));
			if (i.find(" R:") != std::string::npos) { size_t n = 0; for (size_t at = 0; (at = i.find("\"<.>\"", at)) != std::string::npos; ++at) ++n; if (n > 3) rel0 = true; } // relations to windows printed long ago stay as they are in text, and have no place in binary
			bool nums = dep && !depdel && one_window(base) && one_window(w) && std::regex_search(o, std::regex(" #[0-9]+->[0-9]+"));
			o = norm(o, nums); w = norm(w, nums); std::string nbase = norm(split, nums), obase = norm(base, nums);
			bool nobase = std::regex_search(base, std::regex("\n\t+[^\"\t\n]")); // such a reading is not read back by anything
			if (!rel0 && !nobase && noblank(o) != noblank(w) && noblank(o) != noblank(nbase) && noblank(o) != noblank(obase)) return fail("binary output is different", {{"text", i}, {"base", split}, {"as text", w}, {"as binary", o}});
			for (auto& f : FMTS) {
				describe(c, g, i, args, what = f.name);
				std::string cc = conv(i, impl::F_CG, impl::F_CG, g), xf = conv(i, impl::F_CG, f.f, g), back = conv(xf, f.f, impl::F_CG, g);
				if (!text_delim && ((whole && !soft) || (!depdel && (f.f == impl::F_NICELINE || f.f == impl::F_FST))) && noblank(back) == noblank(cc) && noblank(cc) == noblank(i)) {
					o = impl::run(*t, xf, more({f.in})); c.count(C_TRANS);
					if (noblank(norm(o, true)) != noblank(norm(base, true))) return fail(std::string("input is treated differently: ") + f.name, {{"text", i}, {"formatted", xf}, {"from cg", base}, {"from it", o}});
				}
				if (nobase || same_tags(base) || same_tags(i) || ((dep || rel) && f.f == impl::F_FST) || (rel && (f.f == impl::F_JSONL || f.f == impl::F_APERTIUM))) continue; // nowhere to put them
				const std::string& want = f.f == impl::F_JSONL ? split : base; // JSONL keeps readings apart, too
				w = conv(want, impl::F_CG, impl::F_CG, g); back = conv(conv(want, impl::F_CG, f.f, g), f.f, impl::F_CG, g);
				if (noblank(back) == noblank(w) && noblank(w) == noblank(want)) {
					std::string of = impl::run(*t, i, more({f.out})); c.count(C_TRANS);
					o = conv(of, f.f, impl::F_CG, g);
					bool nm = nums && f.f != impl::F_JSONL; // numbered over the whole text there
					o = norm(o, nm); w = norm(w, nm);
					if (noblank(o) != noblank(w) && noblank(o) != noblank(norm(want, nm))) return fail(std::string("output is different: ") + f.name, {{"text", i}, {"formatted", of}, {"as cg", w}, {"as it", o}});
				}
			}
		} catch (ExitCalled&) { (void)t.release(); return fail("the program exits: " + what, {{"text", i}}); }
		catch (std::exception& e) { return fail("exception: " + what, {{"text", i}, {"exception", e.what()}}); }
	}
}
int main(int argc, char** argv) {
	return meta_main(argc, argv, "C20", "every grammar of every menu is run on its inputs in every format that can carry them, and its output is written in every format that can carry it", "", [](bool thorough) { std::vector<Space> v{decl_space(check)}, w = corpus_spaces(thorough, "", 1, 4, check); v.insert(v.end(), w.begin(), w.end()); return v; });
}
