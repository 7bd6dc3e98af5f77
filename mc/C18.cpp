// Options that only add information do not change what the grammar does
#include "decl.hpp"
#include <cstring>
#include <set>
#include <sstream>
// removes what --trace adds: deleted lines, and the rules listed after each reading
static bool is_trace(const std::string& t) {
	size_t i = 0; while (i < t.size() && (isupper((unsigned char)t[i]) || t[i] == '-')) ++i;
	if (i < 3) return false;
	if (i < t.size() && t[i] == '(') { i = t.find("):", i); if (i == std::string::npos) return false; ++i; }
	return i + 1 < t.size() && t[i] == ':' && isdigit((unsigned char)t[i + 1]);
}
static std::string untrace(const std::string& s, bool names) {
	std::string r; std::istringstream is(s); std::string l; bool gone = false;
	while (std::getline(is, l)) {
		if (l.compare(0, 4, "; \"<") == 0) gone = true; else if (!l.empty() && l[0] != '\t' && l[0] != ';') gone = false; // readings of a removed cohort
		if (!l.empty() && (l[0] == ';' || (gone && l[0] == '\t'))) continue;
		if (!l.empty() && l[0] == '\t') for (;;) {
			size_t p = l.rfind(' '); if (p == std::string::npos) break;
			std::string t = l.substr(p + 1);
			if (is_trace(t) || (names && t.find(':') != std::string::npos && isupper((unsigned char)t[0]))) l.resize(p); else break;
		}
		r += l + "\n";
	}
	return r;
}
// readings of the same cohort that differ only in their mapping tags are written as one or as several,
// depending on whether the same rules touched them: compare them one mapping tag at a time
static std::string split_mappings(const std::string& s) {
	std::string r; std::istringstream is(s); std::string l; std::vector<std::string> rd; std::set<std::string> out;
	auto flush = [&]() {
		for (auto& x : rd) {
			std::vector<std::string> w(1), m; std::istringstream a(x); std::string line; std::vector<std::string> base; std::vector<std::vector<std::string>> maps;
			// every line: plain part and mapping tags
			std::vector<std::string> acc(1);
			while (std::getline(a, line)) {
				std::string plain; std::vector<std::string> mp; std::istringstream b(line); std::string t; bool first = true; std::set<std::string> seen;
				while (std::getline(b, t, ' ')) { if (!first && t[0] == '@') mp.push_back(t); else if (first) plain = t; else seen.insert(t); first = false; } // (neither the order of tags nor repetition counts)
				for (auto& x : seen) plain += " " + x;
				if (mp.empty()) mp.push_back("");
				std::vector<std::string> nx; for (auto& p : acc) for (auto& q : mp) nx.push_back(p + plain + " " + q + "\n");
				acc.swap(nx);
			}
			out.insert(acc.begin(), acc.end());
		}
		for (auto& x : out) r += x;
		rd.clear(); out.clear();
	};
	while (std::getline(is, l)) {
		if (!l.empty() && l[0] == '\t') { if (l.size() > 1 && l[1] == '\t' && !rd.empty()) rd.back() += l + "\n"; else rd.push_back(l + "\n"); }
		else { flush(); r += l + "\n"; }
	}
	flush();
	return r;
}
static std::string drop_prefix(const std::string& s, const char* pre) { // tokens added to readings and cohorts
	std::string r; for (size_t i = 0; i < s.size();) { if (s.compare(i, strlen(pre), pre) == 0) { ++i; while (i < s.size() && s[i] != ' ' && s[i] != '\n') ++i; } else r += s[i++]; }
	return r;
}
template<bool FULL> static void check(Ctx& c, const std::string& g, const SV& in, const impl::Args& args) {
	auto fail = [&](const std::string& what, std::map<std::string, std::string> kv) { survey_fail(c, g, what, kv); };
	bool traced = false, ids = false; for (auto& a : args) { if (a.find("trace") != std::string::npos) traced = true; if (a.find("print-ids") != std::string::npos || a.find("dep") != std::string::npos) ids = true; }
	impl::GramP t; std::string err;
	auto load = [&](const impl::Args& a) { impl::GramP r; try { r = impl::load(g, a, &err); } catch (ExitCalled&) { (void)r.release(); } return r; };
	describe(c, g, in[0], args);
	t = load(args); if (!t) return;
	struct Variant { impl::Args add; const char* name; int kind; };
	std::vector<Variant> vs = {{{"--profile", "x"}, "--profile", 0}, {{"--debug-rules", "1-999"}, "--debug-rules", 0}};
	if (FULL) { vs.push_back({{"--verbose"}, "--verbose", 0}); vs.push_back({{"--dump-ast"}, "--dump-ast", 0}); vs.push_back({{"--deleted"}, "--deleted", 3}); }
	if (!traced) { vs.push_back({{"--trace"}, "--trace", 1}); if (FULL) vs.push_back({{"--trace-no-removed"}, "--trace-no-removed", 1}); if (FULL) vs.push_back({{"--trace-name-only", "--trace-encl"}, "--trace-name-only", 2}); }
	if (!ids && FULL) vs.push_back({{"--print-ids"}, "--print-ids", 4});
	for (auto& i : in) {
		describe(c, g, i, args); if (!usable(g, i, args)) continue;
		std::string base; try { base = impl::run(*t, i, args); } catch (ExitCalled&) { (void)t.release(); t = load(args); if (!t) return; continue; }
		c.count(C_TRACES); c.outcome(base); if (base != i) c.nontrivial(fnv(g + "\x01" + i));
		for (auto& v : vs) {
			impl::Args a = args; a.insert(a.end(), v.add.begin(), v.add.end());
			describe(c, g, i, a);
			if (v.kind == 3 && i.find(";") != std::string::npos) continue;
			impl::GramP h; std::string o;
			try { h = load(a); if (!h) return fail(std::string("the grammar is rejected with ") + v.name, {{"text", i}}); o = impl::run(*h, i, a); } catch (ExitCalled&) { (void)h.release(); return fail(std::string("the program exits with ") + v.name, {{"text", i}}); }
			c.count(C_TRANS);
			std::string want = base;
			if (v.kind == 1 || v.kind == 2) { o = untrace(o, v.kind == 2); want = untrace(base, v.kind == 2); if (o != want) { std::string o2 = split_mappings(o), w2 = split_mappings(want); if (o2 == w2) continue; } }
			if (v.kind == 4) { o = drop_prefix(o, " ID:"); want = drop_prefix(base, " ID:"); }
			if (o != want) return fail(std::string("the output differs with ") + v.name, {{"text", i}, {"plain", want}, {"with", o}});
		}
	}
}
int main(int argc, char** argv) {
	return meta_main(argc, argv, "C18", "every grammar of every menu is run on its inputs with and without each option that only adds information", "", [](bool thorough) { std::vector<Space> v{decl_space(check<true>)}, w = corpus_spaces(thorough, "", 1, 4, thorough ? check<true> : check<false>); v.insert(v.end(), w.begin(), w.end()); return v; });
}
