// Building blocks for exhaustive enumerations of (grammar, input, options) cases.
#pragma once
#include "engine.hpp"
#include <string>
#include <vector>
typedef std::vector<std::string> SV;
// all concatenations a+b
inline SV cat(const SV& a, const SV& b, const std::string& sep = "") { SV o; for (auto& x : a) for (auto& y : b) o.push_back(x + sep + y); return o; }
inline SV cat(const std::string& a, const SV& b, const std::string& c = "") { SV o; for (auto& y : b) o.push_back(a + y + c); return o; }
inline SV operator+(SV a, const SV& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// all sequences of length lo..hi over items
inline SV seqs(const SV& items, int lo, int hi, const std::string& sep = " ") {
	SV o; for (int n = lo; n <= hi; ++n) { SV cur{""}; for (int i = 0; i < n; ++i) { SV nx; for (auto& c : cur) for (auto& x : items) nx.push_back(c + (i ? sep : "") + x); cur = nx; } o = o + cur; } return o;
}
// all non-empty subsets (in order) of size lo..hi
inline SV subsets(const SV& items, int lo, int hi, const std::string& sep) {
	SV o; for (unsigned m = 0; m < (1u << items.size()); ++m) { int n = __builtin_popcount(m); if (n < lo || n > hi) continue; std::string s; for (size_t i = 0; i < items.size(); ++i) if (m >> i & 1) s += (s.empty() ? "" : sep) + items[i]; o.push_back(s); } return o;
}
// word-numbered cohorts: every "_:" is replaced by "w1:" "w2:" ...
inline std::string words(const std::string& s) { std::string o; int n = 0; for (char c : s) { if (c == '_') o += "w" + std::to_string(++n); else o += c; } return o; }
inline SV inputs(const SV& v) { SV o; for (auto& x : v) o.push_back(engine::cohorts(words(x))); return o; }
struct Case { std::string g, in; impl::Args a; };
#ifdef ENGINE_LIB
// only collect the menus (see meta.hpp)
void collect(const std::string& name, SV g, SV in, std::vector<impl::Args> args, std::vector<Case> cs);
void collect_prop(const std::string& prop, std::function<std::vector<Space>(bool)> f);
inline Space product(const std::string& name, SV g, SV in, std::vector<impl::Args> args = {{}}, bool = false) { collect(name, std::move(g), std::move(in), std::move(args), {}); return Space(); }
// a space far larger than the others: the metamorphic checks take every 61st grammar of it
inline Space wide(const std::string& name, SV g, SV in, std::vector<impl::Args> args = {{}}) { SV t; for (size_t i = 0; i < g.size(); i += 61) t.push_back(g[i]); collect(name, std::move(t), std::move(in), std::move(args), {}); return Space(); }
inline Space cases(const std::string& name, std::vector<Case> v) { collect(name, {}, {}, {}, std::move(v)); return Space(); }
inline int engine_main(int, char**, const std::string& prop, const std::string&, std::function<std::vector<Space>(bool)> f) { collect_prop(prop, f); return 0; }
#else
// product space; grammars vary slowest so that both sides parse each grammar once per chunk
inline Space product(const std::string& name, SV g, SV in, std::vector<impl::Args> args = {{}}, bool multiset = false) {
	Space s; s.name = name; s.size = uint64_t(g.size()) * in.size() * args.size(); s.chunk = 2000; s.exit_ok = false;
	s.fn = [=](uint64_t i, Ctx& c) { uint64_t ii = i % in.size(); i /= in.size(); uint64_t ai = i % args.size(); i /= args.size(); engine::compare(c, g[i], in[ii], args[ai], multiset); };
	return s;
}
inline Space wide(const std::string& name, SV g, SV in, std::vector<impl::Args> args = {{}}) { return product(name, std::move(g), std::move(in), std::move(args)); }
// a list of explicit triples
inline Space cases(const std::string& name, std::vector<Case> v) {
	Space s; s.name = name; s.size = v.size(); s.fn = [v = std::move(v)](uint64_t i, Ctx& c) { engine::compare(c, v[i].g, v[i].in, v[i].a); }; return s;
}
inline int engine_main(int argc, char** argv, const std::string& prop, const std::string& bounds, std::function<std::vector<Space>(bool)> f) {
	impl::init();
	CheckDef d; d.property = prop; d.level = "model_checking"; d.bounds = bounds; d.assumptions = engine::assumptions(); d.extra_counters = engine::counters();
	return explore_main(argc, argv, d, f);
}
#endif
