// The physical form of the input (chunks, line ends, spacing, line lengths) makes no difference
#include "decl.hpp"
#include <sstream>
#include <cstring>
static std::string del(const std::string& s, char c) { std::string r; for (char x : s) if (x != c) r += x; return r; }
static std::string rstrip(std::string s) { while (!s.empty() && s.back() == '\n') s.pop_back(); return s; }
static std::string noblank(const std::string& s) { std::string r, l; std::istringstream is(s); while (std::getline(is, l)) if (!l.empty()) r += l + "\n"; return r; }
static bool cg_line(const std::string& l) { return (l.size() > 2 && l[0] == '"' && l[1] == '<') || (!l.empty() && l[0] == '\t' && l.find('"') != std::string::npos); }
template<typename F> static std::string per_line(const std::string& s, F f) { std::string r, l; std::istringstream is(s); while (std::getline(is, l)) r += f(l) + "\n"; return r; }
struct Form { const char* name; std::string text; bool chunk; };
static std::vector<Form> forms(const std::string& i) {
	std::vector<Form> v;
	v.push_back({"one byte at a time", i, true});
	std::string crlf; for (char c : i) { if (c == '\n') crlf += '\r'; crlf += c; } v.push_back({"CRLF line ends", crlf, false});
	if (!i.empty() && i.back() == '\n') v.push_back({"no newline at the end", i.substr(0, i.size() - 1), false});
	v.push_back({"doubled spaces", per_line(i, [](const std::string& l) { if (!cg_line(l)) return l; std::string r; size_t k = l[0] == '\t' ? l.find('"') : 0; r = l.substr(0, k); for (size_t p = k; p < l.size(); ++p) { r += l[p]; if (l[p] == ' ') r += (p % 2) ? ' ' : '\t'; } return r; }), false});
	v.push_back({"trailing spaces", per_line(i, [](const std::string& l) { return cg_line(l) ? l + " \t " : l; }), false});
	v.push_back({"indentation by spaces", per_line(i, [](const std::string& l) { std::string r; size_t k = 0; if (cg_line(l)) while (l[k] == '\t') { r += "  "; ++k; } return r + l.substr(k); }), false});
	bool text = false; per_line(i, [&](const std::string& l) { if (!cg_line(l)) text = true; return l; });
	if (!text) v.push_back({"blank lines", per_line(i, [](const std::string& l) { return l + "\n"; }), false});
	return v;
}
static std::string canon(const std::string& o) { return rstrip(del(o, '\r')); }
static void check(Ctx& c, const std::string& g, const SV& in, const impl::Args& args) {
	auto fail = [&](const std::string& what, std::map<std::string, std::string> kv) { survey_fail(c, g, what, kv); };
	describe(c, g, in[0], args);
	impl::GramP t; auto load = [&]() { impl::GramP r; try { r = impl::load(g, args); } catch (ExitCalled&) { (void)r.release(); } return r; };
	t = load(); if (!t) return;
	for (auto& i : in) {
		describe(c, g, i, args); if (i.find("\"<") > i.find("\t\"")) continue; // readings before the first cohort are text
		if (!usable(g, i, args)) continue;
		std::string base; try { base = impl::run(*t, i, args); } catch (ExitCalled&) { (void)t.release(); t = load(); if (!t) return; continue; }
		c.count(C_TRACES); c.outcome(base); if (base != i) c.nontrivial(fnv(g + "\x01" + i));
		for (auto& f : forms(i)) {
			if (f.text == i && !f.chunk) continue;
			if (!strcmp(f.name, "blank lines") && g.find("TEXT-DELIM") != std::string::npos) continue;
			describe(c, g, f.text, args, f.name); std::string o;
			try { if (f.chunk) { auto s = impl::chunked(i, std::vector<size_t>(i.size(), 1)); o = impl::run_stream(*t, *s, args); } else o = impl::run(*t, f.text, args); } catch (ExitCalled&) { (void)t.release(); return fail(std::string("the program exits: ") + f.name, {{"text", i}}); }
			c.count(C_TRANS); std::string want = canon(base);
			if (!strcmp(f.name, "blank lines")) { o = noblank(canon(o)); want = noblank(want); }
			else o = canon(o);
			if (o != want) return fail(std::string("the output differs: ") + f.name, {{"text", i}, {"plain", base}, {"with", o}});
		}
	}
}
// every line length around the sizes of the line buffer, in several shapes
static const std::vector<size_t>& lengths(bool thorough) {
	static std::vector<size_t> v; if (v.empty()) { auto add = [&](size_t a, size_t b) { for (; a <= b; ++a) v.push_back(a); }; if (thorough) add(1, 5000); else { add(500, 530); add(1000, 1050); add(1530, 1545); add(2030, 2070); add(3060, 3080); add(4085, 4105); } if (thorough) { add(8180, 8200); add(16370, 16390); add(32760, 32775); add(65520, 65545); } }
	return v;
}
static Space lengths_space(bool thorough) {
	auto& L = lengths(thorough);
	const size_t K = 9;
	return Space{"line-lengths", L.size() * K * 2, [&L, K](uint64_t idx, Ctx& c) {
		size_t n = L[idx % L.size()], k = idx / L.size() % K; bool second = idx / L.size() / K;
		std::string g = "DELIMITERS = \"<.>\" ;\nADD (t) (n) ;\nADD (u) (*) (-1 (t)) ;\n", pad, in, want;
		std::string pre = second ? "\"<w0>\"\n\t\"y\" n\n" : "", prew = second ? "\"<w0>\"\n\t\"y\" n t\n" : "", u = second ? " u" : "";
		auto rep = [](const std::string& s, size_t bytes) { std::string r; while (r.size() < bytes) r += s; return r; };
		switch (k) {
		case 0: pad = std::string(n, ' '); in = "\"<w>\"\n\t\"x\"" + pad + "n\n"; want = "\"<w>\"\n\t\"x\" n t" + u + "\n"; break; // one gap
		case 1: in = "\"<w>\"\n\t\"x\" n" + std::string(n, ' ') + "\n"; want = "\"<w>\"\n\t\"x\" n t" + u + "\n"; break;
		case 2: in = "\"<w>\"" + std::string(n, '\t') + "\n\t\"x\" n\n"; want = "\"<w>\"\n\t\"x\" n t" + u + "\n"; break;
		case 3: pad = std::string(n, 'q'); in = "\"<w>\"\n\t\"x\" n " + pad + "\n"; want = "\"<w>\"\n\t\"x\" n " + pad + " t" + u + "\n"; break; // one long tag
		case 4: pad = std::string(n, 'q'); in = "\"<" + pad + ">\"\n\t\"x\" n\n"; want = "\"<" + pad + ">\"\n\t\"x\" n t" + u + "\n"; break; // a long word form
		case 5: pad = rep(" v", n); in = "\"<w>\"\n\t\"x\" n" + pad + "\n"; want = "\"<w>\"\n\t\"x\" n" + pad + " t" + u + "\n"; break; // many tags
		case 6: pad = rep("ø", n) + (n % 2 ? "q" : ""); in = "\"<w>\"\n\t\"x\" n " + pad + "\n"; want = "\"<w>\"\n\t\"x\" n " + pad + " t" + u + "\n"; break;
		case 7: pad = std::string(n % 2, 'q') + rep("😀", n); in = "\"<w>\"\n\t\"x\" n " + pad + "\n"; want = "\"<w>\"\n\t\"x\" n " + pad + " t" + u + "\n"; break; // surrogate pairs over buffer ends
		case 8: pad = std::string(n, 'q'); in = "\"<w>\"\n\t\"x\" n\n" + pad + "\n"; want = "\"<w>\"\n\t\"x\" n t" + u + "\n" + pad + "\n"; break; // a line of text
		}
		in = pre + in + "\"<e>\"\n\t\"z\" n\n"; want = prew + want + "\"<e>\"\n\t\"z\" n t u\n";
		auto gp = impl::load(g); describe(c, g, in, {});
		std::string o = impl::run(*gp, in); c.count(C_TRANS); c.count(C_TRACES); c.outcome(o); c.nontrivial(fnv(in));
		if (noblank(o) != want) return survey_fail(c, g, "a long line is not read as one line", {{"length", std::to_string(n)}, {"shape", std::to_string(k)}, {"expected", want}, {"got", o}});
		// and the same at the end of the stream without a newline
		in = in.substr(0, in.rfind("\"<e>\"")); in.pop_back(); want = want.substr(0, want.rfind("\"<e>\"")); describe(c, g, in, {});
		o = impl::run(*gp, in); c.count(C_TRANS);
		if (rstrip(noblank(o)) != rstrip(want)) return survey_fail(c, g, "a long last line without newline is not read as one line", {{"length", std::to_string(n)}, {"shape", std::to_string(k)}, {"expected", want}, {"got", o}});
	}};
}
int main(int argc, char** argv) {
	return meta_main(argc, argv, "C19", "every input of every menu is read in several physical forms; lines of every length around the buffer sizes", "", [](bool thorough) { std::vector<Space> v{lengths_space(thorough), decl_space(check)}, w = corpus_spaces(thorough, "", 1, 4, check); v.insert(v.end(), w.begin(), w.end()); return v; });
}
