// No damage to a stream makes the program crash, hang or use memory it does not own (built with ASAN and UBSAN)
#include "explore.hpp"
#include "impl.hpp"
#include <map>
#include <sstream>
using impl::Fmt; using SV = std::vector<std::string>;
static const struct { const char* name; Fmt f; const char *in, *out; } FMTS[] = {
	{"cg", impl::F_CG, "--in-cg", "--out-cg"}, {"jsonl", impl::F_JSONL, "--in-jsonl", "--out-jsonl"}, {"niceline", impl::F_NICELINE, "--in-niceline", "--out-niceline"}, {"fst", impl::F_FST, "--in-fst", "--out-fst"},
	{"apertium", impl::F_APERTIUM, "--in-apertium", "--out-apertium"}, {"binary", impl::F_BINARY, "--in-binary", "--out-binary"}, {"plain", impl::F_PLAIN, "--in-plain", "--out-plain"}};
static const char* GRAMMARS[] = {
	// looks at everything a stream can contain
	"DELIMITERS = \"<.>\" ;\nSOFT-DELIMITERS = \"<,>\" ;\nPARENTHESES = (\"<(>\" \"<)>\") ;\nLIST N = n ;\nBEFORE-SECTIONS\nWITH (dup) (NOT 0 (used)) {\n\tADDCOHORT (\"<new>\" \"new\" n) AFTER (*) ;\n\tADD (used) (*) ;\n} ;\nCOPY (cpy) (n) (NOT 0 (cpy)) ;\nMOVE WITHCHILD (*) (v) BEFORE WITHCHILD (*) (-1* (n)) ;\nSECTION\nADD (t1) (\"<a.*>\"r) ;\nADD (t2) (<num>3>) ;\nADD (t3) (*) (-1W (*)) (1W (*)) ;\nADD (t4) (*) (p (*)) ;\nADD (t5) (*) (c* (*)) ;\nADD (t6) (*) (r:r (*)) ;\nADD (t7) (VAR:v) ;\nADD (t8) (VAR:w=1) ;\nADD (t9) (/a\\ .*/l) ;\nSUBSTITUTE (n) (m VSTR:\"$1x\") (\"(.*)\"r N) ;\nMAP (@a) (n) ;\nMAP (@b @c) (v) ;\nSELECT (@a) (1 (v)) ;\nADD SUB:1 (u) (*) ;\nSETPARENT (a) TO (1* (n)) ;\nADDRELATION (r) (n) TO (1* (v)) ;\nREMCOHORT IGNORED (del) ;\nDELIMIT (cut) ;\nADD (m1) (META:/x/r) ;\n",
	// does nothing
	"DELIMITERS = \"<.>\" ;\nLIST N = n ;\nADD (nope) (nope) ;\n"};
struct Base { std::string name, s; };
static const SV CG = {
	"text\n\"<ab>\"\n\t\"a\" n <num=4> @a #1->2\n\t\"a\" v @x\n\"<.>\"\n\t\".\" p #2->0\n",
	"\"<w>\" <st>\n\t\"b\" n ID:1 R:r:2\n\t\t\"c\" v\n\t\t\t\"d\"\n;\t\"e\" gone\n mid\n\"<,>\"\n\t\",\" p ID:2\n<STREAMCMD:FLUSH>\n\"<x>\"\n\t\"x\" v\n",
	"<STREAMCMD:SETVAR:v,w=1>\n\"<(>\"\n\t\"(\" del\n\"<i>\"\n\t\"i\" n dup\n\"<)>\"\n\t\")\"\n<STREAMCMD:REMVAR:v>\n<STREAMCMD:IGNORE>\n\"<q>\"\n\t\"q\" n\n<STREAMCMD:RESUME>\n\"<c>\"\n\t\"c\" cut\n\"<d>\"\n\t\"d\" v\n",
	"\"<a>\"\n\t\"a\" n #4294967295->4294967294 ID:4294967295 R:r:4294967294 <num=99999999999999999999>\n\"<b>\"\n\t\"b\" v #4294967294->4294967295 ID:4294967294 R:r:4294967295 R::1 R:r: ID: #->\n"};
static std::vector<Base> bases(size_t f) {
	std::vector<Base> v;
	for (size_t i = 0; i < CG.size(); ++i) v.push_back({"cg" + std::to_string(i), FMTS[f].f == impl::F_CG ? CG[i] : impl::convert(CG[i], impl::F_CG, FMTS[f].f)});
	switch (FMTS[f].f) {
	case impl::F_FST: v.push_back({"own", "ab\ta+n+@a#b+v\t0,5\nab\ta+v\tinf\nab\ta+v\t3e38\n\n<s>\nx\tx+?\n\n.\t.+p\n\n"}); break;
	case impl::F_APERTIUM: v.push_back({"own", "[<b>]^ab/a<n><@a>+b<v>/*ab$ [[t:i:x]]^w/x<v># y/x<n>$\\^[[/]]^z$^./.<p>$\n"}); break;
	case impl::F_JSONL: v.push_back({"own", "{\"w\":\"ab\",\"sts\":[\"s\"],\"z\":\" \",\"ds\":1,\"dp\":2,\"rs\":[{\"l\":\"a\",\"ts\":[\"n\",\"@a\"],\"s\":{\"l\":\"b\"}}],\"drs\":[{\"l\":\"e\"}]}\n{\"t\":\"\\u00e6\"}\n{\"cmd\":\"FLUSH\"}\n{\"w\":\".\",\"rs\":[]}\n"}); v.push_back({"own2", "{\"w\":\"ab\",\"ds\":4294967295,\"dp\":4294967294,\"rs\":[{\"l\":\"\",\"ts\":[\"\"]}]}\n{\"w\":\"b\",\"ds\":-1,\"dp\":1e9,\"rs\":{},\"drs\":[1,[]]}\n{\"w\":\"c\",\"rs\":[{\"ts\":{\"a\":[]},\"s\":[]}],\"sts\":\"x\"}\n"}); break;
	case impl::F_NICELINE: v.push_back({"own", "ab\t[a] n @a #1->2\t[a] v\nx\t\n.\t[.] p <num=4>\n"}); break;
	case impl::F_PLAIN: v = {{"own", "Ab, (cd) ab.\n\nx 3 \xc3\xa6.\n"}}; break;
	default: break;
	}
	return v;
}
static SV subs(Fmt f) {
	if (f == impl::F_BINARY) return {std::string(1, 0), "\x01", "\x02", "\x7f", "\x80", "\xff", "\xfe", "+", "-", "^"};
	return {std::string(1, 0), "\n", " ", "\t", "\"", "<", ">", "#", "/", "\\", ":", "@", "+", "$", "[", "{", "}", ",", "9", "\xff", "\xc3"};
}
static std::string repl(const std::string& b, size_t at, const std::string& s, Fmt f) {
	std::string r = b; if (f == impl::F_BINARY && s == "+") ++r[at]; else if (f == impl::F_BINARY && s == "-") --r[at]; else if (f == impl::F_BINARY && s == "^") r[at] ^= 0x20; else r[at] = s[0]; return r;
}
static void one(Ctx& c, size_t f, const std::string& stream, int gi, int how) {
	std::string shown; for (unsigned char ch : stream) if (ch >= 32 || ch == '\n' || ch == '\t') shown += char(ch); else { char b[8]; snprintf(b, 8, "\\x%02x", ch); shown += b; }
	c.describe(std::string("format: ") + FMTS[f].name + "\nrun: " + (how == 0 ? "vislcg3, output in CG" : how == 1 ? "vislcg3, output in the same format" : how == 2 ? "cg-conv to CG" : how == 3 ? "cg-conv, format detected" : "vislcg3 --trace --num-windows 0") + "\n---- grammar\n" + (how == 2 || how == 3 ? "" : GRAMMARS[gi]) + "---- stream\n" + shown);
	std::string out; c.count(C_TRANS);
	try {
		if (how >= 2 && how <= 3) out = impl::convert(stream, how == 2 ? FMTS[f].f : impl::F_AUTO, impl::F_CG);
		else {
			static std::map<int, impl::GramP> g; // a grammar that was left in the middle of a run is not used again
			auto& t = g[gi]; if (!t) t = impl::load(GRAMMARS[gi]);
			impl::Args a{FMTS[f].in}; if (how == 1) a.push_back(FMTS[f].f == impl::F_PLAIN ? "--out-cg" : FMTS[f].out); if (how == 4) a.insert(a.end(), {"--trace", "--num-windows", "0", "--dep-delimit"});
			try { out = impl::run(*t, stream, a); } catch (...) { (void)t.release(); throw; }
		}
		c.outcome(out);
	}
	catch (ExitCalled& e) { if (e.code == 0) c.fail("exits with 0 on damaged input"); c.outcome("exit"); c.count(C_USER0); }
	catch (CaseFail&) { throw; }
	catch (std::exception& e) { c.outcome(std::string("refused: ") + e.what()); c.count(C_USER0); } // invalid UTF-8, for one
	c.count(C_TRACES); c.nontrivial(fnv(stream));
}
int main(int argc, char** argv) {
	setenv("ASAN_OPTIONS", "detect_leaks=0", 0);
	CheckDef d; d.property = "C22"; d.level = "fault_enumeration"; d.rule = "a damaged stream counts by its content";
	d.assumptions = {"refusing a stream (an error message and exit code 1, or an exception for bytes that are not UTF-8) is a correct answer", "the sanitizers see every use of memory that is not owned"};
	d.extra_counters = {{"runs", C_TRANS}, {"refused", C_USER0}};
	impl::init();
	return explore_main(argc, argv, d, [](bool thorough) {
		std::vector<Space> v;
		for (size_t f = 0; f < sizeof(FMTS) / sizeof(FMTS[0]); ++f) for (auto& b : bases(f)) {
			auto add = [&](const std::string& what, size_t n, std::function<std::string(size_t)> mk) {
				int hows = thorough ? 7 : what == "change_byte" || what == "insert_byte" ? 2 : 3; Space s; s.name = std::string(FMTS[f].name) + "." + b.name + "." + what; s.size = n * hows; s.chunk = 200; s.timeout = 15; s.exit_ok = true;
				s.fn = [=](uint64_t i, Ctx& c) { int h = int(i % hows); std::string x = mk(i / hows);
					static const int how[7] = {1, 2, 0, 4, 3, 0, 1}, gr[7] = {0, 0, 1, 0, 0, 0, 1}; one(c, f, x, gr[h], how[h]); };
				v.push_back(s);
			};
			std::string s = b.s; size_t n = s.size(); SV sub = subs(FMTS[f].f); Fmt ff = FMTS[f].f;
			add("cut", n + 1, [=](size_t i) { return s.substr(0, i); });
			add("cut_front", n + 1, [=](size_t i) { return s.substr(i); });
			add("drop_byte", n, [=](size_t i) { return s.substr(0, i) + s.substr(i + 1); });
			add("double_byte", n, [=](size_t i) { return s.substr(0, i) + s[i] + s.substr(i); });
			add("change_byte", n * sub.size(), [=](size_t i) { return repl(s, i / sub.size(), sub[i % sub.size()], ff); });
			if (ff != impl::F_BINARY) {
				add("insert_byte", (n + 1) * sub.size(), [=](size_t i) { size_t k = i / sub.size(); return s.substr(0, k) + sub[i % sub.size()][0] + s.substr(k); });
				SV ln; { std::istringstream is(s); std::string l; while (std::getline(is, l)) ln.push_back(l + "\n"); }
				size_t m = ln.size();
				auto join = [](const SV& l) { std::string r; for (auto& x : l) r += x; return r; };
				add("move_line", m * m, [=](size_t i) { SV l = ln; std::string x = l[i / m]; l.erase(l.begin() + i / m); l.insert(l.begin() + std::min(i % m, l.size()), x); return join(l); });
				add("double_line", m * m, [=](size_t i) { SV l = ln; l.insert(l.begin() + i % m, ln[i / m]); return join(l); });
				add("drop_lines", m * m, [=](size_t i) { SV l; for (size_t k = 0; k < m; ++k) if (k < std::min(i / m, i % m) || k > std::max(i / m, i % m)) l.push_back(ln[k]); return join(l); });
			}
			else {
				size_t pr = thorough ? n * n : 0; // pairs of changed bytes
				if (pr) add("change_two", pr, [=](size_t i) { std::string r = s; r[i / n] ^= char(0x80); r[i % n] = char(0xff); return r; });
				add("splice", n, [=](size_t i) { return s.substr(0, i) + s.substr(n / 2); });
			}
		}
		return v;
	});
}
