// Flow control: sections, anchors, JUMP, iteration flags, and command line selection of sections and rules
#include "zoo.hpp"
#include <cstring>
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C08", "all programs of up to 4 (thorough: 5) items over section headers, an anchor, and a menu of mutually enabling rules with every iteration flag and JUMP target, x inputs x command line selections of sections, runs, rules and rule kinds",
	[](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n";
		SV in = inputs({"_:x,a", "_:x,b|y,c _:x,a", "_:x,c _:x,b", "_:x,a|y,b|z,c .:p _:x,a"});
		SV head{"BEFORE-SECTIONS", "SECTION", "AFTER-SECTIONS", "NULL-SECTION", "SECTION s ;"};
		// a -> b -> c, c removable, k appendable; each rule enables another one
		SV rules{"SUBSTITUTE:sub (a) (b) (a) ;", "SUBSTITUTE ITERATE (b) (c) (b) ;", "ADD NOITERATE (q) (c) ;", "ADD ITERATE (r) (q) (NOT 0 (r)) ;", "SUBSTITUTE (q) (*) (q) (1 (q)) ;", "REMOVE:rem (c) ;", "SELECT REPEAT (b) ;", "APPEND (\"k\" a) (r) (NOT 0 (\"k\")) ;",
			"JUMP (sub) (b) ;", "JUMP (END) (c) ;", "JUMP (START) (a) ;", "JUMP (k) (*) (0 (a)) ;", "JUMP (rem) (q) ;", "ANCHOR k ;"};
		SV items = SV{"SECTION", "AFTER-SECTIONS", "BEFORE-SECTIONS", "NULL-SECTION"} + rules;
		SV few{"SECTION", "AFTER-SECTIONS", "SUBSTITUTE:sub (a) (b) (a) ;", "SUBSTITUTE ITERATE (b) (c) (b) ;", "ADD NOITERATE (q) (c) ;", "ADD ITERATE REPEAT (r) (q) (NOT 0 (r)) ;", "REMOVE:rem (c) ;", "JUMP (sub) (r) (NOT 0 (z)) ;", "JUMP (END) (c) ;", "SUBSTITUTE (q) (z) (q) ;"};
		// programs: the first item is a header; anchors and rule names unique (two named rules are fine, two anchors are not)
		auto prog = [&](const SV& it, int lo, int hi, const SV& hd) { SV o; for (auto& h : hd) for (auto& s : seqs(it, lo, hi, "\n")) { auto p1 = s.find("ANCHOR"); if (p1 != std::string::npos && s.find("ANCHOR", p1 + 1) != std::string::npos) continue; o.push_back(H + h + "\n" + s + "\n"); } return o; };
		SV none; std::vector<Space> v;
		v.push_back(product("programs3", prog(items, 1, 3, {"SECTION", "BEFORE-SECTIONS"}), in));
		v.push_back(product("programs4", prog(few, 4, thorough ? 5 : 4, {"SECTION"}), SV(in.begin(), in.begin() + 2)));
		// iteration flags: every flag on every rule kind, two sections
		SV fl{"", "ITERATE ", "NOITERATE ", "REPEAT ", "ITERATE REPEAT ", "NOITERATE REPEAT "};
		SV kinds; for (auto& f : fl) { for (auto& r : SV{"SUBSTITUTE % (a) (b) (a) ;", "ADD % (q) (b) (NOT 0 (q)) ;", "MAP % (@m) (q) ;", "REMOVE % (a) ;", "SELECT % (b) ;", "IFF % (b) (0 (c)) ;", "APPEND % (\"k\" c) (a) (NOT 0 (\"k\")) ;", "REPLACE % (c) (b) ;", "COPY % (w) (a) (NOT 0 (w)) ;"}) { std::string s = r; s.replace(s.find("% "), 2, f); kinds.push_back(s); } }
		SV two; for (auto& a : kinds) for (auto& b : kinds) { two.push_back(H + "SECTION\n" + a + "\n" + b + "\n"); two.push_back(H + "SECTION\n" + a + "\nSECTION\n" + b + "\n"); two.push_back(H + "BEFORE-SECTIONS\n" + a + "\nAFTER-SECTIONS\n" + b + "\n"); }
		v.push_back(product("iteration_flags", two, in));
		v.push_back(product("iteration_runs", two, SV(in.begin(), in.begin() + 2), {{"--single-run"}, {"--max-runs", "2"}}));
		// rules whose target failed are retried once the cohort changed in a way that can matter
		SV tg{"(b)", "(*) - (a)", "(c) - (a)", "(c) ^ (a)", "(\"y\")", "(\"Y\"i)", "(\"y.*\"r)", "(/q/r)", "(<N=5>)", "(<N>3>)", "(<N=MAX>) - (<N=1>)", "(<N<MAX>)", "(c ^a)", "(b c)", "(b) + (c)", "(b) OR (\"y\")", "(VAR:v)", "(@m)", "(\"<w1>\" b)", "(/^\"x\"__b/l)", "(META:/foo/r)", "b\\ c", "(a) - ((b) + (c))", "(b) + ((*) - (a))", "(* ^a)"};
		{ SV f; for (auto& x : tg) if (x.find('\\') == std::string::npos && x.find("META") == std::string::npos && x.find("(* ^") == std::string::npos && x.find("- ((") == std::string::npos && x.find("+ ((") == std::string::npos) f.push_back(x); tg = f; }
		SV act{"SUBSTITUTE ITERATE (a) (b) (a) ;", "SUBSTITUTE ITERATE (a) (*) (a) ;", "SUBSTITUTE ITERATE (\"x\") (\"y\") (a) ;", "SUBSTITUTE ITERATE (a) (<N=5>) (a) ;", "ADD ITERATE (b) (a) (NOT 0 (b)) ;", "APPEND ITERATE (\"y\" b c) (a) (NOT 0 (\"y\")) ;", "MAP ITERATE (@m) (a) ;", "SETVARIABLE (v) (1) (a) ;\nSUBSTITUTE ITERATE (a) (k) (a) ;", "REMOVE (a) ;", "SELECT (c) ;", "COPY ITERATE (\"y\" b) (a) (NOT 0 (\"y\")) ;", "REPLACE ITERATE (b c) (a) ;", "REMOVE (b) ;\nRESTORE ITERATE (b) (*) (NOT 0 (b)) ;", "IFF (a) (0 (b)) ;", "SELECT (a) ;\nRESTORE ITERATE (c) (*) (NOT 0 (c)) ;", "SUBSTITUTE ITERATE (\"<w1>\") (\"<v>\") (a) ;", "PROTECT (a) ;\nUNPROTECT ITERATE (*) ;\nSUBSTITUTE ITERATE (a) (b) (a) ;", "UNMAP ITERATE (a) ;"};
		SV rg; for (auto& t : tg) for (auto& a : act) for (auto& k : SV{"ADD (hit) % (NOT 0 (hit)) ;", "SUBSTITUTE (c) (d) % ;", "APPEND (\"n\") % (NOT 0 (\"n\")) ;", "REMOVE % ;", "SELECT % ;"}) { std::string r = k; r.replace(r.find('%'), 1, t); rg.push_back(H + "SECTION\n" + r + "\n" + a + "\n"); if (thorough) rg.push_back(H + "SECTION\n" + r + "\nSECTION\n" + a + "\n" + r + "\n"); }
		SV rin = inputs({"_:x,a", "_:x,a,c", "_:x,a,c|z,c", "_:x,a,c,<N=1> _:q,a", "_:x,a|y,<N=4>,b|z,c,b _:x,a,b", "_:x,@m,a|y,c _:x,b,c", "_:x,a,b|z,c _:y,c"});
		v.push_back(product("target_retry", rg, rin));
		// selections
		std::string base = H + "BEFORE-SECTIONS\nADD:b1 (p1) (*) ;\nSUBSTITUTE:b2 (p1) (p2) (a) ;\nSECTION one ;\nSUBSTITUTE:s1 (a) (b) (*) ;\nADD:s1 (q) (b) (NOT 0 (q)) ;\nSECTION two ;\nREMOVE:s2 (c) ;\nSUBSTITUTE ITERATE:x (b) (c) (*) ;\nSECTION\nMAP:m (@m) (q) ;\nAPPEND:m2 (\"k\" a) (c) (NOT 0 (\"k\")) ;\nJUMP:j (one) (a) (NOT 0 (b)) ;\nSECTION\nREPLACE (z) (p2) (NOT 0 (q)) ;\nAFTER-SECTIONS\nADD:a1 (end) (*) ;\nIFF:a2 (b) (0 (q)) ;\n";
		{ std::string s = base; auto p = s.find("ITERATE:x"); s.replace(p, 9, "ITERATE"); base = s; }
		SV gs{base}; { std::string s = base; for (const char* w : {"SECTION two ;\n", "SECTION\n"}) { auto p = s.find(w); s.erase(p, strlen(w)); gs.push_back(s); } }
		std::vector<impl::Args> sel;
		for (auto& s : SV{"1", "2", "3", "4", "9", "1-2", "2-3", "2,1", "3,1-2", "4,2,3", "1-4", "2-2", "1,1", "1,4"}) sel.push_back({"--sections", s});
		for (int i = 1; i <= 20; ++i) sel.push_back({"--rule", std::to_string(i)});
		for (auto& s : SV{"b1", "b2", "s1", "s2", "m", "m2", "j", "a1", "a2"}) sel.push_back({"--rule", s});
		for (auto& s : SV{"5", "6-9", "3,6,7", "3-7,12-20", "10-13", "17-18", "8-8", "3"}) sel.push_back({"--rules", s});
		for (auto& s : SV{"s", "1", "^s1$", "[abms]", "."}) { sel.push_back({"--nrules", s}); if (s != "[abms]" && s != ".") sel.push_back({"--nrules-v", s}); sel.push_back({"--nrules", ".", "--nrules-v", s}); }
		SV sw{"--no-mappings", "--no-corrections", "--no-before-sections", "--no-sections", "--no-after-sections", "--single-run", "--unsafe", "--no-magic-readings"};
		for (unsigned m = 1; m < 256; ++m) { impl::Args a; for (int i = 0; i < 8; ++i) if (m >> i & 1) a.push_back(sw[i]); sel.push_back(a); }
		for (int n = 1; n <= 4; ++n) { sel.push_back({"--max-runs", std::to_string(n)}); sel.push_back({"--max-runs", std::to_string(n), "--sections", "2,1"}); sel.push_back({"--max-runs", std::to_string(n), "--sections", "3,1-2"}); }
		for (int i = 3; i <= 20; ++i) sel.push_back({"--trace", std::to_string(i)});
		v.push_back(product("cli_selection", gs, in, sel));
		v.push_back(product("cli_selection_small", prog(few, 2, 3, {"SECTION", "BEFORE-SECTIONS"}), SV(in.begin(), in.begin() + 2), {{"--sections", "2"}, {"--sections", "2,1"}, {"--rule", "sub"}, {"--rules", "3-4"}, {"--rule", "5"}, {"--single-run"}, {"--max-runs", "2"}}));
		// every kind of rule before and after every other kind
		{
			SV z = zoo::menu(), zp, zt; for (auto& a : z) for (auto& b : z) { zp.push_back(zoo::head() + "SECTION\n" + a + "\n" + b + "\nANCHOR e ;\n"); zp.push_back(zoo::head() + "BEFORE-SECTIONS\n" + a + "\nSECTION\n" + b + "\nANCHOR e ;\n" + a + "\n"); }
			v.push_back(wide("rule_pairs", zp, zoo::texts() + zoo::parens()));
			v.push_back(wide("rule_pairs_traced", zp, SV{zoo::texts()[1], zoo::texts()[3]}, {{"--trace"}, {"--num-windows", "0", "--single-run"}}));
			for (size_t i = 0; i < z.size(); ++i) for (size_t j = 0; j < z.size(); ++j) for (size_t k = 0; k < z.size(); ++k) if (thorough || (i + j + k) % 17 == 3) zt.push_back(zoo::head() + "SECTION\n" + z[i] + "\n" + z[j] + "\n" + z[k] + "\nANCHOR e ;\n");
			v.push_back(wide("rule_triples", zt, SV{zoo::texts()[1], zoo::texts()[2], zoo::parens()[0]}));
		}
		return v;
	});
}
