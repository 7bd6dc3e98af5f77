// Tag editing: ADD, MAP, REPLACE, SUBSTITUTE, UNMAP, APPEND, COPY and mapping-tag handling
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C04", "every tag-editing rule form over tag-list, target, position and flag menus; all pairs of such rules in one or two sections; cohorts of 1-2 readings (with tags a,b,@m,@n and optional sub-readings)", [](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n";
		SV tl{"(c)", "(@p)", "(a)", "(c @p)", "(@p @q)", "(\"z\")", "(\"<q>\")", "(c d)", "(\"z\" c)", "(@m)", "(*)"}; tl.pop_back();
		SV tg{"(a)", "(*)", "(@m)", "(b)"};
		SV fl{"", "NOMAPPED ", "ITERATE ", "NEAREST ", "UNSAFE "};
		SV pos{"", "BEFORE (a) ", "AFTER (a) ", "BEFORE (b) ", "AFTER (\"x\") ", "AFTER (@m) ", "BEFORE (\"x\") ", "AFTER (a b) "};
		SV r;
		for (auto& k : SV{"ADD ", "MAP "}) for (auto& t : tl) { for (auto& p : pos) for (auto& g : tg) { if (p != "" && t.find("\"<") != std::string::npos) continue; r.push_back(k + t + " " + p + g + " ;\n"); } for (auto& g : tg) for (auto& f : fl) r.push_back(k + f + t + " " + g + " IF (NOT 0 (c)) ;\n"); }
		for (auto& t : tl) for (auto& g : tg) { r.push_back("REPLACE " + t + " " + g + " ;\n"); r.push_back("REPLACE " + t + " EXCEPT (b) " + g + " ;\n"); r.push_back("REPLACE " + t + " EXCEPT (a) " + g + " ;\n"); }
		SV sf{"(a)", "(b)", "(a b)", "(@m)", "(\"x\")", "(a @m)", "(*)", "(\"<w1>\")", "(/a|b/r)", "(b a)", "(\"x\"i)"}, st{"(c)", "(*)", "(@p)", "(c d)", "(\"z\")", "(a)", "(a c)", "(\"<q>\")", "(\"z\" c)"};
		for (auto& a : sf) for (auto& b : st) for (auto& g : SV{"(a)", "(*)"}) { r.push_back("SUBSTITUTE " + a + " " + b + " " + g + " ;\n"); for (auto& ps : SV{"BEFORE (a) ", "AFTER (b) "}) r.push_back("SUBSTITUTE " + a + " " + b + " " + ps + g + " ;\n"); }
		for (auto& g : SV{"(a)", "(*)", "(@m)"}) for (auto& f : SV{"", "UNSAFE ", "SAFE ", "UNMAPLAST "}) r.push_back("UNMAP " + f + g + " ;\n");
		for (auto& t : SV{"(\"z\" c)", "(\"z\" @p)", "(\"z\" a @m)", "(\"z\" \"<q>\" c)", "(\"x\" a b)"}) for (auto& g : tg) r.push_back("APPEND " + t + " " + g + " ;\n");
		for (auto& t : SV{"(c)", "(@p)", "(\"z\")", "(c d)", "(\"z\" c)"}) for (auto& g : tg) { for (auto& e : SV{"", "EXCEPT (b) ", "EXCEPT (a) ", "BEFORE (a) ", "AFTER (a) ", "AFTER (b) ", "EXCEPT (@m) "}) r.push_back("COPY " + t + " " + e + g + " ;\n"); }
		SV big;
		for (auto& x : r) big.push_back(H + "SECTION\n" + x);
		SV rd{"x,a", "x,b", "x,a,b", "x,a,@m", "x,b,a", "x,a,b,@m,@n", "y,b,@m"};
		SV one = cat("_:", rd), two; for (auto& a : rd) for (auto& b : rd) if (a != b) two.push_back("_:" + a + "|" + b);
		SV sub{"_:x,a/y,b", "_:x,b/y,a,@m", "_:x,a/y,b|x,b"};
		std::vector<Space> v;
		v.push_back(product("one_rule", big, inputs(one + two + sub), {{}, {"--trace"}}));
		// pairs: the second rule sees what the first one did
		SV p{"ADD (c) (a)", "ADD (@p) (*)", "MAP (@p) (a)", "MAP (@q) (*)", "MAP (@p @q) (*)", "REPLACE (c @p) (a)", "REPLACE (b) (*)", "SUBSTITUTE (a) (b) (*)", "SUBSTITUTE (b) (a c) (*)", "SUBSTITUTE (@m) (*) (*)", "SUBSTITUTE (*) (c) (b)", "UNMAP (*)", "UNMAP (a)", "APPEND (\"z\" a) (b)", "COPY (c) (a)", "COPY (@p) (*)", "REMOVE (c)", "REMOVE (@p)", "SELECT (a)", "SELECT (@p)", "REMOVE (a) IF (NOT 0 (c))", "ADD (d) (c)", "MAP (@r) (c)", "SUBSTITUTE (\"x\") (\"z\") (*)", "ADD (\"<q>\") (a)", "REMOVE (@m)", "SELECT (\"z\")", "ADD (e) (*) IF (-1 (c))", "MAP NOMAPPED (@r) (*)", "ADD (f) (*) IF (1 (@p))"};
		SV pp; for (auto& a : p) for (auto& b : p) { pp.push_back(H + "SECTION\n" + a + " ;\n" + b + " ;\n"); pp.push_back(H + "SECTION\n" + a + " ;\nSECTION\n" + b + " ;\n"); if (thorough) for (auto& c : p) pp.push_back(H + "SECTION\n" + a + " ;\n" + b + " ;\n" + c + " ;\n"); }
		SV in2 = inputs(SV{"_:x,a", "_:x,a|x,b", "_:x,a,b", "_:x,a,@m,@n", "_:x,b,@m", "_:x,a _:x,b", "_:x,a|y,b,@m _:x,b|x,a", "_:x,b/x,a", "_:x,a/y,b _:x,b", "_:x,a|x,a,b"});
		v.push_back(product("rule_pairs", pp, in2, {{}, {"--trace"}}));
		SV bp{"BEFORE-SECTIONS\nADD (c) (a) ;\nSECTION\nMAP (@p) (c) ;\nAFTER-SECTIONS\nREMOVE (@p) ;\n", "BEFORE-SECTIONS\nMAP (@p @q) (a) ;\nSECTION\nREMOVE (@p) ;\n", "SECTION\nMAP (@p @q) (a) ;\nSELECT (@q) ;\nAFTER-SECTIONS\nADD (zz) (@q) ;\n", "REOPEN-MAPPINGS = @p ;\nSECTION\nMAP (@q) (a) ;\n", "REOPEN-MAPPINGS = @m ;\nSECTION\nMAP (@q) (a) ;\nMAP (@r) (*) ;\n", "MAPPING-PREFIX = % ;\nSECTION\nMAP (%p %q) (a) ;\nREMOVE (%p) ;\n", "MAPPING-PREFIX = % ;\nSECTION\nMAP (%p %q @z) (a) ;\nADD (@m %r) (b) ;\n"};
		v.push_back(product("mapping_setup", cat(H, bp), inputs(one + two + sub + SV{"_:x,a,%k,%l", "_:x,a,@m,%k"}), {{}, {"--trace"}, {"--single-run"}}));
		// sub-reading qualified editing
		SV sr; for (auto& s : SV{"SUB:0 ", "SUB:1 ", "SUB:-1 ", "SUB:2 "}) for (auto& x : SV{"ADD %(c) (a) ;\n", "ADD %(c) (*) ;\n", "MAP %(@p) (b) ;\n", "REPLACE %(c) (a) ;\n", "SUBSTITUTE %(a) (c) (*) ;\n", "SUBSTITUTE %(b) (*) (*) ;\n", "UNMAP %(*) ;\n", "COPY %(c) (a) ;\n", "ADD %(c) AFTER (a) (*) ;\n"}) { std::string y = x; y.replace(y.find('%'), 1, s); sr.push_back(H + "SECTION\n" + y); sr.push_back(H + "SUBREADINGS = LTR ;\nSECTION\n" + y); }
		v.push_back(product("sub_readings", sr, inputs(SV{"_:x,a", "_:x,a/y,b", "_:x,b/y,a", "_:x,a/y,b/z,a", "_:x,a/y,a|x,b", "_:x/y,b/z,b,a", "_:x,a,@m/y,b,@n"})));
		// cohorts without readings, several identical readings, positions of several tags
		SV er; for (auto& x : SV{"APPEND (\"z\" c) (*)", "APPEND (\"z\" c \"y\" d) (*)", "APPEND (\"z\" @p @q) (*)", "ADD (c) (*)", "MAP (@p) (*)", "COPY (c) (*)", "REPLACE (\"z\" c) (*)", "SUBSTITUTE (*) (c) (*)", "REMOVE (*)", "SELECT (*)", "UNMAP (*)", "COPY (c) AFTER (a b) (*)", "COPY (c d) BEFORE (a b) (*)", "COPY (c @p) AFTER (\"x\" a) (*)", "COPY (c) EXCEPT (a b) AFTER (d) (*)", "ADD (c d) AFTER (a b) (*)", "ADD (c d) BEFORE (a b) (*)", "MAP (c @p) AFTER (a b) (*)", "SUBSTITUTE (a b) (c d) AFTER (d) (*)", "REPLACE (c d) EXCEPT (a b) (*)"}) for (auto& q : SV{"", "ADD (hc) (*) (0C (*)) ;\n", "ADD (hz) (*) (1C (c)) ;\n", "SELECT (c) ;\n", "ADD (one) (*) (NOT 0 (a)) ;\n", "APPEND (\"k\" k) (*) ;\n", "REMOVE (c) ;\n", "ADD (t) (a) ;\nUNMAP (c) ;\n"}) { er.push_back(H + x + " ;\n" + q); er.push_back(H + "BEFORE-SECTIONS\n" + x + " ;\nSECTION\n" + q + x + " ;\n"); }
		SV ei; for (auto& a : SV{"\"<w>\"\n", "\"<w>\" st\n", "\"<w>\"\n\t\"x\" a b d\n", "\"<w>\"\n\t\"x\" b a b d\n", "\"<w>\"\n\t\"x\" a b\n\t\"x\" a b\n\t\"y\" a\n", "\"<w>\"\n\t\"x\" d a b\n\t\t\"y\" a b\n", "\"<w>\"\n\t\"x\" a c b @m\n\t\"x\" d\n"}) for (auto& b : SV{"", "\"<v>\"\n", "\"<v>\"\n\t\"z\" c\n", "\"<v>\"\n\t\"x\" a b d\n\t\"z\" c\n"}) { ei.push_back(a + b); ei.push_back(b + a); }
		v.push_back(product("empty_and_repeated", er, ei, {{}, {"--trace"}}));
		return v;
	});
}
