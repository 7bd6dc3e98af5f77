// WITH blocks (context references, marks, nested blocks) and PROTECT / UNPROTECT
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C14", "every WITH rule over the menu of targets and context lists x every inner rule of the menu, every pair (thorough: triple) of inner rules, every two-level nesting, with flags and following rules, on all small windows; every PROTECT/UNPROTECT rule combined with every kind of other rule", [](bool thorough) {
		std::vector<Space> v; std::string H = "DELIMITERS = \"<.>\" ;\nLIST N = n ;\n";
		SV tgt{"(d)", "(n)", "(*)", "(d) OR (n)"};
		SV ctx{"", "(1 (n))", "(-1 (a))", "(1* (n))", "(-1* (d)) (1* (n))", "(1* (n)) (-1 (*))", "(NOT 1 (d))", "(NOT 1 (d)) (1* (n))", "(NEGATE 1* (z)) (1 (*))", "(1X (n))", "(1* (a) LINK 1 (n))", "(1*w (a) LINK 1 (n))", "(1* (a) LINK 1w (n))", "(1* (a)X LINK 1 (n))", "(1* (n) OR (a)) (1** (n))", "((1 (n)) OR (-1 (a)))", "(0 (d)) (1 (*))", "(ALL 1* (*)) (1 (n))", "(1 (a)) (2 (n)) (3 (*))"};
		for (auto& c : ctx) if (c.find(")X") != std::string::npos) c = "(1*X (a) LINK 1 (n))";
		SV inner{"ADD (t) (*) ;", "ADD (u) _C1_ ;", "ADD (u2) _C2_ ;", "ADD (w) (*) (1* _C1_) ;", "ADD (w2) (*) (-1** _C2_) ;", "ADD (j) (*) (jC1 (*)) ;", "ADD (j2) (*) (jC2 (n)) ;", "ADD (m) (*) (0** _MARK_) ;", "ADD (jm) (*) (jM (*)) ;", "SETPARENT (*) TO (jC1 (*)) ;", "SETPARENT (*) TO (1* _C1_ OR _C2_) ;", "SETCHILD (*) TO (-1* _C1_ OR _C2_) (NOT p (*)) ;", "SETCHILD REPEAT (*) TO (0** _C1_ OR _C2_) (NOT p (*)) ;", "SETCHILD _C1_ TO (-1* (d)) ;", "REMOVE (n) ;", "SELECT (n) ;", "REMOVE _C1_ + (n) ;", "SUBSTITUTE (d) (e) (d) ;", "REMCOHORT (a) ;", "REMCOHORT _C1_ ;", "ADDCOHORT (\"<k>\" \"k\" q) AFTER (*) ;", "MOVE (*) AFTER (jC1 (*)) ;", "SWITCH (*) WITH (jC1 (*)) ;", "APPEND (\"z\" z) (*) ;", "MAP (@x) (*) (1 (n)) ;", "ADD (i) _C1_ (-1* (d)) ;", "ADD (tt) (*) (1* (n) LINK -1* _TARGET_) ;", "SETRELATION (r) (*) TO (jC1 (*)) ;", "COPY (c) (n) ;", "DELIMIT (d) ;", "SETVARIABLE (v) (1) (*) ;", "UNMAP (*) ;", "IFF (n) (jC1 (n)) ;", "ADD (vv) (*) (0 (VAR:v=1)) ;"};
		SV in = inputs({"_:x,d", "_:x,d _:y,n", "_:x,d _:y,a _:z,n", "_:x,a _:y,d _:z,n", "_:x,d|u,n _:y,n|v,a", "_:x,d _:y,d _:z,n _:q,n", "_:x,a _:y,d _:z,a _:q,n .:.,p", "_:x,n _:y,d|y,a _:z,n|z,d|z,a", "_:x,d,@q _:y,n .:.,p _:z,n _:q,a"});
		auto with = [&](const std::string& fl, const std::string& t, const std::string& c, const std::string& body) { return "WITH " + fl + t + " " + c + " {\n" + body + "\n} ;\n"; };
		SV one; for (auto& t : tgt) for (auto& c : ctx) for (auto& i : inner) one.push_back(H + with("", t, c, i));
		v.push_back(product("one_inner", one, in, {{}, {"--trace"}}));
		SV cx2{"", "(1* (n))", "(-1* (d)) (1* (n))", "(1X (n))", "(NOT 1 (d)) (1* (n))", "(1*w (a) LINK 1 (n))"};
		SV two; for (auto& t : {tgt[0], tgt[2]}) for (auto& c : cx2) for (auto& i : inner) for (auto& j : inner) two.push_back(H + with("", t, c, i + "\n" + j));
		v.push_back(product("two_inner", two, SV{in[1], in[2], in[4], in[5], in[6], in[7]}));
		SV fewi{inner[0], inner[1], inner[3], inner[5], inner[9], inner[12], inner[14], inner[17], inner[18], inner[23]};
		SV nest; for (auto& c : cx2) for (auto& c2 : {cx2[0], cx2[1], cx2[2]}) for (auto& i : fewi) for (auto& j : fewi) { nest.push_back(H + with("", "(d)", c, "WITH (*) " + c2 + " {\n" + i + "\n} ;\n" + j)); nest.push_back(H + with("", "(*)", c, i + "\nWITH _C1_ " + c2 + " {\n" + j + "\n} ;\nADD (aft) (*) ;")); }
		v.push_back(product("nested", nest, SV{in[1], in[2], in[5], in[6], in[7]}));
		SV flg; for (auto& f : SV{"REPEAT ", "ITERATE ", "NOITERATE ", "KEEPORDER ", "NEAREST ", "UNSAFE ", ""}) for (auto& i : fewi) for (auto& c : cx2) for (auto& k : SV{"ADD (k) (t) OR (z) OR (e) ;", "SUBSTITUTE (d) (e) (d) ;", "REMOVE (n) (p (*)) ;"}) { flg.push_back(H + "SECTION\n" + with(f, "(d)", c, i) + k + "\n"); flg.push_back(H + "SECTION\n" + k + "\n" + with(f, "(*)", c, i) + "SECTION\nADD (s2) (t) OR (e) ;\n"); }
		v.push_back(product("flags", flg, in));
		if (thorough) { SV tri; for (auto& i : inner) for (auto& j : fewi) for (auto& k : fewi) tri.push_back(H + with("", "(d)", "(1* (n))", i + "\n" + j + "\n" + k)); v.push_back(product("three_inner", tri, in)); }
		// what the inner rules did makes other rules, or the WITH itself, applicable
		SV grow{"ADD (t) (*) ;", "ADD (d) _C1_ ;", "ADD (d) _C2_ ;", "ADD (t) _C1_ ;", "SUBSTITUTE (a) (d) _C1_ ;", "APPEND (\"k\" d t) _C1_ ;", "ADDCOHORT (\"<k>\" \"k\" t) AFTER _C1_ ;", "ADDCOHORT (\"<k>\" \"k\" t) BEFORE (*) ;", "MAP (@t) (*) ;", "COPY (t) _C1_ ;", "JUMP (end) (*) ;", "JUMP (start) (*) (NOT 0 (t)) ;"};
		SV aft{"ADD (w) (t) ;", "ADD (w) (d) ;", "ADD (w) (t) (1* (t)) ;", "REMOVE (a) (0 (t)) ;", "MAP (@z) (d) (-1 (t)) ;", "SUBSTITUTE (t) (v) (t) ;"};
		SV then; for (auto& t : {tgt[0], tgt[3]}) for (auto& c : SV{"(1 (*))", "(-1 (*))", "(1* (n))", "(-1* (a)) (1* (*))", "(1 (*)) (2 (*))"}) for (auto& i : grow) for (auto& j : {grow[0], grow[1], grow[4], grow[6]}) for (auto& a : aft) then.push_back(H + "SECTION\n" + with("", t, c, i + "\n" + j) + "ANCHOR start ;\nADD (x1) (*) ;\n" + a + "\nANCHOR end ;\nADD (x2) (*) (0 (w)) ;\n");
		v.push_back(product("then", then, SV{in[1], in[2], in[3], in[5], in[6], in[7]}));
		// PROTECT
		SV pr{"PROTECT (a) ;", "PROTECT (a) (1 (n)) ;", "PROTECT (n) ;", "PROTECT (*) (-1 (d)) ;", "UNPROTECT (a) ;", "UNPROTECT (*) (1 (*)) ;", "UNPROTECT (n) (t (*)) ;"}; pr[6] = "UNPROTECT (n) (-1 (a)) ;";
		SV ot{"REMOVE (a) ;", "REMOVE (n) ;", "REMOVE UNSAFE (*) ;", "SELECT (a) ;", "SELECT (n) ;", "IFF (a) (1 (n)) ;", "IFF (n) (1 (d)) ;", "ADD (t) (*) ;", "MAP (@t) (a) ;", "REPLACE (\"x\" t) (*) ;", "SUBSTITUTE (a) (b) (*) ;", "SUBSTITUTE (n) (*) (*) ;", "UNMAP (*) ;", "APPEND (\"z\" z) (*) ;", "COPY (c) (a) ;", "COPY (c) (*) ;", "REMCOHORT (a) ;", "REMCOHORT (n) ;", "ADDCOHORT (\"<k>\" \"k\" n) AFTER (a) ;", "MOVE (a) AFTER (1 (*)) ;", "SETPARENT (a) TO (1 (*)) ;", "SETRELATION (r) (a) TO (1 (*)) ;", "DELIMIT (a) ;", "SETVARIABLE (v) (1) (a) ;", "ADD (vv) (*) (0 (VAR:v)) ;", "REMOVE DELAYED (a) ;", "RESTORE (a) (*) ;", "REMOVE IGNORED (n) ;", "SPLITCOHORT (\"<k>\" \"k\" kk 1->2 \"<l>\" \"l\" n 2->p) (a) (NOT 0 (kk)) ;", "MERGECOHORTS (\"<g>\" \"g\" n) (a) WITH (1 (*)) ;", "COPYCOHORT (cc) (a) TO AFTER (1 (*)) (NOT 0 (cc)) (NOT 1* (cc)) ;", "SWITCH (a) WITH (1 (*)) ;"};
		SV pin = inputs({"_:x,a", "_:x,a|x,n", "_:x,a _:y,n", "_:x,d _:y,a|z,n _:z,n", "_:x,a|y,n|z,d _:y,d", "_:x,a,@q|x,a,n _:y,n|y,a", "_:x,n _:y,a .:.,p _:z,a|z,n"});
		SV pg; for (auto& p : pr) for (auto& o : ot) { pg.push_back(H + p + "\n" + o + "\n"); pg.push_back(H + o + "\n" + p + "\n" + o + "\n"); pg.push_back(H + "SECTION\n" + o + "\n" + p + "\n"); for (auto& q : pr) pg.push_back(H + p + "\n" + q + "\n" + o + "\n"); for (auto& o2 : ot) if (p.compare(0, 2, "UN")) pg.push_back(H + p + "\n" + o + "\n" + o2 + "\n"); }
		v.push_back(product("protect", pg, pin, {{}, {"--trace"}}));
		SV pg3; for (auto& o : ot) for (auto& o2 : ot) pg3.push_back(H + "SECTION\nPROTECT (a) (1 (*)) ;\n" + o + "\nUNPROTECT (a) (1 (n)) ;\n" + o2 + "\n");
		v.push_back(product("unprotect", pg3, pin));
		// what jumps and references mean inside blocks within blocks
		SV jp; for (auto& j : SV{"jT", "jM", "jA", "jC1", "jC2", "jC3", ""}) for (auto& p : SV{"0", "1", "-1", "1*"}) for (auto& x : SV{"(n)", "(*) - (d)"}) jp.push_back("(" + j + p + " " + x + ")");
		SV rf{"_TARGET_", "_C1_", "_C2_", "_MARK_", "_ATTACHTO_"};
		for (auto& r : rf) { jp.push_back("(0 " + r + ")"); jp.push_back("(1* " + r + ")"); jp.push_back("(-1* " + r + ")"); }
		SV nj; for (auto& t : SV{"(*)", "(d)"}) for (auto& c : SV{"", "(1* (n))", "(-1* (d)) (1 (*))", "(1X (*))"}) for (auto& t2 : SV{"(*)", "(n)", "_C1_"}) for (auto& c2 : SV{"", "(-1 (*))", "(1* (d)X)"}) for (auto& j : jp) nj.push_back(H + with("", t, c, "WITH " + t2 + " " + (c2.find(")X") != std::string::npos ? "(1*X (d))" : c2) + " {\nADD (t) (*) " + j + " ;\n} ;\nADD (u) (*) " + j + " ;"));
		v.push_back(wide("nested_jumps", nj, SV{in[2], in[4], in[5], in[7]}));
		SV n3; for (auto& c : SV{"", "(1* (n))", "(1X (*))"}) for (auto& c2 : SV{"", "(-1 (*))", "(1X (d))"}) for (auto& c3 : SV{"", "(1* (*))"}) for (auto& j : jp) n3.push_back(H + with("", "(d)", c, "WITH (*) " + c2 + " {\nWITH (*) " + c3 + " {\nADD (t) (*) " + j + " ;\n} ;\nADD (u) (*) " + j + " ;\n} ;\n"));
		v.push_back(wide("thrice_nested", n3, SV{in[2], in[4], in[5], in[7]}));
		return v;
	});
}
