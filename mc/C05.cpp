// Cohort operations: ADDCOHORT, REMCOHORT, COPYCOHORT, SPLITCOHORT, MERGECOHORTS, MOVE, SWITCH, DELIMIT
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C05", "every cohort-changing rule form over menus of targets, contexts, positions and WITHCHILD/NOCHILD; all pairs of such rules; windows of 1-4 cohorts, also with dependencies and trailing text", [](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n";
		SV alpha{"_:x,a", "_:x,b", "_:x,a|x,b"};
		SV in4 = inputs(seqs(alpha, 1, 4)), in3 = inputs(seqs(alpha, 1, 3));
		// with dependencies and text between cohorts
		SV dep; for (auto& s : SV{"_:x,a,#1->0 _:x,b,#2->1 _:x,a,#3->2", "_:x,b,#1->3 _:x,a,#2->3 _:x,b,#3->0", "_:x,a,#1->2 _:x,b,#2->0 _:x,a,#3->4 _:x,b,#4->2", "_:x,a !text1 _:x,b !text2 _:x,a !text3", "_:x,a,#1->0 _:x,a,#2->1 !t _:x,b,#3->2 .:p,#4->1 _:x,a,#1->2 _:x,b,#2->0", "_:x,b .:p _:x,a _:x,b .:p", "_:x,a|x,a,c _:x,b/y,a _:x,a"}) dep.push_back(s);
		SV in = inputs(dep);
		auto G = [&](const SV& r) { return cat(H + "SECTION\n", r, " ;\n"); };
		SV tg{"(a)", "(b)", "(*)"};
		SV cx{"(1 (b))", "(-1 (a))", "(1* (a))", "(-1* (b))", "(2 (*))", "(1* (*) LINK 1 (b))", "(-1 (*))", "(1** (a))"};
		SV wc{"", "WITHCHILD (*) ", "WITHCHILD (a) ", "NOCHILD "};
		SV mv; for (auto& t : tg) for (auto& c : cx) { for (auto& w : wc) for (auto& w2 : wc) { mv.push_back("MOVE " + w + t + " BEFORE " + w2 + c); mv.push_back("MOVE " + w + t + " AFTER " + w2 + c); } mv.push_back("SWITCH " + t + " WITH " + c); mv.push_back("MOVE " + t + " IF (0 (b)) AFTER " + c); mv.push_back("SWITCH " + t + " IF (NOT 0 (a)) WITH " + c); }
		SV ac; for (auto& t : tg) for (auto& b : SV{"BEFORE ", "AFTER "}) { for (auto& tl : SV{"(\"<n>\" \"n\" N)", "(\"<n>\" \"n\" N \"m\" M)", "(\"<n>\" \"n\" @p @q)", "(\"<n>\" \"n\")"}) for (auto& w : SV{"", "WITHCHILD (*) ", "NOCHILD "}) for (auto& c : SV{"", " IF (NOT -1 (N)) (NOT 1 (N))", " IF (1 (b))"}) if (c != " IF (1 (b))" || t != "(*)") ac.push_back("ADDCOHORT " + tl + " " + b + w + t + c); ac.push_back("REMCOHORT " + t); for (auto& w : SV{"WITHCHILD (*) ", "WITHCHILD (a) ", "NOCHILD "}) ac.push_back("REMCOHORT " + w + t); ac.push_back("REMCOHORT " + t + " IF (1 (b))"); ac.push_back("REMCOHORT " + t + " IF (-1 (a))"); ac.push_back("REMCOHORT IGNORED " + t); ac.push_back("REMCOHORT IGNORED " + t + " IF (-1 (a))"); ac.push_back("DELIMIT " + t); ac.push_back("DELIMIT " + t + " IF (1 (b))"); }
		SV cc; for (auto& t : tg) for (auto& tl : SV{"(N)", "(\"<n>\" N)", "(\"n\" N @p)"}) for (auto& c : cx) for (auto& b : SV{"BEFORE ", "AFTER "}) for (auto& e : SV{"", "EXCEPT (a) ", "EXCEPT (\"x\") "}) { cc.push_back("COPYCOHORT " + tl + " " + e + t + " TO " + b + c); }
		for (auto& t : tg) for (auto& c : SV{"(1 (b))", "(-1* (a))"}) for (auto& w : wc) for (auto& w2 : wc) cc.push_back("COPYCOHORT (N) " + w + t + " TO AFTER " + w2 + c);
		SV sp; for (auto& t : tg) for (auto& x : SV{"(\"<p>\" \"p\" P)", "(\"<p>\" \"p\" P c->p)", "(\"<p>\" \"p\" P \"<q>\" \"q\" Q)", "(\"<p>\" \"p\" P 1->0 \"<q>\" \"q\" Q 2->1)", "(\"<p>\" \"p\" P 1->2 \"<q>\" \"q\" Q 2->p)", "(\"<p>\" \"p\" P c->2 \"<q>\" \"q\" Q 2->p)", "(\"<p>\" * \"<q>\" \"q\" Q)", "(\"<p>\" \"p\" P \"p2\" P2 \"<q>\" \"q\" Q \"<r>\" \"r\" R)", "(\"<p>\" \"p\" P 1->2 \"<q>\" \"q\" Q 2->3 \"<r>\" \"r\" R c->p)", "(\"<p>\" \"p\" R:rel \"<q>\" \"q\" Q)"}) { if (x.find("R:") != std::string::npos || x.find(" * ") != std::string::npos) continue; sp.push_back("SPLITCOHORT " + x + " " + t + " IF (NOT 0 (P) OR (Q) OR (R))"); sp.push_back("SPLITCOHORT " + x + " " + t + " IF (1 (b)) (NOT 0 (P) OR (Q) OR (R))"); }
		SV mg; for (auto& t : tg) for (auto& x : SV{"(\"<m>\" \"m\" M)", "(\"<m>\" \"m\" M \"k\" K)", "(\"<m>\" \"m\" @p)"}) for (auto& c : SV{"(1 (b))", "(1 (*)) (2 (a))", "(-1 (a))", "(1* (b))", "(-1 (*)) (1 (*))"}) mg.push_back("MERGECOHORTS " + x + " " + t + " WITH " + c);
		std::vector<Space> v;
		SV all = G(mv + ac + cc + sp + mg);
		v.push_back(product("moves", G(mv), thorough ? in4 : in3 + inputs(SV{"_:x,a _:x,b _:x,a _:x,b", "_:x,b _:x,b _:x,a _:x,a", "_:x,a|x,b _:x,a _:x,b _:x,b"})));
		v.push_back(product("add_remove", G(ac), in4, {{}, {"--trace"}}));
		v.push_back(product("copy", G(cc), in3));
		v.push_back(product("split_merge", G(sp + mg), in4));
		v.push_back(product("with_dependencies", all, in));
		// two rules: cohort changes followed by tests that look at the new arrangement
		SV p{"MOVE (a) AFTER (1 (b))", "MOVE (b) BEFORE (-1* (a))", "SWITCH (a) WITH (1* (b))", "ADDCOHORT (\"<n>\" \"n\" N) AFTER (a) IF (NOT 1 (N))", "ADDCOHORT (\"<n>\" \"n\" N) BEFORE (b) IF (NOT -1 (N))", "REMCOHORT (a) IF (1 (b))", "REMCOHORT (b)", "REMCOHORT IGNORED (a) IF (1 (b))", "COPYCOHORT (N) (a) TO AFTER (1 (b))", "SPLITCOHORT (\"<p>\" \"p\" P 1->2 \"<q>\" \"q\" Q 2->p) (a)", "MERGECOHORTS (\"<m>\" \"m\" M) (a) WITH (1 (b))", "DELIMIT (a)", "DELIMIT (b) IF (1 (a))", "ADD (c) (*) IF (-1 (a))", "ADD (d) (*) IF (1* (b) BARRIER (a))", "ADD (e) (*) IF (-1* (N))", "SELECT (a) IF (1 (b))", "REMCOHORT (N)", "MOVE (N) BEFORE (-1* (a))", "ADD (f) (*) IF (1 (Q) OR (M))", "REMOVE (b) IF (-1 (b))", "ADD (g) (*) IF (@1 (a))", "ADD (h) (*) IF (p (a))", "ADD (i) (*) IF (c (b))"};
		SV pp; for (auto& a : p) for (auto& b : p) { pp.push_back(H + "SECTION\n" + a + " ;\n" + b + " ;\n"); pp.push_back(H + "BEFORE-SECTIONS\n" + a + " ;\nSECTION\n" + b + " ;\n"); if (thorough) for (auto& c : p) pp.push_back(H + "BEFORE-SECTIONS\n" + a + " ;\n" + b + " ;\nSECTION\n" + c + " ;\n"); }
		v.push_back(product("rule_pairs", pp, in + inputs(seqs(SV{"_:x,a", "_:x,b"}, 2, 4))));
		// cohorts with static tags, sub-readings, mapping tags, relations, dependencies and text, and rules that look at what has been copied
		auto feat = [](int k, int n, const std::string& d, const std::string& rl) { std::string w = "\"<w" + std::to_string(n) + ">\"", t = (d.empty() ? "" : " " + d) + (rl.empty() ? "" : " " + rl) + "\n"; switch (k) {
			case 0: return w + "\n\t\"x\" a" + t;
			case 1: return w + " st\n\t\"x\" b" + t;
			case 2: return w + "\n\t\"x\" a c" + t + "\t\t\"y\" b c\n\t\t\t\"q\" e\n";
			case 3: return w + "\n\t\"x\" a @m" + t + "\t\"x\" b @n" + t;
			case 4: return w + " s2 st\n\t\"x\" a b" + t + "\t\"z\" c" + t + "text\n";
			default: return w + (d.empty() && rl.empty() ? std::string("\n") : "\n\t\"x\" e" + t); } };
		SV fi; for (auto& d : std::vector<SV>{{"", "", ""}, {"#1->2", "#2->0", "#3->2"}, {"#1->0", "#2->1", "#3->2"}, {"#1->3", "#2->1", "#3->0"}}) for (auto& r : std::vector<SV>{{"", "", ""}, {"ID:1 R:r:2", "ID:2 R:s:3", "ID:3 R:r:1 R:r:2"}}) for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int c : {0, 4}) { if (!thorough && (a + b + c) % 2) continue; fi.push_back(feat(a, 1, d[0], r[0]) + feat(b, 2, d[1], r[1]) + feat(c, 3, d[2], r[2])); }
		SV fr{"COPYCOHORT (N) (a) TO AFTER (1 (b))", "COPYCOHORT (N) AFTER (a) FROM (1 (b))", "COPYCOHORT (N) (a) TO BEFORE (-1* (*))", "COPYCOHORT (N @p) BEFORE (a) FROM (1* (c))", "COPYCOHORT (N) AFTER (*) FROM (-1 (st) OR (c))", "COPYCOHORT (N) EXCEPT (a) (st) TO AFTER (1* (*))", "COPYCOHORT (N) EXCEPT (c @m) (*) TO AFTER (1 (*))", "COPYCOHORT (\"<n>\" N) EXCEPT (b c) (a) TO AFTER (-1 (*))", "COPYCOHORT (N) (a) TO AFTER (1* (b)) (-1 (a))", "COPYCOHORT (N) (a) TO AFTER (1* (*)) (0 _MARK_)", "COPYCOHORT (N) (a) TO BEFORE (1* (*)) (-1 _TARGET_) (jM-1 (a))", "COPYCOHORT (N) (b) TO AFTER (-1* (*)) (1* _MARK_)",
			"SPLITCOHORT (\"<p>\" \"p\" * \"<q>\" \"q\" Q) (*)", "SPLITCOHORT (\"<p>\" \"p\" P 1->2 \"<q>\" \"q\" * 2->p) (a)", "SPLITCOHORT (\"<p>\" \"p\" P R:* \"<q>\" \"q\" * c->p) (*)", "SPLITCOHORT (\"<p>\" \"p\" P d->m \"<q>\" \"q\" Q 2->1 \"<s>\" \"s\" S R:* 3->1) (b)", "SPLITCOHORT (\"<p>\" \"p\" @p @q \"<q>\" \"q\" * @r) (st)",
			"MERGECOHORTS (\"<m>\" \"m\" M) (a) WITH (1 (*))", "MERGECOHORTS (\"<m>\" \"m\" *) (a) WITH (1* (b))", "MERGECOHORTS (\"<m>\" \"m\" M @p @q) (*) WITH (-1 (*)) (1 (*))", "MOVE (a) AFTER (1* (st))", "MOVE WITHCHILD (*) (b) BEFORE (-1* (*))", "SWITCH (a) WITH (1* (c))", "REMCOHORT (st)", "REMCOHORT IGNORED (a)", "REMCOHORT IGNORED WITHCHILD (*) (b)", "ADDCOHORT (\"<n>\" \"n\" N @p) BEFORE (st)", "ADDCOHORT (\"<n>\" \"n\" N \"k\" K) AFTER (c)", "DELIMIT (b) (1 (*))"};
		SV fp{"", "ADD (hc) (*) (c (*)) ;\n", "ADD (hp) (*) (p (a) OR (Q) OR (M)) ;\n", "ADD (hr) (*) (r:* (*)) ;\nADD (hs) (st) ;\n", "ADD (hn) (*) (1 (N) OR (P) OR (c)) ;\nADD (@z) (*) (-1/1 (b)) ;\n"};
		SV fg; for (auto& x : fr) for (auto& q : fp) fg.push_back(H + "BEFORE-SECTIONS\n" + x + " ;\nSECTION\n" + q);
		v.push_back(wide("features", fg, fi));
		return v;
	});
}
