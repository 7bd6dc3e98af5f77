// Dependencies: SETPARENT, SETCHILD, REMPARENT, SWITCHPARENT and the p/c/s/cc/pp... contextual tests
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C06", "all labelled dependency trees on up to 4 cohorts (every parent assignment incl. none) x every dependency position and option; every attach rule form over targets, contexts, loop/cross options; pairs of attach rules", [](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n";
		// all parent assignments for n cohorts (0 = root), self-parents excluded
		auto trees = [](int n, const SV& tags) { SV o; std::vector<int> p(n, 0); for (;;) { bool ok = true; std::string s; for (int i = 0; i < n; ++i) { if (p[i] == i + 1) ok = false; s += (i ? " " : "") + std::string("_:x,") + tags[i % tags.size()] + ",#" + std::to_string(i + 1) + "->" + std::to_string(p[i]); } if (ok) o.push_back(s); int k = 0; while (k < n && p[k] == n) p[k++] = 0; if (k == n) break; ++p[k]; } return o; };
		SV t3; for (auto& tg : std::vector<SV>{{"a", "b", "a"}, {"b", "a", "b"}, {"a", "a", "b"}}) t3 = t3 + trees(3, tg);
		SV t4 = trees(4, {"a", "b", "b", "a"}) + trees(4, {"b", "a", "a", "b"});
		SV part{"_:x,a _:x,b _:x,a", "_:x,a,#1->2 _:x,b _:x,a,#3->1", "_:x,a,#1->9 _:x,b,#2->1", "_:x,a,#1->1 _:x,b,#2->1", "_:x,a,#5->0 _:x,b,#6->5 _:x,a,#7->6", "_:x,a,#1->0 _:x,b,#2->1 .:p,#3->2 _:x,a,#1->2 _:x,b,#2->0", "_:x,a,#1->3 .:p _:x,b,#3->1", "_:x,a,#1->2|x,b,#1->2 _:x,b,#2->0", "_:x,a,#1->0|x,b,#1->2 _:x,b,#2->0"};
		SV pos; for (auto& p : SV{"p", "c", "s", "cc", "pp", "c*", "p*", "ps", "sl", "sr", "cl", "cr", "lc", "rc", "llc", "lll", "rrr", "pS", "cS", "sS", "p*S", "c*S", "cN", "pN", "c**", "p**", "s*", "NONE c", "NONE s", "ALL c", "ALL s", "ALL c*", "NONE c*", "pC", "cC", "p*C", "ALL cC", "NONE p", "ALL p", "NONE p*", "ALL p*", "rs", "ls"}) pos.push_back(p);
		SV tests; for (auto& p : pos) for (auto& n : SV{"", "NOT ", "NEGATE "}) { if (n == "NOT " && p.find('C') != std::string::npos) continue; if (n != "" && (p[0] == 'N' || p[0] == 'A')) continue; for (auto& s : SV{"(a)", "(b)"}) tests.push_back("(" + n + p + " " + s + ")"); }
		SV lk; for (auto& a : SV{"p (a)", "c (b)", "s (a)", "p* (a)", "c* (b)", "1* (a)", "ALL c (*)", "NOT c (a)"}) for (auto& b : SV{"p (b)", "c (a)", "NOT p (a)", "s (b)", "1 (b)", "c* (a)", "p* (b)", "NEGATE c (a)", "NONE c (b)"}) lk.push_back("(" + a + " LINK " + b + ")");
		auto G = [&](const SV& t) { return cat(H + "SECTION\nADD (@m) (*) IF ", t, " ;\n"); };
		std::vector<Space> v;
		v.push_back(product("tree_tests_3", G(tests + lk), inputs(t3 + part)));
		v.push_back(product("tree_tests_4", G(thorough ? tests + lk : cat("", SV{"(p (a))", "(c (a))", "(s (b))", "(p* (b))", "(c* (a))", "(cc (b))", "(pp (a))", "(ALL c (b))", "(NONE c (b))", "(ALL s (a))", "(NOT c (b))", "(NOT p* (a))", "(lc (a))", "(rc (b))", "(llc (b))", "(rrr (a))", "(c* (b) LINK s (a))", "(p (a) LINK c (b))", "(cS (a))", "(pS (b))", "(c*S (a))", "(p*S (b))", "(NEGATE c* (a))"})), inputs(t4)));
		SV ar; SV tg{"(a)", "(b)", "(*)"}; SV cx{"(1 (b))", "(-1 (a))", "(1* (a))", "(-1* (b))", "(-1* (*))", "(1* (*))", "(1** (a) LINK 1 (b))", "(p (a))", "(c (b))", "(@1 (*))", "(1 (a) LINK p (b))", "(NOT 1 (a))", "(0 (a))", "(-1* (<<<))", "(s (b))"};
		for (auto& k : SV{"SETPARENT", "SETCHILD"}) for (auto& o : SV{"", " ALLOWLOOP", " SAFE", " UNSAFE", " ALLOWCROSS", " NEAREST", " NOPARENT", " REVERSE"}) for (auto& t : tg) for (auto& c : cx) { if (o == " NOPARENT" && k == "SETCHILD") continue; ar.push_back(k + o + " " + t + " TO " + c); }
		for (auto& t : tg) for (auto& c : SV{"", " IF (1 (b))", " IF (p (a))", " IF (c (b))", " IF (NOT p (b))"}) { ar.push_back("REMPARENT " + t + c); ar.push_back("SWITCHPARENT " + t + c); }
		SV rin = inputs(trees(3, {"a", "b", "a"}) + part), rin2 = inputs(trees(2, {"a", "b"}) + part + SV{"_:x,a,#1->0 _:x,b,#2->1 _:x,a,#3->2", "_:x,b,#1->3 _:x,a,#2->3 _:x,b,#3->0", "_:x,a _:x,b _:x,a _:x,b", "_:x,a,#1->2 _:x,b,#2->3 _:x,a,#3->4 _:x,b,#4->1"});
		SV ag; for (auto& r : ar) ag.push_back(H + "SECTION\n" + r + " ;\n");
		v.push_back(product("attach_rules", ag, thorough ? inputs(t3 + t4 + part) : rin, {{}, {"--trace"}}));
		SV ag2; for (auto& r : ar) for (auto& t : SV{"ADD (@m) (*) IF (p (a))", "ADD (@m) (*) IF (c (b))", "ADD (@m) (*) IF (s (b))", "ADD (@m) (a) IF (c* (a))", "REMCOHORT (b) IF (p (a))"}) ag2.push_back(H + "SECTION\n" + r + " ;\n" + t + " ;\n");
		v.push_back(product("attach_then_test", ag2, rin2));
		SV pr; SV few{"SETPARENT (a) TO (1 (b))", "SETPARENT (b) TO (-1* (a))", "SETPARENT (*) TO (-1 (*))", "SETCHILD (a) TO (1* (b))", "SETCHILD (b) TO (-1 (a))", "SETPARENT ALLOWLOOP (a) TO (1* (a))", "SETPARENT SAFE (a) TO (-1* (b))", "REMPARENT (a)", "REMPARENT (b) IF (p (a))", "SWITCHPARENT (a)", "SWITCHPARENT (b) IF (c (a))", "ADD (c) (*) IF (p (b))", "ADD (d) (*) IF (c (a))", "REMCOHORT (b) IF (c (a))", "SETPARENT (c) TO (1* (d))", "SETPARENT NOPARENT (*) TO (@1 (*))", "MOVE WITHCHILD (*) (a) AFTER (1* (b))", "MOVE WITHCHILD (*) (b) BEFORE WITHCHILD (*) (-1* (a))"};
		for (auto& a : few) for (auto& b : few) { pr.push_back(H + "SECTION\n" + a + " ;\n" + b + " ;\n"); pr.push_back(H + "SECTION\n" + a + " ;\nSECTION\n" + b + " ;\n"); if (thorough) for (auto& c : few) pr.push_back(H + "SECTION\n" + a + " ;\n" + b + " ;\n" + c + " ;\n"); }
		v.push_back(product("attach_pairs", pr, rin2, {{}, {"--dep-allow-loops"}, {"--dep-original"}, {"--dep-absolute"}}));
		// deep trees: every chain direction and every pair of ends
		SV deep, dg; for (int n = 5; n <= (thorough ? 8 : 7); ++n) for (int k = 0; k < 4; ++k) { std::string s; for (int i = 1; i <= n; ++i) { int par = k == 0 ? (i < n ? i + 1 : 0) : k == 1 ? i - 1 : k == 2 ? (i == 1 ? 0 : i / 2) : (i == n ? 0 : i + 2 <= n ? i + 2 : n); s += (i > 1 ? " " : "") + std::string("_:x,t") + std::to_string(i) + (i % 2 ? ",a" : ",b") + ",#" + std::to_string(i) + "->" + std::to_string(par); } deep.push_back(s); }
		for (int i = 1; i <= 8; ++i) for (int j = 1; j <= 8; ++j) if (i != j) for (auto& k : SV{"SETPARENT", "SETCHILD", "SETPARENT ALLOWLOOP"}) dg.push_back(H + "SECTION\n" + k + " (t" + std::to_string(i) + ") TO (" + (j > i ? "" : "-") + "1* (t" + std::to_string(j) + ")) ;\nADD (@p) (*) IF (p* (t1)) ;\nADD (@c) (*) IF (c* (t5)) ;\nADD (@n) (*) IF (NONE c* (a)) ;\n");
		for (int i = 1; i <= 8; ++i) for (auto& q : SV{"p*", "c*", "cc", "pp", "s", "lc", "rc", "llc", "rrr", "c*S", "p*S", "NOT c*", "NONE c*"}) dg.push_back(H + "SECTION\nADD (@m) (*) IF (" + q + " (t" + std::to_string(i) + ")) ;\n");
		v.push_back(product("deep_trees", dg, inputs(deep)));
		// arcs across windows, including loops in the other window
		SV wn{"_:x,a,#1->2 _:x,b,#2->1 .:p,#3->1 _:x,a,#4->1 _:x,b,#5->4", "_:x,a,#1->4 .:p,#2->1 _:x,b,#3->4 _:x,a,#4->0", "_:x,a,#1->0 .:p,#2->1 _:x,b,#3->1 .:p,#4->3 _:x,a,#5->3 _:x,b,#6->1", "_:x,a,#1->5 _:x,b,#2->1 .:p,#3->2 _:x,a,#4->2 _:x,b,#5->4"};
		SV wt; for (auto& q : SV{"p", "c", "s", "p*", "c*", "pp", "cc", "pS", "c*S", "p*S", "NONE c", "ALL c"}) for (auto& f : SV{"", "W", "<", ">"}) for (auto& n : SV{"", "NOT ", "NEGATE "}) { if (n != "" && (q[0] == 'N' || q[0] == 'A')) continue; for (auto& s : SV{"(a)", "(b)"}) wt.push_back("(" + n + q + f + " " + s + ")"); }
		SV wr; for (auto& k : SV{"SETPARENT", "SETCHILD"}) for (auto& t : SV{"(a)", "(b)"}) for (auto& c : SV{"(1*W (b))", "(-1*W (a))", "(-1*W (*))", "(1*W (p))"}) for (auto& q : SV{"(p (a))", "(cW (b))", "(p*W (a))", "(c*W (a))"}) wr.push_back(H + "SECTION\n" + k + " " + t + " TO " + c + " ;\nADD (@m) (*) IF " + q + " ;\n");
		v.push_back(product("arcs_across_windows", G(wt) + wr, inputs(wn), {{}, {"--num-windows", "1"}}));
		// every dependency position with every side, option, barrier, negation and link at once
		SV so; for (auto& n : SV{"", "NOT ", "NEGATE ", "NONE ", "ALL "}) for (auto& d : SV{"", "l", "r", "ll", "rr", "lll", "rrr"}) for (auto& p : SV{"p", "c", "s", "c*", "p*", "cc", "pp", "c**", "p**"}) for (auto& o : SV{"", "S", "C", "SC"}) for (auto& x : SV{"(a)", "(b)"}) for (auto& b : SV{"", " BARRIER (b)", " CBARRIER (a)"}) for (auto& l : SV{"", " LINK 0 (a)", " LINK -1 (b)", " LINK c (a)"}) {
			if (n == "NOT " && o.find('C') != std::string::npos) continue;
			if (n == "NONE " && l != "") continue;
			if (d.size() > 1 && p[0] == 'p' && p != "pp") continue;
			so.push_back("(" + n + d + p + o + " " + x + b + l + ")");
		}
		v.push_back(wide("side_options", G(so), inputs(SV{"_:x,a,#1->2 _:x,b,#2->0 _:x,a,#3->2 _:x,b,#4->3", "_:x,b,#1->3 _:x,a,#2->3 _:x,b|x,a,#3->0 _:x,a,#4->3", "_:x,a,#1->0 _:x,b,#2->1 _:x,a,#3->2 _:x,b,#4->3", "_:x,b,#1->4 _:x,a,#2->1 _:x,a,#3->1 _:x,b,#4->0"})));
		return v;
	});
}
