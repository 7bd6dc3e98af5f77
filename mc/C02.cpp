// Contextual tests: positions, scanning, careful mode, negation, barriers, linking, templates, window spanning
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C02", "single tests: all positions x careful x negation x barriers x 2 sets; two/three-link chains; templates and ORed tests; rule pairs of tests; windows of 1-4 cohorts over a 3-letter cohort alphabet, 2-3 windows for spanning tests", [](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n";
		auto rule = [&](const SV& tests) { return cat(H + "SECTION\nADD (@m) (*) IF ", tests, " ;\n"); };
		SV alpha{"_:x,a", "_:x,b", "_:x,a|x,b"};
		SV in4 = inputs(seqs(alpha, 1, 4)), in3 = inputs(seqs(alpha, 1, 3)), in5 = inputs(seqs(alpha, 5, 5));
		SV fixed{"-2", "-1", "0", "1", "2"}, scan{"1*", "-1*", "0*", "2*", "-2*", "1**", "-1**", "0**", "*1", "-2**", "2**", "**0"}, absp{"@1", "@2", "@-1", "@-2", "@1*", "@2*", "@-1*", "@3"};
		SV bar{"", " BARRIER (b)", " CBARRIER (b)", " BARRIER (a)", " CBARRIER (a)"};
		SV sets{"(a)", "(b)", "(*) - (a)"};
		SV neg{"", "NOT ", "NEGATE "};
		SV t1;
		for (auto& n : neg) for (auto& s : sets) {
			for (auto& p : fixed + absp) { t1.push_back("(" + n + p + " " + s + ")"); if (n != "NOT ") t1.push_back("(" + n + p + "C " + s + ")"); }
			for (auto& p : scan) for (auto& b : bar) { t1.push_back("(" + n + p + " " + s + b + ")"); if (n != "NOT ") t1.push_back("(" + n + p + "C " + s + b + ")"); }
		}
		std::vector<Space> v;
		v.push_back(product("single_test", rule(t1), in4));
		// windows: two or three windows separated by delimiter cohorts
		SV wpos; for (auto& p : SV{"1", "-1", "2", "-2", "1*", "-1*", "0*", "1**", "-1**", "2*", "-2*"}) for (auto& f : SV{"W", ">", "<"}) wpos.push_back(p + f);
		wpos = wpos + SV{"1*", "-1*", "1", "-1", "@1<", "@1>", "@-1<", "@-1>", "@1*<", "@-1*<", "@1*>"};
		SV wt; for (auto& n : neg) for (auto& p : wpos) for (auto& s : SV{"(a)", "(b)"}) for (auto& b : SV{"", " BARRIER (b)", " CBARRIER (a)"}) { if (b != "" && p.find('*') == std::string::npos) continue; wt.push_back("(" + n + p + " " + s + b + ")"); }
		SV wl; for (auto& p : wpos) for (auto& l : SV{"1 (b)", "-1 (a)", "1* (b)", "-1*W (b)", "1W (a)"}) wl.push_back("(" + p + " (a) LINK " + l + ")");
		SV win{"_:x,a", "_:x,b", ".:p"};
		SV wi; for (auto& s : seqs(win, 3, thorough ? 6 : 5)) if (s.find(".:") != std::string::npos) wi.push_back(s);
		v.push_back(product("window_spanning", rule(wt + wl), inputs(wi), {{}}));
		v.push_back(product("window_count", rule(wt), inputs(SV{"_:x,a .:p _:x,b .:p _:x,a _:x,b .:p _:x,b _:x,a", "_:x,b .:p _:x,a .:p _:x,a .:p _:x,b .:p", "_:x,a .:p .:p _:x,b .:p _:x,a|x,b .:p _:x,a"}), {{"--num-windows", "1"}, {"--num-windows", "3"}, {"--always-span"}, {}}));
		// links
		SV head; for (auto& p : SV{"-1", "1", "0", "1*", "-1*", "0*", "1**", "-1**", "2*", "@1", "1C", "1*C"}) for (auto& s : SV{"(a)", "(b)"}) head.push_back(p + " " + s);
		SV tail; for (auto& n : SV{"", "NOT ", "NEGATE "}) for (auto& p : SV{"-1", "1", "0", "1*", "-1*", "0*", "1**", "-1**", "0C", "1C"}) for (auto& s : SV{"(a)", "(b)"}) { if (n == "NOT " && p.back() == 'C') continue; tail.push_back(n + p + " " + s); }
		SV hb; for (auto& n : SV{"", "NOT ", "NEGATE "}) for (auto& h : head) { if (n == "NOT " && h.find('C') != std::string::npos) continue; hb.push_back(n + h); if (h.find('*') != std::string::npos) hb.push_back(n + h + " BARRIER (b)"), hb.push_back(n + h + " CBARRIER (a)"); }
		SV l2; for (auto& h : hb) for (auto& t : tail) l2.push_back("(" + h + " LINK " + t + ")");
		v.push_back(product("two_links", rule(l2), thorough ? in4 : inputs(seqs(alpha, 3, 3))));
		SV h3{"1* (a)", "-1* (b)", "0 (a)", "1** (b)", "-1** (a)", "NEGATE 1* (a)", "NOT -1 (a)"}, m3{"1* (b)", "-1* (a)", "0 (a)", "1** (a)", "NOT 1 (b)", "NEGATE -1* (b)", "1* (a) BARRIER (b)"}, t3{"1 (a)", "-1 (b)", "1* (b)", "NOT 0 (a)", "NEGATE 1* (b)", "-1** (a)", "0C (a)"};
		SV l3; for (auto& a : h3) for (auto& b : m3) for (auto& c : t3) l3.push_back("(" + a + " LINK " + b + " LINK " + c + ")");
		v.push_back(product("three_links", rule(l3), thorough ? in4 + in5 : inputs(seqs(alpha, 4, 4))));
		// several tests in a rule, with different targets
		SV few{"(1 (a))", "(NOT 1 (a))", "(-1* (b))", "(NEGATE 1* (a) LINK 1 (b))", "(1* (a) BARRIER (b))", "(0C (a))", "(@1 (a))", "(NOT -1* (a))", "(1 (b) OR (a))"};
		SV pr; for (auto& a : few) for (auto& b : few) for (auto& t : SV{"(a)", "(b)", "(*)"}) { pr.push_back(H + "SECTION\nADD (@m) " + t + " IF " + a + " " + b + " ;\n"); pr.push_back(H + "SECTION\nREMOVE " + t + " IF " + a + " " + b + " ;\n"); pr.push_back(H + "SECTION\nSELECT " + t + " IF " + a + " ;\nADD (@m) (*) IF " + b + " ;\n"); }
		v.push_back(product("several_tests", pr, in3));
		// templates and OR
		SV td; for (auto& d : SV{"TEMPLATE t = 1 (a) ;", "TEMPLATE t = -1* (b) ;", "TEMPLATE t = (1 (a)) OR (-1 (a)) ;", "TEMPLATE t = 1* (a) BARRIER (b) ;", "TEMPLATE t = NOT 1 (a) ;", "TEMPLATE t = (1 (a) LINK 1 (b)) OR (-1* (b) LINK -1 (a)) ;", "TEMPLATE u = (-1 (a)) OR (1 (b)) ;\nTEMPLATE t = (T:u) OR (2 (a)) ;", "TEMPLATE t = [ (a), (b) ] ;", "TEMPLATE t = (0 (a)) OR (1 (b)) OR (-1 (b)) ;"}) for (auto& u : SV{"(T:t)", "(NOT T:t)", "(NEGATE T:t)", "(1 T:t)", "(-1 T:t)", "(T:t LINK 1 (b))", "(1* (a) LINK T:t)", "(T:t LINK 0 (a))", "((T:t) OR (1 (b)))", "((1 (a)) OR (-1 (b)))", "((1 (a) LINK 1 (b)) OR (-1* (b)))", "(T:t) (NOT 1 (b))", "(1* T:t)", "(-1* T:t)"})
			td.push_back(H + d + "\nSECTION\nADD (@m) (*) IF " + u + " ;\n");
		v.push_back(product("templates", td, in4));
		// one template used several times in a grammar, with different overrides: no use may affect another
		SV tu; SV ov{"(T:t)", "(1 T:t)", "(-1 T:t)", "(1* T:t)", "(-1* T:t)", "(1* T:t BARRIER (b))", "(1* T:t CBARRIER (b))", "(1* T:t CBARRIER (a) BARRIER (b))", "(-1* T:t BARRIER (a))", "(NOT 1 T:t)", "(NEGATE 1* T:t)", "(1* T:t LINK 1 (b))", "(T:t LINK -1 (a))"};
		for (auto& d : SV{"TEMPLATE t = 1 (a) ;", "TEMPLATE t = 1* (a) ;", "TEMPLATE t = 1* (a) BARRIER (c) ;", "TEMPLATE t = (1 (a)) OR (-1 (b)) ;", "TEMPLATE t = (1* (b) LINK 1 (a)) ;"}) for (auto& a : ov) for (auto& b : ov) { tu.push_back(H + d + "\nSECTION\nADD (@m) (*) IF " + a + " ;\nADD (@n) (*) IF " + b + " ;\n"); tu.push_back(H + d + "\nSECTION\nADD (@m) (*) IF " + a + " " + b + " ;\n"); }
		v.push_back(product("template_reuse", tu, thorough ? in4 : inputs(seqs(alpha, 3, 3))));
		// sub-readings and contextual tests on them, self and end-of-window tests
		SV ot{"(1 (>>>))", "(-1 (<<<))", "(@1 (<<<))", "(@-1 (>>>))", "(1* (>>>))", "(-1* (<<<) BARRIER (b))", "(0 (<<<))", "(NOT 1 (*))", "(1 (*))", "(NOT -1 (*))", "(1* (*))", "(1** (>>>))", "(1* (>>>) LINK -1 (a))", "(-1* (<<<) LINK 1 (b))", "(1S (a))", "(0S (a))", "(1*S (a))", "(-1*S (a))", "(1 (a) LINK 1S (b))", "(1/1 (a))", "(0/1 (b))", "(1/-1 (a))", "(1*/1 (b))", "(0/* (b))", "(1A (a))", "(1*A (a))", "(-1*A (b))", "(0A (a))", "(NOT 0S (b))"};
		SV sc; SV sal{"_:x,a/y,b", "_:x,b/y,a", "_:x,a", "_:x,a|x,b/y,b"}; sc = inputs(seqs(sal, 1, 3));
		v.push_back(product("edges_self_sub", rule(ot), in4 + sc));
		// every position with every option, barrier, negation and link at once, on small trees
		SV pb{"-2", "-1", "0", "1", "2", "1*", "-1*", "0*", "1**", "-1**", "0**", "-2*", "@1", "@-1", "@2*", "p", "p*", "c", "c*", "s", "cc", "pp"};
		SV tree{"_:x,a,#1->2 _:x,b,#2->0 _:x,a,#3->2", "_:x,b,#1->0 _:x,a,#2->1 _:x,b,#3->2", "_:x,a|x,b,#1->2 _:x,a,#2->3 _:x,b,#3->0", "_:x,b,#1->3 _:x,a,#2->1 _:x,a|x,b,#3->0", "_:x,a,#1->4 _:x,b,#2->1 _:x,c,#3->2 _:x,a,#4->0", "_:x,b,#1->2 _:x,b,#2->0 _:x,b,#3->1 _:x,a,#4->3"};
		SV po; for (auto& n : SV{"", "NOT ", "NEGATE ", "NONE ", "ALL "}) for (auto& p : pb) for (auto& o : SV{"", "S", "C", "SC", "O", "OS"}) for (auto& x : SV{"(a)", "(b)"}) for (auto& b : SV{"", " BARRIER (b)", " CBARRIER (b)", " CBARRIER (a) BARRIER (c)"}) for (auto& l : SV{"", " LINK 0 (a)", " LINK 1 (b)", " LINK NOT -1 (a)", " LINK p (b)", " LINK NEGATE 1* (b) BARRIER (a)"}) {
			if (n == "NOT " && o.find('C') != std::string::npos) continue;
			if (n == "NONE " && l != "") continue;
			po.push_back("(" + n + p + o + " " + x + b + l + ")");
		}
		v.push_back(wide("position_options", rule(po), inputs(tree)));
		// window-spanning options crossed with everything else
		SV wp{"1", "-1", "2", "-2", "1*", "-1*", "0*", "1**", "-1**", "-2*", "@1", "@-1", "@2*"};
		SV wo; for (auto& n : SV{"", "NOT ", "NEGATE "}) for (auto& p : wp) for (auto& f : SV{"", "W", ">", "<"}) for (auto& o : SV{"", "S", "C", "O"}) for (auto& x : SV{"(a)", "(b)"}) for (auto& b : SV{"", " BARRIER (b)", " CBARRIER (b)", " BARRIER (>>>)", " BARRIER (<<<)"}) for (auto& l : SV{"", " LINK 0 (a)", " LINK 1 (b)", " LINK -1W (a)", " LINK 1* (b)", " LINK NEGATE -1*W (b) BARRIER (a)", " LINK 1W (*) LINK 1 (a)"}) {
			if (n == "NOT " && o == "C") continue;
			if (b != "" && p.find('*') == std::string::npos) continue;
			wo.push_back("(" + n + p + f + o + " " + x + b + l + ")");
		}
		v.push_back(wide("window_options", rule(wo), inputs(SV{"_:x,a .:p _:x,b _:x,a .:p _:x,b _:x,a", "_:x,b _:x,a .:p _:x,b|x,a .:p _:x,a", "_:x,a _:x,b .:p,a _:x,a .:p,b _:x,b"}), {{}, {"--always-span"}, {"--num-windows", "1"}}));
		// templates with overridden positions, options, barriers, negations and links; bodies that pass the origin in either direction
		SV bd; for (auto& b : SV{"1 (a)", "-1 (a)", "-1* (a)", "1* (b) BARRIER (a)", "-1 (a) LINK 1* (b)", "1 (b) LINK -1* (a)", "1 (b) LINK 1 (a)", "-1 (a) LINK 2 (b)", "-2 (a) LINK 1 (*) LINK 2 (b)", "NOT 1 (a)", "NEGATE 1 (a) LINK 1 (b)", "c (a)", "p (b)", "c (a) LINK 1 (b)", "1* (a) OR (b)", "0 (a) LINK 0 (b)"}) bd.push_back("TEMPLATE t = " + b + " ;");
		bd = bd + SV{"TEMPLATE t = (1 (a)) OR (-1 (a)) ;", "TEMPLATE t = (-1 (a) LINK 2 (b)) OR (1 (b) LINK -2 (a)) ;", "TEMPLATE u = (-1 (a) LINK 1 (*)) ;\nTEMPLATE t = (T:u LINK 1 (b)) OR (1 (a)) ;", "TEMPLATE t = [ (a), (b) ] ;", "TEMPLATE t = [ (a), (*), (b) ] ;"};
		SV to; for (auto& d : bd) for (auto& n : SV{"", "NOT ", "NEGATE "}) for (auto& p : SV{"", "0", "1", "-1", "2", "-2", "1*", "-1*", "0*", "1**", "-1**", "-2*", "@1"}) for (auto& b : SV{"", " BARRIER (b)", " CBARRIER (a)"}) for (auto& l : SV{"", " LINK 0 (a)", " LINK 1 (b)", " LINK -1 (a)", " LINK 1* (a)", " LINK NOT -1* (b)"}) {
			if (b != "" && p.find('*') == std::string::npos) continue;
			to.push_back(H + d + "\nSECTION\nADD (@m) (*) IF (" + n + p + (p == "" ? "" : " ") + "T:t" + b + l + ") ;\n");
		}
		v.push_back(wide("template_options", to, inputs(SV{"_:x,a,#1->2 _:x,b,#2->0 _:x,a,#3->2 _:x,b,#4->3", "_:x,b,#1->0 _:x,a,#2->1 _:x,b,#3->2 _:x,a,#4->3", "_:x,a|x,b,#1->2 _:x,a,#2->3 _:x,b,#3->0 _:x,b,#4->3 _:x,a,#5->4", "_:x,b,#1->0 _:x,b,#2->1 _:x,a,#3->2 _:x,a,#4->2 _:x,b,#5->1"})));
		// inline ORs of tests with links inside and after them
		SV br{"1 (a)", "-1 (a)", "1* (b)", "-1* (b) BARRIER (a)", "NOT 1 (a)", "NEGATE 1* (a)", "1 (a) LINK 1 (b)", "-1 (a) LINK 1 (*)", "c (a)", "p (b)", "0C (a)", "1 (b) LINK -2* (a)"};
		SV io; for (auto& n : SV{"", "NEGATE ", "NOT "}) for (auto& a : br) for (auto& b : br) for (auto& c : SV{"", " OR (1 (b))", " OR (-1 (b) LINK -1 (a))"}) for (auto& l : SV{"", " LINK 0 (a)", " LINK 1 (b)", " LINK -1* (a)"}) io.push_back("(" + n + "((" + a + ") OR (" + b + ")" + c + ")" + l + ")");
		v.push_back(wide("inline_or", rule(io), inputs(SV{"_:x,a,#1->2 _:x,b,#2->0 _:x,a,#3->2 _:x,b,#4->3", "_:x,b,#1->0 _:x,a,#2->1 _:x,b,#3->2", "_:x,a|x,b,#1->2 _:x,a,#2->3 _:x,b,#3->0"})));
		// pairs of rules over cohorts with static tags, deleted and delayed readings, sub-readings: what one test found out must not mislead the next
		SV pt{"(1 (b))", "(1C (b))", "(NOT 1 (b))", "(1* (c) BARRIER (b))", "(1* (c) CBARRIER (b))", "(-1* (a) BARRIER (b))", "(1D (b))", "(1d (b))", "(1Dd (b))", "(1*D (b))", "(1/1 (b))", "(1/* (b))", "(1t (b))", "(1T (b))", "(NOT 1D (b))", "(1*C (b))", "(NEGATE 1 (b))", "(0 (b))", "(-1 (b))", "(1A (b))", "(1*A (c) BARRIER (b))", "(1 (b) LINK 1 (c))", "(1* (b) BARRIER (b))", "(1I (b))", "(1*O (b))"};
		SV sa; for (auto& a : pt) for (auto& b : pt) for (auto& k : SV{"", "REMOVE (b) (NOT 0 (z)) ;\n", "ADD (b) (c) ;\n", "SELECT (c) ;\n"}) sa.push_back(H + "SECTION\n" + k + "ADD (@m) (*) IF " + a + " ;\n" + (k.empty() ? "" : "REMOVE (d) ;\n") + "ADD (@n) (*) IF " + b + " ;\n");
		auto st = [](const std::string& l) { std::string o; int n = 0; for (char ch : l) { ++n; std::string w = "\"<w" + std::to_string(n) + ">\""; o += ch == 's' ? w + " b\n\t\"x\" a\n" : ch == 't' ? w + " b\n\t\"x\" c\n\t\"x\" a\n" : ch == 'a' ? w + "\n\t\"x\" a\n" : ch == 'b' ? w + "\n\t\"x\" b\n\t\"x\" d\n" : ch == 'u' ? w + "\n\t\"x\" a\n\t\t\"y\" b\n" : ch == 'e' ? w + " b\n" : w + "\n\t\"x\" c\n\t\"x\" b\n"; } return o; };
		SV si; for (auto& l : (thorough ? seqs({"s", "t", "a", "b", "c", "u"}, 2, 4, "") : seqs({"s", "t", "a", "b", "c", "u"}, 2, 2, "") + seqs({"s", "t", "c", "u"}, 3, 3, ""))) si.push_back(st(l));
		v.push_back(wide("static_tags", sa, si));
		return v;
	});
}
