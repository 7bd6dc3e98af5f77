// Named relations: ADD/SET/REMRELATION(S), r: tests and their options, relations in the input
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C07", "all relation graphs with up to two arcs over three cohorts (plus listed larger and cross-window ones) x every r: position, modifier, regex name and LINK form; every relation rule form x targets x contexts x names; all pairs of relation and structural rules", [](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n";
		// relation graphs: cohort i has ID:i; arcs are R:name:target
		SV arcs; for (auto& n : SV{"r", "s"}) for (int i = 1; i <= 3; ++i) for (int j = 1; j <= 3; ++j) arcs.push_back(n + std::to_string(i) + std::to_string(j));
		auto graph = [&](const SV& ar, const SV& tags) { std::string s; for (size_t i = 0; i < tags.size(); ++i) { s += (i ? " " : "") + std::string("_:x,") + tags[i] + ",ID:" + std::to_string(i + 1); for (auto& a : ar) if (a[1] == char('1' + i)) s += std::string(",R:") + a[0] + ":" + a[2]; } return s; };
		SV gr; gr.push_back("_:x,a _:x,b _:x,a"); for (auto& tg : std::vector<SV>{{"a", "b", "a"}, {"b", "a", "b"}}) { gr.push_back(graph({}, tg)); for (size_t i = 0; i < arcs.size(); ++i) { gr.push_back(graph({arcs[i]}, tg)); for (size_t j = i + 1; j < arcs.size(); ++j) gr.push_back(graph({arcs[i], arcs[j]}, tg)); } }
		SV some; for (auto& s : std::vector<SV>{{"r12"}, {"r12", "r13"}, {"r12", "s12"}, {"r13", "s31"}, {"r12", "r23", "r31"}, {"s22"}, {"r11", "r12", "s13"}, {"r21", "r23", "s21"}, {"r31", "r32", "s33"}}) { some.push_back(graph(s, {"a", "b", "a"})); some.push_back(graph(s, {"b", "b", "a"})); }
		some = some + SV{"_:x,a _:x,b _:x,a", "_:x,a,ID:9,R:r:9 _:x,b,ID:4,R:r:9", "_:x,a,ID:1,R:r:7 _:x,b,ID:2,R:r:1", "_:x,a,ID:1,R:r:2 .:p,ID:9 _:x,b,ID:2,R:r:1 _:x,a,ID:3,R:s:2", "_:x,a,R:r:2|x,b,ID:1 _:x,b,ID:2", "_:x,a,ID:1,R:r:4 _:x,b,ID:2 .:p _:x,a,ID:4,R:r:1,R:s:2", "_:x,a,ID:1,R:r:2,R:r:3,R:r:4 _:x,b,ID:2,R:r:1 _:x,a,ID:3 _:x,b,ID:4,R:s:1,R:s:3"};
		SV pos{"r:r", "r:s", "r:t", "r:*", "r:r.*", "lr:r", "rr:r", "llr:r", "rrr:r", "lr:*", "rr:*", "llr:*", "rrr:*", "Sr:r", "r:rS", "Sr:*"};
		pos = SV{"r:r", "r:s", "r:t", "r:*", "lr:r", "rr:r", "llr:r", "rrr:r", "lr:*", "rr:*", "llr:*", "rrrr:r", "rrr:*", "Sr:r", "Sr:*", "r:/[rs]/r"};
		SV tests; for (auto& p : pos) for (auto& n : SV{"", "NOT ", "NEGATE ", "ALL ", "NONE "}) for (auto& s : SV{"(a)", "(b)", "(*)"}) tests.push_back("(" + n + p + " " + s + ")");
		SV lk; for (auto& a : SV{"r:r (a)", "r:* (b)", "r:s (*)", "NOT r:r (a)", "ALL r:r (b)"}) for (auto& b : SV{"1 (b)", "r:r (a)", "r:* (b)", "NOT r:r (b)", "NONE r:s (a)", "-1* (a)"}) lk.push_back("(" + a + " LINK " + b + ")");
		auto G = [&](const SV& t) { return cat(H + "SECTION\nADDRELATION (zz) (nope) TO (1 (nope)) ;\nADD (@m) (*) IF ", t, " ;\n"); };
		std::vector<Space> v;
		v.push_back(product("relation_tests", G(tests), inputs(gr)));
		v.push_back(product("relation_links", G(lk), inputs(thorough ? gr + some : some)));
		v.push_back(product("relation_tests_more", G(tests), inputs(some)));
		SV cx{"(1 (b))", "(-1 (a))", "(1* (a))", "(-1* (b))", "(1** (*))", "(0 (*))", "(NOT 1 (a))", "(r:r (b))", "(r:* (a))", "(1 (a) LINK 1 (b))", "(0 (a) LINK -1 (b))", "(@1 (*))", "(1*W (a))"}, tg{"(a)", "(b)", "(*)"}, nm{"(r)", "(s)", "(r s)"};
		SV ar; for (auto& k : SV{"ADDRELATION", "SETRELATION", "REMRELATION"}) for (auto& o : SV{"", "REVERSE ", "NEAREST "}) for (auto& n : nm) for (auto& t : tg) for (auto& c : cx) { if (o != "" && n != "(r)") continue; ar.push_back(k + " " + o + n + " " + t + " TO " + c); }
		for (auto& k : SV{"ADDRELATIONS", "SETRELATIONS", "REMRELATIONS"}) for (auto& n : SV{"(r) (s)", "(r) (r)", "(s) (r)", "(r s) (t)"}) for (auto& t : tg) for (auto& c : cx) ar.push_back(k + " " + n + " " + t + " TO " + c);
		SV one; for (auto& r : ar) one.push_back(H + "SECTION\n" + r + " ;\n");
		v.push_back(product("relation_rules", one, inputs(some), {{}, {"--trace"}}));
		SV two; for (auto& r : ar) for (auto& t : SV{"ADD (@m) (*) IF (r:r (b))", "ADD (@m) (*) IF (r:* (a))", "ADD (@m) (*) IF (NONE r:s (b))", "REMCOHORT (b) IF (r:r (a))"}) two.push_back(H + "SECTION\n" + r + " ;\n" + t + " ;\n");
		v.push_back(product("relation_then_test", two, inputs(thorough ? some : SV(some.begin(), some.begin() + 8) + SV{some[18], some[21]})));
		SV few{"ADDRELATION (r) (a) TO (1 (b))", "ADDRELATION (s) (b) TO (-1* (a))", "ADDRELATIONS (r) (s) (a) TO (1* (b))", "SETRELATION (r) (a) TO (1* (a))", "SETRELATION (r) (*) TO (0 (*))", "SETRELATIONS (r) (s) (b) TO (1* (a))", "REMRELATION (r) (a) TO (1* (b))", "REMRELATION (r) (*) TO (r:r (*))", "REMRELATIONS (r) (s) (a) TO (1* (*))", "REMCOHORT (b) IF (r:r (a))", "REMCOHORT (a) IF (1 (b))", "ADD (@m) (*) IF (r:r (b))", "ADD (@n) (*) IF (r:s (a))", "MERGECOHORTS (\"<ab>\" \"ab\" c) (a) WITH (1 (b))", "COPYCOHORT (d) (a) TO BEFORE (1 (b))", "MOVE (a) AFTER (1 (b))", "SETPARENT (a) TO (1 (b))", "SETRELATION (r) (c) TO (1* (a))", "ADDCOHORT (\"<n>\" \"n\" b) AFTER (a)"};
		SV pr; for (auto& a : few) for (auto& b : few) { pr.push_back(H + "SECTION\n" + a + " ;\n" + b + " ;\n"); pr.push_back(H + "SECTION\n" + a + " ;\nSECTION\n" + b + " ;\n"); if (thorough) for (auto& c : few) pr.push_back(H + "SECTION\n" + a + " ;\n" + b + " ;\n" + c + " ;\n"); }
		v.push_back(product("relation_pairs", pr, inputs(some)));
		// every side, option, negation, name form, barrier and link at once
		SV ro; for (auto& n : SV{"", "NOT ", "NEGATE ", "NONE ", "ALL "}) for (auto& d : SV{"", "l", "r", "ll", "rr", "lll", "rrr"}) for (auto& o : SV{"", "S", "C", "SC", "W", "<", ">"}) for (auto& nm : SV{"r", "s", "*", "/[rs]/r", "/^R$/ri"}) for (auto& x : SV{"(a)", "(b)", "(*)"}) for (auto& b : SV{"", " BARRIER (b)"}) for (auto& l : SV{"", " LINK 0 (a)", " LINK -1 (b)", " LINK r:* (a)"}) {
			if (n == "NOT " && o.find('C') != std::string::npos) continue;
			if (n == "NONE " && l != "") continue;
			ro.push_back("(" + n + o + d + "r:" + nm + " " + x + b + l + ")");
		}
		v.push_back(wide("side_options", G(ro), inputs(SV{graph({"r12", "r13", "s21"}, {"a", "b", "a"}), graph({"r21", "r23", "r22"}, {"b", "a", "a"}), graph({"r31", "s32", "s31"}, {"a", "a", "b"}), graph({"r11", "s12", "s13"}, {"b", "a", "b"}), "_:x,a,ID:1,R:r:3 _:x,b,ID:2 .:p,b _:x,a,ID:3,R:r:1,R:s:4 _:x,b,ID:4,R:r:2"})));
		// what a regex name captured, and which of several matching relations captured it, is used by the rule
		SV cp; for (auto& n : SV{"", "NOT ", "NONE ", "ALL "}) for (auto& nm : SV{"/^\\(.\\)\\(.\\)$/r", "/^\\(r.\\)/r", "/^\\(s\\)\\(.\\)\\(x?\\)/r", "/\\(.\\)$/r", "*", "rq"}) for (auto& x : SV{"(a)", "(b)", "(*)", "(/^a\\(.*\\)/r)"}) for (auto& l : SV{"", " LINK r:/^\\(.\\)/r (*)", " LINK 0 (/^\\(b\\)/r)"}) for (auto& vs : SV{"$1", "$1.$2", "$1.$2.$3", "$3"}) for (auto& t : SV{"(*)", "(/^\\(.\\)1/r)"}) { if (n == "NONE " && l != "") continue; cp.push_back(H + "SECTION\nADDRELATION (zz) (nope) TO (1 (nope)) ;\nADD (VSTR:g" + vs + ") " + t + " IF (" + n + "r:" + nm + " " + x + l + ") ;\n"); }
		v.push_back(product("captures", cp, inputs(SV{"_:x,a,ID:1,R:rq:2,R:sq:3,R:rr:3 _:x,b,ID:2,R:sq:1 _:x,a1,ID:3,R:rq:2,R:rq:1", "_:x,b1,ID:1,R:sq:2,R:rx:2 _:x,a,ID:2,R:rq:1,R:rq:3,R:sx:1 _:x,ab,ID:3", "_:x,a1,ID:1,R:rq:2,R:rq:3 _:x,b,ID:2,R:sx:1,R:sx:3 _:x,a2,ID:3,R:rz:2", "_:x,a1,ID:1,R:sxx:2,R:rq:3 _:x,a2,ID:2,R:ab:1,R:sq:3 _:x,b1,ID:3,R:sx:2,R:rq:1"})));
		// relations to cohorts of later and earlier windows
		SV fr; for (auto& a : SV{"", "R:r:4", "R:r:6", "R:r:3", "R:r:9", "R:r:6,R:s:4", "R:s:7", "R:r:4,R:r:6", "R:s:4,R:r:4,R:r:6,R:r:3"}) for (auto& b : SV{"", "R:r:1", "R:r:6", "R:s:4,R:r:3"}) for (auto& c : SV{"", "R:r:1", "R:r:3,R:s:8"}) { auto j = [](const std::string& x) { return x.empty() ? x : "," + x; }; for (auto& sp : SV{" ", " .:p,ID:11 "}) fr.push_back("_:x,a,ID:1" + j(a) + " .:p,ID:3" + sp + "_:x,b,ID:4" + j(b) + " .:p,ID:5" + sp + "_:x,a,ID:6" + j(c) + " .:p,ID:8 _:x,b,ID:7,R:r:1 .:p,ID:9"); }
		SV fg; for (auto& t : SV{"(r:r (a))", "(r:* (b))", "(r:* (*))", "(r:s (*))", "(rr:r (*))", "(ALL r:* (*))", "(NONE r:r (*))", "(r:r (*) LINK r:* (*))", "(r:r (p))", "(NOT r:r (a))"}) { fg.push_back(H + "ADD (hit) (*) " + t + " ;\n"); fg.push_back(H + "ADDRELATION (q) (a) TO " + t + " ;\nADD (hit) (*) (r:q (*)) ;\n"); fg.push_back(H + "REMRELATION (r) (*) TO " + t + " ;\n"); }
		for (auto& k : SV{"ADDRELATION (r)", "SETRELATION (s)", "REMRELATION (r)", "SETRELATIONS (r) (s)"}) for (auto& c : SV{"(1*W (b))", "(-1*W (a))", "(1W (p))", "(-1**W (*))", "(@1>W (*))"}) fg.push_back(H + k + " (a) TO " + c + " ;\nADD (hit) (*) (r:* (*)) ;\n");
		v.push_back(product("far_relations", fg, inputs(fr), {{}, {"--num-windows", "0"}, {"--num-windows", "1"}, {"--num-windows", "4", "--always-span"}}));
		// two inputs on which the code is known to fail (known_findings.txt); elsewhere the reference model follows the code in this
		Space kn; kn.name = "known_rule_relations"; kn.size = 2;
		kn.fn = [H](uint64_t i, Ctx& c) {
			std::string in = inputs(SV{i ? "_:x,a,ID:1,R:r:4,R:r:6 .:p,ID:3 .:p,ID:11 _:x,b,ID:4 .:p,ID:5 .:p,ID:11 _:x,a,ID:6 .:p,ID:8 _:x,b,ID:7,R:r:1 .:p,ID:9" : "_:x,a,ID:1,R:s:4 .:p,ID:3 _:x,b,ID:4 .:p,ID:5 _:x,c,ID:6 .:p,ID:8 _:x,b,ID:7 .:p,ID:9"})[0];
			std::string gr = H + (i ? "REMRELATION (r) (*) TO (rr:r (*)) ;\n" : "ADDRELATION (q) (a) TO (1*W (\"<w3>\")) ;\n");
			c.describe(gr + "\n---- input\n" + in);
			std::string out = impl::once(gr, in, i ? impl::Args{} : impl::Args{"--num-windows", "4", "--always-span"}), line = out.substr(0, out.find("\"<.>\"")); c.outcome(out);
			size_t n = 0; for (size_t p = 0; (p = line.find(i ? "R:r:" : "R:q:", p)) != std::string::npos; ++p) ++n;
			if (n != 1) c.fail(i ? "one of two relations was removed and not exactly one is left" : "one relation was added and not exactly one is printed", {{"got", out}});
		};
		v.push_back(kn);
		return v;
	});
}
