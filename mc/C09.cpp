// Tag kinds: literal, case-insensitive, regular expression, line, numeric (all operators, MIN/MAX, arithmetic), META
#include "enumr.hpp"
#include <cstring>
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C09", "every tag kind and modifier over a menu of patterns as target, context, in composites and differences, on all cohorts of up to two readings over a tag menu; every pair of numeric operators x values x two readings; MIN/MAX/arithmetic under every pair of removing or editing rules over three readings",
	[](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n"; std::vector<Space> v;
		// --- textual kinds
		SV pats{"a", "A", "\"x\"", "\"X\"", "\"X\"i", "\"x\"i", "\"<w1>\"", "\"<W1>\"i", "\"<W1>\"", "/x/r", "/X/r", "/X/ri", "\"x.*\"r", "\"X.*\"ri", "\"^x.*$\"r", "\"<w.>\"r", "\"<W.>\"ri", "/^a/r", "/B/ri", "/^aB$/r", "<ab>", "<AB>i", "<a.>r", "<A.>ri", "\"<.*>\"r", "\".*\"r", "<.*>r", "/./r", "/<|x/r", "/^\"x\"$/r", "/AB/i", "/ab/i", "@m", "/^@/r", "/@M/i", "w1", "\"w1\"", "<x>", "\"a\"", "/^[^\"]/r", "/1>\"$/r", "\"x\"r", "\"y?x\"r", "/y?x/r"};
		SV rd; for (auto& b : SV{"x", "X", "xy"}) for (auto& t : subsets({"a", "aB", "<ab>", "<AB>", "A", "@m"}, 0, 2, ",")) rd.push_back(b + (t.empty() ? "" : "," + t));
		SV one = cat("_:", rd); SV ins = one; for (size_t i = 0; i < rd.size(); i += 5) for (size_t j = 0; j < rd.size(); j += 3) ins.push_back("_:" + rd[i] + "|" + rd[j] + " _:" + rd[(i + j) % rd.size()]);
		SV g; for (auto& p : pats) {
			std::string P = "(" + p + ")";
			g.push_back(H + "ADD (hit) " + P + " ;\n"); g.push_back(H + "ADD (hit) (*) IF (1 " + P + ") ;\n"); g.push_back(H + "ADD (hit) (*) IF (NOT 0C " + P + ") ;\n"); g.push_back(H + "ADD (hit) (*) - " + P + " ;\n");
			g.push_back(H + "LIST l = " + p + " zz ;\nREMOVE l ;\n"); g.push_back(H + "SELECT (" + p + " a) ;\n"); g.push_back(H + "LIST l = (" + p + " <ab>) (aB " + p + ") ;\nADD (hit) l ;\n"); g.push_back(H + "ADD (hit) (*) IF (0 " + P + " OR (A)) (0 (*) - " + P + ") ;\n");
			if (p != "*" && p.find("<.*>") == std::string::npos && p != "\".*\"r") g.push_back(H + "SUBSTITUTE " + P + " (new) (*) ;\n"); g.push_back(H + "\"<w1>\"i ADD (hit) " + P + " ;\n"); g.push_back(H + "ADD (a) (A) ;\nADD (hit) " + P + " ;\n"); g.push_back(H + "SUBSTITUTE (a) (<ab>) (*) ;\nADD (hit) " + P + " ;\n");
			g.push_back(H + "SUBSTITUTE (\"x\") (\"X\") (*) ;\nADD (hit) " + P + " ;\n");
		}
		v.push_back(product("patterns", g, inputs(ins)));
		SV gp; for (auto& p : pats) for (auto& q : pats) { gp.push_back(H + "ADD (h) (" + p + " " + q + ") ;\n"); if (thorough) { gp.push_back(H + "LIST l = " + p + " " + q + " ;\nADD (h) l ;\n"); gp.push_back(H + "ADD (h) (" + p + ") - (" + q + ") ;\n"); } gp.push_back(H + "ADD (h) (" + p + ") ;\nREMOVE (" + q + ") ;\n"); }
		SV small{"_:x,a", "_:X,aB", "_:xy,<ab>,A", "_:x,@m|X,<AB>,a _:x"};
		v.push_back(product("pattern_pairs", gp, inputs(small + (thorough ? SV{"_:x,aB,<ab>|xy,a,@m _:X,A", "_:x|X|xy"} : SV{}))));
		// --- unescaping and unicode escapes in tags (grammar side); unicode letters
		SV esc; for (auto& p : SV{"\\(a\\)", "a\\;b", "\\u0041", "\\u{41}", "a\\u{42}", "a\\ b", "\"x\\ y\"", "a\\#b", "\\/a\\/", "\\^a", "\\\\"}) { esc.push_back(H + "ADD (hit) (" + p + ") ;\n"); esc.push_back(H + "ADD (" + p + ") (*) ;\n"); }
		{ std::vector<Case> cs; for (auto& t : SV{"(a)", "a;b", "A", "aB", "a#b", "\"x\"", "\"x y\"", "/a/", "^a", "\\", "a"}) for (auto& e : esc) cs.push_back({e, "\"<w>\"\n\t\"x\" " + t + "\n", {}}); v.push_back(cases("escapes", cs)); }
		// --- line matching
		SV lp{"/a\\ b/l", "/^\"<w1>\"\\ \"x\"\\ a/l", "/\"x\"__b/l", "/a__$/l", "/^__a__b__$/l", "/b__a/l", "/x/l", "/a$/li", "/A/li", "/A/l", "/^.*\\ @m$/l", "/^\"x\"\\ a\\ b$/l", "/^[^ac]*$/l", "/\"\\ [abc]$/l", "/__c__b__a/l", "/@m/l", "/\\ b\\ <<</l", "/c\\ @m/l"};
		SV lr; for (auto& t : seqs({"a", "b", "c", "@m"}, 0, 3, ",")) { size_t n = 0, p = 0; while ((p = t.find("@m", p)) != std::string::npos) ++n, ++p; if (n <= 1) lr.push_back("_:x" + (t.empty() ? "" : "," + t)); }
		SV lg; for (auto& p : lp) for (auto& pre : SV{"", "SUBSTITUTE (a) (c) (*) ;\n", "ADD (b) (a) ;\n", "MAP (@m) (c) ;\n", "UNMAP (*) ;\n", "ADD BEFORE (b) (b) (c) ;\n", "REPLACE (a b) (c) ;\n", "COPY (d) EXCEPT (a) (b) ;\n", "SUBSTITUTE (\"x\") (\"y\") (b) ;\n", "SUBSTITUTE (c) (*) (a) ;\n", "UNMAP UNSAFE (@m) ;\n"}) for (auto& fin : SV{"ADD (hit) (" + p + ") ;\n", "APPEND (\"hit\" hit) (" + p + ") ;\n", "ADD (hit) (*) IF (1 (" + p + ")) ;\n"}) lg.push_back(H + pre + fin);
		SV lr2 = lr; for (size_t i = 0; i < lr.size(); i += 3) lr2.push_back("_:y " + lr[i]); v.push_back(product("line_patterns", lg, inputs(lr2)));
		// --- META
		SV mg; for (auto& p : SV{"/foo/r", "/FOO/ri", "/^bar/r", "/o\\nb/r", "/$/r", "/a./r"}) for (auto& f : SV{"ADD (hit) (META:%) ;", "ADD (hit) (*) IF (0 (META:%)) ;", "ADD (hit) (*) IF (-1 (META:%)) ;", "ADD (hit) (*) IF (NOT 1 (META:%)) ;", "ADD (hit) (*) IF (1* (META:%)) ;", "REMCOHORT (META:%) ;\nADD (late) (*) IF (-1 (META:%)) ;", "MOVE WITHCHILD (*) (META:%) BEFORE (-1 (*)) ;\nADD (hit) (META:%) ;"}) { std::string s = f; size_t q; while ((q = s.find('%')) != std::string::npos) s.replace(q, 1, p); mg.push_back(H + s + "\n"); }
		SV mi; for (auto& a : SV{"", "!foo ", "!bar ", "!foo !bar ", "!Foo ", "!ab "}) for (auto& b : SV{"", "!foo ", "!bar ", "!bar !foo "}) mi.push_back(a + "_:x,a " + b + "_:y,b " + a + "_:z,c" + b);
		v.push_back(product("meta", mg, inputs(mi)));
		// --- numeric: operator x operator
		SV ops{"=", ":", "<", ">", "<=", ">=", "!=", "<>", "=<", "=>", "><", "!"}, vals{"5", "-1", "5.5", "0"};
		SV nt; for (auto& o : ops) for (auto& x : vals) nt.push_back("<N" + o + x + ">");
		SV ext; for (auto& o : ops) for (auto& x : SV{"MAX", "MIN", "MAX-1", "MIN+1", "\\(MIN+MAX\\)/2", "MAX*2-MIN", "2*2+1", "-MIN", "+MAX", "ROUND\\(MAX/2\\)", "FLOOR\\(MIN/2\\)", "SQR\\(MIN\\)", "2^MIN", "MAX-MIN-MIN", "SQRT\\(MAX\\)+1", "EXP\\(0\\)+4", "LN\\(0\\)+5", "5+LN\\(0\\)*0", "\\(2+3\\)", "\\(\\(MAX\\)\\)", "10/MIN", "min+1", "Max"}) ext.push_back("<N" + o + x + ">");
		SV itag; for (auto& o : SV{"=", ":", "<", ">", "<=", ">=", "!=", "<>"}) for (auto& x : SV{"5", "-1", "6", "5.50"}) itag.push_back("<N" + o + x + ">");
		SV junk{"<N=>", "<=5>", "<N=5", "N=5", "<N=5x>", "<M=5>", "<N5>", "<N=5.5.5>", "<N=.5>", "<N=5>>", "<N=999999999999999999>", "<N=-999999999999999999>", "<N==5>", "<N:=5>", "<n=5>", "\"<N=5>\"", "<NN=5>", "<N =5>"};
		auto tests = [&](const SV& t, bool more) { SV o; for (auto& x : t) { o.push_back(H + "ADD (hit) (" + x + ") ;\n"); if (more) { o.push_back(H + "ADD (hit) (*) - (" + x + ") ;\n"); o.push_back(H + "ADD (hit) (*) IF (0C (" + x + ")) ;\n"); o.push_back(H + "SELECT (" + x + " a) ;\n"); } } return o; };
		SV ni; for (auto& a : itag) { ni.push_back("_:x," + a); ni.push_back("_:x,a," + a + ",<N=7> _:y"); for (size_t k = 0; k < itag.size(); k += thorough ? 1 : 5) ni.push_back("_:x," + a + "|y,a," + itag[k]); }
		for (auto& j : junk) { ni.push_back("_:x," + j); ni.push_back("_:x," + j + "|y,<N=5>"); }
		{ SV f; for (auto& x : ni) if (x.find("=MAX") == std::string::npos && x.find("<N =") == std::string::npos) f.push_back(x); ni = f; }
		v.push_back(product("numeric_ops", tests(nt, true), inputs(ni)));
		v.push_back(product("numeric_extremes", tests(ext, false), inputs(ni)));
		// --- extremes under change
		SV nr{"", "<N=1>", "<N=2>", "<N=3>", "<N=1>,k", "<N=3>,k", "<N=-2>,<M=4>"}; SV ci; for (auto& a : nr) for (auto& b : nr) for (auto& c : nr) ci.push_back("_:x" + (a.empty() ? a : "," + a) + "|y" + (b.empty() ? b : "," + b) + "|z" + (c.empty() ? c : "," + c));
		SV first{"SELECT (<N=MAX>)", "REMOVE (<N=MIN>)", "REMOVE (<N=MAX>)", "REMOVE (k)", "SUBSTITUTE (<N=1>) (<N=9>) (*)", "ADD (<N=5>) (k)", "APPEND (\"q\" <N=7>) (*)", "SUBSTITUTE (<N=3>) (*) (*)", "SELECT (k)", "REPLACE (<N=4>) (k)", "IFF (<N=MAX>) (0 (k))", "REMOVE DELAYED (<N=MAX>)", "COPY (<N=8>) EXCEPT (<N=3>) (k)", "RESTORE (k) (*)", "UNMAP (*)", "REMOVE UNSAFE (<N>=2>)"};
		SV second{"ADD (mx) (<N=MAX>)", "ADD (mn) (<N=MIN>)", "ADD (lt) (<N<MAX>)", "ADD (gt) (<N>MIN>)", "REMOVE (<N=MIN>)", "SELECT (<N=MAX>)", "ADD (q) (*) IF (0 (<N=MAX-1>))", "ADD (q) (<N>=\\(MIN+MAX\\)/2>)", "REMOVE (<N!=MAX>)"};
		SV cg; for (auto& a : first) for (auto& b : second) { cg.push_back(H + "ADD (m0) (<N=MAX>) ;\n" + a + " ;\n" + b + " ;\n"); if (thorough) for (auto& c : second) cg.push_back(H + "SECTION\n" + b + " ;\n" + a + " ;\n" + c + " ;\n"); }
		v.push_back(product("extremes_after_change", cg, inputs(ci)));
		return v;
	});
}
