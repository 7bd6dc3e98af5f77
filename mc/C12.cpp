// Window segmentation (hard, soft, text, dependency delimiters and limits), look-ahead buffering and spanning tests
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C12", "every stream of up to 7 (thorough: 9) cohorts over ordinary, soft- and hard-delimiter cohorts x delimiter declarations x soft/hard limits x window buffer sizes; every stream of up to 5 (thorough: 6) items over cohorts, delimiters and text lines x text delimiters; every stream of up to 5 (thorough: 6) cohorts over dependency numbers x --dep-delimit distances; every spanning test over all sequences of up to 5 windows x buffer sizes x --always-span; DELIMIT rules during spanning", [](bool thorough) {
		std::vector<Space> v;
		auto W = [](const std::string& t, const std::string& w = "w") { return "\"<" + w + ">\"\n\t\"" + w + "\" " + t + "\n"; };
		std::string S = W("p", ","), D = W("p", "."), N = W("n");
		auto S_ = [&](const SV& i, int lo, int hi) { return seqs(i, lo, hi, ""); };
		std::string rep = "ADD (first) (*) (-1 (>>>)) ;\nADD (end) (<<<) ;\nADD (a2) (*) (@2 (*)) ;\nADD (pend) (*) (-1W (<<<)) ;\nADD (nbeg) (*) (1W (>>>)) ;\nADD (far) (*) (2W (p)) ;\nADD (seen) (*) (-2W (seen) OR (first)) ;\n";
		SV decl{"DELIMITERS = \"<.>\" ;\n", "SOFT-DELIMITERS = \"<,>\" ;\n", "DELIMITERS = \"<.>\" ;\nSOFT-DELIMITERS = \"<,>\" ;\n", "", "DELIMITERS = \"<.>\" \"<,>\" ;\n", "DELIMITERS = (p) ;\nSOFT-DELIMITERS = (n) ;\n"};
		std::vector<impl::Args> lim{{}, {"--soft-limit", "2"}, {"--soft-limit", "3", "--hard-limit", "5"}, {"--hard-limit", "2"}, {"--hard-limit", "4", "--num-windows", "0"}, {"--soft-limit", "4", "--num-windows", "1"}, {"--soft-limit", "1", "--num-windows", "0"}};
		v.push_back(product("segment", cat(decl, SV{rep}), S_({N, S, D}, 1, thorough ? 9 : 7), lim));
		// ambiguous delimiter cohorts, cohorts without readings, sub-readings, static tags
		SV odd{N, D, S, "\"<.>\"\n", "\"<w>\"\n\t\"w\" n\n\t\"x\" clb\n", "\"<.>\" st\n\t\".\" p\n\t\".\" q\n", "\"<,>\"\n\t\",\" p\n\t\t\"sub\" clb\n", "\"<w>\"\n\t\"w\" clb <m>\n"};
		SV od{"DELIMITERS = \"<.>\" ;\nSOFT-DELIMITERS = (clb) ;\n", "DELIMITERS = (clb) ;\nSOFT-DELIMITERS = \"<,>\" ;\n", "DELIMITERS = (\"<.>\" q) (\"w\" clb) ;\n", "DELIMITERS = \"<.*>\"r ;\n", "DELIMITERS = \"<W>\"i ;\nSOFT-DELIMITERS = st \"<,>\" ;\n"};
		v.push_back(product("delimiter_kinds", cat(od, SV{rep}), S_(odd, 1, thorough ? 5 : 4), {{}, {"--soft-limit", "1"}, {"--soft-limit", "2", "--hard-limit", "3"}}));
		// text delimiters
		SV tx{N, D, "<s>\n", "text\n", "\n", "a much longer text </s> here\n", "<STREAMCMD:FLUSH>\n", "\"<e>\"\n", "\t\"x\" r\n", "; \"<w>\"\n"};
		SV td{"TEXT-DELIMITERS = /^<s/r ;\n", "TEXT-DELIMITERS = /<\\/s/r /^TE/ri ;\n", "DELIMITERS = \"<.>\" ;\nTEXT-DELIMITERS = /s/r ;\n", "DELIMITERS = \"<.>\" ;\n"};
		std::vector<impl::Args> ta{{}, {"--text-delimit"}, {"--text-delimit", "/TEX/ri", "--num-windows", "0"}, {"--text-delimit", "here"}};
		v.push_back(product("text", cat(td, SV{rep}), S_(tx, 1, thorough ? 5 : 4), ta));
		// dependency delimiting
		SV dp; for (auto& d : SV{"#1->0", "#1->2", "#2->1", "#3->2", "#3->3", "#5->1", "#2->0", "", "#14->1"}) dp.push_back(W("n" + (d.empty() ? std::string() : " " + d)));
		SV dp2 = dp; dp2.push_back("\"<w>\"\n\t\"w\" n #2->1\n\t\"w\" m #2->1\n"); dp2.push_back("<STREAMCMD:FLUSH>\n"); dp2.push_back(D); dp2.push_back("text\n");
		std::string drep = "ADD (first) (*) (-1 (>>>)) ;\nADD (end) (<<<) ;\nADD (hasp) (*) (p (*)) ;\nADD (hasc) (*) (c (*)) ;\nADD (hasg) (*) (pp (end)) ;\nADD (seen) (*) (-1W (seen) OR (first)) ;\n";
		v.push_back(product("dep_delimit", {"DELIMITERS = \"<.>\" ;\n" + drep, "SOFT-DELIMITERS = \"<.>\" ;\n" + drep}, S_(dp, 1, thorough ? 5 : 4) + S_(dp2, 2, 3), {{"--dep-delimit"}, {"--dep-delimit", "1"}, {"--dep-delimit", "2", "--num-windows", "0"}, {"--dep-delimit", "3", "--soft-limit", "2", "--dep-absolute"}}));
		// spanning tests
		SV pos; for (auto& p : SV{"1W", "2W", "-1W", "-2W", "3W", "1>", "-1<", "2>", "-2<", "1<", "-1>", "@1>", "@-1>", "@1<", "@-1<", "@2>", "@1W", "@-1W", "1*W", "-1*W", "1*>", "-1*<", "1**W", "-1**W", "1*", "-1*", "0*W", "0**", "*", "**W", "1*WC", "NOT 1*W", "NOT -1*<", "NEGATE 1*W", "ALL 1*W", "NONE 1**>", "1*WO", "-1*WS", "2*W", "-2*W", "1*>A", "-1*W<", "1*<", "1>C"}) pos.push_back(p);
		SV tst; for (auto& p : pos) { for (auto& s : SV{"(a)", "(>>>)", "(<<<)", "(a) OR (<<<)"}) tst.push_back(p + " " + s); for (auto& s : SV{"(a) BARRIER (b)", "(b) CBARRIER (<<<)", "(a) LINK 1 (b)", "(b) LINK -1* (a)", "(<<<) LINK 1W (>>>)", "(b) LINK 1*W (a)", "(a) LINK -1W (*)"}) if (p.find("NONE") == std::string::npos && p.find("ALL") == std::string::npos) tst.push_back(p + " " + s); }
		SV wins; for (auto& w : SV{"_:x,a .:.,p", "_:x,b .:.,p", "_:x,a _:x,b .:.,p", ".:.,p", "_:x,b|x,a _:x,c .:.,p"}) wins.push_back(w);
		SV wi = inputs(seqs(wins, 1, thorough ? 5 : 4)); SV sp; for (auto& t : tst) sp.push_back("DELIMITERS = \"<.>\" ;\nADD (hit) (*) (" + t + ") ;\n");
		std::vector<impl::Args> sa{{"--num-windows", "1"}, {"--num-windows", "0"}, {"--num-windows", "3", "--always-span"}}; if (thorough) sa.push_back({});
		v.push_back(product("span", sp, wi, sa));
		SV sp2; for (size_t i = 0; i < tst.size(); i += 3) for (auto& r : SV{"DELIMIT (b) ;", "DELIMIT (a) (1 (b)) ;", "REMOVE (b) ;", "REMCOHORT (b) (1 (*)) ;", "ADDCOHORT (\"<n>\" \"n\" a) AFTER (b) ;", "SETPARENT (a) TO (1*W (b)) ;", "MOVE (b) BEFORE (-1* (*)) ;"}) { sp2.push_back("DELIMITERS = \"<.>\" ;\n" + r + "\nADD (hit) (*) (" + tst[i] + ") ;\n"); sp2.push_back("DELIMITERS = \"<.>\" ;\nADD (hit) (*) (" + tst[i] + ") ;\n" + r + "\nADD (h2) (*) (" + tst[i] + ") ;\n"); }
		v.push_back(product("span_edit", sp2, inputs(seqs(wins, 1, thorough ? 4 : 3)), {{"--num-windows", "1"}}));
		// bags of tags of several windows
		SV bt; for (auto& n : SV{"", "NOT ", "NEGATE "}) for (auto& p : SV{"B", "BW", "B<", "B>"}) for (auto& x : SV{"(a)", "(b)", "(c)", "(a b)", "(a) + (c)", "(*) - (a)", "(a) OR (c)", "(\"x\")", "(\"<.>\")", "(z)"}) for (auto& l : SV{"", " LINK 1 (a)", " LINK B (b)", " LINK -1* (b)"}) for (auto& k : SV{"", "ADD (z) (b) (-1 (a)) ;\n", "REMOVE (a) (1 (b)) ;\n", "REMCOHORT (a) ;\n"}) bt.push_back("DELIMITERS = \"<.>\" ;\n" + k + "ADD (hit) (*) (" + n + p + " " + x + l + ") ;\n");
		v.push_back(wide("bags", bt, inputs(seqs(SV{"_:x,a .:.,p", "_:x,b _:y,a .:.,p", "_:y,c|x,b .:.,q", ".:.,p"}, 1, thorough ? 5 : 3)), {{"--num-windows", "1"}, {}, {"--num-windows", "0", "--always-span"}}));
		// comparisons of values over the bag
		SV bn; for (auto& p : SV{"B", "BW", "NOT B", "NEGATE BW", "B>", "B<"}) for (auto& x : SV{"(<N>2>)", "(<N<3>)", "(<N=3>)", "(<N!=3>)", "(<N=MAX>)", "(<N=MIN>)", "(a <N>2>)", "(<M>=1>)", "(*) - (<N>2>)", "(<N<2>) OR (<M<2>)", "(/^<N/r)", "(\"X\"i)", "(\"<W1>\"i)", "(A)", "(^a b)", "(VAR:v)", "(LVAR:v)", "(VAR:v=1)", "(_MARK_)", "(_TARGET_)", "(_ATTACHTO_)", "(_ENCL_)", "(\"<.*>\"r)", "(\"<.*>\"r a)", "(st)"}) bn.push_back("DELIMITERS = \"<.>\" ;\nSETVARIABLE (v) (1) (b) ;\nADD (hit) (*) (" + p + " " + x + ") ;\n");
		v.push_back(product("bag_values", bn, inputs(seqs(SV{"_:x,<N:1> .:.,p", "_:x,a,<N:2> _:y,<N:5>,<M:1> .:.,p", "_:y,<N:3>|x,b .:.,<N:9>", ".:.,<M:0>"}, 1, thorough ? 5 : 3)), {{"--num-windows", "1"}, {}}));
		return v;
	});
}
