// Set algebra and target matching: LIST/SET expressions, composites, OR + - ^ combinations, (*), fail-fast, sub-readings
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C01", "sets of up to 3 operands over 15 primitive lists/composites/named sets and all operators, lists of up to 3 entries over 12 entries (incl. fail-fast, composites), used as target, context, careful context, through SET definitions and with word-form and sub-reading qualifiers; cohorts of up to 2 readings over 3 tags", [](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n";
		SV prims{"(a)", "(b)", "(a b)", "(c)", "(\"x\")", "(\"<w1>\")", "(*)", "A", "AB", "L", "M"};
		std::string lists = "LIST A = a ;\nLIST AB = (a b) c ;\nLIST L = \"x\" (\"y\" a) b ;\nLIST M = (a c) (b c) \"<w2>\" ;\nSET S = A OR (b) ;\nSET D = L - (a) ;\nSET P = A + (b) ;\nSET E = S - P ;\n";
		prims = prims + SV{"S", "D", "P", "E"};
		SV ops{" OR ", " + ", " - ", " ^ ", " | "};
		SV ex = prims; SV ex2;
		for (auto& p : prims) for (auto& o : ops) for (auto& q : prims) ex2.push_back(p + o + q);
		SV ex3; SV small{"(a)", "(b)", "(a b)", "S", "D", "(*)"};
		for (auto& p : small) for (auto& o : ops) for (auto& q : small) for (auto& o2 : ops) for (auto& z : small) ex3.push_back(p + o + q + o2 + z);
		SV tags{"a", "b", "c"}; SV rd;
		for (auto& b : SV{"x", "y"}) { rd.push_back(b); for (auto& t : subsets(tags, 1, 3, ",")) rd.push_back(b + "," + t); }
		SV coh = cat("_:", rd), coh2; for (size_t i = 0; i < rd.size(); i += 1) for (size_t j = i + 1; j < rd.size(); j += 3) coh2.push_back("_:" + rd[i] + "|" + rd[j]);
		SV in = inputs(coh + coh2), ins = inputs(cat(coh2, SV{" _:x,a|y,b"}));
		auto rule = [&](const SV& e, const std::string& k, const std::string& post = " ;\n") { return cat(H + lists + "SECTION\n" + k, e, post); };
		std::vector<Space> v;
		v.push_back(product("target_map", rule(ex + ex2, "MAP (@m) "), in));
		v.push_back(product("target_map3", rule(ex3, "MAP (@m) "), thorough ? in : inputs(cat("_:", SV{"x|y,a", "x,a|y,b", "x,a,b|y,c", "x,b,c|y,a,c", "x,a,b,c|x"}))));
		v.push_back(product("target_remove", rule(ex + ex2, "REMOVE "), inputs(coh2)));
		v.push_back(product("context_set", rule(ex + ex2, "MAP (@m) (*) IF (0 ", ") ;\n"), inputs(coh2)));
		v.push_back(product("context_careful", rule(ex + ex2, "MAP (@m) (*) IF (0C ", ") ;\n"), inputs(coh2)));
		// SET definitions (named) rather than inline expressions, and sets of sets
		SV named; for (auto& e : ex2) named.push_back(H + lists + "SET T = " + e + " ;\nSET U = T OR (zz) ;\nSET V = (*) - T ;\nSECTION\nADD (@t) T ;\nADD (@u) U ;\nADD (@v) V ;\n");
		v.push_back(product("named_sets", named, inputs(coh2)));
		// LIST contents: every list of up to 3 entries from a menu of tags and composites
		SV ent{"a", "b", "(a b)", "(a c)", "\"x\"", "(\"x\" b)", "(a b c)", "\"<w1>\"", "^c", "(^a b)", "(c ^b)", "(a ^c b)"}; SV ls;
		for (auto& e : seqs(ent, 1, 3)) ls.push_back(H + "LIST T = " + e + " ;\nSECTION\nADD (@t) T ;\nADD (@n) (*) - T ;\n");
		v.push_back(product("list_entries", ls, inputs(coh2)));
		// word form qualifier on rules
		SV wf; for (auto& w : SV{"\"<w1>\"", "\"<w2>\"", "\"<W1>\"i", "\"<w.>\"r"}) for (auto& t : SV{"(a)", "(*)", "S"}) { wf.push_back(H + lists + "SECTION\n" + w + " ADD (@m) " + t + " ;\n"); wf.push_back(H + lists + "SECTION\n" + w + " SELECT " + t + " ;\n"); wf.push_back(H + lists + "SECTION\n" + w + " REMOVE " + t + " IF (1 (b)) ;\n"); }
		v.push_back(product("wordform_rules", wf, ins));
		// sub-readings
		SV sr; for (auto& s : SV{"", "SUB:1 ", "SUB:-1 ", "SUB:2 ", "SUB:0 ", "SUB:* "}) for (auto& t : SV{"(a)", "(b)", "(a) - (b)", "(*)", "(a) OR (c)", "(a b)"}) for (auto& k : SV{"ADD ", "SELECT ", "REMOVE "}) { if (s == "SUB:* " && k == "ADD ") continue; sr.push_back(H + "SECTION\n" + k + s + (k == "ADD " ? "(@m) " : "") + t + " ;\n"); }
		SV sc; for (auto& a : SV{"x,a", "x,b", "x,c"}) for (auto& b : SV{"", "/y,a", "/y,b", "/y,a,b", "/y,a/z,b", "/y/z,a"}) for (auto& c2 : SV{"", "|x,a/y,b", "|q,b", "|q,a"}) sc.push_back("_:" + a + b + c2);
		v.push_back(product("sub_readings", sr, inputs(sc)));
		return v;
	});
}
