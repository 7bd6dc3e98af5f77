// PARENTHESES: enclosures are taken out, put back one at a time, and the rules rerun on each
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C13", "every cohort sequence of up to 8 (thorough: 9) over two kinds of parentheses, words and ends, under programs of reporter rules for every enclosure set, position and rule option; every combination of one enclosure test or option with one editing rule on sequences of up to 6 (thorough: 7)", [](bool thorough) {
		std::vector<Space> v; std::string H = "DELIMITERS = \"<.>\" ;\nPARENTHESES = (\"<(>\" \"<)>\") (\"<[>\" \"<]>\") ;\n";
		auto W = [](const std::string& w, const std::string& t) { return "\"<" + w + ">\"\n\t\"" + w + "\" " + t + "\n"; };
		std::string L = W("(", "o"), R = W(")", "o"), L2 = W("[", "o"), R2 = W("]", "o"), N = W("w", "n"), X = W("x", "m"), D = W(".", "p");
		auto S = [&](const SV& i, int lo, int hi) { return seqs(i, lo, hi, ""); };
		std::string rep = "ADD (encl) _ENCL_ ;\nADD (left) _LEFT_ ;\nADD (right) _RIGHT_ ;\nADD (par) _PAREN_ ;\nADD (posl) (*) (L (*)) ;\nADD (posr) (*) (R (*)) ;\nSUBSTITUTE ENCL_INNER (n) (n in) (n) ;\nSUBSTITUTE ENCL_OUTER (n) (n out) (n) ;\nSUBSTITUTE ENCL_FINAL (n) (n fin) (n) ;\nSUBSTITUTE ENCL_ANY (o) (o any) (o) ;\n";
		std::string ord = "SUBSTITUTE (k3) (k4) (k3) (0** (*)) ;\nSUBSTITUTE (k2) (k3) (k2) ;\nSUBSTITUTE (k1) (k2) (k1) ;\nADD (k1) (*) (NOT 0 (k2) OR (k3) OR (k4)) ;\nSECTION\nSUBSTITUTE (k4) (k5) (k4) ;\n";
		std::string ctx = "SECTION\nADD (lp) (n) (L (\"<(>\")) ;\nADD (rp) (n) (R (\"<]>\")) ;\nADD (ln) (n) (L (*) LINK 1 (n)) ;\nADD (rr) (n) (R (*) LINK -1 (n)) ;\nADD (nx) (*) (1 (n)) ;\nADD (pv) (*) (-1 (n)) ;\nADD (sc) (*) (1* (n) BARRIER (\"<(>\")) ;\nADD (nl) (*) (NOT L (*)) ;\n";
		SV items{L, R, L2, R2, N, D};
		v.push_back(product("nesting", {H + rep, H + ord, H + ctx}, S(items, 1, thorough ? 7 : 6), {{}, {"--num-windows", "0"}}));
		v.push_back(product("one_kind", {H + rep, H + ord, H + ctx, H + "BEFORE-SECTIONS\nADD (b) (*) ;\n" + ord}, S({L, R, N}, 7, thorough ? 10 : 9)));
		// readings that carry the parentheses as tags; ambiguous parentheses; parentheses outside windows
		SV odd{"\"<a>\"\n\t\"a\" pl\n", "\"<b>\"\n\t\"b\" pr\n", "\"<c>\"\n\t\"c\" pl\n\t\"c\" n\n", "\"<d>\"\n\t\"d\" pl pr\n", "\"<w>\"\n\t\"w\" n\n\t\t\"s\" pr\n", N, D, "\"<e>\"\n", "\"<f>\" pl\n\t\"f\" n\n"};
		std::string H2 = "DELIMITERS = \"<.>\" ;\nPARENTHESES = (pl pr) ;\n", H3 = "DELIMITERS = \"<.>\" ;\nPARENTHESES = (pl pr) (\"w\" \"<e>\") (q q) ;\n";
		v.push_back(product("tag_parentheses", {H2 + rep, H3 + ord, H3 + rep}, S(odd, 1, thorough ? 6 : 5)));
		// editing rules together with enclosures
		SV ed{"REMOVE (n) (L (*)) ;", "SELECT (n) (NOT L (*)) ;", "REMCOHORT (n) (L (*)) ;", "REMCOHORT (n) (-1 (m)) ;", "ADDCOHORT (\"<k>\" \"k\" n) AFTER (m) ;", "ADDCOHORT (\"<k>\" \"k\" q) BEFORE (n) (L (*)) ;", "MOVE (n) BEFORE (-1 (m)) ;", "MOVE (m) AFTER (1* (n)) ;", "SWITCH (n) WITH (1 (m)) ;", "SETPARENT (n) TO (L (*)) ;", "SETPARENT (m) TO (1* (n)) ;", "SETCHILD (n) TO (R (*)) ;", "DELIMIT (n) ;", "DELIMIT (m) (-1* (o)) ;", "APPEND (\"z\" z) (n) (NEGATE L (*)) ;", "ADD ENCL_FINAL (f) (*) (1* (m)) ;", "ADD ENCL_INNER (f) (*) (1 (m)) ;", "ADD ENCL_OUTER (f) (*) (1 (m)) ;", "REMCOHORT (\"<(>\") ;", "REMCOHORT (\"<)>\") ;", "REMCOHORT IGNORED (m) ;", "SETRELATION (r) (n) TO (1* (m)) ;", "MERGECOHORTS (\"<mm>\" \"mm\" g) (n) WITH (1 (m)) ;", "COPYCOHORT (cp) (m) TO BEFORE (1* (n)) ;"};
		SV prg; for (auto& e : ed) { prg.push_back(H + e + "\n" + rep); prg.push_back(H + rep + e + "\n" + ctx); } 
		auto grow = [](const std::string& r) { return !r.compare(0, 9, "ADDCOHORT") || !r.compare(0, 4, "COPY"); }; auto shift = [&](const std::string& r) { return grow(r) || !r.compare(0, 4, "MOVE") || !r.compare(0, 6, "SWITCH"); };
		for (auto& a : ed) for (auto& b : ed) if (!(grow(a) && shift(b)) && !(grow(b) && shift(a))) prg.push_back(H + "SECTION\n" + a + "\n" + b + "\nADD (nx) (*) (1 (n)) ;\nADD (lt) (*) (-1* (m) BARRIER (o)) ;\n");
		SV st; for (auto& s : S({L, R, N, X}, 3, thorough ? 6 : 5)) { auto c = [&](const std::string& x) { size_t k = 0; for (size_t p = 0; (p = s.find(x, p)) != std::string::npos; ++p) ++k; return k; }; if (c("<(>") && c("<)>")) st.push_back(s); }
		v.push_back(product("edits", prg, st + SV{L + N + R + X + L2 + N + R2 + D + N, L + L2 + N + R2 + X + R + D, N + L + X + N + D + L + N + R}));
		return v;
	});
}
