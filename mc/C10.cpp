// Unification ($$, &&) and variable strings (VSTR:, "..."v, captures, {sets}, case markers)
#include "enumr.hpp"
#include <cstring>
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C10", "every rule shape over tag-unified, set-unified and nested unified sets x every window of up to three cohorts over the member tags; every capture pattern (target and context) x every variable-string form x rule kind",
	[](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\nSOFT-DELIMITERS = \"<,>\" ;\nLIST N = a b c ;\nLIST C = (a k) (b k) b ;\nLIST O = a b ;\nLIST Q = c d ;\nLIST R = /^[ab]$/r \"x.*\"r <t.>r ;\nLIST D = d k ;\nLIST K1 = k1 ;\nLIST K2 = k2 ;\nSET S = O OR Q ;\nSET S3 = O OR Q OR D ;\nSET P = N + (k) ;\nSET M = N - (b) ;\nSET U = N OR D ;\nSET T = N OR (d) ;\nSET X = $$N OR $$D ;\n";
		std::vector<Space> v;
		// windows: one candidate tag per reading keeps the choice determined; two candidates are explored as well (ambiguous ones are counted)
		SV rd{"x", "x,a", "x,b", "x,c", "x,d", "x,k", "x,a,k", "x,b,k", "x,c,d", "x,a,c"};
		SV co; for (auto& a : rd) co.push_back("_:" + a); for (size_t i = 0; i < rd.size(); i += thorough ? 1 : 2) for (size_t j = 1; j < rd.size(); j += 2) co.push_back("_:" + rd[i] + "|y" + rd[j].substr(1));
		SV w2 = cat(co, co, " "), w3; for (auto& a : SV{"_:x,a", "_:x,b|y,a", "_:x,d", "_:x,a,k"}) for (auto& b : SV{"_:x,a", "_:x,b|y,c", "_:x,d|y,k", "_:x,k,b"}) for (auto& c : co) w3.push_back(a + " " + b + " " + c);
		SV sets{"$$N", "$$C", "$$P", "$$M", "$$U", "$$T", "&&S", "&&S3", "$$R", "X", "$$N + (k)", "$$N OR (d)", "$$N - (b)", "(k) + $$N", "$$O + $$Q", "&&S + (k)"};
		SV sh{"SELECT % (1 %) ;", "REMOVE % (-1 %) ;", "ADD (hit) % (1 %) ;", "ADD KEEPORDER (hit) % (1 %) ;", "ADD (hit) % (NOT 1 %) ;", "ADD (hit) % (1C %) ;", "ADD (hit) (*) (0 %) (1 %) ;", "ADD (hit) % (1* %) ;", "ADD (hit) % (1 (*) LINK -1 %) ;", "ADD (hit) % (1* % LINK 0 (k)) ;", "ADD (hit) % (*1 (*) BARRIER %) ;", "ADD (hit) % (NEGATE 1 %) ;", "IFF % (1 %) ;", "ADD (hit) (*) (0 %) (NOT 1 %) ;", "ADD (hit) % ((1 %) OR (-1 %)) ;", "ADD UNIFYCAPTURES?(hit) % (1 %) ;", "SELECT KEEPORDER % (0 (k)) (1 %) ;", "ADD (hit) % (1 % LINK 1 %) ;", "ADD (hit) % (ALL 1* %) ;", "ADD (hit) % (NONE 1* %) ;", "ADD (hit) (k) (-1* %) (1* %) ;", "SUBSTITUTE (k) (kk) % (1 %) ;", "ADD (hit) % (1 %) (-1 %) ;"};
		for (auto& s : sh) { auto p = s.find("UNIFYCAPTURES?"); if (p != std::string::npos) s.replace(p, 14, "CAPTURE_UNIF "); }
		SV g; for (auto& s : sets) for (auto k : sh) { for (size_t p; (p = k.find('%')) != std::string::npos;) k.replace(p, 1, s); g.push_back(H + k + "\n"); }
		v.push_back(product("unify2", g, inputs(w2)));
		v.push_back(product("unify3", g, inputs(w3)));
		// unified values used for tagging
		SV ug; for (auto& s : SV{"N", "O", "U", "T"}) for (auto& u : SV{"ADD (VSTR:u:{$$%}) $$% (1 $$%) ;", "ADD (VSTR:{$$%}_x) (*) (1 $$%) ;", "APPEND (\"q\" VSTR:{$$%}) $$% (1 $$%) ;", "SUBSTITUTE (k) (VSTR:%U{$$%}) $$% (-1 $$%) ;", "ADD $$% (k) (1 $$%) ;", "MAP (@m VSTR:@{$$%}) $$% (1 $$%) ;", "ADD (VSTR:{$$%}) (*) (-1 $$%) (NOT 1 (VSTR:{$$%})) ;", "REMOVE $$% (1 (VSTR:{$$%})) ;", "ADDCOHORT (\"<n>\" \"n\" VSTR:n{$$%}) AFTER $$% (1 $$%) ;"}) {
			std::string k = u; for (size_t p = 0; (p = k.find("$$%", p)) != std::string::npos;) k.replace(p + 2, 1, s); ug.push_back(H + k + "\n"); }
		for (auto& u : SV{"ADD (VSTR:{&&S}) &&S (1 &&S) ;", "ADD &&S (k) (1 &&S) ;", "ADD (VSTR:{K1}) (k) ;", "ADD (VSTR:x{K1}y{K2}z) (*) ;"}) ug.push_back(H + u + "\n");
		v.push_back(product("unified_values", ug, inputs(w2)));
		// captures
		SV caps{"(/^\\(.\\)b$/r)", "(\"x(.*)\"r)", "(\"<(.)(.)>\"r)", "(<t\\(.\\)>r)", "(\"(.)(.)\"ri)", "(/^\\(a\\)\\(b\\)?$/r)", "(/^\\(.\\)b$/r \"x(.*)\"r)", "(\"x(.*)\"r <t\\(.\\)>r)"};
		SV vs{"VSTR:v$1", "VSTR:%u$1%L$2", "VSTR:$1$1", "VSTR:%U$1_x", "VSTR:%lX$1Y", "VSTR:p%Uq$1%lR", "\"$1\"v", "\"<n$1>\"v", "<$1>v", "VSTR:$2$1", "VSTR:@$1", "VSTR:$1%u", "VSTR:%U%l$1AB", "VSTR:%u%u$1", "VSTR:a$1b$3", "VSTR:$1$$1"};
		SV cg; for (auto& c : caps) for (auto& s : vs) {
			bool wf = s[0] == '"' && s[1] == '<', bf = s[0] == '"' && !wf;
			if (!wf && !bf) { cg.push_back(H + "ADD (" + s + ") " + c + " ;\n"); cg.push_back(H + "ADD (" + s + ") (*) (1 " + c + ") ;\n"); cg.push_back(H + "ADD (" + s + ") " + c + " (-1 " + c + ") ;\n"); cg.push_back(H + "MAP (" + s + ") " + c + " ;\n"); cg.push_back(H + "REPLACE (" + s + " z) " + c + " ;\n"); cg.push_back(H + "SUBSTITUTE (k) (" + s + ") " + c + " ;\n"); cg.push_back(H + "ADD (" + s + ") (k) (NOT 1 (zz)) (1* " + c + ") ;\n"); cg.push_back(H + "ADD AFTER (k) (" + s + ") " + c + " ;\n"); cg.push_back(H + "SUBSTITUTE " + c + " (" + s + ") (*) ;\n"); }
			if (bf) { cg.push_back(H + "APPEND (" + s + " n) " + c + " ;\n"); cg.push_back(H + "SUBSTITUTE (\"xy\") (" + s + ") " + c + " ;\n"); cg.push_back(H + "ADDCOHORT (\"<new>\" " + s + ") AFTER " + c + " ;\n"); cg.push_back(H + "ADD (hit) " + c + " (-1 (" + s + ")) ;\n"); }
			if (wf) { cg.push_back(H + "ADDCOHORT (" + s + " \"n\") BEFORE " + c + " ;\n"); cg.push_back(H + "SUBSTITUTE (\"<xb>\") (" + s + ") " + c + " ;\n"); }
			cg.push_back(H + "ADD (hit) " + c + " (1 (" + s + ")) ;\n"); cg.push_back(H + "ADD (hit) " + c + " (NOT 1 (" + s + ")) ;\n"); cg.push_back(H + "ADD (hit) (*) (1 " + c + " LINK -1 (" + s + ")) ;\n"); cg.push_back(H + "REMOVE " + c + " (1 (" + s + ")) ;\n"); cg.push_back(H + "SELECT " + c + " (0 (" + s + ")) ;\n");
		}
		{ SV f; for (auto& x : cg) if (x.find("$3") == std::string::npos && x.find("$$1") == std::string::npos) f.push_back(x); cg = f; }
		SV cr{"x,ab", "xy,Bb", "Xz,ab,<tq>", "xyz,k", "x,cb,k", "y,<tA>,k", "xa,a", "xv,va,<a>", "y,B,Y", "xbb,vB,<y>"}; SV ci; for (auto& a : cr) { ci.push_back("_:" + a); for (auto& b : cr) { ci.push_back("_:" + a + " _:" + b); ci.push_back("_:" + a + "|" + b + " _:" + cr[(a.size() * 3 + b.size()) % cr.size()]); } }
		SV cin = inputs(ci); for (size_t i = 0; i < cr.size(); i += 2) cin.push_back(engine::cohorts("ab:" + cr[i] + " xb:" + cr[(i + 3) % cr.size()] + " Q1:" + cr[(i + 4) % cr.size()]));
		v.push_back(product("captures", cg, cin));
		// one rule must not see what another rule, cohort or reading bound
		SV two; SV A{"ADD (m1) $$N (1 $$N) ;", "ADD (VSTR:v$1) (/^\\(.\\)b$/r) ;", "REMOVE $$N (1 $$N) ;", "ADD (m1) (*) (1 (\"x(.*)\"r)) ;", "ADD (m1) &&S (1 &&S) ;", "ADD (VSTR:v{$$O}) $$O ;", "SELECT (\"x(.*)\"r) (1 (\"$1\"v)) ;"};
		SV B{"ADD (m2) $$N (-1 $$N) ;", "ADD (VSTR:w$1) (\"x(.*)\"r) ;", "ADD (m2) $$O ;", "ADD (VSTR:w{$$N}) $$N (1 $$N) ;", "REMOVE &&S (-1 &&S) ;", "ADD (VSTR:w$1) (*) (1 (/^\\(.\\)b$/r)) ;", "SUBSTITUTE (k) (VSTR:w$1) (/^\\(.\\)b$/r) ;"};
		for (auto& a : A) for (auto& b : B) { two.push_back(H + a + "\n" + b + "\n"); two.push_back(H + "SECTION\n" + b + "\n" + a + "\n"); }
		SV ti; SV tr{"xa,a", "xb,b", "y,ab", "xc,c,cb", "x,d", "xd,a,bb", "z,b|xz,a", "x,ab|xq,bb|q,c"}; for (auto& a : tr) for (auto& b : tr) for (auto& c : tr) ti.push_back("_:" + a + " _:" + b + " _:" + c);
		v.push_back(product("isolation", two, inputs(ti)));
		// sets that bind several values at once, and any-tags
		std::string H2 = H + "SET OQ = O + Q ;\nSET QO = Q + O + (*) ;\nSET OM = O - Q ;\nSET ON = (k) OR O + Q OR D ;\nLIST AB = \".*\"r ;\nLIST AW = \"<.*>\"r ;\nLIST AT = <.*>r ;\nLIST AM = \".*\"r <.*>r ;\nLIST AC = (\".*\"r a) (\".*\"r <.*>r b) ;\nSET AX = AB + O ;\n";
		SV ms; for (auto& s : SV{"$$OQ", "$$QO", "$$OM", "$$ON", "$$AB", "$$AW", "$$AT", "$$AM", "$$AC", "$$AX", "AB", "AT", "$$OQ OR $$D", "$$AB + (a)", "$$O + $$AB"}) for (auto k : sh) { for (size_t p; (p = k.find('%')) != std::string::npos;) k.replace(p, 1, s); ms.push_back(H2 + k + "\n"); }
		SV mr{"x", "x,a", "x,a,c", "x,b,c", "x,a,b,c,d", "y,a,d", "y,k", "z,b,<t>", "x,<u>,c", "y,d"}; SV mi; for (auto& a : mr) for (auto& b : mr) { mi.push_back("_:" + a + " _:" + b); for (auto& c : SV{"x,a,c", "y,b,d", "x,<t>"}) mi.push_back("_:" + a + "|" + c + " _:" + b + " _:" + c); }
		v.push_back(wide("several_values", ms, inputs(mi)));
		// every sequence of case markers, text and references
		SV cm; for (auto& s : seqs({"%u", "%U", "%l", "%L", "aB", "$1"}, 1, thorough ? 5 : 4, "")) if (s.find("$1") != std::string::npos) cm.push_back(H + "ADD (VSTR:_" + s + ") (\"x(.*)\"r) ;\n");
		v.push_back(wide("case_markers", cm, inputs(SV{"_:xaB,k _:x,k _:xBcD,k"})));
		// long captures and many groups
		SV lw; for (int n : {1, 9, 255, 256, 500, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 3000}) { std::string a(n, 'q'), e; for (int i = 0; i < n; ++i) e += "\xc3\xa9"; lw.push_back("_:x" + a + ",k"); lw.push_back("_:x" + e + ",k"); lw.push_back("_:" + a + "y" + a + ",x"); lw.push_back("_:x," + a + "b"); }
		v.push_back(product("long_captures", cat(H, SV{"ADD (VSTR:v$1) (\"x(.*)\"r) ;\n", "ADD (VSTR:%Uv$1) (\"x(.*)\"r) ;\n", "ADD (VSTR:v$2_$1) (\"(.*)y(.*)\"r) ;\n", "ADD (VSTR:v$1$1) (/^\\(.*\\)b$/r) ;\n", "SUBSTITUTE (\"(.*)y.*\"r) (\"n$1\"v) (*) ;\n", "APPEND (\"$1\"v) (\"x(.*)\"r) ;\n"}), inputs(lw)));
		SV ng; for (int n = 1; n <= 12; ++n) { std::string a, b, c; for (int i = 0; i < n; ++i) { a += "(.)"; b += "\\(.\\)"; } for (int k = 1; k <= 9; ++k) { ng.push_back(H + "ADD (VSTR:v$" + std::to_string(k) + ") (\"" + a + ".*\"r) ;\n"); if (n < 8) ng.push_back(H + "ADD (VSTR:v$" + std::to_string(k) + ") (\"" + a + ".*\"r /^" + b + "/r) ;\n"); ng.push_back(H + "ADD (VSTR:v$" + std::to_string(k) + ") (/^" + b + "/r) (-1 (\"(.)(.).*\"r)) ;\n"); } ng.push_back(H + "ADD (VSTR:v$1$2$3$4$5$6$7$8$9) (\"" + a + ".*\"r) ;\n"); ng.push_back(H + "ADD (hit) (/^" + b + "/r) (1 (\"$2\"v) OR (VSTR:$1)) ;\n"); }
		v.push_back(product("many_groups", ng, inputs(SV{"_:abcdefghijkl,mnopqrstuvwxyz _:m,k _:ihz,m", "_:abc,mnopqr _:uts,k,abcdefghijkl", "_:abcdefghi,ABCDEFGHI _:AbcdefghiJ,x"})));
		// a regular expression used both by a delimiter and by a rule
		SV dl; for (auto& d : SV{"DELIMITERS = \"<\\(.\\)>\"r ;\n", "DELIMITERS = \"<(.)>\"r ;\n", "DELIMITERS = \"<.>\" ;\nSOFT-DELIMITERS = \"<(.)>\"r ;\n", "DELIMITERS = \"x(.*)\"r ;\n", "DELIMITERS = /^\\(.\\)b$/r \"<.>\" ;\n"}) for (auto& t : SV{"\"<(.)>\"r", "\"<\\(.\\)>\"r", "\"x(.*)\"r", "/^\\(.\\)b$/r"}) for (auto& r : SV{"ADD (VSTR:v$1) (%) ;\n", "ADD (VSTR:v$1) (*) (-1 (%)) ;\n", "ADD (VSTR:v$1) (*) (1 (%)) ;\n", "ADD (k) (%) ;\nADD (VSTR:v$1) (*) (0 (%)) ;\n"}) { std::string x = r; for (size_t p; (p = x.find('%')) != std::string::npos;) x.replace(p, 1, t); dl.push_back(d + x); }
		SV dw; for (auto& s : seqs({"_:xa,k", "p:x,ab", "q:xb,bb|y,cb", ".:.,p", "p:z,k"}, 1, 4)) dw.push_back(s);
		v.push_back(product("delimiter_captures", dl, inputs(dw)));
		// _SAME_BASIC_ over readings that differ in mapping tags, values or order
		SV sb; for (auto& x : SV{"ADD (hit) (*) (1 _SAME_BASIC_) ;", "ADD (hit) (*) (0 _SAME_BASIC_) ;", "ADD (hit) (a) (-1 _SAME_BASIC_) ;", "ADD (hit) (*) (1C _SAME_BASIC_) ;", "ADD (hit) (*) (NOT 1 _SAME_BASIC_) ;", "ADD (hit) (*) (1* _SAME_BASIC_) ;", "ADD (hit) (*) (1 (a) + _SAME_BASIC_) ;", "SELECT (*) (-1 _SAME_BASIC_) ;", "REMOVE (a) (1 _SAME_BASIC_) ;", "ADD (hit) (*) (0 (*) - _SAME_BASIC_) ;", "REMOVE (@A) (0 _SAME_BASIC_) ;", "ADD (t) (a) ;\nADD (hit) (*) (1 _SAME_BASIC_) ;", "SUBSTITUTE (b) (a) (*) ;\nADD (hit) (*) (-1 _SAME_BASIC_) ;", "MAP (@Z) (a) ;\nADD (hit) (*) (1* _SAME_BASIC_) ;"}) sb.push_back(H + x + "\n");
		SV sr{"x,a", "x,a,@A", "x,b", "x,a,@A|x,a,@B", "x,a,b|x,b,a", "y,a|x,b", "x,b,@A|x,a,@A", "x,a|x,b", "x,a,@A,@B", "x,a,1", "x,b,a,1"}; SV si; for (auto& a : sr) for (auto& b : sr) { si.push_back("_:" + a + " _:" + b); si.push_back("_:" + a + " _:" + b + " _:x,a,@B|y,b"); }
		v.push_back(product("same_basic", sb, inputs(si)));
		return v;
	});
}
