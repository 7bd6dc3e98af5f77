// One or a few exemplars of every kind of rule, set, tag and test, for enumerating how rules affect one another.
#pragma once
#include "enumr.hpp"
namespace zoo {
inline std::string head() {
	return "DELIMITERS = \"<.>\" ;\nPARENTHESES = (\"<[>\" \"<]>\") ;\nMAPPING-PREFIX = @ ;\nLIST A = a ;\nLIST AB = a b ;\nLIST M = @m @n ;\nSET NOTA = (*) - A ;\nSET ABC = AB + (c) ;\nTEMPLATE t = 1 (b) ;\nTEMPLATE u = (-1* (a) LINK 1 (*)) OR (1 (c)) ;\n";
}
inline SV rules() {
	return {
		// readings
		"SELECT (a) (1 (b)) ;", "REMOVE (b) (-1* (a)) ;", "REMOVE AB (1 (*)) ;", "SELECT NOTA (NOT -1 (*) - (>>>)) ;", "IFF (c) (1* (b)) ;", "REMOVE UNSAFE (c) (NEGATE 1* (b)) ;", "REMOVE DELAYED (b) (1 (*)) ;", "RESTORE (b) (*) (1 (a)) ;", "\"<w2>\" SELECT (c) ;", "REMOVE (@m) ;", "SELECT SUB:1 (b) ;",
		// tags
		"ADD (z) (a) ;", "ADD (z) (*) (T:t) ;", "ADD (y) (*) (1* (z) BARRIER (c)) ;", "MAP (@m) (b) (-1 (*)) ;", "MAP (@n) (a) ;", "REPLACE (\"r\" b) (c) ;", "SUBSTITUTE (a) (b) (*) (1 (c)) ;", "SUBSTITUTE (b) (*) (b) ;", "SUBSTITUTE (\"x\") (\"y\") (c) ;", "SUBSTITUTE (c) (a) (c) (NOT 1* (a)) ;", "UNMAP (*) ;", "ADD SUB:1 (s) (*) ;", "ADD SUB:-1 (s2) (b) ;", "ADD (VSTR:q$1) (/^\"\\(.*\\)\"$/r) ;", "ADD (num <N=3>) (c) ;", "ADD (big) (<N>2>) ;", "ADD (u) $$AB (1* $$AB) ;", "ADD (uu) &&ABC (1 &&ABC) ;", "ADD (mx) (<N=MAX>) ;", "ADD (k) (b) + (c) OR (z) - (y) ;", "ADD (ff) (b ^c) ;", "ADD (rx) (\"x.*\"r) ;", "ADD (ic) (\"X\"i) ;", "ADD (tp) (*) (1 T:u) ;", "ADD (st) (*) (-1 (\"<w1>\"i)) ;", "ADD (ln) (/a.*b/l) ;",
		// readings made
		"APPEND (\"p\" b c) (a) (NOT 0 (\"p\")) ;", "COPY (cp) (b) (NOT 0 (cp)) ;", "COPY (cp2) EXCEPT (a) (a) (NOT 0 (cp2)) ;",
		// cohorts
		"REMCOHORT (c) (-1 (a)) ;", "REMCOHORT (b) (1 (<<<) OR (c)) ;", "ADDCOHORT (\"<i>\" \"i\" b) BEFORE (a) (NOT -1* (\"i\")) (NOT 1* (\"i\")) ;", "ADDCOHORT (\"<j>\" \"j\" a) AFTER (c) (NOT 1* (\"j\")) (NOT -1* (\"j\")) ;", "MOVE (c) BEFORE (-1* (a)) ;", "MOVE (a) AFTER (1* (b)) (NOT 0 (mv)) ;", "SWITCH (b) WITH (1 (a)) ;", "SPLITCOHORT (\"<s1>\" \"s1\" a 1->2 \"<s2>\" \"s2\" b 2->p) (c) ;", "MERGECOHORTS (\"<m>\" \"m\" c) (a) WITH (1 (b)) ;", "COPYCOHORT (cc) (a) TO AFTER (1 (c)) (NOT 0 (cc)) (NOT 1* (cc)) (NOT -1* (cc)) ;", "DELIMIT (b) (-1 (a)) (1 (*) - (<<<)) ;",
		// dependencies and relations
		"SETPARENT (b) TO (-1* (a)) ;", "SETPARENT (*) (NONE p (*)) TO (1* (c)) ;", "SETCHILD (a) TO (1* (b)) (NOT c (b)) ;", "SWITCHPARENT (b) ;", "REMPARENT (c) ;", "ADD (hp) (*) (p (a)) ;", "ADD (hc) (*) (c* (b)) ;", "ADD (hs) (*) (s (*)) ;", "REMOVE (c) (p (b)) ;", "ADDRELATION (r) (a) TO (1* (b)) ;", "SETRELATION (r) (b) TO (-1* (c)) ;", "REMRELATION (r) (a) TO (1* (*)) ;", "ADDRELATIONS (r) (s) (c) TO (-1 (*)) ;", "ADD (hr) (*) (r:r (*)) ;", "REMOVE (b) (r:* (a)) ;",
		// variables, enclosures, protection, blocks, flow
		"SETVARIABLE (v) (1) (a) (1 (*)) ;", "REMVARIABLE (v) (c) ;", "ADD (vv) (*) (0 (VAR:v)) ;", "REMOVE (b) (0 (VAR:v=1)) ;", "ADD (lp) (*) (L (*)) ;", "ADD (en) (*) (0 (_ENCL_)) ;", "ADD (pl) (_LEFT_) ;", "ADD (pr) (*) (-1* (_LEFT_)) ;", "PROTECT (a) (1 (b)) ;", "UNPROTECT (a) (-1 (*)) ;", "WITH (a) (1* (b)) {\nADD (wi) _C1_ ;\nREMOVE (c) (1* _C1_) ;\n} ;", "WITH (*) (-1 (a)) {\nSETPARENT (*) TO (jC1 (*)) ;\nADD (wt) (*) ;\n} ;", "JUMP (e) (c) (1 (a)) ;", "ADD (mk) (1X (b)) (*) ;",
		// looking at what others removed
		"ADD (dd) (*) (1D (b)) ;", "ADD (dl) (*) (0d (b)) ;", "ADD (ig) (*) (-1I (*)) ;", "ADD (sb) (*) (1/1 (b)) ;", "ADD (ca) (*) (1C AB) ;", "ADD (sp) (*) (1*W (<<<) LINK 1W (a)) ;", "ADD (bg) (*) (B (z)) ;", "ADD (ab) (*) (@1 (a)) ;", "ADD (al) (*) (ALL 1* NOTA) ;",
	};
}
inline SV menu() { SV r; for (auto& x : rules()) if (x.find("1X (b)) (*)") == std::string::npos) r.push_back(x); return r; }
inline SV texts() {
	return inputs({"_:x,a _:x,b|x,c _:x,c", "_:x,b,#1->2 _:x,a|z,b,#2->0 _:x,c|x,a,#3->2 _:x,b,#4->3", "_:x,a,c,b/y,b _:x,c,<N=2>|w,b,<N=4> _:x,b", "_:x,c _:x,a|q,b,@n .:p _:x,b|x,a _:x,c"});
}
inline SV parens() { return {"\"<w1>\"\n\t\"x\" b\n\"<[>\"\n\t\"[\" a\n\"<w2>\"\n\t\"x\" a\n\t\"x\" b\n\"<]>\"\n\t\"]\" c\n\"<w3>\"\n\t\"x\" c\n\t\"x\" a\n"}; }
}
