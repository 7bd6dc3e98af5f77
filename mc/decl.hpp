// Grammar-level declarations and rule bodies whose every combination is written, read and run
#pragma once
#include "meta.hpp"
// grammar-level declarations, every one with every kind of rule that could look at it
inline SV headers() {
	return {"DELIMITERS = \"<.>\" ;\n", "DELIMITERS = \"<.>\" \"<!>\" \"<\\\\?>\"r ;\nSOFT-DELIMITERS = \"<,>\" ;\n", "DELIMITERS = \"<.>\" ;\nTEXT-DELIMITERS = /^==/r ;\n", "DELIMITERS = \"<.>\" ;\nMAPPING-PREFIX = ¤ ;\n", "DELIMITERS = \"<.>\" ;\nSUBREADINGS = LTR ;\n", "DELIMITERS = \"<.>\" ;\nSUBREADINGS = RTL ;\n",
		"DELIMITERS = \"<.>\" ;\nOPTIONS += addcohort-attach ;\n", "DELIMITERS = \"<.>\" ;\nOPTIONS += no-inline-sets ;\nLIST n = n ;\nLIST a = a ;\nLIST Ø = ø \"æ\" ;\n", "DELIMITERS = \"<.>\" ;\nOPTIONS += ordered ;\n", "DELIMITERS = \"<.>\" ;\nOPTIONS += self-no-barrier ;\n", "DELIMITERS = \"<.>\" ;\nREOPEN-MAPPINGS = @m ;\n", "DELIMITERS = \"<.>\" ;\nPREFERRED-TARGETS = a n ;\n", "DELIMITERS = \"<.>\" ;\nSTATIC-SETS = N A ;\nLIST N = n ;\nSET A = N - (a) ;\n",
		"DELIMITERS = \"<.>\" ;\nCMDARGS += --trace ;\n", "DELIMITERS = \"<.>\" ;\nCMDARGS += --no-mappings --unsafe ;\n", "DELIMITERS = \"<.>\" ;\nCMDARGS-OVERRIDE += --no-corrections ;\n", "DELIMITERS = \"<.>\" ;\nCMDARGS += --max-runs=2 ;\nCMDARGS-OVERRIDE += --trace ;\n", "DELIMITERS = \"<.>\" ;\nPARENTHESES = (\"<(>\" \"<)>\") ;\n", "DELIMITERS = \"<.>\" ;\nLIST LONG = aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa ø \"日本\" (n a) \"<😀>\" ;\n",
		"DELIMITERS = \"<.>\" ;\nSTRICT-TAGS += n a d x y @m @n t u hit ¤x ¤y z v t1 t2 r nn never l kk end cc c b any k s zz \"k\" \"z\" \"<k>\" \"<l>\" \"l\" \"g\" \"<g>\" w here s2 nx \"<(>\" \"<)>\" ø ;\nLIST-TAGS += n a ;\n"};
}
inline SV bodies() {
	return {"SELECT (n) ;", "SELECT:named (n) IF (1 (a)) ;", "REMOVE:ø (a) ;", "MAP (@n) (n) ;", "ADD (¤x) (n) ;\nADD (¤y) (n) ;", "SECTION\nADD (t) (n) ;\nSECTION s2 ;\nADD (u) (t) ;", "BEFORE-SECTIONS\nADD (b) (n) ;\nSECTION\nREMOVE (a) ;\nAFTER-SECTIONS\nADD (c) (b) ;\nNULL-SECTION\nADD (never) (*) ;", "SECTION\nANCHOR here ;\nADD (t) (n) (NOT 0 (t)) ;\nJUMP (end) (a) ;\nADD (u) (*) ;\nANCHOR end ;\nADD (v) (*) ;", "\"<w1>\" ADD (t) (*) ;", "\"<W1>\"i REMOVE (n) (0 (a)) ;", "ADDCOHORT (\"<k>\" \"k\" n) AFTER (a) (NOT 1 (n)) (NOT c (*)) ;\nADD (t) (*) (p (*)) ;", "ADDCOHORT (\"<k>\" \"k\" ø) BEFORE (n) IF (NOT -1 (ø)) ;",
		"SUBSTITUTE (n) (nn) (n) ;", "APPEND (\"z\" z) (n) ;", "COPY (c) EXCEPT (a) (n) ;", "SUBSTITUTE SUB:1 (a) (b) (n) ;\nADD SUB:-1 (l) (*) ;\nADD (any) (b) ;", "ADD (t) (*) (0/1 (a)) ;\nADD (u) (*) (1/* (n)) ;", "SETPARENT (n) TO (1 (a)) ;\nADD (t) (*) (c (n)) ;", "SETRELATION (r) (n) TO (1* (a)) ;\nADD (t) (*) (r:r (a)) ;", "ADDRELATIONS (r) (s) (n) TO (1* (a)) ;", "TEMPLATE tp = (1 (a)) OR (-1 (n) LINK 1 (a)) ;\nADD (t) (*) (T:tp) ;", "SET U = $$N ;\nADD (t) $$V (1 $$V) ;", "ADD (VSTR:\"x$1y\") (\"(.)\"r) ;", "ADD (VSTR:v{V}) V ;", "SETVARIABLE (v) (1) (n) ;\nADD (t) (*) (0 (VAR:v)) ;\nADD (t1) (*) (0 (VAR:v=1)) ;\nADD (t2) (*) (0 (VAR:v=2)) ;", "WITH (n) (1 (a)) {\nADD (t) _C1_ ;\nSETPARENT (*) TO (jC1 (*)) ;\n} ;\nADD (u) (*) (p (t)) ;", "WITH (n) {\nWITH (*) (1* (a)) {\nADD (t) _C1_ ;\n} ;\n} ;", "ADD (t) (*) (B (n)) ;", "ADD (t) (*) (1* (a) BARRIER (n) LINK 0/0 (*)) ;\nADD (u) (*) (1* (a) CBARRIER (n)) ;", "ADD (t) (*) (*-1W (n)) ;\nADD (u) (*) (1*> (n)) ;", "PROTECT (a) ;\nREMOVE (a) ;\nREMOVE (n) ;", "REMOVE (n) ;\nREMOVE (*) ;", "DELIMIT (a) ;\nADD (t) (*) (1*W (n)) ;", "SPLITCOHORT (\"<k>\" \"k\" kk 1->2 \"<l>\" \"l\" n 2->p) (a) (NOT 0 (kk)) ;", "MERGECOHORTS (\"<g>\" \"g\" n) (a) WITH (1 (*)) ;", "COPYCOHORT (cc) (a) TO AFTER (1 (*)) (NOT 0 (cc)) ;", "MOVE WITHCHILD (*) (a) AFTER (1 (*)) ;\nSWITCH (n) WITH (-1 (*)) ;", "REMCOHORT IGNORED WITHCHILD (*) (a) ;", "ADD (t) (<N>5>) ;\nADD (u) (<N=MAX>) ;", "IFF (n) (1 (a)) ;\nREMOVE DELAYED (a) ;\nRESTORE (a) (*) ;", "ADD REPEAT VARYORDER ITERATE UNSAFE (t) (n) ;", "REMOVE ENCL_INNER (n) ;\nADD (l) (_LEFT_) ;\nADD (r) (*) (L (*)) ;","MERGECOHORTS WITHCHILD (*) (\"<g>\" \"g\" n) (a) WITH (-1 (*)) (1 (*)) ;", "COPYCOHORT (cc) EXCEPT (a) WITHCHILD (*) (a) (NOT 0 (cc)) TO BEFORE WITHCHILD (*) (-1 (n)) ;", "COPYCOHORT REVERSE (cc) (n) (NOT 0 (cc)) FROM (1 (a)) (NOT 0 (cc)) ;", "COPYCOHORT AFTER (cc) (a) (NOT 0 (cc)) TO (-1 (n)) (NOT 0 (cc)) ;", "MOVE NOCHILD (a) BEFORE NOCHILD (-1 (*)) ;", "REMCOHORT NOCHILD REPEAT (a) ;", "REMCOHORT WITHCHILD (n) (a) IF (NOT 0 (n)) ;", "MOVE DELAYED REPEAT WITHCHILD (n) OR (d) (a) AFTER WITHCHILD (*) (1 (n)) ;",
		"REPLACE (c @z) EXCEPT (n) (a) ;", "REPLACE SUB:-1 (c) (*) ;", "APPEND UNSAFE (\"k\" <x> @y) (n) ;", "SUBSTITUTE SUB:1 (*) (b) AFTER (n) (n) ;", "SUBSTITUTE (a) (b c) BEFORE (x) (*) ;", "ADD (t u v) AFTER (n) (a) ;", "MAP (@k @l) BEFORE (a) (n) ;", "COPY (\"cp\" c) EXCEPT (n a) AFTER (x) (*) ;", "UNMAP UNMAPLAST (*) ;", "UNMAP SAFE (@m) ;", "SETCHILD ALLOWLOOP (n) (0 (n)) FROM (1* (a) BARRIER (d)) (NOT 0 (d)) ;\nADD (t) (*) (c (*)) ;", "SETPARENT ALLOWCROSS (a) TO (-1*A (n) LINK -1 (*)) ;\nREMPARENT (a) (p (d)) ;\nSWITCHPARENT (n) (p (*)) ;",
		"ADDRELATION REVERSE (r) (n) TO (1* (a)) ;\nREMRELATION (r) (n) TO (1 (a)) ;\nSETRELATIONS (q) (s) (n) FROM (-1* (*)) ;\nREMRELATIONS (q) (x) (n) TO (1* (*)) ;\nADD (t) (*) (rr:q (*)) ;\nADD (u) (*) (r:* (*)) ;", "SETVARIABLE OUTPUT (v w) (1) (n) ;\nREMVARIABLE OUTPUT (w) (a) ;\nADD (t) (VAR:v) ;\nADD (u) (VAR:/w|x/r) ;\nADD (u2) (LVAR:v) ;", "SETVARIABLE (VSTR:v$1) (VSTR:x$1) (\"(.)\"r) ;\nADD (t) (*) (0 (VAR:vx=xx)) ;",
		"ANCHOR one ;\nWITH (n) (1 (a)) {\nADD:inner (t) _C1_ ;\nJUMP (two) (*) (0 (t)) ;\nWITH REPEAT (*) (jC1 (*)) {\nADD (v) (*) ;\n} ;\n} ;\nADD (u) (*) ;\nANCHOR two ;\nADD (w) (t) ;\nANCHOR three ;\nJUMP (one) (u) (NOT 0 (u)) ;\nJUMP (three) (n) (0 (t)) ;", "JUMP (last) (a) ;\nADD (t) (n) ;\nAFTER-SECTIONS\nADD (u) (t) ;\nANCHOR last ;", "SECTION\nSECTION\nADD ITERATE (t) (n) (NOT 0 (t)) ;\nSECTION\nSECTION\nREMOVE (t) ;\nJUMP (x y) (a) ;\nADD (z) (*) ;\nANCHOR x ;\nADD:y (z2) (n) ;", "SECTION UNSAFE ;\nREMOVE (n) ;\nSECTION SUB:-1 ;\nADD (t) (*) ;", "NULL-SECTION\nADD (nul) (*) ;\nSECTION\nADD (t) (n) ;\nBEFORE-SECTIONS\nADD (b) (*) ;\nAFTER-SECTIONS\nADD (a2) (b) ;",
		"TEMPLATE a = NOT 1 (a) ;\nTEMPLATE b = T:a LINK -1 (*) ;\nTEMPLATE c = (T:a) OR (NEGATE T:b) OR (-1* (n) BARRIER (a)) ;\nADD (t) (*) (T:c) ;\nADD (u) (*) (NEGATE T:b LINK 1 (*)) ;\nADD (v) (*) (NOT T:a) ;\nADD (w) (*) (1*< T:a BARRIER (d)) ;\nADD (x) (*) (NOT 1 T:a) ;", "ADD (t) (*) ((1 (a)) OR ((-1 (n)) OR (2 (d)) LINK 1 (*))) ;\nADD (u) (*) (NEGATE (1 (a)) OR (-1 (n))) ;\nADD (v) (*) (NONE 1* (a)) (ALL -1* (n)) ;\nADD (w) (*) (ALL c (n)) (NONE s (a)) ;", "TEMPLATE sh = [ (n), (a) - (d) ] ;\nADD (t) (*) (T:sh) ;\nADD (u) (*) (-1 T:sh) ;",
		"ADD (t) (*) (-1*o (n) LINK 1*O (a)) ;\nADD (u) (*) (@1 (n)) ;\nADD (v) (*) (@-1W (*)) (-2**C (n)) ;\nADD (w) (*) (1N* (a) BARRIER (*)) (0S (*)) ;\nADD (x) (*) (1*X (n) LINK 1* (a) LINK x (*)) ;", "ADD (t) (*) (1f (n)) ;", "ADD (t) (*) (1D (a)) (-1d (n)) (1I (*)) ;\nADD (u) (*) (0t (n)) (NOT 0T (a)) ;\nADD (v) (*) (1/2 (*)) (0C/-1 (s)) ;", "ADD (t) (*) (*ll (*)) ;\nADD (u) (*) (*p (n)) (NOT pp (a)) (cc (*)) ;\nADD (v) (*) (lc (*)) ;\nADD (w) (*) (rrcc (a)) ;\nADD (x) (*) (*cS (n)) (*s (*)) ;\nADD (y) (*) (llscc (*)) ;", "ADD (t) (*) (B (n) - (a)) ;\nADD (u) (*) (BW (d)) ;\nADD (v) (*) (NOT B< (x)) ;", "ADD (t) (*) (1f (<N>3>)) ;", "SET U2 = (n a) OR (d) OR N ;\nADD (t) (*) (0 $$V LINK 1* $$V) (NEGATE 1 &&U2) ;\nADD (u) (*) (0 &&U2 LINK 1 &&U2) ;",
		"LIST X = (a b c) (\"<W1>\"i n) \"x.*\"r <N<5> ^d (t \"y\"i) @m ;\nOLIST O = (z y) x @m ;\nSET Y = X + N - (d) | O ;\nSET Z = X ^ (a) OR N ;\nSET I = X ∩ O ;\nSET D = X ∆ V ;\nSET M = X \\ V ;\nADD O Y ;\nADD (k1) Z ;\nADD (k2) D ;\nADD (k3) M ;\nLIST O += (p q) ;", "REMOVE ENCL_OUTER (n) ;\nADD ENCL_FINAL (t) (*) ;\nADD ENCL_ANY (u) (_RIGHT_) (R (_ENCL_)) ;\nADD (v) (_PAREN_) ;", "SELECT REMEMBERX KEEPORDER LOOKDELETED LOOKDELAYED LOOKIGNORED (n) (1*X (a)) ;\nADD (t) (*) (x (*)) ;", "\"<w\\\\(1>\"r \"x\" ADD (t) (*) ;", "\"<w.>\"r SELECT:a_b (n) ;\n\"<w2>\" REMOVE REPEAT (*) ;", "PROTECT:p (n) IF (1 (a)) ;", "IFF UNSAFE VARYORDER (n) (1 (a)) ;\nRESTORE DELAYED (*) (n) ;\nRESTORE (n) (*) ;\nREMOVE IGNORED (a) ;\nRESTORE IGNORED (a) (*) ;\nUNPROTECT (*) ;", "EXTERNAL ONCE \"/bin/cat -u\" (n) ;\nADD (t) (*) ;", "EXTERNAL:ext ALWAYS /bin/cat (*) (1 (a)) ;", "EXECUTE (a) (n) ;", "REMOVE NOITERATE (<W-MAX>0>) ;\nSELECT (<N=MIN>) (NOT 0 (<N!=7>)) ;\nADD (t) (<N:7>) ;\nADD (u) (<N=MAX-1>) ;\nADD (v) (\"<.*>\"ri) ;\nADD (v2) (/^n$/r) ;\nADD (v3) (/[\"]x y/l) ;"};
}
inline SV decl_grammars() {
	SV r; std::string lists = "LIST N = n ;\nLIST V = a d n ø ;\n";
	for (auto h : headers()) for (auto b : bodies()) {
		std::string l = lists; if (h.find("LIST N = ") != std::string::npos) l = "LIST V = a d n ø ;\n";
		r.push_back(h + l + b + "\n");
	}
	return r;
}
inline SV decl_inputs() { return inputs({"_:x,n|y,a", "_:x,n _:y,a _:z,n|z,a", "_:x,n/s,a|y,@m,a _:y,a,@m|q,<N:7> .:.,p _:z,n,d", "(:(,p _:x,n ):),p _:y,a|n,n _:z,n ?:q,p _:w,a", "_:x,a,n,ø,¤q _:y,n !==end _:z,a ,:c,p _:n,n"}); }
inline Space decl_space(std::function<void(Ctx&, const std::string&, const SV&, const impl::Args&)> fn) {
	auto g = std::make_shared<SV>(decl_grammars()); auto in = std::make_shared<SV>(decl_inputs());
	Space s; s.name = "declarations"; s.size = g->size() * 2; s.chunk = 60; s.fn = [=](uint64_t i, Ctx& c) { fn(c, (*g)[i / 2], *in, i % 2 ? impl::Args{"--trace"} : impl::Args{}); };
	return s;
}
