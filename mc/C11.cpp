// Variables (stream commands, rules, VAR/LVAR tests) and the other stream commands
#include "enumr.hpp"
#include <cstring>
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C11", "every stream of up to 6 (thorough: 7) items over SETVAR/REMVAR forms, FLUSH, IGNORE, RESUME, EXIT, cohorts, delimiters and text, under variable tests; every program of up to 4 rules over variable-setting, variable-testing, jumping and iterating rules",
	[](bool thorough) {
		std::string H = "DELIMITERS = \"<.>\" ;\n"; std::vector<Space> v;
		auto cmd = [](const std::string& s) { return "<STREAMCMD:" + s + ">\n"; };
		std::string W = "\"<w>\"\n\t\"x\" a\n", D = "\"<.>\"\n\t\".\" p\n";
		auto streams = [&](const SV& items, int lo, int hi) { return seqs(items, lo, hi, ""); };
		SV core{cmd("SETVAR:v"), cmd("SETVAR:v=1"), cmd("REMVAR:v"), cmd("FLUSH"), W, D};
		SV more{cmd("SETVAR:v=2,u"), cmd("SETVAR:u=1,v=2"), cmd("REMVAR:v,u"), cmd("REMVAR:zz"), cmd("SETVAR:vv"), cmd("IGNORE"), cmd("RESUME"), cmd("EXIT"), "text\n", "\"<w2>\"\n\t\"y\" b\n;\t\"z\" c\n"};
		std::string T = H + "ADD (v) (*) (0 (VAR:v)) ;\nADD (v1) (*) (0 (VAR:v=1)) ;\nADD (u) (*) (0 (VAR:u)) ;\nADD (l1) (*) (0 (LVAR:v=1)) ;\nADD (pl) (*) (-1W (LVAR:v=1)) ;\nADD (nl) (*) (1W (LVAR:v)) ;\nADD (no) (*) (NOT 0 (VAR:v)) ;\n";
		SV none{H, T};
		v.push_back(product("streams_core", {T}, streams(core, 1, thorough ? 7 : 6)));
		v.push_back(product("streams_all", {T}, streams(core + more, 1, thorough ? 5 : 4)));
		v.push_back(product("streams_trace", {T, H + "SETVARIABLE OUTPUT (v) (3) (p) ;\nREMVARIABLE OUTPUT (u) (\"y\") ;\n"}, streams(core + more, 1, 3), {{"--trace"}, {"--num-windows", "0"}, {"--num-windows", "1"}, {"--always-span"}, {"--trace", "--num-windows", "3"}}));
		// forms of variable tests against every variable state
		SV key{"v", "u", "vv", "/^v/r", "/V/ri", "\"v\"", "v1"}, val{"", "=1", "=2", "=v", "=/[12]/r", "=/X/ri", "=*", "=\"1\""}; SV vt; for (auto& k : key) for (auto& x : val) for (auto& p : SV{"VAR:", "LVAR:"}) { vt.push_back(H + "ADD (hit) (" + p + k + x + ") ;\n"); vt.push_back(H + "ADD (hit) (*) (1W (" + p + k + x + ")) ;\nADD (neg) (*) (NOT 0 (" + p + k + x + ")) ;\n"); vt.push_back(H + "LIST l = " + p + k + x + " q ;\nADD (hit) (*) - l ;\nADD (h2) (a) + l ;\n"); }
		SV vi; for (auto& s : SV{"", cmd("SETVAR:v"), cmd("SETVAR:v=1"), cmd("SETVAR:v=x"), cmd("SETVAR:vv=2"), cmd("SETVAR:\"v\"=1"), cmd("SETVAR:u=v"), cmd("SETVAR:v1"), cmd("SETVAR:vb=2,va=1"), cmd("SETVAR:vb=1,va=2")}) for (auto& t : SV{"", cmd("SETVAR:v=2"), cmd("REMVAR:v"), cmd("FLUSH"), cmd("SETVAR:v")}) vi.push_back(s + W + D + t + W);
		v.push_back(product("tests", vt, vi));
		// syntax of the commands themselves
		SV syn; for (auto& s : SV{"SETVAR:,v", "SETVAR:v=", "SETVAR:v,v=1,v=2", "SETVAR:a=1,b=2,c=3,d", "REMVAR:v,", "REMVAR:,v", "SETVAR:a,b", "REMVAR:a,b,c", "FLUSHX", "SETVARX:v", "flush", "SETVAR:v=1=2", "SETVAR:v,u=1", "SETVAR:u=1,v"}) for (auto& p : SV{"", cmd("SETVAR:v=1,u=2"), W, W + cmd("SETVAR:v=1") + W}) syn.push_back(p + cmd(s) + W + D + W);
		v.push_back(product("syntax", {T}, syn));
		// rules that set and test variables
		SV ru{"SETVARIABLE (v) (1) (a) ;", "SETVARIABLE (v) (2) (b) ;", "SETVARIABLE OUTPUT (v) (3) (c) ;", "REMVARIABLE (v) (b) ;", "REMVARIABLE OUTPUT (v) (a) ;", "ADD ITERATE (hit) (*) (0 (VAR:v)) (NOT 0 (hit)) ;", "ADD ITERATE (h1) (VAR:v=1) (NOT 0 (h1)) ;", "ADD ITERATE (nv) (*) (NOT 0 (VAR:v)) (NOT 0 (nv)) ;", "SUBSTITUTE ITERATE (a) (b) (a) (0 (VAR:v)) ;", "SUBSTITUTE ITERATE (b) (c) (b) ;", "JUMP (k) (*) (0 (VAR:v=1)) (NOT 0 (h1)) ;", "SETVARIABLE (VSTR:v$1) (VSTR:x$1) (/^\\\\(.\\\\)$/r) ;", "SETVARIABLE (u) (VSTR:{$$L}) $$L ;", "ADD (vv) (*) (0 (VAR:/^v./r)) ;", "REMOVE (b) (0 (VAR:v=2)) ;", "REMVARIABLE (/^v/r) (c) ;"};
		for (auto& r : ru) for (size_t p = 0; (p = r.find("\\\\", p)) != std::string::npos;) r.erase(p, 1);
		SV ri; for (auto& s : SV{"", cmd("SETVAR:v=2"), cmd("SETVAR:v=1,u=a")}) for (auto& c : SV{"_:x,a _:y,b .:.,p _:x,c", "_:x,b|z,a _:y,c .:.,p _:x,a", "_:x,c _:y,a _:z,b", "_:x,a .:.,p _:x,b .:.,p _:y,q"}) ri.push_back(s + engine::cohorts(words(c)));
		for (auto& c : {ri[0], ri[3]}) { auto p = c.find("\"<.>\""); if (p == std::string::npos) continue; auto e = c.find("\"<w", p); if (e == std::string::npos) continue; for (auto& m : SV{cmd("SETVAR:v=1"), cmd("REMVAR:v"), cmd("FLUSH"), cmd("SETVAR:v,u")}) ri.push_back(c.substr(0, e) + m + c.substr(e)); }
		std::string L = "LIST L = a b ;\n"; SV pg;
		for (auto& s : seqs(ru, 1, 3, "\n")) pg.push_back(H + L + "SECTION\nANCHOR k ;\n" + s + "\n");
		SV f4{ru[0], ru[1], ru[3], ru[5], ru[6], ru[7], ru[8], ru[9], ru[10], ru[14]}; for (auto& s : seqs(f4, 4, 4, "\n")) if (thorough || s.find("JUMP") != std::string::npos) pg.push_back(H + L + "SECTION\nANCHOR k ;\n" + s + "\n");
		for (auto& s : seqs(ru, 2, 2, "\n")) pg.push_back(H + L + "SECTION\n" + s.substr(0, s.find('\n')) + "\nSECTION\nANCHOR k ;\n" + s.substr(s.find('\n') + 1) + "\n");
		v.push_back(product("rules", pg, ri));
		return v;
	});
}
