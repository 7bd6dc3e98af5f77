// No damage to a grammar makes the program crash, hang or misuse memory (built with ASAN and UBSAN),
// and a binary grammar that was cut off is refused.
#include "explore.hpp"
#include "impl.hpp"
#include <cstring>
#include <sstream>
using SV = std::vector<std::string>;
struct Base { std::string name, s; };
static const std::vector<Base> TXT = {
	{"header", "OPTIONS += no-inline-sets no-inline-templates addcohort-attach ;\nDELIMITERS = \"<.>\" \"<!.*>\"r ; # c\nSOFT-DELIMITERS = \"<,>\" ;\nTEXT-DELIMITERS = /(^|\\n)<s/r ;\nPREFERRED-TARGETS = n v ;\nREOPEN-MAPPINGS = @a ;\nMAPPING-PREFIX = @ ;\nSUBREADINGS = LTR ;\nCMDARGS += --num-windows 3 ;\nCMDARGS-OVERRIDE += --trace ;\nPARENTHESES = (\"<(>\" \"<)>\") (\"<[>\" \"<]>\") ;\nSTATIC-SETS = N ;\nSTRICT-TAGS += n v \"<.*>\"r ;\nLIST-TAGS += \"x\" ;\nUNDEF-SETS = Q ;\nSETS\nLIST N = n ;\nSECTION\nSELECT N ;\n"},
	{"sets", "DELIMITERS = \"<.>\" ;\nLIST A = a (b c) \"x\" (\"<y>\" d) \"r.*\"r \"C\"i (\"^z$\"ri n) /l\\ x/l <k>3> <m<=5> <o!=MAX> ^ff ;\nLIST B = (VAR:v) VAR:w=1 LVAR:u META:/m/r ;\nLIST B += VSTR:\"$1\" >>> <<< _MARK_ _TARGET_ _C1_ * ;\nSET C = A + B - (q) | (\"w\" e) ;\nSET D = A ^ B \\ (z) \xe2\x88\xa9 A \xe2\x88\x86 B ;\nSET E = $$A OR &&B ;\nLIST A += (more) ;\nSET F = E + (*) ;\nSECTION\nREMOVE C IF (0 F) (1 D LINK 0 E) ;\n"},
	{"contexts", "DELIMITERS = \"<.>\" ;\nLIST N = n ;\nTEMPLATE t = (1 N) OR (-1* (x) BARRIER N) ;\nTEMPLATE u = 0 N LINK T:t ;\nSECTION\nSELECT N IF (-1 N) (1C (v)) (NOT *2 N) (NEGATE 1* N CBARRIER (x) LINK @3 N) (-1*O (y) LINK 1 _MARK_) (0 N LINK p (x) LINK c* N LINK s N) (r:rel N) (T:t) ;\nSELECT N IF (ALL c (x)) (NONE ll N) (llcc* N) (cr N) (Sc N) (1W>>> N) (jM N) (jC1 N) (0/1 N) (0/-1 N LINK 1/* (z)) (-1*A N) ((1 N) OR (-1 N LINK T:u)) (1* N BARRIER (a) LINK 1* N CBARRIER (b)) (1D N) (1X N LINK 1x N) (1*f N) (pp N) ;\n"},
	{"rules", "DELIMITERS = \"<.>\" ;\nLIST N = n ;\nSECTION\nSELECT:nm N ;\nREMOVE VARYORDER DELAYED N (1 N) ;\nIFF N (1 N) ;\nMAP (@x) N ;\nADD:a BEFORE (y) (t \"b\" VSTR:\"$1\") N ;\nREPLACE (@z) TARGET N ;\nAPPEND (\"b\" x) N ;\nCOPY (c) EXCEPT (d) N ;\nSUBSTITUTE (a b) (c) N (0 N) ;\nUNMAP N ;\nSETPARENT N TO (1* N) ;\nSETCHILD (x) TO (-1 N) (1 N) ;\nREMPARENT N ;\nSWITCHPARENT WITHCHILD N (x) ;\nADDRELATION (r) N TO (1 N) ;\nSETRELATIONS (r) (s) N TO (1 N) ;\nREMRELATION (r) N TO (1 N) ;\n\"<w>\"i SELECT SUB:-1 N ;\nMERGECOHORTS (\"<m>\" \"m\" x) N WITH (1 N) ;\nMOVE WITHCHILD (x) N BEFORE WITHCHILD N (1 N) ;\nSWITCH N WITH (1 N) ;\nADDCOHORT (\"<c>\" \"c\" x) BEFORE N ;\nREMCOHORT IGNORED WITHCHILD N (x) ;\nSPLITCOHORT (\"<s>\" \"s\" x 1->2 \"<t>\" \"t\" 2->p) N ;\nDELIMIT AFTER N ;\nSETVARIABLE (v) (1) N ;\nREMVARIABLE (v) N ;\nRESTORE (x) N ;\nPROTECT N ;\nUNPROTECT N ;\n"},
	{"control", "DELIMITERS = \"<.>\" ;\nBEFORE-SECTIONS\nSELECT (a) ;\nSECTION one ;\nANCHOR here ;\nJUMP (here) (a) ;\nWITH (n) IF (1 (v)) {\n\tADD (x) (*) (jC1 (v)) ;\n\tWITH NOCHILD (*) { REMOVE (y) ; } ;\n} ;\nSECTION two ;\nRESTORE:x (z) (n) ;\nLIST N = n ;\nSETS\nSET M = N ;\nCONSTRAINTS\nREMOVE KEEPORDER NEAREST UNSAFE M ;\nMAPPINGS\nMAP REPEAT ALLOWLOOP (@a) (n) (NOT 0 (b)) ;\nNULL-SECTION\nSELECT ENCL_INNER REVERSE LOOKDELETED (c) ;\nAFTER-SECTIONS\nEND\nrest ( \"\n"},
	{"errors", "DELIMITERS = \"<.>\" ;\nSELECT (a ;\nLIST = ;\nINCLUDE \"/nonexistent/g\" ;\nLIST A = (a ;\nSET B = C + ;\nSELECT A IF (1 ;\nMAP A ;\nTEMPLATE x = ;\nBAD (x) ;\nSELECT (\"x) ;\nLIST Z = \"a\"r ;\n"},
};
static SV TOKENS = {";", "=", "(", ")", "\"", "/", "LINK", "OR", "IF", "BARRIER", "*", "+", "-", "#", "SECTION", "LIST", "SET", "SELECT", "{", "}", "TO", "T:t", "\"x\"r", "<n>1>", "1*", "VSTR:\"$1\"", "\n", "[", "&&", "$$", "^", "@"};
static SV split(const std::string& s) { // tokens and the white space between them
	SV r; std::string w; auto kind = [](char c) { return c == ' ' || c == '\n' || c == '\t' ? 0 : strchr("()=;", c) ? 2 : 1; };
	for (char c : s) { if (!w.empty() && (kind(c) != kind(w[0]) || kind(c) == 2)) { r.push_back(w); w.clear(); } w += c; }
	if (!w.empty()) r.push_back(w);
	return r;
}
static void one(Ctx& c, const std::string& g, bool binary, bool must_refuse) {
	std::string shown; for (unsigned char ch : g) if (ch >= 32 || ch == '\n' || ch == '\t') shown += char(ch); else { char b[8]; snprintf(b, 8, "\\x%02x", ch); shown += b; }
	c.describe("grammar (" + std::string(binary ? "binary" : "text") + ", " + std::to_string(g.size()) + " bytes)\n" + shown);
	c.count(C_TRANS); bool ok = false;
	try {
		auto p = impl::load(g);
		if (p) {
			ok = true;
			std::string b = impl::write_binary(*p), t = binary ? "" : impl::write_text(*p);
			c.outcome(b + t);
			auto q = impl::load(b); if (!q) c.fail("the grammar was accepted, but its binary form is not");
		}
		else c.outcome("refused");
	}
	catch (ExitCalled& e) { if (e.code == 0) c.fail("exits with 0 on a damaged grammar"); c.outcome("exit"); c.count(C_USER0); }
	catch (CaseFail&) { throw; }
	catch (std::exception& e) { c.outcome(std::string("refused: ") + e.what()); c.count(C_USER0); }
	catch (const char* e) { c.outcome(std::string("refused: ") + e); c.count(C_USER0); }
	if (must_refuse && ok) c.fail("a binary grammar that was cut off is accepted");
	c.count(C_TRACES); c.nontrivial(fnv(g));
}
int main(int argc, char** argv) {
	setenv("ASAN_OPTIONS", "detect_leaks=0", 0);
	CheckDef d; d.property = "C23"; d.level = "fault_enumeration"; d.rule = "a damaged grammar counts by its content";
	d.assumptions = {"refusing a grammar (an error message and exit code 1, or an exception for bytes that are not UTF-8) is a correct answer", "the sanitizers see every use of memory that is not owned"};
	d.extra_counters = {{"runs", C_TRANS}, {"refused", C_USER0}};
	impl::init();
	return explore_main(argc, argv, d, [](bool thorough) {
		std::vector<Space> v;
		static const SV sub = {std::string(1, 0), "\n", " ", "\"", "<", ">", "#", "/", "\\", ":", "@", "*", "(", ")", "{", "[", ";", "=", "0", "-", "\xff", "\xc3", "S"};
		for (auto& b : TXT) {
			auto add = [&](const std::string& what, size_t n, std::function<std::string(size_t)> mk) {
				Space s; s.name = b.name + "." + what; s.size = n; s.chunk = 200; s.timeout = 15; s.exit_ok = true;
				s.fn = [=](uint64_t i, Ctx& c) { one(c, mk(i), false, false); };
				v.push_back(s);
			};
			std::string s = b.s; size_t n = s.size(); SV tk = split(s); size_t m = tk.size();
			auto join = [](const SV& l) { std::string r; for (auto& x : l) r += x; return r; };
			add("whole", 1, [=](size_t) { return s; });
			add("cut", n + 1, [=](size_t i) { return s.substr(0, i); });
			add("cut_front", n + 1, [=](size_t i) { return s.substr(i); });
			add("drop_byte", n, [=](size_t i) { return s.substr(0, i) + s.substr(i + 1); });
			add("double_byte", n, [=](size_t i) { return s.substr(0, i) + s[i] + s.substr(i); });
			add("change_byte", n * sub.size(), [=](size_t i) { std::string r = s; r[i / sub.size()] = sub[i % sub.size()][0]; return r; });
			add("insert_byte", (n + 1) * sub.size(), [=](size_t i) { size_t k = i / sub.size(); return s.substr(0, k) + sub[i % sub.size()][0] + s.substr(k); });
			add("drop_token", m, [=](size_t i) { SV l = tk; l.erase(l.begin() + i); return join(l); });
			add("change_token", m * TOKENS.size(), [=](size_t i) { SV l = tk; l[i / TOKENS.size()] = TOKENS[i % TOKENS.size()]; return join(l); });
			add("long_token", m * 15, [=](size_t i) { // a token longer than any buffer in the reader, keeping its first, last or no character
				static const size_t L[] = {255, 1022, 1024, 8190, 8193}; SV l = tk; auto& t = l[i / 15]; std::string x(L[i % 5], 'x');
				t = (i % 15) / 5 == 0 ? x : (i % 15) / 5 == 1 ? (t.empty() ? x : t[0] + x + t.back()) : t + x; return join(l); });
			add("swap_tokens", m, [=](size_t i) { SV l = tk; std::swap(l[i], l[(i + 2) % m]); return join(l); });
			add("cut_and_end", (n + 1) * TOKENS.size(), [=](size_t i) { return s.substr(0, i / TOKENS.size()) + TOKENS[i % TOKENS.size()]; });
			if (thorough) {
				add("drop_tokens", m * m, [=](size_t i) { SV l; for (size_t k = 0; k < m; ++k) if (k < std::min(i / m, i % m) || k > std::max(i / m, i % m)) l.push_back(tk[k]); return join(l); });
				add("copy_token", m * m, [=](size_t i) { SV l = tk; l[i / m] = tk[i % m]; return join(l); });
				add("drop_bytes", n * 20, [=](size_t i) { return s.substr(0, i / 20) + (i / 20 + i % 20 + 2 < n ? s.substr(i / 20 + i % 20 + 2) : std::string()); });
			}
		}
		for (auto& b : TXT) {
			if (b.name == "errors") continue; std::string bin; try { if (auto p = impl::load(b.s)) bin = impl::write_binary(*p); } catch (ExitCalled&) {} catch (...) {}
			if (bin.empty()) continue;
			Space s; s.name = b.name + ".binary_cut"; s.size = bin.size(); s.chunk = 200; s.timeout = 15; s.exit_ok = true;
			s.fn = [=](uint64_t i, Ctx& c) { one(c, bin.substr(0, i), true, true); };
			v.push_back(s);
			s.name = b.name + ".binary_header"; s.size = 8 * 256;
			s.fn = [=](uint64_t i, Ctx& c) { std::string x = bin; if (x[i / 256] == char(i % 256)) return; x[i / 256] = char(i % 256); one(c, x, true, i / 256 < 7); };
			v.push_back(s);
		}
		return v;
	});
}
