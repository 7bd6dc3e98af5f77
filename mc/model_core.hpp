// Data structures of the reference model (private to model_*.cpp).
#pragma once
#include "model.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <regex>

namespace mcg {
using std::string; using std::vector; using std::map; using std::set;
typedef uint32_t u32;
enum : u32 { NOPAR = 0xFFFFFFFFu };

// ---------- grammar -------------------------------------------------------------------------------------------
enum TK { LIT, ANYTAG, RX, ICASE, ANYBASE, ANYWORD, ANYTEXT, NUM, TARGET, MARK, ATTACHTO, ENCL, PLEFT, PRIGHT, SAMEBASIC, VAR, LVAR, CTXREF, VSTR, SETTAG, META, RXLINE };
struct Set;
struct Num { string math; string key; char op; double val; bool min = false, max = false; }; // op: = ! < > l(<=) g(>=)
struct GTag {
	TK kind = LIT;
	string txt;            // matched text without suffixes
	string raw;            // as written
	bool ff = false, icase = false, mapping = false;
	std::shared_ptr<std::regex> rx; unsigned groups = 0;
	Num num;
	std::shared_ptr<GTag> key, val; // VAR
	int ref = 0;
	bool special() const { return kind != LIT; }
};
typedef vector<GTag> Comp; // composite
enum Op { OR, PLUS, MINUS, FAILF, ISECT, SYMD, COMPL };
struct Set {
	string name;
	bool any = false, list = true;
	vector<Comp> alts; vector<GTag> ffs;
	vector<Set*> subs; vector<Op> ops;
	bool tunify = false, sunify = false;
	bool has_unify() const;    // ST_CHILD_UNIFY
	bool seen_ = false;
};
enum : uint64_t { P_CAREFUL = 1, P_NEGATE = 2, P_NOT = 4, P_SCAN1 = 8, P_SCANALL = 16, P_ABS = 32, P_SPANR = 64, P_SPANL = 128, P_SPAN = 256, P_PAR = 512,
	P_SIB = 1024, P_CHILD = 2048, P_PASSO = 4096, P_NOPASSO = 8192, P_LPAR = 1 << 14, P_RPAR = 1 << 15, P_SELF = 1 << 16, P_NONE = 1 << 17, P_ALL = 1 << 18,
	P_DEEP = 1 << 19, P_MARKSET = 1 << 20, P_JUMP = 1 << 21, P_LDEL = 1 << 22, P_LDELAY = 1 << 23, P_TMPLOV = 1 << 24, P_REL = 1 << 26, P_ATTACH = 1 << 27,
	P_BAG = 1 << 29, P_GLOB = 1ull << 30, P_LEFT = 1ull << 32, P_RIGHT = 1ull << 33, P_LMOST = 1ull << 34, P_RMOST = 1ull << 35, P_NOBARR = 1ull << 36,
	P_WITH = 1ull << 37, P_LIGN = 1ull << 38, P_INACT = 1ull << 39, P_ACT = 1ull << 40,
	P_LORR = P_LEFT | P_RIGHT | P_LMOST | P_RMOST };
enum { SUBANY = 32767 };
enum { J_MARK = 0, J_ATTACH = -1, J_TARGET = -2 };
struct Test {
	uint64_t pos = 0; int off = 0, sub = 0; Set *target = nullptr, *bar = nullptr, *cbar = nullptr;
	Test *link = nullptr, *tmpl = nullptr; vector<Test*> ors; string tmplname; GTag rel; int jump = J_MARK;
};
enum : uint64_t { F_NEAREST = 1, F_ALLOWLOOP = 2, F_DELAYED = 4, F_IMMEDIATE = 8, F_LOOKDEL = 16, F_LOOKDELAY = 32, F_UNSAFE = 64, F_SAFE = 128, F_REMX = 256, F_RESETX = 512,
	F_KEEP = 1024, F_VARY = 2048, F_ENCLI = 4096, F_ENCLO = 8192, F_ENCLF = 16384, F_ENCLA = 32768, F_ALLOWX = 65536, F_ITER = 1 << 17, F_NOITER = 1 << 18,
	F_UNMAPLAST = 1 << 19, F_REVERSE = 1 << 20, F_OUTPUT = 1 << 21, F_CAPUNIF = 1 << 22, F_REPEAT = 1 << 23, F_BEFORE = 1 << 24, F_AFTER = 1 << 25, F_IGNORED = 1 << 26,
	F_LOOKIGN = 1 << 27, F_NOMAPPED = 1 << 28, F_NOPARENT = 1 << 29, F_DETACH = 1 << 30, F_WITHCHILD = 1ull << 32, F_NOCHILD = 1ull << 33 };
struct Rule {
	string kw, name, word; u32 line = 0; GTag wordtag; bool hasword = false;
	uint64_t fl = 0; int sub = 0;
	Set *target = nullptr, *maplist = nullptr, *sublist = nullptr, *except = nullptr, *child1 = nullptr, *child2 = nullptr, *spot = nullptr;
	vector<Test*> tests; Test* dep = nullptr; vector<Test*> deptests;
	int section = 0; u32 num = 0; vector<Rule*> nested;
};
struct Grammar {
	std::deque<Set> setpool; std::deque<Test> testpool; std::deque<Rule> rulepool;
	map<string, Set*> sets; map<string, Test*> tmpls;
	vector<Rule*> before, after, null; vector<vector<Rule*>> sections; // in order
	vector<Rule*> all; // by number
	map<string, u32> anchors;
	Set *delim = nullptr, *soft = nullptr; vector<GTag> textd;
	string mprefix = "@"; bool sub_ltr = false; bool ordered = false, safe_setparent = false, addcohort_attach = false;
	vector<std::pair<string, string>> parens; // left,right
	vector<GTag> textual; // regex / icase tags
	bool has_bag = false, has_dep = false, has_rel = false, has_protect = false;
	set<string> mapping_lits, reopen; string nrules, nrules_v;
};
std::unique_ptr<Grammar> parse_grammar(const string& text, const string& nrules = "", const string& nrules_v = "");
GTag parse_tag(const string& raw);
bool parse_num(const string& t, Num& n, bool math = false);
bool num_ok(char op, double v, char iop, double iv);

// ---------- stream --------------------------------------------------------------------------------------------
struct Coh; struct Win; struct Eng;
struct Rd {
	vector<string> tl; string base, mapping; bool mapped = false, deleted = false, noprint = false, immutable = false, active = false, mt = false, mx = false;
	u32 number = 0; Rd* next = nullptr; Coh* parent = nullptr; vector<const Rule*> hits;
	bool has(const string& t) const { return std::find(tl.begin(), tl.end(), t) != tl.end(); }
	string plainkey() const, key() const; // tag set (without mapping) ; with mapping and subs
};
struct Coh {
	string word; Rd* wread = nullptr; vector<Rd*> r, del, delayed, ign;
	u32 g = 0, l = 0; Win* w = nullptr; u32 dself = 0, dpar = NOPAR; set<u32> kids; map<string, set<u32>> rel, relin;
	bool removed = false, ignored = false, related = false, depdone = false; int enclosed = 0; string text, pleft, pright;
};
struct Win { vector<Coh*> c, all; map<string, string> vset; set<string> vrem, vout; string text, post; bool flush = false, has_encl = false; u32 number = 0; };
bool is_word(const string& t); bool is_base(const string& t);
double math_eval(const string& e, double mn, double mx);
}
