// Reference model: grammar text -> data structures.
#include "model_core.hpp"
#include <cctype>
#include <cmath>
#include <cstring>
namespace mcg {
static bool is_sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
bool is_word(const string& t) { return t.size() > 4 && t[0] == '"' && t.back() == '"' && t[1] == '<' && t[t.size() - 2] == '>'; }
bool is_base(const string& t) { return t.size() >= 2 && t[0] == '"' && t.back() == '"' && !is_word(t); }
bool Set::has_unify() const {
	if (tunify || sunify) return true;
	for (auto s : subs) if (s->has_unify()) return true;
	return false;
}
// arithmetic in numeric tags: + - * / ^ unary sign, parentheses, MIN and MAX
namespace { struct Math {
	const string& s; size_t p = 0; double mn, mx;
	Math(const string& e, double a, double b) : s(e), mn(a), mx(b) {}
	[[noreturn]] void err() { throw std::runtime_error("math"); }
	void sp() { while (p < s.size() && s[p] == ' ') ++p; }
	char peek() { sp(); return p < s.size() ? s[p] : 0; }
	double sum() { double r = prod(); for (;;) { char c = peek(); if (c == '+') { ++p; r = r + prod(); } else if (c == '-') { ++p; r = r - prod(); } else return r; } }
	double prod() { double r = pw(); for (;;) { char c = peek(); if (c == '*') { ++p; r = r * pw(); } else if (c == '/') { ++p; r = r / pw(); } else return r; } }
	double pw() { double r = un(); while (peek() == '^') { ++p; r = pow(r, un()); } return r; }
	double un() { char c = peek(); if (c == '+' || c == '-') { ++p; double r = prim(); return c == '-' ? -r : r; } return prim(); }
	double prim() {
		char c = peek();
		if (c == '(') { ++p; double r = sum(); if (peek() != ')') err(); ++p; return r; }
		if (isdigit((unsigned char)c) || c == '.') { size_t b = p; while (p < s.size() && !strchr(" +-/*%^=()", s[p])) ++p; return strtod(s.substr(b, p - b).c_str(), nullptr); }
		if (isalpha((unsigned char)c)) {
			size_t b = p; while (p < s.size() && !strchr(" +-/*%^=()", s[p])) ++p; string w = s.substr(b, p - b); for (auto& x : w) x = char(toupper((unsigned char)x));
			if (peek() == '(') {
				++p; double r = sum(); if (peek() != ')') err(); ++p;
				if (w == "SQR") return r * r; if (w == "ROUND") return round(r); if (w == "FLOOR") return floor(r); if (w == "SQRT") return sqrt(r); if (w == "EXP") return exp(r); if (w == "LN") return log(r); if (w == "LOG") return log10(r);
				throw Unsupported("math function " + w);
			}
			if (w == "MIN") return mn; if (w == "MAX") return mx;
			if (w.size() > 1) err(); throw Unsupported("math variable");
		}
		err();
	}
}; }
double math_eval(const string& e, double mn, double mx) { if (e.find('=') != string::npos) throw Unsupported("math assignment"); Math m(e, mn, mx); double r = m.sum(); if (m.peek()) throw std::runtime_error("math"); return r; }
bool parse_num(const string& t, Num& n, bool math) {
	if (t.size() < 5 || t[0] != '<' || t.back() != '>') return false;
	size_t i = 1; while (i < t.size() && !strchr("<>=:!", t[i])) ++i;
	size_t j = i; while (j < t.size() && strchr("<>=:!", t[j])) ++j;
	if (i == 1 || j == i || j >= t.size() - 1) return false;
	string key = t.substr(1, i - 1), op = t.substr(i, j - i), v = t.substr(j, t.size() - 1 - j);
	n.key = key; n.min = n.max = false;
	if (v == "MAX") n.max = true;
	else if (v == "MIN") n.min = true;
	else if (math && v.find_first_not_of("-.0123456789") != string::npos && v.find_first_of("-+*/^%()=") != string::npos && v.find_first_of("\"\\<>[]{}!?&$#@~`';:,|_") == string::npos) {
		try { math_eval(v, -281474976710656.0, 281474976710655.0); } catch (std::runtime_error&) { return false; }
		n.math = v;
	}
	else {
		for (char c : v) if (!strchr("-.0123456789", c)) return false;
		char* e; n.val = strtod(v.c_str(), &e); if (e == v.c_str()) return false; n.val = std::max(-281474976710656.0, std::min(281474976710655.0, n.val));
	}
	if (op == "<") n.op = '<'; else if (op == ">") n.op = '>'; else if (op == "=" || op == ":") n.op = '='; else if (op == "!") n.op = '!';
	else if (op == "<=" || op == "=<" || op == "<:") n.op = 'l'; else if (op == ">=" || op == "=>" || op == ">:") n.op = 'g'; else if (op == "!=" || op == "<>" || op == "><" || op == "!:") n.op = '!';
	else if (op == "==" || op == "::" || op == "=:" || op == ":=") n.op = '=';
	else throw Unsupported("numeric operator " + op);
	return true;
}
GTag parse_tag(const string& raw0) {
	GTag t; t.raw = raw0; string s = raw0;
	for (size_t i = 0; (i = s.find("\\u", i)) != string::npos;) { // \uXXXX and \u{X...} (ASCII results only)
		size_t b = i + 2, e; bool br = b < s.size() && s[b] == '{'; if (br) ++b;
		e = b; while (e < s.size() && isxdigit((unsigned char)s[e]) && (br || e < b + 4)) ++e;
		if (br ? (e == b || e >= s.size() || s[e] != '}') : e != b + 4) { i += 2; continue; }
		unsigned long cp = strtoul(s.substr(b, e - b).c_str(), nullptr, 16); if (!cp || cp > 127) throw Unsupported("unicode escape");
		s.replace(i, e + br - i, 1, char(cp)); ++i;
	}
	if (!s.empty() && s[0] == '^') { t.ff = true; s.erase(0, 1); }
	auto pre = [&](const char* p) { return s.compare(0, strlen(p), p) == 0; };
	if (s == "*" || s == "_ANY_" ) { t.kind = ANYTAG; t.txt = "*"; return t; }
	if (s == "_TARGET_") t.kind = TARGET; else if (s == "_MARK_") t.kind = MARK; else if (s == "_ATTACHTO_") t.kind = ATTACHTO; else if (s == "_ENCL_") t.kind = ENCL;
	else if (s == "_LEFT_") t.kind = PLEFT; else if (s == "_RIGHT_") t.kind = PRIGHT; else if (s == "_SAME_BASIC_") t.kind = SAMEBASIC;
	else if (s.size() == 4 && s[0] == '_' && s[1] == 'C' && isdigit((unsigned char)s[2]) && s[3] == '_') { t.kind = CTXREF; t.ref = s[2] - '0'; }
	if (t.kind != LIT) { t.txt = s; return t; }
	if (pre("VAR:") || pre("LVAR:")) {
		t.kind = s[0] == 'L' ? LVAR : VAR;
		s.erase(0, s[0] == 'L' ? 5 : 4);
		auto eq = s.find('=');
		t.key = std::make_shared<GTag>(parse_tag(s.substr(0, eq)));
		if (eq != string::npos) t.val = std::make_shared<GTag>(parse_tag(s.substr(eq + 1)));
		t.txt = s; return t;
	}
	if (pre("VSTR:")) { t.kind = VSTR; t.txt = s.substr(5); return t; }
	if (pre("META:")) { GTag in = parse_tag(s.substr(5)); if (in.kind != RX) throw Unsupported("tag " + s); t.kind = META; t.txt = in.txt; t.rx = in.rx; t.groups = in.groups; return t; }
	if (pre("SET:") || pre("GVAR:")) throw Unsupported("tag " + s);
	// suffixes
	bool rx = false, ic = false, vs = false, textual = false, line = false;
	if (!s.empty() && (s[0] == '"' || s[0] == '<' || s[0] == '/')) {
		char q = s[0] == '<' ? '>' : s[0];
		size_t e = s.rfind(q);
		if (e != string::npos && e > 0) {
			string suf = s.substr(e + 1);
			bool ok = true; for (char c : suf) if (!strchr("rivl", c)) ok = false;
			if (ok && !suf.empty()) { for (char c : suf) { rx |= c == 'r'; ic |= c == 'i'; vs |= c == 'v'; line |= c == 'l'; } rx |= line; s.resize(e + 1); }
			else if (!suf.empty()) throw Unsupported("tag " + raw0);
			textual = s[0] != '/';
			if (s[0] == '/' && !rx && !ic) throw Unsupported("tag " + raw0);
		}
	}
	if (vs) { if (rx || ic) throw Unsupported("tag " + raw0); t.kind = VSTR; t.txt = s; return t; }
	t.icase = ic;
	{ string u; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\\' && i + 1 < s.size()) ++i; u += s[i]; } s = u; }
	if (line) for (size_t q; (q = s.find("__")) != string::npos;) s.replace(q, 2, "(?:^|$| | .+? )");
	if (rx) {
		if (s == "\"<.*>\"") { t.kind = ANYWORD; t.txt = s; return t; }
		if (s == "\".*\"") { t.kind = ANYBASE; t.txt = s; return t; }
		if (s == "<.*>") { t.kind = ANYTEXT; t.txt = s; return t; }
		t.kind = RX; t.txt = s;
		string p = s[0] == '/' ? s.substr(1, s.size() - 2) : "^" + s + "$";
		auto f = std::regex::ECMAScript; if (ic) f |= std::regex::icase;
		t.rx = std::make_shared<std::regex>(p, f); t.groups = t.rx->mark_count();
		if (line) t.kind = RXLINE;
		return t;
	}
	if (ic) { if (s.size() > 2 && s[0] == '/' && s.back() == '/') s = s.substr(1, s.size() - 2); t.kind = ICASE; t.txt = s; return t; }
	t.txt = s;
	if (parse_num(s, t.num, true)) { t.kind = NUM; return t; }
	return t;
}

struct P {
	const string& s; size_t p = 0; u32 line = 1; Grammar& g;
	vector<std::pair<Test*, string>> tmplrefs; vector<std::pair<Set*, string>> pend;
	int sect = -1; // -1 before, 0.. sections
	u32 rule_no = 0; Rule* nested = nullptr;
	int cur = -1; // -1 before, -2 after, -3 null, -4 none yet
	string defset;
	P(const string& t, Grammar& gr) : s(t), g(gr) {}
	[[noreturn]] void bad(const string& m) { throw Unsupported("grammar line " + std::to_string(line) + ": " + m + " near: " + s.substr(p, 30)); }
	void ws() {
		while (p < s.size()) {
			if (s[p] == '\n') { ++line; ++p; }
			else if (is_sp(s[p])) ++p;
			else if (s[p] == '#') { while (p < s.size() && s[p] != '\n') ++p; }
			else break;
		}
	}
	bool peek(const char* k) { return s.compare(p, strlen(k), k) == 0; }
	bool word(const char* k) { // keyword followed by a non-word char
		size_t n = strlen(k);
		if (s.compare(p, n, k)) return false;
		char c = p + n < s.size() ? s[p + n] : ' ';
		if (isalnum((unsigned char)c) || c == '-' || c == '_') return false;
		p += n; return true;
	}
	void expect(char c) { ws(); if (p >= s.size() || s[p] != c) bad(string("expected ") + c); ++p; }
	string tok() { // a tag or name token
		ws(); string t; size_t b = p;
		if (p < s.size() && s[p] == '^') ++p;
		if (p < s.size() && (s[p] == '"')) { ++p; while (p < s.size() && s[p] != '"') { if (s[p] == '\\') ++p; ++p; } ++p; }
		while (p < s.size() && !is_sp(s[p]) && !strchr("();", s[p])) { if (s[p] == '\\') ++p; ++p; }
		t = s.substr(b, p - b); if (t.empty()) bad("token expected"); return t;
	}
	Set* mk() { g.setpool.emplace_back(); return &g.setpool.back(); }
	void note(const GTag& t) {
		if (t.kind == RXLINE) g.ordered = true;
		if (t.kind == RX || t.kind == RXLINE || t.kind == ICASE) g.textual.push_back(t);
		if (t.key) note(*t.key); if (t.val) note(*t.val);
	}
	Comp comp() { // after '('
		Comp c; ws(); while (p < s.size() && s[p] != ')') { c.push_back(parse_tag(tok())); note(c.back()); ws(); } ++p; if (c.empty()) bad("empty composite"); return c;
	}
	bool star = false; // in the tag list of a rule that gives * a meaning of its own
	void addalt(Set* st, Comp c) {
		if (c.size() == 1 && c[0].ff) { st->ffs.push_back(c[0]); return; }
		if (c.size() == 1 && c[0].kind == ANYTAG) st->any = true;
		else if (!star) for (auto& t : c) if (t.kind == ANYTAG) bad("* in composite");
		st->alts.push_back(c);
	}
	Set* named(const string& n) {
		string nm = n; bool tu = false, su = false;
		if (nm.compare(0, 2, "$$") == 0) tu = true, nm.erase(0, 2); else if (nm.compare(0, 2, "&&") == 0) su = true, nm.erase(0, 2);
		auto it = g.sets.find(nm);
		if (it == g.sets.end()) bad("unknown set " + nm);
		if (!tu && !su) return it->second;
		auto key = n; auto jt = g.sets.find(key); if (jt != g.sets.end()) return jt->second;
		Set* st = mk(); st->name = n; st->list = false; st->subs.push_back(it->second); st->tunify = tu; st->sunify = su; g.sets[key] = st; return st;
	}
	// inline set expression
	Set* inl() {
		vector<Set*> subs; vector<Op> ops;
		for (;;) {
			ws();
			Set* st;
			if (s[p] == '(') { ++p; st = mk(); addalt(st, comp()); }
			else { st = named(setname()); }
			subs.push_back(st);
			size_t save = p; u32 sl = line; ws();
			Op op; size_t q = p;
			if (word("OR")) op = OR;
			else if (s[p] == '|') { ++p; op = OR; }
			else if (s[p] == '+') { ++p; op = PLUS; }
			else if (s[p] == '-' && p + 1 < s.size() && is_sp(s[p + 1])) { ++p; op = MINUS; }
			else if (s[p] == '^' && p + 1 < s.size() && is_sp(s[p + 1])) { ++p; op = FAILF; }
			else if (s[p] == '\\' || peek("\xE2\x88")) bad("set operator outside the modelled subset");
			else { p = save; line = sl; break; }
			(void)q; ops.push_back(op);
		}
		if (subs.size() == 1) return subs[0];
		Set* st = mk(); st->list = false; st->subs = subs; st->ops = ops; return st;
	}
	string setname() { ws(); size_t b = p; while (p < s.size() && !is_sp(s[p]) && !strchr("();,]", s[p])) ++p; string n = s.substr(b, p - b); if (n.empty()) bad("set expected"); return n; }
	Set* lst(const char* ends = ";") { // LIST body up to ;
		Set* st = mk(); ws();
		while (p < s.size() && !strchr(ends, s[p])) {
			if (s[p] == '(') { ++p; addalt(st, comp()); }
			else { Comp c{parse_tag(tok())}; note(c[0]); addalt(st, c); }
			ws();
		}
		++p; return st;
	}
	Test* mkt() { g.testpool.emplace_back(); return &g.testpool.back(); }
	void pos(Test& t) {
		size_t e = p; while (e < s.size() && !is_sp(s[e]) && s[e] != '(') { if (s.compare(e, 2, "r:") == 0) { while (e < s.size() && !is_sp(s[e])) ++e; break; } ++e; }
		string q = s.substr(p, e - p); p = e;
		size_t i = 0; bool neg = false, dig = false, sub = false, sneg = false;
		auto at = [&](size_t k) { return k < q.size() ? q[k] : '\0'; };
		for (; i < q.size();) {
			char c = q[i], d = at(i + 1);
			if (sub) {
				if (c == '*') { t.sub = SUBANY; ++i; } else if (c == '-') { sneg = true; ++i; } else if (isdigit((unsigned char)c)) { t.sub = t.sub * 10 + (c - '0'); ++i; } else bad("subpos");
				continue;
			}
			if (c == '*' && d == '*') t.pos |= P_SCANALL, i += 2;
			else if (c == '*') t.pos |= P_SCAN1, ++i;
			else if (c == 'C') t.pos |= P_CAREFUL, ++i;
			else if (c == 'c' && d == 'c') t.pos |= P_GLOB, i += 2;
			else if (c == 'c') t.pos |= P_CHILD, ++i;
			else if (c == 'p' && d == 'p') t.pos |= P_PAR | P_GLOB, i += 2;
			else if (c == 'p') t.pos |= P_PAR, ++i;
			else if (c == 's') t.pos |= P_SIB, ++i;
			else if (c == 'S') t.pos |= P_SELF, ++i;
			else if (c == 'N') t.pos |= P_NOBARR, ++i;
			else if (c == '<') t.pos |= P_SPANL, ++i;
			else if (c == '>') t.pos |= P_SPANR, ++i;
			else if (c == 'W') t.pos |= P_SPAN, ++i;
			else if (c == '@') t.pos |= P_ABS, ++i;
			else if (c == 'O') t.pos |= P_NOPASSO, ++i;
			else if (c == 'o') t.pos |= P_PASSO, ++i;
			else if (c == 'L') t.pos |= P_LPAR, ++i;
			else if (c == 'R') t.pos |= P_RPAR, ++i;
			else if (c == 'X') t.pos |= P_MARKSET, ++i;
			else if (c == 'x') t.pos |= P_JUMP, ++i;
			else if (c == 'D') t.pos |= P_LDEL, ++i;
			else if (c == 'd') t.pos |= P_LDELAY, ++i;
			else if (c == 'I') t.pos |= P_LIGN, ++i;
			else if (c == 'A') t.pos |= P_ATTACH, ++i;
			else if (c == 'w') t.pos |= P_WITH, ++i;
			else if (c == 'T') t.pos |= P_ACT, ++i;
			else if (c == 't') t.pos |= P_INACT, ++i;
			else if (c == 'B') t.pos |= P_BAG, g.has_bag = true, ++i;
			else if (c == '-') neg = true, ++i;
			else if (isdigit((unsigned char)c)) { dig = true; t.off = t.off * 10 + (c - '0'); ++i; }
			else if (c == 'r' && d == ':') { t.pos |= P_REL; t.rel = parse_tag(q.substr(i + 2)); note(t.rel); i = q.size(); g.has_rel = true; }
			else if (c == 'r' && d == 'r' && at(i + 2) != ':') t.pos |= P_RMOST, i += 2;
			else if (c == 'r') t.pos |= P_RIGHT, ++i;
			else if (c == 'l' && d == 'l') t.pos |= P_LMOST, i += 2;
			else if (c == 'l') t.pos |= P_LEFT, ++i;
			else if (c == 'j' && d == 'M') t.pos |= P_JUMP, i += 2;
			else if (c == 'j' && d == 'A') t.pos |= P_JUMP, t.jump = J_ATTACH, i += 2;
			else if (c == 'j' && d == 'T') t.pos |= P_JUMP, t.jump = J_TARGET, i += 2;
			else if (c == 'j' && d == 'C') { t.pos |= P_JUMP; t.jump = at(i + 2) - '0'; i += 3; }
			else if (c == '/') sub = true, ++i;
			else bad("position " + q);
		}
		(void)dig;
		if (neg) t.off = -t.off; if (sneg) t.sub = -t.sub;
		if ((t.pos & (P_CHILD | P_SIB)) && (t.pos & (P_SCAN1 | P_SCANALL))) { t.pos &= ~(uint64_t)(P_SCAN1 | P_SCANALL); t.pos |= P_DEEP; }
		if (t.pos & (P_CHILD | P_PAR | P_SIB)) g.has_dep = true;
	}
	Test* ctx(Rule* r, bool tm = false) { // contents after '(' up to ')' (not consumed)
		Test* t = mkt(); Test* ot = t; ws();
		if (word("NEGATE")) t->pos |= P_NEGATE; ws();
		if (word("ALL")) t->pos |= P_ALL; ws();
		if (word("NONE")) t->pos |= P_NONE; ws();
		if (word("NOT")) t->pos |= P_NOT; ws();
		if (s[p] == '(') {
			for (;;) { expect('('); t->ors.push_back(ctx(r, true)); expect(')'); ws(); if (!word("OR")) break; ws(); }
		}
		else if (s[p] == '[') {
			++p; t->off = 1; t->target = inl(); ws();
			while (s[p] == ',') { ++p; Test* l = mkt(); l->off = 1; l->target = inl(); t->link = l; t = l; ws(); }
			expect(']');
		}
		else {
			bool ref = peek("T:");
			if (!ref) { pos(*t); ws(); if (peek("T:")) { ref = true; t->pos |= P_TMPLOV; } }
			if (ref) { p += 2; size_t b = p; while (!is_sp(s[p]) && s[p] != ')') ++p; tmplrefs.push_back({t, s.substr(b, p - b)}); t->tmplname = s.substr(b, p - b); }
			else t->target = inl();
			ws(); if (word("CBARRIER")) t->cbar = inl();
			ws(); if (word("BARRIER")) t->bar = inl();
			if (!(t->pos & (P_SCAN1 | P_SCANALL | P_DEEP | P_GLOB | P_SELF))) t->bar = t->cbar = nullptr;
		}
		ws();
		if (word("LINK")) t->link = ctx(r, tm);
		if (r) {
			if (r->fl & F_LOOKDEL) t->pos |= P_LDEL; if (r->fl & F_LOOKDELAY) t->pos |= P_LDELAY; if (r->fl & F_LOOKIGN) t->pos |= P_LIGN;
		}
		return ot;
	}
	void place(Rule* r) {
		if (!g.nrules.empty() && !std::regex_search(r->name, std::regex(g.nrules))) return;
		if (!g.nrules_v.empty() && std::regex_search(r->name, std::regex(g.nrules_v))) return;
		r->num = rule_no++; g.all.push_back(r); r->section = cur;
		if (cur == -1) g.before.push_back(r); else if (cur == -2) g.after.push_back(r); else if (cur == -3) g.null.push_back(r);
		else g.sections[cur].push_back(r);
	}
	void rule(const string& kw, const string& wf) {
		g.rulepool.emplace_back(); Rule* r = &g.rulepool.back(); r->kw = kw; r->line = line;
		if (!wf.empty()) { r->hasword = true; r->wordtag = parse_tag(wf); note(r->wordtag); }
		if (kw == "SETPARENT" || kw == "SETCHILD" || kw == "REMPARENT" || kw == "SWITCHPARENT" || kw == "SPLITCOHORT" || kw == "MERGECOHORTS") g.has_dep = true;
		if (kw.find("RELATION") != string::npos || kw == "MERGECOHORTS") g.has_rel = true;
		if (kw == "PROTECT") g.has_protect = true;
		if (p < s.size() && s[p] == ':') { ++p; size_t b = p; while (!is_sp(s[p]) && s[p] != '(') ++p; r->name = s.substr(b, p - b); }
		static const vector<std::pair<const char*, uint64_t>> flags = { {"NEAREST", F_NEAREST}, {"ALLOWLOOP", F_ALLOWLOOP}, {"DELAYED", F_DELAYED}, {"IMMEDIATE", F_IMMEDIATE}, {"LOOKDELETED", F_LOOKDEL},
			{"LOOKDELAYED", F_LOOKDELAY}, {"UNSAFE", F_UNSAFE}, {"SAFE", F_SAFE}, {"REMEMBERX", F_REMX}, {"RESETX", F_RESETX}, {"KEEPORDER", F_KEEP}, {"VARYORDER", F_VARY}, {"ENCL_INNER", F_ENCLI},
			{"ENCL_OUTER", F_ENCLO}, {"ENCL_FINAL", F_ENCLF}, {"ENCL_ANY", F_ENCLA}, {"ALLOWCROSS", F_ALLOWX}, {"ITERATE", F_ITER}, {"NOITERATE", F_NOITER}, {"UNMAPLAST", F_UNMAPLAST},
			{"REVERSE", F_REVERSE}, {"OUTPUT", F_OUTPUT}, {"CAPTURE_UNIF", F_CAPUNIF}, {"REPEAT", F_REPEAT}, {"BEFORE", F_BEFORE}, {"AFTER", F_AFTER}, {"IGNORED", F_IGNORED}, {"LOOKIGNORED", F_LOOKIGN},
			{"NOMAPPED", F_NOMAPPED}, {"NOPARENT", F_NOPARENT}, {"DETACH", F_DETACH}, {"WITHCHILD", F_WITHCHILD}, {"NOCHILD", F_NOCHILD} };
		for (bool any = true; any;) {
			any = false; ws();
			for (auto& f : flags) {
				if ((kw == "COPYCOHORT" || kw == "ADDCOHORT") && (f.second & (F_AFTER | F_BEFORE))) continue;
				size_t sv = p; if (word(f.first)) { r->fl |= f.second; any = true; if (f.second == F_WITHCHILD) { r->child1 = inl(); } (void)sv; break; }
			}
			if (!any && peek("SUB:")) { p += 4; if (s[p] == '*') { r->sub = SUBANY; ++p; } else { bool n = s[p] == '-'; if (n) ++p; int v = 0; while (isdigit((unsigned char)s[p])) v = v * 10 + (s[p++] - '0'); r->sub = n ? -v : v; } any = true; }
		}
		if (r->fl & F_UNMAPLAST) r->fl |= F_UNSAFE;
		if (r->fl & F_REMX) r->fl |= F_KEEP;
		bool selrem = kw == "SELECT" || kw == "REMOVE" || kw == "IFF" || kw == "DELIMIT" || kw == "REMCOHORT" || kw == "MOVE" || kw == "SWITCH";
		if (!(r->fl & (F_ITER | F_NOITER)) && !selrem) r->fl |= F_NOITER;
		if (kw == "UNMAP" && !(r->fl & (F_SAFE | F_UNSAFE))) r->fl |= F_SAFE;
		if (kw == "SETPARENT" && !(r->fl & (F_SAFE | F_UNSAFE))) r->fl |= g.safe_setparent ? F_SAFE : F_UNSAFE;
		ws();
		auto taglist = [&]() { ws(); return inl(); };
		if (kw == "SUBSTITUTE" || kw == "EXECUTE") r->sublist = taglist();
		static const set<string> hasmap = { "MAP", "ADD", "REPLACE", "APPEND", "SUBSTITUTE", "COPY", "COPYCOHORT", "ADDRELATION", "SETRELATION", "REMRELATION", "ADDRELATIONS", "SETRELATIONS", "REMRELATIONS",
			"SETVARIABLE", "REMVARIABLE", "ADDCOHORT", "JUMP", "SPLITCOHORT", "MERGECOHORTS", "RESTORE" };
		if (hasmap.count(kw)) { star = kw == "SPLITCOHORT" || kw == "MERGECOHORTS" || kw == "ADDCOHORT"; r->maplist = taglist(); star = false; }
		ws(); if ((kw == "COPY" || kw == "COPYCOHORT" || kw == "REPLACE") && word("EXCEPT")) r->sublist = taglist();
		if (kw == "ADDRELATIONS" || kw == "SETRELATIONS" || kw == "REMRELATIONS" || kw == "SETVARIABLE") r->sublist = taglist();
		ws(); if (kw == "ADDCOHORT") { if (word("AFTER")) r->fl |= F_AFTER; else if (word("BEFORE")) r->fl |= F_BEFORE; else bad("ADDCOHORT needs AFTER/BEFORE"); }
		if (kw == "COPYCOHORT") { if (word("AFTER")) r->fl |= F_AFTER; else if (word("BEFORE")) r->fl |= F_BEFORE; }
		ws(); if (kw == "ADD" || kw == "MAP" || kw == "SUBSTITUTE" || kw == "COPY") {
			if (r->fl & (F_AFTER | F_BEFORE)) { r->spot = inl(); }
			else if (word("AFTER")) { r->fl |= F_AFTER; r->spot = inl(); } else if (word("BEFORE")) { r->fl |= F_BEFORE; r->spot = inl(); }
		}
		ws(); word("TARGET"); ws();
		if (word("WITHCHILD")) { r->fl |= F_WITHCHILD; r->child1 = inl(); } else if (word("NOCHILD")) { r->fl |= F_NOCHILD; }
		r->target = inl(); ws(); word("IF"); ws();
		while (p < s.size() && s[p] == '(') { ++p; r->tests.push_back(ctx(r)); expect(')'); ws(); }
		if (kw == "WITH") {
			expect('{'); r->fl |= F_KEEP; if (nested) { nested->nested.push_back(r); r->num = rule_no++; g.all.push_back(r); } else place(r); auto sv = nested; nested = r;
			for (;;) { ws(); if (s[p] == '}') { ++p; break; } statement(); }
			nested = sv; ws(); if (s[p] == ';') ++p;
			fin(r); return;
		}
		if (kw == "MOVE") { if (word("AFTER")) r->fl |= F_AFTER; else if (word("BEFORE")) r->fl |= F_BEFORE; else bad("MOVE needs AFTER/BEFORE"); ws(); }
		bool dep = kw == "SETPARENT" || kw == "SETCHILD" || kw.find("RELATION") != string::npos || kw == "COPYCOHORT";
		if (kw == "SWITCH" || kw == "MERGECOHORTS") { if (!word("WITH")) bad("WITH expected"); ws(); }
		if (dep) { if (word("FROM")) r->fl |= F_REVERSE; else if (!word("TO")) bad("TO/FROM expected"); ws(); }
		if (kw == "COPYCOHORT" && !(r->fl & (F_AFTER | F_BEFORE))) { if (word("AFTER")) r->fl |= F_AFTER; else if (word("BEFORE")) r->fl |= F_BEFORE; else bad("COPYCOHORT needs AFTER/BEFORE"); ws(); }
		if (kw == "MOVE" || kw == "COPYCOHORT") { if (word("WITHCHILD")) { r->fl |= F_WITHCHILD; r->child2 = inl(); } else if (word("NOCHILD")) r->fl |= F_NOCHILD; ws(); }
		if (dep || kw == "MOVE" || kw == "SWITCH" || kw == "MERGECOHORTS") {
			while (p < s.size() && s[p] == '(') { ++p; r->deptests.push_back(ctx(r)); expect(')'); ws(); }
			if (r->deptests.empty()) bad("no dep target");
			if (kw != "MERGECOHORTS") { r->dep = r->deptests[0]; r->deptests.erase(r->deptests.begin()); }
		}
		fin(r);
		if (nested) { nested->nested.push_back(r); r->num = rule_no++; g.all.push_back(r); }
		else place(r);
		expect(';');
	}
	void fin(Rule* r) {
		if (r->fl & F_WITHCHILD) g.has_dep = true;
		std::function<bool(Test*)> jm = [&](Test* t) -> bool { if (!t) return false; if (t->pos & P_JUMP && t->jump == J_MARK) return true; if (jm(t->link)) return true; for (auto o : t->ors) if (jm(o)) return true; return false; };
		bool j = false; for (auto t : r->tests) j |= jm(t); for (auto t : r->deptests) j |= jm(t); j |= jm(r->dep);
		if (j) r->fl |= F_REMX | F_KEEP;
		if (!r->hasword) return;
	}
	void statement() {
		ws(); if (p >= s.size()) return;
		string wf;
		if (s[p] == '"') { wf = tok(); ws(); }
		if (s[p] == ';') { ++p; return; }
		if (s[p] == '}') bad("}");
		auto name = [&]() { ws(); size_t b = p; while (p < s.size() && !is_sp(s[p]) && !strchr(";=+", s[p])) ++p; return s.substr(b, p - b); };
		if (wf.empty()) {
			if (word("DELIMITERS")) { expect('='); g.delim = lst(); return; }
			if (word("TEXT-DELIMITERS")) { expect('='); ws(); while (s[p] != ';') { g.textd.push_back(parse_tag(tok())); ws(); } ++p; return; }
			if (word("SOFT-DELIMITERS")) { expect('='); g.soft = lst(); return; }
			if (word("MAPPING-PREFIX")) { expect('='); ws(); g.mprefix = tok(); expect(';'); return; }
			if (word("REOPEN-MAPPINGS")) { expect('='); ws(); while (s[p] != ';') { g.reopen.insert(parse_tag(tok()).txt); ws(); } ++p; return; }
			if (word("SUBREADINGS")) { expect('='); ws(); if (word("LTR")) g.sub_ltr = true; else if (!word("RTL")) bad("SUBREADINGS"); expect(';'); return; }
			if (word("OPTIONS")) { ws(); if (!peek("+=")) bad("OPTIONS"); p += 2; ws(); while (s[p] != ';') { string o = tok(); if (o == "ordered") g.ordered = true; else if (o == "safe-setparent") g.safe_setparent = true; else if (o == "addcohort-attach") g.addcohort_attach = g.has_dep = true; else bad("option " + o); ws(); } ++p; return; }
			if (word("PARENTHESES")) { expect('='); ws(); while (s[p] != ';') { expect('('); string a = tok(), b = tok(); expect(')'); g.parens.push_back({parse_tag(a).txt, parse_tag(b).txt}); ws(); } ++p; return; }
			if (word("LIST")) { string n = name(); ws(); bool app = peek("+="); if (app) ++p; expect('='); Set* st = lst();
				if (app) { auto it = g.sets.find(n); if (it == g.sets.end()) bad("LIST +="); Set* o = it->second;
					if (o->list) { st->alts.insert(st->alts.end(), o->alts.begin(), o->alts.end()); st->ffs.insert(st->ffs.end(), o->ffs.begin(), o->ffs.end()); st->any |= o->any; }
					else { g.setpool.emplace_back(); Set* u = &g.setpool.back(); u->list = false; u->subs = {o, st}; u->ops = {OR}; st = u; }
					if (g.delim == o) g.delim = st; if (g.soft == o) g.soft = st; } st->name = n; g.sets[n] = st; return; }
			if (word("SET")) { string n = name(); expect('='); Set* st = inl(); g.sets[n] = st; expect(';'); return; }
			if (word("TEMPLATE")) { string n = name(); expect('='); ws(); Test* t; size_t sv = p; t = ctx(nullptr, true); (void)sv; g.tmpls[n] = t; expect(';'); return; }
			if (word("BEFORE-SECTIONS") || word("MAPPINGS") || word("CORRECTIONS")) { cur = -1; opt_name(); return; }
			if (word("AFTER-SECTIONS")) { cur = -2; opt_name(); return; }
			if (word("NULL-SECTION")) { cur = -3; opt_name(); return; }
			if (word("SECTION") || word("CONSTRAINTS")) { g.sections.emplace_back(); cur = int(g.sections.size()) - 1; opt_name(); return; }
			if (word("ANCHOR")) { string n = name(); g.anchors[n] = rule_no; ws(); if (s[p] == ';') ++p; return; }
			if (word("END")) { p = s.size(); return; }
		}
		size_t b = p; while (p < s.size() && isupper((unsigned char)s[p])) ++p;
		string kw = s.substr(b, p - b);
		static const set<string> kws = { "SELECT", "REMOVE", "IFF", "MAP", "ADD", "REPLACE", "APPEND", "SUBSTITUTE", "COPY", "UNMAP", "RESTORE", "PROTECT", "UNPROTECT", "DELIMIT", "MOVE", "SWITCH", "SETPARENT", "SETCHILD",
			"REMPARENT", "SWITCHPARENT", "ADDRELATION", "SETRELATION", "REMRELATION", "ADDRELATIONS", "SETRELATIONS", "REMRELATIONS", "SETVARIABLE", "REMVARIABLE", "ADDCOHORT", "REMCOHORT", "SPLITCOHORT", "MERGECOHORTS",
			"COPYCOHORT", "JUMP", "WITH" };
		if (!kws.count(kw)) { p = b; bad("statement"); }
		rule(kw, wf);
	}
	void opt_name() { size_t sv = p; u32 sl = line; while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) ++p; if (p < s.size() && s[p] != '\n' && s[p] != '#') { size_t b = p; while (!is_sp(s[p]) && s[p] != ';') ++p; g.anchors[s.substr(b, p - b)] = rule_no; } (void)sv; (void)sl; ws(); if (p < s.size() && s[p] == ';') ++p; }
	void go() {
		struct Trim { Grammar& g; ~Trim() { while (!g.sections.empty() && g.sections.back().empty()) g.sections.pop_back(); } } trim{g}; // trailing empty sections do not count
		for (;;) { ws(); if (p >= s.size()) break; statement(); }
		{ g.anchors.emplace("START", 0); g.anchors.emplace("END", u32(g.all.size())); for (auto r : g.all) if (!r->name.empty()) g.anchors.emplace(r->name, r->num); }
		for (auto r : g.all) if (r->kw == "JUMP" && r->maplist && r->maplist->alts.size() == 1 && r->maplist->alts[0].size() == 1 && !g.anchors.count(r->maplist->alts[0][0].txt)) throw Fatal("JUMP without anchor");
		for (auto& tr : tmplrefs) { auto it = g.tmpls.find(tr.second); if (it == g.tmpls.end()) throw Unsupported("template " + tr.second); tr.first->tmpl = it->second; }
	}
};
std::unique_ptr<Grammar> parse_grammar(const string& text, const string& nrules, const string& nrules_v) {
	auto g = std::make_unique<Grammar>(); g->nrules = nrules; g->nrules_v = nrules_v;
	P p(text, *g);
	static const char* magic = nullptr; (void)magic;
	{ Set* st = p.mk(); st->name = "_TARGET_"; st->alts = {{parse_tag("_TARGET_")}}; g->sets["_TARGET_"] = st; }
	{ Set* st = p.mk(); st->name = "_MARK_"; st->alts = {{parse_tag("_MARK_")}}; g->sets["_MARK_"] = st; }
	{ Set* st = p.mk(); st->name = "_ATTACHTO_"; st->alts = {{parse_tag("_ATTACHTO_")}}; g->sets["_ATTACHTO_"] = st; }
	{ Set* st = p.mk(); st->name = "_SAME_BASIC_"; st->alts = {{parse_tag("_SAME_BASIC_")}}; g->sets["_SAME_BASIC_"] = st; }
	{ Set* st = p.mk(); st->name = "_ENCL_"; st->alts = {{parse_tag("_ENCL_")}}; g->sets["_ENCL_"] = st; }
	{ Set* st = p.mk(); st->name = "_LEFT_"; st->alts = {{parse_tag("_LEFT_")}}; g->sets["_LEFT_"] = st; }
	{ Set* st = p.mk(); st->name = "_RIGHT_"; st->alts = {{parse_tag("_RIGHT_")}}; g->sets["_RIGHT_"] = st; }
	{ Set* st = p.mk(); st->name = "_PAREN_"; st->alts = {{parse_tag("_LEFT_")}, {parse_tag("_RIGHT_")}}; g->sets["_PAREN_"] = st; }
	for (int i = 1; i <= 9; ++i) { string n = "_C" + std::to_string(i) + "_"; Set* st = p.mk(); st->name = n; st->alts = {{parse_tag(n)}}; g->sets[n] = st; }
	p.go();
	return g;
}
}
