// Reference model: tags, sets and cohorts.
#include "model_eng.hpp"
#include <cstring>
namespace mcg {
bool Eng::lit(const GTag& t, const string& x, bool cap) {
	switch (t.kind) {
	case ANYTAG: return x == "*";
	case LIT: return t.txt == x;
	case ICASE: return !strcasecmp(t.txt.c_str(), x.c_str());
	case RX: {
		std::smatch m; if (!std::regex_search(x, m, *t.rx)) return false;
		if (cap && t.groups && !fs.empty() && F().u) for (size_t i = 1; i < m.size(); ++i) F().u->caps.push_back(m[i].str());
		return true;
	}
	default: throw Unsupported("tag kind in value position");
	}
}
bool num_ok(char op, double v, char iop, double iv) { // grammar <X op v> against input <X iop iv>
	auto eq = [&](char o, double a, double b) { return o == '=' ? a == b : o == '!' ? a != b : o == '<' ? a < b : o == '>' ? a > b : o == 'l' ? a <= b : a >= b; };
	if (iop == '=') return eq(op, iv, v);         // input states a value: does it satisfy the grammar's constraint
	if (op == '=') return eq(iop, v, iv);         // input states a range: may it be this value
	if (op == '!' && iop == '!') return v == iv;
	if (op == '!' || iop == '!') return true;
	bool up = op == '>' || op == 'g', iup = iop == '>' || iop == 'g';
	if (up == iup) return true;
	if (up) return (op == 'g' && iop == 'l') ? v <= iv : v < iv;
	return (op == 'l' && iop == 'g') ? v >= iv : v > iv;
}
string Eng::varstr(const GTag& t) {
	string s = t.txt; bool any = false;
	// {SET} references
	string r;
	for (size_t i = 0; i < s.size();) {
		if (s[i] == '{') {
			size_t e = s.find('}', i); if (e == string::npos) throw Unsupported("varstring");
			string n = s.substr(i + 1, e - i - 1); auto it = g.sets.find(n); if (it == g.sets.end()) throw Unsupported("varstring set " + n);
			Tags v = taglist(it->second); string x; for (size_t k = 0; k < v.size(); ++k) x += (k ? "_" : "") + v[k];
			r += x; any = true; i = e + 1; continue;
		}
		if (s[i] == '$' && i + 1 < s.size() && s[i + 1] >= '1' && s[i + 1] <= '9') {
			size_t k = size_t(s[i + 1] - '1');
			if (fs.empty() || !F().u || k >= F().u->caps.size()) throw Ambiguous("varstring without capture");
			r += F().u->caps[k]; any = true; i += 2; continue;
		}
		r += s[i++];
	}
	(void)any;
	// case markers, innermost (last) first
	for (;;) {
		size_t p = string::npos; for (const char* m : {"%u", "%U", "%l", "%L"}) { auto q = r.rfind(m); if (q != string::npos && (p == string::npos || q > p)) p = q; }
		if (p == string::npos) break;
		char m = r[p + 1]; r.erase(p, 2);
		for (size_t k = p; k < r.size(); ++k) { bool up = m == 'u' || m == 'U'; if (r[k] == '\xc3' && k + 1 < r.size()) { unsigned char c = (unsigned char)r[++k]; if (up && c >= 0xa0 && c != 0xb7 && c != 0xbf) c -= 0x20; else if (!up && c >= 0x80 && c < 0x9f && c != 0x97) c += 0x20; r[k] = char(c); } else r[k] = char(up ? toupper(r[k]) : tolower(r[k])); if (m == 'u' || m == 'l') break; }
	}
	return r;
}
static string altname(const Set* s, size_t i) { return std::to_string(reinterpret_cast<uintptr_t>(s)) + "#" + std::to_string(i); }
int Eng::tag_match(const GTag& t, const Rd* r, bool unif, const Set*, int) {
	Coh* c = r->parent;
	if (t.ff) { if (t.kind != LIT) throw Unsupported("special fail-fast tag"); return r->has(t.txt); }
	switch (t.kind) {
	case LIT: { if (parse_num(t.txt, *std::make_unique<Num>())) throw Unsupported("numeric literal"); return r->has(t.txt); }
	case ANYTAG: return 1;
	case RX: case ICASE: {
		int n = 0; set<string> seen;
		for (auto& x : r->tl) { if (x.empty() || !seen.insert(x).second || !textual(x)) continue; if (lit(t, x, n == 0)) ++n; }
		if (n > 1 && (t.groups || unif)) throw Ambiguous("several tags match a capturing regular expression");
		return n;
	}
	case RXLINE: case META: {
		string l = c->text; if (t.kind == RXLINE) { l.clear(); for (auto& x : r->tl) if (!x.empty()) l += (l.empty() ? "" : " ") + x; } else if (l.empty()) return 0;
		std::smatch m; if (!std::regex_search(l, m, *t.rx)) return 0;
		if (t.groups && !fs.empty() && F().u) for (size_t i = 1; i < m.size(); ++i) F().u->caps.push_back(m[i].str());
		return 1;
	}
	case VSTR: { string v = varstr(t); GTag n = parse_tag(v); return tag_match(n, r, unif, nullptr, 0); }
	// in a unified set, the first base form, wordform or other textual tag seen is the only one accepted afterwards
	case ANYBASE: if (unif && !r->base.empty()) { if (ubase.empty()) ubase = r->base; return ubase == r->base; } return !r->base.empty();
	case ANYWORD: if (unif) { auto& w = r->parent->word; if (uword.empty()) uword = w; return uword == w; } return 1;
	case ANYTEXT: if (unif) {
			set<string> k; for (auto& x : r->tl) if (!x.empty() && textual(x) && !is_base(x) && !is_word(x)) k.insert(x);
			if (k.empty()) return 0;
			if (!utext.empty()) return k.count(utext) != 0;
			if (k.size() > 1) throw Ambiguous("several textual tags for a unified any-tag");
			utext = *k.begin(); return 1;
		}
		for (auto& x : r->tl) if (textual(x) && !is_base(x) && !is_word(x)) return 1; return 0;
	case NUM: {
		double v = t.num.val;
		if (!t.num.math.empty()) {
			double mn = -281474976710656.0, mx = 281474976710655.0; bool any = false;
			for (auto x : c->r) for (auto& y : x->tl) { Num n; if (parse_num(y, n) && n.key == t.num.key) { if (!any || n.val < mn) mn = n.val; if (!any || n.val > mx) mx = n.val; any = true; } }
			if (any) v = math_eval(t.num.math, mn, mx);
		}
		else if (t.num.min || t.num.max) { // extreme over the readings of the cohort
			bool any = false; double b = 0;
			for (auto x : c->r) for (auto& y : x->tl) { Num n; if (parse_num(y, n) && n.key == t.num.key) { if (!any || (t.num.min ? n.val < b : n.val > b)) b = n.val; any = true; } }
			if (!any) return 0;
			v = b;
		}
		for (auto& y : r->tl) { Num n; if (parse_num(y, n) && n.key == t.num.key) { if (n.min || n.max) throw Unsupported("extreme in input"); if (num_ok(t.num.op, v, n.op, n.val)) return 1; } }
		return 0;
	}
	case VAR: case LVAR: {
		const map<string, string>& vs = t.kind == LVAR && c->w != cur ? c->w->vset : vars;
		vector<const string*> m;
		for (auto& kv : vs) if (lit(*t.key, kv.first, false)) { if (!t.val) return 1; if (lit(*t.val, kv.second, false)) m.push_back(&kv.second); }
		if (m.size() > 1 && t.val->groups) throw Ambiguous("several variables match");
		if (m.size()) return lit(*t.val, *m[0], true);
		return 0;
	}
	case PLEFT: return !par_l.empty() && c == par_lc && r->has(par_l);
	case PRIGHT: return !par_r.empty() && c == par_rc && r->has(par_r);
	case ENCL: { auto& a = c->w->all; auto it = std::find(a.begin(), a.end(), c); if (it == a.end()) return 0; ++it; while (it != a.end() && ((*it)->removed || (*it)->ignored)) ++it; return it != a.end() && (*it)->enclosed; }
	case TARGET: return rule_target && c == rule_target;
	case MARK: return !fs.empty() && c == F().mark;
	case ATTACHTO: return !fs.empty() && c == F().attach.c;
	case SAMEBASIC: return r->plainkey() == same_basic;
	case CTXREF: if (fs.size() > 1) { auto& l = fs[fs.size() - 2].ctx; return size_t(t.ref) <= l.size() && l[t.ref - 1] == c; } return 0;
	default: throw Unsupported("tag kind");
	}
}
bool Eng::comp_match(const Comp& k, const Rd* r, bool unif, const Set* s) { for (auto& t : k) if (t.ff || !tag_match(t, r, unif, s, 0)) return false; return true; } // a fail-fast tag inside a composite never contributes a match
bool Eng::list_match(const Set* s, const Rd* r, bool unif) {
	for (auto& f : s->ffs) if (tag_match(f, r, unif, s, 0)) return false;
	if (!unif) { for (auto& a : s->alts) if (comp_match(a, r, false, s)) return true; return false; }
	if (fs.empty() || !F().u) throw Unsupported("unification outside a rule");
	auto it = F().u->tags.find(s); size_t n = 0, last = 0;
	for (size_t i = 0; i < s->alts.size(); ++i) {
		if (!comp_match(s->alts[i], r, true, s)) continue;
		if (it != F().u->tags.end()) { if (it->second[0] == altname(s, i)) return true; continue; }
		++n; last = i;
	}
	if (it != F().u->tags.end() || !n) return false;
	if (n > 1) throw Ambiguous("several candidates for a unified set");
	F().u->tags[s] = {altname(s, last)};
	return true;
}
bool Eng::set_match(const Set* s, const Rd* r, bool unif) {
	if (s->any) return true;
	if (s->list) return list_match(s, r, unif || s->tunify);
	if (s->sunify) {
		auto& u = F().u->sets[s]; const Set* b = s->subs[0];
		if (u.empty()) { for (auto x : b->subs) if (set_match(x, r, unif)) u.insert(x); return !u.empty(); }
		bool ok = false; for (auto x : set<const Set*>(u)) if (set_match(x, r, unif)) ok = true;
		return ok;
	}
	bool un = unif || s->tunify, res = false;
	size_t n = s->subs.size();
	for (size_t i = 0; i < n; ++i) {
		bool m = set_match(s->subs[i], r, un), ff = false;
		for (; i + 1 < n && s->ops[i] != OR; ++i) {
			const Set* x = s->subs[i + 1];
			if (s->ops[i] == PLUS) { if (m) m = set_match(x, r, un); }
			else if (s->ops[i] == FAILF) { if (set_match(x, r, un)) m = false, ff = true; }
			else if (s->ops[i] == MINUS) { if (m && set_match(x, r, un)) m = false; }
			else throw Unsupported("set operator");
		}
		if (m) { res = true; break; }
		if (ff) break;
	}
	if (un && !fs.empty() && F().u) {
		auto& t = F().u->tags; const Tags* b = nullptr;
		for (auto x : s->subs) { auto it = t.find(x); if (it != t.end()) { b = &it->second; break; } }
		if (b) { Tags v = *b; for (auto x : s->subs) t[x] = v; }
	}
	return res;
}
const Rd* Eng::sub_of(const Rd* r, int sub) {
	if (!sub) return r;
	if (sub == SUBANY) {
		if (!r->next) return r;
		rpool.emplace_back(*r); Rd* m = &rpool.back(); m->next = nullptr;
		for (const Rd* x = r->next; x; x = x->next) { m->tl.push_back(""); m->tl.insert(m->tl.end(), x->tl.begin(), x->tl.end()); if (x->mapped) m->mapped = true; if (!x->mapping.empty()) m->mapping = x->mapping; m->mt |= x->mt; m->mx |= x->mx; }
		return m;
	}
	if (sub > 0) { for (int i = 0; i < sub && r; ++i) r = r->next; return r; }
	int n = 0; for (const Rd* x = r; x; x = x->next) --n;
	if (!r->next) return nullptr;
	if (n > sub) return r; // as many steps as possible from the end: at least the reading itself
	for (int i = n; i < sub && r; ++i) r = r->next;
	return r;
}
bool Eng::linked(Coh* c, const Set* s, MC* m) {
	const Test* l = m->test ? m->test->link : nullptr; bool reset = false; Coh *mn = nullptr, *mx = nullptr; bool rv = true;
	if (!l && !tlink.empty()) { mn = tmin; mx = tmax; l = tlink.back(); tlink.pop_back(); reset = true; }
	if (l) {
		if (!m->did) {
			m->mtst = ctx(c->w, c->l, l, m->deep, (l->pos & P_NOPASSO) ? c : m->origin) != nullptr;
			if (!s->has_unify()) m->did = true;
		}
		rv = m->mtst;
	}
	if (reset) tlink.push_back(l);
	if (!rv) { tmin = mn; tmax = mx; }
	return rv;
}
bool Eng::helper(Coh* c, Rd* r, const Set* s, MC* m) {
	bool rv = false, un = s->has_unify(); Unif save; bool haveu = !fs.empty() && F().u;
	if (haveu) save = *F().u;
	bool restore = m && haveu && un && rule && !(rule->fl & F_CAPUNIF);
	if (set_match(s, r)) { rv = true; if (m) { if (m->opts & P_ATTACH) r->mt = true; m->mtgt = true; } }
	if (rv && m && (m->opts & P_NOT)) rv = false;
	if (rv && m && !m->barrier) {
		rv = linked(c, s, m);
		if (m->opts & P_ATTACH) { r->mx = rv; if (rv && !fs.empty()) { F().attach.c = c; F().attach.r = nullptr; F().attach.s = r; } }
	}
	if (!rv && haveu) { if (restore) { F().u->tags = save.tags; if (save.sets.size() != F().u->sets.size()) F().u->sets = save.sets; } F().u->caps.resize(std::min(F().u->caps.size(), save.caps.size())); }
	return rv;
}
bool Eng::coh_normal(Coh* c, const Set* s, MC* m) {
	bool rv = false;
	if (c->wread && (!m || !m->barrier)) rv = helper(c, c->wread, s, m);
	if (rv && (!m || m->did)) return rv;
	vector<vector<Rd*>> ls = {c->r};
	if (m && (m->opts & P_LDEL)) ls.push_back(c->del);
	if (m && (m->opts & P_LDELAY)) ls.push_back(c->delayed);
	if (m && (m->opts & P_LIGN)) ls.push_back(c->ign);
	for (auto& l : ls) for (auto head : l) {
		Rd* r = head; if (m && m->test) { r = const_cast<Rd*>(sub_of(r, m->test->sub)); if (!r) continue; }
		if (m && (m->opts & P_ACT) && !r->active) continue;
		if (m && (m->opts & P_INACT) && r->active) continue;
		if (helper(c, r, s, m)) { rv = true; if (!fs.empty() && F().attach.c == c && F().attach.s == r) F().attach.r = head; }
		if (rv && (!m || !(m->test && m->test->link) || m->did)) return rv;
	}
	if (m && !m->mtgt && (m->opts & P_NOT)) rv = linked(c, s, m);
	return rv;
}
bool Eng::coh_careful(Coh* c, const Set* s, MC* m) {
	bool rv = false;
	vector<vector<Rd*>> ls = {c->r};
	if (m && (m->opts & P_LDEL)) ls.push_back(c->del);
	if (m && (m->opts & P_LDELAY)) ls.push_back(c->delayed);
	if (m && (m->opts & P_LIGN)) ls.push_back(c->ign);
	for (auto& l : ls) {
		for (auto head : l) {
			Rd* r = head; if (m && m->test) { r = const_cast<Rd*>(sub_of(r, m->test->sub)); if (!r) continue; }
			if (m && (m->opts & P_ACT) && !r->active) continue;
			if (m && (m->opts & P_INACT) && r->active) continue;
			rv = helper(c, r, s, m);
			if (!rv) break;
		}
		if (!rv) break;
	}
	if (m && !m->mtgt && (m->opts & P_NOT)) rv = linked(c, s, m);
	return rv;
}
Tags Eng::taglist(const Set* s, bool unif) {
	Tags out;
	std::function<void(const Set*, bool)> go = [&](const Set* x, bool un) {
		if (x->sunify) { auto& u = F().u->sets[x]; for (auto y : x->subs[0]->subs) if (u.count(y)) go(y, false); }
		else if (x->tunify) { for (auto y : x->subs) go(y, true); }
		else if (!x->subs.empty()) { for (auto y : x->subs) go(y, un); }
		else if (un) {
			auto it = F().u->tags.find(x); if (it != F().u->tags.end()) for (size_t i = 0; i < x->alts.size(); ++i) if (it->second[0] == altname(x, i)) for (auto& t : x->alts[i]) out.push_back(t.txt);
		}
		else for (auto& a : x->alts) for (auto& t : a) out.push_back(t.txt);
		for (size_t i = 1; i < out.size();) if (out[i] == out[i - 1]) out.erase(out.begin() + long(i)); else ++i;
	};
	go(s, unif); return out;
}
}
