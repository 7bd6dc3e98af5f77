// Reference model: contextual tests.
#include "model_eng.hpp"
namespace mcg {
enum { BRK = 1, BARR = 2, BRKD = 4 };
static bool lessc(const Coh* a, const Coh* b) { return a->w == b->w ? a->l < b->l : a->w->number < b->w->number; }
static uint64_t gp(const Coh* c) { return (uint64_t(c->w->number) << 32) | c->l; }
Coh* Eng::single(Coh* c, const Test* t, int& rvs, bool* rv, Coh** deep, Coh* origin) {
	size_t caps = F().u ? F().u->caps.size() : 0;
	if (t->pos & P_MARKSET) F().mark = c;
	if ((t->pos & P_ATTACH) && F().attach.c != c) {
		vector<vector<Rd*>*> ls = {&c->r}; if (t->pos & P_LDEL) ls.push_back(&c->del); if (t->pos & P_LDELAY) ls.push_back(&c->delayed); if (t->pos & P_LIGN) ls.push_back(&c->ign);
		for (auto l : ls) for (auto r : *l) r->mt = r->mx = false;
	}
	if (t->pos & P_WITH) merge_with = c;
	if (deep) *deep = c;
	MC m; m.test = t; m.deep = deep; m.origin = origin; m.opts = t->pos;
	if (t->pos & P_CAREFUL) {
		*rv = coh_careful(c, t->target, &m);
		if (!m.mtgt && (t->pos & P_SCAN1)) { m.did = true; coh_normal(c, t->target, &m); }
	}
	else *rv = coh_normal(c, t->target, &m);
	if (origin && (t->off != 0 || (t->pos & (P_SCANALL | P_SCAN1))) && origin == c && origin->l != 0) { c = nullptr; rvs |= BRK; }
	if (m.mtgt && (t->pos & P_SCAN1)) rvs |= BRK;
	else if (!(t->pos & (P_SCANALL | P_SCAN1 | P_DEEP | P_GLOB))) rvs |= BRK | BRKD;
	bool broken = rvs & BRK;
	auto barrier = [&](const Set* s, bool careful) {
		if (!s || !c) return;
		MC b; b.barrier = true; b.opts = careful ? t->pos | P_CAREFUL : t->pos & ~uint64_t(P_CAREFUL);
		if (careful ? coh_careful(c, s, &b) : coh_normal(c, s, &b)) { seen_barrier = true; rvs |= BRK | BARR; rvs &= ~BRKD; }
	};
	barrier(t->bar, false); barrier(t->cbar, true);
	if (m.mtgt && *rv) rvs |= BRK;
	if (!broken && (rvs & BARR) && (t->pos & P_SELF) && (t->pos & P_NOBARR)) rvs &= ~(BRK | BARR);
	if (!*rv && F().u) F().u->caps.resize(std::min(F().u->caps.size(), caps));
	return c;
}
Coh* Eng::single(Win* w, size_t i, const Test* t, int& rvs, bool* rv, Coh** deep, Coh* origin) {
	if (i >= w->c.size()) { rvs |= BRK; *rv = false; return nullptr; }
	return single(w->c[i], t, rvs, rv, deep, origin);
}
bool Eng::pos_out(const Win* w, size_t pos, const Test* t, const Coh* c, const Coh* cd) {
	const Coh* cs[4] = {c, cd, tmin ? tmin : c, tmax ? tmax : cd};
	std::sort(cs, cs + 4, lessc);
	bool good = false; int p = int(pos);
	if (t->pos & (P_SCAN1 | P_SCANALL | P_ABS)) good = true;
	else if (t->off > 0 && int(cs[0]->l) - p == t->off) good = true;
	else if (t->off < 0 && int(cs[3]->l) - p == t->off) good = true;
	if (!(t->pos & (P_SPAN | P_SPANL | P_SPANR)) && cd->w != w) good = false;
	if (!(t->pos & P_PASSO)) { if (t->off < 0 && int(cs[3]->l) > p) good = false; else if (t->off > 0 && int(cs[0]->l) < p) good = false; }
	return good;
}
Coh* Eng::tmpl(Win* w, size_t pos, const Test* t, const Test* tm0, Coh*& cd, Coh* origin) {
	Test* tm = const_cast<Test*>(tm0); Coh *mn = tmin, *mx = tmax; bool in = tin; tin = true;
	if (t->link) tlink.push_back(t->link);
	Test save = *tm; bool ov = t->pos & P_TMPLOV;
	if (ov) {
		tm->pos = t->pos & ~uint64_t(P_NEGATE | P_NOT | P_JUMP); tm->off = t->off;
		if (t->off != 0 && !(t->pos & (P_SCAN1 | P_SCANALL | P_ABS))) tm->pos |= P_SCANALL;
		if (t->cbar) tm->cbar = t->cbar; if (t->bar) tm->bar = t->bar;
	}
	Coh* c;
	try { c = ctx(w, pos, tm, &cd, origin); } catch (...) { *tm = save; throw; }
	if (ov) { *tm = save; if (c && cd && t->off != 0 && !pos_out(w, pos, t, c, cd)) c = nullptr; }
	if (t->link) tlink.pop_back();
	if (!c) { tmin = mn; tmax = mx; tin = in; }
	return c;
}
Coh* Eng::win_pos(Win*& w, size_t& ps, const Test* t) {
	int pos = int(ps) + t->off;
	if ((t->pos & P_ABS) && (t->pos & (P_SPANL | P_SPANR))) {
		if (wprev(w) && (t->pos & P_SPANL)) w = wprev(w); else if (wnext(w) && (t->pos & P_SPANR)) w = wnext(w); else { ps = size_t(pos); return nullptr; }
	}
	if (t->pos & P_ABS) pos = t->off < 0 ? int(w->c.size()) + t->off : t->off;
	if (pos >= 0) { if (pos >= int(w->c.size()) && (t->pos & (P_SPANR | P_SPAN)) && wnext(w)) { w = wnext(w); pos = 0; } }
	else if ((t->pos & (P_SPANL | P_SPAN)) && wprev(w)) { w = wprev(w); pos = int(w->c.size()) - 1; }
	ps = size_t(pos);
	return pos >= 0 && pos < int(w->c.size()) ? w->c[size_t(pos)] : nullptr;
}
Coh* Eng::ctx(Win* w, size_t position, const Test* t, Coh** deep, Coh* origin) {
	Coh* c = nullptr; bool rv = true, jumpfail = false; Win* orgw = w; size_t orgpos = position;
	if (t->pos & P_JUMP) {
		Coh* j = nullptr;
		if (t->jump == J_MARK) j = F().mark;
		else if (t->jump == J_ATTACH) j = F().attach.c;
		else if (t->jump == J_TARGET) { for (size_t i = fs.size(); i-- > 0;) if (fs[i].nested) j = fs[i].target.c; }
		else if (fs.size() > 1) { auto& l = fs[fs.size() - 2].ctx; if (l.size() >= size_t(t->jump)) j = l[t->jump - 1]; }
		if (j) { w = j->w; position = j->l; orgw = w; orgpos = position; } else jumpfail = true, rv = false;
	}
	size_t pos = position;
	if (!jumpfail) {
		if (t->tmpl) { Coh* cd = nullptr; c = tmpl(w, position, t, t->tmpl, cd, origin); if (deep) *deep = cd; }
		else if (!t->ors.empty()) { Coh* cd = nullptr; for (auto x : t->ors) { deep_seen.clear(); c = tmpl(w, position, t, x, cd, origin); if (c) break; } if (deep) *deep = cd; }
		else c = win_pos(w, pos, t);
		if (!c) rv = false;
		else if (!t->tmpl && t->ors.empty()) {
			if (t->pos & P_PASSO) origin = w->c[0];
			if (deep) *deep = c;
			if (tin) { if (!tmin || gp(c) < gp(tmin)) tmin = c; if (!tmax || gp(c) > gp(tmax)) tmax = c; }
			// the cohorts to visit, in order
			bool iter = false; vector<Coh*> seq; bool lazy_topo = false; int dir = 0;
			auto spanok = [&](const Coh* from, const Coh* to) { if (from->w == to->w) return true; if (to->w->number < from->w->number) return (t->pos & (P_SPAN | P_SPANL)) != 0; return (t->pos & (P_SPAN | P_SPANR)) != 0; };
			auto lorr = [&](vector<Coh*>& v, Coh* self) {
				std::sort(v.begin(), v.end(), lessc); v.erase(std::unique(v.begin(), v.end()), v.end());
				if (t->pos & P_LEFT) v.erase(std::remove_if(v.begin(), v.end(), [&](Coh* x) { return !lessc(x, self); }), v.end());
				if (t->pos & P_RIGHT) v.erase(std::remove_if(v.begin(), v.end(), [&](Coh* x) { return lessc(x, self); }), v.end());
				if (t->pos & P_SELF) { v.push_back(self); std::sort(v.begin(), v.end(), lessc); v.erase(std::unique(v.begin(), v.end()), v.end()); }
				if (t->pos & P_RMOST) std::reverse(v.begin(), v.end());
			};
			if ((t->pos & P_PAR) && (t->pos & P_GLOB)) {
				iter = true; set<Coh*> seen;
				for (Coh* x = c;;) { auto it = cmap.find(x->dpar); if (it == cmap.end()) break; x = it->second; if (!seen.insert(x).second) break; if (spanok(c, x)) seq.push_back(x); }
				lorr(seq, c);
			}
			else if (t->pos & P_PAR) {
				iter = true; set<Coh*> seen;
				for (Coh* x = c; x && x->dpar != NOPAR;) {
					auto it = cmap.find(x->dpar); if (it == cmap.end()) break; Coh* p = it->second;
					if (p->removed || seen.count(p)) break; seen.insert(x);
					bool ok = p->w == x->w || (t->pos & P_SPAN) || o.always_span || (p->w->number < x->w->number ? (t->pos & P_SPANL) != 0 : (t->pos & P_SPANR) != 0);
					if (!ok) break; seq.push_back(x = p);
				}
			}
			else if (t->pos & P_GLOB) {
				iter = true; vector<Coh*> q;
				auto kids = [&](Coh* x) { for (auto k : x->kids) { auto it = cmap.find(k); if (it == cmap.end() || !spanok(c, it->second)) continue; if (std::find(seq.begin(), seq.end(), it->second) == seq.end()) { seq.push_back(it->second); q.push_back(it->second); } } };
				kids(c); while (!q.empty()) { Coh* x = q.back(); q.pop_back(); if (x != c) kids(x); }
				lorr(seq, c);
			}
			else if (t->pos & (P_CHILD | P_SIB)) { Coh* n = depctx(w, c, t, deep, origin); if (n) { c = n; rv = true; w = c->w; } else rv = false; if (t->pos & P_NONE) rv = !rv; }
			else if (t->pos & (P_LPAR | P_RPAR)) { Coh* n = parctx(w, c, t, deep, origin); rv = n != nullptr; if (n) c = n; }
			else if (t->pos & P_REL) { Coh* n = relctx(w, c, t, deep, origin); rv = n != nullptr; if (n) c = n; if (t->pos & P_NONE) rv = !rv; }
			else if (t->pos & P_BAG) {
				auto bm = [&](Win* x) { Rd r; Coh bc; bc.w = x; r.parent = &bc; r.tl.assign(bags[x].begin(), bags[x].end()); bc.r.push_back(&r); return set_match(t->target, &r); };
				bool m = bm(w);
				Win *l = (t->pos & (P_SPAN | P_SPANL)) ? wprev(w) : nullptr, *r = (t->pos & (P_SPAN | P_SPANR)) ? wnext(w) : nullptr;
				while (!m && (l || r)) { if (l) { m = bm(l); l = wprev(l); } if (r && !m) { m = bm(r); } if (r) r = wnext(r); }
				if (t->pos & P_NOT) m = !m;
				if (!m) rv = false; else if (t->link) c = ctx(w, position, t->link, deep, origin);
			}
			else if (t->off == 0 && (t->pos & (P_SCAN1 | P_SCANALL))) {
				Win *L = w, *R = w; long lp = long(pos), rp = long(pos); int rvs = 0; bool done = false;
				if (t->pos & P_SELF) { c = single(c, t, rvs, &rv, deep, origin); if (!rv && (rvs & BRKD)) rvs &= ~(BRK | BRKD); }
				if ((rvs & BRK) && rv) done = true;
				for (long i = 1; !done && (L || R); ++i) {
					if (L) {
						rvs = 0; if (lp - i < 0) { rvs = BRK; rv = false; c = nullptr; } else c = single(L, size_t(lp - i), t, rvs, &rv, deep, origin);
						if ((rvs & BRK) && rv) { done = true; break; }
						else if (rvs & BRK) { L = nullptr; if (t->pos & P_NOT) R = nullptr; }
						else if (lp - i == 0) { if ((t->pos & (P_SPAN | P_SPANL)) || o.always_span) { L = wprev(L); if (L) lp = i + long(L->c.size()); } else L = nullptr; }
					}
					if (R) {
						rvs = 0; if (rp + i < 0) { rvs = BRK; rv = false; c = nullptr; } else c = single(R, size_t(rp + i), t, rvs, &rv, deep, origin);
						if ((rvs & BRK) && rv) { done = true; break; }
						else if (rvs & BRK) { R = nullptr; if (t->pos & P_NOT) L = nullptr; }
						else if (rp + i == long(R->c.size()) - 1) { if ((t->pos & (P_SPAN | P_SPANR)) || o.always_span) { R = wnext(R); rp = -i - 1; } else R = nullptr; }
					}
				}
			}
			else if (t->off != 0) { iter = true; lazy_topo = true; dir = t->off < 0 ? -1 : 1; }
			else { iter = true; seq.push_back(c); }
			if (iter) {
				Coh* nc = nullptr; int rvs = 0; size_t seen = 0;
				if ((t->pos & P_SELF) && (!(t->pos & P_LORR) || ((t->pos & P_PAR) && !(t->pos & P_GLOB)))) {
					++seen; nc = single(orgw->c.at(orgpos), t, rvs, &rv, deep, origin);
					if (!rv && (rvs & BRKD)) rvs &= ~(BRK | BRKD);
				}
				if (!(rvs & BRK)) {
					Coh* at = c; Coh* x = lazy_topo ? c : seq.empty() ? nullptr : seq[0]; size_t k = 0;
					while (x) {
						++seen;
						if ((t->pos & P_LEFT) && lessc(at, x)) { nc = nullptr; rv = false; break; }
						if ((t->pos & P_RIGHT) && !lessc(at, x)) { nc = nullptr; rv = false; break; }
						nc = single(x, t, rvs, &rv, deep, origin);
						if ((t->pos & P_ALL) && !rv) { nc = nullptr; break; }
						if ((t->pos & P_NONE) && rv) { nc = nullptr; break; }
						if (rvs & BRK) break;
						at = x;
						if (lazy_topo) {
							Coh* y = dir < 0 ? cprev(x) : cnext(x);
							if (y && y->w != x->w && !((t->pos & (P_SPAN | (dir < 0 ? P_SPANL : P_SPANR))) || o.always_span)) y = nullptr;
							x = y;
						}
						else x = ++k < seq.size() ? seq[k] : nullptr;
					}
				}
				if (!seen) rv = false;
				if (!rv && (t->pos & P_NONE)) { rv = true; nc = c; }
				c = nc;
			}
		}
	}
	if (!c) rv = false;
	if (!c && (t->pos & P_NOT) && !t->link) rv = !rv;
	if (t->pos & P_NEGATE) rv = !rv;
	if (!rv) c = nullptr; else if (!c) c = w->c[0];
	return c;
}
Coh* Eng::depctx(Win* w, Coh* cu, const Test* t, Coh** deep, Coh* origin, const Coh* self) {
	if (self) { if (self == cu) return nullptr; } else self = cu;
	if (t->pos & P_DEEP) { if (!deep_seen.insert({t, cu->g}).second) return nullptr; }
	if ((t->pos & P_SELF) && !(t->pos & P_LORR)) { bool rv = false; int rvs = 0; Coh* x = single(cu, t, rvs, &rv, deep, origin); if (rv) return x; if (rvs & BARR) return nullptr; }
	vector<Coh*> d; const set<u32>* ids;
	if (t->pos & P_CHILD) ids = &cu->kids;
	else if (!cu->dpar) ids = &cu->w->c[0]->kids;
	else { auto it = cmap.find(cu->dpar); if (it == cmap.end() || it->second->kids.empty()) return nullptr; ids = &it->second->kids; }
	for (auto k : *ids) { auto it = cmap.find(k); if (it != cmap.end()) d.push_back(it->second); }
	if (t->pos & P_LORR) {
		d.erase(std::remove_if(d.begin(), d.end(), [&](Coh* x) { return (t->pos & P_LEFT) ? !lessc(x, cu) : (t->pos & P_RIGHT) ? !lessc(cu, x) : false; }), d.end());
		if (t->pos & P_SELF) d.push_back(cu);
		std::sort(d.begin(), d.end(), [](Coh* a, Coh* b) { return a->g < b->g; }); d.erase(std::unique(d.begin(), d.end()), d.end());
		if (t->pos & P_RMOST) std::reverse(d.begin(), d.end());
	}
	Coh* res = nullptr;
	for (auto x : d) {
		if (x == cu && !(t->pos & P_SELF)) continue;
		if (x->removed) continue;
		bool good = cu->w == x->w || (x->w->number < cu->w->number ? (t->pos & (P_SPAN | P_SPANL)) != 0 : (t->pos & (P_SPAN | P_SPANR)) != 0);
		bool rv = false; int rvs = 0;
		if (good) single(x, t, rvs, &rv, deep, origin);
		if (t->pos & P_ALL) { if (!rv) { res = nullptr; break; } res = x; }
		else if (rv) { res = x; break; }
		else if (rvs & BARR) continue;
		else if (t->pos & P_DEEP) { Coh* y = depctx(x->w, x, t, deep, origin, self); if (y) { res = y; break; } }
	}
	(void)w; return res;
}
Coh* Eng::parctx(Win* w, const Coh* c, const Test* t, Coh** deep, Coh* origin) {
	if (!in_encl(c)) return nullptr;
	bool rv = false; int rvs = 0; Coh* x = (t->pos & P_LPAR) ? par_lc : par_rc; (void)w;
	single(x, t, rvs, &rv, deep, origin);
	return rv ? x : nullptr;
}
Coh* Eng::relctx(Win*, Coh* cu, const Test* t, Coh** deep, Coh* origin) {
	if (!cu->related || cu->rel.empty()) return nullptr;
	vector<Coh*> v; string vs = t->rel.kind == VSTR ? varstr(t->rel) : ""; GTag rt = t->rel.kind == VSTR ? parse_tag(vs) : t->rel;
	size_t caps = F().u ? F().u->caps.size() : 0; bool captured = false;
	for (auto& r : cu->rel) {
		bool ok = rt.kind == ANYTAG || lit(rt, r.first, false);
		if (!ok) continue;
		// which of several matching names is captured is not specified
		if (rt.kind == RX && rt.groups) { bool any = false; for (auto k : r.second) any = any || cmap.count(k); if (any && captured) throw Ambiguous("several captured relations"); if (any) captured = true, lit(rt, r.first, true); }
		for (auto k : r.second) { auto it = cmap.find(k); if (it != cmap.end()) v.push_back(it->second); }
	}
	std::sort(v.begin(), v.end(), lessc); v.erase(std::unique(v.begin(), v.end()), v.end());
	if (t->pos & P_LEFT) v.erase(std::remove_if(v.begin(), v.end(), [&](Coh* x) { return !lessc(x, cu); }), v.end());
	if (t->pos & P_RIGHT) v.erase(std::remove_if(v.begin(), v.end(), [&](Coh* x) { return lessc(x, cu); }), v.end());
	if (t->pos & P_SELF) { v.push_back(cu); std::sort(v.begin(), v.end(), lessc); v.erase(std::unique(v.begin(), v.end()), v.end()); }
	if ((t->pos & P_LMOST) && !v.empty()) v.resize(1);
	if ((t->pos & P_RMOST) && !v.empty()) v.erase(v.begin(), v.end() - 1);
	Coh* res = nullptr;
	for (auto x : v) { int rvs = 0; bool rv = false; single(x, t, rvs, &rv, deep, origin); if (t->pos & P_ALL) { if (!rv) { res = nullptr; break; } res = x; } else if (rv) { res = x; break; } }
	if (!res && F().u) F().u->caps.resize(std::min(F().u->caps.size(), caps));
	return res;
}
}
