// Reference model: tags of readings, stream reading, windows, printing.
#include "model_eng.hpp"
#include <cstring>
namespace mcg {
static bool isws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static const string ENDT = "<<<", BEGT = ">>>";
string Rd::plainkey() const { set<string> s(tl.begin(), tl.end()); if (!mapping.empty()) s.erase(mapping); string k; for (auto& t : s) k += t + '\x1f'; return k; }
string Rd::key() const { string k = plainkey() + '\x1e' + mapping; if (next) k += '\x1d' + next->key(); return k; }
bool Eng::is_map(const string& t) const { return t.compare(0, g.mprefix.size(), g.mprefix) == 0; }
bool Eng::textual(const string& t) const {
	if (t.size() >= 2 && ((t[0] == '"' && t.back() == '"') || (t[0] == '<' && t.back() == '>'))) return true;
	for (auto& x : g.textual) {
		if (x.kind == RX) { if (std::regex_search(t, *x.rx)) return true; }
		else if (!strcasecmp(t.c_str(), x.txt.c_str())) return true;
	}
	return false;
}
static bool dep_tag(const string& t, u32& a, u32& b) {
	if (t.size() < 5 || t[0] != '#') return false;
	int n = 0; if (sscanf(t.c_str(), "#%u->%u%n", &a, &b, &n) == 2 && size_t(n) == t.size() && a) return true;
	n = 0; if (sscanf(t.c_str(), "#%u\xE2\x86\x92%u%n", &a, &b, &n) == 2 && size_t(n) == t.size() && a) return true;
	return false;
}
static bool id_tag(const string& t, u32& a) { int n = 0; return sscanf(t.c_str(), "ID:%u%n", &a, &n) == 1 && size_t(n) == t.size() && a; }
static bool rel_tag(const string& t, string& nm, u32& b) {
	if (t.compare(0, 2, "R:")) return false; auto p = t.rfind(':'); if (p < 3) return false;
	nm = t.substr(2, p - 2); char* e; b = u32(strtoul(t.c_str() + p + 1, &e, 10)); return !*e && p + 1 < t.size();
}
void Eng::add(Rd* r, const string& t) {
	r->tl.push_back(t);
	Coh* c = r->parent;
	for (auto& p : g.parens) { if (p.first == t) c->pleft = t; if (p.second == t) c->pright = t; }
	if (is_map(t)) { if (!r->mapping.empty() && r->mapping != t) throw Fatal("second mapping"); r->mapping = t; }
	if (r->base.empty() && is_base(t)) r->base = t;
	u32 a, b; string nm;
	if ((g.has_dep || o.dep_delimit) && dep_tag(t, a, b) && !c->depdone) { c->dself = a; c->dpar = a == b ? NOPAR : b; has_dep = true; }
	if (g.has_rel) {
		if (rel_tag(t, nm, b)) { c->relin[nm].insert(b); has_rel = true; c->related = true; for (auto x : c->r) x->noprint = false; }
		else if (id_tag(t, a)) { relmap[a] = c->g; has_rel = true; c->related = true; for (auto x : c->r) x->noprint = false; }
	}
	if (g.has_bag && c->w) { bags[c->w].insert(t); }
}
void Eng::del(Rd* r, const string& t) {
	r->tl.erase(std::remove(r->tl.begin(), r->tl.end(), t), r->tl.end());
	if (r->mapping == t) r->mapping.clear();
	if (r->base == t) r->base.clear();
}
void Eng::reflow(Rd* r) { Tags t; t.swap(r->tl); r->mapping.clear(); for (auto& x : t) add(r, x); }
void Eng::split(Tags m, Coh* c, Rd* r, bool mapped) {
	for (auto it = m.begin(); it != m.end();) { if (!is_map(*it)) { add(r, *it); it = m.erase(it); } else ++it; }
	if (!r->mapping.empty()) { m.push_back(r->mapping); del(r, r->mapping); }
	string last = m.back(); m.pop_back();
	size_t i = m.size();
	for (auto& t : m) {
		bool found = false;
		for (auto x : c->r) if (x->plainkey() == r->plainkey() && x->mapping == t) found = true;
		if (found) continue;
		Rd* n = cprd(r); n->mapped = mapped; n->number = u32(r->number - i--); add(n, t); n->mapping = t; c->r.push_back(n);
	}
	r->mapped = mapped; add(r, last); r->mapping = last;
}
static void sortn(vector<Rd*>& v) { std::stable_sort(v.begin(), v.end(), [](Rd* a, Rd* b) { return a->number < b->number; }); }
void Eng::split_all(Coh* c, bool mapped) {
	if (pendmap.empty()) return;
	auto rs = c->r;
	for (auto r : rs) { auto it = pendmap.find(r); if (it == pendmap.end()) continue; split(it->second, c, r, mapped); }
	sortn(c->r); for (auto r : c->r) if (!r->mapping.empty() && g.reopen.count(r->mapping)) r->mapped = false;
	pendmap.clear();
}
void Eng::push(Win* w, Coh* c) { c->l = u32(w->c.size()); c->w = w; w->c.push_back(c); w->all.push_back(c); cmap[c->g] = c; depq.insert(c->g); if (!c->l) cmap[0] = c; }
Rd* Eng::empty(Coh* c) {
	Rd* r = mkrd(c); string b = o.no_magic ? c->word : (c->word.size() >= 5 ? "\"" + c->word.substr(2, c->word.size() - 4) + "\"" : c->word);
	r->base = b; add(r, c->word); r->noprint = true; c->r.push_back(r); return r;
}
void Eng::begin_win(Win* w) { Coh* c = mkcoh(w); c->g = counter++; c->word = BEGT; Rd* r = mkrd(c); r->base = BEGT; add(r, BEGT); c->r.push_back(r); push(w, c); }
Coh* Eng::cprev(const Coh* c) const {
	if (!c->w) return nullptr;
	auto& v = c->w->c; auto it = std::find(v.begin(), v.end(), c); if (it == v.end()) return nullptr;
	if (it != v.begin()) return *--it;
	Win* p = wprev(c->w); return p && !p->c.empty() ? p->c.back() : nullptr;
}
Coh* Eng::cnext(const Coh* c) const {
	if (!c->w) return nullptr;
	auto& v = c->w->c; auto it = std::find(v.begin(), v.end(), c); if (it == v.end()) return nullptr;
	if (++it != v.end()) return *it;
	Win* p = wnext(c->w); return p && !p->c.empty() ? p->c.front() : nullptr;
}
Coh* Eng::delimit_at(Win* w, Coh* c) {
	Win* n = mkwin();
	if (w == cur) next.insert(next.begin(), n);
	else {
		auto it = std::find(next.begin(), next.end(), w);
		if (it != next.end()) next.insert(it + 1, n);
		else { auto jt = std::find(prev.begin(), prev.end(), w); prev.insert(jt, n); }
	}
	std::swap(w->flush, n->flush); std::swap(w->post, n->post); n->has_encl = w->has_encl;
	begin_win(n);
	auto it = std::find(w->all.begin(), w->all.end(), c); auto from = ++it;
	for (; it != w->all.end(); ++it) { (*it)->w = n; if ((*it)->enclosed || (*it)->removed || (*it)->ignored) n->all.push_back(*it); else push(n, *it); }
	auto ci = std::find(w->c.begin(), w->c.end(), c);
	w->c.erase(ci + 1, w->c.end()); w->all.erase(from, w->all.end());
	c = w->c.back(); for (auto r : c->r) add(r, ENDT);
	return c;
}
// ------------------------------------------------------------------------------------------------------------
void Eng::vars_out(const set<string>& vo, const map<string, string>& s) {
	for (auto& v : vo) {
		auto it = s.find(v);
		if (it == s.end()) out += "<STREAMCMD:REMVAR:" + v + ">\n";
		else if (it->second == "*") out += "<STREAMCMD:SETVAR:" + v + ">\n";
		else out += "<STREAMCMD:SETVAR:" + v + "=" + it->second + ">\n";
	}
}
void Eng::merge(vector<Rd*>& l) {
	map<string, std::pair<u32, Rd*>> seen; vector<std::pair<string, vector<Rd*>>> ml;
	for (auto r : l) {
		string hp, pl; u32 nm = 0;
		for (Rd* x = r; x; x = x->next) {
			string k; if (o.ordered || g.ordered) { for (auto& t : x->tl) k += t + ' '; } else k = x->plainkey();
			pl += k + '\x1e'; hp += k + '\x1e';
			if (o.trace) for (auto h : x->hits) hp += "#" + std::to_string(h->num);
			if (!x->mapping.empty()) ++nm;
		}
		auto it = seen.find(pl);
		if (it != seen.end()) { if (it->second.first && !nm) r->deleted = true; else if (it->second.first != nm && !it->second.first) it->second.second->deleted = true; }
		seen[pl] = {nm, r};
		hp += "/" + std::to_string(nm);
		auto jt = std::find_if(ml.begin(), ml.end(), [&](auto& p) { return p.first == hp; });
		if (jt == ml.end()) ml.push_back({hp, {r}}); else jt->second.push_back(r);
	}
	if (ml.size() == l.size()) return;
	l.clear();
	for (auto& p : ml) {
		Rd* n = cprd(p.second[0]);
		if (!n->mapping.empty()) n->tl.erase(std::remove(n->tl.begin(), n->tl.end(), n->mapping), n->tl.end());
		for (auto x : p.second) if (!x->mapping.empty() && !n->has(x->mapping)) n->tl.push_back(x->mapping);
		l.push_back(n);
	}
	sortn(l);
}
void Eng::print(Rd* r, size_t sub) {
	if (r->noprint) return;
	if (r->deleted) { if (!o.trace) return; out += ';'; }
	out.append(sub, '\t'); out += r->base;
	set<string> uniq; Tags maps; Coh* c = r->parent; u32 a, b; string nm;
	for (auto& t : r->tl) {
		if ((!o.show_end_tags && t == ENDT) || t == BEGT || t == r->base || t == c->word) continue;
		if (o.unique_tags && !uniq.insert(t).second) continue;
		if (dep_tag(t, a, b) && has_dep && !o.dep_original) continue;
		if ((rel_tag(t, nm, b) || id_tag(t, a)) && has_rel) continue;
		if (is_map(t)) { maps.push_back(t); continue; }
		out += " " + t;
	}
	for (auto& t : maps) out += " " + t;
	char buf[128]; const char* arr = o.unicode_tags ? "\xE2\x86\x92" : "->";
	if (has_dep && !c->removed) {
		if (!c->dself) c->dself = c->g;
		Coh* p = c;
		if (c->dpar != NOPAR) { if (!c->dpar) p = c->w->c[0]; else if (cmap.count(c->dpar)) p = cmap[c->dpar]; }
		int wd = int(std::to_string(o.hard_limit).size());
		if (o.dep_absolute) sprintf(buf, " #%u%s%u", c->g, arr, p->g);
		else if (!spanned) sprintf(buf, " #%u%s%u", c->l, arr, p->l);
		else sprintf(buf, " #%u%0*u%s%u%0*u", c->w->number, wd, c->l, arr, (c->dpar == NOPAR ? c : p)->w->number, wd, (c->dpar == NOPAR ? c : p)->l);
		out += buf;
	}
	if (o.print_ids || c->related) {
		out += " ID:" + std::to_string(c->g);
		for (auto& rl : c->rel) for (auto x : rl.second) out += " R:" + rl.first + ":" + std::to_string(x);
	}
	if (o.trace) for (auto h : r->hits) {
		out += " " + h->kw; if (h->kw == "ADDCOHORT" || h->kw == "MOVE") out += (h->fl & F_BEFORE) ? "-BEFORE" : "-AFTER";
		if (h->kw.find("RELATION") != string::npos) {
			Set* m = h->maplist; out += "(" + m->alts[0][0].txt; if (h->kw.back() == 'S') out += "," + h->sublist->alts[0][0].txt; out += ")";
		}
		if (!o.trace_name_only || h->name.empty()) out += ":" + std::to_string(h->line);
		if (!h->name.empty()) out += ":" + h->name;
	}
	out += '\n';
	if (r->next) { r->next->deleted = r->deleted; print(r->next, sub + 1); }
}
static bool blank(const string& s) { return s.find_first_not_of(" \t") == string::npos; }
void Eng::print(Coh* c) {
	if (c->l != 0 && !(c->removed && (!o.trace || o.trace_no_removed))) {
		if (c->removed) out += "; ";
		out += c->word;
		if (c->wread) for (auto& t : c->wread->tl) if (t != c->word) out += " " + t;
		out += '\n';
		for (auto r : c->ign) r->deleted = false; c->r.insert(c->r.end(), c->ign.begin(), c->ign.end()); c->ign.clear(); // un-ignore
		if (!o.split_mappings) { merge(c->r); if (o.trace) { merge(c->del); merge(c->delayed); } }
		auto pr = [&](vector<Rd*>& v) {
			sortn(v);
			for (size_t i = 1; i < v.size(); ++i) if (v[i]->number == v[i - 1]->number && !v[i]->noprint && !v[i - 1]->noprint) st.ambiguous.insert(c->g), st.ambiguous_order = true;
			for (auto r : v) print(r, 1);
		};
		pr(c->r);
		if (o.trace && !o.trace_no_removed) { pr(c->delayed); pr(c->del); }
	}
	if (!c->text.empty() && !blank(c->text)) { out += c->text; if (c->text.back() != '\n') out += '\n'; }
}
void Eng::print(Win* w) {
	vars_out(w->vout, w->vset);
	if (!blank(w->text)) out += w->text;
	for (auto c : w->all) print(c);
	if (!blank(w->post)) out += w->post;
	if (w->flush) out += "<STREAMCMD:FLUSH>\n";
}
void Eng::shuffle() {
	if (cur) { cur->vset = vars; cur->vrem.clear(); prev.push_back(cur); cur = nullptr; }
	if (!next.empty()) { cur = next.front(); next.erase(next.begin()); }
}
void Eng::reflow_dep(u32 max) {
	if (o.dep_delimit && !max && !eof && !next.empty() && next.back()->c.size() > 1) max = next.back()->c[1]->g;
	vector<Coh*> q; for (auto gn : depq) if (gn && cmap.count(gn)) q.push_back(cmap[gn]);
	if (!cmap.count(0) && cur) cmap[0] = cur->c[0];
	size_t b = 0;
	for (;;) {
		while (b < q.size() && (q[b]->depdone || !q[b]->dself)) ++b;
		map<u32, u32> dm; size_t e = b;
		for (; e < q.size(); ++e) {
			Coh* c = q[e]; if (c->depdone || !c->dself) continue;
			if (max && c->g >= max) break;
			if (dm.count(c->dself)) break;
			dm[c->dself] = c->g; c->dself = c->g;
		}
		if (dm.empty()) break;
		dm[0] = 0;
		for (; b < e; ++b) {
			Coh* c = q[b]; if (max && c->g >= max) break;
			if (c->dpar == NOPAR || c->dself != c->g) continue;
			if (!c->depdone && !dm.count(c->dpar)) c->dpar = NOPAR;
			else {
				if (!c->depdone) c->dpar = dm[c->dpar];
				cmap[0] = c->w->c[0];
				auto it = cmap.find(c->dpar); if (it != cmap.end()) it->second->kids.insert(c->dself);
				c->depdone = true;
			}
		}
	}
	depq.clear();
}
void Eng::reflow_rel() {
	u32 max = 0; if (!eof && !next.empty() && next.back()->c.size() > 1) max = next.back()->c[0]->g;
	for (auto w : windows()) for (auto c : w->c) {
		if (max && c->g >= max) return;
		for (auto it = c->relin.begin(); it != c->relin.end();) {
			set<u32> rest; for (auto t : it->second) { auto jt = relmap.find(t); if (jt != relmap.end()) c->rel[it->first].insert(jt->second); else rest.insert(t); }
			if (rest.empty()) it = c->relin.erase(it); else { it->second = rest; ++it; }
		}
	}
}
// a window that has been printed and dropped can no longer be the target of relations in the input
void Eng::forget(Win* w) { if (w->c.size() > 1) for (auto it = relmap.begin(); it != relmap.end();) { if (it->second <= w->c.back()->g) it = relmap.erase(it); else ++it; } }
void Eng::run_window() {
	final_encl = false;
	for (auto& v : cur->vset) vars[v.first] = v.second;
	for (auto& v : cur->vrem) vars.erase(v); vars["_MPREFIX"] = g.mprefix;
	if (has_dep) { reflow_dep(); if (!eof && !next.empty() && next.back()->c.size() > 1) for (auto c : next.back()->c) depq.insert(c->g); }
	if (has_rel) reflow_rel();
	if (!g.parens.empty()) {
	rescan:
		auto& v = cur->c;
		for (size_t i = v.size(); i-- > 0;) {
			if (v[i]->pleft.empty()) continue;
			string want; for (auto& p : g.parens) if (p.first == v[i]->pleft) want = p.second;
			size_t j = i; while (j < v.size() && v[j]->pright != want) ++j;
			if (j >= v.size()) continue;
			Coh *a = v[i], *b = v[j];
			v.erase(v.begin() + i, v.begin() + j + 1);
			for (size_t k = i; k < v.size(); ++k) v[k]->l = u32(k);
			auto ec = std::find(cur->all.begin(), cur->all.end(), a);
			for (;; ++ec) { ++(*ec)->enclosed; if (*ec == b) break; }
			cur->has_encl = true; goto rescan;
		}
	}
	par_l.clear(); par_r.clear(); par_lc = par_rc = nullptr; u32 pass = 0;
again:
	while (prev.size() > o.num_windows) { print(prev.front()); for (auto c : prev.front()->all) cmap.erase(c->g); forget(prev.front()); prev.erase(prev.begin()); }
	if (++pass > 1000) return;
	if (run_window_rules() & RV_DELIMITED) goto again;
	if (cur->has_encl) {
		auto& all = cur->all; auto hid = [](Coh* c) { return c->enclosed || c->removed || c->ignored; };
		for (size_t i = 0; i < all.size(); ++i) {
			if (all[i]->enclosed != 1) continue;
			size_t la = i; while (la > 0 && hid(all[la - 1])) --la;
			if (la > 0) --la;
			size_t ni = all[la]->l; vector<Coh*> back; Coh* left = all[i]; Coh* right = left; string want; for (auto& p : g.parens) if (p.first == left->pleft) want = p.second;
			for (size_t k = i; k < all.size() && hid(all[k]); ++k) { Coh* c = all[k]; if (!c->enclosed) continue; right = c; if (!--c->enclosed) { back.push_back(c); if (!want.empty() && c->pright == want) break; } }
			cur->c.insert(cur->c.begin() + ni + 1, back.begin(), back.end()); renumber(cur);
			par_l = left->pleft; par_r = right->pright; par_lc = left; par_rc = right;
			goto again;
		}
		if (!final_encl) { par_l.clear(); par_r.clear(); par_lc = par_rc = nullptr; final_encl = true; goto again; }
	}
	bool re = false;
	for (size_t i = cur->all.size(); i > 0; --i) {
		Coh* c = cur->all[i - 1]; if (!c->ignored) continue;
		for (size_t k = i; k > 0; --k) { Coh* d = cur->all[k - 1]; if (d->removed || d->enclosed || d->ignored) continue; auto it = std::find(cur->c.begin(), cur->c.end(), d); cur->c.insert(it + 1, c); c->ignored = false; cmap[c->g] = c; re = true; break; }
	}
	if (re) { renumber(cur); reflow_dep(); }
}
void Eng::read(const string& in) {
	in_size = in.size();
	Win *cw = nullptr, *lw = nullptr; Coh *cc = nullptr, *lc = nullptr; bool ignore = false, lookback = false;
	vector<std::pair<size_t, Rd*>> ind;
	auto endwin = [&]() { for (auto r : cc->r) add(r, ENDT); split_all(cc, true); push(cw, cc); lw = cw; cw = nullptr; cc = nullptr; lookback = false; };
	auto adopt = [&]() { for (auto& v : pset) cw->vset.insert(v); pset.clear(); cw->vrem.insert(prem.begin(), prem.end()); prem.clear(); cw->vout.insert(pout.begin(), pout.end()); pout.clear(); };
	auto toks = [](const string& s) { // tags after splitting at blanks; quoted parts may contain blanks
		Tags v; size_t i = 0; while (i < s.size()) { if (isws(s[i])) { ++i; continue; } size_t b = i; if (s[i] == '"') { ++i; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') ++i; ++i; } if (i < s.size()) ++i; } while (i < s.size() && !isws(s[i])) ++i; v.push_back(s.substr(b, i - b)); } return v; };
	vector<std::regex> textd; for (auto& t : g.textd) textd.push_back(*t.rx);
	if (o.has_text_delim) {
		textd.clear(); string rx = o.text_delim; auto fl = std::regex::ECMAScript;
		if (rx.size() >= 3 && rx[0] == '/') { rx.erase(0, 1); while (rx.back() == 'i' || rx.back() == 'r') { if (rx.back() == 'i') fl |= std::regex::icase; rx.pop_back(); } if (rx.back() == '/') rx.pop_back(); }
		if (!rx.empty()) textd.push_back(std::regex(rx, fl));
	}
	auto text_hit = [&](const string& l) { for (auto& r : textd) if (std::regex_search(l, r)) return true; return false; };
	u32 highest = 0; auto seen = [&](Coh* c) { if (c->dself) highest = c->dself; };
	size_t p = 0;
	while (p < in.size()) {
		size_t e = in.find('\n', p); string line = in.substr(p, e == string::npos ? string::npos : e - p + 1); p = e == string::npos ? in.size() : e + 1;
		string cl; for (char c : line) { if (isws(c)) { if (cl.empty() || cl.back() != ' ') cl += ' '; } else cl += c; } while (!cl.empty() && cl.back() == ' ') cl.pop_back();
		if (!ignore && cl.size() > 3 && cl[0] == '"' && cl[1] == '<') {
			size_t q = cl.find(">\""); if (q == string::npos) throw Unsupported("cohort line");
			string wf = cl.substr(0, q + 2), rest = cl.substr(q + 2);
			if (cc && cc->r.empty()) empty(cc);
			if (cw && cw->c.size() >= o.soft_limit && g.soft && !lookback) {
				lookback = true;
				for (size_t i = cw->c.size(); i-- > 0;) if (coh_normal(cw->c[i], g.soft)) { lookback = false; Coh* x = delimit_at(cw, cw->c[i]); cw = wnext(x->w); if (cc) cc->w = cw; break; }
			}
			if (cc && cw->c.size() >= o.soft_limit && g.soft && coh_normal(cc, g.soft)) endwin();
			if (cc && (cw->c.size() >= o.hard_limit || (!o.dep_delimit && g.delim && coh_normal(cc, g.delim)))) endwin();
			if (!cw) { cw = mkwin(); next.push_back(cw); begin_win(cw); lw = cw; cc = nullptr; lookback = false; highest = 0; }
			if (cc) { split_all(cc, true); push(cw, cc); seen(cc); }
			if (next.size() > o.num_windows + 1) { shuffle(); run_window(); }
			if (cw->all.size() == 1) adopt();
			cc = mkcoh(cw); cc->g = counter++; cc->word = wf; lc = cc; ind.clear();
			auto t = toks(rest); if (!t.empty()) { cc->wread = mkrd(cc); add(cc->wread, wf); for (auto& x : t) add(cc->wread, x); }
			continue;
		}
		if (!ignore && cl.size() > 2 && cl[0] == ' ' && cl[1] == '"' && cc) {
			size_t indent = 0; while (isws(line[indent])) ++indent;
			while (!ind.empty() && indent <= ind.back().first) ind.pop_back();
			Rd* r; bool sub = !ind.empty();
			if (sub) { if (ind.back().second->next) continue; r = mkrd(cc); ind.back().second->next = r; }
			else r = mkrd(cc);
			add(r, cc->word);
			Tags maps; for (auto& t : toks(cl)) if (is_map(t)) maps.push_back(t); else add(r, t);
			if (!sub) { if (!maps.empty()) pendmap[r] = maps; cc->r.push_back(r); }
			else if (!maps.empty()) { maps.resize(1); split(maps, cc, r, true); }
			ind.push_back({indent, r});
			if (o.dep_delimit && highest && cc->dself && (cc->dself <= highest || cc->dself - highest > o.dep_delimit)) {
				reflow_dep(cc->g); for (auto x : cw->c.back()->r) add(x, ENDT);
				cw = mkwin(); next.push_back(cw); begin_win(cw); lw = cw; cc->w = cw; lookback = false; highest = 0; adopt();
			}
			continue;
		}
		if (cl.compare(0, 11, "<STREAMCMD:") == 0 && cl.back() == '>') {
			string cmd = cl.substr(11, cl.size() - 12);
			if (ignore && cmd != "IGNORE" && cmd != "RESUME" && cmd != "FLUSH" && cmd != "EXIT" && cmd.compare(0, 7, "SETVAR:") && cmd.compare(0, 7, "REMVAR:")) { goto text; }
			if (cmd == "FLUSH") {
				Win* back = !next.empty() ? next.back() : cur ? cur : !prev.empty() ? prev.back() : nullptr;
				if (back) back->flush = true;
				if (cc && cw) { split_all(cc, true); push(cw, cc); if (cc->r.empty()) empty(cc); for (auto r : cc->r) add(r, ENDT); }
				cc = lc = nullptr; cw = lw = nullptr;
				while (!next.empty()) { shuffle(); run_window(); }
				shuffle();
				for (auto w : prev) { print(w); for (auto c : w->all) cmap.erase(c->g); forget(w); }
				prev.clear();
				if (!back) out += cl + "\n";
				vars.clear(); continue;
			}
			if (cmd == "IGNORE") { ignore = true; out += cl + "\n"; continue; }
			if (cmd == "RESUME") { ignore = false; out += cl + "\n"; continue; }
			if (cmd == "EXIT") { out += cl + "\n"; return; }
			if (cmd.compare(0, 7, "SETVAR:") == 0) {
				string s = cmd.substr(7); bool simple = s.find_first_of(",=") == string::npos;
				size_t i = 0; for (;;) { size_t k = s.find(',', i); string it = s.substr(i, k == string::npos ? string::npos : k - i); auto eq = it.find('='); string kx = it.substr(0, eq), v = eq == string::npos ? "*" : it.substr(eq + 1); if (kx.empty() && k == string::npos && eq == string::npos) throw Unsupported("SETVAR"); if (kx.empty()) kx = "*"; if (v.empty()) v = "*"; pset[kx] = v; prem.erase(kx); pout.insert(kx); if (simple && !cw) vars[kx] = "*"; if (k == string::npos) break; i = k + 1; }
				continue;
			}
			if (cmd.compare(0, 7, "REMVAR:") == 0) {
				string s = cmd.substr(7); size_t i = 0;
				for (;;) { size_t k = s.find(',', i); string kx = s.substr(i, k == string::npos ? string::npos : k - i); if (!kx.empty()) { pset.erase(kx); prem.insert(kx); pout.insert(kx); } if (k == string::npos) break; i = k + 1; }
				continue;
			}
		}
	text:
		if (lw && lc && text_hit(line)) { lw->post += line; if (cc->r.empty()) empty(cc); endwin(); lc = nullptr; }
		else if (lc) lc->text += line;
		else if (lw) { if (!lw->post.empty()) lw->post += line; else lw->text += line; }
		else { out += line; if (line.back() != '\n') out += '\n'; }
	}
	eof = true;
	if (cc && cw) { split_all(cc, true); push(cw, cc); if (cc->r.empty()) empty(cc); for (auto r : cc->r) add(r, ENDT); }
	while (!next.empty()) { shuffle(); run_window(); }
	shuffle();
	for (auto w : prev) { print(w); for (auto c : w->all) cmap.erase(c->g); forget(w); }
	vars_out(pout, pset);
}
string run(const string& grammar, const string& input, const Opts& o, Stats* st) {
	static thread_local string lastg; static thread_local std::unique_ptr<Grammar> lastp; string key = grammar + "\x01" + o.nrules + "\x01" + o.nrules_v;
	if (!lastp || lastg != key) { lastp.reset(); lastp = parse_grammar(grammar, o.nrules, o.nrules_v); lastg = key; }
	Stats tmp; if (!st) st = &tmp;
	Grammar& g = *lastp; if (!o.mapping_prefix.empty()) g.mprefix = o.mapping_prefix;
	Eng e(g, o, *st); e.read(input); return e.out;
}
Opts parse_args(const vector<string>& a) {
	Opts o;
	for (size_t i = 0; i < a.size(); ++i) {
		auto& s = a[i]; auto val = [&]() { return u32(atoi(a.at(++i).c_str())); };
		if (s == "--trace" || s == "-t") { o.trace = true; if (i + 1 < a.size() && a[i + 1][0] != '-') o.trace_lines.insert(u32(val())); } else if (s == "--trace-name-only") o.trace = o.trace_name_only = true; else if (s == "--trace-no-removed") o.trace = o.trace_no_removed = true;
		else if (s == "--unsafe" || s == "-u") o.unsafe = true; else if (s == "--ordered") o.ordered = true; else if (s == "--always-span") o.always_span = true; else if (s == "--no-pass-origin" || s == "-o") o.no_pass_origin = true;
		else if (s == "--no-mappings") o.no_mappings = true; else if (s == "--no-corrections") o.no_corrections = true; else if (s == "--no-before-sections") o.no_before = true; else if (s == "--no-sections") o.no_sections = true; else if (s == "--no-after-sections") o.no_after = true;
		else if (s == "--dep-allow-loops") o.dep_allow_loops = true; else if (s == "--dep-no-crossing") o.dep_block_crossing = true; else if (s == "--dep-original") o.dep_original = true; else if (s == "--dep-absolute") o.dep_absolute = true;
		else if (s == "--no-magic-readings") o.no_magic = true; else if (s == "--split-mappings") o.split_mappings = true; else if (s == "--unique-tags") o.unique_tags = true; else if (s == "--show-end-tags") o.show_end_tags = true; else if (s == "--print-ids") o.print_ids = true; else if (s == "--unicode-tags") o.unicode_tags = true;
		else if (s == "--dep-delimit" || s == "-D") { o.dep_delimit = 10; if (i + 1 < a.size() && a[i + 1][0] != '-') o.dep_delimit = val(); }
		else if (s == "--text-delimit" || s == "-T") { o.has_text_delim = true; o.text_delim = "/(^|\\n)</s/r"; if (i + 1 < a.size() && a[i + 1][0] != '-') o.text_delim = a[++i]; }
		else if (s == "--num-windows") o.num_windows = val(); else if (s == "--soft-limit") o.soft_limit = val(); else if (s == "--hard-limit") o.hard_limit = val(); else if (s == "--single-run") o.single_run = 1; else if (s == "--max-runs") o.single_run = val();
		else if (s == "--rule") o.only_rule = a.at(++i);
		else if (s == "--nrules") o.nrules = a.at(++i); else if (s == "--nrules-v") o.nrules_v = a.at(++i);
		else if (s == "--rules") {
			const string& v = a.at(++i); size_t b = 0;
			if (v.find_first_of(",-") == string::npos) { for (int k = 1; k <= atoi(v.c_str()); ++k) o.only_lines.insert(k); }
			else while (b <= v.size()) { size_t k = v.find(',', b); string it = v.substr(b, k == string::npos ? string::npos : k - b); auto d = it.find('-'); int lo = atoi(it.c_str()), hi = d == string::npos ? lo : atoi(it.c_str() + d + 1); for (int x = lo; x <= hi; ++x) o.only_lines.insert(x); if (k == string::npos) break; b = k + 1; }
		}
		else if (s == "--sections") {
			const string& v = a.at(++i); size_t b = 0;
			if (v.find_first_of(",-") == string::npos) { for (int k = 1; k <= atoi(v.c_str()); ++k) o.sections.push_back(k); }
			else while (b <= v.size()) { size_t k = v.find(',', b); string it = v.substr(b, k == string::npos ? string::npos : k - b); auto d = it.find('-'); int lo = atoi(it.c_str()), hi = d == string::npos ? lo : atoi(it.c_str() + d + 1); for (int x = lo; x <= hi; ++x) o.sections.push_back(x); if (k == string::npos) break; b = k + 1; }
		}
		else if (s == "-e") o.show_end_tags = true; else throw Unsupported("option " + s);
	}
	return o;
}
string canon(const string& out, bool multiset) {
	vector<string> L; size_t p = 0; while (p < out.size()) { size_t e = out.find('\n', p); if (e == string::npos) e = out.size(); L.push_back(out.substr(p, e - p)); p = e + 1; }
	auto isvar = [](const string& s) { return s.compare(0, 18, "<STREAMCMD:SETVAR:") == 0 || s.compare(0, 18, "<STREAMCMD:REMVAR:") == 0; };
	for (auto& l : L) { // relation tokens
		if (l.find(" R:") == string::npos) continue;
		vector<string> t; size_t b = 0; while (b <= l.size()) { size_t k = l.find(' ', b); if (k == string::npos) k = l.size(); t.push_back(l.substr(b, k - b)); b = k + 1; }
		vector<string> rs; for (auto& x : t) if (x.compare(0, 2, "R:") == 0) rs.push_back(x);
		std::sort(rs.begin(), rs.end()); size_t i = 0; for (auto& x : t) if (x.compare(0, 2, "R:") == 0) x = rs[i++];
		l.clear(); for (size_t k = 0; k < t.size(); ++k) l += (k ? " " : "") + t[k];
	}
	for (size_t i = 0; i < L.size();) {
		size_t j = i; while (j < L.size() && isvar(L[j])) ++j;
		if (j > i) { std::sort(L.begin() + i, L.begin() + j); i = j; continue; }
		if (multiset) {
			auto isr = [](const string& s) { return !s.empty() && (s[0] == '\t' || s.compare(0, 2, ";\t") == 0); };
			if (isr(L[i])) {
				j = i; vector<string> blocks;
				while (j < L.size() && isr(L[j])) { string t = L[j] + "\n"; if (t.compare(0, 2, "\t\t") == 0 || t.compare(0, 3, ";\t\t") == 0) { if (blocks.empty()) blocks.push_back(t); else blocks.back() += t; } else blocks.push_back(t); ++j; }
				std::sort(blocks.begin(), blocks.end()); size_t k = i; string all; for (auto& x : blocks) all += x;
				size_t q = 0; while (q < all.size()) { size_t e = all.find('\n', q); L[k++] = all.substr(q, e - q); q = e + 1; }
				i = j; continue;
			}
		}
		++i;
	}
	string r; for (auto& l : L) r += l + "\n"; return r;
}
}
