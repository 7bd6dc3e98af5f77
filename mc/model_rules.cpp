// Reference model: applying rules. One rule application = one transition.
#include "model_eng.hpp"
#include <cstring>
namespace mcg {
static const string ENDT = "<<<", SUBST = "\x01subst";
bool Eng::child_of(const Coh* child, const Coh* parent) {
	if (parent->g == child->g || parent->g == child->dpar) return true;
	const Coh* in = child;
	for (int i = 0; i < 1000; ++i) {
		if (!in->dpar || in->dpar == NOPAR) return false;
		auto it = cmap.find(in->dpar); if (it == cmap.end()) return false;
		in = it->second; if (in->dpar == parent->g) return true;
	}
	return false;
}
bool Eng::would_loop(const Coh* p, const Coh* c) { // would making p the parent of c close a cycle
	if (p->g == c->g) return true;
	if (p->g == c->dpar || p->g == p->dpar) return false;
	const Coh* in = p;
	for (int i = 0; i < 1000; ++i) {
		if (in->dpar == c->g) return true;
		if (!in->dpar || in->dpar == NOPAR) return false;
		auto it = cmap.find(in->dpar); if (it == cmap.end()) return false;
		in = it->second;
	}
	return false;
}
bool Eng::would_cross(const Coh* p, const Coh* c) { // the repository's tests pin this definition: the parent's grandparent lies outside the span
	u32 mn = std::min(p->g, c->g), mx = std::max(p->g, c->g); auto it = cmap.find(p->dpar);
	return mn + 1 < mx && it != cmap.end() && it->second->dpar != NOPAR && (it->second->dpar < mn || it->second->dpar > mx);
}
void Eng::detach(Coh* c) { auto it = cmap.find(c->dpar); if (it != cmap.end()) it->second->kids.erase(c->g); c->dpar = NOPAR; }
bool Eng::attach(Coh* p, Coh* c, bool loop, bool cross) {
	p->dself = p->g; c->dself = c->g;
	if (!loop && !o.dep_allow_loops && would_loop(p, c)) return false;
	if (!cross && o.dep_block_crossing && would_cross(p, c)) return false;
	if (c->dpar == NOPAR) c->dpar = c->dself;
	auto it = cmap.find(c->dpar); if (it != cmap.end()) it->second->kids.erase(c->dself);
	c->dpar = p->g; p->kids.insert(c->g); p->depdone = c->depdone = true;
	if (c->w != p->w) spanned = true;
	return true;
}
uint64_t Eng::hash_window() const {
	string k;
	for (auto c : cur->c) {
		k += c->word + "|" + std::to_string(c->g) + ">" + std::to_string(c->dpar);
		for (auto& r : c->rel) { k += r.first; for (auto x : r.second) k += ":" + std::to_string(x); }
		for (auto l : {&c->r, &c->del, &c->delayed, &c->ign}) { k += '/'; for (auto r : *l) for (const Rd* x = r; x; x = x->next) { for (auto& t : x->tl) k += t + ' '; k += x->mapped ? 'm' : '.'; k += x->immutable ? 'i' : '.'; } }
		k += '\n';
	}
	for (auto& v : vars) k += v.first + "=" + v.second + ";";
	uint64_t h = 1469598103934665603ull; for (unsigned char x : k) { h ^= x; h *= 1099511628211ull; } return h;
}
static bool special(const Set* s) {
	if (s->any || s->tunify || s->sunify) return true;
	for (auto& a : s->alts) for (auto& t : a) if (t.special()) return true;
	for (auto& f : s->ffs) if (f.special()) return true;
	for (auto x : s->subs) if (special(x)) return true;
	return false;
}
static bool has_mapping(const Eng& e, const Set* s) {
	for (auto& a : s->alts) for (auto& t : a) if (e.is_map(t.txt)) return true;
	for (auto& f : s->ffs) if (e.is_map(f.txt)) return true;
	for (auto x : s->subs) if (has_mapping(e, x)) return true;
	return false;
}
struct Run {
	Eng& e; const Rule* r = nullptr; // r changes while nested rules run
	vector<Rd*> removed, selected; bool rchanged = false, delimited = false, repeat = false, bail = false;
	bool fin_coh = true, fin_read = true, reset = false; size_t jump_to = SIZE_MAX;
	std::deque<Unif> unifs; int depth = 0;
	explicit Run(Eng& en) : e(en) {}
	Frame& F() { return e.fs.back(); }
	Spec at() { return F().attach.c ? F().attach : F().target; }
	void clear() { e.tried.clear(); }
	void trace() { Spec s = at(); s.s->hits.push_back(r); if (r->sub == SUBANY && s.r) s.r->hits.push_back(r); }
	void hit(Rd* x) { x->hits.push_back(r); }
	// ------------------------------------------------------------------ tag lists
	Tags tags(const Set* s) { // all tags of the rule's list, with varstrings and unification resolved
		Tags out;
		std::function<void(const Set*, bool)> go = [&](const Set* x, bool un) {
			if (x->sunify) { auto& u = F().u->sets[x]; for (auto y : x->subs[0]->subs) if (u.count(y)) go(y, false); }
			else if (x->tunify) { for (auto y : x->subs) go(y, true); }
			else if (!x->subs.empty()) { for (auto y : x->subs) go(y, un); }
			else if (un) for (auto& t : e.taglist(x, true)) out.push_back(t);
			else for (auto& a : x->alts) for (auto& t : a) {
				if (t.kind == VSTR) out.push_back(e.varstr(t)); else if (t.kind == RX || t.kind == ICASE) out.push_back(t.raw); else out.push_back(t.txt);
			}
			for (size_t i = 1; i < out.size();) if (out[i] == out[i - 1]) out.erase(out.begin() + long(i)); else ++i;
		};
		go(s, false); return out;
	}
	vector<GTag> gtags(const Set* s) {
		vector<GTag> out;
		std::function<void(const Set*, bool)> go = [&](const Set* x, bool un) {
			if (x->sunify) { auto& u = F().u->sets[x]; for (auto y : x->subs[0]->subs) if (u.count(y)) go(y, false); }
			else if (x->tunify) for (auto y : x->subs) go(y, true);
			else if (!x->subs.empty()) for (auto y : x->subs) go(y, un);
			else if (un) for (auto& t : e.taglist(x, true)) out.push_back(parse_tag(t));
			else for (auto& a : x->alts) for (auto& t : a) out.push_back(t);
		};
		go(s, false); return out;
	}
	// tags of the reading that the list stands for: literal tags that are present, and for patterns the tag they match
	Tags present(const Set* s, const Rd* x) {
		Tags out;
		for (auto& t : gtags(s)) {
			if (t.kind == VSTR) { string v = e.varstr(t); if (x->has(v)) out.push_back(v); continue; }
			if (t.kind == ANYTAG) continue;
			if (t.kind == NUM) { // the tag that satisfies the comparison
				if (t.num.min || t.num.max || t.num.math.size()) throw Unsupported("numeric extreme in tag list");
				Tags m; for (auto& y : x->tl) { Num n; if (parse_num(y, n) && n.key == t.num.key && !n.min && !n.max && num_ok(t.num.op, t.num.val, n.op, n.val) && std::find(m.begin(), m.end(), y) == m.end()) m.push_back(y); }
				if (m.size() > 1) throw Ambiguous("pattern in a tag list matches several tags");
				if (m.size()) out.push_back(m[0]); continue;
			}
			if (!t.special()) { if (x->has(t.txt)) out.push_back(t.txt); continue; }
			if (t.kind != RX && t.kind != ICASE) throw Unsupported("special tag in tag list");
			Tags m; for (auto& y : x->tl) if (e.textual(y) && e.lit(t, y, m.empty()) && std::find(m.begin(), m.end(), y) == m.end()) m.push_back(y);
			if (m.size() > 1) throw Ambiguous("pattern in a tag list matches several tags");
			if (m.size()) out.push_back(m[0]);
		}
		return out;
	}
	Tags matching(const Set* s, const Rd* x) { // EXCEPT: tags of the reading matched by the list
		Tags out;
		for (auto& t0 : gtags(s)) {
			GTag t = t0.kind == VSTR ? parse_tag(e.varstr(t0)) : t0;
			for (auto& y : x->tl) { if (t.kind == RX || t.kind == ICASE || t.kind == LIT) { if (e.lit(t, y, false)) out.push_back(y); } else if (t.kind == NUM && !t.num.min && !t.num.max && t.num.math.empty()) { Num n; if (parse_num(y, n) && n.key == t.num.key && num_ok(t.num.op, t.num.val, n.op, n.val)) out.push_back(y); } else throw Unsupported("EXCEPT tag"); }
		}
		return out;
	}
	void append(Rd* x, const Tags& l, Tags& maps) { for (auto& t : l) { if (t == "*") throw Unsupported("* in a tag list"); if (e.is_map(t)) maps.push_back(t); else e.add(x, t); } }
	// position in the reading's tag list given by the rule's BEFORE/AFTER list
	bool spot(const Rd* x, size_t& pos) {
		Tags sp = present(r->spot, x);
		for (size_t i = 0; i < x->tl.size(); ++i) {
			bool ok = true;
			for (size_t k = 0; k < sp.size(); ++k) if (i + k >= x->tl.size() || x->tl[i + k] != sp[k]) { ok = false; break; }
			if (!ok) continue;
			pos = i; if (r->fl & F_AFTER) pos += sp.size();
			return pos < x->tl.size();
		}
		return false;
	}
	bool put(Rd* x, const Tags& l, Tags& maps) {
		size_t p;
		if (r->spot && spot(x, p)) {
			for (auto& t : l) { if (t == "*") break; if (e.is_map(t)) maps.push_back(t); else x->tl.insert(x->tl.begin() + long(p++), t); }
			e.reflow(x); return true;
		}
		append(x, l, maps); return false;
	}
	// ------------------------------------------------------------------ cohorts
	vector<Coh*> subtree(Coh* head, const Set* s) { // in window order
		vector<Coh*> out;
		if (!s) { out.push_back(head); return out; }
		set<Coh*> in;
		for (auto c : e.cur->c) if (c == head || (c->dpar == head->g && e.coh_normal(c, s))) in.insert(c);
		auto more = in;
		for (auto c : e.cur->c) for (auto h : in) if (h != head && e.child_of(c, h)) more.insert(c);
		for (auto c : e.cur->c) if (more.count(c)) out.push_back(c);
		if (out.empty()) throw Ambiguous("subtree outside the current window");
		return out;
	}
	void expand(Tags& t, Coh* src) { // `*` stands for the tags of the target's first reading
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i] != "*") continue;
			auto& nt = src->r.at(0)->tl; if (nt.size() <= 2) continue;
			Tags ins; for (size_t j = 2; j < nt.size(); ++j) { if (j > 2 && nt[j][0] == '#') continue; ins.push_back(nt[j]); }
			t.erase(t.begin() + long(i)); t.insert(t.begin() + long(i), ins.begin(), ins.end()); i += ins.size() - 1;
		}
	}
	void new_reading(Coh* c, const Tags& t) {
		Rd* x = e.mkrd(c); hit(x); Tags maps;
		for (auto& y : t) if (e.is_map(y)) maps.push_back(y); else e.add(x, y);
		if (!maps.empty()) e.split(maps, c, x, false);
		c->r.push_back(x);
	}
	void insert_all(Win* w, Coh* ref, Coh* n, bool after) {
		auto it = std::find(w->c.begin(), w->c.end(), ref); w->c.insert(it + (after ? 1 : 0), n);
		auto jt = std::find(w->all.begin(), w->all.end(), ref); w->all.insert(jt + (after ? 1 : 0), n);
		n->w = w; e.renumber(w);
	}
	void move_end(Win* w) { // the end tag belongs to the last cohort
		for (auto x : w->c[w->c.size() - 2]->r) e.del(x, ENDT);
		for (auto x : w->c.back()->r) e.add(x, ENDT);
	}
	Coh* add_cohort(Coh* c, const vector<Coh*>* withs) {
		Coh* n = e.mkcoh(e.cur); n->g = e.counter++;
		Tags t = tags(r->maplist); string wf; vector<Tags> rs;
		for (auto& y : t) {
			if (is_word(y)) { wf = y; n->word = y; continue; }
			if (wf.empty()) throw Fatal("no wordform");
			if (is_base(y)) { rs.emplace_back(); rs.back().push_back(wf); }
			if (rs.empty()) throw Fatal("no baseform");
			rs.back().push_back(y);
		}
		for (auto& x : rs) { expand(x, c); new_reading(n, x); }
		e.cmap[n->g] = n; e.depq.insert(n->g);
		if (r->kw == "ADDCOHORT") { if (e.g.addcohort_attach) e.attach(c, n, false, false); }
		else if (!(r->fl & F_DETACH)) {
			auto is_with = [&](Coh* x) { return std::find(withs->begin(), withs->end(), x) != withs->end(); };
			Coh* t0 = F().target.c;
			if (t0->dpar == NOPAR || !e.cmap.count(t0->dpar)) {
				if (e.has_dep) {
					if (!is_with(c)) e.attach(c, n, false, false);
					else {
						auto& v = c->w->c; long i = long(c->l), a = i + 1, b = i - 1; // nearest cohort that is not merged, right first
						for (; a < long(v.size()) || b >= 0; ++a, --b) {
							if (a < long(v.size()) && !is_with(v[size_t(a)])) { e.attach(v[size_t(a)], n, false, false); break; }
							if (b >= 0 && !is_with(v[size_t(b)])) { e.attach(v[size_t(b)], n, false, false); break; }
						}
					}
				}
			}
			else e.attach(e.cmap[t0->dpar], n, false, false);
			set<u32> ps;
			for (auto x : *withs) { ps.insert(x->g); if (x->related) { for (auto& q : x->rel) n->rel[q.first].insert(q.second.begin(), q.second.end()); n->related = true; } }
			for (auto x : e.cur->all) {
				if (ps.count(x->dpar)) e.attach(n, x, false, false);
				for (auto& q : x->rel) for (auto p : ps) if (q.second.erase(p)) { q.second.insert(n->g); n->related = true; }
			}
		}
		if (n->r.empty()) { e.empty(n); if (e.o.trace) { hit(n->r[0]); n->r[0]->noprint = false; } }
		auto sub = subtree(c, r->child1);
		if (r->kw == "ADDCOHORT" && (r->fl & F_BEFORE)) insert_all(e.cur, sub.front(), n, false);
		else insert_all(e.cur, sub.back(), n, true);
		return n;
	}
	void drop(Coh* c) { e.cmap.erase(c->g); for (auto& m : e.cmap) m.second->kids.erase(c->dself); }
	void rem_cohort(Coh* c) {
		Win* w = c->w;
		for (auto x : c->r) { hit(x); x->deleted = true; if (e.o.trace) x->noprint = false; }
		auto kids = c->kids;
		for (auto k : kids) { if (!e.cmap.count(k)) continue; Coh* p = e.cmap.count(c->dpar) ? e.cmap[c->dpar] : e.cmap[0]; if (!p) throw Ambiguous("no root"); e.attach(p, e.cmap[k], true, true); }
		c->removed = true; drop(c);
		w->c.erase(std::find(w->c.begin(), w->c.end(), c)); e.renumber(w);
		if (w->c.size() == 1 && w != e.cur) { // nothing left in that window: its text and traces move to a neighbour
			drop(w->c[0]); Win *p = e.wprev(w), *n = e.wnext(w);
			if (p) { p->text += w->text + w->post; p->all.insert(p->all.end(), w->all.begin() + 1, w->all.end()); }
			else if (n) { n->text = w->post + n->text; n->all.insert(n->all.begin() + 1, w->all.begin() + 1, w->all.end()); }
			e.prev.erase(std::remove(e.prev.begin(), e.prev.end(), w), e.prev.end()); e.next.erase(std::remove(e.next.begin(), e.next.end(), w), e.next.end());
		}
	}
	// ------------------------------------------------------------------ relations: also visible as tags R:name:id
	// The tag is read like one from the input, so the (internal) number is looked up again as an input ID: a known defect, see known_findings.txt
	bool rel(const string& op, Coh* c, const string& n, u32 id) {
		string tag = "R:" + n + ":" + std::to_string(id); bool ch = false, had = c->rel.count(n) != 0; set<u32>& s = c->rel[n];
		if (op == "ADD") { ch = s.insert(id).second; for (auto x : c->r) e.add(x, tag); }
		else if (op == "SET") {
			c->relin.erase(n);
			ch = !(s.size() == 1 && s.count(id)); s = {id};
			for (auto x : c->r) { auto y = x->tl; for (auto& t : y) if (t.compare(0, 3 + n.size(), "R:" + n + ":") == 0) x->tl.erase(std::find(x->tl.begin(), x->tl.end(), t)); e.add(x, tag); }
		}
		else { ch = s.erase(id); if (s.empty()) c->rel.erase(n); if (had && c->relin.count(n)) c->relin[n].erase(id); for (auto x : c->r) e.del(x, tag); }
		return ch;
	}
	void set_related(Coh* c) { c->related = true; for (auto x : c->r) x->noprint = false; }
	bool do_dep(Coh* tg, Coh* ac) {
		if (r->fl & F_REVERSE) std::swap(tg, ac);
		auto mark = [&]() { clear(); Frame& f = F(); Spec a = f.attach; f.attach.c = nullptr; trace(); f.attach = a; f.target.s->noprint = false; rchanged = true; };
		if (r->kw == "SETPARENT" || r->kw == "SETCHILD") {
			e.has_dep = true; bool ok = r->kw == "SETPARENT" ? e.attach(ac, tg, r->fl & F_ALLOWLOOP, r->fl & F_ALLOWX) : e.attach(tg, ac, r->fl & F_ALLOWLOOP, r->fl & F_ALLOWX);
			if (ok) mark(); return ok;
		}
		e.has_rel = true; string op = r->kw.substr(0, 3); bool any = false, both = r->kw.back() == 'S';
		for (auto& n : tags(r->maplist)) { if (op != "REM") { if (!both) set_related(ac); set_related(tg); } any |= rel(op, tg, n, ac->g); }
		if (both) for (auto& n : tags(r->sublist)) { if (op != "REM") set_related(ac); any |= rel(op, ac, n, tg->g); }
		if (any) mark(); return true;
	}
	Coh* run_test(Win* w, u32 l, const Test* t, Coh** deep = nullptr, Coh* origin = nullptr) { e.deep_seen.clear(); e.tmin = e.tmax = nullptr; e.tin = false; e.tlink.clear(); return e.ctx(w, l, t, deep, origin); }
	// the cohort the rule's target test points at, once the tests on that cohort hold
	bool find_other(Coh* c, Coh*& other) {
		F().attach = Spec(); other = nullptr;
		if (!run_test(e.cur, c->l, r->dep, &other) || !other) return false;
		if (F().attach.c) other = F().attach.c;
		return true;
	}
	bool other_ok(Coh* other) { for (auto t : r->deptests) { F().mark = other; if (!run_test(other->w, other->l, t)) return false; } return true; }
	// ------------------------------------------------------------------ actions
	void cohort_cb() {
		const string& k = r->kw;
		if (k == "SELECT" || (k == "IFF" && !selected.empty())) {
			Coh* c = at().c;
			if (selected.size() < c->r.size() && !selected.empty()) {
				vector<Rd*> dr;
				for (auto x : c->r) {
					const Rd* y = r->sub == SUBANY ? x : e.sub_of(x, r->sub); if (y) hit(const_cast<Rd*>(y));
					if (std::find(selected.begin(), selected.end(), x) == selected.end()) { x->deleted = true; dr.push_back(x); }
				}
				c->r = selected; auto& l = (r->fl & F_DELAYED) ? c->delayed : (r->fl & F_IGNORED) ? c->ign : c->del;
				l.insert(l.end(), dr.begin(), dr.end()); rchanged = true;
			}
			selected.clear(); removed.clear();
		}
		else if (k == "REMOVE" || k == "IFF") {
			Coh* c = at().c;
			bool uns = (e.o.unsafe && !(r->fl & F_SAFE)) || (r->fl & F_UNSAFE);
			if (!removed.empty() && (removed.size() < c->r.size() || uns)) {
				auto& l = (r->fl & F_DELAYED) ? c->delayed : (r->fl & F_IGNORED) ? c->ign : c->del;
				l.insert(l.end(), removed.begin(), removed.end());
				for (auto x : removed) x->deleted = true;
				size_t oz = c->r.size(); // the implementation swaps removed readings to the end; the order of the rest follows
				while (!removed.empty()) { for (size_t i = 0; i < oz; ++i) if (c->r[i] == removed.back()) { --oz; std::swap(c->r[i], c->r[oz]); } removed.pop_back(); }
				c->r.resize(oz); rchanged = true;
			}
			removed.clear();
			if (c->r.empty()) e.empty(c);
			selected.clear();
		}
		else if (k == "JUMP") {
			Tags t = tags(r->maplist); auto it = e.g.anchors.find(t.at(0));
			if (it != e.g.anchors.end()) { jump_to = it->second; fin_coh = false; repeat = true; }
		}
		else if (k == "REMVARIABLE") {
			for (auto& t : gtags(r->maplist)) {
				GTag n = t.kind == VSTR ? parse_tag(e.varstr(t)) : t; vector<string> m;
				for (auto& v : e.vars) if (e.lit(n, v.first, false)) m.push_back(v.first);
				if (m.size() > 1) throw Ambiguous("several variables match");
				if (m.size()) { if (r->fl & F_OUTPUT) e.cur->vout.insert(m[0]); e.vars.erase(m[0]); clear(); }
			}
		}
		else if (k == "SETVARIABLE") {
			string n = tags(r->maplist).at(0), v = tags(r->sublist).at(0); auto it = e.vars.find(n);
			if (it == e.vars.end() || it->second != v) { e.vars[n] = v; clear(); }
			if (r->fl & F_OUTPUT) e.cur->vout.insert(n);
		}
		else if (k == "DELIMIT") {
			Coh* c = at().c; if (c->w->c.size() > c->l + 1) { if (c->w != e.cur) throw Ambiguous("DELIMIT in another window"); e.delimit_at(e.cur, c); delimited = true; rchanged = true; }
		}
		else if (k == "REMCOHORT") {
			Coh* c = at().c; bool last = c->r.at(0)->has(ENDT); Win* w = e.cur;
			if (r->fl & F_IGNORED) {
				auto s = subtree(c, r->child1);
				for (auto x : s) { for (auto y : x->r) hit(y); x->ignored = true; e.cmap.erase(x->g); w->c.erase(std::find(w->c.begin(), w->c.end(), x)); }
				e.renumber(w); e.reflow_dep();
			}
			else rem_cohort(c);
			if (last) for (auto y : w->c.back()->r) e.add(y, ENDT);
			clear(); rchanged = true; reset = true;
		}
	}
	void reading_cb() {
		const string& k = r->kw; Spec s = at(); Rd* x = s.s; Coh* c = s.c; ++e.st.transitions;
		bool sub_edit = r->sub == SUBANY && s.r && s.r->next;
		if (k == "SELECT" || (k == "IFF" && x->mx)) { selected.push_back(s.r); clear(); }
		else if (k == "REMOVE" || k == "IFF") {
			if (k == "REMOVE" && (r->fl & F_UNMAPLAST) && removed.size() == c->r.size() - 1) { if (unmap(x)) rchanged = true; }
			else { trace(); removed.push_back(s.r); }
			clear();
		}
		else if (k == "PROTECT") { trace(); if (!x->immutable) clear(); x->immutable = true; }
		else if (k == "UNPROTECT") { trace(); if (x->immutable) clear(); x->immutable = false; }
		else if (k == "UNMAP") { if (sub_edit) throw Unsupported("SUB:*"); if (unmap(x)) { clear(); rchanged = true; } }
		else if (k == "ADDCOHORT") {
			clear(); trace(); Coh* n = add_cohort(c, nullptr); if (e.cur->c.back() == n) move_end(e.cur); rchanged = true; reset = true;
		}
		else if (k == "SPLITCOHORT") split_cohort(c);
		else if (k == "ADD" || k == "MAP") {
			if (sub_edit) throw Unsupported("SUB:*");
			trace(); string was = x->key(); clear(); x->noprint = false; Tags maps; put(x, tags(r->maplist), maps);
			if (!maps.empty()) e.split(maps, c, x, k == "MAP");
			if (k == "MAP") x->mapped = true;
			if (x->key() != was) rchanged = true;
		}
		else if (k == "RESTORE") {
			auto& l = (r->fl & F_DELAYED) ? c->delayed : (r->fl & F_IGNORED) ? c->ign : c->del; bool did = false;
			for (size_t i = 0; i < l.size();) { if (e.set_match(r->maplist, l[i])) { l[i]->deleted = false; hit(l[i]); c->r.push_back(l[i]); l.erase(l.begin() + long(i)); did = true; } else ++i; }
			if (did) { trace(); clear(); }
			fin_read = false;
		}
		else if (k == "REPLACE") {
			if (sub_edit) throw Unsupported("SUB:*");
			string was = x->key(); clear(); trace(); x->noprint = false; Tags ex; if (r->sublist) ex = matching(r->sublist, x);
			string b = x->base; x->tl.clear(); x->base.clear(); x->mapping.clear(); e.add(x, c->word);
			Tags maps; append(x, tags(r->maplist), maps); for (auto& t : ex) e.add(x, t); if (x->base.empty()) e.add(x, b);
			if (!maps.empty()) e.split(maps, c, x, true);
			if (x->key() != was) rchanged = true;
		}
		else if (k == "SUBSTITUTE") { if (sub_edit) throw Unsupported("SUB:*"); substitute(c, x); }
		else if (k == "APPEND") {
			clear(); trace(); vector<Tags> rs;
			for (auto& t : tags(r->maplist)) { if (is_base(t)) rs.emplace_back(); if (rs.empty()) throw Fatal("APPEND without baseform"); rs.back().push_back(t); }
			for (auto& l : rs) { Rd* n = e.mkrd(c); e.add(n, c->word); hit(n); Tags maps; append(n, l, maps); if (!maps.empty()) e.split(maps, c, n, false); c->r.push_back(n); }
			if (c->r.size() > 1) c->r.erase(std::remove_if(c->r.begin(), c->r.end(), [](Rd* y) { return y->noprint; }), c->r.end());
			rchanged = true; fin_read = false;
		}
		else if (k == "COPY") {
			Rd* n = e.cprd(s.r); n->number = u32(c->r.size() * 1000 + 1000 + 0); n->number = s.r->number + 100; c->r.push_back(n); clear(); trace(); n->hits.push_back(r); n->noprint = false;
			if (r->sublist) { Tags ex = matching(r->sublist, n); for (auto& t : tags(r->sublist)) ex.push_back(t); for (Rd* y = n; y; y = y->next) for (auto& t : ex) e.del(y, t); }
			Tags maps; put_copy(n, x, maps);
			if (!maps.empty()) e.split(maps, c, n, true);
			rchanged = true; e.reflow(n);
		}
		else if (k == "MERGECOHORTS") merge_cohorts(c);
		else if (k == "COPYCOHORT") copy_cohort();
		else if (k == "SETPARENT" || k == "SETCHILD" || k.find("RELATION") != string::npos) dep_loop();
		else if (k == "REMPARENT") { fin_read = false; trace(); e.detach(c); clear(); }
		else if (k == "SWITCHPARENT") switch_parent(c);
		else if (k == "MOVE" || k == "SWITCH") move();
		else if (k == "WITH") {
			trace(); bool any = false, reset_any = false, was_nested = e.in_nested; rchanged = false; e.in_nested = true; const Rule* was = r;
			for (auto n : was->nested) {
				e.rule = r = n; bool res;
				do { rchanged = false; res = single(n); any |= res || rchanged; reset_any |= reset; } while ((res || rchanged) && (n->fl & F_REPEAT));
				e.rule = r = was;
			}
			e.in_nested = was_nested; rchanged = any; reset = reset_any; fin_read = false;
		}
		else if (k != "REMCOHORT") trace();
	}
	bool unmap(Rd* x) {
		bool ch = false;
		if (!x->mapping.empty()) { x->noprint = false; e.del(x, x->mapping); ch = true; }
		if (x->mapped) { x->mapped = false; ch = true; }
		if (ch) hit(x); return ch;
	}
	void put_copy(Rd* n, Rd* tgt, Tags& maps) {
		Tags l = tags(r->maplist);
		if (r->spot) {
			Tags sp = present(r->spot, tgt); size_t i = 0;
			for (; i < n->tl.size(); ++i) { bool ok = true; for (size_t q = 0; q < sp.size(); ++q) if (i + q >= n->tl.size() || n->tl[i + q] != sp[q]) { ok = false; break; } if (ok) break; }
			if (r->fl & F_AFTER) i = std::min(n->tl.size(), i + sp.size());
			if (i < n->tl.size()) { for (auto& t : l) { if (t == "*") break; if (e.is_map(t)) maps.push_back(t); else n->tl.insert(n->tl.begin() + long(i++), t); } e.reflow(n); return; }
		}
		append(n, l, maps);
	}
	void substitute(Coh* c, Rd* x) {
		string was = x->key(); auto gl = gtags(r->sublist); bool appending = gl.size() == 1 && gl[0].kind == ANYTAG;
		Tags rem = appending ? Tags() : present(r->sublist, x); Tags& tl = x->tl; bool hitany = false;
		bool run = false;
		if (!rem.empty()) { // contiguous occurrence(s) first
			for (size_t i = 0; i + rem.size() <= tl.size(); ++i) if (std::equal(rem.begin(), rem.end(), tl.begin() + long(i))) run = true;
			if (run) {
				for (size_t i = 0; i + rem.size() <= tl.size(); ++i) if (std::equal(rem.begin(), rem.end(), tl.begin() + long(i))) { tl.erase(tl.begin() + long(i) + 1, tl.begin() + long(i + rem.size())); tl[i] = SUBST; hitany = true; }
				for (auto& t : tl) if (std::find(rem.begin(), rem.end(), t) != rem.end()) throw Ambiguous("SUBSTITUTE list occurs both contiguously and scattered");
			}
			else {
				size_t last = SIZE_MAX; for (size_t i = 0; i < tl.size(); ++i) if (std::find(rem.begin(), rem.end(), tl[i]) != rem.end()) { tl[i] = SUBST; last = i; hitany = true; }
				for (size_t i = 0; i < last;) if (tl[i] == SUBST) { tl.erase(tl.begin() + long(i)); --last; } else ++i;
			}
			if (std::find(rem.begin(), rem.end(), x->base) != rem.end()) x->base.clear();
			if (std::find(rem.begin(), rem.end(), x->mapping) != rem.end()) x->mapping.clear();
		}
		if (appending) { tl.push_back(SUBST); hitany = true; }
		if (hitany) {
			clear(); trace(); x->noprint = false; Tags nw = tags(r->maplist), maps; string wf;
			for (size_t i = 0; i < tl.size();) {
				if (tl[i] != SUBST) { ++i; continue; }
				tl.erase(tl.begin() + long(i)); size_t p = i;
				for (auto& t : nw) { if (t == "*") break; if (e.is_map(t)) maps.push_back(t); else { if (is_word(t)) wf = t; tl.insert(tl.begin() + long(p++), t); } }
				i = p;
			}
			e.reflow(x);
			if (!maps.empty()) e.split(maps, c, x, true);
			if (!wf.empty() && wf != c->word) {
				for (auto l : {&c->r, &c->del, &c->delayed}) for (auto y : *l) { e.del(y, c->word); e.add(y, wf); }
				c->word = wf;
			}
		}
		if (x->key() != was) rchanged = true;
	}
	void split_cohort(Coh* c) {
		clear(); Win* w = e.cur; Tags t = tags(r->maplist); vector<Coh*> nc; vector<vector<Tags>> rs;
		for (auto& y : t) { if (is_word(y)) { nc.push_back(e.mkcoh(w)); nc.back()->g = e.counter++; nc.back()->word = y; rs.emplace_back(); } if (nc.empty()) throw Fatal("no wordform"); }
		size_t n = nc.size(); vector<std::pair<u32, u32>> dep(n, {0, 0}); u32 rt = NOPAR;
		for (size_t i = 1; i + 1 < n; ++i) dep[i].second = u32(i);
		dep.back().first = NOPAR; dep.back().second = u32(n - 1); dep.front().second = NOPAR;
		size_t i = 0; bool bf = false;
		for (auto& y : t) {
			if (is_word(y)) { ++i; bf = false; continue; }
			if (is_base(y)) { rs[i - 1].push_back({nc[i - 1]->word}); bf = true; }
			if (!bf) throw Fatal("no baseform");
			char a[64] = {}, b[64] = {};
			if (y.size() < 60 && sscanf(y.c_str(), "%[0-9cd]->%[0-9pm]", a, b) == 2) {
				if (a[0] == 'c' || a[0] == 'd') { dep[i - 1].first = NOPAR; if (rt == NOPAR) rt = u32(i - 1); } else dep[i - 1].first = u32(atoi(a));
				if (b[0] == 'p' || b[0] == 'm') dep[i - 1].second = NOPAR; else dep[i - 1].second = u32(atoi(b));
				continue;
			}
			if (y == "R:*") { rt = u32(i - 1); continue; }
			rs[i - 1].back().push_back(y);
		}
		if (rt == NOPAR) rt = u32(n - 1);
		{ bool tail = false; for (auto& d : dep) tail |= d.first == NOPAR; if (!tail) dep.back().first = NOPAR; }
		Coh* after = c;
		for (i = 0; i < n; ++i) {
			for (auto l : rs[i]) { expand(l, c); new_reading(nc[i], l); }
			if (nc[i]->r.empty()) e.empty(nc[i]);
			e.cmap[nc[i]->g] = nc[i]; e.depq.insert(nc[i]->g);
			insert_all(w, after, nc[i], true); after = nc[i];
		}
		std::swap(nc.back()->text, c->text);
		for (i = 0; i < n; ++i) {
			if (dep[i].first == NOPAR) { auto ks = c->kids; for (auto k : ks) { if (e.cmap.count(k)) e.attach(nc[i], e.cmap[k], true, true); c->kids.erase(k); } }
			if (dep[i].second == NOPAR) { if (e.cmap.count(c->dpar)) e.attach(e.cmap[c->dpar], nc[i], true, true); }
			else { u32 gn = nc[0]->g + dep[i].second - 1; if (dep[i].second < 1 || dep[i].second > n) throw Fatal("SPLITCOHORT dependency outside the new cohorts"); e.attach(e.cmap[gn], nc[i], true, true); }
			if (rt == i && c->related) {
				set_related(nc[i]); nc[i]->rel.swap(c->rel);
				for (auto q : e.windows()) for (auto y : q->c) for (auto& z : y->rel) if (z.second.erase(c->g)) z.second.insert(nc[i]->g);
			}
		}
		for (auto y : c->r) { hit(y); y->deleted = true; }
		c->removed = true; for (auto& m : e.cmap) m.second->kids.erase(c->dself); e.cmap.erase(c->g);
		w->c.erase(std::find(w->c.begin(), w->c.end(), c)); e.renumber(w);
		rchanged = true; reset = true;
	}
	void merge_cohorts(Coh* target) {
		clear(); vector<Coh*> withs = {target}; Coh* at_c = target;
		for (auto t : r->deptests) {
			F().attach = Spec(); e.merge_with = nullptr; F().mark = target; Coh* oth = nullptr;
			if (!run_test(target->w, target->l, t, &oth) || !oth) { fin_read = false; return; }
			auto ins = [&](Coh* x) { if (std::find(withs.begin(), withs.end(), x) == withs.end()) withs.push_back(x); };
			if (F().attach.c) { at_c = F().attach.c; if (e.merge_with) ins(e.merge_with); }
			else if (e.merge_with) ins(e.merge_with);
			else ins(oth);
		}
		for (auto x : withs) if (!x->l) { fin_read = false; return; }
		for (auto x : withs) if (x->w != e.cur) throw Ambiguous("MERGECOHORTS across windows");
		std::sort(withs.begin(), withs.end(), [](Coh* a, Coh* b) { return a->l < b->l; });
		size_t sp = 0; for (auto& y : tags(r->maplist)) if (is_word(y)) sp = size_t(std::count(y.begin(), y.end(), ' '));
		F().target.c = add_cohort(at_c, &withs);
		for (auto x : withs) {
			auto f = x->text.find(' '); while (sp && f != string::npos) { x->text.erase(f, 1); f = x->text.find(' '); --sp; }
			rem_cohort(x);
		}
		if (!e.cur->c.back()->r.at(0)->has(ENDT)) move_end(e.cur);
		rchanged = true; reset = true;
	}
	void copy_cohort() {
		Coh *co = F().target.c, *other; Rd* sub = F().target.s;
		if (!find_other(co, other)) return;
		if (!other_ok(other) || co == other || !co->l) return;
		const Set* cs = r->child2; if (r->fl & F_REVERSE) { std::swap(co, other); cs = r->child1; if (!co->l) return; }
		Coh* n = e.mkcoh(other->w); n->g = e.counter++; n->word = co->word; Tags t = tags(r->maplist), ex;
		if (r->sublist) { ex = matching(r->sublist, at().s ? at().s : sub); for (auto& y : tags(r->sublist)) ex.push_back(y); }
		auto src = co->r;
		for (auto y : src) {
			Rd *head = nullptr, *last = nullptr;
			for (Rd* z = y; z; z = z->next) {
				Rd* q = e.mkrd(n); hit(q); Tags maps; for (auto& g : z->tl) if (e.is_map(g)) maps.push_back(g); else e.add(q, g);
				for (auto& g : t) { if (g == "*") continue; if (e.is_map(g)) maps.push_back(g); else e.add(q, g); }
				if (!maps.empty()) e.split(maps, n, q, false);
				if (!head) head = q; else last->next = q; last = q;
			}
			n->r.push_back(head);
		}
		if (n->r.empty()) { e.empty(n); if (e.o.trace) { hit(n->r[0]); n->r[0]->noprint = false; } }
		for (auto y : n->r) for (Rd* z = y; z; z = z->next) for (auto& g : ex) e.del(z, g);
		if (co->wread) { n->wread = e.mkrd(n); for (auto& g : co->wread->tl) e.add(n->wread, g); }
		e.cmap[n->g] = n; e.depq.insert(n->g);
		auto ed = subtree(other, cs); bool bef = r->fl & F_BEFORE; Coh* edge = bef ? ed.front() : ed.back();
		insert_all(other->w, edge, n, !bef || !edge->l); e.attach(edge, n, false, false);
		rchanged = true; reset = true; // unlike every other change, this one does not make failed rules be tried again (a cohort that can be copied again would be copied for ever)
	}
	void dep_loop() {
		Test* dt = const_cast<Test*>(r->dep); int off = dt->off; set<u32> seen; Spec org = F().target;
		for (;;) {
			Unif us = F().u ? *F().u : Unif(); Coh *oth = nullptr, *tg = F().target.c; seen.insert(tg->g);
			F().attach = Spec(); e.seen_barrier = false;
			if (!run_test(tg->w, tg->l, dt, &oth) || !oth) break;
			bool stop = e.seen_barrier || (r->fl & F_NEAREST);
			if (F().attach.c) oth = F().attach.c;
			bool good = other_ok(oth);
			if (!F().attach.c) { F().attach.c = oth; }
			if (good) { Spec t = F().target; F().target = org; if (do_dep(org.c, F().attach.c)) break; F().target = t; }
			if (stop || seen.count(oth->g)) break;
			seen.insert(oth->g); F().target = F().attach; if (F().u) { F().u->tags = us.tags; F().u->sets = us.sets; }
			if (off) dt->off = off < 0 ? -1 : 1;
		}
		dt->off = off; fin_read = false;
	}
	void switch_parent(Coh* c) {
		fin_read = false; trace(); auto it = e.cmap.find(c->dpar); if (it == e.cmap.end() || !it->second->l) return; Coh* p = it->second; u32 gp = p->dpar; vector<Coh*> sib;
		for (auto x : e.cur->c) if (x != c && x->dpar == p->g && r->child1 && e.coh_normal(x, r->child1)) sib.push_back(x);
		e.detach(c); e.detach(p); for (auto x : sib) e.detach(x);
		auto jt = e.cmap.find(gp); if (jt != e.cmap.end()) e.attach(jt->second, c, false, false);
		e.attach(c, p, false, false); for (auto x : sib) e.attach(c, x, false, false);
		clear();
	}
	void move() {
		fin_read = false; auto state = [&]() { string k; for (auto c : e.cur->c) k += std::to_string(c->g) + ' ' + c->r.at(0)->key(); return k; };
		string was = state(); Coh *co = F().target.c, *other; Win* w = e.cur;
		if (!find_other(co, other) || co->w != other->w) return;
		if (!other_ok(other) || co == other || !co->l) return;
		if (r->fl & F_REVERSE) std::swap(co, other);
		vector<Coh*> mv;
		if (r->kw == "SWITCH") {
			if (!other->l) return;
			std::swap(w->c[co->l], w->c[other->l]); std::iter_swap(std::find(w->all.begin(), w->all.end(), co), std::find(w->all.begin(), w->all.end(), other)); mv = {co, other};
		}
		else {
			auto ed = subtree(other, r->child2); mv = subtree(co, r->child1);
			auto has = [](vector<Coh*>& v, Coh* x) { return std::find(v.begin(), v.end(), x) != v.end(); };
			bool clean = false; for (auto x : mv) clean |= has(ed, x);
			if (clean) { auto& a = e.child_of(co, other) ? ed : mv; auto b = &a == &ed ? mv : ed; a.erase(std::remove_if(a.begin(), a.end(), [&](Coh* x) { return has(b, x); }), a.end()); }
			if (mv.empty() || ed.empty()) return;
			for (auto x : mv) { w->c.erase(std::find(w->c.begin(), w->c.end(), x)); w->all.erase(std::find(w->all.begin(), w->all.end(), x)); }
			bool bef = r->fl & F_BEFORE; Coh* ref = bef ? ed.front() : ed.back(); bool after = !bef || ref == w->c[0];
			auto a = std::find(w->c.begin(), w->c.end(), ref); w->c.insert(a + after, mv.begin(), mv.end());
			auto b = std::find(w->all.begin(), w->all.end(), ref); w->all.insert(b + after, mv.begin(), mv.end());
		}
		e.renumber(w);
		if (state() != was) {
			if (++e.rule_hits[r->num] > w->c.size() * 100) { bail = true; fin_coh = false; return; }
			for (auto c : mv) for (auto x : c->r) hit(x);
			clear(); rchanged = true;
		}
	}
	// ------------------------------------------------------------------ which cohorts and readings the rule applies to
	bool word_ok(const Rule* q, const Coh* c) { return !q->hasword || e.lit(q->wordtag, c->word, false); }
	vector<Coh*> candidates(const Rule* q) {
		if (!e.in_nested) return e.cur->c;
		vector<Coh*> v = {at().c};
		for (auto& a : q->target->alts) if (!a.empty() && a[0].kind == CTXREF && size_t(a[0].ref) <= F().ctx.size()) { Coh* x = F().ctx[size_t(a[0].ref) - 1]; if (x && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
		std::sort(v.begin(), v.end(), cohort_order);
		return v;
	}
	static bool cohort_order(Coh* a, Coh* b) { return a->w == b->w ? a->l < b->l : a->w->number < b->w->number; }
	bool single(const Rule* q) {
		fin_coh = true; bool any = false; string type = q->kw; auto coh = candidates(q); Eng& E = e;
		bool did_reset = false; struct Out { bool &r, &d; ~Out() { r = r || d; } } out_reset{reset, did_reset};
		bool uns = (e.o.unsafe && !(q->fl & F_SAFE)) || (q->fl & F_UNSAFE);
		bool sp = special(q->target), copyable = !sp && !has_mapping(e, q->target) && !q->target->has_unify();
		for (size_t ci = 0; ci < coh.size();) {
			Coh* c = coh[ci++]; fin_read = true; type = q->kw;
			if (!c->l || c->removed || c->ignored || c->enclosed || c->w != e.cur || c->r.empty()) continue;
			if (!e.in_nested && !word_ok(q, c)) continue;
			const string& k = q->kw;
			if (k == "RESTORE" && ((q->fl & F_DELAYED) ? c->delayed : (q->fl & F_IGNORED) ? c->ign : c->del).empty()) continue;
			if (c->r.size() == 1) { if (type == "SELECT") continue; if ((type == "REMOVE" || type == "IFF") && (c->r[0]->noprint || !uns)) continue; }
			else if (type == "UNMAP" && (q->fl & F_SAFE)) continue;
			if (type == "DELIMIT" && c->l == e.cur->c.size() - 1) continue;
			bool inside = e.in_encl(c);
			if ((q->fl & F_ENCLI) && !inside) continue;
			if (!(q->fl & F_ENCLI) && (q->fl & F_ENCLO) && inside) continue;
			if (k == "SETPARENT" && (q->fl & F_SAFE) && c->dpar != NOPAR) continue;
			if ((q->fl & F_NOPARENT) && c->dpar != NOPAR) continue;
			if ((k == "REMPARENT" || k == "SWITCHPARENT") && c->dpar == NOPAR) continue;
			if (!e.tried.insert({q->num, c->g}).second) continue;
			size_t active = 0, immutable = 0, iff = 0; if (k == "IFF") type = "REMOVE";
			size_t n0 = c->r.size(), d0 = c->del.size(), y0 = c->delayed.size(), i0 = c->ign.size();
			Frame fr; fr.target.c = c; fr.nested = k == "WITH"; Coh* omark = e.fs.empty() ? nullptr : F().mark; bool outer = !e.fs.empty();
			if (outer) { fr.u = nullptr; }
			e.fs.push_back(fr); size_t fi = e.fs.size();
			vector<Frame> cx; map<string, Rd*> plain; map<string, Unif*> pu;
			struct Pop { Eng& e; size_t n; ~Pop() { e.fs.resize(n - 1); } } pop{E, fi};
			for (size_t i = 0; i < c->r.size(); ++i) {
				Rd* head = c->r[i]; Rd* x = const_cast<Rd*>(e.sub_of(head, q->sub));
				if (!x) { head->mt = head->mx = false; continue; }
				F().target.r = head; F().target.s = x; x->mt = x->mx = false;
				if (x->mapped && (k == "MAP" || k == "ADD" || k == "REPLACE")) continue;
				if (x->mapped && (q->fl & F_NOMAPPED)) continue;
				if (x->noprint && e.o.no_magic) continue;
				if (x->immutable && k != "UNPROTECT") {
					static const set<string> cnt = {"PROTECT", "ADD", "MAP", "REPLACE", "SELECT", "REMOVE", "IFF", "SUBSTITUTE", "UNMAP"};
					if (cnt.count(k)) ++active;
					++immutable;
					if (type == "SELECT") { x->mt = x->mx = true; cx.push_back(F()); }
					++iff; continue;
				}
				if (copyable) {
					auto it = plain.find(x->plainkey());
					if (it != plain.end()) { x->mt = it->second->mt; x->mx = it->second->mx; if (x->mx) ++active; F().u = pu[x->plainkey()]; cx.push_back(F()); continue; }
				}
				e.ubase.clear(); e.uword.clear(); e.utext.clear(); unifs.emplace_back(); F().u = &unifs.back(); pu[x->plainkey()] = F().u;
				e.same_basic = x->plainkey(); F().mark = outer && omark ? omark : c;
				for (Rd* y = head; y; y = y->next) y->active = true;
				e.rule_target = c; bool tm;
				{ Unif sv = *F().u; tm = e.set_match(q->target, x); (void)sv; }
				if (tm) {
					x->mt = true; bool good = true; F().ctx.clear();
					for (auto t : q->tests) {
						if ((q->fl & F_RESETX) || !(q->fl & F_REMX)) F().mark = c;
						e.seen_barrier = false; Coh* res = nullptr; if (k == "WITH") e.merge_with = nullptr;
						bool org = !(t->pos & P_PASSO) && (e.o.no_pass_origin || (t->pos & P_NOPASSO));
						Coh* nx = run_test(e.cur, c->l, t, k == "WITH" ? &res : nullptr, org ? c : nullptr);
						F().ctx.push_back(e.merge_with && k == "WITH" ? e.merge_with : res);
						if (!nx) { good = false; break; }
					}
					if (good) {
						if (k == "IFF" && type != "SELECT") { type = "SELECT"; for (size_t j = 0; j < i; ++j) { Rd* y = const_cast<Rd*>(e.sub_of(c->r[j], q->sub)); if (y && y->immutable) { y->mt = y->mx = true; ++active; ++iff; } } }
						x->mx = true; ++active;
					}
					else F().u->caps.clear();
					++iff;
				}
				else F().u->caps.clear();
				plain.insert({x->plainkey(), x});
				for (Rd* y = head; y; y = y->next) y->active = false;
				if (x != head) { head->mt = x->mt; head->mx = x->mx; }
				cx.push_back(F());
			}
			if (n0 != c->r.size() || d0 != c->del.size() || y0 != c->delayed.size() || i0 != c->ign.size()) any = true;
			if (!active && (!iff || k != "IFF")) continue;
			if (k == "SELECT" && active && active == immutable && active < c->r.size()) throw Ambiguous("SELECT of protected readings only"); // applies or not depending on which readings the cohort once had
			if (active == c->r.size()) { if (type == "SELECT") continue; if (type == "REMOVE" && !uns) continue; }
			auto do_reset = [&]() {
				Coh* g = at().c; size_t j = 0; u32 pos = g->l; // continue after the cohort acted on
				did_reset = true;
				if (e.in_nested) std::sort(coh.begin(), coh.end(), cohort_order); else coh = candidates(q);
				if (e.in_nested) { while (j < coh.size() && coh[j]->l < pos) ++j; if (j < coh.size() && !(g->removed || g->ignored)) ++j; }
				else { while (j < coh.size() && coh[j]->l < pos) ++j; if (j < coh.size() && !(g->removed || g->ignored)) ++j; }
				ci = j;
			};
			uint64_t h0 = e.hash_window();
			auto fin = [&]() { uint64_t h1 = e.hash_window(); if (h1 != h0) { e.st.changed = true; if (e.st.on_state) e.st.on_state(h1); } };
			for (auto& f : cx) {
				if (!f.target.s->mt || (!f.target.s->mx && k != "IFF")) continue;
				e.fs.back() = f; reset = false; reading_cb();
				if (!fin_coh) { fin(); return any; }
				if (reset) { do_reset(); break; }
				if (!fin_read) break;
			}
			reset = false; cohort_cb(); fin();
			if (!fin_coh) return any;
			if (reset) do_reset();
		}
		return any;
	}
	u32 rules(const vector<const Rule*>& v) {
		bool tracehit = false;
		bool something = false; e.cmap[0] = e.cur->c[0];
		for (size_t i = 0; i < v.size();) {
			const Rule* q = v[i]; size_t nexti = i + 1; bool did = false;
			bool ok = true;
			if (!e.only_lines.empty() && !e.only_lines.count(q->line)) ok = false;
			if (e.o.no_mappings && (q->kw == "MAP" || q->kw == "ADD" || q->kw == "REPLACE")) ok = false;
			if (e.o.no_corrections && (q->kw == "SUBSTITUTE" || q->kw == "APPEND")) ok = false;
			if (e.cur->has_encl && bool(q->fl & F_ENCLF) != e.final_encl) ok = false;
			if (!ok) { i = nexti; continue; }
		again:
			did = false; rchanged = repeat = bail = false; removed.clear(); selected.clear(); jump_to = SIZE_MAX; e.rule = r = q;
			bool rv = single(q);
			if (rv || rchanged) { if (!(q->fl & F_NOITER) && e.o.single_run != 1) something = true; did = true; }
			if (bail) { e.rule_hits[q->num] = 0; clear(); i = nexti; continue; }
			if (repeat) { size_t j = 0; while (j < v.size() && v[j]->num < jump_to) ++j; if (++jumps > 150) throw Ambiguous("endless JUMP"); i = j; continue; }
			if (delimited) break;
			if (did && (q->fl & F_REPEAT)) { clear(); if (++jumps > 300) throw Ambiguous("endless REPEAT"); goto again; }
			if (did && e.o.trace_lines.count(q->line)) tracehit = true;
			if (tracehit) break;
			i = nexti;
		}
		if (tracehit) return RV_DELIMITED * 2;
		return (something ? RV_SOMETHING : 0u) | (delimited ? RV_DELIMITED : 0u) | RV_NOTHING;
	}
	size_t jumps = 0;
};
u32 Eng::run_rules(const vector<const Rule*>& v, int) { Run x(*this); auto f = fs.size(); u32 rv = x.rules(v); fs.resize(f); return rv; }
u32 Eng::run_window_rules() {
	tried.clear(); rule_hits.clear(); fs.clear(); only_lines = o.only_lines;
	if (!o.only_rule.empty()) for (auto r : g.all) if (isdigit((unsigned char)o.only_rule[0]) ? std::to_string(r->line) == o.only_rule : r->name == o.only_rule) only_lines.insert(r->line);
	if (std::none_of(g.all.begin(), g.all.end(), [&](Rule* r) { return only_lines.count(r->line) != 0; })) only_lines.clear();
	auto list = [&](const vector<Rule*>& v) { vector<const Rule*> o2(v.begin(), v.end()); return o2; };
	if (!g.before.empty() && !o.no_before) { u32 rv = run_rules(list(g.before), -1); if (rv & (RV_DELIMITED | RV_DELIMITED * 2)) return rv; }
	if (!o.no_sections && !g.sections.empty()) {
		vector<vector<const Rule*>> secs;
		if (o.sections.empty()) { vector<const Rule*> acc; for (auto& s : g.sections) { acc.insert(acc.end(), s.begin(), s.end()); secs.push_back(acc); } }
		else {
			set<u32> have; vector<const Rule*> acc;
			for (auto n : o.sections) {
				if (n >= 1 && n <= g.sections.size()) acc.insert(acc.end(), g.sections[n - 1].begin(), g.sections[n - 1].end());
				auto sorted = acc; std::stable_sort(sorted.begin(), sorted.end(), [](const Rule* a, const Rule* b) { return a->num < b->num; }); sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
				secs.push_back(sorted);
			}
		}
		vector<u32> cnt(secs.size()); size_t i = 0;
		for (size_t pass = 0; i < secs.size(); ++pass) {
			if (secs[i].empty() || (o.single_run && cnt[i] >= o.single_run)) { ++i; continue; }
			u32 rv = run_rules(secs[i], int(i)); ++cnt[i];
			if (rv & (RV_DELIMITED | RV_DELIMITED * 2)) return rv;
			if (!(rv & RV_SOMETHING)) { ++i; pass = 0; }
			size_t size = 0; for (auto c : cur->c) size += c->r.size() + c->del.size() + 1;
			if (pass >= 60 || size > 3000) throw Ambiguous("endless rule loop");
		}
	}
	if (!g.after.empty() && !o.no_after) { u32 rv = run_rules(list(g.after), -2); if (rv & (RV_DELIMITED | RV_DELIMITED * 2)) return rv; }
	return 0;
}
}
