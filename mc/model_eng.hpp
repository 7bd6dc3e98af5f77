// Engine of the reference model (private).
#pragma once
#include "model_core.hpp"
#include <unordered_map>
namespace mcg {
typedef vector<string> Tags;
struct Spec { Coh* c = nullptr; Rd* r = nullptr; Rd* s = nullptr; };
struct Unif { map<const Set*, Tags> tags; map<const Set*, set<const Set*>> sets; vector<string> caps; bool operator==(const Unif& o) const { return tags == o.tags && sets == o.sets && caps == o.caps; } };
struct Frame { // one per rule being applied (nested rules push another)
	Spec target, attach; Coh* mark = nullptr; Unif* u = nullptr; vector<Coh*> ctx; bool nested = false;
};
enum { R_BREAK = 1, R_FAIL = 2, R_UNMATCHED = 4, R_PARENTH = 8 };
struct Eng {
	Grammar& g; const Opts& o; Stats& st;
	string ubase, uword, utext; // what the unified any-tags have been bound to
	std::deque<Coh> cpool; std::deque<Rd> rpool; std::deque<Win> wpool;
	vector<Win*> prev, next; Win* cur = nullptr;
	string out; u32 counter = 0, winno = 0;
	map<string, string> vars;
	map<string, string> pset; set<string> prem, pout; // pending variables
	map<u32, Coh*> cmap; set<u32> depq; map<u32, u32> relmap;
	std::unordered_map<const Win*, set<string>> bags; std::unordered_map<const Win*, string> bagbase;
	bool has_dep = false, has_rel = false, eof = false, spanned = false, final_encl = false, related_any = false;
	string par_l, par_r; Coh *par_lc = nullptr, *par_rc = nullptr;
	bool in_encl(const Coh* c) const { if (!par_lc || !par_rc) return false; for (auto x : {par_lc, par_rc}) if (x->removed || x->ignored || x->w != c->w) return false; return c->l >= par_lc->l && c->l <= par_rc->l; }
	map<Rd*, Tags> pendmap; // mapping tags waiting to be split
	vector<Frame> fs;
	Eng(Grammar& gr, const Opts& op, Stats& s) : g(gr), o(op), st(s) {}

	// --- basics
	Coh* mkcoh(Win* w) { cpool.emplace_back(); cpool.back().w = w; return &cpool.back(); }
	void grow() { if (rpool.size() > 150 + in_size || cpool.size() > 60 + in_size / 4) throw Ambiguous("endless growth"); }
	size_t in_size = 0; set<u32> only_lines;
	Rd* mkrd(Coh* c) { grow(); rpool.emplace_back(); Rd* r = &rpool.back(); r->parent = c; r->number = u32(c ? c->r.size() * 1000 + 1000 : 0); return r; }
	Rd* cprd(const Rd* s) { grow(); rpool.emplace_back(*s); Rd* r = &rpool.back(); r->number = s->number + 100; r->mt = r->mx = r->immutable = r->active = false; if (r->next) r->next = cprd(r->next); return r; }
	Win* mkwin() { wpool.emplace_back(); wpool.back().number = ++winno; return &wpool.back(); }
	bool is_map(const string& t) const;
	bool textual(const string& t) const; // quoted, <>, or matching a grammar regex / icase tag
	string varstr(const GTag& t);
	void add(Rd* r, const string& t);
	void add(Rd* r, const GTag& t) { add(r, t.kind == VSTR ? varstr(t) : t.txt); }
	void del(Rd* r, const string& t);
	void reflow(Rd* r);
	void split(Tags m, Coh* c, Rd* r, bool mapped);
	void split_all(Coh* c, bool mapped);
	void push(Win* w, Coh* c);
	Rd* empty(Coh* c);
	void begin_win(Win* w);
	Coh* delimit_at(Win* w, Coh* c);
	vector<Win*> windows() const { vector<Win*> v = prev; if (cur) v.push_back(cur); v.insert(v.end(), next.begin(), next.end()); return v; }
	Win* wprev(const Win* w) const { auto v = windows(); for (size_t i = 1; i < v.size(); ++i) if (v[i] == w) return v[i - 1]; return nullptr; }
	Win* wnext(const Win* w) const { auto v = windows(); for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i] == w) return v[i + 1]; return nullptr; }
	Coh* cprev(const Coh* c) const; Coh* cnext(const Coh* c) const; // neighbours across windows (visible cohorts)
	void renumber(Win* w) { for (size_t i = 0; i < w->c.size(); ++i) w->c[i]->l = u32(i); }
	// --- stream
	void read(const string& in); void shuffle(); void run_window(); void forget(Win* w); void print(Win* w); void print(Coh* c); void print(Rd* r, size_t sub); void merge(vector<Rd*>& l); void vars_out(const set<string>& o, const map<string, string>& s);
	void reflow_dep(u32 max = 0); void reflow_rel();
	// --- matching
	bool lit(const GTag& t, const string& tag, bool cap); // does grammar tag match this one input tag (regex, icase or literal)
	int tag_match(const GTag& t, const Rd* r, bool unif, const Set* owner, int altno); // number of matches
	bool comp_match(const Comp& c, const Rd* r, bool unif, const Set* owner);
	bool list_match(const Set* s, const Rd* r, bool unif);
	bool set_match(const Set* s, const Rd* r, bool unif = false);
	bool is_reading_special(const Rd*) const;
	struct MC { const Test* test = nullptr; Coh** deep = nullptr; Coh* origin = nullptr; uint64_t opts = 0; bool did = false, mtgt = false, mtst = false, barrier = false; };
	const Rd* sub_of(const Rd* r, int sub);
	bool linked(Coh* c, const Set* s, MC* m); bool helper(Coh* c, Rd* r, const Set* s, MC* m);
	bool coh_normal(Coh* c, const Set* s, MC* m = nullptr); bool coh_careful(Coh* c, const Set* s, MC* m = nullptr);
	// --- contexts
	Coh* single(Coh* c, const Test* t, int& rvs, bool* rv, Coh** deep, Coh* origin);
	Coh* single(Win* w, size_t i, const Test* t, int& rvs, bool* rv, Coh** deep, Coh* origin);
	bool pos_out(const Win* w, size_t pos, const Test* t, const Coh* c, const Coh* cdeep);
	Coh* tmpl(Win* w, size_t pos, const Test* t, const Test* tm, Coh*& cdeep, Coh* origin);
	Coh* ctx(Win* w, size_t pos, const Test* t, Coh** deep = nullptr, Coh* origin = nullptr);
	Coh* depctx(Win* w, Coh* c, const Test* t, Coh** deep, Coh* origin, const Coh* self = nullptr);
	Coh* parctx(Win* w, const Coh* c, const Test* t, Coh** deep, Coh* origin);
	Coh* relctx(Win* w, Coh* c, const Test* t, Coh** deep, Coh* origin);
	Coh* win_pos(Win*& w, size_t& pos, const Test* t);
	// --- rules
	Coh *tmin = nullptr, *tmax = nullptr; bool tin = false; vector<const Test*> tlink; bool seen_barrier = false; set<std::pair<const Test*, u32>> deep_seen; Coh* merge_with = nullptr; const Rule* rule = nullptr; string same_basic;
	bool in_nested = false; bool changed = false; Coh* rule_target = nullptr;
	bool child_of(const Coh* child, const Coh* parent); bool would_loop(const Coh* p, const Coh* c); bool would_cross(const Coh* p, const Coh* c);
	bool attach(Coh* p, Coh* c, bool loop, bool cross); void detach(Coh* c);
	u32 run_window_rules(); u32 run_rules(const vector<const Rule*>& v, int sect);
	uint64_t hash_window() const;
	set<std::pair<u32, u32>> tried; map<u32, u32> rule_hits; map<const Rule*, int> secof;
	Tags taglist(const Set* s, bool unif = false);
	Frame& F() { return fs.back(); }
};
enum { RV_NOTHING = 1, RV_SOMETHING = 2, RV_DELIMITED = 4 };
}
