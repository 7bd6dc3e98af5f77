// C26: the containers under the engine are sets and maps, for every history of operations.
//
// Explicit-state search on the real templates: a state is the complete internal representation (slots, tombstones
// and counters; intervals; elements), a transition one public operation with one argument. Every distinct
// representation reached is expanded with every operation, compared with std::set / std::map after each.
#include "explore.hpp"
#include <algorithm>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <unordered_map>
#include <cassert>
#include <iterator>
#include <limits>
#include <utility>
#include <iostream>
#define private public
#include "flat_unordered_map.hpp"
#include "flat_unordered_set.hpp"
#include "sorted_vector.hpp"
#include "interval_vector.hpp"
#include "bloomish.hpp"
#undef private

typedef uint32_t U;
typedef std::vector<U> VU;

static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// The internal representation is only looked at to tell states apart; if its names change, a coarser key is used.
template<typename C> auto rep_deleted(const C& c, int) -> decltype(size_t(c.deleted)) { return c.deleted; }
template<typename C> size_t rep_deleted(const C&, long) { return 0; }
template<typename C> auto rep_slots(const C& c, int) -> decltype(const_cast<C&>(c).get()) { return const_cast<C&>(c).get(); }
template<typename C> VU rep_slots(const C& c, long) { VU v; for (auto i = c.begin(); i != c.end(); ++i) v.push_back(0); return v; }
static uint64_t rep_slot(U k) { return k; }
static uint64_t rep_slot(const std::pair<U, U>& p) { return (uint64_t(p.first) << 32) | p.second; }
template<typename C> auto rep_intervals(const C& c, int) -> decltype(std::to_string(c.elements[0].lb)) { std::string s = "intervals:"; for (auto& i : c.elements) s += " " + std::to_string(i.lb) + "-" + std::to_string(i.ub); return s; }
template<typename C> std::string rep_intervals(const C& c, long) { std::string s = "elements:"; for (auto i = c.begin(); i != c.end(); ++i) s += " " + std::to_string(*i); return s; }

// ---- hash containers. One adapter per container so that the search is written once. ----
struct MapA {
	typedef CG3::flat_unordered_map<U, U> C; typedef std::map<U, U> M;
	static const char* name() { return "map"; }
	static U key(const C::const_iterator& i) { return i->first; }
	static U val(const C::const_iterator& i) { return i->second; }
	static U mval(const M::const_iterator& i) { return i->second; }
	static U mkey(const M::const_iterator& i) { return i->first; }
	static void put(C& c, M& m, U k, U v) { c.insert(std::make_pair(k, v)); m.insert({k, v}); }
	static void set(C& c, M& m, U k, U v) { c[k] = v; m[k] = v; }
	static std::pair<U, U> mk(U k, U v) { return {k, v}; }
};
struct SetA {
	typedef CG3::flat_unordered_set<U> C; typedef std::set<U> M;
	static const char* name() { return "set"; }
	static U key(const C::const_iterator& i) { return *i; }
	static U val(const C::const_iterator&) { return 0; }
	static U mval(const M::const_iterator&) { return 0; }
	static U mkey(const M::const_iterator& i) { return *i; }
	static void put(C& c, M& m, U k, U) { c.insert(k); m.insert(k); }
	static void set(C& c, M& m, U k, U) { c.insert(k); m.insert(k); }
	static U mk(U k, U) { return k; }
};

template<typename A> struct HashSearch {
	typedef typename A::C C; typedef typename A::M M;
	struct St { C c; M m; };
	Ctx& x; VU keys; const U absent; std::string desc;
	std::unordered_map<uint64_t, char> seen; std::deque<St> q; std::string op; bool big = false;
	HashSearch(Ctx& x, VU k, U absent) : x(x), keys(k), absent(absent) {}
	std::string show(const C& c) {
std::string s = "slots:"; for (auto& e : rep_slots(c, 0)) { U k = U(rep_slot(e) >> (std::is_same<A, MapA>::value ? 32 : 0)); s += k == U(-1) ? " ." : k == U(-2) ? " x" : " " + std::to_string(k); }
		return s + "\nsize " + std::to_string(c.size()) + " deleted " + std::to_string(rep_deleted(c, 0)) + "\nkeys tried: " + [&] { std::string r; for (U k : keys) r += std::to_string(k) + " "; return r; }() + "and " + std::to_string(absent) + "\n";
	}
	void bad(const std::string& w) { x.fail(std::string(A::name()) + ": " + w + " after " + op, {{"state before", desc}}); }
	void same(C& c, const M& m) {
		if (c.size() != m.size() || c.empty() != m.empty()) bad("size " + std::to_string(c.size()) + " instead of " + std::to_string(m.size()));
		size_t n = 0; M left = m;
		for (auto i = c.begin(); i != c.end(); ++i) {
			auto f = left.find(A::key(i)); if (f == left.end()) bad("iteration gives " + std::to_string(A::key(i)) + ", which is not there or was given before");
			if (A::val(i) != A::mval(f)) bad("wrong value for " + std::to_string(A::key(i))); left.erase(f);
			if (++n > m.size()) bad("iteration does not end");
		}
		if (!left.empty()) bad("iteration misses " + std::to_string(A::mkey(left.begin())));
		const C& cc = c;
		for (size_t k = 0; k <= keys.size(); ++k) {
			U key = k < keys.size() ? keys[k] : absent; auto f = m.find(key); auto g = cc.find(key);
			if ((f == m.end()) != (g == cc.end())) bad(std::string("find(") + std::to_string(key) + ") " + (f == m.end() ? "finds it" : "does not find it"));
			if (f != m.end() && (A::key(g) != key || A::val(g) != A::mval(f))) bad("find(" + std::to_string(key) + ") finds another");
			if (c.count(key) != (f != m.end()) || c.contains(key) != (f != m.end())) bad("count(" + std::to_string(key) + ")");
		}
	}
	uint64_t hash(const C& c) { uint64_t h = mix(c.size(), rep_deleted(c, 0)); for (auto& e : rep_slots(c, 0)) h = mix(h, rep_slot(e)); return mix(h, c.capacity()); }
	void add(C& c, M& m) { x.count(C_TRANS); x.count(C_TRACES); same(c, m); uint64_t h = hash(c); if (!seen.insert({h, 1}).second) return; x.state(mix(h, std::strlen(A::name()))); q.push_back({c, m}); }
	template<typename F> void step(const St& s, const char* o, U k, F f) { op = std::string(o) + "(" + std::to_string(k) + ")"; C c = s.c; M m = s.m; f(c, m); add(c, m); }
	uint64_t run(size_t limit, std::vector<St> seeds, int depth) { // breadth first; depth < 0: until closed or the limit
		for (auto& s : seeds) { op = "setup"; add(s.c, s.m); }
		size_t n = 0, level = q.size();
		while (!q.empty() && n < limit) {
			if (depth >= 0 && level == 0) { if (--depth <= 0) break; level = q.size(); }
			St s = q.front(); q.pop_front(); ++n; if (level) --level;
			desc = show(s.c); x.describe(std::string(A::name()) + " about to try every operation on\n" + desc);
			VU ks = keys; ks.push_back(absent);
			for (U k : ks) {
				if (k != absent) {
					step(s, "insert", k, [&](C& c, M& m) { A::put(c, m, k, 1); });
					step(s, "[]=", k, [&](C& c, M& m) { A::set(c, m, k, 2); });
				}
				step(s, "erase", k, [&](C& c, M& m) { c.erase(k); m.erase(k); });
				step(s, "find+erase", k, [&](C& c, M& m) { auto i = c.find(k); if ((i == c.end()) != !m.count(k)) bad("find"); if (i != c.end()) { c.erase(i); m.erase(k); } });
			}
			if (std::is_same<A, MapA>::value) step(s, "[] on a new key", absent, [&](C& c, M& m) { A::set(c, m, absent, 0); c.erase(absent); m.erase(absent); });
			step(s, "erase every other while iterating", 0, [&](C& c, M& m) { size_t n = 0; bool odd = false; for (auto i = c.begin(); i != c.end() && n < 1000; ++n) { if (odd) { m.erase(A::key(i)); i = c.erase(i); } else ++i; odd = !odd; } });
			step(s, "erase all while iterating", 0, [&](C& c, M& m) { size_t n = 0; for (auto i = c.begin(); i != c.end() && n < 1000; ++n) { m.erase(A::key(i)); i = c.erase(i); } });
			step(s, "clear", 0, [&](C& c, M& m) { c.clear(); m.clear(); });
			step(s, "reserve", 0, [&](C& c, M&) { c.reserve(std::max<size_t>(16, c.capacity())); });
			step(s, "swap twice", 0, [&](C& c, M& m) { C d; M e; A::put(d, e, absent, 7); c.swap(d); if (c.size() != 1 || !c.contains(absent)) bad("swap"); d.swap(c); C t = c; c.clear(); c = t; (void)m; });
			std::vector<decltype(A::mk(0, 0))> rg; for (size_t k = 0; k < keys.size(); k += 2) rg.push_back(A::mk(keys[k], 3));
			step(s, "insert of a range", 0, [&](C& c, M& m) { c.insert(rg.begin(), rg.end()); m.insert(rg.begin(), rg.end()); });
			step(s, "assign of a range", 0, [&](C& c, M& m) { c.assign(rg.begin(), rg.end()); m = M(rg.begin(), rg.end()); });
		}
		return n;
	}
};

static std::vector<std::pair<VU, U>> KEYSETS() {
	std::vector<std::pair<VU, U>> v = {
		{{1, 2, 3}, 4}, {{0, 1, 2}, 3}, {{1, 17, 33}, 49}, {{16, 32, 48}, 64}, {{0xFFFFFFFDu, 0, 0x80000000u}, 0x7FFFFFFFu}, {{5, 21, 3000000000u}, 37},
	};
	return v;
}

template<typename A> static void hash_spaces(std::vector<Space>& out, bool thorough) {
	static const auto KS = KEYSETS();
	Space s; s.chunk = 1; s.timeout = 15; s.exit_ok = false;
	// few keys, closed (or the first `limit` representations): every arrangement of tombstones
	s.name = std::string(A::name()) + ".few_keys"; s.size = KS.size();
	size_t limit = thorough ? 400000 : 40000;
	s.fn = [=](uint64_t i, Ctx& c) { HashSearch<A> h(c, KS[i].first, KS[i].second); auto n = h.run(limit, {{}}, -1); c.outcome(mix(i, n)); c.nontrivial(i); };
	out.push_back(s);
	// turnover: one key stays, others come and go until the table has no free slot, in every order of a few
	s.name = std::string(A::name()) + ".turnover"; s.size = 3 * 64;
	s.fn = [=](uint64_t i, Ctx& c) {
		size_t stay = i % 3 + 1, first = i / 3; VU keys; typename A::C t; typename A::M m;
		for (size_t k = 0; k < stay; ++k) { A::put(t, m, U(1000 + k), 1); keys.push_back(U(1000 + k)); }
		HashSearch<A> h(c, keys, 99); std::vector<typename HashSearch<A>::St> seeds;
		// all prefixes of the history "insert k, erase k-1": at each of them every operation is tried, to depth 2
		for (U k = 0; k < 40; ++k) { U key = U(first * 7 + k * (1 + first % 5) + 1); h.desc = h.show(t); c.describe("turnover\n" + h.desc); h.op = "insert"; A::put(t, m, key, 1); h.same(t, m); seeds.push_back({t, m}); h.op = "erase"; t.erase(key); m.erase(key); h.same(t, m); seeds.push_back({t, m}); if (k < 4) { h.keys.push_back(key); } }
		h.run(100000, seeds, 2); c.outcome(mix(i, 77)); c.nontrivial(i);
	};
	out.push_back(s);
	// growth: n keys in the table at each size around the thresholds
	s.name = std::string(A::name()) + ".growth"; s.size = (thorough ? 200 : 70) * 3;
	s.fn = [=](uint64_t i, Ctx& c) {
		size_t n = i / 3; U stride = i % 3 == 0 ? 1 : i % 3 == 1 ? 64 : 0x01010101u; typename A::C t; typename A::M m; VU all;
		HashSearch<A> h(c, {}, 0x7FFFFFF1u); for (size_t k = 0; k < n; ++k) { h.desc = h.show(t); h.op = "insert"; all.push_back(U(k * stride)); A::put(t, m, all.back(), U(k + 1)); }
		h.keys = all; h.same(t, m); VU some; for (size_t k = 0; k < all.size(); k += std::max<size_t>(1, all.size() / 3)) some.push_back(all[k]); some.push_back(0x70000000u); some.push_back(0x60000000u); some.push_back(0x50000000u);
		VU keep = all; h.keys = some; h.run(thorough ? 2000 : 300, {{t, m}}, -1); c.outcome(mix(i, n)); c.nontrivial(i);
	};
	out.push_back(s);
}

// ---- sorted_vector ----
struct ByTens { bool operator()(U a, U b) const { return a / 10 < b / 10; } };
template<typename Cmp> static void sorted_case(uint64_t mask, const VU& keys, Ctx& c, const char* nm) {
	typedef CG3::sorted_vector<U, Cmp> S; typedef std::set<U, Cmp> M; std::string desc = std::string(nm) + " holding"; S s; M m;
	for (size_t k = 0; k < keys.size(); ++k) if (mask >> k & 1) { s.insert(keys[k]); m.insert(keys[k]); desc += " " + std::to_string(keys[k]); }
	c.describe(desc); c.state(mix(mask, std::strlen(nm)));
	auto same = [&](S& a, const M& b, const std::string& op) {
		c.count(C_TRANS); c.count(C_TRACES); VU x(a.begin(), a.end()), y(b.begin(), b.end()); auto bad = [&](std::string w) { c.fail("sorted_vector: " + w + " after " + op, {{"state before", desc}}); };
		if (x != y || a.size() != b.size() || a.empty() != b.empty()) bad("wrong elements");
		if (!x.empty() && (a.front() != y.front() || a.back() != y.back() || *a.rbegin() != y.back())) bad("wrong front or back");
		const S& ca = a;
		for (U k : keys) { auto f = b.find(k); if (a.count(k) != (f != b.end()) || a.contains(k) != (f != b.end()) || (ca.find(k) == ca.end()) != (f == b.end())) bad("find(" + std::to_string(k) + ") wrong");
			if (f != b.end() && *ca.find(k) != *f) bad("find gives another element"); if (f != b.end() && a.find_n(k) != size_t(std::distance(b.begin(), f))) bad("find_n wrong");
			if (std::distance(a.begin(), a.lower_bound(k)) != std::distance(b.begin(), b.lower_bound(k)) || std::distance(ca.begin(), ca.upper_bound(k)) != std::distance(b.begin(), b.upper_bound(k))) bad("bounds of " + std::to_string(k)); }
	};
	same(s, m, "inserting one by one");
	for (U k : keys) {
		{ S a = s; M b = m; auto r = a.insert(k); auto q = b.insert(k); same(a, b, "insert " + std::to_string(k)); if (r.second != q.second || *r.first != *q.first) c.fail("insert returns the wrong thing", {{"state", desc}}); }
		{ S a = s; M b = m; bool r = a.erase(k); bool q = b.erase(k); same(a, b, "erase " + std::to_string(k)); if (r != q) c.fail("erase returns the wrong thing", {{"state", desc}}); }
		{ S a = s; M b = m; a.push_back(k); b.insert(k); same(a, b, "push_back"); }
		const S& cs = s; auto f = cs.find(k); if (f != cs.end()) { S a = s; M b = m; size_t o = a.find_n(k); const S& ca = a; auto nx = a.erase(ca.find(k)); b.erase(k); same(a, b, "erase(iterator)"); if (size_t(nx - ca.begin()) != o) c.fail("erase(iterator) returns the wrong place", {{"state", desc}}); a = s; a.erase_n(o); same(a, b, "erase_n"); }
	}
	// ranges: every subset of the keys (as bit patterns), ascending and descending, with a repeated element
	for (uint64_t r = 0; r < (1ull << keys.size()); ++r) {
		VU up; for (size_t k = 0; k < keys.size(); ++k) if (r >> k & 1) up.push_back(keys[k]);
		VU down(up.rbegin(), up.rend()), twice = down; if (!up.empty()) twice.push_back(down[0]);
		for (const VU* v : {&up, &down, &twice}) {
			// which of several equivalent elements a range insertion keeps is not specified, so only with a strict order
			if (std::is_same<Cmp, ByTens>::value) continue;
			{ S a = s; M b = m; a.insert(v->begin(), v->end()); b.insert(v->begin(), v->end()); same(a, b, "insert of a range"); }
			{ S a = s; M b = m; a.erase(v->begin(), v->end()); for (U k : *v) b.erase(k); same(a, b, "erase of a range"); }
			{ S a = s; M b(v->begin(), v->end()); a.assign(v->data(), v->data() + v->size()); same(a, b, "assign of a range"); }
		}
	}
	if (!m.empty()) { S a = s; M b = m; a.pop_back(); b.erase(std::prev(b.end())); same(a, b, "pop_back"); }
	{ S a = s; S d; d.insert(7); a.swap(d); same(d, m, "swap"); a.clear(); same(a, M(), "clear"); S e; e.assign(static_cast<const S&>(s).begin(), static_cast<const S&>(s).end()); same(e, m, "assign of another"); }
	c.outcome(mask); c.nontrivial(mask);
}

// ---- interval_vector ----
struct IvSearch {
	typedef CG3::interval_vector<U> C; typedef std::set<U> M; Ctx& x; U base; int n; std::string desc, op;
	std::string show(const C& c) { return rep_intervals(c, 0); }
	void bad(const std::string& w) { x.fail("interval_vector: " + w + " after " + op, {{"state before", desc}}); }
	void same(const C& c, const M& m) {
		x.count(C_TRANS); x.count(C_TRACES);
		if (c.size() != m.size() || c.empty() != m.empty()) bad("size " + std::to_string(c.size()) + " instead of " + std::to_string(m.size()));
		VU v; for (auto i = c.begin(); i != c.end(); ++i) { v.push_back(*i); if (v.size() > m.size() + 2) bad("iteration does not end"); }
		if (v != VU(m.begin(), m.end())) bad("wrong elements");
		if (!m.empty() && (c.front() != *m.begin() || c.back() != *m.rbegin())) bad("wrong front or back");
		if (!m.empty()) { VU w; auto i = c.find(*m.rbegin()); for (size_t k = 0; k < m.size(); ++k, --i) w.push_back(*i); if (w != VU(m.rbegin(), m.rend())) bad("wrong elements backwards"); }
		for (int k = 0; k < n; ++k) {
			U t = base + U(k); auto f = m.find(t); auto g = c.find(t);
			if (c.contains(t) != (f != m.end()) || (g == c.end()) != (f == m.end()) || (f != m.end() && *g != t)) bad("find(" + std::to_string(t) + ")");
			auto l = m.lower_bound(t); auto b = c.lower_bound(t);
			if ((l == m.end()) != (b == c.end()) || (l != m.end() && *l != *b)) bad("lower_bound(" + std::to_string(t) + ")");
			if (l != m.end()) { auto nx = b; ++nx; auto ml = std::next(l); if ((ml == m.end()) != (nx == c.end()) || (ml != m.end() && *ml != *nx)) bad("the element after lower_bound(" + std::to_string(t) + ")"); }
		}
	}
	std::vector<std::pair<C, M>> all;
	void run() {
		std::set<std::string> seen; std::deque<std::pair<C, M>> q; auto add = [&](const C& c, const M& m) { same(c, m); auto s = show(c); if (!seen.insert(s).second) return; x.state(std::hash<std::string>()(s)); q.push_back({c, m}); };
		op = "nothing"; add(C(), M());
		while (!q.empty()) {
			auto s = q.front(); q.pop_front(); all.push_back(s); desc = show(s.first); x.describe(desc);
			for (int k = 0; k < n; ++k) {
				U t = base + U(k);
				{ op = "insert " + std::to_string(t); C c = s.first; M m = s.second; bool r = c.insert(t); bool w = m.insert(t).second; if (r != w) bad("wrong result"); add(c, m); }
				{ op = "push_back " + std::to_string(t); C c = s.first; M m = s.second; c.push_back(t); m.insert(t); add(c, m); }
				{ op = "erase " + std::to_string(t); C c = s.first; M m = s.second; bool r = c.erase(t); bool w = m.erase(t); if (r != w) bad("wrong result"); add(c, m); }
			}
			{ op = "clear"; C c = s.first; c.clear(); add(c, M()); }
			{ op = "construction"; VU v(s.second.rbegin(), s.second.rend()); C c(v.begin(), v.end()); add(c, s.second); C d; d.insert(s.second.begin(), s.second.end()); add(d, s.second); }
		}
	}
	void meet(size_t from, size_t step) {
		for (size_t i = from; i < all.size(); i += step) for (auto& b : all) {
			auto& a = all[i]; M m; std::set_intersection(a.second.begin(), a.second.end(), b.second.begin(), b.second.end(), std::inserter(m, m.end()));
			desc = show(a.first) + "\nand " + show(b.first); op = "intersect"; C c = a.first.intersect(b.first); same(c, m);
		}
	}
};

int main(int argc, char** argv) {
	CheckDef d; d.property = "C26"; d.level = "model_checking"; d.rule = "every operation in every reached representation";
	d.bounds = "hash map and set: 6 key sets of 3 keys plus an absent one, the first 40k representations each (thorough 400k), all prefixes of 192 turnover histories to depth 2, tables of 0..69 keys (thorough 199); sorted_vector: all subsets of 7 keys with all ranges; interval_vector: all representations over 9 numbers (thorough 11) at 3 places, all pairs intersected; bloomish: all pairs and triples";
	return explore_main(argc, argv, d, [](bool thorough) {
		std::vector<Space> v; hash_spaces<MapA>(v, thorough); hash_spaces<SetA>(v, thorough);
		Space s; s.chunk = 8; s.timeout = 60;
		static const VU K7 = {0, 1, 2, 5, 9, 0x80000000u, 0xFFFFFFFFu}, KT = {3, 10, 11, 19, 25, 40, 47};
		s.name = "sorted.less"; s.size = 128; s.fn = [](uint64_t i, Ctx& c) { sorted_case<std::less<U>>(i, K7, c, "less"); }; v.push_back(s);
		s.name = "sorted.greater"; s.fn = [](uint64_t i, Ctx& c) { sorted_case<std::greater<U>>(i, K7, c, "greater"); }; v.push_back(s);
		s.name = "sorted.equivalent"; s.fn = [](uint64_t i, Ctx& c) { sorted_case<ByTens>(i, KT, c, "by tens"); }; v.push_back(s);
		s.name = "interval"; s.size = 3 * 16; s.chunk = 1;
		s.fn = [=](uint64_t i, Ctx& c) { int n = thorough ? 11 : 9; IvSearch h{c, i / 16 == 0 ? 0u : i / 16 == 1 ? 1000u : U(0) - U(n), n}; h.run(); h.meet(i % 16, 16); c.outcome(mix(i, h.all.size())); c.nontrivial(i); };
		v.push_back(s);
		s.name = "bloomish"; s.size = 256; s.chunk = 8;
		s.fn = [](uint64_t i, Ctx& c) {
			auto val = [](U k) { return (k & 7) | ((k >> 3 & 3) << 10) | ((k >> 5 & 7) << 28); };
			CG3::bloomish<U> e; for (U a = 0; a < 256; ++a) { c.count(C_TRANS); c.count(C_TRACES); if (val(a) && e.matches(val(a))) c.fail("an empty filter matches"); }
			for (U a = 0; a < 256; ++a) for (U b = 0; b < 256; b += 3) { CG3::bloomish<U> f; f.insert(val(U(i))); f.insert(val(a)); f.insert(val(b)); auto g = f; CG3::bloomish<U> h; h = f; c.count(C_TRANS); c.count(C_TRACES);
				for (U k : {U(i), a, b}) if (!f.matches(val(k)) || !g.matches(val(k)) || !h.matches(val(k))) c.fail("bloomish: an inserted value is denied", {{"values", std::to_string(val(U(i))) + " " + std::to_string(val(a)) + " " + std::to_string(val(b))}});
				f.clear(); if (f.matches(0xFFFFFFFFu)) c.fail("bloomish: a cleared filter matches"); }
			c.outcome(i); c.nontrivial(i); c.state(mix(i, 5));
		};
		v.push_back(s);
		return v;
	});
}
