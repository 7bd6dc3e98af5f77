#include "meta.hpp"
#include <unordered_set>
#define EACH(X) X(C01) X(C02) X(C03) X(C04) X(C05) X(C06) X(C07) X(C08) X(C09) X(C10) X(C11) X(C12) X(C13) X(C14)
#define DECL(c) int main_##c(int, char**);
EACH(DECL)
bool usable(const std::string& g, const std::string& in, const impl::Args& args) {
	mcg::Stats st; st.on_state = [](uint64_t) {};
	try { mcg::run(g, in, mcg::parse_args(args), &st); } catch (mcg::Ambiguous& e) { return std::string(e.what()).compare(0, 7, "endless"); } catch (std::exception&) {}
	return true;
}
static std::vector<Corpus> all; static std::string cur; static bool deep;
void collect(const std::string& name, SV g, SV in, std::vector<impl::Args> args, std::vector<Case> cs) { all.push_back({cur, name, std::move(g), std::move(in), std::move(args), std::move(cs)}); }
void collect_prop(const std::string& prop, std::function<std::vector<Space>(bool)> f) { cur = prop; f(deep); }
const std::vector<Corpus>& corpora(bool thorough) {
	if (all.empty()) { deep = thorough;
#define RUN(c) main_##c(0, nullptr);
	EACH(RUN) }
	return all;
}
std::vector<Space> corpus_spaces(bool thorough, const std::string& label, size_t pq, size_t pt, std::function<void(Ctx&, const std::string&, const SV&, const impl::Args&)> fn, std::function<bool(const Corpus&)> use) {
	std::vector<Space> out; size_t per = thorough ? pt : pq;
	auto seen = std::make_shared<std::unordered_set<std::string>>();
	for (auto& c : corpora(false)) {
		if (use && !use(c)) continue;
		// grammars that have already been covered by an earlier corpus with other inputs are kept: the inputs differ
		Space s; s.name = label + c.prop + "." + c.name; s.chunk = 400;
		const Corpus* k = &c;
		if (!c.cs.empty()) { s.size = c.cs.size(); s.fn = [=](uint64_t i, Ctx& x) { fn(x, k->cs[i].g, SV{k->cs[i].in}, k->cs[i].a); }; }
		else {
			// every grammar with every option set, on `per` inputs taken in turn so that all inputs are used
			size_t na = c.args.size(); s.size = c.g.size() * na;
			s.fn = [=](uint64_t i, Ctx& x) {
				const std::string& g = k->g[i / na]; const impl::Args& a = k->args[i % na]; SV in; size_t n = k->in.size();
				if (!per || per >= n) in = k->in; else for (size_t j = 0; j < per; ++j) in.push_back(k->in[(i * per + j) % n]);
				fn(x, g, in, a);
			};
		}
		out.push_back(s);
	}
	return out;
}
