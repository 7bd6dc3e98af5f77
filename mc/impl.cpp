#include "impl.hpp"
#include "stdafx.hpp"
#include "Grammar.hpp"
#include "TextualParser.hpp"
#include "GrammarWriter.hpp"
#include "BinaryGrammar.hpp"
#include "FormatConverter.hpp"
#include "options.hpp"
#include "options_parser.hpp"
#include "Profiler.hpp"
#include <sstream>
#include <cstring>

using namespace CG3;
using namespace Options;

namespace impl {
static options_t pristine, pristine_gd, pristine_go;
static bool inited = false;
static std::ostringstream* sink() { static std::ostringstream s; return &s; }

void init() {
	if (inited) return;
	inited = true;
	UErrorCode status = U_ZERO_ERROR;
	u_init(&status);
	ucnv_setDefaultName("UTF-8");
	uloc_setDefault("en_US_POSIX", &status);
	pristine = options;
	pristine_gd = grammar_options_default;
	pristine_go = grammar_options_override;
}

struct Gram {
	Grammar g;
	std::ostringstream err;
	options_t opts_d, opts_o; // options stated in the grammar
	std::unique_ptr<Profiler> prof;
};
void GramDel::operator()(Gram* g) const { delete g; }

static void set_args(const Args& args) {
	options = pristine;
	std::vector<std::string> st(args);
	std::vector<char*> av;
	static char prog[] = "vislcg3";
	av.push_back(prog);
	for (auto& s : st) av.push_back(&s[0]);
	av.push_back(nullptr);
	int n = u_parseArgs((int)av.size() - 1, av.data(), options.size(), options.data());
	if (n < 0) throw std::runtime_error("bad harness args");
}

GramP load(const std::string& bytes, const Args& args, std::string* err) {
	init();
	grammar_options_default = pristine_gd;
	grammar_options_override = pristine_go;
	set_args(args);
	GramP r(new Gram);
	auto& g = r->g;
	g.ux_stderr = &r->err;
	g.ux_stdout = sink();
	std::unique_ptr<IGrammarParser> p;
	if (bytes.size() < 4) {
		if (err) *err = "too short";
		return nullptr;
	}
	if (is_cg3b(bytes)) p.reset(new BinaryGrammar(g, r->err));
	else {
		auto t = new TextualParser(g, r->err, options[DUMP_AST].doesOccur || options[PROFILING].doesOccur);
		p.reset(t);
		if (options[PROFILING].doesOccur) { r->prof.reset(new Profiler); t->profiler = r->prof.get(); }
	}
	auto rx = [&](int o) -> URegularExpression* {
		if (!options[o].doesOccur) return nullptr;
		UErrorCode st = U_ZERO_ERROR;
		auto s = icu::UnicodeString::fromUTF8(options[o].value);
		return uregex_open(s.getBuffer(), s.length(), 0, nullptr, &st);
	};
	p->nrules = rx(NRULES);
	p->nrules_inv = rx(NRULES_INV);
	p->setCompatible(options[VISLCGCOMPAT].doesOccur);
	if (p->parse_grammar(bytes.data(), bytes.size())) {
		if (err) *err = r->err.str();
		return nullptr;
	}
	if (!g.cmdargs.empty()) {
		auto a = g.cmdargs;
		a.push_back(0);
		parse_opts(a.data(), grammar_options_default);
	}
	if (!g.cmdargs_override.empty()) {
		auto a = g.cmdargs_override;
		a.push_back(0);
		parse_opts(a.data(), grammar_options_override);
	}
	r->opts_d = grammar_options_default;
	r->opts_o = grammar_options_override;
	if (options[DUMP_AST].doesOccur) dynamic_cast<TextualParser*>(p.get())->print_ast(*sink());
	if (r->prof) {
		auto& buf = r->prof->buf;
		buf.str("");
		buf.clear();
		dynamic_cast<TextualParser*>(p.get())->print_ast(buf);
		r->prof->grammar_ast = r->prof->addString(buf.str());
	}
	g.reindex();
	p.reset();
	if (err) *err = r->err.str();
	return r;
}
std::string write_text(Gram& g) {
	std::ostringstream o, e;
	GrammarWriter w(g.g, e);
	w.writeGrammar(o);
	return o.str();
}
std::string write_binary(Gram& g) {
	std::ostringstream o, e;
	BinaryGrammar w(g.g, e);
	w.writeBinaryGrammar(o);
	return o.str();
}

struct App {
	std::ostringstream err;
	std::unique_ptr<FormatConverter> a;
};
void AppDel::operator()(App* a) const { delete a; }

static UConverter* cli_conv() {
	static UConverter* c = nullptr;
	if (!c) { UErrorCode st = U_ZERO_ERROR; c = ucnv_open("UTF-8", &st); }
	return c;
}

AppP applicator(Gram& g, const Args& args) {
	set_args(args);
	for (size_t i = 0; i < options.size(); ++i) {
		if (g.opts_d[i].doesOccur && !options[i].doesOccur) options[i] = g.opts_d[i];
		if (g.opts_o[i].doesOccur) options[i] = g.opts_o[i];
	}
	AppP r(new App);
	r->a.reset(new FormatConverter(r->err));
	auto& a = *r->a;
	a.fmt_input = CG3SF_CG;
	if (options[IN_NICELINE].doesOccur) a.fmt_input = CG3SF_NICELINE;
	else if (options[IN_APERTIUM].doesOccur) a.fmt_input = CG3SF_APERTIUM;
	else if (options[IN_FST].doesOccur) a.fmt_input = CG3SF_FST;
	else if (options[IN_PLAIN].doesOccur) a.fmt_input = CG3SF_PLAIN;
	else if (options[IN_JSONL].doesOccur) a.fmt_input = CG3SF_JSONL;
	else if (options[IN_BINARY].doesOccur) a.fmt_input = CG3SF_BINARY;
	a.setGrammar(&g.g);
	a.setOptions(cli_conv());
	if (g.prof) a.profiler = g.prof.get();
	a.fmt_output = CG3SF_CG;
	if (options[OUT_APERTIUM].doesOccur) { a.fmt_output = CG3SF_APERTIUM; a.unicode_tags = true; }
	else if (options[OUT_FST].doesOccur) a.fmt_output = CG3SF_FST;
	else if (options[OUT_NICELINE].doesOccur) a.fmt_output = CG3SF_NICELINE;
	else if (options[OUT_PLAIN].doesOccur) a.fmt_output = CG3SF_PLAIN;
	else if (options[OUT_JSONL].doesOccur) a.fmt_output = CG3SF_JSONL;
	else if (options[OUT_BINARY].doesOccur) a.fmt_output = CG3SF_BINARY;
	return r;
}
std::string run_app(App& a, const std::string& input) {
	std::istringstream is(input);
	std::ostringstream os;
	a.a->runGrammarOnText(is, os);
	return os.str();
}
std::string run_stream(Gram& g, std::istream& in, const Args& args, std::string* err) {
	auto a = applicator(g, args);
	std::ostringstream os;
	a->a->runGrammarOnText(in, os);
	if (err) *err = a->err.str();
	return os.str();
}
std::string run(Gram& g, const std::string& input, const Args& args, std::string* err) {
	std::istringstream is(input);
	return run_stream(g, is, args, err);
}
std::string once(const std::string& grammar, const std::string& input, const Args& args) {
	std::string e;
	auto g = load(grammar, args, &e);
	if (!g) throw std::runtime_error("grammar rejected: " + e);
	return run(*g, input, args);
}

struct ChunkBuf : std::streambuf {
	std::string s;
	std::vector<size_t> cuts;
	size_t k = 0, pos = 0;
	ChunkBuf(const std::string& x, std::vector<size_t> c) : s(x), cuts(std::move(c)) {}
	int_type underflow() override {
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (pos >= s.size()) return traits_type::eof();
		size_t n = k < cuts.size() ? cuts[k++] : s.size() - pos;
		if (n == 0) n = 1;
		if (pos + n > s.size()) n = s.size() - pos;
		setg(&s[pos], &s[pos], &s[pos] + n);
		pos += n;
		return traits_type::to_int_type(*gptr());
	}
};
struct ChunkStream : std::istream {
	ChunkBuf b;
	ChunkStream(const std::string& s, std::vector<size_t> c) : std::istream(nullptr), b(s, std::move(c)) { rdbuf(&b); }
};
std::unique_ptr<std::istream> chunked(const std::string& s, std::vector<size_t> cuts) {
	return std::unique_ptr<std::istream>(new ChunkStream(s, std::move(cuts)));
}

static cg3_sformat fmt_of(Fmt f) { static const cg3_sformat m[] = {CG3SF_CG, CG3SF_NICELINE, CG3SF_APERTIUM, CG3SF_FST, CG3SF_PLAIN, CG3SF_JSONL, CG3SF_BINARY}; return m[f]; }
std::string convert(const std::string& input, Fmt in, Fmt out, const ConvOpts& o, std::string* err) {
	init();
	std::ostringstream e, os;
	FormatConverter a(e);
	Grammar& g = a.conv_grammar;
	if (o.ordered) g.ordered = true;
	std::istringstream raw(input);
	std::istream* is = &raw;
	std::unique_ptr<std::istream> autos;
	if (in == F_AUTO) { autos = a.detectFormat(raw); is = autos.get(); }
	else a.fmt_input = fmt_of(in);
	if (o.sub_ltr) g.sub_readings_ltr = true;
	if (o.prefix) g.mapping_prefix = o.prefix;
	a.fmt_output = fmt_of(out);
	if (out == F_APERTIUM || o.unicode_tags) a.unicode_tags = true;
	if (o.deleted) a.pipe_deleted = true;
	if (o.no_break) a.add_spacing = false;
	if (o.parse_dep) a.parse_dep = a.has_dep = true;
	a.is_conv = true;
	a.trace = true;
	a.verbosity_level = 0;
	a.runGrammarOnText(*is, os);
	if (err) *err = e.str();
	return os.str();
}
std::string detect(const std::string& head) {
	init();
	switch (CG3::detectFormat(head)) {
	case CG3SF_CG: return "cg"; case CG3SF_NICELINE: return "niceline"; case CG3SF_APERTIUM: return "apertium"; case CG3SF_FST: return "fst";
	case CG3SF_PLAIN: return "plain"; case CG3SF_JSONL: return "jsonl"; case CG3SF_BINARY: return "binary"; default: return "invalid";
	}
}
}
