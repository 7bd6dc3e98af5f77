// Thin driver of the code under test, following /repo/src/main.cpp but with in-memory streams.
#pragma once
#include <istream>
#include <memory>
#include <string>
#include <vector>

namespace impl {
using Args = std::vector<std::string>;
void init();                     // call once in the parent, before forking

struct Gram;                     // a loaded grammar
struct GramDel { void operator()(Gram*) const; };
using GramP = std::unique_ptr<Gram, GramDel>;

// Load a grammar (text or binary) as vislcg3 does. Null if the parser rejects it. `err` gets the diagnostics.
GramP load(const std::string& bytes, const Args& args = {}, std::string* err = nullptr);
std::string write_text(Gram& g);
std::string write_binary(Gram& g);

// Run the input through the grammar with a fresh applicator
std::string run(Gram& g, const std::string& input, const Args& args = {}, std::string* err = nullptr);
std::string run_stream(Gram& g, std::istream& in, const Args& args = {}, std::string* err = nullptr);

// An applicator that can be reused for several inputs
struct App;
struct AppDel { void operator()(App*) const; };
using AppP = std::unique_ptr<App, AppDel>;
AppP applicator(Gram& g, const Args& args = {});
std::string run_app(App& a, const std::string& input);

// load + run; throws std::runtime_error if the grammar is rejected
std::string once(const std::string& grammar, const std::string& input, const Args& args = {});

// cg-conv. F_AUTO as input format lets it guess.
enum Fmt { F_AUTO = -1, F_CG, F_NICELINE, F_APERTIUM, F_FST, F_PLAIN, F_JSONL, F_BINARY };
struct ConvOpts { bool unicode_tags = false, deleted = false, no_break = false, parse_dep = false, ordered = false, sub_ltr = false; char16_t prefix = 0; };
std::string convert(const std::string& input, Fmt in, Fmt out, const ConvOpts& o = {}, std::string* err = nullptr);
std::string detect(const std::string& head); // name of the guessed format

// an istream that hands out at most `n` bytes per read
std::unique_ptr<std::istream> chunked(const std::string& s, std::vector<size_t> cuts);
}
