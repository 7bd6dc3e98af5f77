// Reference model of CG-3 (independent, deliberately naive: no indexes, no caches, no hashes, no bytecode).
// It parses the subset of the grammar language and of the stream format that the checks enumerate and executes it
// one rule application at a time. Every rule is tried on every cohort of the window.
#pragma once
#include <cstdint>
#include <functional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace mcg {
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; }; // outside the modelled subset
struct Ambiguous : std::runtime_error { using std::runtime_error::runtime_error; };   // outcome unspecified (tie broken by hash)
struct Fatal : std::runtime_error { using std::runtime_error::runtime_error; };       // implementation must refuse / error exit

struct Opts {
	bool trace = false, unsafe = false, ordered = false, always_span = false, no_pass_origin = false;
	bool no_mappings = false, no_corrections = false, no_before = false, no_sections = false, no_after = false;
	bool dep_allow_loops = false, dep_block_crossing = false, dep_original = false, dep_absolute = false;
	bool no_magic = false, split_mappings = false, unique_tags = false, show_end_tags = false, print_ids = false;
	bool trace_no_removed = false, trace_name_only = false, unicode_tags = false;
	std::vector<uint32_t> sections;
	uint32_t single_run = 0, num_windows = 2, soft_limit = 300, hard_limit = 500, dep_delimit = 0;
	std::string only_rule, nrules, nrules_v; // --rule by name or line, name filters
	std::set<uint32_t> only_lines, trace_lines; // --rules, --trace=
	std::string mapping_prefix, text_delim; bool has_text_delim = false;
};
struct Stats {
	uint64_t transitions = 0;
	std::function<void(uint64_t)> on_state; // called with a hash of the window after every effective rule application
	bool changed = false;                   // some rule changed something
	bool ambiguous_order = false;
	std::set<uint32_t> ambiguous;           // global numbers of cohorts whose printed reading order is unspecified
};
// options in CLI spelling -> Opts; throws Unsupported
Opts parse_args(const std::vector<std::string>& args);
std::string run(const std::string& grammar, const std::string& input, const Opts& o, Stats* st = nullptr);

// canonical form of an output: sorts runs of STREAMCMD var lines and relation tokens; sorts the readings of all
// cohorts when `multiset` is set
std::string canon(const std::string& out, bool multiset = false);
}
