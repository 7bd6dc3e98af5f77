// Exhaustive-enumeration driver shared by all checks.
//
// A check declares one or more finite Spaces. Every index of every space is executed (no sampling, no early
// success). Work is sharded over forked workers in fixed chunks; every chunk starts from the same pristine
// parent image, so the in-process history a case sees is a function of (space, index) only.
// A case that fails (oracle mismatch, crash, unexpected exit, hang) is replayed alone and then with its chunk
// prefix before it is reported; the replay artefact is written to /verif/replay/.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

struct CaseFail : std::runtime_error {
	std::map<std::string, std::string> files;
	CaseFail(const std::string& what, std::map<std::string, std::string> f = {}) : std::runtime_error(what), files(std::move(f)) {}
};

struct ExitCalled { int code; }; // thrown when the code under test calls exit()

struct Ctx {
	// counters live in shared memory
	void outcome(uint64_t h);                  // a distinct observed outcome (hash)
	void outcome(const std::string& s);
	void state(uint64_t h);                    // a distinct model state
	void count(int ctr, uint64_t n = 1);
	void nontrivial(uint64_t h);               // this case was non-trivial; h identifies it
	void sample(const std::string& s);         // kept for the evidence file if space is left
	bool replaying = false;
	// text describing the current case, stored in shared memory before the code under test runs, so that a
	// crash can be reported with its input
	void describe(const std::string& s);
	[[noreturn]] void fail(const std::string& what, std::map<std::string, std::string> files = {}) { throw CaseFail(what, std::move(files)); }
};
enum { C_EVAL, C_TRANS, C_TRACES, C_USER0, C_USER1, C_USER2, C_USER3, C_USER4, C_USER5, C_MAX = 16 };

struct Space {
	std::string name;
	uint64_t size;
	std::function<void(uint64_t, Ctx&)> fn;
	uint32_t chunk = 500;      // cases per forked child
	double timeout = 8;       // seconds without progress before a case is a suspected hang
	bool exit_ok = false;      // the code under test may exit() in this space (otherwise it is a violation)
};

struct CheckDef {
	std::string property;
	std::string level;                 // exploration | model_checking | fault_enumeration
	std::string rule;                  // for exploration evidence
	std::vector<std::string> assumptions;
	std::vector<std::pair<std::string, int>> extra_counters; // evidence name -> counter
	std::string bounds;
};

// argv: [--tier quick|thorough] [--replay space index] [--only space] ; env VERIF_TIER, VERIF_SEED
int explore_main(int argc, char** argv, const CheckDef& def, std::function<std::vector<Space>(bool thorough)> spaces);

// helper: mixed-radix decoder for enumerations
struct Mix {
	uint64_t v;
	explicit Mix(uint64_t i) : v(i) {}
	uint64_t operator()(uint64_t radix) { uint64_t r = v % radix; v /= radix; return r; }
	template <class T> const T& pick(const std::vector<T>& c) { return c[(*this)(c.size())]; }
};
uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull);
