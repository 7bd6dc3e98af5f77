#include "explore.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using Clock = std::chrono::steady_clock;
static const uint64_t TABN = 1ull << 22;
static const int MAXW = 64;

struct WSlot {
	std::atomic<uint64_t> cur;     // index being executed +1 (0 = none)
	std::atomic<uint64_t> beat;    // bumped per case
	char desc[16384];
};
struct Shared {
	std::atomic<uint64_t> ctr[C_MAX];
	std::atomic<uint64_t> n_out, n_state, n_nontriv, tab_full;
	std::atomic<uint64_t> next_chunk;
	std::atomic<uint32_t> n_viol;
	std::atomic<uint32_t> n_samples;
	char samples[8][1600];
	WSlot slot[MAXW];
	std::atomic<uint64_t> tab_out[TABN], tab_state[TABN], tab_nt[TABN];
};
static Shared* S = nullptr;
static int my_slot = 0;
static bool in_replay = false;

uint64_t fnv(const std::string& s, uint64_t h) {
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h ? h : 1;
}
static bool tab_insert(std::atomic<uint64_t>* t, uint64_t h) {
	if (!h) h = 1;
	uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 42;
	for (int n = 0; n < 256; ++n, i = (i + 1) & (TABN - 1)) {
		uint64_t v = t[i].load(std::memory_order_relaxed);
		if (v == h) return false;
		if (v == 0) {
			if (t[i].compare_exchange_strong(v, h)) return true;
			if (v == h) return false;
		}
	}
	S->tab_full++;
	return false;
}
void Ctx::outcome(uint64_t h) { if (!in_replay && tab_insert(S->tab_out, h)) S->n_out++; }
void Ctx::outcome(const std::string& s) { outcome(fnv(s)); }
void Ctx::state(uint64_t h) { if (!in_replay && tab_insert(S->tab_state, h)) S->n_state++; }
void Ctx::nontrivial(uint64_t h) { if (!in_replay && tab_insert(S->tab_nt, h)) S->n_nontriv++; }
void Ctx::count(int c, uint64_t n) { if (!in_replay) S->ctr[c] += n; }
void Ctx::sample(const std::string& s) {
	if (in_replay || S->n_samples >= 6) return;
	uint32_t k = S->n_samples++;
	if (k >= 6) return;
	strncpy(S->samples[k], s.c_str(), sizeof(S->samples[k]) - 1);
}
void Ctx::describe(const std::string& s) {
	auto& d = S->slot[my_slot].desc;
	size_t n = std::min(s.size(), sizeof(d) - 1);
	memcpy(d, s.data(), n);
	d[n] = 0;
}

// exit() from the code under test is turned into an exception (link with -Wl,--wrap=exit)
static thread_local bool armed = false;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) {
	if (armed) throw ExitCalled{code};
	__real_exit(code);
}

struct Failure {
	std::string what;
	std::map<std::string, std::string> files;
};

static void put(std::string& b, const std::string& s) {
	uint64_t n = s.size();
	b.append((char*)&n, 8);
	b += s;
}
static bool get(const std::string& b, size_t& p, std::string& s) {
	uint64_t n;
	if (p + 8 > b.size()) return false;
	memcpy(&n, b.data() + p, 8);
	p += 8;
	if (p + n > b.size()) return false;
	s = b.substr(p, n);
	p += n;
	return true;
}

// Runs one case in this process; returns empty string on success
static bool run_case(const Space& sp, uint64_t i, Failure& f) {
	Ctx c;
	c.replaying = in_replay;
	S->slot[my_slot].desc[0] = 0;
	S->slot[my_slot].cur = i + 1;
	S->slot[my_slot].beat++;
	try {
		armed = true;
		sp.fn(i, c);
		armed = false;
	}
	catch (CaseFail& e) {
		armed = false;
		f.what = e.what();
		f.files = e.files;
		return false;
	}
	catch (ExitCalled& e) {
		armed = false;
		if (!sp.exit_ok) {
			f.what = "the code under test called exit(" + std::to_string(e.code) + ")";
			return false;
		}
	}
	catch (std::exception& e) {
		armed = false;
		f.what = std::string("uncaught exception: ") + e.what();
		return false;
	}
	catch (...) {
		armed = false;
		f.what = "uncaught exception";
		return false;
	}
	return true;
}

static int quiet_fd = -1;
static void child_setup() {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (quiet_fd >= 0 && !getenv("MC_VERBOSE")) { dup2(quiet_fd, 2); }
	// generous memory bound: a runaway allocation must kill the case, not the sandbox
#if !defined(__SANITIZE_ADDRESS__)
	rlimit rl{6ull << 30, 6ull << 30};
	setrlimit(RLIMIT_AS, &rl);
#endif
}

// fork a child running [from,to); returns list of failures through a pipe. Returns the index of abnormal death, or UINT64_MAX.
struct ChildRes {
	std::vector<std::pair<uint64_t, Failure>> fails;
	uint64_t died_at = UINT64_MAX;
	std::string death;
};
static ChildRes run_range(const Space& sp, uint64_t from, uint64_t to, double tmo, int max_fails) {
	ChildRes res;
	char fn[] = "/tmp/mcXXXXXX";
	int fd = mkstemp(fn);
	unlink(fn);
	S->slot[my_slot].cur = 0;
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(3); }
	if (pid == 0) {
		child_setup();
		setpgid(0, 0);
		int nf = 0;
		for (uint64_t i = from; i < to && nf < max_fails; ++i) {
			Failure f;
			if (!run_case(sp, i, f)) {
				++nf;
				std::string b;
				put(b, std::to_string(i));
				put(b, f.what);
				put(b, std::to_string(f.files.size()));
				for (auto& kv : f.files) { put(b, kv.first); put(b, kv.second); }
				size_t off = 0;
				while (off < b.size()) { ssize_t w = write(fd, b.data() + off, b.size() - off); if (w <= 0) break; off += w; }
			}
		}
		S->slot[my_slot].cur = 0;
		_exit(0);
	}
	uint64_t last = S->slot[my_slot].beat;
	auto t0 = Clock::now();
	int st = 0;
	int us = 200;
	bool killed = false;
	while (true) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		usleep(us);
		if (us < 5000) us = us * 3 / 2;
		uint64_t b = S->slot[my_slot].beat;
		if (b != last) { last = b; t0 = Clock::now(); }
		else if (std::chrono::duration<double>(Clock::now() - t0).count() > tmo) {
			kill(-pid, SIGKILL);
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			killed = true;
			break;
		}
	}
	kill(-pid, SIGKILL); // stray grandchildren
	if (killed) {
		res.died_at = S->slot[my_slot].cur ? S->slot[my_slot].cur - 1 : from;
		res.death = "no progress for " + std::to_string((int)tmo) + " s (hang)";
	}
	else if (WIFSIGNALED(st)) {
		res.died_at = S->slot[my_slot].cur ? S->slot[my_slot].cur - 1 : from;
		res.death = std::string("killed by signal ") + strsignal(WTERMSIG(st));
	}
	else if (WEXITSTATUS(st) != 0) {
		res.died_at = S->slot[my_slot].cur ? S->slot[my_slot].cur - 1 : from;
		res.death = "process exited with status " + std::to_string(WEXITSTATUS(st));
	}
	std::string b;
	lseek(fd, 0, SEEK_SET);
	char buf[65536];
	ssize_t n;
	while ((n = read(fd, buf, sizeof buf)) > 0) b.append(buf, n);
	close(fd);
	size_t p = 0;
	std::string s;
	while (p < b.size()) {
		Failure f;
		if (!get(b, p, s)) break;
		uint64_t i = strtoull(s.c_str(), 0, 10);
		if (!get(b, p, f.what)) break;
		if (!get(b, p, s)) break;
		size_t k = strtoull(s.c_str(), 0, 10);
		bool ok = true;
		for (size_t j = 0; j < k && ok; ++j) {
			std::string a, v;
			ok = get(b, p, a) && get(b, p, v);
			f.files[a] = v;
		}
		if (!ok) break;
		res.fails.emplace_back(i, f);
	}
	return res;
}

struct Known { std::string property, needle, what; };
static std::vector<Known> load_known(const std::string& prop) {
	std::vector<Known> v;
	std::ifstream f("/verif/known_findings.txt");
	std::string l;
	while (std::getline(f, l)) {
		// known: property=<id> key=<space>:<index-independent case key> <what>
		if (l.rfind("known: ", 0) != 0) continue;
		std::istringstream is(l.substr(7));
		std::string a, k;
		is >> a >> k;
		if (a != "property=" + prop || k.rfind("key=", 0) != 0) continue;
		std::string rest;
		std::getline(is, rest);
		v.push_back({prop, k.substr(4), rest.empty() ? rest : rest.substr(1)});
	}
	return v;
}
static std::string jesc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

int explore_main(int argc, char** argv, const CheckDef& def, std::function<std::vector<Space>(bool)> mk) {
	auto T0 = Clock::now();
	const char* te = getenv("VERIF_TIER");
	std::string tier = te && *te ? te : "quick";
	std::string only, rspace;
	uint64_t rindex = 0;
	bool replay = false;
	int jobs = 8;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--tier") tier = argv[++i];
		else if (a == "--only") only = argv[++i];
		else if (a == "--jobs") jobs = atoi(argv[++i]);
		else if (a == "--replay") { replay = true; rspace = argv[++i]; rindex = strtoull(argv[++i], 0, 10); }
	}
	bool thorough = tier == "thorough";
	S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) { perror("mmap"); return 3; }
	quiet_fd = open("/dev/null", O_WRONLY);
	auto spaces = mk(thorough);

	if (replay) {
		for (auto& sp : spaces) {
			if (sp.name != rspace) continue;
			in_replay = true;
			Failure f;
			bool ok = run_case(sp, rindex, f);
			std::cout << "case " << rspace << " " << rindex << "\n" << S->slot[0].desc << "\n";
			if (ok) { std::cout << "OK\n"; return 0; }
			std::cout << "FAIL: " << f.what << "\n";
			for (auto& kv : f.files) std::cout << "---- " << kv.first << "\n" << kv.second << "\n";
			return 1;
		}
		std::cerr << "no such space\n";
		return 3;
	}

	std::string rdir = "/verif/replay";
	mkdir(rdir.c_str(), 0777);
	uint64_t total = 0;
	struct V { const Space* sp; uint64_t idx; Failure f; std::string desc; std::string how; };
	std::vector<V> viols;
	const uint32_t MAXV = 12;
	std::string spaces_json;
	bool aborted = false;

	for (auto& sp : spaces) {
		if (!only.empty() && sp.name.find(only) == std::string::npos) continue;
		if (aborted) break;
		auto ts = Clock::now();
		uint64_t ev0 = S->ctr[C_EVAL];
		total += sp.size;
		S->next_chunk = 0;
		uint64_t nchunks = (sp.size + sp.chunk - 1) / sp.chunk;
		std::vector<pid_t> ws;
		std::vector<int> fds;
		int nw = (int)std::min<uint64_t>(jobs, nchunks);
		for (int w = 0; w < nw; ++w) {
			char fn[] = "/tmp/mwXXXXXX";
			int fd = mkstemp(fn);
			unlink(fn);
			fflush(stdout);
			pid_t pid = fork();
			if (pid == 0) {
				prctl(PR_SET_PDEATHSIG, SIGKILL);
				my_slot = w;
				while (S->n_viol < MAXV) {
					uint64_t ch = S->next_chunk++;
					if (ch >= nchunks) break;
					uint64_t a = ch * sp.chunk, b = std::min<uint64_t>(sp.size, a + sp.chunk), start = a;
					while (start < b && S->n_viol < MAXV) {
						auto r = run_range(sp, start, b, sp.timeout, 3);
						uint64_t ndone = (r.died_at == UINT64_MAX ? b : r.died_at + 1) - start;
						std::vector<std::pair<uint64_t, Failure>> cand = r.fails;
						if (r.died_at != UINT64_MAX) {
							Failure f;
							f.what = r.death;
							cand.emplace_back(r.died_at, f);
						}
						// early stop in the child after 3 failures
						if (r.died_at == UINT64_MAX && r.fails.size() >= 3) ndone = r.fails.back().first + 1 - start;
						S->ctr[C_EVAL] += ndone;
						for (auto& c : cand) {
							// replay alone, then with the chunk prefix, before reporting
							in_replay = true;
							std::string how;
							Failure f = c.second;
							auto r1 = run_range(sp, c.first, c.first + 1, sp.timeout * 3, 1);
							if (!r1.fails.empty()) { how = "alone"; f = r1.fails[0].second; }
							else if (r1.died_at != UINT64_MAX) { how = "alone"; f.what = r1.death; f.files.clear(); }
							std::string desc = S->slot[my_slot].desc;
							if (how.empty()) {
								auto r2 = run_range(sp, start, c.first + 1, sp.timeout * 3, 1000000);
								for (auto& x : r2.fails) if (x.first == c.first) { how = "after the preceding cases " + std::to_string(start) + ".." + std::to_string(c.first) + " in the same process"; f = x.second; }
								if (r2.died_at == c.first) { how = "after the preceding cases " + std::to_string(start) + ".." + std::to_string(c.first) + " in the same process"; f.what = r2.death; }
								desc = S->slot[my_slot].desc;
							}
							in_replay = false;
							std::string o;
							put(o, std::to_string(c.first));
							put(o, how);
							put(o, desc);
							put(o, f.what);
							put(o, std::to_string(f.files.size()));
							for (auto& kv : f.files) { put(o, kv.first); put(o, kv.second); }
							size_t off = 0;
							while (off < o.size()) { ssize_t n = write(fd, o.data() + off, o.size() - off); if (n <= 0) break; off += n; }
							if (!how.empty()) S->n_viol += f.what.find("(hang)") != std::string::npos ? 4 : 1;
						}
						start += ndone;
					}
				}
				_exit(0);
			}
			ws.push_back(pid);
			fds.push_back(fd);
		}
		for (size_t w = 0; w < ws.size(); ++w) {
			int st;
			waitpid(ws[w], &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st)) { std::cerr << "worker died\n"; return 3; }
			std::string b;
			lseek(fds[w], 0, SEEK_SET);
			char buf[65536];
			ssize_t n;
			while ((n = read(fds[w], buf, sizeof buf)) > 0) b.append(buf, n);
			close(fds[w]);
			size_t p = 0;
			std::string s;
			while (p < b.size()) {
				V v;
				v.sp = &sp;
				if (!get(b, p, s)) break;
				v.idx = strtoull(s.c_str(), 0, 10);
				if (!get(b, p, v.how) || !get(b, p, v.desc) || !get(b, p, v.f.what) || !get(b, p, s)) break;
				size_t k = strtoull(s.c_str(), 0, 10);
				for (size_t j = 0; j < k; ++j) { std::string a, c; get(b, p, a); get(b, p, c); v.f.files[a] = c; }
				viols.push_back(v);
			}
		}
		double dt = std::chrono::duration<double>(Clock::now() - ts).count();
		if (!spaces_json.empty()) spaces_json += ", ";
		spaces_json += "{\"name\": \"" + jesc(sp.name) + "\", \"size\": " + std::to_string(sp.size) + ", \"executed\": " + std::to_string((uint64_t)S->ctr[C_EVAL] - ev0) + ", \"wall_s\": " + std::to_string(dt) + "}";
		fprintf(stderr, "[%s] space %s: %llu/%llu cases, %.1f s, outcomes so far %llu\n", def.property.c_str(), sp.name.c_str(), (unsigned long long)(S->ctr[C_EVAL] - ev0), (unsigned long long)sp.size, dt, (unsigned long long)S->n_out);
		if (S->n_viol >= MAXV) aborted = true;
	}

	auto known = load_known(def.property);
	int nviol = 0, nk = 0, nunrep = 0;
	std::set<std::string> printed;
	std::sort(viols.begin(), viols.end(), [](const V& a, const V& b) { return a.sp != b.sp ? a.sp < b.sp : a.idx < b.idx; });
	for (auto& v : viols) {
		if (v.how.empty()) {
			++nunrep;
			fprintf(stderr, "[%s] NOT REPRODUCED (ignored): %s %llu: %s\n", def.property.c_str(), v.sp->name.c_str(), (unsigned long long)v.idx, v.f.what.c_str());
			continue;
		}
		bool isk = false;
		for (auto& k : known) {
			if (v.desc.find(k.needle) != std::string::npos || v.sp->name + ":" + std::to_string(v.idx) == k.needle) {
				isk = true;
				if (printed.insert(k.needle).second) std::cout << "KNOWN-FINDING: property=" << def.property << " " << k.what << "\n";
			}
		}
		if (isk) { ++nk; continue; }
		std::string base = rdir + "/" + def.property + "-" + v.sp->name + "-" + std::to_string(v.idx);
		for (auto& ch : base) if (ch == ' ') ch = '_';
		std::ofstream o(base + ".txt");
		o << "property: " << def.property << "\nspace: " << v.sp->name << "\nindex: " << v.idx << "\nreproduced: " << v.how << "\nwhat: " << v.f.what << "\nreplay: " << argv[0] << " --tier " << tier << " --replay " << v.sp->name << " " << v.idx << "\n\n==== case\n" << v.desc << "\n";
		for (auto& kv : v.f.files) o << "\n==== " << kv.first << "\n" << kv.second << "\n";
		o.close();
		std::cout << "VIOLATION property=" << def.property << " replay=" << base << ".txt\n";
		fprintf(stderr, "   %s\n", v.f.what.substr(0, 400).c_str());
		++nviol;
	}

	double wall = std::chrono::duration<double>(Clock::now() - T0).count();
	const char* se = getenv("VERIF_SEED");
	std::ostringstream j;
	j << "{\n \"property\": \"" << def.property << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << (se ? atoi(se) : 1) << ",\n \"level\": \"" << def.level << "\",\n \"coverage\": {\n";
	j << "  \"evaluations\": " << S->ctr[C_EVAL] << ",\n";
	j << "  \"distinct_nontrivial\": " << S->n_nontriv << ",\n";
	j << "  \"distinct_outcomes\": " << S->n_out << ",\n";
	if (def.level == "model_checking") {
		j << "  \"states\": " << S->n_state << ",\n  \"transitions\": " << S->ctr[C_TRANS] << ",\n  \"traces_validated_against_impl\": " << S->ctr[C_TRACES] << ",\n";
	}
	for (auto& kv : def.extra_counters) j << "  \"" << kv.first << "\": " << S->ctr[kv.second] << ",\n";
	j << "  \"rule\": \"" << jesc(def.rule) << "\",\n";
	j << "  \"bounds\": \"" << jesc(def.bounds) << "\",\n";
	j << "  \"spaces\": [" << spaces_json << "],\n";
	j << "  \"exhaustive\": " << (!aborted && only.empty() ? "true" : "false") << ",\n";
	if (S->tab_full) j << "  \"distinct_counts_are_lower_bounds\": true,\n";
	j << "  \"unreproduced\": " << nunrep << ",\n";
	j << "  \"samples\": [";
	uint32_t ns = std::min<uint32_t>(6, S->n_samples);
	for (uint32_t i = 0; i < ns; ++i) j << (i ? ", " : "") << "\"" << jesc(S->samples[i]) << "\"";
	j << "]\n },\n \"assumptions\": [";
	for (size_t i = 0; i < def.assumptions.size(); ++i) j << (i ? ", " : "") << "\"" << jesc(def.assumptions[i]) << "\"";
	j << "],\n \"violations\": " << nviol << ",\n \"wall_s\": " << wall << "\n}\n";
	mkdir("/verif/evidence", 0777);
	std::ofstream ev("/verif/evidence/" + def.property + ".json");
	ev << j.str();
	ev.close();
	fprintf(stderr, "[%s] %llu cases, %llu distinct outcomes, %llu states, %d violations, %d known, %.1f s\n", def.property.c_str(), (unsigned long long)S->ctr[C_EVAL], (unsigned long long)S->n_out, (unsigned long long)S->n_state, nviol, nk, wall);
	return nviol ? 1 : 0;
}
