#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {
namespace {

typedef std::atomic<uint64_t> au64;

const size_t max_stack = 1 << 16;
const size_t max_workers = 64;
const size_t trace_bytes = 1 << 18;

struct worker_shm {
	std::atomic<uint32_t> len;           // choices on the DFS stack
	uint16_t c[max_stack];
	uint16_t n[max_stack];
	au64 started;                        // start of current execution, ns; 0 = idle
	au64 execs;                          // executions begun in this shard (owned or not)
	std::atomic<uint32_t> finished;
	std::atomic<uint32_t> violated;      // 1: violation recorded
	std::atomic<uint32_t> not_owned;
	char key[128];
	char msg[8192];
	std::atomic<uint32_t> trace_len;
	char trace[trace_bytes];
	uint32_t sample_len;
	uint16_t sample[max_stack];
	char scratch[512];
};

struct shared_shm {
	au64 executions, transitions, branch_points, pruned, redundant, states, outcomes, max_depth;
	au64 counters[16];
	std::atomic<uint32_t> states_full;
};

const size_t table_bits = 24;
shared_shm * S = nullptr;
worker_shm * W = nullptr;     // array
au64 * visited_tab = nullptr;
au64 * state_tab = nullptr;
au64 * outcome_tab = nullptr;

worker_shm * me = nullptr;
unsigned my_index = 0, n_workers = 1;
tier_t g_tier = quick;
bool g_tracing = false;
bool g_replay = false;
std::vector<uint16_t> g_replay_choices;

// per execution
uint32_t pos = 0;
bool g_branching = true;
bool owned_known = false, owned = true;
uint64_t prefix_hash = 0, prefix_prod = 1;
uint64_t g_exec_index = 0;
uint64_t env_h = 0;
std::string g_scratch;
std::string g_scratch_root;

std::vector<suite_t> & suites() { static std::vector<suite_t> s; return s; }

uint64_t now_ns() {
	timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return uint64_t(t.tv_sec) * 1000000000ull + t.tv_nsec;
}

void remove_tree(const std::string & p, bool self) {
	DIR * d = opendir(p.c_str());
	if (d) {
		while (dirent * e = readdir(d)) {
			std::string n = e->d_name;
			if (n == "." || n == "..") continue;
			std::string q = p + "/" + n;
			struct stat st;
			if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(q, true);
			else ::unlink(q.c_str());
		}
		closedir(d);
	}
	if (self) ::rmdir(p.c_str());
}

size_t count_tree(const std::string & p) {
	size_t r = 0;
	DIR * d = opendir(p.c_str());
	if (!d) return 0;
	while (dirent * e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		++r;
		std::string q = p + "/" + n;
		struct stat st;
		if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) r += count_tree(q);
	}
	closedir(d);
	return r;
}

bool insert_hash(au64 * tab, uint64_t h) {
	if (!tab) return false;
	h |= 1;
	const size_t mask = (size_t(1) << table_bits) - 1;
	size_t i = (h >> 8) & mask;
	for (int probes = 0; probes < 64; ++probes, i = (i + 1) & mask) {
		uint64_t v = tab[i].load(std::memory_order_relaxed);
		if (v == h) return false;
		if (v == 0) {
			if (tab[i].compare_exchange_strong(v, h)) return true;
			if (v == h) return false;
		}
	}
	if (S) S->states_full = 1;
	return false;
}

void decide_ownership(bool at_end) {
	if (owned_known || g_replay) { owned_known = true; return; }
	if (!at_end && prefix_prod < uint64_t(n_workers) * 64) return;
	owned_known = true;
	owned = (prefix_hash >> 7) % n_workers == my_index;
	me->not_owned = owned ? 0 : 1;
	if (!owned) g_branching = false;
}

void record(const std::string & key, const std::string & msg) {
	if (me->violated) return; // keep the first one
	snprintf(me->key, sizeof me->key, "%s", key.c_str());
	snprintf(me->msg, sizeof me->msg, "%s", msg.c_str());
	me->violated = 1;
}

void on_terminate() {
	std::string what = "std::terminate called";
	if (std::exception_ptr p = std::current_exception()) {
		try { std::rethrow_exception(p); }
		catch (const std::exception & e) { what += std::string(": uncaught exception: ") + e.what(); }
		catch (const violation_t &) { what += " while reporting a violation"; }
		catch (...) { what += ": uncaught exception of unknown type"; }
	}
	fail_hard("terminate", what);
}

} // unnamed

tier_t tier() { return g_tier; }
bool branching() { return g_branching; }
void stop_branching() { g_branching = false; }
bool tracing() { return g_tracing; }
uint64_t execution_index() { return g_exec_index; }

void trace(const std::string & s) {
	if (!g_tracing) return;
	uint32_t l = me->trace_len;
	if (l + s.size() + 2 >= trace_bytes) return;
	memcpy(me->trace + l, s.data(), s.size());
	me->trace[l + s.size()] = '\n';
	me->trace_len = l + s.size() + 1;
}

int choose(int n) {
	int r = choose_internal(n);
	env_h = mix(env_h, r + 1 + n * 1000);
	return r;
}

uint64_t env_hash() { return env_h; }

int choose_internal(int n) {
	if (n <= 1) return 0;
	if (g_replay) {
		if (!g_branching) return 0;
		int r = pos < g_replay_choices.size() ? g_replay_choices[pos] : 0;
		++pos;
		return r < n ? r : n - 1;
	}
	if (!owned_known) decide_ownership(false);
	if (!g_branching) return 0;
	uint32_t len = me->len;
	if (pos == len) {
		if (pos + 1 >= max_stack) fail_hard("too-many-choices", "choice stack overflow");
		me->c[pos] = 0;
		me->n[pos] = n;
		me->len = len + 1;
		S->branch_points.fetch_add(1, std::memory_order_relaxed);
	} else if (me->n[pos] != n) {
		fail_hard("nondeterminism", strm() << "choice point " << pos << " offered " << n
				  << " alternatives, earlier " << me->n[pos]);
	}
	int r = me->c[pos++];
	if (!owned_known) {
		prefix_hash = mix(prefix_hash, r + 1);
		prefix_prod *= n;
	}
	return r;
}

void prune() { throw prune_t(); }

void share() {
	if (!owned_known) decide_ownership(true);
	if (!owned) prune();
}

void fail(const std::string & key, const std::string & msg) {
	record(key, msg);
	throw violation_t();
}

void fail_hard(const std::string & key, const std::string & msg) {
	record(key, msg);
	_exit(77);
}

void transition(uint64_t n) { if (owned) S->transitions.fetch_add(n, std::memory_order_relaxed); }
void state(uint64_t h) { if (insert_hash(state_tab, h)) S->states.fetch_add(1, std::memory_order_relaxed); }
void outcome(uint64_t h) { if (insert_hash(outcome_tab, mix(h, 0x9e37))) S->outcomes.fetch_add(1, std::memory_order_relaxed); }
void count(int c, uint64_t n) { if (owned) S->counters[c].fetch_add(n, std::memory_order_relaxed); }

bool visited(uint64_t h, unsigned budget) {
	if (g_replay || !g_branching || !owned_known) return false;
	if (pos < me->len) return false; // still re-executing the current prefix
	if (budget > 14) budget = 14;
	h &= ~uint64_t(15);
	if (h == 0) h = 16;
	const size_t mask = (size_t(1) << table_bits) - 1;
	size_t i = (h >> 9) & mask;
	for (int probes = 0; probes < 128; ++probes, i = (i + 1) & mask) {
		uint64_t v = visited_tab[i].load(std::memory_order_relaxed);
		if (v == 0) {
			if (visited_tab[i].compare_exchange_strong(v, h | (budget + 1))) return false;
		}
		if ((v & ~uint64_t(15)) == h) {
			while (true) {
				if ((v & 15) >= budget + 1) {
					S->redundant.fetch_add(1, std::memory_order_relaxed);
					return true;
				}
				if (visited_tab[i].compare_exchange_strong(v, h | (budget + 1))) return false;
			}
		}
	}
	return false; // table full: no pruning, still sound
}

const std::string & scratch() { return g_scratch; }
void clean_scratch() { remove_tree(g_scratch, false); }
size_t scratch_entries() { return count_tree(g_scratch); }

void add(suite_t s) { suites().push_back(std::move(s)); }

namespace {

void reset_execution() {
	pos = 0;
	g_branching = true;
	owned_known = false;
	owned = true;
	prefix_hash = 0x51;
	env_h = 0;
	prefix_prod = 1;
	me->not_owned = 0;
	me->violated = 0;
	me->trace_len = 0;
}

/// Runs one execution; violation is left in me->violated.
void run_body(const suite_t & s) {
	try {
		s.body();
	} catch (const prune_t &) {
		if (!g_replay) { decide_ownership(true); if (owned) S->pruned.fetch_add(1, std::memory_order_relaxed); }
	} catch (const violation_t &) {
	} catch (const std::exception & e) {
		record("exception", std::string("unexpected exception: ") + typeid(e).name() + ": " + e.what());
	} catch (...) {
		record("exception", "unexpected exception of unknown type");
	}
}

void setup_process(unsigned idx) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	mallopt(M_PERTURB, 0xA5);
	std::set_terminate(on_terminate);
	my_index = idx;
	me = &W[idx];
	g_scratch = g_scratch_root + "/w" + std::to_string(idx);
	remove_tree(g_scratch, true);
	mkdir(g_scratch.c_str(), 0700);
	setenv("TMPDIR", g_scratch.c_str(), 1);
	setenv("HOME", g_scratch.c_str(), 1);
	unsetenv("TPIE_BLOCK_SIZE");
	unsetenv("TMP"); unsetenv("TEMP"); unsetenv("TEMPDIR"); unsetenv("AMI_SINGLE_DEVICE");
	int fd = open("/dev/null", O_RDWR);
	if (!getenv("MC_VERBOSE")) {
		dup2(fd, 1);
		dup2(fd, 2);
	}
	close(fd);
}

bool advance_stack() {
	uint32_t l = me->len;
	while (l > 0) {
		if (me->c[l - 1] + 1 < me->n[l - 1]) {
			++me->c[l - 1];
			me->len = l;
			return true;
		}
		--l;
	}
	me->len = 0;
	return false;
}

[[noreturn]] void worker_main(const suite_t & s, unsigned idx, bool resume) {
	setup_process(idx);
	if (s.worker_init) s.worker_init();
	bool more = true;
	if (resume) more = advance_stack();
	while (more) {
		reset_execution();
		g_exec_index = me->execs.fetch_add(1);
		me->started = now_ns();
		run_body(s);
		me->started = 0;
		// DFS prefix that was not reached again would mean nondeterminism
		if (!me->violated && pos < me->len && g_branching) {
			record("nondeterminism", strm() << "execution ended after " << pos << " choices, prefix had " << me->len);
		}
		decide_ownership(true);
		if (me->violated) _exit(77);
		if (owned) {
			uint64_t n = S->executions.fetch_add(1, std::memory_order_relaxed);
			uint64_t d = S->max_depth.load(std::memory_order_relaxed);
			while (pos > d && !S->max_depth.compare_exchange_weak(d, pos)) {}
			if ((n & (n + 1)) == 0 || me->sample_len == 0) { // at powers of two
				memcpy(me->sample, me->c, pos * sizeof(uint16_t));
				me->sample_len = pos;
			}
		}
		more = advance_stack();
	}
	if (s.worker_done) s.worker_done();
	me->finished = 1;
	_exit(0);
}

struct replay_result {
	bool violated = false;
	std::string key, msg, trace;
};

replay_result replay_child(const suite_t & s, const std::vector<uint16_t> & choices) {
	worker_shm * w = &W[max_workers - 1];
	w->violated = 0;
	w->trace_len = 0;
	w->started = 0;
	w->len = 0;
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		setup_process(max_workers - 1);
		g_replay = true;
		g_tracing = true;
		g_replay_choices = choices;
		if (s.worker_init) s.worker_init();
		reset_execution();
		run_body(s);
		_exit(me->violated ? 77 : 0);
	}
	replay_result r;
	int st = 0;
	uint64_t t0 = now_ns();
	bool killed = false;
	while (true) {
		pid_t q = waitpid(p, &st, WNOHANG);
		if (q == p) break;
		if (!killed && now_ns() - t0 > uint64_t(s.hang_seconds * 1.5e9)) { kill(p, SIGKILL); killed = true; }
		usleep(1000);
	}
	r.trace.assign(w->trace, w->trace_len);
	if (killed) {
		r.violated = true;
		r.key = "hang";
		r.msg = "execution does not terminate";
	} else if (WIFSIGNALED(st)) {
		r.violated = true;
		r.key = strm() << "crash-signal-" << WTERMSIG(st);
		r.msg = strm() << "process died with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
	} else if (w->violated || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
		r.violated = true;
		r.key = w->violated ? w->key : "exit";
		r.msg = w->violated ? w->msg : "process exited";
	}
	remove_tree(g_scratch_root + "/w" + std::to_string(max_workers - 1), true);
	return r;
}

std::string jstr(const std::string & s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		switch (c) {
			case '"': o += "\\\""; break;
			case '\\': o += "\\\\"; break;
			case '\n': o += "\\n"; break;
			case '\t': o += "\\t"; break;
			case '\r': o += "\\r"; break;
			default:
				if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
				else o += char(c);
		}
	}
	return o + "\"";
}

struct found_t {
	std::string suite, key, msg, replay, trace;
	bool confirmed;
};

template <typename T>
T * shm_alloc(size_t n) {
	void * p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return static_cast<T *>(p);
}

} // unnamed

int main(int argc, char ** argv) {
	std::string out, replay_dir = ".", known_file, only, replay_file;
	unsigned jobs = 8;
	double deadline = 700;
	bool list = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--tier") g_tier = next() == "thorough" ? thorough : quick;
		else if (a == "--jobs") jobs = std::stoi(next());
		else if (a == "--out") out = next();
		else if (a == "--replay-dir") replay_dir = next();
		else if (a == "--known") known_file = next();
		else if (a == "--deadline") deadline = std::stod(next());
		else if (a == "--suite") only = next();
		else if (a == "--replay") replay_file = next();
		else if (a == "--list") list = true;
		else { std::cerr << "unknown argument " << a << std::endl; return 3; }
	}
	if (jobs > max_workers - 1) jobs = max_workers - 1;

	std::map<std::string, std::string> known; // key -> description
	if (!known_file.empty()) {
		std::ifstream f(known_file);
		std::string line;
		while (std::getline(f, line)) { // "<suite>:<key>"
			if (!line.empty()) known[line] = "";
		}
	}

	{
		const char * base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
		std::string t = std::string(base) + "/tpie-mc-XXXXXX";
		std::vector<char> b(t.begin(), t.end());
		b.push_back(0);
		if (!mkdtemp(b.data())) { perror("mkdtemp"); return 3; }
		g_scratch_root = b.data();
	}
	W = shm_alloc<worker_shm>(max_workers);

	if (list) {
		for (auto & s : suites()) std::cout << s.name << ": " << s.what << "\n";
		remove_tree(g_scratch_root, true);
		return 0;
	}

	if (!replay_file.empty()) {
		std::ifstream f(replay_file);
		std::string line, suite;
		std::vector<uint16_t> ch;
		while (std::getline(f, line)) {
			std::istringstream is(line);
			std::string w;
			is >> w;
			if (w == "suite") is >> suite;
			if (w == "tier") { is >> w; g_tier = w == "thorough" ? thorough : quick; }
			if (w == "choices") { unsigned x; while (is >> x) ch.push_back(x); }
		}
		int rc = 3;
		S = shm_alloc<shared_shm>(1);
		for (auto & s : suites()) if (s.name == suite) {
			replay_result r = replay_child(s, ch);
			std::cout << r.trace << (r.violated ? "VIOLATED " + r.key + ": " + r.msg : "no violation") << std::endl;
			rc = r.violated ? 1 : 0;
		}
		remove_tree(g_scratch_root, true);
		return rc;
	}

	std::ostringstream js;
	js << "{\"suites\":[";
	std::vector<found_t> found;
	bool first_suite = true;
	double t_begin = now_ns() * 1e-9;
	bool stop = false;
	for (auto & s : suites()) {
		if (!only.empty() && s.name != only) continue;
		if (!(s.tiers & (g_tier == quick ? 1 : 2))) continue;
		if (stop) break;
		double t0 = now_ns() * 1e-9;
		S = shm_alloc<shared_shm>(1);
		visited_tab = shm_alloc<au64>(size_t(1) << table_bits);
		state_tab = shm_alloc<au64>(size_t(1) << table_bits);
		outcome_tab = shm_alloc<au64>(size_t(1) << table_bits);
		n_workers = jobs;
		std::map<pid_t, unsigned> pids;
		auto spawn = [&](unsigned i, bool resume) {
			fflush(nullptr);
			pid_t p = fork();
			if (p == 0) worker_main(s, i, resume);
			pids[p] = i;
		};
		for (unsigned i = 0; i < jobs; ++i) {
			W[i].len = 0; W[i].execs = 0; W[i].finished = 0; W[i].started = 0; W[i].sample_len = 0; W[i].violated = 0;
			spawn(i, false);
		}
		std::map<std::string, uint64_t> known_hits;
		std::map<pid_t, bool> hung;
		bool exhaustive = true;
		while (!pids.empty()) {
			int st;
			pid_t p = waitpid(-1, &st, WNOHANG);
			if (p <= 0) {
				uint64_t n = now_ns();
				for (auto & q : pids) {
					uint64_t b = W[q.second].started;
					if (b && n > b && n - b > uint64_t(s.hang_seconds * 1e9) && !hung[q.first]) {
						hung[q.first] = true;
						kill(q.first, SIGKILL);
					}
				}
				if (n * 1e-9 - t_begin > deadline && !stop) {
					exhaustive = false;
					stop = true;
					for (auto & q : pids) kill(q.first, SIGKILL);
				}
				usleep(2000);
				continue;
			}
			auto it = pids.find(p);
			if (it == pids.end()) continue;
			unsigned i = it->second;
			pids.erase(it);
			worker_shm & w = W[i];
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.finished) continue;
			if (stop) continue;
			std::string key, msg;
			if (hung[p]) { key = "hang"; msg = strm() << "execution did not end within " << s.hang_seconds << " s"; }
			else if (WIFSIGNALED(st)) { key = strm() << "crash-signal-" << WTERMSIG(st); msg = strm() << "process died with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")"; }
			else if (w.violated) { key = w.key; msg = w.msg; }
			else { key = "exit"; msg = strm() << "worker ended with status " << st; }
			if (w.not_owned) { spawn(i, true); continue; }
			std::string full = s.name + ":" + key;
			std::string any = "*:" + key;
			if (known.count(full) || known.count(any)) {
				++known_hits[key];
				++S->executions;
				spawn(i, true);
				continue;
			}
			// A violation that is not listed: replay it twice.
			std::vector<uint16_t> ch(w.c, w.c + w.len);
			for (auto & q : pids) kill(q.first, SIGKILL);
			for (auto & q : pids) waitpid(q.first, &st, 0);
			pids.clear();
			found_t f;
			f.suite = s.name; f.key = key; f.msg = msg;
			replay_result r1 = replay_child(s, ch), r2 = replay_child(s, ch);
			f.confirmed = r1.violated && r2.violated;
			if (f.confirmed) { f.key = r2.key; f.msg = r2.msg; }
			f.trace = r2.trace;
			if ((key == "hang" || key == "crash-signal-9") && !f.confirmed) {
				// The machine stalled, the code did not: explore this suite's shard again.
				std::cerr << "note: unconfirmed hang in suite " << s.name << "\n";
				exhaustive = false;
				break;
			}
			f.replay = replay_dir + "/" + s.name + ".replay";
			std::ofstream o(f.replay);
			o << "suite " << s.name << "\ntier " << (g_tier == quick ? "quick" : "thorough") << "\nchoices";
			for (auto c : ch) o << ' ' << c;
			o << "\nkey " << f.key << "\nconfirmed " << (f.confirmed ? "twice" : "no") << "\nmessage " << f.msg
			  << "\ntrace\n" << f.trace;
			found.push_back(f);
			exhaustive = false;
			stop = true;
		}
		// samples
		std::vector<std::string> samples;
		if (found.empty()) {
			std::set<std::string> seen;
			for (unsigned i = 0; i < jobs && samples.size() < 2; ++i) {
				unsigned k = (i * 5 + 3) % jobs;
				if (!W[k].sample_len) continue;
				std::vector<uint16_t> ch(W[k].sample, W[k].sample + W[k].sample_len);
				replay_result r = replay_child(s, ch);
				std::string t = r.trace.substr(0, 1500);
				if (!t.empty() && seen.insert(t).second) samples.push_back(t);
			}
		}
		if (!first_suite) js << ",\n";
		first_suite = false;
		js << "{\"name\":" << jstr(s.name) << ",\"what\":" << jstr(s.what)
		   << ",\"executions\":" << S->executions << ",\"transitions\":" << S->transitions
		   << ",\"branch_points\":" << S->branch_points << ",\"abandoned\":" << S->pruned << ",\"redundant_prefixes\":" << S->redundant
		   << ",\"states\":" << S->states << ",\"outcomes\":" << S->outcomes
		   << ",\"max_choices\":" << S->max_depth << ",\"exhaustive\":" << (exhaustive ? "true" : "false")
		   << ",\"wall_s\":" << (now_ns() * 1e-9 - t0) << ",\"counters\":{";
		for (size_t i = 0; i < s.counters.size(); ++i)
			js << (i ? "," : "") << jstr(s.counters[i]) << ":" << S->counters[i];
		js << "},\"known\":{";
		bool f1 = true;
		for (auto & k : known_hits) { js << (f1 ? "" : ",") << jstr(k.first) << ":" << k.second; f1 = false; }
		js << "},\"samples\":[";
		for (size_t i = 0; i < samples.size(); ++i) js << (i ? "," : "") << jstr(samples[i]);
		js << "]}";
		std::cout << s.name << ": " << S->executions << " executions, " << S->transitions << " transitions, "
				  << S->states << " states, " << S->outcomes << " outcomes, " << S->redundant << " redundant, "
				  << (exhaustive ? "complete" : "INCOMPLETE") << ", " << (now_ns() * 1e-9 - t0) << " s" << std::endl;
		munmap(S, sizeof *S);
		for (au64 ** t : {&visited_tab, &state_tab, &outcome_tab}) {
			munmap(static_cast<void *>(*t), sizeof(au64) << table_bits);
			*t = nullptr;
		}
	}
	js << "],\"violations\":[";
	for (size_t i = 0; i < found.size(); ++i) {
		const found_t & f = found[i];
		js << (i ? "," : "") << "{\"suite\":" << jstr(f.suite) << ",\"key\":" << jstr(f.key) << ",\"msg\":" << jstr(f.msg)
		   << ",\"replay\":" << jstr(f.replay) << ",\"confirmed\":" << (f.confirmed ? "true" : "false") << "}";
		std::cout << "VIOLATED " << f.suite << " [" << f.key << "] " << f.msg << "\n  replay " << f.replay
				  << (f.confirmed ? "" : " (not reproduced in isolation)") << std::endl;
	}
	js << "]}\n";
	if (!out.empty()) std::ofstream(out) << js.str();
	remove_tree(g_scratch_root, true);
	return found.empty() ? 0 : 1;
}

} // namespace mc
