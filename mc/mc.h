// Stateless model-checking core: exhaustive depth-first enumeration of every
// sequence of choices a body can make, sharded over forked worker processes.
//
// A "suite" is a body that builds one bounded execution of the real code by
// asking mc::choose(n) wherever the environment (operation sequence, thread
// schedule, injected fault, crash point, configuration) is free.  The explorer
// re-runs the body for every combination of answers.  Nothing is sampled.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct prune_t {};          // thrown by prune(): this execution is redundant / not of interest
struct violation_t {};      // thrown by fail() after the violation has been recorded

enum tier_t { quick = 0, thorough = 1 };
tier_t tier();
inline int by_tier(int q, int t) { return tier() == quick ? q : t; }

/// Answer in [0,n).  All answers are explored.
int choose(int n);
inline bool choose_bool() { return choose(2) != 0; }
/// As choose, but the answer does not enter env_hash() (for the scheduler, which
/// keeps its own happens-before fingerprint).
int choose_internal(int n);
/// Hash of all answers given by choose() in this execution.
uint64_t env_hash();
/// From here on this execution does not branch any more (choose returns 0).
void stop_branching();
bool branching();
/// Abandon this execution (only from body code, never from inside code under test).
[[noreturn]] void prune();
/// Called after the first choices, before expensive work: leaves the work to the process whose it is.
void share();

/// Record a violation. `key` identifies the kind of failure for known-findings.
[[noreturn]] void fail(const std::string & key, const std::string & msg);
/// As fail, but does not unwind: ends the worker process on the spot.
[[noreturn]] void fail_hard(const std::string & key, const std::string & msg);

/// Statistics.
void transition(uint64_t n = 1);   // operations / steps executed on the real code
void state(uint64_t hash);         // a reached (abstract) state; distinct ones are counted
void outcome(uint64_t hash);       // a final outcome; distinct ones are counted
void count(int counter, uint64_t n = 1); // extra named counters, see suite_t::counters

/// Trace text, kept only when the execution is replayed or sampled.
bool tracing();
void trace(const std::string & s);

/// Visited set shared by all workers: returns true when (hash) was already
/// fully covered with at least this budget.
bool visited(uint64_t hash, unsigned budget);

/// Scratch directory of this worker process (below /dev/shm when possible).
const std::string & scratch();
/// Remove everything inside scratch().
void clean_scratch();
/// Number of entries below scratch (recursive).
size_t scratch_entries();

/// Index of the execution in this worker (for periodic housekeeping)
uint64_t execution_index();

struct suite_t {
	std::string name;
	std::string what;                  // what is enumerated, in words (bounds included)
	std::function<void()> body;
	std::function<void()> worker_init; // run once in every worker process
	std::function<void()> worker_done;
	int tiers = 3;                     // bit 0: quick, bit 1: thorough
	double hang_seconds = 20;          // one execution running longer is a hang
	bool forks = true;
	std::vector<std::string> counters = {};
};

void add(suite_t s);
int main(int argc, char ** argv);

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 33;
	return h;
}
inline uint64_t hash_bytes(const void * p, size_t n, uint64_t h = 0x1234567) {
	const unsigned char * c = static_cast<const unsigned char *>(p);
	for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
	return mix(h, n);
}
inline uint64_t hash_str(const std::string & s, uint64_t h = 7) { return hash_bytes(s.data(), s.size(), h); }
template <typename C>
uint64_t hash_seq(const C & c, uint64_t h = 11) {
	for (const auto & x : c) h = mix(h, static_cast<uint64_t>(x));
	return mix(h, c.size());
}

struct strm {
	std::ostringstream o;
	template <typename T> strm & operator<<(const T & t) { o << t; return *this; }
	operator std::string() const { return o.str(); }
};

template <typename C>
std::string show(const C & c) {
	std::ostringstream o;
	o << '[';
	bool first = true;
	for (const auto & x : c) { if (!first) o << ' '; first = false; o << x; }
	o << ']';
	return o.str();
}

} // namespace mc

#define MC_TRACE(x) do { if (::mc::tracing()) ::mc::trace(::mc::strm() << x); } while (0)
#define MC_CHECK(cond, key, msg) do { if (!(cond)) ::mc::fail(key, ::mc::strm() << msg); } while (0)
