// Controlled scheduler: runs real code that uses std::thread / std::mutex /
// std::condition_variable / std::atomic on fibers of a single OS thread, so
// that every interleaving decision is an mc::choose().
//
// The executable defines pthread_create, pthread_mutex_lock, ... itself, so the
// unchanged code under test (and libstdc++) ends up here.  Scheduling points
// are placed before every acquiring operation (lock, wait, notify, create,
// join, optionally atomics).  Code compiled with -fsanitize=thread (compile
// step only) additionally reports all memory accesses to a vector clock race
// detector, which justifies scheduling at synchronisation operations only.
#pragma once
#include "mc.h"
#include <functional>

namespace sched {

struct config {
	int preemptions = 0;       // switches away from a thread that could continue
	bool spurious = false;     // spurious condition variable wake-ups, each costs one preemption
	bool notify_choice = true; // notify_one may wake any waiter
	bool atomics = false;      // scheduling points before atomic read-modify-write operations
	bool races = false;        // vector clock race detection (needs instrumented code)
	int create_faults = 0;     // number of pthread_create calls that may fail (EAGAIN)
	unsigned max_steps = 200000; // more scheduling steps than this is a livelock
	bool leak_ok = false;      // threads may be left running when the body returns
	bool reduce = true;        // happens-before fingerprint caching
};

/// Runs body as the first thread of a fresh world.
void run(const config & c, const std::function<void()> & body);

/// True while inside run().
bool active();
/// Is the scheduler itself running, which allocates memory of its own?
bool in_runtime();
/// Threads created so far in this run / live now (without the first).
unsigned created();
unsigned alive();
/// Switches performed in this run
uint64_t steps();

/// A harness observation that must be ordered among threads: acts as a
/// scheduling point on object `o`.
void point(const void * o);
/// Orders without being a scheduling point (fingerprint only).
void observe(const void * o, uint64_t value);
/// number of processors reported to the code under test
void set_create_faults(int n); // that many of the next thread creations may fail
void set_cpus(int n);

} // namespace sched
