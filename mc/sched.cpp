#include "sched.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <sys/single_threaded.h>

extern "C" void * __libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void __interceptor_free(void *) __attribute__((weak)); // AddressSanitizer's

namespace sched {
namespace {

const int max_threads = 24;
const size_t stack_bytes = 1 << 20;
const int max_objects = 1 << 13;
typedef uint32_t clk;

enum wait_kind { running, w_mutex, w_cond, w_join, w_finished, w_guard };

struct fiber {
	void * sp;
	char * stack;
	uint64_t eh[2];            // __cxa_eh_globals
	wait_kind st;
	const void * obj;          // mutex/cond waited for
	const void * obj2;         // cond wait: mutex
	bool timed, signalled, timed_out;
	int join_target;
	bool joined, detached, reaped;
	void * (*fn)(void *);
	void * arg;
	void * ret;
	uint64_t name;             // schedule independent
	unsigned children;
	uint64_t chain;            // happens-before hash chain
	uint64_t seq;
	clk vc[max_threads];
	bool yielded;
	const char * where;
};

struct object {
	const void * addr;
	uint32_t epoch;
	int owner;                 // mutex: -1 free
	uint64_t w, r;             // chain of last write-like op, sum of readers since
	clk vc[max_threads];
};

fiber F[max_threads];
int n_fibers = 0, cur = 0;
object O[max_objects];
uint32_t epoch = 0;
bool on = false;
int in_rt = 0;
config C;
int budget = 0, create_faults_left = 0;
unsigned n_steps = 0;
uint64_t n_steps_total = 0;
uint64_t env0 = 0;
int cpus = 2;
std::exception_ptr main_exc;
void * run_sp = nullptr;
uint64_t run_eh[2];
char * stacks[max_threads];
const std::function<void()> * main_body;
uint64_t virtual_ns = 0;

struct rt_guard { rt_guard() { ++in_rt; } ~rt_guard() { --in_rt; } };

extern "C" void mc_switch(void ** save, void * to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mc_switch,.-mc_switch
)");

// AddressSanitizer, when linked in, wants to know about stacks.
extern "C" {
void __sanitizer_start_switch_fiber(void ** fake, const void * bottom, size_t size) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void * fake, const void ** bottom, size_t * size) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile * p, size_t n) __attribute__((weak));
}
const void * run_stack = nullptr;
size_t run_stack_size = 0;

void annotated_switch(void ** save, void * to, const void * bottom, size_t size) {
	void * fake = nullptr;
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&fake, bottom, size);
	mc_switch(save, to);
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
}

object & obj(const void * a) {
	size_t i = (reinterpret_cast<uintptr_t>(a) >> 3) * 0x9e3779b97f4a7c15ull >> 40 & (max_objects - 1);
	for (int p = 0; p < max_objects; ++p, i = (i + 1) & (max_objects - 1)) {
		object & o = O[i];
		if (o.epoch != epoch) {
			o.addr = a;
			o.epoch = epoch;
			o.owner = -1;
			o.w = o.r = 0;
			memset(o.vc, 0, sizeof o.vc);
			return o;
		}
		if (o.addr == a) return o;
	}
	mc::fail_hard("harness", "too many synchronisation objects");
}

void join_vc(clk * a, const clk * b) { for (int i = 0; i < n_fibers; ++i) if (b[i] > a[i]) a[i] = b[i]; }

/// Record that the current thread performs an operation on o.
void op(object & o, uint64_t code, bool write = true) {
	fiber & f = F[cur];
	++f.seq;
	if (o.w == 0) o.w = mc::mix(f.name, f.seq) | 1;
	if (write) {
		uint64_t h = mc::mix(mc::mix(mc::mix(f.chain, o.w), o.r), code);
		f.chain = h;
		o.w = h | 1;
		o.r = 0;
	} else {
		uint64_t h = mc::mix(mc::mix(f.chain, o.w), code);
		f.chain = h;
		o.r += h;
	}
}
void acquire(object & o) { join_vc(F[cur].vc, o.vc); }
void release(object & o) { join_vc(o.vc, F[cur].vc); ++F[cur].vc[cur]; }

void describe(std::string & s) {
	for (int i = 0; i < n_fibers; ++i) {
		fiber & f = F[i];
		s += "\n  thread " + std::to_string(i) + ": ";
		switch (f.st) {
			case running: s += "runnable"; break;
			case w_mutex: s += "waiting for a mutex held by thread " + std::to_string(obj(f.obj).owner); break;
			case w_cond: s += "waiting on a condition variable"; break;
			case w_join: s += "joining thread " + std::to_string(f.join_target); break;
			case w_finished: s += "finished"; break;
			case w_guard: s += "waiting for a static initialisation"; break;
		}
		char b[64];
		if (f.obj && f.st != running && f.st != w_finished) { snprintf(b, sizeof b, " (%p)", f.obj); s += b; }
	}
}

bool enabled(int i) {
	fiber & f = F[i];
	switch (f.st) {
		case running: return true;
		case w_mutex: return obj(f.obj).owner == -1;
		case w_cond: return f.signalled && obj(f.obj2).owner == -1;
		case w_join: return F[f.join_target].st == w_finished;
		case w_guard: return static_cast<const volatile char *>(f.obj)[1] == 0;
		case w_finished: return false;
	}
	return false;
}

void swap_eh(uint64_t * save, uint64_t * load) {
	uint64_t * g = reinterpret_cast<uint64_t *>(abi::__cxa_get_globals());
	save[0] = g[0]; save[1] = g[1];
	g[0] = load[0]; g[1] = load[1];
}

void switch_to(int t) {
	if (t == cur) return;
	int from = cur;
	swap_eh(F[from].eh, F[t].eh);
	cur = t;
	const int err = errno; // every thread has its own
	annotated_switch(&F[from].sp, F[t].sp, F[t].stack, stack_bytes);
	errno = err;
}

uint64_t fingerprint() {
	uint64_t h = mc::env_hash() ^ env0;
	uint64_t s = 0;
	for (int i = 0; i < n_fibers; ++i) {
		fiber & f = F[i];
		s += mc::mix(mc::mix(f.name, f.chain), uint64_t(f.st) * 8 + f.signalled * 4 + f.timed_out * 2 + f.yielded);
	}
	return mc::mix(mc::mix(h, s), F[cur].name);
}

/// The decision. Called with the current thread's pending operation described
/// by its st (running = it can perform it now). Returns when the current
/// thread is to go on.
void reschedule() {
	++n_steps;
	++n_steps_total;
	mc::transition(1);
	if (n_steps > C.max_steps) {
		std::string s;
		describe(s);
		mc::fail_hard("livelock", mc::strm() << "no end after " << n_steps << " scheduling steps" << s);
	}
	int cand[2 * max_threads], cost[2 * max_threads], kind[2 * max_threads];
	int n = 0;
	bool self = enabled(cur);
	bool yielded = F[cur].yielded;
	auto push = [&](int t, int c, int k) { cand[n] = t; cost[n] = c; kind[n] = k; ++n; };
	if (self && !yielded) push(cur, 0, 0);
	for (int d = 1; d <= n_fibers; ++d) { // others, round robin from the current one
		int t = (cur + d) % n_fibers;
		if (t == cur) continue;
		if (!enabled(t)) continue;
		push(t, self && !yielded ? 1 : 0, 0);
	}
	if (self && yielded) push(cur, n ? 1 : 0, 0);
	bool none = n == 0;
	for (int t = 0; t < n_fibers; ++t) {
		fiber & f = F[t];
		if (f.st != w_cond || f.signalled || obj(f.obj2).owner != -1) continue;
		if (f.timed) push(t, none ? 0 : 1, 2);
		else if (C.spurious && !none) push(t, 1, 1);
	}
	if (n == 0) {
		std::string s;
		describe(s);
		mc::fail_hard("deadlock", "no thread can continue" + s);
	}
	// Keep what the budget allows
	int m = 0;
	for (int i = 0; i < n; ++i) {
		if (cost[i] > budget) continue;
		cand[m] = cand[i]; cost[m] = cost[i]; kind[m] = kind[i]; ++m;
	}
	n = m;
	int pick = 0;
	if (n > 1) {
		if (C.reduce && mc::branching() && mc::visited(fingerprint(), budget)) mc::stop_branching();
		pick = mc::choose_internal(n);
	}
	budget -= cost[pick];
	int t = cand[pick];
	F[cur].yielded = false;
	if (kind[pick]) {
		F[t].signalled = true;
		F[t].timed_out = kind[pick] == 2;
		F[t].chain = mc::mix(F[t].chain, 77 + kind[pick]);
	}
	if (mc::tracing() && t != cur) {
		MC_TRACE("    schedule: thread " << t << (cost[pick] ? " (preempting)" : "")
				 << (kind[pick] == 1 ? " (spurious wake-up)" : kind[pick] == 2 ? " (time-out)" : ""));
	}
	switch_to(t);
}

void finish_run() {
	int from = cur;
	swap_eh(F[from].eh, run_eh);
	annotated_switch(&F[from].sp, run_sp, run_stack, run_stack_size);
}

void fiber_entry() {
	int me = cur;
	if (__sanitizer_finish_switch_fiber) {
		const void * b;
		size_t n;
		__sanitizer_finish_switch_fiber(nullptr, &b, &n);
		if (me == 0) { run_stack = b; run_stack_size = n; }
	}
	in_rt = 0;
	if (me == 0) {
		try {
			(*main_body)();
		} catch (...) {
			main_exc = std::current_exception();
		}
		++in_rt;
		F[0].st = w_finished;
		finish_run();
	} else {
		try {
			F[me].ret = F[me].fn(F[me].arg);
		} catch (const mc::violation_t &) {
			_exit(77);
		} catch (...) {
			std::terminate();
		}
		++in_rt;
		object & o = obj(&F[me]);
		op(o, 4);
		release(o);
		F[me].st = w_finished;
		if (mc::tracing()) MC_TRACE("    thread " << me << " ends");
		reschedule();
	}
	abort();
}

void init_fiber(int i) {
	fiber & f = F[i];
	if (!stacks[i]) {
		stacks[i] = static_cast<char *>(mmap(nullptr, stack_bytes, PROT_READ | PROT_WRITE,
											 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0));
		mprotect(stacks[i], 4096, PROT_NONE);
	}
	memset(&f, 0, sizeof f);
	f.stack = stacks[i];
	if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(stacks[i], stack_bytes);
	void ** sp = reinterpret_cast<void **>(f.stack + stack_bytes - 64);
	*--sp = nullptr;               // fake return address of fiber_entry (alignment)
	*--sp = reinterpret_cast<void *>(fiber_entry);
	for (int k = 0; k < 6; ++k) *--sp = nullptr;
	f.sp = sp;
	f.st = running;
}

void clear_shadow_all();

void do_lock(pthread_mutex_t * m) {
	fiber & f = F[cur];
	object & o = obj(m);
	f.obj = m;
	f.st = w_mutex;
	reschedule();
	if (o.owner != -1) mc::fail_hard("harness", "lock granted while held");
	o.owner = cur;
	f.st = running;
	op(o, 1);
	acquire(o);
}

} // unnamed

bool in_runtime() { return in_rt != 0; }
bool active() { return on; }
unsigned created() { return n_fibers > 0 ? n_fibers - 1 : 0; }
unsigned alive() {
	unsigned r = 0;
	for (int i = 1; i < n_fibers; ++i) if (F[i].st != w_finished) ++r;
	return r;
}
uint64_t steps() { return n_steps; }
void set_create_faults(int n) { create_faults_left = n; }
void set_cpus(int n) { cpus = n; }

void point(const void * o) {
	if (!on) return;
	rt_guard g;
	reschedule();
	op(obj(o), 9);
}
void observe(const void * o, uint64_t v) {
	if (!on) return;
	rt_guard g;
	op(obj(o), mc::mix(9, v));
}

void run(const config & c, const std::function<void()> & body) {
	++in_rt;
	C = c;
	budget = c.preemptions;
	create_faults_left = c.create_faults;
	n_steps = 0;
	virtual_ns = 1000000000ull * 1000000;
	++epoch;
	if (epoch == 0) { memset(static_cast<void *>(O), 0, sizeof O); epoch = 1; }
	clear_shadow_all();
	n_fibers = 1;
	cur = 0;
	init_fiber(0);
	F[0].name = F[0].chain = 0x1234;
	F[0].vc[0] = 1;
	env0 = 0;
	main_body = &body;
	main_exc = nullptr;
	on = true;
	__libc_single_threaded = 0; // shared_ptr must use its atomic paths
	uint64_t * g = reinterpret_cast<uint64_t *>(abi::__cxa_get_globals());
	run_eh[0] = g[0]; run_eh[1] = g[1];
	g[0] = g[1] = 0;
	annotated_switch(&run_sp, F[0].sp, F[0].stack, stack_bytes);
	in_rt = 1;
	// finish_run() restored our exception state
	on = false;
	--in_rt;
	if (main_exc) {
		std::exception_ptr e = main_exc;
		main_exc = nullptr;
		std::rethrow_exception(e);
	}
	if (!c.leak_ok && alive()) {
		std::string s;
		describe(s);
		mc::fail_hard("thread-leak", "threads still running at the end" + s);
	}
}

} // namespace sched

using namespace sched;

///////////////////////////////////////////////////////////////////////////////
// Race detector
///////////////////////////////////////////////////////////////////////////////

namespace sched {
namespace {

struct cell { clk c; uint8_t tid, mask, flags, pad; const void * pc; }; // flags: 1 used 2 write 4 atomic
struct word { uintptr_t key; uint32_t epoch; uint32_t next; cell c[6]; };
const size_t shadow_words = 1 << 19;
word * SH = nullptr;
uint32_t sh_epoch = 0;
size_t sh_used = 0;

void clear_shadow_all() {
	if (!C.races) return;
	if (!SH) SH = static_cast<word *>(mmap(nullptr, shadow_words * sizeof(word), PROT_READ | PROT_WRITE,
										   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	++sh_epoch;
	sh_used = 0;
}

word * find_word(uintptr_t k, bool create) {
	size_t i = (k * 0x9e3779b97f4a7c15ull >> 40) & (shadow_words - 1);
	for (size_t p = 0; p < 4096; ++p, i = (i + 1) & (shadow_words - 1)) {
		word & w = SH[i];
		if (w.epoch != sh_epoch) {
			if (!create) return nullptr;
			w.key = k;
			w.epoch = sh_epoch;
			memset(w.c, 0, sizeof w.c);
			++sh_used;
			return &w;
		}
		if (w.key == k) return &w;
	}
	return nullptr;
}

std::string func_of(const void * pc) {
	Dl_info i;
	if (dladdr(pc, &i) && i.dli_sname) {
		int st;
		char * d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
		std::string s = st == 0 ? d : i.dli_sname;
		free(d);
		// strip the argument list
		int depth = 0;
		for (size_t k = 0; k < s.size(); ++k) {
			if (s[k] == '<') ++depth;
			else if (s[k] == '>') --depth;
			else if (s[k] == '(' && depth == 0 && k > 0 && s.compare(k, 11, "(anonymous ") != 0) { s.resize(k); break; }
		}
		return s;
	}
	char b[32];
	uintptr_t base = dladdr(pc, &i) ? reinterpret_cast<uintptr_t>(i.dli_fbase) : 0;
	snprintf(b, sizeof b, "+0x%lx", reinterpret_cast<uintptr_t>(pc) - base);
	return b;
}

void report_race(const cell & a, const cell & b, uintptr_t addr) {
	in_rt += 1;
	std::string fa = func_of(a.pc), fb = func_of(b.pc);
	std::string x = fa < fb ? fa + " | " + fb : fb + " | " + fa;
	char addrs[96];
	Dl_info i;
	uintptr_t base = dladdr(a.pc, &i) ? reinterpret_cast<uintptr_t>(i.dli_fbase) : 0;
	snprintf(addrs, sizeof addrs, "pc +0x%lx / +0x%lx, address %p", reinterpret_cast<uintptr_t>(a.pc) - base,
			 reinterpret_cast<uintptr_t>(b.pc) - base, reinterpret_cast<void *>(addr));
	mc::fail_hard("data-race:" + x.substr(0, 110), mc::strm() << "unordered conflicting accesses: thread " << int(a.tid)
				  << ((a.flags & 2) ? " writes" : " reads") << " in " << fa << ", thread " << int(b.tid)
				  << ((b.flags & 2) ? " writes" : " reads") << " in " << fb << " (" << addrs << ")");
}

inline void access_word(uintptr_t k, uint8_t mask, uint8_t flags, const void * pc, uintptr_t addr) {
	word * w = find_word(k, true);
	if (!w) return;
	fiber & f = F[cur];
	cell n;
	n.c = f.vc[cur];
	n.tid = cur; n.mask = mask; n.flags = flags | 1; n.pad = 0; n.pc = pc;
	int slot = -1;
	for (int i = 0; i < 6; ++i) {
		cell & c = w->c[i];
		if (!c.flags) { if (slot < 0) slot = i; continue; }
		if (c.tid == cur) {
			if (c.mask == mask && (c.flags & 6) == (flags & 6)) { slot = i; continue; }
			if ((c.mask & ~mask) == 0 && (!(c.flags & 2) || (flags & 2)) && (!(flags & 4) || (c.flags & 4))) slot = i;
			continue;
		}
		if (!(c.mask & mask)) continue;
		if (!((c.flags | flags) & 2)) continue;
		if ((c.flags & flags) & 4) continue;
		if (c.c > f.vc[c.tid]) report_race(c, n, addr);
		else if ((flags & 2) && (c.mask & ~mask) == 0) { if (slot < 0) slot = i; } // dominated
	}
	if (slot < 0) slot = (addr >> 3 ^ f.seq) % 6;
	w->c[slot] = n;
}

inline void access(uintptr_t a, size_t n, uint8_t flags, const void * pc) {
	if (!on || in_rt || !C.races || n_fibers < 2) return;
	if (a == reinterpret_cast<uintptr_t>(&errno)) return; // every thread has its own
	++in_rt;
	while (n) {
		uintptr_t k = a >> 3;
		unsigned off = a & 7;
		unsigned l = 8 - off < n ? 8 - off : unsigned(n);
		access_word(k, uint8_t(((1u << l) - 1) << off), flags, pc, a);
		a += l;
		n -= l;
	}
	--in_rt;
}

void forget(uintptr_t a, size_t n) {
	if (!SH) return;
	uintptr_t e = (a + n) >> 3;
	if (sh_used == 0) return;
	for (uintptr_t k = a >> 3; k < e; ++k) {
		word * w = find_word(k, false);
		if (w) memset(w->c, 0, sizeof w->c);
	}
}

void forget_objects(uintptr_t a, size_t n) {
	// A destroyed object must not pass its history on to whatever is allocated there next.
	if (n > 1 << 16) n = 1 << 16;
	for (uintptr_t p = a & ~uintptr_t(7); p < a + n; p += 8) {
		size_t i = (p >> 3) * 0x9e3779b97f4a7c15ull >> 40 & (max_objects - 1);
		for (int q = 0; q < max_objects; ++q, i = (i + 1) & (max_objects - 1)) {
			object & o = O[i];
			if (o.epoch != epoch) break;
			if (o.addr == reinterpret_cast<void *>(p)) {
				o.w = o.r = 0;
				memset(o.vc, 0, sizeof o.vc);
				break;
			}
		}
	}
}

} // unnamed
} // namespace sched

extern "C" {

void free(void * p) {
	if (p && on) {
		++in_rt;
		size_t n = malloc_usable_size(p);
		if (C.races) forget(reinterpret_cast<uintptr_t>(p), n);
		if (n < 4096) forget_objects(reinterpret_cast<uintptr_t>(p), n);
		--in_rt;
	}
	if (__interceptor_free) __interceptor_free(p);
	else __libc_free(p);
}

///////////////////////////////////////////////////////////////////////////////
// pthreads
///////////////////////////////////////////////////////////////////////////////

int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }

int pthread_mutex_lock(pthread_mutex_t * m) {
	if (!on || in_rt) return 0;
	rt_guard g;
	object & o = obj(m);
	if (o.owner == cur) {
		if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++m->__data.__count; return 0; }
		mc::fail_hard("self-deadlock", "a thread locks a mutex it already holds");
	}
	do_lock(m);
	return 0;
}

int pthread_mutex_trylock(pthread_mutex_t * m) {
	if (!on || in_rt) return 0;
	rt_guard g;
	reschedule();
	object & o = obj(m);
	op(o, 2);
	if (o.owner != -1) return EBUSY;
	o.owner = cur;
	acquire(o);
	return 0;
}

int pthread_mutex_unlock(pthread_mutex_t * m) {
	if (!on || in_rt) return 0;
	rt_guard g;
	object & o = obj(m);
	if (o.owner != cur) mc::fail_hard("bad-unlock", "a thread unlocks a mutex it does not hold");
	if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && m->__data.__count) { --m->__data.__count; return 0; }
	o.owner = -1;
	F[cur].chain = mc::mix(F[cur].chain, 3);
	release(o);
	return 0;
}

int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

static int cond_wait(pthread_cond_t * c, pthread_mutex_t * m, bool timed) {
	if (!on || in_rt) { errno = EINVAL; mc::fail_hard("harness", "condition wait outside the scheduler"); }
	rt_guard g;
	object & o = obj(m);
	if (o.owner != cur) mc::fail_hard("bad-wait", "condition wait without holding the mutex");
	fiber & f = F[cur];
	reschedule(); // a notification sent without the mutex may come first
	op(obj(c), 5);
	o.owner = -1;
	release(o);
	f.st = w_cond;
	f.obj = c;
	f.obj2 = m;
	f.timed = timed;
	f.signalled = f.timed_out = false;
	reschedule();
	f.st = running;
	f.signalled = false;
	object & o2 = obj(m);
	o2.owner = cur;
	op(o2, 6);
	acquire(o2);
	return f.timed_out ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec *) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const timespec *) { return cond_wait(c, m, true); }

int pthread_cond_signal(pthread_cond_t * c) {
	if (!on || in_rt) return 0;
	rt_guard g;
	reschedule();
	op(obj(c), 7);
	int w[max_threads], n = 0;
	for (int i = 0; i < n_fibers; ++i) if (F[i].st == w_cond && F[i].obj == c && !F[i].signalled) w[n++] = i;
	if (n == 0) return 0;
	int k = n > 1 && C.notify_choice ? mc::choose_internal(n) : 0;
	F[w[k]].signalled = true;
	F[w[k]].chain = mc::mix(F[w[k]].chain, F[cur].chain);
	return 0;
}

int pthread_cond_broadcast(pthread_cond_t * c) {
	if (!on || in_rt) return 0;
	rt_guard g;
	reschedule();
	op(obj(c), 8);
	for (int i = 0; i < n_fibers; ++i) if (F[i].st == w_cond && F[i].obj == c && !F[i].signalled) {
		F[i].signalled = true;
		F[i].chain = mc::mix(F[i].chain, F[cur].chain);
	}
	return 0;
}

int pthread_create(pthread_t * t, const pthread_attr_t *, void * (*fn)(void *), void * arg) {
	if (!on) return EAGAIN;
	rt_guard g;
	reschedule();
	if (create_faults_left > 0 && mc::choose_internal(2)) {
		--create_faults_left;
		F[cur].chain = mc::mix(F[cur].chain, 99);
		MC_TRACE("    pthread_create fails (EAGAIN)");
		return EAGAIN;
	}
	if (n_fibers == max_threads) mc::fail_hard("harness", "too many threads");
	int i = n_fibers;
	init_fiber(i);
	n_fibers = i + 1;
	fiber & f = F[i];
	f.fn = fn;
	f.arg = arg;
	f.name = mc::mix(F[cur].name, ++F[cur].children);
	F[cur].chain = mc::mix(F[cur].chain, 11);
	f.chain = mc::mix(F[cur].chain, f.name);
	join_vc(f.vc, F[cur].vc);
	f.vc[i] = 1;
	++F[cur].vc[cur];
	*t = pthread_t(0x1000 + i);
	MC_TRACE("    thread " << cur << " creates thread " << i);
	return 0;
}

pthread_t pthread_self() { return on ? pthread_t(0x1000 + cur) : pthread_t(0x999); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }

int pthread_join(pthread_t t, void ** ret) {
	if (!on) return EINVAL;
	rt_guard g;
	int i = int(t - 0x1000);
	if (i <= 0 || i >= n_fibers || F[i].reaped) return ESRCH;
	fiber & f = F[cur];
	f.st = w_join;
	f.join_target = i;
	f.obj = nullptr;
	reschedule();
	f.st = running;
	object & o = obj(&F[i]);
	op(o, 12);
	acquire(o);
	F[i].reaped = true;
	if (ret) *ret = F[i].ret;
	return 0;
}

int pthread_detach(pthread_t t) {
	if (!on) return 0;
	int i = int(t - 0x1000);
	if (i > 0 && i < n_fibers) F[i].detached = true;
	return 0;
}

int sched_yield() {
	if (!on || in_rt) return 0;
	rt_guard g;
	F[cur].yielded = true;
	reschedule();
	return 0;
}

int usleep(useconds_t us) {
	if (!on || in_rt) {
		timespec ts = { time_t(us / 1000000), long(us % 1000000) * 1000 };
		clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, nullptr);
		return 0;
	}
	return sched_yield();
}

int nanosleep(const timespec * a, timespec * b) {
	if (!on || in_rt) { errno = clock_nanosleep(CLOCK_MONOTONIC, 0, a, b); return errno ? -1 : 0; }
	return sched_yield();
}

int get_nprocs() { return cpus; }

// Static initialisation guards: libstdc++'s own would block the only OS thread.
int __cxa_guard_acquire(uint64_t * g) {
	char * c = reinterpret_cast<char *>(g);
	if (c[0]) {
		if (on && !in_rt) { rt_guard r; acquire(obj(g)); }
		return 0;
	}
	while (c[1]) {
		if (!on || in_rt) mc::fail_hard("deadlock", "recursive static initialisation");
		rt_guard r;
		F[cur].st = w_guard;
		F[cur].obj = g;
		reschedule();
		F[cur].st = running;
		if (c[0]) { acquire(obj(g)); return 0; }
	}
	c[1] = 1;
	return 1;
}
void __cxa_guard_release(uint64_t * g) {
	char * c = reinterpret_cast<char *>(g);
	c[0] = 1;
	c[1] = 0;
	if (on && !in_rt) { rt_guard r; release(obj(g)); }
}
void __cxa_guard_abort(uint64_t * g) { reinterpret_cast<char *>(g)[1] = 0; }

///////////////////////////////////////////////////////////////////////////////
// Compiler instrumentation (-fsanitize=thread), only when the code was built so
///////////////////////////////////////////////////////////////////////////////

#define PC __builtin_return_address(0)
#define A(p) reinterpret_cast<uintptr_t>(p)

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void ** p, void *) { access(A(p), 8, 2, PC); }
void __tsan_vptr_read(void ** p) { access(A(p), 8, 0, PC); }
void __tsan_read_range(void * p, size_t n) { access(A(p), n, 0, PC); }
void __tsan_write_range(void * p, size_t n) { access(A(p), n, 2, PC); }
#define RW(n) \
	void __tsan_read##n(void * p) { access(A(p), n, 0, PC); } \
	void __tsan_write##n(void * p) { access(A(p), n, 2, PC); } \
	void __tsan_volatile_read##n(void * p) { access(A(p), n, 0, PC); } \
	void __tsan_volatile_write##n(void * p) { access(A(p), n, 2, PC); } \
	void __tsan_unaligned_read##n(void * p) { access(A(p), n, 0, PC); } \
	void __tsan_unaligned_write##n(void * p) { access(A(p), n, 2, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)

static struct { int f; const void * pc; const void * a; unsigned steps, n; } spin;
static void atomic_op(const volatile void * p, size_t n, bool write, int mo, const void * pc) {
	if (!on || in_rt) return;
	const void * a = const_cast<const void *>(p);
	{
		rt_guard g;
		if (C.atomics) {
			// the same access again and again is a spin loop: let others run
			if (spin.f == cur && spin.pc == pc && spin.a == a && spin.steps == n_steps) {
				if (++spin.n >= 8) F[cur].yielded = true;
			} else spin.n = 0;
			spin.f = cur, spin.pc = pc, spin.a = a;
			reschedule();
			spin.steps = n_steps;
			op(obj(a), write ? 20 : 21, write);
		}
	}
	access(A(a), n, 4 | (write ? 2 : 0), pc);
	(void)mo;
	if (C.races) {
		rt_guard g;
		object & o = obj(a);
		// memory orders: acquire on loads/RMW unless relaxed, release on stores/RMW unless relaxed
		bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
		bool rel = write && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
		if (acq) acquire(o);
		if (rel) release(o);
	}
}

#define AT(T, bits) \
	T __tsan_atomic##bits##_load(const volatile T * a, int mo) { atomic_op(a, bits / 8, false, mo, PC); return *a; } \
	void __tsan_atomic##bits##_store(volatile T * a, T v, int mo) { atomic_op(a, bits / 8, true, mo, PC); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T * a, T v, int mo) { atomic_op(a, bits / 8, true, mo, PC); T o = *a; *a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int mo) { atomic_op(a, bits / 8, true, mo, PC); T o = *a; *a = T(o + v); return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int mo) { atomic_op(a, bits / 8, true, mo, PC); T o = *a; *a = T(o - v); return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int mo) { atomic_op(a, bits / 8, true, mo, PC); T o = *a; *a = T(o & v); return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int mo) { atomic_op(a, bits / 8, true, mo, PC); T o = *a; *a = T(o | v); return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int mo) { atomic_op(a, bits / 8, true, mo, PC); T o = *a; *a = T(o ^ v); return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T * a, T v, int mo) { atomic_op(a, bits / 8, true, mo, PC); T o = *a; *a = T(~(o & v)); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * c, T v, int mo, int) { atomic_op(a, bits / 8, true, mo, PC); \
		if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * c, T v, int mo, int) { atomic_op(a, bits / 8, true, mo, PC); \
		if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T * a, T c, T v, int mo, int) { atomic_op(a, bits / 8, true, mo, PC); \
		T o = *a; if (o == c) *a = v; return o; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// memcpy & co are called, not instrumented; --wrap redirects the calls here.
void * __real_memcpy(void *, const void *, size_t) __attribute__((weak));
void * __real_memmove(void *, const void *, size_t) __attribute__((weak));
void * __real_memset(void *, int, size_t) __attribute__((weak));
void * __wrap_memcpy(void * d, const void * s, size_t n) {
	access(A(s), n, 0, PC);
	access(A(d), n, 2, PC);
	return __real_memcpy(d, s, n);
}
void * __wrap_memmove(void * d, const void * s, size_t n) {
	access(A(s), n, 0, PC);
	access(A(d), n, 2, PC);
	return __real_memmove(d, s, n);
}
void * __wrap_memset(void * d, int c, size_t n) {
	access(A(d), n, 2, PC);
	return __real_memset(d, c, n);
}

} // extern "C"
