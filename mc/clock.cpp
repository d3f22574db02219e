// The clock seen by the code under test is constant within an execution except
// for what the harness adds, so no schedule or history depends on real time.
#include "sched.h"
#include "clock.h"
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

namespace { uint64_t virt = 1600000000ull * 1000000000ull; bool on = false; uint64_t step = 0; }

namespace mcclock {
void enable(uint64_t s) { on = true; virt = 1600000000ull * 1000000000ull; step = s; }
void disable() { on = false; }
void advance(uint64_t ns) { virt += ns; }
}

extern "C" {
int clock_gettime(clockid_t c, timespec * t) noexcept {
	if (!on && !sched::active()) return syscall(SYS_clock_gettime, c, t);
	virt += step;
	t->tv_sec = virt / 1000000000ull;
	t->tv_nsec = virt % 1000000000ull;
	return 0;
}
int gettimeofday(timeval * tv, void *) noexcept {
	timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	tv->tv_sec = t.tv_sec;
	tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}
time_t time(time_t * p) noexcept {
	timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	if (p) *p = t.tv_sec;
	return t.tv_sec;
}
}
