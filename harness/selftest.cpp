// The explorer itself: programs with known defects must be reported, correct ones must not.
#include "../mc/mc.h"
#include "../mc/sched.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <memory>

namespace {
void add(const std::string & name, int preempt, bool spurious, std::function<void()> f) {
	mc::suite_t s;
	s.name = name; s.what = name;
	s.body = [=]() {
		sched::config c;
		c.preemptions = preempt; c.spurious = spurious;
#ifdef MC_RACES
		c.races = c.atomics = true;
#endif
		sched::run(c, f);
	};
	mc::add(s);
}
}

int main(int argc, char ** argv) {
	add("ok_mutex", 3, true, []() {
		int x = 0; std::mutex m;
		auto f = [&]() { std::lock_guard<std::mutex> l(m); ++x; };
		std::thread a(f), b(f); f(); a.join(); b.join();
		MC_CHECK(x == 3, "x", x);
	});
	add("bad_race", 2, false, []() {
		int x = 0;
		auto f = [&]() { ++x; };
		std::thread a(f), b(f); a.join(); b.join();
		(void)*(volatile int *)&x;
	});
	add("bad_lost_update", 2, false, []() { // needs atomics as scheduling points
		std::atomic<int> x(0);
		auto f = [&]() { int v = x.load(); x.store(v + 1); };
		std::thread a(f), b(f); a.join(); b.join();
		MC_CHECK(x == 2, "x", x.load());
	});
	add("bad_lost_update_locked", 2, false, []() {
		int x = 0; std::mutex m;
		auto f = [&]() { int v; { std::lock_guard<std::mutex> l(m); v = x; } std::lock_guard<std::mutex> l(m); x = v + 1; };
		std::thread a(f), b(f); a.join(); b.join();
		MC_CHECK(x == 2, "x", x);
	});
	add("bad_deadlock", 1, false, []() {
		std::mutex m, n;
		std::thread a([&]() { std::lock_guard<std::mutex> l(m); std::lock_guard<std::mutex> k(n); });
		{ std::lock_guard<std::mutex> l(n); std::lock_guard<std::mutex> k(m); }
		a.join();
	});
	add("bad_spurious", 1, true, []() {
		std::mutex m; std::condition_variable c; bool ready = false;
		std::thread a([&]() { std::lock_guard<std::mutex> l(m); ready = true; c.notify_one(); });
		{ std::unique_lock<std::mutex> l(m); if (!ready) c.wait(l); MC_CHECK(ready, "woken", "not ready"); }
		a.join();
	});
	add("bad_missed_notify", 1, false, []() {
		std::mutex m; std::condition_variable c; std::atomic<bool> ready(false);
		std::thread a([&]() { ready = true; c.notify_one(); });
		{ std::unique_lock<std::mutex> l(m); while (!ready) { c.wait(l); } }
		a.join();
	});
	add("bad_relaxed_publication", 1, false, []() {
		int data = 0; std::atomic<int> flag(0);
		std::thread a([&]() { data = 1; flag.store(1, std::memory_order_relaxed); });
		if (flag.load(std::memory_order_acquire)) (void)*(volatile int *)&data;
		a.join();
	});
	add("ok_publication", 2, false, []() {
		int data = 0; std::atomic<int> flag(0);
		std::thread a([&]() { data = 1; flag.store(1, std::memory_order_release); });
		if (flag.load(std::memory_order_acquire)) MC_CHECK(data == 1, "data", data);
		a.join();
	});
	add("bad_join_missing", 1, false, []() {
		auto x = std::make_shared<int>(0);
		std::thread a([x]() { ++*x; });
		(void)*(volatile int *)x.get();
		a.join();
	});
	add("ok_shared_ptr", 2, false, []() {
		auto x = std::make_shared<std::atomic<int>>(0);
		std::thread a([x]() { ++*x; }), b([x]() { ++*x; });
		x.reset();
		a.join(); b.join();
	});
	add("bad_thread_leak", 1, false, []() { std::thread a([]() { std::mutex m; std::condition_variable c; std::unique_lock<std::mutex> l(m); for (;;) c.wait(l); }); a.detach(); });
	return mc::main(argc, argv);
}
