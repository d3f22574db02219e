// C13: the job pool and the parallel sort under every schedule
#include "world.h"
#include <tpie/job.h>
#include <tpie/parallel_sort.h>
#include <tpie/progress_indicator_base.h>
#include <algorithm>
#include <memory>

namespace {

using namespace tpie;

struct bench {
	std::vector<int> runs, done;   // per job, written by the job, read after a join
	std::vector<int> parent;
};

struct tree_job : public job {
	bench & b;
	int id;
	bool late;                     // children are enqueued before the job's own work
	std::vector<tree_job *> kids;
	tree_job(bench & b, int id, bool late) : b(b), id(id), late(late) {}
	void operator()() override {
		if (!late) ++b.runs[id];
		for (auto k : kids) k->enqueue(this);
		if (late) ++b.runs[id];
	}
	void on_done() override { ++b.done[id]; }
};

std::string shape(const std::vector<int> & p) { return mc::show(p); }

/// Every forest of up to n jobs, run `rounds` times.
void forest_body(int max_jobs, int rounds, int resize) {
	int n = 1 + mc::choose(max_jobs);
	bench b;
	b.parent.assign(n, -1);
	for (int i = 1; i < n; ++i) b.parent[i] = mc::choose(i + 1) - 1;
	bool late = mc::choose_bool();
	bool reverse_joins = mc::choose_bool();
	bool poll = !reverse_joins && mc::choose_bool();
	b.runs.assign(n, 0); b.done.assign(n, 0);
	std::vector<std::unique_ptr<tree_job>> jobs;
	for (int i = 0; i < n; ++i) jobs.emplace_back(new tree_job(b, i, late));
	std::vector<int> roots;
	for (int i = 0; i < n; ++i) { if (b.parent[i] >= 0) jobs[b.parent[i]]->kids.push_back(jobs[i].get()); else roots.push_back(i); }
	MC_TRACE("forest " << shape(b.parent) << (late ? " children first" : ""));
	auto root_of = [&](int i) { while (b.parent[i] >= 0) i = b.parent[i]; return i; };
	auto complete = [&](int r, int round, const char * when) {
		for (int i = 0; i < n; ++i) if (root_of(i) == r)
			MC_CHECK(b.runs[i] == round && b.done[i] == round, "job-count", when << ": job " << i << " of forest " << shape(b.parent) << " ran " << b.runs[i] << " times and was done " << b.done[i] << " times, expected " << round);
	};
	for (int round = 1; round <= rounds; ++round) {
		for (int r : roots) jobs[r]->enqueue();
		if (resize) set_worker_count(resize);
		std::vector<int> order = roots;
		if (reverse_joins) std::reverse(order.begin(), order.end());
		for (int r : order) {
			if (poll && jobs[r]->is_done()) complete(r, round, "after is_done()");
			MC_TRACE("join " << r);
			jobs[r]->join();
			complete(r, round, "after join()");
			MC_CHECK(jobs[r]->is_done(), "job-done", "is_done() is false after join()");
		}
	}
	jobs.clear();
	mc::outcome(mc::hash_seq(b.runs, mc::hash_seq(b.parent)));
	uint64_t h = mc::hash_seq(b.parent);
	mc::state(mc::mix(h, late * 4 + reverse_joins * 2 + poll));
}

/// A job that is joined and then deleted at once while others go on.
void lifetime_body() {
	bench b;
	b.parent.assign(3, -1); b.runs.assign(3, 0); b.done.assign(3, 0);
	std::unique_ptr<tree_job> x(new tree_job(b, 0, false)), y(new tree_job(b, 1, false)), z(new tree_job(b, 2, false));
	bool nested = mc::choose_bool();
	if (nested) { x->kids.push_back(y.get()); b.parent[1] = 0; }
	x->enqueue();
	if (!nested) y->enqueue();
	x->join();
	MC_CHECK(b.runs[0] == 1 && b.done[0] == 1, "job-count", "joined job ran " << b.runs[0]);
	x.reset();
	if (nested) { MC_CHECK(b.runs[1] == 1 && b.done[1] == 1, "job-count", "child ran " << b.runs[1]); y.reset(); }
	std::vector<std::unique_ptr<char[]>> junk; // reuse the memory
	for (int i = 0; i < 8; ++i) { junk.emplace_back(new char[sizeof(tree_job)]); std::fill_n(junk.back().get(), sizeof(tree_job), 0x5a); }
	z->enqueue();
	z->join();
	if (!nested) y->join();
	z.reset(); y.reset();
	MC_CHECK(b.runs[1] == 1 && b.runs[2] == 1, "job-count", "others ran " << mc::show(b.runs));
	mc::outcome(nested);
}

/// More jobs than the queue holds: the rest is run by the enqueueing thread.
void full_queue_body() {
	bench b;
	int n = 126 + mc::choose(6);
	b.parent.assign(n, -1); b.runs.assign(n, 0); b.done.assign(n, 0);
	bool nested = mc::choose_bool();
	std::vector<std::unique_ptr<tree_job>> jobs;
	for (int i = 0; i < n; ++i) jobs.emplace_back(new tree_job(b, i, false));
	if (nested) { for (int i = 1; i < n; ++i) jobs[0]->kids.push_back(jobs[i].get()); jobs[0]->enqueue(); }
	else for (auto & j : jobs) j->enqueue();
	for (int i = 0; i < (nested ? 1 : n); ++i) jobs[i]->join();
	for (int i = 0; i < n; ++i) MC_CHECK(b.runs[i] == 1 && b.done[i] == 1, "job-count", "job " << i << " of " << n << " ran " << b.runs[i] << " times");
	mc::outcome(mc::mix(n, nested));
	mc::state(mc::mix(n, nested));
}

/// Every way to use the pool briefly and shut it down.
void pool_body() {
	bench b;
	b.parent.assign(2, -1); b.runs.assign(2, 0); b.done.assign(2, 0);
	tree_job x(b, 0, false), y(b, 1, false);
	int k = mc::choose(4);
	MC_TRACE("resizes " << k);
	if (k == 1) set_worker_count(1);
	if (k == 2) { set_worker_count(3); set_worker_count(1); }
	x.enqueue();
	if (k == 3) set_worker_count(1);
	y.enqueue();
	x.join(); y.join();
	MC_CHECK(b.runs[0] == 1 && b.runs[1] == 1, "job-count", mc::show(b.runs));
	mc::outcome(k);
	mc::state(k);
}

struct recorder : public progress_indicator_base {
	stream_size_type max_seen = 0;
	bool bad = false;
	recorder() : progress_indicator_base(0) {}
	void refresh() override {
		if (get_current() < max_seen) bad = true;
		max_seen = get_current();
	}
};

template <size_t MinSize, typename C>
void sort_all(std::vector<int> v, C comp, bool progress) {
	std::vector<int> e = v;
	std::sort(e.begin(), e.end());
	typedef std::vector<int>::iterator it;
	MC_TRACE("sort " << mc::show(v));
	if (progress) {
		recorder r;
		parallel_sort_impl<it, C, true, MinSize> s(&r);
		s(v.begin(), v.end(), comp);
		MC_CHECK(!r.bad, "sort-progress", "progress went backwards");
		MC_CHECK(r.get_current() <= r.get_range(), "sort-progress", "progress " << r.get_current() << " beyond " << r.get_range());
	} else {
		parallel_sort_impl<it, C, false, MinSize> s(nullptr);
		s(v.begin(), v.end(), comp);
	}
	MC_CHECK(std::is_sorted(v.begin(), v.end(), comp), "sorted", "sorted to " << mc::show(v));
	{ std::vector<int> w = v; std::sort(w.begin(), w.end()); MC_CHECK(w == e, "permutation", "sorted to " << mc::show(v)); }
	mc::outcome(mc::hash_seq(v));
}

std::vector<int> keys(int n, int k) {
	std::vector<int> v;
	for (int i = 0; i < n; ++i) v.push_back(mc::choose(k));
	return v;
}

/// Every input on one schedule per worker count
void sort_inputs_body(int max_n, int k) {
	int n = mc::choose(max_n + 1);
	std::vector<int> v = keys(n, k);
	switch (mc::choose(5)) {
	case 0: sort_all<1>(v, std::less<int>(), false); break;
	case 1: sort_all<2>(v, std::less<int>(), true); break;
	case 2: sort_all<3>(v, std::greater<int>(), false); break;
	case 3: sort_all<8>(v, std::less<int>(), true); break;
	case 4: sort_all<2>(v, [](int a, int b) { return a / 2 < b / 2; }, true); break;
	}
	mc::state(mc::hash_seq(v, n));
}
/// Large inputs: all patterns of eight-way pivots
void sort_large_body() {
	int n = 8 + mc::choose(mc::by_tier(56, 200)), pat = mc::choose(6);
	std::vector<int> v;
	for (int i = 0; i < n; ++i) v.push_back(pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? 0 : pat == 3 ? i % 2 : pat == 4 ? i * 37 % n : std::min(i, n - i));
	if (mc::choose_bool()) sort_all<2>(v, std::less<int>(), true);
	else sort_all<10>(v, std::less<int>(), true);
	mc::state(mc::mix(n, pat));
}
/// Some inputs under every schedule
void sort_schedules_body(int max_n) {
	static const std::vector<std::vector<int>> in = {{}, {1}, {2, 1}, {1, 2}, {3, 1, 2}, {1, 1, 1}, {2, 1, 2, 1}, {1, 2, 3, 4}, {4, 3, 2, 1}, {5, 1, 4, 2, 3}, {2, 2, 1, 1, 3, 3}};
	std::vector<std::vector<int>> ok;
	for (auto & x : in) if (int(x.size()) <= max_n) ok.push_back(x);
	std::vector<int> v = ok[mc::choose(ok.size())];
	bool p = mc::choose_bool();
	sort_all<2>(v, std::less<int>(), p);
	mc::state(mc::hash_seq(v, p));
}

void add(const std::string & name, const std::string & what, int tiers, int cpus, int preempt, bool spurious, std::function<void()> f) {
	mc::suite_t s;
	s.name = name; s.tiers = tiers;
	s.what = mc::strm() << what << "; " << cpus << " processor(s), " << (preempt < 0 ? std::string("one schedule") : mc::strm() << "every schedule with at most " << preempt << " preemptions" << (spurious ? " or spurious wake-ups" : ""));
	s.body = [=]() {
		sched::set_cpus(cpus);
		world::config c;
		c.job_manager = true;
		c.s.preemptions = std::max(preempt, 0);
		c.s.spurious = spurious;
		if (preempt < 0) { c.s.reduce = true; c.s.notify_choice = false; }
		world::run(c, f);
	};
	mc::add(s);
}

} // unnamed

int main(int argc, char ** argv) {
#ifdef MC_RACES
	const int big = 2; // several times more scheduling points
#else
	const int big = 3;
#endif
	add("forest_1", "every forest of up to 4 jobs, children enqueued before or after, joined in both orders", 3, 1, 2, true, []() { forest_body(4, 1, 0); });
	add("forest_2", "every forest of up to 3 jobs", 3, 2, 2, true, []() { forest_body(3, 1, 0); });
	add("forest_2_deep", "every forest of up to 4 jobs", 2, 2, 3, true, []() { forest_body(4, 1, 0); });
	add("forest_3", "every forest of up to 3 jobs", big, 3, 1, false, []() { forest_body(3, 1, 0); });
	add("forest_3_deep", "every forest of up to 3 jobs", 2, 3, 2, true, []() { forest_body(3, 1, 0); });
	add("forest_rounds", "every forest of up to 2 jobs, enqueued and joined twice", big, 2, 2, true, []() { forest_body(2, 2, 0); });
	add("forest_resize", "every forest of up to 3 jobs, the pool resized from 2 to 1 workers while they run", 3, 2, 1, false, []() { forest_body(3, 1, 1); });
	add("forest_grow", "every forest of up to 3 jobs, the pool resized from 1 to 2 workers while they run", 3, 1, 1, false, []() { forest_body(3, 1, 2); });
	add("lifetime", "jobs deleted right after their join", 3, 2, 2, true, lifetime_body);
	add("lifetime_deep", "the same", 2, 2, 4, true, lifetime_body);
	add("full_queue", "126 to 131 jobs, the queue holds 128", 1, 1, 0, false, full_queue_body);
	add("full_queue_deep", "the same", 2, 2, 1, false, full_queue_body);
	add("pool", "every listed way to resize and use the pool", 3, 2, 2, true, pool_body);
	add("pool_deep", "the same", 2, 2, 3, true, pool_body);
	add("unknown_cpus", "11 inputs, number of processors not known", 3, 0, 1, false, []() { sort_schedules_body(6); });
	add("many_cpus", "every forest of up to 2 jobs on a machine with 5 processors", 3, 5, 0, false, []() { forest_body(2, 1, 0); });
	add("sort_inputs", "every sequence of up to 6 items of 3 keys, four sizes of sequential parts, three orders", 1, 1, -1, false, []() { sort_inputs_body(6, 3); });
	add("sort_inputs", "every sequence of up to 7 items of 4 keys, four sizes of sequential parts, three orders", 2, 1, -1, false, []() { sort_inputs_body(7, 4); });
	add("sort_large", "8 to 63 (207) items in 6 patterns", 3, 2, -1, false, sort_large_body);
	add("sort_1", "11 inputs of up to 6 items", 3, 1, 2, true, []() { sort_schedules_body(6); });
	add("sort_2", "9 inputs of up to 4 items", 3, 2, 2, true, []() { sort_schedules_body(4); });
	add("sort_3", "9 inputs of up to 4 items", big, 3, 1, false, []() { sort_schedules_body(4); });
	add("sort_2_deep", "11 inputs of up to 6 items", 2, 2, 3, true, []() { sort_schedules_body(6); });
	add("sort_3_deep", "10 inputs of up to 5 items", 2, 3, 2, false, []() { sort_schedules_body(5); });
	return mc::main(argc, argv);
}
