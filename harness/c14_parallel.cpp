// C14: parallel pipeline sections under every schedule
#include "world.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/progress_indicator_null.h>
#include <algorithm>

namespace {

using namespace tpie;
using namespace tpie::pipelining;

struct boom { int who; };

/// What the stages of one execution do.
struct plan {
	int items = 0;          // pushed by the source: 1..items
	int kind = 0;           // what a worker does with an item
	int throw_item = 0;     // a worker throws at this item
	int throw_begin = -1;   // this worker throws in begin()
	int throw_end = -1;     // this worker throws in end()
	int sink_throw = 0;     // the consumer throws at this output (counted from 1)
	int source_throw = -1;  // the source throws after that many items
	int source_begin = 0;   // the source throws in begin()
	bool steps = false;
};
plan P;
std::vector<int> out;
int sink_begun, sink_ended;
int worker_ids;

enum { IDENTITY, FILTER, EXPAND, AT_END, TWO_NODES, KINDS };
const char * kind_name[] = {"identity", "drop the odd", "n copies of n", "hold back until end()", "two stages"};

/// The images of one item.
void image(int kind, int x, std::vector<int> & r) {
	switch (kind) {
	case FILTER: if (x % 2 == 0) r.push_back(10 * x); break;
	case EXPAND: for (int i = 0; i < x; ++i) r.push_back(10 * x + i); break;
	default: r.push_back(10 * x);
	}
}

template <typename dest_t>
class source_type : public node {
	dest_t dest;
public:
	source_type(dest_t d) : dest(std::move(d)) { add_push_destination(dest); set_name("source"); }
	void propagate() override { forward<stream_size_type>("items", P.items); }
	void begin() override {
		if (P.source_begin) throw boom{1};
		node::begin();
	}
	void go() override {
		for (int i = 1; i <= P.items; ++i) {
			if (P.source_throw == i - 1) throw boom{2};
			dest.push(i);
		}
		if (P.source_throw == P.items) throw boom{2};
	}
};

template <typename dest_t>
class worker_type : public node {
	dest_t dest;
	int id = -1;
	int held = 0, pushing = 0;
	std::vector<int> later;
public:
	typedef int item_type;
	worker_type(dest_t d) : dest(std::move(d)) { add_push_destination(dest); set_name("worker"); id = worker_ids++; }
	worker_type(worker_type &&) = default;
	void propagate() override { if (P.steps) set_steps(fetch<stream_size_type>("items")); }
	void begin() override {
		node::begin();
		if (P.throw_begin == id) throw boom{3};
	}
	void push(int x) {
		MC_CHECK(++pushing == 1, "reentered", "two items in one worker at once");
		if (P.steps) step();
		if (P.throw_item == x) throw boom{4};
		std::vector<int> r;
		image(P.kind, x, r);
		if (P.kind == AT_END) later.insert(later.end(), r.begin(), r.end());
		else for (int y : r) dest.push(y);
		--pushing;
	}
	void end() override {
		for (int y : later) dest.push(y);
		later.clear();
		if (P.throw_end == id) throw boom{5};
	}
};

template <typename dest_t>
class half_type : public node {
	dest_t dest;
public:
	typedef int item_type;
	half_type(dest_t d) : dest(std::move(d)) { add_push_destination(dest); }
	void push(int x) { dest.push(x); }
};

class sink_type : public node {
public:
	typedef int item_type;
	sink_type() { set_name("sink"); }
	void begin() override { ++sink_begun; }
	void push(int x) {
		MC_CHECK(sink_begun == 1 && sink_ended == 0, "sink-lifecycle", "item pushed outside begin..end");
		if (P.sink_throw && int(out.size()) + 1 == P.sink_throw) throw boom{6};
		out.push_back(x);
	}
	void end() override { ++sink_ended; }
};

typedef pipe_begin<factory<source_type>> source;
typedef pipe_middle<factory<worker_type>> worker;
typedef pipe_middle<factory<half_type>> half;
typedef pipe_end<termfactory<sink_type>> sink;

/// Runs the pipeline; returns who threw (0: nobody, -1: something else)
int run_pipeline(bool ordered, int jobs, int buf) {
	out.clear();
	sink_begun = sink_ended = 0;
	worker_ids = 0;
	maintain_order_type o = ordered ? maintain_order : arbitrary_order;
	progress_indicator_null pi;
	try {
		if (P.kind == TWO_NODES) {
			pipeline p = source() | parallel(worker() | half(), o, jobs, buf) | sink();
			p(1 << 20, pi, TPIE_FSI);
		} else {
			pipeline p = source() | parallel(worker(), o, jobs, buf) | sink();
			p(1 << 20, pi, TPIE_FSI);
		}
	} catch (const boom & b) {
		return b.who;
	} catch (const std::exception & e) {
		MC_TRACE("exception " << e.what());
		return -1;
	}
	return 0;
}

void check_complete(bool ordered, const char * when) {
	std::vector<int> expect;
	for (int i = 1; i <= P.items; ++i) image(P.kind, i, expect);
	std::vector<int> got = out;
	if (!ordered || P.kind == AT_END) { std::sort(expect.begin(), expect.end()); std::sort(got.begin(), got.end()); }
	MC_CHECK(got == expect, "items", when << kind_name[P.kind] << " of 1.." << P.items << (ordered ? " in order" : "") << " gave " << mc::show(out));
	MC_CHECK(sink_begun == 1 && sink_ended == 1, "sink-lifecycle", "sink begun " << sink_begun << " ended " << sink_ended);
	mc::transition(P.items);
	mc::state(mc::hash_seq(out, P.kind));
}

void items_body(int jobs, int max_items, int max_buf, bool steps) {
	P = plan();
	P.steps = steps;
	P.kind = mc::choose(KINDS);
	P.items = mc::choose(max_items + 1);
	int buf = 1 + mc::choose(max_buf);
	bool ordered = mc::choose_bool();
	MC_TRACE(kind_name[P.kind] << " of " << P.items << " items, buffers of " << buf << (ordered ? ", in order" : ""));
	int r = run_pipeline(ordered, jobs, buf);
	MC_CHECK(r == 0, "exception", "pipeline threw " << r);
	check_complete(ordered, "");
}

/// Some stage throws; the caller gets that exception and the next pipeline works.
void throw_body(int jobs, int items, int max_buf, bool begins) {
	P = plan();
	P.items = items;
	bool ordered = mc::choose_bool();
	int buf = 1 + mc::choose(max_buf);
	int want = 0;
	int k = begins ? 5 + mc::choose(2) : mc::choose(5);
	switch (k) {
	case 0: P.kind = mc::choose_bool() ? EXPAND : IDENTITY; P.throw_item = 1 + mc::choose(items); want = 4; break;
	case 1: P.kind = mc::choose_bool() ? EXPAND : IDENTITY; P.sink_throw = 1 + mc::choose(P.kind == EXPAND ? items * (items + 1) / 2 : items); want = 6; break;
	case 2: P.source_throw = mc::choose(items + 1); want = 2; break;
	case 3: P.throw_end = mc::choose(jobs); want = 5; break;
	case 4: P.throw_item = 1; P.sink_throw = 1; want = -2; break; // either
	case 5: P.source_begin = 1; want = 1; break;
	case 6: P.throw_begin = mc::choose(jobs); want = 3; break;
	}
	MC_TRACE("throwing: " << k << ", buffers of " << buf << (ordered ? ", in order" : ""));
	int r = run_pipeline(ordered, jobs, buf);
	if (want == -2) MC_CHECK(r == 4 || r == 6, "exception", "two stages threw, the pipeline threw " << r);
	else MC_CHECK(r == want, "exception", "stage " << want << " threw, the pipeline threw " << r);
	mc::outcome(r);
	mc::state(mc::mix(r, mc::hash_seq(out)));
	// No item was duplicated or made up
	std::vector<int> all, got = out;
	for (int i = 1; i <= P.items; ++i) image(P.kind, i, all);
	std::sort(got.begin(), got.end());
	MC_CHECK(std::includes(all.begin(), all.end(), got.begin(), got.end()), "items", "outputs " << mc::show(out));
	mc::stop_branching();
	plan q; q.items = 2; P = q;
	MC_CHECK(run_pipeline(true, jobs, 1) == 0, "next", "the next pipeline failed");
	check_complete(true, "after an exception ");
}

/// Thread creation fails
void create_body(int jobs) {
	P = plan();
	P.items = 2;
	sched::set_create_faults(1);
	int r = run_pipeline(false, jobs, 1);
	sched::set_create_faults(0);
	if (r == 0) check_complete(false, "");
	mc::outcome(r);
	MC_CHECK(r == 0 || r == -1, "exception", "pipeline threw " << r);
	mc::stop_branching();
	MC_CHECK(run_pipeline(true, jobs, 1) == 0, "next", "the next pipeline failed");
	check_complete(true, "after a failed thread creation ");
}

/// Two sections one after the other, and a pipeline run twice
void chained_body(int jobs) {
	out.clear(); sink_begun = sink_ended = worker_ids = 0;
	P = plan();
	P.items = 1 + mc::choose(3);
	bool o1 = mc::choose_bool(), o2 = mc::choose_bool();
	progress_indicator_null pi;
	pipeline p = source() | parallel(worker(), o1 ? maintain_order : arbitrary_order, jobs, 1)
		| parallel(half(), o2 ? maintain_order : arbitrary_order, jobs, 1) | sink();
	p(1 << 20, pi, TPIE_FSI);
	check_complete(o1 && o2, "chained ");
}

struct bounds { int tiers, preempt; bool spurious, faults; };

void add(const std::string & name, const std::string & what, bounds b, std::function<void()> f) {
	mc::suite_t s;
	s.name = name; s.tiers = b.tiers;
	s.what = mc::strm() << what << "; every schedule with at most " << b.preempt << " preemptions" << (b.spurious ? " or spurious wake-ups" : "")
		<< (b.faults ? ", one of the thread creations failing or none" : "");
	s.body = [=]() {
		world::config c;
		c.s.preemptions = b.preempt;
		c.s.spurious = b.spurious;
		c.block_size = 64;
		world::run(c, f);
	};
	mc::add(s);
}

} // unnamed

int main(int argc, char ** argv) {
#ifdef MC_RACES
	// Accesses to memory are what counts here, and the schedules include the atomics
	add("items_1", "1 worker, 0..3 items, buffers of 1..2 items, five kinds of workers, both orders", {3, 1, false, false}, []() { items_body(1, 3, 2, false); });
	add("items_2", "2 workers, 0..2 items, buffers of 1 item, five kinds of workers, both orders", {3, 1, false, false}, []() { items_body(2, 2, 1, false); });
	add("steps_2", "2 workers that report progress, 0..2 items", {3, 1, false, false}, []() { items_body(2, 2, 1, true); });
	add("throw_1", "1 worker, 2 items, any one stage throws at any item or at its end", {3, 1, false, false}, []() { throw_body(1, 2, 2, false); });
	add("throw_2", "2 workers, 1 item, any one stage throws at any item or at its end", {3, 1, false, false}, []() { throw_body(2, 1, 1, false); });
	add("throw_2_more", "2 workers, 2 items, any one stage throws at any item or at its end", {2, 1, false, false}, []() { throw_body(2, 2, 1, false); });
	add("throw_begin_2", "2 workers, a stage throws in begin()", {3, 1, false, false}, []() { throw_body(2, 2, 1, true); });
	add("create_2", "2 workers, 2 items", {3, 1, false, true}, []() { create_body(2); });
#else
	add("items_1", "1 worker, 0..4 items, buffers of 1..3 items, five kinds of workers, both orders", {3, 2, true, false}, []() { items_body(1, 4, 3, false); });
	add("items_2", "2 workers, 0..3 items, buffers of 1..2 items, five kinds of workers, both orders", {3, 1, false, false}, []() { items_body(2, 3, 2, false); });
	add("items_2_more", "2 workers, 0..4 items, buffers of 1..2 items, five kinds of workers, both orders", {2, 1, false, false}, []() { items_body(2, 4, 2, false); });
	add("items_2_one", "2 workers, 0..1 items, buffers of 1 item, five kinds of workers, both orders", {1, 2, true, false}, []() { items_body(2, 1, 1, false); });
	add("items_2_spurious", "2 workers, 0..2 items, buffers of 1..2 items, five kinds of workers, both orders", {2, 2, true, false}, []() { items_body(2, 2, 2, false); });
	add("items_3", "3 workers, 0..3 items, buffers of 1 item, five kinds of workers, both orders", {3, 0, false, false}, []() { items_body(3, 3, 1, false); });
	add("items_3_more", "3 workers, 0..3 items, buffers of 1 item, five kinds of workers, both orders", {2, 1, false, false}, []() { items_body(3, 3, 1, false); });
	add("steps_2", "2 workers that report progress, 0..3 items", {3, 1, false, false}, []() { items_body(2, 3, 1, true); });
	add("throw_1", "1 worker, 3 items, any one stage throws at any item or at its end", {3, 2, true, false}, []() { throw_body(1, 3, 2, false); });
	add("throw_2", "2 workers, 2 items, any one stage throws at any item or at its end", {3, 1, false, false}, []() { throw_body(2, 2, 2, false); });
	add("throw_2_more", "2 workers, 3 items, any one stage throws at any item or at its end", {2, 1, false, false}, []() { throw_body(2, 3, 2, false); });
	add("throw_begin_1", "1 worker, a stage throws in begin()", {3, 2, true, false}, []() { throw_body(1, 2, 1, true); });
	add("throw_begin_2", "2 workers, a stage throws in begin()", {3, 2, true, false}, []() { throw_body(2, 2, 1, true); });
	add("create_1", "1 worker, 2 items", {3, 2, true, true}, []() { create_body(1); });
	add("create_2", "2 workers, 2 items", {3, 1, false, true}, []() { create_body(2); });
	add("create_3", "3 workers, 2 items", {3, 0, false, true}, []() { create_body(3); });
	add("chained_1", "two sections of 1 worker each, 1..3 items", {3, 1, false, false}, []() { chained_body(1); });
#endif
	return mc::main(argc, argv);
}
