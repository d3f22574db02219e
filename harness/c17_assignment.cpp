// C17: assignment of memory and files to the stages of a pipeline
#include "world.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/runtime.h>
#include <limits>

namespace {

using namespace tpie;
using namespace tpie::pipelining;

const memory_size_type INF = std::numeric_limits<memory_size_type>::max();

struct demand { memory_size_type min, max; double fraction; };

/// A data structure that a stage declares.
struct structure { std::string name; demand d; };

struct wish {
	demand d;
	resource_type type;
	int when;                        // in the constructor, in prepare(), in propagate()
	std::vector<structure> shared;
};

struct stage : public node {
	wish w;
	memory_size_type got = 0, got_go = 0;
	std::vector<memory_size_type> got_shared;
	int changed = 0;

	explicit stage(const wish & w): w(w) { if (w.when == 0) say(); }
	stage(stage &&) = default;

	void say() {
		set_minimum_resource_usage(w.type, w.d.min);
		set_maximum_resource_usage(w.type, w.d.max);
		set_resource_fraction(w.type, w.d.fraction);
		if (w.when == 2) return;
		for (const structure & s : w.shared) {
			register_datastructure_usage(s.name, s.d.fraction);
			set_datastructure_memory_limits(s.name, s.d.min, s.d.max);
		}
	}
	void prepare() override { if (w.when == 1) say(); }
	void propagate() override { if (w.when == 2) say(); }
	void begin() override {
		got = get_available_of_resource(w.type);
		got_shared.clear();
		for (const structure & s : w.shared) got_shared.push_back(get_datastructure_memory(s.name));
	}
	void go() override { got_go = get_available_of_resource(w.type); }
	void resource_available_changed(resource_type t, memory_size_type) override { if (t == w.type) ++changed; }
};

struct runner : public tpie::pipelining::bits::pipeline_base {
	explicit runner(tpie::pipelining::bits::node_map::ptr m) { m_nodeMap = m->find_authority(); m_memory = 1; }
};

typedef std::vector<std::unique_ptr<stage>> stages;

void run(stages & s, resource_type type, memory_size_type budget) {
	runner r(s[0]->get_node_map());
	progress_indicator_null pi;
	if (type == MEMORY) r(0, pi, 10, budget, nullptr, nullptr);
	else r(0, pi, budget, 1000, nullptr, nullptr);
}

std::string show(const demand & d) {
	return mc::strm() << d.min << ".." << (d.max == INF ? std::string("inf") : std::to_string(d.max)) << " x" << d.fraction;
}

/// What is assigned in one phase, and whether that is right.
struct checker {
	memory_size_type budget = 0, total = 0, minimum = 0;
	bool fits = true, saturated = true;
	int n = 0;
	std::string what;

	void need(const demand & d) {
		if (d.min > budget || minimum > budget - d.min) fits = false; else minimum += d.min;
	}
	void take(const std::string & who, const demand & d, memory_size_type got) {
		++n;
		what += mc::strm() << " " << who << " (" << show(d) << ") got " << got;
		if (!fits) return;
		MC_CHECK(got >= d.min, "below-minimum", "budget " << budget << ":" << what);
		MC_CHECK(got <= d.max, "above-maximum", "budget " << budget << ":" << what);
		MC_CHECK(got <= budget && total <= budget - got, "over-budget", "budget " << budget << ":" << what);
		total += got;
		// Every share is rounded down, and the search for the common factor has a relative precision of 1e-6
		if (d.fraction > 0 && got < d.max && d.max - got > 1 + budget / 500000) saturated = false;
	}
	void done() {
		if (!fits || saturated) return;
		memory_size_type slack = n + budget / 500000;
		MC_CHECK(total + slack >= budget, "leftover", "budget " << budget << ", " << budget - total << " left:" << what);
	}
};

void one_phase(resource_type type, int n, const std::vector<memory_size_type> & mins, const std::vector<memory_size_type> & maxs,
	const std::vector<double> & fractions, const std::vector<memory_size_type> & budgets, bool whens)
{
	std::vector<wish> ws;
	int when = whens ? mc::choose(3) : 0;
	for (int i = 0; i < n; ++i) {
		wish w;
		w.type = type;
		w.when = when;
		w.d.min = mins[mc::choose(mins.size())];
		std::vector<memory_size_type> m;
		for (memory_size_type x : maxs) if (x >= w.d.min) m.push_back(x);
		w.d.max = m[mc::choose(m.size())];
		w.d.fraction = fractions[mc::choose(fractions.size())];
		ws.push_back(w);
	}
	mc::stop_branching();
	memory_size_type last = 0;
	for (memory_size_type b : budgets) {
		stages s;
		for (const wish & w : ws) s.emplace_back(new stage(w));
		for (int i = 0; i + 1 < n; ++i) s[i]->add_push_destination(*s[i + 1]);
		run(s, type, b);
		checker c;
		c.budget = b;
		for (int i = 0; i < n; ++i) c.need(ws[i].d);
		for (int i = 0; i < n; ++i) {
			MC_CHECK(s[i]->changed > 0, "not-told", "stage " << i << " was not told what it got");
			c.take("stage", ws[i].d, s[i]->got);
			mc::transition();
		}
		MC_CHECK(s[0]->got_go == s[0]->got, "changed-later", "assignment changed after begin()");
		c.done();
		if (c.fits) {
			MC_CHECK(c.total + c.n + b / 500000 >= last, "not-monotone", "budget " << b << ":" << c.what << ", in total less than with a smaller budget: " << last);
			last = c.total;
			mc::state(mc::mix(mc::mix(c.total, b), c.n));
		}
	}
}

/// Two (three) phases after each other and a data structure that lives over some of them
void structures_body(int phases, int per_phase, bool two) {
	std::vector<demand> nd = {{0, INF, 1}, {4, INF, 1}, {0, 6, 2}, {3, 9, 0}};
	std::vector<demand> sd = {{0, INF, 1}, {5, INF, 1}, {0, 4, 1}, {2, 7, 0.5}, {3, 5, 0}};
	int when = mc::choose(2);
	memory_size_type budget = std::vector<memory_size_type>{0, 7, 11, 12, 20, 21, 100, 100000}[mc::choose(8)];
	demand s1 = sd[mc::choose(sd.size())], s2 = sd[mc::choose(two ? sd.size() : 1)];
	int first = mc::choose(phases), last = first + mc::choose(phases - first);
	int first2 = two ? mc::choose(phases) : 0, last2 = two ? first2 + mc::choose(phases - first2) : -1;
	bool moved = mc::choose_bool();
	stages s;
	std::vector<int> phase;
	std::vector<stage *> mirror;
	for (int p = 0; p < phases; ++p)
		for (int i = 0; i < per_phase; ++i) {
			wish w;
			w.type = MEMORY;
			w.when = when;
			w.d = nd[mc::choose(nd.size())];
			if (i == 0 && (p == first || p == last)) w.shared.push_back({"one", s1});
			if (i == per_phase - 1 && two && (p == first2 || p == last2)) w.shared.push_back({"two", s2});
			std::unique_ptr<stage> x(new stage(w));
			if (moved) x.reset(new stage(std::move(*x))); // as the factories do
			if (i) s.back()->add_push_destination(*x);
			else if (p) x->add_dependency(*s.back());
			s.push_back(std::move(x));
			phase.push_back(p);
		}
	mc::stop_branching();
	run(s, MEMORY, budget);
	memory_size_type got1 = 0, got2 = 0;
	bool have1 = false, have2 = false;
	for (auto & x : s)
		for (size_t i = 0; i < x->w.shared.size(); ++i) {
			memory_size_type g = x->got_shared[i];
			if (x->w.shared[i].name == "one") {
				MC_CHECK(!have1 || g == got1, "structure-changed", "data structure had " << got1 << ", then " << g);
				have1 = true; got1 = g;
			} else {
				MC_CHECK(!have2 || g == got2, "structure-changed", "data structure had " << got2 << ", then " << g);
				have2 = true; got2 = g;
			}
		}
	bool all_fit = true;
	std::vector<checker> cs(phases);
	for (int p = 0; p < phases; ++p) {
		checker & c = cs[p];
		c.budget = budget;
		for (size_t i = 0; i < s.size(); ++i) if (phase[i] == p) c.need(s[i]->w.d);
		if (first <= p && p <= last) c.need(s1);
		if (first2 <= p && p <= last2) c.need(s2);
		if (!c.fits) all_fit = false;
	}
	if (!all_fit) { mc::outcome(0); return; }
	for (int p = 0; p < phases; ++p) {
		checker & c = cs[p];
		for (size_t i = 0; i < s.size(); ++i) if (phase[i] == p) c.take("stage", s[i]->w.d, s[i]->got);
		if (first <= p && p <= last) c.take("structure", s1, got1);
		if (first2 <= p && p <= last2) c.take("structure", s2, got2);
		if (phases == 1) c.done();
		mc::transition(c.n);
	}
	mc::outcome(1);
	mc::state(mc::mix(mc::mix(got1, got2), budget));
}

void add(const std::string & name, const std::string & what, int tiers, std::function<void()> f) {
	mc::suite_t s;
	s.name = name; s.what = what; s.tiers = tiers;
	s.body = [=]() { world::config c; world::run(c, f); };
	mc::add(s);
}

std::vector<memory_size_type> small_budgets() {
	std::vector<memory_size_type> r;
	for (int i = 0; i <= 26; ++i) r.push_back(i);
	return r;
}

} // unnamed

int main(int argc, char ** argv) {
	std::vector<memory_size_type> big = {0, 1, 10, 1000, 1001, 65536, 1000000, 1ull << 30, 5000000000ull, 1ull << 40};
	for (int t = 0; t < 2; ++t) {
		resource_type type = t ? FILES : MEMORY;
		std::string r = t ? "files_" : "memory_", wh = t ? "files: " : "memory: ";
		add(r + "1", wh + "1 stage, every minimum, maximum and fraction listed, set in the constructor, in prepare() or in propagate(), budgets 0..26", 3, [=]() {
			one_phase(type, 1, {0, 1, 2, 5, 20, 30}, {0, 1, 5, 6, 25, 100, INF}, {0, 1e-6, 0.001, 0.3, 1, 3, 1e9}, small_budgets(), true); });
		add(r + "2", wh + "2 stages, budgets 0..26", 3, [=]() {
			one_phase(type, 2, {0, 1, 5, 13}, {0, 1, 7, 25, INF}, {0, 1e-6, 0.3, 1, 3}, small_budgets(), true); });
		add(r + "3", wh + "3 stages, budgets 0..26", 3, [=]() {
			one_phase(type, 3, {0, 1, 5}, {1, 7, INF}, {0, 0.001, 1, 3}, small_budgets(), false); });
		add(r + "4", wh + "4 stages, budgets 0..26", 3, [=]() {
			one_phase(type, 4, {0, 2}, {2, 7, INF}, {0, 0.001, 1}, small_budgets(), false); });
		add(r + "big", wh + "2 stages, big budgets", 3, [=]() {
			one_phase(type, 2, {0, 1, 4096, 1000000}, {1, 4096, 1500000, 1ull << 35, INF}, {0, 1e-6, 0.3, 1, 1e6, 1e10}, big, true); });
	}
	add("structures_1", "1 phase of 2 stages with one or two data structures", 3, []() { structures_body(1, 2, true); });
	add("structures_2", "2 phases of 1 stage, one data structure living in one or both phases", 3, []() { structures_body(2, 1, false); });
	add("structures_2_two", "2 phases of 1 stage, two data structures, each living in one or both phases", 3, []() { structures_body(2, 1, true); });
	add("structures_3", "3 phases of 1 stage, two data structures", 3, []() { structures_body(3, 1, true); });
	return mc::main(argc, argv);
}
