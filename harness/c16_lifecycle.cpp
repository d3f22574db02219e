// C16: lifecycle of the stages of a pipeline, order of its phases, forwarded data
#include "world.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/runtime.h>
#include <algorithm>
#include <limits>
#include <set>

namespace {

using namespace tpie;
using namespace tpie::pipelining;
typedef tpie::pipelining::bits::node_map node_map;

enum rel { PUSH, PULL, DEP, SHARE, NOFWD, RELS };
const char * rel_name[] = {"pushes to", "pulls from", "depends on", "shares memory with", "comes after"};
enum what { PREPARE, PROPAGATE, BEGIN, GO, END, EVACUATE, WHATS };
const char * what_name[] = {"prepare", "propagate", "begin", "go", "end", "evacuate"};

struct boom { int node, what; };
struct event { int node, what; };

struct edge { int from, to; rel r; }; // from <r> to, in the words above

struct program {
	int n = 0;
	std::vector<edge> edges;
	std::vector<bool> evac, stop;         // can be evacuated; does not forward through
	int fwd_when = -1, fwd_k = 0;         // every stage forwards its number in that callback
	int throw_node = -1, throw_what = -1;
};

program P;
std::vector<event> events;
bool thrown;

std::string key(int i) { return "k" + std::to_string(i); }

struct stage : public node {
	int i;
	std::vector<int> seen_propagate, seen_begin; // -1: cannot fetch
	explicit stage(int i): i(i) {}

	void happens(int w) {
		MC_CHECK(!thrown, "after-exception", what_name[w] << " of " << i << " after an exception");
		events.push_back({i, w});
		if (P.fwd_when == w) forward<int>(key(i), 100 + i, P.fwd_k);
		if (P.throw_node == i && P.throw_what == w) { thrown = true; throw boom{i, w}; }
	}
	std::vector<int> see() {
		std::vector<int> r;
		for (int j = 0; j < P.n; ++j) r.push_back(can_fetch(key(j)) ? fetch<int>(key(j)) : -1);
		return r;
	}
	void prepare() override { happens(PREPARE); }
	void propagate() override { seen_propagate = see(); happens(PROPAGATE); }
	void begin() override { seen_begin = see(); happens(BEGIN); }
	void go() override { happens(GO); }
	void end() override { happens(END); }
	bool can_evacuate() override { return P.evac[i]; }
	void evacuate() override { happens(EVACUATE); }
};

struct runner : public tpie::pipelining::bits::pipeline_base {
	explicit runner(node_map::ptr m) { m_nodeMap = m->find_authority(); m_memory = 1; }
	void run() {
		progress_indicator_null pi;
		(*this)(0, pi, 100, 1000000, nullptr, nullptr);
	}
};

typedef std::vector<std::unique_ptr<stage>> stages;

void relate(stages & s, const edge & e) {
	switch (e.r) {
	case PUSH: s[e.from]->add_push_destination(*s[e.to]); break;
	case PULL: s[e.from]->add_pull_source(*s[e.to]); break;
	case DEP: s[e.from]->add_dependency(*s[e.to]); break;
	case SHARE: s[e.from]->add_memory_share_dependency(*s[e.to]); break;
	default: {
		node_map::ptr m = s[e.from]->get_node_map()->find_authority();
		m->union_set(s[e.to]->get_node_map());
		m->find_authority()->add_relation(s[e.from]->get_id(), s[e.to]->get_id(), tpie::pipelining::bits::no_forward_depends);
	}
	}
}

/// Everything the property says about P.
struct oracle {
	std::vector<int> phase; // representative of the phase of a stage
	std::vector<std::vector<bool>> flow, actor, before; // reachability by one edge
	bool own_phase = false;   // somebody depends on a stage in its own phase: not specified
	bool flow_cycle = false, actor_cycle = false, phase_cycle = false, green = true;
	std::vector<bool> actor_cycle_phase;

	static bool close(std::vector<std::vector<bool>> m) {
		int n = m.size();
		for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (m[i][k]) for (int j = 0; j < n; ++j) if (m[k][j]) m[i][j] = true;
		for (int i = 0; i < n; ++i) if (m[i][i]) return true;
		return false;
	}

	oracle() {
		int n = P.n;
		for (int i = 0; i < n; ++i) phase.push_back(i);
		flow = actor = before = std::vector<std::vector<bool>>(n, std::vector<bool>(n));
		for (const edge & e : P.edges) {
			if (e.r != PUSH && e.r != PULL) continue;
			int a = phase[e.from], b = phase[e.to];
			for (int & p : phase) if (p == b) p = a;
			actor[e.from][e.to] = true;
			if (e.r == PUSH) flow[e.from][e.to] = true; else flow[e.to][e.from] = true;
		}
		std::vector<std::pair<int, int>> greens;
		for (const edge & e : P.edges) {
			if (e.r == PUSH || e.r == PULL) continue;
			int a = phase[e.to], b = phase[e.from];
			if (a == b) { own_phase = true; continue; }
			before[a][b] = true;
			if (e.r == SHARE && !P.evac[e.to]) greens.push_back({a, b});
		}
		flow_cycle = close(flow);
		actor_cycle = close(actor);
		phase_cycle = close(before);
		actor_cycle_phase.resize(n);
		if (actor_cycle) for (int p = 0; p < n; ++p) {
			auto m = actor;
			for (int i = 0; i < n; ++i) if (phase[i] != p) for (int j = 0; j < n; ++j) m[i][j] = false;
			actor_cycle_phase[p] = close(m);
		}
		if (phase_cycle || greens.empty()) return;
		std::vector<int> order;
		for (int i = 0; i < n; ++i) if (phase[i] == i) order.push_back(i);
		for (int i = 0; i < n; ++i) if (std::find(order.begin(), order.end(), phase[i]) == order.end()) order.push_back(phase[i]);
		std::sort(order.begin(), order.end());
		green = false;
		do {
			bool ok = true;
			std::vector<int> at(n);
			for (size_t k = 0; k < order.size(); ++k) at[order[k]] = k;
			for (int i = 0; i < n && ok; ++i) for (int j = 0; j < n && ok; ++j) if (before[i][j] && at[i] > at[j]) ok = false;
			for (auto & g : greens) if (at[g.first] + 1 != at[g.second]) ok = false;
			if (ok) { green = true; break; }
		} while (std::next_permutation(order.begin(), order.end()));
	}
	bool valid() const { return !flow_cycle && !actor_cycle && !phase_cycle && green; }
	bool initiator(int i) const { for (int j = 0; j < P.n; ++j) if (actor[j][i]) return false; return true; }

	/// Can data from i reach j?
	bool reaches(int i, int j) const {
		std::vector<int> d(P.n, -1), q{i};
		d[i] = 0;
		for (size_t h = 0; h < q.size(); ++h) {
			int v = q[h];
			if (v != i && P.stop[v]) continue;
			if (d[v] == P.fwd_k) continue;
			for (const edge & e : P.edges) {
				int a = e.r == PUSH ? e.from : e.to, b = e.r == PUSH ? e.to : e.from;
				if (e.r == NOFWD || a != v || d[b] >= 0) continue;
				d[b] = d[v] + 1;
				q.push_back(b);
			}
		}
		return d[j] >= 0;
	}
};

std::string show_log() {
	mc::strm s;
	for (const event & e : events) s << what_name[e.what] << " " << e.node << ", ";
	return s;
}

/// The rules that hold for every log, also of a run that was aborted.
void check_log(const oracle & o) {
	int n = P.n;
	std::vector<std::vector<int>> at(n, std::vector<int>(WHATS, -1));
	for (size_t k = 0; k < events.size(); ++k) {
		int & a = at[events[k].node][events[k].what];
		MC_CHECK(a < 0, "twice", what_name[events[k].what] << " of " << events[k].node << " twice: " << show_log());
		a = k;
	}
	auto first = [&](int a, int b, int x, int y, const char * why) { // b.y only after a.x
		if (at[b][y] < 0) return;
		MC_CHECK(at[a][x] >= 0 && at[a][x] < at[b][y], "order", what_name[y] << " of " << b << " before " << what_name[x] << " of " << a << " (" << why << "): " << show_log());
	};
	for (int i = 0; i < n; ++i) {
		MC_CHECK(at[i][GO] < 0 || o.initiator(i), "go", "go of " << i << ", which is not an initiator: " << show_log());
		for (int j = 0; j < n; ++j) {
			first(i, j, PREPARE, PROPAGATE, "all are prepared first");
			if (o.flow[i][j]) {
				first(i, j, PREPARE, PREPARE, "item flow");
				first(i, j, PROPAGATE, PROPAGATE, "item flow");
			}
			if (o.actor[i][j]) {
				first(j, i, BEGIN, BEGIN, "a stage begins after the stages it calls");
				first(i, j, END, END, "a stage ends before the stages it calls");
			}
			if (o.phase[i] == o.phase[j]) {
				first(i, j, PROPAGATE, BEGIN, "phase");
				first(i, j, BEGIN, GO, "phase");
				first(i, j, BEGIN, END, "phase");
				if (o.initiator(i)) first(i, j, GO, END, "phase");
				first(i, j, END, EVACUATE, "phase");
			} else if (at[i][PROPAGATE] >= 0 && at[j][PROPAGATE] >= 0) { // phases do not overlap
				if (at[i][PROPAGATE] < at[j][PROPAGATE]) first(i, j, END, PROPAGATE, "phases overlap");
				else first(j, i, END, PROPAGATE, "phases overlap");
			}
			if (o.before[o.phase[i]][o.phase[j]]) {
				first(i, j, PREPARE, PREPARE, "phase order");
				first(i, j, END, PROPAGATE, "phase order");
			}
		}
	}
}

void check_complete(const oracle & o, const stages & s) {
	int n = P.n;
	std::vector<int> count(WHATS), order(n, -1);
	for (const event & e : events) ++count[e.what];
	int init = 0;
	for (int i = 0; i < n; ++i) init += o.initiator(i);
	for (int w : {PREPARE, PROPAGATE, BEGIN, END}) MC_CHECK(count[w] == n, "missing", count[w] << " times " << what_name[w] << " of " << n << " stages: " << show_log());
	MC_CHECK(count[GO] == init, "missing", count[GO] << " of " << init << " initiators run: " << show_log());
	// Order of the phases
	std::vector<int> seq;
	for (const event & e : events) if (e.what == PROPAGATE && std::find(seq.begin(), seq.end(), o.phase[e.node]) == seq.end()) seq.push_back(o.phase[e.node]);
	for (size_t k = 0; k < seq.size(); ++k) order[seq[k]] = k;
	std::vector<int> evac(n), evac_want(n), evac_at(n, -1);
	for (size_t k = 0; k < events.size(); ++k) if (events[k].what == EVACUATE) { ++evac[events[k].node]; evac_at[events[k].node] = k; }
	for (const edge & e : P.edges) {
		if (e.r != SHARE || o.phase[e.from] == o.phase[e.to]) continue;
		if (order[o.phase[e.to]] + 1 != order[o.phase[e.from]]) {
			MC_CHECK(P.evac[e.to], "green", e.to << " cannot be evacuated, and the phase of " << e.from << " does not come next: " << show_log());
			evac_want[e.to] = 1;
		}
	}
	if (!o.own_phase)
		MC_CHECK(evac == evac_want, "evacuation", "evacuated " << mc::show(evac) << ", should be " << mc::show(evac_want) << ": " << show_log());
	for (int i = 0; i < n; ++i) if (evac_at[i] >= 0) // before the next phase begins
		for (int j = 0; j < n; ++j) for (size_t k = 0; k < events.size(); ++k)
			if (events[k].node == j && events[k].what == PROPAGATE && order[o.phase[j]] > order[o.phase[i]])
				MC_CHECK(int(k) > evac_at[i], "evacuation", i << " evacuated too late: " << show_log());
	// Forwarded data
	if (P.fwd_when >= 0)
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
			if (i == j) continue;
			bool r = o.reaches(i, j);
			bool same = o.phase[i] == o.phase[j];
			if (same && P.fwd_when == END && r) continue; // too late for the callbacks that look
			if (o.own_phase && r) continue;               // need not be in order
			int w = r ? 100 + i : -1;
			MC_CHECK(s[j]->seen_propagate[i] == w, "forward", "data of " << i << " in propagate() of " << j << ": " << s[j]->seen_propagate[i] << ", should be " << w);
			MC_CHECK(s[j]->seen_begin[i] == w, "forward", "data of " << i << " in begin() of " << j << ": " << s[j]->seen_begin[i] << ", should be " << w);
		}
}

std::string show_program() {
	mc::strm s;
	s << P.n << " stages: ";
	for (const edge & e : P.edges) s << e.from << " " << rel_name[e.r] << " " << e.to << ", ";
	for (int i = 0; i < P.n; ++i) { if (!P.evac[i]) s << i << " cannot be evacuated, "; if (P.stop[i]) s << "no forwarding through " << i << ", "; }
	if (P.fwd_when >= 0) s << "forwarding in " << what_name[P.fwd_when] << " at most " << P.fwd_k << ", ";
	if (P.throw_node >= 0) s << P.throw_node << " throws in " << what_name[P.throw_what];
	return s;
}

/// Run P and check it.
void run_program() {
	mc::stop_branching();
	MC_TRACE(show_program());
	oracle o;
	events.clear();
	thrown = false;
	stages s;
	for (int i = 0; i < P.n; ++i) s.emplace_back(new stage(i));
	for (int i = 1; i < P.n; ++i) s[0]->get_node_map()->union_set(s[i]->get_node_map());
	for (const edge & e : P.edges) relate(s, e);
	for (int i = 0; i < P.n; ++i) if (P.stop[i]) s[i]->no_forward_through();
	bool failed = false, mine = false;
	std::string why;
	try {
		runner(s[0]->get_node_map()).run();
	} catch (const boom & b) {
		mine = true;
		MC_CHECK(b.node == P.throw_node && b.what == P.throw_what, "exception", "another exception");
	} catch (const std::exception & e) {
		failed = true;
		why = e.what();
	}
	mc::transition(events.size());
	if (!o.valid()) {
		MC_CHECK(failed || mine, "not-rejected", (o.flow_cycle ? "items flow in a cycle, " : "") << (o.actor_cycle ? "stages call each other in a cycle, " : "")
			<< (o.phase_cycle ? "phases depend on each other in a cycle, " : "") << (o.green ? "" : "phases that share memory cannot be adjacent, ") << "but it runs: " << show_log());
		for (const event & e : events)
			if (e.what == BEGIN || e.what == GO || e.what == END)
				MC_CHECK(!o.flow_cycle && !o.phase_cycle && o.green && !o.actor_cycle_phase[o.phase[e.node]], "not-rejected", "illegal, but partly run: " << show_log());
		mc::outcome(mc::mix(1, o.flow_cycle + 2 * o.actor_cycle + 4 * o.phase_cycle + 8 * o.green));
		return;
	}
	if (failed && o.own_phase) { mc::outcome(2); return; }
	MC_CHECK(!failed, "rejected", "legal, but: " << why);
	MC_CHECK(mine == thrown, "exception", "exception lost: " << show_log());
	check_log(o);
	if (!mine) check_complete(o, s);
	mc::outcome(mine ? 3 : 4);
	std::vector<int> h;
	for (const event & e : events) h.push_back(e.node * 8 + e.what);
	mc::state(mc::hash_seq(h));
}

/// One relation between i and j
void choose_relation(int i, int j, int options) {
	int k = mc::choose(options + 1);
	if (!k) return;
	--k;
	rel r = rel(k / 2);
	if (k % 2) P.edges.push_back({j, i, r}); else P.edges.push_back({i, j, r});
}

/// Up to two relations between i and j
void choose_relations(int i, int j) {
	int k = mc::choose(11);
	if (!k) return;
	--k;
	if (k % 2) P.edges.push_back({j, i, rel(k / 2)}); else P.edges.push_back({i, j, rel(k / 2)});
	int l = mc::choose(10 - k); // none, or a later one
	if (!l) return;
	l += k;
	if (l % 2) P.edges.push_back({j, i, rel(l / 2)}); else P.edges.push_back({i, j, rel(l / 2)});
}

enum { EVAC_ALL_NONE = 1, EVAC_EACH = 2, STOP_EACH = 4, FWD = 8, THROW = 16, TWO = 32 };

void graph_body(int n, int relations, int flags) {
	P = program();
	P.n = n;
	P.evac.assign(n, true);
	P.stop.assign(n, false);
	for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j)
		if (flags & TWO) choose_relations(i, j); else choose_relation(i, j, 2 * relations);
	std::set<int> shared;
	for (const edge & e : P.edges) if (e.r == SHARE) shared.insert(e.to);
	if (flags & EVAC_EACH) { for (int i : shared) P.evac[i] = !mc::choose_bool(); }
	else if ((flags & EVAC_ALL_NONE) && !shared.empty() && mc::choose_bool()) P.evac.assign(n, false);
	P.fwd_when = PREPARE;
	P.fwd_k = std::numeric_limits<int>::max();
	if (flags & FWD) {
		P.fwd_when = std::vector<int>{PREPARE, PROPAGATE, END}[mc::choose(3)];
		P.fwd_k = std::vector<int>{std::numeric_limits<int>::max(), 1, 2}[mc::choose(std::min(3, n))];
	}
	if (flags & STOP_EACH) for (int i = 0; i < n; ++i) P.stop[i] = mc::choose_bool();
	if (flags & THROW) {
		P.throw_node = mc::choose(n);
		P.throw_what = mc::choose(WHATS);
	}
	run_program();
}

/// Phases of one stage each: edges from earlier to later ones only, numbered forwards or backwards
void phases_body(int n, bool evac_each) {
	P = program();
	P.n = n;
	P.evac.assign(n, true);
	P.stop.assign(n, false);
	P.fwd_when = END;
	P.fwd_k = std::numeric_limits<int>::max();
	bool back = mc::choose_bool();
	for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
		int k = mc::choose(3);
		if (!k) continue;
		int a = back ? n - 1 - i : i, b = back ? n - 1 - j : j;
		P.edges.push_back({b, a, k == 1 ? DEP : SHARE});
	}
	std::set<int> shared;
	for (const edge & e : P.edges) if (e.r == SHARE) shared.insert(e.to);
	if (evac_each) for (int i : shared) P.evac[i] = !mc::choose_bool();
	run_program();
}

/// a first phases that share memory with b later ones, all but some edges, and some more dependencies
void bipartite_body(int a, int b, int without) {
	P = program();
	P.n = a + b;
	P.evac.assign(P.n, true);
	P.stop.assign(P.n, false);
	P.fwd_when = END;
	P.fwd_k = std::numeric_limits<int>::max();
	int w1 = mc::choose(a * b + 1), w2 = without > 1 ? mc::choose(a * b + 1) : 0;
	for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) {
		int k = 1 + i * b + j;
		if (k == w1) continue;
		P.edges.push_back({a + j, i, k == w2 ? DEP : SHARE});
	}
	int x = mc::choose(P.n), y = mc::choose(P.n);
	if (x < y && (y < a || x >= a)) P.edges.push_back({y, x, mc::choose_bool() ? DEP : SHARE});
	run_program();
}

/// Pipelines that are told to run one after the other
void order_body(int n1, int n2) {
	P = program();
	P.n = n1 + n2;
	P.evac.assign(P.n, true);
	P.stop.assign(P.n, false);
	for (int i = 0; i < n1; ++i) for (int j = i + 1; j < n1; ++j) choose_relation(i, j, 8);
	for (int i = 0; i < n2; ++i) for (int j = i + 1; j < n2; ++j) choose_relation(n1 + i, n1 + j, 8);
	mc::stop_branching();
	// Every part must hang together, or it is more than one pipeline
	std::vector<int> comp;
	for (int i = 0; i < P.n; ++i) comp.push_back(i);
	for (const edge & e : P.edges) { int a = comp[e.from], b = comp[e.to]; for (int & c : comp) if (c == b) c = a; }
	for (int i = 0; i < P.n; ++i) if (comp[i] != comp[i < n1 ? 0 : n1]) return;
	MC_TRACE(show_program());
	events.clear();
	thrown = false;
	stages s;
	for (int i = 0; i < P.n; ++i) s.emplace_back(new stage(i));
	for (const edge & e : P.edges) relate(s, e);
	runner r1(s[0]->get_node_map()), r2(s[n1]->get_node_map());
	if (!oracle().valid()) return;
	try {
		r1.order_before(r2);
		r2.run();
	} catch (const std::exception & e) {
		MC_CHECK(oracle().own_phase, "rejected", "legal, but: " << e.what());
		return;
	}
	for (int i = 0; i < n1; ++i) for (int j = n1; j < P.n; ++j) P.edges.push_back({j, i, DEP});
	oracle o;
	check_log(o);
	P.fwd_when = -1;
	check_complete(o, s);
	mc::transition(events.size());
	mc::outcome(4);
}

void add(const std::string & name, const std::string & what, int tiers, std::function<void()> f) {
	mc::suite_t s;
	s.name = name; s.what = what; s.tiers = tiers;
	s.body = [=]() { world::config c; world::run(c, f); };
	mc::add(s);
}

} // unnamed

int main(int argc, char ** argv) {
	add("graphs_1_2", "2 stages, every one or two relations (push, pull, dependency, shared memory, ordering) between them, either able to evacuate or not, forwarding through or not, every place to forward data", 3,
		[]() { graph_body(2, 5, TWO | EVAC_EACH | STOP_EACH | FWD); });
	add("graphs_3", "3 stages, every relation between any two, each able to evacuate or not, every place to forward data and distance", 3,
		[]() { graph_body(3, 5, EVAC_EACH | FWD); });
	add("graphs_3_stop", "3 stages, every relation between any two, each forwarding through or not", 3, []() { graph_body(3, 5, STOP_EACH | FWD); });
	add("graphs_3_two", "3 stages, every one or two relations between any two, each able to evacuate or not", 3, []() { graph_body(3, 5, TWO | EVAC_EACH); });
	add("graphs_4", "4 stages, every relation between any two, all able to evacuate or none", 3, []() { graph_body(4, 5, EVAC_ALL_NONE); });
	add("graphs_4_evacuate", "4 stages, every relation (but ordering) between any two, each able to evacuate or not", 2, []() { graph_body(4, 4, EVAC_EACH | FWD); });
	add("throw_3", "3 stages, every relation between any two, every stage throwing in every callback", 3, []() { graph_body(3, 4, EVAC_ALL_NONE | THROW); });
	add("phases_4", "4 phases, every acyclic set of dependencies and shared memory, each able to evacuate or not", 3, []() { phases_body(4, true); });
	add("phases_5", "5 phases, every acyclic set of dependencies and shared memory, each able to evacuate or not", 3, []() { phases_body(5, true); });
	add("phases_6", "6 phases, every acyclic set of dependencies and shared memory, all able to evacuate", 2, []() { phases_body(6, false); });
	add("phases_4_5", "4 phases sharing memory with 5 later ones but for one or two, and one more dependency", 2, []() { bipartite_body(4, 5, 2); });
	add("phases_5_6", "5 phases sharing memory with 6 later ones but for one or two, and one more dependency", 3, []() { bipartite_body(5, 6, 1); });
	add("order_2_2", "two pipelines of 2 stages each, one ordered before the other", 3, []() { order_body(2, 2); });
	add("order_3_2", "two pipelines of 3 and 2 stages, one ordered before the other", 3, []() { order_body(3, 2); });
	return mc::main(argc, argv);
}
