// C10: the external priority queue is a multiset whose top is a minimum.
#include "world.h"
#include <tpie/priority_queue.h>
#include <set>
#include <map>

using namespace tpie;

namespace {

// Big items force the smallest legal buffers (m=14, fan-out 3, deletion buffer 2).
const size_t SZ = 64;
struct item { uint32_t key; uint32_t id; char pad[SZ - 8]; };
struct less_item { bool operator()(const item & a, const item & b) const { return a.key < b.key; } };
struct greater_item { bool operator()(const item & a, const item & b) const { return b.key < a.key; } };

item mk(uint32_t key, uint32_t id) { item i; memset(&i, 0, sizeof i); i.key = key; i.id = id; i.pad[SZ - 9] = char(id * 7); return i; }

struct stop_t {};

template <typename C, bool rev>
struct model {
	typedef priority_queue<item, C> Q;
	Q * q;
	std::map<uint32_t, std::set<uint32_t>> m; // key -> ids
	uint64_t n = 0;
	uint32_t next = 0;
	uint64_t h = 5;
	uint32_t best() const { return rev ? m.rbegin()->first : m.begin()->first; }
	void inv(const char * op) {
		mc::transition();
		MC_CHECK(q->size() == n, "size", "after " << op << ": size " << q->size() << ", model " << n);
		MC_CHECK(q->empty() == (n == 0), "empty", "after " << op);
	}
	void push(uint32_t key) {
		MC_TRACE("push " << key);
		q->push(mk(key, next));
		m[key].insert(next++);
		++n;
		h = mc::mix(h, key);
		inv("push");
	}
	void check(const item & i, const char * op) {
		MC_CHECK(i.key == best(), op, op << " gave key " << i.key << ", best is " << best() << " of " << n);
		MC_CHECK(m[i.key].count(i.id) && i.pad[SZ - 9] == char(i.id * 7), "foreign", op << " gave an item that is not in the queue, key " << i.key << " id " << i.id);
	}
	void top() {
		if (n == 0) {
			try { q->top(); mc::fail("top-empty", "top of an empty queue succeeded"); } catch (const priority_queue_error &) {}
			return;
		}
		check(q->top(), "top");
		inv("top");
	}
	void remove(const item & i) { auto & s = m[i.key]; s.erase(i.id); if (s.empty()) m.erase(i.key); --n; h = mc::mix(h, 77777); }
	void pop() {
		if (n == 0) {
			try { q->pop(); mc::fail("pop-empty", "pop of an empty queue succeeded"); } catch (const priority_queue_error &) {}
			inv("pop");
			return;
		}
		item i = q->top();
		MC_TRACE("pop -> " << i.key);
		check(i, "pop");
		q->pop();
		remove(i);
		inv("pop");
	}
	void pop_blind() { // pop without looking at top first
		if (n == 0) return pop();
		uint32_t b = best();
		MC_TRACE("pop blind, best " << b);
		if (m[b].size() == 1) { q->pop(); remove(mk(b, *m[b].begin())); inv("pop"); }
		else pop();
	}
	struct collect { std::vector<item> * v; void operator()(const item & i) { v->push_back(i); } };
	void pop_equals() {
		if (n == 0) return;
		MC_TRACE("pop_equals");
		std::vector<item> v;
		uint32_t b = best();
		size_t want = m[b].size();
		q->pop_equals(collect{&v});
		MC_CHECK(v.size() == want, "pop_equals", "pop_equals gave " << v.size() << " items, " << want << " have the best key");
		for (auto & i : v) { check(i, "pop_equals"); if (m[i.key].size() == 1) { remove(i); break; } remove(i); }
		inv("pop_equals");
	}
	void drain(int style) {
		while (n) { if (style == 1) pop_equals(); else if (style == 2) pop_blind(); else pop(); }
		top();
		pop();
	}
};

uint32_t pattern(int p, uint32_t i, uint32_t phase) {
	switch (p) {
	case 0: return 100000 + phase * 1000 + i;      // ascending, above everything before
	case 1: return 100000 - phase * 1000 - i;      // descending, below everything before
	case 2: return 100000 + (i * 7919u) % 613;     // spread over old keys
	case 3: return 100000 + i % 3;                 // many equal keys
	case 4: return 100000 + ((i & 1) ? 1u : -1u) * (i + phase); // alternating outwards
	}
	return 0;
}

size_t memory_for(size_t m_extra) { return 16 * 1024 + 96 * SZ + m_extra; }

// Sizes around every buffer border: m = 14, 3 slots per group.
template <typename C, bool rev>
void bulk(int phases, std::vector<int> pushes, std::vector<int> pops, int patterns, size_t cap, size_t extra) {
	tpie::unique_ptr<priority_queue<item, C>> q(tpie_new<priority_queue<item, C>>(memory_size_type(2 * file_stream<item>::memory_usage(1.0f) + 16 + 2 * (SZ + 8) + memory_for(extra)), 1.0f));
	model<C, rev> M;
	M.q = q.get();
	for (int p = 0; p < phases; ++p) {
		int np = pushes[mc::choose(pushes.size())];
		int pat = mc::choose(patterns);
		for (int i = 0; i < np; ++i) M.push(pattern(pat, i, p + 1));
		if (M.next > cap) mc::stop_branching();
		int npop = pops[mc::choose(pops.size())];
		if (npop < 0) npop = M.n > size_t(-npop) ? M.n + npop : 0;
		for (int i = 0; i < npop && M.n; ++i) M.pop();
	}
	mc::state(M.h);
	int style = mc::choose(2);
	mc::outcome(mc::mix(M.h, style));
	M.drain(style);
}

// All short histories from a loaded queue.
template <typename C, bool rev>
void fine(std::vector<int> loads, int patterns, int depth, size_t extra) {
	tpie::unique_ptr<priority_queue<item, C>> q(tpie_new<priority_queue<item, C>>(memory_size_type(2 * file_stream<item>::memory_usage(1.0f) + 16 + 2 * (SZ + 8) + memory_for(extra)), 1.0f));
	model<C, rev> M;
	M.q = q.get();
	int n = loads[mc::choose(loads.size())];
	int pat = mc::choose(patterns);
	int before = mc::choose(4);
	for (int i = 0; i < n; ++i) { M.push(pattern(pat, i, 1)); if (before == 1 && i % 5 == 4) M.pop(); }
	if (before == 2) for (int i = 0; i < n / 2; ++i) M.pop();
	if (before == 3) for (int i = 0; i < 3; ++i) M.pop_blind();
	for (int d = 0; d < depth; ++d) {
		uint32_t lo = M.n ? M.m.begin()->first : 100000, hi = M.n ? M.m.rbegin()->first : 100000;
		switch (mc::choose(7)) {
		case 0: M.push(lo - 1); break;
		case 1: M.push((lo + hi) / 2); break;
		case 2: M.push(hi + 1); break;
		case 3: M.push(lo); break;
		case 4: M.pop_blind(); break;
		case 5: M.top(); break;
		case 6: M.pop_equals(); break;
		}
	}
	mc::state(M.h);
	mc::outcome(M.h);
	M.drain(2);
}

// Queues that are told their maximal size and stay in memory, or not
void bounded(int depth) {
	uint64_t n = mc::choose(7);
	tpie::unique_ptr<priority_queue<uint64_t>> q(tpie_new<priority_queue<uint64_t>>(memory_size_type(200000), 1.0f, stream_size_type(n)));
	std::multiset<uint64_t> m;
	for (int d = 0; d < depth; ++d) {
		int op = mc::choose(5);
		mc::transition();
		if (op < 3) {
			if (m.size() == n) { MC_TRACE("full"); continue; }
			MC_TRACE("push " << op);
			q->push(op); m.insert(op);
		} else if (m.empty()) {
			try { if (op == 3) q->pop(); else q->top(); mc::fail("small-empty", "access to an empty queue succeeded"); } catch (const priority_queue_error &) {}
		} else {
			MC_TRACE("pop/top");
			MC_CHECK(q->top() == *m.begin(), "small-top", "top is " << q->top() << ", minimum is " << *m.begin());
			if (op == 3) { q->pop(); m.erase(m.begin()); }
		}
		MC_CHECK(q->size() == m.size() && q->empty() == m.empty(), "small-size", "size " << q->size() << ", model " << m.size());
		mc::state(mc::hash_seq(m));
	}
	mc::outcome(mc::hash_seq(m, n));
}

void add(const std::string & name, const std::string & what, int tiers, std::function<void()> f, size_t files = 3) {
	mc::suite_t s;
	s.name = name; s.tiers = tiers; s.what = what;
	s.body = [=]() {
		world::config c;
		c.block_size = 2 * SZ;
		c.memory_limit = 64 << 20;
		c.file_limit = true;
		c.max_files = files; // the fan-out is bounded by the files available
		c.s.reduce = false;
		world::run(c, [&]() { f(); });
		mc::clean_scratch();
	};
	mc::add(s);
}
std::vector<int> range(int a, int b) { std::vector<int> v; for (int i = a; i < b; ++i) v.push_back(i); return v; }

} // unnamed

int main(int argc, char ** argv) {
	typedef std::vector<int> V;
	const V np = {1, 13, 14, 15, 28, 42, 43, 44, 56, 100};
	const V pp = {0, 1, 2, 3, 14, 15, 30, -1};
	add("bulk", "every sequence of two phases of pushes (1..100 items around each buffer size, 5 key patterns) and pops (0..all), then drained by pop or pop_equals; insertion buffer 14, fan-out 3, deletion buffer 2", 3,
		[=]() { bulk<less_item, false>(2, mc::tier() == mc::quick ? V{1, 14, 15, 43, 56, 100} : np, mc::tier() == mc::quick ? V{0, 2, 14, 30, -1} : pp, 5, 400, 0); });
	add("bulk_greater", "the same with a reversed order and fan-out 4, fewer sizes", 3,
		[=]() { bulk<greater_item, true>(2, V{1, 14, 54, 100}, V{0, 3, 15, -1}, 5, 400, 0); }, 4);
	add("bulk_3", "three such phases", 3, [=]() { bulk<less_item, false>(3, mc::tier() == mc::quick ? V{1, 15, 43} : V{1, 15, 43, 60}, V{0, 2, -1}, mc::by_tier(3, 5), 400, 0); });
	add("bulk_4", "four such phases", 2, [=]() { bulk<less_item, false>(4, V{1, 15, 43, 60}, V{0, 2, 15, -1}, 4, 400, 0); });
	add("deep", "one to three groups in use: two phases with up to 180 pushes", 3, [=]() { bulk<less_item, false>(2, V{57, 100, 130, 155, 180}, V{0, 3, 20, 50, -20}, 5, 400, 0); });
	add("deep_m16", "the same with other buffer sizes", 2, [=]() { bulk<less_item, false>(2, V{57, 100, 130, 155, 180}, V{0, 3, 20, 50, -20}, 5, 400, 1024); });
	V loads;
	for (int i : {0, 1, 12, 13, 14, 15, 27, 28, 29, 41, 42, 43, 55, 56, 57, 58, 70, 100, 127, 150, 183, 200}) loads.push_back(i);
	add("fine", "after every load size around the buffer borders, 5 key patterns and 4 ways of emptying: every history of push lowest/middle/highest/equal, pop, top, pop_equals, then drained", 3,
		[=]() { fine<less_item, false>(loads, 5, mc::by_tier(3, 5), 0); });
	add("fine_all", "every load size from 0 to 250, histories of 2", 3, [=]() { fine<less_item, false>(range(0, mc::by_tier(150, 250)), 5, 2, 0); });
	add("bounded", "queues told to hold at most 0..6 items: every history of push (3 keys), pop, top", 3, []() { bounded(mc::by_tier(6, 8)); });
	return mc::main(argc, argv);
}
