// C06: external stacks are LIFO, external queues are FIFO.
#include "world.h"
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <deque>
#include <vector>

using namespace tpie;

namespace {

template <size_t N> struct itemN { uint64_t v; char pad[N - 8]; };
template <> struct itemN<8> { uint64_t v; };
template <size_t N> itemN<N> mk(uint64_t v) { itemN<N> i; memset(static_cast<void *>(&i), 0, sizeof i); i.v = v * 0x0101010101ull + (v << 56); return i; }
template <size_t N> bool same(const itemN<N> & i, uint64_t v) { itemN<N> e = mk<N>(v); return memcmp(&i, &e, sizeof e) == 0; }

struct params { size_t items_per_block; int depth; bool named; double factor; };

template <size_t SZ>
void stack_body(params P) {
	typedef stack<itemN<SZ>> S;
	std::string path = world::path("stack");
	std::unique_ptr<temp_file> tmp;
	std::unique_ptr<S> s;
	std::vector<uint64_t> m;
	uint64_t next = 1;
	auto create = [&]() { if (P.named) s.reset(new S(path, P.factor)); else s.reset(new S(P.factor)); };
	create();
	auto inv = [&](const char * op) {
		mc::transition();
		mc::state(mc::hash_seq(m));
		MC_CHECK(s->size() == m.size(), "size", "after " << op << ": size " << s->size() << ", model " << m.size());
		MC_CHECK(s->empty() == m.empty(), "empty", "after " << op);
	};
	auto push = [&]() { MC_TRACE("push #" << next); s->push(mk<SZ>(next)); m.push_back(next++); inv("push"); };
	auto pop = [&]() {
		MC_TRACE("pop");
		if (m.empty()) {
			try { s->pop(); mc::fail("pop-empty", "pop of an empty stack succeeded"); } catch (const end_of_stream_exception &) {}
		} else {
			MC_CHECK(same<SZ>(s->pop(), m.back()), "pop", "popped the wrong item with " << m.size() << " on the stack");
			m.pop_back();
		}
		inv("pop");
	};
	auto top = [&]() {
		MC_TRACE("top");
		if (m.empty()) {
			try { s->top(); mc::fail("top-empty", "top of an empty stack succeeded"); } catch (const end_of_stream_exception &) {}
		} else MC_CHECK(same<SZ>(s->top(), m.back()), "top", "top is the wrong item with " << m.size() << " on the stack");
		inv("top");
	};
	auto reopen = [&]() { MC_TRACE("destroy and reopen"); s.reset(); create(); inv("reopen"); };
	int pre = mc::choose(P.items_per_block * 2 + 3);
	for (int i = 0; i < pre; ++i) push();
	if (pre && P.named) reopen();
	for (int d = 0; d < P.depth; ++d) {
		switch (mc::choose(P.named ? 4 : 3)) {
		case 0: push(); break;
		case 1: pop(); break;
		case 2: top(); break;
		case 3: reopen(); break;
		}
	}
	if (P.named) reopen();
	mc::outcome(mc::hash_seq(m));
	while (!m.empty()) { top(); pop(); }
	pop();
}

void ami_body(params P) {
	typedef ami::stack<uint64_t> S;
	std::string path = world::path("amistack");
	std::unique_ptr<S> s(new S(path));
	std::vector<uint64_t> m;
	uint64_t next = 1;
	bool persist = true;
	for (int d = 0; d < P.depth; ++d) {
		const uint64_t * r = 0;
		mc::transition();
		switch (mc::choose(5)) {
		case 0: MC_TRACE("push"); MC_CHECK(s->push(next) == ami::NO_ERROR, "ami-push", "push failed"); m.push_back(next++); break;
		case 1:
			MC_TRACE("pop");
			if (m.empty()) MC_CHECK(s->pop(&r) == ami::END_OF_STREAM, "ami-pop-empty", "pop of an empty stack");
			else { MC_CHECK(s->pop(&r) == ami::NO_ERROR && *r == m.back(), "ami-pop", "wrong item popped"); m.pop_back(); }
			break;
		case 2:
			MC_TRACE("peek");
			if (m.empty()) MC_CHECK(s->peek(&r) == ami::END_OF_STREAM, "ami-peek-empty", "peek of an empty stack");
			else MC_CHECK(s->peek(&r) == ami::NO_ERROR && *r == m.back(), "ami-peek", "wrong item peeked");
			break;
		case 3:
			MC_TRACE("persist " << !persist);
			persist = !persist;
			s->persist(persist ? PERSIST_PERSISTENT : PERSIST_DELETE);
			MC_CHECK((s->persist() == PERSIST_PERSISTENT) == persist, "ami-persist", "persistence not stored");
			break;
		case 4:
			MC_TRACE("reopen");
			s.reset();
			MC_CHECK(io::exists(path) == persist, "ami-persist-file", "file " << (persist ? "gone" : "kept") << " after destruction");
			if (!persist) m.clear();
			persist = true;
			s.reset(new S(path));
			break;
		}
		MC_CHECK(size_t(s->size()) == m.size() && s->is_empty() == m.empty(), "ami-size", "size " << s->size() << ", model " << m.size());
		mc::state(mc::mix(mc::hash_seq(m), persist));
	}
	mc::outcome(mc::hash_seq(m));
}

template <size_t SZ>
void queue_body(params P, compression_flags cf) {
	queue<itemN<SZ>> q(access_sequential, cf);
	std::deque<uint64_t> m;
	uint64_t next = 1;
	auto inv = [&](const char * op) {
		mc::transition();
		mc::state(mc::hash_seq(m));
		MC_CHECK(q.size() == m.size(), "size", "after " << op << ": size " << q.size() << ", model " << m.size());
		MC_CHECK(q.empty() == m.empty(), "empty", "after " << op);
	};
	auto push = [&]() { MC_TRACE("push #" << next); q.push(mk<SZ>(next)); m.push_back(next++); inv("push"); };
	auto pop = [&]() {
		MC_TRACE("pop");
		MC_CHECK(same<SZ>(q.pop(), m.front()), "pop", "popped the wrong item with " << m.size() << " in the queue");
		m.pop_front();
		inv("pop");
	};
	auto front = [&]() {
		MC_TRACE("front");
		MC_CHECK(same<SZ>(q.front(), m.front()), "front", "front is the wrong item with " << m.size() << " in the queue");
		inv("front");
	};
	int pre = mc::choose(P.items_per_block * 3 + 2);
	for (int i = 0; i < pre; ++i) push();
	for (int d = 0; d < P.depth; ++d) {
		switch (mc::choose(m.empty() ? 1 : 3)) {
		case 0: push(); break;
		case 1: pop(); break;
		case 2: front(); break;
		}
	}
	mc::outcome(mc::hash_seq(m));
	while (!m.empty()) { front(); pop(); }
}

void add(const std::string & name, const std::string & what, params P, size_t sz, int tiers, std::function<void()> f) {
	mc::suite_t s;
	s.name = name; s.tiers = tiers;
	s.what = what;
	s.body = [=]() {
		world::config c;
		c.block_size = P.items_per_block * sz;
		c.s.reduce = false;
		world::run(c, f);
		mc::clean_scratch();
	};
	mc::add(s);
}

template <size_t SZ>
void add_stack(const std::string & name, params P, int tiers) {
	add(name, mc::strm() << "every history of " << P.depth << " push/pop/top" << (P.named ? "/reopen" : "") << " on an external stack of " << SZ << "-byte items, "
		<< P.items_per_block << " per block, block factor " << P.factor << ", from every initial size up to two blocks and two items", P, SZ, tiers, [P]() { stack_body<SZ>(P); });
}
template <size_t SZ>
void add_queue(const std::string & name, params P, compression_flags cf, int tiers) {
	add(name, mc::strm() << "every history of " << P.depth << " push/pop/front on an external queue of " << SZ << "-byte items, " << P.items_per_block
		<< " per block, " << (cf == compression_none ? "uncompressed" : "compressed") << ", from every initial size up to three blocks and one item", P, SZ, tiers, [P, cf]() { queue_body<SZ>(P, cf); });
}

} // unnamed

int main(int argc, char ** argv) {
	add_stack<8>("stack_named", params{2, 8, true, 1.0}, 1);
	add_stack<8>("stack_named_10", params{2, 10, true, 1.0}, 2);
	add_stack<8>("stack_temp", params{2, 9, false, 1.0}, 1);
	add_stack<8>("stack_temp_12", params{2, 12, false, 1.0}, 2);
	add_stack<24>("stack_named_24", params{3, 7, true, 1.0}, 1);
	add_stack<24>("stack_named_24", params{3, 9, true, 1.0}, 2);
	add_stack<8>("stack_factor", params{2, 8, true, 2.0}, 3);
	add("ami_stack", "every history of 7 push/pop/peek/persist/reopen on an ami::stack of 2 items per block", params{2, 7, true, 1}, 8, 3, []() { ami_body(params{2, 7, true, 1}); });
	add_queue<8>("queue", params{2, 11, false, 1.0}, compression_normal, 1);
	add_queue<8>("queue_15", params{2, 15, false, 1.0}, compression_normal, 2);
	add_queue<8>("queue_plain", params{2, 10, false, 1.0}, compression_none, 3);
	add_queue<24>("queue_24", params{3, 10, false, 1.0}, compression_all, 3);
	return mc::main(argc, argv);
}
