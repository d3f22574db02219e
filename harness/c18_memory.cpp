// C18: memory accounting is exact and the limit is enforced.
//
// objects     every history of allocating, resizing, copying, moving and freeing,
//             every allocation hitting the limit, the heap being empty or a
//             constructor throwing at every place
// faults      whole data structures and algorithms with every allocation failing
//             and with every limit that their use of memory runs into
// promises    what data structures say they need is what they take
// threads     (mt) every schedule of threads that compete for the last bytes
#include <cstdlib>
#include <new>
#define WITHOUT_MAIN
#include "c05_faults.cpp"
#include <tpie/array.h>
#include <tpie/compressed/request.h>
#include <tpie/bit_array.h>
#include <tpie/packed_array.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/disjoint_sets.h>
#include <tpie/btree.h>
#include <tpie/parallel_sort.h>
#include <tpie/job.h>
#include <tpie/pipelining/parallel.h>
#include <list>
#include <map>
#include <thread>

#include "heap.h"

namespace {

size_t used() { return get_memory_manager().used(); }

struct arm {
	arm() { heap::armed = true; }
	~arm() { heap::armed = false; }
};

// -------------------------------------------------------------------- objects
struct ctor_error : std::exception { const char * what() const noexcept override { return "the constructor throws"; } };
int g_fuse = 0;  // number of constructions until one throws; 0: never
int g_objects = 0;
void construct() { if (g_fuse > 0 && --g_fuse == 0) throw ctor_error(); ++g_objects; }

struct fused { // 24 bytes, counts its instances
	uint64_t v; unsigned magic; char pad[8];
	fused(uint64_t v = 0) : v(v), magic(0xfeed) { construct(); }
	fused(const fused & o) : v(o.v), magic(0xfeed) { o.alive(); construct(); }
	fused & operator=(const fused & o) { alive(); o.alive(); v = o.v; return *this; }
	~fused() { alive(); magic = 0xdead; --g_objects; }
	void alive() const { MC_CHECK(magic == 0xfeed, "dead-element", "an element is used that was never constructed or is already destroyed"); }
};
struct base1 { virtual ~base1() {} fused a; };
struct base2 { virtual ~base2() {} virtual uint64_t get() const = 0; fused b; };
struct shared_base { virtual ~shared_base() {} fused s; };
struct derived : base1, base2, virtual shared_base {
	fused c; long double wide;
	derived(uint64_t v) : c(v), wide(v) {
		MC_CHECK(reinterpret_cast<uintptr_t>(this) % alignof(derived) == 0, "alignment", "an object is not aligned");
		construct(); --g_objects;
	}
	uint64_t get() const override { return c.v; }
};

memory_bucket * g_bucket;

struct slot {
	virtual ~slot() {}
	virtual size_t bytes() const = 0;      // what the account must hold for it
	virtual size_t bucket_bytes() const { return 0; }
	virtual int ops() const { return 0; }
	virtual void op(int) {}
	virtual const char * op_name(int) const { return ""; }
	virtual void check() const {}
};

struct plain_slot : slot {
	uint64_t n; fused * p;
	plain_slot(uint64_t n) : n(n), p(tpie_new<fused>(n)) {}
	~plain_slot() { tpie_delete(p); }
	size_t bytes() const override { return sizeof(fused); }
	void check() const override { p->alive(); MC_CHECK(p->v == n, "value", "an object has changed"); }
};
struct poly_slot : slot {
	uint64_t n; base2 * p;
	poly_slot(uint64_t n) : n(n), p(tpie_new<derived>(n)) {}
	~poly_slot() { tpie_delete(p); }
	size_t bytes() const override { return sizeof(derived); }
	void check() const override { MC_CHECK(p->get() == n, "value", "an object has changed"); }
};
struct raw_array_slot : slot {
	fused * p;
	raw_array_slot() : p(tpie_new_array<fused>(3)) {}
	~raw_array_slot() { tpie_delete_array(p, 3); }
	size_t bytes() const override { return 3 * sizeof(fused); }
	void check() const override { for (int i = 0; i < 3; ++i) p[i].alive(); }
};
struct unique_slot : slot {
	uint64_t n; tpie::unique_ptr<base2> p;
	unique_slot(uint64_t n) : n(n), p(tpie_new<derived>(n)) {}
	size_t bytes() const override { return p ? sizeof(derived) : 0; }
	int ops() const override { return 2; }
	const char * op_name(int x) const override { return x ? "reset" : "replace"; }
	void op(int x) override {
		if (x == 0) p = tpie::unique_ptr<base2>(tpie_new<derived>(n + 1)), ++n;
		else p.reset();
	}
	void check() const override { if (p) MC_CHECK(p->get() == n, "value", "an object has changed"); }
};
template <typename A>
struct array_slot : slot {
	A a; std::vector<uint64_t> m;
	static const size_t item = sizeof(typename A::value_type);
	array_slot(size_t n) : a(n, fused(n), typename std::decay<decltype(std::declval<A>().get_allocator())>::type(memory_bucket_ref(g_bucket))), m(n, n) {}
	size_t bytes() const override { return a.size() * item; }
	size_t bucket_bytes() const override { return a.get_allocator().bucket ? bytes() : 0; }
	int ops() const override { return 5; }
	const char * op_name(int x) const override { static const char * n[] = {"resize(4)", "resize(2, value)", "assign a copy", "assign a temporary", "swap with a copy"}; return n[x]; }
	void op(int x) override {
		heap::armed = false;
		std::vector<uint64_t> before = m;
		m.reserve(8);
		heap::armed = true;
		m.clear(); // what is left when the operation fails: nothing is promised
		bool kept = false;
		try {
			switch (x) {
			case 0: a.resize(4); m.assign(4, 0); break;
			case 1: { a.resize(2, fused(9)); m.assign(2, 9); break; }
			case 2: { kept = true; A b(a); kept = false; a.resize(0); a = b; m = before; break; }
			case 3: { kept = true; A b(a); a = std::move(b); m = before; break; }
			case 4: { kept = true; A b(a); a.swap(b); m = before; break; }
			}
		} catch (...) {
			if (kept) m = before;
			else { m.clear(); for (size_t i = 0; i < a.size(); ++i) m.push_back(a[i].v); }
			throw;
		}
	}
	void check() const override {
		MC_CHECK(a.size() == m.size(), "size", "an array has " << a.size() << " elements, not " << m.size());
		for (size_t i = 0; i < m.size(); ++i) { a[i].alive(); MC_CHECK(a[i].v == m[i], "value", "an element of an array has changed"); }
	}
};
struct vector_slot : slot {
	std::vector<fused, tpie::allocator<fused>> a; std::vector<uint64_t> m;
	vector_slot(uint64_t n) : a(tpie::allocator<fused>(memory_bucket_ref(g_bucket))) { m.reserve(16); a.push_back(fused(n)); m.push_back(n); }
	size_t bytes() const override { return a.capacity() * sizeof(fused); }
	size_t bucket_bytes() const override { return bytes(); }
	int ops() const override { return 4; }
	const char * op_name(int x) const override { static const char * n[] = {"push_back", "shrink_to_fit", "assign a copy", "move out and back"}; return n[x]; }
	void op(int x) override {
		switch (x) {
		case 0: a.push_back(fused(7)); m.push_back(7); break;
		case 1: if (m.empty()) break; a.pop_back(); m.pop_back(); a.shrink_to_fit(); break;
		case 2: { auto b = a; a = b; break; }
		case 3: { auto b = std::move(a); a = std::move(b); break; }
		}
	}
	void check() const override {
		MC_CHECK(a.size() == m.size(), "size", "a vector has " << a.size() << " elements, not " << m.size());
		for (size_t i = 0; i < m.size(); ++i) MC_CHECK(a[i].v == m[i], "value", "an element of a vector has changed");
	}
};
// nodes are allocated one at a time, through rebound allocators
struct list_slot : slot {
	struct node { void * p[2]; fused f; };
	std::list<fused, tpie::allocator<fused>> a; size_t n = 0;
	list_slot() : a(tpie::allocator<fused>(memory_bucket_ref(g_bucket))) { a.emplace_back(1); n = 1; }
	size_t bytes() const override { return a.size() * sizeof(node); }
	size_t bucket_bytes() const override { return bytes(); }
	int ops() const override { return 3; }
	const char * op_name(int x) const override { static const char * n[] = {"emplace_back", "clear", "assign a copy"}; return n[x]; }
	void op(int x) override {
		switch (x) {
		case 0: a.emplace_back(2); ++n; break;
		case 1: a.clear(); n = 0; break;
		case 2: { auto b = a; a = std::move(b); break; }
		}
	}
	void check() const override { MC_CHECK(a.size() == n, "size", "a list has " << a.size() << " elements, not " << n); for (auto & x : a) x.alive(); }
};
struct containers_slot : slot {
	internal_stack<fused> s; internal_queue<fused> q; internal_priority_queue<uint64_t> p; packed_array<int, 2> b; array<bool> f; disjoint_sets<uint32_t> d;
	size_t ns = 2, nq = 2, np = 2, nb = 70, nf = 70, nd = 3;
	containers_slot() : s(2), q(2), p(2), b(70), f(70), d(3) {}
	static size_t words(size_t bits) { return (bits + 63) / 64 * 8; }
	size_t bytes() const override { return ns * sizeof(fused) + nq * sizeof(fused) + np * 8 + words(nb * 2) + nf + nd * 4; }
	int ops() const override { return 7; }
	const char * op_name(int x) const override { static const char * n[] = {"resize a stack", "resize a queue", "resize a priority queue", "resize a packed array", "resize a bit array", "assign a copy of a packed array", "resize disjoint sets"}; return n[x]; }
	void op(int x) override {
		auto to = [&](size_t & n, size_t m, const std::function<void(size_t)> & f) {
			size_t o = n;
			n = 0; // empty when it fails
			(void)o;
			f(m);
			n = m;
		};
		switch (x) {
		case 0: to(ns, 5 - ns, [&](size_t m) { s.resize(m); }); break;
		case 1: to(nq, 5 - nq, [&](size_t m) { q.resize(m); }); break;
		case 2: to(np, 5 - np, [&](size_t m) { p.resize(m); }); break;
		case 3: to(nb, 140 - nb, [&](size_t m) { b.resize(m); }); break;
		case 4: to(nf, 200 - nf, [&](size_t m) { f.resize(m); }); break;
		case 5: { packed_array<int, 2> c(b); size_t o = nb; b.resize(0); nb = 0; b = c; nb = o; break; }
		case 6: to(nd, 7 - nd, [&](size_t m) { d.resize(m); }); break;
		}
	}
	void check() const override {
		MC_CHECK(b.size() == nb && f.size() == nf, "size", "a packed array has " << b.size() << " elements, not " << nb << ", or a bit array " << f.size() << ", not " << nf);
		MC_CHECK(s.empty() && q.empty() && p.empty(), "size", "an empty container is not empty after resize");
	}
};

slot * make_slot(int kind) {
	// the slots themselves and the vectors of the models live outside the account
	switch (kind) {
	case 0: return new plain_slot(5);
	case 1: return new poly_slot(6);
	case 2: return new raw_array_slot();
	case 3: return new unique_slot(7);
	case 4: return new array_slot<tpie::array<fused>>(3);
	case 5: return new vector_slot(8);
	case 6: return new list_slot();
	case 7: return new containers_slot();
	}
	return nullptr;
}
const char * kind_name[] = {"an object", "a polymorphic object", "an array of objects", "a unique_ptr", "a tpie::array", "a vector", "a list", "internal containers"};
const int kinds_n = 8;

/// What the histories do in one step, and what goes wrong in it.
void objects(int depth, std::vector<int> kinds) {
	memory_bucket bucket;
	g_bucket = &bucket;
	g_objects = 0;
	g_fuse = 0;
	// every type has been seen once
	for (int k : kinds) { slot * s = make_slot(k); for (int x = 0; x < s->ops(); ++x) s->op(x); delete s; }
	memory_manager & mm = get_memory_manager();
	// the log has been used
	mm.set_limit(1);
	mm.set_enforcement(memory_manager::ENFORCE_DEBUG);
	tpie_delete(tpie_new<fused>());
	mm.set_limit(size_t(1) << 30);
	mm.set_enforcement(memory_manager::ENFORCE_WARN);
	const size_t base = used(), unlimited = size_t(1) << 30;
	long held = 0; // blocks, summed up over the operations
	const int objects0 = g_objects;
	std::unique_ptr<slot> s[2];
	auto expected = [&]() { size_t r = base; for (auto & x : s) if (x) r += x->bytes(); return r; };
	auto verify = [&](const char * when) {
		MC_CHECK(used() == expected(), "account", "the account holds " << used() - base << " bytes " << when << ", but " << expected() - base << " are in use");
		size_t b = 0;
		for (auto & x : s) if (x) { x->check(); b += x->bucket_bytes(); }
		MC_CHECK(bucket.count == b, "bucket", "the bucket holds " << bucket.count << " bytes " << when << ", but " << b << " are in use");
	};
	for (int d = 0; d < depth; ++d) {
		// which operation
		int n = 0, empty = -1;
		for (int i = 0; i < 2; ++i) { if (s[i]) n += 1 + s[i]->ops(); else if (empty < 0) empty = i; }
		int c = mc::choose(n + (empty >= 0 ? int(kinds.size()) : 0));
		int target = empty, what = -1, kind = -1;
		if (c >= n) kind = kinds[c - n];
		else for (int i = 0; i < 2; ++i) if (s[i]) {
			if (c < 1 + s[i]->ops()) { target = i; what = c; break; }
			c -= 1 + s[i]->ops();
		}
		const bool frees = kind < 0 && what == 0;
		// what goes wrong: nothing, the limit (enforced or not), the heap, a constructor
		int wrong = frees ? mc::choose(2) : mc::choose(7);
		size_t room = 0;
		int at = 0;
		const size_t before = used();
		if (wrong == 1 || wrong == 2 || wrong == 3) {
			static const size_t rooms[] = {0, 1, sizeof(fused) - 1, sizeof(fused), 2 * sizeof(fused), 3 * sizeof(fused) - 1, 3 * sizeof(fused), 5 * sizeof(fused), sizeof(derived) - 1, sizeof(derived)};
			room = rooms[frees ? 0 : mc::choose(10)];
			mm.set_limit(before + room);
			mm.set_enforcement(wrong == 3 ? memory_manager::ENFORCE_IGNORE : wrong == 2 ? memory_manager::ENFORCE_DEBUG : memory_manager::ENFORCE_THROW);
		} else if (wrong == 4 || wrong == 5) at = 1 + mc::choose(4);
		else if (wrong == 6) at = 1 + mc::choose(8);
		if (kind >= 0) MC_TRACE("create " << kind_name[kind]); else if (frees) MC_TRACE("delete number " << target); else MC_TRACE(s[target]->op_name(what - 1) << " on number " << target);
		if (wrong) MC_TRACE("    with " << (wrong == 1 ? "an enforced limit" : wrong == 2 ? "a warning limit" : wrong == 3 ? "an ignored limit" : wrong == 6 ? "a throwing constructor" : "an exhausted heap") << ", room " << room << ", at " << at);
		bool threw = false;
		const int obj_before = g_objects;
		const long live_before = heap::live;
		long after = 0;
		{
			heap::calls = 0;
			const long l = heap::live;
			heap::fail_at = wrong == 4 || wrong == 5 ? at : 0;
			g_fuse = wrong == 6 ? at : 0;
			try {
				arm a;
				if (kind >= 0) s[target].reset(make_slot(kind));
				else if (frees) s[target].reset();
				else s[target]->op(what - 1);
			} catch (const std::bad_alloc & e) {
				threw = true;
				MC_CHECK(wrong == 4 || wrong == 5, "spurious-error", "bad_alloc although the heap was not exhausted");
			} catch (const out_of_memory_error & e) {
				threw = true;
				MC_CHECK(wrong == 1, "spurious-error", "out of memory although no limit was enforced: " << e.what());
				MC_CHECK(room < 1000, "spurious-error", "out of memory with plenty of room");
			} catch (const ctor_error &) {
				threw = true;
				MC_CHECK(wrong == 6, "spurious-error", "a constructor threw that must not");
			}
			heap::fail_at = 0;
			g_fuse = 0;
			after = heap::live;
			held += after - l;
		}
		mc::transition();
		if (frees) MC_CHECK(!threw, "spurious-error", "freeing failed");
		if (wrong == 0) MC_CHECK(!threw, "spurious-error", "an operation failed");
		verify(threw ? "after a failed operation" : "after an operation");
		if (wrong == 1 && !frees && !threw) MC_CHECK(used() <= before + room, "limit", "the account holds " << used() << " bytes, over the enforced limit of " << before + room);
		if (threw && kind >= 0) {
			MC_CHECK(g_objects == obj_before, "objects", g_objects - obj_before << " objects are left of a creation that failed");
			MC_CHECK(after == live_before, "leak", after - live_before << " blocks are left of a creation that failed");
			MC_CHECK(used() == before, "account", "a failed creation has changed the account by " << long(used() - before));
		}
		mm.set_limit(unlimited);
		mm.set_enforcement(memory_manager::ENFORCE_WARN);
		mc::state(mc::mix(used() - base, mc::mix(s[0] ? s[0]->bytes() + 1 : 0, s[1] ? s[1]->bytes() + 1 : 0)));
	}
	mc::outcome(used() - base);
	const long l = heap::live;
	for (auto & x : s) x.reset();
	held += heap::live - l;
	MC_CHECK(used() == base, "account", "the account holds " << used() - base << " bytes when everything is free");
	MC_CHECK(bucket.count == 0, "bucket", "the bucket holds " << bucket.count << " bytes when everything is free");
	MC_CHECK(held == 0, "leak", held << " blocks have leaked");
	MC_CHECK(g_objects == objects0, "objects", g_objects - objects0 << " objects are left when everything is free");
}

// --------------------------------------------------------------------- faults
// a block collection has a companion file, which is not temporary
struct queue_file {
	char path[512];
	queue_file(temp_file & t) { snprintf(path, sizeof path, "%s.queue", t.path().c_str()); }
	~queue_file() { remove(path); }
};
template <bool internal>
list do_btree() {
	typedef typename std::conditional<internal, btree<uint64_t, btree_internal>, btree<uint64_t, btree_external>>::type T;
	list out;
	temp_file t;
	queue_file q(t);
	std::unique_ptr<T> b = [&]() { if constexpr (internal) return std::unique_ptr<T>(new T()); else return std::unique_ptr<T>(new T(t.path())); }();
	for (auto x : keys(NI)) b->insert(x);
	for (uint64_t x = 0; x < 6; ++x) b->erase(x * 3);
	for (auto i = b->begin(); i != b->end(); ++i) out.push_back(*i);
	return out;
}
list btree_expected() {
	std::multiset<uint64_t> m;
	for (auto x : keys(NI)) m.insert(x);
	for (uint64_t x = 0; x < 6; ++x) m.erase(x * 3);
	return list(m.begin(), m.end());
}
list do_stream() {
	list in = keys(NI), out;
	temp_file t;
	{
		file_stream<uint64_t> s;
		s.open(t, open::compression_all);
		for (auto x : in) s.write(x);
		s.close();
	}
	{
		uncompressed_stream<uint64_t> u;
		u.open();
		file_stream<uint64_t> s;
		s.open(t, open::read_only);
		while (s.can_read()) u.write(s.read());
		u.seek(0);
		while (u.can_read()) out.push_back(u.read());
	}
	return out;
}
// a file that exists and is appended to: whatever fails, it is rejected afterwards or holds what it held
list do_append() {
	list in = keys(NI), out;
	temp_file t;
	const size_t old = 20;
	auto all = [&]() {
		list r;
		file_stream<uint64_t> s;
		s.open(t, open::read_only);
		while (s.can_read()) r.push_back(s.read());
		return r;
	};
	memory_manager & mm = get_memory_manager();
	const bool armed = heap::armed;
	const size_t limit = mm.limit();
	auto safe = [&](bool yes) { heap::armed = yes ? false : armed; mm.set_limit(yes ? size_t(1) << 30 : limit); };
	safe(true);
	{
		file_stream<uint64_t> s;
		s.open(t, open::compression_all);
		for (size_t i = 0; i < old; ++i) s.write(in[i]);
		s.close();
	}
	safe(false);
	try {
		file_stream<uint64_t> s;
		s.open(t, open::compression_all);
		s.seek(0, file_stream_base::end);
		for (size_t i = old; i < NI; ++i) s.write(in[i]);
		s.close();
	} catch (...) {
		safe(true);
		list r;
		bool rejected = false;
		try { r = all(); } catch (const std::exception & e) { rejected = true; }
		if (!rejected) MC_CHECK(r.size() >= old && r.size() <= NI && std::equal(r.begin(), r.end(), in.begin()), "data-lost", "a file holds " << mc::show(r) << " after an append has failed");
		safe(false);
		throw;
	}
	return all();
}
list do_containers() {
	list in = keys(NI), out;
	internal_stack<uint64_t> s(NI);
	internal_vector<uint64_t> v(NI);
	internal_queue<uint64_t> q(NI);
	internal_priority_queue<uint64_t> p(NI);
	array<uint64_t> a(NI), b(a);
	disjoint_sets<uint32_t> d(NI);
	for (auto x : in) s.push(x);
	while (!s.empty()) { q.push(s.top()); s.pop(); }
	while (!q.empty()) { p.push(q.front()); q.pop(); }
	while (!p.empty()) { v.push_back(p.top()); p.pop(); }
	for (size_t i = 0; i < NI; ++i) out.push_back(v[i]);
	return out;
}
list do_internal_sort() {
	list l = keys(NI);
	std::vector<uint64_t, tpie::allocator<uint64_t>> v(l.begin(), l.end());
	parallel_sort(v.begin(), v.end(), std::less<uint64_t>());
	return list(v.begin(), v.end());
}
list do_blocks() {
	list out;
	temp_file t;
	queue_file q(t);
	blocks::block_collection_cache c(t.path(), 64, 2, true);
	std::vector<blocks::block_handle> h;
	for (int i = 0; i < 4; ++i) {
		h.push_back(c.get_free_block());
		blocks::block * b = c.read_block(h.back());
		(*b)[0] = char(i);
		c.write_block(h.back());
	}
	for (auto x : h) out.push_back((*c.read_block(x))[0]);
	for (auto x : h) c.free_block(x);
	return out;
}
list do_buffers() {
	list in = keys(NI), out;
	pl::pipeline p = pl::input_vector(in) | pl::buffer() | pl::internal_reverser() | pl::output_vector(out);
	p();
	return out;
}

struct scenario { const char * name; std::function<list()> work; list expected; size_t block = 128; size_t most = 600; size_t memory = 8 << 20; bool heap = true; bool cannot_clean = false; };

/// mode 0: the k-th allocation fails; 1: a limit that stops the k-th rise of the account
void faulty(const scenario & sc, int mode) {
	// The choice comes first, so that the processes share the work; the number of
	// allocations is only known later.
	const size_t k = mc::choose(int(sc.most));
	mc::share();
	const size_t plenty = sc.memory;
	memory_manager & mm = get_memory_manager();
	auto run = [&](const char * when) {
		list r = sc.work();
		MC_CHECK(r == sc.expected, "wrong-result", sc.name << " gave " << mc::show(r) << " " << when << ", expected " << mc::show(sc.expected));
	};
	mm.set_limit(plenty);
	for (int i = 0; i < 2; ++i) {
		// the log has been used
		tpie::log_error() << std::string(1000, 'e') << std::endl;
		tpie::log_warning() << std::string(1000, 'w') << std::endl;
		tpie::log_debug() << std::string(1000, 'd') << std::endl;
		run("at first");
	}
	std::vector<size_t> tops;
	tops.reserve(4096);
	account acc;
	const size_t entries = mc::scratch_entries();
	heap::calls = 0;
	heap::fail_at = 0;
	heap::top = used();
	heap::tops = mode == 1 ? &tops : nullptr;
	long live = heap::live;
	{ arm a; run("again"); }
	heap::tops = nullptr;
	live = heap::live - live;
	MC_CHECK(live == 0, "leak", live << " blocks have leaked without any failure");
	acc.released("after a run without failures");
	const size_t n = mode == 0 ? heap::calls : tops.size();
	MC_CHECK(n <= sc.most, "harness", n << " allocations");
	if (k >= n) mc::prune();
	MC_TRACE(sc.name << (mode == 0 ? ": allocation number " : ": the limit stops rise number ") << k + 1 << " of " << n);
	heap::calls = 0;
	heap::failed = 0;
	bool failed = false;
	if (mode == 0) heap::fail_at = k + 1;
	else { mm.set_limit(tops[k] - 1); mm.set_enforcement(memory_manager::ENFORCE_THROW); }
	char said[300];
	bool proper = true;
	list r;
	live = heap::live;
	try {
		arm a;
		list l = sc.work();
		heap::armed = false;
		r = l;
	} catch (const std::exception & e) {
		heap::armed = false;
		failed = true;
		proper = dynamic_cast<const std::bad_alloc *>(&e) || dynamic_cast<const tpie::exception *>(&e);
		strncpy(said, e.what(), sizeof said - 1);
		said[sizeof said - 1] = 0;
	}
	live = heap::live - live - !r.empty();
	if (failed) {
		MC_TRACE("    it reports: " << said);
		MC_CHECK(proper, "foreign-exception", sc.name << " threw an undocumented exception: " << said);
		if (mode == 0) MC_CHECK(heap::failed > 0, "spurious-error", "it failed although no allocation did: " << said);
	} else MC_CHECK(r == sc.expected, "wrong-result", sc.name << " succeeded with " << mc::show(r) << ", expected " << mc::show(sc.expected));
	heap::fail_at = 0;
	mm.set_limit(plenty);
	mm.set_enforcement(memory_manager::ENFORCE_WARN);
	mc::transition();
	MC_CHECK(live <= 0, "leak", live << " blocks have leaked after a failure");
	acc.released("after a failure");
	// Names of files that a destructor removes take memory, so it may have to leave some.
	if (!sc.cannot_clean || mode == 1) MC_CHECK(mc::scratch_entries() == entries, "files-left", "temporary files are left after a failure");
	run("after a failure");
	mc::outcome(failed);
	mc::state(mc::mix(k, failed));
}

// ------------------------------------------------------------------- promises
/// What the account rises to while f runs, over what it is before.
template <typename F> size_t peak(F && f) {
	std::vector<size_t> tops;
	tops.reserve(4096);
	const size_t before = used();
	heap::top = before;
	heap::tops = &tops;
	{ arm a; f(); }
	heap::tops = nullptr;
	return heap::top - before;
}
template <typename T> void promise(const char * name, const std::function<T * (size_t)> & make, size_t least = 0) {
	// for every number of elements
	const size_t n = mc::choose(201);
	size_t need = 0;
	auto build = [&](size_t n) { return peak([&]() { T * t = make(n); tpie_delete(t); }); };
	if (n >= least) {
		need = build(n);
		MC_TRACE(name << " of " << n << " takes " << need << ", says " << T::memory_usage(n));
		MC_CHECK(need <= T::memory_usage(n), "promise", name << " of " << n << " elements takes " << need << " bytes, but memory_usage says " << T::memory_usage(n));
	}
	// and for every amount of memory
	const size_t m = n < 100 ? n : n - 100 + size_t(T::memory_overhead());
	const size_t fits = T::memory_fits(m);
	MC_TRACE(name << ": " << fits << " fit in " << m);
	MC_CHECK(fits <= m * 64, "promise", name << ": " << fits << " elements are said to fit in " << m << " bytes");
	if (fits >= least && fits > 0) {
		MC_CHECK(build(fits) <= m, "promise", name << ": " << fits << " elements are said to fit in " << m << " bytes, but take " << build(fits));
		MC_CHECK(T::memory_usage(fits) <= m, "promise", name << ": " << fits << " elements are said to fit in " << m << " bytes, and to take " << T::memory_usage(fits));
	}
	MC_CHECK(T::memory_usage(fits + 1) >= m, "promise", name << ": only " << fits << " elements are said to fit in " << m << " bytes");
	mc::transition();
	mc::state(mc::mix(n, mc::mix(need, fits)));
}
template <typename T> void promise(const char * name, size_t least = 0) { promise<T>(name, [](size_t n) { return tpie_new<T>(n); }, least); }
struct odd { char c[3]; bool operator<(const odd & o) const { return c[0] < o.c[0]; } };
template <typename T> void promises_of() {
	switch (mc::choose(6)) {
	case 0: promise<array<T>>("array"); break;
	case 1: promise<internal_stack<T>>("internal_stack"); break;
	case 2: promise<internal_vector<T>>("internal_vector"); break;
	case 3: promise<internal_queue<T>>("internal_queue"); break;
	case 4: promise<internal_priority_queue<T>>("internal_priority_queue"); break;
	case 5: if constexpr (std::is_integral<T>::value) promise<disjoint_sets<T>>("disjoint_sets"); break;
	}
}
void promises() {
	switch (mc::choose(8)) {
	case 0: promises_of<char>(); break;
	case 1: promises_of<odd>(); break;
	case 2: promises_of<uint32_t>(); break;
	case 3: promises_of<uint64_t>(); break;
	case 4: promise<array<bool>>("array of bits"); break;
	case 5: promise<packed_array<int, 1>>("packed_array of bits"); break;
	case 6: promise<packed_array<int, 2>>("packed_array of pairs of bits"); break;
	case 7: promise<packed_array<int, 4>>("packed_array of nibbles"); break;
	}
}
/// What a stream and what is made of streams takes, over a lifetime.
template <size_t N> void external_promises() {
	typedef kinds::item<N> T;
	static const double factors[] = {0.25, 0.5, 1.0, 2.0};
	const double factor = factors[mc::choose(4)];
	const int what = mc::choose(factor * 128 < sizeof(big) ? 5 : 6), count = mc::choose(8) * 7;
	// the shared buffers, which are not a stream's own, have this block size
	auto warm = [&]() {
		temp_file t;
		file_stream<T> s(factor);
		s.open(t, open::compression_normal);
		for (int i = 0; i < 200; ++i) s.write(T());
		s.seek(0);
		while (s.can_read()) s.read();
	};
	warm();
	size_t says = 0, takes = 0;
	const char * name = "";
	auto fill = [&](auto & s) {
		for (int i = 0; i < count; ++i) s.write(T());
		s.seek(0);
		for (int i = 0; i < count / 2; ++i) s.read();
		s.write(T());
		s.seek(0, file_stream_base::end);
		s.write(T());
	};
	temp_file t;
	t.path();
	switch (what) {
	case 0: case 1:
		name = what ? "an uncompressed file_stream" : "a compressed file_stream";
		says = file_stream<T>::memory_usage(factor);
		takes = peak([&]() {
			auto s = tpie::make_unique<file_stream<T>>(factor);
			s->open(t, what ? open::defaults : open::compression_all);
			for (int i = 0; i < count; ++i) s->write(T());
			s->seek(0);
			while (s->can_read()) s->read();
		});
		break;
	case 2:
		name = "an uncompressed_stream";
		says = uncompressed_stream<T>::memory_usage(factor);
		takes = peak([&]() { auto s = tpie::make_unique<uncompressed_stream<T>>(factor); s->open(t); fill(*s); });
		break;
	case 3:
		name = "a stack";
		says = tpie::stack<T>::memory_usage(factor);
		takes = peak([&]() { auto s = tpie::make_unique<tpie::stack<T>>(t, factor); for (int i = 0; i < count; ++i) s->push(T()); for (int i = 0; i < count / 2; ++i) s->pop(); s->push(T()); });
		break;
	case 4:
		name = "a queue";
		says = tpie::queue<T>::memory_usage(1.0);
		takes = peak([&]() { auto s = tpie::make_unique<tpie::queue<T>>(); for (int i = 0; i < count; ++i) s->push(T()); for (int i = 0; i < count / 2; ++i) s->pop(); s->push(T()); });
		break;
	case 5: {
		name = "a priority queue";
		const size_t least = 2 * file_stream<big>::memory_usage(factor) + 16 + 2 * (sizeof(big) + 8) + 16 * 1024 + 96 * sizeof(big);
		says = least + 4096 * (mc::choose(3));
		try {
			takes = peak([&]() {
				auto s = tpie::make_unique<tpie::priority_queue<big>>(memory_size_type(says), float(factor));
				for (int i = 0; i < count * 4; ++i) s->push(big());
				while (!s->empty()) s->pop();
			});
		} catch (const tpie::exception & e) { // too little memory for this block size
			heap::tops = nullptr;
			takes = 0;
		}
		break;
	}
	}
	MC_TRACE(name << " with block factor " << factor << " and " << count << " items of " << N << " bytes takes " << takes << ", says " << says);
	MC_CHECK(takes <= says, "promise", name << " with block factor " << factor << " and " << count << " items of " << N << " bytes takes " << takes << " bytes, but says " << says);
	mc::transition();
	mc::state(mc::mix(takes, what));
}

std::function<void()> world_of(std::function<void()> f, size_t block = 128, bool jobs = false) {
	world::config c;
	c.block_size = block;
	c.job_manager = jobs;
	return [=]() {
		injector i;
		i.budget = 0;
		i.lasting = false;
		inj = &i;
		heap::armed = false;
		heap::fail_at = 0;
		heap::tops = nullptr;
		mc::clean_scratch();
		world::run(c, [&]() { tempname::tpie_name(); f(); });
	};
}

// ------------------------------------------------------------------ threads
struct contest { std::vector<std::vector<size_t>> sizes; size_t room; };
/// Threads that allocate and free under an enforced limit.
void threads(const contest & c, bool enforced) {
	memory_manager & mm = get_memory_manager();
	mm.set_limit(1);
	mm.set_enforcement(memory_manager::ENFORCE_THROW);
	try { tpie_delete_array(tpie_new_array<char>(10), 10); } catch (const out_of_memory_error &) {}
	const size_t base = used(), limit = base + c.room, n = c.sizes.size();
	mm.set_limit(limit);
	if (!enforced) mm.set_enforcement(memory_manager::ENFORCE_IGNORE);
	std::vector<std::vector<char *>> got(n);
	std::vector<size_t> refused(n), wrong(n);
	for (size_t i = 0; i < n; ++i) got[i].resize(c.sizes[i].size());
	auto work = [&](size_t i) {
		for (size_t j = 0; j < c.sizes[i].size(); ++j) {
			try {
				got[i][j] = tpie_new_array<char>(c.sizes[i][j]);
			} catch (const out_of_memory_error &) { ++refused[i]; }
			if (enforced && used() > limit) ++wrong[i];
			if (j && got[i][j - 1]) { tpie_delete_array(got[i][j - 1], c.sizes[i][j - 1]); got[i][j - 1] = nullptr; }
		}
	};
	{
		std::vector<std::thread> t;
		for (size_t i = 1; i < n; ++i) t.emplace_back(work, i);
		work(0);
		for (auto & x : t) x.join();
	}
	mc::transition();
	size_t held = 0, failures = 0, total = 0, largest = 0;
	for (size_t i = 0; i < n; ++i) {
		MC_CHECK(wrong[i] == 0, "limit", "thread " << i << " saw the account over the enforced limit");
		failures += refused[i];
		for (size_t j = 0; j < got[i].size(); ++j) {
			total += c.sizes[i][j];
			largest = std::max(largest, c.sizes[i][j]);
			if (got[i][j]) held += c.sizes[i][j];
		}
	}
	MC_CHECK(used() == base + held, "account", "the account holds " << used() - base << " bytes, but " << held << " are in use");
	if (!enforced || total <= c.room) MC_CHECK(failures == 0, "refused", "an allocation was refused although there was room for all");
	bool once = true;
	for (auto & x : c.sizes) once = once && x.size() == 1;
	if (enforced && once && c.room >= largest) MC_CHECK(held > 0, "refused", "every thread was refused although there was room for one");
	// what is freed can be had again
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < got[i].size(); ++j) if (got[i][j]) tpie_delete_array(got[i][j], c.sizes[i][j]);
	MC_CHECK(used() == base, "account", "the account holds " << used() - base << " bytes when everything is free");
	tpie_delete_array(tpie_new_array<char>(c.room), c.room);
	mc::outcome(mc::mix(held, failures));
	mm.set_limit(size_t(1) << 30);
	mm.set_enforcement(memory_manager::ENFORCE_WARN);
}
std::function<void()> race(contest c, bool enforced, int preemptions) {
	world::config w;
	w.s.preemptions = preemptions;

	return [=]() { mc::clean_scratch(); world::run(w, [&]() { threads(c, enforced); }); };
}

} // unnamed

#ifdef MC_RACES
int main(int argc, char ** argv) {
	const int Q = 1, T = 2;
	for (int enforced = 0; enforced < 2; ++enforced) {
		std::string e = enforced ? "enforced" : "ignored";
		const std::string s = "every schedule of threads that allocate and free at a limit that is " + e;
		mc::add({"last_bytes_" + e, s, race({{{10}, {10}}, 10}, enforced, 100), {}, {}, Q | T});
		mc::add({"unequal_" + e, s, race({{{3}, {8}}, 10}, enforced, 100), {}, {}, Q | T});
		mc::add({"enough_" + e, s, race({{{10, 20}, {5, 15}}, 50}, enforced, 3), {}, {}, Q | T});
		mc::add({"turns_" + e, s, race({{{10, 4, 10}, {10, 6}}, 16}, enforced, 3), {}, {}, Q | T});
		mc::add({"three_" + e, s, race({{{10}, {7}, {4}}, 14}, enforced, 3), {}, {}, Q | T});
		mc::add({"three_turns_" + e, s, race({{{10, 4}, {7, 8}, {4, 9}}, 14}, enforced, 3), {}, {}, T});
		mc::add({"turns_deep_" + e, s, race({{{10, 4, 10}, {10, 6}}, 16}, enforced, 6), {}, {}, T});
	}
	return mc::main(argc, argv);
}
#else
int main(int argc, char ** argv) {
	const int Q = 1, T = 2;
	for (int k = 0; k < kinds_n; ++k) {
		int big = k == 7 || k == 4;
		mc::add({mc::strm() << "objects_" << k, mc::strm() << "every history of " << (big ? 2 : 3) << " operations on up to two of: " << kind_name[k] << "; every limit, exhausted heap and throwing constructor", world_of([=]() { objects(big ? 2 : 3, {k}); }), {}, {}, Q | T});
		mc::add({mc::strm() << "objects_deep_" << k, mc::strm() << "every history of " << (big ? 3 : 4) << " operations on up to two of: " << kind_name[k] << "; every limit, exhausted heap and throwing constructor", world_of([=]() { objects(big ? 3 : 4, {k}); }), {}, {}, T});
	}
	mc::add({"objects_mixed", "every history of 2 operations on all kinds of objects; every limit, exhausted heap and throwing constructor", world_of([=]() { objects(2, {0, 1, 2, 3, 4, 5, 6, 7}); }), {}, {}, Q | T});
	mc::add({"promises", "every number of elements and every amount of memory up to a bound, for every data structure that says how much it takes", world_of(promises), {}, {}, Q | T});
	mc::add({"external_promises", "streams and what is made of them, with every block factor: they take what they say", world_of([]() { if (mc::choose(2)) external_promises<8>(); else external_promises<24>(); }), {}, {}, Q | T});
	static const scenario scenarios[] = {
		{"stream", do_stream, keys(NI)},
		{"append", do_append, keys(NI)},
		{"stack", do_stack, keys(NI)},
		{"queue", do_queue, keys(NI)},
		{"named_stack", do_named_stack, [] { list e = keys(NI); e.resize(NI - 5); return e; }(), 128, 600, 8 << 20, false},
		{"sort", do_sort, sorted(keys(NI))},
		{"merge_sorter", do_merge_sorter<false, default_store>, sorted(keys(NI))},
		{"priority_queue", do_pq, sorted(keys(PQ)), 129, 4000},
		{"serialization", do_serialization<serialization_writer, serialization_reader>, list{'a', 'b', 'c'}, 128, 100},
		{"reverse_serialization", do_serialization<serialization_reverse_writer, serialization_reverse_reader>, list{'c', 'b', 'a'}, 128, 100},
		{"serialization_sorter", do_serialization_sorter, sorted(keys(13)), 128, 600, 8 << 20, true, true},
		{"pipe_sort", []() { return do_pipeline(0); }, pipeline_expected(0), 128, 1500, 1 << 18},
		{"pipe_reverse", []() { return do_pipeline(1); }, pipeline_expected(1)},
		{"pipe_delayed", []() { return do_pipeline(2); }, pipeline_expected(2)},
		{"pipe_serialization_sort", []() { return do_pipeline(3); }, pipeline_expected(3), 128, 600, 8 << 20, true, true},
		{"pipe_serialization_reverse", []() { return do_pipeline(4); }, pipeline_expected(4)},
		{"pipe_output", []() { return do_pipeline(5); }, pipeline_expected(5), 128, 1500, 1 << 18},
		{"pipe_buffers", do_buffers, [] { list e = keys(NI); std::reverse(e.begin(), e.end()); return e; }()},
		{"internal_sort", do_internal_sort, sorted(keys(NI))},
		{"containers", do_containers, sorted(keys(NI))},
		{"btree_internal", do_btree<true>, btree_expected(), 128, 600, 8 << 20, false},
		{"btree_external", do_btree<false>, btree_expected(), 128, 600, 8 << 20, false},
		{"blocks", do_blocks, list{0, 1, 2, 3}},
	};
	for (auto & s : scenarios) {
		// Without heap: a named stack can be written by its destructor only, which
		// cannot report a failure; a B-tree that is being changed calls augmenters.
		if (s.heap) mc::add({std::string("heap_") + s.name, "every allocation failing, one at a time", world_of([&]() { faulty(s, 0); }, s.block), {}, {}, Q | T});
		mc::add({std::string("limit_") + s.name, "every limit that stops the account where it would rise to a new maximum", world_of([&]() { faulty(s, 1); }, s.block), {}, {}, Q | T});
	}
	return mc::main(argc, argv);
}
#endif
