// C05: every I/O error is reported; nothing hangs, crashes, leaks or is lost silently.
//
// Every file system call of every history is made to fail (or to transfer less
// than asked for), one and two at a time, and from any point on for good.
#include "kinds.h"
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/priority_queue.h>
#include <tpie/sort.h>
#include <tpie/serialization_stream.h>
#include <tpie/serialization_sorter.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/blocks/block_collection_cache.h>
#include <map>
#include <memory>
#include <set>
#include <vector>

using namespace tpie;

namespace {

// ------------------------------------------------------------------- faults
struct injector {
	int budget;            // faults still to be had
	bool lasting;          // after the first failing call every modifying one fails
	bool on = false;
	bool full = false;
	int hard = 0, shorts = 0, unlinks = 0;
	unsigned calls = 0;

	io::action operator()(const io::call & c) {
		io::action a;
		if (!on) return a;
		++calls;
		const bool data = c.k == io::k_read || c.k == io::k_write;
		if (full && c.mutating && c.k != io::k_unlink) {
			a.err = ENOSPC;
			return a;
		}
		if (budget == 0 || c.k == io::k_seek) return a;
		int n = 2 + (data && c.size > 1 ? 2 : 0);
		int x = mc::choose(n);
		if (x == 0) return a;
		--budget;
		mc::transition();
		if (x == 1) {
			a.err = lasting ? ENOSPC : EIO;
			if (c.k == io::k_unlink) ++unlinks; else ++hard;
			if (lasting && c.k != io::k_unlink) full = true;
			MC_TRACE("    ! " << io::name(c.k) << " #" << calls << " of " << c.path.substr(c.path.rfind('/') + 1) << " fails" << (full ? ", and so does every later write" : ""));
		} else {
			a.limit = x == 2 ? c.size / 2 : 1;
			++shorts;
			MC_TRACE("    ! " << io::name(c.k) << " #" << calls << " of " << c.path.substr(c.path.rfind('/') + 1) << " transfers " << a.limit << " of " << c.size << " bytes");
		}
		return a;
	}
};
injector * inj;

/// The current exception must be one a caller can expect.
void expected_error(const std::exception & e, const char * op) {
	MC_TRACE("    " << op << " reports: " << e.what());
	MC_CHECK(inj->hard > 0 || inj->unlinks > 0, "spurious-error", op << " failed although no call did: " << e.what());
	MC_CHECK(dynamic_cast<const tpie::exception *>(&e) != nullptr || dynamic_cast<const tempfile_error *>(&e) != nullptr || dynamic_cast<const std::system_error *>(&e) != nullptr, "foreign-exception", op << " threw an undocumented exception: " << e.what());
}

/// Is the library as good as new?
void usable() {
	std::string p = world::path("fresh");
	{
		file_stream<uint64_t> s;
		s.open(p);
		for (uint64_t i = 0; i < 10; ++i) s.write(i * 3);
		s.close();
	}
	file_stream<uint64_t> s;
	s.open(p, open::read_only);
	MC_CHECK(s.size() == 10, "unusable", "a fresh stream has " << s.size() << " of 10 items after an error elsewhere");
	for (uint64_t i = 0; i < 10; ++i) MC_CHECK(s.read() == i * 3, "unusable", "a fresh stream has lost its items after an error elsewhere");
}

struct account {
	size_t mem = get_memory_manager().used();
	size_t files = get_file_manager().used();
	int fds = io::open_fds();
	stream_size_type temp = get_temp_file_usage();
	void released(const char * when) {
		MC_CHECK(get_temp_file_usage() == temp, "temp-usage", "temporary space " << get_temp_file_usage() << " " << when << ", " << temp << " before");
		MC_CHECK(io::open_fds() == fds, "descriptor-leak", io::open_fds() << " descriptors open " << when << ", " << fds << " before");
		MC_CHECK(get_file_manager().used() == files, "file-count", "file account " << get_file_manager().used() << " " << when << ", " << files << " before");
		MC_CHECK(get_memory_manager().used() == mem, "memory-leak", "memory account " << get_memory_manager().used() << " " << when << ", " << mem << " before");
	}
};

// ----------------------------------------------------------- streams of items
using namespace kinds;

struct model {
	std::vector<unsigned> version;  // exact as long as nothing has failed
	size_t cur = 0;
	size_t longest = 0;
	unsigned next = 0;
	bool failed = false;

	template <size_t N>
	void got(const item<N> & i, size_t pos, const char * how) {
		size_t p = (i.v & 0xffffffff) - 1;
		unsigned ver = unsigned(i.v >> 32) - 1;
		item<N> e = mk<N>(p, ver);
		MC_CHECK(memcmp(&i, &e, sizeof e) == 0 && ver < next && p < longest, "garbage", how << " at " << pos << " gave something nobody wrote" << (failed ? " (after an error)" : ""));
		MC_CHECK(p == pos, "misplaced", how << " at " << pos << " gave the item of position " << p << (failed ? " (after an error)" : ""));
		if (!failed) MC_CHECK(ver == version[pos], "lost", how << " at " << pos << " gave an old item");
	}
};

template <typename IO>
struct stream_run {
	typedef typename IO::item_t item_t;
	static const size_t N = sizeof(item_t);
	std::unique_ptr<IO> s{new IO()};
	model m;
	std::string path;
	size_t saved = 0;
	bool has_saved = false;

	template <typename F>
	bool attempt(const char * op, F f) {
		MC_TRACE(op);
		mc::transition();
		try {
			f();
		} catch (const std::exception & e) {
			expected_error(e, op);
			m.failed = true;
			return false;
		}
		return true;
	}

	void check_size(const char * op) {
		if (m.failed) return;
		MC_CHECK(s->size() == m.version.size(), "size", "after " << op << ": size() " << s->size() << ", expected " << m.version.size());
		MC_CHECK(s->offset() == m.cur, "offset", "after " << op << ": offset() " << s->offset() << ", expected " << m.cur);
	}

	void write(size_t k) {
		attempt(k == 1 ? "write" : "write a block", [&]() {
			for (size_t i = 0; i < k; ++i) {
				if (m.failed) m.cur = s->offset();
				if (!IO::middle && m.cur != s->size()) return;
				unsigned v = m.next++;
				m.longest = std::max(m.longest, m.cur + 1);
				s->write(mk<N>(m.cur, v));
				if (m.cur < m.version.size()) m.version[m.cur] = v; else m.version.push_back(v);
				++m.cur;
			}
		});
		if (s->is_open()) check_size("write");
	}
	void read(size_t k) {
		attempt("read", [&]() {
			for (size_t i = 0; i < k; ++i) {
				size_t o = m.failed ? s->offset() : m.cur, n = m.failed ? s->size() : m.version.size();
				if (o >= n) return;
				m.got(s->read(), o, "read");
				m.cur = o + 1;
			}
		});
	}
	void back(size_t k) {
		attempt("read_back", [&]() {
			for (size_t i = 0; i < k; ++i) {
				size_t o = m.failed ? s->offset() : m.cur;
				if (o == 0) return;
				m.got(s->read_back(), o - 1, "read_back");
				m.cur = o - 1;
			}
		});
	}
	void op(int x) {
		size_t B = s->per_block();
		switch (x) {
		case 0: write(1); break;
		case 1: write(B); break;
		case 2: read(B + 1); break;
		case 3: attempt("seek to the beginning", [&]() { s->begin(); m.cur = 0; }); break;
		case 4: attempt("seek to the end", [&]() { s->end(); m.cur = m.version.size(); }); break;
		case 5: back(B + 1); break;
		case 6: attempt("close and open", [&]() { s->close(); s->open(path, rw); m.cur = 0; }); break;
		case 7: attempt("truncate", [&]() {
				size_t to = IO::middle ? (m.failed ? s->size() : m.version.size()) / 2 : 0;
				s->truncate(to);
				if (!m.failed) { m.version.resize(to); m.cur = std::min(m.cur, to); }
				has_saved = has_saved && saved <= to;
			}); break;
		case 8: if (has_saved) attempt("set_position", [&]() { s->restore(); m.cur = saved; });
			else attempt("get_position", [&]() { s->save(); saved = m.cur; has_saved = !m.failed; });
			break;
		}
	}

	void run(int depth, bool close_at_end) {
		account acc;
		path = world::path("s");
		inj->on = true;
		attempt("open", [&]() { s->open(path, rw); });
		for (int d = 0; d < depth && s->is_open(); ++d) {
			op(mc::choose(IO::positions && !IO::middle ? 9 : 8));
			mc::state(mc::mix(mc::mix(mc::hash_seq(m.version), m.cur * 4 + m.failed * 2 + has_saved), s->is_open()));
		}
		bool told = m.failed;
		if (close_at_end) {
			attempt("close", [&]() { s->close(); });
			MC_CHECK(!s->is_open(), "close", "open after close()");
			told = m.failed;
		}
		s.reset();
		inj->on = false;
		acc.released("after the stream is gone");
		if (!m.failed && inj->hard == 0) MC_CHECK(!told, "harness", "told");
		// What is on disk?
		MC_TRACE("reopen without faults");
		bool rejected = false;
		s.reset(new IO());
		try {
			s->open(path, ro);
		} catch (const tpie::exception & e) {
			MC_TRACE("    rejected: " << e.what());
			rejected = true;
			MC_CHECK(told || inj->hard > 0, "rejected", "the file is rejected although nothing failed: " << e.what());
			MC_CHECK(told || !close_at_end, "unreported", "every call succeeded, close() included, but the file is rejected: " << e.what());
		}
		if (!rejected) {
			if (!told) {
				MC_CHECK(s->size() == m.version.size(), "unreported", "every call succeeded, but the file holds " << s->size() << " of " << m.version.size() << " items");
			}
			MC_CHECK(s->size() <= m.longest, "size", "the file claims " << s->size() << " items, " << m.longest << " were ever there");
			try {
				for (size_t i = 0, n = s->size(); i < n; ++i) m.got(s->read(), i, "reading the reopened file");
			} catch (const tpie::exception & e) {
				MC_CHECK(told, "unreported", "every call succeeded, but the file cannot be read: " << e.what());
			}
		}
		try { s->close(); } catch (const tpie::exception & e) { MC_CHECK(false, "spurious-error", "close without faults: " << e.what()); }
		s.reset();
		acc.released("after the reopened stream is gone");
		usable();
		mc::outcome(mc::mix(mc::hash_seq(m.version), m.failed * 2 + rejected));
	}
};

template <typename IO>
void streams(int depth) {
	bool c = !mc::choose_bool();
	stream_run<IO> r;
	r.run(depth, c);
}

// --------------------------------------------------------- whole algorithms
typedef std::vector<uint64_t> list;

/// work() delivers a list or throws; owners of files live inside it.
void whole(const char * what, const std::function<list()> & work, const list & expected) {
	account acc;
	const size_t before = mc::scratch_entries();
	list r;
	bool failed = false;
	inj->on = true;
	MC_TRACE(what);
	try {
		r = work();
	} catch (const std::exception & e) {
		expected_error(e, what);
		failed = true;
	}
	inj->on = false;
	mc::transition();
	if (!failed) MC_CHECK(r == expected, "wrong-result", what << " succeeded with " << mc::show(r) << ", expected " << mc::show(expected));
	acc.released("afterwards");
	if (inj->unlinks == 0) MC_CHECK(mc::scratch_entries() == before, "files-left", mc::scratch_entries() - before << " temporary files left");
	usable();
	mc::outcome(failed);
	mc::state(mc::mix(failed, inj->calls));
}

list keys(size_t n) {
	list r;
	for (size_t i = 0; i < n; ++i) r.push_back((i * 7 + 3) % 11 + i / 11 * 2);
	return r;
}
list sorted(list l) { std::sort(l.begin(), l.end()); return l; }

const size_t NI = 40;  // items; blocks hold 16
const size_t PQ = 200; // items of the priority queue; blocks hold 2

list do_stack() {
	tpie::stack<uint64_t> s(1.0);
	list in = keys(NI), out;
	for (auto x : in) s.push(x);
	while (!s.empty()) out.push_back(s.pop());
	std::reverse(out.begin(), out.end());
	return out;
}
list do_queue() {
	tpie::queue<uint64_t> q;
	list in = keys(NI), out;
	for (size_t i = 0; i < in.size(); ++i) { q.push(in[i]); if (i % 3 == 0) out.push_back(q.pop()); }
	while (!q.empty()) out.push_back(q.pop());
	return out;
}
list do_sort() {
	file_stream<uint64_t> s;
	s.open();
	for (auto x : keys(NI)) s.write(x);
	s.seek(0);
	progress_indicator_null pi;
	tpie::sort(s, std::less<uint64_t>(), pi);
	s.seek(0);
	list out;
	while (s.can_read()) out.push_back(s.read());
	return out;
}
template <bool progress, typename Store>
list do_merge_sorter() {
	merge_sorter<uint64_t, false, std::less<uint64_t>, Store> ms;
	ms.set_parameters(4, 3);
	ms.begin();
	for (auto x : keys(NI)) ms.push(uint64_t(x));
	ms.end();
	dummy_progress_indicator pi;
	ms.calc(pi);
	list out;
	while (ms.can_pull()) out.push_back(ms.pull());
	return out;
}
// The smallest external priority queue there is (c10 tells how it gets its sizes).
struct big { uint64_t v; char pad[56]; bool operator<(const big & o) const { return v < o.v; } };
list do_pq() {
	list out;
	tpie::unique_ptr<tpie::priority_queue<big>> q(tpie_new<tpie::priority_queue<big>>(memory_size_type(2 * file_stream<big>::memory_usage(1.0f) + 16 + 2 * (sizeof(big) + 8) + 16 * 1024 + 96 * sizeof(big)), 1.0f));
	list in = keys(PQ);
	for (auto x : in) { big b; memset(&b, 1, sizeof b); b.v = x; q->push(b); }
	while (!q->empty()) { out.push_back(q->top().v); q->pop(); }
	return out;
}
list do_named_stack() {
	std::string p = world::path("stack");
	struct rm { std::string p; ~rm() { bool o = inj->on; inj->on = false; ::unlink(p.c_str()); inj->on = o; } } r{p};
	list in = keys(NI), out;
	{
		tpie::stack<uint64_t> s(p);
		for (auto x : in) s.push(x);
		for (int i = 0; i < 5; ++i) s.pop();
	}
	// a stack that could not be written in its destructor is rejected, or fails
	// when it is read, or is complete
	bool wounded = inj->hard > 0;
	tpie::stack<uint64_t> s(p);
	if (wounded && s.empty()) throw tpie::exception("the stack was not written");
	while (!s.empty()) out.push_back(s.pop());
	std::reverse(out.begin(), out.end());
	return out;
}
template <typename W, typename R>
list do_serialization() {
	temp_file t;
	const size_t n = 3;
	{
		W w;
		w.open(t);
		for (size_t i = 0; i < n; ++i) w.serialize(std::string(900000, char('a' + i)));
		w.close();
	}
	R r;
	r.open(t);
	list out;
	while (r.can_read()) { std::string s; r.unserialize(s); MC_CHECK(s == std::string(900000, s.empty() ? 'x' : s[0]), "garbage", "a mixed string"); out.push_back(s[0]); }
	r.close();
	return out;
}
struct owned { std::string s; bool operator<(const owned & o) const { return s < o.s; } };
template <typename D> void serialize(D & d, const owned & o) { using tpie::serialize; serialize(d, o.s); }
template <typename S> void unserialize(S & s, owned & o) { using tpie::unserialize; unserialize(s, o.s); }
list do_serialization_sorter() {
	serialization_sorter<owned> s(16);
	const size_t B = serialization_writer::memory_usage();
	s.set_available_files(1, 4, 3);
	s.set_available_memory(B + 6 * sizeof(owned), 6 * B, 6 * B);
	s.begin();
	for (auto x : keys(13)) s.push(owned{std::string(30, char('a' + x))});
	s.end();
	dummy_progress_indicator pi;
	s.merge_runs();
	list out;
	while (s.can_pull()) out.push_back(uint64_t(s.pull().s[0] - 'a'));
	return out;
}

namespace pl = tpie::pipelining;
list do_pipeline(int which) {
	list in = keys(NI), out;
	struct sink_t { list & out; void operator()(uint64_t x) const { out.push_back(x); } };
	temp_file t;
	{
		file_stream<uint64_t> s;
		s.open(t);
		for (auto x : in) s.write(x);
		s.close();
	}
	file_stream<uint64_t> fi, fo;
	fi.open(t, open::read_only);
	pl::pipeline p;
	switch (which) {
	case 0: p = pl::input(fi) | pl::sort() | pl::output_vector(out); break;
	case 1: p = pl::input(fi) | pl::reverser() | pl::buffer() | pl::output_vector(out); break;
	case 2: p = pl::input(fi) | pl::buffer() | pl::output_vector(out); break;
	case 3: p = pl::input(fi) | pl::serialization_sort(std::less<uint64_t>()) | pl::output_vector(out); break;
	case 4: p = pl::input(fi) | pl::serialization_buffer() | pl::serialization_reverser() | pl::output_vector(out); break;
	case 5: {
		fo.open();
		p = pl::input(fi) | pl::sort() | pl::output(fo);
		break;
	}
	}
	p();
	if (which == 5) {
		fo.seek(0);
		while (fo.can_read()) out.push_back(fo.read());
	}
	return out;
}
list pipeline_expected(int which) {
	list e = keys(NI);
	if (which == 0 || which == 3 || which == 5) e = sorted(e);
	if (which == 1 || which == 4) std::reverse(e.begin(), e.end());
	return e;
}

// ------------------------------------------------------------------- blocks
/// Block collections report in every call but cannot in their destructors,
/// which therefore run without faults here; see blocks_destroy.
void fill(blocks::block & b, unsigned v) { for (size_t i = 0; i < b.size(); ++i) b[i] = char(v * 16 + i); }
bool is(const blocks::block & b, unsigned v) { for (size_t i = 0; i < b.size(); ++i) if (b[i] != char(v * 16 + i)) return false; return true; }

template <typename F>
bool guarded(const char * op, F f) {
	mc::transition();
	MC_TRACE(op);
	try { f(); } catch (const std::exception & e) { expected_error(e, op); return false; }
	return true;
}

void block_cache(int depth, int cache, bool faulty_destructor) {
	const size_t BS = 48;
	std::string p = world::path("blocks");
	account acc;
	{
		std::unique_ptr<blocks::block_collection_cache> c;
		struct live { blocks::block_handle h; unsigned v; };
		std::vector<live> l;
		unsigned next = 1;
		bool lost = false; // the list of free blocks is not usable any more
		auto mk = [&]() { return guarded("open", [&]() { c.reset(new blocks::block_collection_cache(p, BS, cache, true)); }); };
		inj->on = true;
		if (mk()) {
			for (int d = 0; d < depth; ++d) {
				int n = l.size();
				int x = mc::choose(3 * n + (n < 3));
				if (x < n) {
					guarded("write a block", [&]() {
						blocks::block * b = c->read_block(l[x].h);
						MC_CHECK(b->size() == BS && is(*b, l[x].v), "content", "block " << x << " does not hold what was written last");
						fill(*b, l[x].v = next++);
						c->write_block(l[x].h);
					});
				} else if (x < 2 * n) {
					guarded("read a block", [&]() {
						blocks::block * b = c->read_block(l[x - n].h);
						MC_CHECK(b->size() == BS && is(*b, l[x - n].v), "content", "block " << x - n << " does not hold what was written last");
					});
				} else if (x < 3 * n) {
					live o = l[x - 2 * n];
					l.erase(l.begin() + (x - 2 * n));
					if (!guarded("free a block", [&]() { c->free_block(o.h); })) lost = true;
				} else {
					live o;
					bool got = guarded("allocate", [&]() { o.h = c->get_free_block(); });
					if (!got) { lost = true; continue; }
					for (auto & a : l) MC_CHECK(a.h.position + a.h.size <= o.h.position || o.h.position + o.h.size <= a.h.position, "overlap", "a new block overlaps a live one");
					o.v = next++;
					l.push_back(o);
					guarded("fill it", [&]() {
						blocks::block * b = c->read_block(o.h);
						MC_CHECK(b->size() == BS, "content", "a new block of " << b->size() << " bytes");
						fill(*b, o.v);
						c->write_block(o.h);
					});
				}
				mc::state(mc::mix(next * 8 + l.size(), inj->hard));
			}
			inj->on = false;
			for (size_t i = 0; i < l.size(); ++i) {
				blocks::block * b = c->read_block(l[i].h);
				MC_CHECK(b->size() == BS && is(*b, l[i].v), "content", "block " << i << " does not hold what was written last");
			}
			if (faulty_destructor) {
				inj->on = true;
				MC_TRACE("destroy it");
				int before = inj->hard;
				struct off { ~off() { inj->on = false; } } o;
				c.reset();
				lost = lost || inj->hard > before;
			} else {
				c.reset();
			}
			inj->on = false;
			bool opened = false;
			if (!(lost && faulty_destructor)) {
				try {
					c.reset(new blocks::block_collection_cache(p, BS, cache, false));
					opened = true;
				} catch (const tpie::exception & e) {
					MC_TRACE("    rejected: " << e.what());
					MC_CHECK(lost, "rejected", "the blocks cannot be opened although no call that could matter failed: " << e.what());
				}
			}
			if (opened) for (size_t i = 0; i < l.size(); ++i) {
				if (lost) break; // what is live is known no longer
				blocks::block * b = c->read_block(l[i].h);
				MC_CHECK(b->size() == BS && is(*b, l[i].v), "unreported", "block " << i << " on disk does not hold what was written last");
			}
			c.reset();
		}
		inj->on = false;
		mc::outcome(mc::mix(next, inj->hard * 4 + lost));
	}
	acc.released("afterwards");
	usable();
}

void algorithm(int which) {
	switch (which) {
	case 0: whole("stack", do_stack, keys(NI)); break;
	case 1: whole("queue", do_queue, keys(NI)); break;
	case 2: whole("sort a stream", do_sort, sorted(keys(NI))); break;
	case 3: whole("merge_sorter", do_merge_sorter<false, default_store>, sorted(keys(NI))); break;
	case 4: whole("priority_queue", do_pq, sorted(keys(PQ))); break;
	case 5: whole("serialization", do_serialization<serialization_writer, serialization_reader>, list{'a', 'b', 'c'}); break;
	case 6: whole("reverse serialization", do_serialization<serialization_reverse_writer, serialization_reverse_reader>, list{'c', 'b', 'a'}); break;
	case 7: whole("serialization_sorter", do_serialization_sorter, sorted(keys(13))); break;
	case 14: { list e = keys(NI); e.resize(NI - 5); whole("named stack", do_named_stack, e); break; }
	case 8: case 9: case 10: case 11: case 12: case 13: {
		int w = which - 8;
		whole("pipeline", [w]() { return do_pipeline(w); }, pipeline_expected(w));
		break;
	}
	}
}

std::function<void()> W(int budget, bool lasting, int preemptions, std::function<void()> f, size_t block = 128, size_t memory = 8 << 20) {
	world::config c;
	c.block_size = block;
	c.memory_limit = memory;
	c.file_limit = true;
	c.max_files = 3 + 12 * (block == 128);
	c.s.preemptions = preemptions;
	return [=]() {
		injector i;
		i.budget = budget;
		i.lasting = lasting;
		inj = &i;
		mc::clean_scratch();
		io::scoped_hook h([&](const io::call & k) { return i(k); });
		world::run(c, [&]() { tempname::tpie_name(); f(); });
	};
}

} // unnamed

#ifndef WITHOUT_MAIN // c18_memory.cpp and c19_files.cpp have their own
int main(int argc, char ** argv) {
	const int Q = 1, T = 2;
	// the depths were chosen for about two minutes (quick) and an hour (thorough)
	struct kind { const char * name; std::function<void(int)> f; } kinds[] = {
		{"plain", streams<compressed_io<8, 0>>},
		{"compressed", streams<compressed_io<8, 2>>},
		{"compressed_normal", streams<compressed_io<24, 1>>},
		{"uncompressed_stream", streams<uncompressed_io<8>>},
		{"file", streams<file_io<8>>},
	};
	for (auto & k : kinds) {
		auto f = k.f;
		std::string n = k.name;
		auto add = [&](const char * suffix, const char * what, int depth, int budget, bool lasting, int preemptions, int tiers) {
			mc::add({n + suffix, mc::strm() << "every history of " << depth << " operations on a stream, closed or just destroyed; " << what, W(budget, lasting, preemptions, [=]() { f(depth); }), {}, {}, tiers});
		};
		add("_one", "every file system call failing once or coming up short once", 4, 1, false, 0, Q);
		add("_lasting", "every file system call failing, and every later modifying one too (disk full)", 4, 1, true, 0, Q);
		add("_schedules", "every failing or short call, every schedule with one preemption", 3, 1, false, 1, Q);
		add("_two", "every pair of failing or short calls", 3, 2, false, 0, Q);
		add("_one_5", "every file system call failing once or coming up short once", 5, 1, false, 0, T);
		add("_lasting_5", "every file system call failing, and every later modifying one too", 5, 1, true, 0, T);
		add("_two_4", "every pair of failing or short calls", 4, 2, false, 0, T);
		add("_three_3", "every three failing or short calls", 3, 3, false, 0, T);
		add("_schedules_4", "every failing or short call, every schedule with one preemption", 4, 1, false, 1, T);
		add("_schedules_2p", "every failing or short call, every schedule with two preemptions", 3, 1, false, 2, T);
	}
	struct alg { const char * name; int i; size_t block; } algs[] = {
		{"stack", 0, 128}, {"queue", 1, 128}, {"sort", 2, 128}, {"merge_sorter", 3, 128}, {"priority_queue", 4, 129}, {"serialization", 5, 128}, {"reverse_serialization", 6, 128},
		{"serialization_sorter", 7, 128}, {"pipe_sort", 8, 128}, {"pipe_reverse", 9, 128}, {"pipe_delayed", 10, 128}, {"pipe_serialization_sort", 11, 128}, {"pipe_serialization_reverse", 12, 128}, {"pipe_output", 13, 128},
		{"named_stack", 14, 128},
	};
	for (auto & a : algs) {
		int i = a.i;
		std::string n = a.name;
		auto add = [&](const char * suffix, const char * what, int budget, bool lasting, int preemptions, int tiers) {
			if (tiers) mc::add({n + suffix, what, W(budget, lasting, preemptions, [=]() { algorithm(i); }, a.block), {}, {}, tiers});
		};
		add("", "every file system call failing once or coming up short once", 1, false, 0, Q | T);
		add("_lasting", "every file system call failing, and every later modifying one too", 1, true, 0, Q | T);
		const int small = i == 3 || i == 4 || i == 7 ? T : Q | T;
		add("_two", "every pair of failing or short calls", 2, false, 0, small);
		add("_schedules", "every failing or short call, every schedule with one preemption", 1, false, 1, small);
		add("_three", "every three failing or short calls", 3, false, 0, i == 4 || i == 3 ? 0 : T);
		add("_schedules_2p", "every failing or short call, every schedule with two preemptions", 1, false, 2, i == 4 ? 0 : T);
	}
	for (int cache = 1; cache <= 3; ++cache) {
		std::string n = "blocks_" + std::to_string(cache);
		auto add = [&](const char * suffix, const char * what, int depth, int budget, bool lasting, bool destroy, int tiers) {
			mc::add({n + suffix, mc::strm() << "every history of " << depth << " operations on blocks with a cache of " << cache << "; " << what, W(budget, lasting, 0, [=]() { block_cache(depth, cache, destroy); }), {}, {}, tiers});
		};
		add("", "every call failing or coming up short once, but not in the destructor", 5, 1, false, false, Q);
		add("_lasting", "every call failing, and every later modifying one too, but not in the destructor", 5, 1, true, false, Q);
		add("_deep", "every call failing or coming up short once, but not in the destructor", 6, 1, false, false, T);
		add("_lasting_deep", "every call failing, and every later modifying one too, but not in the destructor", 6, 1, true, false, T);
		add("_two", "every pair of failing or short calls, but not in the destructor", 5, 2, false, false, T);
	}
	mc::add({"blocks_destroy", "every history of 2 operations on blocks, every call failing, in the destructor too", W(1, false, 0, [=]() { block_cache(2, 2, true); }), {}, {}, Q | T});
	return mc::main(argc, argv);
}
#endif
