// C04: after a crash a file is rejected or holds its last closed contents.
//
// Every history is cut off before every modifying file system call, and in the
// middle of every data write; what is then on disk is opened again.
#include "kinds.h"
#include <tpie/serialization_stream.h>
#include <tpie/stack.h>
#include <tpie/blocks/block_collection_cache.h>
#include <map>
#include <vector>

using namespace tpie;
using namespace kinds;

namespace {

struct contents {
	std::vector<uint64_t> items;
	uint64_t user = 0;
	bool operator==(const contents & o) const { return items == o.items && user == o.user; }
};
std::ostream & operator<<(std::ostream & o, const contents & c) { return o << mc::show(c.items) << "/" << c.user; }

/// Takes a picture of some files at one moment of the execution.
struct crash {
	std::vector<std::string> files;
	bool on = false, happened = false, torn = false;
	unsigned calls = 0, last = 0; // modifying calls done; those at the last completed close
	std::map<std::string, std::string> disk;
	std::function<void()> at;    // the history notes what it may find
	static const size_t header = 72; // of a stream

	void snap(const char * when) {
		MC_TRACE("    CRASH " << when << " (after " << calls << " modifying calls)");
		happened = true;
		for (auto & f : files) if (io::exists(f)) disk[f] = io::slurp(f);
		at();
		mc::transition();
		mc::stop_branching();
	}
	io::action operator()(const io::call & c) {
		io::action a;
		if (!on || happened) return a;
		if (torn) { snap("in the middle of a write"); return a; }
		if (!c.mutating) return a;
		// The header is far smaller than a page: it is written or it is not.
		bool tear = c.k == io::k_write && c.size > 1 && c.size != header;
		switch (mc::choose(tear ? 4 : 2)) {
		case 1: snap((std::string("before ") + io::name(c.k)).c_str()); return a;
		case 2: torn = true; a.limit = c.size / 2; break;
		case 3: torn = true; a.limit = c.size - 1; break;
		}
		++calls;
		MC_TRACE("    " << io::name(c.k) << " " << c.path.substr(c.path.rfind('/') + 1) << " " << c.size << (torn ? ", partly" : ""));
		return a;
	}
	/// the history is over: this is a crash point, too
	void end() {
		on = false;
		if (!happened) { on = true; snap("at the end"); on = false; }
	}
	void restore() {
		for (auto & f : files) {
			::unlink(f.c_str());
			if (disk.count(f)) io::spit(f, disk[f]);
		}
	}
};
crash * cr;

/// What may be found on disk
struct expectation {
	std::vector<contents> allowed;
	bool existed = false;   // nothing has modified the file since a completed close
	void note(const std::string & what, const contents & c) {
		for (auto & a : allowed) if (a == c) return;
		std::string l;
		for (auto & a : allowed) l += (mc::strm() << " " << a).operator std::string();
		mc::fail("mixed-contents", mc::strm() << what << " finds " << c << " which the file never had at a close; allowed:" << l);
	}
};

template <typename IO>
struct history {
	typedef typename IO::item_t item_t;
	static const size_t N = sizeof(item_t);
	std::unique_ptr<IO> s{new IO()};
	std::string path = world::path("s");
	contents now;             // of the open stream
	std::vector<contents> closed; // the last completed close, if any
	bool open_ = false, dirty = false, closing = false;
	mode m = rw;
	size_t cur = 0;
	unsigned next = 1;
	expectation e;

	history() {
		cr->files = {path};
		cr->at = [this]() {
			e.allowed = closed;
			if (closing) e.allowed.push_back(now);
			e.existed = !closed.empty() && !dirty && !closing;
		};
	}
	void open(mode x) {
		MC_TRACE("open " << (x == ro ? "for reading" : x == rw ? "for reading and writing" : "for writing"));
		if (x == ro && closed.empty()) x = rw;
		m = x;
		if (m != ro) dirty = true;
		s->open(path, m, 8);
		if (m == wo) now = contents();
		else if (!closed.empty()) now = closed[0];
		cur = 0;
		open_ = true;
	}
	void close() {
		MC_TRACE("close");
		if (m != ro) closing = true;
		s->close();
		open_ = closing = false;
		if (m != ro) closed = {now};
		dirty = false;
	}
	void write(size_t k) {
		MC_TRACE("write " << k << " at " << cur);
		if (m == ro) return;
		if (!IO::middle && cur != now.items.size()) { s->end(); cur = now.items.size(); }
		for (size_t i = 0; i < k; ++i) {
			item_t x = mk<N>(cur, next++);
			s->write(x);
			if (cur < now.items.size()) now.items[cur] = x.v; else now.items.push_back(x.v);
			++cur;
		}
	}
	void op(int x) {
		size_t B = s->per_block();
		switch (x) {
		case 0: write(1); break;
		case 1: write(B); break;
		case 2: if (m == wo) { write(B + 1); break; }
			MC_TRACE("seek to the beginning"); s->begin(); cur = 0; break;
		case 3: {
			if (m == ro) break;
			size_t to = IO::middle ? now.items.size() / 2 : 0;
			if (m == wo) to = 0;
			MC_TRACE("truncate to " << to);
			s->truncate(to);
			now.items.resize(to);
			cur = std::min(cur, to);
			break;
		}
		case 4: if (m == ro) break; MC_TRACE("write user data"); now.user = next++; s->put_user(now.user); break;
		case 5: close(); open(rw); break;
		case 6: close(); open(ro); break;
		case 7: close(); open(wo); break;
		}
	}
	contents read_all(mode x) {
		contents c;
		IO t;
		t.open(path, x, 8);
		for (size_t i = 0, n = t.size(); i < n; ++i) c.items.push_back(t.read().v);
		c.user = t.get_user();
		t.close();
		return c;
	}
	void verify(mode x) {
		cr->restore();
		MC_TRACE("reopen what is left " << (x == ro ? "for reading" : "for reading and writing"));
		contents c;
		try {
			c = read_all(x);
			MC_TRACE("  finds " << mc::show(c.items));
		} catch (const tpie::exception & ex) {
			MC_TRACE("  rejected: " << ex.what());
			MC_CHECK(!e.existed, "closed-rejected", "a file that was closed and only read since is rejected: " << ex.what());
			return;
		}
		if (!cr->disk.count(path)) { MC_CHECK(c.items.empty(), "conjured", "a file that did not exist has items"); return; }
		e.note(x == ro ? "reading" : "opening read/write", c);
		contents d = read_all(ro);
		MC_CHECK(d == c, "second-open", "the second time the file holds " << d << ", the first time " << c);
	}
	void run(int depth) {
		cr->on = true;
		open(rw);
		for (int d = 0; d < depth && !cr->happened; ++d) {
			op(mc::choose(8));
			mc::state(mc::mix(mc::hash_seq(now.items, now.user), cur * 64 + m * 16 + closed.size() * 4 + dirty));
		}
		if (!cr->happened) close();
		cr->end();
		s.reset();
		mc::outcome(mc::mix(mc::hash_seq(now.items, now.user), e.allowed.size() * 2 + e.existed));
		verify(ro);
		verify(rw);
	}
};

template <typename IO> void streams(int depth) { history<IO> h; h.run(depth); }

// -------------------------------------------------------------- serialization
template <typename W, typename R, bool reverse>
void serialization(int sessions) {
	std::string path = world::path("ser");
	cr->files = {path};
	contents now;
	std::vector<contents> closed;
	bool closing = false, dirty = false;
	expectation e;
	cr->at = [&]() {
		e.allowed = closed;
		if (closing) e.allowed.push_back(now);
		e.existed = !closed.empty() && !dirty && !closing;
	};
	auto value = [](uint64_t v) { return std::string(v % 3 == 2 ? (size_t(1) << 20) : 5 + v, char('a' + v)); };
	cr->on = true;
	uint64_t next = 0;
	W w;
	for (int i = 0; i < sessions && !cr->happened; ++i) {
		int k = mc::choose(5);
		MC_TRACE("session of " << k);
		dirty = true;
		now = contents();
		w.open(path);
		for (int j = 0; j < k; ++j) { w.serialize(value(next)); now.items.push_back(next++); }
		closing = true;
		w.close();
		closing = dirty = false;
		closed = {now};
	}
	cr->end();
	mc::state(mc::hash_seq(now.items, cr->calls));
	mc::outcome(mc::hash_seq(now.items, e.allowed.size()));
	cr->restore();
	contents c;
	try {
		R r;
		r.open(path);
		while (r.can_read()) {
			std::string s;
			r.unserialize(s);
			MC_CHECK(!s.empty() && s == std::string(s.size(), s[0]), "mixed-value", "a string that nobody wrote");
			uint64_t v = s[0] - 'a';
			MC_CHECK(s == value(v), "mixed-value", "a string that nobody wrote");
			c.items.push_back(v);
		}
		r.close();
	} catch (const tpie::exception & ex) {
		MC_TRACE("rejected: " << ex.what());
		MC_CHECK(!e.existed, "closed-rejected", "a file that was closed is rejected: " << ex.what());
		return;
	}
	if (reverse) std::reverse(c.items.begin(), c.items.end());
	e.note("reading", c);
}

// ------------------------------------------------------------------ stacks
void named_stack(int depth) {
	std::string path = world::path("stack");
	cr->files = {path};
	contents now;
	std::vector<contents> closed;
	bool closing = false, dirty = false;
	expectation e;
	cr->at = [&]() {
		e.allowed = closed;
		if (closing) e.allowed.push_back(now);
		e.existed = !closed.empty() && !dirty && !closing;
	};
	cr->on = true;
	uint64_t next = 1;
	std::unique_ptr<tpie::stack<uint64_t>> s;
	auto open = [&]() { MC_TRACE("open"); dirty = true; s.reset(new tpie::stack<uint64_t>(path)); };
	auto close = [&]() { MC_TRACE("close"); closing = true; s.reset(); closing = dirty = false; closed = {now}; };
	open();
	for (int d = 0; d < depth && !cr->happened; ++d) {
		switch (mc::choose(4)) {
		case 0: MC_TRACE("push"); s->push(next); now.items.push_back(next++); break;
		case 1: MC_TRACE("push a block"); for (int i = 0; i < 5; ++i) { s->push(next); now.items.push_back(next++); } break;
		case 2: MC_TRACE("pop 3"); for (int i = 0; i < 3 && !now.items.empty(); ++i) { MC_CHECK(s->pop() == now.items.back(), "pop", "wrong item"); now.items.pop_back(); } break;
		case 3: close(); open(); break;
		}
		mc::state(mc::hash_seq(now.items, closed.size()));
	}
	if (!cr->happened) close();
	cr->end();
	s.reset();
	mc::outcome(mc::hash_seq(now.items, e.allowed.size()));
	cr->restore();
	contents c;
	try {
		tpie::stack<uint64_t> t(path);
		while (!t.empty()) c.items.push_back(t.pop());
	} catch (const tpie::exception & ex) {
		MC_TRACE("rejected: " << ex.what());
		MC_CHECK(!e.existed, "closed-rejected", "a stack that was closed is rejected: " << ex.what());
		return;
	}
	std::reverse(c.items.begin(), c.items.end());
	if (!cr->disk.count(path)) { MC_CHECK(c.items.empty(), "conjured", "a stack that did not exist has items"); return; }
	e.note("the stack", c);
}

// ------------------------------------------------------------------ blocks
void fill(blocks::block & b, unsigned v) { for (size_t i = 0; i < b.size(); ++i) b[i] = char(v * 16 + i); }
void block_cache(int depth, int cache) {
	const size_t BS = 96;
	std::string path = world::path("blocks");
	cr->files = {path, path + ".queue"};
	typedef std::map<uint64_t, unsigned> set; // position -> value
	set now;
	std::vector<set> allowed, closed;
	bool closing = false, dirty = false, existed = false;
	cr->at = [&]() {
		allowed = closed;
		if (closing) allowed.push_back(now);
		existed = !closed.empty() && !dirty && !closing;
	};
	cr->on = true;
	unsigned next = 1;
	std::unique_ptr<blocks::block_collection_cache> c;
	auto open = [&]() { MC_TRACE("open"); dirty = true; c.reset(new blocks::block_collection_cache(path, BS, cache, true)); };
	auto close = [&]() { MC_TRACE("close"); closing = true; c.reset(); closing = dirty = false; closed = {now}; };
	auto put = [&](blocks::block_handle h) { blocks::block * b = c->read_block(h); fill(*b, next); now[h.position] = next++; c->write_block(h); };
	open();
	for (int d = 0; d < depth && !cr->happened; ++d) {
		switch (mc::choose(4)) {
		case 0: MC_TRACE("allocate"); put(c->get_free_block()); break;
		case 1: if (now.empty()) break; MC_TRACE("overwrite the first"); put(blocks::block_handle(now.begin()->first, BS)); break;
		case 2: if (now.empty()) break; MC_TRACE("free the first"); c->free_block(blocks::block_handle(now.begin()->first, BS)); now.erase(now.begin()); break;
		case 3: close(); open(); break;
		}
		mc::state(mc::mix(next, now.size() * 2 + dirty));
	}
	if (!cr->happened) close();
	cr->end();
	c.reset();
	mc::outcome(mc::mix(next, allowed.size() * 2 + existed));
	cr->restore();
	if (!cr->disk.count(path) || !cr->disk.count(path + ".queue")) { MC_CHECK(!existed, "closed-vanished", "the files are gone"); return; }
	try {
		c.reset(new blocks::block_collection_cache(path, BS, cache, false));
	} catch (const tpie::exception & ex) {
		MC_TRACE("rejected: " << ex.what());
		MC_CHECK(!existed, "closed-rejected", "blocks that were closed are rejected: " << ex.what());
		return;
	}
	MC_CHECK(!allowed.empty(), "mixed-contents", "a collection that was never closed is accepted");
	bool ok = false;
	for (auto & a : allowed) {
		bool all = true;
		for (auto & p : a) {
			blocks::block * b = c->read_block(blocks::block_handle(p.first, BS)), w(BS);
			fill(w, p.second);
			all = all && b->size() == BS && memcmp(b->get(), w.get(), BS) == 0;
		}
		ok = ok || all;
	}
	MC_CHECK(ok, "mixed-contents", "the accepted collection holds blocks it never had at a close");
	c.reset();
}

std::function<void()> W(int preemptions, std::function<void()> f, size_t block = 48) {
	world::config c;
	c.block_size = block;
	c.memory_limit = 16 << 20;
	c.s.preemptions = preemptions;
	return [=]() {
		crash k;
		cr = &k;
		mc::clean_scratch();
		io::scoped_hook h([&](const io::call & x) { return k(x); });
		world::run(c, [&]() { tempname::tpie_name(); f(); });
	};
}

} // unnamed

int main(int argc, char ** argv) {
	const int Q = 1, T = 2;
	struct kind { const char * name; std::function<void(int)> f; } ks[] = {
		{"plain", streams<compressed_io<8, 0>>},
		{"compressed", streams<compressed_io<8, 2>>},
		{"compressed_normal", streams<compressed_io<24, 1>>},
		{"uncompressed_stream", streams<uncompressed_io<8>>},
		{"file", streams<file_io<8>>},
	};
	for (auto & k : ks) {
		auto f = k.f;
		std::string n = k.name;
		auto add = [&](const std::string & suffix, int depth, int preemptions, int tiers) {
			mc::add({n + suffix, mc::strm() << "every history of " << depth << " operations (write, write a block, seek, truncate, user data, close and reopen for reading/writing/both) cut off before every modifying file system call and inside every data write"
				<< (preemptions ? ", every schedule of the I/O thread with " + std::to_string(preemptions) + " preemption(s)" : std::string()), W(preemptions, [=]() { f(depth); }), {}, {}, tiers});
		};
		add("_histories", 6, 0, Q);
		add("_schedules", 4, 1, Q);
		add("_histories_7", 7, 0, T);
		add("_schedules_5", 5, 1, T);
		add("_schedules_2p", 4, 2, T);
	}
	mc::add({"serialization", "every history of 3 sessions of 0 to 4 strings (up to 1 MiB), cut off at every point", W(0, []() { serialization<serialization_writer, serialization_reader, false>(mc::by_tier(2, 3)); }), {}, {}, Q | T});
	mc::add({"serialization_reverse", "the same for the reverse writer", W(0, []() { serialization<serialization_reverse_writer, serialization_reverse_reader, true>(mc::by_tier(2, 3)); }), {}, {}, Q | T});
	mc::add({"stack", "every history of 6 (8) operations on a named stack, cut off at every point", W(0, []() { named_stack(mc::by_tier(6, 8)); }), {}, {}, Q | T});
	mc::add({"stack_schedules", "every history of 3 (4) operations on a named stack, every schedule with one preemption, cut off at every point", W(1, []() { named_stack(mc::by_tier(3, 4)); }), {}, {}, Q | T});
	for (int cache = 1; cache <= 2; ++cache)
		mc::add({"blocks_" + std::to_string(cache), "every history of 6 (8) operations on a block collection with a small cache, cut off at every point", W(0, [=]() { block_cache(mc::by_tier(6, 8), cache); }), {}, {}, Q | T});
	return mc::main(argc, argv);
}
