// C02: uncompressed streams, and several cursors on one shared file, agree
// with an array.
#include "world.h"
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <vector>

using namespace tpie;

namespace {

template <size_t N> struct itemN { uint64_t v; char pad[N - 8]; };
template <> struct itemN<8> { uint64_t v; };
template <size_t N> itemN<N> mk(uint64_t v) { itemN<N> i; memset(static_cast<void *>(&i), 0, sizeof i); i.v = v * 0x0101010101ull + (v << 56); return i; }
template <size_t N> bool same(const itemN<N> & i, uint64_t v) { itemN<N> e = mk<N>(v); return memcmp(&i, &e, sizeof e) == 0; }

enum op { WRITE, READ, BACK, BEGIN, END, MID, CURPLUS, CURMINUS, ARRAY_W, ARRAY_R, PEEK, SKIP, SKIPBACK, OUT, TRUNC0, TRUNCMID, REOPEN, REOPEN_RO, USER, SWAP };

/// The operations common to uncompressed_stream and file::stream.
template <size_t SZ, typename S>
struct cursor {
	typedef itemN<SZ> item;
	S * s;
	std::vector<uint64_t> * data;
	uint64_t * next;
	size_t cur = 0;
	size_t per_block;
	bool writes = true;
	int id = 0;

	void invariants(const char * op) {
		MC_CHECK(s->offset() == cur, "offset", "cursor " << id << " after " << op << ": offset() " << s->offset() << ", model " << cur);
		MC_CHECK(s->can_read() == (cur < data->size()), "can_read", "cursor " << id << " after " << op << " at " << cur << " of " << data->size());
		MC_CHECK(s->can_read_back() == (cur > 0), "can_read_back", "cursor " << id << " after " << op << " at " << cur);
		MC_CHECK(s->size() == data->size(), "size", "cursor " << id << " after " << op << ": size() " << s->size() << ", model " << data->size());
	}
	void put(uint64_t v) {
		if (cur == data->size()) data->push_back(v); else (*data)[cur] = v;
		++cur;
	}
	void write() {
		uint64_t v = (*next)++;
		MC_TRACE("cursor " << id << " at " << cur << ": write #" << v);
		s->write(mk<SZ>(v));
		put(v);
		invariants("write");
	}
	void write_array(size_t n) {
		MC_TRACE("cursor " << id << " at " << cur << ": write array of " << n);
		std::vector<item> a;
		for (size_t i = 0; i < n; ++i) { a.push_back(mk<SZ>(*next)); put((*next)++); }
		s->write(a.begin(), a.end());
		invariants("write array");
	}
	void read() {
		MC_TRACE("cursor " << id << " at " << cur << ": read");
		try {
			const item & i = s->read();
			MC_CHECK(cur < data->size(), "read-past-end", "read() succeeded at the end");
			MC_CHECK(same<SZ>(i, (*data)[cur]), "read-value", "read at " << cur << " gave the wrong item");
			++cur;
		} catch (const end_of_stream_exception &) {
			MC_CHECK(cur >= data->size(), "read-eos", "end of stream reported at " << cur << " of " << data->size());
		}
		invariants("read");
	}
	void read_array(size_t n) {
		MC_TRACE("cursor " << id << " at " << cur << ": read array of " << n);
		std::vector<item> a(n, mk<SZ>(0));
		bool ok = cur + n <= data->size();
		try {
			s->read(a.begin(), a.end());
			MC_CHECK(ok, "array-past-end", "reading an array of " << n << " at " << cur << " of " << data->size() << " succeeded");
			for (size_t i = 0; i < n; ++i) MC_CHECK(same<SZ>(a[i], (*data)[cur + i]), "array-value", "item " << i << " of an array read at " << cur << " is wrong");
			cur += n;
		} catch (const end_of_stream_exception &) {
			MC_CHECK(!ok, "array-eos", "end of stream reported at " << cur << " of " << data->size() << " reading " << n);
			// how far the cursor moved is unspecified, but it must be inside the file
			MC_CHECK(s->offset() >= cur && s->offset() <= data->size(), "array-cursor", "cursor at " << s->offset() << " after failed array read at " << cur << " of " << data->size());
			cur = s->offset();
		}
		invariants("read array");
	}
	void read_back() {
		MC_TRACE("cursor " << id << " at " << cur << ": read_back");
		try {
			const item & i = s->read_back();
			MC_CHECK(cur > 0, "read_back-past-begin", "read_back() succeeded at the beginning");
			MC_CHECK(same<SZ>(i, (*data)[cur - 1]), "read_back-value", "read_back at " << cur << " gave the wrong item");
			--cur;
		} catch (const end_of_stream_exception &) {
			MC_CHECK(cur == 0, "read_back-eos", "beginning of stream reported at " << cur);
		}
		invariants("read_back");
	}
	void seek(long where, typename S::offset_type whence, const char * what) {
		long to = whence == S::beginning ? where : whence == S::end ? long(data->size()) + where : long(cur) + where;
		MC_TRACE("cursor " << id << " at " << cur << ": seek " << where << " from " << what);
		bool ok = to >= 0 && to <= long(data->size());
		try {
			s->seek(where, whence);
			MC_CHECK(ok, "seek-out", "seek to " << to << " of " << data->size() << " accepted");
			cur = to;
		} catch (const stream_exception & e) {
			MC_CHECK(!ok, "seek-refused", "seek to " << to << " of " << data->size() << " refused: " << e.what());
		}
		invariants("seek");
	}
	void basic(int o) {
		mc::transition();
		switch (o) {
		case WRITE: write(); break;
		case READ: read(); break;
		case BACK: read_back(); break;
		case BEGIN: seek(0, S::beginning, "beginning"); break;
		case END: seek(0, S::end, "end"); break;
		case MID: seek(data->size() / 2, S::beginning, "beginning"); break;
		case CURPLUS: seek(1, S::current, "current"); break;
		case CURMINUS: seek(-1, S::current, "current"); break;
		case OUT: seek(1, S::end, "end"); break;
		case ARRAY_W: write_array(per_block + 1); break;
		case ARRAY_R: read_array(per_block + 1); break;
		}
	}
	void verify() {
		while (cur > 0) read_back();
		read_back();
		while (cur < data->size()) read();
		read();
	}
};

struct params { size_t items_per_block; int depth; };

template <size_t SZ>
void single(params P) {
	typedef itemN<SZ> item;
	typedef uncompressed_stream<item> S;
	std::vector<uint64_t> data, data2;
	uint64_t next = 1, user = 0;
	S a, b;
	std::string path = world::path("s");
	static const int pre[] = {0, 1, 2, 3, 4, 5, 7};
	cursor<SZ, S> c;
	c.s = &a; c.data = &data; c.next = &next; c.per_block = P.items_per_block;
	MC_CHECK(a.block_items() == P.items_per_block, "harness", "block_items");
	a.open(path, access_read_write, sizeof(uint64_t));
	int p = mc::choose(8);
	if (p > 0) {
		MC_TRACE("prefill " << pre[p - 1] * P.items_per_block / 2);
		for (size_t i = 0; i < pre[p - 1] * P.items_per_block / 2; ++i) { a.write(mk<SZ>(next)); data.push_back(next++); }
		a.close();
		a.open(path, access_read_write, sizeof(uint64_t));
	}
	bool ro = false;
	auto reopen = [&](bool readonly) {
		MC_TRACE("close, open " << (readonly ? "read-only" : "read-write"));
		c.s->close();
		MC_CHECK(!c.s->is_open(), "close", "open after close");
		c.s->open(path, readonly ? access_read : access_read_write, sizeof(uint64_t));
		ro = readonly;
		c.cur = 0;
		if (user) {
			uint64_t u = 0;
			c.s->read_user_data(u);
			MC_CHECK(u == user, "userdata", "user data lost");
		}
		c.invariants("reopen");
	};
	for (int d = 0; d < P.depth; ++d) {
		std::vector<int> ops = {READ, BACK, BEGIN, END, MID, CURPLUS, CURMINUS, OUT, ARRAY_R, PEEK, SKIP, SKIPBACK, REOPEN, SWAP};
		if (!ro) { ops.insert(ops.end(), {WRITE, ARRAY_W, TRUNC0, TRUNCMID, REOPEN_RO}); if (d == 0) ops.push_back(USER); }
		int o = ops[mc::choose(ops.size())];
		mc::state(mc::mix(mc::hash_seq(data), c.cur * 2 + ro));
		switch (o) {
		case PEEK:
			MC_TRACE("peek");
			try {
				const item & i = c.s->peek();
				MC_CHECK(c.cur < data.size(), "peek-past-end", "peek() succeeded at the end");
				MC_CHECK(same<SZ>(i, data[c.cur]), "peek-value", "peek at " << c.cur << " gave the wrong item");
			} catch (const end_of_stream_exception &) {
				MC_CHECK(c.cur >= data.size(), "peek-eos", "end of stream reported at " << c.cur << " of " << data.size());
			}
			c.invariants("peek");
			break;
		case SKIP:
			if (c.cur < data.size()) { MC_TRACE("skip"); c.s->skip(); ++c.cur; c.invariants("skip"); }
			break;
		case SKIPBACK:
			if (c.cur > 0) { MC_TRACE("skip_back"); c.s->skip_back(); --c.cur; c.invariants("skip_back"); }
			break;
		case TRUNC0: case TRUNCMID: {
			size_t to = o == TRUNC0 ? 0 : data.size() / 2 + (data.size() > 0);
			MC_TRACE("truncate " << to);
			c.s->truncate(to);
			data.resize(to);
			if (c.cur > to) c.cur = to;
			c.invariants("truncate");
			break; }
		case REOPEN: reopen(ro); break;
		case REOPEN_RO: reopen(true); break;
		case USER:
			user = 0x1122334400ull + next++;
			MC_TRACE("write_user_data");
			c.s->write_user_data(user);
			break;
		case SWAP:
			MC_TRACE("swap into the other stream object");
			std::swap(a, b);
			c.s = c.s == &a ? &b : &a;
			MC_CHECK(c.s->is_open() && !(c.s == &a ? b : a).is_open(), "swap", "wrong object open after swap");
			c.invariants("swap");
			break;
		default: c.basic(o);
		}
	}
	c.verify();
	reopen(true);
	c.verify();
	mc::outcome(mc::hash_seq(data));
	c.s->close();
}

template <size_t SZ>
void cursors(params P, int n, bool rich) {
	typedef itemN<SZ> item;
	typedef file<item> F;
	typedef typename F::stream S;
	std::vector<uint64_t> data;
	uint64_t next = 1;
	std::string path = world::path("f");
	F f;
	MC_CHECK(f.block_items() == P.items_per_block, "harness", "block_items");
	f.open(path);
	static const int pre[] = {0, 2, 3, 5};
	int p = mc::choose(4);
	if (pre[p]) {
		{ S w(f); for (int i = 0; i < pre[p]; ++i) { w.write(mk<SZ>(next)); data.push_back(next++); } }
		f.close();
		f.open(path);
	}
	MC_TRACE("file of " << pre[p] << " items, " << n << " cursors");
	S s[3];
	struct cur_t : cursor<SZ, S> { } c[3];
	for (int i = 0; i < n; ++i) {
		c[i].s = &s[i]; c[i].data = &data; c[i].next = &next; c[i].per_block = P.items_per_block; c[i].id = i;
		s[i].attach(f);
		c[i].invariants("attach");
	}
	auto check_all = [&]() {
		MC_CHECK(f.size() == data.size(), "file-size", "file size " << f.size() << ", model " << data.size());
		for (int i = 0; i < n; ++i) if (s[i].attached()) c[i].invariants("operation on another cursor");
		uint64_t h = mc::hash_seq(data);
		for (int i = 0; i < n; ++i) h = mc::mix(h, s[i].attached() ? c[i].cur + 1 : 0);
		mc::state(h);
	};
	for (int d = 0; d < P.depth; ++d) {
		std::vector<int> ops = {WRITE, READ, BACK, BEGIN, END, MID};
		if (rich) ops.insert(ops.end(), {ARRAY_W, ARRAY_R, CURPLUS, CURMINUS});
		// -1: detach / attach, -2: truncate the file, -3: reopen everything
		ops.push_back(-1);
		int k = ops.size();
		int x = mc::choose(k * n + 2);
		if (x < k * n) {
			int i = x % n, o = ops[x / n];
			if (o == -1) {
				if (s[i].attached()) { MC_TRACE("detach cursor " << i); s[i].detach(); }
				else { MC_TRACE("attach cursor " << i); s[i].attach(f); c[i].cur = 0; }
			} else if (s[i].attached()) c[i].basic(o);
			else break; // nothing new below
		} else if (x == k * n) {
			size_t to = data.size() / 2;
			MC_TRACE("truncate file to " << to);
			bool any = false;
			for (int i = 0; i < n; ++i) any = any || s[i].attached();
			try {
				f.truncate(to);
				data.resize(to);
				for (int i = 0; i < n; ++i) if (s[i].attached() && c[i].cur > to) { MC_TRACE("reposition cursor " << i); s[i].seek(to); c[i].cur = to; }
			} catch (const stream_exception & e) {
				MC_CHECK(any, "truncate-refused", "truncate without cursors refused: " << e.what());
			}
		} else {
			MC_TRACE("close and reopen the file");
			for (int i = 0; i < n; ++i) s[i].detach();
			f.close();
			f.open(path);
			for (int i = 0; i < n; ++i) { s[i].attach(f); c[i].cur = 0; }
		}
		check_all();
	}
	for (int i = 0; i < n; ++i) if (s[i].attached()) { MC_TRACE("verify through cursor " << i); c[i].verify(); check_all(); }
	for (int i = 0; i < n; ++i) s[i].detach();
	f.close();
	f.open(path, access_read);
	{
		S r(f);
		cursor<SZ, S> v;
		v.s = &r; v.data = &data; v.next = &next; v.per_block = P.items_per_block; v.id = 9;
		v.verify();
	}
	mc::outcome(mc::hash_seq(data));
	f.close();
}

template <size_t SZ>
void add_single(const std::string & name, params P, int tiers) {
	mc::suite_t s;
	s.name = name; s.tiers = tiers;
	s.what = mc::strm() << "every history of " << P.depth << " operations (write, write array, read, read array, peek, read_back, skip, skip_back, seeks from all bases and "
		"out of range, truncate, user data, swap, close+reopen) on an uncompressed_stream of " << SZ << "-byte items, " << P.items_per_block << " per block, from 8 initial sizes";
	s.body = [=]() {
		world::config c;
		c.block_size = P.items_per_block * SZ;
		c.s.reduce = false;
		world::run(c, [=]() { single<SZ>(P); });
		mc::clean_scratch();
	};
	mc::add(s);
}

template <size_t SZ>
void add_cursors(const std::string & name, params P, int n, bool rich, int tiers) {
	mc::suite_t s;
	s.name = name; s.tiers = tiers;
	s.what = mc::strm() << "every interleaving of " << P.depth << " operations (write, read, read_back, seek begin/middle/end, " << (rich ? "array read/write, relative seeks, " : "")
		<< "detach/attach, truncate, reopen) by " << n << " cursors on one file of " << SZ << "-byte items, " << P.items_per_block << " per block, from 4 initial sizes";
	s.body = [=]() {
		world::config c;
		c.block_size = P.items_per_block * SZ;
		c.s.reduce = false;
		world::run(c, [=]() { cursors<SZ>(P, n, rich); });
		mc::clean_scratch();
	};
	mc::add(s);
}

} // unnamed

int main(int argc, char ** argv) {
	add_single<8>("uncompressed_stream", params{2, 4}, 1);
	add_single<8>("uncompressed_stream_5", params{2, 5}, 2);
	add_single<24>("uncompressed_stream_24", params{3, 4}, 3);
	add_cursors<8>("two_cursors", params{2, 4}, 2, true, 1);
	add_cursors<8>("two_cursors_basic", params{2, 5}, 2, false, 1);
	add_cursors<8>("two_cursors_5", params{2, 5}, 2, true, 2);
	add_cursors<8>("two_cursors_basic_6", params{2, 6}, 2, false, 2);
	add_cursors<8>("three_cursors", params{2, 4}, 3, false, 3);
	add_cursors<16>("two_cursors_3", params{3, 4}, 2, false, 3);
	return mc::main(argc, argv);
}
