// A file_stream and the sequence-plus-cursor model it is compared with at every step.
#pragma once
#include "world.h"
#include <tpie/file_stream.h>
#include <vector>

namespace stream_driver {

using namespace tpie;

template <size_t N> struct itemN { uint64_t v; char pad[N - 8]; };
template <> struct itemN<8> { uint64_t v; };

struct params {
	size_t items_per_block;
	int comp;               // 0 none, 1 normal, 2 all
	int depth;
};

template <size_t SZ>
struct driver {
	typedef itemN<SZ> item;
	params P;
	file_stream<item> * s = nullptr;
	std::string path;
	open::type flags_rw, flags_ro;
	// model
	std::vector<uint64_t> data;
	size_t cur = 0;
	uint64_t next = 1;
	uint64_t userdata = 0;
	bool readonly = false;
	struct saved { bool valid; stream_position p; size_t off; } sv;
	bool compressed = false;

	static item mk(uint64_t v) { item i; memset(static_cast<void *>(&i), 0, sizeof i); i.v = v * 0x0101010101ull + (v << 56); return i; }
	static bool same(const item & i, uint64_t v) { item e = mk(v); return memcmp(&i, &e, sizeof e) == 0; }

	void invariants(const char * op) {
		mc::transition();
		mc::state(mc::mix(mc::mix(mc::hash_seq(data), cur * 4 + readonly * 2 + sv.valid), sv.valid ? sv.off : 0));
		MC_CHECK(s->is_open(), "open", "stream closed after " << op);
		MC_CHECK(s->size() == data.size(), "size", "after " << op << ": size() " << s->size() << ", model " << data.size());
		MC_CHECK(s->offset() == cur, "offset", "after " << op << ": offset() " << s->offset() << ", model " << cur);
		MC_CHECK(s->can_read() == (cur < data.size()), "can_read", "after " << op << " at " << cur << " of " << data.size());
		MC_CHECK(s->can_read_back() == (cur > 0), "can_read_back", "after " << op << " at " << cur);
	}

	void do_write() {
		uint64_t v = next++;
		MC_TRACE("write #" << v);
		bool ok = !readonly && (!compressed || cur == data.size());
		try {
			s->write(mk(v));
			MC_CHECK(ok || readonly, "write-accepted", "write in the middle of a compressed stream was accepted");
		} catch (const stream_exception & e) {
			MC_CHECK(!ok, "write-refused", "write refused: " << e.what());
			invariants("refused write");
			return;
		}
		if (cur == data.size()) data.push_back(v); else data[cur] = v;
		++cur;
		invariants("write");
	}
	void do_read() {
		MC_TRACE("read");
		try {
			const item & i = s->read();
			MC_CHECK(cur < data.size(), "read-past-end", "read() succeeded at the end");
			MC_CHECK(same(i, data[cur]), "read-value", "read at " << cur << " gave the wrong item");
			++cur;
		} catch (const end_of_stream_exception &) {
			MC_CHECK(cur >= data.size(), "read-eos", "end of stream reported at " << cur << " of " << data.size());
		}
		invariants("read");
	}
	void do_peek() {
		MC_TRACE("peek");
		try {
			const item & i = s->peek();
			MC_CHECK(cur < data.size(), "peek-past-end", "peek() succeeded at the end");
			MC_CHECK(same(i, data[cur]), "peek-value", "peek at " << cur << " gave the wrong item");
		} catch (const end_of_stream_exception &) {
			MC_CHECK(cur >= data.size(), "peek-eos", "end of stream reported at " << cur << " of " << data.size());
		}
		invariants("peek");
	}
	void do_read_back() {
		MC_TRACE("read_back");
		try {
			const item & i = s->read_back();
			MC_CHECK(cur > 0, "read_back-past-begin", "read_back() succeeded at the beginning");
			MC_CHECK(same(i, data[cur - 1]), "read_back-value", "read_back at " << cur << " gave the wrong item");
			--cur;
		} catch (const end_of_stream_exception &) {
			MC_CHECK(cur == 0, "read_back-eos", "beginning of stream reported at " << cur);
		}
		invariants("read_back");
	}
	void do_seek(long where, file_stream_base::offset_type whence, const char * what) {
		long to = whence == file_stream_base::beginning ? where : whence == file_stream_base::end ? long(data.size()) + where : long(cur) + where;
		MC_TRACE("seek " << where << " from " << what);
		s->seek(where, whence);
		cur = to;
		invariants("seek");
	}
	void do_truncate(size_t to) {
		MC_TRACE("truncate " << to);
		bool ok = !compressed || to == 0 || to == data.size();
		try {
			s->truncate(to);
			MC_CHECK(ok, "truncate-accepted", "arbitrary truncate of a compressed stream accepted");
		} catch (const stream_exception & e) {
			MC_CHECK(!ok, "truncate-refused", "truncate refused: " << e.what());
			invariants("refused truncate");
			return;
		}
		truncated(to);
	}
	void truncated(size_t to) {
		if (to < data.size()) data.resize(to);
		if (cur > data.size()) cur = data.size();
		if (sv.valid && sv.off > data.size()) sv.valid = false;
		invariants("truncate");
	}
	void do_save() {
		MC_TRACE("get_position");
		sv.p = s->get_position();
		sv.off = cur;
		sv.valid = true;
		MC_CHECK(sv.p.offset() == cur, "position-offset", "position says " << sv.p.offset() << ", model " << cur);
		invariants("get_position");
	}
	void do_restore() {
		MC_TRACE("set_position(" << sv.off << ")");
		s->set_position(sv.p);
		cur = sv.off;
		invariants("set_position");
	}
	void do_truncate_pos() {
		MC_TRACE("truncate(position " << sv.off << ")");
		s->truncate(sv.p);
		truncated(sv.off);
	}
	void do_reopen(bool ro) {
		MC_TRACE("close, open " << (ro ? "read-only" : "read-write"));
		s->close();
		MC_CHECK(!s->is_open(), "close", "open after close()");
		s->open(path, ro ? flags_ro : flags_rw, sizeof(uint64_t));
		readonly = ro;
		cur = 0;
		uint64_t u = 0;
		if (userdata) {
			s->read_user_data(u);
			MC_CHECK(u == userdata, "userdata", "user data " << u << ", model " << userdata);
		}
		invariants("reopen");
	}
	void do_userdata() {
		userdata = 0x1122334400ull + next++;
		MC_TRACE("write_user_data");
		s->write_user_data(userdata);
		uint64_t u = 0;
		s->read_user_data(u);
		MC_CHECK(u == userdata, "userdata", "user data " << u << ", model " << userdata);
		invariants("write_user_data");
	}
	void verify() {
		MC_TRACE("verify " << data.size() << " items");
		// from here on backwards to the beginning
		while (cur > 0) do_read_back();
		do_read_back();
		s->seek(0);
		cur = 0;
		while (cur < data.size()) do_read();
		do_read();
		do_reopen(true);
		while (cur < data.size()) do_read();
		do_read();
		s->close();
		// and once more from the end of a fresh stream
		s->open(path, flags_ro, sizeof(uint64_t));
		s->seek(0, file_stream_base::end);
		cur = data.size();
		invariants("seek to end");
		while (cur > 0) do_read_back();
		uint64_t h = mc::hash_seq(data);
		mc::outcome(h);
		s->close();
	}

	void start(const std::string & name, double factor) {
		open::type c = P.comp == 0 ? open::defaults : P.comp == 1 ? open::compression_normal : open::compression_all;
		flags_rw = c;
		flags_ro = open::type(c | open::read_only);
		compressed = P.comp != 0;
		path = world::path(name);
		s = new file_stream<item>(factor);
		sv.valid = false;
		MC_CHECK(s->block_items() == P.items_per_block, "harness", "block_items " << s->block_items());
		s->open(path, flags_rw, sizeof(uint64_t));
		MC_TRACE("open new" << (compressed ? " compressed" : "") << " stream " << name << ", " << P.items_per_block << " items per block");
		invariants("open");
	}
	void start_temp() {
		open::type c = P.comp == 0 ? open::defaults : P.comp == 1 ? open::compression_normal : open::compression_all;
		compressed = P.comp != 0;
		s = new file_stream<item>(1.0);
		sv.valid = false;
		s->open(c, sizeof(uint64_t));
		MC_TRACE("open new temporary" << (compressed ? " compressed" : "") << " stream, " << P.items_per_block << " items per block");
		invariants("open");
	}
	void prefill(size_t n0) {
		MC_TRACE("write " << n0 << " items");
		for (size_t i = 0; i < n0; ++i) { s->write(mk(next)); data.push_back(next++); ++cur; }
		do_reopen(false);
	}
	~driver() { delete s; }

	enum op { WRITE, READ, BACK, BEGIN, END, SAVE, RESTORE, BURST, PEEK, TRUNC0, REOPEN, REOPEN_RO, TRUNC_POS, SEEKMID, TRUNCMID, SEEKCUR, USER, TRUNCLAST };
	std::vector<int> enabled(bool last, bool first, bool few) {
		std::vector<int> ops = {READ, BACK, BEGIN, END};
		if (few) ops.push_back(BURST);
		else { ops.push_back(SAVE); ops.push_back(PEEK); ops.push_back(REOPEN); }
		if (!few && sv.valid) ops.push_back(RESTORE);
		if (!few && !compressed) { ops.push_back(SEEKMID); ops.push_back(SEEKCUR); }
		if (!few && !readonly) {
			ops.push_back(WRITE);
			ops.push_back(BURST);
			ops.push_back(TRUNC0);
			ops.push_back(TRUNCMID);
			if (!last) ops.push_back(REOPEN_RO);
			if (sv.valid) ops.push_back(TRUNC_POS);
			if (first) ops.push_back(USER);
		}
		return ops;
	}
	void perform(int o) {
		switch (o) {
		case WRITE: do_write(); break;
		case READ: do_read(); break;
		case BACK: do_read_back(); break;
		case BEGIN: do_seek(0, file_stream_base::beginning, "beginning"); break;
		case END: do_seek(0, file_stream_base::end, "end"); break;
		case SAVE: do_save(); break;
		case RESTORE: do_restore(); break;
		case BURST: for (size_t i = 0; i < P.items_per_block; ++i) do_write(); break;
		case PEEK: do_peek(); break;
		case TRUNC0: do_truncate(0); break;
		case REOPEN: do_reopen(readonly); break;
		case REOPEN_RO: do_reopen(true); break;
		case TRUNC_POS: do_truncate_pos(); break;
		case SEEKMID: do_seek(data.size() / 2, file_stream_base::beginning, "beginning"); break;
		case SEEKCUR: do_seek(cur > 0 ? -1 : 0, file_stream_base::current, "current"); break;
		case TRUNCMID: do_truncate(data.size() / 2 + (data.size() > 0)); break;
		case TRUNCLAST: do_truncate(data.empty() ? 0 : data.size() - 1); break;
		case USER: do_userdata(); break;
		}
	}

	void body() {
		// initial state: fresh, or reopened with some number of half blocks
		static const int pre[] = {0, 1, 2, 3, 4, 5, 7};
		int p = mc::choose(8);
		start("s", 1.0);
		if (p > 0) prefill(pre[p - 1] * P.items_per_block / 2);
		for (int d = 0; d < P.depth; ++d) {
			std::vector<int> ops = enabled(d + 1 == P.depth, d == 0, false);
			perform(ops[mc::choose(ops.size())]);
		}
		verify();
	}
};

} // namespace stream_driver
