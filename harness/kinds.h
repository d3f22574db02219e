// The kinds of item streams behind one interface, for harnesses that run the
// same histories on each of them.
#pragma once
#include "world.h"
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <memory>
#include <string.h>

namespace kinds {

using namespace tpie;

template <size_t N> struct item { uint64_t v; char pad[N - 8]; };
template <> struct item<8> { uint64_t v; };
template <size_t N> item<N> mk(size_t pos, unsigned version) {
	item<N> i;
	memset(static_cast<void *>(&i), 0xa5, sizeof i);
	i.v = uint64_t(version + 1) << 32 | (pos + 1);
	return i;
}

enum mode { ro, rw, wo };

/// file_stream: COMP 0 uncompressed, 1 compression_normal, 2 compression_all
template <size_t N, int COMP>
struct compressed_io {
	typedef item<N> item_t;
	static const bool middle = COMP == 0, positions = true;
	file_stream<item_t> s;
	void open(const std::string & p, mode m, size_t user = 0) {
		open::type c = COMP == 0 ? open::defaults : COMP == 1 ? open::compression_normal : open::compression_all;
		s.open(p, m == ro ? open::type(c | open::read_only) : m == wo ? open::type(c | open::write_only) : c, user);
	}
	void close() { s.close(); }
	void write(const item_t & i) { s.write(i); }
	item_t read() { return s.read(); }
	item_t read_back() { return s.read_back(); }
	size_t size() { return s.size(); }
	size_t offset() { return s.offset(); }
	void begin() { s.seek(0); }
	void end() { s.seek(0, file_stream_base::end); }
	void seek(size_t p) { s.seek(p); }
	void truncate(size_t n) { s.truncate(n); }
	bool is_open() { return s.is_open(); }
	size_t per_block() { return s.block_items(); }
	stream_position pos;
	void save() { pos = s.get_position(); }
	void restore() { s.set_position(pos); }
	void put_user(uint64_t u) { s.write_user_data(u); }
	uint64_t get_user() { uint64_t u = 0; if (s.user_data_size()) s.read_user_data(u); return u; }
};

template <size_t N>
struct uncompressed_io {
	typedef item<N> item_t;
	static const bool middle = true, positions = false;
	uncompressed_stream<item_t> s;
	void open(const std::string & p, mode m, size_t user = 0) { s.open(p, m == ro ? access_read : m == wo ? access_write : access_read_write, user); }
	void close() { s.close(); }
	void write(const item_t & i) { s.write(i); }
	item_t read() { return s.read(); }
	item_t read_back() { return s.read_back(); }
	size_t size() { return s.size(); }
	size_t offset() { return s.offset(); }
	void begin() { s.seek(0); }
	void end() { s.seek(0, file_stream_base::end); }
	void seek(size_t p) { s.seek(p); }
	void truncate(size_t n) { s.truncate(n); }
	bool is_open() { return s.is_open(); }
	size_t per_block() { return s.block_items(); }
	void save() {}
	void restore() {}
	void put_user(uint64_t u) { s.write_user_data(u); }
	uint64_t get_user() { uint64_t u = 0; if (s.user_data_size()) s.read_user_data(u); return u; }
};

/// tpie::file with one stream attached
template <size_t N>
struct file_io {
	typedef item<N> item_t;
	static const bool middle = true, positions = false;
	tpie::file<item_t> f;
	std::unique_ptr<typename tpie::file<item_t>::stream> a;
	void open(const std::string & p, mode m, size_t user = 0) {
		f.open(p, m == ro ? access_read : m == wo ? access_write : access_read_write, user);
		a.reset(new typename tpie::file<item_t>::stream(f));
	}
	void close() {
		if (a && a->attached()) {
			try { a->detach(); } catch (...) { a.reset(); try { f.close(); } catch (const tpie::exception &) {} throw; }
		}
		a.reset();
		f.close();
	}
	void write(const item_t & i) { a->write(i); }
	item_t read() { return a->read(); }
	item_t read_back() { return a->read_back(); }
	size_t size() { return f.size(); }
	size_t offset() { return a->offset(); }
	void begin() { a->seek(0); }
	void end() { a->seek(0, tpie::file<item_t>::stream::end); }
	void seek(size_t p) { a->seek(p); }
	void truncate(size_t n) {
		size_t o = a->offset();
		a->detach();
		f.truncate(n);
		a->attach(f);
		a->seek(std::min(o, n));
	}
	bool is_open() { return f.is_open() && a && a->attached(); }
	size_t per_block() { return f.block_items(); }
	void save() {}
	void restore() {}
	void put_user(uint64_t u) { f.write_user_data(u); }
	uint64_t get_user() { uint64_t u = 0; if (f.user_data_size()) f.read_user_data(u); return u; }
};

} // namespace kinds
