// C23: damaged or foreign files are rejected, never misread or crashed on.
//
// Every truncation and every one-byte damage of small valid files, run on a
// library built with AddressSanitizer.
#include "kinds.h"
#include <tpie/serialization_stream.h>
#include <tpie/serialization2.h>
#include <tpie/stack.h>
#include <tpie/btree.h>
#include <vector>

using namespace tpie;
using namespace kinds;

extern "C" const char * __asan_default_options() {
	return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=4:max_allocation_size_mb=512:malloc_context_size=8";
}

// AddressSanitizer's operator new ends the process instead of throwing.
void * operator new(size_t n) { void * p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }

namespace {

const size_t HEADER = 72, AREA = 4096;
const uint64_t USER = 0x1122334455667788ull;

// What a damage may lead to
enum verdict {
	must_reject,   // opening fails
	same_or_error, // whatever can be read is what was written; nothing beyond it can
	values,        // one item of an uncompressed file, or one block of a compressed one, may differ
	any            // nothing but staying alive, within bounds and finite
};
struct damage {
	std::string what;
	verdict v = same_or_error;
	size_t at = 0;         // body offset concerned, for values
	bool user = false;     // the user data may differ
	bool larger = false;   // the claimed size may be larger than what was written
	bool harmless = false; // must be accepted and read as written
};

int patterns() { return mc::by_tier(9, 255); }
uint8_t pattern(int i) {
	if (mc::tier() == mc::thorough) return uint8_t(i + 1);
	return i < 8 ? uint8_t(1 << i) : 0xff;
}

bool is_size(size_t x) { return x >= 48 && x < 56; }

damage flip(std::string & f, bool compressed) {
	damage d;
	// header and user data, the end of the header area, everything after it
	size_t lo = HEADER + 8, n = lo + 4 + (f.size() - (AREA - 4));
	size_t k = mc::choose(int(n));
	size_t at = k < lo + 4 ? k : AREA - 4 + (k - lo - 4);
	uint8_t x = pattern(mc::choose(patterns()));
	f[at] ^= x;
	d.what = mc::strm() << "byte " << at << " xor " << int(x);
	if (at < 32) d.v = must_reject;                    // magic, version, item size, block size
	else if (at < 40) { d.user = true; }               // user data size
	else if (at < 48) { d.v = any; d.user = true; }    // capacity for user data: moves the first block
	else if (is_size(at)) { d.larger = true; }
	else if (at < 64) {
		if (at == 56 && (x & 1)) d.v = must_reject;    // not closed properly
		else if (at == 56 && (x & 2)) d.v = any;       // nothing in the file tells whether it is compressed
		else d.harmless = true;
	} else if (at < 72) { if (compressed) d.v = values, d.at = ~size_t(0); else d.harmless = true; } // offset of the last block
	else if (at < 80) { d.user = true; d.harmless = true; }
	else if (at < AREA) d.harmless = true;
	else { d.v = values; d.at = at - AREA; }
	return d;
}

damage cut(std::string & f) {
	damage d;
	size_t n = 90 + 6 + (f.size() - AREA);
	size_t k = mc::choose(int(n));
	size_t to = k < 90 ? k : k < 96 ? AREA - 6 + (k - 90) : AREA + (k - 96);
	f.resize(to);
	d.what = mc::strm() << "cut to " << to;
	if (to < HEADER) d.v = must_reject;
	d.user = to < HEADER + 8;
	return d;
}

damage append(std::string & f) {
	damage d;
	int n = mc::choose(3);
	f += std::string(n == 0 ? 1 : n == 1 ? 48 : 5000, "\0\xff\x55"[mc::choose(3)]);
	d.what = "junk appended";
	d.harmless = true;
	return d;
}

template <typename IO>
struct subject {
	typedef typename IO::item_t item_t;
	static const size_t N = sizeof(item_t);
	std::vector<item_t> items;
	size_t block = 0;
	std::string good;
	std::string path = world::path("s");
	bool compressed;

	void build(size_t n) {
		IO s;
		s.open(path, rw, 8);
		block = s.per_block();
		for (size_t i = 0; i < n; ++i) { items.push_back(mk<N>(i, 7)); s.write(items.back()); }
		s.put_user(USER);
		s.close();
		good = io::slurp(path);
		compressed = good[56] & 2;
	}

	bool differs(const item_t & a, size_t i) { return i >= items.size() || memcmp(&a, &items[i], N) != 0; }

	void got(const damage & d, const item_t & x, size_t i, const char * how) {
		// Blocks of a compressed file do not tell their position, and a block with the right number
		// of items may be taken for the last one.
		const bool displaced = d.larger && compressed && !strcmp(how, "read_back");
		if (displaced) { bool known = false; for (size_t k = 0; k < items.size(); ++k) known = known || !differs(x, k); MC_CHECK(known, "garbage", how << " gives an item that was never written"); return; }
		MC_CHECK(i < items.size() || d.v == any || (d.v == values && compressed), "conjured", how << " gives an item at " << i << ", there were " << items.size());
		if (i >= items.size() || !differs(x, i)) return;
		switch (d.v) {
		case any: return;
		case values:
			// Uncompressed: one byte is one item.  Compressed: neither the payload nor the
			// offset of the last block is protected.
			if (compressed) return;
			MC_CHECK(d.at / N == i, "misread", how << " gives a wrong item at " << i);
			return;
		default:
			MC_CHECK(false, "misread", how << " gives a wrong item at " << i);
		}
	}

	template <typename F>
	bool safe(const damage & d, const char * what, F f) {
		mc::transition();
		try { f(); } catch (const std::exception & e) {
			MC_TRACE("  " << what << ": " << e.what());
			MC_CHECK(dynamic_cast<const tpie::exception *>(&e) || dynamic_cast<const std::system_error *>(&e) || dynamic_cast<const std::bad_alloc *>(&e) || dynamic_cast<const tpie::out_of_memory_error *>(&e), "foreign-exception", what << " threw " << typeid(e).name() << ": " << e.what());
			MC_CHECK(!d.harmless, "refused", what << " fails on a file whose contents are undamaged: " << e.what());
			return false;
		}
		return true;
	}

	void check(damage d, const std::string & bad) {
		MC_TRACE(d.what);
		if (bad == good) { d.harmless = true; d.v = same_or_error; }
		io::spit(path, bad);
		int program = mc::choose(5);
		int fds = io::open_fds();
		bool accepted = false;
		uint64_t h = program;
		{
			IO s;
			mode m = program < 3 ? ro : rw;
			MC_TRACE("open for " << (m == ro ? "reading" : "reading and writing"));
			accepted = safe(d, "open", [&]() { s.open(path, m, 8); });
			MC_CHECK(!(accepted && d.v == must_reject), "accepted", "a damaged file (" << d.what << ") was opened");
			if (accepted) {
				size_t n = s.size();
				MC_CHECK(n == items.size() || d.larger || d.v == any, "size", "size " << n << ", it was " << items.size());
				size_t limit = items.size() + 40;
				switch (program) {
				case 0: case 3:
					MC_TRACE("read all");
					safe(d, "read", [&]() { for (size_t i = 0; i < n && i < limit; ++i) { got(d, s.read(), i, "read"); h = mc::mix(h, i); } });
					break;
				case 1:
					MC_TRACE("read all backwards");
					safe(d, "read_back", [&]() { s.end(); for (size_t i = 0; i < n && i < limit; ++i) { got(d, s.read_back(), n - 1 - i, "read_back"); h = mc::mix(h, i); } });
					break;
				case 2:
					MC_TRACE("read here and there");
					for (size_t i = 0; i < items.size() && i < n; i += 3) {
						if (IO::positions && compressed) break;
						safe(d, "seek", [&]() { s.seek(items.size() - 1 - i); got(d, s.read(), items.size() - 1 - i, "read after a seek"); h = mc::mix(h, i); });
					}
					safe(d, "user data", [&]() { uint64_t u = s.get_user(); MC_CHECK(u == USER || d.user || d.v == any, "user-data", "the user data changed"); });
					break;
				case 4:
					MC_TRACE("append a block, truncate");
					safe(d, "append", [&]() { s.end(); for (size_t i = 0; i < block + 1; ++i) s.write(mk<N>(i, 9)); });
					safe(d, "truncate", [&]() { s.truncate(0); });
					break;
				}
				safe(d, "close", [&]() { s.close(); });
			}
		}
		MC_CHECK(io::open_fds() == fds, "descriptor-leak", "descriptors left open");
		if (!accepted) {
			// rejecting a file does not modify it
			MC_CHECK(io::slurp(path) == bad, "modified", "the rejected file was modified");
		}
		mc::state(mc::mix(h, accepted));
		mc::outcome(mc::mix(accepted, h));
	}
};

template <typename IO>
void streams(int how, std::vector<int> sizes) {
	subject<IO> s;
	s.build(sizes[mc::choose(int(sizes.size()))]);
	std::string f = s.good;
	damage d = how == 0 ? flip(f, s.compressed) : how == 1 ? cut(f) : append(f);
	s.check(d, f);
}
/// two bytes of the header that matter
template <typename IO>
void streams_two(std::vector<int> sizes) {
	subject<IO> s;
	s.build(sizes[mc::choose(int(sizes.size()))]);
	std::string f = s.good;
	size_t a = 32 + mc::choose(40), b = 32 + mc::choose(40);
	if (b <= a) mc::prune();
	const uint8_t x[] = {1, 2, 0x10, 0x80};
	f[a] ^= x[mc::choose(4)];
	f[b] ^= x[mc::choose(4)];
	damage d;
	d.v = any;
	d.user = d.larger = true;
	d.what = mc::strm() << "bytes " << a << " and " << b << " damaged";
	s.check(d, f);
}

// ------------------------------------------------------- foreign files
std::string write_kind(int k, const std::string & p) {
	::unlink(p.c_str());
	switch (k) {
	case 0: { compressed_io<8, 0> s; s.open(p, rw); for (int i = 0; i < 7; ++i) s.write(mk<8>(i, 1)); s.close(); break; }
	case 1: { compressed_io<8, 2> s; s.open(p, rw); for (int i = 0; i < 7; ++i) s.write(mk<8>(i, 1)); s.close(); break; }
	case 2: { compressed_io<16, 0> s; s.open(p, rw); for (int i = 0; i < 7; ++i) s.write(mk<16>(i, 1)); s.close(); break; }
	case 3: { uncompressed_io<8> s; s.open(p, rw); for (int i = 0; i < 7; ++i) s.write(mk<8>(i, 1)); s.close(); break; }
	case 4: { uncompressed_io<16> s; s.open(p, rw); for (int i = 0; i < 7; ++i) s.write(mk<16>(i, 1)); s.close(); break; }
	case 5: { serialization_writer w; w.open(p); w.serialize(uint64_t(5)); w.close(); break; }
	case 6: { serialization_reverse_writer w; w.open(p); w.serialize(uint64_t(5)); w.close(); break; }
	case 7: { tpie::stack<item<8>> s(p); for (int i = 0; i < 7; ++i) s.push(mk<8>(i, 1)); break; }
	case 8: { file_stream<item<8>> s(2.0); s.open(p); for (int i = 0; i < 7; ++i) s.write(mk<8>(i, 1)); s.close(); break; }
	case 9: io::spit(p, ""); break;
	case 10: io::spit(p, std::string(10000, '\0')); break;
	case 11: io::spit(p, std::string(10000, '\xff')); break;
	case 12: { std::string s; while (s.size() < 9000) s += "This is not a TPIE file.\n"; io::spit(p, s); break; }
	}
	return io::slurp(p);
}
const int kinds_n = 13;
const char * kind_name[] = {"a file_stream", "a compressed file_stream", "a file_stream of 16 byte items", "an uncompressed_stream", "an uncompressed_stream of 16 byte items", "a serialization", "a reverse serialization", "a stack", "a file_stream with bigger blocks", "nothing", "zeros", "ones", "text"};

/// Does a reader of one kind understand a file of another?  Item and block size agree.
bool compatible(int file, int reader) {
	auto group = [](int k) { return k == 0 || k == 1 || k == 3 || k == 7 ? 1 : k == 2 || k == 4 ? 2 : 10 + k; };
	if (file == reader) return true;
	if (group(file) != group(reader)) return false;
	if (reader == 3) return file == 0; // does not read compressed files
	if (reader == 4) return file == 2;
	return true;
}
template <typename IO> size_t count_stream(const std::string & p) {
	IO s;
	s.open(p, ro);
	size_t n = s.size();
	for (size_t i = 0; i < n; ++i) {
		auto x = s.read();
		auto e = mk<IO::item_t_size>(i, 1);
		MC_CHECK(memcmp(&x, &e, sizeof x) == 0, "misread", "item " << i << " of a foreign file");
	}
	return n;
}
template <typename IO> struct sized : IO { static const size_t item_t_size = sizeof(typename IO::item_t); };

void foreign() {
	int f = mc::choose(kinds_n);
	std::string p = world::path("f"), bytes = write_kind(f, p);
	int r = mc::choose(9);
	MC_TRACE(kind_name[f] << " read as " << kind_name[r]);
	bool ok = true;
	size_t n = 0;
	try {
		switch (r) {
		case 0: case 1: n = count_stream<sized<compressed_io<8, 0>>>(p); break;
		case 2: n = count_stream<sized<compressed_io<16, 0>>>(p); break;
		case 3: n = count_stream<sized<uncompressed_io<8>>>(p); break;
		case 4: n = count_stream<sized<uncompressed_io<16>>>(p); break;
		case 5: { serialization_reader x; x.open(p); uint64_t v; x.unserialize(v); n = v + 2; x.close(); break; }
		case 6: { serialization_reverse_reader x; x.open(p); uint64_t v; x.unserialize(v); n = v + 2; x.close(); break; }
		case 7: { if (f == 9) break; tpie::stack<item<8>> s(p); while (!s.empty()) { auto x = s.pop(); ++n; auto e = mk<8>(7 - n, 1); MC_CHECK(memcmp(&x, &e, 8) == 0, "misread", "popped a foreign item"); } break; }
		case 8: { file_stream<item<8>> s(2.0); s.open(p, open::read_only); while (s.can_read()) { auto x = s.read(); auto e = mk<8>(n++, 1); MC_CHECK(memcmp(&x, &e, 8) == 0, "misread", "read a foreign item"); } break; }
		}
	} catch (const tpie::exception & e) {
		ok = false;
		MC_TRACE("  " << e.what());
	}
	mc::transition();
	mc::state(mc::mix(f, r));
	mc::outcome(mc::mix(mc::mix(f, r), ok));
	if (r == 7 && f == 9) return;
	MC_CHECK(ok == compatible(f, r), ok ? "accepted" : "refused", kind_name[f] << (ok ? " was read as " : " was not read as ") << kind_name[r]);
	if (ok) MC_CHECK(n == 7, "size", "read " << n << " items of 7");
	if (r != 7) MC_CHECK(io::slurp(p) == bytes, "modified", "reading modified the file");
}

// ------------------------------------------------------- serialization
template <typename W, typename R, bool reverse>
void serialization(int how) {
	std::string path = world::path("ser");
	std::vector<std::string> v;
	int n = mc::choose(4);
	{
		W w;
		w.open(path);
		for (int i = 0; i < n; ++i) { v.push_back(std::string(i * 7, char('a' + i))); w.serialize(v.back()); }
		w.close();
	}
	if (reverse) std::reverse(v.begin(), v.end());
	std::string good = io::slurp(path), bad = good;
	const size_t H = 40; // covers {magic, version, size, clean, reverse}
	damage d;
	if (how == 0) {
		size_t m = H + 4 + (good.size() - (AREA - 4));
		size_t k = mc::choose(int(m));
		size_t at = k < H + 4 ? k : AREA - 4 + (k - H - 4);
		uint8_t x = pattern(mc::choose(patterns()));
		bad[at] ^= x;
		d.what = mc::strm() << "byte " << at << " xor " << int(x);
		if (at < 16) d.v = must_reject;
		else if (at < 24) d.larger = true;
		else if (at < 26) d.v = must_reject;
		else if (at < AREA) d.harmless = true;
		else d.v = any;
	} else if (how == 1) {
		size_t m = 60 + 6 + (good.size() - AREA);
		size_t k = mc::choose(int(m));
		size_t to = k < 60 ? k : k < 66 ? AREA - 6 + (k - 60) : AREA + (k - 66);
		bad.resize(to);
		d.what = mc::strm() << "cut to " << to;
		if (to < 26) d.v = must_reject;
	} else d = append(bad);
	if (bad == good) { d.harmless = true; d.v = same_or_error; }
	MC_TRACE(d.what);
	io::spit(path, bad);
	int fds = io::open_fds();
	bool opened = false;
	size_t got = 0;
	{
		R r;
		try {
			r.open(path);
			opened = true;
			MC_CHECK(d.v != must_reject, "accepted", "a damaged file (" << d.what << ") was opened");
			while (r.can_read() && got < 40) {
				std::string s;
				r.unserialize(s);
				if (d.v != any && !d.larger) MC_CHECK(got < v.size() && s == v[got], "misread", "value " << got << " is wrong");
				if (d.larger && !reverse) MC_CHECK(got >= v.size() || s == v[got], "misread", "value " << got << " is wrong");
				++got;
			}
			if (d.harmless) MC_CHECK(got == v.size(), "lost", got << " values of " << v.size());
			r.close();
		} catch (const std::exception & e) {
			MC_TRACE("  " << (opened ? "read: " : "open: ") << e.what());
			MC_CHECK(!d.harmless, "refused", "fails on a file whose contents are undamaged: " << e.what());
			if (!opened) MC_CHECK(dynamic_cast<const tpie::exception *>(&e), "foreign-exception", "open threw " << e.what());
		}
	}
	mc::transition();
	MC_CHECK(io::open_fds() == fds, "descriptor-leak", "descriptors left open");
	MC_CHECK(io::slurp(path) == bad, "modified", "reading modified the file");
	mc::state(mc::mix(got, opened));
	mc::outcome(mc::mix(got, opened * 4 + how));
}

// ------------------------------------------------------- serialized B-trees
struct value { int key, id; };
struct key_of { int operator()(const value & v) const noexcept { return v.key; } };
struct less_comp { bool operator()(int a, int b) const noexcept { return a < b; } };
struct aug_t { uint64_t n; };
struct augmenter {
	template <typename N>
	aug_t operator()(const N & node) {
		aug_t a = {0};
		for (size_t i = 0; i < node.count(); ++i) a.n += node.is_leaf() ? 1 : node.get_augmentation(i).n;
		return a;
	}
};
template <typename ... X>
struct trees {
	typedef btree<value, btree_comp<less_comp>, btree_key<key_of>, btree_augment<augmenter>, btree_external, btree_static, btree_serialized, X...> tree;
	typedef btree_builder<value, btree_comp<less_comp>, btree_key<key_of>, btree_augment<augmenter>, btree_external, btree_static, btree_serialized, X...> builder;
};
typedef trees<btree_fanout<3, 4>> small;

/// Number of values below a node
template <typename N>
uint64_t walk(N n, const std::vector<value> & v, bool right, uint64_t & budget) {
	uint64_t sum = 0;
	for (size_t i = 0; i < n.count() && budget; ++i) {
		--budget;
		if (n.is_leaf()) {
			value x = n.value(i);
			if (right) {
				bool known = false;
				for (const value & y : v) known = known || !memcmp(&x, &y, sizeof x);
				MC_CHECK(known, "misread", "a node holds a value that was not inserted");
			}
			++sum;
		} else sum += walk(n.get_child(i), v, right, budget);
	}
	return sum;
}

void serialized_tree(int how, btree_flags flags, std::vector<int> sizes) {
	std::string path = world::path("tree");
	int n = sizes[mc::choose(int(sizes.size()))];
	std::vector<value> v;
	const std::string meta = "metadata";
	{
		small::builder b(path, less_comp(), augmenter(), flags);
		for (int i = 0; i < n; ++i) { v.push_back(value{2 * i, i + 1}); b.push(v.back()); }
		auto t = b.build(meta);
	}
	const std::string good = io::slurp(path);
	std::string bad = good;
	const size_t H = 64; // magic, version, root, height, size, metadata offset, metadata size, flags
	damage d;
	bool meta_damaged = false;
	if (how == 0) {
		size_t at = mc::choose(int(good.size()));
		uint8_t x = pattern(mc::choose(patterns()));
		bad[at] ^= x;
		d.what = mc::strm() << "byte " << at << " xor " << int(x);
		d.v = at < 8 || (at < 16 && !(at == 8 && x == 1)) ? must_reject : any;
		meta_damaged = true;
	} else if (how == 1) {
		size_t to = mc::choose(int(good.size()));
		bad.resize(to);
		d.what = mc::strm() << "cut to " << to;
		if (to < H) d.v = must_reject;
		meta_damaged = true;
	} else if (how == 2) {
		size_t a = 16 + mc::choose(48), b = 16 + mc::choose(48);
		if (b <= a) mc::prune();
		const uint8_t x[] = {1, 2, 0x10, 0x80};
		bad[a] ^= x[mc::choose(4)];
		bad[b] ^= x[mc::choose(4)];
		d.what = mc::strm() << "bytes " << a << " and " << b << " damaged";
		d.v = any;
		meta_damaged = true;
	} else d = append(bad);
	const bool right = d.v != any;
	MC_TRACE(d.what);
	io::spit(path, bad);
	int fds = io::open_fds();
	bool opened = false;
	uint64_t got = 0;
	int program = mc::choose(5);
	{
		std::unique_ptr<small::tree> t;
		auto safe = [&](const char * what, std::function<void()> f) {
			mc::transition();
			try { f(); return true; } catch (const std::exception & e) {
				MC_TRACE("  " << what << ": " << e.what());
				MC_CHECK(!d.harmless, "refused", what << " fails on a file whose contents are undamaged: " << e.what());
				if (!dynamic_cast<const tpie::exception *>(&e) && !dynamic_cast<const std::bad_alloc *>(&e) && !dynamic_cast<const std::length_error *>(&e))
					mc::fail("foreign-exception", mc::strm() << what << " threw " << typeid(e).name() << ": " << e.what());
				return false;
			}
		};
		opened = safe("open", [&]() { t.reset(new small::tree(path)); });
		MC_CHECK(!(opened && d.v == must_reject), "accepted", "a damaged tree (" << d.what << ") was opened");
		if (opened) {
			if (right) MC_CHECK(t->size() == v.size(), "size", "size " << t->size() << ", it was " << v.size());
			const size_t limit = v.size() + 40;
			bool whole = false;
			switch (program) {
			case 0:
				MC_TRACE("iterate");
				whole = safe("iterate", [&]() {
					for (auto i = t->begin(), e = t->end(); i != e && got < limit; ++i) {
						value x = *i;
						if (right) MC_CHECK(got < v.size() && !memcmp(&x, &v[got], sizeof x), "misread", "value " << got << " is wrong");
						++got;
					}
				});
				break;
			case 1:
				MC_TRACE("iterate backwards");
				whole = safe("iterate backwards", [&]() {
					auto i = t->end();
					for (size_t k = 0; k < v.size() && i != t->begin(); ++k) {
						--i;
						value x = *i;
						if (right) MC_CHECK(!memcmp(&x, &v[v.size() - 1 - k], sizeof x), "misread", "value " << k << " from the end is wrong");
						++got;
					}
				});
				break;
			case 2:
				MC_TRACE("look up");
				for (int k = -1; k <= 2 * n; ++k) safe("look up", [&]() {
					auto i = t->lower_bound(k);
					bool there = i != t->end();
					if (right) MC_CHECK(there == (k <= 2 * (n - 1)), "misread", "lower_bound(" << k << ") is wrong");
					if (there) {
						value x = *i;
						if (right) MC_CHECK(x.key == (k < 0 ? 0 : k + (k & 1)), "misread", "lower_bound(" << k << ") gives " << x.key);
					}
					auto j = t->find(k);
					if (right) MC_CHECK((j != t->end()) == (k >= 0 && k % 2 == 0 && k <= 2 * (n - 1)), "misread", "find(" << k << ") is wrong");
					++got;
				});
				break;
			case 3:
				MC_TRACE("walk over the nodes");
				whole = safe("walk", [&]() { uint64_t budget = 2000; got = t->empty() ? 0 : walk(t->root(), v, right, budget); });
				break;
			case 4:
				MC_TRACE("read the metadata");
				safe("metadata", [&]() { std::string m = t->get_metadata(); got = m == meta; MC_CHECK(got || meta_damaged, "metadata", "the metadata changed"); });
				break;
			}
			if (whole && right) MC_CHECK(got == v.size(), "lost", got << " values of " << v.size());
		}
	}
	MC_CHECK(io::open_fds() == fds, "descriptor-leak", "descriptors left open");
	MC_CHECK(io::slurp(path) == bad, "modified", "reading modified the file");
	mc::state(mc::mix(got, opened * 8 + program));
	mc::outcome(mc::mix(got, opened * 8 + program));
}

std::function<void()> W(std::function<void()> f, size_t block = 48) {
	world::config c;
	c.block_size = block;
	c.memory_limit = 64 << 20;
	c.s.reduce = false;
	return [=]() {
		mc::clean_scratch();
		world::run(c, [&]() { tempname::tpie_name(); f(); });
	};
}

template <typename IO>
void add_kind(const char * name, std::vector<int> sizes) {
	std::string n = name;
	mc::add({n + "_flip", "every byte of a valid file's header and body changed in 9 (255) ways; read forwards, backwards, at random, appended to", W([=]() { streams<IO>(0, sizes); }), {}, {}, 3});
	mc::add({n + "_cut", "a valid file cut to every length", W([=]() { streams<IO>(1, sizes); }), {}, {}, 3});
	mc::add({n + "_junk", "a valid file with junk after its end", W([=]() { streams<IO>(2, sizes); }), {}, {}, 3});
	mc::add({n + "_two", "every pair of header bytes that are not checked changed in 4 ways each", W([=]() { streams_two<IO>(std::vector<int>{sizes.back()}); }), {}, {}, 2});
}

} // unnamed

int main(int argc, char ** argv) {
	add_kind<compressed_io<8, 0>>("plain", {0, 1, 6, 7, 13});
	add_kind<compressed_io<8, 2>>("compressed", {0, 1, 6, 7, 13});
	add_kind<compressed_io<16, 1>>("compressed_normal", {0, 3, 7});
	add_kind<uncompressed_io<8>>("uncompressed_stream", {0, 1, 6, 7, 13});
	add_kind<file_io<8>>("file", {0, 1, 6, 7, 13});
	const char * hn[] = {"_flip", "_cut", "_junk"};
	const char * hw[] = {"every byte changed in 9 (255) ways", "cut to every length", "junk after the end"};
	for (int how = 0; how < 3; ++how) {
		mc::add({std::string("serialization") + hn[how], hw[how], W([=]() { serialization<serialization_writer, serialization_reader, false>(how); }), {}, {}, 3});
		mc::add({std::string("serialization_reverse") + hn[how], hw[how], W([=]() { serialization<serialization_reverse_writer, serialization_reverse_reader, true>(how); }), {}, {}, 3});
	}
	const std::pair<const char *, btree_flags> compressions[] = {{"none", btree_flags::compress_none}, {"lz4", btree_flags::compress_lz4}, {"snappy", btree_flags::compress_snappy}, {"zstd", btree_flags::compress_zstd}};
	for (auto & c : compressions) {
		std::string n = std::string("btree_") + c.first;
		auto f = c.second;
		mc::add({n + "_flip", "serialized B-tree: every byte changed in 9 (255) ways; iterated both ways, searched, walked, metadata read", W([=]() { serialized_tree(0, f, {0, 1, 5, 14}); }), {}, {}, 3});
		mc::add({n + "_cut", "serialized B-tree cut to every length", W([=]() { serialized_tree(1, f, {0, 1, 5, 14, 40}); }), {}, {}, 3});
		mc::add({n + "_two", "serialized B-tree: every pair of unprotected header bytes changed in 4 ways each", W([=]() { serialized_tree(2, f, {14}); }), {}, {}, 2});
		mc::add({n + "_junk", "serialized B-tree with junk after its end", W([=]() { serialized_tree(3, f, {0, 1, 5, 14}); }), {}, {}, 3});
	}
	mc::add({"foreign", "every kind of file opened as every other kind", W(foreign), {}, {}, 3});
	return mc::main(argc, argv);
}
