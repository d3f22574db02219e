// C11: serialized data reads back equal, forwards and backwards.
#include "world.h"
#include <tpie/serialization_stream.h>
#include <tpie/serialization2.h>
#include <tpie/array.h>
#include <variant>
#include <vector>
#include <array>
#include <tuple>
#include <cstring>

using namespace tpie;

namespace tpie { // found by argument-dependent lookup like the library's own writers
struct c11_sink { std::string s; void write(const char * p, size_t n) { s.append(p, n); } };
struct c11_source { const std::string & s; size_t i; void read(char * p, size_t n) { MC_CHECK(i + n <= s.size(), "overread", "read " << n << " bytes at " << i << " of " << s.size()); memcpy(p, s.data() + i, n); i += n; } };

} // namespace tpie

namespace {

typedef tpie::c11_sink sink;
typedef tpie::c11_source source;

// ------------------------------------------------------------ user type
struct user { uint16_t a; std::string b; bool operator==(const user & o) const { return a == o.a && b == o.b; } };
template <typename D> void serialize(D & d, const user & u) { using tpie::serialize; serialize(d, u.a); serialize(d, u.b); }
template <typename S> void unserialize(S & s, user & u) { using tpie::unserialize; unserialize(s, u.a); unserialize(s, u.b); }

// --------------------------------------------- independent size of a value
template <typename T> struct arr_eq;
size_t sz(const std::string & s) { return 8 + s.size(); }
template <typename T> std::enable_if_t<std::is_arithmetic<T>::value, size_t> sz(const T &) { return sizeof(T); }
inline size_t sz(const user & u) { return 2 + sz(u.b); }
template <typename T> size_t sz(const std::vector<T> & v);
template <typename T> size_t sz(const tpie::array<T> & v);
template <typename T, size_t N> size_t sz(const std::array<T, N> & v);
template <typename T, typename U> size_t sz(const std::pair<T, U> & v) { return sz(v.first) + sz(v.second); }
template <typename... Ts> size_t sz(const std::tuple<Ts...> & v) { return std::apply([](const auto &... x) { return (size_t(0) + ... + sz(x)); }, v); }
template <typename T> size_t sz(const std::vector<T> & v) { if (std::is_arithmetic<T>::value) return 8 + sizeof(T) * v.size(); size_t r = 8; for (auto & x : v) r += sz(x); return r; }
template <typename T> size_t sz(const tpie::array<T> & v) { size_t r = 8; for (auto & x : v) r += sz(x); return r; }
template <typename T, size_t N> size_t sz(const std::array<T, N> & v) { size_t r = 0; for (auto & x : v) r += sz(x); return r; }

template <typename T> bool eq(const T & a, const T & b) { return a == b; }
template <typename T> bool eq(const tpie::array<T> & a, const tpie::array<T> & b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false;
	return true;
}

// ---------------------------------------------------- enumerated values
int g_fresh;
template <typename T> struct gen;
template <> struct gen<uint8_t> { static uint8_t get() { return uint8_t(0x11 * ++g_fresh); } };
template <> struct gen<uint32_t> { static uint32_t get() { return 0x01020304u * unsigned(++g_fresh); } };
template <> struct gen<uint64_t> { static uint64_t get() { return 0x0102030405060708ull * unsigned(++g_fresh); } };
template <> struct gen<double> { static double get() { return 1.25 * ++g_fresh; } };
template <> struct gen<bool> { static bool get() { return ++g_fresh & 1; } };
template <> struct gen<std::string> { static std::string get() { size_t n = mc::choose(3); if (n == 2) n = 19; std::string s; for (size_t i = 0; i < n; ++i) s += char('a' + (i + ++g_fresh) % 26); return s; } };
template <> struct gen<user> { static user get() { user u; u.a = uint16_t(++g_fresh * 257); u.b = gen<std::string>::get(); return u; } };
template <typename T> struct gen<std::vector<T>> { static std::vector<T> get() { std::vector<T> v; int n = mc::choose(3); for (int i = 0; i < n; ++i) v.push_back(gen<T>::get()); return v; } };
template <typename T> struct gen<tpie::array<T>> { static tpie::array<T> get() { tpie::array<T> v(size_t(mc::choose(3))); for (size_t i = 0; i < v.size(); ++i) v[i] = gen<T>::get(); return v; } };
template <typename T, size_t N> struct gen<std::array<T, N>> { static std::array<T, N> get() { std::array<T, N> v; for (auto & x : v) x = gen<T>::get(); return v; } };
template <typename T, typename U> struct gen<std::pair<T, U>> { static std::pair<T, U> get() { T a = gen<T>::get(); return std::pair<T, U>(a, gen<U>::get()); } };
template <typename... Ts> struct gen<std::tuple<Ts...>> { static std::tuple<Ts...> get() { return std::tuple<Ts...>{gen<Ts>::get()...}; } };

template <typename T>
void roundtrip_body() {
	g_fresh = 0;
	T v = gen<T>::get();
	T w = gen<T>::get(); // what the target held before
	mc::transition(2);
	sink o;
	using tpie::serialize;
	using tpie::unserialize;
	serialize(o, v);
	MC_CHECK(o.s.size() == sz(v), "size", "serialized to " << o.s.size() << " bytes, expected " << sz(v));
	MC_CHECK(serialized_size(v) == o.s.size(), "serialized-size", "serialized_size says " << serialized_size(v) << ", wrote " << o.s.size());
	o.s += "tail";
	source i{o.s, 0};
	unserialize(i, w);
	MC_CHECK(i.i + 4 == o.s.size(), "consumed", "consumed " << i.i << " of " << o.s.size() - 4);
	MC_CHECK(eq(v, w), "value", "value read back differs");
	mc::state(mc::mix(o.s.size(), std::hash<std::string>()(o.s)));
	// C arrays and iterator ranges
	T a[2] = {v, w}; T b[2] = {w, v};
	sink o2; serialize(o2, a);
	MC_CHECK(o2.s.size() == sz(a[0]) + sz(a[1]), "c-array-size", "");
	source i2{o2.s, 0}; unserialize(i2, b);
	MC_CHECK(eq(a[0], b[0]) && eq(a[1], b[1]) && i2.i == o2.s.size(), "c-array", "array read back differs");
	std::vector<T> c(a, a + 2), d(2);
	sink o3; serialize(o3, c.begin(), c.end());
	MC_CHECK(o3.s == o2.s, "range", "a range of two serializes unlike an array of two");
	source i3{o3.s, 0}; unserialize(i3, d.begin(), d.end());
	MC_CHECK(eq(d[0], a[0]) && eq(d[1], a[1]), "range-value", "range read back differs");
	mc::outcome(std::hash<std::string>()(o.s));
}

// ------------------------------------------------------------- streams
typedef std::variant<uint8_t, uint32_t, uint64_t, std::string, user, std::vector<std::string>, std::pair<uint8_t, std::string>, std::vector<char>> value;

std::vector<char> g_noise; // random bytes, made once before the workers start

value pick(int k, size_t len) {
	++g_fresh;
	if (k == 7) { const char * b = g_noise.data() + g_fresh; return std::vector<char>(b, b + len); }
	auto str = [&](size_t n) { std::string s(n, 0); uint32_t x = 12345u + unsigned(g_fresh) * 77u; for (size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; s[i] = char(x >> 24); } return s; };
	switch (k) {
	case 0: return uint8_t(g_fresh * 0x11);
	case 1: return uint32_t(g_fresh) * 0x01020304u;
	case 2: return str(len);
	case 3: return uint64_t(g_fresh) * 0x0102030405060708ull;
	case 4: { user u; u.a = uint16_t(g_fresh * 259); u.b = str(3); return u; }
	case 5: return std::vector<std::string>{str(0), str(5)};
	default: return std::pair<uint8_t, std::string>(uint8_t(g_fresh), str(2));
	}
}
size_t vsz(const value & v) { return std::visit([](const auto & x) { return sz(x); }, v); }

template <typename R> void expect(R & rd, const value & v) {
	std::visit([&](const auto & x) {
		std::decay_t<decltype(x)> y;
		rd.unserialize(y);
		MC_CHECK(eq(x, y), "value", "a value of " << sz(x) << " bytes read back different");
	}, v);
}

template <typename F> bool throws_eos(F f) {
	try { f(); } catch (const end_of_stream_exception &) { return true; }
	return false;
}

template <typename R>
void read_side(const std::vector<value> & vs, const std::function<void(R &)> & open, bool reverse, int restarts) {
	std::vector<const value *> order;
	for (auto & v : vs) order.push_back(&v);
	if (reverse) std::reverse(order.begin(), order.end());
	size_t total = 0;
	for (auto & v : vs) total += vsz(v);
	R rd;
	for (int attempt = 0;; ++attempt) {
		open(rd);
		MC_CHECK(rd.size() == total, "stream-size", "size() is " << rd.size() << ", wrote " << total);
		MC_CHECK(rd.file_size() == total + 4096, "file-size", "file_size() is " << rd.file_size());
		size_t stop = attempt < restarts ? size_t(mc::choose(int(order.size()) + 1)) : order.size();
		size_t off = 0;
		MC_CHECK(rd.offset() == 0, "offset", "offset right after open is " << rd.offset());
		for (size_t i = 0; i < stop; ++i) {
			mc::transition();
			MC_CHECK(rd.can_read(), "can-read", "cannot read value " << i << " of " << order.size());
			MC_TRACE("read value " << i);
			expect(rd, *order[i]);
			off += vsz(*order[i]);
			MC_CHECK(rd.offset() == off, "offset", "after value " << i << " offset() is " << rd.offset() << ", read " << off << " bytes");
			mc::state(mc::mix(off, total));
		}
		if (stop == order.size()) {
			MC_CHECK(!rd.can_read(), "can-read-end", "can_read() at the end");
			for (int k = 0; k < 2; ++k) {
				MC_TRACE("read past the end");
				char c;
				MC_CHECK(throws_eos([&] { rd.read(&c, 1); }), "past-end", "reading past the end did not throw end_of_stream_exception");
				MC_CHECK(!rd.can_read(), "can-read-end", "can_read() after a failed read");
				MC_CHECK(rd.offset() == off, "offset-end", "offset() is " << rd.offset() << " after a failed read, " << off << " bytes were read");
			}
			rd.read(0, 0);
		}
		if (attempt == restarts) break;
		if (mc::choose_bool()) { MC_TRACE("close and open again"); rd.close(); } else { MC_TRACE("open again without closing"); }
	}
	rd.close();
	rd.close();
}

struct sp { int depth; std::vector<int> blocks; std::vector<int> before; int kinds; int restarts; std::vector<int> lens; };

template <typename W, typename R>
void stream_body(sp P, bool reverse) {
	g_fresh = 0;
	const size_t B = W::block_size();
	std::vector<value> vs;
	int nb = P.blocks[size_t(mc::choose(int(P.blocks.size())))];
	if (nb > 0) {
		int j = P.before[size_t(mc::choose(int(P.before.size())))];
		vs.push_back(pick(7, size_t(nb) * B - size_t(j) - 8));
	}
	int n = P.depth;
	for (int i = 0; i < n; ++i) {
		int k = mc::choose(P.kinds + int(P.lens.size()));
		if (k == 0) break;
		--k;
		if (k < P.kinds) vs.push_back(pick(k, 1));
		else {
			size_t l = size_t(P.lens[size_t(k - P.kinds)]);
			vs.push_back(l > 100 ? pick(7, l - 108 + B) : pick(2, l));
		}
	}
	// where the stream lives, and whether the writer was used before
	std::string p = world::path("ser");
	int how = mc::choose(4);
	temp_file tmp;
	W * w = new W();
	if (how == 1 || how == 2) {
		std::string p2 = world::path("ser0");
		w->open(p2);
		uint32_t x = 0xdeadbeef;
		w->serialize(x);
		if (how == 1) w->close();
		if (how == 2) MC_TRACE("open a second stream while the first is open"); else MC_TRACE("reuse of a closed writer");
	}
	if (how == 3) w->open(tmp); else w->open(p);
	size_t total = 0;
	for (auto & v : vs) {
		mc::transition();
		MC_TRACE("write a value of " << vsz(v) << " bytes at offset " << total);
		std::visit([&](const auto & x) { w->serialize(x); }, v);
		total += vsz(v);
	}
	if (mc::choose_bool()) w->close();
	delete w;
	if (how == 1 || how == 2) {
		// what was written to the first stream must be there
		std::vector<value> first{value(uint32_t(0xdeadbeef))};
		read_side<R>(first, [&](R & r) { r.open(world::path("ser0")); }, reverse, 0);
	}
	std::function<void(R &)> open = [&](R & r) { if (how == 3) r.open(tmp); else r.open(p); };
	read_side<R>(vs, open, reverse, P.restarts);
	mc::outcome(mc::mix(total, vs.size()));
}

// raw reads of every chunk size across a border
void raw_body() {
	const size_t B = serialization_reader::block_size();
	std::string p = world::path("raw");
	size_t n = B + 40;
	std::string data(n, 0);
	uint32_t x = 99;
	for (auto & c : data) { x = x * 1664525u + 1013904223u; c = char(x >> 24); }
	bool reverse = mc::choose_bool();
	std::vector<size_t> cuts;
	if (reverse) {
		serialization_reverse_writer w; w.open(p);
		// single bytes, written so that the reader sees data in order
		serialization_reverse_writer::serializer(w).write(data.data() + 30, n - 30);
		for (int i = 29; i >= 0; --i) serialization_reverse_writer::serializer(w).write(data.data() + i, 1);
	} else {
		serialization_writer w; w.open(p);
		serialization_writer::serializer s(w);
		size_t c1 = size_t(mc::choose(4));
		s.write(data.data(), c1); s.write(data.data() + c1, 0);
		s.write(data.data() + c1, B - 3); s.write(data.data() + c1 + B - 3, n - c1 - (B - 3));
	}
	std::string got(n, 1);
	size_t start = B - 6 + size_t(mc::choose(6)), len = size_t(mc::choose(12)), len2 = size_t(mc::choose(6));
	auto go = [&](auto & rd) {
		rd.open(p);
		rd.read(&got[0], start);
		rd.read(&got[start], len);
		rd.read(&got[start + len], len2);
		MC_CHECK(rd.offset() == start + len + len2, "raw-offset", "offset " << rd.offset());
		MC_CHECK(rd.can_read(), "raw-can-read", "");
		rd.read(&got[start + len + len2], n - start - len - len2);
		MC_CHECK(got == data, "raw-data", "raw bytes differ (start " << start << ", len " << len << ")");
		MC_CHECK(!rd.can_read(), "raw-end", "");
	};
	mc::transition(4);
	mc::state(start * 1000 + len * 20 + len2);
	if (reverse) { serialization_reverse_reader r; go(r); } else { serialization_reader r; go(r); }
	mc::outcome(start * 1000 + len * 20 + len2);
}

// opening what cannot be read
template <typename W, typename R, typename RO>
void refuse_body() {
	std::string good = world::path("good"), bad = world::path("bad");
	{ W w; w.open(good); w.serialize(std::string("hello")); w.close(); }
	std::string raw = io::slurp(good);
	R rd;
	bool usedBefore = mc::choose_bool();
	if (usedBefore) { rd.open(good); std::string s; rd.unserialize(s); }
	int what = mc::choose(9);
	mc::transition();
	bool threw = false;
	std::unique_ptr<W> open;
	try {
		switch (what) {
		case 0: rd.open(world::path("missing")); break;
		case 1: { RO o; o.open(good); } break;
		case 2: open.reset(new W()); open->open(bad); open->serialize(std::string("x")); rd.open(bad); break;
		case 3: { std::string r = raw; r[mc::choose(8)] ^= 1; io::spit(bad, r); rd.open(bad); } break;
		case 4: { std::string r = raw; r[8 + mc::choose(8)] ^= 2; io::spit(bad, r); rd.open(bad); } break;
		case 5: { std::string r = raw; r[8] = 0; io::spit(bad, r); rd.open(bad); } break;
		case 6: { std::string r = raw; r[24] = char(mc::choose(3)); if (r[24] == 1) r[24] = 3; io::spit(bad, r); rd.open(bad); } break;
		case 7: { std::string r = raw; r[25] = char(2 + mc::choose(2)); io::spit(bad, r); rd.open(bad); } break;
		case 8: { io::spit(bad, raw.substr(0, size_t(mc::choose(26)))); rd.open(bad); } break;
		}
	} catch (const tpie::exception &) { threw = true; }
	catch (const std::exception &) { threw = true; }
	MC_CHECK(threw, "refuse", "case " << what << " was opened");
	rd.open(good);
	std::string s;
	rd.unserialize(s);
	MC_CHECK(s == "hello" && !rd.can_read(), "reopen", "a reader that failed to open does not work afterwards");
	mc::state(size_t(what));
	mc::outcome(size_t(what));
}

} // namespace

template <typename F> std::function<void()> in_world(F f) { return [f]() { world::run(world::config(), f); }; }

template <typename T> void add_value(const char * name) {
	mc::add({std::string("value_") + name, std::string("serialize/unserialize of every pair of small values of the type, single, in C arrays and as ranges: ") + name, in_world(roundtrip_body<T>)});
}

template <typename W, typename R>
void add_stream(const std::string & dir, bool rev) {
	mc::add({dir + "_small", "every sequence of up to 3 (4) values of nine kinds, every reopening after a prefix", in_world([rev]() {
		stream_body<W, R>({mc::by_tier(3, 4), {0}, {0}, 7, 1, {0, 17}}, rev); })});
	mc::add({dir + "_border", "every sequence of up to 2 (3) values after a filler ending 0-20 bytes before the first or second block border, one reopening", in_world([rev]() {
		stream_body<W, R>({mc::by_tier(2, 3), {1, 2}, mc::by_tier(0, 1) ? std::vector<int>{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 20} : std::vector<int>{0, 1, 3, 8, 9, 12}, 3, 1, {}}, rev); })});
	mc::add({dir + "_large", "every sequence of up to 2 (3) values, some of about the block size", in_world([rev]() {
		stream_body<W, R>({mc::by_tier(2, 3), {0}, {0}, 2, 0, {101, 107, 108, 109}}, rev); })});
}

int main(int argc, char ** argv) {
	typedef std::string str;
	g_noise.resize(2 * serialization_writer::block_size() + 1000);
	uint32_t x = 12345;
	for (char & c : g_noise) { x = x * 1664525u + 1013904223u; c = char(x >> 24); }
	add_value<uint8_t>("u8"); add_value<double>("double"); add_value<str>("string"); add_value<user>("user");
	add_value<std::vector<uint32_t>>("vector_u32"); add_value<std::vector<str>>("vector_string"); add_value<std::vector<user>>("vector_user");
	add_value<std::vector<std::vector<str>>>("vector_vector_string");
	add_value<std::vector<std::pair<uint8_t, uint32_t>>>("vector_pair"); add_value<std::vector<std::pair<str, uint8_t>>>("vector_pair_string");
	add_value<std::array<uint32_t, 3>>("array3"); add_value<std::array<str, 2>>("array2_string"); add_value<std::vector<std::array<str, 2>>>("vector_array_string");
	add_value<std::vector<std::array<uint8_t, 3>>>("vector_array");
	add_value<std::pair<uint8_t, uint64_t>>("pair"); add_value<std::pair<str, user>>("pair_string_user"); add_value<std::pair<std::pair<str, uint8_t>, std::vector<uint8_t>>>("pair_nested");
	 add_value<std::tuple<str>>("tuple1");
	add_value<std::tuple<uint8_t, uint64_t, str>>("tuple3"); add_value<std::tuple<std::pair<uint8_t, str>, std::vector<user>, double>>("tuple_nested");
	add_value<tpie::array<uint32_t>>("tpie_array"); add_value<tpie::array<str>>("tpie_array_string"); add_value<std::vector<std::tuple<uint8_t, str>>>("vector_tuple");
	add_stream<serialization_writer, serialization_reader>("forward", false);
	add_stream<serialization_reverse_writer, serialization_reverse_reader>("reverse", true);
	mc::add({"raw", "raw reads of every chunk length around the block border", in_world(raw_body)});
	mc::add({"refuse_forward", "opening missing, reversed, unclosed, corrupt and truncated streams", in_world(refuse_body<serialization_writer, serialization_reader, serialization_reverse_reader>)});
	mc::add({"refuse_reverse", "the same for reversed streams", in_world(refuse_body<serialization_reverse_writer, serialization_reverse_reader, serialization_reader>)});
	return mc::main(argc, argv);
}
