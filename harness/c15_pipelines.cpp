// C15: every pipeline computes the composition of its parts
#include "world.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/internal_buffer.h>
#include <tpie/pipelining/ordered_merge.h>
#include <tpie/pipelining/chunker.h>
#include <tpie/pipelining/visit.h>
#include <tpie/pipelining/filter.h>
#include <tpie/pipelining/map.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/pipelining/subpipeline.h>
#include <tpie/pipelining/join.h>
#include <tpie/pipelining/split.h>
#ifdef C20
#include "recorder.h"
#endif
#include <algorithm>
#include <memory>
#include <vector>

namespace {

using namespace tpie;
namespace tp = tpie::pipelining;
using tp::virtual_chunk;
using tp::virtual_chunk_begin;
using tp::virtual_chunk_end;
using tp::virtual_chunk_pull;
using tp::virtual_chunk_pull_begin;
using tp::virtual_chunk_pull_end;
typedef std::vector<int> list;

// ---------------------------------------------------------------- one run
/// What has to outlive a pipeline, and what to verify when it has run
struct context {
	std::vector<std::shared_ptr<void>> keep;
	std::vector<std::function<void()>> after;
	int names = 0;
	template <typename T, typename ... A>
	T & make(A && ... a) { auto p = std::make_shared<T>(std::forward<A>(a)...); keep.push_back(p); return *p; }
	std::string file() { return world::path("f" + std::to_string(names++)); }
	void expect(const char * who, list & got, list want) {
		list * g = &got;
		after.push_back([=]() { MC_CHECK(*g == want, "side-output", who << " gives " << mc::show(*g) << " instead of " << mc::show(want)); });
	}
	/// Reads a file back when the pipeline has run
	void expect_file(const char * who, std::string p, list want) {
		after.push_back([=]() {
			file_stream<int> s;
			s.open(p, tpie::open::read_only);
			list got;
			while (s.can_read()) got.push_back(s.read());
			MC_CHECK(got == want, "side-output", who << " gives " << mc::show(got) << " instead of " << mc::show(want));
		});
	}
};

struct add_one { typedef int argument_type; typedef int result_type; int operator()(const int & x) const { return x + 1; } };
struct odd { bool operator()(const int & x) const { return x & 1; } };
struct halve_even { typedef int argument_type; typedef std::pair<int, bool> result_type; result_type operator()(const int & x) const { return {x / 2, x % 2 == 0}; } };
struct times_three { template <typename T> T operator()(const T & x) const { return 3 * x; } };

list mapped(list v, int (*f)(int)) { for (int & x : v) x = f(x); return v; }
list kept(list v, bool (*f)(int)) { list r; for (int x : v) if (f(x)) r.push_back(x); return r; }
list sorted(list v) { std::sort(v.begin(), v.end()); return v; }
list decreasing(list v) { std::sort(v.begin(), v.end(), std::greater<int>()); return v; }
list reversed(list v) { std::reverse(v.begin(), v.end()); return v; }
list uniqued(list v) { v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
list same(list v) { return v; }

/// Cuts into chunks, checks their sizes, and puts them together again
template <typename dest_t>
struct flatten_t : public tp::node {
	typedef std::vector<int> item_type;
	flatten_t(dest_t dest, size_t most): most(most), dest(std::move(dest)) { add_push_destination(this->dest); }
	void push(const item_type & v) {
		MC_CHECK(!v.empty() && v.size() <= most, "chunk", "a chunk of " << v.size() << " items");
		MC_CHECK(!partial, "chunk", "a chunk follows a chunk that is not full");
		partial = v.size() < most;
		for (int x : v) dest.push(x);
	}
	size_t most;
	bool partial = false;
	dest_t dest;
};
inline tp::pipe_middle<tp::factory<flatten_t, size_t>> flatten(size_t n) { return {n}; }

/// a stage that is both reads and hands on what it pulls
template <typename dest_t>
struct sum_pair_t : public tp::node {
	typedef std::pair<int, int> item_type;
	explicit sum_pair_t(dest_t dest): dest(std::move(dest)) { add_push_destination(this->dest); }
	void push(const item_type & v) { dest.push(v.first * 10 + v.second); }
	dest_t dest;
};
typedef tp::pipe_middle<tp::factory<sum_pair_t>> sum_pair;
template <typename dest_t>
struct make_pair_t : public tp::node {
	typedef int item_type;
	explicit make_pair_t(dest_t dest): dest(std::move(dest)) { add_push_destination(this->dest); }
	void push(const item_type & v) { dest.push(std::make_pair(v, v + 1)); }
	dest_t dest;
};
typedef tp::pipe_middle<tp::factory<make_pair_t>> pair_up;

// ------------------------------------------------------------ push stages
struct stage {
	const char * name;
	std::function<virtual_chunk<int>(context &, const list & in)> make; // in: what will be pushed into it
	std::function<list(list)> f;
};

template <typename T> virtual_chunk<int> chunk(T && t) { return virtual_chunk<int>(std::move(t)); }
/// an end and the beginning that goes on from there
template <typename A, typename B>
virtual_chunk<int> both(A && a, B && b) { return virtual_chunk<int>(virtual_chunk_end<int>(std::move(a)), virtual_chunk_begin<int>(std::move(b))); }

std::vector<stage> stages = {
	{"map", [](context &, const list &) { return chunk(tp::map([](const int & x) { return x + 1; })); }, [](list v) { return mapped(v, [](int x) { return x + 1; }); }},
	{"map of any type", [](context &, const list &) { return chunk(tp::item_type<int>() | tp::map(times_three())); }, [](list v) { return mapped(v, [](int x) { return 3 * x; }); }},
	{"filter", [](context &, const list &) { return chunk(tp::filter(odd())); }, [](list v) { return kept(v, [](int x) { return (x & 1) != 0; }); }},
	{"lambda", [](context &, const list &) { return chunk(tp::lambda(add_one())); }, [](list v) { return mapped(v, [](int x) { return x + 1; }); }},
	{"exclude_lambda", [](context &, const list &) { return chunk(tp::exclude_lambda(halve_even())); }, [](list v) { return mapped(kept(v, [](int x) { return x % 2 == 0; }), [](int x) { return x / 2; }); }},
	{"unique", [](context &, const list &) { return chunk(tp::unique(std::equal_to<int>())); }, uniqued},
	{"pipeuniq", [](context &, const list &) { return chunk(tp::pipeuniq()); }, uniqued},
	{"linear", [](context &, const list &) { return chunk(tp::linear<int>(-2, 5)); }, [](list v) { return mapped(v, [](int x) { return 5 - 2 * x; }); }},
	{"sort", [](context &, const list &) { return chunk(tp::sort()); }, sorted},
	{"sort decreasing", [](context &, const list &) { return chunk(tp::sort(std::greater<int>())); }, decreasing},
	{"buffer", [](context &, const list &) { return chunk(tp::buffer()); }, same},
	{"reverser", [](context &, const list &) { return chunk(tp::reverser()); }, reversed},
	{"internal_reverser", [](context &, const list &) { return chunk(tp::internal_reverser()); }, reversed},
	{"serialization_buffer", [](context &, const list &) { return chunk(tp::serialization_buffer()); }, same},
	{"serialization_reverser", [](context &, const list &) { return chunk(tp::serialization_reverser()); }, reversed},
	{"serialization_pipesort", [](context &, const list &) { return chunk(tp::serialization_sort()); }, sorted},
	{"passive_sorter", [](context & c, const list &) { auto & s = c.make<tp::passive_sorter<int>>(); return both(s.input(), tp::pull_source(s.output())); }, sorted},
	{"passive_buffer", [](context & c, const list &) { auto & s = c.make<tp::passive_buffer<int>>(); return both(s.input(), tp::pull_source(s.output())); }, same},
	{"passive_reverser", [](context & c, const list &) { auto & s = c.make<tp::passive_reverser<int>>(); return both(s.input(), tp::pull_source(s.output())); }, reversed},
	{"internal_passive_reverser", [](context & c, const list &) { auto & s = c.make<tp::internal_passive_reverser<int>>(); return both(s.input(), tp::pull_source(s.output())); }, reversed},
	{"passive_serialization_buffer", [](context & c, const list &) { auto & s = c.make<tp::passive_serialization_buffer<int>>(); return both(s.input(), tp::pull_source(s.output())); }, same},
	{"passive_serialization_reverser", [](context & c, const list &) { auto & s = c.make<tp::passive_serialization_reverser<int>>(); return both(s.input(), tp::pull_source(s.output())); }, reversed},
	{"serialization_passive_sorter", [](context & c, const list &) { auto & s = c.make<tp::serialization_passive_sorter<int, std::less<int>>>(); return both(s.input(), tp::pull_source(s.output())); }, sorted},
	{"pulled through map and unique", [](context & c, const list &) { auto & s = c.make<tp::passive_buffer<int>>(); return both(s.input(), tp::pull_source(s.output() | tp::pull_map([](const int & x) { return x / 2; }) | tp::pull_unique(std::equal_to<int>()))); },
		[](list v) { return uniqued(mapped(v, [](int x) { return x / 2; })); }},
	{"pulled through unique and peek", [](context & c, const list &) { auto & s = c.make<tp::passive_sorter<int>>(); return both(s.input(), tp::pull_source(s.output() | tp::pull_unique(std::equal_to<int>()) | tp::pull_peek())); }, [](list v) { return uniqued(sorted(v)); }},
	{"split and join", [](context & c, const list &) {
		auto & s = c.make<tp::split<int>>();
		auto & j = c.make<tp::join<int>>();
		c.make<tp::pipeline>(s.source() | j.sink());
		c.make<tp::pipeline>(s.source() | tp::map([](const int & x) { return x + 7; }) | j.sink());
		return both(s.sink(), j.source() | tp::sort()); // the two sources of the split may be served in any order
	}, [](list v) { list r; for (int x : v) { r.push_back(x); r.push_back(x + 7); } return sorted(r); }},
	{"join", [](context & c, const list &) { auto & j = c.make<tp::join<int>>(); return both(j.sink(), j.source()); }, same},
	{"split", [](context & c, const list & in) {
		auto & s = c.make<tp::split<int>>();
		auto & side = c.make<list>();
		c.make<tp::pipeline>(s.source() | tp::sort() | tp::output_vector(side));
		c.expect("the other side of a split", side, sorted(in));
		return both(s.sink(), s.source());
	}, same},
	{"fork", [](context & c, const list & in) { auto & side = c.make<list>(); c.expect("a fork", side, in); return chunk(tp::fork(tp::output_vector(side))); }, same},
	{"fork to a buffer pulled later", [](context & c, const list & in) {
		auto & b = c.make<tp::passive_reverser<int>>();
		auto & side = c.make<list>(in.size());
		c.make<tp::pipeline>(b.output() | tp::pull_output_iterator(side.begin()));
		c.expect("a forked off reverser", side, reversed(in));
		return chunk(tp::fork(b.input()));
	}, same},
	{"tee", [](context & c, const list & in) {
		std::string p = c.file();
		auto & s = c.make<file_stream<int>>();
		s.open(p);
		auto * sp = &s;
		c.after.push_back([=]() { sp->close(); });
		c.expect_file("a tee", p, in);
		return chunk(tp::tee(s));
	}, same},
	{"zip", [](context & c, const list & in) {
		auto & other = c.make<list>();
		for (size_t i = 0; i < in.size(); ++i) other.push_back(i % 4);
		return chunk(tp::zip(tp::pull_input_vector(other)) | sum_pair());
	}, [](list v) { for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 10 + i % 4; return v; }},
	{"unzip", [](context & c, const list & in) { auto & side = c.make<list>(); c.expect("an unzip", side, mapped(in, [](int x) { return x + 1; })); return chunk(pair_up() | tp::unzip(tp::output_vector(side))); }, same},
	{"merge", [](context & c, const list & in) {
		auto & other = c.make<list>();
		for (size_t i = 0; i < in.size(); ++i) other.push_back(int(i));
		return chunk(tp::merge(tp::pull_input_vector(other)));
	}, [](list v) { list r; for (size_t i = 0; i < v.size(); ++i) { r.push_back(v[i]); r.push_back(i); } return r; }},
	{"chunker", [](context &, const list &) { return chunk(tp::chunker(3) | flatten(3)); }, same},
	{"visit", [](context & c, const list & in) { auto & side = c.make<list>(); list * s = &side; c.expect("a visit", side, in); return chunk(tp::visit([s](const int & x) { s->push_back(x); })); }, same},
	{"preparer and propagater", [](context & c, const list &) {
		auto & n = c.make<std::pair<int, int>>(0, 0); auto * p = &n;
		c.after.push_back([=]() { MC_CHECK(p->first == 1 && p->second == 1, "callbacks", "prepare was called " << p->first << " times, propagate " << p->second); });
		return chunk(tp::preparer([p](tp::node &) { ++p->first; }) | tp::propagater([p](tp::node &) { ++p->second; }));
	}, same},
	{"virtual chunk inside a pipeline", [](context &, const list &) { virtual_chunk<int> v(tp::linear<int>(1, 2)); return chunk(tp::item_type<int>() | tp::devirtualize(v) | tp::linear<int>(3, 0)); }, [](list v) { return mapped(v, [](int x) { return 3 * (x + 2); }); }},
	{"vfork", [](context & c, const list & in) { auto & side = c.make<list>(); c.expect("a vfork", side, reversed(in)); return tp::vfork(virtual_chunk<int>(tp::reverser()) | virtual_chunk_end<int>(tp::output_vector(side))); }, same},
	{"nothing", [](context &, const list &) { return tp::chunk_if(false, virtual_chunk<int>(tp::linear<int>(7, 7))); }, same},
	{"internal vector with forwarding", [](context & c, const list &) {
		auto & v = c.make<list>();
		tp::node_set ns = tp::make_node_set();
		return both(tp::output_vector(v).add_to_set(ns), tp::input_vector(v).add_forwarding_dependencies(ns));
	}, same},
	{"store_sort", [](context &, const list &) { return chunk(tp::store_sort<tpie::plain_store>()); }, sorted},
};

// ----------------------------------------------------- sources and sinks
struct source { const char * name; std::function<virtual_chunk_begin<int>(context &, const list &)> make; };
struct sink { const char * name; std::function<virtual_chunk_end<int>(context &, const list & want)> make; };

std::string filled(context & c, const list & v) {
	std::string p = c.file();
	file_stream<int> s;
	s.open(p);
	for (int x : v) s.write(x);
	return p;
}
file_stream<int> & opened(context & c, const list & v) {
	std::string p = filled(c, v);
	auto & s = c.make<file_stream<int>>();
	s.open(p);
	return s;
}

std::vector<source> sources = {
	{"input_vector", [](context & c, const list & v) { return virtual_chunk_begin<int>(tp::input_vector(c.make<list>(v))); }},
	{"input", [](context & c, const list & v) { return virtual_chunk_begin<int>(tp::input(opened(c, v))); }},
	{"input from a stream read to its end, reset and closed", [](context & c, const list & v) {
		auto & s = opened(c, v);
		auto * sp = &s;
		while (s.can_read()) s.read();
		c.after.push_back([=]() { MC_CHECK(!sp->is_open(), "not-closed", "an input with STREAM_CLOSE left its stream open"); });
		return virtual_chunk_begin<int>(tp::input(s, tp::STREAM_RESET | tp::STREAM_CLOSE));
	}},
	{"named_input", [](context & c, const list & v) { return virtual_chunk_begin<int>(tp::named_input(filled(c, v))); }},
	{"push_input_iterator", [](context & c, const list & v) { auto & l = c.make<list>(v); return virtual_chunk_begin<int>(tp::push_input_iterator(l.begin(), l.end())); }},
	{"pull_source of a vector", [](context & c, const list & v) { return virtual_chunk_begin<int>(tp::pull_source(tp::pull_input_vector(c.make<list>(v)))); }},
	{"pull_source of a stream", [](context & c, const list & v) { return virtual_chunk_begin<int>(tp::pull_source(tp::pull_input(opened(c, v)))); }},
	{"pull_source of a stream read backwards", [](context & c, const list & v) { return virtual_chunk_begin<int>(tp::pull_source(tp::pull_reverse_input(opened(c, reversed(v)), tp::STREAM_RESET))); }},
	{"pull_source of a named stream", [](context & c, const list & v) { return virtual_chunk_begin<int>(tp::pull_source(tp::named_pull_input<int>(filled(c, v)))); }},
	{"serialization_input", [](context & c, const list & v) {
		std::string p = c.file();
		{ serialization_writer w; w.open(p); for (int x : v) w.serialize(x); w.close(); }
		auto & r = c.make<serialization_reader>();
		r.open(p);
		return virtual_chunk_begin<int>(tp::serialization_input(r));
	}},
};

std::vector<sink> sinks = {
	{"output_vector", [](context & c, const list & want) { auto & l = c.make<list>(); c.expect("the pipeline", l, want); return virtual_chunk_end<int>(tp::output_vector(l)); }},
	{"output", [](context & c, const list & want) {
		std::string p = c.file();
		auto & s = c.make<file_stream<int>>();
		s.open(p);
		auto * sp = &s;
		c.after.push_back([=]() { sp->close(); });
		c.expect_file("the pipeline", p, want);
		return virtual_chunk_end<int>(tp::output(s));
	}},
	{"named_output", [](context & c, const list & want) { std::string p = c.file(); c.expect_file("the pipeline", p, want); return virtual_chunk_end<int>(tp::named_output<int>(p)); }},
	{"push_output_iterator", [](context & c, const list & want) { auto & l = c.make<list>(want.size()); c.expect("the pipeline", l, want); return virtual_chunk_end<int>(tp::push_output_iterator(l.begin())); }},
	{"typed_push_output_iterator", [](context & c, const list & want) { auto & l = c.make<list>(); c.expect("the pipeline", l, want); return virtual_chunk_end<int>(tp::typed_push_output_iterator<int>(std::back_inserter(l))); }},
	{"map_sink", [](context & c, const list & want) { auto & l = c.make<list>(); list * p = &l; c.expect("the pipeline", l, want); return virtual_chunk_end<int>(tp::map_sink([p](const int & x) { p->push_back(x); })); }},
	{"serialization_output", [](context & c, const list & want) {
		std::string p = c.file();
		auto & w = c.make<serialization_writer>();
		auto * wp = &w;
		w.open(p);
		c.after.push_back([=]() {
			wp->close();
			serialization_reader r;
			r.open(p);
			list got;
			while (r.can_read()) { int x; r.unserialize(x); got.push_back(x); }
			MC_CHECK(got == want, "side-output", "the pipeline gives " << mc::show(got) << " instead of " << mc::show(want));
		});
		return virtual_chunk_end<int>(tp::serialization_output<int>(w));
	}},
	{"a pipeline pulling from a buffer into a stream", [](context & c, const list & want) {
		auto & b = c.make<tp::passive_buffer<int>>();
		std::string p = c.file();
		auto & s = c.make<file_stream<int>>();
		s.open(p);
		auto * sp = &s;
		c.make<tp::pipeline>(b.output() | tp::pull_output(s));
		c.after.push_back([=]() { sp->close(); });
		c.expect_file("the pipeline", p, want);
		return virtual_chunk_end<int>(b.input());
	}},
};

// --------------------------------------------------------------- inputs
/// Every list over {1, 2, 3} up to a length, and longer ones
list choose_input(int most, std::vector<int> longer) {
	int n = mc::choose(most + 1 + int(longer.size()));
	list v;
	if (n <= most) for (int i = 0; i < n; ++i) v.push_back(1 + mc::choose(3));
	else for (int i = 0; i < longer[n - most - 1]; ++i) v.push_back((i * 7 + i / 5) % 11);
	return v;
}

struct balance {
	size_t memory = get_memory_manager().used(), files = get_file_manager().used(), entries = mc::scratch_entries();
	int fds = io::open_fds();
};

/// Runs a pipeline, verifies everything there is to verify.
void run(context & c, tp::pipeline & p, const list & in, size_t memory) {
#ifdef C20
	recorder pi(0);
	const char * file = "file", * function = "function";
#else
	progress_indicator_null pi;
	const char * file = nullptr, * function = nullptr;
#endif
	try {
		p(in.size(), pi, memory, file, function);
	} catch (const std::exception & e) {
		mc::fail("exception", mc::strm() << "the pipeline threw " << typeid(e).name() << ": " << e.what());
	}
	mc::transition();
#ifdef C20
	MC_CHECK(pi.inits == 1 && pi.dones == 1, "calls", "the progress indicator of a pipeline is initialised " << pi.inits << " times and done " << pi.dones << " times");
	pi.check_complete();
#endif
	for (auto & f : c.after) f();
}
const size_t memories[] = {1, 20000, 400000};

void settle(const balance & b) {
	MC_CHECK(get_memory_manager().used() == b.memory, "memory", "memory use " << get_memory_manager().used() << " after the pipeline, " << b.memory << " before");
	MC_CHECK(get_file_manager().used() == b.files, "files", "file account " << get_file_manager().used() << ", was " << b.files);
	MC_CHECK(io::open_fds() == b.fds, "descriptors", "descriptors left open");
}

list applied(const stage & s, const list & v) { return s.f(v); }

/// Every chain of k stages
void chains(int k, int most, std::vector<int> longer, int mems, int src, int snk) {
	std::vector<int> which;
	for (int i = 0; i < k; ++i) which.push_back(mc::choose(int(stages.size())));
	int so = src < 0 ? mc::choose(int(sources.size())) : src;
	int si = snk < 0 ? mc::choose(int(sinks.size())) : snk;
	list in = choose_input(most, longer);
	size_t mem = memories[mc::choose(mems)];
	std::string what = sources[so].name;
	for (int i : which) what += std::string(" | ") + stages[i].name;
	what += std::string(" | ") + sinks[si].name;
	MC_TRACE(what << " on " << mc::show(in) << ", memory " << mem);
	std::vector<list> v = {in};
	for (int i : which) v.push_back(applied(stages[i], v.back()));
	balance b;
	{
		context c;
		virtual_chunk_begin<int> begin = sources[so].make(c, in);
		for (int i = 0; i < k; ++i) begin = begin | stages[which[i]].make(c, v[i]);
		virtual_chunk_end<int> end = sinks[si].make(c, v.back());
		tp::pipeline p(begin | end);
		run(c, p, in, mem);
	}
	settle(b);
	for (int i : which) mc::state(mc::mix(i, mc::hash_seq(v.back())));
	mc::outcome(mc::mix(mc::hash_seq(v.back()), mc::hash_seq(in)));
}

// ---------------------------------------------------------- pull pipelines
struct pull_source_t { const char * name; std::function<virtual_chunk_pull_begin<int>(context &, const list &)> make; std::function<list(list)> f; };
struct pull_stage { const char * name; std::function<virtual_chunk_pull<int>(context &, const list &)> make; std::function<list(list)> f; };
struct pull_end { const char * name; std::function<virtual_chunk_pull_end<int>(context &, const list &)> make; };

template <typename T> tp::pipeline & feed(context & c, const list & v, T && end) { return c.make<tp::pipeline>(tp::input_vector(c.make<list>(v)) | std::move(end)); }

std::vector<pull_source_t> pull_sources = {
	{"pull_input_vector", [](context & c, const list & v) { return virtual_chunk_pull_begin<int>(tp::pull_input_vector(c.make<list>(v))); }, same},
	{"pull_input_iterator", [](context & c, const list & v) { auto & l = c.make<list>(v); return virtual_chunk_pull_begin<int>(tp::pull_input_iterator(l.begin(), l.end())); }, same},
	{"pull_input", [](context & c, const list & v) { return virtual_chunk_pull_begin<int>(tp::pull_input(opened(c, v))); }, same},
	{"pull_reverse_input", [](context & c, const list & v) { return virtual_chunk_pull_begin<int>(tp::pull_reverse_input(opened(c, v), tp::STREAM_RESET)); }, reversed},
	{"named_pull_input", [](context & c, const list & v) { return virtual_chunk_pull_begin<int>(tp::named_pull_input<int>(filled(c, v))); }, same},
	{"zero_source", [](context &, const list &) { return virtual_chunk_pull_begin<int>(tp::zero_source<int>()); }, [](list) { return list(); }},
	{"passive_buffer", [](context & c, const list & v) { auto & s = c.make<tp::passive_buffer<int>>(); feed(c, v, s.input()); return virtual_chunk_pull_begin<int>(s.output()); }, same},
	{"passive_sorter", [](context & c, const list & v) { auto & s = c.make<tp::passive_sorter<int>>(); feed(c, v, s.input()); return virtual_chunk_pull_begin<int>(s.output()); }, sorted},
	{"passive_reverser", [](context & c, const list & v) { auto & s = c.make<tp::passive_reverser<int>>(); feed(c, v, s.input()); return virtual_chunk_pull_begin<int>(s.output()); }, reversed},
	{"internal_passive_reverser", [](context & c, const list & v) { auto & s = c.make<tp::internal_passive_reverser<int>>(); feed(c, v, s.input()); return virtual_chunk_pull_begin<int>(s.output()); }, reversed},
	{"passive_serialization_buffer", [](context & c, const list & v) { auto & s = c.make<tp::passive_serialization_buffer<int>>(); feed(c, v, s.input()); return virtual_chunk_pull_begin<int>(s.output()); }, same},
	{"passive_serialization_reverser", [](context & c, const list & v) { auto & s = c.make<tp::passive_serialization_reverser<int>>(); feed(c, v, s.input()); return virtual_chunk_pull_begin<int>(s.output()); }, reversed},
	{"serialization_passive_sorter", [](context & c, const list & v) { auto & s = c.make<tp::serialization_passive_sorter<int, std::less<int>>>(); feed(c, v, s.input()); return virtual_chunk_pull_begin<int>(s.output()); }, sorted},
};
std::vector<pull_stage> pull_stages = {
	{"pull_map", [](context &, const list &) { return virtual_chunk_pull<int>(tp::pull_map([](const int & x) { return x / 2; })); }, [](list v) { return mapped(v, [](int x) { return x / 2; }); }},
	{"pull_unique", [](context &, const list &) { return virtual_chunk_pull<int>(tp::pull_unique(std::equal_to<int>())); }, uniqued},
	{"pull_peek", [](context &, const list &) { return virtual_chunk_pull<int>(tp::pull_peek()); }, same},
	{"pull_fork", [](context & c, const list & in) { auto & side = c.make<list>(); c.expect("a pull_fork", side, in); return virtual_chunk_pull<int>(tp::pull_fork(std::move(tp::output_vector(side).factory))); }, same},
	{"virtual chunk inside", [](context &, const list &) { virtual_chunk_pull<int> v(tp::pull_map([](const int & x) { return x + 3; })); return virtual_chunk_pull<int>(tp::devirtualize(v)); }, [](list v) { return mapped(v, [](int x) { return x + 3; }); }},
};
std::vector<pull_end> pull_ends = {
	{"pull_output_iterator", [](context & c, const list & want) { auto & l = c.make<list>(want.size()); c.expect("the pipeline", l, want); return virtual_chunk_pull_end<int>(tp::pull_output_iterator(l.begin())); }},
	{"pull_output", [](context & c, const list & want) {
		std::string p = c.file();
		auto & s = c.make<file_stream<int>>();
		s.open(p);
		auto * sp = &s;
		c.after.push_back([=]() { sp->close(); });
		c.expect_file("the pipeline", p, want);
		return virtual_chunk_pull_end<int>(tp::pull_output(s));
	}},
};

void pulls(int k, int most, std::vector<int> longer) {
	int so = mc::choose(int(pull_sources.size()));
	std::vector<int> which;
	for (int i = 0; i < k; ++i) which.push_back(mc::choose(int(pull_stages.size())));
	int si = mc::choose(int(pull_ends.size()) + 1);
	list in = choose_input(most, longer);
	size_t mem = memories[mc::choose(2)];
	std::string what = pull_sources[so].name;
	for (int i : which) what += std::string(" | ") + pull_stages[i].name;
	what += std::string(" | ") + (si < int(pull_ends.size()) ? pull_ends[si].name : "pull_source | output_vector");
	MC_TRACE(what << " on " << mc::show(in) << ", memory " << mem);
	std::vector<list> v = {pull_sources[so].f(in)};
	for (int i : which) v.push_back(pull_stages[i].f(v.back()));
	balance b;
	{
		context c;
		virtual_chunk_pull_begin<int> begin = pull_sources[so].make(c, in);
		for (int i = 0; i < k; ++i) begin = begin | pull_stages[which[i]].make(c, v[i]);
		if (si < int(pull_ends.size())) {
			virtual_chunk_pull_end<int> end = pull_ends[si].make(c, v.back());
			tp::pipeline p(begin | end);
			run(c, p, in, mem);
		} else {
			if (so == 1) mc::prune(); // iterators do not tell how many items there are
			auto & l = c.make<list>();
			c.expect("the pipeline", l, v.back());
			tp::pipeline p = tp::pull_source(tp::devirtualize(begin)) | tp::output_vector(l);
			run(c, p, in, mem);
		}
	}
	settle(b);
	mc::state(mc::mix(mc::hash_seq(v.back()), so * 16 + si));
	mc::outcome(mc::mix(mc::hash_seq(v.back()), so * 16 + si));
}

// ------------------------------------------------------------- others
void range_suite() {
	int from = mc::choose(5) - 2, to = mc::choose(9) - 2, inc = 1 + mc::choose(3), how = mc::choose(3);
	MC_TRACE("range(" << from << ", " << to << ", " << inc << ")" << (how == 1 ? " sorted" : how == 2 ? " buffered" : ""));
	list want;
	for (int i = from; i < to; i += inc) want.push_back(i);
	balance b;
	{
		context c;
		auto & l = c.make<list>();
		auto & items = c.make<std::vector<stream_size_type>>();
		auto note = tp::propagater([&items](tp::node & n) { if (n.can_fetch("items")) items.push_back(n.fetch<stream_size_type>("items")); });
		c.expect("the range", l, want);
		tp::pipeline p = how == 0 ? tp::pipeline(tp::range<int>(from, to, inc) | std::move(note) | tp::output_vector(l))
			: how == 1 ? tp::pipeline(tp::range<int>(from, to, inc) | std::move(note) | tp::sort() | tp::output_vector(l))
			: tp::pipeline(tp::range<int>(from, to, inc) | std::move(note) | tp::buffer() | tp::output_vector(l));
		run(c, p, want, 20000);
		MC_CHECK(items.size() == 1 && items[0] == want.size(), "items", "a range of " << want.size() << " items announces " << mc::show(items));
	}
	settle(b);
	mc::state(mc::hash_seq(want));
	mc::outcome(mc::hash_seq(want));
}

/// Every merge of two sorted lists
void ordered_merge_suite() {
	list a = sorted(choose_input(3, {9})), b2 = sorted(choose_input(3, {9}));
	MC_TRACE("ordered_merge of " << mc::show(a) << " and " << mc::show(b2));
	list want;
	std::merge(a.begin(), a.end(), b2.begin(), b2.end(), std::back_inserter(want));
	balance b;
	{
		context c;
		auto & l = c.make<list>();
		c.expect("the merge", l, want);
		auto & va = c.make<list>(a);
		auto & vb = c.make<list>(b2);
		tp::pipeline p = tp::input_vector(va) | tp::ordered_merge(std::move((tp::pull_input_vector(vb) | tp::pull_peek()).factory)) | tp::output_vector(l);
		run(c, p, a, 20000);
	}
	settle(b);
	mc::state(mc::hash_seq(want));
	mc::outcome(mc::hash_seq(want));
}

/// Two sources joined, one split into several: any stage in each branch
void graphs() {
	int shape = mc::choose(3);
	int s1 = mc::choose(int(stages.size())), s2 = mc::choose(int(stages.size()));
	list in = choose_input(2, {17}), in2 = {5, 4, 4};
	size_t mem = memories[mc::choose(2)];
	const char * names[] = {"two sources joined, each after a stage", "split into two stages", "a stage forked into a sorted branch and zipped"};
	MC_TRACE(names[shape] << ": " << stages[s1].name << ", " << stages[s2].name << " on " << mc::show(in) << ", memory " << mem);
	balance b;
	list a = applied(stages[s1], in);
	{
		context c;
		auto & v1 = c.make<list>(in);
		switch (shape) {
		case 0: {
			auto & j = c.make<tp::join<int>>();
			auto & v2 = c.make<list>(in2);
			auto & out = c.make<list>();
			tp::pipeline p1(virtual_chunk_begin<int>(tp::input_vector(v1)) | stages[s1].make(c, in) | virtual_chunk_end<int>(j.sink()));
			tp::pipeline p2(virtual_chunk_begin<int>(tp::input_vector(v2)) | stages[s2].make(c, in2) | virtual_chunk_end<int>(j.sink()));
			tp::pipeline p3 = j.source() | tp::sort() | tp::output_vector(out);
			list both = a, z = applied(stages[s2], in2);
			both.insert(both.end(), z.begin(), z.end());
			c.expect("the join", out, sorted(both));
			run(c, p1, in, mem);
			break;
		}
		case 1: {
			auto & s = c.make<tp::split<int>>();
			auto & o1 = c.make<list>();
			auto & o2 = c.make<list>();
			tp::pipeline p1 = tp::input_vector(v1) | s.sink();
			tp::pipeline p2(virtual_chunk_begin<int>(s.source()) | stages[s1].make(c, in) | virtual_chunk_end<int>(tp::output_vector(o1)));
			tp::pipeline p3(virtual_chunk_begin<int>(s.source()) | stages[s2].make(c, in) | virtual_chunk_end<int>(tp::output_vector(o2)));
			c.expect("the first branch", o1, a);
			c.expect("the second branch", o2, applied(stages[s2], in));
			run(c, p1, in, mem);
			break;
		}
		case 2: {
			// ... | stage | fork(sorter) | reverser | zip(sorter) | ... : both sides have the same number of items
			auto & s = c.make<tp::passive_sorter<int>>();
			auto & o = c.make<list>();
			tp::pipeline p(virtual_chunk_begin<int>(tp::input_vector(v1)) | stages[s1].make(c, in) | virtual_chunk<int>(tp::fork(s.input()) | tp::reverser() | tp::zip(s.output()) | sum_pair()) | stages[s2].make(c, [&]() {
				list r = reversed(a), t = sorted(a);
				for (size_t i = 0; i < r.size(); ++i) r[i] = r[i] * 10 + t[i];
				return r;
			}()) | virtual_chunk_end<int>(tp::output_vector(o)));
			list r = reversed(a), t = sorted(a);
			for (size_t i = 0; i < r.size(); ++i) r[i] = r[i] * 10 + t[i];
			c.expect("the zip", o, applied(stages[s2], r));
			run(c, p, in, mem);
			break;
		}
		}
	}
	settle(b);
	mc::state(mc::mix(shape, mc::hash_seq(a)));
	mc::outcome(mc::mix(shape * 64 + s2, mc::hash_seq(a)));
}

/// A pipeline run for every item or group of items of another
void subpipelines(int most) {
	int st = mc::choose(int(stages.size())), rounds = mc::choose(3);
	list in = choose_input(most, {9});
	MC_TRACE("a subpipeline with " << stages[st].name << " run " << rounds << " times on " << mc::show(in));
	balance b;
	for (int r = 0; r < rounds; ++r) {
		context c;
		auto & o = c.make<list>();
		c.expect("the subpipeline", o, applied(stages[st], in));
		{
			tp::subpipeline<int> sp;
			sp = stages[st].make(c, in) | virtual_chunk_end<int>(tp::output_vector(o));
			sp.begin(100, 20000);
			for (int x : in) sp.push(x);
			sp.end();
		}
		mc::transition();
		for (auto & f : c.after) f();
	}
	settle(b);
	mc::state(mc::mix(st, rounds));
	mc::outcome(mc::mix(st, mc::hash_seq(in)));
}

std::function<void()> W(std::function<void()> f, size_t block = 64) {
	world::config c;
	c.block_size = block;
	c.memory_limit = 64 << 20;
	c.s.reduce = false;
	return [=]() { mc::clean_scratch(); world::run(c, [&]() { tempname::tpie_name(); f(); }); };
}
void add(const char * name, const std::string & what, int tiers, std::function<void()> f) { mc::add({name, what, W(f), {}, {}, tiers}); }

#ifdef C20
void add_pipelines() {
	std::string n = std::to_string(stages.size());
	add("pipelines_1", "each of " + n + " stages between every source and sink, progress at the root", 3, []() { chains(1, 1, {17, 70}, 2, -1, -1); });
	add("pipelines_2", "every chain of two stages, progress at the root", 3, []() { chains(2, 1, {17}, 2, 0, 0); });
	add("pipelines_3", "every chain of three stages, progress at the root", 2, []() { chains(3, 0, {6}, 1, 0, 0); });
	add("pipelines_pull", "every pull source, up to two pull stages, every end, progress at the root", 3, []() { pulls(mc::choose(3), 1, {17}); });
	add("pipelines_graphs", "joined, split and zipped pipelines, progress at the root", 3, graphs);
}
} // unnamed
#else
} // unnamed

int main(int argc, char ** argv) {
	std::string n = std::to_string(stages.size());
	add("chains_1", "each of " + n + " stages between every source and sink, on every list of up to 3 items and on longer ones, memory at the minimum and above", 3, []() { chains(1, 3, {16, 17, 70}, 3, -1, -1); });
	add("chains_2", "every chain of two stages, on every list of up to 2 items and longer ones", 1, []() { chains(2, 2, {17, 40}, 2, 0, 0); });
	add("chains_2_deep", "every chain of two stages, on every list of up to 3 items and longer ones", 2, []() { chains(2, 3, {7, 16, 17, 70, 200}, 3, 0, 0); });
	add("chains_3", "every chain of three stages", 1, []() { chains(3, 0, {6}, 1, 0, 0); });
	add("chains_3_deep", "every chain of three stages", 2, []() { chains(3, 1, {6, 33}, 2, 0, 0); });
	add("pulls", "every pull source, up to two pull stages, every end", 3, []() { pulls(mc::choose(3), mc::by_tier(2, 3), {17, 40}); });
	add("pulls_3", "every pull source, three pull stages, every end", 2, []() { pulls(3, 2, {17}); });
	add("range", "every small range", 3, range_suite);
	add("ordered_merge", "every pair of sorted lists of up to 3 items", 3, ordered_merge_suite);
	add("graphs", "two sources joined, one split in two, a fork zipped with itself; every pair of stages in the branches", 3, graphs);
	add("subpipelines", "each stage in a subpipeline", 3, []() { subpipelines(2); });
	return mc::main(argc, argv);
}
#endif
