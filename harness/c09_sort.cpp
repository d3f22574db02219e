// C09: external sorting returns the sorted permutation, within its limits.
#include "world.h"
#include <tpie/pipelining/merge_sorter.h>
#include <tpie/serialization_sorter.h>
#include <tpie/sort.h>
#include <tpie/stream.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/dummy_progress.h>
#include <algorithm>
#include <memory>
#include <vector>

using namespace tpie;

namespace {

struct item { uint32_t key, id; };
template <size_t N> struct fat { uint32_t key, id; char pad[N - 8]; };
inline bool operator<(const item & a, const item & b) { return a.key < b.key; }
template <size_t N> bool operator<(const fat<N> & a, const fat<N> & b) { return a.key < b.key; }
template <typename T> T make(uint32_t key, uint32_t id) {
	T t; memset(static_cast<void *>(&t), int(id & 0x7f), sizeof t); t.key = key; t.id = id; return t;
}
template <typename T> bool intact(const T & t) { T e = make<T>(t.key, t.id); return memcmp(&t, &e, sizeof t) == 0; }
struct less_key { template <typename T> bool operator()(const T & a, const T & b) const { return a.key < b.key; } };
struct greater_key { template <typename T> bool operator()(const T & a, const T & b) const { return a.key > b.key; } };

// what one execution sorts
struct list { std::vector<uint32_t> keys; };

std::vector<uint32_t> all_keys(int maxn, int nk) {
	int n = mc::choose(maxn + 1);
	std::vector<uint32_t> k;
	for (int i = 0; i < n; ++i) k.push_back(uint32_t(mc::choose(nk)));
	return k;
}

std::vector<uint32_t> pattern_keys(int n, int pat) {
	std::vector<uint32_t> k;
	uint32_t x = 7;
	for (int i = 0; i < n; ++i) {
		switch (pat) {
		case 0: k.push_back(uint32_t(n - i)); break;
		case 1: k.push_back(uint32_t(i)); break;
		case 2: k.push_back(uint32_t(i * 7 % (n | 1))); break;
		case 3: k.push_back(uint32_t(i & 1 ? i : 1000 - i)); break;
		case 4: k.push_back(5); break;
		default: x = x * 1664525u + 1013904223u; k.push_back(x >> 28); break;
		}
	}
	return k;
}

// watches the limits at every system call
struct watch {
	size_t mem0, files0, mem_peak = 0, files_peak = 0;
	io::scoped_hook h;
	watch() : mem0(get_memory_manager().used()), files0(get_file_manager().used()), h([this](const io::call &) { sample(); return io::action(); }) {}
	void sample() {
		mem_peak = std::max(mem_peak, size_t(get_memory_manager().used() - std::min(mem0, get_memory_manager().used())));
		files_peak = std::max(files_peak, size_t(get_file_manager().used() - files0));
	}
	void reset() { mem_peak = files_peak = 0; sample(); }
};

struct limits { size_t m1 = 0, m2 = 0, m3 = 0, f1 = 0, f2 = 0, f3 = 0; };

void check_output(const std::vector<uint32_t> & in, const std::vector<std::pair<uint32_t, uint32_t>> & out, bool greater, bool complete) {
	for (size_t i = 1; i < out.size(); ++i) {
		bool bad = greater ? out[i - 1].first < out[i].first : out[i].first < out[i - 1].first;
		MC_CHECK(!bad, "order", "item " << i << " of the output has key " << out[i].first << " after " << out[i - 1].first);
	}
	std::vector<char> seen(in.size());
	for (auto & o : out) {
		MC_CHECK(o.second < in.size() && in[o.second] == o.first, "foreign", "the output has an item that was not pushed");
		MC_CHECK(!seen[o.second], "duplicate", "item " << o.second << " came out twice");
		seen[o.second] = 1;
	}
	if (complete) MC_CHECK(out.size() == in.size(), "lost", in.size() - out.size() << " of " << in.size() << " items were lost");
}

// ----------------------------------------------------------- merge_sorter
template <typename T, typename S> struct conv; // item <-> outer type of the store
template <typename T> struct conv<T, default_store> { typedef T outer; static T to(T t) { return t; } static T from(T t) { return t; } };
template <typename T> struct conv<T, plain_store> { typedef T outer; static T to(T t) { return t; } static T from(T t) { return t; } };
template <typename T> struct conv<T, pointer_store> { typedef T outer; static T to(T t) { return t; } static T from(T t) { return t; } };
template <typename T> struct conv<T, explicit_tpie_pointer_store> { typedef T * outer; static T * to(T t) { return tpie_new<T>(t); } static T from(T * p) { T t = *p; tpie_delete(p); return t; } };
template <typename T> struct conv<T, explicit_tpie_unique_pointer_store> { typedef tpie::unique_ptr<T> outer; static outer to(T t) { return outer(tpie_new<T>(t)); } static T from(outer p) { return *p; } };

struct drive {
	// where the driver stops, and where it evacuates
	int evac;        // 0 none, 1 before merging, 2 before reporting, 3 both, 4: 1 through evacuate(), 5: 2 through evacuate()
	int stop;        // 0 runs through, 1 never begun, 2 after pushing, 3 after end, 4 after calc, 5 half way through pulling
	bool set_items;
};
drive pick_drive(bool interrupts) {
	drive d;
	d.stop = interrupts ? mc::choose(6) : 0;
	d.evac = d.stop == 0 || d.stop > 2 ? mc::choose(6) : 0;
	d.set_items = false;
	return d;
}

template <typename T, typename Store, typename Pred>
void drive_sorter(const std::vector<uint32_t> & in, const std::function<void(merge_sorter_base &)> & params, drive D, bool greater, const limits * L) {
	typedef conv<T, Store> C;
	typedef merge_sorter<typename C::outer, false, Pred, Store> sorter;
	size_t mem0 = get_memory_manager().used(), files0 = get_file_manager().used(), entries0 = mc::scratch_entries();
	std::vector<std::pair<uint32_t, uint32_t>> out;
	{
		std::unique_ptr<sorter> s(new sorter());
		params(*s);
		watch w;
		auto phase = [&](const char * name, size_t m, size_t f) {
			w.sample();
			if (L) {
				MC_CHECK(w.files_peak <= f, std::string("files-") + name, "phase " << name << " held " << w.files_peak << " open files, " << f << " were granted");
				MC_CHECK(m == 0 || w.mem_peak <= m + get_block_size() + 4096 /* the I/O thread compresses into a block of its own */, std::string("memory-") + name, "phase " << name << " held " << w.mem_peak << " bytes, " << m << " were granted");
			}
			w.reset();
		};
		auto body = [&]() {
			if (D.set_items) s->set_items(in.size());
			if (D.stop == 1) return;
			s->begin();
			for (size_t i = 0; i < in.size(); ++i) {
				mc::transition();
				s->push(C::to(make<T>(in[i], uint32_t(i))));
				if (L) w.sample();
			}
			if (D.stop == 2) return;
			s->end();
			MC_CHECK(s->item_count() == in.size(), "item-count", "item_count() is " << s->item_count() << ", pushed " << in.size());
			phase("1", L ? L->m1 : 0, L ? L->f1 : 0);
			if (D.evac == 1 || D.evac == 3) { MC_TRACE("evacuate before merging"); s->evacuate_before_merging(); }
			if (D.evac == 4) { MC_TRACE("evacuate"); s->evacuate(); }
			w.reset();
			if (D.stop == 3) return;
			bool free_ = s->is_calc_free();
			(void)free_;
			dummy_progress_indicator pi;
			s->calc(pi);
			mc::transition();
			phase("2", L ? L->m2 : 0, L ? L->f2 : 0);
			if (D.stop == 4 && D.evac < 2) return;
			if (D.evac == 2 || D.evac == 3) { MC_TRACE("evacuate before reporting"); s->evacuate_before_reporting(); }
			if (D.evac == 5) { MC_TRACE("evacuate"); s->evacuate(); }
			w.reset();
			if (D.stop == 4) return;
			size_t want = D.stop == 5 ? in.size() / 2 : in.size();
			while (out.size() < want || (D.stop == 0 && s->can_pull())) {
				mc::transition();
				MC_CHECK(s->can_pull(), "can-pull", "can_pull() is false after " << out.size() << " of " << in.size() << " items");
				T t = C::from(s->pull());
				MC_CHECK(intact(t), "damaged", "item " << t.id << " came out damaged");
				out.push_back({t.key, t.id});
				if (L) w.sample();
				if (out.size() > in.size()) break;
			}
			phase("3", L ? L->m3 : 0, L ? L->f3 : 0);
			if (D.stop == 0) MC_CHECK(!s->can_pull(), "can-pull-end", "can_pull() at the end");
		};
		body();
		check_output(in, out, greater, D.stop == 0);
	}
	MC_CHECK(mc::scratch_entries() == entries0, "temp-files", mc::scratch_entries() - entries0 << " temporary files are left");
	MC_CHECK(get_file_manager().used() == files0, "open-files", get_file_manager().used() - files0 << " files are left open");
	std::vector<std::pair<uint32_t, uint32_t>>().swap(out);
	MC_CHECK(get_memory_manager().used() == mem0, "leak", get_memory_manager().used() - mem0 << " bytes are left allocated");
	mc::state(mc::hash_seq(in, uint64_t(D.evac * 8 + D.stop)));
	mc::outcome(mc::hash_seq(in));
}

std::function<void(merge_sorter_base &)> set_params(size_t rl, size_t fo) {
	return [=](merge_sorter_base & s) { s.set_parameters(rl, fo); };
}

void keys_body() {
	size_t rl = size_t(1 + mc::choose(3)), fo = size_t(2 + mc::choose(2));
	MC_TRACE("run length " << rl << ", fanout " << fo);
	std::vector<uint32_t> k = all_keys(mc::by_tier(5, 7), 3);
	drive D = pick_drive(false);
	drive_sorter<item, default_store, less_key>(k, set_params(rl, fo), D, false, 0);
}

void sizes_body() {
	size_t rl = size_t(1 + mc::choose(3)), fo = size_t(2 + mc::choose(3));
	size_t depth3 = rl * fo * fo * fo;
	int n = mc::choose(int(depth3) + 3);
	int pat = mc::choose(mc::by_tier(3, 6));
	if (mc::tier() == mc::quick && pat == 2) pat = 5;
	MC_TRACE("run length " << rl << ", fanout " << fo << ", " << n << " items, pattern " << pat);
	drive D = pick_drive(false);
	D.set_items = mc::choose_bool();
	drive_sorter<item, default_store, greater_key>(pattern_keys(n, pat), set_params(rl, fo), D, true, 0);
}

template <typename Store>
void interrupt_body(size_t fo) {
	size_t rl = 2;
	int n = mc::choose(int(rl * fo * fo * 2) + 2);
	MC_TRACE(n << " items");
	drive D = pick_drive(true);
	drive_sorter<fat<304>, Store, less_key>(pattern_keys(n, 5), set_params(rl, fo), D, false, 0);
}

// parameters derived from memory and file limits
void derived_body() {
	typedef fat<8192> T;
	limits L;
	L.f1 = 3; L.f2 = size_t(5 + mc::choose(mc::by_tier(3, 4))); L.f3 = size_t(5 + mc::choose(mc::by_tier(3, 4)));
	size_t fo = L.f2 - 3;
	int perRun = 16;
	int runs = mc::choose(int(fo * fo) + 3);
	int rest = mc::choose(3);
	int n = runs * perRun + (rest == 0 ? 0 : rest == 1 ? 1 : perRun - 1);
	MC_TRACE(n << " items of 8 KiB, files " << L.f2 << " for merging, " << L.f3 << " for reporting");
	drive D = pick_drive(false);
	if (mc::tier() == mc::quick && D.evac >= 3) mc::prune();
	auto params = [&](merge_sorter_base & s) {
		s.set_available_files(L.f1, L.f2, L.f3);
		// enough for 16 items in memory, and for the whole fan-out
		sort_parameters p = sort_parameters();
		p.runLength = size_t(perRun); p.fanout = fo; p.finalFanout = std::min(L.f3 - 3, fo);
		L.m1 = s.phase_1_memory(p); L.m2 = s.phase_2_memory(p); L.m3 = s.phase_3_memory(p);
		s.set_available_memory(L.m1, L.m2, L.m3);
	};
	drive_sorter<T, plain_store, less_key>(pattern_keys(n, 5), params, D, false, &L);
}

// memory limits between the minimum and plenty
void memory_body() {
	typedef fat<8192> T;
	limits L;
	L.f1 = 3; L.f2 = L.f3 = 10;
	int a = mc::choose(6), b = mc::choose(6);
	int n = 16 * mc::choose(20) + 1;
	drive D{0, 0, false};
	MC_TRACE(n << " items of 8 KiB, fan-out memory for " << 2 + a << " and " << 2 + b);
	auto params = [&](merge_sorter_base & s) {
		s.set_available_files(L.f1, L.f2, L.f3);
		sort_parameters p = sort_parameters();
		p.runLength = 16; p.fanout = size_t(2 + a); p.finalFanout = size_t(2 + b);
		L.m1 = s.phase_1_memory(p); L.m2 = s.phase_2_memory(p) + 100; L.m3 = s.phase_3_memory(p) + 100;
		s.set_available_memory(L.m1, L.m2, L.m3);
	};
	drive_sorter<T, plain_store, less_key>(pattern_keys(n, 0), params, D, false, &L);
}

// ------------------------------------------------------------- tpie::sort
struct monotone : public progress_indicator_base {
	stream_size_type last = 0; bool finished = false;
	monotone() : progress_indicator_base(1) {}
	void refresh() override { MC_CHECK(get_current() >= last, "progress", "progress went back from " << last << " to " << get_current()); last = get_current(); }
};

template <typename T> struct file_api {
	typedef file_stream<T> stream;
	static void variants(stream & a, stream & b, int v, bool & inplace, bool & greater) {
		progress_indicator_null pi(1);
		inplace = v == 0 || v == 1 || v == 6; greater = v == 1 || v == 5;
		switch (v) {
		case 0: tpie::sort(a, pi); break;
		case 1: tpie::sort(a, greater_key(), pi); break;
		case 2: tpie::sort(a, b); break;
		case 3: { fractional_progress fp(&pi); fractional_subindicator s(fp, "x", TPIE_FSI, a.size(), "x"); fp.init(); tpie::sort(a, b, &s); fp.done(); break; }
		case 4: tpie::sort(a, b, less_key(), pi); break;
		case 5: tpie::sort(a, b, greater_key(), pi); break;
		default: tpie::sort(a, a, &pi); break;
		}
	}
};
template <typename T> struct uncompressed_api {
	typedef uncompressed_stream<T> stream;
	static void variants(stream & a, stream & b, int v, bool & inplace, bool & greater) {
		progress_indicator_null pi(1);
		inplace = v == 0 || v == 1 || v == 6; greater = v == 1 || v == 5;
		switch (v) {
		case 0: tpie::sort(a, pi); break;
		case 1: tpie::sort(a, greater_key(), pi); break;
		case 2: tpie::sort(a, b); break;
		case 3: tpie::sort(a, b, &pi); break;
		case 4: tpie::sort(a, b, less_key(), pi); break;
		case 5: tpie::sort(a, b, greater_key(), pi); break;
		default: tpie::sort(a); break;
		}
	}
};

template <typename T, template <typename> class Api>
void sort_body(const std::vector<uint32_t> & k, size_t memory) {
	size_t entries0 = mc::scratch_entries(), files0 = get_file_manager().used();
	{
		temp_file ta, tb;
		typename Api<T>::stream a, b;
		a.open(ta); b.open(tb);
		for (size_t i = 0; i < k.size(); ++i) a.write(make<T>(k[i], uint32_t(i)));
		int old = mc::choose(2);
		for (int i = 0; i < old * 3; ++i) b.write(make<T>(999, uint32_t(i)));
		if (mc::choose_bool()) a.seek(0);
		int v = mc::choose(7);
		MC_TRACE("sort " << k.size() << " items, variant " << v);
		size_t keep = get_memory_manager().limit();
		if (memory) get_memory_manager().set_limit(get_memory_manager().used() + memory);
		bool inplace, greater;
		Api<T>::variants(a, b, v, inplace, greater);
		get_memory_manager().set_limit(keep);
		mc::transition(k.size() + 1);
		typename Api<T>::stream & o = inplace ? a : b;
		MC_CHECK(o.size() == k.size(), "size", "the sorted stream has " << o.size() << " items, expected " << k.size());
		MC_CHECK(o.offset() == 0, "offset", "sort leaves its output at offset " << o.offset());
		std::vector<std::pair<uint32_t, uint32_t>> out;
		while (o.can_read()) { T t = o.read(); MC_CHECK(intact(t), "damaged", ""); out.push_back({t.key, t.id}); }
		check_output(k, out, greater, true);
		if (!inplace) {
			MC_CHECK(a.size() == k.size(), "input-size", "sorting into another stream changed the input's size");
			a.seek(0);
			for (size_t i = 0; i < k.size(); ++i) { T t = a.read(); MC_CHECK(t.key == k[i] && t.id == i && intact(t), "input", "sorting into another stream changed the input"); }
		}
		mc::state(mc::hash_seq(k, uint64_t(v)));
		mc::outcome(mc::hash_seq(k));
	}
	MC_CHECK(mc::scratch_entries() == entries0, "temp-files", mc::scratch_entries() - entries0 << " temporary files are left");
	MC_CHECK(get_file_manager().used() == files0, "open-files", "files are left open");
}

struct key_cmp { int compare(const item & a, const item & b) { return a.key < b.key ? -1 : a.key > b.key ? 1 : 0; } };

void ami_body() {
	std::vector<uint32_t> k = all_keys(mc::by_tier(4, 6), 3);
	ami::stream<item> a, b;
	for (size_t i = 0; i < k.size(); ++i) a.write_item(make<item>(k[i], uint32_t(i)));
	int v = mc::choose(8);
	key_cmp c;
	bool inplace = v < 4;
	get_memory_manager().set_limit(get_memory_manager().used() + 400000);
	ami::err e = ami::NO_ERROR;
	progress_indicator_null pi(1);
	switch (v) {
	case 0: e = ami::sort(&a); break;
	case 1: e = ami::sort(&a, &c); break;
	case 2: e = ami::ptr_sort(&a); break;
	case 3: e = ami::key_sort(&a, 1, &c); break;
	case 4: e = ami::sort(&a, &b); break;
	case 5: e = ami::sort(&a, &b, &c); break;
	case 6: e = ami::ptr_sort(&a, &b, &c, &pi); break;
	case 7: e = ami::key_sort(&a, &b, 1, &c); break;
	}
	MC_CHECK(e == ami::NO_ERROR, "ami-error", "ami::sort returned an error");
	ami::stream<item> & o = inplace ? a : b;
	o.seek(0);
	std::vector<std::pair<uint32_t, uint32_t>> out;
	item * t;
	while (o.read_item(&t) == ami::NO_ERROR) out.push_back({t->key, t->id});
	check_output(k, out, false, true);
	mc::transition(k.size() + 1);
	mc::state(mc::hash_seq(k, uint64_t(v)));
	mc::outcome(mc::hash_seq(k));
}

// ------------------------------------------------------------ sort_manager
template <bool Ptr>
void manager_body() {
	typedef fat<1024> T;
	typedef ami::Internal_Sorter_Obj<T, less_key> I;
	typedef std::conditional_t<Ptr, ami::merge_heap_ptr_op<T>, ami::merge_heap_op<T>> H;
	int extra = mc::choose(mc::by_tier(3, 6));
	int n = mc::choose(mc::by_tier(100, 260));
	int pat = mc::choose(mc::by_tier(1, 3)) * 2 + 1;
	bool same = mc::choose_bool();
	std::vector<uint32_t> k = pattern_keys(n, pat);
	size_t entries0 = mc::scratch_entries();
	{
		temp_file ta, tb;
		file_stream<T> a, b;
		a.open(ta); b.open(tb);
		for (size_t i = 0; i < k.size(); ++i) a.write(make<T>(k[i], uint32_t(i)));
		less_key l;
		I s(l); H h;
		sort_manager<T, I, H> m(&s, &h);
		size_t keep = get_memory_manager().limit();
		// exactly two-way (or three-way ...) merges
		size_t per = file_stream<T>::memory_usage(1);
		get_memory_manager().set_limit(get_memory_manager().used() + per * size_t(5 + extra) + per / 2 + 3000);
		MC_TRACE("sort " << n << " items, pattern " << pat << ", memory for " << 5 + extra << " streams" << (same ? ", in place" : ""));
		progress_indicator_null pi(1);
		if (same) m.sort(&a, &pi); else m.sort(&a, &b, &pi);
		get_memory_manager().set_limit(keep);
		file_stream<T> & o = same ? a : b;
		MC_CHECK(o.size() == k.size(), "size", "the sorted stream has " << o.size() << " items, expected " << k.size());
		o.seek(0);
		std::vector<std::pair<uint32_t, uint32_t>> out;
		while (o.can_read()) { T t = o.read(); MC_CHECK(intact(t), "damaged", ""); out.push_back({t.key, t.id}); }
		check_output(k, out, false, true);
		mc::transition(k.size());
		mc::state(mc::hash_seq(k, uint64_t(extra)));
		mc::outcome(k.size());
	}
	MC_CHECK(mc::scratch_entries() == entries0, "temp-files", mc::scratch_entries() - entries0 << " temporary files are left");
}

// ------------------------------------------------------ serialization_sorter
struct sitem { uint32_t key; uint32_t id; std::string tail; };
template <typename D> void serialize(D & d, const sitem & u) { using tpie::serialize; serialize(d, u.key); serialize(d, u.id); serialize(d, u.tail); }
template <typename S> void unserialize(S & s, sitem & u) { using tpie::unserialize; unserialize(s, u.key); unserialize(s, u.id); unserialize(s, u.tail); }
std::string tail_of(size_t id) { return std::string(id % 3, char('a' + id % 26)); }

void serialization_body(bool interrupts) {
	size_t items = size_t(1 + mc::choose(3)); // per run
	size_t f2 = size_t(3 + mc::choose(2)), f3 = size_t(3 + mc::choose(2));
	int n;
	std::vector<uint32_t> k;
	if (mc::choose_bool()) { k = all_keys(mc::by_tier(3, 5), 2); n = int(k.size()); if (f2 != f3) mc::prune(); }
	else { n = mc::choose(mc::by_tier(13, 28)); k = pattern_keys(n, 5); }
	drive D = pick_drive(interrupts);
	MC_TRACE(n << " items, " << items << " per run, files " << f2 << " and " << f3 << ", evacuate " << D.evac);
	size_t mem0 = get_memory_manager().used(), files0 = get_file_manager().used(), entries0 = mc::scratch_entries();
	stream_size_type temp0 = get_temp_file_usage();
	std::vector<std::pair<uint32_t, uint32_t>> out;
	{
		typedef serialization_sorter<sitem, less_key> sorter;
		std::unique_ptr<sorter> s(new sorter(16));
		size_t B = serialization_writer::memory_usage();
		s->set_available_files(1, f2, f3);
		s->set_available_memory(B + 2 * items * sizeof(sitem), 6 * B, 6 * B);
		if (mc::choose_bool()) s->set_available_memory(B + 2 * items * sizeof(sitem), 6 * B, B * 3 + 200); // two-way final merges
		auto body = [&]() {
			if (D.stop == 1) return;
			s->begin();
			for (size_t i = 0; i < k.size(); ++i) { mc::transition(); s->push(sitem{k[i], uint32_t(i), tail_of(i)}); }
			if (D.stop == 2) return;
			s->end();
			MC_CHECK(s->item_count() == k.size(), "item-count", "");
			if (D.evac == 1 || D.evac == 3) s->evacuate();
			if (D.stop == 3) return;
			s->is_merge_runs_free();
			s->merge_runs();
			MC_CHECK(get_file_manager().used() == files0, "open-files", "files are open between the phases");
			if (D.evac == 2 || D.evac == 3) s->evacuate();
			if (D.stop == 4) return;
			size_t want = D.stop == 5 ? k.size() / 2 : k.size();
			while (out.size() < want || (D.stop == 0 && s->can_pull())) {
				mc::transition();
				MC_CHECK(s->can_pull(), "can-pull", "can_pull() is false after " << out.size() << " of " << k.size() << " items");
				sitem t = s->pull();
				MC_CHECK(t.tail == tail_of(t.id), "damaged", "item " << t.id << " came out damaged");
				out.push_back({t.key, t.id});
				if (out.size() > k.size()) break;
			}
			if (D.stop == 0) MC_CHECK(!s->can_pull(), "can-pull-end", "can_pull() at the end");
		};
		watch w;
		body();
		size_t most = 0; (void)most;
		MC_CHECK(w.files_peak <= std::max(f2, f3), "files", w.files_peak << " files were open, " << std::max(f2, f3) << " granted");
		check_output(k, out, false, D.stop == 0);
	}
	MC_CHECK(get_file_manager().used() == files0, "open-files", "files are left open");
	MC_CHECK(get_memory_manager().used() == mem0, "leak", get_memory_manager().used() - mem0 << " bytes are left allocated");
	MC_CHECK(get_temp_file_usage() == temp0, "temp-usage", "temporary space is accounted as " << get_temp_file_usage() - temp0 << " afterwards");
	MC_CHECK(mc::scratch_entries() == entries0, "temp-files", mc::scratch_entries() - entries0 << " temporary files are left");
	mc::state(mc::hash_seq(k, uint64_t(D.evac * 8 + D.stop)));
	mc::outcome(mc::hash_seq(k));
}

std::function<void()> W(size_t block, std::function<void()> f) {
	world::config c;
	c.block_size = block;
	return [c, f]() { world::run(c, [&]() { tempname::tpie_name(); /* makes the temporary directory */ f(); }); };
}

} // namespace

int main(int argc, char ** argv) {
	using mc::by_tier;
	mc::add({"merge_keys", "merge_sorter, run lengths 1-3, fan-outs 2-3: every sequence of up to 5 (7) items from three keys, every evacuation point", W(128, keys_body)});
	mc::add({"merge_sizes", "merge_sorter, run lengths 1-3, fan-outs 2-4: every size up to run length * fan-out^3 + 2, 3 (6) patterns, every evacuation point, with and without set_items", W(128, sizes_body)});
	mc::add({"merge_derived", "run length and fan-outs derived from every combination of file limits, sizes around whole runs up to fan-out^2 + 2 runs", W(16384, derived_body)});
	mc::add({"merge_memory", "fan-outs derived from every combination of memory limits", W(16384, memory_body)});
	mc::add({"interrupt_default", "dropping the sorter at every stage, default store with items kept by pointer", W(1024, []() { interrupt_body<default_store>(2); })});
	mc::add({"interrupt_plain", "the same, plain store", W(1024, []() { interrupt_body<plain_store>(2); })});
	mc::add({"interrupt_pointer", "the same, pointers to tpie_new objects", W(1024, []() { interrupt_body<explicit_tpie_pointer_store>(2); })});
	mc::add({"interrupt_unique", "the same, unique pointers", W(1024, []() { interrupt_body<explicit_tpie_unique_pointer_store>(2); })});
	mc::add({"sort_file_stream", "tpie::sort on file streams, every overload, every sequence of up to 4 (6) items from three keys", W(128, []() { sort_body<item, file_api>(all_keys(by_tier(4, 6), 3), 400000); })});
	mc::add({"sort_uncompressed", "tpie::sort on uncompressed streams, every overload", W(128, []() { sort_body<item, uncompressed_api>(all_keys(by_tier(4, 6), 3), 400000); })});
	mc::add({"sort_external", "tpie::sort with memory for 16-item runs, sizes 0-100 (0-400)", W(16384, []() { int n = mc::choose(by_tier(100, 400)); sort_body<fat<8192>, file_api>(pattern_keys(n, mc::choose(2) * 5), 600000); })});
	mc::add({"ami_sort", "ami::sort and its relatives, every sequence of up to 4 (6) items from three keys", W(128, ami_body)});
	mc::add({"sort_manager", "sort_manager with a heap of items, memory for 2-way to 4-way (7-way) merges, every size to 100 (260)", W(1024, manager_body<false>)});
	mc::add({"sort_manager_ptr", "the same with a heap of pointers", W(1024, manager_body<true>)});
	mc::add({"serialization", "serialization_sorter, 1-3 items per run, 2-3-way merges, every evacuation point", W(1024, []() { serialization_body(false); })});
	mc::add({"serialization_interrupt", "the same, dropped at every stage", W(1024, []() { serialization_body(true); })});
	return mc::main(argc, argv);
}
