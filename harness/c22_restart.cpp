// C22: the library can be started and stopped any number of times.
//
// subsets    every sequence of cycles over the sets of subsystems
// works      every sequence of cycles over block size, processors, account limit
//            and the work done in between
// parts      the subsystems started and stopped one by one, in every order that
//            their dependencies allow
// schedules  cycles with the I/O thread and the job pool under every schedule
// refused    the system refuses to create a thread
// limits     whatever the process may open, the library's limit follows it
//
// Every sequence is done twice: the second time must not leave more behind than
// the first.
#include "heap.h"
#include <tpie/array.h>
#include <tpie/btree.h>
#include <tpie/file_stream.h>
#include <tpie/fractional_progress.h>
#include <tpie/job.h>
#include <tpie/parallel_sort.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/priority_queue.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/serialization_stream.h>
#include <tpie/sort.h>
#include <tpie/uncompressed_stream.h>
#include <algorithm>
#include <filesystem>
#include <map>
#include <sys/resource.h>

using namespace tpie;
using namespace tpie::pipelining;
namespace fs = std::filesystem;

namespace {

int process_fds() {
	int n = 0;
	std::error_code c;
	for (fs::directory_iterator i("/proc/self/fd", c), e; i != e; i.increment(c)) ++n;
	return n;
}

typedef unsigned set_t;
const set_t MEM = MEMORY_MANAGER, FIL = FILE_MANAGER, LOG = DEFAULT_LOGGING, PRO = PROGRESS, CAP = CAPTURE_FRACTIONS, JOB = JOB_MANAGER, STR = STREAMS, TMP = TEMPFILE;
const set_t all_default = MEM | LOG | PRO | JOB | STR | TMP | FIL;
bool has(set_t s, set_t b) { return (s & b) == b; }
flags<subsystem> to_flags(set_t s) { return flags<subsystem>(static_cast<subsystem>(s)); }

std::string show_set(set_t s) {
	std::string r;
	auto a = [&](set_t b, const char * n) { if (s & b) r += std::string(r.empty() ? "" : "|") + n; };
	a(MEM, "memory"); a(FIL, "files"); a(LOG, "logging"); a(PRO, "progress");
	a(CAP, "capture"); a(JOB, "jobs"); a(STR, "streams"); a(TMP, "tempfiles");
	return r.empty() ? "nothing" : r;
}

/// Records what is logged.
struct listener : log_target {
	std::string text;
	void log(log_level, const char * m, size_t n) override { text.append(m, n); }
	void begin_group(const std::string &) override {}
	void end_group() override {}
};

struct settings {
	size_t block = 1024;
	int cpus = 1;
	size_t memory = size_t(1) << 22;
	size_t files = 0; // 0: as started
};

// ----------------------------------------------------------------------- works
enum work_t { nothing, plain_stream, compressed_stream, serialized, sorting, queueing, tree_, jobs_, psort, piping, parallel_piping, progress_, logging_, tempfile_, memory_, works };
const char * work_name[] = {"nothing", "an uncompressed stream", "a compressed stream", "serialization", "sort", "priority queue", "an external B-tree", "jobs",
	"parallel sort", "a pipeline", "a parallel pipeline", "progress and fractions", "logging", "temporary files", "memory"};
set_t needs(int w) {
	const set_t f = MEM | FIL, st = f | STR;
	switch (w) {
	case plain_stream: return f | TMP;
	case tree_: return st | TMP;
	case compressed_stream: return st | TMP;
	case serialized: return f | TMP;
	case sorting: case queueing: return st | TMP | PRO;
	case jobs_: return MEM | JOB;
	case psort: return MEM | JOB | PRO;
	case piping: return st | TMP | PRO;
	case parallel_piping: return st | TMP | PRO | JOB;
	case progress_: return MEM | PRO;
	case logging_: return LOG;
	case tempfile_: return FIL | TMP;
	case memory_: return MEM;
	default: return 0;
	}
}

template <typename S>
void round_trip(S & s, size_t n) {
	for (size_t i = 0; i < n; ++i) s.write(i * 7 + 1);
	s.seek(0);
	for (size_t i = 0; i < n; ++i) { uint64_t v = s.read(); MC_CHECK(v == i * 7 + 1, "work", "item " << i << " of a stream is " << v); }
	MC_CHECK(!s.can_read(), "work", "a stream has more items than were written");
}

struct counted_job : job {
	int & n;
	std::vector<std::unique_ptr<counted_job>> kids;
	counted_job(int & n, int k) : n(n) { for (int i = 0; i < k; ++i) kids.emplace_back(new counted_job(n, 0)); }
	void operator()() override { ++n; for (auto & k : kids) k->enqueue(this); }
};

template <typename dest_t>
struct doubler_type : node {
	dest_t dest;
	typedef uint64_t item_type;
	doubler_type(dest_t d) : dest(std::move(d)) { add_push_destination(dest); }
	void push(uint64_t v) { dest.push(2 * v); }
};
typedef pipe_middle<factory<doubler_type>> doubler;

/// What is saved is what was captured, and is read back.
void fraction_file(const std::string & file) {
	save_fractions(file);
	MC_CHECK(!io::exists(file), "work", "fractions are saved although there are none to save");
	update_fractions("a", 0.25f, 10);
	update_fractions("b", 0.75f, 10);
	update_fractions("b", 0.5f, 5); // of a smaller run
	save_fractions(file);
	const std::string t = io::slurp(file);
	MC_CHECK(t.find("(\"a\", 0.25, 10)") != std::string::npos && t.find("(\"b\", 0.75, 10)") != std::string::npos, "work", "the saved fractions are '" << t << "'");
	load_fractions(file);
	fs::remove(file);
	save_fractions(file);
	MC_CHECK(!io::exists(file), "work", "fractions are saved although nothing has changed");
	save_fractions(file, true);
	MC_CHECK(io::slurp(file) == t, "work", "fractions change by being saved and loaded");
	fs::remove(file);
}

const size_t items = 300;
size_t g_pipe_items;

void do_work(int w) {
	MC_TRACE("    " << work_name[w]);
	mc::transition();
	switch (w) {
	case plain_stream: { uncompressed_stream<uint64_t> s; s.open(); round_trip(s, items); break; }
	case compressed_stream: { file_stream<uint64_t> s; s.open(open::compression_all); round_trip(s, items); break; }
	case serialized: {
		temp_file t;
		{ serialization_writer o; o.open(t); for (size_t i = 0; i < items; ++i) o.serialize(uint64_t(i)); o.close(); }
		serialization_reader r; r.open(t);
		for (size_t i = 0; i < items; ++i) { uint64_t v; r.unserialize(v); MC_CHECK(v == i, "work", "unserialized " << v << ", not " << i); }
		MC_CHECK(!r.can_read(), "work", "more is unserialized than was serialized");
		break; }
	case sorting: {
		file_stream<uint64_t> s; s.open();
		for (size_t i = 0; i < items; ++i) s.write((i * 37) % items);
		progress_indicator_null pi;
		tpie::sort(s, std::less<uint64_t>(), pi);
		s.seek(0);
		for (size_t i = 0; i < items; ++i) { uint64_t v = s.read(); MC_CHECK(v == i, "work", "item " << i << " after sorting is " << v); }
		break; }
	case queueing: {
		priority_queue<uint64_t> q(size_t(1) << 20);
		for (size_t i = 0; i < items; ++i) q.push((i * 37) % items);
		for (size_t i = 0; i < items; ++i) { MC_CHECK(!q.empty() && q.top() == i, "work", "element " << i << " of a priority queue is wrong"); q.pop(); }
		break; }
	case tree_: {
		temp_file t;
		btree<uint64_t, btree_external> b(t.path());
		for (size_t i = 0; i < 20; ++i) b.insert((i * 7) % 20);
		size_t n = 0;
		for (auto x : b) { MC_CHECK(x == n, "work", "element " << n << " of a tree is " << x); ++n; }
		MC_CHECK(n == 20, "work", "a tree has " << n << " elements");
		break; }
	case jobs_: {
		int n = 0;
		counted_job a(n, 2);
		a.enqueue(); a.join();
		MC_CHECK(n == 3, "work", n << " of 3 jobs have run");
		break; }
	case psort: {
		std::vector<uint64_t> v(40);
		for (size_t i = 0; i < v.size(); ++i) v[i] = (i * 37) % v.size();
		parallel_sort_impl<std::vector<uint64_t>::iterator, std::less<uint64_t>, false, 8> s(nullptr);
		s(v.begin(), v.end());
		MC_CHECK(std::is_sorted(v.begin(), v.end()), "work", "parallel sort does not sort");
		break; }
	case piping: {
		std::vector<uint64_t> in(60), out;
		for (size_t i = 0; i < in.size(); ++i) in[i] = (i * 37) % in.size();
		pipeline p = input_vector(in) | pipelining::sort() | buffer() | output_vector(out);
		progress_indicator_null pi;
		p(in.size(), pi, TPIE_FSI);
		MC_CHECK(out.size() == in.size() && std::is_sorted(out.begin(), out.end()), "work", "a sorting pipeline yields " << mc::show(out));
		break; }
	case parallel_piping: {
		std::vector<uint64_t> in(g_pipe_items), out;
		for (size_t i = 0; i < in.size(); ++i) in[i] = i;
		pipeline p = input_vector(in) | parallel(doubler(), maintain_order, 2, 1) | output_vector(out);
		progress_indicator_null pi;
		p(in.size(), pi, TPIE_FSI);
		MC_CHECK(out.size() == in.size(), "work", "a parallel pipeline yields " << mc::show(out));
		for (size_t i = 0; i < out.size(); ++i) MC_CHECK(out[i] == 2 * i, "work", "a parallel pipeline yields " << mc::show(out));
		break; }
	case progress_: {
		progress_indicator_null pi;
		{
			fractional_progress f(&pi);
			fractional_subindicator x(f, "x", TPIE_FSI, 100, "x"), y(f, "y", TPIE_FSI, 100, "y");
			f.init();
			x.init(2); x.step(); x.step(); x.done();
			y.init(1); y.step(); y.done();
			f.done();
		}
		MC_CHECK(pi.get_current() == pi.get_range(), "work", "progress stops at " << pi.get_current() << " of " << pi.get_range());
		const std::string file = world::path("fractions");
		fraction_file(file);
		break; }
	case logging_: {
		listener l;
		add_log_target(&l);
		log_info() << "one line" << std::endl;
		remove_log_target(&l);
		log_info() << "another line" << std::endl;
		MC_CHECK(l.text.find("one line") != std::string::npos && l.text.find("another") == std::string::npos, "work", "a log target has received '" << l.text << "'");
		const std::string t = io::slurp(log_name());
		MC_CHECK(t.find("one line") != std::string::npos && t.find("another line") != std::string::npos, "work", "the log file holds '" << t << "'");
		break; }
	case tempfile_: {
		const std::string n = tempname::tpie_name("x");
		MC_CHECK(!fs::exists(n) && fs::is_directory(fs::path(n).parent_path()), "work", "a temporary name has no directory");
		{ temp_file t; t.update_recorded_size(5); io::spit(t.path(), "12345"); MC_CHECK(get_temp_file_usage() == 5, "work", "temporary files use " << get_temp_file_usage()); }
		io::spit(n, "left to shutting down");
		MC_CHECK(get_temp_file_usage() == 0, "work", "no temporary files use " << get_temp_file_usage());
		break; }
	case memory_: {
		memory_manager & m = get_memory_manager();
		const size_t u = m.used();
		{
			tpie::array<uint64_t> a(100, 3);
			MC_CHECK(m.used() >= u + 800 && a[99] == 3, "work", "an array uses " << m.used() - u << " bytes");
			m.set_enforcement(memory_manager::ENFORCE_THROW);
			bool refused = false;
			try { tpie::array<uint64_t> b(size_t(1) << 24); } catch (const out_of_memory_error &) { refused = true; }
			MC_CHECK(refused, "work", "the memory limit is not enforced");
		}
		MC_CHECK(m.used() == u, "work", m.used() - u << " bytes are left over");
		break; }
	}
}

// ---------------------------------------------------------------------- cycles
/// What is left behind.
struct world_state {
	int fds;
	unsigned threads;
	long heap;
};
world_state look() { return {process_fds(), sched::alive(), heap::live}; }
int g_own_files;

int g_round;                      // 1: all that is made once has been made
std::map<std::vector<size_t>, size_t> g_fresh;  // the account after starting

void started(set_t s, const settings & c) {
	if (has(s, MEM)) {
		const size_t own = get_memory_manager().used();
		auto i = g_fresh.emplace(std::vector<size_t>{s, c.block, size_t(c.cpus)}, own).first;
		MC_CHECK(i->second == own, "fresh", own << " bytes are in use after starting " << show_set(s) << ", the first time it was " << i->second);
	}
	if (has(s, FIL)) {
		MC_CHECK(get_file_manager().used() == 0, "fresh", get_file_manager().used() << " files are in use after starting");
	}
	MC_CHECK(get_temp_file_usage() == 0, "fresh", "temporary files use " << get_temp_file_usage() << " bytes after starting");
}

bool g_dir; // a temporary directory has been left to a later stop

void stopped(set_t s, const world_state & before) {
	world_state a = look();
	MC_CHECK(a.threads == before.threads, "threads", a.threads << " threads are alive after stopping, before starting " << before.threads);
	MC_CHECK(a.fds == before.fds, "descriptors", a.fds << " descriptors are open after stopping, before starting " << before.fds);
	if (has(s, TMP)) g_dir = false;
	if (!g_dir) MC_CHECK(mc::scratch_entries() == size_t(g_own_files), "files", mc::scratch_entries() - g_own_files << " files and directories are left after stopping");
	MC_CHECK(get_temp_file_usage() == 0, "temporary-space", get_temp_file_usage() << " bytes of temporary files are accounted for after stopping");
}

void configure(const settings & c, set_t s) {
	if (has(s, MEM)) get_memory_manager().set_limit(c.memory);
	if (has(s, FIL) && c.files) {
		get_file_manager().set_limit(c.files);
		get_file_manager().set_enforcement(file_manager::ENFORCE_THROW);
	}
}

/// One cycle
void cycle(set_t s, const settings & c, const std::vector<int> & work) {
	MC_TRACE("  start " << show_set(s) << ", blocks of " << c.block << ", " << c.cpus << " processors");
	const bool dir = g_dir;
	world_state before = look();
	sched::set_cpus(c.cpus);
	set_block_size(c.block);
	tpie_init(to_flags(s));
	if (has(s, LOG)) g_dir = true;
	started(s, c);
	const unsigned threads = (has(s, JOB) ? default_worker_count() : 0) + (has(s, STR) ? 1 : 0);
	MC_CHECK(sched::alive() == before.threads + threads, "threads", sched::alive() - before.threads << " threads are alive after starting, not " << threads);
	configure(c, s);
	for (int w : work) {
		if (!has(s, needs(w))) continue;
		do_work(w);
		if (w == tempfile_) g_dir = true;
	}
	tpie_finish(to_flags(s));
	stopped(s, before);
	if (g_round && g_dir == dir) MC_CHECK(heap::live <= before.heap, "heap", heap::live - before.heap << " heap blocks are left behind by starting and stopping");
	mc::state(mc::mix(s, mc::hash_seq(work, c.block * 10 + c.cpus)));
}

/// Runs the body in the scheduler without starting the library.
void scheduled(const std::function<void()> & body, int preemptions = 0) {
	sched::config sc;
	sc.preemptions = preemptions;
#ifdef MC_RACES
	sc.races = sc.atomics = true;
#endif
	sched::run(sc, [&]() {
		try {
			body();
		} catch (const mc::violation_t &) {
			_exit(77);
		}
	});
}

void bare(const std::function<void()> & body, int preemptions = 0) {
	mc::clean_scratch();
	g_pipe_items = 6;
	g_own_files = 0;
	g_dir = false;
	g_round = 0;
	g_fresh.clear();
	if (preemptions < 0) body(); else scheduled(body, preemptions);
	tpie_finish(to_flags(TMP));
}

/// Does the same twice; the heap must not have grown the second time.
void twice(const std::function<void()> & f) {
	long h[3];
	for (int i = 0; i < 3; ++i) {
		h[i] = heap::live;
		if (i == 2) break;
		MC_TRACE(" round " << i);
		g_round = i;
		f();
	}
	MC_CHECK(h[2] <= h[1], "heap", h[2] - h[1] << " heap blocks are left behind by starting and stopping");
}

std::vector<set_t> all_sets() {
	std::vector<set_t> r;
	const set_t with[] = {FIL, LOG, PRO, CAP, JOB, STR, TMP};
	for (unsigned m = 0; m < 128; ++m) {
		set_t s = MEM;
		for (int i = 0; i < 7; ++i) if (m >> i & 1) s |= with[i];
		r.push_back(s);
	}
	for (unsigned m = 0; m < 8; ++m) r.push_back((m & 1 ? FIL : 0) | (m & 2 ? LOG : 0) | (m & 4 ? TMP : 0));
	return r;
}

void subsets(int cycles) {
	bare([=]() {
		static const std::vector<set_t> sets = all_sets();
		std::vector<set_t> s;
		for (int i = 0; i < cycles; ++i) s.push_back(sets[mc::choose(int(sets.size()))]);
		std::vector<int> every;
		for (int w = 1; w < works; ++w) if (w != sorting && w != queueing && w != piping && w != parallel_piping && w != psort) every.push_back(w);
		mc::stop_branching();
		twice([&]() { for (set_t x : s) scheduled([&]() { cycle(x, settings(), every); }); });
	}, -1);
}

void works_body(int cycles) {
	bare([=]() {
		struct one { set_t s; settings c; int w; };
		std::vector<one> v(cycles);
		for (one & o : v) {
			o.s = all_default;
			const size_t blocks[] = {1024, 256, 4096};
			o.w = mc::choose(works);
			o.c.block = blocks[mc::choose(3)];
			const int e = mc::choose(4);
			if (e == 1) o.c.cpus = 3;
			if (e == 2) o.s |= CAP;
			if (e == 3) o.c.files = 20;
		}
		mc::stop_branching();
		twice([&]() { for (one & o : v) scheduled([&]() { cycle(o.s, o.c, {o.w}); }); });
	}, -1);
}

// ----------------------------------------------------------------------- parts
const set_t part[] = {MEM, FIL, LOG, PRO, JOB, STR, TMP};
const set_t users = PRO | JOB | STR; // of the memory manager

/// Started one by one in every order, and stopped in another.
void parts_body(bool free_stop) {
	bare([=]() {
		std::vector<set_t> up, down;
		std::vector<set_t> left(part, part + 7);
		set_t on = 0;
		auto pick = [&](const std::function<bool(set_t)> & may) {
			std::vector<size_t> can;
			for (size_t i = 0; i < left.size(); ++i) if (may(left[i])) can.push_back(i);
			size_t i = can[mc::choose(int(can.size()))];
			set_t p = left[i];
			left.erase(left.begin() + i);
			return p;
		};
		if (free_stop) up = left;
		else while (!left.empty()) {
			set_t p = pick([&](set_t x) { return (!(x & users) || has(on, MEM)) && (x != LOG || has(on, TMP)); });
			up.push_back(p);
			on |= p;
		}
		on = all_default;
		left.assign(part, part + 7);
		if (!free_stop) down.assign(up.rbegin(), up.rend());
		else while (!left.empty()) {
			set_t p = pick([&](set_t x) { return x == MEM ? !(on & users) : x == TMP ? !(on & LOG) : true; });
			down.push_back(p);
			on &= ~p;
		}
		// what runs when all is up, and what may run with the part that has been started
		mc::stop_branching();
		twice([&]() {
			world_state before = look();
			set_block_size(1024);
			set_t s = 0;
			for (set_t p : up) {
				MC_TRACE("  start " << show_set(p));
				tpie_init(to_flags(p));
				s |= p;
				if (p == LOG) g_dir = true;
				configure(settings(), p);
				for (int w = 1; w < works; ++w) if (has(s, needs(w)) && (needs(w) & p)) { do_work(w); if (w == tempfile_) g_dir = true; }
			}
			for (set_t p : down) {
				MC_TRACE("  stop " << show_set(p));
				tpie_finish(to_flags(p));
				s &= ~p;
				// the temporary directory goes with its subsystem, but logging may go later
				for (int w = 1; w < works; ++w) if (has(s, needs(w)) && w != parallel_piping && w != piping) do_work(w);
			}
			stopped(down.back() == TMP ? set_t(TMP) : 0u, before);
			if (has(all_default, TMP)) g_dir = true;
		});
	});
}

// ------------------------------------------------------------------- schedules
void schedules_body(int work, int preemptions, int cpus) {
	bare([=]() {
		settings c;
		c.cpus = cpus;
		g_pipe_items = 1;
		for (int i = 0; i < 2; ++i) cycle(all_default & ~set_t(LOG), c, {work});
	}, preemptions);
}

/// Other threads are started with the library running and end before it stops.
void refused_body(int cpus) {
	bare([=]() {
		{
			world_state before = look();
			sched::set_cpus(cpus);
			set_block_size(1024);
			const set_t rest = MEM | FIL | PRO | TMP;
			tpie_init(to_flags(rest));
			configure(settings(), rest);
			const set_t order[] = {STR, JOB};
			set_t s = rest;
			for (set_t p : order) for (int tries = 0;; ++tries) {
				const unsigned alive = sched::alive();
				const size_t used = get_memory_manager().used();
				sched::set_create_faults(tries ? 0 : 1);
				bool refused = false;
				try { tpie_init(to_flags(p)); } catch (const std::system_error &) { refused = true; }
				sched::set_create_faults(0);
				if (!refused) { s |= p; break; }
				MC_TRACE("  " << show_set(p) << " cannot start a thread");
				MC_CHECK(sched::alive() == alive, "refused-threads", sched::alive() - alive << " threads are left by a start that was refused");
				MC_CHECK(get_memory_manager().used() == used, "refused-memory", get_memory_manager().used() - used << " bytes are left by a start that was refused");
				if (mc::choose_bool()) break; // give up
			}
			if (has(s, JOB) && mc::choose_bool()) {
				const unsigned others = has(s, STR) ? 1 : 0;
				const size_t want = default_worker_count() == 2 ? 3 : 2;
				sched::set_create_faults(1);
				bool refused = false;
				try { set_worker_count(want); } catch (const std::system_error &) { refused = true; MC_TRACE("  the number of workers cannot be changed"); }
				sched::set_create_faults(0);
				int n = 0;
				counted_job j(n, 0);
				if (refused) { // and jobs with it
					bool no = false;
					try { j.enqueue(); } catch (const job_manager_exception &) { no = true; }
					MC_CHECK(no, "refused-jobs", "a job is taken although no worker is there");
					if (mc::choose_bool()) {
						MC_TRACE("  set again");
						set_worker_count(want);
						refused = false;
						j.enqueue(); j.join();
						MC_CHECK(n == 1, "work", "a job that was refused at first runs " << n << " times");
					}
				}
				if (!refused) { MC_CHECK(sched::alive() == before.threads + others + want, "workers", "there are " << sched::alive() - before.threads - others << " workers, not " << want); do_work(jobs_); }
			}
			if (has(s, STR)) { do_work(compressed_stream); }
			tpie_finish(to_flags(s));
			stopped(s, before);
		}
	});
}

/// The number of files the process may open.
void limits_body() {
	bare([]() {
		const rlim_t l[] = {60, 43, 42, 41, 30, 64, 256, 1024, RLIM_INFINITY};
		rlimit old;
		getrlimit(RLIMIT_NOFILE, &old);
		rlimit now = old;
		now.rlim_cur = std::min(l[mc::choose(9)], old.rlim_max);
		const bool enforce = mc::choose_bool();
		mc::stop_branching();
		MC_TRACE("the process may open " << now.rlim_cur << " files");
		setrlimit(RLIMIT_NOFILE, &now);
		tpie_init(to_flags(all_default));
		get_memory_manager().set_limit(size_t(1) << 26);
		const size_t lim = get_file_manager().limit();
		setrlimit(RLIMIT_NOFILE, &old);
		MC_CHECK(lim > 0 && lim <= now.rlim_cur, "limit", "the limit on open files is " << lim << " in a process that may open " << now.rlim_cur);
		if (enforce) get_file_manager().set_enforcement(file_manager::ENFORCE_THROW);
		try { do_work(sorting); } catch (const std::exception & e) { MC_TRACE(e.what()); }
		tpie_finish(to_flags(all_default));
	});
}

} // namespace

int main(int argc, char ** argv) {
	const int Q = 1, T = 2, QT = 3;
#ifndef MC_RACES
	mc::add({"subsets", "every sequence of two cycles over 136 sets of subsystems, with all the work that a set allows", []() { subsets(2); }, {}, {}, QT});
	mc::add({"works", "every sequence of two cycles over 15 kinds of work, 3 block sizes and 4 settings", []() { works_body(2); }, {}, {}, QT});
	mc::add({"works_deep", "every sequence of three cycles over 15 kinds of work, 3 block sizes and 4 settings", []() { works_body(3); }, {}, {}, T});
	mc::add({"parts_up", "the subsystems started one by one in every order, stopped in reverse", []() { parts_body(false); }, {}, {}, QT});
	mc::add({"parts_down", "the subsystems stopped one by one in every order", []() { parts_body(true); }, {}, {}, QT});
	mc::add({"limits", "every limit on open files that the process may have", limits_body, {}, {}, QT});
	mc::add({"refused_1", "each creation of a thread refused, one processor", []() { refused_body(1); }, {}, {}, QT});
	mc::add({"refused_3", "each creation of a thread refused, three processors", []() { refused_body(3); }, {}, {}, QT});
#endif
	for (int w : {int(nothing), int(compressed_stream), int(jobs_), int(psort), int(parallel_piping)}) {
		const int n = w == parallel_piping ? 0 : 2;
		auto words = [&](int k, const char * c) { return std::string(mc::strm() << "two cycles with " << work_name[w] << " under every schedule with " << k << " preemptions, " << c); };
		mc::add({mc::strm() << "schedules_" << w, words(n, "one processor"), [=]() { schedules_body(w, n, 1); }, {}, {}, QT});
		mc::add({mc::strm() << "schedules_deep_" << w, words(n + 1, "two processors"), [=]() { schedules_body(w, n + 1, 2); }, {}, {}, T});
	}
	(void)Q;
	return mc::main(argc, argv);
}
