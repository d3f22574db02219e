// C20: progress reporting is monotone and complete
#define C20
#include "c15_pipelines.cpp" // pipelines, run with a recording indicator
#include <tpie/fractional_progress.h>
#include <tpie/progress_indicator_subindicator.h>
#include <tpie/progress_indicator_arrow.h>
#include <tpie/progress_indicator_terminal.h>
#include <tpie/sort.h>
#include <tpie/parallel_sort.h>
#include <limits>
#include <sstream>

namespace {

typedef stream_size_type num;

/// Parts open groups in the log and have to close them
struct group_counter : public log_target {
	group_counter() { add_log_target(this); }
	~group_counter() { remove_log_target(this); }
	void log(log_level, const char *, size_t) override {}
	void begin_group(const std::string &) override { ++open; }
	void end_group() override { --open; MC_CHECK(open >= 0, "groups", "a log group is closed that was not opened"); }
	int open = 0;
};

/// Time passes: the next step may be shown or not
void tick() { if (mc::choose_bool()) mcclock::advance(3000000000ull); }

void done(recorder & root, progress_indicator_base & pi) { (void)root; pi.done(); mc::transition(); }

// ------------------------------------------------------------------ nesting
void job(recorder & root, progress_indicator_base & pi, int depth, int budget) {
	int kind = depth > 0 ? mc::choose(3) : 0;
	if (kind == 0) { // steps
		const num ranges[] = {0, 1, 2, 5};
		num r = ranges[mc::choose(4)];
		pi.init(r);
		mc::transition();
		int steps = mc::choose(budget + 1);
		for (int i = 0; i < steps; ++i) {
			const num sizes[] = {1, 2, 7, 0};
			tick();
			pi.step(sizes[mc::choose(mc::by_tier(3, 4))]);
			mc::transition();
			mc::state(mc::mix(mc::mix(pi.get_current(), pi.get_range()), mc::mix(root.get_current(), depth)));
		}
	} else { // one or two parts
		num o1 = mc::choose(3), o2 = kind == 1 ? 0 : mc::choose(3);
		pi.init(o1 + o2);
		progress_indicator_subindicator a(&pi, o1, "a"), b;
		job(root, a, depth - 1, budget);
		if (kind == 2) {
			b.setup(&pi, o2, depth == 1 ? nullptr : "b");
			job(root, b, depth > 1 ? 0 : depth - 1, budget);
		}
	}
	done(root, pi);
}

void nest(int depth, int budget) {
	const num ranges[] = {7, 0, 1, 2};
	num r = ranges[depth > 1 ? 0 : mc::choose(4)], first = r;
	bool two = depth > 1 ? false : mc::choose_bool();
	if (two) first = r ? mc::choose(int(r) + 1) : 0;
	recorder root(r, true);
	root.init(r);
	{
		progress_indicator_subindicator a(&root, first, "first");
		job(root, a, depth, budget);
	}
	if (two) {
		progress_indicator_subindicator b(&root, r - first, "second");
		b.init(2);
		tick();
		b.step();
		b.done();
	}
	root.check_complete();
	mc::outcome(mc::mix(root.get_range(), root.refreshes));
}

/// The parts of one job make progress in any order
void interleave(int depth) {
	const num outer[] = {0, 1, 3, 10}, inner[] = {0, 1, 3, 20};
	num o[3], left[3];
	int k = 2 + (depth > 5 ? mc::choose(2) : 0);
	num sum = 0;
	for (int i = 0; i < k; ++i) sum += o[i] = outer[mc::choose(4)];
	recorder root(sum, true);
	root.init(sum);
	std::vector<progress_indicator_subindicator> part(k);
	for (int i = 0; i < k; ++i) {
		part[i].setup(&root, o[i]);
		part[i].init(inner[mc::choose(4)]);
		left[i] = 1;
	}
	for (int d = 0; d < depth; ++d) {
		int i = mc::choose(k + 1);
		if (i == k) break;
		if (!left[i]) mc::prune();
		switch (mc::choose(4)) {
		case 0: part[i].step(); break;
		case 1: part[i].step(3); break;
		case 2: mcclock::advance(3000000000ull); part[i].step(); break;
		case 3: part[i].done(); left[i] = 0; break;
		}
		mc::transition();
		mc::state(mc::mix(root.get_current(), mc::mix(part[0].get_current(), part[1].get_current())));
	}
	for (int i = 0; i < k; ++i) if (left[i]) part[i].done();
	root.check_complete();
	mc::outcome(root.refreshes);
}

/// Ranges far apart, up to the largest
void large(int steps) {
	const num L[] = {1, 2, 3, 1000, 23000, 1ull << 31, (1ull << 32) + 1, 10000000000ull, (1ull << 53) + 1, 1ull << 63, ~0ull - 1, ~0ull};
	num r = L[mc::choose(12)], mid = mc::choose_bool() ? L[mc::choose(12)] : 0, n = L[mc::choose(12)];
	MC_TRACE("range " << r << (mid ? ", " + std::to_string(mid) : "") << ", " << n);
	recorder root(r, true);
	root.init(r);
	{
		progress_indicator_subindicator a(&root, r), b;
		progress_indicator_subindicator * leaf = &a;
		if (mid) {
			a.init(mid);
			b.setup(&a, mid);
			leaf = &b;
		}
		leaf->init(n);
		num at = 0;
		for (int i = 0; i < steps; ++i) {
			const num s[] = {1, n / 3, n / 2, n - 1, n, n - at, 0};
			int w = mc::choose(7);
			if (w == 6) break;
			if (s[w] > n - at) mc::prune();
			mcclock::advance(3000000000ull);
			leaf->step(s[w]);
			at += s[w];
			mc::transition();
			mc::state(mc::mix(mc::mix(root.get_current(), r), mc::mix(at, n)));
			// What is shown is what has been done, up to rounding at each level
			long double want = (long double)at / n * r, got = root.get_current(), slack = 1 + r * 1e-9L + (mid ? (long double)r / mid : 0);
			MC_CHECK(got <= want + slack, "wrong", "after " << at << " of " << n << " steps the root shows " << root.get_current() << " of " << r);
		}
		leaf->done();
		if (mid) a.done();
	}
	root.check_complete();
	mc::outcome(mc::mix(r, n));
}

/// Subindicators are moved around while in use
void moves(int depth) {
	const num inner[] = {0, 3, 10};
	num o = 1 + mc::choose(2) * 9;
	recorder root(o, true);
	root.init(o);
	progress_indicator_subindicator first(&root, o, "moved");
	std::vector<std::unique_ptr<progress_indicator_subindicator>> all;
	progress_indicator_subindicator * now = &first;
	num n = inner[mc::choose(3)];
	bool started = false;
	for (int d = 0; d < depth; ++d) {
		int w = mc::choose(6);
		if (w == 0) break;
		switch (w) {
		case 1: MC_TRACE("move construct"); all.emplace_back(new progress_indicator_subindicator(std::move(*now))); now = all.back().get(); break;
		case 2: MC_TRACE("move assign"); all.emplace_back(new progress_indicator_subindicator()); *all.back() = std::move(*now); now = all.back().get(); break;
		case 3: MC_TRACE("init " << n); if (started) mc::prune(); started = true; now->init(n); break;
		case 4: MC_TRACE("step"); if (!started) mc::prune(); now->step(); break;
		case 5: MC_TRACE("step later"); if (!started) mc::prune(); mcclock::advance(3000000000ull); now->step(); break;
		}
		mc::transition();
		mc::state(mc::mix(root.get_current(), mc::mix(now->get_current(), n)));
	}
	if (!started) now->init(n);
	now->done();
	root.check_complete();
	mc::outcome(root.refreshes);
}

/// Fractions of the work known from earlier
void fractional(int most) {
	const float fractions[] = {-1 /* unknown */, 0, 1e-7f, 0.25f, 1000};
	bool nested = mc::choose_bool();
	num r = nested ? 10 : 23000;
	recorder root(r);
	if (nested) root.init(r);
	progress_indicator_subindicator sub(&root, r);
	{
		fractional_progress fp(nested ? static_cast<progress_indicator_base *>(&sub) : &root);
		int k = 1 + mc::choose(most);
		std::vector<std::unique_ptr<fractional_subindicator>> parts;
		bool enabled[3];
		for (int i = 0; i < k; ++i) {
			std::string id = "part" + std::to_string(i);
			int f = mc::choose(5);
			if (f) update_fractions(("file:function:" + id).c_str(), fractions[f], 1);
			enabled[i] = mc::choose(3) != 0;
			parts.emplace_back(new fractional_subindicator(fp, id.c_str(), "file", "function", 10, mc::choose_bool() ? "crumb" : nullptr, IMPORTANCE_MAJOR, enabled[i]));
			mc::transition();
		}
		fp.init();
		for (int i = 0; i < k; ++i) {
			if (!enabled[i] && mc::choose_bool()) continue; // a disabled part need not be run
			num n = mc::choose(3) * 5;
			parts[i]->init(n);
			for (num j = 0; j < n; j += 5) {
				mcclock::advance(3000000000ull);
				parts[i]->step(5);
				mc::transition();
				mc::state(mc::mix(root.get_current(), mc::mix(i, j)));
			}
			parts[i]->done();
			mc::transition();
		}
		num before = root.get_current();
		fp.done();
		mc::outcome(mc::mix(before, root.refreshes));
	}
	root.check_complete();
}

/// What the arrow shows
void arrow(int steps) {
	const char titles[] = "Sorting a file with a title that goes on and on, and on, for a hundred and twenty characters, which no terminal will show.";
	const size_t lengths[] = {0, 7, 97, 98, 99, 120};
	std::string title(titles, lengths[mc::choose(6)]);
	const num ranges[] = {0, 1, 7, 250, 10000000000ull};
	num r = ranges[mc::choose(5)];
	const int widths[] = {-1, 0, 2, 12, 13, 30, 60, 1000};
	int w = widths[mc::choose(8)];
	int kind = mc::choose(2);
	MC_TRACE((kind ? "terminal" : "arrow") << ", title of " << title.size() << " characters, width " << w << ", range " << r);
	std::ostringstream out;
	std::unique_ptr<progress_indicator_base> pi;
	if (kind) {
		if (w != -1) mc::prune();
		pi.reset(new progress_indicator_terminal(title.c_str(), r, out));
	} else {
		pi.reset(new progress_indicator_arrow(title.c_str(), r, out));
		if (w != -1) static_cast<progress_indicator_arrow &>(*pi).set_indicator_length(w);
	}
	try {
		pi->init(r);
		num at = 0;
		for (int i = 0; i < steps && at < r; ++i) {
			const num s[] = {1, r / 2, r - at};
			num x = std::min(s[mc::choose(3)], r - at);
			mcclock::advance(3000000000ull);
			pi->step(x);
			at += x;
			mc::transition();
			mc::state(mc::mix(at, r));
		}
		pi->done();
	} catch (const std::exception & e) {
		mc::fail("arrow", mc::strm() << "showing the progress throws " << e.what());
	}
	// the percentages shown
	std::string s = out.str();
	long last = -1;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] != '%') continue;
		size_t j = i;
		while (j > 0 && isdigit(s[j - 1])) --j;
		long p = std::stol(s.substr(j, i - j));
		MC_CHECK(p >= last, "decreases", "the percentage shown goes from " << last << " to " << p);
		MC_CHECK(p <= 100, "exceeds", "the percentage shown is " << p);
		last = p;
	}
	MC_CHECK(last == 100, "incomplete", "the last percentage shown is " << last);
	mc::outcome(mc::mix(mc::mix(r, w), title.size()));
}

// ------------------------------------------------------ the library's users
template <typename Stream>
void sort_stream(recorder & root, const list & v, bool place) {
	Stream in, out;
	in.open();
	out.open();
	for (int x : v) in.write(x);
	Stream & dest = place ? in : out;
	std::less<int> less;
	if (place) tpie::sort(in, less, root); else tpie::sort(in, out, less, root);
	list got;
	dest.seek(0);
	while (dest.can_read()) got.push_back(dest.read());
	MC_CHECK(got == sorted(v), "result", "sorted to " << mc::show(got));
}
void sorting() {
	list v = choose_input(2, {17, 100, 400});
	int how = mc::choose(4);
	size_t limit = mc::choose_bool() ? 2 << 20 : 0;
	MC_TRACE("sort " << v.size() << " items, " << (how & 1 ? "in place" : "to another stream") << (how & 2 ? ", uncompressed" : ""));
	get_memory_manager().set_limit(get_memory_manager().used() + (limit ? limit : 300000));
	recorder root(0);
	if (how & 2) sort_stream<uncompressed_stream<int>>(root, v, how & 1); else sort_stream<file_stream<int>>(root, v, how & 1);
	mc::transition();
	MC_CHECK(root.inits == 1 && root.dones == 1, "calls", "sort initialises the indicator " << root.inits << " times, done " << root.dones << " times");
	root.check_complete();
	mc::state(mc::mix(how, v.size()));
	mc::outcome(mc::mix(root.refreshes, how));
}

template <typename It>
void psort(It a, It b, recorder & root) {
	parallel_sort_impl<It, std::less<int>, true, 2> s(&root);
	s(a, b);
}
void parallel_sorting(int most) {
	int n = mc::choose(most + 1);
	list v;
	for (int i = 0; i < n; ++i) v.push_back((i * 5 + 3) % 7);
	recorder root(0);
	psort(v.begin(), v.end(), root);
	mc::transition();
	MC_CHECK(std::is_sorted(v.begin(), v.end()), "result", "not sorted: " << mc::show(v));
	MC_CHECK(root.inits == 1 && root.dones == 1, "calls", "the indicator is initialised " << root.inits << " times, done " << root.dones << " times");
	root.check_complete();
	mc::state(n);
	mc::outcome(mc::mix(root.refreshes, n));
}

// ---------------------------------------------- pipelines of chatty stages
struct chatter { num steps; int times; num size; bool proxy; num proxyRange; };
void chat(tp::node & n, const chatter & c) {
	if (c.proxy) {
		progress_indicator_base * pi = n.proxy_progress_indicator();
		pi->init(c.proxyRange);
		for (int i = 0; i < c.times; ++i) { mcclock::advance(3000000000ull); pi->step(c.size); }
		pi->done();
	} else {
		for (int i = 0; i < c.times; ++i) { mcclock::advance(3000000000ull); n.step(c.size); }
	}
	mc::transition();
}
template <typename dest_t>
struct chatty_source : public tp::node {
	typedef int item_type;
	chatty_source(dest_t dest, chatter c) : c(c), dest(std::move(dest)) { add_push_destination(this->dest); }
	void propagate() override { set_steps(c.steps); }
	void go() override { chat(*this, c); dest.push(1); }
	chatter c;
	dest_t dest;
};
template <typename dest_t>
struct chatty_stage : public tp::node {
	typedef int item_type;
	chatty_stage(dest_t dest, chatter c) : c(c), dest(std::move(dest)) { add_push_destination(this->dest); }
	void propagate() override { set_steps(c.steps); }
	void push(int x) { chat(*this, c); dest.push(x); }
	chatter c;
	dest_t dest;
};
chatter choose_chatter(bool deep) {
	const num steps[] = {0, 1, 3, 1000}, sizes[] = {1, 2, 500};
	chatter c;
	c.steps = steps[mc::choose(4)];
	c.times = mc::choose(deep ? 4 : 3);
	c.size = sizes[mc::choose(3)];
	c.proxy = mc::choose_bool();
	c.proxyRange = c.proxy ? 1 + mc::choose(2) * 9 : 0;
	return c;
}
void chatty(bool deep) {
	chatter a = choose_chatter(deep), b = choose_chatter(deep);
	int how = mc::choose(3);
	balance bal;
	{
		context c;
		list & l = c.make<list>();
		c.expect("the pipeline", l, {1});
		tp::pipe_begin<tp::factory<chatty_source, chatter>> src(a);
		tp::pipe_middle<tp::factory<chatty_stage, chatter>> mid(b);
		tp::pipeline p = how == 0 ? tp::pipeline(std::move(src) | std::move(mid) | tp::output_vector(l))
			: how == 1 ? tp::pipeline(std::move(src) | tp::sort() | std::move(mid) | tp::output_vector(l))
			: tp::pipeline(std::move(src) | std::move(mid) | tp::reverser() | tp::output_vector(l));
		run(c, p, {1}, 20000);
	}
	settle(bal);
	mc::state(mc::mix(mc::mix(a.steps, a.times), mc::mix(b.steps, b.times)));
	mc::outcome(mc::mix(how, a.steps * 10000 + b.steps));
}

std::function<void()> T(std::function<void()> f) {
	world::config c;
	c.block_size = 64;
	c.s.reduce = false;
	return [=]() { mc::clean_scratch(); world::run(c, [&]() { tempname::tpie_name(); mcclock::enable(1000); { group_counter g; f(); MC_CHECK(g.open == 0, "groups", g.open << " log groups are left open"); } mcclock::disable(); }); };
}
void progress(const char * name, const std::string & what, int tiers, std::function<void()> f) { mc::add({name, what, T(f), {}, {}, tiers}); }

} // unnamed

int main(int argc, char ** argv) {
	progress("nest", "every nesting of subindicators up to two levels, every small range, every stepping", 3, []() { nest(1, 1); });
	progress("nest_steps", "every nesting of subindicators up to two levels, longer stepping", 2, []() { nest(1, 2); });
	progress("nest_deep", "every nesting of subindicators up to three levels, every small range, every stepping", 3, []() { nest(2, 1); });
	progress("interleave", "two parts of one job making progress in turns", 3, []() { interleave(mc::by_tier(4, 5)); });
	progress("large", "ranges up to the largest number", 3, []() { large(mc::by_tier(3, 4)); });
	progress("moves", "subindicators moved while in use", 3, []() { moves(mc::by_tier(5, 7)); });
	progress("fractional", "up to two (three) parts with known and unknown fractions", 3, []() { fractional(mc::by_tier(2, 3)); });
	progress("arrow", "what the terminal indicators print, for every title length, width and range", 3, []() { arrow(mc::by_tier(3, 5)); });
	progress("sort", "tpie::sort of streams", 3, sorting);
	progress("chatty", "pipelines of stages that announce too many or too few steps", 3, []() { chatty(mc::by_tier(0, 1)); });
	{
		world::config c;
		c.job_manager = true;
		c.s.preemptions = 1;
		mc::add({"parallel_sort", "parallel sort of up to 6 items, every schedule with one preemption", [c]() { sched::set_cpus(2); world::run(c, []() { parallel_sorting(mc::by_tier(5, 6)); }); }, {}, {}, 3});
	}
	add_pipelines();
	return mc::main(argc, argv);
}
