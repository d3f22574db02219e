// C03: what a program sees through its streams is the same under every
// schedule of the I/O thread.
#include "stream_driver.h"
#include <thread>

using namespace tpie;
using namespace stream_driver;

namespace {

typedef driver<8> drv;

/// Reopens the file in a fresh library: all data must be there.
void reread(const drv & d, const std::vector<uint64_t> & data, uint64_t userdata) {
	world::config c;
	c.block_size = d.P.items_per_block * 8;
	c.s.notify_choice = false;
	c.s.reduce = false;
	open::type ro = d.flags_ro;
	std::string path = d.path;
	world::run(c, [&]() {
		file_stream<drv::item> s;
		s.open(path, ro, sizeof(uint64_t));
		MC_CHECK(s.size() == data.size(), "disk-size", "after shutdown the file holds " << s.size() << " items, written were " << data.size());
		for (size_t i = 0; i < data.size(); ++i)
			MC_CHECK(drv::same(s.read(), data[i]), "disk-value", "after shutdown item " << i << " is wrong");
		uint64_t u = 0;
		if (userdata) {
			s.read_user_data(u);
			MC_CHECK(u == userdata, "disk-userdata", "after shutdown the user data is " << u << ", written was " << userdata);
		}
	});
}

std::vector<int> alphabet(drv & d) {
	std::vector<int> ops = {drv::READ, drv::BACK, drv::BEGIN, drv::END};
	if (d.sv.valid) ops.push_back(drv::RESTORE); else ops.push_back(drv::SAVE);
	ops.push_back(drv::BURST);
	ops.push_back(drv::TRUNC0);
	if (d.sv.valid) ops.push_back(drv::TRUNC_POS);
	if (!d.compressed) { ops.push_back(drv::TRUNCMID); ops.push_back(drv::SEEKMID); }
	ops.push_back(drv::REOPEN);
	ops.push_back(drv::USER);
	return ops;
}

void short_verify(drv & d) {
	// The remaining blocks one way, under the scheduler too; the rest without.
	size_t n = d.P.items_per_block + 1;
	for (size_t i = 0; i < n && d.cur > 0; ++i) d.do_read_back();
	for (size_t i = 0; i < n; ++i) d.do_read();
}

void history(params P, int max_prefix, int pre, bool by_destructor) {
	std::vector<uint64_t> data; uint64_t userdata = 0;
	drv keep;
	world::config c;
	c.block_size = P.items_per_block * 8;
	c.s.preemptions = pre;
	c.s.spurious = true;
	{
		io::scoped_points sp;
		drv * d = new drv;
		d->P = P;
		world::run(c, [&]() {
			int k = mc::choose(max_prefix + 1);
			d->start("s", 1.0);
			for (int i = 0; i < k; ++i) d->do_write();
			for (int i = 0; i < P.depth; ++i) {
				std::vector<int> ops = alphabet(*d);
				d->perform(ops[mc::choose(ops.size())]);
			}
			short_verify(*d);
			data = d->data; userdata = d->userdata;
			keep.P = P; keep.path = d->path; keep.flags_ro = d->flags_ro;
			if (by_destructor) { delete d->s; d->s = nullptr; }
			else d->s->close();
		});
		delete d;
	}
	mc::stop_branching();
	reread(keep, data, userdata);
	mc::outcome(mc::hash_seq(data));
	mc::clean_scratch();
}

void several(params P, int n, int pre) {
	world::config c;
	c.block_size = P.items_per_block * 8;
	c.s.preemptions = pre;
	c.s.spurious = true;
	io::scoped_points sp;
	world::run(c, [&]() {
		drv d[3];
		for (int i = 0; i < n; ++i) { d[i].P = P; d[i].next = 1 + 50 * i; d[i].start("s" + std::to_string(i), 1.0); }
		for (int i = 0; i < n; ++i) { MC_TRACE("stream " << i); d[i].perform(drv::BURST); d[i].do_write(); }
		for (int k = 0; k < P.depth; ++k) {
			std::vector<int> ops = {drv::READ, drv::BACK, drv::BEGIN, drv::END, drv::BURST};
			int o = mc::choose(ops.size() * n);
			MC_TRACE("stream " << o % n);
			d[o % n].perform(ops[o / n]);
		}
		for (int i = 0; i < n; ++i) { MC_TRACE("stream " << i); short_verify(d[i]); }
		for (int i = 0; i < n; ++i) { d[i].s->close(); mc::outcome(mc::hash_seq(d[i].data)); }
	});
	mc::clean_scratch();
}

/// One stream in each of two threads.
void two_threads(params P, int pre) {
	world::config c;
	c.block_size = P.items_per_block * 8;
	c.s.preemptions = pre;
	c.s.spurious = false;
	io::scoped_points sp;
	world::run(c, [&]() {
		drv d[2];
		std::vector<int> ops[2];
		static const int A[] = {drv::BURST, drv::BACK, drv::BEGIN, drv::READ};
		for (int i = 0; i < 2; ++i) {
			d[i].P = P; d[i].next = 1 + 50 * i;
			for (int k = 0; k < P.depth; ++k) ops[i].push_back(A[mc::choose(4)]);
		}
		auto work = [&](int i) {
			d[i].start("s" + std::to_string(i), 1.0);
			d[i].perform(drv::BURST); d[i].do_write();
			for (int o : ops[i]) d[i].perform(o);
			short_verify(d[i]);
			d[i].s->close();
		};
		std::thread t(work, 1);
		work(0);
		t.join();
	});
	mc::clean_scratch();
}

/// Anonymous temporary streams: the I/O thread records their sizes.
void temporaries(params P, int pre) {
	world::config c;
	c.block_size = P.items_per_block * 8;
	c.s.preemptions = pre;
	c.s.spurious = true;
	io::scoped_points sp;
	world::run(c, [&]() {
		drv d[2];
		for (int i = 0; i < 2; ++i) { d[i].P = P; d[i].next = 1 + 50 * i; d[i].start_temp(); }
		for (int i = 0; i < 2; ++i) {
			MC_TRACE("stream " << i);
			d[i].perform(drv::BURST); d[i].do_write();
			if (P.comp) d[i].do_save();
			d[i].do_write();
		}
		for (int k = 0; k < P.depth; ++k) {
			std::vector<int> ops = {drv::READ, drv::BACK, drv::BEGIN, drv::BURST, drv::TRUNC0, P.comp ? int(drv::TRUNC_POS) : int(drv::TRUNCLAST)};
			int o = mc::choose(ops.size() * 2);
			drv & e = d[o % 2];
			MC_TRACE("stream " << o % 2);
			if (ops[o / 2] == drv::TRUNC_POS && !e.sv.valid) mc::prune();
			e.perform(ops[o / 2]);
		}
		for (int i = 0; i < 2; ++i) { MC_TRACE("stream " << i); short_verify(d[i]); }
		for (int i = 0; i < 2; ++i) { d[i].s->close(); mc::outcome(mc::hash_seq(d[i].data)); }
		MC_CHECK(get_temp_file_usage() == 0, "temp-usage", "temporary file usage is " << get_temp_file_usage() << " after all temporary streams were closed");
	});
	mc::clean_scratch();
}

const char * kind(int comp) { return comp == 0 ? "uncompressed" : comp == 1 ? "compressed (adaptively)" : "compressed"; }

void add_history(const std::string & name, params P, int max_prefix, int pre, int tiers) {
	mc::suite_t s;
	s.name = name;
	s.tiers = tiers;
	s.what = mc::strm() << "every schedule with up to " << pre << " preemptions or spurious wake-ups (switches at every lock, unlock, wait, notify, file operation) of every history "
		"that writes 0.." << max_prefix << " items to a new " << kind(P.comp) << " stream, performs " << P.depth
		<< " operations (read, read_back, write a block, seeks, get/set_position, truncates, user data, close+reopen), reads on and closes; " << P.items_per_block
		<< " items per block; all values as in the sequential model, no deadlock, contents and user data on disk after shutdown";
	s.body = [=]() { history(P, max_prefix, pre, P.depth % 2 == 0); };
	mc::add(s);
}

} // unnamed

int main(int argc, char ** argv) {
#ifdef MC_RACES
	add_history("plain_1", params{1, 0, 1}, 3, 2, 3);
	add_history("compressed_1", params{1, 1, 1}, 3, 2, 3);
#else
	add_history("plain_1", params{2, 0, 1}, 5, 3, 1);
	add_history("compressed_1", params{2, 1, 1}, 5, 3, 1);
	add_history("plain_2", params{1, 0, 2}, 2, 2, 1);
	add_history("compressed_2", params{1, 1, 2}, 2, 2, 1);
	add_history("plain_2", params{2, 0, 2}, 5, 3, 2);
	add_history("compressed_2", params{2, 1, 2}, 5, 3, 2);
	add_history("plain_3", params{1, 0, 3}, 2, 2, 3);
	add_history("compressed_3", params{1, 1, 3}, 2, 2, 3);
	add_history("plain_4", params{1, 0, 4}, 2, 1, 3);
	add_history("compressed_4", params{1, 1, 4}, 2, 1, 3);
#endif
	for (int pre = 1; pre <= 2; ++pre) for (int comp = 0; comp < 2; ++comp) {
		mc::suite_t s;
		std::string p = pre == 1 ? "" : "_2";
#ifdef MC_RACES
		if (pre == 2) s.tiers = 2;
#endif
		s.name = (comp ? "several_compressed" : "several_plain") + p;
		s.what = mc::strm() << "every schedule with up to " << pre << " preemptions or spurious wake-ups of three " << kind(comp) << " streams written and then every interleaving of " << 3 - pre << " operations on them";
		s.body = [=]() { several(params{1, comp, 3 - pre}, 3, pre); };
		mc::add(s);
		mc::suite_t u;
		u.tiers = s.tiers;
		u.name = (comp ? "temporaries_compressed" : "temporaries_plain") + p;
		u.what = mc::strm() << "every schedule with up to " << pre << " preemptions or spurious wake-ups of two anonymous temporary " << kind(comp) << " streams written, every interleaving of " << 3 - pre
			<< " operations (read, read_back, rewind, write a block, truncations) on them, read and closed";
		u.body = [=]() { temporaries(params{2, comp, 3 - pre}, pre); };
		mc::add(u);
		mc::suite_t t;
		t.tiers = s.tiers;
		t.name = (comp ? "threads_compressed" : "threads_plain") + p;
		t.what = mc::strm() << "every schedule with up to " << pre << " preemptions of two threads, each with a " << kind(comp) << " stream of its own: writes, " << 2 - pre << " operation(s), reads";
		t.body = [=]() { two_threads(params{1, comp, 2 - pre}, pre); };
		mc::add(t);
	}
	return mc::main(argc, argv);
}
