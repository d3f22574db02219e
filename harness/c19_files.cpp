// C19: the open-file account is exact and temporary files are removed.
//
// Every history of opening (also in vain), writing, closing, moving and
// destroying streams on temporary and other files, of sharing, freeing and
// keeping temporary files and of moving the temporary directory about; and
// every file system call of it failing, and every limit on open files.
#define WITHOUT_MAIN
#include "c05_faults.cpp"
#include <tpie/serialization_stream.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/sort.h>
#include <tpie/priority_queue.h>
#include <tpie/serialization_sorter.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/blocks/block_collection_cache.h>
#include <tpie/btree.h>
#include <filesystem>
#include <memory>
#include <optional>
#include <set>
#include <vector>

using namespace tpie;
namespace fs = std::filesystem;

namespace c19 {

typedef std::set<std::string> paths;

/// The regular files below a directory.
paths files_below(const std::string & d) {
	paths r;
	std::error_code c;
	for (fs::recursive_directory_iterator i(d, c), e; i != e; i.increment(c)) if (!i->is_directory()) r.insert(i->path().string());
	return r;
}
size_t size_of(const std::string & p) { std::error_code c; auto s = fs::file_size(p, c); return c ? 0 : size_t(s); }
std::string base(const std::string & p) { return p.substr(p.rfind('/') + 1); }

// ------------------------------------------------ what every call must respect
struct watch {
	bool faulty = false; // one call fails
	bool on = false;
	bool failed = false;
	bool unlink_failed = false;
	size_t most = ~size_t(0); // limit on open files
	size_t peak = 0;
	uint64_t written = 0, read = 0;
	paths stay;          // what must be there after shutting down, if
	bool complete = false;
	size_t base_used = 0;
	int base_fds = 0;
	struct off { ~off(); };

	void start() { base_used = get_file_manager().used(); base_fds = io::open_fds(); on = true; }
	size_t used() const { return get_file_manager().used() - base_used; }
	int fds() const { return io::open_fds() - base_fds; }

	io::action operator()(const io::call & c) {
		io::action a;
		if (!on) return a;
		mc::transition();
		// opening: counted before the call; closing: before or after it
		size_t u = used(), f = size_t(fds());
		switch (c.k) {
		case io::k_open: MC_CHECK(u == f + 1 || u == f, "account", u << " files are counted while number " << f + 1 << " is being opened"); break;
		case io::k_close: MC_CHECK(u == f || u + 1 == f, "account", u << " files are counted while one of " << f << " is being closed"); break;
		default: MC_CHECK(u == f, "account", u << " files are counted, " << f << " are open, in a " << io::name(c.k)); break;
		}
		peak = std::max(peak, u);
		MC_CHECK(u <= most, "limit", u << " files are open, the enforced limit is " << most);
		if (faulty && !failed && c.k != io::k_stat && c.k != io::k_seek && mc::choose_bool()) {
			a.err = c.k == io::k_open ? EMFILE : c.k == io::k_write ? ENOSPC : EIO;
			failed = true;
			unlink_failed = c.k == io::k_unlink;
			MC_TRACE("    ! " << io::name(c.k) << " of " << base(c.path) << " fails");
		} else {
			if (c.k == io::k_write) written += c.size;
			if (c.k == io::k_read) read += c.size;
		}
		return a;
	}
};
watch * w;
watch::off::~off() { w->on = w->faulty = false; }

void exact(const char * when) {
	MC_CHECK(w->used() == size_t(w->fds()), "account", w->used() << " files are counted " << when << ", but " << w->fds() << " are open");
}

// ------------------------------------------------------------- kinds of streams
struct any_stream {
	virtual ~any_stream() {}
	virtual void open_own() = 0;
	virtual void open_temp(temp_file & t) = 0;      // to be written
	virtual void open_path(const std::string & p) = 0;
	virtual void open_temp_ro(temp_file & t) = 0;
	virtual void open_path_ro(const std::string & p) = 0;
	virtual void open_temp_wo(temp_file & t) { open_temp(t); }
	virtual bool has_wo() const { return false; }
	virtual bool has_own() const { return true; }
	virtual bool has_ro() const { return true; }
	virtual void write() = 0;      // more than a block
	virtual void truncate() {}
	virtual void close() = 0;
	virtual bool is_open() = 0;
	virtual bool swap_with(any_stream &) { return false; }
	virtual size_t payload() = 0;  // bytes written so far
};

template <int COMP>
struct fs_t : any_stream {
	file_stream<uint64_t> s;
	static open::type f(open::type o = open::defaults) { return open::type(o | (COMP ? open::compression_all : open::defaults)); }
	void open_own() override { s.open(f()); }
	void open_temp(temp_file & t) override { s.open(t, f()); }
	void open_path(const std::string & p) override { s.open(p, f()); }
	void open_temp_ro(temp_file & t) override { s.open(t, f(open::read_only)); }
	void open_temp_wo(temp_file & t) override { s.open(t, f(open::write_only)); }
	bool has_wo() const override { return true; }
	void open_path_ro(const std::string & p) override { s.open(p, f(open::read_only)); }
	void write() override { s.seek(0, file_stream_base::end); for (int i = 0; i < 20; ++i) s.write(i * 77 + 1); }
	void truncate() override { s.truncate(0); }
	void close() override { s.close(); }
	bool is_open() override { return s.is_open(); }
	size_t payload() override { return COMP ? s.size() > 0 : s.size() * 8; }
};
struct us_t : any_stream {
	uncompressed_stream<uint64_t> s;
	void open_own() override { s.open(); }
	void open_temp(temp_file & t) override { s.open(t); }
	void open_path(const std::string & p) override { s.open(p); }
	void open_temp_ro(temp_file & t) override { s.open(t, access_read); }
	void open_temp_wo(temp_file & t) override { s.open(t, access_write); }
	bool has_wo() const override { return true; }
	void open_path_ro(const std::string & p) override { s.open(p, access_read); }
	void write() override { s.seek(0, file_stream_base::end); for (int i = 0; i < 20; ++i) s.write(i); }
	void truncate() override { s.truncate(0); }
	void close() override { s.close(); }
	bool is_open() override { return s.is_open(); }
	bool swap_with(any_stream & o) override { s.swap(static_cast<us_t &>(o).s); return true; }
	size_t payload() override { return s.size() * 8; }
};
struct file_t : any_stream {
	tpie::file<uint64_t> f;
	void open_own() override { f.open(); }
	void open_temp(temp_file & t) override { f.open(t); }
	void open_path(const std::string & p) override { f.open(p); }
	void open_temp_ro(temp_file & t) override { f.open(t, access_read); }
	void open_temp_wo(temp_file & t) override { f.open(t, access_write); }
	bool has_wo() const override { return true; }
	void open_path_ro(const std::string & p) override { f.open(p, access_read); }
	void write() override { tpie::file<uint64_t>::stream s(f); s.seek(0, tpie::file<uint64_t>::stream::end); for (int i = 0; i < 20; ++i) s.write(i); }
	void truncate() override { f.truncate(0); }
	void close() override { f.close(); }
	bool is_open() override { return f.is_open(); }
	size_t payload() override { return f.size() * 8; }
};
template <typename W, typename R>
struct ser_t : any_stream {
	std::unique_ptr<W> w;
	std::unique_ptr<R> r;
	bool open_ = false;
	size_t bytes = 0;
	template <typename F> void writer(F f) { close(); r.reset(); w.reset(new W); f(*w); open_ = true; }
	template <typename F> void reader(F f) { close(); w.reset(); r.reset(new R); f(*r); open_ = true; }
	bool has_own() const override { return false; }
	void open_own() override {}
	void open_temp(temp_file & t) override { writer([&](W & x) { x.open(t); }); }
	void open_path(const std::string & p) override { writer([&](W & x) { x.open(p); }); }
	void open_temp_ro(temp_file & t) override { reader([&](R & x) { x.open(t); }); }
	void open_path_ro(const std::string & p) override { reader([&](R & x) { x.open(p); }); }
	void write() override { if (w) for (int i = 0; i < 3; ++i) { w->serialize(std::string(400000, 'a' + i)); bytes += 400000; } }
	void close() override { open_ = false; bytes = 0; if (w) w->close(); if (r) r->close(); }
	bool is_open() override { return open_; }
	size_t payload() override { return bytes; }
};
/// Reopens the same writer without closing it.
template <typename W>
struct reser_t : any_stream {
	W w;
	bool open_ = false;
	size_t bytes = 0;
	template <typename F> void again(F f) { open_ = false; bytes = 0; f(); open_ = true; }
	bool has_own() const override { return false; }
	void open_own() override {}
	void open_temp(temp_file & t) override { again([&]() { w.open(t); }); }
	void open_path(const std::string & p) override { again([&]() { w.open(p); }); }
	bool has_ro() const override { return false; }
	void open_temp_ro(temp_file &) override {}
	void open_path_ro(const std::string &) override {}
	void write() override { for (int i = 0; i < 6; ++i) { w.serialize(std::string(400000, 'a' + i)); bytes += 400000; } }
	void close() override { open_ = false; bytes = 0; w.close(); }
	bool is_open() override { return open_; }
	size_t payload() override { return bytes; }
};

// ---------------------------------------------------------------- histories
/// A temporary file as the user sees it; several handles may refer to it.
struct temp_model {
	std::string path;       // empty until it has been opened
	bool persistent = false;
	bool created = false;   // a successful open has created it
	// what it contributes to the account; unknown from being opened for writing
	// until it can be told apart from what else is being written
	stream_size_type recorded = 0;
	bool known = true;
	size_t payload = 0;            // of items, as far as it is known when closed
};

struct run {
	static const int S = 2, H = 2;
	std::function<any_stream *()> mk;
	std::string user = world::path("user");
	std::string tmp;
	std::optional<temp_file> h[H];
	std::unique_ptr<any_stream> s[S]; // destroyed before the handles
	std::shared_ptr<temp_model> hm[H];
	// what the slots are open on
	std::shared_ptr<temp_model> on[S];  // a temporary file (own or a handle's)
	bool own[S] = {false, false}, reading[S] = {false, false};
	int handle[S] = {-1, -1};
	paths mine;                          // files of the user, which must stay
	std::vector<std::shared_ptr<temp_model>> kept; // persistent ones without an owner
	stream_size_type usage0 = get_temp_file_usage();
	stream_size_type kept_usage = 0;
	int errors = 0;

	run(std::function<any_stream *()> m) : mk(std::move(m)) {
		fs::create_directory(user);
		tmp = fs::path(tempname::tpie_name()).parent_path().string();
		io::spit(user + "/garbage", std::string(5000, 'g'));
		mine.insert(user + "/garbage");
		for (int i = 0; i < S; ++i) s[i].reset(mk());
		for (int i = 0; i < H; ++i) { h[i].emplace(); hm[i] = std::make_shared<temp_model>(); }
	}

	std::vector<std::shared_ptr<temp_model>> live() {
		std::vector<std::shared_ptr<temp_model>> r;
		auto add = [&](std::shared_ptr<temp_model> m) { if (m && std::find(r.begin(), r.end(), m) == r.end()) r.push_back(m); };
		for (auto & m : hm) add(m);
		for (auto & m : on) add(m);
		return r;
	}
	bool in_use(int hi) { for (int i = 0; i < S; ++i) if (handle[i] == hi) return true; return false; }
	bool path_in_use(const std::string & p) { for (int i = 0; i < S; ++i) if (s[i]->is_open() && on[i] && on[i]->path == p) return true; return false; }


	void gone(std::shared_ptr<temp_model> m) { // its last reference has been dropped
		for (auto & x : live()) if (x == m) return;
		if (!m->persistent) { mine.erase(m->path); return; }
		if (m->created) { kept.push_back(m); mine.insert(m->path); }
		kept_usage += m->recorded;
		if (!m->known) mc::prune(); // cannot be told apart any more
	}

	void check(const char * op) {
		int n = 0;
		for (int i = 0; i < S; ++i) n += s[i]->is_open();
		exact(op);
		MC_CHECK(w->fds() == n, "descriptors", w->fds() << " files are open after " << op << ", but " << n << " streams");
		stream_size_type u = get_temp_file_usage(), sum = usage0 + kept_usage;
		std::vector<std::shared_ptr<temp_model>> unknown;
		for (auto & x : live()) if (x->known) sum += x->recorded; else unknown.push_back(x);
		if (unknown.empty()) {
			MC_CHECK(u == sum, "temp-usage", "temporary space is " << u << " after " << op << ", expected " << sum);
		} else {
			MC_CHECK(u >= sum && u - sum < (1ull << 40), "temp-usage", "temporary space is " << u << " after " << op << ", the files at rest alone have " << sum);
			if (unknown.size() == 1 && std::find(on, on + S, unknown[0]) == on + S) {
				temp_model & x = *unknown[0];
				x.recorded = u - sum;
				x.known = true;
				size_t disk = size_of(x.path);
				MC_CHECK(x.recorded <= std::max(disk, size_t(4096)) + 128, "temp-usage", "a temporary file of " << disk << " bytes accounts for " << x.recorded);
				MC_CHECK(x.recorded >= x.payload, "temp-usage", "a temporary file with " << x.payload << " bytes of items accounts for " << x.recorded);
			}
		}
		// the files
		paths have = files_below(world::path(""));
		for (auto & p : mine) MC_CHECK(have.count(p), "removed", base(p) << " has disappeared with " << op);
		size_t known = mine.size();
		for (auto & x : live()) {
			if (x->created && !mine.count(x->path)) {
				++known;
				MC_CHECK(have.count(x->path), "removed", "a temporary file in use has disappeared with " << op);
			} else if (!x->created && !x->path.empty() && have.count(x->path)) {
				++known; // left by an open that failed; goes with its owner
			}
		}
		MC_CHECK(have.size() == known, "files-left", have.size() << " files exist after " << op << ", " << known << " should: " << mc::show(have));
	}

	void closed(int i) {
		auto m = on[i];
		on[i].reset();
		own[i] = false;
		handle[i] = -1;
		if (m) gone(m);
	}

	template <typename F>
	bool attempt(const char * op, F f) {
		mc::transition();
		MC_TRACE(op);
		try { f(); } catch (const tpie::exception & e) { MC_TRACE("    " << e.what()); ++errors; return false; }
		catch (const std::exception & e) { mc::fail("foreign-exception", mc::strm() << op << " threw " << e.what()); }
		return true;
	}

	void open(int i, const char * op, int hi, bool ro, const std::string & p = "", bool wo = false) {
		any_stream & x = *s[i];
		if (hi >= 0) {
			// naming it does not create it
			if (hm[hi]->path.empty()) hm[hi]->path = h[hi]->path();
		}
		if (ro && !x.has_ro()) mc::prune();
		reading[i] = ro;
		std::shared_ptr<temp_model> before = on[i];
		// closing the old file comes first; to tell the two apart, look in between
		if (x.is_open() && (before || hi >= 0 || p.empty()) && before != (hi >= 0 ? hm[hi] : nullptr)) {
			// the old file may still grow while being closed
			if (before && !own[i]) {
				attempt("close", [&]() { x.close(); });
				auto m = on[i];
				closed_keep(i, "close");
			}
		}
		bool o = attempt(op, [&]() {
			if (hi >= 0) { if (ro) x.open_temp_ro(*h[hi]); else if (wo) x.open_temp_wo(*h[hi]); else x.open_temp(*h[hi]); }
			else if (p.empty()) x.open_own();
			else if (ro) x.open_path_ro(p);
			else x.open_path(p);
		});
		if (on[i] && (hi < 0 || on[i] != hm[hi])) closed(i); else { on[i].reset(); own[i] = false; handle[i] = -1; }
		MC_CHECK(o == x.is_open(), "state", "the stream is " << (x.is_open() ? "" : "not ") << "open after an attempt that " << (o ? "succeeded" : "failed"));
		std::shared_ptr<temp_model> now;
		if (hi >= 0) {
			now = hm[hi];
			if (o) { on[i] = now; handle[i] = hi; if (!ro) now->created = true, now->known = false, now->payload = 0; MC_CHECK(now->created, "state", "a file that does not exist could be opened"); }
		} else if (p.empty()) {
			now = std::make_shared<temp_model>();
			if (o) {
				on[i] = now; own[i] = true;
				now->created = true;
				now->known = false;
				paths have = files_below(tmp);
				for (auto & m : live()) have.erase(m->path);
				for (auto & m : mine) have.erase(m);
				MC_CHECK(have.size() == 1, "own-file", "opening an anonymous temporary stream created " << have.size() << " files");
				now->path = *have.begin();
			}
		} else if (o) {
			mine.insert(p);
		}
		if (!o && p == user + "/new") mine.insert(p), io::exists(p) ? 0 : mine.erase(p);
		check(op);
	}
	void closed_keep(int i, const char * op) {
		bool was_own = own[i];
		if (was_own) closed(i); else { on[i].reset(); handle[i] = -1; }
		check(op);
	}

	/// One operation; false when there is no such operation.
	void step(bool first) {
		// slot 1 is only interesting next to slot 0
		int i = first ? 0 : mc::choose(S + 1);
		if (i == S) return handle_op();
		any_stream & x = *s[i];
		const int n_open = 9;
		int c = mc::choose(n_open + 6);
		switch (c) {
		case 0: open(i, "open a temporary file", 0, false); return;
		case 1: open(i, "open another temporary file", 1, false); return;
		case 2: open(i, "open a temporary file read-only", 0, true); return;
		case 3: if (!x.has_own()) mc::prune(); open(i, "open an anonymous temporary file", -1, false); return;
		case 4: open(i, "open a new file", -1, false, user + "/new"); return;
		case 5: open(i, "open a missing file read-only", -1, true, user + "/missing"); return;
		case 6: open(i, "open garbage read-only", -1, true, user + "/garbage"); return;
		case 7: open(i, "open a directory", -1, false, user); return;
		case 8: open(i, "open in a missing directory", -1, false, user + "/no/such"); return;
		case 14: if (!x.has_wo()) mc::prune(); open(i, "open a temporary file write-only", 0, false, "", true); return;
		case 9: {
			if (!x.is_open() || reading[i]) mc::prune();
			attempt("write", [&]() { x.write(); });
			check("write");
			return;
		}
		case 10: {
			if (!x.is_open() || reading[i]) mc::prune();
			attempt("truncate", [&]() { x.truncate(); });
			check("truncate");
			return;
		}
		case 11: {
			size_t payload = x.is_open() ? x.payload() : 0;
			auto m = on[i];
			bool ok = attempt("close", [&]() { x.close(); });
			MC_CHECK(!x.is_open(), "state", "a closed stream is open");
			if (ok && m) m->payload = payload;
			closed_keep(i, "close");
			return;
		}
		case 12: {
			auto m = on[i];
			MC_TRACE("destroy");
			s[i].reset();
			s[i].reset(mk());
			closed_keep(i, "destroy");
			return;
		}
		case 13: {
			if (i == 1) mc::prune();
			MC_TRACE("swap");
			if (!s[0]->swap_with(*s[1])) mc::prune();
			std::swap(on[0], on[1]); std::swap(own[0], own[1]); std::swap(reading[0], reading[1]); std::swap(handle[0], handle[1]);
			check("swap");
			return;
		}
		}
	}
	void handle_op() {
		int c = mc::choose(8);
		int i = c % 2;
		switch (c / 2) {
		case 0: { // free
			if (in_use(i)) mc::prune();
			MC_TRACE("free handle " << i);
			auto m = hm[i];
			hm[i] = std::make_shared<temp_model>();
			h[i]->free();
			gone(m);
			check("free");
			break; }
		case 1: { // share
			if (in_use(i)) mc::prune();
			MC_TRACE("handle " << i << " = handle " << 1 - i);
			auto m = hm[i];
			hm[i] = hm[1 - i];
			*h[i] = *h[1 - i];
			if (m != hm[i]) gone(m);
			check("copy");
			break; }
		case 2: {
			bool p = !hm[i]->persistent;
			MC_TRACE("handle " << i << " persistent: " << p);
			h[i]->set_persistent(p);
			hm[i]->persistent = p;
			MC_CHECK(h[i]->is_persistent() == p, "state", "set_persistent");
			check("set_persistent");
			break; }
		case 3: { // associate with a file of the user
			if (in_use(i)) mc::prune();
			std::string p = user + "/named" + (i ? "1" : "0");
			for (auto & m : live()) if (m->path == p) mc::prune(); // one owner per path
			if (mine.count(p)) mc::prune();
			MC_TRACE("handle " << i << " = " << base(p));
			auto m = hm[i];
			hm[i] = std::make_shared<temp_model>();
			hm[i]->path = p;
			if (i) h[i].emplace(p); else h[i]->set_path(p);
			gone(m);
			MC_CHECK(h[i]->path() == p, "state", "path");
			check("set_path");
			break; }
		}
	}

	void finish() {
		for (int i = 0; i < S; ++i) {
			auto m = on[i];
			MC_TRACE("destroy stream " << i);
			s[i].reset(); s[i].reset(mk());
			closed_keep(i, "destroy");
		}
		for (int i = 0; i < H; ++i) {
			MC_TRACE("destroy handle " << i);
			auto m = hm[i];
			hm[i].reset();
			h[i].reset();
			gone(m);
			check("destroy");
		}
	}
};

void history(const std::function<any_stream *()> & mk, int depth) {
	run r(mk);
	watch::off o;
	const uint64_t written = get_bytes_written(), read = get_bytes_read();
	w->start();
	for (int d = 0; d < depth; ++d) {
		r.step(d == 0);
		mc::state(mc::mix(mc::mix(w->fds(), r.kept.size()), mc::mix(r.mine.size(), get_temp_file_usage() - r.usage0)));
	}
	r.finish();
	MC_CHECK(get_bytes_written() - written == w->written, "counters", get_bytes_written() - written << " bytes are said to be written, " << w->written << " were");
	if (!r.errors || get_bytes_read() - read > w->read) MC_CHECK(get_bytes_read() - read == w->read, "counters", get_bytes_read() - read << " bytes are said to be read, " << w->read << " were");
	mc::outcome(mc::mix(r.kept.size(), r.mine.size()));
	for (auto & p : r.mine) if (p.compare(0, r.tmp.size(), r.tmp) != 0) w->stay.insert(p);
	w->complete = true;
}

// --------------------------------------------- whole data structures, faults
list do_blocks() {
	list out;
	temp_file t, q(t.path() + ".queue");
	blocks::block_collection_cache c(t.path(), 64, 2, true);
	std::vector<blocks::block_handle> h;
	for (int i = 0; i < 4; ++i) {
		h.push_back(c.get_free_block());
		blocks::block * b = c.read_block(h.back());
		(*b)[0] = char(i);
		c.write_block(h.back());
	}
	for (auto x : h) out.push_back((*c.read_block(x))[0]);
	for (auto x : h) c.free_block(x);
	return out;
}
list do_btree() {
	list out;
	temp_file t, q(t.path() + ".queue");
	btree<uint64_t, btree_external> b(t.path());
	for (auto x : keys(NI)) b.insert(x);
	for (auto i = b.begin(); i != b.end(); ++i) out.push_back(*i);
	return out;
}
list do_serialized_btree() {
	list out;
	temp_file t;
	{
		btree_builder<uint64_t, btree_external, btree_static, btree_serialized> b(t.path());
		for (auto x : sorted(keys(NI))) b.push(x);
		b.build();
	}
	btree<uint64_t, btree_external, btree_static, btree_serialized> b(t.path());
	for (auto i = b.begin(); i != b.end(); ++i) out.push_back(*i);
	return out;
}
struct scenario { const char * name; std::function<list()> work; list expected; bool faults = true; size_t block = 128; };

struct leftovers {
	stream_size_type temp = get_temp_file_usage();
	size_t entries = mc::scratch_entries();
	void check() {
		exact("afterwards");
		MC_CHECK(w->used() == 0, "account", w->used() << " files are counted afterwards");
		MC_CHECK(get_temp_file_usage() == temp, "temp-usage", "temporary space is " << get_temp_file_usage() << " afterwards, " << temp << " before");
		if (!w->unlink_failed) MC_CHECK(mc::scratch_entries() == entries, "files-left", mc::scratch_entries() - entries << " temporary files are left");
	}
};

void faults(const scenario & sc) {
	leftovers l;
	w->start();
	w->faulty = true;
	list r;
	bool failed = false;
	MC_TRACE(sc.name);
	try {
		r = sc.work();
	} catch (const std::exception & e) {
		MC_TRACE("    " << e.what());
		failed = true;
	}
	w->on = w->faulty = false;
	MC_CHECK(w->failed || !failed, "spurious-error", sc.name << " failed although no call did");
	if (!failed) MC_CHECK(r == sc.expected, "wrong-result", sc.name << " gave " << mc::show(r));
	l.check();
	mc::state(mc::mix(w->peak, failed));
	mc::outcome(failed);
	w->complete = true;
}

void limits(const scenario & sc) {
	leftovers l;
	file_manager & fm = get_file_manager();
	const size_t before = fm.used(), lim = fm.limit();
	w->start();
	list r = sc.work();
	w->on = false;
	MC_CHECK(r == sc.expected, "wrong-result", sc.name << " gave " << mc::show(r));
	l.check();
	const size_t peak = w->peak;
	const size_t k = 1 + mc::choose(int(peak));
	fm.set_enforcement(file_manager::ENFORCE_THROW);
	fm.set_limit(before + k);
	w->peak = 0;
	w->most = k;
	w->start();
	bool refused = false;
	MC_TRACE(sc.name << " with " << k << " files, needs at most " << peak);
	try {
		r = sc.work();
	} catch (const out_of_resource_error & e) {
		MC_TRACE("    " << e.what());
		refused = true;
	} catch (const std::exception & e) {
		MC_TRACE("    " << e.what());
		// too few files may also be noticed in advance
		MC_CHECK(dynamic_cast<const tpie::exception *>(&e), "foreign-exception", sc.name << " threw " << e.what());
		refused = true;
	}
	w->on = false;
	MC_CHECK(fm.used() <= before + k, "limit", "more files are counted than the limit allows");
	fm.set_enforcement(file_manager::ENFORCE_WARN);
	fm.set_limit(lim);
	if (!refused) MC_CHECK(r == sc.expected, "wrong-result", sc.name << " gave " << mc::show(r) << " with " << k << " files");
	else MC_CHECK(k < peak, "refused", sc.name << " is refused " << k << " files although it needs no more");
	l.check();
	mc::transition();
	mc::state(mc::mix(k, refused));
	mc::outcome(mc::mix(k, refused));
	w->complete = true;
}

/// Opening at the limit neither creates nor truncates nor forgets anything.
void at_limit(const std::function<any_stream *()> & mk) {
	file_manager & fm = get_file_manager();
	std::string dir = world::path("user");
	fs::create_directory(dir);
	const size_t lim = fm.limit();
	watch::off o;
	w->start();
	leftovers l;
	{
		temp_file t;
		std::unique_ptr<any_stream> a(mk()), b(mk()), c(mk());
		b->open_path(dir + "/b");
		b->write();
		b->close();
		const std::string content = io::slurp(dir + "/b");
		a->open_path(dir + "/a");
		a->write();
		fm.set_enforcement(file_manager::ENFORCE_THROW);
		fm.set_limit(fm.used());
		bool refused = false;
		const int op = mc::choose(5);
		if ((op == 0 && !c->has_own()) || (op == 3 && !c->has_ro())) { fm.set_enforcement(file_manager::ENFORCE_WARN); fm.set_limit(lim); mc::prune(); }
		mc::transition();
		try {
			switch (op) {
			case 0: c->open_own(); break;
			case 1: c->open_path(dir + "/new"); break;
			case 2: c->open_path(dir + "/b"); break;
			case 3: c->open_path_ro(dir + "/b"); break;
			case 4: c->open_temp(t); break;
			}
		} catch (const out_of_files_error &) { refused = true; }
		exact("after a refusal");
		MC_CHECK(refused, "limit", "a file could be opened beyond the enforced limit");
		MC_CHECK(!c->is_open(), "state", "a stream is open that was refused its file");
		MC_CHECK(w->used() == 1, "account", w->used() << " files are counted after a refusal, one is open");
		MC_CHECK(!io::exists(dir + "/new") && !io::exists(t.path()), "limit", "a refused open has created its file");
		MC_CHECK(io::slurp(dir + "/b") == content, "limit", "a refused open has changed its file");
		// one is closed: there is room again
		a->write();
		a->close();
		switch (op) {
		case 0: c->open_own(); break;
		case 1: c->open_path(dir + "/new"); break;
		case 2: c->open_path(dir + "/b"); break;
		case 3: c->open_path_ro(dir + "/b"); break;
		case 4: c->open_temp(t); break;
		}
		MC_CHECK(c->is_open() && w->used() == 1, "account", w->used() << " files are counted, one is open");
		c->close();
		fm.set_enforcement(file_manager::ENFORCE_WARN);
		fm.set_limit(lim);
		mc::state(op);
	}
	exact("at the end");
	w->on = false;
	fs::remove_all(dir);
	l.entries -= 1;
	l.check();
	mc::outcome(0);
}

// -------------------------------------------------------------- directories
void directories(int depth) {
	const std::string A = world::path("A"), B = world::path("B"), missing = world::path("missing");
	struct reset { ~reset() { w->on = false; tempname::set_default_path(""); } } rs;
	fs::create_directory(A);
	fs::create_directory(B);
	io::spit(A + "/plain", "file");
	paths user = {A + "/plain"};
	// the temporary directory of other executions
	const std::string other = fs::path(tempname::tpie_name()).parent_path().string();
	struct live { std::unique_ptr<temp_file> t; std::string path; bool gone; };
	std::vector<live> l;
	paths temp_dirs, names;
	std::string dflt, current = other; // current: the directory in use, empty when one is due
	bool sub = false;
	for (int d = 0; d < depth; ++d) {
		mc::transition();
		int c = mc::choose(13);
		switch (c) {
		case 0: case 1: case 5:
			dflt = c == 0 ? A : c == 1 ? B : missing;
			MC_TRACE("use " << base(dflt));
			tempname::set_default_path(dflt);
			current = "";
			break;
		case 2:
			MC_TRACE("use A/sub");
			tempname::set_default_path(A, "sub");
			dflt = A + "/sub";
			current = "";
			sub = true;
			MC_CHECK(fs::is_directory(dflt), "directory", "the subdirectory has not been created");
			break;
		case 3: case 4:
			MC_TRACE("use A/" << (c == 3 ? "plain, which is a file" : "x/y, which cannot be created"));
			tempname::set_default_path(A, c == 3 ? "plain" : "x/y");
			dflt = A;
			current = "";
			break;
		case 6: case 7: {
			if (l.size() >= 3) mc::prune();
			MC_TRACE((c == 6 ? "create a temporary file" : "create a temporary directory with a file"));
			bool made = false;
			std::string p;
			live x;
			x.gone = false;
			try {
				if (c == 6) {
					x.t.reset(new temp_file());
					p = x.t->path();
				} else {
					std::string dir = tempname::tpie_dir_name("dir");
					fs::create_directory(dir);
					p = dir;
				}
				made = true;
			} catch (const std::exception & e) { MC_TRACE("    " << e.what()); }
			MC_CHECK(made == (dflt != missing || current != ""), "directory", "a temporary file could " << (made ? "" : "not ") << "be named");
			if (!made) break;
			std::string parent = fs::path(p).parent_path().string();
			if (!current.empty()) MC_CHECK(parent == current, "directory", "a temporary file is in " << parent << " instead of " << current);
			else {
				MC_CHECK(fs::path(parent).parent_path().string() == dflt, "directory", "a temporary file is in " << parent << " instead of a directory in " << dflt);
				MC_CHECK(temp_dirs.insert(parent).second, "directory", "a temporary directory is used twice");
				current = parent;
			}
			MC_CHECK(names.insert(p).second && !io::exists(p + "x"), "directory", "a name is given twice");
			if (c == 6) {
				MC_CHECK(!io::exists(p), "directory", "a temporary file existed before");
				file_stream<uint64_t> s;
				s.open(*x.t);
				s.write(1);
				s.close();
				x.path = p;
				l.push_back(std::move(x));
			} else {
				io::spit(p + "/file", "x");
			}
			break; }
		case 8: case 9: {
			size_t i = c == 8 ? 0 : 1;
			if (l.size() <= i) mc::prune();
			MC_TRACE("drop temporary file " << i);
			std::string p = l[i].path;
			l.erase(l.begin() + i);
			MC_CHECK(!io::exists(p), "removed", "a temporary file is still there after its owner has gone");
			break; }
		case 10:
			MC_TRACE("remove the temporary directories");
			finish_tempfile();
			for (auto & x : temp_dirs) MC_CHECK(!fs::exists(x), "shutdown", "a temporary directory is left");
			MC_CHECK(!fs::exists(other), "shutdown", "a temporary directory is left");
			for (auto & x : l) if (fs::path(x.path).parent_path().string() != B) x.gone = true;
			current = "";
			if (dflt.empty()) { dflt = A; tempname::set_default_path(A); }
			break;
		case 11: {
			if (l.size() >= 3) mc::prune();
			MC_TRACE("create a temporary file in B");
			live x;
			x.gone = false;
			x.path = tempname::tpie_name("named", B, "ext");
			MC_CHECK(fs::path(x.path).parent_path().string() == B && fs::path(x.path).extension() == ".ext" && base(x.path).find("_named_") != std::string::npos, "directory", "asked for a name in B, got " << x.path);
			MC_CHECK(!io::exists(x.path) && names.insert(x.path).second, "directory", "a name is given twice");
			io::spit(x.path, "x");
			x.t.reset(new temp_file(x.path));
			l.push_back(std::move(x));
			break; }
		case 12: {
			auto have = files_below(world::path(""));
			MC_TRACE("try directories");
			MC_CHECK(tempname::try_directory(A) && tempname::try_directory(B), "directory", "a directory is said to be unusable");
			MC_CHECK(!tempname::try_directory(A + "/plain") && !tempname::try_directory(missing), "directory", "what is no directory is said to be usable");
			MC_CHECK(files_below(world::path("")) == have, "files-left", "trying a directory has left something");
			break; }
		}
		if (!dflt.empty()) MC_CHECK(tempname::get_default_path() == dflt && tempname::get_actual_path() == dflt, "directory", "the default path is " << tempname::get_default_path() << " instead of " << dflt);
		for (auto & x : user) MC_CHECK(io::exists(x), "removed", "a file of the user has disappeared");
		for (auto & x : l) MC_CHECK(io::exists(x.path) == !x.gone, "removed", "a temporary file " << (x.gone ? "is left" : "has disappeared"));
		for (auto & x : {A, B}) MC_CHECK(fs::is_directory(x), "removed", "a directory of the user has disappeared");
		if (sub) MC_CHECK(fs::is_directory(A + "/sub"), "removed", "a directory of the user has disappeared");
		mc::state(mc::mix(mc::mix(l.size(), temp_dirs.size()), mc::hash_str(base(dflt), current.empty())));
	}
	l.clear();
	finish_tempfile();
	paths have = files_below(world::path(""));
	MC_CHECK(have == user, "shutdown", "after shutting down there are " << mc::show(have));
	for (auto & x : temp_dirs) MC_CHECK(!fs::exists(x), "shutdown", "a temporary directory is left");
	MC_CHECK(!fs::exists(missing) && !fs::exists(A + "/x"), "directory", "a directory has been created that nobody asked for");
	mc::outcome(temp_dirs.size());
}

// ----------------------------------------------------------------- counters
void user_counters() {
	// every counter, also those that do not exist
	const size_t n = 200;
	std::vector<stream_size_type> v(n);
	bool exists[n];
	for (size_t i = 0; i < n; ++i) v[i] = get_user(i);
	const stream_size_type r = get_bytes_read(), wr = get_bytes_written(), t = get_temp_file_usage();
	const size_t i = mc::choose(int(n)), delta = 1 + mc::choose(3);
	increment_user(i, delta);
	exists[i] = get_user(i) == v[i] + delta;
	if (i < 20) MC_CHECK(exists[i], "counters", "counter " << i << " went from " << v[i] << " to " << get_user(i) << " instead of by " << delta);
	else MC_CHECK(get_user(i) == 0, "counters", "counter " << i << " does not exist, but is " << get_user(i));
	for (size_t j = 0; j < n; ++j) if (j != i) MC_CHECK(get_user(j) == v[j], "counters", "counter " << j << " changed with counter " << i);
	MC_CHECK(get_bytes_read() == r && get_bytes_written() == wr && get_temp_file_usage() == t, "counters", "another counter changed with counter " << i);
	mc::transition();
	mc::state(i);
}

/// What can be copied, can be used like the original.
template <typename T, typename O, typename U>
void copied(const char * what, O open, U use) {
	if constexpr (std::is_copy_constructible<T>::value) {
		MC_TRACE("copy " << what);
		w->start();
		{
			T a;
			open(a);
			{ T b(a); use(b); exact("with a copy"); }
			exact("without the copy");
			use(a);
			MC_CHECK(w->used() >= 1, "account", "the original of a copy of " << what << " is closed");
		}
		exact("without the original");
		w->on = false;
	} else {
		(void)what; (void)open; (void)use;
	}
	mc::transition();
}
void copies() {
	switch (mc::choose(3)) {
	case 0: copied<file_stream<uint64_t>>("a file_stream", [](auto & s) { s.open(); s.write(1); }, [](auto & s) { s.write(2); }); break;
	case 1: copied<uncompressed_stream<uint64_t>>("an uncompressed_stream", [](auto & s) { s.open(); s.write(1); }, [](auto & s) { s.write(2); }); break;
	case 2: copied<tpie::file<uint64_t>>("a file", [](auto & s) { s.open(); }, [](auto & s) { s.size(); }); break;
	}
}

std::function<void()> W(std::function<void()> f, size_t block = 128) {
	world::config c;
	c.block_size = block;
	c.memory_limit = 8 << 20;
	return [=]() {
		injector i;
		i.budget = 0;
		i.lasting = false;
		inj = &i;
		watch x;
		w = &x;
		mc::clean_scratch();
		io::scoped_hook h([&](const io::call & k) { return x(k); });
		world::run(c, [&]() { tempname::tpie_name(); f(); });
		if (!x.complete) return;
		paths have = files_below(mc::scratch());
		if (!x.unlink_failed) MC_CHECK(have == x.stay, "shutdown", "after shutting down there are " << mc::show(have) << ", there should be " << mc::show(x.stay));
		if (!x.unlink_failed) for (auto & e : fs::directory_iterator(mc::scratch())) MC_CHECK(base(e.path().string()) == "user", "shutdown", base(e.path().string()) << " is left after shutting down");
	};
}

} // c19

using namespace c19;
int main(int argc, char ** argv) {
	const int Q = 1, T = 2;
	struct { const char * name; std::function<any_stream *()> mk; int q, t; } kinds[] = {
		{"file_stream", []() -> any_stream * { return new fs_t<0>; }, 4, 5},
		{"compressed", []() -> any_stream * { return new fs_t<1>; }, 4, 5},
		{"uncompressed_stream", []() -> any_stream * { return new us_t; }, 4, 5},
		{"file", []() -> any_stream * { return new file_t; }, 4, 5},
		{"serialization", []() -> any_stream * { return new ser_t<serialization_writer, serialization_reader>; }, 3, 4},
		{"reverse_serialization", []() -> any_stream * { return new ser_t<serialization_reverse_writer, serialization_reverse_reader>; }, 3, 4},
		{"reopened_writer", []() -> any_stream * { return new reser_t<serialization_writer>; }, 3, 4},
		{"reopened_reverse_writer", []() -> any_stream * { return new reser_t<serialization_reverse_writer>; }, 3, 4},
	};
	for (auto & k : kinds) {
		auto mk = k.mk;
		for (int t = 0; t < 2; ++t) {
			int depth = t ? k.t : k.q;
			mc::add({mc::strm() << "history_" << k.name << (t ? "_deep" : ""), mc::strm() << "every history of " << depth << " operations on two streams and two temporary files", c19::W([=]() { history(mk, depth); }), {}, {}, t ? T : Q});
		}
	}
	for (auto & k : kinds) {
		auto mk = k.mk;
		mc::add({std::string("at_limit_") + k.name, "every way of opening one file more than the enforced limit allows", c19::W([=]() { at_limit(mk); })});
	}
	static const scenario scenarios[] = {
		{"stack", do_stack, keys(NI)},
		{"queue", do_queue, keys(NI)},
		{"sort", do_sort, sorted(keys(NI))},
		{"merge_sorter", do_merge_sorter<false, default_store>, sorted(keys(NI))},
		{"priority_queue", do_pq, sorted(keys(PQ)), true, 129},
		{"serialization", do_serialization<serialization_writer, serialization_reader>, list{'a', 'b', 'c'}},
		{"reverse_serialization", do_serialization<serialization_reverse_writer, serialization_reverse_reader>, list{'c', 'b', 'a'}},
		{"serialization_sorter", do_serialization_sorter, sorted(keys(13))},
		{"pipe_sort", []() { return do_pipeline(0); }, pipeline_expected(0)},
		{"pipe_reverse", []() { return do_pipeline(1); }, pipeline_expected(1)},
		{"pipe_delayed", []() { return do_pipeline(2); }, pipeline_expected(2)},
		{"pipe_serialization_sort", []() { return do_pipeline(3); }, pipeline_expected(3)},
		{"pipe_serialization_reverse", []() { return do_pipeline(4); }, pipeline_expected(4)},
		{"pipe_output", []() { return do_pipeline(5); }, pipeline_expected(5)},
		{"serialized_btree", do_serialized_btree, sorted(keys(NI))},
		{"btree", c19::do_btree, sorted(keys(NI)), false},
		{"blocks", c19::do_blocks, list{0, 1, 2, 3}, false},
	};
	for (auto & s : scenarios) {
		if (s.faults) mc::add({std::string("faults_") + s.name, "every file system call failing, one at a time", c19::W([&]() { faults(s); }, s.block)});
		mc::add({std::string("limits_") + s.name, "every enforced limit on the number of open files up to what is needed", c19::W([&]() { limits(s); }, s.block)});
	}
	mc::add({"directories", "every history of 5 changes of the temporary directory and uses of temporary files", c19::W([]() { directories(5); }), {}, {}, Q});
	mc::add({"directories_deep", "every history of 7 changes of the temporary directory and uses of temporary files", c19::W([]() { directories(7); }), {}, {}, T});
	mc::add({"user_counters", "every counter up to ten times as many as there are", c19::W(user_counters)});
	mc::add({"copies", "streams and files, as far as they can be copied", c19::W(copies)});
	return mc::main(argc, argv);
}
