// C01: every bounded history of operations on a file_stream (uncompressed,
// compressed) agrees with a sequence-plus-cursor model.
#include "stream_driver.h"

using namespace tpie;
using namespace stream_driver;

namespace {

/// Several streams at once: they compete for the shared buffers and the
/// compressor thread's queue.
template <size_t SZ>
void several(params P, int n, bool factors) {
	driver<SZ> d[3];
	static const double f[3] = {1.0, 2.0, 0.5};
	for (int i = 0; i < n; ++i) {
		d[i].P = P;
		if (factors) d[i].P.items_per_block = size_t(P.items_per_block * f[i]);
		d[i].next = 1 + 50 * i;
		d[i].start("s" + std::to_string(i), factors ? f[i] : 1.0);
	}
	for (int k = 0; k < P.depth; ++k) {
		std::vector<int> ops = d[0].enabled(false, false, true);
		int c = mc::choose(ops.size() * n);
		MC_TRACE("stream " << c % n);
		d[c % n].perform(ops[c / n]);
	}
	for (int i = 0; i < n; ++i) { MC_TRACE("stream " << i); d[i].verify(); }
}

template <size_t SZ>
void add(const std::string & name, params P, int tiers) {
	mc::suite_t s;
	s.name = name;
	s.tiers = tiers;
	s.what = mc::strm() << "every history of " << P.depth << " operations (write, write a whole block, read, peek, read_back, seek begin/end/middle/current, "
		"get/set_position, truncate 0/middle/position, user data, close+reopen, reopen read-only) on a "
		<< (P.comp == 0 ? "uncompressed" : P.comp == 1 ? "compressed (normal)" : "compressed (all)") << " file_stream of " << SZ << "-byte items, "
		<< P.items_per_block << " items per block, from a fresh stream and from reopened streams of 0..3.5 blocks";
	s.body = [P]() {
		world::config c;
		c.block_size = P.items_per_block * SZ;
		c.s.preemptions = 0;
		c.s.notify_choice = false;
		c.s.reduce = false;
		world::run(c, [P]() { driver<SZ> d; d.P = P; d.body(); });
		mc::clean_scratch();
	};
	mc::add(s);
}

void add_several(const std::string & name, params P, int n, bool factors, int tiers) {
	mc::suite_t s;
	s.name = name;
	s.tiers = tiers;
	s.what = mc::strm() << "every interleaving of " << P.depth << " operations (write a block, read, read_back, seek begin/end) on " << n
		<< " open " << (P.comp ? "compressed" : "uncompressed") << " streams" << (factors ? " with block factors 1, 2, 0.5" : "")
		<< " sharing the buffer pool and the I/O thread";
	s.body = [=]() {
		world::config c;
		c.block_size = P.items_per_block * 8;
		c.s.notify_choice = false;
		c.s.reduce = false;
		world::run(c, [=]() { several<8>(P, n, factors); });
		mc::clean_scratch();
	};
	mc::add(s);
}

} // unnamed

int main(int argc, char ** argv) {
	add<8>("file_stream_plain", params{2, 0, 5}, 1);
	add<8>("file_stream_compressed", params{2, 2, 5}, 1);
	add<8>("file_stream_plain_6", params{2, 0, 6}, 2);
	add<8>("file_stream_compressed_6", params{2, 2, 6}, 2);
	add<24>("file_stream_compressed_24", params{3, 1, 4}, 1);
	add<24>("file_stream_compressed_24", params{3, 1, 5}, 2);
	add_several("three_plain_streams", params{2, 0, 4}, 3, false, 1);
	add_several("three_compressed_streams", params{2, 2, 4}, 3, false, 1);
	add_several("three_plain_streams_5", params{2, 0, 5}, 3, false, 2);
	add_several("three_compressed_streams_5", params{2, 2, 5}, 3, false, 2);
	add_several("block_factors_plain", params{2, 0, 4}, 3, true, 3);
	add_several("block_factors_compressed", params{2, 2, 4}, 3, true, 3);
	return mc::main(argc, argv);
}
