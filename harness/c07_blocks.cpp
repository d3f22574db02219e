// C07: block collections never mix up, lose or leak blocks.
#include "world.h"
#include <tpie/blocks/block_collection.h>
#include <tpie/blocks/block_collection_cache.h>
#include <map>
#include <set>
#include <vector>

using namespace tpie;
using namespace tpie::blocks;

namespace {

struct live_t { block_handle h; uint8_t v; };

struct params { int depth; size_t block; int cache; int maxlive; };   // cache 0: no cache

struct model {
	std::vector<live_t> live;
	std::set<uint64_t> freed;      // positions released and not handed out again
	uint64_t end = 0;
	uint8_t next = 1;

	void allocated(const block_handle & h, size_t block) {
		MC_TRACE("  got " << h.position << "+" << h.size);
		MC_CHECK(h.size == block, "handle-size", "handle of " << h.size << " bytes, wanted " << block);
		for (auto & l : live)
			MC_CHECK(h.position + h.size <= l.h.position || l.h.position + l.h.size <= h.position, "overlap",
					 "new block at " << h.position << " overlaps a live block at " << l.h.position);
		if (!freed.empty()) {
			MC_CHECK(freed.count(h.position), "no-reuse", "file grew to " << h.position << " although " << freed.size() << " released blocks exist");
			freed.erase(h.position);
		} else {
			MC_CHECK(h.position == end, "end", "new block at " << h.position << ", file ends at " << end);
			end = h.position + h.size;
		}
	}
	uint64_t hash() const {
		uint64_t x = 5;
		for (auto & l : live) x = mc::mix(x, l.h.position);
		for (auto f : freed) x = mc::mix(x, f + 1000);
		return mc::mix(x, end);
	}
};

void fill(block & b, uint8_t v) { for (size_t i = 0; i < b.size(); ++i) b[i] = char(v * 16 + i); }
bool is(const block & b, uint8_t v) { for (size_t i = 0; i < b.size(); ++i) if (b[i] != char(v * 16 + i)) return false; return true; }

void cached(params P) {
	std::string path = world::path("blocks");
	auto mkc = [&](bool w) { return std::unique_ptr<block_collection_cache>(new block_collection_cache(path, P.block, P.cache, w)); };
	auto c = mkc(true);
	model m;
	auto check = [&](size_t i) {
		block * b = c->read_block(m.live[i].h);
		MC_CHECK(b->size() == P.block, "block-size", "read a block of " << b->size() << " bytes");
		MC_CHECK(is(*b, m.live[i].v), "content", "block at " << m.live[i].h.position << " does not hold what was written last");
	};
	for (int d = 0; d < P.depth; ++d) {
		mc::transition();
		mc::state(m.hash());
		int n = m.live.size();
		bool can = n < P.maxlive;
		int x = mc::choose(3 * n + 1 + (can ? 1 : 0));
		if (x < n) {
			MC_TRACE("write block " << x);
			check(x);
			block * b = c->read_block(m.live[x].h);
			fill(*b, m.live[x].v = m.next++);
			c->write_block(m.live[x].h);
		} else if (x < 2 * n) {
			MC_TRACE("read block " << x - n);
			check(x - n);
		} else if (x < 3 * n) {
			MC_TRACE("free block " << x - 2 * n);
			c->free_block(m.live[x - 2 * n].h);
			m.freed.insert(m.live[x - 2 * n].h.position);
			m.live.erase(m.live.begin() + (x - 2 * n));
		} else if (x == 3 * n) {
			MC_TRACE("close and reopen");
			c.reset();
			c = mkc(true);
		} else {
			MC_TRACE("allocate");
			live_t l;
			l.h = c->get_free_block();
			m.allocated(l.h, P.block);
			l.v = m.next++;
			block * b = c->read_block(l.h);
			MC_CHECK(b->size() == P.block, "block-size", "new block of " << b->size() << " bytes");
			fill(*b, l.v);
			c->write_block(l.h);
			m.live.push_back(l);
		}
	}
	for (size_t i = 0; i < m.live.size(); ++i) check(i);
	c.reset();
	c = mkc(false);
	for (size_t i = m.live.size(); i-- > 0;) check(i);
	MC_CHECK(io::slurp(path).size() <= m.end, "file-size", "file of " << io::slurp(path).size() << " bytes for " << m.end << " allocated");
	mc::outcome(m.hash());
}

void direct(params P) {
	std::string path = world::path("blocks");
	auto mkc = [&](bool w) { return std::unique_ptr<block_collection>(new block_collection(path, P.block, w)); };
	auto c = mkc(true);
	model m;
	block b(P.block);
	auto check = [&](size_t i) {
		block r;
		c->read_block(m.live[i].h, r);
		MC_CHECK(r.size() == P.block, "block-size", "read a block of " << r.size() << " bytes");
		MC_CHECK(is(r, m.live[i].v), "content", "block at " << m.live[i].h.position << " does not hold what was written last");
	};
	for (int d = 0; d < P.depth; ++d) {
		mc::transition();
		mc::state(m.hash());
		int n = m.live.size();
		bool can = n < P.maxlive;
		int x = mc::choose(2 * n + 1 + (can ? 1 : 0));
		if (x < n) {
			MC_TRACE("write block " << x);
			fill(b, m.live[x].v = m.next++);
			c->write_block(m.live[x].h, b);
		} else if (x < 2 * n) {
			MC_TRACE("free block " << x - n);
			c->free_block(m.live[x - n].h);
			m.freed.insert(m.live[x - n].h.position);
			m.live.erase(m.live.begin() + (x - n));
		} else if (x == 2 * n) {
			MC_TRACE("close and reopen");
			c.reset();
			c = mkc(true);
		} else {
			MC_TRACE("allocate");
			live_t l;
			l.h = c->get_free_block();
			m.allocated(l.h, P.block);
			fill(b, l.v = m.next++);
			c->write_block(l.h, b);
			m.live.push_back(l);
		}
		for (size_t i = 0; i < m.live.size(); ++i) check(i);
	}
	c.reset();
	c = mkc(false);
	for (size_t i = m.live.size(); i-- > 0;) check(i);
	mc::outcome(m.hash());
}

void add(const std::string & name, params P, int tiers) {
	mc::suite_t s;
	s.name = name; s.tiers = tiers;
	s.what = mc::strm() << "every history of " << P.depth << " operations (allocate+write, write i, " << (P.cache ? "read i, " : "") << "free i, close+reopen) on a "
		<< (P.cache ? "cached " : "") << "block collection with up to " << P.maxlive << " live blocks of " << P.block << " bytes" << (P.cache ? ", cache of " + std::to_string(P.cache) : std::string());
	s.body = [=]() {
		world::config c;
		c.block_size = 64;
		c.s.reduce = false;
		world::run(c, [=]() { if (P.cache) cached(P); else direct(P); });
		mc::clean_scratch();
	};
	mc::add(s);
}

} // unnamed

int main(int argc, char ** argv) {
	add("cache_1", params{8, 8, 1, 4}, 1);
	add("cache_2", params{8, 8, 2, 4}, 1);
	add("cache_3", params{8, 8, 3, 4}, 1);
	add("cache_1_9", params{9, 8, 1, 4}, 2);
	add("cache_2_9", params{9, 8, 2, 4}, 2);
	add("cache_3_9", params{9, 8, 3, 5}, 2);
	add("direct", params{8, 8, 0, 4}, 1);
	add("direct_10", params{10, 8, 0, 4}, 2);
	add("direct_odd", params{8, 13, 0, 4}, 3);
	return mc::main(argc, argv);
}
