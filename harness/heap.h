// Counts the heap blocks of the code under test, and fails any one allocation.
#pragma once
#include "world.h"
#include <tpie/compressed/stream.h>
#include <tpie/compressed/request.h>
#include <cstdlib>
#include <new>
#include <vector>

// ------------------------------------------------------------------- the heap
namespace heap {
bool armed = false;      // count, and fail number fail_at
long live = 0;           // blocks that have not been freed, but for the scheduler's
size_t calls = 0;
size_t fail_at = 0;      // 1-based; 0: none
size_t failed = 0;
size_t top = 0;          // largest use of the memory account seen at an allocation
std::vector<size_t> * tops = nullptr; // every new maximum of it

struct header { uint64_t magic, pad; };
const uint64_t counted = 0x4d43686561706161, plain = 0x4d43686561707062;

// The queue of the I/O thread allocates a node now and then, depending on all that
// went before: such allocations are not counted and never fail.
const size_t queue_node = 512 / sizeof(tpie::compressor_request) * sizeof(tpie::compressor_request);

void * take(size_t n) {
	uint64_t m = plain;
	const bool theirs = !sched::in_runtime() && !io::busy() && n != queue_node;
	if (theirs) m = counted;
	if (theirs && armed && ++calls == fail_at) { ++failed; throw std::bad_alloc(); }
	header * h = static_cast<header *>(malloc(n + sizeof(header)));
	if (!h) throw std::bad_alloc();
	h->magic = m;
	if (m == counted) {
		++live;
		if (tops && armed) {
			armed = false;
			size_t u = tpie::get_memory_manager().used();
			if (u > top) { top = u; tops->push_back(u); }
			armed = true;
		}
	}
	return h + 1;
}
void give(void * p) {
	if (!p) return;
	header * h = static_cast<header *>(p) - 1;
	if (h->magic != counted && h->magic != plain) mc::fail_hard("heap", "something is freed that was not allocated, or is freed twice");
	if (h->magic == counted) --live;
	h->magic = 0xdead;
	free(h);
}
} // namespace heap
#ifndef MC_RACES
void * operator new(size_t n) { return heap::take(n); }
void * operator new[](size_t n) { return heap::take(n); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { try { return heap::take(n); } catch (...) { return nullptr; } }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { try { return heap::take(n); } catch (...) { return nullptr; } }
void operator delete(void * p) noexcept { heap::give(p); }
void operator delete[](void * p) noexcept { heap::give(p); }
void operator delete(void * p, size_t) noexcept { heap::give(p); }
void operator delete[](void * p, size_t) noexcept { heap::give(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { heap::give(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { heap::give(p); }
#endif
