#pragma once
#include <cstdint>
namespace mcclock {
/// Virtual time from now on, advancing by `step` ns at every query.
void enable(uint64_t step = 0);
void disable();
void advance(uint64_t ns);
}
