// The allocator as seen by the code under test: counted and made to fail on
// request while watched.  Only active in builds with SIM_WRAP_MALLOC.
#pragma once
#include <cstdint>
namespace sim { namespace alloc {
bool on();
void watch(bool w, long fail_at = 0);   // fail_at: fails at the n-th allocation
bool failed();                          // an allocation failed since watch(true)
long live();                            // allocations made while watched, not yet freed
long calls();                           // allocator calls since watch(true)
} }
