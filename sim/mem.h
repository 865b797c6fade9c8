// What is held in the simulated heap, by where it was allocated.
#pragma once
#include "scen.h"
struct Mem { long blocks = 0; size_t bytes = 0; std::map<uintptr_t, std::pair<long, size_t>> by; void take(uintptr_t from); std::string more_than(const Mem& o) const; };
