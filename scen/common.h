// Helpers shared by the scenarios.
#pragma once
#include <simrt.h>
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <functional>

namespace scn {
using namespace cyclone;

// deterministic payload byte of stream `s` at position `i`
inline unsigned char pat(uint32_t s, uint64_t i) { uint64_t z = (i + 1) * 0x9e3779b97f4a7c15ull ^ ((uint64_t)s << 32) * 0xd6e8feb86659fd93ull; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; return (unsigned char)(z >> 40); }
inline void fill(std::string& out, uint32_t s, uint64_t from, size_t n) { out.resize(n); for (size_t i = 0; i < n; i++) out[i] = (char)pat(s, from + i); }

// a size with many small and some large values
inline uint32_t pick_size(uint32_t max) {
  switch (sim::choose(5)) {
    case 0: return sim::choose(4);
    case 1: return sim::choose(40);
    case 2: return sim::choose(std::min<uint32_t>(max, 600) + 1);
    case 3: return sim::choose(std::min<uint32_t>(max, 5000) + 1);
    default: return sim::choose(max + 1);
  }
}
}
