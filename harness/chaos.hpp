// Arbitrary but lawful stand-ins for the phases: whatever the contract allows, chosen by a seeded
// generator of our own (not the library's).
#pragma once
#include <cstdint>
#include <vector>
#include <algorithm>
namespace chaos {
struct Rng { uint64_t s = 1;
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ULL >> 11; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(int pct) { return (int)below(100) < pct; } };
inline Rng& rng() { static Rng r; return r; }
inline void seed(uint64_t s) { rng().s = s * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (int i = 0; i < 8; ++i) rng().next(); }
// random cover of inst, made of columns in random order, possibly with redundant columns
template <class I> std::vector<int> cover(I const& inst, bool lean) {
    std::vector<int> perm; for (size_t j = 0; j < inst.costs.size(); ++j) perm.push_back((int)j);
    for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[rng().below(i)]);
    if (lean) std::stable_sort(perm.begin(), perm.end(), [&](int a, int b) { return inst.costs[a] * inst.cols[b].size() < inst.costs[b] * inst.cols[a].size(); });
    if (lean) for (size_t i = 0; i + 1 < perm.size(); ++i) if (rng().chance(25)) std::swap(perm[i], perm[i + 1]);
    std::vector<char> cov(inst.rows.size(), 0); std::vector<int> sel;
    for (int j : perm) { bool n = false; for (auto i : inst.cols[j]) n = n || !cov[i]; if (!n) continue; for (auto i : inst.cols[j]) cov[i] = 1; sel.push_back(j); }
    return sel;
}
}
