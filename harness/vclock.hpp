// Virtual clock: replaces std::chrono::steady_clock::now() in the whole program. Every reading
// advances the time by one microsecond; once armed for a limit, nine tenths of it have passed since
// the timer was made, and from reading number `expire_at` on eleven tenths (a limit of zero has
// always expired). Deterministic, hence also used when nothing expires.
#pragma once
#include <chrono>
#include <cstdint>
namespace vclock {
struct State { int64_t reads = 0; int64_t expire_at = -1; int64_t base = 0; int64_t jump = 0; };
inline State& st() { static State s; return s; }
static constexpr int64_t SEC = 1000000000LL;
inline bool expired() { return st().expire_at >= 0 && st().reads >= st().expire_at; }
inline void reset(int64_t expire_at) { st().reads = 0; st().expire_at = expire_at; st().base = 0; st().jump = 0; }
// the timer has been made: expire after `n` more readings (never if negative)
inline void arm(int64_t n, double limit = 1000) {
    st().base = (int64_t)(limit * 0.9 * SEC);
    st().jump = (int64_t)(limit * 0.2 * SEC);
    st().expire_at = n >= 0 ? st().reads + n : -1;
    if (limit <= 0) { st().jump = SEC / 1000; st().expire_at = st().reads; }
}
}
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((used, noinline)) steady_clock::time_point steady_clock::now() noexcept {
    auto& s = vclock::st();
    int64_t t = vclock::SEC + s.reads * 1000LL + s.base;
    if (s.expire_at >= 0 && s.reads >= s.expire_at) t += s.jump;
    ++s.reads;
    return time_point(duration(t));
}
}}}
