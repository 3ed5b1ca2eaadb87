// Minimal JSON event log shared by the harnesses.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
namespace jl {
inline FILE*& out() { static FILE* f = stdout; return f; }
inline bool& on() { static bool b = false; return b; }      // record pipeline events?
inline double& scale() { static double s = 1.0; return s; } // scale of the current case
static constexpr long BIG = 1000000000L;
inline long enc(double x) {
    if (x != x) return 2 * BIG;
    double v = x * scale();
    if (v >= BIG) return BIG;
    if (v <= -BIG) return -BIG;
    return std::lround(v);
}
struct Ev {
    std::string s;
    bool first = true;
    Ev() { s = "{"; }
    explicit Ev(char const* name) { s = "{"; str("e", name); }
    void key(char const* k) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; }
    Ev& str(char const* k, std::string const& v) {
        key(k); s += "\"";
        for (char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; } else s += c; }
        s += "\""; return *this; }
    Ev& num(char const* k, long long v) { key(k); s += std::to_string(v); return *this; }
    Ev& real(char const* k, double v) { key(k); s += std::to_string(enc(v)); return *this; }
    Ev& boolean(char const* k, bool b) { key(k); s += b ? "true" : "false"; return *this; }
    template <class C> Ev& ints(char const* k, C const& c) {
        key(k); s += "["; bool f = true;
        for (auto x : c) { if (!f) s += ","; f = false; s += std::to_string((long long)x); }
        s += "]"; return *this; }
    template <class C> Ev& reals(char const* k, C const& c) {
        key(k); s += "["; bool f = true;
        for (auto x : c) { if (!f) s += ","; f = false; s += std::to_string(enc((double)x)); }
        s += "]"; return *this; }
    template <class M> Ev& mat(char const* k, M const& m) {   // anything with size() and [i] iterable
        key(k); s += "[";
        for (size_t j = 0; j < m.size(); ++j) { if (j) s += ","; s += "["; bool f = true;
            for (auto x : m[j]) { if (!f) s += ","; f = false; s += std::to_string((long long)x); } s += "]"; }
        s += "]"; return *this; }
    void emit() { s += "}\n"; fwrite(s.data(), 1, s.size(), out()); }
};
}
