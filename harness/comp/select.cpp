// Selection helpers.  case: what ... ; elements are (key, id) pairs, keys are small integers.
// what 0: sorted array   N keykind nops (0 try_insert k id | 1 clear | 2 insert k id)
// what 1: sort, 2: nth_element (+ n), 3: range_min, 4: remove_if (+ modulus, remainder):  keykind n (k id)*
// what 5: min/max/clamp/abs/any/all of integers: n v*
#include "jlog.hpp"
#include <cstdint>
#include <cstring>
#include <algorithm>
#include "utils/SortedArray.hpp"
#include "utils/sort.hpp"
#include "utils/utility.hpp"
#include "utils/Span.hpp"
#include <fstream>
using namespace cft;
struct El { int k; int id; };
struct FKey { float operator()(El const& e) const { return (float)e.k * 0.5f; } };
struct IKey { int operator()(El const& e) const { return e.k; } };
struct NKey { double operator()(El const& e) const { return -1.0 * e.k; } };
struct MKey { std::vector<int> const* tab; long operator()(El const& e) const { return (*tab)[e.k + 32]; } };
static std::vector<int> table() { std::vector<int> t; for (int i = 0; i < 128; ++i) t.push_back(((i - 32) * 37) % 101); return t; }
static std::vector<int> const TAB = table();
static int keyof(int kind, El const& e) { return kind == 2 ? -e.k : kind == 3 ? TAB[e.k + 32] : e.k; }
template <class C> static void put(jl::Ev& e, char const* nk, char const* ni, C const& c, int kind) {
    std::vector<int> ks, is; for (auto const& x : c) { ks.push_back(keyof(kind, x)); is.push_back(x.id); }
    e.ints(nk, ks).ints(ni, is);
}
template <size_t N, class K> static void sorted(std::ifstream& in, K key, int kind) {
    auto a = make_custom_key_sorted_array<El, N>(key);
    long no; in >> no;
    { jl::Ev e("new"); e.num("n", N).num("sz", (long long)a.size()); e.emit(); }
    for (long q = 0; q < no; ++q) {
        int op; El x{0, 0}; in >> op; if (op != 1) in >> x.k >> x.id;
        bool taken = true;
        if (op == 1) a.clear(); else if (op == 2 && a.size() < N) a.insert(x); else { op = 0; taken = a.try_insert(x); }
        jl::Ev e(op == 1 ? "clear" : op == 2 ? "insert" : "try"); 
        e.num("k", keyof(kind, x)).num("id", x.id).boolean("taken", taken).num("sz", (long long)a.size());
        std::vector<El> c(a.begin(), a.end()); put(e, "ks", "ids", c, kind);
        std::vector<int> ix; for (size_t i = 0; i < a.size(); ++i) ix.push_back(a[i].id);
        e.ints("ix", ix).num("back", a.size() ? a.back().id : -1); e.emit();
    }
}
template <class K> static void sortedN(std::ifstream& in, int n, K key, int kind) {
    if (n == 1) sorted<1>(in, key, kind); else if (n == 2) sorted<2>(in, key, kind); else if (n == 3) sorted<3>(in, key, kind); else if (n == 5) sorted<5>(in, key, kind); else sorted<8>(in, key, kind);
}
template <class K> static void algo(std::ifstream& in, int what, int kind, K key) {
    long n, a = 0, b = 1; in >> n; std::vector<El> v(n); for (auto& x : v) in >> x.k >> x.id;
    if (what == 2 || what == 4) in >> a; if (what == 4) in >> b;
    jl::Ev e(what == 1 ? "sort" : what == 2 ? "nth" : what == 3 ? "min" : "remove"); put(e, "ks0", "ids0", v, kind);
    std::vector<El> w = v;
    if (what == 1) cft::sort(w, key);
    else if (what == 2) { cft::nth_element(w, (size_t)a, key); e.num("n", a); }
    else if (what == 3) { auto m = cft::range_min(v, key); auto s = make_span(v.begin(), (size_t)v.size()); auto m2 = cft::range_min(s, key); w = {m, m2}; }
    else { cft::remove_if(w, [&](El const& x) { return ((x.id % a) + a) % a == b; });
           e.num("a", a).num("b", b).boolean("any", cft::any(v, [&](El const& x) { return ((x.id % a) + a) % a == b; })).boolean("all", cft::all(v, [&](El const& x) { return ((x.id % a) + a) % a == b; })); }
    put(e, "ks", "ids", w, kind); e.emit();
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    int what;
    MKey mk{&TAB};
    while (in >> what) {
        if (what == 0) { int n, kind; in >> n >> kind; if (kind == 0) sortedN(in, n, FKey{}, 0); else if (kind == 1) sortedN(in, n, IKey{}, 1); else if (kind == 2) sortedN(in, n, NKey{}, 2); else sortedN(in, n, mk, 3); }
        else if (what < 5) { int kind; in >> kind; if (kind == 0) algo(in, what, 0, FKey{}); else if (kind == 1) algo(in, what, 1, IKey{}); else if (kind == 2) algo(in, what, 2, NKey{}); else algo(in, what, 3, mk); }
        else if (what == 5) {
            long n; in >> n; std::vector<int> v(n); for (auto& x : v) in >> x;
            int raw[3] = {v[0], v[1], v[2]}; auto w = v; cft::sort(w);
            jl::Ev e("ints"); e.ints("v", v).num("min2", cft::min(v[0], v[1])).num("max2", cft::max(v[0], v[1])).num("min3", cft::min(v[0], v[1], v[2])).num("max3", cft::max(v[0], v[1], v[2]))
                .num("min4", cft::min(v[0], (long)v[1], (short)v[2], v[3])).num("max4", cft::max((long)v[0], v[1], (short)v[2], (long long)v[3]))
                .num("abs", cft::abs(v[0])).num("fabs", (long long)cft::abs((float)v[1])).num("clamp", cft::clamp(v[0], (v[1] < v[2] ? v[1] : v[2]), (v[1] < v[2] ? v[2] : v[1])))
                .num("rmin", cft::range_min(v)).num("crmin", cft::range_min(raw)).num("csz", (long long)cft::size(raw)).num("sz", (long long)cft::size(v)).ints("srt", w); e.emit();
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
