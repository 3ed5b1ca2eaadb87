// Random numbers.  case: nops op*
//  s slot kind seed(u64) | f slot kind w0 w1 w2 w3 | c from slot | n slot | k slot fk (0 float 1 double 2 long double)
//  r slot fk min max | d slot type min max | D slot lo hi n (values seen) | b slot p(0..1000) | B slot p n
#include "jlog.hpp"
#include <cstdint>
#include <cstring>
#include "utils/random.hpp"
#include <fstream>
#include <string>
#include <map>
using namespace cft;
struct Any { int kind = 0; Xoshiro256P a; Xoshiro256PP b; Xoshiro128P c; Xoshiro128PP d; };
static char const* NAMES[] = {"256p", "256pp", "128p", "128pp"};
template <class F> static auto with(Any& g, F f) -> decltype(f(g.a)) { return g.kind == 0 ? f(g.a) : g.kind == 1 ? f(g.b) : g.kind == 2 ? f(g.c) : f(g.d); }
template <class T> static std::vector<int> bytes(T x, size_t n = sizeof(T)) { std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back((int)((uint64_t)x >> (8 * i) & 255)); return v; }
struct SetState { uint64_t const* w; template <class G> int operator()(G& g) const { for (int i = 0; i < 4; ++i) g.state[i] = (typename G::result_type)w[i]; return 0; } };
struct Lim { template <class G> bool operator()(G&) const { return G::min() == 0 && G::max() == std::numeric_limits<typename G::result_type>::max() && G::max() == (typename G::result_type)~0ULL; } };
struct NextB { template <class G> std::vector<int> operator()(G& g) const { return bytes(g()); } };
template <class R> struct Canon { long nbits; bool* exact; template <class G> std::vector<int> operator()(G& g) const {
    R x = canonical_gen<R>(g); size_t w = sizeof(typename G::result_type);
    long double v = (long double)x * (nbits == 64 ? 18446744073709551616.0L : (long double)(1ULL << nbits));
    *exact = x >= 0 && x < 1 && v == (long double)(uint64_t)v; return bytes((uint64_t)v, w); } };
template <class R> struct Real { R lo, hi; bool* in; template <class G> long operator()(G& g) const { R x = rnd_real<R>(g, lo, hi); *in = lo <= x && x <= hi; return (long)std::floor(((long double)x - lo) / ((long double)hi - lo) * 65536.0L + 0.25L); } };
template <class T> struct Dice { T lo, hi; T* r; template <class G> bool operator()(G& g) const { G h = g; *r = roll_dice<T>(g, lo, hi); T s = roll_dice<T>(h, lo, hi); return s == *r && memcmp(g.state, h.state, sizeof g.state) == 0; } };
struct Flip { double p; template <class G> bool operator()(G& g) const { return p == 0.5 ? coin_flip(g) : coin_flip(g, p); } };
template <class T> static void dice(std::ifstream& in, Any& g, long slot) {
    long long lo, hi; std::string sl, sh; in >> sl >> sh; lo = sl[0] == '-' ? strtoll(sl.c_str(), 0, 10) : (long long)strtoull(sl.c_str(), 0, 10); hi = sh[0] == '-' ? strtoll(sh.c_str(), 0, 10) : (long long)strtoull(sh.c_str(), 0, 10);
    T r; bool again = with(g, Dice<T>{(T)lo, (T)hi, &r});
    jl::Ev e("dice"); e.num("slot", slot).boolean("inside", (T)lo <= r && r <= (T)hi).boolean("again", again); e.emit();
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    long n;
    while (in >> n) {
        std::map<long, Any> gs;
        for (long q = 0; q < n; ++q) {
            char op; long slot; in >> op;
            if (op == 'c') { long from; in >> from >> slot; Any x = gs[from]; gs[slot] = x; jl::Ev e("fork"); e.num("from", from).num("slot", slot); e.emit(); continue; }
            in >> slot;
            Any& g = gs[slot];
            if (op == 's') { uint64_t seed; in >> g.kind >> seed; if (g.kind == 0) g.a = Xoshiro256P(seed); else if (g.kind == 1) g.b = Xoshiro256PP(seed); else if (g.kind == 2) g.c = Xoshiro128P(seed); else g.d = Xoshiro128PP(seed);
                if (seed == 0) { if (g.kind == 0) g.a = Xoshiro256P(); else if (g.kind == 1) g.b = Xoshiro256PP(); else if (g.kind == 2) g.c = Xoshiro128P(); else g.d = Xoshiro128PP(); }
                jl::Ev e("seed"); e.num("slot", slot).str("kind", NAMES[g.kind]).ints("seed", bytes(seed)).boolean("lim", with(g, Lim{})); e.emit(); }
            else if (op == 'f') { uint64_t w[4]; in >> g.kind >> w[0] >> w[1] >> w[2] >> w[3]; with(g, SetState{w}); std::vector<std::vector<int>> s; for (auto x : w) s.push_back(bytes(x, g.kind < 2 ? 8 : 4));
                jl::Ev e("force"); e.num("slot", slot).str("kind", NAMES[g.kind]).mat("s", s); e.emit(); }
            else if (op == 'n') { jl::Ev e("next"); e.num("slot", slot).ints("out", with(g, NextB{})); e.emit(); }
            else if (op == 'k') { int fk; in >> fk; bool ex = false; long w = g.kind < 2 ? 64 : 32, k = fk == 0 ? 24 : fk == 1 ? (w == 32 ? 32 : 53) : w;
                auto b = fk == 0 ? with(g, Canon<float>{k, &ex}) : fk == 1 ? with(g, Canon<double>{k, &ex}) : with(g, Canon<long double>{k, &ex});
                jl::Ev e("canon"); e.num("slot", slot).num("k", k).boolean("exact", ex).ints("bits", b); e.emit(); }
            else if (op == 'r') { int fk; double lo, hi; in >> fk >> lo >> hi; bool i = false; 
                long v = fk == 0 ? with(g, Real<float>{(float)lo, (float)hi, &i}) : fk == 1 ? with(g, Real<double>{lo, hi, &i}) : with(g, Real<long double>{lo, hi, &i});
                jl::Ev e("real"); e.num("slot", slot).boolean("inside", i).num("v", v); e.emit(); }
            else if (op == 'd') { int ty; in >> ty; switch (ty) { case 0: dice<int>(in, g, slot); break; case 1: dice<unsigned>(in, g, slot); break; case 2: dice<int64_t>(in, g, slot); break; case 3: dice<uint64_t>(in, g, slot); break;
                case 4: dice<int16_t>(in, g, slot); break; case 5: dice<uint16_t>(in, g, slot); break; case 6: dice<int8_t>(in, g, slot); break; default: dice<uint8_t>(in, g, slot); } }
            else if (op == 'D') { long lo, hi, m; in >> lo >> hi >> m; jl::Ev("dice0").emit();
                for (long i = 0; i < m; ++i) { int r; with(g, Dice<int>{(int)lo, (int)hi, &r}); jl::Ev e("dicen"); e.num("slot", slot).num("lo", lo).num("hi", hi).num("r", r); e.emit(); }
                jl::Ev e("dice1"); e.num("lo", lo).num("hi", hi); e.emit(); }
            else if (op == 'b') { long p; in >> p; bool r = with(g, Flip{p / 1000.0}); jl::Ev e("flip"); e.num("slot", slot).num("p", p).boolean("r", r); e.emit(); }
            else if (op == 'B') { long p, m, c = 0; in >> p >> m; Any h = g; for (long i = 0; i < m; ++i) c += with(h, Flip{p / 1000.0}); jl::Ev e("flips"); e.num("slot", slot).num("p", p).num("n", m).num("trues", c); e.emit(); }
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
