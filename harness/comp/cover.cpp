// Cover counters.  case: n nops then ops: code(0 cover,1 uncover,2 q-cover,3 q-uncover,4 reset) kind k elems*   (4: n)
// codes 5 and 6: cover / uncover repeated:  code kind times k elems*
// kind selects the container the subset is passed in.
#include "jlog.hpp"
#include "core/Instance.hpp"
#include "utils/CoverCounters.hpp"
#include "utils/SparseBinMat.hpp"
#include <fstream>
#include <list>
using namespace cft;
template <class S> static long long apply(CoverCounters& c, int op, S const& s) {
    CoverCounters const& cc = c;
    return op == 0 ? (long long)c.cover(s) : op == 1 ? (long long)c.uncover(s) : op == 2 ? (long long)cc.is_redundant_cover(s) : (long long)cc.is_redundant_uncover(s);
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    long n;
    while (in >> n) {
        CoverCounters c{(size_t)(n)};
        long no; in >> no;
        { std::vector<long long> v; for (size_t i = 0; i < c.size(); ++i) v.push_back(c[i]); jl::Ev e("new"); e.num("n", n).ints("cnt", v); e.emit(); }
        static char const* names[] = {"cover", "uncover", "qcover", "quncover", "reset", "covern", "uncovern"};
        for (long q = 0; q < no; ++q) {
            int op, kind; long k; in >> op;
            jl::Ev e(names[op]);
            if (op == 4) { in >> k; c.reset(k); e.num("n", k); }
            else {
                long times = 1; in >> kind; if (op >= 5) { in >> times; e.num("k", times); }
                in >> k; std::vector<int> s(k); for (auto& x : s) in >> x;
                long long r = 0; int const rop = op >= 5 ? op - 5 : op;
                for (long q2 = 0; q2 < times; ++q2) {
                long long r1;
                if (kind == 0) r1 = apply(c, rop, s);
                else if (kind == 1) { std::vector<ridx_t> v(s.begin(), s.end()); r1 = apply(c, rop, v); }
                else if (kind == 2) { std::list<uint8_t> v(s.begin(), s.end()); r1 = apply(c, rop, v); }
                else { SparseBinMat<ridx_t> m; m.push_back({0, 1, 2}); std::vector<ridx_t> v(s.begin(), s.end()); m.push_back(v); m.push_back({1}); r1 = apply(c, rop, m[1]); }
                r += r1; }
                e.ints("s", s).num("ret", r);
            }
            std::vector<long long> v; for (size_t i = 0; i < c.size(); ++i) v.push_back(c[i]);
            e.ints("cnt", v); e.emit();
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
