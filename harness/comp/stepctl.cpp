// Direct use of the managers.  case: what ...
//  0 step size: period init(real) n lb*n        (called at iterations 0..n-1)
//  1 exit: period abs rel(x 2^-20) n lb*n
//  2 pricing: period max n (core real ub)*   asks every iteration, updates when it says so, until the list is used up (at most 5000 iterations)
#include "jlog.hpp"
#include "core/cft.hpp"
#include "subgradient/utils.hpp"
#include <fstream>
using namespace cft;
static long fine(double s) { return std::lround(s * 5e7); }
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    int what;
    while (in >> what) {
        if (what == 0) {
            long p, n; double init; in >> p >> init >> n;
            local::StepSizeManager m((size_t)p, (real_t)init);
            { jl::Ev e("step0"); e.num("p", p).num("s", fine((double)(real_t)init)); e.emit(); }
            for (long i = 0; i < n; ++i) { long lb; in >> lb; real_t s = m((size_t)i, (real_t)lb); jl::Ev e("step"); e.num("it", i).num("lb", lb).num("s", fine((double)s)); e.emit(); }
        } else if (what == 1) {
            long p, n, a, r; in >> p >> a >> r >> n;
            Environment env; env.abs_subgrad_exit = (real_t)a; env.rel_subgrad_exit = (real_t)((double)r / 1048576.0);
            local::ExitConditionManager m((size_t)p);
            { jl::Ev e("exit0"); e.num("p", p).num("a", a).num("r", r); e.emit(); }
            for (long i = 0; i < n; ++i) { long lb; in >> lb; bool x = m(env, (size_t)i, (real_t)lb); jl::Ev e("exit"); e.num("it", i).num("lb", lb).boolean("x", x); e.emit(); }
        } else {
            long p, mx, n; in >> p >> mx >> n;
            local::PricingManager m((size_t)p, (size_t)mx);
            { jl::Ev e("price0"); e.num("p", p).num("max", mx); e.emit(); }
            long it = 0;
            for (long i = 0; i < n; ++i) {
                long c, r, u; in >> c >> r >> u;
                while (it < 5000 && !m((size_t)it)) ++it;
                if (it == 5000) continue;
                jl::Ev e("price"); e.num("it", it).num("c", c).num("r", r).num("u", u); e.emit();
                m.update((real_t)c, (real_t)r, (real_t)u); ++it;
            }
            while (it < 5000 && !m((size_t)it)) ++it;
            jl::Ev e("silent"); e.num("it", it); e.emit();
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
