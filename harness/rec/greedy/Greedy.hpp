#ifndef VERIF_REC_GREEDY
#define VERIF_REC_GREEDY
#include "recorder.hpp"
#include "core/Instance.hpp"
#define Greedy RealGreedy
#include_next "greedy/Greedy.hpp"
#undef Greedy
namespace cft {
class Greedy {
    RealGreedy impl;
public:
    real_t operator()(Instance const& inst, std::vector<real_t> const& u, std::vector<real_t> const& rc, std::vector<cidx_t>& sol,
                      real_t cutoff = limits<real_t>::max(), cidx_t max_size = limits<cidx_t>::max()) {
        auto before = sol;
        real_t c = impl(inst, u, rc, sol, cutoff, max_size);
        if (jl::on()) rec::ev("gr").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).ints("inp", before).ints("sol", sol)
            .real("cost", c).real("cut", cutoff).num("max", max_size > jl::BIG ? jl::BIG : (long long)max_size)
            .boolean("below", c < cutoff).emit();
        return c;
    }
};
}
#endif
