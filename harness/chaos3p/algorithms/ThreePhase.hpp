// Stand-in of the whole 3-phase: random covers of the instance it is given.
#ifndef VERIF_CHAOS_THREEPHASE
#define VERIF_CHAOS_THREEPHASE
#include "chaos.hpp"
#include "recorder.hpp"
#include "core/cft.hpp"
#include "core/Instance.hpp"
#include "fixing/FixingData.hpp"
#include "utils/CoverCounters.hpp"
#include "utils/sort.hpp"
#define VERIF_STUB_THREEPHASE
#include_next "algorithms/ThreePhase.hpp"
namespace cft {
class ThreePhase {
public:
    CftResult operator()(Environment const& env, Instance& inst) {
        if (jl::on()) rec::ev("tp0").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).mat("cols", inst.cols).reals("costs", inst.costs).mat("rows", inst.rows).emit();
        CftResult res;
        auto s = chaos::cover(inst, chaos::rng().chance(60));
        res.sol.cost = 0; real_t tot = 0;
        for (int j : s) { res.sol.idxs.push_back((cidx_t)j); res.sol.cost += inst.costs[j]; }
        for (ridx_t i = 0; i < rsize(inst.rows); ++i) { real_t u = (real_t)chaos::rng().below(17) / 8; res.dual.mults.push_back(u); tot += u; }
        auto k = chaos::rng().below(12);
        res.dual.lb = k == 0 ? limits<real_t>::min() : k == 1 ? res.sol.cost : res.sol.cost * (real_t)chaos::rng().below(9) / 16;
        // the caller must not rely on what is left of the instance
        if (chaos::rng().chance(70)) clear_inst(inst);
        if (chaos::rng().chance(20)) (void)env.timer.elapsed<sec>();
        if (jl::on()) rec::ev("tp1").ints("sol", res.sol.idxs).real("cost", res.sol.cost).real("lb", res.dual.lb).reals("mult", res.dual.mults).emit();
        return res;
    }
};
}
#endif
