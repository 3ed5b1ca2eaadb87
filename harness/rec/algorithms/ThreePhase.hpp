// Recording wrapper of the real 3-phase (found through #include_next).
#ifndef VERIF_REC_THREEPHASE
#define VERIF_REC_THREEPHASE
#include "recorder.hpp"
#include "subgradient/Subgradient.hpp"
#include "fixing/ColFixing.hpp"
#define ThreePhase RealThreePhase
#include_next "algorithms/ThreePhase.hpp"
#undef ThreePhase
#ifndef VERIF_STUB_THREEPHASE
namespace cft {
class ThreePhase {
    RealThreePhase impl;
public:
    CftResult operator()(Environment const& env, Instance& inst) {
        if (jl::on()) rec::ev("tp0").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).mat("cols", inst.cols).reals("costs", inst.costs).mat("rows", inst.rows).emit();
        auto res = impl(env, inst);
        if (jl::on()) rec::ev("tp1").ints("sol", res.sol.idxs).real("cost", res.sol.cost).real("lb", res.dual.lb).reals("mult", res.dual.mults).emit();
        return res;
    }
};
}
#endif
#endif
