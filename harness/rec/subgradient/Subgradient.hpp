#ifndef VERIF_REC_SUBGRADIENT
#define VERIF_REC_SUBGRADIENT
#include "recorder.hpp"
#include "subgradient/Pricer.hpp"
#include "greedy/Greedy.hpp"
#include "subgradient/utils.hpp"
#define Subgradient RealSubgradient
#include_next "subgradient/Subgradient.hpp"
#undef Subgradient
#ifndef VERIF_STUB_SUBGRADIENT
namespace cft {
class Subgradient {
    RealSubgradient impl;
public:
    real_t operator()(Environment const& env, Instance const& inst, real_t cutoff, Pricer price, InstAndMap& core,
                      real_t& step, std::vector<real_t>& u) {
        if (jl::on()) rec::ev("sub0").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).real("cut", cutoff).reals("mult", u)
            .ints("map", core.col_map).mat("cols", core.inst.cols).reals("costs", core.inst.costs).mat("rows", core.inst.rows).emit();
        real_t lb = impl(env, inst, cutoff, price, core, step, u);
        if (jl::on()) rec::ev("sub1").real("lb", lb).reals("mult", u).boolean("above", lb >= cutoff - env.epsilon)
            .boolean("stepok", step >= 0.9e-6f && step <= 10.0001f).emit();
        return lb;
    }
    void heuristic(Environment const& env, Instance const& inst, real_t step, Greedy& greedy, Solution& sol, std::vector<real_t>& u) {
        if (jl::on()) rec::ev("heu0").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).real("cut", sol.cost).reals("mult", u).emit();
        impl.heuristic(env, inst, step, greedy, sol, u);
        if (jl::on()) rec::ev("heu1").ints("sol", sol.idxs).real("cost", sol.cost).reals("mult", u).emit();
    }
};
}
#endif
#endif
