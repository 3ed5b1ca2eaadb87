#ifndef VERIF_REC_PRICER
#define VERIF_REC_PRICER
#include "recorder.hpp"
#include "core/Instance.hpp"
#include "core/utils.hpp"
#define Pricer RealPricer
#include_next "subgradient/Pricer.hpp"
#undef Pricer
namespace cft {
class Pricer {
    RealPricer impl;
public:
    real_t operator()(Instance const& inst, std::vector<real_t> const& u, InstAndMap& core) {
        real_t lb = impl(inst, u, core);
        if (jl::on()) rec::ev("pr").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).real("lb", lb).reals("mult", u)
            .ints("map", core.col_map).mat("cols", core.inst.cols).reals("costs", core.inst.costs).mat("rows", core.inst.rows).emit();
        return lb;
    }
};
}
#endif
