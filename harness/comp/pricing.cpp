// Pricings.  case: scale reset nr nc (cost k rows*)*nc np (u*nr)*np ; the pricer and the core instance are
// reused (within the case always, across cases unless reset).
#include "jlog.hpp"
#include "core/Instance.hpp"
#include "core/cft.hpp"
#include "utils/utility.hpp"
#include "subgradient/Pricer.hpp"
#include <fstream>
#include <memory>
using namespace cft;
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    std::unique_ptr<Pricer> pr(new Pricer()); InstAndMap core;
    double scale;
    while (in >> scale) {
        jl::scale() = scale;
        int reset; in >> reset;
        if (reset) { pr.reset(new Pricer()); core = InstAndMap(); }
        Instance inst;
        long nr, nc; in >> nr >> nc;
        for (long j = 0; j < nc; ++j) { double c; long k; in >> c >> k; std::vector<ridx_t> col; for (long q = 0; q < k; ++q) { long r; in >> r; col.push_back((ridx_t)r); }
            inst.cols.push_back(col); inst.costs.push_back((real_t)c); }
        fill_rows_from_cols(inst.cols, (ridx_t)nr, inst.rows);
        long np; in >> np;
        for (long p = 0; p < np; ++p) {
            std::vector<real_t> u(nr); for (auto& x : u) { double d; in >> d; x = (real_t)d; }
            auto const uc = u; auto const ic = inst;
            real_t lb = (*pr)(inst, u, core);
            bool same = uc == u && ic.costs == inst.costs && ic.rows == inst.rows && ic.cols.idxs == inst.cols.idxs && ic.cols.begs == inst.cols.begs;
            jl::Ev e("pr"); e.num("nr", nr).mat("cols", inst.cols).reals("costs", inst.costs).reals("u", u).real("lb", lb).ints("map", core.col_map)
                .mat("ccols", core.inst.cols).reals("ccosts", core.inst.costs).mat("crows", core.inst.rows).boolean("same", same).num("s", (long long)scale); e.emit();
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
