// Greedy calls.  case: scale ncalls then per call: reset nr nc (cost k rows*)*nc u*nr ninit idx* cutoff maxsize
// With reset >= 2, row i stands for a block of w_i rows: the weights follow nc, and what is logged are the blocks.
// cutoff < 0 : none, maxsize < 0 : none.  The Greedy object is reused unless reset.
#include "jlog.hpp"
#include "core/Instance.hpp"
#include "core/utils.hpp"
#include "greedy/Greedy.hpp"
#include <fstream>
#include <memory>
using namespace cft;
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    std::unique_ptr<Greedy> gr(new Greedy());
    double scale;
    while (in >> scale) {
        jl::scale() = scale;
        int nc_; in >> nc_;
        for (int q = 0; q < nc_; ++q) {
            int reset; in >> reset;
            if (reset & 1) gr.reset(new Greedy());
            Instance inst;
            long nr, nc; in >> nr >> nc;
            std::vector<long> w(nr, 1), first(nr + 1, 0);
            if (reset >= 2) for (auto& x : w) in >> x;
            for (long i = 0; i < nr; ++i) first[i + 1] = first[i] + w[i];
            std::vector<std::vector<long>> blocks(nc);
            for (long j = 0; j < nc; ++j) { double c; long k; in >> c >> k; std::vector<ridx_t> col; for (long q = 0; q < k; ++q) { long r; in >> r; blocks[j].push_back(r); for (long x = first[r]; x < first[r + 1]; ++x) col.push_back((ridx_t)x); }
                inst.cols.push_back(col); inst.costs.push_back((real_t)c); }
            fill_rows_from_cols(inst.cols, (ridx_t)first[nr], inst.rows);
            std::vector<real_t> ub(nr), u(first[nr]), rc;
            for (long i = 0; i < nr; ++i) { double d; in >> d; ub[i] = (real_t)d; for (long x = first[i]; x < first[i + 1]; ++x) u[x] = ub[i]; }
            for (long j = 0; j < nc; ++j) { real_t x = inst.costs[j]; for (ridx_t i : inst.cols[j]) x -= u[i]; rc.push_back(x); }
            long ni; in >> ni; std::vector<cidx_t> sol(ni); for (auto& x : sol) { long v; in >> v; x = (cidx_t)v; }
            double cut; long mx; in >> cut >> mx;
            auto const before = sol; auto const uc = u; auto const rcc = rc; auto const ic = inst;
            real_t ret;
            if (cut < 0 && mx < 0) ret = (*gr)(inst, u, rc, sol);
            else if (mx < 0) ret = (*gr)(inst, u, rc, sol, (real_t)cut);
            else ret = (*gr)(inst, u, rc, sol, cut < 0 ? limits<real_t>::max() : (real_t)cut, (cidx_t)mx);
            bool same = uc == u && rcc == rc && ic.costs == inst.costs && ic.rows == inst.rows && ic.cols.idxs == inst.cols.idxs && ic.cols.begs == inst.cols.begs;
            real_t lim = cut < 0 ? limits<real_t>::max() : (real_t)cut;
            jl::Ev e("gr"); e.num("nr", nr).mat("cols", blocks).reals("costs", inst.costs).reals("u", ub).ints("w", w).ints("inp", before)
                .real("cut", lim).num("max", mx < 0 ? jl::BIG : mx).ints("sol", sol).real("ret", ret).boolean("below", ret < lim).boolean("same", same); e.emit();
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
