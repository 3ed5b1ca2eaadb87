// Sequences of column fixings.  case: scale reset nr nc (cost k rows*)*nc nsteps (m ints*m)*nsteps
// The ints pick distinct columns of the current instance.  Objects are reused from case to case.
#include "jlog.hpp"
#include "core/Instance.hpp"
#include "fixing/FixingData.hpp"
#include <fstream>
using namespace cft;
static void put(jl::Ev& e, Instance const& inst) {
    e.num("nr", (long long)inst.rows.size()).mat("cols", inst.cols).reals("costs", inst.costs).mat("rows", inst.rows);
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    Instance inst; FixingData fx; IdxsMaps o2n;
    double scale;
    while (in >> scale) {
        jl::scale() = scale;
        int reset; in >> reset;
        if (reset) { inst = Instance(); fx = FixingData(); o2n = IdxsMaps(); }
        long nr, nc; in >> nr >> nc;
        inst.cols.clear(); inst.costs.clear();
        for (long j = 0; j < nc; ++j) { double c; long k; in >> c >> k; std::vector<ridx_t> col; for (long q = 0; q < k; ++q) { long r; in >> r; col.push_back((ridx_t)r); }
            inst.cols.push_back(col); inst.costs.push_back((real_t)c); }
        fill_rows_from_cols(inst.cols, (ridx_t)nr, inst.rows);
        make_identity_fixing_data((cidx_t)nc, (ridx_t)nr, fx);
        { jl::Ev e("inst"); put(e, inst); e.ints("cmap", fx.curr2orig.col_map).ints("rmap", fx.curr2orig.row_map).ints("fixed", fx.fixed_cols).real("fcost", fx.fixed_cost); e.emit(); }
        long ns; in >> ns;
        for (long s = 0; s < ns; ++s) {
            long m; in >> m; std::vector<long> pick(m); for (auto& x : pick) in >> x;
            long n = (long)inst.cols.size();
            if (n == 0 || inst.rows.empty()) continue;
            std::vector<cidx_t> sel; std::vector<bool> used(n, false);
            for (long x : pick) if (!used[x % n]) { used[x % n] = true; sel.push_back((cidx_t)(x % n)); }
            if (sel.empty()) continue;
            size_t oc = inst.cols.size(), orr = inst.rows.size();
            fix_columns_and_compute_maps(sel, inst, fx, o2n);
            jl::Ev e("fix"); e.ints("sel", sel); put(e, inst);
            e.ints("cmap", fx.curr2orig.col_map).ints("rmap", fx.curr2orig.row_map).ints("fixed", fx.fixed_cols).real("fcost", fx.fixed_cost);
            if (inst.rows.empty()) { oc = orr = 0; }
            std::vector<long> cm, rm;   // -1: removed
            for (size_t j = 0; j < oc; ++j) cm.push_back(o2n.col_map[j] == removed_cidx ? -1 : (long)o2n.col_map[j]);
            for (size_t i = 0; i < orr; ++i) rm.push_back(o2n.row_map[i] == removed_ridx ? -1 : (long)o2n.row_map[i]);
            e.ints("o2nc", cm).ints("o2nr", rm).num("mapsz", (long long)(o2n.col_map.size())); e.emit();
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
