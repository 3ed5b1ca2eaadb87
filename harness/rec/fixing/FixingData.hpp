#ifndef VERIF_REC_FIXINGDATA
#define VERIF_REC_FIXINGDATA
#include "recorder.hpp"
#include "core/Instance.hpp"
#include "fixing/fix_columns.hpp"
#define fix_columns_and_compute_maps real_fix_columns_and_compute_maps
#include_next "fixing/FixingData.hpp"
#undef fix_columns_and_compute_maps
namespace cft {
inline void fix_columns_and_compute_maps(std::vector<cidx_t> const& cols_to_fix, Instance& inst, FixingData& fixing, IdxsMaps& old2new) {
    auto c = cols_to_fix;
    real_fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
    if (jl::on()) rec::ev("fx").ints("sel", c).num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).mat("cols", inst.cols)
        .reals("costs", inst.costs).mat("rows", inst.rows).ints("fixed", fixing.fixed_cols).real("fcost", fixing.fixed_cost)
        .ints("cmap", fixing.curr2orig.col_map).ints("rmap", fixing.curr2orig.row_map).emit();
}
}
#endif
