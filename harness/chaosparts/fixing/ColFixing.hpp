#ifndef VERIF_CHAOS_COLFIXING
#define VERIF_CHAOS_COLFIXING
#include "chaos.hpp"
#include "recorder.hpp"
#include "fixing/FixingData.hpp"
#include "greedy/Greedy.hpp"
#define VERIF_STUB_COLFIXING
#include_next "fixing/ColFixing.hpp"
namespace cft {
class ColFixing {
public:
    void operator()(Environment const&, ridx_t orig, Instance& inst, FixingData& fixing, std::vector<real_t>& u, Greedy&) {
        if (jl::on()) rec::ev("cf0").num("orig", orig).num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).reals("mult", u).emit();
        auto& r = chaos::rng();
        auto s = chaos::cover(inst, r.chance(50)); std::vector<cidx_t> sel;
        auto n = 1 + r.below(r.chance(30) ? s.size() : 2);
        for (size_t i = 0; i < s.size() && i < n; ++i) sel.push_back((cidx_t)s[i]);
        if (r.chance(15)) { cidx_t j = (cidx_t)r.below(inst.costs.size()); bool in = false; for (auto q : sel) in = in || q == j; if (!in) sel.push_back(j); } // overlapping or useless columns are allowed too
        IdxsMaps m; fix_columns_and_compute_maps(sel, inst, fixing, m);
        std::vector<real_t> v; for (size_t i = 0; i < m.row_map.size(); ++i) if (m.row_map[i] != removed_ridx) v.push_back(u[i]);
        v.resize(rsize(inst.rows)); u = v;
        if (jl::on()) rec::ev("cf1").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).reals("mult", u).emit();
    }
};
}
#endif
