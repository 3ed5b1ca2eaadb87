#ifndef VERIF_CHAOS_SUBGRADIENT
#define VERIF_CHAOS_SUBGRADIENT
#include "chaos.hpp"
#include "recorder.hpp"
#include "subgradient/Pricer.hpp"
#include "greedy/Greedy.hpp"
#define VERIF_STUB_SUBGRADIENT
#include_next "subgradient/Subgradient.hpp"
namespace cft {
class Subgradient {
public:
    real_t operator()(Environment const& env, Instance const& inst, real_t cutoff, Pricer price, InstAndMap& core, real_t& step, std::vector<real_t>& u) {
        if (jl::on()) rec::ev("sub0").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).real("cut", cutoff).reals("mult", u)
            .ints("map", core.col_map).mat("cols", core.inst.cols).reals("costs", core.inst.costs).mat("rows", core.inst.rows).emit();
        bool on = jl::on(); auto& r = chaos::rng();
        for (auto& x : u) if (r.chance(50)) x = (real_t)r.below(33) / 8;
        if (r.chance(60)) { jl::on() = false; price(inst, u, core); jl::on() = on; }   // the core instance may change
        if (jl::on()) rec::ev("core").ints("map", core.col_map).emit();
        for (auto& x : u) if (r.chance(20)) x = (real_t)r.below(33) / 8;
        auto k = r.below(14);
        real_t lb = k == 0 ? limits<real_t>::min() : k == 1 ? cutoff - env.epsilon : k == 2 ? cutoff : k == 3 ? cutoff - 2 * env.epsilon : cutoff * (real_t)r.below(8) / 16;
        step = 0.1f; (void)env.timer.elapsed<sec>();
        if (jl::on()) rec::ev("sub1").real("lb", lb).reals("mult", u).emit();
        return lb;
    }
    void heuristic(Environment const& env, Instance const& inst, real_t, Greedy&, Solution& sol, std::vector<real_t>& u) {
        if (jl::on()) rec::ev("heu0").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).real("cut", sol.cost).reals("mult", u).emit();
        auto& r = chaos::rng(); real_t cut = sol.cost;
        for (auto n = r.below(6); n > 0; --n) {
            auto s = chaos::cover(inst, r.chance(80)); real_t c = 0; for (int j : s) c += inst.costs[j];
            if (c < cut && c < sol.cost && c <= sol.cost - env.epsilon) { sol.cost = c; sol.idxs.clear(); for (int j : s) sol.idxs.push_back((cidx_t)j); }
        }
        for (auto& x : u) if (r.chance(30)) x = (real_t)r.below(33) / 8;
        (void)env.timer.elapsed<sec>();
        if (jl::on()) rec::ev("heu1").ints("sol", sol.idxs).real("cost", sol.cost).reals("mult", u).emit();
    }
};
}
#endif
