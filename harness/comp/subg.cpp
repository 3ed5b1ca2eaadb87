// Direct calls of the bounding and heuristic phases (built with -I recsub -I rec).
// case: scale expire eps absx relx heur nr nc (cost k rows*)*nc ncalls ( reset cutoff step u*nr hcut nsol idx* )*ncalls
#include "vclock.hpp"
#include "jlog.hpp"
#include "core/Instance.hpp"
#include "subgradient/Subgradient.hpp"
#include <fstream>
#include <memory>
using namespace cft;
static Environment make_env() { return Environment{}; }
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    double scale;
    std::unique_ptr<Subgradient> sg(new Subgradient()); std::unique_ptr<Greedy> gr(new Greedy()); Pricer pr; InstAndMap core;
    while (in >> scale) {
        jl::scale() = scale;
        long expire; double eps, ax, rx; long heur, nr, nc;
        in >> expire >> eps >> ax >> rx >> heur >> nr >> nc;
        Environment env = make_env(); env.verbose = 0; env.epsilon = (real_t)eps; env.abs_subgrad_exit = (real_t)ax; env.rel_subgrad_exit = (real_t)rx; env.heur_iters = (uint64_t)heur;
        env.time_limit = expire >= 0 ? 1000.0 : limits<double>::inf();
        Instance inst;
        for (long j = 0; j < nc; ++j) { double c; long k; in >> c >> k; std::vector<ridx_t> col; for (long q = 0; q < k; ++q) { long r; in >> r; col.push_back((ridx_t)r); }
            inst.cols.push_back(col); inst.costs.push_back((real_t)c); }
        fill_rows_from_cols(inst.cols, (ridx_t)nr, inst.rows);
        vclock::reset(-1); env.timer = Chrono<>(); vclock::arm(expire);
        long n; in >> n;
        for (long q = 0; q < n; ++q) {
            int reset; double cut, step; in >> reset >> cut >> step;
            if (reset) { sg.reset(new Subgradient()); gr.reset(new Greedy()); pr = Pricer(); core = InstAndMap(); }
            std::vector<real_t> u(nr); for (auto& x : u) { double d; in >> d; x = (real_t)d; }
            double hc; long ns; in >> hc >> ns; Solution sol; sol.idxs.resize(ns); for (auto& x : sol.idxs) { long v; in >> v; x = (cidx_t)v; }
            jl::on() = true;
            { jl::Ev e("call"); e.num("nr", nr).mat("cols", inst.cols).reals("costs", inst.costs).real("eps", (double)env.epsilon).real("absx", ax).num("relx", (long long)std::lround(rx * 1e6)).num("heur", heur).num("istep", std::lround((double)(real_t)step * 5e7)); e.emit(); }
            jl::on() = false; pr(inst, u, core); jl::on() = true;
            real_t s = (real_t)step; auto const ic = inst;
            (void)(*sg)(env, inst, (real_t)cut, pr, core, s, u);
            bool same = ic.costs == inst.costs && ic.rows == inst.rows && ic.cols.idxs == inst.cols.idxs;
            bool range = true; for (auto x : u) range = range && x >= 0 && x <= 1e6f;
            { jl::Ev e("after"); e.num("step", std::lround((double)s * 5e7)).boolean("range", range).boolean("same", same).ints("map", core.col_map).mat("cols", core.inst.cols).reals("costs", core.inst.costs).mat("rows", core.inst.rows).num("nr", nr); e.emit(); }
            sol.cost = (real_t)hc; auto const cc = core.inst; auto const sc = sol;
            sg->heuristic(env, core.inst, s, *gr, sol, u);
            range = true; for (auto x : u) range = range && x >= 0 && x <= 1e6f;
            { jl::Ev e("hafter"); e.boolean("range", range).boolean("same", cc.costs == core.inst.costs && cc.rows == core.inst.rows && cc.cols.idxs == core.inst.cols.idxs)
                .boolean("kept", sc.idxs == sol.idxs && sc.cost == sol.cost).boolean("below", sol.cost < sc.cost).boolean("eps", sol.cost <= sc.cost - env.epsilon).num("nu", (long long)u.size()); e.emit(); }
            jl::on() = false;
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
