// Runs cases read from a text file through cft::run / ThreePhase and logs one "res" record per
// case, preceded by the events of its phases when built with the recorder (-I rec first).
#include "vclock.hpp"
#include "jlog.hpp"
#include "chaos.hpp"
#include "algorithms/Refinement.hpp"
#include "core/cft.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
using namespace cft;
static bool clock_works() {
    vclock::reset(-1);
    Chrono<> c; auto t0 = std::chrono::steady_clock::now(); vclock::arm(0); auto t1 = std::chrono::steady_clock::now(); auto b = c.elapsed<sec>(); vclock::reset(-1);
    return std::chrono::duration<double>(t1 - t0).count() > 1000 && b > 0;
}
int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    bool want_rec = argc > 3 && std::string(argv[3]) == "rec";
    bool ck = clock_works();
    std::string tok;
    while (in >> tok) {          // case <id> <mode> <scale> <expire> nenv (k v)* nr nc (cost n rows*)* nws (cost idx*)
        long id; std::string mode; double scale; long expire; int nenv;
        in >> id >> mode >> scale >> expire >> nenv;
        vclock::reset(-1);
        jl::scale() = scale;
        Environment env;
        env.verbose = 0; env.time_limit = limits<double>::inf();
        std::map<std::string, double> kv;
        for (int i = 0; i < nenv; ++i) { std::string k; double v; in >> k >> v; kv[k] = v;
            if (k == "seed") { env.seed = (uint64_t)v; env.rnd = prng_t(env.seed); }
            else if (k == "eps") env.epsilon = v; else if (k == "heur") env.heur_iters = (uint64_t)v;
            else if (k == "alpha") env.alpha = v; else if (k == "beta") env.beta = v; else if (k == "minfix") env.min_fixing = v;
            else if (k == "absx") env.abs_subgrad_exit = v; else if (k == "relx") env.rel_subgrad_exit = v;
            else if (k == "verbose") env.verbose = (uint64_t)v; else if (k == "tlim") env.time_limit = v; }
        long nr, nc; in >> nr >> nc;
        Instance inst;
        for (long j = 0; j < nc; ++j) { double c; long k; in >> c >> k; std::vector<ridx_t> col; for (long q = 0; q < k; ++q) { long r; in >> r; col.push_back((ridx_t)r); }
            inst.cols.push_back(col); inst.costs.push_back((real_t)c); }
        fill_rows_from_cols(inst.cols, (ridx_t)nr, inst.rows);
        long nws; in >> nws; Solution ws;
        if (nws >= 0) { double c; in >> c; ws.cost = (real_t)c; for (long q = 0; q < nws; ++q) { long r; in >> r; ws.idxs.push_back((cidx_t)r); } }
        if (!ck) expire = -1;
        double const vlim = kv.count("vlim") ? kv["vlim"] : 1000.0;   // the limit the virtual clock is set for
        if (ck && (kv.count("vlim") || (expire >= 0 && !kv.count("tlim")))) env.time_limit = vlim;
        jl::on() = want_rec;
        chaos::seed(kv.count("chaos") ? (uint64_t)kv["chaos"] : 1);
        if (want_rec) { jl::Ev e("run"); e.num("id", id).boolean("x", false).emit(); }
        vclock::reset(-1);
        env.timer = Chrono<>();
        vclock::arm(expire, vlim);
        Instance const copy = inst; Solution const wscopy = ws;
        CftResult res; std::string exc; bool ok = true;
        try {
            if (mode == "run") res = run(env, inst, ws);
            else { auto i2 = inst; ThreePhase tp; res = tp(env, i2); }
        } catch (std::exception const& e) { ok = false; exc = e.what(); }
        jl::on() = false;
        bool untouched = copy.cols.idxs == inst.cols.idxs && copy.cols.begs == inst.cols.begs && copy.rows == inst.rows && copy.costs == inst.costs
            && ws.idxs == wscopy.idxs && (nws < 0 || ws.cost == wscopy.cost);
        jl::Ev e("res");
        double mmin = 0, mmax = 0; bool fin = true; bool f = true;
        for (auto u : res.dual.mults) { if (f || u < mmin) mmin = u; if (f || u > mmax) mmax = u; f = false; fin = fin && std::isfinite((double)u); }
        e.num("id", id).boolean("ok", ok).str("exc", exc).boolean("x", vclock::expired()).num("reads", vclock::st().reads);
        if (ok) { char buf[64]; snprintf(buf, 64, "%.17g", (double)res.sol.cost); char b2[64]; snprintf(b2, 64, "%.17g", (double)res.dual.lb);
            e.ints("sol", res.sol.idxs).real("cost", res.sol.cost).real("lb", res.dual.lb).str("costs", buf).str("lbs", b2)
            .num("nm", res.dual.mults.size()).boolean("mneg", mmin < 0).boolean("mbig", mmax > 1e6f).boolean("mfin", fin).boolean("untouched", untouched)
            .boolean("lbok", !(res.dual.lb > res.sol.cost * (1 + 1e-5) + 1e-5)).boolean("clock", ck); }
        e.emit();
        fflush(jl::out());
    }
    jl::Ev("done").emit();
    fclose(jl::out());
}
