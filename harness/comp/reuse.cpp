// Calls of procedure objects on changing inputs.  -DPART selects the component:
// 1 pricing, 2 greedy, 3 column fixing, 4 subgradient (both phases), 5 ThreePhase, 6 run.
// case: threads ninputs input* ncalls (object input)*     object 0: a fresh one
// input: beta eps heur absx relx alpha minfix seed nr nc (cost k rows*)*nc u*nr kind cut maxsize nini idx*
// With threads, the calls of object o are made by thread o (all threads at once).
#include "jlog.hpp"
#include "algorithms/Refinement.hpp"
#include "core/Instance.hpp"
#include "core/cft.hpp"
#include "core/utils.hpp"
#include <fstream>
#include <memory>
#include <cstring>
#include <map>
#include <thread>
using namespace cft;
struct In { double beta, eps, absx, relx, alpha, minfix; long heur; unsigned long seed; Instance inst; std::vector<real_t> u; int kind; double cut; long mx; std::vector<cidx_t> ini; };
struct Txt {
    std::string s; uint64_t h = 1469598103934665603ULL; size_t n = 0;
    void put(std::string const& x) { for (char c : x) { h ^= (unsigned char)c; h *= 1099511628211ULL; } ++n; if (s.size() < 200) { s += x; s += ' '; } }
    Txt& i(long long x) { put(std::to_string(x)); return *this; }
    Txt& r(double x) { char b[40]; snprintf(b, 40, "%.9g", x); put(b); return *this; }
    template <class C> Txt& is(C const& c) { put("["); for (auto x : c) i((long long)x); return *this; }
    template <class C> Txt& rs(C const& c) { put("["); for (auto x : c) r((double)x); return *this; }
    template <class M> Txt& m(M const& c) { put("{"); for (size_t j = 0; j < c.size(); ++j) is(c[j]); return *this; }
    Txt& inst(Instance const& x) { m(x.cols); rs(x.costs); m(x.rows); return *this; }
    std::string str() const { return s + "#" + std::to_string(n) + "#" + std::to_string(h); }
};
static std::string sig(Instance const& x) { Txt t; t.inst(x); return t.str(); }
static std::string sig(Environment const& e) {
    Txt t; t.put(e.inst_path + "|" + e.sol_path + "|" + e.initsol_path + "|" + e.parser);
    t.i((long long)e.seed).r(e.time_limit).i((long long)e.verbose).r(e.epsilon).i((long long)e.heur_iters).r(e.alpha).r(e.beta).r(e.abs_subgrad_exit).r(e.rel_subgrad_exit).i(e.use_unit_costs).r(e.min_fixing);
    return t.str();
}
template <class C> static std::string sigr(C const& c) { Txt t; t.rs(c); return t.str(); }
struct Objs {
#if PART == 1
    Pricer pr; InstAndMap core;
#elif PART == 2
    Greedy gr;
#elif PART == 3
    ColFixing cf; Greedy gr; FixingData fx;
#elif PART == 4
    Subgradient sg; Greedy gr; Pricer pr; InstAndMap core;
#elif PART == 5
    ThreePhase tp; Instance work;
#endif
};
static std::string call(Objs& o, In const& in, bool& kept) {
    Environment env; env.verbose = 0; env.time_limit = limits<double>::inf();
    env.epsilon = (real_t)in.eps; env.heur_iters = (uint64_t)in.heur; env.abs_subgrad_exit = (real_t)in.absx; env.rel_subgrad_exit = (real_t)in.relx;
    env.alpha = (real_t)in.alpha; env.beta = (real_t)in.beta; env.min_fixing = (real_t)in.minfix; env.seed = in.seed; env.rnd = prng_t(in.seed); env.timer = Chrono<>();
    Instance const inst = in.inst; std::vector<real_t> u = in.u;
    std::string const e0 = sig(env), i0 = sig(inst), u0 = sigr(u);
    ridx_t const nr = rsize(inst.rows);
    Txt t; kept = true; (void)nr;
#if PART == 1
    real_t lb = o.pr(inst, u, o.core);
    kept = sigr(u) == u0;
    t.r(lb).is(o.core.col_map).inst(o.core.inst);
#elif PART == 2
    std::vector<real_t> rc; for (size_t j = 0; j < inst.costs.size(); ++j) { real_t x = inst.costs[j]; for (ridx_t i : inst.cols[j]) x -= u[i]; rc.push_back(x); }
    std::string const r0 = sigr(rc);
    std::vector<cidx_t> sol = in.ini; real_t cut = in.cut < 0 ? limits<real_t>::max() : (real_t)in.cut;
    real_t ret = in.mx < 0 ? o.gr(inst, u, rc, sol, cut) : o.gr(inst, u, rc, sol, cut, (cidx_t)in.mx);
    kept = sigr(u) == u0 && sigr(rc) == r0;
    t.r(ret < cut ? ret : cut);
    if (in.cut < 0 || ret < cut) t.is(sol);
#elif PART == 3
    Instance w = inst; make_identity_fixing_data(csize(w.cols), nr, o.fx);
    o.cf(env, nr, w, o.fx, u, o.gr);
    t.is(o.fx.fixed_cols).r(o.fx.fixed_cost);
    if (!w.rows.empty()) t.inst(w).is(o.fx.curr2orig.col_map).is(o.fx.curr2orig.row_map).rs(u);
    else t.i((long long)u.size());
#elif PART == 4
    o.pr(inst, u, o.core);
    real_t s = 0.1_F;
    if (in.kind % 2) { real_t lb = o.sg(env, inst, in.cut < 0 ? (real_t)1e9 : (real_t)in.cut, o.pr, o.core, s, u); t.r(lb).r(s).rs(u).is(o.core.col_map).inst(o.core.inst); }
    if (in.kind / 2) {
        Solution sol; sol.cost = in.cut < 0 ? (real_t)1e9 : (real_t)in.cut; std::string const c0 = sig(o.core.inst); real_t const cut = sol.cost;
        o.sg.heuristic(env, o.core.inst, s, o.gr, sol, u);
        kept = c0 == sig(o.core.inst);
        t.r(sol.cost).rs(u); if (sol.cost < cut) t.is(sol.idxs);
    }
#elif PART == 5
    o.work = inst;
    CftResult res = o.tp(env, o.work);
    t.is(res.sol.idxs).r(res.sol.cost).r(res.dual.lb).rs(res.dual.mults);
#elif PART == 6
    Solution ws; ws.cost = 0; ws.idxs = in.ini; for (cidx_t j : ws.idxs) ws.cost += inst.costs[j];
    Solution const w0 = ws;
    CftResult res = in.ini.empty() ? run(env, inst) : run(env, inst, ws);
    kept = w0.idxs == ws.idxs && w0.cost == ws.cost;
    t.is(res.sol.idxs).r(res.sol.cost).r(res.dual.lb).rs(res.dual.mults);
#endif
    kept = kept && sig(env) == e0 && sig(inst) == i0;
    return t.str();
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    int threads;
    while (in >> threads) {
        int ni; in >> ni; std::vector<In> ins(ni);
        for (auto& x : ins) {
            in >> x.beta >> x.eps >> x.heur >> x.absx >> x.relx >> x.alpha >> x.minfix >> x.seed;
            long nr, nc; in >> nr >> nc;
            for (long j = 0; j < nc; ++j) { double c; long k; in >> c >> k; std::vector<ridx_t> col; for (long q = 0; q < k; ++q) { long r; in >> r; col.push_back((ridx_t)r); }
                x.inst.cols.push_back(col); x.inst.costs.push_back((real_t)c); }
            fill_rows_from_cols(x.inst.cols, (ridx_t)nr, x.inst.rows);
            x.u.resize(nr); for (auto& v : x.u) { double d; in >> d; v = (real_t)d; }
            long n; in >> x.kind >> x.cut >> x.mx >> n; x.ini.resize(n); for (auto& v : x.ini) { long d; in >> d; v = (cidx_t)d; }
        }
        int nc; in >> nc; std::vector<std::pair<int, int>> cs(nc); for (auto& c : cs) in >> c.first >> c.second;
        std::vector<std::string> res(nc); std::vector<char> kept(nc, 1);
        std::map<int, std::unique_ptr<Objs>> objs; for (auto& c : cs) if (!objs.count(c.first)) objs[c.first].reset(new Objs());
        auto one = [&](int q) {
            bool k = true;
            if (cs[q].first == 0) { Objs fresh; res[q] = call(fresh, ins[cs[q].second - 1], k); }
            else res[q] = call(*objs.at(cs[q].first), ins[cs[q].second - 1], k);
            kept[q] = k;
        };
        if (threads) {
            std::vector<std::thread> th;
            for (auto& ob : objs) { int id = ob.first; th.emplace_back([&, id] { for (int q = 0; q < nc; ++q) if (cs[q].first == id) one(q); }); }
            for (auto& x : th) x.join();
        } else for (int q = 0; q < nc; ++q) one(q);
        for (int q = 0; q < nc; ++q) { jl::Ev e("call"); e.num("o", cs[q].first).num("x", cs[q].second).str("r", res[q]).boolean("kept", kept[q]); e.emit(); }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
