#ifndef VERIF_REC_SUBUTILS
#define VERIF_REC_SUBUTILS
// Records the use of the step size, exit and pricing managers: one event per iteration.
#include "recorder.hpp"
#include "core/cft.hpp"
#include "utils/utility.hpp"
#define StepSizeManager RealStepSizeManager
#define ExitConditionManager RealExitConditionManager
#define PricingManager RealPricingManager
#include_next "subgradient/utils.hpp"
#undef StepSizeManager
#undef ExitConditionManager
#undef PricingManager
namespace slog {
struct It { bool any = false; long long it = -1; bool hasstep = false, hasexit = false, exit = false, asked = false, price = false, upd = false;
    double steplb = 0, step = 0, exitlb = 0, uc = 0, ur = 0, uu = 0; };
struct Cfg { long long pstep = 0, pexit = 0, pprice = 0, maxinc = 0; double init = 0; };
inline It& cur() { static It i; return i; }
inline Cfg& cfg() { static Cfg c; return c; }
inline long fine(double s) { double v = s * 5e7; return v > 1e9 ? 1000000000L : std::lround(v); }
inline void flush() {
    It& c = cur();
    if (c.any && jl::on()) {
        jl::Ev e("it"); e.num("it", c.it).boolean("hasstep", c.hasstep).real("steplb", c.steplb).num("step", fine(c.step)).boolean("hasexit", c.hasexit)
            .real("exitlb", c.exitlb).boolean("exit", c.exit).boolean("asked", c.asked).boolean("price", c.price).boolean("upd", c.upd)
            .real("uc", c.uc).real("ur", c.ur).real("uu", c.uu).num("pstep", cfg().pstep).num("pexit", cfg().pexit).num("pprice", cfg().pprice)
            .num("maxinc", cfg().maxinc).num("init", fine(cfg().init)); e.emit();
    }
    c = It();
}
inline It& at(long long it) { It& c = cur(); if (c.any && c.it != it) flush(); c.any = true; c.it = it; return c; }
}
namespace cft { namespace local { namespace {
    class StepSizeManager {
        RealStepSizeManager impl;
    public:
        StepSizeManager(size_t p, real_t s) : impl(p, s) { slog::flush(); slog::cfg().pstep = (long long)p; slog::cfg().init = (double)s; }
        real_t operator()(size_t iter, real_t lb) { auto& c = slog::at((long long)iter); c.hasstep = true; c.steplb = (double)lb; real_t s = impl(iter, lb); c.step = (double)s; return s; }
        ~StepSizeManager() { slog::flush(); }
    };
    class ExitConditionManager {
        RealExitConditionManager impl;
    public:
        explicit ExitConditionManager(size_t p) : impl(p) { slog::cfg().pexit = (long long)p; }
        bool operator()(Environment const& env, size_t iter, real_t lb) { bool r = impl(env, iter, lb); auto& c = slog::at((long long)iter); c.hasexit = true; c.exitlb = (double)lb; c.exit = r; return r; }
    };
    class PricingManager {
        RealPricingManager impl;
    public:
        PricingManager(size_t p, size_t m) : impl(p, m) { slog::cfg().pprice = (long long)p; slog::cfg().maxinc = m > 1000000000 ? 1000000000 : (long long)m; }
        bool operator()(size_t iter) const { bool r = impl(iter); auto& c = slog::at((long long)iter); c.asked = true; c.price = r; return r; }
        void update(real_t c, real_t r, real_t u) { impl.update(c, r, u); auto& k = slog::cur(); k.upd = true; k.uc = (double)c; k.ur = (double)r; k.uu = (double)u; }
    };
}}}
#endif
