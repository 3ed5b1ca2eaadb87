// Command lines. case: nargs (len code*)*
#include "jlog.hpp"
#include <fstream>
#include <limits>
#include <sstream>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include "core/CliArgs.hpp"
using namespace cft;
static std::vector<int> codes(std::string const& v) { std::vector<int> r; for (char c : v) r.push_back((unsigned char)c); return r; }
static std::string hex(double x) { char b[64]; snprintf(b, 64, "%a", x); return b; }
static std::string env_json(Environment const& e) {
    jl::Ev j;
    j.ints("inst", codes(e.inst_path)).ints("parser", codes(e.parser)).ints("sol", codes(e.sol_path)).ints("init", codes(e.initsol_path)).str("seed", std::to_string(e.seed)).str("tlim", hex(e.time_limit))
        .str("verbose", std::to_string(e.verbose)).str("eps", hex((double)e.epsilon)).str("giters", std::to_string(e.heur_iters)).str("beta", hex((double)e.beta)).str("abs", hex((double)e.abs_subgrad_exit)).str("rel", hex((double)e.rel_subgrad_exit))
        .str("alpha", hex((double)e.alpha)).str("minfix", hex((double)e.min_fixing)).boolean("unit", e.use_unit_costs);
    return j.s + "}";
}
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    long n;
    while (in >> n) {
        std::vector<std::string> a(1, "accft");
        for (long i = 0; i < n; ++i) { long k; in >> k; std::string s; for (long q = 0; q < k; ++q) { int c; in >> c; s += (char)c; } a.push_back(s); }
        std::vector<char const*> p; for (auto& s : a) p.push_back(s.c_str());
        bool ok = true; Environment env; std::string exc;
        try { env = parse_cli_args((int)p.size(), p.data()); } catch (std::exception const& e) { ok = false; }
        bool rnd = true; if (ok) { prng_t r(env.seed), q = env.rnd; for (int i = 0; i < 5; ++i) rnd = rnd && r() == q(); }
        jl::Ev e("cli"); e.boolean("ok", ok).boolean("rnd", rnd).str("rmax", hex((double)std::numeric_limits<native_t<real_t>>::max())).num("mant", std::numeric_limits<native_t<real_t>>::digits);
        e.key("env"); e.s += env_json(env); e.key("def"); e.s += env_json(Environment{}); e.emit();
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
