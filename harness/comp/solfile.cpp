// Solutions to files and back.  case: path limit bits n idx*   (limit: most bytes a file may have, -1: any; bits: of the cost, hexadecimal)
#include "jlog.hpp"
#include <cstring>
#include <fstream>
#include <sstream>
#include <limits>
#include <string>
#include <csignal>
#include <sys/resource.h>
#include "core/parsing.hpp"
using namespace cft;
using real = native_t<real_t>; using cidx = native_t<cidx_t>;
static std::string bits(real x) { unsigned char b[sizeof(real)]; memcpy(b, &x, sizeof b); std::string s; char t[4]; for (size_t i = sizeof b; i-- > 0;) { snprintf(t, 4, "%02x", b[i]); s += t; } return s; }
static real unbits(std::string const& h) { unsigned char b[sizeof(real)]; for (size_t i = 0; i < sizeof b; ++i) b[sizeof b - 1 - i] = (unsigned char)std::stoul(h.substr(2 * i, 2), nullptr, 16); real x; memcpy(&x, b, sizeof b); return x; }
static std::string dec(cidx v) { return std::is_signed<cidx>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
static std::string list(std::vector<cidx_t> const& v) { std::string s; for (auto j : v) s += dec((cidx)j) + " "; return s; }
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    signal(SIGXFSZ, SIG_IGN);
    std::string path, h, tok; long limit, n;
    while (in >> path >> limit >> h >> n) {
        Solution s; s.cost = unbits(h);
        for (long i = 0; i < n; ++i) { in >> tok; s.idxs.push_back((cidx_t)(std::is_signed<cidx>::value ? (cidx)std::stoll(tok) : (cidx)std::stoull(tok))); }
        bool wrote = true, read = true, same = true; Solution const copy = s; Solution r; std::string txt, exc;
        fflush(jl::out());
        rlimit old; getrlimit(RLIMIT_FSIZE, &old);
        if (limit >= 0) { rlimit l = old; l.rlim_cur = (rlim_t)limit; setrlimit(RLIMIT_FSIZE, &l); }
        try { write_solution(path, s); } catch (std::exception const& e) { wrote = false; exc = e.what(); }
        setrlimit(RLIMIT_FSIZE, &old);
        same = copy.idxs == s.idxs && bits(copy.cost) == bits(s.cost);
        if (wrote) { std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); txt = ss.str(); }
        if (wrote) { try { r = parse_solution(path); } catch (std::exception const& e) { read = false; exc = e.what(); } }
        std::vector<int> codes; for (char c : txt) codes.push_back((unsigned char)c);
        char b[64];
        jl::Ev e("sol");
        e.boolean("wrote", wrote).boolean("read", read && same).str("bits", h).str("bits2", wrote && read ? bits(r.cost) : "").str("idxs", list(s.idxs)).str("idxs2", wrote && read ? list(r.idxs) : "").ints("txt", codes);
        snprintf(b, 64, "%a", (double)s.cost); e.str("cost", b);
        snprintf(b, 64, "%a", (double)std::numeric_limits<real>::max()); e.str("rmax", b).num("mant", std::numeric_limits<real>::digits);
        e.str("clo", dec(std::numeric_limits<cidx>::min())).str("chi", dec(std::numeric_limits<cidx>::max()));
        e.emit(); jl::Ev("end").emit(); fflush(jl::out());
    }
}
