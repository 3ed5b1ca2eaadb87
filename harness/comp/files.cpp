// Files through the parser.  case: parser unit path ntxt code* nws code*   (nws -1: none)
#include "jlog.hpp"
#include <fstream>
#include <string>
#include <limits>
#include "core/parsing.hpp"
using namespace cft;
static bool text(std::ifstream& in, std::string& s) { long n; in >> n; for (long i = 0; i < n; ++i) { int c; in >> c; s += (char)c; } return n >= 0; }
static std::vector<int> digits(std::string const& s) { std::vector<int> r; for (char c : s) if (c >= '0' && c <= '9') r.push_back(c - '0'); return r; }
template <class T> static std::string lo() { return std::to_string((long long)std::numeric_limits<T>::min()); }
template <class T> static std::string hi() { return std::to_string((unsigned long long)std::numeric_limits<T>::max()); }
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    std::string parser, path; int unit;
    while (in >> parser >> unit >> path) {
        std::string txt, ws; text(in, txt); bool hasw = text(in, ws);
        if (txt != "@none@") { std::ofstream o(path, std::ios::binary); o << txt; }
        if (hasw) { std::ofstream o(path + ".w", std::ios::binary); o << ws; }
        Environment env; env.verbose = 0; env.parser = parser; env.inst_path = path; env.use_unit_costs = unit; if (hasw) env.initsol_path = path + ".w";
        bool ok = true; std::string exc; FileData fd;
        try { fd = parse_inst_and_initsol(env); } catch (std::exception const& e) { ok = false; exc = e.what(); if (exc.size() > 80) exc.resize(80); for (char& c : exc) if ((unsigned char)c > 126) c = '?'; }
        remove(path.c_str()); remove((path + ".w").c_str());
        jl::Ev e("file");
        e.boolean("ok", ok).str("exc", exc);
        std::vector<std::vector<int>> cols, rows; std::string cs; char b[64];
        if (ok) {
            for (size_t j = 0; j < size_t(fd.inst.cols.size()); ++j) { std::vector<int> c; for (auto i : fd.inst.cols[j]) c.push_back((int)i); cols.push_back(c); }
            for (auto const& r : fd.inst.rows) { std::vector<int> c; for (auto j : r) c.push_back((int)j); rows.push_back(c); }
            for (auto c : fd.inst.costs) { snprintf(b, 64, "%a ", (double)c); cs += b; }
        }
        snprintf(b, 64, "%.17g", (double)fd.init_sol.cost);
        e.num("nr", ok ? (long long)fd.inst.rows.size() : 0).mat("cols", cols).mat("rows", rows).str("costs", cs).ints("init", ok ? fd.init_sol.idxs : std::vector<cidx_t>()).str("icost", b).num("mant", std::numeric_limits<native_t<real_t>>::digits)
            .str("rlo", lo<native_t<ridx_t>>()).str("rhi", hi<native_t<ridx_t>>()).str("clo", lo<native_t<cidx_t>>()).str("chi", hi<native_t<cidx_t>>());
        snprintf(b, 64, "%a", (double)std::numeric_limits<native_t<real_t>>::max()); e.str("rmax", b);
        e.emit();
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
