// Building instances. case: nops op*;  a o how k row* cost | c from j o | x o | = from o | f o nr
#include "jlog.hpp"
#include <cstring>
#include <initializer_list>
#include "core/Instance.hpp"
#include "utils/Span.hpp"
#include <fstream>
#include <list>
#include <set>
using namespace cft;
static Instance ob[4];
static std::string show() {
    std::string s = "[";
    for (int o = 1; o <= 3; ++o) { jl::Ev e; Instance const& in = ob[o]; std::vector<std::vector<int>> c;
        for (size_t j = 0; j < in.cols.size(); ++j) { std::vector<int> v; for (auto x : in.cols[j]) v.push_back((int)x); std::vector<int> w; for (size_t q = 0; q < in.cols[j].size(); ++q) w.push_back((int)in.cols[j][q]); 
            Instance& mi = ob[o]; std::vector<int> z(mi.cols[j].begin(), mi.cols[j].end()); if (w != v || z != v) v.push_back(-7); c.push_back(v); }
        e.mat("cols", c).reals("costs", in.costs).mat("rows", in.rows).num("size", (long long)in.cols.size()).boolean("empty", in.cols.empty()); s += (o > 1 ? "," : "") + e.s + "}"; }
    return s + "]";
}
static void fin(jl::Ev& e) { e.key("objs"); e.s += show(); e.emit(); }
int main(int, char** argv) {
    std::ifstream in(argv[1]);
    jl::out() = fopen(argv[2], "w");
    long n;
    while (in >> n) {
        for (auto& x : ob) x = Instance();
        for (long q = 0; q < n; ++q) {
            char op; in >> op;
            if (op == 'a') { int o, how; long k; double c; in >> o >> how >> k; std::vector<ridx_t> v; for (long i = 0; i < k; ++i) { long r; in >> r; v.push_back((ridx_t)r); } in >> c;
                auto& m = ob[o].cols;
                if (how == 1) m.push_back(std::list<int>(v.begin(), v.end()));
                else if (how == 2) { auto s = make_span(v.data(), v.data() + v.size()); m.push_back(s); }
                else if (how == 3 && k == 0) m.push_back(std::initializer_list<int>{});
                else if (how == 3 && k == 1) m.push_back({(int)v[0]});
                else if (how == 3 && k == 2) m.push_back({v[0], v[1]});
                else if (how == 3 && k == 3) m.push_back({(long)v[0], (long)v[1], (long)v[2]});
                else m.push_back(v);
                ob[o].costs.push_back((real_t)c);
                jl::Ev e("append"); e.num("o", o).ints("col", v).real("cost", c); fin(e); }
            else if (op == 'c') { int a, o; long j; in >> a >> j >> o; if (j >= (long)ob[a].cols.size() || a == o) continue; push_back_col_from(ob[a], (cidx_t)j, ob[o]); jl::Ev e("copy"); e.num("from", a).num("j", j).num("o", o); fin(e); }
            else if (op == 'x') { int o; in >> o; clear_inst(ob[o]); jl::Ev e("clear"); e.num("o", o); fin(e); }
            else if (op == '=') { int a, o; in >> a >> o; ob[o] = ob[a]; jl::Ev e("assign"); e.num("from", a).num("o", o); fin(e); }
            else { int o; long nr; in >> o >> nr; long mx = 0; bool simple = true; for (size_t j = 0; j < ob[o].cols.size(); ++j) { std::set<int> s; for (auto r : ob[o].cols[j]) { if (r + 1 > mx) mx = r + 1; simple = s.insert(r).second && simple; } }
                if (nr < mx) nr = mx; fill_rows_from_cols(ob[o].cols, (ridx_t)nr, ob[o].rows);
                jl::Ev e("fill"); e.num("o", o).num("nr", nr).boolean("simple", simple); fin(e); }
        }
        jl::Ev("end").emit(); fflush(jl::out());
    }
}
