#ifndef VERIF_REC_COLFIXING
#define VERIF_REC_COLFIXING
#include "recorder.hpp"
#include "fixing/FixingData.hpp"
#include "greedy/Greedy.hpp"
#define ColFixing RealColFixing
#include_next "fixing/ColFixing.hpp"
#undef ColFixing
#ifndef VERIF_STUB_COLFIXING
namespace cft {
class ColFixing {
    RealColFixing impl;
public:
    void operator()(Environment const& env, ridx_t orig_nrows, Instance& inst, FixingData& fixing, std::vector<real_t>& u, Greedy& greedy) {
        if (jl::on()) rec::ev("cf0").num("orig", orig_nrows).num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).reals("mult", u).emit();
        impl(env, orig_nrows, inst, fixing, u, greedy);
        if (jl::on()) rec::ev("cf1").num("nr", rsize(inst.rows)).num("nc", csize(inst.cols)).reals("mult", u).emit();
    }
};
}
#endif
#endif
