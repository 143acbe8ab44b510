// P16: a mesh holds exactly the domains that were added and not removed, in order, under their names.
#include "mesh_model.h"
using namespace mm;
namespace {
template <int D> void history(vp::Ctx & c) {
    live() = 0; World_<D> w(c); w.create(); if (c.flip()) w.create();
    const int n = 1 + (int) c.draw(14); int adds = 0, removes = 0;
    c.note([&](auto & o) { o << "Mesh<" << D << ">"; });
    for (int i = 0; i < n; ++i) {
        auto & s = w.any();
        switch (c.draw(8)) {
            case 0: case 1: case 2: w.add_any(s); ++adds; break;
            case 3: w.add_orphan(s); ++adds; break;
            case 4: w.add_again(s); break;
            default: w.remove(s); ++removes; break;
        }
        w.check();
    }
    c.note([&](auto & o) { o << w.log.str(); });
    c.nontrivial(adds > 1 && removes > 0); w.finish();
}
const vp::Reg r1("history/1D", .5, history<1>), r2("history/2D", 1, history<2>), r3("history/3D", 1, history<3>);
}
