// P11: geometry of a grid: nodes, cells, and their agreement.
#include "grids.h"
using namespace gr;
namespace {
template <size_t D> void geometry(vp::Ctx & c) {
    const auto s = gen<D>(c, D == 1 ? 30 : D == 2 ? 9 : 6, c.flip()); const auto g = make(s); using G = Grid<D>; using W = typename G::WorldCoordinates;
    c.note([&](auto & o) { o << show(s); }); c.nontrivial();
    const double big = s.anchor.cwiseAbs().maxCoeff() + s.size.maxCoeff(), tol = 1e-13 * big;
    W h; for (size_t d = 0; d < D; ++d) h[d] = s.size[d] / double(s.n[d]);
    VP_CHECK((g.anchor_position() - s.anchor).norm() == 0 && (g.size() - s.size).norm() == 0, "anchor or size differ from the construction arguments");
    for (size_t d = 0; d < D; ++d) VP_CHECK((I) g.N()[d] == s.n[d] && vp::near(g.H()[d], h[d], 1e-14 * h[d]), "subdivisions ", g.N()[d], " cell size ", g.H()[d], " expected ", s.n[d], " ", h[d]);
    const auto n1 = plus1(s.n);
    auto where = [&](const std::array<I, D> & i) { W w; for (size_t d = 0; d < D; ++d) w[d] = s.anchor[d] + double(i[d]) * h[d]; return w; };
    for (int k = 0; k < 6; ++k) {
        std::array<I, D> i; for (size_t d = 0; d < D; ++d) i[d] = k == 0 ? s.n[d] : (I) c.draw((uint64_t) s.n[d] + 1);
        const W w = where(i), a = g.node((typename G::NodeIndex) flat<D>(i, n1)), b = base<D>(g).node(coords<D>(i));
        VP_CHECK((a - w).norm() <= tol, "node ", flat<D>(i, n1), " is at ", show(a), " expected ", show(w));
        VP_CHECK((b - w).norm() <= tol, "node ", show(coords<D>(i)), " is at ", show(b), " expected ", show(w));
        for (size_t d = 0; d < D; ++d) i[d] = std::min(i[d], s.n[d] - 1);
        const I cell = flat<D>(i, s.n);
        const auto e = g.cell_at((typename G::CellIndex) cell), f = g.cell_at(coords<D>(i)); const auto idx = g.node_indices_of((typename G::CellIndex) cell);
        VP_CHECK(e.number_of_nodes() == idx.size() && f.number_of_nodes() == idx.size(), "number of nodes of a cell");
        for (size_t j = 0; j < idx.size(); ++j) { const W n = g.node((typename G::NodeIndex) idx[j]);
            VP_CHECK((W(e.node(j)) - n).norm() <= 4 * tol && (W(f.node(j)) - n).norm() <= 4 * tol, "node ", j, " of cell ", cell, " is at ", show(W(e.node(j))), " but the grid node ", idx[j], " is at ", show(n)); }
        double v = 0, vol = 1; for (size_t d = 0; d < D; ++d) vol *= h[d];
        for (const auto & q : e.gauss_nodes()) { double dj; const auto J = e.jacobian(q.position); if constexpr (D == 1) dj = J(0, 0); else dj = J.determinant(); v += q.weight * dj; }
        VP_CHECK(vp::near(v, vol, 1e-10 * vol * (1 + big / h.minCoeff())), "volume of cell ", cell, " is ", v, " expected ", vol);
        W ctr = where(i) + h / 2; VP_CHECK((W(e.center()) - ctr).norm() <= 4 * tol, "center of cell ", cell);
    }
}
}
static const bool reg = [] { vp::Reg("geometry/1D", .5, geometry<1>); vp::Reg("geometry/2D", 1, geometry<2>); vp::Reg("geometry/3D", 1, geometry<3>); return true; }();
