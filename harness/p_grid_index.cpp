// P10: numbering of the nodes, cells, edges and faces of a grid.
#include "grids.h"
using namespace gr;
namespace {
template <size_t D> void numbering(vp::Ctx & c) {
    const auto s = gen<D>(c, D == 1 ? 40 : D == 2 ? 9 : 6, true); const auto g = make(s); using G = Grid<D>;
    c.note([&](auto & o) { o << show(s); }); c.nontrivial(std::set<I>(s.n.begin(), s.n.end()).size() == D || D == 1);
    I nc = 1, nn = 1; for (auto v : s.n) { nc *= v; nn *= v + 1; }
    VP_CHECK((I) g.number_of_cells() == nc, "number of cells ", g.number_of_cells(), " expected ", nc);
    VP_CHECK((I) g.number_of_nodes() == nn, "number of nodes ", g.number_of_nodes(), " expected ", nn);
    const auto n1 = plus1(s.n);
    for_each<D>(n1, [&](const std::array<I, D> & i, I k) {
        VP_CHECK((I) g.node_index_at(coords<D>(i)) == k, "index of node ", show(coords<D>(i)), " is ", g.node_index_at(coords<D>(i)), " expected ", k);
        const typename G::GridCoordinates r = g.node_coordinates_at((typename G::NodeIndex) k);
        VP_CHECK(r == coords<D>(i), "coordinates of node ", k, " are ", show(r), " expected ", show(coords<D>(i)));
    });
    for_each<D>(s.n, [&](const std::array<I, D> & i, I k) {
        VP_CHECK((I) g.cell_index_at(coords<D>(i)) == k, "index of cell ", show(coords<D>(i)), " is ", g.cell_index_at(coords<D>(i)), " expected ", k);
        const typename G::GridCoordinates r = g.cell_coordinates_at((typename G::CellIndex) k);
        VP_CHECK(r == coords<D>(i), "coordinates of cell ", k, " are ", show(r), " expected ", show(coords<D>(i)));
        // corners of the cell, in the order of the nodes of its element
        static const int C[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
        const auto a = g.node_indices_of((typename G::CellIndex) k), b = g.node_indices_of(coords<D>(i));
        VP_CHECK(a.size() == (1u << D) && b.size() == a.size(), "number of nodes of a cell");
        for (size_t j = 0; j < a.size(); ++j) { auto q = i; for (size_t d = 0; d < D; ++d) q[d] += C[j][d]; const I e = flat<D>(q, n1);
            VP_CHECK((I) a[j] == e && (I) b[j] == e, "node ", j, " of cell ", k, " is ", a[j], " / ", b[j], " expected ", e); }
    });
    if constexpr (D > 1) {
        std::set<std::set<I>> expected;
        for_each<D>(n1, [&](const std::array<I, D> & i, I k) { for (size_t d = 0; d < D; ++d) if (i[d] < s.n[d]) { auto q = i; ++q[d]; expected.insert({k, flat<D>(q, n1)}); } });
        VP_CHECK(g.number_of_edges() == expected.size(), "number of edges ", g.number_of_edges(), " expected ", expected.size());
        std::set<std::set<I>> seen;
        for (std::size_t e = 0; e < expected.size(); ++e) { const auto x = g.edge(e); std::set<I> k{(I) x[0], (I) x[1]};
            VP_CHECK(expected.count(k), "edge ", e, " joins nodes ", x[0], " and ", x[1], " which are not the ends of an edge"); VP_CHECK(seen.insert(k).second, "edge ", e, " (", x[0], ", ", x[1], ") listed twice"); }
    }
    if constexpr (D == 3) {
        std::map<std::set<I>, std::array<I, 4>> expected;
        for_each<3>(n1, [&](const std::array<I, 3> & i, I k) { for (int a = 0; a < 3; ++a) for (int b = a + 1; b < 3; ++b) if (i[a] < s.n[a] && i[b] < s.n[b]) {
            auto p = i, q = i, r = i; ++p[a]; ++q[a]; ++q[b]; ++r[b]; const std::array<I, 4> f{k, flat<3>(p, n1), flat<3>(q, n1), flat<3>(r, n1)}; expected[{f.begin(), f.end()}] = f; } });
        VP_CHECK(g.number_of_faces() == expected.size(), "number of faces ", g.number_of_faces(), " expected ", expected.size());
        std::set<std::set<I>> seen;
        for (std::size_t e = 0; e < expected.size(); ++e) { const auto x = g.face(e); std::set<I> k; for (auto v : x) k.insert((I) v); const auto it = expected.find(k);
            VP_CHECK(it != expected.end(), "face ", e, " (", x[0], " ", x[1], " ", x[2], " ", x[3], ") is not a face of the grid"); VP_CHECK(seen.insert(k).second, "face ", e, " listed twice");
            // consecutive nodes of a face share an edge: diagonally opposite nodes are those of the expected cycle
            const auto & f = it->second; std::set<I> diag{(I) x[0], (I) x[2]}; VP_CHECK(diag == std::set<I>({f[0], f[2]}) || diag == std::set<I>({f[1], f[3]}), "the nodes of face ", e, " do not go around it"); }
    }
}
// grids too large to enumerate: round trips at random indices (beyond 32 bits as well)
template <size_t D> void large(vp::Ctx & c) {
    Spec<D> s; for (size_t d = 0; d < D; ++d) { s.n[d] = 1 + (I) c.draw(D == 1 ? 1ull << 40 : D == 2 ? 1u << 20 : 1u << 16); s.anchor[d] = 0; s.size[d] = double(s.n[d]); }
    const auto g = make(s); const auto n1 = plus1(s.n);
    c.note([&](auto & o) { o << "large " << show(s); }); c.nontrivial();
    for (int k = 0; k < 4; ++k) {
        std::array<I, D> i; for (size_t d = 0; d < D; ++d) i[d] = (I) c.draw((uint64_t) s.n[d] + 1);
        const I e = flat<D>(i, n1);
        VP_CHECK((I) g.node_index_at(coords<D>(i)) == e && (typename Grid<D>::GridCoordinates) g.node_coordinates_at(e) == coords<D>(i), "node ", show(coords<D>(i)), ": index ", g.node_index_at(coords<D>(i)), " expected ", e);
        for (size_t d = 0; d < D; ++d) i[d] = std::min(i[d], s.n[d] - 1);
        const I f = flat<D>(i, s.n);
        VP_CHECK((I) g.cell_index_at(coords<D>(i)) == f && (typename Grid<D>::GridCoordinates) g.cell_coordinates_at(f) == coords<D>(i), "cell ", show(coords<D>(i)), ": index ", g.cell_index_at(coords<D>(i)), " expected ", f);
    }
}
}
static const bool reg = [] {
    vp::Reg("numbering/1D", .3, numbering<1>); vp::Reg("numbering/2D", 1, numbering<2>); vp::Reg("numbering/3D", 1, numbering<3>);
    vp::Reg("large/1D", .3, large<1>); vp::Reg("large/2D", .5, large<2>); vp::Reg("large/3D", .5, large<3>);
    return true;
}();
