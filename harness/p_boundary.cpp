// P05: boundary elements, faces and edges of an element.
#include "elements.h"
using namespace el;
namespace {
using Ref = std::array<double, 3>;
// number of the face of the reference element on which the point lies (bit mask)
unsigned faces_of(Kind k, const Ref & p) {
    unsigned m = 0; const int D = kind_dim(k);
    if (k == TRI || k == TET) { double s = 0; for (int d = 0; d < D; ++d) { if (std::fabs(p[d]) < 1e-14) m |= 1u << d; s += p[d]; } if (std::fabs(s - 1) < 1e-14) m |= 1u << D; }
    else for (int d = 0; d < D; ++d) { if (p[d] == -1) m |= 1u << (2 * d); if (p[d] == 1) m |= 1u << (2 * d + 1); }
    return m;
}
template <class E, class Edges> void check_edges(const Edges & edges, bool cyclic) {
    constexpr Kind K = Info<E>::kind; constexpr int O = Info<E>::order; const auto & ref = ref_nodes(K, O);
    const std::size_t expected = K == TRI ? 3 : K == QUAD ? 4 : K == TET ? 6 : 12;
    VP_CHECK(edges.size() == expected, "number of edges ", edges.size());
    std::set<std::set<unsigned>> seen; std::set<unsigned> mids;
    for (std::size_t i = 0; i < edges.size(); ++i) {
        VP_CHECK(edges[i].size() == (std::size_t) O + 1, "edge size");
        for (auto n : edges[i]) VP_CHECK(n < (unsigned) NN<E>, "edge ", i, " has node ", n);
        const auto a = edges[i][0], b = edges[i][1];
        VP_CHECK((int) a < corners(K) && (int) b < corners(K) && a != b, "edge ", i, " does not join two corners");
        // corners joined by an edge of the element: they share all but one face constraint
        if (K == QUAD || K == HEX) { int diff = 0; for (int d = 0; d < kind_dim(K); ++d) diff += ref[a][d] != ref[b][d]; VP_CHECK(diff == 1, "nodes ", a, " and ", b, " are not joined by an edge"); }
        VP_CHECK(seen.insert({(unsigned) a, (unsigned) b}).second, "edge {", a, ",", b, "} listed twice");
        if (O == 2) { const auto m = edges[i][O]; VP_CHECK(mids.insert(m).second, "mid node ", m, " listed twice"); for (int d = 0; d < kind_dim(K); ++d) VP_CHECK(ref[m][d] == 0.5 * (ref[a][d] + ref[b][d]), "node ", m, " is not at the middle of the edge {", a, ",", b, "}"); }
        if (cyclic) VP_CHECK(edges[i][1] == edges[(i + 1) % edges.size()][0], "edges are not consecutive");
    }
}
}
static const bool reg = [] {
    for_each_type(Group{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        constexpr Kind K = Info<E>::kind; constexpr int O = Info<E>::order, N = NN<E>, CD = CDIM<E>, D = DIM<E>;
        const std::string name = Info<E>::name();
        if constexpr (K == SEG) {
            vp::Reg("none/" + name, 1, [](vp::Ctx & c) { Shape sh; const E e = gen_element<E>(c, 0.3, sh); c.nontrivial(); c.note([&](auto & o) { o << Info<E>::name(); }); VP_CHECK(e.number_of_boundary_elements() == 0, "a segment has no boundary element"); }, true);
        } else {
            using B = typename traits<E>::BoundaryElementType;
            vp::Reg("table/" + name, 1, [](vp::Ctx & c) {
                Shape sh; const E e = gen_element<E>(c, 0.3, sh); c.nontrivial(); c.note([&](auto & o) { o << Info<E>::name() << " tables"; });
                const auto & ref = ref_nodes(K, O);
                const auto & idx = e.boundary_elements_node_indices();
                const std::size_t nb = K == TRI ? 3 : K == TET ? 4 : K == QUAD ? 4 : 6;
                VP_CHECK(e.number_of_boundary_elements() == nb && idx.size() == nb && traits<E>::NumberOfBoundaryElementsAtCompileTime == (long) nb, "number of boundary elements");
                unsigned covered = 0;
                for (std::size_t i = 0; i < nb; ++i) {
                    VP_CHECK((long) idx[i].size() == (long) B::NumberOfNodesAtCompileTime, "number of nodes of boundary ", i);
                    unsigned common = ~0u; std::set<unsigned> distinct;
                    for (auto n : idx[i]) { VP_CHECK(n < (unsigned) N, "node index ", n); common &= faces_of(K, ref[n]); distinct.insert(n); }
                    VP_CHECK(distinct.size() == idx[i].size(), "repeated node in boundary ", i);
                    VP_CHECK(common != 0 && (common & (common - 1)) == 0, "the nodes of boundary element ", i, " do not lie on one face of the element");
                    VP_CHECK(!(covered & common), "face listed twice"); covered |= common;
                }
                if constexpr (K == TRI || K == QUAD) { check_edges<E>(e.edges(), true); for (std::size_t i = 0; i < nb; ++i) for (std::size_t j = 0; j < idx[i].size(); ++j) VP_CHECK(e.edges()[i][j] == idx[i][j], "edges() differs from the boundary elements"); }
                else { check_edges<E>(e.edges(), false); const auto f = e.faces(); VP_CHECK(f.size() == nb, "faces()"); for (std::size_t i = 0; i < nb; ++i) for (std::size_t j = 0; j < idx[i].size(); ++j) VP_CHECK(f[i][j] == idx[i][j], "faces() differs from the boundary elements"); }
            }, true);
            vp::Reg("trace/" + name, 1, [](vp::Ctx & c) {
                // the boundary element is the restriction of the element to its face, oriented outwards
                Shape sh; const E e = gen_element<E>(c, Info<E>::rect ? 0 : 0.25, sh);
                const Eigen::Matrix<double, N, D> X = e.nodes();
                const auto & ref = ref_nodes(K, O);
                const auto f = c.draw(e.number_of_boundary_elements());
                const auto & idx = e.boundary_elements_node_indices()[f];
                const auto b = e.boundary_element(f);
                using BE = std::decay_t<decltype(b)>;
                const Local<BE> s = gen_local<BE>(c);
                const double big = sh.scale + sh.offset;
                c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X) << " boundary=" << f << " s=" << show(s); });
                c.nontrivial();
                for (int j = 0; j < NN<BE>; ++j) VP_CHECK((b.node(j) - e.node(idx[j])).norm() <= 1e-11 * big, "node ", j, " of boundary element ", f, " is ", show(b.node(j)), " instead of ", show(e.node(idx[j])));
                // local coordinates, in the element, of the point s of its boundary (by the boundary's own basis)
                Local<E> xi = Local<E>::Zero(); double xs[3] = {0, 0, 0}; for (int d = 0; d < CDIM<BE>; ++d) xs[d] = s[d];
                for (int j = 0; j < NN<BE>; ++j) { const double w = basis<double>(Info<BE>::kind, Info<BE>::order, j, xs); for (int d = 0; d < CD; ++d) xi[d] += w * ref[idx[j]][d]; }
                const World<E> pb = b.world_coordinates(s), pe = e.world_coordinates(xi);
                VP_CHECK((pb - pe).norm() <= 1e-11 * big, "the boundary element maps ", show(s), " to ", show(pb), ", the element maps ", show(xi), " to ", show(pe));
                if constexpr (CD == D) {
                    // outward orientation with respect to the element's own orientation
                    Local<E> ctr = Local<E>::Zero(); if (K == TRI) ctr.setConstant(1. / 3); if (K == TET) ctr.setConstant(.25);
                    const Eigen::Matrix<double, D, CD> J = e.jacobian(xi); const double dj = J.determinant();
                    const Eigen::Matrix<double, D, CD - 1> T = b.jacobian(s);
                    Eigen::Matrix<double, D, 1> n;
                    if constexpr (D == 2) n << T(1, 0), -T(0, 0); else n = T.col(0).cross(T.col(1));
                    // direction leaving the element through this face, in world space
                    const Eigen::Matrix<double, D, 1> out = J * (xi - ctr);
                    const double sgn = n.dot(out) * (dj > 0 ? 1 : -1);
                    VP_CHECK(sgn > 0, "boundary element ", f, " is not oriented outwards");
                }
            });
            if constexpr (CD == D && D > 1) vp::Reg("divergence/" + name, 0.5, [](vp::Ctx & c) {
                // sum over the boundary of the flux of x equals D times the volume (closedness and orientation together)
                Shape sh; const E e = gen_element<E>(c, 0, sh);
                const Eigen::Matrix<double, N, D> X = e.nodes();
                c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X); });
                c.nontrivial();
                Local<E> ctr = Local<E>::Zero(); const double vol = e.jacobian(ctr).determinant() * ref_measure(K);
                double flux = 0; const World<E> o = e.node(0);
                for (std::size_t f = 0; f < e.number_of_boundary_elements(); ++f) { const auto b = e.boundary_element(f); for (const auto & g : b.gauss_nodes()) { const Eigen::Matrix<double, D, CD - 1> T = b.jacobian(g.position); Eigen::Matrix<double, D, 1> n; if constexpr (D == 2) n << T(1, 0), -T(0, 0); else n = T.col(0).cross(T.col(1)); flux += g.weight * n.dot(b.world_coordinates(g.position) - o); } }
                VP_CHECK(vp::near(flux, D * vol, 1e-9 * std::max(std::fabs(vol), std::pow(sh.scale, D) ) * (1 + sh.offset / sh.scale)), "flux of x through the boundary ", flux, " expected ", D * vol);
            });
        }
    });
    return true;
}();
