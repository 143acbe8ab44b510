// P09: hexahedron / segment and hexahedron / triangle intersection, against a separating-axis oracle.
#include "elements.h"
using namespace el;
namespace {
using V = Eigen::Vector3d;
// signed gap between the convex hull of pts and the cube [-1,1]^3 along (a superset of) the separating axes:
// > 0: disjoint by that distance along some axis, < 0: overlap along every axis
double gap(const std::vector<V> & pts) {
    std::vector<V> ax = {V::UnitX(), V::UnitY(), V::UnitZ()}; std::vector<V> edges;
    const std::size_t n = pts.size();
    for (std::size_t i = 0; i < (n == 2 ? 1 : n); ++i) edges.push_back(pts[(i + 1) % n] - pts[i]);
    if (n == 3) ax.push_back(edges[0].cross(edges[1]));
    for (auto & e : edges) for (int d = 0; d < 3; ++d) ax.push_back(e.cross(V::Unit(d)));
    double scale = 0; for (auto & e : edges) scale = std::max(scale, e.norm());
    double g = -1e300;
    for (auto a : ax) {
        const double l = a.norm(); if (l < 1e-9 * std::max(scale, 1e-12)) continue; a /= l;
        double lo = 1e300, hi = -1e300; for (auto & q : pts) { lo = std::min(lo, a.dot(q)); hi = std::max(hi, a.dot(q)); }
        const double r = a.cwiseAbs().sum();
        g = std::max(g, std::max(lo - r, -r - hi));
    }
    return g;
}
V pt(vp::Ctx & c, double s) { return V(c.real(-s, s), c.real(-s, s), c.real(-s, s)); }
std::vector<V> gen_points(vp::Ctx & c, int n) {
    std::vector<V> r; const auto k = c.draw(5);
    const double s = k == 4 ? 15 : 3;
    if (k <= 1 || k == 4) { for (int i = 0; i < n; ++i) r.push_back(pt(c, s)); }
    else if (k == 2) { // short primitive close to the surface of the cube
        V b = pt(c, 1); b[c.draw(3)] = c.flip() ? 1 : -1; b *= c.uniform(0.9, 1.3); for (int i = 0; i < n; ++i) r.push_back(b + 0.6 * pt(c, 1)); }
    else { // large primitive through or beside the cube, no vertex near it
        V o = pt(c, 1.6), u = pt(c, 1), v = pt(c, 1); if (u.norm() < .1) u = V::UnitX(); if (v.norm() < .1) v = V::UnitY();
        if (n == 2) r = {o + 4 * u, o - 4 * u}; else r = {o + 6 * u, o - 6 * u + 6 * v, o - 6 * u - 6 * v}; }
    return r;
}
template <class E> E make(vp::Ctx & c, Shape & sh) { if constexpr (Info<E>::rect) return gen_rect<E>(c, sh); else return E(gen_nodes<E>(c, 0, sh)); }
}
static const bool reg = [] {
    for_each_type(List<HexL, HexQ, RHexL, RHexQ>{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        const std::string name = Info<E>::name();
        vp::Reg("segment/" + name, 1, [](vp::Ctx & c) {
            Shape sh; const E e = make<E>(c, sh); const auto q = gen_points(c, 2);
            const double g = gap(q), tol = 1e-9 * (1 + sh.offset / sh.scale) * 50;
            const Seg3L s(World<E>(e.world_coordinates(q[0])), World<E>(e.world_coordinates(q[1])));
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(Eigen::Matrix<double, NN<E>, 3>(e.nodes())) << " segment(local)=" << show(q[0]) << show(q[1]); });
            if (std::fabs(g) < tol * 10) { c.label("touching"); return; }
            c.nontrivial(); c.label(g < 0 ? "hit" : "miss");
            VP_CHECK(e.intersects(s) == (g < 0), "segment ", show(q[0]), " - ", show(q[1]), " (local coordinates) gap ", g, " reported ", e.intersects(s));
            const Seg3L r(World<E>(e.world_coordinates(q[1])), World<E>(e.world_coordinates(q[0])));
            VP_CHECK(e.intersects(r) == (g < 0), "reversed segment");
            if (g < 0) VP_CHECK(e.intersects(s, 1e-3), "a tolerance makes the intersection vanish");
        });
        vp::Reg("triangle/" + name, 1, [](vp::Ctx & c) {
            Shape sh; const E e = make<E>(c, sh); auto q = gen_points(c, 3);
            const V nrm = (q[1] - q[0]).cross(q[2] - q[0]);
            if (nrm.norm() < 1e-2) c.discard(); // (nearly) degenerate triangle
            const double g = gap(q), tol = 1e-9 * (1 + sh.offset / sh.scale) * 50;
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(Eigen::Matrix<double, NN<E>, 3>(e.nodes())) << " triangle(local)=" << show(q[0]) << show(q[1]) << show(q[2]); });
            if (std::fabs(g) < tol * 10) { c.label("touching"); return; }
            c.nontrivial(); c.label(g < 0 ? "hit" : "miss");
            bool vin = false, ein = false; for (int i = 0; i < 3; ++i) { vin |= q[i].cwiseAbs().maxCoeff() < 1; ein |= gap({q[i], q[(i + 1) % 3]}) < 0; }
            if (g < 0) c.label(vin ? "vertex-inside" : ein ? "edge-crosses" : "pierced-by-cube-only");
            static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
            const auto & o = P[c.draw(6)];
            const Tri3L t(World<E>(e.world_coordinates(q[o[0]])), World<E>(e.world_coordinates(q[o[1]])), World<E>(e.world_coordinates(q[o[2]])));
            VP_CHECK(e.intersects(t) == (g < 0), "triangle ", show(q[o[0]]), show(q[o[1]]), show(q[o[2]]), " (local coordinates) gap ", g, " reported ", e.intersects(t));
        });
    });
    return true;
}();
