// P12: point location in a grid, against a brute-force search over its cells.
#include "grids.h"
using namespace gr;
namespace {
template <size_t D> using W = Eigen::Matrix<double, (int) D, 1>;
// a point placed in units of cells: inside a cell, on planes (exact when the grid is dyadic), or outside of the grid
template <size_t D> W<D> gen_point(vp::Ctx & c, const Spec<D> & s, double outside) {
    W<D> p;
    for (size_t d = 0; d < D; ++d) {
        const double h = s.size[d] / double(s.n[d]); double u;
        const auto k = c.draw(4);
        const I lo = outside > 0 ? -3 : 0, hi = s.n[d] + (outside > 0 ? 3 : 0);
        if (k == 0) u = double(c.integer(lo, hi));
        else if (k == 1) u = double(c.integer(lo, hi - 1)) + 0.5;
        else if (k == 2) u = double(lo) + double(c.draw((uint64_t) (hi - lo) * 16 + 1)) / 16;
        else u = c.uniform(double(lo), double(hi));
        p[d] = s.anchor[d] + u * h;
    }
    return p;
}
template <size_t D> struct Rel { std::array<double, D> u; double tol; };
// cells whose closed box, enlarged by t (in cells), contains the point
template <size_t D> std::set<I> brute(const Spec<D> & s, const W<D> & p, double t) {
    std::set<I> r; for_each<D>(s.n, [&](const std::array<I, D> & i, I k) { bool in = true; for (size_t d = 0; d < D; ++d) { const double h = s.size[d] / double(s.n[d]), u = (p[d] - s.anchor[d]) / h; in &= u >= double(i[d]) - t && u <= double(i[d] + 1) + t; } if (in) r.insert(k); });
    return r;
}
template <size_t D> double slack(const Spec<D> & s) { double t = 0; for (size_t d = 0; d < D; ++d) t = std::max(t, (std::fabs(s.anchor[d]) + s.size[d]) / (s.size[d] / double(s.n[d]))); return 1e-14 * t + 1e-13; }
template <size_t D> std::string set_str(const std::set<I> & x) { std::ostringstream o; o << "{"; for (auto v : x) o << v << " "; o << "}"; return o.str(); }

template <size_t D> void around(vp::Ctx & c) {
    const bool dy = c.draw(3) > 0; const auto s = gen<D>(c, D == 1 ? 12 : D == 2 ? 6 : 4, dy); const auto g = make(s);
    const bool out = c.flip(); const auto p = gen_point<D>(c, s, out);
    c.note([&](auto & o) { o << show(s) << " p=" << show(p); });
    const double t = slack(s); const auto lo = brute<D>(s, p, -t), hi = brute<D>(s, p, t);
    c.nontrivial(!hi.empty()); c.label(hi.empty() ? "outside" : hi.size() == 1 && lo.size() == 1 ? "inside a cell" : "on a plane");
    const auto v = g.cells_around(p); const std::set<I> r(v.begin(), v.end());
    VP_CHECK(r.size() == v.size(), "a cell is listed twice");
    if (dy) { const auto ex = brute<D>(s, p, 0); VP_CHECK(r == ex, "cells around ", show(p), " are ", set_str<D>(r), " expected ", set_str<D>(ex)); }
    else {
        VP_CHECK(std::includes(hi.begin(), hi.end(), r.begin(), r.end()), "cells around ", show(p), " are ", set_str<D>(r), " but only ", set_str<D>(hi), " touch the point");
        VP_CHECK(std::includes(r.begin(), r.end(), lo.begin(), lo.end()), "cells around ", show(p), " are ", set_str<D>(r), " expected at least ", set_str<D>(lo));
    }
}
template <size_t D> void containing(vp::Ctx & c) {
    const bool dy = c.draw(3) > 0; const auto s = gen<D>(c, D == 1 ? 12 : D == 2 ? 6 : 4, dy); const auto g = make(s);
    const auto p = gen_point<D>(c, s, 0); const double t = slack(s);
    c.note([&](auto & o) { o << show(s) << " p=" << show(p); });
    const auto lo = brute<D>(s, p, -t), hi = brute<D>(s, p, t);
    bool upper = false, lower_edge = false; for (size_t d = 0; d < D; ++d) { const double u = (p[d] - s.anchor[d]) / s.size[d] * double(s.n[d]); upper |= u >= double(s.n[d]) - 2e-6; lower_edge |= !dy && u < t; }
    c.nontrivial(!hi.empty()); c.label(upper ? "upper boundary" : lo.empty() ? "on a plane" : "inside a cell");
    if (lower_edge) return; // rounding decides on which side of the lower boundary the point is
    if (!upper) { const I k = (I) g.cell_index_containing(p, false); VP_CHECK(hi.count(k), "the cell containing ", show(p), " is ", k, " expected one of ", set_str<D>(hi));
        const auto q = base<D>(g).cell_coordinates_at(p); VP_CHECK((I) g.cell_index_at(q) == k, "cell coordinates ", show(q), " do not match cell index ", k);
        if (dy) { std::array<I, D> i; for (size_t d = 0; d < D; ++d) i[d] = (I) std::floor((p[d] - s.anchor[d]) / (s.size[d] / double(s.n[d]))); VP_CHECK(q == coords<D>(i), "cell coordinates ", show(q), " expected ", show(coords<D>(i))); } }
    // with the boundary test every point of the closed grid is in a cell of the grid
    const I k = (I) g.cell_index_containing(p, true); VP_CHECK(hi.count(k), "(boundary test) the cell containing ", show(p), " is ", k, " expected one of ", set_str<D>(hi));
    const auto q = base<D>(g).cell_coordinates_at(p, true); VP_CHECK((I) g.cell_index_at(q) == k, "(boundary test) cell coordinates ", show(q), " do not match cell index ", k);
    for (size_t d = 0; d < D; ++d) VP_CHECK(q[d] >= 0 && (I) q[d] < s.n[d], "(boundary test) cell coordinates ", show(q), " outside of the grid");
}
template <size_t D> void contains(vp::Ctx & c) {
    const auto s = gen<D>(c, 5, c.flip()); const auto g = make(s); const auto k = c.draw(4);
    const double eps = k <= 1 ? 0 : k == 2 ? 1e-3 : 0.2; W<D> p;
    for (size_t d = 0; d < D; ++d) { const auto m = c.draw(3); const double u = m == 0 ? c.real(0, 1) : m == 1 ? c.uniform(-.5, 1.5) : (c.flip() ? 1 + eps * c.uniform(0.5, 1.5) : -eps * c.uniform(0.5, 1.5)); p[d] = s.anchor[d] + u * s.size[d]; }
    double m = -1e300; for (size_t d = 0; d < D; ++d) { const double u = (p[d] - s.anchor[d]) / s.size[d]; m = std::max(m, std::max(-u, u - 1)); }
    c.note([&](auto & o) { o << show(s) << " p=" << show(p) << " eps=" << eps; });
    const double t = slack(s); const bool r = k == 0 ? g.contains(p) : g.contains(p, eps);
    if (m < eps - t) { c.label("inside"); c.nontrivial(); VP_CHECK(r, "point ", show(p), " of the grid (tolerance ", eps, ") reported outside"); }
    else if (m > eps + t) { c.label("outside"); c.nontrivial(); VP_CHECK(!r, "point ", show(p), " outside of the grid (tolerance ", eps, ") reported inside"); }
    else if (s.dyadic && eps == 0) { c.label("boundary"); c.nontrivial(); VP_CHECK(r, "point ", show(p), " on the boundary of the grid reported outside"); }
}
template <size_t D> void enclosing(vp::Ctx & c) {
    const auto s = gen<D>(c, D == 1 ? 12 : D == 2 ? 6 : 4, true); const auto g = make(s);
    const int n = 1 + (int) c.draw(4); std::vector<W<D>> p; for (int i = 0; i < n; ++i) p.push_back(gen_point<D>(c, s, c.flip() ? 1 : 0));
    c.note([&](auto & o) { o << show(s); for (auto & q : p) o << " p=" << show(q); });
    // oracle: clipped bounding box of the cells around the points (points outside are moved to the boundary)
    std::array<I, D> lo, hi; for (size_t d = 0; d < D; ++d) { lo[d] = s.n[d]; hi[d] = -1; }
    bool any = false; int outside = 0;
    for (auto & q : p) { bool in = true; for (size_t d = 0; d < D; ++d) { const double u = (q[d] - s.anchor[d]) / (s.size[d] / double(s.n[d])); in &= u >= 0 && u <= double(s.n[d]);
            for (I i = 0; i < s.n[d]; ++i) { const double v = std::min(std::max(u, 0.), double(s.n[d])); if (v >= double(i) && v <= double(i + 1)) { lo[d] = std::min(lo[d], i); hi[d] = std::max(hi[d], i); } } }
        any |= in; outside += !in; }
    std::vector<I> expected; if (any) for_each<D>(s.n, [&](const std::array<I, D> & i, I k) { bool in = true; for (size_t d = 0; d < D; ++d) in &= i[d] >= lo[d] && i[d] <= hi[d]; if (in) expected.push_back(k); });
    c.nontrivial(any); c.label(!any ? "all outside" : outside ? "partly outside" : "all inside");
    using P = typename Grid<D>::WorldCoordinates;
    const auto r = n == 1 ? g.cells_enclosing(P(p[0])) : n == 2 ? g.cells_enclosing(P(p[0]), P(p[1])) : n == 3 ? g.cells_enclosing(P(p[0]), P(p[1]), P(p[2])) : g.cells_enclosing(P(p[0]), P(p[1]), P(p[2]), P(p[3]));
    std::vector<I> got(r.begin(), r.end()); std::sort(got.begin(), got.end());
    VP_CHECK(got == expected, "enclosing cells ", set_str<D>(std::set<I>(got.begin(), got.end())), " (", got.size(), ") expected ", set_str<D>(std::set<I>(expected.begin(), expected.end())));
}
}
static const bool reg = [] {
    vp::Reg("around/1D", .5, around<1>); vp::Reg("around/2D", 1, around<2>); vp::Reg("around/3D", 1, around<3>);
    vp::Reg("containing/1D", .5, containing<1>); vp::Reg("containing/2D", 1, containing<2>); vp::Reg("containing/3D", 1, containing<3>);
    vp::Reg("contains/1D", .3, contains<1>); vp::Reg("contains/2D", .5, contains<2>); vp::Reg("contains/3D", .5, contains<3>);
    vp::Reg("enclosing/1D", .5, enclosing<1>); vp::Reg("enclosing/2D", 1, enclosing<2>); vp::Reg("enclosing/3D", 1, enclosing<3>);
    return true;
}();
