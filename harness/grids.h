// Generators and brute-force oracles for the regular grids.
#pragma once
#include "eigen_cfg.h"
#include "vp.h"
#include <Caribou/Topology/Grid/Grid.h>
#include <algorithm>
#include <array>
namespace gr {
using caribou::topology::Grid;
using I = long long;
template <size_t D> struct Spec { Eigen::Matrix<double, (int) D, 1> anchor, size; std::array<I, D> n; bool dyadic; };
template <size_t D> Spec<D> gen(vp::Ctx & c, I maxn, bool dyadic) {
    Spec<D> s; s.dyadic = dyadic;
    for (size_t d = 0; d < D; ++d) s.n[d] = 1 + (I) c.draw((uint64_t) maxn);
    for (size_t d = 0; d < D; ++d) {
        if (dyadic) { // anchor and cell size are exact binary fractions: every plane of the grid is representable
            s.anchor[d] = double(c.integer(-64, 64)) / 4; const double h = std::ldexp(1., (int) c.integer(-4, 4)) * double(1 + c.draw(3)); s.size[d] = h * double(s.n[d]); }
        else { const double sc = std::pow(10., (double) c.integer(-4, 4)); s.anchor[d] = c.real(-10, 10) * sc; s.size[d] = c.uniform(0.05, 10) * sc; }
    }
    return s;
}
template <size_t D> Grid<D> make(const Spec<D> & s) {
    using G = Grid<D>; typename G::Subdivisions n; for (size_t d = 0; d < D; ++d) n[d] = (unsigned long long) s.n[d];
    typename G::WorldCoordinates a = s.anchor; typename G::Dimensions z = s.size; return G(a, n, z);
}
template <size_t D> const caribou::topology::internal::BaseGrid<D, Grid<D>> & base(const Grid<D> & g) { return g; }
template <size_t D, class F> void for_each(const std::array<I, D> & n, F && f) { // x runs fastest
    std::array<I, D> i{}; I k = 0;
    while (true) { f(i, k++); size_t d = 0; while (d < D && ++i[d] == n[d]) i[d++] = 0; if (d == D) return; }
}
template <size_t D> std::array<I, D> plus1(std::array<I, D> n) { for (auto & v : n) ++v; return n; }
template <size_t D> typename Grid<D>::GridCoordinates coords(const std::array<I, D> & i) { typename Grid<D>::GridCoordinates r; for (size_t d = 0; d < D; ++d) r[d] = i[d]; return r; }
template <size_t D> I flat(const std::array<I, D> & i, const std::array<I, D> & n) { I r = 0; for (size_t d = D; d-- > 0;) r = r * n[d] + i[d]; return r; }
template <class V> std::string show(const V & v) { std::ostringstream o; o << std::setprecision(17) << "["; for (int i = 0; i < (int) v.size(); ++i) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }
template <size_t D> std::string show(const Spec<D> & s) { std::ostringstream o; o << D << "D grid anchor=" << show(s.anchor) << " n="; for (auto v : s.n) o << v << " "; o << "size=" << show(s.size); return o.str(); }
}
