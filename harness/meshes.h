// Random conforming meshes of one element type over a jittered lattice, with holes and shuffled numbering.
#pragma once
#include "elements.h"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Topology/BarycentricContainer.h>
#include <Caribou/Topology/HashGrid.h>
#include <array>
#include <algorithm>
#include <numeric>
namespace ms {
using namespace el;
using caribou::topology::Mesh;
template <class E> struct M {
    Eigen::Matrix<double, Eigen::Dynamic, DIM<E>, DIM<E> == 1 ? Eigen::ColMajor : Eigen::RowMajor> X;
    Eigen::Matrix<unsigned long long, Eigen::Dynamic, NN<E>, Eigen::RowMajor> T;     // the elements of the domain
    Eigen::Matrix<unsigned long long, Eigen::Dynamic, NN<E>, Eigen::RowMajor> holes; // elements left out of the domain
    Eigen::Matrix<double, DIM<E>, DIM<E>> A; Eigen::Matrix<double, DIM<E>, 1> t;     // lattice -> world
    Eigen::Matrix<double, Eigen::Dynamic, 3> lat;                                    // lattice position of the nodes (before jittering)
    std::array<int, 3> n{{1, 1, 1}}; double scale = 1, offset = 0; bool affine = true;
    NodeMat<E> nodes_of(const unsigned long long * ids) const { NodeMat<E> r; for (int i = 0; i < NN<E>; ++i) r.row(i) = X.row((Eigen::Index) ids[i]); return r; }
    NodeMat<E> element(int e) const { return nodes_of(T.row(e).data()); }
    NodeMat<E> hole(int e) const { return nodes_of(holes.row(e).data()); }
};
template <class E> std::vector<std::vector<int>> cells_of_box() { // corner numbers of a box, in the order of the reference quad / hexahedron
    constexpr Kind K = Info<E>::kind;
    if constexpr (K == SEG) return {{0, 1}};
    else if constexpr (K == QUAD) return {{0, 1, 2, 3}};
    else if constexpr (K == HEX) return {{0, 1, 2, 3, 4, 5, 6, 7}};
    else if constexpr (K == TRI) return {{0, 1, 2}, {0, 2, 3}};
    else return {{0, 1, 2, 6}, {0, 2, 3, 6}, {0, 3, 7, 6}, {0, 7, 4, 6}, {0, 4, 5, 6}, {0, 5, 1, 6}};
}
// jitter: largest displacement of a lattice node, in lattice units (0 keeps quads and hexahedra affine)
template <class E> M<E> gen_mesh(vp::Ctx & c, double jitter, int maxn, bool with_holes) {
    constexpr Kind K = Info<E>::kind; constexpr int D = DIM<E>; static_assert(DIM<E> == CDIM<E>);
    M<E> m; int nx[3] = {1, 1, 1}; for (int d = 0; d < D; ++d) { nx[d] = 1 + (int) c.draw((uint64_t) maxn); m.n[d] = nx[d]; }
    if (Info<E>::rect) jitter = 0;
    m.affine = jitter == 0 || K == TRI || K == TET || K == SEG;
    m.scale = gen_scale(c);
    Eigen::Matrix<double, D, D> S = Eigen::Matrix<double, D, D>::Identity();
    for (int d = 0; d < D; ++d) { static const double st[] = {1, 1, 2, .5, .3}; S(d, d) = st[c.draw(5)]; }
    if (!Info<E>::rect && c.flip()) for (int i = 0; i < D; ++i) for (int j = i + 1; j < D; ++j) S(i, j) = c.real(-.4, .4) * S(i, i);
    m.A = gen_rotation<D>(c) * S * m.scale;
    m.t.setZero(); if (c.draw(3)) for (int d = 0; d < D; ++d) m.t[d] = c.real(-10, 10) * m.scale;
    m.offset = m.t.norm() + m.scale * (nx[0] + nx[1] + nx[2]) * 2;
    std::vector<Eigen::Matrix<double, D, 1>> pts; std::vector<Eigen::RowVector3d> lat;
    auto id = [&](int i, int j, int k) { return (i) + (nx[0] + 1) * (j + (D > 1 ? nx[1] + 1 : 1) * k); };
    for (int k = 0; k <= (D > 2 ? nx[2] : 0); ++k) for (int j = 0; j <= (D > 1 ? nx[1] : 0); ++j) for (int i = 0; i <= nx[0]; ++i) {
        Eigen::Matrix<double, D, 1> u; const int v[3] = {i, j, k};
        for (int d = 0; d < D; ++d) { u[d] = v[d]; if (jitter > 0) u[d] += c.uniform(-jitter, jitter); }
        pts.push_back(m.A * u + m.t); lat.emplace_back(i, j, k);
    }
    static const int B[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    std::vector<std::vector<unsigned long long>> el; std::map<std::pair<int, int>, int> mids;
    const auto & ref1 = ref_nodes(K, 1); const auto & ref = ref_nodes(K, Info<E>::order);
    for (int k = 0; k < (D > 2 ? nx[2] : 1); ++k) for (int j = 0; j < (D > 1 ? nx[1] : 1); ++j) for (int i = 0; i < nx[0]; ++i) for (const auto & cell : cells_of_box<E>()) {
        std::vector<unsigned long long> e; for (int q : cell) e.push_back((unsigned long long) id(i + B[q][0], j + B[q][1], k + B[q][2]));
        for (int s = (int) ref1.size(); s < NN<E>; ++s) { // mid-edge nodes, shared between neighbours
            int pa = -1, pb = -1;
            for (int a = 0; a < (int) ref1.size(); ++a) for (int b = a + 1; b < (int) ref1.size(); ++b) { bool mid = true; for (int d = 0; d < 3; ++d) mid &= std::fabs(ref[s][d] - 0.5 * (ref1[a][d] + ref1[b][d])) < 1e-14; if (mid) { int diff = 0; for (int d = 0; d < 3; ++d) diff += ref1[a][d] != ref1[b][d]; if (K == TRI || K == TET || diff == 1) { pa = a; pb = b; } } }
            const std::pair<int, int> key(std::min((int) e[pa], (int) e[pb]), std::max((int) e[pa], (int) e[pb])); auto it = mids.find(key);
            if (it == mids.end()) { it = mids.emplace(key, (int) pts.size()).first; pts.push_back(0.5 * (pts[e[pa]] + pts[e[pb]])); lat.push_back(0.5 * (lat[e[pa]] + lat[e[pb]])); }
            e.push_back((unsigned long long) it->second);
        }
        el.push_back(e);
    }
    // shuffle nodes and elements, drop some elements
    std::vector<int> pn(pts.size()), pe(el.size()); std::iota(pn.begin(), pn.end(), 0); std::iota(pe.begin(), pe.end(), 0);
    if (c.flip()) { for (std::size_t i = pn.size(); i > 1; --i) std::swap(pn[i - 1], pn[c.draw(i)]); for (std::size_t i = pe.size(); i > 1; --i) std::swap(pe[i - 1], pe[c.draw(i)]); }
    m.X.resize((Eigen::Index) pts.size(), D); for (std::size_t i = 0; i < pts.size(); ++i) m.X.row(pn[i]) = pts[i].transpose();
    m.lat.resize((Eigen::Index) pts.size(), 3); for (std::size_t i = 0; i < pts.size(); ++i) m.lat.row(pn[i]) = lat[i];
    std::vector<int> keep, drop; const bool dig = with_holes && el.size() > 1 && c.flip();
    for (int e : pe) { if (dig && c.draw(4) == 3) drop.push_back(e); else keep.push_back(e); }
    if (keep.empty()) { keep.push_back(drop.back()); drop.pop_back(); }
    m.T.resize((Eigen::Index) keep.size(), NN<E>); m.holes.resize((Eigen::Index) drop.size(), NN<E>);
    for (std::size_t i = 0; i < keep.size(); ++i) for (int s = 0; s < NN<E>; ++s) m.T((Eigen::Index) i, s) = (unsigned long long) pn[el[keep[i]][s]];
    for (std::size_t i = 0; i < drop.size(); ++i) for (int s = 0; s < NN<E>; ++s) m.holes((Eigen::Index) i, s) = (unsigned long long) pn[el[drop[i]][s]];
    return m;
}
template <class E> Local<E> shrink(const Local<E> & xi, double f) { // towards the centre of the reference element
    Local<E> ctr = Local<E>::Zero(); if (Info<E>::kind == TRI) ctr.setConstant(1. / 3); if (Info<E>::kind == TET) ctr.setConstant(.25);
    return ctr + f * (xi - ctr);
}
// a random point well inside one of the faces (edges in 2D) of the reference element
template <class E> Local<E> gen_face_point(vp::Ctx & c) {
    constexpr int D = DIM<E>; Local<E> x = shrink<E>(gen_local<E>(c), 0.9);
    if (Info<E>::kind == TRI || Info<E>::kind == TET) {
        double b[4]; b[D] = 1; for (int d = 0; d < D; ++d) { b[d] = x[d]; b[D] -= x[d]; }
        const int f = (int) c.draw(D + 1); const double s = 1 - b[f]; b[f] = 0; for (int d = 0; d < D; ++d) x[d] = b[d] / s;
        if (f == D) { double t = 0; for (int d = 0; d < D; ++d) t += x[d]; for (int d = 0; d < D; ++d) x[d] /= t; }
    } else x[(int) c.draw(D)] = c.flip() ? 1 : -1;
    return x;
}
// the corners of element e spanning the smallest face / edge / corner that holds the local point
template <class E> std::vector<unsigned long long> carrier(const M<E> & m, int e, const Local<E> & xi) {
    double x[3] = {0, 0, 0}; for (int d = 0; d < DIM<E>; ++d) x[d] = xi[d];
    std::vector<unsigned long long> s; const int nc = (int) ref_nodes(Info<E>::kind, 1).size();
    for (int i = 0; i < nc; ++i) if (std::fabs(basis<double>(Info<E>::kind, 1, i, x)) > 1e-12) s.push_back(m.T(e, i));
    return s;
}
template <class E> bool touches(const M<E> & m, const unsigned long long * row, const std::vector<unsigned long long> & s) { for (auto v : s) if (std::find(row, row + NN<E>, v) == row + NN<E>) return false; return true; }
// is the point carried by s in the interior of the union of the elements of the domain?
template <class E> bool interior(const M<E> & m, const std::vector<unsigned long long> & s) {
    for (int d = 0; d < DIM<E>; ++d) for (int side = 0; side < 2; ++side) { bool on = true; for (auto v : s) on &= m.lat((Eigen::Index) v, d) == (side ? m.n[d] : 0); if (on) return false; }
    for (int h = 0; h < m.holes.rows(); ++h) if (touches(m, m.holes.row(h).data(), s)) return false;
    return true;
}
#if VP_GROUP == 0
using Solid = List<Seg1L, Seg1Q, Tri2L, Tri2Q>;
#elif VP_GROUP == 1
using Solid = List<Quad2L, Quad2Q, RQuad2L>;
#elif VP_GROUP == 2
using Solid = List<TetL, HexL, RHexL>;
#elif VP_GROUP == 3
using Solid = List<TetQ, HexQ>;
#else
using Solid = List<>;
#endif
}
