// Reference description of the finite elements, written from the documented node numbering, and independent of the
// library: reference node positions, nodal basis (evaluated with plain doubles or dual numbers), boundaries.
#pragma once
#include "eigen_cfg.h"
#include "vp.h"
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/RectangularQuad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/RectangularHexahedron.h>
#include <Eigen/Dense>
#include <array>

namespace el {
using namespace caribou::geometry;
using caribou::Linear; using caribou::Quadratic; using caribou::_1D; using caribou::_2D; using caribou::_3D;

enum Kind { SEG, TRI, QUAD, TET, HEX };

// ---------------------------------------------------------------- dual numbers (value + gradient wrt 3 local coordinates)
struct Dual { double v; double d[3]; Dual(double x = 0) : v(x), d{0, 0, 0} {} };
inline Dual var(double x, int i) { Dual r(x); r.d[i] = 1; return r; }
inline Dual operator+(const Dual & a, const Dual & b) { Dual r(a.v + b.v); for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
inline Dual operator-(const Dual & a, const Dual & b) { Dual r(a.v - b.v); for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
inline Dual operator*(const Dual & a, const Dual & b) { Dual r(a.v * b.v); for (int i = 0; i < 3; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }

// ---------------------------------------------------------------- reference nodes
inline int kind_dim(Kind k) { return k == SEG ? 1 : (k == TRI || k == QUAD) ? 2 : 3; }
inline const std::vector<std::array<double, 3>> & ref_nodes(Kind k, int order) {
    static const std::vector<std::array<double, 3>> seg1 = {{-1, 0, 0}, {1, 0, 0}}, seg2 = {{-1, 0, 0}, {1, 0, 0}, {0, 0, 0}};
    static const std::vector<std::array<double, 3>> tri1 = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, tri2 = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {.5, 0, 0}, {.5, .5, 0}, {0, .5, 0}};
    static const std::vector<std::array<double, 3>> quad1 = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}},
        quad2 = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {0, -1, 0}, {1, 0, 0}, {0, 1, 0}, {-1, 0, 0}};
    static const std::vector<std::array<double, 3>> tet1 = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}},
        tet2 = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {.5, 0, 0}, {.5, .5, 0}, {0, .5, 0}, {0, 0, .5}, {.5, 0, .5}, {0, .5, .5}};
    static const std::vector<std::array<double, 3>> hex1 = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}},
        hex2 = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1},
                {0, -1, -1}, {1, 0, -1}, {0, 1, -1}, {-1, 0, -1}, {0, -1, 1}, {1, 0, 1}, {0, 1, 1}, {-1, 0, 1},
                {-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}};
    switch (k) {
        case SEG: return order == 1 ? seg1 : seg2;
        case TRI: return order == 1 ? tri1 : tri2;
        case QUAD: return order == 1 ? quad1 : quad2;
        case TET: return order == 1 ? tet1 : tet2;
        default: return order == 1 ? hex1 : hex2;
    }
}
inline int corners(Kind k) { return k == SEG ? 2 : k == TRI ? 3 : k == QUAD || k == TET ? 4 : 8; }

// ---------------------------------------------------------------- nodal basis function i at xi
template <class S> S basis(Kind k, int order, int i, const S * x) {
    const auto & n = ref_nodes(k, order)[i];
    const int D = kind_dim(k);
    if (k == TRI || k == TET) {
        // barycentric coordinates of the point, and of the node
        S b[4]; double c[4]; b[0] = S(1.0); c[0] = 1;
        for (int d = 0; d < D; ++d) { b[0] = b[0] - x[d]; b[d + 1] = x[d]; c[0] -= n[d]; c[d + 1] = n[d]; }
        if (order == 1) { for (int j = 0; j <= D; ++j) if (c[j] == 1) return b[j]; }
        else {
            S r(4.0); int halves = 0;
            for (int j = 0; j <= D; ++j) { if (c[j] == 1) return b[j] * (S(2.0) * b[j] - S(1.0)); if (c[j] == 0.5) { r = r * b[j]; ++halves; } }
            if (halves == 2) return r;
        }
        throw std::logic_error("bad oracle");
    }
    if (order == 1) { S r(1.0); for (int d = 0; d < D; ++d) r = r * S(0.5) * (S(1.0) + S(n[d]) * x[d]); return r; }
    if (D == 1) { if (n[0] == 0) return S(1.0) - x[0] * x[0]; return S(0.5) * x[0] * (x[0] + S(n[0])); }
    // serendipity (superlinear) family
    int zero = -1; for (int d = 0; d < D; ++d) if (n[d] == 0) zero = d;
    S r(1.0);
    if (zero >= 0) { for (int d = 0; d < D; ++d) r = r * (d == zero ? S(1.0) - x[d] * x[d] : S(0.5) * (S(1.0) + S(n[d]) * x[d])); return r; }
    S s(-(double) (D - 1)); for (int d = 0; d < D; ++d) { r = r * S(0.5) * (S(1.0) + S(n[d]) * x[d]); s = s + S(n[d]) * x[d]; }
    return r * s;
}

// inside the closed reference element, enlarged by eps
inline bool inside(Kind k, const double * x, double eps) {
    const int D = kind_dim(k);
    if (k == TRI || k == TET) { double s = 0; for (int d = 0; d < D; ++d) { if (x[d] < -eps) return false; s += x[d]; } return s <= 1 + eps; }
    for (int d = 0; d < D; ++d) if (std::fabs(x[d]) > 1 + eps) return false;
    return true;
}
inline double ref_measure(Kind k) { return k == SEG ? 2 : k == TRI ? .5 : k == QUAD ? 4 : k == TET ? 1. / 6 : 8; }

// exact integral of u^a v^b w^c over the reference element
inline double ref_monomial(Kind k, int a, int b, int c) {
    auto fact = [](int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; };
    if (k == TRI) return fact(a) * fact(b) / fact(a + b + 2);
    if (k == TET) return fact(a) * fact(b) * fact(c) / fact(a + b + c + 3);
    double r = 1; const int e[3] = {a, b, c};
    for (int d = 0; d < kind_dim(k); ++d) r *= (e[d] % 2) ? 0. : 2. / (e[d] + 1);
    return r;
}

// ---------------------------------------------------------------- the library's element types
template <class E> struct Info;
#define EL_INFO(TYPE, NAME, KIND, ORDER, RECT) \
    template <> struct Info<TYPE> { static constexpr Kind kind = KIND; static constexpr int order = ORDER; static constexpr bool rect = RECT; static const char * name() { return NAME; } };
using Seg1L = Segment<_1D, Linear>; using Seg2L = Segment<_2D, Linear>; using Seg3L = Segment<_3D, Linear>;
using Seg1Q = Segment<_1D, Quadratic>; using Seg2Q = Segment<_2D, Quadratic>; using Seg3Q = Segment<_3D, Quadratic>;
using Tri2L = Triangle<_2D, Linear>; using Tri3L = Triangle<_3D, Linear>; using Tri2Q = Triangle<_2D, Quadratic>; using Tri3Q = Triangle<_3D, Quadratic>;
using Quad2L = Quad<_2D, Linear>; using Quad3L = Quad<_3D, Linear>; using Quad2Q = Quad<_2D, Quadratic>; using Quad3Q = Quad<_3D, Quadratic>;
using RQuad2L = RectangularQuad<_2D, Linear>; using RQuad3L = RectangularQuad<_3D, Linear>; using RQuad2Q = RectangularQuad<_2D, Quadratic>; using RQuad3Q = RectangularQuad<_3D, Quadratic>;
using TetL = Tetrahedron<Linear>; using TetQ = Tetrahedron<Quadratic>; using HexL = Hexahedron<Linear>; using HexQ = Hexahedron<Quadratic>;
using RHexL = RectangularHexahedron<Linear>; using RHexQ = RectangularHexahedron<Quadratic>;
EL_INFO(Seg1L, "Segment<1D,Linear>", SEG, 1, false) EL_INFO(Seg2L, "Segment<2D,Linear>", SEG, 1, false) EL_INFO(Seg3L, "Segment<3D,Linear>", SEG, 1, false)
EL_INFO(Seg1Q, "Segment<1D,Quadratic>", SEG, 2, false) EL_INFO(Seg2Q, "Segment<2D,Quadratic>", SEG, 2, false) EL_INFO(Seg3Q, "Segment<3D,Quadratic>", SEG, 2, false)
EL_INFO(Tri2L, "Triangle<2D,Linear>", TRI, 1, false) EL_INFO(Tri3L, "Triangle<3D,Linear>", TRI, 1, false) EL_INFO(Tri2Q, "Triangle<2D,Quadratic>", TRI, 2, false) EL_INFO(Tri3Q, "Triangle<3D,Quadratic>", TRI, 2, false)
EL_INFO(Quad2L, "Quad<2D,Linear>", QUAD, 1, false) EL_INFO(Quad3L, "Quad<3D,Linear>", QUAD, 1, false) EL_INFO(Quad2Q, "Quad<2D,Quadratic>", QUAD, 2, false) EL_INFO(Quad3Q, "Quad<3D,Quadratic>", QUAD, 2, false)
EL_INFO(RQuad2L, "RectangularQuad<2D,Linear>", QUAD, 1, true) EL_INFO(RQuad3L, "RectangularQuad<3D,Linear>", QUAD, 1, true) EL_INFO(RQuad2Q, "RectangularQuad<2D,Quadratic>", QUAD, 2, true) EL_INFO(RQuad3Q, "RectangularQuad<3D,Quadratic>", QUAD, 2, true)
EL_INFO(TetL, "Tetrahedron<Linear>", TET, 1, false) EL_INFO(TetQ, "Tetrahedron<Quadratic>", TET, 2, false) EL_INFO(HexL, "Hexahedron<Linear>", HEX, 1, false) EL_INFO(HexQ, "Hexahedron<Quadratic>", HEX, 2, false)
EL_INFO(RHexL, "RectangularHexahedron<Linear>", HEX, 1, true) EL_INFO(RHexQ, "RectangularHexahedron<Quadratic>", HEX, 2, true)

// Element types are distributed over VP_GROUP 0..3 so that one source file compiles as several smaller units.
#ifndef VP_GROUP
#define VP_GROUP -1
#endif
template <class... E> struct List {};
#if VP_GROUP == 0
using Group = List<Seg1L, Seg2L, Seg3L, Seg1Q, Seg2Q, Seg3Q, Tri2L, Tri3L>;
using GroupGeneral = List<Seg1L, Seg2L, Seg3L, Seg1Q, Seg2Q, Seg3Q, Tri2L, Tri3L>;
using GroupRect = List<>;
#elif VP_GROUP == 1
using Group = List<Tri2Q, Tri3Q, TetL, TetQ, Quad2L, Quad3L>;
using GroupGeneral = List<Tri2Q, Tri3Q, TetL, TetQ, Quad2L, Quad3L>;
using GroupRect = List<>;
#elif VP_GROUP == 2
using Group = List<Quad2Q, Quad3Q, HexL, HexQ>;
using GroupGeneral = List<Quad2Q, Quad3Q, HexL, HexQ>;
using GroupRect = List<>;
#elif VP_GROUP == 3
using Group = List<RQuad2L, RQuad3L, RQuad2Q, RQuad3Q, RHexL, RHexQ>;
using GroupGeneral = List<>;
using GroupRect = List<RQuad2L, RQuad3L, RQuad2Q, RQuad3Q, RHexL, RHexQ>;
#endif
template <class F, class... E> void for_each_type(List<E...>, F && f) { (f(static_cast<E *>(nullptr)), ...); }

template <class E> constexpr int NN = E::NumberOfNodesAtCompileTime;
template <class E> constexpr int DIM = E::Dimension;
template <class E> constexpr int CDIM = E::CanonicalDimension;
template <class E> using Local = typename E::LocalCoordinates;
template <class E> using World = typename E::WorldCoordinates;
template <class E> using NodeMat = Eigen::Matrix<double, NN<E>, DIM<E>, DIM<E> == 1 ? Eigen::ColMajor : Eigen::ColMajor>;

template <class D> std::string show(const Eigen::MatrixBase<D> & m) {
    std::ostringstream s; s << std::setprecision(17);
    for (int i = 0; i < m.rows(); ++i) { s << (i ? "; " : "["); for (int j = 0; j < m.cols(); ++j) s << (j ? " " : "") << m(i, j); }
    s << "]"; return s.str();
}

// ---------------------------------------------------------------- generators
// a rotation matrix of dimension D (exact identity and quarter turns included)
template <int D> Eigen::Matrix<double, D, D> gen_rotation(vp::Ctx & c) {
    if constexpr (D == 1) return Eigen::Matrix<double, 1, 1>::Identity();
    else if constexpr (D == 2) {
        const auto k = c.draw(4);
        if (k == 0) return Eigen::Matrix2d::Identity();
        if (k == 1) { Eigen::Matrix2d m; const int q = (int) c.draw(4); const double cc[4] = {1, 0, -1, 0}, ss[4] = {0, 1, 0, -1}; m << cc[q], -ss[q], ss[q], cc[q]; return m; }
        const double a = c.uniform(-3.14159, 3.14159); Eigen::Matrix2d m; m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return m;
    } else {
        const auto k = c.draw(4);
        if (k == 0) return Eigen::Matrix3d::Identity();
        if (k == 1) { // signed permutation with determinant 1
            static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}};
            const auto p = c.draw(6); Eigen::Matrix3d m = Eigen::Matrix3d::Zero(); for (int i = 0; i < 3; ++i) m(P[p][i], i) = c.flip() ? -1 : 1;
            if (m.determinant() < 0) m.col(2) *= -1;
            return m;
        }
        Eigen::Vector3d ax(c.uniform(-1, 1), c.uniform(-1, 1), c.uniform(-1, 1)); if (ax.norm() < 1e-3) ax = Eigen::Vector3d::UnitX();
        return Eigen::AngleAxisd(c.uniform(-3.14159, 3.14159), ax.normalized()).toRotationMatrix();
    }
}
// characteristic size
inline double gen_scale(vp::Ctx & c) { static const double s[] = {1, 1, 1, 0.25, 7, 0.01, 100, 2500., 1e-5, 1e5}; return s[c.draw(10)]; }

struct Shape { double scale = 1, offset = 0; };

// A non-degenerate set of nodes for element type E: scaled / stretched / sheared / rotated / translated reference nodes,
// with each node moved by at most `distort` times the reference spacing (0 = affine image of the reference element).
template <class E> NodeMat<E> gen_nodes(vp::Ctx & c, double distort, Shape & sh, bool allow_mirror = true) {
    constexpr Kind K = Info<E>::kind; constexpr int CD = CDIM<E>, D = DIM<E>, N = NN<E>;
    const auto & ref = ref_nodes(K, Info<E>::order);
    Eigen::Matrix<double, N, CD> X;
    for (int i = 0; i < N; ++i) for (int d = 0; d < CD; ++d) X(i, d) = ref[i][d];
    if (distort > 0 && c.draw(4) != 0) {
        const double w = (K == TRI || K == TET) ? 0.5 : 1.0;
        const int nc = corners(K);
        for (int i = 0; i < N; ++i) {
            double a = distort * w; if (Info<E>::order == 2) a *= (i < nc ? 0.35 : 0.35);
            if (K == SEG && i < 2) a *= 0.5;
            for (int d = 0; d < CD; ++d) X(i, d) += c.uniform(-a, a);
        }
    }
    // stretch + shear in the local frame
    Eigen::Matrix<double, CD, CD> A = Eigen::Matrix<double, CD, CD>::Identity();
    for (int d = 0; d < CD; ++d) { static const double st[] = {1, 1, 0.5, 2, 0.1}; A(d, d) = st[c.draw(5)]; }
    if (c.flip()) for (int i = 0; i < CD; ++i) for (int j = i + 1; j < CD; ++j) A(i, j) = c.real(-0.5, 0.5) * A(i, i);
    if (CD == D && allow_mirror && c.draw(5) == 4) A.col(0) *= -1;
    sh.scale = gen_scale(c);
    const auto R = gen_rotation<D>(c);
    Eigen::Matrix<double, D, CD> M = R.template leftCols<CD>() * A * sh.scale;
    Eigen::Matrix<double, D, 1> t = Eigen::Matrix<double, D, 1>::Zero();
    if (c.draw(3) != 0) for (int d = 0; d < D; ++d) t[d] = c.real(-10, 10) * sh.scale;
    sh.offset = t.norm();
    NodeMat<E> out;
    for (int i = 0; i < N; ++i) out.row(i) = (M * X.row(i).transpose() + t).transpose();
    // out-of-plane warping for surface/curve elements embedded in a higher dimension
    if (CD < D && distort > 0 && c.flip()) { const double a = 0.2 * distort * sh.scale * A.diagonal().minCoeff(); for (int i = 0; i < N; ++i) out.row(i) += (R.col(D - 1) * c.uniform(-a, a)).transpose(); }
    return out;
}

// nodes of a rectangular element: center, size, rotation
template <class E> E gen_rect(vp::Ctx & c, Shape & sh) {
    constexpr int CD = CDIM<E>, D = DIM<E>;
    sh.scale = gen_scale(c);
    World<E> center = World<E>::Zero(); if (c.draw(3) != 0) for (int d = 0; d < D; ++d) center[d] = c.real(-10, 10) * sh.scale;
    Eigen::Matrix<double, CD, 1> H; for (int d = 0; d < CD; ++d) { static const double st[] = {2, 1, 0.5, 3, 0.1, 20}; H[d] = st[c.draw(6)] * sh.scale; }
    if (c.draw(4) == 3) for (int d = 0; d < CD; ++d) H[d] *= c.uniform(0.3, 3);
    const Eigen::Matrix<double, D, D> R = gen_rotation<D>(c);
    sh.offset = center.norm(); sh.scale = H.norm();
    return E(center, H, R);
}
template <class E> E gen_element(vp::Ctx & c, double distort, Shape & sh) {
    if constexpr (Info<E>::rect) return gen_rect<E>(c, sh);
    else return E(gen_nodes<E>(c, distort, sh));
}

// local point: range 0 = inside the closed reference element (corners, edges, faces favoured), 1 = anywhere within `far`
template <class E> Local<E> gen_local(vp::Ctx & c, double far = 0) {
    constexpr Kind K = Info<E>::kind; constexpr int CD = CDIM<E>;
    Local<E> x;
    if (far > 0) { for (int d = 0; d < CD; ++d) x[d] = c.real(-far, far); return x; }
    if (K == TRI || K == TET) {
        const auto k = c.draw(4);
        if (k == 0) { const auto & n = ref_nodes(K, 2); const auto & p = n[c.draw(n.size())]; for (int d = 0; d < CD; ++d) x[d] = p[d]; return x; }
        double b[4], s = 0; for (int d = 0; d <= CD; ++d) { b[d] = c.real(0, 1); s += b[d]; }
        if (s <= 0) { x.setZero(); return x; }
        for (int d = 0; d < CD; ++d) x[d] = b[d + 1] / s;
        // rounding may leave x outside by one ulp: pull back
        while (x.sum() > 1) x *= 1 - 1e-16;
        return x;
    }
    for (int d = 0; d < CD; ++d) x[d] = c.real(-1, 1);
    return x;
}

// the oracle map, its jacobian
template <class E, class M> World<E> oracle_map(const M & nodes, const Local<E> & xi) {
    double x[3] = {0, 0, 0}; for (int d = 0; d < CDIM<E>; ++d) x[d] = xi[d];
    World<E> p = World<E>::Zero();
    for (int i = 0; i < NN<E>; ++i) p += basis<double>(Info<E>::kind, Info<E>::order, i, x) * nodes.row(i).transpose();
    return p;
}
template <class E, class M> Eigen::Matrix<double, DIM<E>, CDIM<E>> oracle_jacobian(const M & nodes, const Local<E> & xi) {
    Dual x[3]; for (int d = 0; d < CDIM<E>; ++d) x[d] = var(xi[d], d);
    Eigen::Matrix<double, DIM<E>, CDIM<E>> J; J.setZero();
    for (int i = 0; i < NN<E>; ++i) { const Dual b = basis<Dual>(Info<E>::kind, Info<E>::order, i, x); for (int r = 0; r < DIM<E>; ++r) for (int d = 0; d < CDIM<E>; ++d) J(r, d) += nodes(i, r) * b.d[d]; }
    return J;
}
template <class M> double measure_of(const M & J) {
    if constexpr (M::RowsAtCompileTime == M::ColsAtCompileTime) return J.determinant();
    else return std::sqrt(std::max(0., (J.transpose() * J).determinant()));
}
} // namespace el
