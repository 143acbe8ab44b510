// P21: deformation gradient. P22: fourth order tensors in Voigt notation.
#include "elements.h"
#include <Caribou/Mechanics/Elasticity/Strain.h>
#include <Caribou/Algebra/Tensor.h>
using namespace el;
namespace {
#if VP_GROUP == 0
namespace st = caribou::mechanics::elasticity::strain;
template <int N, int D, int O> void gradient(vp::Ctx & c) {
    using M = st::Matrix<N, D, O>;
    M dN, U; Eigen::Matrix<double, N, D> dn, u; // independent copies in plain storage
    const double scale = std::pow(10., c.real(-9, 9)), us = std::pow(10., c.real(-16, 9));
    for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d) { dn(i, d) = c.real(-1, 1) * scale; u(i, d) = c.real(-1, 1) * us; dN(i, d) = dn(i, d); U(i, d) = u(i, d); }
    const int kind = (int) c.draw(3);
    if (kind == 1) { u.setZero(); U.setZero(); }
    c.note([&](auto & o) { o << "N=" << N << " D=" << D << " dN=" << show(dn) << " U=" << show(u); }); c.nontrivial(u.norm() > 0 && dn.norm() > 0);
    const Eigen::Matrix<double, D, D> F = st::F(dN, U);
    for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) {
        long double g = a == b ? 1 : 0, mag = 1; for (int i = 0; i < N; ++i) { g += (long double) u(i, a) * dn(i, b); mag += std::fabs(u(i, a) * dn(i, b)); }
        VP_CHECK(vp::near(F(a, b), (double) g, (double) mag * 1e-13), "F(", a, ",", b, ")=", F(a, b), " expected ", (double) g);
        if (kind == 1) VP_CHECK(F(a, b) == (a == b ? 1. : 0.), "F without displacement");
    }
}
// on a real element: nodes moved by an affine map x -> A x + t have the gradient A everywhere; composition of a rotation rotates F
template <class E> void affine(vp::Ctx & c) {
    constexpr int D = DIM<E>, N = NN<E>;
    Shape sh; const E e = gen_element<E>(c, .2, sh); const auto xi = gen_local<E>(c);
    Eigen::Matrix<double, D, D> J = e.jacobian(xi); if (!(std::fabs(J.determinant()) > 1e-6 * std::pow(J.norm(), D))) c.discard();
    Eigen::Matrix<double, D, D> A; for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) A(a, b) = c.real(-2, 2); Eigen::Matrix<double, D, 1> t; for (int a = 0; a < D; ++a) t[a] = c.real(-3, 3);
    c.note([&](auto & o) { o << Info<E>::name() << " at " << show(xi) << " A=" << show(A); }); c.nontrivial();
    const Eigen::Matrix<double, D, D> Ji = J.inverse(); st::Matrix<N, D> dN = (Ji.transpose() * e.dL(xi).transpose()).transpose(); st::Matrix<N, D> U;
    double mag = 0; const Eigen::Matrix<double, D, 1> x0 = e.node(0);
    for (int i = 0; i < N; ++i) { const Eigen::Matrix<double, D, 1> X = e.node(i); const Eigen::Matrix<double, D, 1> dX = X - x0; for (int d = 0; d < D; ++d) { U(i, d) = (A * dX)[d] + t[d] * J.norm() - dX[d]; } mag = std::max(mag, U.row(i).norm()); }
    const Eigen::Matrix<double, D, D> F = st::F(dN, U); const double tol = 1e-11 * (1 + mag * dN.norm()) * (1 + J.norm() * Ji.norm()) * (1 + x0.norm() / J.norm());
    VP_CHECK((F - A).norm() <= tol, "F=", show(F), " expected ", show(A), " tol ", tol);
}
template <int N, int D> void reg(std::vector<vp::Reg> & v) { v.emplace_back(vp::cat("gradient/", N, "x", D), 1, gradient<N, D, 0>); if constexpr (D > 1) v.emplace_back(vp::cat("gradient_rowmajor/", N, "x", D), 1, gradient<N, D, Eigen::RowMajor>); }
const std::vector<vp::Reg> r = [] { std::vector<vp::Reg> v; reg<2, 1>(v); reg<3, 1>(v); reg<3, 2>(v); reg<4, 2>(v); reg<6, 2>(v); reg<8, 2>(v); reg<4, 3>(v); reg<8, 3>(v); reg<10, 3>(v); reg<20, 3>(v); return v; }();
template <class E> struct A1 { vp::Reg r{std::string("affine/") + Info<E>::name(), 1, affine<E>}; };
const A1<Seg1L> a1; const A1<Seg1Q> a2; const A1<Tri2L> a3; const A1<Tri2Q> a4; const A1<Quad2L> a5; const A1<Quad2Q> a6; const A1<TetL> a7; const A1<TetQ> a8; const A1<HexL> a9; const A1<HexQ> a10;
#else
const int VI[6] = {0, 1, 2, 0, 1, 0}, VJ[6] = {0, 1, 2, 1, 2, 2};
template <class R, int O> void dyads(vp::Ctx & c) {
    Eigen::Matrix<R, 3, 3, O> a; double s[3][3];
    const double scale = std::pow(10., c.real(-4, 4));
    for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) { const R v = (R) (c.real(-3, 3) * scale); a(i, j) = v; a(j, i) = v; s[i][j] = s[j][i] = v; }
    c.note([&](auto & o) { o << "a=" << show(a); }); bool diag = s[0][1] == 0 && s[0][2] == 0 && s[1][2] == 0; c.nontrivial(!diag);
    const Eigen::Matrix<R, 6, 6, O> M1 = caribou::algebra::symmetric_dyad_1(a), M2 = caribou::algebra::symmetric_dyad_2(a);
    double n = 0; for (auto & r : s) for (double v : r) n = std::max(n, std::fabs(v)); const double tol = n * n * (sizeof(R) == 8 ? 1e-14 : 1e-5);
    for (int I = 0; I < 6; ++I) for (int J = 0; J < 6; ++J) {
        const int i = VI[I], j = VJ[I], k = VI[J], l = VJ[J];
        VP_CHECK(vp::near(M1(I, J), s[i][j] * s[k][l], tol), "a_ij a_kl at (", I, ",", J, "): ", M1(I, J), " expected ", s[i][j] * s[k][l]);
        VP_CHECK(vp::near(M2(I, J), .5 * (s[i][k] * s[j][l] + s[i][l] * s[j][k]), tol), "1/2 (a_ik a_jl + a_il a_jk) at (", I, ",", J, "): ", M2(I, J), " expected ", .5 * (s[i][k] * s[j][l] + s[i][l] * s[j][k]));
        VP_CHECK(M1(I, J) == M1(J, I) && vp::near(M2(I, J), M2(J, I), tol), "major symmetry at (", I, ",", J, ")");
    }
}
const vp::Reg r1("dyads/double", 1, dyads<double, 0>), r2("dyads/double rowmajor", 1, dyads<double, Eigen::RowMajor>), r3("dyads/float", .5, dyads<float, 0>);
#endif
}
