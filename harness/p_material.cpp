// P25: hyperelastic materials of the SOFA plugin.
#include "sofa_util.h"
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
using namespace su;
namespace {
using T = sofa::defaulttype::Vec3Types;
using Mat = SofaCaribou::material::HyperelasticMaterial<T>;
using M6 = Eigen::Matrix<double, 6, 6>;
const int VI[6] = {0, 1, 2, 0, 1, 0}, VJ[6] = {0, 1, 2, 1, 2, 2};     // xx, yy, zz, xy, yz, xz
// F with det > 0 : rotation * stretch
M3 gen_F(vp::Ctx & c) {
    const int kind = (int) c.draw(4);
    if (kind == 0) return M3::Identity();
    M3 F; const double s = kind == 1 ? 1e-4 : kind == 2 ? .2 : .8;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) F(i, j) = (i == j) + c.real(-1, 1) * s;
    Eigen::JacobiSVD<M3> svd(F); if (F.determinant() < .02 || svd.singularValues()[2] < .1) c.discard();
    return c.flip() ? M3(rotation(c) * F) : F;
}
template <bool NH> double psi(double mu, double l, const M3 & C) {
    if (NH) { const long double lnJ = std::log(std::sqrt((long double) C.determinant())); return (double) (mu / 2. * (C.trace() - 3) - mu * lnJ + l / 2 * lnJ * lnJ); }
    const M3 E = .5 * (C - M3::Identity()); return l / 2 * E.trace() * E.trace() + mu * (E * E).trace();
}
template <bool NH> M3 stress(double mu, double l, const M3 & C) {
    if (NH) { const M3 Ci = C.inverse(); return mu * (M3::Identity() - Ci) + l * std::log(std::sqrt(C.determinant())) * Ci; }
    const M3 E = .5 * (C - M3::Identity()); return l * E.trace() * M3::Identity() + 2 * mu * E;
}
template <bool NH> M6 moduli(double mu, double l, const M3 & C) {     // 2 dS_ij/dC_kl
    M6 D; const M3 I = M3::Identity(), Ci = C.inverse(); const double lnJ = NH ? std::log(std::sqrt(C.determinant())) : 0;
    for (int A = 0; A < 6; ++A) for (int B = 0; B < 6; ++B) {
        const int i = VI[A], j = VJ[A], k = VI[B], m = VJ[B]; const M3 & X = NH ? Ci : I;
        D(A, B) = l * X(i, j) * X(k, m) + (NH ? mu - l * lnJ : mu) * (X(i, k) * X(j, m) + X(i, m) * X(j, k));
    }
    return D;
}
template <class M, bool NH> void history(vp::Ctx & c) {
    sofa::core::objectmodel::New<M> p; M & concrete = *p; Mat & mat = concrete;
    double E = 1000, nu = .3, mu = 0, l = 0;
    const int n = 1 + (int) c.draw(6); int evals = 0, changes = 0;
    for (int step = 0; step < n; ++step) {
        if (c.flip()) { // change the parameters, then update
            const int w = (int) c.draw(4); ++changes;
            if (w != 1) { E = std::pow(10., c.real(-3, 9)); set<double>(p.get(), "young_modulus", E); }
            if (w != 2) { nu = c.real(-.45, .495); set<double>(p.get(), "poisson_ratio", nu); }
            c.note([&](auto & o) { o << " [E=" << E << " nu=" << nu << "]"; });
        }
        mat.before_update(); mu = E / (2 * (1 + nu)); l = E * nu / ((1 + nu) * (1 - 2 * nu));
        const M3 F = gen_F(c); const M3 C = F.transpose() * F; const double J = F.determinant();
        c.note([&](auto & o) { o << " C=" << show(C); }); if ((C - M3::Identity()).norm() > 0) ++evals;
        const double s = (std::fabs(l) + mu); const M3 Ci = C.inverse(); const double g = 1 + Ci.norm() * Ci.norm() + C.norm() * C.norm();
        const double W = mat.strain_energy_density(J, C); const M3 S = mat.PK2_stress(J, C); const M6 D = mat.PK2_stress_jacobian(J, C);
        VP_CHECK(vp::near(W, psi<NH>(mu, l, C), 1e-11 * s * g), "energy density ", W, " expected ", psi<NH>(mu, l, C));
        VP_CHECK((S - stress<NH>(mu, l, C)).norm() <= 1e-11 * s * g, "PK2 stress ", show(S), " expected ", show(stress<NH>(mu, l, C)));
        VP_CHECK((D - moduli<NH>(mu, l, C)).norm() <= 1e-11 * s * g * 10, "stress jacobian ", show(D), " expected ", show(moduli<NH>(mu, l, C)));
        VP_CHECK((S - S.transpose()).norm() <= 1e-12 * s * g && (D - D.transpose()).norm() <= 1e-12 * s * g, "symmetry");
        if ((F - M3::Identity()).norm() == 0) VP_CHECK(W == 0 && S.norm() <= 1e-14 * s, "natural state: W=", W, " S=", show(S));
        // relations that do not use the closed forms: S = 2 dPsi/dC and D = 2 dS/dC along a random symmetric direction
        M3 Hm; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) Hm(i, j) = Hm(j, i) = c.uniform(-1, 1);
        const double h = 1e-4 / Ci.norm(); auto at = [&](double t) { return M3(C + t * Hm); }; auto Jt = [&](double t) { return std::sqrt(at(t).determinant()); };
        auto W_ = [&](double t) { return mat.strain_energy_density(Jt(t), at(t)); }; auto S_ = [&](double t) { return M3(mat.PK2_stress(Jt(t), at(t))); };
        const double dW = (8 * (W_(h) - W_(-h)) - (W_(2 * h) - W_(-2 * h))) / (12 * h); const M3 dS = (8 * (S_(h) - S_(-h)) - (S_(2 * h) - S_(-2 * h))) / (12 * h);
        const double tol = 1e-8 * s * g * g;
        VP_CHECK(vp::near(dW, .5 * (S.array() * Hm.array()).sum(), tol), "dPsi/dC:H=", dW, " but S:H/2=", .5 * (S.array() * Hm.array()).sum());
        Eigen::Matrix<double, 6, 1> hv; for (int A = 0; A < 6; ++A) hv[A] = Hm(VI[A], VJ[A]) * (A < 3 ? 1 : 2); const Eigen::Matrix<double, 6, 1> d = D * hv;
        for (int A = 0; A < 6; ++A) VP_CHECK(vp::near(dS(VI[A], VJ[A]), .5 * d[A], tol), "dS/dC:H component ", A, " = ", dS(VI[A], VJ[A]), " but D:H/2=", .5 * d[A]);
        // frame indifference
        const M3 R = rotation(c); const M3 RF = R * F; VP_CHECK(vp::near(mat.strain_energy_density(RF.determinant(), RF.transpose() * RF), W, 1e-10 * s * g), "energy of a rotated deformation");
    }
    c.nontrivial(evals > 0); if (changes > 1) c.label("parameters changed"); 
}
const vp::Reg a("neo-hookean", 1, history<SofaCaribou::material::NeoHookeanMaterial<T>, true>), b("saint-venant-kirchhoff", 1, history<SofaCaribou::material::SaintVenantKirchhoffMaterial<T>, false>);
}
