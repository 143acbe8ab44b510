// P27: hyperelastic force field of the SOFA plugin.
#include "sofa_scene.h"
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Tetrahedron].h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Hexahedron].h>
#include <omp.h>
using namespace su;
namespace {
using sofa::core::MechanicalParams; using sofa::core::VecCoordId; using sofa::core::VecDerivId;
struct Law {
    bool nh; double E = 1000, nu = .3; double mu() const { return E / (2 * (1 + nu)); } double l() const { return E * nu / ((1 + nu) * (1 - 2 * nu)); }
    double psi(const M3 & F) const { const M3 C = F.transpose() * F; if (nh) { const double j = std::log(F.determinant()); return mu() / 2 * (C.trace() - 3) - mu() * j + l() / 2 * j * j; } const M3 e = .5 * (C - M3::Identity()); return l() / 2 * e.trace() * e.trace() + mu() * (e * e).trace(); }
    M3 S(const M3 & F) const { const M3 C = F.transpose() * F, Ci = C.inverse(); if (nh) return mu() * (M3::Identity() - Ci) + l() * std::log(F.determinant()) * Ci; const M3 e = .5 * (C - M3::Identity()); return l() * e.trace() * M3::Identity() + 2 * mu() * e; }
    double D(const M3 & X, double lnJ, int i, int j, int k, int m) const { return l() * X(i, j) * X(k, m) + (nh ? mu() - l() * lnJ : mu()) * (X(i, k) * X(j, m) + X(i, m) * X(j, k)); }
};
// reference: energy, forces and tangent stiffness of the discretised body, with the magnitude of the terms that are summed up
template <class E> struct Body {
    const ms::M<E> & m; struct G { int e; double w; Eigen::Matrix<double, NN<E>, 3> dN; }; std::vector<G> g;
    explicit Body(const ms::M<E> & mm) : m(mm) {
        for (int e = 0; e < m.T.rows(); ++e) { const E el(m.element(e)); for (const auto & q : el.gauss_nodes()) { G r; double det; r.e = e; const double xi[3] = {q.position[0], q.position[1], q.position[2]}; r.dN = world_gradients<E>(m.element(e), xi, det); r.w = q.weight * std::fabs(det); g.push_back(r); } }
    }
    M3 F(const G & q, const PX & x) const { M3 f = M3::Zero(); for (int i = 0; i < NN<E>; ++i) f += x.row((Eigen::Index) m.T(q.e, i)).transpose() * q.dN.row(i); return f; }
    bool usable(const PX & x) const { for (auto & q : g) { const M3 f = F(q, x); Eigen::JacobiSVD<M3> s(f); if (f.determinant() < .1 || s.singularValues()[2] < .2 || s.singularValues()[0] > 5) return false; } return true; }
    double energy(const Law & L, const PX & x, double & mag) const { double r = 0; mag = 0; for (auto & q : g) { r += q.w * L.psi(F(q, x)); mag += q.w * (L.mu() + std::fabs(L.l())) * 100; } return r; }
    PX force(const Law & L, const PX & x, double & mag) const { PX r = PX::Zero(x.rows(), 3); mag = 0; for (auto & q : g) { const M3 f = F(q, x), P = f * L.S(f); for (int i = 0; i < NN<E>; ++i) r.row((Eigen::Index) m.T(q.e, i)) -= q.w * (P * q.dN.row(i).transpose()).transpose(); mag = std::max(mag, q.w * (P.norm() + L.mu() + std::fabs(L.l())) * q.dN.norm() * 10); } return r; }
    MX stiffness(const Law & L, const PX & x, double & mag) const {
        MX K = MX::Zero(x.size(), x.size()); mag = 0;
        for (auto & q : g) {
            const M3 f = F(q, x), S = L.S(f), X = L.nh ? M3((f.transpose() * f).inverse()) : M3::Identity(); const double lnJ = L.nh ? std::log(f.determinant()) : 0; double A[3][3][3][3];
            double T[3][3][3][3]; // D contracted twice with F
            for (int i = 0; i < 3; ++i) for (int J = 0; J < 3; ++J) for (int k = 0; k < 3; ++k) for (int M = 0; M < 3; ++M) { double s = 0; for (int I = 0; I < 3; ++I) for (int N = 0; N < 3; ++N) s += f(i, I) * f(k, N) * L.D(X, lnJ, I, J, N, M); T[i][J][k][M] = s; A[i][J][k][M] = s + (i == k) * S(J, M); }
            for (int a = 0; a < NN<E>; ++a) for (int b = 0; b < NN<E>; ++b) for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { double s = 0; for (int J = 0; J < 3; ++J) for (int M = 0; M < 3; ++M) s += A[i][J][k][M] * q.dN(a, J) * q.dN(b, M); K((Eigen::Index) m.T(q.e, a) * 3 + i, (Eigen::Index) m.T(q.e, b) * 3 + k) += q.w * s; }
            (void) T; mag = std::max(mag, q.w * (S.norm() + (L.mu() + std::fabs(L.l())) * f.squaredNorm() * (1 + X.squaredNorm())) * q.dN.squaredNorm() * 10);
        }
        return K;
    }
};
const double EPS = 1e-10;
template <class E, class Material, bool NH> void history(vp::Ctx & c) {
    const bool big = c.draw(8) == 7; auto m = ms::gen_mesh<E>(c, c.flip() ? .15 : 0, NN<E> > 8 ? 1 : big ? 2 : (int) (1 + c.draw(2)), true);
    const double h = smallest_edge<E>(m); const auto n = m.X.rows(); if (n > 60) c.discard();
    Body<E> body(m); Law law{NH};
    auto position = [&] { PX x; static const double am[] = {0, .05, .3}; for (int t = 0; t < 5; ++t) { x = deform(c, m, am[c.draw(3)], c.flip() ? .05 : 0, h); if (body.usable(x)) { if (c.flip()) { const M3 R = rotation(c); x = (x * R.transpose()).eval(); } return x; } } c.discard(); return x; };
    sofa::core::objectmodel::New<Node> node("node"); auto mo = node->template stub_add<MO>(); mo->setName("mo");
    PX x = m.X; const bool predeformed = c.draw(3) == 2;
    if (predeformed) { x = position(); set<Vec>(mo.get(), "rest_position", vec(m.X)); set<Vec>(mo.get(), "position", vec(x)); } else if (c.flip()) set<Vec>(mo.get(), "rest_position", vec(m.X)); else set<Vec>(mo.get(), "position", vec(m.X));
    Topo<E> topo; topo.add(c, node.get(), m); if (predeformed) c.label("initially deformed"); c.label(topo.how);
    auto mat = node->template stub_add<Material>(); sofa::core::sptr<Material> other; const bool two = c.draw(4) == 3; if (two) { other = node->template stub_add<Material>(); set<double>(other.get(), "young_modulus", 12345.); }
    auto ff = node->template stub_add<SofaCaribou::forcefield::HyperelasticForcefield<E>>();
    sofa::core::behavior::BaseForceField & base = *ff; sofa::core::behavior::ForceField<Types> & fbase = *ff;
    if (two) ff->findLink("material")->setTarget(mat.get());
    if (c.flip()) ff->findLink("topology")->setTarget(topo.object);
    if (c.draw(3) == 2) { set<bool>(ff.get(), "enable_multithreading", true); omp_set_num_threads(3); c.label("several threads"); }
    auto parameters = [&] { law.E = std::pow(10., c.real(0, 6)); law.nu = c.real(-.2, .49); set<double>(mat.get(), "young_modulus", law.E); set<double>(mat.get(), "poisson_ratio", law.nu); c.note([&](auto & o) { o << " [E=" << law.E << " nu=" << law.nu << "]"; }); };
    parameters(); double rayleigh = 0; if (c.flip()) { rayleigh = c.real(0, 1); set<double>(ff.get(), "rayleighStiffness", rayleigh); }
    c.note([&](auto & o) { o << topo.how << (predeformed ? ", initially deformed, " : ", ") << m.T.rows() << " elements, X=" << show(m.X) << " T=" << show(m.T); });
    node->stub_init();
    VP_CHECK(ff->number_of_elements() == (std::size_t) m.T.rows(), "number of elements ", ff->number_of_elements(), " expected ", m.T.rows());
    double mag = 0, kmag = 0; MX K = body.stiffness(law, x, kmag); bool stale = false; MechanicalParams mp; PX at = x; bool deformed = predeformed; // at: the positions of the last evaluation of the forces
    auto fresh = [&] { if (stale) { K = body.stiffness(law, at, kmag); stale = false; } };
    const int steps = 2 + (int) c.draw(7); int evals = 0;
    for (int s = 0; s < steps; ++s) switch (c.draw(8)) {
        case 0: case 1: { // move the nodes (or not), possibly change the material, and evaluate the forces
            if (c.flip()) { at = position(); deformed = true; } if (c.draw(4) == 3) parameters();
            const PX f0 = random_px(c, n, c.flip() ? law.E * h * h : 0); const int where = (int) c.draw(3); PX f; ++evals;
            c.note([&](auto & o) { o << " addForce(" << where << ") x=" << show(at); });
            if (where == 2) { mo->write(VecCoordId::position())->setValue(vec(at)); mp.setX(VecCoordId::position()); mo->write(VecDerivId::force())->setValue(vec(f0)); base.addForce(&mp, VecDerivId::force()); f = mat_of(mo, VecDerivId::force()); }
            else { const auto id = where ? VecCoordId::freePosition() : VecCoordId::position(); mo->write(id)->setValue(vec(at)); if (where) mo->write(VecCoordId::position())->setValue(vec(m.X)); mp.setX(id); mo->write(VecDerivId::dforce())->setValue(vec(f0)); base.addForce(&mp, VecDerivId::dforce()); f = mat_of(mo, VecDerivId::dforce()); }
            const PX ref = body.force(law, at, mag); const PX d = f - f0 - ref; const double tol = EPS * (mag + f0.norm());
            VP_CHECK(d.cwiseAbs().maxCoeff() <= tol, "forces ", show(PX(f - f0)), " expected ", show(ref));
            // a body that is not held: no net force, no net moment
            V3 net = V3::Zero(), mom = V3::Zero(); double arm = 0; for (Eigen::Index i = 0; i < n; ++i) { const V3 fi = (f - f0).row(i).transpose(), xi = (at.row(i) - at.row(0)).transpose(); net += fi; mom += xi.cross(fi); arm = std::max(arm, xi.norm()); }
            VP_CHECK(net.norm() <= tol * n && mom.norm() <= tol * n * arm, "net force ", show(net), " net moment ", show(mom));
            stale = true; break;
        }
        case 2: { // energy; forces are minus its gradient
            const PX y = position(), dir = random_px(c, n, h); sofa::core::objectmodel::Data<Vec> d; auto W = [&](const PX & p) { d.setValue(vec(p)); return fbase.getPotentialEnergy(&mp, d); };
            mat->before_update(); const double e = W(y), ref = body.energy(law, y, mag); VP_CHECK(vp::near(e, ref, EPS * mag), "energy ", e, " expected ", ref); ++evals;
            double fm; const double dE = -(body.force(law, y, fm).array() * dir.array()).sum(), t = 1e-4; const double fd = (8 * (W(y + t * dir) - W(y - t * dir)) - (W(y + 2 * t * dir) - W(y - 2 * t * dir))) / (12 * t);
            VP_CHECK(vp::near(fd, dE, 1e-6 * (mag + fm * h * n)), "slope of the energy ", fd, " expected ", dE); break;
        }
        case 3: { // df += -k K dx
            fresh(); const PX dx = random_px(c, n, h), f0 = random_px(c, n, c.flip() ? law.E * h * h : 0); const double k = c.real(-2, 2), b = c.flip() ? c.real(-2, 2) : 0; mp.setKFactor(k).setBFactor(b); c.note([&](auto & o) { o << " addDForce"; });
            mo->write(VecDerivId::dx())->setValue(vec(dx)); mo->write(VecDerivId::dforce())->setValue(vec(f0)); mp.setDx(VecDerivId::dx()); base.addDForce(&mp, VecDerivId::dforce());
            const VX got = flat(mat_of(mo, VecDerivId::dforce()) - f0), ref = -(k + b * rayleigh) * (K * flat(dx)); VP_CHECK((got - ref).cwiseAbs().maxCoeff() <= EPS * (kmag * dx.norm() * 4 + f0.norm()), "addDForce ", show(got), " expected ", show(ref)); break;
        }
        case 4: { // matrix(offset..) += -k K
            fresh(); const unsigned off = (unsigned) c.draw(5), extra = (unsigned) c.draw(3); const auto N = n * 3 + off + extra; MX start = MX::Zero(N, N); if (c.flip()) start.setConstant(c.real(-1, 1) * kmag); DenseBase A(start); const double k = c.real(-2, 2); unsigned o2 = off; fbase.addKToMatrix(&A, k, o2); c.note([&](auto & o) { o << " addKToMatrix"; });
            MX ref = start; ref.block(off, off, n * 3, n * 3) -= k * K; VP_CHECK((A.m - ref).cwiseAbs().maxCoeff() <= EPS * kmag * 4, "addKToMatrix: largest difference ", (A.m - ref).cwiseAbs().maxCoeff()); break;
        }
        case 5: { const MX k = ff->K(); VP_CHECK(k.rows() == n * 3 && k.cols() == n * 3, "size of K"); VP_CHECK((k - K).cwiseAbs().maxCoeff() <= EPS * kmag, "K: largest difference ", (k - K).cwiseAbs().maxCoeff(), " for entries of ", kmag); VP_CHECK(k == k.transpose(), "K is not symmetric"); break; }
        case 6: { // explicit assembly
            const PX y = position(); c.note([&](auto & o) { o << " assemble"; });
            if (c.flip()) { sofa::core::objectmodel::Data<Vec> d; d.setValue(vec(y)); ff->assemble_stiffness(d); K = body.stiffness(law, y, kmag); } else { ff->assemble_stiffness(); K = body.stiffness(law, at, kmag); }
            stale = false; const MX k = ff->K(); VP_CHECK((k - K).cwiseAbs().maxCoeff() <= EPS * kmag, "K after an assembly: largest difference ", (k - K).cwiseAbs().maxCoeff()); break;
        }
        case 7: { // eigenvalues
            if (n > 30) break; const MX k = ff->K(); const VX ev = ff->eigenvalues(), ref = Eigen::SelfAdjointEigenSolver<MX>(k, Eigen::EigenvaluesOnly).eigenvalues(); VX a = ev; std::sort(a.data(), a.data() + a.size()); VP_CHECK(a.size() == ref.size() && (a - ref).cwiseAbs().maxCoeff() <= EPS * kmag * n, "eigenvalues ", show(a), " expected ", show(ref)); break;
        }
    }
    c.nontrivial(evals > 0 && deformed);
}
using namespace SofaCaribou::material;
template <class E> struct R { vp::Reg a{std::string("neo-hookean ") + Info<E>::name(), 1, history<E, NeoHookeanMaterial<Types>, true>}, b{std::string("saint-venant-kirchhoff ") + Info<E>::name(), 1, history<E, SaintVenantKirchhoffMaterial<Types>, false>}; };
#if VP_GROUP == 0
const R<TetL> r0; const R<HexL> r1;
#else
const R<TetQ> r0; const R<HexQ> r1;
#endif
}
