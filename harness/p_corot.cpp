// P28: linear (corotational) elastic force fields of the SOFA plugin on tetrahedra and hexahedra.
#include "sofa_scene.h"
#include <SofaCaribou/Forcefield/TetrahedronElasticForce.h>
#include <SofaCaribou/Forcefield/HexahedronElasticForce.h>
using namespace su;
namespace {
using sofa::core::MechanicalParams; using sofa::core::VecCoordId; using sofa::core::VecDerivId;
using SofaCaribou::forcefield::TetrahedronElasticForce; using SofaCaribou::forcefield::HexahedronElasticForce;
const double EPS = 1e-10;
// stiffness of one element of linear isotropic elasticity, from the tensor D_ijkl = l d_ij d_kl + mu (d_ik d_jl + d_il d_jk)
template <class E> MX element_stiffness(const NodeMat<E> & X, double Y, double nu, bool one_point) {
    const double mu = Y / (2 * (1 + nu)), l = Y * nu / ((1 + nu) * (1 - 2 * nu)); MX K = MX::Zero(NN<E> * 3, NN<E> * 3);
    auto add = [&](const double * xi, double w) {
        double det; const auto g = world_gradients<E>(X, xi, det);
        for (int a = 0; a < NN<E>; ++a) for (int b = 0; b < NN<E>; ++b) for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k)
            K(a * 3 + i, b * 3 + k) += w * det * (l * g(a, i) * g(b, k) + mu * ((i == k) * g.row(a).dot(g.row(b)) + g(a, k) * g(b, i)));
    };
    const double zero[3] = {0, 0, 0};
    if (one_point) add(zero, 8); else for (const auto & q : E(X).gauss_nodes()) { const double xi[3] = {q.position[0], q.position[1], q.position[2]}; add(xi, q.weight); }
    return K;
}
namespace om_ = sofa::core::objectmodel;
template <class E, class FF> void history(vp::Ctx & c) {
    constexpr bool hex = Info<E>::kind == HEX;
    auto m = ms::gen_mesh<E>(c, c.flip() ? .15 : 0, (int) (1 + c.draw(2)), true); const double h = smallest_edge<E>(m); const auto n = m.X.rows(); if (n > 40) c.discard();
    double Y = 1000, nu = .3; bool corotated = true, one_point = false; double rayleigh = 0;
    sofa::core::objectmodel::New<Node> node("node"); auto mo = node->template stub_add<MO>();
    PX x = m.X; const bool predeformed = c.draw(3) == 2;
    if (predeformed) { x = deform(c, m, .3, .05, h); set<Vec>(mo.get(), "rest_position", vec(m.X)); set<Vec>(mo.get(), "position", vec(x)); c.label("initially deformed"); } else set<Vec>(mo.get(), c.flip() ? "position" : "rest_position", vec(m.X));
    using S = std::conditional_t<!hex, sofa::component::topology::TetrahedronSetTopologyContainer, sofa::component::topology::HexahedronSetTopologyContainer>; using FA = sofa::type::fixed_array<unsigned, NN<E>>;
    auto topo = node->template stub_add<S>(); sofa::type::vector<FA> ind; for (int e = 0; e < m.T.rows(); ++e) { FA f; for (int i = 0; i < NN<E>; ++i) f[(std::size_t) i] = (unsigned) m.T(e, i); ind.push_back(f); }
    set<sofa::type::vector<FA>>(topo.get(), hex ? "hexahedra" : "tetrahedra", ind);
    if (c.draw(24) == 23) { // no topology, or several of them, and none given: reported, and no force is added
        om_::New<Node> other("other"); auto state = other->template stub_add<MO>(); set<Vec>(state.get(), "rest_position", vec(m.X)); set<Vec>(state.get(), "position", vec(m.X)); const int count = c.flip() ? 0 : 2 + (int) c.draw(2); for (int i = 0; i < count; ++i) { auto t = other->template stub_add<S>(); set<sofa::type::vector<FA>>(t.get(), hex ? "hexahedra" : "tetrahedra", ind); } auto f = other->template stub_add<FF>(); sofa::stub::Log::get().reset(); other->stub_init();
        VP_CHECK(!sofa::stub::Log::get().errors.empty(), "nothing is reported about ", count, " topologies and none given"); MechanicalParams mp; mp.setX(VecCoordId::position()); const PX y = deform(c, m, .3, .05, h), f0 = random_px(c, n, 1); state->write(VecCoordId::position())->setValue(vec(y)); state->write(VecDerivId::force())->setValue(vec(f0)); static_cast<sofa::core::behavior::BaseForceField &>(*f).addForce(&mp, VecDerivId::force()); const PX g = mat_of(state, VecDerivId::force()); VP_CHECK(g == f0, "a force field without topology adds forces"); c.label("no usable topology"); return;
    }
    if (c.draw(3) == 2) node->template stub_add<S>(); // a second topology: the one to use must then be given
    auto ff = node->template stub_add<FF>(); sofa::core::behavior::BaseForceField & base = *ff; sofa::core::behavior::ForceField<Types> & fbase = *ff;
    if (node->stub_local().size() > 3 || c.flip()) ff->findLink("topology_container")->setTarget(topo.get());
    auto parameters = [&] {
        if (c.flip()) { Y = std::pow(10., c.real(0, 6)); set<double>(ff.get(), "youngModulus", Y); } if (c.flip()) { nu = c.real(-.2, .49); set<double>(ff.get(), "poissonRatio", nu); }
        if (c.flip()) { corotated = c.flip(); set<bool>(ff.get(), "corotated", corotated); }
        if constexpr (hex) if (c.flip()) { one_point = c.flip(); ff->set_integration_method(one_point ? FF::IntegrationMethod::OnePointGauss : FF::IntegrationMethod::Regular); }
        c.note([&](auto & o) { o << " [E=" << Y << " nu=" << nu << (corotated ? " corotated" : " linear") << (one_point ? " one point" : "") << "]"; });
    };
    parameters(); if (c.flip()) { rayleigh = c.real(0, 1); set<double>(ff.get(), "rayleighStiffness", rayleigh); }
    c.note([&](auto & o) { o << m.T.rows() << " elements, X=" << show(m.X) << " T=" << show(m.T); });
    node->stub_init();
    std::vector<MX> Ke; std::vector<M3> Q; double kmag = 0; MX K; bool deformed = predeformed;
    auto frame = [&](const PX & y, int e) { NodeMat<E> p; for (int i = 0; i < NN<E>; ++i) p.row(i) = y.row((Eigen::Index) m.T(e, i)); if constexpr (hex) return M3(E(p).frame(Local<E>::Zero())); else return M3(E(p).frame()); };
    auto rotated = [&](int e) { MX r = Ke[e]; for (int a = 0; a < NN<E>; ++a) for (int b = 0; b < NN<E>; ++b) r.block(a * 3, b * 3, 3, 3) = Q[e] * Ke[e].block(a * 3, b * 3, 3, 3) * Q[e].transpose(); return r; };
    auto assemble = [&] { K = MX::Zero(n * 3, n * 3); for (int e = 0; e < m.T.rows(); ++e) { const MX k = rotated(e); for (int a = 0; a < NN<E>; ++a) for (int b = 0; b < NN<E>; ++b) K.block((Eigen::Index) m.T(e, a) * 3, (Eigen::Index) m.T(e, b) * 3, 3, 3) += k.block(a * 3, b * 3, 3, 3); } };
    auto setup = [&] { Ke.clear(); Q.assign((std::size_t) m.T.rows(), M3::Identity()); kmag = 0; for (int e = 0; e < m.T.rows(); ++e) { Ke.push_back(element_stiffness<E>(m.element(e), Y, nu, one_point)); kmag = std::max(kmag, Ke.back().cwiseAbs().maxCoeff() * (1 + 1 / (1 - 2 * nu))); } assemble(); };
    setup(); MechanicalParams mp; int evals = 0; PX at = x;
    const double size = (m.X.rowwise() - m.X.row(0)).norm() + m.X.row(0).norm();
    auto force = [&](const PX & y, const PX & f0, bool direct) { mp.setX(VecCoordId::position()); mo->write(VecCoordId::position())->setValue(vec(y)); const auto id = direct ? VecDerivId::force() : VecDerivId::dforce(); mo->write(id)->setValue(vec(f0)); base.addForce(&mp, id); return PX(mat_of(mo, id) - f0); };
    const int steps = 2 + (int) c.draw(7); const PX zero = PX::Zero(n, 3);
    for (int s = 0; s < steps; ++s) switch (c.draw(8)) {
        case 0: case 1: {
            if (c.flip()) { static const double am[] = {0, .05, .3}; at = deform(c, m, am[c.draw(3)], c.flip() ? .05 : 0, h); if (c.flip()) at = (at * rotation(c).transpose()).eval(); deformed = true; }
            const PX f0 = random_px(c, n, c.flip() ? Y * h * h : 0); ++evals; c.note([&](auto & o) { o << " addForce x=" << show(at); }); const PX f = force(at, f0, c.flip());
            PX ref = zero; for (int e = 0; e < m.T.rows(); ++e) { if (corotated) Q[e] = frame(at, e) * frame(m.X, e).transpose(); VX u(NN<E> * 3); for (int a = 0; a < NN<E>; ++a) u.segment(a * 3, 3) = Q[e].transpose() * at.row((Eigen::Index) m.T(e, a)).transpose() - m.X.row((Eigen::Index) m.T(e, a)).transpose(); const VX g = Ke[e] * u; for (int a = 0; a < NN<E>; ++a) ref.row((Eigen::Index) m.T(e, a)) -= (Q[e] * g.segment(a * 3, 3)).transpose(); }
            assemble(); const double tol = EPS * (kmag * (size + at.norm()) * 10 + f0.norm());
            VP_CHECK((f - ref).cwiseAbs().maxCoeff() <= tol, "forces ", show(f), " expected ", show(ref)); VP_CHECK(f.colwise().sum().norm() <= tol * n, "net force ", show(f.colwise().sum())); break;
        }
        case 2: { // a body moved rigidly is free of forces
            if (!corotated) break; const M3 R = rotation(c); at = m.X * R.transpose(); at.rowwise() += V3(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)).transpose() * h; const PX f = force(at, zero, true); ++evals; c.note([&](auto & o) { o << " rigid motion"; });
            VP_CHECK(f.cwiseAbs().maxCoeff() <= EPS * kmag * size * 10, "forces ", show(f), " after a rigid motion"); for (int e = 0; e < m.T.rows(); ++e) Q[e] = frame(at, e) * frame(m.X, e).transpose(); assemble(); break;
        }
        case 3: { // a tiny displacement, possibly after a rigid motion: linear elasticity
            const double eps = 1e-5; const M3 R = corotated ? rotation(c) : M3::Identity(); const PX d = random_px(c, n, h * eps); const PX y = m.X + d; at = y * R.transpose(); const PX f = force(at, zero, true) * R; ++evals; c.note([&](auto & o) { o << " tiny displacement"; });
            std::vector<M3> keep = Q; Q.assign(Q.size(), M3::Identity()); assemble(); const PX ref = unflat(-K * flat(d)); VP_CHECK((f - ref).cwiseAbs().maxCoeff() <= 1e-3 * kmag * h * eps * 10 + EPS * kmag * size * 10, "forces ", show(f), " of a tiny displacement, expected ", show(ref));
            Q = keep; if (corotated) for (int e = 0; e < m.T.rows(); ++e) Q[e] = frame(at, e) * frame(m.X, e).transpose(); assemble(); break;
        }
        case 4: { const PX dx = random_px(c, n, h), f0 = random_px(c, n, c.flip() ? Y * h * h : 0); const double k = c.real(-2, 2), b = c.flip() ? c.real(-2, 2) : 0; mp.setKFactor(k).setBFactor(b); c.note([&](auto & o) { o << " addDForce"; });
            mo->write(VecDerivId::dx())->setValue(vec(dx)); mo->write(VecDerivId::dforce())->setValue(vec(f0)); mp.setDx(VecDerivId::dx()); base.addDForce(&mp, VecDerivId::dforce());
            const VX got = flat(mat_of(mo, VecDerivId::dforce()) - f0), ref = -(k + b * rayleigh) * (K * flat(dx)); VP_CHECK((got - ref).cwiseAbs().maxCoeff() <= EPS * (kmag * dx.norm() * 10 + f0.norm()), "addDForce ", show(got), " expected ", show(ref)); break; }
        case 5: { const unsigned off = (unsigned) c.draw(5), extra = (unsigned) c.draw(3); const auto N = n * 3 + off + extra; MX start = MX::Zero(N, N); if (c.flip()) start.setConstant(c.real(-1, 1) * kmag); DenseBase A(start); const double k = c.real(-2, 2); unsigned o2 = off; fbase.addKToMatrix(&A, k, o2); c.note([&](auto & o) { o << " addKToMatrix"; });
            MX ref = start; ref.block(off, off, n * 3, n * 3) -= k * K; VP_CHECK((A.m - ref).cwiseAbs().maxCoeff() <= EPS * kmag * 10, "addKToMatrix: largest difference ", (A.m - ref).cwiseAbs().maxCoeff(), " for entries of ", kmag); break; }
        case 6: if constexpr (hex) { const MX k = ff->K(); VP_CHECK(k.rows() == n * 3 && (k + K).cwiseAbs().maxCoeff() <= EPS * kmag * 10, "K(): largest difference ", k.rows() == n * 3 ? (k + K).cwiseAbs().maxCoeff() : -1, " for entries of ", kmag);
            if (n <= 18) { VX a = ff->eigenvalues(); std::sort(a.data(), a.data() + a.size()); const VX ref = Eigen::SelfAdjointEigenSolver<MX>(-K, Eigen::EigenvaluesOnly).eigenvalues(); VP_CHECK(a.size() == ref.size() && (a - ref).cwiseAbs().maxCoeff() <= EPS * kmag * n * 10, "eigenvalues ", show(a), " expected ", show(ref)); }
            const int e = (int) c.draw((uint64_t) m.T.rows()); const MX ke = MX(ff->stiffness_matrix_of((std::size_t) e).template selfadjointView<Eigen::Upper>()); VP_CHECK((ke - Ke[e]).cwiseAbs().maxCoeff() <= EPS * kmag * 10, "stiffness matrix of element ", e);
            double v = 0; for (const auto & g : ff->gauss_nodes_of((std::size_t) e)) v += g.weight * g.jacobian_determinant; double ref = 0; if (one_point) { double det; const double z[3] = {0, 0, 0}; world_gradients<E>(m.element(e), z, det); ref = 8 * det; } else for (const auto & q : E(m.element(e)).gauss_nodes()) { double det; const double xi[3] = {q.position[0], q.position[1], q.position[2]}; world_gradients<E>(m.element(e), xi, det); ref += q.weight * det; }
            VP_CHECK(vp::near(v, ref, EPS * std::fabs(ref)), "volume of the integration points of element ", e, ": ", v, " expected ", ref);
        } break;
        case 7: { parameters(); ff->reinit(); setup(); c.note([&](auto & o) { o << " reinit"; }); c.label("reinit"); break; } // the rotations are those of the next evaluation of the forces
    }
    c.nontrivial(evals > 0 && deformed);
}
const vp::Reg a("tetrahedra", 1, history<TetL, TetrahedronElasticForce>), b("hexahedra", 1, history<HexL, HexahedronElasticForce>);
}
