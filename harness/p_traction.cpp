// P31: traction force fields of the SOFA plugin.
#include "sofa_any.h"
#include <SofaCaribou/Forcefield/TractionForcefield.h>
#include <SofaCaribou/Forcefield/TractionForcefield[Triangle].h>
#include <SofaCaribou/Forcefield/TractionForcefield[Quad].h>
#include <sofa/simulation/AnimateBeginEvent.h>
using namespace su;
namespace {
namespace om = sofa::core::objectmodel; namespace ct = sofa::component::topology; using sofa::core::MechanicalParams; using sofa::core::VecCoordId; using sofa::core::VecDerivId;
template <class E> void history(vp::Ctx & c) {
    using FF = SofaCaribou::forcefield::TractionForcefield<E>; using VC = typename TypesOf<E>::VecCoord; using Deriv = typename TypesOf<E>::Deriv; constexpr int D = DIM<E>; using VD = Eigen::Matrix<double, D, 1>;
    // elements of random shapes, some of whose nodes are shared
    const int ne = 1 + (int) c.draw(5); Pos<E> X(0, D); Indices<E> T;
    for (int e = 0; e < ne; ++e) {
        Shape sh; const bool regular = c.flip(); NodeMat<E> P = gen_nodes<E>(c, regular ? 0 : .2, sh); P.rowwise() -= P.row(0).eval(); P *= c.uniform(.2, 3) / P.cwiseAbs().maxCoeff(); for (int d = 0; d < D; ++d) P.col(d).array() += c.real(-5, 5); const auto o = X.rows(); X.conservativeResize(o + NN<E>, D); X.bottomRows(NN<E>) = P; FA<E> f; for (int i = 0; i < NN<E>; ++i) f[(std::size_t) i] = (PointID) (o + i);
        if (e && c.draw(3) == 0) { for (int k = 1 + (int) c.draw(2); k > 0; --k) f[c.draw(NN<E>)] = (PointID) c.draw((uint64_t) o); c.label("shared nodes"); } T.push_back(f);
    }
    if (c.flip()) { X.conservativeResize(X.rows() + 1, D); X.bottomRows(1).setZero(); } const auto n = X.rows();
    Eigen::VectorXd weight = Eigen::VectorXd::Zero(n); double area = 0; // integral of each shape function over the surface
    for (int e = 0; e < ne; ++e) {
        NodeMat<E> P; for (int i = 0; i < NN<E>; ++i) P.row(i) = X.row((Eigen::Index) T[(std::size_t) e][(std::size_t) i]);
        for (const auto & q : E(P).gauss_nodes()) {
            Dual x[3]; for (int d = 0; d < 2; ++d) x[d] = var(q.position[d], d); Eigen::Matrix<double, D, 2> J = Eigen::Matrix<double, D, 2>::Zero(); double L[NN<E>];
            for (int i = 0; i < NN<E>; ++i) { const Dual b = basis<Dual>(Info<E>::kind, Info<E>::order, i, x); L[i] = b.v; for (int r = 0; r < D; ++r) for (int d = 0; d < 2; ++d) J(r, d) += P(i, r) * b.d[d]; }
            double det; if constexpr (D == 2) det = std::fabs(J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0)); else det = V3(J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1), J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1), J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1)).norm(); for (int i = 0; i < NN<E>; ++i) weight[(Eigen::Index) T[(std::size_t) e][(std::size_t) i]] += q.weight * det * L[i]; area += q.weight * det;
        }
    }
    om::New<Node> node("node"); auto mo = node->template stub_add<State<E>>(); const bool moved = c.flip(); Pos<E> x = X; if (moved) for (Eigen::Index i = 0; i < n; ++i) for (int d = 0; d < D; ++d) x(i, d) += c.real(-1, 1);
    set<VC>(mo.get(), "rest_position", coords<E>(X)); set<VC>(mo.get(), "position", coords<E>(x)); // the load is that of the surface at rest
    sofa::core::sptr<CT<E>> topo; const bool with_topology = c.draw(8) != 7;
    if (with_topology) { if (Info<E>::order == 1 && c.flip()) { if constexpr (Info<E>::order == 1) { if constexpr (Info<E>::kind == TRI) { auto t = node->template stub_add<ct::TriangleSetTopologyContainer>(); set<Indices<E>>(t.get(), "triangles", T); } else { auto t = node->template stub_add<ct::QuadSetTopologyContainer>(); set<Indices<E>>(t.get(), "quads", T); } } } else { topo = node->template stub_add<CT<E>>(); set<Indices<E>>(topo.get(), "indices", T); } } else { weight.setZero(); area = 0; }
    auto ff = node->template stub_add<FF>(); sofa::core::behavior::BaseForceField & base = *ff; VD p; for (int d = 0; d < D; ++d) p[d] = c.real(-5, 5); double slope = 0; unsigned wait = 1;
    auto deriv = [](const VD & v) { Deriv r; for (int d = 0; d < D; ++d) r[(unsigned) d] = v[d]; return r; };
    auto parameters = [&](bool first) {
        if (first || c.flip()) { if (!first) for (int d = 0; d < D; ++d) p[d] = c.real(-5, 5); set<Deriv>(ff.get(), "traction", deriv(p)); }
        if (c.flip()) { static const double S[] = {0, .1, .25, 1. / 3, .5, .6, 1, 2}; slope = c.draw(3) ? S[c.draw(8)] : c.uniform(.05, 1.2); set<double>(ff.get(), "slope", slope); }
        if (c.flip()) { wait = (unsigned) c.draw(4); set<unsigned>(ff.get(), "number_of_steps_before_increment", wait); }
    };
    parameters(true); c.note([&](auto & o) { o << ne << " elements " << show_ind<E>(T) << " X=" << show(X) << " traction=" << show(p) << " slope=" << slope << " wait=" << wait; });
    VD applied; double total, fraction; long step; bool constant; auto fresh = [&] { constant = slope == 0; fraction = constant ? 1 : 0; applied = p * fraction; total = applied.norm() * area; step = 0; };
    node->stub_init(); fresh(); int increments = constant; double mag = 0; MechanicalParams mp; mp.setX(VecCoordId::position());
    auto check = [&](const char * when) {
        mag = std::max(mag, applied.cwiseAbs().maxCoeff()); const double tol = 1e-10 * (p.norm() + mag) * 100 * (1 + (double) step);
        Pos<E> f0(n, D); const double s0 = c.flip() ? 1 : 0; for (Eigen::Index i = 0; i < n; ++i) for (int d = 0; d < D; ++d) f0(i, d) = s0 * c.uniform(-1, 1);
        mo->write(VecDerivId::force())->setValue(coords<E>(f0)); base.addForce(&mp, VecDerivId::force()); const auto f = mo->write(VecDerivId::force())->getValue(); VP_CHECK(f.size() == (std::size_t) n, when, ": size of the force vector"); VD sum = VD::Zero();
        for (Eigen::Index i = 0; i < n; ++i) for (int d = 0; d < D; ++d) { const double got = f[(std::size_t) i][(unsigned) d] - f0(i, d); sum[d] += got; VP_CHECK(vp::near(got, weight[i] * applied[d], tol + 1e-14 * s0), when, ": force on node ", i, " along ", d, " is ", got, ", expected ", weight[i] * applied[d], " (step ", step, ", ", fraction, " of the load)"); }
        VP_CHECK((sum - applied * area).cwiseAbs().maxCoeff() <= (tol + 1e-14 * s0) * (double) n, when, ": the forces sum up to ", show(sum), ", expected ", show(applied * area));
        const double load = dynamic_cast<om::Data<double> *>(ff->findData("total_load"))->getValue(); VP_CHECK(vp::near(load, total, tol * 10), when, ": total load ", load, " expected ", total);
        const auto nf = dynamic_cast<om::Data<typename TypesOf<E>::VecDeriv> *>(ff->findData("nodal_forces"))->getValue(); VP_CHECK(nf.size() == (std::size_t) n, when, ": ", nf.size(), " nodal forces"); for (Eigen::Index i = 0; i < n; ++i) for (int d = 0; d < D; ++d) VP_CHECK(vp::near(nf[(std::size_t) i][(unsigned) d], weight[i] * applied[d], tol), when, ": nodal force");
    };
    check("after init"); sofa::simulation::AnimateBeginEvent begin(.1); sofa::simulation::AnimateEndEvent end; bool manual = false;
    for (int s = 2 + (int) c.draw(16); s > 0; --s) {
        switch (c.draw(10)) {
            default: { // one time step
                node->stub_event(&begin); ++step;
                if (!constant && fraction < 1 && (wait <= 1 || (step - 1) % wait == 0)) { const double next = fraction + slope > 1 - 1e-12 ? 1 : fraction + slope; applied += p * (next - fraction); total += p.norm() * area * (next - fraction); fraction = next; ++increments; c.note([&](auto & o) { o << " [" << fraction << "]"; }); if (fraction == 1) c.label("whole load reached by increments"); }
                check("after a step"); if (c.flip()) { node->stub_event(&end); check("after the end of the step"); } break; }
            case 7: node->stub_event(&end); check("after another event"); break;
            case 8: { const int k = (int) c.draw(4); if (k == 0) { c.note([&](auto & o) { o << " reset"; }); node->stub_reset(); fresh(); step = 0; c.label("reset"); check("after reset"); } else if (k == 1) { parameters(false); c.note([&](auto & o) { o << " init traction=" << show(p) << " slope=" << slope << " wait=" << wait; }); ff->init(); fresh(); c.label("initialized again"); check("after init"); } else if (k == 2) { mo->write(VecCoordId::position())->setValue(coords<E>(random_pos<E>(c, (int) n))); check("after a motion"); } break; }
            case 9: { if (manual) break; VD q; for (int d = 0; d < D; ++d) q[d] = c.real(-5, 5); ff->increment_load(deriv(q)); applied += q; total += q.norm() * area; c.note([&](auto & o) { o << " increment_load " << show(q); }); check("after increment_load"); break; }
        }
    }
    c.nontrivial(increments > 0 && area > 0 && p.norm() > 0);
}
template <class E> void without_state(vp::Ctx & c) { // nothing to load: reported, and harmless
    using FF = SofaCaribou::forcefield::TractionForcefield<E>; om::New<Node> node("node"); auto ff = node->template stub_add<FF>(); if (c.flip()) set<double>(ff.get(), "slope", .5); sofa::stub::Log::get().reset(); node->stub_init(); VP_CHECK(!sofa::stub::Log::get().warnings.empty(), "a force field without a state is not reported"); if (c.flip()) node->stub_reset(); sofa::simulation::AnimateBeginEvent begin(.1); (void) begin;
}
#define SUB(E) const vp::Reg t_##E(Info<E>::name(), 1, history<E>), w_##E("no state " + std::string(Info<E>::name()), .02, without_state<E>)
#if VP_GROUP == 0
SUB(Tri2L); SUB(Tri3L);
#elif VP_GROUP == 1
SUB(Tri2Q); SUB(Tri3Q);
#elif VP_GROUP == 2
SUB(Quad2L); SUB(Quad3L);
#else
SUB(Quad2Q); SUB(Quad3Q);
#endif
}
