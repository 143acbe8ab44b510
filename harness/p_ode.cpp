// P33: time integration of the SOFA plugin: static, backward Euler and legacy static solvers (Newton-Raphson).
#include "sofa_util.h"
#include "minisofa_sim.h"
#include "ode_solvers.h"
#include <SofaCaribou/Solver/ConjugateGradientSolver.h>
#include <SofaCaribou/Ode/StaticODESolver.h>
#include <SofaCaribou/Ode/BackwardEulerODESolver.h>
#include <SofaCaribou/Ode/LegacyStaticODESolver.h>
#include <deque>
using namespace su;
namespace {
using sofa::core::MechanicalParams; using sofa::core::VecCoordId; using sofa::core::VecDerivId; using sofa::core::MultiVecDerivId; using sofa::stub::Log;
using sofa::defaulttype::Vec3Types; using MO = sofa::component::container::MechanicalObject<Vec3Types>; using Node = sofa::simulation::Node; using Vec = Vec3Types::VecCoord;
inline VX flat(const Vec & v) { VX r((Eigen::Index) v.size() * 3); for (Eigen::Index i = 0; i < r.size(); ++i) r[i] = v[(std::size_t) i / 3][i % 3]; return r; }
inline Vec unflat(const VX & x) { Vec v; v.resize((std::size_t) x.size() / 3); for (Eigen::Index i = 0; i < x.size(); ++i) v[(std::size_t) i / 3][i % 3] = x[i]; return v; }
VX random_vx(vp::Ctx & c, Eigen::Index n, double s) { VX r(n); for (Eigen::Index i = 0; i < n; ++i) r[i] = c.uniform(-1, 1) * s; return r; }
MX spd(vp::Ctx & c, Eigen::Index n, double scale) { MX A = MX::Zero(n, n); for (int l = (int) c.draw((uint64_t) (2 * n + 1)); l > 0; --l) { const auto i = (Eigen::Index) c.draw((uint64_t) n), j = (Eigen::Index) c.draw((uint64_t) n); if (i == j) continue; const double w = c.uniform(.05, 1), s = c.flip() ? 1 : -1; A(i, i) += w; A(j, j) += w; A(i, j) += s * w; A(j, i) += s * w; } for (Eigen::Index i = 0; i < n; ++i) A(i, i) += c.uniform(.3, 2); return A * scale; }
// f(x) = p - K (x - X) - q (x - X)^3 , with a mass and a damping matrix; what it knows of the positions is those of the last forces
class Field : public sofa::core::behavior::ForceField<Vec3Types> {
public:
    SOFA_CLASS(Field, sofa::core::behavior::ForceField<Vec3Types>); using B = sofa::core::behavior::ForceField<Vec3Types>;
    MX M, D, K; VX X, p, at; double q = 0; std::vector<bool> pattern;
    VX force(const VX & x) const { const VX u = x - X; return p - K * u - q * VX(u.array().cube()); }
    MX tangent(const VX & x) const { const VX u = x - X; return K + MX((3 * q * u.array().square()).matrix().asDiagonal()); }
    using B::addForce; using B::addDForce; using B::addKToMatrix; using B::getPotentialEnergy;
    void addForce(const MechanicalParams *, DataVecDeriv & f, const DataVecCoord & x, const DataVecDeriv &) override { at = flat(x.getValue()); const VX r = force(at); auto & w = *f.beginEdit(); for (Eigen::Index i = 0; i < r.size(); ++i) w[(std::size_t) i / 3][i % 3] += r[i]; }
    void addDForce(const MechanicalParams *, DataVecDeriv &, const DataVecDeriv &) override {}
    double getPotentialEnergy(const MechanicalParams *, const DataVecCoord &) const override { return 0; }
    void addMBKdx(const MechanicalParams * mp, MultiVecDerivId df) override { auto * s = mstate.get(); const VX dx = flat(mp->readDx(s)->getValue()); auto & f = *s->write(df.getId(s))->beginEdit(); const VX r = mp->mFactor() * M * dx + mp->bFactor() * D * dx - mp->kFactor() * tangent(at) * dx; for (Eigen::Index i = 0; i < r.size(); ++i) f[(std::size_t) i / 3][i % 3] += r[i]; }
    void addMBKToMatrix(const MechanicalParams * mp, const sofa::core::behavior::MultiMatrixAccessor * m) override { auto r = m->getMatrix(mstate.get()); if (!r) return; const MX a = mp->mFactor() * M + mp->bFactor() * D - mp->kFactor() * tangent(at); for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) if (pattern[(std::size_t) (i * a.cols() + j)]) r.matrix->add((int) (r.offset + i), (int) (r.offset + j), a(i, j)); }
};
class Spring : public sofa::core::behavior::ForceField<Vec3Types> { // on a mapped state: q - k y
public:
    SOFA_CLASS(Spring, sofa::core::behavior::ForceField<Vec3Types>); using B = sofa::core::behavior::ForceField<Vec3Types>; VX q; double k = 0;
    using B::addForce; using B::addDForce; using B::addKToMatrix; using B::getPotentialEnergy;
    void addForce(const MechanicalParams *, DataVecDeriv & f, const DataVecCoord & x, const DataVecDeriv &) override { const VX r = q - k * flat(x.getValue()); auto & w = *f.beginEdit(); for (Eigen::Index i = 0; i < r.size(); ++i) w[(std::size_t) i / 3][i % 3] += r[i]; }
    void addDForce(const MechanicalParams *, DataVecDeriv &, const DataVecDeriv &) override {}
    double getPotentialEnergy(const MechanicalParams *, const DataVecCoord &) const override { return 0; }
    void addMBKdx(const MechanicalParams *, MultiVecDerivId) override {}
    void addMBKToMatrix(const MechanicalParams *, const sofa::core::behavior::MultiMatrixAccessor *) override {}
};
class Linear : public sofa::core::Mapping<Vec3Types, Vec3Types> { // y = J x
public:
    SOFA_CLASS(Linear, SOFA_TEMPLATE2(sofa::core::Mapping, Vec3Types, Vec3Types)); using B = sofa::core::Mapping<Vec3Types, Vec3Types>; MX J;
    using B::apply; using B::applyJ; using B::applyJT;
    void apply(const MechanicalParams *, OutDataVecCoord & y, const InDataVecCoord & x) override { y.setValue(unflat(J * flat(x.getValue()))); }
    void applyJ(const MechanicalParams *, OutDataVecDeriv & y, const InDataVecDeriv & x) override { y.setValue(unflat(J * flat(x.getValue()))); }
    void applyJT(const MechanicalParams *, InDataVecDeriv & x, const OutDataVecDeriv & y) override { const VX r = J.transpose() * flat(y.getValue()); auto & w = *x.beginEdit(); for (Eigen::Index i = 0; i < r.size(); ++i) w[(std::size_t) i / 3][i % 3] += r[i]; }
};
class Fixed : public sofa::core::behavior::BaseProjectiveConstraintSet {
public:
    SOFA_CLASS(Fixed, sofa::core::behavior::BaseProjectiveConstraintSet); MO * mo = nullptr; std::vector<int> dofs;
    void projectResponse(const MechanicalParams *, MultiVecDerivId id) override { auto & f = *mo->write(id.getId(mo))->beginEdit(); for (int d : dofs) f[(std::size_t) d / 3][d % 3] = 0; }
    void applyConstraint(const MechanicalParams *, const sofa::core::behavior::MultiMatrixAccessor * m) override { auto r = m->getMatrix(mo); if (!r) return; for (int d : dofs) { const int i = (int) r.offset + d; r.matrix->clearRowCol(i); r.matrix->set(i, i, 1.0); } }
};
struct Recorder : sofa::core::behavior::ConstraintSolver { std::string calls; void solveConstraint(const sofa::core::ConstraintParams * p, sofa::core::MultiVecId, sofa::core::MultiVecId = sofa::core::MultiVecId::null()) override { calls += p->constOrder() == sofa::core::ConstraintParams::POS ? 'p' : p->constOrder() == sofa::core::ConstraintParams::VEL ? 'v' : '?'; } };
struct Foreign : sofa::core::behavior::LinearSolver { void resetSystem() override {} void setSystemMBKMatrix(const MechanicalParams *) override {} void setSystemRHVector(MultiVecDerivId) override {} void setSystemLHVector(MultiVecDerivId) override {} void solveSystem() override {} };
using RowMajor = Eigen::SparseMatrix<double, Eigen::RowMajor, int>; struct CG : SofaCaribou::solver::ConjugateGradientSolver<RowMajor> {};
enum { STATIC, EULER, LEGACY };
struct Params { unsigned iterations = 1; double correction = 1e-5, residual = 1e-5, absolute = 1e-15, rm = 0, rk = 0, h = .01; bool growing = false; };
struct Part { MO * mo; Field * f; Fixed * fixed; MO * child = nullptr; Spring * spring = nullptr; Linear * map = nullptr; int n = 0; };
// the equations of the whole scene
struct Scene {
    std::vector<Part> parts; int dim = 0;
    void block(int i, int & o, int & s) const { o = 0; for (int k = 0; k < i; ++k) o += parts[(std::size_t) k].n * 3; s = parts[(std::size_t) i].n * 3; }
    template <class G> void each(G g) const { int o = 0; for (auto & p : parts) { g(p, o, p.n * 3); o += p.n * 3; } }
    VX force(const VX & x) const { VX r(dim); each([&](const Part & p, int o, int s) { r.segment(o, s) = p.f->force(x.segment(o, s)); if (p.map) r.segment(o, s) += p.map->J.transpose() * (p.spring->q - p.spring->k * (p.map->J * x.segment(o, s))); }); return r; }
    MX tangent(const VX & x) const { MX r = MX::Zero(dim, dim); each([&](const Part & p, int o, int s) { r.block(o, o, s, s) = p.f->tangent(x.segment(o, s)); }); return r; }
    MX M() const { MX r = MX::Zero(dim, dim); each([&](const Part & p, int o, int s) { r.block(o, o, s, s) = p.f->M; }); return r; }
    MX D() const { MX r = MX::Zero(dim, dim); each([&](const Part & p, int o, int s) { r.block(o, o, s, s) = p.f->D; }); return r; }
    void project(VX & f) const { each([&](const Part & p, int o, int) { for (int d : p.fixed->dofs) f[o + d] = 0; }); }
    void project(MX & A) const { each([&](const Part & p, int o, int) { for (int d : p.fixed->dofs) { A.row(o + d).setZero(); A.col(o + d).setZero(); A(o + d, o + d) = 1; } }); }
};
struct Result { VX x, v; std::vector<double> R; double initial = 0; bool converged = false, unclear = false; int iterations = 0; double scale = 0; };
// Newton-Raphson on the documented equations. first: |R_0| is that of the first iteration
Result model(const Scene & S, int kind, const Params & P, int solver, const VX & x0, const VX & v0, bool first) {
    Result r; r.x = x0; r.v = v0; const double h = P.h; const MX M = S.M(), D = S.D(); VX a = VX::Zero(S.dim), U = a, at = kind == EULER ? VX(x0 + h * v0) : x0;
    r.x = at; double prev = 0;
    auto rhs = [&] { const VX f0 = S.force(at); VX f = f0; if (kind == EULER) { const MX K = S.tangent(at); const VX f1 = (P.rm * M + D + P.rk * K) * v0, f2 = ((1 + h * P.rm) * M + h * D + h * P.rk * K) * a; f -= f1 + f2; r.scale = std::max({r.scale, f1.norm(), f2.norm()}); } r.scale = std::max({r.scale, f0.norm(), (S.tangent(at) * at).norm(), (S.tangent(at) * (at - x0)).norm()}); S.project(f); return f; };
    // a < b , unless rounding could decide
    auto less = [&](double lhs, double bound, double noise) { if (std::fabs(lhs - bound) <= 1e-6 * bound + noise) return 2; return lhs < bound ? 1 : 0; };
    VX F = rhs(); double R = F.norm(); r.initial = R; const double noise = [&] { return (solver == 3 ? 1e-9 : 1e-11) * r.scale; }();
    if (kind == LEGACY) { if (P.residual > 0) { if (R == 0) { r.converged = true; return r; } const double big = std::max(std::sqrt(P.residual), P.residual); if (R <= 1.1 * big + noise) { r.unclear = true; return r; } } }
    else if (P.absolute > 0) { const int q = R == 0 ? 1 : less(R, P.absolute, R > 0 ? 1e-12 * r.scale : 0); if (q == 2) { r.unclear = true; return r; } if (q == 1) { r.converged = true; return r; } }
    while (!r.converged && r.iterations < (int) P.iterations) {
        const MX K = S.tangent(at); MX A = kind == EULER ? MX((1 + h * P.rm) * M + h * D + h * (h + P.rk) * K) : K; S.project(A);
        const VX ev = Eigen::SelfAdjointEigenSolver<MX>(A, Eigen::EigenvaluesOnly).eigenvalues(); const double lo = ev[0], hi = ev.cwiseAbs().maxCoeff(), least = ev.cwiseAbs().minCoeff();
        if (least < 1e-4 * hi) { r.unclear = true; return r; } if (lo < 0) { if (solver == 1 && kind != LEGACY) return r; if (solver != 2) { r.unclear = true; return r; } }
        const VX d = A.fullPivLu().solve(F); if (kind == EULER) { a += d; r.v = v0 + h * a; r.x = x0 + h * r.v; } else r.x += d; at = r.x; U += d; const double last = r.iterations ? R : r.initial;
        if (P.iterations > 1 || kind == LEGACY) { F = rhs(); R = F.norm(); } if (!(R < 1e6 * (1 + r.initial)) || at.norm() > 1e4) { r.unclear = true; return r; } // far from any solution
        ++r.iterations; r.R.push_back(R); prev = last; const double eps = (solver == 3 ? 1e-9 : 1e-11) * std::max(r.scale, noise);
        if (U.norm() < 1e-4) { if (U.norm() < 1e-10) return r; r.unclear = true; return r; }
        const int c1 = P.correction > 0 ? less(d.norm(), P.correction * U.norm(), (solver == 3 ? 1e-9 : 1e-11) * (1 + U.norm())) : 0, c2 = P.residual > 0 ? (first && r.R.size() == 1 ? (P.residual > 1 ? 1 : P.residual == 1 ? 2 : 0) : less(R, P.residual * (first ? r.R[0] : r.initial), eps)) : 0, c3 = kind != LEGACY && P.absolute > 0 ? less(R, P.absolute, eps) : 0;
        if (c1 == 1 || c2 == 1 || c3 == 1) { r.converged = true; return r; } if (c1 || c2 || c3) { r.unclear = true; return r; }
        if (kind == LEGACY && P.growing && r.iterations > 1) { const int g = less(prev, R, eps); if (g == 2) { r.unclear = true; return r; } if (g == 1) return r; }
    }
    return r;
}
std::string differs(const Result & m, const VX & x, const VX & v, const std::vector<double> & R2, double initial2, bool converged, double eps) {
    const double tx = eps * (1 + m.x.norm()), tv = eps * (1 + m.v.norm()) * 100, tr = eps * m.scale * 10;
    if (converged != m.converged) return vp::cat("converged is ", converged, ", expected ", m.converged, " after ", R2.size(), " iterations, expected ", m.R.size());
    if (R2.size() != m.R.size()) return vp::cat(R2.size(), " iterations, expected ", m.R.size());
    if (!((x - m.x).norm() <= tx)) return vp::cat("positions ", show(x), " expected ", show(m.x));
    if (!((v - m.v).norm() <= tv)) return vp::cat("velocities ", show(v), " expected ", show(m.v));
    if (!(std::fabs(std::sqrt(initial2) - m.initial) <= tr)) return vp::cat("initial residual ", std::sqrt(initial2), " expected ", m.initial);
    for (std::size_t i = 0; i < R2.size(); ++i) if (!(std::fabs(std::sqrt(R2[i]) - m.R[i]) <= tr)) return vp::cat("residual of iteration ", i, " is ", std::sqrt(R2[i]), " expected ", m.R[i]);
    return "";
}
template <class ODE, int KIND> void history(vp::Ctx & c) {
    sofa::core::objectmodel::New<Node> root("root"); Node * host = c.draw(4) == 0 ? root->createChild("host").get() : root.get(); auto ode = host->template stub_add<ODE>(); sofa::core::behavior::OdeSolver & s = *ode; Params P; Scene S;
    // the linear solver: found in the context, or linked
    const int solver = (int) c.draw(4); if (KIND != LEGACY && c.draw(6) == 0) { host->template stub_add<Foreign>(); c.label("foreign linear solver"); } const bool missing = KIND != LEGACY && c.draw(24) == 23; sofa::core::behavior::LinearSolver * ls = nullptr; const bool second = KIND != LEGACY && !missing && c.draw(6) == 0, decoy_first = second && c.flip(); DirectSolver direct{}; const auto A_of = [&]() -> const sofa::defaulttype::BaseMatrix * { return solver == 3 ? dynamic_cast<CG *>(ls)->A() : direct.A(ls); };
    auto decoy = [&] { auto d = host->template stub_add<CG>(); set<unsigned>(d.get(), "maximum_number_of_iterations", 1u); set<double>(d.get(), "residual_tolerance_threshold", 1e-30); };
    if (!missing) {
        if (decoy_first) decoy(); if (solver < 3) { direct = solver == 0 ? make_ldlt(host) : solver == 1 ? make_llt(host) : make_lu(host); ls = direct.ls; } else { auto g = host->template stub_add<CG>(); ls = g.get(); set<unsigned>(g.get(), "maximum_number_of_iterations", 2000u); set<double>(g.get(), "residual_tolerance_threshold", 1e-13); if (c.flip()) { auto * d = dynamic_cast<sofa::core::objectmodel::Data<sofa::helper::OptionsGroup> *>(g->findData("preconditioning_method")); auto o = d->getValue(); o.setSelectedItem(std::string(KIND == LEGACY ? "Identity" : "Diagonal")); d->setValue(o); } }
        if (second && !decoy_first) decoy(); if (KIND != LEGACY && (decoy_first || c.draw(3) == 0)) { ode->findLink("linear_solver")->setTarget(ls); c.label("linked"); } else if (second) c.label("first of two");
    }
    auto rec = c.flip() ? host->template stub_add<Recorder>() : sofa::core::sptr<Recorder>(); const int np = 1 + (int) c.draw(2); const bool in_host = np == 1 && c.flip();
    // masses of the order of one, stiffnesses such that inertia and elasticity both matter
    auto loads = [&](Part & p, double amount) { p.f->p = random_vx(c, p.n * 3, amount); if (p.spring) { p.spring->q = random_vx(c, p.spring->q.size(), .2 * amount); } };
    auto fill = [&](Part & p) {
        const auto n = p.n * 3; p.f->K = spd(c, n, 1); p.f->M = KIND == EULER ? (c.flip() ? MX(spd(c, n, 1)) : MX(VX(random_vx(c, n, .5).array() + 1).asDiagonal())) : MX::Zero(n, n); p.f->D = KIND == EULER && c.flip() ? spd(c, n, .2) : MX::Zero(n, n); static const double Q[] = {0, .1, 1, 5, -.05}; p.f->q = Q[c.draw(5)]; if (c.draw(16) == 15) { p.f->K = -p.f->K; p.f->q = 0; c.label("not positive definite"); }
        p.f->pattern.assign((std::size_t) (n * n), false); for (Eigen::Index i = 0; i < n; ++i) for (Eigen::Index j = 0; j < n; ++j) p.f->pattern[(std::size_t) (i * n + j)] = i == j || p.f->K(i, j) != 0 || p.f->M(i, j) != 0 || p.f->D(i, j) != 0;
        p.f->X = random_vx(c, n, 1); p.fixed->dofs.clear(); if (c.flip()) for (int k = (int) c.draw(4); k > 0; --k) p.fixed->dofs.push_back((int) c.draw((uint64_t) n)); loads(p, 1); if (p.map) { p.map->J = MX::Zero(3, n); for (Eigen::Index i = 0; i < 3; ++i) for (Eigen::Index j = 0; j < n; ++j) if (c.flip()) p.map->J(i, j) = c.uniform(-.5, .5); p.spring->q = random_vx(c, 3, .2); p.spring->k = c.flip() ? c.uniform(0, .1) : 0; }
    };
    auto resize = [&](Part & p) { p.n = 1 + (int) c.draw(3); Vec v; v.resize((std::size_t) p.n); p.mo->x.setValue(v); p.mo->x0.setValue(v); p.mo->v.setValue(v); p.mo->init(); };
    bool mapped = false;
    for (int i = 0; i < np; ++i) {
        Part p; Node * n = in_host ? host : host->createChild("n" + std::to_string(i)).get(); p.mo = n->template stub_add<MO>().get(); p.f = n->template stub_add<Field>().get(); p.fixed = n->template stub_add<Fixed>().get(); p.fixed->mo = p.mo;
        if (c.draw(4) == 0) { Node * ch = n->createChild("mapped").get(); p.child = ch->template stub_add<MO>().get(); Vec v; v.resize(1); p.child->x.setValue(v); p.map = ch->template stub_add<Linear>().get(); p.map->setModels(p.mo, p.child); p.spring = ch->template stub_add<Spring>().get(); p.spring->q = VX::Zero(3); mapped = true; }
        resize(p); fill(p); S.parts.push_back(p);
    }
    auto dims = [&] { S.dim = 0; for (auto & p : S.parts) S.dim += p.n * 3; }; dims(); if (mapped) c.label("mapped");
    int strategy = 2; auto parameters = [&] {
        if (c.draw(4)) { P.iterations = (unsigned) c.draw(9); set<unsigned>(ode.get(), "newton_iterations", P.iterations); } static const double T[] = {1e-5, 1e-3, 1e-8, .1, -1};
        if (c.flip()) { P.correction = T[c.draw(5)]; set<double>(ode.get(), "correction_tolerance_threshold", P.correction); } if (c.flip()) { P.residual = T[c.draw(5)]; set<double>(ode.get(), "residual_tolerance_threshold", P.residual); }
        if (KIND != LEGACY && c.flip()) { static const double Z[] = {1e-15, 1e-6, .01, .5, -1}; P.absolute = Z[c.draw(5)]; set<double>(ode.get(), "absolute_residual_tolerance_threshold", P.absolute); }
        if constexpr (KIND == EULER) { if (c.flip()) { P.rm = c.flip() ? c.uniform(0, .5) : 0; set<double>(ode.get(), "rayleigh_mass", P.rm); } if (c.flip()) { P.rk = c.flip() ? c.uniform(0, .5) : 0; set<double>(ode.get(), "rayleigh_stiffness", P.rk); } }
        if constexpr (KIND == LEGACY) if (c.flip()) { P.growing = c.flip(); set<bool>(ode.get(), "shoud_diverge_when_residual_is_growing", P.growing); }
        c.note([&](auto & o) { o << " [iterations=" << P.iterations << " correction=" << P.correction << " residual=" << P.residual << " absolute=" << P.absolute << (KIND == EULER ? vp::cat(" rm=", P.rm, " rk=", P.rk) : "") << "]"; });
    };
    parameters(); if constexpr (KIND != LEGACY) if (c.flip()) { strategy = (int) c.draw(4); if (strategy == 0 && solver != 3) strategy = 3; using E = SofaCaribou::ode::NewtonRaphsonSolver::PatternAnalysisStrategy; ode->set_pattern_analysis_strategy((E) strategy); VP_CHECK(ode->pattern_analysis_strategy() == (E) strategy, "pattern analysis strategy"); }
    const char * names[] = {"LDLT", "LLT", "LU", "CG"}; c.note([&](auto & o) { o << " " << (missing ? "no solver" : names[solver]) << " strategy=" << strategy; });
    Log::get().reset(); root->stub_init(); VP_CHECK(Log::get().errors.empty() != missing, missing ? "nothing is reported about the missing linear solver" : vp::cat("an error is reported: ", Log::get().errors.empty() ? "" : Log::get().errors[0]));
    if constexpr (KIND != LEGACY) if (!missing) VP_CHECK(ode->findLink("linear_solver")->getTarget() == ls, "the linear solver in use is not the ", decoy_first ? "linked" : "first", " one");
    auto get = [&](auto id) { VX r(S.dim); S.each([&](const Part & p, int o, int n) { r.segment(o, n) = flat(p.mo->write(id)->getValue()); }); return r; };
    auto put = [&](auto id, const VX & x) { S.each([&](const Part & p, int o, int n) { p.mo->write(id)->setValue(unflat(x.segment(o, n))); }); };
    auto map_down = [&] { S.each([&](const Part & p, int, int) { if (p.map) { p.child->x.setValue(unflat(p.map->J * flat(p.mo->x.getValue()))); p.child->v.setValue(unflat(p.map->J * flat(p.mo->v.getValue()))); } }); };
    auto converged_data = [&] { return dynamic_cast<sofa::core::objectmodel::Data<bool> *>(ode->findData("converged"))->getValue(); };
    { VX x(S.dim); S.each([&](const Part & p, int o, int n) { x.segment(o, n) = p.f->X + random_vx(c, n, c.flip() ? .3 : 0); }); put(VecCoordId::position(), x); if (KIND == EULER && c.flip()) { VX v = random_vx(c, S.dim, 1); S.project(v); put(VecDerivId::velocity(), v); } map_down(); }
    const int steps = 1 + (int) c.draw(4); int useful = 0;
    for (int t = 0; t < steps; ++t) {
        if (t) switch (c.draw(8)) {
            case 0: parameters(); break;
            case 1: if (strategy < 2 && KIND != LEGACY) { if (strategy == 0) break; s.reset(); c.label("reset"); } { auto & p = S.parts[c.draw(S.parts.size())]; if (c.flip()) resize(p); fill(p); dims(); p.mo->x.setValue(unflat(p.f->X + random_vx(c, p.n * 3, .3))); map_down(); c.label("scene changed"); } break;
            case 2: for (auto & p : S.parts) loads(p, c.draw(3) ? c.uniform(.1, 2) : 0); break;
            case 3: if (KIND == EULER) { VX v = random_vx(c, S.dim, 2); S.project(v); put(VecDerivId::velocity(), v); map_down(); } break;
            case 4: s.reset(); break;
            case 5: { VX x = get(VecCoordId::position()) + random_vx(c, S.dim, .3); put(VecCoordId::position(), x); map_down(); break; }
            case 6: { S.each([&](const Part & p, int o, int n) { const VX x = get(VecCoordId::position()).segment(o, n); p.f->p.setZero(); if (p.spring) { p.spring->q.setZero(); p.spring->k = 0; } p.f->p = p.f->K * (x - p.f->X) + p.f->q * VX((x - p.f->X).array().cube()); }); c.label("at equilibrium"); break; }
            default: break;
        }
        if (KIND == EULER) P.h = c.flip() ? .1 : std::pow(10., c.real(-2, .3)); const VX x0 = get(VecCoordId::position()), v0 = get(VecDerivId::velocity()); MechanicalParams mp; set<bool>(ode.get(), "printLog", c.draw(8) == 7); if (rec) rec->calls.clear();
        c.note([&](auto & o) { o << " solve h=" << P.h << " x=" << show(x0) << " v=" << show(v0); S.each([&](const Part & p, int, int) { o << " {K=" << show(p.f->K) << " q=" << p.f->q << " X=" << show(p.f->X) << " p=" << show(p.f->p); if (KIND == EULER) o << " M=" << show(p.f->M) << " D=" << show(p.f->D); if (p.map) o << " J=" << show(p.map->J) << " k=" << p.spring->k << " q=" << show(p.spring->q); o << " fixed=" << p.fixed->dofs.size() << "}"; }); });
        Log::get().reset(); s.solve(&mp, P.h, VecCoordId::position(), VecDerivId::velocity()); const VX x = get(VecCoordId::position()), v = get(VecDerivId::velocity());
        if (missing) { VP_CHECK(x == x0 && v == v0 && !converged_data(), "the state changed although there is no linear solver"); c.nontrivial(true); continue; }
        const std::vector<double> R2(ode->squared_residuals().begin(), ode->squared_residuals().end()); VP_CHECK(ode->iteration_times().size() == R2.size() && R2.size() <= P.iterations, "number of iterations ", R2.size(), ", times ", ode->iteration_times().size());
        std::string why; bool ok = false; for (int first = 1; first >= 0 && !ok; --first) { const Result m = model(S, KIND, P, solver, x0, v0, first); if (m.unclear) c.discard(); const std::string d = differs(m, x, v, R2, ode->squared_initial_residual(), converged_data(), solver == 3 ? 1e-7 : 1e-9); if (d.empty()) ok = true; else if (why.empty()) why = d; }
        VP_CHECK(ok, "step ", t, ": ", why);
        if (rec) { std::string e; for (std::size_t i = 0; i < R2.size(); ++i) e += KIND == EULER ? "vp" : "p"; VP_CHECK(rec->calls == e, "constraint solver called with '", rec->calls, "' expected '", e, "'"); }
        S.each([&](const Part & p, int o, int n) { if (p.map) { VP_CHECK((flat(p.child->x.getValue()) - p.map->J * x.segment(o, n)).norm() <= 1e-12 * (1 + x.norm()), "mapped positions are not those of the solution"); VP_CHECK((flat(p.child->v.getValue()) - p.map->J * v.segment(o, n)).norm() <= 1e-12 * (1 + v.norm()), "mapped velocities are not those of the solution"); } });
        if (KIND != LEGACY) { const auto * A = A_of(); VP_CHECK(A && A->rowSize() == S.dim && A->colSize() == S.dim, "the linear solver does not hold the system matrix"); }
        c.label(converged_data() ? (R2.empty() ? "converged at once" : "converged") : R2.size() == P.iterations ? "iterations used up" : "stopped"); if (R2.size() > 0) ++useful; c.nontrivial(useful > 0 && S.dim > 1);
    }
}
#if VP_GROUP == 0
const vp::Reg r0("static", 1, history<SofaCaribou::ode::StaticODESolver, STATIC>);
#elif VP_GROUP == 1
const vp::Reg r1("backward euler", 1, history<SofaCaribou::ode::BackwardEulerODESolver, EULER>);
#else
const vp::Reg r2("legacy static", 1, history<SofaCaribou::ode::LegacyStaticODESolver, LEGACY>);
#endif
}
