// P29: linear solvers of the SOFA plugin (LDLT, LLT, LU, conjugate gradient), through Caribou's and SOFA's interfaces.
#include "sofa_util.h"
#include "minisofa_sim.h"
#include <Eigen/SparseCholesky>
#include <Eigen/SparseLU>
#if VP_GROUP == 0
#include <SofaCaribou/Solver/LDLTSolver.inl>
#elif VP_GROUP == 1
#include <SofaCaribou/Solver/LLTSolver.inl>
#elif VP_GROUP == 2
#include <SofaCaribou/Solver/LUSolver.inl>
#else
#include <SofaCaribou/Solver/ConjugateGradientSolver.h>
#endif
using namespace su;
namespace {
using sofa::core::MechanicalParams; using sofa::core::VecCoordId; using sofa::core::VecDerivId; using sofa::core::MultiVecDerivId;
using sofa::defaulttype::BaseMatrix; using sofa::defaulttype::BaseVector; using sofa::defaulttype::Vec3Types; using MO = sofa::component::container::MechanicalObject<Vec3Types>; using Node = sofa::simulation::Node; using Vec = Vec3Types::VecCoord;
// sparse matrix of moderate condition number, symmetric positive definite or not symmetric
MX random_matrix(vp::Ctx & c, int n, bool spd, double scale) {
    MX A = MX::Zero(n, n); const int links = (int) c.draw((uint64_t) (2 * n + 1));
    for (int l = 0; l < links; ++l) { const int i = (int) c.draw((uint64_t) n), j = (int) c.draw((uint64_t) n); if (i == j) continue; const double w = c.uniform(.01, 1), s = c.flip() ? 1 : -1; if (spd) { A(i, i) += w; A(j, j) += w; A(i, j) += s * w; A(j, i) += s * w; } else { A(i, j) += s * w; A(i, i) += w; A(j, j) += w; } }
    for (int i = 0; i < n; ++i) A(i, i) += c.uniform(.1, 2);
    return A * scale;
}
VX random_vx(vp::Ctx & c, Eigen::Index n, double s) { VX r(n); for (Eigen::Index i = 0; i < n; ++i) r[i] = c.uniform(-1, 1) * s; return r; }
struct CG { int max; double tol; std::string method; };
CG configure(vp::Ctx & c, sofa::core::objectmodel::Base * s, int n, CG p = {25, 1e-5, "Identity"}) {
    if (c.draw(4)) { const int k = (int) c.draw(4); p.max = k == 0 ? 1 : k == 1 ? (int) (1 + c.draw(6)) : 6 * n + 40; set<unsigned>(s, "maximum_number_of_iterations", (unsigned) p.max); }
    if (c.draw(4)) { p.tol = std::pow(10., -(double) c.draw(10) - 1); set<double>(s, "residual_tolerance_threshold", p.tol); }
    if (c.draw(6)) {
        static const char * names[] = {"None", "Identity", "Diagonal", "IncompleteCholesky", "IncompleteLU"}; p.method = names[c.draw(5)];
        auto * d = dynamic_cast<sofa::core::objectmodel::Data<sofa::helper::OptionsGroup> *>(s->findData("preconditioning_method")); auto g = d->getValue(); g.setSelectedItem(p.method); d->setValue(g);
    }
    return p;
}
// the history and the solution reported by the conjugate gradient
void check_cg(const CG & p, const MX & A, const VX & b, const VX & x0, const VX & x, const std::vector<double> & hist, int reported, bool spd_precond) {
    const double round = 1e-12 * (A.norm() * (x.norm() + x0.norm()) + b.norm()) * (1 + (double) hist.size()), res = (b - A * x).norm(), thr = p.tol * b.norm();
    if (b.norm() == 0) { VP_CHECK(x.norm() == 0 && hist.empty(), "right-hand side zero: x=", show(x)); if (reported >= 0) VP_CHECK(reported == 1, "a system with a right-hand side of zero is reported as not solved"); return; }
    VP_CHECK((int) hist.size() <= p.max, hist.size(), " iterations, at most ", p.max, " asked");
    const double res0 = (b - A * x0).norm();
    const bool done = hist.empty() ? true : hist.back() < thr * thr;
    if (hist.empty()) VP_CHECK(p.max == 0 || res0 <= thr + round, "no iteration although the initial residual is ", res0, ", threshold ", thr);
    else {
        VP_CHECK(res0 >= thr - round, "iterations although the initial residual is ", res0, ", threshold ", thr);
        VP_CHECK(std::fabs(std::sqrt(hist.back()) - res) <= round, "last residual reported ", std::sqrt(hist.back()), ", that of the solution is ", res);
        for (std::size_t i = 0; i + 1 < hist.size(); ++i) VP_CHECK(!(hist[i] < thr * thr), "iteration ", i, " was below the threshold");
        if (!done) VP_CHECK((int) hist.size() == p.max, "stopped after ", hist.size(), " iterations out of ", p.max, " with a residual of ", res, ", threshold ", thr);
    }
    if (done) VP_CHECK(res <= thr + round, "residual ", res, " threshold ", thr);
    if (reported >= 0) VP_CHECK((reported == 1) == done, "reported as ", reported ? "solved" : "not solved", " with a residual of ", res, " for a threshold of ", thr);
    if (p.max >= 6 * A.rows() + 40 && spd_precond) VP_CHECK(done, "no convergence in ", p.max, " iterations: residual ", res, " threshold ", thr);
}
// ---------------------------------------------------------------- Caribou's interface
template <class S, int KIND> void api(vp::Ctx & c) { // KIND: 0 LDLT, 1 LLT, 2 LU, 3 conjugate gradient
    sofa::core::objectmodel::New<S> obj; SofaCaribou::solver::LinearSolver & s = *obj; VP_CHECK(s.is_iterative() == (KIND == 3), "is_iterative"); VP_CHECK(obj->A() == nullptr || obj->A()->rowSize() == 0, "a solver that was given no system has a matrix");
    if (c.draw(12) == 0) { // no system, or one whose matrix is of another kind
        SofaCaribou::Algebra::EigenMatrix<Eigen::MatrixXd> foreign(2, 2); const bool given = c.flip(); if (given) { foreign.set(0, 0, 1.); foreign.set(1, 1, 1.); s.set_system_matrix(&foreign); } bool ok = false; try { ok = c.flip() ? s.analyze_pattern() : s.factorize(); } catch (const std::exception &) {} VP_CHECK(!ok, given ? "a matrix of another kind" : "no matrix", " is reported as analyzed or factorized"); c.label("no usable system");
    }
    if (KIND < 3 && c.draw(8) == 0) { sofa::core::objectmodel::BaseObjectDescription d; const int k = (int) c.draw(3); if (k == 1) d.setAttribute("backend", "Eigen"); if (k == 2) d.setAttribute("backend", "Pardiso"); const bool ok = S::canCreate(obj.get(), nullptr, &d); VP_CHECK(ok == (k < 2) && (ok || !d.errors.empty()), "canCreate with backend ", k); VP_CHECK(!ok || std::string(d.getAttribute("backend", "")) == "Eigen", "backend"); }
    const int rounds = 1 + (int) c.draw(4); std::unique_ptr<BaseMatrix> A; std::unique_ptr<BaseVector> B, X; MX ref; CG cg {25, 1e-5, "Identity"}; int n = 0; bool sym = true, solved = false;
    for (int r = 0; r < rounds; ++r) {
        const int what = r == 0 ? 0 : (int) c.draw(3); // new system, same pattern with new values, only a new right-hand side
        if (what == 0) {
            n = 1 + (int) c.draw(c.draw(8) ? 12 : 40); const double scale = std::pow(10., c.integer(-2, 3)); sym = KIND != 2 || c.flip();
            const bool bad = (KIND < 3) && c.draw(8) == 0;
            ref = random_matrix(c, n, sym, scale); if (KIND == 0 && c.flip()) ref = -ref;
            if constexpr (KIND == 2) if (c.flip()) set<bool>(obj.get(), "symmetric", sym && c.flip());
            if constexpr (KIND == 3) cg = configure(c, obj.get(), n, cg);
            if (bad) { const auto k = (Eigen::Index) c.draw((uint64_t) n); if (KIND == 1) ref(k, k) = -std::fabs(ref(k, k)); else { ref.row(k).setZero(); ref.col(k).setZero(); } } // not positive definite / singular
            c.note([&](auto & o) { o << " [A=" << show(ref) << (KIND == 3 ? vp::cat(" max=", cg.max, " tol=", cg.tol, " ", cg.method) : "") << "]"; });
            A.reset(s.create_new_matrix((unsigned) n, (unsigned) n)); B.reset(s.create_new_vector((unsigned) n)); X.reset(s.create_new_vector((unsigned) n)); VP_CHECK(A && A->rowSize() == n && A->colSize() == n && B->size() == n && X->size() == n, "sizes of the matrix and vectors");
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (ref(i, j) != 0) { if (c.draw(8) == 0) { A->add(i, j, ref(i, j) * .5); A->add(i, j, ref(i, j) * .5); } else A->add(i, j, ref(i, j)); }
            A->compress(); s.set_system_matrix(A.get()); const bool an = s.analyze_pattern(); VP_CHECK(an || bad, "analyze_pattern failed"); const bool ok = s.factorize();
            if (bad) { VP_CHECK(!ok, "a ", KIND == 1 ? "matrix that is not positive definite" : "singular matrix", " is reported as factorized"); c.label("not factorizable"); return; }
            VP_CHECK(ok, "factorize failed");
        } else if (what == 1) {
            for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) if (ref(i, j) != 0 || ref(j, i) != 0) { const double f = i == j ? c.uniform(1, 1.5) : c.uniform(.5, 1); if (ref(i, j) != 0) { ref(i, j) *= f; A->set(i, j, ref(i, j)); } if (i != j && ref(j, i) != 0) { ref(j, i) *= f; A->set(j, i, ref(j, i)); } }
            A->compress(); c.label("factorized again"); c.note([&](auto & o) { o << " values=" << show(ref); }); if (c.flip()) s.set_system_matrix(A.get()); VP_CHECK(s.factorize(), "factorize failed with new values");
        } else c.label("several right-hand sides");
        VX b = random_vx(c, n, std::pow(10., c.integer(-2, 3))), x0 = VX::Zero(n); if (c.draw(8) == 0) b.setZero(); if (c.flip()) x0 = random_vx(c, n, 1);
        if (c.draw(6) == 0) x0 = ref.fullPivLu().solve(b);
        for (int i = 0; i < n; ++i) { B->set(i, b[i]); X->set(i, x0[i]); }
        c.note([&](auto & o) { o << " solve b=" << show(b) << " x0=" << show(x0); });
        const bool ok = s.solve(B.get(), X.get()); VX x(n), bb(n); for (int i = 0; i < n; ++i) { x[i] = X->element(i); bb[i] = B->element(i); } const auto hist = s.squared_residuals();
        VP_CHECK(bb == b, "the right-hand side is changed by the solver");
        if constexpr (KIND < 3) { VP_CHECK(ok, "solve failed"); VP_CHECK(hist.empty(), "residuals of a direct solver"); const double tol = 1e-10 * (ref.norm() * x.norm() + b.norm()); VP_CHECK((ref * x - b).norm() <= tol, "A x - b = ", show(ref * x - b), " x=", show(x)); }
        else check_cg(cg, ref, b, x0, x, std::vector<double>(hist.begin(), hist.end()), ok, cg.method != "IncompleteLU");
        solved = solved || (n > 1 && b.norm() > 0); if (n > 1 && (ref - MX(ref.diagonal().asDiagonal())).norm() > 0) c.nontrivial(solved);
    }
}
// ---------------------------------------------------------------- SOFA's interface, on a scene
class Field : public sofa::core::behavior::ForceField<Vec3Types> { // M, B and K of the degrees of freedom of one mechanical object
public:
    SOFA_CLASS(Field, sofa::core::behavior::ForceField<Vec3Types>); using B = sofa::core::behavior::ForceField<Vec3Types>;
    MX M, D, K;
    MX A(const MechanicalParams * mp) const { return mp->mFactor() * M + mp->bFactor() * D + mp->kFactor() * K; }
    using B::addForce; using B::addDForce; using B::addKToMatrix; using B::getPotentialEnergy;
    void addForce(const MechanicalParams *, DataVecDeriv &, const DataVecCoord &, const DataVecDeriv &) override {}
    void addDForce(const MechanicalParams *, DataVecDeriv &, const DataVecDeriv &) override {}
    double getPotentialEnergy(const MechanicalParams *, const DataVecCoord &) const override { return 0; }
    void addMBKdx(const MechanicalParams * mp, MultiVecDerivId df) override { auto * s = mstate.get(); const auto & dx = mp->readDx(s)->getValue(); auto & f = *s->write(df.getId(s))->beginEdit(); const VX r = A(mp) * Eigen::Map<const VX>(&dx[0][0], (Eigen::Index) dx.size() * 3); for (Eigen::Index i = 0; i < r.size(); ++i) f[(std::size_t) i / 3][i % 3] += r[i]; }
    void addMBKToMatrix(const MechanicalParams * mp, const sofa::core::behavior::MultiMatrixAccessor * m) override { auto r = m->getMatrix(mstate.get()); if (!r) return; const MX a = A(mp); for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) if (a(i, j) != 0) r.matrix->add((int) (r.offset + i), (int) (r.offset + j), a(i, j)); }
};
class Fixed : public sofa::core::behavior::BaseProjectiveConstraintSet { // degrees of freedom that do not move
public:
    SOFA_CLASS(Fixed, sofa::core::behavior::BaseProjectiveConstraintSet); MO * mo = nullptr; std::vector<int> dofs;
    void projectResponse(const MechanicalParams *, MultiVecDerivId id) override { auto & f = *mo->write(id.getId(mo))->beginEdit(); for (int d : dofs) f[(std::size_t) d / 3][d % 3] = 0; }
    void applyConstraint(const MechanicalParams *, const sofa::core::behavior::MultiMatrixAccessor * m) override { auto r = m->getMatrix(mo); if (!r) return; for (int d : dofs) { const int i = (int) r.offset + d; r.matrix->clearRowCol(i); r.matrix->set(i, i, 1.0); } }
};
template <class S, int KIND> void scene(vp::Ctx & c) {
    sofa::core::objectmodel::New<Node> root("root"); auto obj = root->template stub_add<S>(); sofa::core::behavior::LinearSolver & s = *obj;
    struct Part { sofa::core::sptr<MO> mo; sofa::core::sptr<Field> f[2]; sofa::core::sptr<Fixed> fixed; int n; }; std::vector<Part> parts; CG cg {0, 0, ""};
    const int np = 1 + (int) c.draw(3); bool sym = KIND != 2 || c.flip();
    auto fill = [&](Part & p) { for (auto & f : p.f) if (f) { f->M = random_matrix(c, p.n * 3, true, 1); f->D = c.flip() ? MX::Zero(p.n * 3, p.n * 3) : random_matrix(c, p.n * 3, true, 1); f->K = random_matrix(c, p.n * 3, sym, 10); } p.fixed->dofs.clear(); if (c.flip()) for (int k = (int) c.draw(4); k > 0; --k) p.fixed->dofs.push_back((int) c.draw((uint64_t) p.n * 3)); };
    auto resize = [&](Part & p) { p.n = 1 + (int) c.draw(4); Vec v; v.resize((std::size_t) p.n); p.mo->x.setValue(v); p.mo->x0.setValue(v); p.mo->init(); };
    bool in_root = np == 1 && c.flip();
    for (int i = 0; i < np; ++i) {
        Part p; Node * n = in_root ? root.get() : root->createChild("n" + std::to_string(i)).get(); p.mo = n->template stub_add<MO>(); p.f[0] = n->template stub_add<Field>(); if (c.draw(4) == 0) p.f[1] = n->template stub_add<Field>(); p.fixed = n->template stub_add<Fixed>(); p.fixed->mo = p.mo.get(); resize(p); fill(p); parts.push_back(p);
    }
    root->stub_init(); int dim = 0; for (auto & p : parts) dim += p.n * 3;
    if constexpr (KIND == 3) cg = configure(c, obj.get(), dim);
    const bool none = KIND == 3 && cg.method == "None"; int solves = 0; MechanicalParams mp; MX ref; bool set_up = false, bad = false;
    auto gather = [&](VecDerivId id) { VX r(dim); int o = 0; for (auto & p : parts) { const auto & v = p.mo->write(id)->getValue(); for (int i = 0; i < p.n * 3; ++i) r[o + i] = v[(std::size_t) i / 3][i % 3]; o += p.n * 3; } return r; };
    auto scatter = [&](VecDerivId id, const VX & x) { int o = 0; for (auto & p : parts) { Vec3Types::VecDeriv v; v.resize((std::size_t) p.n); for (int i = 0; i < p.n * 3; ++i) v[(std::size_t) i / 3][i % 3] = x[o + i]; p.mo->write(id)->setValue(v); o += p.n * 3; } };
    const int steps = 2 + (int) c.draw(5);
    for (int t = 0; t < steps; ++t) {
        const int what = t == 0 ? 0 : (int) c.draw(5);
        if (what == 0 || what == 1 || !set_up) { // assemble and factorize
            if (t && c.flip()) { auto & p = parts[c.draw(parts.size())]; if (c.flip()) resize(p); fill(p); c.label("scene changed"); }
            dim = 0; for (auto & p : parts) dim += p.n * 3; if (KIND == 3 && cg.max > 40) { cg.max = 6 * dim + 40; set<unsigned>(obj.get(), "maximum_number_of_iterations", (unsigned) cg.max); }
            double m = c.uniform(.1, 2), b = c.flip() ? c.uniform(0, 1) : 0, k = c.uniform(.1, 2); if (c.draw(4) == 0) m = 0;
            bad = KIND < 2 && c.draw(8) == 0; if (bad) { m = b = 0; k = KIND == 1 ? -k : 0; }
            mp.setMFactor(m).setBFactor(b).setKFactor(k);
            ref = MX::Zero(dim, dim); int o = 0; bool all_fixed = true; for (auto & p : parts) { MX a = MX::Zero(p.n * 3, p.n * 3); for (auto & f : p.f) if (f) a += f->A(&mp); for (int d : p.fixed->dofs) { a.row(d).setZero(); a.col(d).setZero(); a(d, d) = 1; } if ((int) std::set<int>(p.fixed->dofs.begin(), p.fixed->dofs.end()).size() < p.n * 3) all_fixed = false; ref.block(o, o, p.n * 3, p.n * 3) = a; o += p.n * 3; }
            if (all_fixed) bad = false;
            if (c.draw(6) == 0) { s.resetSystem(); c.label("reset"); }
            sofa::stub::Log::get().reset(); s.setSystemMBKMatrix(&mp); set_up = true; c.note([&](auto & o) { o << " setSystem m=" << m << " b=" << b << " k=" << k << " A=" << show(ref); });
            if (!none) {
                VP_CHECK(obj->A() && obj->A()->rowSize() == dim && obj->A()->colSize() == dim, "size of the assembled matrix"); const MX got = MX(obj->A()->matrix()); VP_CHECK((got - ref).cwiseAbs().maxCoeff() <= 1e-12 * (1 + ref.norm()), "assembled matrix ", show(got), " expected ", show(ref));
                VP_CHECK(obj->A_is_factorized() == !bad, bad ? "a system that cannot be factorized is reported as factorized" : "the system is not factorized"); VP_CHECK(sofa::stub::Log::get().errors.empty() == !bad, "errors reported: ", sofa::stub::Log::get().errors.size());
            }
            if (bad) c.label("not factorizable");
        }
        VX b = random_vx(c, dim, std::pow(10., c.integer(-2, 3))), x0 = VX::Zero(dim); if (c.draw(8) == 0) b.setZero(); if (c.flip()) x0 = random_vx(c, dim, 1); if (c.draw(6) == 0) x0 = ref.fullPivLu().solve(b); if (!x0.allFinite()) x0.setZero();
        int o = 0; for (auto & p : parts) { for (int d : p.fixed->dofs) { b[o + d] = 0; x0[o + d] = 0; } o += p.n * 3; } // the response of the constrained degrees of freedom is zero
        const VecDerivId ids[] = {VecDerivId::dx(), VecDerivId::force(), VecDerivId::dforce(), VecDerivId::velocity()}; const int xi = (int) c.draw(4), bi = (xi + 1 + (int) c.draw(3)) % 4; scatter(ids[xi], x0); scatter(ids[bi], b); const VX b_in = gather(ids[bi]);
        c.note([&](auto & o) { o << " solve b=" << show(b) << " x0=" << show(x0); });
        if (c.flip()) { s.setSystemRHVector(ids[bi]); s.setSystemLHVector(ids[xi]); } else { s.setSystemLHVector(ids[xi]); s.setSystemRHVector(ids[bi]); }
        s.solveSystem(); const VX x = gather(ids[xi]); VP_CHECK(gather(ids[bi]) == b_in, "the right-hand side is changed by the solver");
        if (bad) { VP_CHECK(x == x0, "the system was not factorized, yet the solution vector changed to ", show(x)); continue; }
        if constexpr (KIND < 3) VP_CHECK((ref * x - b).norm() <= 1e-10 * (ref.norm() * x.norm() + b.norm()), "A x - b = ", show(ref * x - b), " x=", show(x));
        else { // a solution that did not converge is not written back when the matrix is assembled
            const auto h = static_cast<SofaCaribou::solver::LinearSolver &>(*obj).squared_residuals(); const std::vector<double> hist(h.begin(), h.end()); const bool diverged = !hist.empty() && !(hist.back() < cg.tol * cg.tol * b.squaredNorm());
            VP_CHECK(vp::near(obj->squared_initial_residual(), b.squaredNorm(), 1e-12 * b.squaredNorm()), "squared norm of the right-hand side ", obj->squared_initial_residual());
            if (!none && diverged) { VP_CHECK(x == x0, "a solution that did not converge was written"); VP_CHECK((int) hist.size() == cg.max && (cg.max < 6 * dim + 40 || cg.method == "IncompleteLU"), "no convergence in ", hist.size(), " iterations of ", cg.max); } else check_cg(cg, ref, b, x0, x, hist, -1, cg.method != "IncompleteLU");
        }
        ++solves; c.nontrivial(dim > 3 && b.norm() > 0);
    }
}
#define SUB(N, T, K) const vp::Reg N##_api(#N " api", 1, api<T, K>), N##_scene(#N " scene", 1, scene<T, K>)
using ColMajor = Eigen::SparseMatrix<double, Eigen::ColMajor, int>; using RowMajor = Eigen::SparseMatrix<double, Eigen::RowMajor, int>;
#if VP_GROUP == 0
using S = SofaCaribou::solver::LDLTSolver<Eigen::SimplicialLDLT<ColMajor, Eigen::Lower, Eigen::AMDOrdering<int>>>; SUB(ldlt, S, 0);
#elif VP_GROUP == 1
using S = SofaCaribou::solver::LLTSolver<Eigen::SimplicialLLT<ColMajor, Eigen::Lower, Eigen::AMDOrdering<int>>>; SUB(llt, S, 1);
#elif VP_GROUP == 2
using S = SofaCaribou::solver::LUSolver<Eigen::SparseLU<ColMajor, Eigen::AMDOrdering<int>>>; SUB(lu, S, 2);
#else
struct S : SofaCaribou::solver::ConjugateGradientSolver<RowMajor> {}; SUB(cg, S, 3);
#endif
}
