// P35: the Python module SofaCaribou, imported in an embedded interpreter, against the components it gives access to.
// The binding sources of the repository are compiled into this program (under AddressSanitizer); SofaPython3 is replaced by the two headers of sofa_stub/SofaPython3.
#include <pybind11/embed.h>
#include <pybind11/eigen.h>
#include "sofa_scene.h"
#include <SofaPython3/PythonFactory.h>
namespace py = pybind11;
using namespace su;
namespace om = sofa::core::objectmodel;
extern "C" PyObject * PyInit_SofaCaribou();
struct Modules { py::object np, caribou; };
Modules & mod();
#if VP_GROUP == 0
PYBIND11_EMBEDDED_MODULE(Sofa, m) {
    py::class_<om::Base, sofapython3::py_shared_ptr<om::Base>>(m, "Base"); py::class_<om::BaseObject, om::Base, sofapython3::py_shared_ptr<om::BaseObject>>(m, "BaseObject");
}
Modules & mod() {
    static Modules * m = [] {
        setenv("OPENBLAS_NUM_THREADS", "1", 1); PyImport_AppendInittab("SofaCaribou", PyInit_SofaCaribou); py::initialize_interpreter(false); auto * r = new Modules; r->np = py::module_::import("numpy"); py::module_::import("scipy.sparse"); py::module_::import("Sofa"); r->caribou = py::module_::import("SofaCaribou"); return r;
    }();
    return *m;
}
#endif
namespace {
template <class F> void guarded(F && f) { try { f(); } catch (const py::error_already_set & e) { const std::string w = e.what(); vp::fail("unexpected Python exception: " + w); } catch (const py::cast_error & e) { vp::fail(std::string("unexpected conversion error: ") + e.what()); } }
template <class T> py::object wrap(T * o, const char * name) { mod(); py::object r = sofapython3::PythonFactory::toPython(o); VP_CHECK(!r.is_none(), name, " is not known to Python"); VP_CHECK(r.template cast<T *>() == o, "Python got another ", name); return r; }
MX dense(const py::object & o) { return (py::hasattr(o, "toarray") ? o.attr("toarray")() : o).cast<MX>(); }
void same(const MX & a, const MX & b, const char * what) { VP_CHECK(a.rows() == b.rows() && a.cols() == b.cols(), what, " is ", a.rows(), "x", a.cols(), " in Python and ", b.rows(), "x", b.cols(), " in C++"); for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) VP_CHECK(a(i, j) == b(i, j) || (std::isnan(a(i, j)) && std::isnan(b(i, j))), what, "(", i, ", ", j, ") is ", a(i, j), " in Python and ", b(i, j), " in C++"); }
void close(const MX & a, const MX & b, double tol, const char * what) { VP_CHECK(a.rows() == b.rows() && a.cols() == b.cols(), what, " is ", a.rows(), "x", a.cols(), " in Python and ", b.rows(), "x", b.cols(), " in C++"); if (a.size()) VP_CHECK((a - b).cwiseAbs().maxCoeff() <= tol, what, " is ", show(a), " in Python, expected ", show(b)); }
// the same array, in the ways a Python user would hold it
py::object give(vp::Ctx & c, const PX & x, const char * dtype) {
    auto & P = mod(); py::list rows; for (Eigen::Index i = 0; i < x.rows(); ++i) { py::list r; for (int j = 0; j < 3; ++j) r.append(x(i, j)); rows.append(r); }
    py::object a = P.np.attr("array")(rows, py::arg("dtype") = dtype); const auto k = c.draw(3); if (k == 1) return P.np.attr("asfortranarray")(a); if (k == 2) { py::object big = P.np.attr("full")(py::make_tuple(2 * x.rows(), 5), 77, py::arg("dtype") = dtype); py::object v = big[py::make_tuple(py::slice(0, 2 * x.rows(), 2), py::slice(1, 4, 1))]; v[py::ellipsis()] = a; return v; } return a;
}
}
#if VP_GROUP == 0
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Tetrahedron].h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Hexahedron].h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield.inl>
#include <SofaCaribou/Forcefield/HexahedronElasticForce.h>
namespace {
template <class E> void hyperelastic(vp::Ctx & c) {
    using FF = SofaCaribou::forcefield::HyperelasticForcefield<E>; auto m = ms::gen_mesh<E>(c, c.flip() ? .15 : 0, 1 + (int) c.draw(2), true); if (m.X.rows() > 30) c.discard(); const double h = smallest_edge<E>(m);
    // two scenes that are the same: one is driven from C++, the other one from Python
    om::New<Node> nodes[2] = {om::New<Node>("a"), om::New<Node>("b")}; sofa::core::sptr<FF> ff[2]; const double Y = std::pow(10., c.real(0, 6)), nu = c.real(-.2, .49); const bool nh = c.flip();
    std::vector<Topo<E>> topo(2);
    for (int k = 0; k < 2; ++k) { auto mo = nodes[k]->template stub_add<MO>(); set<Vec>(mo.get(), "rest_position", vec(m.X)); set<Vec>(mo.get(), "position", vec(m.X)); topo[(std::size_t) k].add(c, nodes[k].get(), m); om::BaseObject * mat = nh ? (om::BaseObject *) nodes[k]->template stub_add<SofaCaribou::material::NeoHookeanMaterial<Types>>().get() : nodes[k]->template stub_add<SofaCaribou::material::SaintVenantKirchhoffMaterial<Types>>().get(); set<double>(mat, "young_modulus", Y); set<double>(mat, "poisson_ratio", nu); ff[k] = nodes[k]->template stub_add<FF>(); nodes[k]->stub_init(); }
    c.note([&](auto & o) { o << (nh ? "NeoHookean" : "SaintVenantKirchhoff") << " E=" << Y << " nu=" << nu << " X=" << show(m.X) << " T=" << show(m.T); });
    guarded([&] {
        py::object o = wrap<FF>(ff[1].get(), "a hyperelastic force field"); MX K = MX(ff[0]->K()), before; const double tol = 1e-10 * K.cwiseAbs().maxCoeff(); py::object old; MX old_K; double scale = K.cwiseAbs().maxCoeff();
        close(dense(o.attr("K")()), K, tol, "K");
        for (int s = 1 + (int) c.draw(4); s > 0; --s) {
            const auto what = c.draw(4); c.note([&](auto & q) { q << " " << what; });
            if (what < 2) {
                PX x = deform(c, m, c.flip() ? .05 : .3, .03, h); const bool single = what == 1; if (single) x = x.cast<float>().cast<double>(); c.note([&](auto & q) { q << (single ? " float x=" : " x=") << show(x); });
                for (int e = 0; e < m.T.rows(); ++e) { NodeMat<E> p; for (int i = 0; i < NN<E>; ++i) p.row(i) = x.row((Eigen::Index) m.T(e, i)); const E el(p), el0(m.element(e)); for (const auto & q : el.gauss_nodes()) if (el.jacobian(q.position).determinant() / el0.jacobian(q.position).determinant() < .1) c.discard(); }
                if (single) { const Eigen::Matrix<float, Eigen::Dynamic, 3, Eigen::RowMajor> xf = x.cast<float>(); ff[0]->assemble_stiffness(xf); } else ff[0]->assemble_stiffness(x);
                o.attr("assemble_stiffness")(give(c, x, single ? "float32" : "float64")); K = MX(ff[0]->K()); scale = std::max(scale, K.cwiseAbs().maxCoeff()); c.label(single ? "single precision" : "double precision"); c.nontrivial();
            } else if (what == 2) { bool refused = false; py::object bad = mod().np.attr("ones")(py::make_tuple(m.X.rows(), 2)); try { o.attr("assemble_stiffness")(bad); } catch (py::error_already_set & e) { refused = e.matches(PyExc_TypeError); } VP_CHECK(refused, "positions with two coordinates are accepted"); }
            else { const VX ev = ff[0]->eigenvalues(); close(o.attr("eigenvalues")().template cast<MX>(), ev, 1e-8 * scale, "the vector of eigenvalues"); const double k = o.attr("cond")().template cast<double>(), r = ff[1]->cond(); VP_CHECK(k == r || (std::isnan(k) && std::isnan(r)), "the condition number is ", k, " in Python and ", r, " in C++"); c.label("eigenvalues"); }
            py::object got = o.attr("K")(); close(dense(got), K, 1e-10 * scale, "K"); same(dense(got), MX(ff[1]->K()), "K"); if (old) same(dense(old), old_K, "a matrix K got earlier"); if (c.flip()) { old = got; old_K = dense(got); }
        }
        if (c.flip()) { nodes[1].reset(); ff[1].reset(); close(dense(o.attr("K")()), K, 1e-10 * scale, "K of a force field that only Python holds"); c.label("held by Python"); }
    });
}
void corotational(vp::Ctx & c) {
    using E = HexL; using FF = SofaCaribou::forcefield::HexahedronElasticForce; auto m = ms::gen_mesh<E>(c, c.flip() ? .15 : 0, 1 + (int) c.draw(2), true); if (m.X.rows() > 30) c.discard(); const double h = smallest_edge<E>(m);
    om::New<Node> node("node"); auto mo = node->stub_add<MO>(); set<Vec>(mo.get(), "rest_position", vec(m.X)); set<Vec>(mo.get(), "position", vec(m.X)); using FA = sofa::type::fixed_array<unsigned, 8>; auto topo = node->stub_add<sofa::component::topology::HexahedronSetTopologyContainer>(); sofa::type::vector<FA> ind; for (int e = 0; e < m.T.rows(); ++e) { FA f; for (std::size_t i = 0; i < 8; ++i) f[i] = (unsigned) m.T(e, (int) i); ind.push_back(f); } set<sofa::type::vector<FA>>(topo.get(), "hexahedra", ind);
    auto ff = node->stub_add<FF>(); set<double>(ff.get(), "youngModulus", std::pow(10., c.real(0, 6))); set<double>(ff.get(), "poissonRatio", c.real(-.2, .49)); node->stub_init(); sofa::core::behavior::BaseForceField & base = *ff; sofa::core::MechanicalParams mp; c.note([&](auto & o) { o << "X=" << show(m.X) << " T=" << show(m.T); });
    guarded([&] {
        py::object o = wrap<FF>(ff.get(), "a hexahedral force field"); py::object old; MX old_K;
        for (int s = 1 + (int) c.draw(3); s > 0; --s) {
            if (c.flip()) { const PX x = deform(c, m, .2, .03, h); c.note([&](auto & q) { q << " x=" << show(x); }); mp.setX(sofa::core::VecCoordId::position()); mo->write(sofa::core::VecCoordId::position())->setValue(vec(x)); mo->write(sofa::core::VecDerivId::force())->setValue(vec(PX::Zero(x.rows(), 3))); base.addForce(&mp, sofa::core::VecDerivId::force()); c.nontrivial(); }
            for (int e = 0; e < m.T.rows(); ++e) {
                py::object g = o.attr("gauss_nodes_of")(e); const auto & ref = ff->gauss_nodes_of((std::size_t) e); VP_CHECK(py::len(g) == ref.size(), "element ", e, " has ", py::len(g), " Gauss nodes in Python and ", ref.size(), " in C++");
                for (std::size_t i = 0; i < ref.size(); ++i) { py::object q = g[py::int_(i)]; VP_CHECK(q.attr("weight").cast<double>() == ref[i].weight && q.attr("jacobian_determinant").cast<double>() == ref[i].jacobian_determinant, "weight ", q.attr("weight").cast<double>(), " and determinant ", q.attr("jacobian_determinant").cast<double>(), " of a Gauss node, expected ", ref[i].weight, " and ", ref[i].jacobian_determinant); same(q.attr("dN_dx").cast<MX>(), ref[i].dN_dx, "dN_dx"); same(q.attr("F").cast<MX>(), ref[i].F, "F"); }
                same(o.attr("stiffness_matrix_of")(py::arg("hexahedron_id") = e).cast<MX>(), ff->stiffness_matrix_of((std::size_t) e), "stiffness_matrix_of");
            }
            py::object K = o.attr("K")(); same(dense(K), MX(ff->K()), "K"); if (old) same(dense(old), old_K, "a matrix K got earlier"); old = K; old_K = dense(K);
            same(o.attr("eigenvalues")().cast<MX>(), ff->eigenvalues(), "the vector of eigenvalues"); const double k = o.attr("cond")().cast<double>(), r = ff->cond(); VP_CHECK(k == r || (std::isnan(k) && std::isnan(r)), "the condition number is ", k, " in Python and ", r, " in C++");
        }
        if (c.flip()) { py::object g = o.attr("gauss_nodes_of")(0); const double w = ff->gauss_nodes_of(0)[0].weight; o = py::object(); node.reset(); mo.reset(); topo.reset(); ff.reset(); VP_CHECK(g[py::int_(0)].attr("weight").cast<double>() == w, "a Gauss node got earlier changed"); c.label("held by Python"); }
    });
}
const vp::Reg r0("hyperelastic tetrahedra", 1, hyperelastic<TetL>), r1("hyperelastic hexahedra", 1, hyperelastic<HexL>), r2("corotational hexahedra", 1, corotational);
}
#elif VP_GROUP == 1
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Tetrahedron].h>
#include <SofaCaribou/Solver/ConjugateGradientSolver.h>
#include <SofaCaribou/Ode/StaticODESolver.h>
#include <SofaCaribou/Ode/LegacyStaticODESolver.h>
#include "ode_solvers.h"
namespace {
using E = TetL; using FF = SofaCaribou::forcefield::HyperelasticForcefield<E>; using CG = SofaCaribou::solver::ConjugateGradientSolver<Eigen::SparseMatrix<FLOATING_POINT_TYPE, Eigen::RowMajor, int>>;
struct Body { ms::M<E> m; om::New<Node> node{"node"}; sofa::core::sptr<MO> mo; sofa::core::sptr<FF> ff; Topo<E> topo; double h = 1; };
void body(vp::Ctx & c, Body & b) {
    b.m = ms::gen_mesh<E>(c, c.flip() ? .15 : 0, 1, true); if (b.m.X.rows() > 30) c.discard(); b.h = smallest_edge<E>(b.m);
    b.mo = b.node->stub_add<MO>(); set<Vec>(b.mo.get(), "rest_position", vec(b.m.X)); set<Vec>(b.mo.get(), "position", vec(b.m.X)); b.topo.add(c, b.node.get(), b.m); auto mat = b.node->stub_add<SofaCaribou::material::SaintVenantKirchhoffMaterial<Types>>(); set<double>(mat.get(), "young_modulus", std::pow(10., c.real(0, 4))); set<double>(mat.get(), "poisson_ratio", c.real(0, .45)); b.ff = b.node->stub_add<FF>(); if (c.flip()) set<double>(b.ff.get(), "rayleighStiffness", c.real(0, 1)); c.note([&](auto & o) { o << "X=" << show(b.m.X) << " T=" << show(b.m.T); });
}
void solver(vp::Ctx & c) {
    Body b; body(c, b); auto cg = b.node->stub_add<CG>(); b.node->stub_init();
    guarded([&] {
        py::object o = wrap<CG>(cg.get(), "a conjugate gradient solver"), old; MX old_A; VP_CHECK(cg->A() == nullptr || cg->A()->rowSize() == 0, "a solver that was given no system has a matrix"); if (c.flip()) VP_CHECK(dense(o.attr("A")()).size() == 0, "a solver that was given no system has a matrix in Python");
        for (int s = 1 + (int) c.draw(3); s > 0; --s) {
            const double m = c.real(-2, 2), d = c.real(-2, 2), k = c.real(-2, 2); const auto how = c.draw(4); c.note([&](auto & q) { q << " assemble " << how << " m=" << m << " b=" << d << " k=" << k; }); sofa::core::MechanicalParams mp; mp.setMFactor(how < 2 ? m : 1); mp.setBFactor(how == 0 || how == 1 ? d : 1); mp.setKFactor(how == 3 ? 1 : k);
            if (how == 0) o.attr("assemble")(m, d, k); else if (how == 1) o.attr("assemble")(py::arg("k") = k, py::arg("b") = d, py::arg("m") = m); else if (how == 2) o.attr("assemble")(py::arg("k") = k); else o.attr("assemble")();
            const MX A = dense(o.attr("A")()); cg->assemble(&mp); const MX ref = MX(cg->A()->matrix()); same(A, ref, "A"); same(dense(o.attr("A")()), ref, "A"); if (old) same(dense(old), old_A, "a matrix A got earlier"); old = o.attr("A")(); old_A = dense(old); c.nontrivial(A.cwiseAbs().maxCoeff() > 0);
        }
    });
}
std::vector<double> list(const py::object & o) { std::vector<double> r; for (auto x : o) r.push_back(py::reinterpret_borrow<py::object>(x).cast<double>()); return r; }
template <class A, class B> void same_list(const A & a, const B & b, const char * what) { VP_CHECK(a.size() == b.size(), what, " has ", a.size(), " values in Python and ", b.size(), " in C++"); for (std::size_t i = 0; i < a.size(); ++i) VP_CHECK(a[i] == (double) b[i] || (std::isnan(a[i]) && std::isnan((double) b[i])), what, "[", i, "] is ", a[i], " in Python and ", (double) b[i], " in C++"); }
template <class ODE, bool LEGACY> void ode(vp::Ctx & c) {
    Body b; body(c, b); auto s = b.node->template stub_add<ODE>(); auto cg = b.node->template stub_add<CG>(); set<unsigned>(cg.get(), "maximum_number_of_iterations", 30u); set<unsigned>(s.get(), "newton_iterations", (unsigned) c.draw(5)); b.node->stub_init(); sofa::core::behavior::OdeSolver & base = *s; sofa::core::MechanicalParams mp;
    guarded([&] {
        py::object o = wrap<ODE>(s.get(), "a static solver"), old;
        for (int k = 1 + (int) c.draw(3); k > 0; --k) {
            const PX x = deform(c, b.m, .1, .03, b.h); c.note([&](auto & q) { q << " x=" << show(x); }); b.mo->write(sofa::core::VecCoordId::position())->setValue(vec(x)); base.solve(&mp, .01, sofa::core::VecCoordId::position(), sofa::core::VecDerivId::velocity());
            same_list(list(o.attr("squared_residuals")), s->squared_residuals(), "squared_residuals"); same_list(list(o.attr("iteration_times")), s->iteration_times(), "iteration_times"); same_list(std::vector<double>{o.attr("squared_initial_residual").template cast<double>()}, std::vector<double>{s->squared_initial_residual()}, "squared_initial_residual"); c.nontrivial(!s->squared_residuals().empty());
            if constexpr (LEGACY) { same_list(list(o.attr("iterative_linear_solver_squared_rhs_norms")), s->iterative_linear_solver_squared_rhs_norms(), "iterative_linear_solver_squared_rhs_norms"); const auto & r = s->iterative_linear_solver_squared_residuals(); py::object p = o.attr("iterative_linear_solver_squared_residuals"); VP_CHECK(py::len(p) == r.size(), "iterative_linear_solver_squared_residuals has ", py::len(p), " lists in Python and ", r.size(), " in C++"); for (std::size_t i = 0; i < r.size(); ++i) same_list(list(p[py::int_(i)]), r[i], "iterative_linear_solver_squared_residuals"); }
            if (old) list(old); old = o.attr("squared_residuals"); // may follow the solver or not; but it stays valid
        }
        if (c.flip()) { o = py::object(); const auto r = s->squared_residuals(); s.reset(); b.node.reset(); same_list(list(old), r, "squared_residuals, of a solver that only Python holds,"); c.label("held by Python"); }
    });
}
const vp::Reg r3("conjugate gradient", 1, solver), r4("static solver", 1, ode<SofaCaribou::ode::StaticODESolver, false>), r5("legacy static solver", 1, ode<SofaCaribou::ode::LegacyStaticODESolver, true>);
}
#elif VP_GROUP == 2
#include <SofaCaribou/Topology/FictitiousGrid.h>
#include <SofaCaribou/Topology/CircleIsoSurface.h>
#include <SofaCaribou/Topology/SphereIsoSurface.h>
namespace {
template <class T, class S> void fictitious(vp::Ctx & c) {
    constexpr int D = T::spatial_dimensions; using G = SofaCaribou::topology::FictitiousGrid<T>; using VI = typename G::SofaVecInt; using VF = typename G::SofaVecFloat; om::New<Node> node("node"); auto s = node->template stub_add<S>(); auto g = node->template stub_add<G>();
    guarded([&] {
        py::object o = wrap<G>(g.get(), "a fictitious grid");
        for (int k = 1 + (int) c.draw(2); k > 0; --k) {
            set<double>(s.get(), "radius", c.uniform(.3, 1.4)); VI n; VF lo, hi; typename T::Coord q; for (int d = 0; d < D; ++d) { n[d] = 2 + c.draw(D == 2 ? 5 : 3); lo[d] = c.uniform(-1.6, -.8); hi[d] = c.uniform(.8, 1.6); q[d] = c.uniform(-.2, .2); } set<typename T::Coord>(s.get(), "center", q); set<VI>(g.get(), "n", n); set<VF>(g.get(), "min", lo); set<VF>(g.get(), "max", hi); set<UNSIGNED_INTEGER_TYPE>(g.get(), "maximum_number_of_subdivision_levels", (UNSIGNED_INTEGER_TYPE) c.draw(3));
            c.note([&](auto & u) { u << " n=" << n[0] << "," << n[1]; }); g->init(); VP_CHECK(o.attr("number_of_cells")().template cast<std::size_t>() == g->number_of_cells() && o.attr("number_of_nodes")().template cast<std::size_t>() == g->number_of_nodes(), "the number of cells and nodes are ", o.attr("number_of_cells")().template cast<std::size_t>(), " and ", o.attr("number_of_nodes")().template cast<std::size_t>(), " in Python, ", g->number_of_cells(), " and ", g->number_of_nodes(), " in C++");
            if (py::hasattr(o, "number_of_subdivisions")) VP_CHECK(o.attr("number_of_subdivisions")().template cast<std::size_t>() == g->number_of_subdivisions(), "number of subdivisions"); c.nontrivial(g->number_of_cells() > 0);
            for (int t = 0; t < 2; ++t) { const auto dec = c.draw(5); const auto ref = g->cell_volume_ratio_distribution(dec); py::dict p = dec == 0 && c.flip() ? o.attr("cell_volume_ratio_distribution")() : c.flip() ? o.attr("cell_volume_ratio_distribution")(dec) : o.attr("cell_volume_ratio_distribution")(py::arg("number_of_decimals") = dec); VP_CHECK(p.size() == ref.size(), "the distribution has ", p.size(), " ratios in Python and ", ref.size(), " in C++"); auto it = ref.begin(); for (auto kv : p) { VP_CHECK(kv.first.template cast<double>() == it->first, "ratio ", kv.first.template cast<double>(), " expected ", it->first); std::size_t i = 0; VP_CHECK(py::len(kv.second) == it->second.size(), "number of cells of a ratio"); for (auto x : kv.second) { VP_CHECK(x.template cast<std::size_t>() == (std::size_t) it->second[i], "cell of a ratio"); ++i; } ++it; } }
        }
        if (c.flip()) { const auto n = g->number_of_cells(); node.reset(); g.reset(); s.reset(); VP_CHECK(o.attr("number_of_cells")().template cast<std::size_t>() == n, "number of cells of a grid that only Python holds"); c.label("held by Python"); }
    });
}
const vp::Reg r6("fictitious grid 2D", 1, fictitious<sofa::defaulttype::Vec2Types, SofaCaribou::topology::CircleIsoSurface>), r7("fictitious grid 3D", 1, fictitious<sofa::defaulttype::Vec3Types, SofaCaribou::topology::SphereIsoSurface>);
}
#else
#include <SofaCaribou/Topology/CaribouTopology[Triangle].h>
#include <SofaCaribou/Topology/CaribouTopology[Quad].h>
#include <Caribou/Python/Topology/Domain.h>
namespace {
// the classes of the domains are those of the module Caribou.Topology
template <class E> void declare() { static const bool once = [] { mod(); py::module_ m = py::module_::import("Sofa"); caribou::topology::bindings::declare_domain<E, unsigned>(m, "Domain" + std::to_string(NN<E>) + "_" + std::to_string(DIM<E>)); return true; }(); (void) once; }
template <class E> void topology(vp::Ctx & c) {
    using CT = SofaCaribou::topology::CaribouTopology<E>; using T = typename CT::DataTypes; using FA = sofa::type::fixed_array<unsigned, NN<E>>; declare<E>(); om::New<Node> node("node"); auto t = node->template stub_add<CT>(); const int n = NN<E> + (int) c.draw(6);
    guarded([&] {
        py::object o = wrap<CT>(t.get(), "a topology"); VP_CHECK(o.attr("domain")().is_none(), "a topology that holds nothing has a domain");
        for (int k = 1 + (int) c.draw(2); k > 0; --k) {
            typename T::VecCoord P; for (int i = 0; i < n; ++i) { typename T::Coord x; for (int d = 0; d < DIM<E>; ++d) x[d] = c.uniform(-5, 5); P.push_back(x); } sofa::type::vector<FA> ind; const int ne = 1 + (int) c.draw(5); for (int e = 0; e < ne; ++e) { FA f; for (std::size_t i = 0; i < NN<E>; ++i) f[i] = (unsigned) c.draw((uint64_t) n); ind.push_back(f); }
            set<typename T::VecCoord>(t.get(), "position", P); set<sofa::type::vector<FA>>(t.get(), "indices", ind); t->init(); py::object d = o.attr("domain")(), d2 = o.attr("domain")(); VP_CHECK(!d.is_none() && d.template cast<typename CT::Domain *>() == t->domain(), "Python got another domain"); VP_CHECK(d.attr("number_of_elements")().template cast<int>() == ne, "number of elements in Python"); c.nontrivial();
            for (int e = 0; e < ne; ++e) { const MX i = d.attr("element_indices")(e).template cast<MX>(); VP_CHECK(i.size() == (Eigen::Index) NN<E>, "number of nodes of an element"); for (std::size_t j = 0; j < NN<E>; ++j) VP_CHECK(i(j) == ind[(std::size_t) e][j], "node ", j, " of element ", e, " is ", i(j), " in Python, expected ", ind[(std::size_t) e][j]); }
            d = py::object(); d2 = py::object(); VP_CHECK((int) t->number_of_elements() == ne && t->domain()->element_indices(0)[0] == ind[0][0], "the topology changed");
        }
    });
}
#define T_(E) vp::Reg("topology " #E, 1, topology<E>)
const vp::Reg all[] = {T_(Tri2L), T_(Tri2Q), T_(Tri3L), T_(Tri3Q), T_(Quad2L), T_(Quad2Q), T_(Quad3L), T_(Quad3Q), T_(TetL), T_(TetQ), T_(HexL), T_(HexQ)};
}
#endif
