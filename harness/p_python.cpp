// P23, P24: the Python modules Caribou.Geometry and Caribou.Topology against the C++ library, inside an embedded interpreter.
// The binding sources of the repository are compiled into this program (under AddressSanitizer) and imported as built-in modules.
#include <pybind11/embed.h>
#include <pybind11/eigen.h>
#include <pybind11/stl.h>
#include "meshes.h"
#include "grids.h"
#include <Caribou/Topology/HashGrid.h>
extern "C" PyObject * PyInit_Caribou(); extern "C" PyObject * PyInit_Geometry(); 
#if VP_GROUP == 1
extern "C" PyObject * PyInit_Topology();
#endif
namespace py = pybind11;
using namespace el;
namespace {
using MX = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>;
struct Modules { py::object np, caribou, geometry, topology; };
Modules & mod() {
    static Modules * m = [] {
        setenv("OPENBLAS_NUM_THREADS", "1", 1); PyImport_AppendInittab("Caribou", PyInit_Caribou); PyImport_AppendInittab("Geometry", PyInit_Geometry); 
#if VP_GROUP == 1
        PyImport_AppendInittab("Topology", PyInit_Topology);
#endif
        py::initialize_interpreter(false); auto * r = new Modules; r->np = py::module_::import("numpy"); r->caribou = py::module_::import("Caribou"); r->geometry = py::module_::import("Geometry"); 
#if VP_GROUP == 1
        r->topology = py::module_::import("Topology");
#endif
        return r;
    }();
    return *m;
}
template <class F> void guarded(F && f) { try { f(); } catch (const py::error_already_set & e) { const std::string w = e.what(); vp::fail("unexpected Python exception: " + w); } catch (const py::cast_error & e) { vp::fail(std::string("unexpected type returned to Python: ") + e.what()); } }
MX as_matrix(const py::handle & o, Eigen::Index rows, Eigen::Index cols, const char * what) { // numpy returns 1 x n and n x 1 matrices as vectors
    const MX m = o.cast<MX>(); if (m.rows() == rows && m.cols() == cols) return m;
    VP_CHECK((rows == 1 || cols == 1) && m.size() == rows * cols, what, " has shape ", m.rows(), "x", m.cols(), " expected ", rows, "x", cols);
    return Eigen::Map<const MX>(m.data(), rows, cols);
}
template <class A, class B> void same(const py::handle & o, const Eigen::MatrixBase<A> & expect, const char * what, const B & at, double tiny = 1e-300) { const MX m = as_matrix(o, expect.rows(), expect.cols(), what); const MX x = expect; const double mag = x.size() ? x.cwiseAbs().maxCoeff() : 0; VP_CHECK(x.size() == 0 || (m - x).cwiseAbs().maxCoeff() <= 1e-11 * mag + tiny, what, " is ", show(m), " expected ", show(expect), " ", at); }
std::vector<py::object> list_of(const py::object & o) { std::vector<py::object> r; for (auto h : o) r.push_back(py::reinterpret_borrow<py::object>(h)); return r; }
// the same matrix, handed over in the various ways a Python user would
template <class M> py::object give(vp::Ctx & c, const Eigen::MatrixBase<M> & m, std::ostringstream & how) {
    auto & P = mod(); const auto k = c.draw(5); how << " form" << k;
    py::list rows; for (Eigen::Index i = 0; i < m.rows(); ++i) { py::list r; for (Eigen::Index j = 0; j < m.cols(); ++j) r.append(m(i, j)); rows.append(r); }
    if (k == 0 && m.rows() > 0) return rows;
    py::object a = P.np.attr("array")(rows).attr("reshape")(m.rows(), m.cols());
    if (k == 2) return P.np.attr("asfortranarray")(a);
    if (k == 3) { py::object big = P.np.attr("full")(py::make_tuple(2 * m.rows() + 1, 3 * m.cols() + 1), 77, a.attr("dtype")); py::object v = big[py::make_tuple(py::slice(1, 2 * m.rows() + 1, 2), py::slice(0, 3 * m.cols(), 3))]; v[py::ellipsis()] = a; return v; } // strided view
    if (k == 4) { py::object r = P.np.attr("ascontiguousarray")(a[py::make_tuple(py::slice(py::none(), py::none(), py::int_(-1)), py::slice(py::none(), py::none(), py::none()))]); return r[py::make_tuple(py::slice(py::none(), py::none(), py::int_(-1)), py::slice(py::none(), py::none(), py::none()))]; } // negative stride
    return a;
}
template <class V> py::object give_vec(vp::Ctx & c, const V & v) {
    py::list l; for (Eigen::Index i = 0; i < (Eigen::Index) v.size(); ++i) l.append(v[i]); const auto k = c.draw(3); if (k == 0) return l; if (k == 1) return py::tuple(l); return mod().np.attr("array")(l);
}
py::object order_of(int o) { return mod().caribou.attr("Order").attr(o == 1 ? "Linear" : "Quadratic"); }
py::object dimension_of(int d) { return mod().caribou.attr("Dimension").attr(d == 1 ? "_1D" : d == 2 ? "_2D" : "_3D"); }
template <class E> std::string factory() { switch (Info<E>::kind) { case SEG: return "Segment"; case TRI: return "Triangle"; case QUAD: return "Quad"; case TET: return "Tetrahedron"; default: return Info<E>::rect ? "RectangularHexahedron" : "Hexahedron"; } }
template <class E> py::object type_of() { std::string n = factory<E>(); if (Info<E>::kind == SEG || Info<E>::kind == TRI || Info<E>::kind == QUAD) n += std::to_string(DIM<E>) + "D"; return mod().geometry.attr((n + (Info<E>::order == 1 ? "Linear" : "Quadratic")).c_str()); }
template <class E> py::object instance() { py::list l; if (Info<E>::kind == SEG || Info<E>::kind == TRI || Info<E>::kind == QUAD) l.append(dimension_of(DIM<E>)); l.append(order_of(Info<E>::order)); return mod().geometry.attr(factory<E>().c_str())(*l); }
template <class E> struct Linear_ { using type = E; };
template <> struct Linear_<Tri2Q> { using type = Tri2L; }; template <> struct Linear_<Tri3Q> { using type = Tri3L; }; template <> struct Linear_<Quad2Q> { using type = Quad2L; }; template <> struct Linear_<Quad3Q> { using type = Quad3L; };
template <> struct Linear_<TetQ> { using type = TetL; }; template <> struct Linear_<HexQ> { using type = HexL; }; template <> struct Linear_<RHexQ> { using type = RHexL; };
#if VP_GROUP == 0 // ------------------------------------------------------------------------------- geometry
// everything a Python element answers, against the C++ element
template <class E> void compare(vp::Ctx & c, const py::object & p, const E & e, bool exact, const std::string & at) {
    VP_CHECK(py::isinstance(p, type_of<E>()), "an element of type ", py::str(p.get_type()).template cast<std::string>(), " was built, expected ", Info<E>::name(), at);
    const double sc = e.nodes().norm(); auto close = [&](const py::handle & o, const MX & x, const char * what) { const MX m = as_matrix(o, x.rows(), x.cols(), what); VP_CHECK((m - x).norm() <= 1e-12 * (sc + x.norm()), what, " is ", show(m), " expected ", show(x), at); };
    VP_CHECK(p.attr("number_of_nodes")().template cast<int>() == NN<E> && p.attr("number_of_gauss_nodes")().template cast<int>() == (int) e.number_of_gauss_nodes() && p.attr("number_of_boundary_elements")().template cast<int>() == (int) e.number_of_boundary_elements(), "numbers of nodes, integration points or boundary elements", at);
    if (exact) same(p.attr("nodes")(), e.nodes(), "nodes", at); else close(p.attr("nodes")(), e.nodes(), "nodes"); const int n = (int) c.draw(NN<E>); close(p.attr("node")(n), e.node(n), "node"); close(p.attr("center")(), e.center(), "center");
    const Local<E> xi = gen_local<E>(c, c.flip() ? 0 : 2); const auto px = give_vec(c, xi);
    same(p.attr("L")(px), e.L(xi), "L", at, 1e-13); same(p.attr("dL")(px), e.dL(xi), "dL", at, 1e-13);
    close(p.attr("world_coordinates")(px), e.world_coordinates(xi), "world_coordinates"); close(p.attr("jacobian")(px), e.jacobian(xi), "jacobian");
    const double eps = std::pow(10., c.real(-12, 0)); Local<E> near = xi; if (c.flip()) near[(int) c.draw(CDIM<E>)] = (c.flip() ? 1 : -1) * (1 + c.real(-2, 2) * eps);
    if (e.contains_local(near, eps * .999 - 1e-14) == e.contains_local(near, eps * 1.001 + 1e-14)) VP_CHECK(p.attr("contains_local")(give_vec(c, near), eps).template cast<bool>() == e.contains_local(near, eps), "contains_local(", show(near), ",", eps, ")", at);
    const auto g = list_of(p.attr("gauss_nodes")()); VP_CHECK(g.size() == e.number_of_gauss_nodes(), "number of integration points", at);
    for (std::size_t i = 0; i < g.size(); ++i) { same(g[i].attr("position"), e.gauss_node(i).position, "integration point", at, 1e-13); VP_CHECK(vp::near(g[i].attr("weight").template cast<double>(), e.gauss_node(i).weight, 1e-13), "integration weight", at); }
    if (!g.empty()) { const auto i = c.draw(g.size()); const auto q = p.attr("gauss_node")(i); same(q.attr("position"), e.gauss_node(i).position, "gauss_node", at, 1e-13); VP_CHECK(vp::near(q.attr("weight").template cast<double>(), e.gauss_node(i).weight, 1e-13), "gauss_node weight", at); }
    if (exact) { const Local<E> in = gen_local<E>(c); const World<E> w = e.world_coordinates(in); const Local<E> back = e.local_coordinates(w); if ((back - in).norm() < 1e-5) same(p.attr("local_coordinates")(give_vec(c, w)), back, "local_coordinates", at, Info<E>::rect ? 1e-6 : 1e-9); }
    const std::string s = py::str(p); VP_CHECK(!s.empty(), "__str__", at);
}
// what an element returned stays valid when the element is gone
template <class E> void released(py::object p) { const MX X = as_matrix(p.attr("nodes")(), NN<E>, DIM<E>, "nodes"); const py::object nodes = p.attr("nodes")(), node = p.attr("node")(0), center = p.attr("center")(); const MX C = as_matrix(center, DIM<E>, 1, "center"); const auto g = list_of(p.attr("gauss_nodes")()); p = py::none(); mod().np.attr("full")(py::make_tuple(NN<E>, DIM<E>), 77.); same(nodes, X, "nodes of a released element", ""); same(node, X.row(0).transpose(), "node of a released element", ""); same(center, C, "center of a released element", ""); for (auto & q : g) VP_CHECK(std::fabs(q.attr("weight").template cast<double>()) < 100, "integration point of a released element"); }
template <class E> void element(vp::Ctx & c) {
    guarded([&] {
        auto & P = mod(); const py::object make = P.geometry.attr(factory<E>().c_str()); constexpr int D = DIM<E>, N = NN<E>; constexpr Kind K = Info<E>::kind; constexpr bool planar = K == SEG || K == TRI || K == QUAD;
        std::ostringstream how; how << " |"; const auto k = c.draw(Info<E>::rect ? 6 : 5); Shape sh;
        if (k == 0) { // default element
            py::object p; const bool lin = Info<E>::order == 1; const int dd = K == SEG ? 1 : 2;
            if (planar) { if (lin && D == dd && c.flip()) p = make(); else if (lin && c.flip()) p = c.flip() ? make(dimension_of(D)) : make(py::arg("dimension") = dimension_of(D)); else if (D == dd && c.flip()) p = c.flip() ? make(order_of(Info<E>::order)) : make(py::arg("order") = order_of(Info<E>::order)); else p = make(dimension_of(D), order_of(Info<E>::order)); }
            else p = lin && c.flip() ? make() : make(order_of(Info<E>::order));
            c.note([&](auto & o) { o << Info<E>::name() << " default"; }); compare<E>(c, p, E(), true, " | default element"); return;
        }
        c.nontrivial(); const E e = gen_element<E>(c, .3, sh); const MX X = e.nodes();
        if (k <= 2) { // a matrix of nodes, or one argument per node
            py::object p; if (k == 1) { const auto a = give(c, X, how); p = c.flip() ? make(a) : make(py::arg("nodes") = a); how << " matrix"; }
            else { py::list l; for (int i = 0; i < N; ++i) { if (D == 1) l.append(X(i, 0)); else { const Eigen::VectorXd r = X.row(i); l.append(give_vec(c, r)); } } p = make(*l); how << " nodes"; }
            c.note([&](auto & o) { o << Info<E>::name() << how.str() << " X=" << show(X); });
            compare<E>(c, p, [&] { if constexpr (Info<E>::rect) return e; else return E(NodeMat<E>(X)); }(), !Info<E>::rect, how.str()); released<E>(std::move(p));
        } else if (k <= 4) { // from the corners and an order
            using L = typename Linear_<E>::type;
            if constexpr (K == SEG) { c.discard(); } else {
                const Eigen::Matrix<double, NN<L>, D> C = X.topRows(NN<L>); py::object p; const auto o = order_of(Info<E>::order);
                if (k == 3) { const auto a = give(c, C, how); p = c.flip() ? make(a, o) : make(py::arg("nodes") = a, py::arg("order") = o); }
                else { py::list l; for (int i = 0; i < NN<L>; ++i) { const Eigen::VectorXd r = C.row(i); l.append(give_vec(c, r)); } p = c.flip() ? make(*l, py::arg("order") = o) : make(*l, o); }
                how << " corners and order"; c.note([&](auto & os) { os << Info<E>::name() << how.str() << " X=" << show(C); });
                if constexpr (Info<E>::rect) compare<E>(c, p, e, false, how.str()); else compare<E>(c, p, E(L(C)), true, how.str());
            }
        } else if constexpr (Info<E>::rect) { // centre, size, rotation
            const auto o = order_of(Info<E>::order); const int n = 1 + (int) c.draw(3); const auto ctr = give_vec(c, e.center()), sz = give_vec(c, e.size()); const auto rot = give(c, e.rotation(), how); how << " centre" << n;
            c.note([&](auto & os) { os << Info<E>::name() << how.str() << " center=" << show(e.center()) << " size=" << show(e.size()) << " R=" << show(e.rotation()); });
            if (n == 1) compare<E>(c, make(o, ctr), E(e.center()), true, how.str()); else if (n == 2) compare<E>(c, make(o, ctr, sz), E(e.center(), e.size()), true, how.str());
            else compare<E>(c, c.flip() ? make(o, ctr, sz, rot) : make(py::arg("order") = o, py::arg("center") = ctr, py::arg("size") = sz, py::arg("rotation") = rot), E(e.center(), e.size(), e.rotation()), true, how.str());
        }
    });
}
using All = List<Seg1L, Seg1Q, Seg2L, Seg2Q, Seg3L, Seg3Q, Tri2L, Tri2Q, Tri3L, Tri3Q, Quad2L, Quad2Q, Quad3L, Quad3Q, TetL, TetQ, HexL, HexQ, RHexL, RHexQ>;
const bool reg = [] { mod(); for_each_type(All{}, [](auto * p) { using E = std::remove_pointer_t<decltype(p)>; vp::Reg(std::string("element/") + Info<E>::name(), 1, element<E>); }); return true; }();
#endif
#if VP_GROUP == 1 // ------------------------------------------------------------------------------- topology
using namespace caribou::topology;
using uint = unsigned int; using ull = unsigned long long;
const bool up = (mod(), true);
template <class E> void domain(vp::Ctx & c) {
    guarded([&] {
        constexpr int D = DIM<E>, N = NN<E>; auto & P = mod(); std::ostringstream how; how << " |";
        const int nn = 1 + (int) c.draw(12); MX X(nn, D); for (int i = 0; i < nn; ++i) for (int d = 0; d < D; ++d) X(i, d) = c.real(-5, 5);
        const auto px = give(c, X, how); py::object mesh = c.flip() ? P.topology.attr("Mesh")(px) : P.topology.attr("Mesh")(py::arg("nodes") = px);
        VP_CHECK(mesh.attr("dimension")().cast<int>() == D && mesh.attr("number_of_nodes")().cast<int>() == nn && mesh.attr("number_of_domains")().cast<int>() == 0, "mesh of ", nn, " nodes of dimension ", D);
        for (int i = 0; i < nn; ++i) same(mesh.attr("position")(i), X.row(i), "position", how.str());
        { py::list ids; const int n = (int) c.draw(5); MX Y(n, D); for (int i = 0; i < n; ++i) { const int j = (int) c.draw((uint64_t) nn); ids.append(j); Y.row(i) = X.row(j); } if (n) same(mesh.attr("positions")(c.flip() ? py::object(ids) : mod().np.attr("array")(ids, py::arg("dtype") = c.flip() ? "int64" : "int32")), Y, "positions", how.str()); }
        const int nd = 1 + (int) c.draw(3); std::vector<py::object> ds; std::vector<Eigen::MatrixXi> T; std::vector<std::string> names;
        for (int q = 0; q < nd; ++q) {
            const int ne = 1 + (int) c.draw(4); Eigen::MatrixXi t(ne, N); for (int i = 0; i < ne; ++i) for (int j = 0; j < N; ++j) t(i, j) = (int) c.draw((uint64_t) nn);
            py::object idx = give(c, t, how); static const char * types[] = {"uint32", "int64", "int32", "uint64"}; if (!py::isinstance<py::list>(idx) && c.flip()) idx = idx.attr("astype")(types[c.draw(4)]);
            const py::object ref = instance<E>();
            const bool named = c.flip(); std::string name = "domain " + std::to_string(q);
            py::object d = named ? (c.flip() ? mesh.attr("add_domain")(name, ref, idx) : mesh.attr("add_domain")(py::arg("domain_name") = name, py::arg("element_type") = ref, py::arg("node_indices") = idx)) : mesh.attr("add_domain")(ref, idx);
            if (!py::isinstance<py::list>(idx)) idx[py::ellipsis()] = 0;
            ds.push_back(d); T.push_back(t); names.push_back(named ? name : "");
        }
        c.nontrivial(); c.note([&](auto & o) { o << Info<E>::name() << how.str() << " X=" << show(X); for (auto & t : T) o << " T=" << show(t); });
        const auto listed = list_of(mesh.attr("domains")()); VP_CHECK((int) listed.size() == nd && mesh.attr("number_of_domains")().cast<int>() == nd, "number of domains");
        for (int q = 0; q < nd; ++q) {
            const auto & d = ds[q]; const auto & t = T[q];
            const auto pair = list_of(listed[q]); if (!names[q].empty()) { VP_CHECK(pair[0].cast<std::string>() == names[q], "name of domain ", q); VP_CHECK(mesh.attr("domain")(names[q]).is(d), "domain by name"); }
            VP_CHECK(pair[1].is(d) && mesh.attr("domain")(q).is(d), "domain ", q, " by index"); VP_CHECK(d.attr("mesh")().is(mesh), "mesh of a domain");
            VP_CHECK(d.attr("canonical_dimension")().cast<int>() == CDIM<E> && d.attr("number_of_nodes_per_elements")().cast<int>() == N && d.attr("number_of_elements")().cast<int>() == (int) t.rows(), "size of domain ", q, how.str());
            for (int i = 0; i < t.rows(); ++i) {
                const MX ids = as_matrix(d.attr("element_indices")(i), N, 1, "element_indices"); for (int j = 0; j < N; ++j) VP_CHECK(ids(j, 0) == t(i, j), "node ", j, " of element ", i, " is ", ids(j, 0), " expected ", t(i, j), how.str());
                const py::object e = d.attr("element")(i); VP_CHECK(py::isinstance(e, type_of<E>()), "type of the elements"); MX Y(N, D); for (int j = 0; j < N; ++j) Y.row(j) = X.row(t(i, j)); same(e.attr("nodes")(), Y, "nodes of an element", how.str());
            }
        }
        { Eigen::MatrixXi bad = Eigen::MatrixXi::Zero(2, N + (c.flip() ? 1 : -1)); bool refused = false; if (bad.cols() > 1) { try { mesh.attr("add_domain")("bad", instance<E>(), give(c, bad, how)); } catch (const py::error_already_set &) { refused = true; PyErr_Clear(); } VP_CHECK(refused && mesh.attr("number_of_domains")().cast<int>() == nd, "elements of ", bad.cols(), " nodes accepted"); } }
        // a domain stays usable for as long as the program holds it, whichever way it was obtained and whatever happens to the mesh object
        const int q = (int) c.draw((uint64_t) nd); const auto via = c.draw(4); const auto t = T[(std::size_t) q]; const std::string name = names[(std::size_t) q]; py::object kept;
        if (via == 0) kept = ds[(std::size_t) q]; ds.clear();
        { auto l = std::move(const_cast<std::vector<py::object> &>(listed)); l.clear(); }
        if (via == 1 && !name.empty()) kept = mesh.attr("domain")(name); else if (via == 2) kept = py::reinterpret_borrow<py::object>(list_of(list_of(mesh.attr("domains")())[(std::size_t) q])[1]); else if (!kept) kept = mesh.attr("domain")(q);
        mesh = py::none(); c.label("mesh released");
        for (int i = 0; i < t.rows(); ++i) { const MX ids = as_matrix(kept.attr("element_indices")(i), N, 1, "element_indices"); for (int j = 0; j < N; ++j) VP_CHECK(ids(j, 0) == t(i, j), "node ", j, " of element ", i, " after the mesh was released"); MX Y(N, D); for (int j = 0; j < N; ++j) Y.row(j) = X.row(t(i, j)); same(kept.attr("element")(i).attr("nodes")(), Y, "nodes of an element after the mesh was released", how.str()); }
        VP_CHECK(kept.attr("mesh")().attr("number_of_nodes")().cast<int>() == nn, "mesh of a domain that is still in use");
    });
}
template <class E> void embed(vp::Ctx & c) {
    guarded([&] {
        constexpr int D = DIM<E>; auto & P = mod(); std::ostringstream how; how << " |"; const auto m = ms::gen_mesh<E>(c, c.flip() ? 0 : .15, D == 3 ? 2 : 3, true); const int n = 1 + (int) c.draw(5); MX Q(n, D);
        for (int i = 0; i < n; ++i) { World<E> w; if (c.draw(4) == 3) { Eigen::Matrix<double, D, 1> u; for (int d = 0; d < D; ++d) u[d] = c.uniform(-.5, m.n[d] + .5); w = m.A * u + m.t; } else w = oracle_map<E>(m.element((int) c.draw((uint64_t) m.T.rows())), ms::shrink<E>(gen_local<E>(c), .99)); Q.row(i) = w.transpose(); }
        const int cols = 1 + (int) c.draw(4); MX F(m.X.rows(), cols); for (int i = 0; i < F.rows(); ++i) for (int j = 0; j < cols; ++j) F(i, j) = c.real(-3, 3);
        using MeshT = Mesh<D, EigenNodesHolder<Eigen::Matrix<double, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)>>>;
        MeshT mesh(m.X); Eigen::Matrix<uint, Eigen::Dynamic, NN<E>, Eigen::RowMajor> T = m.T.template cast<uint>(); const auto * d = mesh.template add_domain<E, uint>(std::string("c"), T); const auto ct = d->embed(Q);
        const auto px = give(c, MX(m.X), how); py::object pm = P.topology.attr("Mesh")(px); const Eigen::MatrixXi Ti = m.T.template cast<int>(); py::object pd = pm.attr("add_domain")("c", instance<E>(), give(c, Ti, how)); py::object pc = pd.attr("embed")(give(c, Q, how)); py::object pd2 = pd; const auto pq = give(c, Q, how); auto pd_embed = [&]() -> py::object { auto r = pd2.attr("embed")(pq); pd2 = py::none(); return r; };
        if (c.flip()) { pm = py::none(); pd = py::none(); how << " mesh released"; }
        c.nontrivial(); c.note([&](auto & o) { o << Info<E>::name() << how.str() << " X=" << show(m.X) << " T=" << show(Ti) << " Q=" << show(Q) << " F=" << show(F); });
        const auto bp = list_of(pc.attr("barycentric_points")); VP_CHECK((int) bp.size() == n, "number of embedded points");
        for (int i = 0; i < n; ++i) { VP_CHECK(bp[i].attr("element_index").template cast<long long>() == ct.barycentric_points()[i].element_index, "element of point ", i, how.str()); if (ct.barycentric_points()[i].element_index >= 0) same(bp[i].attr("local_coordinates"), ct.barycentric_points()[i].local_coordinates, "local coordinates", how.str(), 1e-9); }
        { const auto kept = list_of(pc.attr("barycentric_points")); auto other = pd_embed(); const auto far = list_of(other.attr("barycentric_points")); other = py::none(); for (int i = 0; i < n; ++i) VP_CHECK(far[i].attr("element_index").template cast<long long>() == kept[i].attr("element_index").template cast<long long>(), "element of point ", i, " after the embedding was released", how.str()); }
        const auto out = pc.attr("outside_nodes").template cast<std::vector<ull>>(); VP_CHECK(std::equal(out.begin(), out.end(), ct.outside_nodes().begin(), ct.outside_nodes().end()), "outside nodes");
        MX R(n, cols); const MX G = as_matrix(pc.attr("interpolate")(give(c, F, how)), n, cols, "interpolate");
        for (int i = 0; i < n; ++i) if (ct.barycentric_points()[i].element_index >= 0) for (int j = 0; j < cols; ++j) { const auto ei = ct.barycentric_points()[i].element_index; const Local<E> xi = as_matrix(bp[i].attr("local_coordinates"), CDIM<E>, 1, "local_coordinates"); const auto L = E().L(xi); R(i, j) = 0; for (int a = 0; a < NN<E>; ++a) R(i, j) += L[a] * F(m.T(ei, a), j); VP_CHECK(vp::near(G(i, j), R(i, j), 1e-9), "value ", j, " at point ", i, " is ", G(i, j), " expected ", R(i, j), how.str()); }
        for (int i = 0; i < n; ++i) { const Eigen::VectorXd q = Q.row(i); const auto a = list_of(pc.attr("closest_elements")(give_vec(c, q))); World<E> w = Q.row(i).transpose(); const auto b = ct.closest_elements(w); VP_CHECK(a.size() == b.size(), "closest elements of point ", i); for (std::size_t k = 0; k < b.size(); ++k) VP_CHECK(a[k].attr("element_index").template cast<long long>() == b[k].element_index, "closest element of point ", i); }
    });
}
template <size_t D> void grid(vp::Ctx & c) {
    guarded([&] {
        auto & P = mod(); const auto s = gr::gen<D>(c, 6, c.flip()); const auto g = gr::make<D>(s); using G = Grid<D>; const auto & b = gr::base<D>(g);
        py::object p = P.topology.attr(D == 2 ? "Grid2D" : "Grid3D")(give_vec(c, s.anchor), give_vec(c, s.n), give_vec(c, s.size)); c.note([&](auto & o) { o << gr::show(s); }); c.nontrivial();
        VP_CHECK(p.attr("number_of_cells")().template cast<ull>() == g.number_of_cells() && p.attr("number_of_nodes")().template cast<ull>() == g.number_of_nodes() && p.attr("number_of_edges")().template cast<ull>() == g.number_of_edges(), "numbers of cells, nodes and edges");
        same(p.attr("anchor_position")(), s.anchor, "anchor", ""); same(p.attr("size")(), g.size(), "size", ""); same(p.attr("H")(), g.H(), "H", ""); same(p.attr("N")(), g.N().template cast<double>(), "N", "");
        auto ids = [&](const py::object & o) { return o.template cast<std::vector<long long>>(); }; auto vec = [](const auto & v) { std::vector<long long> r; for (auto x : v) r.push_back((long long) x); return r; };
        const ull ci = c.draw(g.number_of_cells()), ni = c.draw(g.number_of_nodes()), ei = c.draw(g.number_of_edges());
        same(p.attr("node")(ni), g.node(ni), "node by index", ""); const auto nc = g.node_coordinates_at(ni); same(p.attr("node_coordinates_at")(ni), nc.template cast<double>(), "node_coordinates_at", ""); VP_CHECK(p.attr("node_index_at")(give_vec(c, nc)).template cast<ull>() == ni, "node_index_at");
        same(p.attr("node")(give_vec(c, nc)), g.node(ni), "node by coordinates", "");
        const auto cc = g.cell_coordinates_at(ci); same(p.attr("cell_coordinates_at")(ci), cc.template cast<double>(), "cell_coordinates_at", ""); VP_CHECK(p.attr("cell_index_at")(give_vec(c, cc)).template cast<ull>() == ci, "cell_index_at");
        VP_CHECK(ids(p.attr("node_indices_of")(ci)) == vec(g.node_indices_of(ci)) && ids(p.attr("node_indices_of")(give_vec(c, cc))) == vec(g.node_indices_of(ci)), "node_indices_of"); VP_CHECK(ids(p.attr("edge")(ei)) == vec(g.edge(ei)), "edge");
        if constexpr (D == 3) { VP_CHECK(p.attr("number_of_faces")().template cast<ull>() == g.number_of_faces(), "number of faces"); const ull fi = c.draw(g.number_of_faces()); VP_CHECK(ids(p.attr("face")(fi)) == vec(g.face(fi)), "face");
            const auto cell = g.cell_at(ci); for (auto & q : {p.attr("cell_at")(ci), p.attr("cell_at")(give_vec(c, cc))}) { same(q.attr("nodes")(), cell.nodes(), "cell_at", ""); } }
        typename G::WorldCoordinates w; for (size_t d = 0; d < D; ++d) w[d] = s.anchor[d] + (c.flip() ? double(c.draw((uint64_t) s.n[d] + 1)) / double(s.n[d]) : c.real(-.3, 1.3)) * s.size[d]; const auto pw = give_vec(c, w);
        VP_CHECK(ids(p.attr("cells_around")(pw)) == vec(g.cells_around(w)), "cells_around"); VP_CHECK(p.attr("contains")(pw, 1e-9).template cast<bool>() == g.contains(w, 1e-9), "contains");
        const bool t = c.flip(); VP_CHECK(p.attr("cell_index_containing")(pw, t).template cast<long long>() == (long long) g.cell_index_containing(w, t), "cell_index_containing"); if (g.contains(w)) { VP_CHECK(p.attr("cell_index_containing")(pw).template cast<long long>() == (long long) g.cell_index_containing(w, true), "cell_index_containing"); same(p.attr("cell_coordinates_at")(pw), b.cell_coordinates_at(w).template cast<double>(), "cell_coordinates_at a point", ""); same(p.attr("cell_coordinates_at")(pw, t), b.cell_coordinates_at(w, t).template cast<double>(), "cell_coordinates_at a point with a boundary test", ""); }
    });
}
template <class E> void hashgrid(vp::Ctx & c) {
    guarded([&] {
        auto & P = mod(); const double h = std::pow(2., c.real(-2, 2)); HashGrid<E> g(h, 3); py::object p; const bool lin = Info<E>::order == 1; const auto k = c.draw(3);
        if (k == 0) p = P.topology.attr("HashGrid")(type_of<E>(), h); else if (k == 1) p = P.topology.attr("HashGrid")(py::arg("element_type") = type_of<E>(), py::arg("cell_size") = h, py::arg("number_of_elements") = 5);
        else p = P.topology.attr((factory<E>() + (Info<E>::kind == TET ? (lin ? "4" : "10") : (lin ? "8" : "20")) + "HashGrid").c_str())(h);
        const int n = 1 + (int) c.draw(5); std::vector<World<E>> pts; c.nontrivial(); c.note([&](auto & o) { o << Info<E>::name() << " cell size " << h << ", " << n << " elements"; });
        for (int i = 0; i < n; ++i) {
            const E e = [&] { if constexpr (Info<E>::rect) { World<E> ctr, sz; for (int d = 0; d < 3; ++d) { ctr[d] = c.real(-4, 4); sz[d] = c.uniform(.2, 3); } return E(ctr, sz); } else { NodeMat<E> X; const auto & ref = ref_nodes(Info<E>::kind, Info<E>::order); double o[3]; for (double & v : o) v = c.real(-4, 4); for (int r = 0; r < NN<E>; ++r) for (int d = 0; d < 3; ++d) X(r, d) = o[d] + ref[r][d]; return E(X); } }();
            const py::object q = [&]() -> py::object { if constexpr (Info<E>::rect) return P.geometry.attr("RectangularHexahedron")(order_of(Info<E>::order), give_vec(c, e.center()), give_vec(c, e.size())); else { std::ostringstream o; return P.geometry.attr(factory<E>().c_str())(give(c, MX(e.nodes()), o)); } }();
            const ull id = c.draw(20); g.add(e, id); p.attr("add")(q, id); pts.push_back(e.center());
        }
        for (int i = 0; i < 4; ++i) { World<E> w = pts[c.draw(pts.size())]; for (int d = 0; d < 3; ++d) w[d] += c.real(-2, 2); if (c.flip()) w[(int) c.draw(3)] = h * double(c.integer(-3, 3)); VP_CHECK(p.attr("get")(give_vec(c, w)).template cast<std::set<ull>>() == g.get(w), "elements around ", show(w)); }
    });
}
using All = List<Seg1L, Seg1Q, Seg2L, Seg2Q, Seg3L, Seg3Q, Tri2L, Tri2Q, Tri3L, Tri3Q, Quad2L, Quad2Q, Quad3L, Quad3Q, TetL, TetQ, HexL, HexQ>;
using SolidAll = List<Seg1L, Seg1Q, Tri2L, Tri2Q, Quad2L, Quad2Q, TetL, TetQ, HexL, HexQ>;
const bool reg = [] {
    for_each_type(All{}, [](auto * p) { using E = std::remove_pointer_t<decltype(p)>; vp::Reg(std::string("domain/") + Info<E>::name(), .5, domain<E>); });
    for_each_type(SolidAll{}, [](auto * p) { using E = std::remove_pointer_t<decltype(p)>; vp::Reg(std::string("embed/") + Info<E>::name(), .3, embed<E>); });
    vp::Reg("grid/2D", 2, grid<2>); vp::Reg("grid/3D", 2, grid<3>);
    for_each_type(List<TetL, TetQ, HexL, HexQ, RHexL, RHexQ>{}, [](auto * p) { using E = std::remove_pointer_t<decltype(p)>; vp::Reg(std::string("hashgrid/") + Info<E>::name(), .3, hashgrid<E>); });
    return true;
}();
#endif
}
