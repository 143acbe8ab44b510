// P18: node positions and element connectivity are returned exactly as given, whatever the storage and the index types.
#include "elements.h"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
using namespace el;
using caribou::topology::Mesh; using caribou::topology::Domain;
using ull = unsigned long long;
namespace {
// ---- connectivity of every element type
template <class E, class NI> void storage(vp::Ctx & c) {
    constexpr int D = DIM<E>, N = NN<E>; using Tm = Eigen::Matrix<NI, Eigen::Dynamic, N, Eigen::RowMajor>;
    // nodes: those of a few random elements, shuffled
    const int n = (int) c.draw(5); std::vector<NodeMat<E>> els; std::vector<E> ref; Shape sh;
    for (int i = 0; i < n; ++i) { if constexpr (Info<E>::rect) { const E e = gen_rect<E>(c, sh); els.emplace_back(); for (int k = 0; k < N; ++k) els.back().row(k) = e.node(k).transpose(); } else els.push_back(gen_nodes<E>(c, 0.2, sh)); }
    const int total = n * N + 1 + (int) c.draw(3); std::vector<int> perm((size_t) total); for (int i = 0; i < total; ++i) perm[i] = i; for (int i = total; i > 1; --i) std::swap(perm[i - 1], perm[c.draw((uint64_t) i)]);
    Eigen::Matrix<double, Eigen::Dynamic, D> X(total, D); X.setConstant(1e9); Tm T(n, N);
    for (int i = 0; i < n; ++i) for (int k = 0; k < N; ++k) { X.row(perm[i * N + k]) = els[i].row(k); T(i, k) = (NI) perm[i * N + k]; }
    Mesh<D> mesh(X); const auto how = c.draw(6); c.nontrivial(n > 0);
    c.note([&](auto & o) { o << Info<E>::name() << " storage " << how << " index bytes " << sizeof(NI) << " T=" << show(T.template cast<long long>()); });
    std::vector<NI> ext; const Domain<E, NI> * d = nullptr; const Tm kept = T; Eigen::Index outer = N, inner = 1;
    switch (how) {
        case 0: { Tm copy = T; d = mesh.template add_domain<E, NI>(std::string("d"), copy); copy.setZero(); c.label("copied"); break; }
        case 1: { const Tm copy = T; d = mesh.template add_domain<E, NI>(std::string("d"), copy); c.label("copied"); break; }
        case 2: d = mesh.template add_domain<E, NI>(std::string("d"), &kept); c.label("external matrix"); break;
        case 3: ext.assign(T.data(), T.data() + T.size()); ext.push_back(7); d = mesh.template add_domain<E, NI>(std::string("d"), (const NI *) ext.data(), (Eigen::Index) n, (Eigen::Index) N); c.label("external buffer"); break;
        default: { const bool colmajor = how == 5; inner = colmajor ? n + (Eigen::Index) c.draw(3) : 1 + (Eigen::Index) c.draw(3); outer = colmajor ? 1 : inner * N + (Eigen::Index) c.draw(4); if (inner < 1) inner = 1;
            ext.assign((size_t) (n * outer + N * inner + 1), (NI) 120); for (int i = 0; i < n; ++i) for (int k = 0; k < N; ++k) ext[(size_t) (i * outer + k * inner)] = T(i, k);
            d = mesh.template add_domain<E, NI>(std::string("d"), (const NI *) ext.data(), (Eigen::Index) n, (Eigen::Index) N, outer, inner); c.label(colmajor ? "external buffer, column by column" : "strided external buffer"); }
    }
    VP_CHECK(d->number_of_elements() == (ull) n && d->number_of_nodes_per_elements() == (ull) N && d->canonical_dimension() == (ull) CDIM<E>, "sizes of the domain");
    VP_CHECK(d->mesh() == &mesh, "mesh of the domain");
    Eigen::Matrix<double, Eigen::Dynamic, D> Y = X; const double a = c.real(-2, 2); for (int d2 = 0; d2 < D; ++d2) Y.col(d2).array() += a * (d2 + 1); // other positions of the same nodes
    const Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> Yr = Y; const Eigen::MatrixXd Yd = Y;
    for (int i = 0; i < n; ++i) {
        const auto idx = d->element_indices((ull) i); VP_CHECK(idx.size() == N, "number of indices");
        for (int k = 0; k < N; ++k) VP_CHECK(idx[k] == T(i, k), "element ", i, " node ", k, " is ", (long long) idx[k], " expected ", (long long) T(i, k));
        const auto P = mesh.positions(idx); for (int k = 0; k < N; ++k) for (int q = 0; q < D; ++q) VP_CHECK(P(k, q) == els[i](k, q), "positions of the nodes of element ", i);
        const double s = els[i].cwiseAbs().maxCoeff() + 3 * std::fabs(a) + 1;
        auto same = [&](const E & e, double shift, const char * what) { for (int k = 0; k < N; ++k) for (int q = 0; q < D; ++q) { const double x = els[i](k, q) + shift * (q + 1); if constexpr (Info<E>::rect) VP_CHECK(vp::near(e.node(k)[q], x, 1e-10 * s), what, " node ", k, " of element ", i); else VP_CHECK(vp::near(e.node(k)[q], x, shift == 0 ? 0 : 4e-16 * s), what, " node ", k, " of element ", i); } };
        same(d->element((ull) i), 0, "element()"); same(d->element((ull) i, X), 0, "element(positions)"); same(d->element((ull) i, Y), a, "element(other positions)"); same(d->element((ull) i, Yr), a, "element(row-major positions)"); same(d->element((ull) i, Yd), a, "element(dynamic positions)");
    }
}
// ---- nodes of a mesh
template <int D, class S> void nodes(vp::Ctx & c) {
    using Holder = caribou::topology::EigenNodesHolder<Eigen::Matrix<S, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)>>; using MeshT = Mesh<D, Holder>;
    const int n = (int) c.draw(9); Eigen::Matrix<S, Eigen::Dynamic, D> X(n, D); for (int i = 0; i < n; ++i) for (int d = 0; d < D; ++d) X(i, d) = (S) c.real(-9, 9);
    const auto how = c.draw(6); c.nontrivial(n > 0); c.note([&](auto & o) { o << D << "D " << sizeof(S) * 8 << " bits, constructor " << how << " X=" << show(X); });
    auto query = [&](const auto & mesh) {
        VP_CHECK(mesh.number_of_nodes() == (ull) n && mesh.dimension() == (ull) D && mesh.number_of_domains() == 0, "sizes of the mesh");
        for (int i = 0; i < n; ++i) { const auto p = mesh.position((ull) i); const Eigen::Vector3d q = mesh.node((ull) i); for (int d = 0; d < 3; ++d) { if (d < D) VP_CHECK(p[d] == X(i, d), "position ", i); VP_CHECK(q[d] == (d < D ? (double) X(i, d) : 0.), "node ", i, " component ", d, " is ", q[d]); } }
        if (n == 0) return;
        auto same = [&](const auto & P, auto id, int m, const char * w) { VP_CHECK(P.rows() == m && P.cols() == D, w, " size"); for (int i = 0; i < m; ++i) for (int d = 0; d < D; ++d) VP_CHECK(P(i, d) == X((Eigen::Index) id[i], d), w, " row ", i); };
        int a[3]; std::array<unsigned short, 4> b; for (auto & v : a) v = (int) c.draw((uint64_t) n); for (auto & v : b) v = (unsigned short) c.draw((uint64_t) n);
        same(mesh.positions(a), a, 3, "array"); same(mesh.positions(b), b, 4, "std::array");
        const int m = (int) c.draw(6); std::vector<std::size_t> v((size_t) m); for (auto & k : v) k = c.draw((uint64_t) n); same(mesh.positions(v), v, m, "std::vector");
        Eigen::VectorXi e(m); for (int i = 0; i < m; ++i) e[i] = (int) v[i]; same(mesh.positions(e), v, m, "Eigen vector"); const Eigen::RowVectorXi re = e.transpose(); same(mesh.positions(re), v, m, "Eigen row vector");
        const Eigen::Matrix<long long, 3, 1> f(a[0], a[1], a[2]); same(mesh.positions(f), a, 3, "Eigen fixed vector");
        if (m > 0) same(mesh.positions(e.head(m)), v, m, "Eigen expression");
    };
    std::vector<Eigen::Matrix<S, 1, D>> v; for (int i = 0; i < n; ++i) v.push_back(X.row(i));
    switch (how) {
        case 0: query(MeshT(v)); break;
        case 1: query(MeshT(X)); break;
        case 2: { const Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> Xd = X; query(MeshT(Xd)); break; }
        case 3: { const Eigen::Matrix<S, Eigen::Dynamic, D, (D > 1 ? Eigen::RowMajor : Eigen::ColMajor)> Xr = X; const Mesh m(Xr); static_assert(std::is_same_v<decltype(m), const MeshT>); query(m); break; }
        case 4: { const Mesh m(v); static_assert(std::is_same_v<typename decltype(m)::Real, S> && decltype(m)::Dimension == D); query(m); break; }
        default: { Eigen::Matrix<S, Eigen::Dynamic, D + 2> big(n + 2, D + 2); big.setConstant(77); big.block(1, 1, n, D) = X; query(MeshT(big.template middleRows(1, n).template middleCols<D>(1))); }
    }
    if (n >= 4) { const Eigen::Matrix<S, 4, D> F = X.topRows(4); const Mesh m(F); VP_CHECK(m.number_of_nodes() == 4, "fixed size mesh"); for (int i = 0; i < 4; ++i) for (int d = 0; d < D; ++d) VP_CHECK(m.position((ull) i)[d] == X(i, d), "fixed size mesh"); const auto m2 = m; for (int i = 0; i < 4; ++i) for (int d = 0; d < D; ++d) VP_CHECK(m2.position((ull) i)[d] == X(i, d), "copy of a fixed size mesh"); }
}
}
static const bool reg = [] {
    for_each_type(Group{}, [](auto * p) { using E = std::remove_pointer_t<decltype(p)>;
        vp::Reg(std::string("storage/") + Info<E>::name(), .6, storage<E, ull>); vp::Reg(std::string("storage<int>/") + Info<E>::name(), .4, storage<E, int>);
        if constexpr (Info<E>::order == 1) vp::Reg(std::string("storage<uint16>/") + Info<E>::name(), .4, storage<E, unsigned short>); });
#if VP_GROUP == 0
    vp::Reg("nodes/1D", 1, nodes<1, double>); vp::Reg("nodes/2D", 1, nodes<2, double>); vp::Reg("nodes/3D", 1, nodes<3, double>); vp::Reg("nodes/3D float", .5, nodes<3, float>); vp::Reg("nodes/2D float", .5, nodes<2, float>);
#endif
    return true;
}();
