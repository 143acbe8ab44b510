// P15: fields interpolated on embedded points.
#include "meshes.h"
using namespace ms;
namespace {
template <class E, int FC, int Opt, class S> void run(vp::Ctx & c, const M<E> & m, const Eigen::Matrix<double, Eigen::Dynamic, DIM<E>> & P, int cols) {
    constexpr int D = DIM<E>;
    Mesh<D> mesh(m.X); const auto * dom = mesh.template add_domain<E>("container", m.T);
    const auto ct = dom->embed(P); const auto & bp = ct.barycentric_points(); const int n = (int) P.rows();
    using F = Eigen::Matrix<S, Eigen::Dynamic, FC, Opt>;
    F f(m.X.rows(), cols), out(n, cols), g(m.X.rows(), cols), out2(n, cols);
    for (int i = 0; i < f.rows(); ++i) for (int j = 0; j < cols; ++j) f(i, j) = (S) c.real(-3, 3);
    Eigen::Matrix<double, D, Eigen::Dynamic> G(D, cols); Eigen::Matrix<double, 1, Eigen::Dynamic> b(cols);
    for (int j = 0; j < cols; ++j) { b[j] = c.real(-2, 2); for (int d = 0; d < D; ++d) G(d, j) = c.real(-2, 2); }
    for (int i = 0; i < g.rows(); ++i) g.row(i) = (((m.X.row(i) - m.t.transpose()) / m.scale) * G + b).template cast<S>();
    const S mark = (S) -777.25; out.setConstant(mark); out2.setConstant(mark);
    ct.interpolate(f, out); ct.interpolate(g, out2);
    const double eps = (sizeof(S) == 4 ? 1e-4 : 1e-11) * (1 + m.offset / m.scale), lin = eps + 1e-8;
    for (int i = 0; i < n; ++i) {
        if (bp[i].element_index < 0) { for (int j = 0; j < cols; ++j) VP_CHECK(out(i, j) == mark && out2(i, j) == mark, "row ", i, " of a point outside of the domain was written"); continue; }
        double x[3] = {0, 0, 0}; for (int d = 0; d < D; ++d) x[d] = bp[i].local_coordinates[d];
        for (int j = 0; j < cols; ++j) {
            double v = 0; for (int k = 0; k < NN<E>; ++k) v += basis<double>(Info<E>::kind, Info<E>::order, k, x) * (double) f((Eigen::Index) m.T((Eigen::Index) bp[i].element_index, k), j);
            VP_CHECK(vp::near((double) out(i, j), v, eps * 20), "point ", i, " component ", j, ": ", (double) out(i, j), " expected ", v);
            const double w = (((P.row(i) - m.t.transpose()) / m.scale) * G + b)(0, j);
            VP_CHECK(vp::near((double) out2(i, j), w, lin * (50 + std::fabs(w))), "linear field at point ", i, " component ", j, ": ", (double) out2(i, j), " expected ", w);
        }
    }
    // every wrong size is refused, and nothing is written
    auto refused = [&](const F & in, F & o) { const F before = o; bool thrown = false; try { ct.interpolate(in, o); } catch (const std::runtime_error &) { thrown = true; } return thrown && o == before; };
    const int d = c.flip() ? 1 : -1;
    { F in(m.X.rows() + d, cols); in.setZero(); VP_CHECK(refused(in, out), "field with ", in.rows(), " values for ", m.X.rows(), " nodes accepted"); }
    if (n + d >= 0) { F o(n + d, cols); o.setConstant(mark); VP_CHECK(refused(f, o), "output with ", o.rows(), " rows for ", n, " points accepted"); }
    if (FC == Eigen::Dynamic && cols + d >= 1) { F o(n, cols + d); o.setConstant(mark); VP_CHECK(refused(f, o), "output with ", o.cols(), " columns for ", cols, " accepted"); }
    { // points of another dimension
        Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> Q(n, D + d); Q.setZero(); bool thrown = false; if (Q.cols() > 0) { try { dom->embed(Q); } catch (const std::runtime_error &) { thrown = true; } VP_CHECK(thrown, Q.cols(), "D points embedded in a ", D, "D domain"); }
        Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> R = P; const auto c2 = dom->embed(R); F o(n, cols); o.setConstant(mark); c2.interpolate(f, o); VP_CHECK(o == out, "points given by a dynamic matrix interpolate differently");
    }
}
}
static const bool reg = [] {
    for_each_type(Solid{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        vp::Reg(std::string("interpolate/") + Info<E>::name(), 1, [](vp::Ctx & c) {
            constexpr int D = DIM<E>;
            const auto m = gen_mesh<E>(c, c.flip() ? 0 : 0.15, D == 3 ? 2 : D == 2 ? 3 : 6, true);
            const int n = (int) c.draw(6); Eigen::Matrix<double, Eigen::Dynamic, D> P(n, D);
            for (int i = 0; i < n; ++i) { // mostly inside of the domain
                World<E> w; const auto k = c.draw(4);
                if (k == 3) { Eigen::Matrix<double, D, 1> u; for (int d = 0; d < D; ++d) u[d] = c.uniform(-.5, m.n[d] + .5); w = m.A * u + m.t; }
                else w = oracle_map<E>(m.element((int) c.draw((uint64_t) m.T.rows())), shrink<E>(gen_local<E>(c), .99));
                P.row(i) = w.transpose();
            }
            const auto form = c.draw(6); const int cols = 1 + (int) c.draw(4);
            c.note([&](auto & o) { o << Info<E>::name() << " X=" << show(m.X) << " T=" << show(m.T) << " P=" << show(P) << " form " << form << " cols " << cols; });
            c.nontrivial(n > 0);
            switch (form) {
                case 0: c.label("vector of scalars"); return run<E, 1, Eigen::ColMajor, double>(c, m, P, 1);
                case 1: c.label("N x 3"); return run<E, 3, Eigen::ColMajor, double>(c, m, P, 3);
                case 2: c.label("N x 3 row-major"); return run<E, 3, Eigen::RowMajor, double>(c, m, P, 3);
                case 3: c.label("dynamic"); return run<E, Eigen::Dynamic, Eigen::ColMajor, double>(c, m, P, cols);
                case 4: c.label("dynamic row-major"); return run<E, Eigen::Dynamic, Eigen::RowMajor, double>(c, m, P, cols);
                default: c.label("N x 2"); return run<E, 2, Eigen::ColMajor, double>(c, m, P, 2);
            }
        });
        vp::Reg(std::string("empty/") + Info<E>::name(), 0.02, [](vp::Ctx & c) {
            constexpr int D = DIM<E>; const auto m = gen_mesh<E>(c, 0, 1, false); Mesh<D> mesh(m.X);
            Eigen::Matrix<unsigned long long, Eigen::Dynamic, NN<E>, Eigen::RowMajor> none(0, NN<E>); const auto * dom = mesh.template add_domain<E>("empty", none);
            const Eigen::Matrix<double, Eigen::Dynamic, D> P = m.X; bool thrown = false; try { dom->embed(P); } catch (const std::runtime_error &) { thrown = true; }
            c.nontrivial(); c.note([&](auto & o) { o << Info<E>::name() << " without elements"; }); VP_CHECK(thrown, "points embedded in an empty domain");
        });
    });
    return true;
}();
