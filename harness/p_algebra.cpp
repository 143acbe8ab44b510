// P26: Eigen matrices and vectors used through SOFA's BaseMatrix / BaseVector interface.
#include "sofa_util.h"
#include <SofaCaribou/Algebra/EigenMatrix.h>
#include <SofaCaribou/Algebra/EigenVector.h>
#include <SofaCaribou/Algebra/BaseVectorOperations.h>
using namespace su;
using SofaCaribou::Algebra::EigenMatrix; using SofaCaribou::Algebra::EigenVector;
namespace {
using BM = sofa::defaulttype::BaseMatrix; using BV = sofa::defaulttype::BaseVector;
template <class E> constexpr bool sparse = std::is_base_of_v<Eigen::SparseMatrixBase<E>, E>;
template <class M> MX dense(const M & m) { if constexpr (sparse<M>) return MX(m.template cast<double>()); else return m.template cast<double>(); }
template <class E> using SI = typename E::StorageIndex;
template <int N, class R> sofa::type::Mat<N, N, R> block(vp::Ctx & c, MX & b) { sofa::type::Mat<N, N, R> m; b.resize(N, N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { const int v = (int) c.integer(-9, 9); m[i][j] = R(v); b(i, j) = v; } return m; }

// E: eigen type, REF: the wrapper refers to an external matrix
template <class E, bool REF> void history(vp::Ctx & c) {
    using W = EigenMatrix<std::conditional_t<REF, E &, E>>;
    int r = 1 + (int) c.draw(8), q = c.draw(3) == 0 ? 1 + (int) c.draw(8) : r;
    E ext(r, q); if constexpr (!sparse<E>) ext.setConstant(7);
    const int how = (int) c.draw(3);
    std::unique_ptr<W> w;
    if constexpr (REF) w.reset(new W(ext)); else if (how == 0) w.reset(new W(ext)); else if (how == 1) w.reset(new W(r, q)); else { w.reset(new W()); w->resize(r, q); }
    MX model = MX::Constant(r, q, sparse<E> ? 0 : 7); bool ready = !sparse<E>;      // ready: elements may be read
    if (!sparse<E> && !REF && how == 1) { w->clear(); model.setZero(); }
    if (!REF && how == 2) model.setZero();
    bool sym = false;
    if constexpr (sparse<E>) if (r == q && c.draw(3) == 0) { sym = true; w->set_symmetric(true); VP_CHECK(w->symmetric(), "set_symmetric"); }
    BM * m = w.get();
    const int n = 2 + (int) c.draw(16); int changes = 0, clears = 0; bool late = false;
    c.note([&](auto & o) { o << (sparse<E> ? (E::IsRowMajor ? "sparse row-major " : "sparse col-major ") : "dense ") << (REF ? "by reference " : "by copy ") << (sym ? "symmetric " : "") << r << "x" << q << ":"; });
    for (int s = 0; s < n; ++s) {
        int op = (int) c.draw(16); const int i = (int) c.draw(r), j = (int) c.draw(q); const int v = (int) c.integer(-9, 9); MX b;
        auto add_b = [&](const MX & x, int a, int bb) { model.block(a, bb, x.rows(), x.cols()) += x; };
        if (op <= 4) { m->add(i, j, double(v)); model(i, j) += v; if (sym && i != j) { m->add(j, i, double(v)); model(j, i) += v; } ++changes; late = late || ready; c.note([&](auto & o) { o << " add(" << i << "," << j << "," << v << ")"; }); }
        else if (op <= 7) {
            const int N = op == 5 ? 2 : 3; if (r < N || q < N) continue; const int k = i % (r - N + 1), l = j % (q - N + 1); const bool f = c.flip(); ++changes; late = late || ready;
            auto go = [&](auto mm) { m->add(k, l, mm); add_b(b, k, l); if (sym) { auto t = mm; for (int x = 0; x < N; ++x) for (int y = 0; y < N; ++y) t[x][y] = mm[y][x]; m->add(l, k, t); add_b(b.transpose(), l, k); } };
            if (N == 2) { if (f) go(block<2, float>(c, b)); else go(block<2, double>(c, b)); } else { if (f) go(block<3, float>(c, b)); else go(block<3, double>(c, b)); }
            c.note([&](auto & o) { o << " add" << N << (f ? "f(" : "d(") << k << "," << l << ")"; });
        }
        else if (op <= 9) { late = true; m->set(i, j, double(v)); model(i, j) = v; ready = true; if (sym && i != j) { m->set(j, i, double(v)); model(j, i) = v; } ++changes; c.note([&](auto & o) { o << " set(" << i << "," << j << "," << v << ")"; }); }
        else if (op == 10) { m->compress(); ready = true; c.note([&](auto & o) { o << " compress"; }); }
        else if (op == 11) {
            const int w2 = (int) c.draw(6);
            if (w2 == 0) { m->clear(); model.setZero(); ready = !sparse<E>; c.note([&](auto & o) { o << " clear"; }); }
            else if (w2 == 1) { r = 1 + (int) c.draw(8); q = sym ? r : 1 + (int) c.draw(8); m->resize(r, q); model = MX::Zero(r, q); ready = !sparse<E>; c.note([&](auto & o) { o << " resize(" << r << "," << q << ")"; }); }
            continue;
        }
        else if (op == 12) { if (late) c.label("cleared after late insertions"); ++clears; m->clearRow(i); model.row(i).setZero(); ready = true; if (sym) { m->clearCol(i); model.col(i).setZero(); } c.note([&](auto & o) { o << " clearRow(" << i << ")"; }); }
        else if (op == 13) { if (late) c.label("cleared after late insertions"); ++clears; m->clearCol(j); model.col(j).setZero(); ready = true; if (sym) { m->clearRow(j); model.row(j).setZero(); } c.note([&](auto & o) { o << " clearCol(" << j << ")"; }); }
        else if (op == 14) {
            ++clears; const bool rows = c.flip(); const int lim = rows ? r : q; int a = (int) c.draw(lim), z = a + (int) c.draw(lim - a); ready = true;
            if (rows || sym) { m->clearRows(a, z); model.middleRows(a, z - a + 1).setZero(); } if (!rows || sym) { m->clearCols(a, z); model.middleCols(a, z - a + 1).setZero(); }
            c.note([&](auto & o) { o << (rows ? " clearRows(" : " clearCols(") << a << "," << z << ")"; });
        }
        else { if (r != q) continue; ++clears; m->clearRowCol(i); model.row(i).setZero(); model.col(i).setZero(); ready = true; c.note([&](auto & o) { o << " clearRowCol(" << i << ")"; }); }
        VP_CHECK(m->rowSize() == r && m->colSize() == q, "dimensions ", m->rowSize(), "x", m->colSize());
        if (!ready) continue;
        for (int x = 0; x < r; ++x) for (int y = 0; y < q; ++y) VP_CHECK(m->element(x, y) == model(x, y), "element (", x, ",", y, ") is ", m->element(x, y), " expected ", model(x, y), " after step ", s);
        const MX got = dense(w->matrix()); VP_CHECK(got == model, "matrix() is ", show(got), " expected ", show(model));
    }
    m->compress(); const MX got = dense(w->matrix()); VP_CHECK(got == model, "matrix() at the end is ", show(got), " expected ", show(model));
    for (int x = 0; x < r; ++x) for (int y = 0; y < q; ++y) VP_CHECK(m->element(x, y) == model(x, y), "element (", x, ",", y, ") at the end");
    if (REF) VP_CHECK(dense(ext) == model, "the referenced matrix does not show the changes"); else if (!sparse<E>) VP_CHECK(dense(ext).cwiseAbs().maxCoeff() == 7, "the copied matrix was changed");
    c.nontrivial(changes > 1 && clears > 0);
}
template <class R, bool REF> void vec(vp::Ctx & c) {
    using E = Eigen::Matrix<R, Eigen::Dynamic, 1>; using W = EigenVector<std::conditional_t<REF, E &, E>>;
    int n = 1 + (int) c.draw(9); E ext(n); VX model(n); for (int i = 0; i < n; ++i) { model[i] = (double) c.integer(-9, 9); ext[i] = (R) model[i]; } const E orig = ext;
    std::unique_ptr<W> w; if constexpr (REF) w.reset(new W(ext)); else { if (c.draw(3) == 0) { w.reset(new W(n)); w->clear(); model.setZero(); } else w.reset(new W(ext)); }
    BV * b = w.get(); const int k = (int) c.draw(12); c.nontrivial(k > 1); c.note([&](auto & o) { o << "vector of " << n << ", " << k << " operations"; });
    for (int s = 0; s < k; ++s) {
        const int i = (int) c.draw(n); const double v = (double) c.integer(-9, 9);
        switch (c.draw(6)) { case 0: case 1: b->set(i, v); model[i] = v; break; case 2: case 3: b->add(i, v); model[i] += v; break; case 4: b->clear(); model.setZero(); break; default: n = 1 + (int) c.draw(9); b->resize(n); model = VX::Zero(n); }
        VP_CHECK(b->size() == n, "size"); for (int x = 0; x < n; ++x) VP_CHECK(b->element(x) == model[x], "element ", x, " is ", b->element(x), " expected ", model[x]);
        VP_CHECK(w->vector().template cast<double>() == model, "vector()");
    }
    VP_CHECK(b->getElementSize() == sizeof(R) && b->getElementType() == (std::is_integral_v<R> ? BV::ELEMENT_INT : BV::ELEMENT_FLOAT), "element type");
    if (REF) VP_CHECK(ext.template cast<double>() == model, "the referenced vector does not show the changes"); else VP_CHECK(ext == orig, "the copied vector was changed");
}
struct Any { std::shared_ptr<BV> v; std::vector<std::shared_ptr<void>> keep; };
Any make(vp::Ctx & c, const VX & x) {
    Any a; using namespace sofa::component::linearsolver; const int n = (int) x.size();
    switch (c.draw(6)) {
        case 0: a.v.reset(new FullVector<double>(n)); break; case 1: a.v.reset(new FullVector<float>(n)); break;
        case 2: a.v.reset(new EigenVector<Eigen::VectorXd>(n)); break; case 3: a.v.reset(new EigenVector<Eigen::VectorXf>(n)); break; case 4: a.v.reset(new EigenVector<Eigen::RowVectorXd>(n)); break;
        default: { auto e = std::make_shared<Eigen::VectorXd>(n); a.keep.push_back(e); a.v.reset(new EigenVector<Eigen::VectorXd &>(*e)); }
    }
    a.v->clear(); for (int i = 0; i < n; ++i) a.v->set(i, x[i]); return a;
}
void dots(vp::Ctx & c) {
    const int n = (int) c.draw(12); VX x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = (double) c.integer(-99, 99) / 4; y[i] = (double) c.integer(-99, 99) / 4; }
    c.nontrivial(n > 0); c.note([&](auto & o) { o << show(x.transpose()) << " . " << show(y.transpose()); });
    Any a = make(c, x), b = make(c, y); double e = 0; for (int i = 0; i < n; ++i) e += x[i] * y[i];
    const double d = SofaCaribou::Algebra::dot(a.v.get(), b.v.get()); VP_CHECK(vp::near(d, e, 1e-12 * (1 + x.norm() * y.norm())), "dot is ", d, " expected ", e);
}
using DD = Eigen::MatrixXd; using DF = Eigen::MatrixXf; using DR = Eigen::Matrix<double, -1, -1, Eigen::RowMajor>; using SC = Eigen::SparseMatrix<double>; using SR = Eigen::SparseMatrix<double, Eigen::RowMajor>; using SF = Eigen::SparseMatrix<float, Eigen::RowMajor>;
const vp::Reg a1("matrix/dense double", 1, history<DD, false>), a2("matrix/dense float reference", 1, history<DF, true>), a3("matrix/dense row-major reference", .5, history<DR, true>), a4("matrix/sparse column-major", 2, history<SC, false>), a5("matrix/sparse row-major", 2, history<SR, false>),
    a6("matrix/sparse column-major reference", 1, history<SC, true>), a7("matrix/sparse row-major reference", 1, history<SR, true>), a8("matrix/sparse float", 1, history<SF, false>);
const vp::Reg b1("vector/double", .5, vec<double, false>), b2("vector/double reference", .5, vec<double, true>), b3("vector/float", .5, vec<float, false>), b4("dot", 1, dots);
}
