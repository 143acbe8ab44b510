// P06: ways of building an element agree; a quadratic element built from a linear one keeps its geometry.
#include "elements.h"
using namespace el;
namespace {
template <class E, std::size_t... I> E from_list(const NodeMat<E> & X, std::index_sequence<I...>) { return E(World<E>(X.row(I).transpose())...); }
template <class A, class B> bool same_nodes(const A & a, const B & b, double tol) { for (int i = 0; i < (int) a.number_of_nodes(); ++i) if ((a.node(i) - b.node(i)).norm() > tol) return false; return a.number_of_nodes() == b.number_of_nodes(); }
template <class L> struct Quadratic_of;
template <> struct Quadratic_of<Seg1L> { using type = Seg1Q; }; template <> struct Quadratic_of<Seg2L> { using type = Seg2Q; }; template <> struct Quadratic_of<Seg3L> { using type = Seg3Q; };
template <> struct Quadratic_of<Tri2L> { using type = Tri2Q; }; template <> struct Quadratic_of<Tri3L> { using type = Tri3Q; };
template <> struct Quadratic_of<Quad2L> { using type = Quad2Q; }; template <> struct Quadratic_of<Quad3L> { using type = Quad3Q; };
template <> struct Quadratic_of<TetL> { using type = TetQ; }; template <> struct Quadratic_of<HexL> { using type = HexQ; };
template <class Q, class L> void compare(vp::Ctx & c, const Q & q, const L & l, const Shape & sh, const char * how) {
    const double big = sh.scale + sh.offset;
    for (int i = 0; i < NN<L>; ++i) VP_CHECK((q.node(i) - l.node(i)).norm() <= 1e-13 * big, how, ": corner ", i, " is ", show(q.node(i)), " instead of ", show(l.node(i)));
    for (int k = 0; k < 2; ++k) {
        const Local<L> xi = k == 0 ? gen_local<L>(c) : gen_local<L>(c, 2.);
        const World<L> a = q.world_coordinates(xi), b = l.world_coordinates(xi);
        VP_CHECK((a - b).norm() <= 1e-11 * big, how, ": the quadratic element maps ", show(xi), " to ", show(a), ", the linear one to ", show(b));
        VP_CHECK((q.jacobian(xi) - l.jacobian(xi)).norm() <= 1e-10 * big, how, ": jacobians differ at ", show(xi));
    }
    VP_CHECK((q.center() - l.center()).norm() <= 1e-11 * big, how, ": centers differ");
}
}
static const bool reg = [] {
    for_each_type(GroupGeneral{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        constexpr int N = NN<E>, D = DIM<E>; constexpr Kind K = Info<E>::kind;
        const std::string name = Info<E>::name();
        vp::Reg("construct/" + name, 1, [](vp::Ctx & c) {
            Shape sh; NodeMat<E> X = gen_nodes<E>(c, 0.6, sh); const NodeMat<E> & CX = X;
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X); }); c.nontrivial();
            const E e(CX);
            for (int i = 0; i < N; ++i) VP_CHECK((e.node(i) - World<E>(X.row(i).transpose())).norm() == 0, "node ", i, " is ", show(e.node(i)));
            { NodeMat<E> keep = X; const E m(X); VP_CHECK(same_nodes(e, m, 0), "from a mutable matrix"); VP_CHECK(keep == X, "constructor modified its argument"); }
            if constexpr (D > 1) { const Eigen::Matrix<double, N, D, Eigen::RowMajor> R = X; const E r(R); VP_CHECK(same_nodes(e, r, 0), "from a row-major matrix");
                std::vector<double> buf(2 * N * D, -77); Eigen::Map<Eigen::Matrix<double, N, D, Eigen::RowMajor>, 0, Eigen::Stride<2 * D, 1>> M(buf.data()); M = X; const E s(M); VP_CHECK(same_nodes(e, s, 0), "from a strided map"); }
            { const Eigen::Matrix<float, N, D> F = X.template cast<float>(); const E f(F); for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d) VP_CHECK(f.node(i)[d] == (double) F(i, d), "from a float matrix"); }
            if constexpr (D > 1) { const E l = from_list<E>(X, std::make_index_sequence<N>{}); VP_CHECK(same_nodes(e, l, 0), "from a list of nodes"); }
            { const E copy(e); VP_CHECK(same_nodes(e, copy, 0), "copy"); E as; as = e; VP_CHECK(same_nodes(e, as, 0), "assignment"); }
            { const E def; const auto & ref = ref_nodes(K, Info<E>::order); for (int i = 0; i < N; ++i) for (int d = 0; d < D; ++d) VP_CHECK(def.node(i)[d] == (d < CDIM<E> ? ref[i][d] : 0.), "default element: node ", i, " is ", show(def.node(i))); }
        });
        if constexpr (Info<E>::order == 1 && K != SEG) vp::Reg("promote/" + name, 1, [](vp::Ctx & c) {
            using Q = typename Quadratic_of<E>::type;
            Shape sh; NodeMat<E> X = gen_nodes<E>(c, 0.4, sh); const E l(X);
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X); }); c.nontrivial();
            compare(c, Q(l), l, sh, "from the linear element");
            World<E> n[8]; for (int i = 0; i < N; ++i) n[i] = X.row(i).transpose(); const World<E> * m = n;
            if constexpr (K == TRI) { compare(c, Q(n[0], n[1], n[2]), l, sh, "from corners"); compare(c, Q(m[0], m[1], m[2]), l, sh, "from const corners"); }
            if constexpr (K == QUAD || K == TET) { compare(c, Q(n[0], n[1], n[2], n[3]), l, sh, "from corners"); compare(c, Q(m[0], m[1], m[2], m[3]), l, sh, "from const corners"); }
            if constexpr (K == HEX) { compare(c, Q(n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7]), l, sh, "from corners"); compare(c, Q(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]), l, sh, "from const corners"); }
        });
    });
    return true;
}();
