// P01: shape functions form the nodal basis of the element; derivatives are their gradients.
#include "elements.h"
using namespace el;
static const bool reg = [] {
    for_each_type(Group{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        constexpr Kind K = Info<E>::kind; constexpr int O = Info<E>::order, N = NN<E>, CD = CDIM<E>;
        vp::Reg(std::string("basis/") + Info<E>::name(), 1, [](vp::Ctx & c) {
            Shape sh; const E e = gen_element<E>(c, 0.4, sh);
            const auto region = c.draw(3);
            const Local<E> xi = region == 0 ? gen_local<E>(c) : gen_local<E>(c, region == 1 ? 3. : 25.);
            const double m = 1 + xi.template lpNorm<Eigen::Infinity>();
            const double tol = 1e-12 * std::pow(m, O == 1 ? CD : CD + 1);
            c.note([&](auto & o) { o << Info<E>::name() << " xi=" << show(xi); });
            c.nontrivial(xi.norm() > 0); c.label(region == 0 ? "inside" : region == 1 ? "near" : "far");
            VP_CHECK((int) e.number_of_nodes() == N && N == (int) ref_nodes(K, O).size(), "node count");
            const auto L = e.L(xi); const auto dL = e.dL(xi);
            VP_CHECK(L.rows() == N && dL.rows() == N && dL.cols() == CD, "sizes");
            Dual x[3]; for (int d = 0; d < CD; ++d) x[d] = var(xi[d], d);
            for (int i = 0; i < N; ++i) {
                const Dual b = basis<Dual>(K, O, i, x);
                VP_CHECK(vp::near(L[i], b.v, tol), "shape function of node ", i, " at ", show(xi), " is ", L[i], ", expected ", b.v);
                for (int d = 0; d < CD; ++d) VP_CHECK(vp::near(dL(i, d), b.d[d], 4 * tol), "derivative of node ", i, " along ", d, " at ", show(xi), " is ", dL(i, d), ", expected ", b.d[d]);
            }
            // partition of unity / vanishing gradient of a constant field, from the library's values alone
            VP_CHECK(vp::near(L.sum(), 1, 20 * tol), "sum of shape functions ", L.sum());
            for (int d = 0; d < CD; ++d) VP_CHECK(vp::near(dL.col(d).sum(), 0, 80 * tol), "sum of derivatives ", dL.col(d).sum());
            // derivative against a central difference of the library's own shape functions
            if (region != 2) for (int d = 0; d < CD; ++d) {
                const double h = 1e-4; Local<E> a = xi, b = xi; a[d] -= h; b[d] += h;
                const Eigen::Matrix<double, N, 1> fd = (e.L(b) - e.L(a)) / (2 * h);
                for (int i = 0; i < N; ++i) VP_CHECK(vp::near(fd[i], dL(i, d), 1e-6 * m * m * m), "finite difference ", fd[i], " vs dL ", dL(i, d));
            }
        });
        vp::Reg(std::string("nodal/") + Info<E>::name(), 0.1, [](vp::Ctx & c) {
            Shape sh; const E e = gen_element<E>(c, 0.4, sh);
            c.nontrivial();
            const auto & ref = ref_nodes(K, O);
            const int j = (int) c.draw(N);
            Local<E> xi; for (int d = 0; d < CD; ++d) xi[d] = ref[j][d];
            c.note([&](auto & o) { o << Info<E>::name() << " at node " << j; });
            const auto L = e.L(xi);
            for (int i = 0; i < N; ++i) VP_CHECK(vp::near(L[i], i == j, 1e-14), "shape function ", i, " at node ", j, " is ", L[i]);
            const World<E> w = e.world_coordinates(xi), n = e.node(j);
            VP_CHECK((w - n).norm() <= 1e-12 * (sh.scale + sh.offset), "node ", j, " maps to ", show(w), " instead of ", show(n));
        });
    });
    return true;
}();
