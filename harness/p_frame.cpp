// P08: frames, normals, and invariance under rigid motions and scaling.
#include "elements.h"
using namespace el;
static const bool reg = [] {
    for_each_type(Group{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        constexpr Kind K = Info<E>::kind; constexpr int O = Info<E>::order, N = NN<E>, CD = CDIM<E>, D = DIM<E>;
        const std::string name = Info<E>::name();
        if constexpr (!Info<E>::rect) vp::Reg("rigid/" + name, 1, [](vp::Ctx & c) {
            // x -> s R x + t applied to the nodes is applied to everything the element reports in world space
            Shape sh; const NodeMat<E> X = gen_nodes<E>(c, 0.3, sh); const E e(X);
            const auto R = gen_rotation<D>(c); const double s = c.flip() ? 1. : c.uniform(0.2, 5); World<E> t; for (int d = 0; d < D; ++d) t[d] = c.real(-5, 5) * sh.scale;
            NodeMat<E> Y; for (int i = 0; i < N; ++i) Y.row(i) = (s * R * X.row(i).transpose() + t).transpose();
            const E f(Y); const Local<E> xi = gen_local<E>(c);
            const double big = (sh.scale * 8 + sh.offset) * std::max(1., s);
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X) << " R=" << show(R) << " s=" << s << " t=" << show(t) << " xi=" << show(xi); }); c.nontrivial();
            VP_CHECK((f.world_coordinates(xi) - (s * R * e.world_coordinates(xi) + t)).norm() <= 1e-11 * big, "map not equivariant");
            VP_CHECK((f.jacobian(xi) - s * R * e.jacobian(xi)).norm() <= 1e-10 * big, "jacobian not equivariant");
            VP_CHECK((f.center() - (s * R * e.center() + t)).norm() <= 1e-11 * big, "center not equivariant");
            if constexpr (K == TRI && D == 3) VP_CHECK((f.normal() - R * e.normal()).norm() <= 1e-9 * big / sh.scale, "normal ", show(f.normal()), " expected ", show((R * e.normal()).eval()));
            if constexpr (K == TET) VP_CHECK((f.frame() - R * e.frame()).norm() <= 1e-9 * big / sh.scale, "frame ", show(f.frame()), " expected ", show((R * e.frame()).eval()));
            if constexpr (K == QUAD || K == HEX) {
                Local<E> q = 0.8 * xi;
                VP_CHECK((f.frame(q) - R * e.frame(q)).norm() <= 1e-8 * big / sh.scale, "frame ", show(f.frame(q)), " expected ", show((R * e.frame(q)).eval()));
                VP_CHECK((f.frame() - R * e.frame()).norm() <= 1e-8 * big / sh.scale, "centre frame");
            }
        });
        if constexpr (!Info<E>::rect && (K == QUAD || K == HEX || K == TET)) vp::Reg("orthogonal/" + name, 1, [](vp::Ctx & c) {
            // rectangular (corner-orthogonal for tetrahedra), rotated by R: the frame is R everywhere inside
            Shape sh; sh.scale = gen_scale(c); const auto R = gen_rotation<D>(c); World<E> t; for (int d = 0; d < D; ++d) t[d] = c.real(-5, 5) * sh.scale;
            Eigen::Matrix<double, CD, 1> H; for (int d = 0; d < CD; ++d) H[d] = (c.flip() ? 1. : c.uniform(0.1, 10)) * sh.scale;
            const auto & ref = ref_nodes(K, O); NodeMat<E> X;
            for (int i = 0; i < N; ++i) { World<E> q = World<E>::Zero(); for (int d = 0; d < CD; ++d) q[d] = ref[i][d] * H[d]; X.row(i) = (R * q + t).transpose(); }
            const E e(X); c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X); }); c.nontrivial();
            const double tol = 1e-12 * (t.norm() + H.norm()) / H.minCoeff() * 20;
            const Eigen::Matrix<double, D, D> F = e.frame();
            VP_CHECK((F - R).norm() <= tol, "frame ", show(F), " expected ", show(R));
            if constexpr (K != TET) { Local<E> xi; for (int d = 0; d < CD; ++d) xi[d] = c.real(-1, 0.75); const Eigen::Matrix<double, D, D> G = e.frame(xi); VP_CHECK((G - R).norm() <= 8 * tol, "frame at ", show(xi), " is ", show(G), " expected ", show(R)); }
        });
        if constexpr (!Info<E>::rect && (K == HEX || K == TET)) vp::Reg("orthonormal/" + name, 1, [](vp::Ctx & c) {
            // any non-degenerate element: right-handed orthonormal frame whose first axis is the u direction
            Shape sh; const NodeMat<E> X = gen_nodes<E>(c, 0.3, sh); const E e(X);
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X); }); c.nontrivial();
            Local<E> xi = Local<E>::Zero(); if (K == HEX) xi = 0.7 * gen_local<E>(c);
            Eigen::Matrix3d F; World<E> u, v;
            if constexpr (K == TET) { F = e.frame(); u = e.node(1) - e.node(0); v = e.node(2) - e.node(0); }
            else { F = e.frame(xi); Local<E> a = xi, b = xi; a[0] = 1; b[1] = 1; u = oracle_map<E>(X, a) - oracle_map<E>(X, xi); v = oracle_map<E>(X, b) - oracle_map<E>(X, xi); }
            const double cond = (sh.scale + sh.offset) / sh.scale;
            VP_CHECK((F.transpose() * F - Eigen::Matrix3d::Identity()).norm() <= 1e-11, "frame is not orthonormal: ", show(F));
            VP_CHECK(vp::near(F.determinant(), 1, 1e-11), "frame is not right-handed: ", show(F));
            VP_CHECK((F.col(0) - u.normalized()).norm() <= 1e-9 * cond * 10, "first axis ", show(F.col(0).eval()), " expected ", show(u.normalized()));
            VP_CHECK(F.col(1).dot(v.normalized()) > 0 && std::fabs(F.col(2).dot(v.normalized())) <= 1e-8 * cond * 10, "second axis ", show(F.col(1).eval()), " is not in the u-v plane on the side of v ", show(v));
        });
        if constexpr (!Info<E>::rect && K == QUAD) vp::Reg("axes/" + name, 1, [](vp::Ctx & c) {
            // unit axes along the u and v directions (and their unit normal in 3D)
            Shape sh; const NodeMat<E> X = gen_nodes<E>(c, 0.3, sh); const E e(X);
            Local<E> xi = c.flip() ? Local<E>::Zero().eval() : (0.7 * gen_local<E>(c)).eval();
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X) << " xi=" << show(xi); }); c.nontrivial();
            const Eigen::Matrix<double, D, D> F = e.frame(xi); Local<E> a = xi, b = xi; a[0] = 1; b[1] = 1;
            const World<E> u = (oracle_map<E>(X, a) - oracle_map<E>(X, xi)).normalized(), v = (oracle_map<E>(X, b) - oracle_map<E>(X, xi)).normalized();
            const double cond = (sh.scale + sh.offset) / sh.scale;
            VP_CHECK((F.col(0) - u).norm() <= 1e-9 * cond * 10, "first axis ", show(F.col(0).eval()), " expected ", show(u));
            // the library documents orthogonal axes but only guarantees an approximation for non-rectangular quads: the second axis must be v itself or its component orthogonal to u
            const World<E> vo = (v - v.dot(u) * u).normalized();
            VP_CHECK((F.col(1) - v).norm() <= 1e-9 * cond * 10 || (F.col(1) - vo).norm() <= 1e-8 * cond * 10, "second axis ", show(F.col(1).eval()), " expected ", show(v), " or ", show(vo));
            if constexpr (D == 3) { const World<E> w = u.cross(v).normalized(); VP_CHECK((F.col(2) - w).norm() <= 1e-8 * cond * 10, "third axis ", show(F.col(2).eval()), " expected ", show(w)); }
        });
        if constexpr (K == TRI && D == 3) vp::Reg("normal/" + name, 1, [](vp::Ctx & c) {
            Shape sh; const NodeMat<E> X = gen_nodes<E>(c, 0.3, sh); const E e(X);
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X); }); c.nontrivial();
            const World<E> n = e.normal(), u = e.node(1) - e.node(0), v = e.node(2) - e.node(0); const double cond = (sh.scale + sh.offset) / sh.scale;
            VP_CHECK(vp::near(n.norm(), 1, 1e-12), "normal is not unit: ", n.norm());
            VP_CHECK(std::fabs(n.dot(u.normalized())) <= 1e-10 * cond && std::fabs(n.dot(v.normalized())) <= 1e-10 * cond, "normal not orthogonal to the triangle");
            VP_CHECK(n.dot(u.cross(v)) > 0, "normal does not follow the right-hand rule");
            NodeMat<E> Y = X; Y.row(1).swap(Y.row(2)); if (O == 2) { Y.row(3).swap(Y.row(5)); } VP_CHECK((E(Y).normal() + n).norm() <= 1e-10 * cond, "reversing the triangle does not reverse its normal");
        });
    });
    return true;
}();
