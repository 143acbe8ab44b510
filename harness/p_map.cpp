// P02: isoparametric map, jacobian, interpolation and local <-> world inversion.
#include "elements.h"
using namespace el;
static const bool reg = [] {
    for_each_type(Group{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        constexpr Kind K = Info<E>::kind; constexpr int O = Info<E>::order, N = NN<E>, CD = CDIM<E>, D = DIM<E>;
        const std::string name = Info<E>::name();
        vp::Reg("map/" + name, 1, [](vp::Ctx & c) {
            Shape sh; const E e = gen_element<E>(c, 0.4, sh);
            const Eigen::Matrix<double, N, D> X = e.nodes();
            const bool in = c.flip(); const Local<E> xi = in ? gen_local<E>(c) : gen_local<E>(c, 4.);
            const double m = 1 + xi.template lpNorm<Eigen::Infinity>(), big = X.cwiseAbs().maxCoeff();
            const double amp = std::pow(m, O == 1 ? CD : CD + 1);
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X) << " xi=" << show(xi); });
            c.nontrivial(xi.norm() > 0); c.label(in ? "inside" : "outside");
            const World<E> w = e.world_coordinates(xi), ow = oracle_map<E>(X, xi);
            VP_CHECK((w - ow).norm() <= 1e-12 * amp * big, "world coordinates ", show(w), " expected ", show(ow));
            const Eigen::Matrix<double, D, CD> J = e.jacobian(xi), oJ = oracle_jacobian<E>(X, xi);
            VP_CHECK((J - oJ).norm() <= 1e-11 * amp * big, "jacobian ", show(J), " expected ", show(oJ));
            for (int i = 0; i < N; ++i) VP_CHECK((World<E>(e.node(i)) - World<E>(X.row(i).transpose())).norm() <= 1e-13 * big, "node(i) differs from nodes().row(i)");
            // centre = image of the centroid of the reference element
            Local<E> ctr = Local<E>::Zero(); if (K == TRI) ctr.setConstant(1. / 3); if (K == TET) ctr.setConstant(.25);
            const World<E> oc = oracle_map<E>(X, ctr);
            VP_CHECK((e.center() - oc).norm() <= 1e-12 * big, "center ", show(e.center()), " expected ", show(oc));
            // interpolation of arbitrary nodal values: scalar, vector, other value types
            Eigen::Matrix<double, N, 1> s; for (int i = 0; i < N; ++i) s[i] = c.real(-5, 5);
            Eigen::Matrix<double, N, 4> v; for (int i = 0; i < N; ++i) for (int j = 0; j < 4; ++j) v(i, j) = double(int(c.draw(2001)) - 1000) / 64.;
            double xs[3] = {0, 0, 0}; for (int d = 0; d < CD; ++d) xs[d] = xi[d];
            double os = 0; Eigen::Vector4d ov = Eigen::Vector4d::Zero();
            for (int i = 0; i < N; ++i) { const double b = basis<double>(K, O, i, xs); os += b * s[i]; ov += b * v.row(i).transpose(); }
            VP_CHECK(vp::near(e.interpolate(xi, s), os, 1e-10 * amp), "scalar interpolation ", e.interpolate(xi, s), " expected ", os);
            const Eigen::Vector4d lv = e.interpolate(xi, v);
            VP_CHECK((lv - ov).norm() <= 1e-10 * amp, "vector interpolation ", show(lv), " expected ", show(ov));
            const Eigen::Matrix<double, N, 4, Eigen::RowMajor> vr = v;
            const Eigen::Vector4d lr = e.interpolate(xi, vr);
            VP_CHECK((lr - ov).norm() <= 1e-10 * amp, "interpolation of row-major values");
            const Eigen::Matrix<float, N, 4> vf = v.template cast<float>();
            const Eigen::Vector4f lf = e.interpolate(xi, vf);
            VP_CHECK((lf.template cast<double>() - ov).norm() <= 2e-3 * amp, "interpolation of float values ", show(lf), " expected ", show(ov));
        });
        vp::Reg("inverse/" + name, 1, [](vp::Ctx & c) {
            // round trip xi -> x -> xi
            Shape sh; const bool affine = Info<E>::rect || c.flip();
            const E e = gen_element<E>(c, affine ? 0 : 0.3, sh);
            const Eigen::Matrix<double, N, D> X = e.nodes();
            const bool far = affine && c.draw(3) == 0;
            const Local<E> xi = far ? gen_local<E>(c, 6.) : gen_local<E>(c);
            const World<E> x = e.world_coordinates(xi);
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X) << " xi=" << show(xi) << " x=" << show(x); });
            c.nontrivial(xi.norm() > 0); c.label(affine ? "affine" : "distorted");
            Local<E> start = Local<E>::Zero(); if (c.flip()) start = gen_local<E>(c);
            const double cond = (sh.scale + sh.offset) / sh.scale;
            if (affine) {
                const Local<E> r = e.local_coordinates(x);
                VP_CHECK((r - xi).norm() <= 1e-10 * cond * (1 + xi.norm()) * 10, "local coordinates ", show(r), " expected ", show(xi));
            } else {
                // the default settings: residual reduced by 1e-5, or five Newton steps
                const Local<E> r = e.local_coordinates(x);
                const double r0 = (x - e.world_coordinates(Local<E>::Zero())).norm(), res = (x - e.world_coordinates(r)).norm();
                // (only required where a reference Newton started from the centre converges comfortably)
                Local<E> q = Local<E>::Zero(); int it = 0; double rr = r0;
                for (; it < 4; ++it) {
                    const Eigen::Matrix<double, D, CD> J = oracle_jacobian<E>(X, q); const World<E> d = x - oracle_map<E>(X, q);
                    rr = d.norm(); if (rr <= 1e-7 * r0) break;
                    q += (J.transpose() * J).ldlt().solve(J.transpose() * d);
                }
                if (rr <= 1e-7 * r0 && (q - xi).norm() < 1e-3) {
                    c.label("newton-converges");
                    VP_CHECK(res <= 1.01e-5 * r0 + 1e-11 * (sh.scale + sh.offset), "default inversion leaves a residual of ", res, " from ", r0, "; got ", show(r), " expected ", show(xi));
                    VP_CHECK((r - xi).norm() <= 1e-2, "local coordinates ", show(r), " expected ", show(xi));
                }
            }
            if constexpr (!Info<E>::rect || K == QUAD) {
                // explicit settings (tight tolerance, many iterations)
                const Local<E> guess = affine ? start : Local<E>(xi + 0.1 * (start - xi));
                const Local<E> r = e.local_coordinates(x, guess, 1e-12, 60);
                VP_CHECK((r - xi).norm() <= 1e-8 * cond * (1 + xi.norm()), "inversion with explicit settings gives ", show(r), " expected ", show(xi), " from ", show(guess));
                if (affine) { // one step is enough for an affine map
                    const Local<E> r1 = e.local_coordinates(x, guess, 1e-12, 1);
                    VP_CHECK((r1 - xi).norm() <= 1e-9 * cond * (1 + xi.norm()), "a single Newton step on an affine element gives ", show(r1), " expected ", show(xi));
                }
            }
        });
        if constexpr (CD < D) vp::Reg("projection/" + name, 0.5, [](vp::Ctx & c) {
            // a point off a flat element gets the local coordinates of its orthogonal projection
            Shape sh; const E e = gen_element<E>(c, 0, sh);
            const Eigen::Matrix<double, N, D> X = e.nodes();
            const Local<E> xi = gen_local<E>(c);
            const Eigen::Matrix<double, D, CD> J = oracle_jacobian<E>(X, xi);
            World<E> off; for (int d = 0; d < D; ++d) off[d] = c.uniform(-1, 1) * sh.scale;
            const Eigen::Matrix<double, CD, 1> coef = (J.transpose() * J).ldlt().solve(J.transpose() * off);
            off -= J * coef;
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X) << " xi=" << show(xi) << " off=" << show(off); });
            c.nontrivial(off.norm() > 1e-6 * sh.scale);
            const Local<E> r = e.local_coordinates(World<E>(e.world_coordinates(xi) + off));
            VP_CHECK((r - xi).norm() <= 1e-7 * (sh.scale + sh.offset) / sh.scale, "projection gives ", show(r), " expected ", show(xi));
        });
    });
    return true;
}();
