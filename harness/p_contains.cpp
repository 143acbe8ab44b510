// P04: containment in the closed reference element (with tolerance), in local and in world coordinates.
#include "elements.h"
using namespace el;
static const bool reg = [] {
    for_each_type(Group{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        constexpr Kind K = Info<E>::kind; constexpr int CD = CDIM<E>;
        const std::string name = Info<E>::name();
        vp::Reg("local/" + name, 1, [](vp::Ctx & c) {
            Shape sh; const E e = gen_element<E>(c, 0.3, sh);
            static const double EPS[] = {1e-10, 1e-10, 1e-6, 1e-3, 0.1, 0.5};
            const auto ei = c.draw(6); const double eps = EPS[ei];
            const bool use_default = ei == 0;
            Local<E> xi;
            const auto how = c.draw(4);
            if (how == 0) xi = gen_local<E>(c);
            else if (how == 1) xi = gen_local<E>(c, 2.);
            else { // on the boundary, pushed in or out by a multiple of eps along the normal of one face
                xi = gen_local<E>(c);
                const double f[] = {-3, -0.9, 0, 0.9, 1.1, 3}; const double off = f[c.draw(6)] * eps;
                const auto face = c.draw(K == TRI || K == TET ? CD + 1 : 2 * CD);
                if (K == TRI || K == TET) { if ((int) face < CD) { xi[face] = -off; } else { const double s = xi.sum(); if (s <= 1e-3) xi.setConstant((1 + off) / CD); else xi *= (1 + off) / s; } }
                else xi[face / 2] = (face % 2 ? 1 : -1) * (1 + off);
            }
            double x[3] = {0, 0, 0}; for (int d = 0; d < CD; ++d) x[d] = xi[d];
            c.note([&](auto & o) { o << Info<E>::name() << " xi=" << show(xi) << " eps=" << eps; });
            const bool lo = inside(K, x, eps * (1 - 1e-3) - 1e-15), hi = inside(K, x, eps * (1 + 1e-3) + 1e-15);
            const bool r = use_default ? e.contains_local(xi) : e.contains_local(xi, eps);
            if (lo) { c.label("inside"); VP_CHECK(r, "point inside (tolerance ", eps, ") reported outside: ", show(xi)); }
            else if (!hi) { c.label("outside"); VP_CHECK(!r, "point outside (tolerance ", eps, ") reported inside: ", show(xi)); }
            c.nontrivial(lo || !hi);
        });
        vp::Reg("world/" + name, 0.5, [](vp::Ctx & c) {
            // world point -> local coordinates -> containment, away from the boundary of the element by 1e-3
            Shape sh; const E e = gen_element<E>(c, 0, sh);
            const Local<E> xi = c.flip() ? gen_local<E>(c) : gen_local<E>(c, 2.);
            double x[3] = {0, 0, 0}; for (int d = 0; d < CD; ++d) x[d] = xi[d];
            const bool in = inside(K, x, -1e-6), out = !inside(K, x, 1e-6);
            const World<E> w = e.world_coordinates(xi);
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(Eigen::Matrix<double, NN<E>, DIM<E>>(e.nodes())) << " x=" << show(w); });
            c.nontrivial(in || out); c.label(in ? "inside" : out ? "outside" : "boundary");
            const bool r = e.contains_local(e.local_coordinates(w));
            if (in) VP_CHECK(r, "image of ", show(xi), " reported outside");
            if (out) VP_CHECK(!r, "image of ", show(xi), " reported inside");
            if constexpr (Info<E>::rect && K == HEX) { if (in || out) VP_CHECK(e.contains(w) == in, "contains(world) of ", show(xi), " is ", e.contains(w)); }
        });
    });
    return true;
}();
