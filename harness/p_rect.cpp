// P07: rectangular elements behave as the general element with the same nodes.
#include "elements.h"
using namespace el;
template <class R> struct General;
template <> struct General<RQuad2L> { using type = Quad2L; }; template <> struct General<RQuad3L> { using type = Quad3L; }; template <> struct General<RQuad2Q> { using type = Quad2Q; }; template <> struct General<RQuad3Q> { using type = Quad3Q; };
template <> struct General<RHexL> { using type = HexL; }; template <> struct General<RHexQ> { using type = HexQ; };
static const bool reg = [] {
    for_each_type(GroupRect{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>; using G = typename General<E>::type;
        constexpr Kind K = Info<E>::kind; constexpr int O = Info<E>::order, N = NN<E>, CD = CDIM<E>, D = DIM<E>;
        const std::string name = Info<E>::name();
        vp::Reg("nodes/" + name, 1, [](vp::Ctx & c) {
            // nodes are center + R * (ref * H/2), for every constructor
            World<E> ctr; for (int d = 0; d < D; ++d) ctr[d] = c.real(-20, 20);
            Eigen::Matrix<double, CD, 1> H; for (int d = 0; d < CD; ++d) H[d] = c.draw(4) == 0 ? 2 : c.uniform(0.05, 30);
            Eigen::Matrix<double, D, D> R = gen_rotation<D>(c);
            const auto how = c.draw(5);
            c.note([&](auto & o) { o << Info<E>::name() << " ctor=" << how << " center=" << show(ctr) << " H=" << show(H) << " R=" << show(R); });
            c.nontrivial(how != 0); c.label(vp::cat("ctor", how));
            const E e = how == 0 ? E() : how == 1 ? E(ctr) : how == 2 ? E(ctr, H) : how == 3 ? E(ctr, R) : E(ctr, H, R);
            if (how == 0) ctr.setZero(); if (how <= 1 || how == 3) H.setConstant(2); if (how <= 2) R.setIdentity();
            const double big = ctr.norm() + H.norm(); const auto & ref = ref_nodes(K, O);
            VP_CHECK((e.center() - ctr).norm() <= 1e-13 * big && (e.size() - H).norm() <= 1e-13 * big && (e.rotation() - R).norm() <= 1e-13, "center/size/rotation");
            const Eigen::Matrix<double, N, D> X = e.nodes();
            for (int i = 0; i < N; ++i) { World<E> q = World<E>::Zero(); for (int d = 0; d < CD; ++d) q[d] = ref[i][d] * H[d] / 2; const World<E> n = ctr + R * q;
                VP_CHECK((e.node(i) - n).norm() <= 1e-12 * big, "node ", i, " is ", show(e.node(i)), " expected ", show(n));
                VP_CHECK((World<E>(X.row(i).transpose()) - n).norm() <= 1e-12 * big, "nodes().row(", i, ")"); }
        });
        vp::Reg("general/" + name, 1, [](vp::Ctx & c) {
            Shape sh; const E e = gen_rect<E>(c, sh); const Eigen::Matrix<double, N, D> X = e.nodes(); const G g(X);
            const double big = sh.scale + sh.offset;
            const Local<E> xi = c.flip() ? gen_local<E>(c) : gen_local<E>(c, 3.);
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X) << " xi=" << show(xi); }); c.nontrivial();
            VP_CHECK((e.L(xi) - g.L(xi)).norm() <= 1e-12 * 50 && (e.dL(xi) - g.dL(xi)).norm() <= 1e-12 * 100, "shape functions differ at ", show(xi));
            const World<E> we = e.world_coordinates(xi), wg = g.world_coordinates(xi);
            VP_CHECK((we - wg).norm() <= 1e-11 * big, "world coordinates ", show(we), " vs ", show(wg));
            VP_CHECK((e.jacobian(xi) - g.jacobian(xi)).norm() <= 1e-10 * big, "jacobians differ");
            VP_CHECK((e.center() - g.center()).norm() <= 1e-11 * big, "centers differ");
            const Eigen::Matrix<double, CD, 1> h = e.size(); const double cond = big / h.minCoeff();
            const Local<E> le = e.local_coordinates(we), lg = g.local_coordinates(we);
            VP_CHECK((le - xi).norm() <= 1e-11 * cond * 10 && (lg - xi).norm() <= 1e-10 * cond * 10, "local coordinates ", show(le), " / ", show(lg), " expected ", show(xi));
            double x[3] = {0, 0, 0}; for (int d = 0; d < CD; ++d) x[d] = xi[d];
            if (inside(K, x, 1e-7) == inside(K, x, -1e-7)) VP_CHECK(e.contains_local(xi) == g.contains_local(xi), "containment differs");
            VP_CHECK(e.number_of_nodes() == g.number_of_nodes() && e.number_of_boundary_elements() == g.number_of_boundary_elements(), "counts");
            // quadrature: same rule up to the order of the points
            const auto & ge = e.gauss_nodes(); const auto & gg = g.gauss_nodes();
            VP_CHECK(ge.size() == gg.size() && e.number_of_gauss_nodes() == g.number_of_gauss_nodes(), "number of gauss nodes differ: ", ge.size(), " ", gg.size());
            for (const auto & a : ge) { bool found = false; for (const auto & b : gg) found |= (a.position - b.position).norm() < 1e-12 && std::fabs(a.weight - b.weight) < 1e-12; VP_CHECK(found, "gauss nodes differ"); }
            for (std::size_t f = 0; f < e.number_of_boundary_elements(); ++f) for (std::size_t j = 0; j < e.boundary_elements_node_indices()[f].size(); ++j) VP_CHECK(e.boundary_elements_node_indices()[f][j] == g.boundary_elements_node_indices()[f][j], "boundary tables differ at face ", f);
            // rebuilt from the general element, or from its nodes
            auto back = [&](const E & r, const char * how) {
                VP_CHECK((r.center() - e.center()).norm() <= 1e-11 * big, how, ": center ", show(r.center()));
                VP_CHECK((r.size() - e.size()).norm() <= 1e-11 * big, how, ": size ", show(r.size()), " expected ", show(e.size()));
                VP_CHECK((r.rotation() - e.rotation()).norm() <= 1e-12 * cond * 10, how, ": rotation ", show(r.rotation()), " expected ", show(e.rotation()));
                for (int i = 0; i < N; ++i) VP_CHECK((r.node(i) - e.node(i)).norm() <= 1e-11 * big, how, ": node ", i);
            };
            back(E(g), "from the general element"); back(E(X), "from its nodes");
            { Eigen::Matrix<double, N, D> Y = X; back(E(Y), "from its (mutable) nodes"); }
            if constexpr (K == HEX && O == 2) { Eigen::Matrix<double, 8, 3> C = X.template topRows<8>(); back(E(C), "from corners"); const Eigen::Matrix<double, 8, 3> CC = C; back(E(CC), "from const corners"); back(E(HexL(C)), "from the linear hexahedron"); }
            if constexpr (K == QUAD && O == 2) { Eigen::Matrix<double, 4, D> C = X.template topRows<4>(); back(E(Quad<D, Linear>(C)), "from the linear quad"); }
        });
    });
    return true;
}();
