// P03: Gauss quadrature.
#include "elements.h"
using namespace el;
namespace {
// reference quadrature: tensor Gauss-Legendre (5 points per direction), collapsed for simplices
const std::vector<std::pair<double, double>> & gl() {
    static const std::vector<std::pair<double, double>> g = [] {
        std::vector<std::pair<double, double>> r; const int n = 5;
        for (int i = 0; i < n; ++i) { double x = std::cos(M_PI * (i + 0.75) / (n + 0.5)), dp = 1;
            for (int k = 0; k < 100; ++k) { double p0 = 1, p1 = x; for (int j = 2; j <= n; ++j) { const double p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p2; } dp = n * (x * p1 - p0) / (x * x - 1); const double dx = p1 / dp; x -= dx; if (std::fabs(dx) < 1e-16) break; }
            r.push_back({x, 2 / ((1 - x * x) * dp * dp)}); }
        return r; }();
    return g;
}
template <class F> void integrate(Kind k, F && f) {
    const auto & g = gl(); const int D = kind_dim(k);
    for (auto & a : g) for (std::size_t bi = 0; bi < (D > 1 ? g.size() : 1); ++bi) for (std::size_t ci = 0; ci < (D > 2 ? g.size() : 1); ++ci) {
        const auto b = D > 1 ? g[bi] : std::make_pair(0., 1.); const auto cc = D > 2 ? g[ci] : std::make_pair(0., 1.);
        double x[3] = {a.first, b.first, cc.first}, w = a.second * b.second * cc.second;
        if (k == TRI || k == TET) { // Duffy
            const double u = (1 + x[0]) / 2, v = (1 + x[1]) / 2, t = (1 + x[2]) / 2;
            if (k == TRI) { x[0] = u; x[1] = v * (1 - u); w *= (1 - u) / 4; }
            else { x[0] = u; x[1] = v * (1 - u); x[2] = t * (1 - u) * (1 - v); w *= (1 - u) * (1 - u) * (1 - v) / 8; }
        }
        f(x, w);
    }
}
}
static const bool reg = [] {
    for_each_type(Group{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        constexpr Kind K = Info<E>::kind; constexpr int O = Info<E>::order, N = NN<E>, CD = CDIM<E>, D = DIM<E>;
        const std::string name = Info<E>::name();
        // total degree (simplices) or degree per variable (others) integrated exactly
        constexpr int deg = (K == TRI || K == TET) ? O : K == SEG ? (O == 1 ? 1 : 3) : 3;
        vp::Reg("rule/" + name, 1, [=](vp::Ctx & c) {
            Shape sh; const E e = gen_element<E>(c, 0.3, sh);
            const auto & g = e.gauss_nodes();
            VP_CHECK(g.size() == e.number_of_gauss_nodes(), "number_of_gauss_nodes() is ", e.number_of_gauss_nodes(), " but there are ", g.size(), " gauss nodes");
            VP_CHECK((long) g.size() == (long) E::NumberOfGaussNodesAtCompileTime, "the compile-time number of gauss nodes is ", E::NumberOfGaussNodesAtCompileTime, " but there are ", g.size());
            double sum = 0;
            for (std::size_t i = 0; i < g.size(); ++i) {
                double x[3] = {0, 0, 0}; for (int d = 0; d < CD; ++d) x[d] = g[i].position[d];
                VP_CHECK(inside(K, x, 0), "gauss node outside of the element: ", show(g[i].position));
                VP_CHECK(g[i].weight > 0, "non-positive weight ", g[i].weight);
                const auto & q = e.gauss_node(i);
                VP_CHECK((q.position - g[i].position).norm() == 0 && q.weight == g[i].weight, "gauss_node(i) differs from gauss_nodes()[i]");
                sum += g[i].weight;
            }
            VP_CHECK(vp::near(sum, ref_measure(K), 1e-12), "sum of weights ", sum, " expected ", ref_measure(K));
            // random polynomial of the exact degree
            double q = 0, exact = 0, mag = 0; std::ostringstream os;
            for (int a = 0; a <= deg; ++a) for (int b = 0; b <= (CD > 1 ? deg : 0); ++b) for (int d = 0; d <= (CD > 2 ? deg : 0); ++d) {
                if ((K == TRI || K == TET) && a + b + d > deg) continue;
                const double k = double(int(c.draw(41)) - 20); mag += std::fabs(k);
                if (c.describing && k != 0) os << k << "*u^" << a << "v^" << b << "w^" << d << " ";
                exact += k * ref_monomial(K, a, b, d);
                for (const auto & gn : g) { double x[3] = {0, 0, 0}; for (int i = 0; i < CD; ++i) x[i] = gn.position[i]; q += k * gn.weight * std::pow(x[0], a) * std::pow(x[1], b) * std::pow(x[2], d); }
            }
            c.nontrivial(mag > 0);
            c.note([&](auto & o) { o << Info<E>::name() << " p=" << os.str(); });
            VP_CHECK(vp::near(q, exact, 1e-12 * (1 + mag)), "quadrature ", q, " exact ", exact, " (degree ", deg, ")");
        });
        vp::Reg("measure/" + name, 1, [](vp::Ctx & c) {
            // length / area / volume of the physical element, and first moments where the rule is exact for them
            constexpr bool exact_curved = (D == CD) && !((K == TET || K == HEX) && O == 2) && !Info<E>::rect;
            const bool curved = exact_curved && c.flip();
            Shape sh; const E e = gen_element<E>(c, curved ? 0.3 : 0, sh);
            const Eigen::Matrix<double, N, D> X = e.nodes();
            c.note([&](auto & o) { o << Info<E>::name() << " nodes=" << show(X); });
            c.nontrivial(); c.label(curved ? "curved" : "affine");
            double m = 0; World<E> mom = World<E>::Zero();
            for (const auto & gn : e.gauss_nodes()) { const Eigen::Matrix<double, D, CD> J = e.jacobian(gn.position); const double dj = measure_of(J); m += gn.weight * dj; mom += gn.weight * dj * e.world_coordinates(gn.position); }
            auto loc = [](const double * x) { Local<E> l; for (int d = 0; d < CD; ++d) l[d] = x[d]; return l; };
            World<E> omom = World<E>::Zero(); double om = 0;
            integrate(K, [&](const double * x, double w) { const Local<E> l = loc(x); const double dj = measure_of(oracle_jacobian<E>(X, l)); om += w * dj; if (!curved) omom += w * dj * oracle_map<E>(X, l); });
            const double unit = std::pow(sh.scale, CD);
            VP_CHECK(vp::near(m, om, 1e-9 * std::max(unit, std::fabs(om))), "measure by quadrature ", m, " expected ", om);
            // barycentre of an affine element: the first moments have degree one
            if (!curved) for (int d = 0; d < D; ++d) VP_CHECK(vp::near(mom[d], omom[d], 1e-9 * std::max(unit, std::fabs(om)) * (sh.scale + sh.offset)), "first moment ", mom[d], " expected ", omom[d]);
        });
    });
    return true;
}();
