// P13: the hash grid returns every element whose bounding box holds the point, and only elements close to it.
#include "elements.h"
#include <Caribou/Topology/HashGrid.h>
#include <algorithm>
using namespace el;
using caribou::topology::HashGrid;
static const bool reg = [] {
    for_each_type(Group{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        vp::Reg(std::string("hashgrid/") + Info<E>::name(), 1, [](vp::Ctx & c) {
            constexpr int D = DIM<E>; using ID = typename HashGrid<E>::Index;
            struct Item { ID id; Eigen::Matrix<double, 1, D> lo, hi; };
            const int n = (int) c.draw(8); double h; // a power of two: multiples of it are exact, so points can sit exactly on the cell planes
            h = c.flip() ? std::ldexp(1., (int) c.integer(-6, 6)) : c.uniform(0.02, 30);
            const bool reserve = c.flip(); HashGrid<E> g = reserve ? HashGrid<E>(h, (unsigned long long) n) : HashGrid<E>(h);
            std::vector<Item> items; std::vector<E> els;
            for (int i = 0; i < n; ++i) {
                Eigen::Matrix<double, D, 1> ctr; for (int d = 0; d < D; ++d) ctr[d] = c.real(-6, 6) * h;
                const double s = h * std::vector<double>{0.25, 1, 0.05, 2, 4}[c.draw(5)] / (D == 3 ? 2 : 1);
                auto make = [&]() -> E {
                    if constexpr (Info<E>::rect) { Eigen::Matrix<double, CDIM<E>, 1> H; for (int d = 0; d < CDIM<E>; ++d) H[d] = s * c.uniform(0.2, 1); return E(ctr, H, gen_rotation<D>(c)); }
                    else {
                        Shape sh; NodeMat<E> X = gen_nodes<E>(c, 0.2, sh); const Eigen::Matrix<double, 1, D> mid = X.colwise().mean(); X.rowwise() -= mid;
                        X *= s / X.cwiseAbs().maxCoeff(); X.rowwise() += ctr.transpose();
                        if (c.flip()) X = (X.array() * (4 / h)).round() * (h / 4); // nodes on the planes of the grid
                        return E(X);
                    }
                };
                const E e = make();
                const ID id = c.draw(3) ? (ID) i : (ID) c.draw(1ull << 40);
                if (std::any_of(items.begin(), items.end(), [&](auto & q) { return q.id == id; })) continue;
                Item it; it.id = id; for (int d = 0; d < D; ++d) { it.lo[d] = std::numeric_limits<double>::infinity(); it.hi[d] = -it.lo[d]; for (int k = 0; k < NN<E>; ++k) { it.lo[d] = std::min(it.lo[d], e.node(k)[d]); it.hi[d] = std::max(it.hi[d], e.node(k)[d]); } }
                items.push_back(it); els.push_back(e); g.add(e, id);
            }
            const int q = 1 + (int) c.draw(5); std::vector<Eigen::Matrix<double, D, 1>> pts;
            for (int i = 0; i < q; ++i) {
                Eigen::Matrix<double, D, 1> w; const auto k = c.draw(4);
                for (int d = 0; d < D; ++d) w[d] = c.real(-7, 7) * h;
                if (k && !items.empty()) { const auto j = c.draw(items.size()); const auto & it = items[j];
                    for (int d = 0; d < D; ++d) { const auto b = c.draw(4); w[d] = b == 0 ? it.lo[d] : b == 1 ? it.hi[d] : std::min(it.hi[d], std::max(it.lo[d], it.lo[d] + c.uniform(0, 1) * (it.hi[d] - it.lo[d]))); if (k == 2) { const double r = std::round(w[d] / h) * h; if (r >= it.lo[d] && r <= it.hi[d]) w[d] = r; } }
                    if (k == 3) w = els[j].node(c.draw(NN<E>)); }
                pts.push_back(w);
            }
            c.note([&](auto & o) { o << Info<E>::name() << " h=" << h; for (auto & it : items) o << " #" << it.id << " " << show(it.lo) << ".." << show(it.hi); for (auto & w : pts) o << " p=" << show(w); });
            for (const auto & w : pts) {
                const std::set<ID> r = g.get(w); int hit = 0, near = 0;
                for (const auto & it : items) {
                    bool in = true, close = true;
                    for (int d = 0; d < D; ++d) { in &= w[d] >= it.lo[d] && w[d] <= it.hi[d]; close &= w[d] >= it.lo[d] - h * (1 + 1e-9) && w[d] <= it.hi[d] + h * (1 + 1e-9); }
                    hit += in; near += r.count(it.id) > 0;
                    if (in) VP_CHECK(r.count(it.id), "element ", it.id, " has ", show(w), " in its bounding box but is not returned");
                    if (r.count(it.id)) VP_CHECK(close, "element ", it.id, " is further than one cell from ", show(w));
                }
                VP_CHECK(near == (int) r.size(), "unknown elements returned");
                c.nontrivial(hit > 0); c.label(hit > 1 ? "several boxes" : hit ? "one box" : "no box");
                bool plane = false; for (int d = 0; d < D; ++d) plane |= std::round(w[d] / h) == w[d] / h; if (plane) c.label("on a cell plane");
            }
        });
    });
    return true;
}();
