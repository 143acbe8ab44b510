// P34: sparse (fictitious) grids around implicit and tessellated surfaces of the SOFA plugin.
#include "sofa_util.h"
#include "minisofa_sim.h"
#include <SofaCaribou/Topology/FictitiousGrid.h>
#include <SofaCaribou/Topology/CircleIsoSurface.h>
#include <SofaCaribou/Topology/SphereIsoSurface.h>
#include <SofaCaribou/Topology/CylinderIsoSurface.h>
#include <functional>
#include <map>
#include <queue>
#include <set>
using namespace su;
namespace {
namespace om = sofa::core::objectmodel; namespace ct = sofa::component::topology; using Node = sofa::simulation::Node; using sofa::stub::Log;
using sofa::defaulttype::Vec2Types; using sofa::defaulttype::Vec3Types; using SofaCaribou::topology::FictitiousGrid; using SofaCaribou::topology::IsoSurface;
enum Kind { INSIDE, OUTSIDE, BOUNDARY, UNDEFINED };
const char * const KIND_NAMES[] = {"inside", "outside", "boundary", "undefined"};
template <int D> using Vd = Eigen::Matrix<double, D, 1>;
template <int D> using Vi = Eigen::Matrix<int, D, 1>;
// the regular grid, and the lattice of its finest subdivision
template <int D> struct Box {
    Vd<D> o, h; Vi<D> n; int levels = 0;
    int count() const { return n.prod(); }
    Vi<D> coordinates(int i) const { Vi<D> r; for (int d = 0; d < D; ++d) { r[d] = i % n[d]; i /= n[d]; } return r; }
    int index(const Vi<D> & k) const { int r = 0, s = 1; for (int d = 0; d < D; ++d) { r += k[d] * s; s *= n[d]; } return r; }
    int fine() const { return 1 << levels; }
    int lattice() const { int r = 1; for (int d = 0; d < D; ++d) r *= n[d] * fine() + 1; return r; }
    int lattice(const Vi<D> & k) const { int r = 0, s = 1; for (int d = 0; d < D; ++d) { r += k[d] * s; s *= n[d] * fine() + 1; } return r; }
    Vi<D> at(int i) const { Vi<D> r; for (int d = 0; d < D; ++d) { r[d] = i % (n[d] * fine() + 1); i /= n[d] * fine() + 1; } return r; }
    Vd<D> position(const Vi<D> & k) const { return o + Vd<D>(h.array() * k.template cast<double>().array() / fine()); }
};
// a level set given on the lattice
template <class T> class Table : public IsoSurface<T> {
public:
    static constexpr int D = T::spatial_dimensions; SOFA_CLASS(SOFA_TEMPLATE(Table, T), SOFA_TEMPLATE(IsoSurface, T)); Box<D> box; std::vector<double> values; mutable bool astray = false;
    double iso_value(const Eigen::Matrix<double, D, 1> & x) const override { Vi<D> k; for (int d = 0; d < D; ++d) { const double t = (x[d] - box.o[d]) / box.h[d] * box.fine(), r = std::round(t); if (std::fabs(t - r) > 1e-6 || r < 0 || r > box.n[d] * box.fine()) { astray = true; return 1; } k[d] = (int) r; } return values[(std::size_t) box.lattice(k)]; }
};
// ---------------------------------------------------------------- model: a tree of sub-cells per cell
template <int D> struct Cell { Vi<D> lo; int size = 0, level = 0; Kind type = UNDEFINED; double weight = 1; std::vector<Cell> sub; bool leaf() const { return sub.empty(); }
    double filled() const { if (leaf()) return type == INSIDE || type == BOUNDARY ? weight : 0; double w = 0; for (auto & s : sub) w += s.filled(); return w; } };
template <int D> struct Model {
    Box<D> box; std::vector<Cell<D>> cells; using Classify = std::function<Kind(const Vi<D> &, int)>;
    void grow(Cell<D> & c, const Classify & f) { c.type = f(c.lo, c.size); if (c.type != BOUNDARY || c.level >= box.levels) return; c.sub.resize(1 << D); for (int i = 0; i < (1 << D); ++i) { auto & s = c.sub[(std::size_t) i]; s.size = c.size / 2; s.level = c.level + 1; s.weight = c.weight / (1 << D); for (int d = 0; d < D; ++d) s.lo[d] = c.lo[d] + ((i >> d) & 1) * s.size; grow(s, f); } }
    static void leaves(Cell<D> & c, std::vector<Cell<D> *> & out) { if (c.leaf()) out.push_back(&c); else for (auto & s : c.sub) leaves(s, out); }
    Model(const Box<D> & b, const Classify & f) : box(b), cells((std::size_t) b.count()) {
        for (int i = 0; i < b.count(); ++i) { auto & c = cells[(std::size_t) i]; c.size = b.fine(); c.lo = b.coordinates(i) * b.fine(); grow(c, f); }
        // what is not crossed by the surface: outside when connected to the border of the grid by what is not crossed either
        std::vector<Cell<D> *> L; for (auto & c : cells) leaves(c, L); Vi<D> m = b.n * b.fine(); auto id = [&](const Vi<D> & k) { int r = 0, s = 1; for (int d = 0; d < D; ++d) { r += k[d] * s; s *= m[d]; } return (std::size_t) r; }; std::vector<Cell<D> *> owner((std::size_t) m.prod(), nullptr); auto each = [&](const Cell<D> & c, auto g) { Vi<D> k; for (int i = 0, t = (int) std::lround(std::pow(c.size, D)); i < t; ++i) { int q = i; for (int d = 0; d < D; ++d) { k[d] = c.lo[d] + q % c.size; q /= c.size; } g(k); } };
        for (auto * c : L) if (c->type == UNDEFINED) each(*c, [&](const Vi<D> & k) { owner[id(k)] = c; }); std::queue<Cell<D> *> open; auto take = [&](Cell<D> * c) { if (c && c->type == UNDEFINED) { c->type = OUTSIDE; open.push(c); } };
        for (auto * c : L) if (c->type == UNDEFINED) { bool border = false; for (int d = 0; d < D; ++d) border = border || c->lo[d] == 0 || c->lo[d] + c->size == m[d]; if (border) take(c); }
        while (!open.empty()) { auto * c = open.front(); open.pop(); each(*c, [&](const Vi<D> & k) { for (int d = 0; d < D; ++d) for (int s : {-1, 1}) { Vi<D> q = k; q[d] += s; if (q[d] >= 0 && q[d] < m[d]) take(owner[id(q)]); } }); }
        for (auto * c : L) if (c->type == UNDEFINED) c->type = INSIDE;
    }
    // integration points up to a level, in the local coordinates of the cell
    void points(const Cell<D> & c, int level, std::vector<std::pair<Vd<D>, double>> & out, const Cell<D> & top) const {
        if (!c.leaf() && c.level < level) { for (auto & s : c.sub) points(s, level, out, top); return; }
        Vd<D> mid; for (int d = 0; d < D; ++d) mid[d] = 2. * (c.lo[d] - top.lo[d] + .5 * c.size) / top.size - 1; const double r = (double) c.size / top.size, det = box.h.prod() / (1 << D);
        for (int i = 0; i < (1 << D); ++i) { Vd<D> p; for (int d = 0; d < D; ++d) p[d] = mid[d] + ((i >> d) & 1 ? 1 : -1) * r / std::sqrt(3.); const double w = c.leaf() ? c.filled() / (1 << D) : c.sub[(std::size_t) i].filled(); out.emplace_back(p, w * (1 << D) * det); }
    }
};
template <int D> std::vector<double> moments(const std::vector<std::pair<Vd<D>, double>> & g) { std::vector<double> r(D == 2 ? 16 : 64, 0.); for (auto & q : g) { double e[D][4]; for (int d = 0; d < D; ++d) { e[d][0] = 1; for (int k = 1; k < 4; ++k) e[d][k] = e[d][k - 1] * q.first[d]; } for (std::size_t k = 0; k < r.size(); ++k) { double t = q.second; for (int d = 0, m = (int) k; d < D; ++d, m /= 4) t *= e[d][m % 4]; r[k] += t; } } return r; }
template <class T> using SVI = sofa::type::Vec<T::spatial_dimensions, UNSIGNED_INTEGER_TYPE>; template <class T> using SVF = sofa::type::Vec<T::spatial_dimensions, double>;
template <class T> Kind kind(typename FictitiousGrid<T>::Type t) { using Y = typename FictitiousGrid<T>::Type; return t == Y::Inside ? INSIDE : t == Y::Outside ? OUTSIDE : t == Y::Boundary ? BOUNDARY : UNDEFINED; }
template <class T> void compare(vp::Ctx & c, FictitiousGrid<T> & g, const Model<T::spatial_dimensions> & m, double threshold) {
    constexpr int D = T::spatial_dimensions, NN = 1 << D; const auto & b = m.box; const double tol = 1e-9 * (b.h.norm() + b.o.norm() + (b.h.array() * b.n.template cast<double>().array()).matrix().norm()); int inner = 0, border = 0;
    std::vector<bool> used((std::size_t) b.count()), ignored((std::size_t) b.count()); std::set<int> nodes; std::vector<Kind> type((std::size_t) b.count()); int count = 0;
    for (int i = 0; i < b.count(); ++i) { const auto & k = m.cells[(std::size_t) i]; type[(std::size_t) i] = k.leaf() ? k.type : BOUNDARY; if (type[(std::size_t) i] == OUTSIDE) continue; (type[(std::size_t) i] == INSIDE ? inner : border)++; if (k.filled() < threshold) { ignored[(std::size_t) i] = true; continue; } used[(std::size_t) i] = true; ++count; for (int j = 0; j < NN; ++j) { Vi<D> q = k.lo; for (int d = 0; d < D; ++d) q[d] += ((j >> d) & 1) * k.size; nodes.insert(b.lattice(q)); } }
    const auto * positions = dynamic_cast<om::Data<sofa::type::vector<typename T::Coord>> *>(g.findData("position")); const auto & P = positions->getValue();
    VP_CHECK((int) g.number_of_cells() == count && (int) g.number_of_nodes() == (int) nodes.size() && P.size() == nodes.size(), "number of cells ", g.number_of_cells(), " nodes ", g.number_of_nodes(), " positions ", P.size(), " expected ", count, " cells and ", nodes.size(), " nodes"); VP_CHECK((int) g.number_of_subdivisions() == b.levels, "number of subdivisions");
    std::set<int> seen_nodes; for (auto & p : P) { Vi<D> k; for (int d = 0; d < D; ++d) { const double t = (p[d] - b.o[d]) / b.h[d]; k[d] = (int) std::lround(t); VP_CHECK(std::fabs(t - k[d]) < 1e-6, "a node is not on the grid"); } const int id = b.lattice(k * b.fine()); VP_CHECK(nodes.count(id) && seen_nodes.insert(id).second, "a node of the sparse grid is not wanted or repeated"); }
    auto corner = [&](int i, int d) -> double { return P[(std::size_t) i][d]; }; std::vector<std::array<unsigned, NN>> cells;
    if constexpr (D == 2) { const auto & q = dynamic_cast<om::Data<sofa::type::vector<sofa::core::topology::BaseMeshTopology::Quad>> *>(g.findData("quads"))->getValue(); for (auto & e : q) cells.push_back({e[0], e[1], e[2], e[3]}); }
    else { const auto & q = dynamic_cast<om::Data<sofa::type::vector<sofa::core::topology::BaseMeshTopology::Hexahedron>> *>(g.findData("hexahedrons"))->getValue(); for (auto & e : q) cells.push_back({e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]}); }
    VP_CHECK((int) cells.size() == count, cells.size(), " elements, expected ", count); std::vector<bool> seen((std::size_t) b.count());
    for (int i = 0; i < count; ++i) {
        const auto e = g.get_cell_element((typename FictitiousGrid<T>::CellIndex) i); const Vd<D> mid = e.center(); Vi<D> k; for (int d = 0; d < D; ++d) { k[d] = (int) std::floor((mid[d] - b.o[d]) / b.h[d]); VP_CHECK(k[d] >= 0 && k[d] < b.n[d], "a cell lies outside of the grid"); } const int id = b.index(k); const auto & cell = m.cells[(std::size_t) id]; VP_CHECK(used[(std::size_t) id] && !seen[(std::size_t) id], "cell ", id, " is ", seen[(std::size_t) id] ? "repeated" : "not wanted"); seen[(std::size_t) id] = true;
        for (int j = 0; j < NN; ++j) { const auto node = cells[(std::size_t) i][(std::size_t) j]; VP_CHECK(node < P.size(), "node index of an element"); for (int d = 0; d < D; ++d) VP_CHECK(std::fabs(corner((int) node, d) - e.node(j)[d]) <= tol, "node ", j, " of element ", i, " is not that of its cell"); }
        for (int j = 0; j < NN; ++j) { const bool hi[3] = {j == 1 || j == 2 || j == 5 || j == 6, j == 2 || j == 3 || j == 6 || j == 7, j > 3}; for (int d = 0; d < D; ++d) VP_CHECK(std::fabs(e.node(j)[d] - (b.o[d] + b.h[d] * (k[d] + hi[d]))) <= tol, "corner ", j, " of cell ", id); }
        if constexpr (D == 3) { const auto & n = g.get_node_indices_of((typename FictitiousGrid<T>::CellIndex) i); for (int j = 0; j < NN; ++j) VP_CHECK(n[(std::size_t) j] == cells[(std::size_t) i][(std::size_t) j], "node indices of cell"); }
        for (int level = -1; level <= b.levels + 1; ++level) { // -1: the default, all levels
            if (level > 0 && level < b.levels && c.flip()) continue; const auto q = level < 0 ? g.get_gauss_nodes_of_cell((typename FictitiousGrid<T>::CellIndex) i) : g.get_gauss_nodes_of_cell((typename FictitiousGrid<T>::CellIndex) i, (UNSIGNED_INTEGER_TYPE) level); std::vector<std::pair<Vd<D>, double>> a, w; for (auto & p : q) { VP_CHECK(p.second >= 0 && p.first.cwiseAbs().maxCoeff() <= 1, "integration point ", show(p.first), " of weight ", p.second); a.emplace_back(Vd<D>(p.first), p.second); } m.points(cell, level < 0 ? b.levels : level, w, cell); const auto A = moments<D>(a), W = moments<D>(w);
            for (std::size_t t = 0; t < A.size(); ++t) VP_CHECK(std::fabs(A[t] - W[t]) <= 1e-9 * b.h.prod(), "level ", level, ": the integral of x^", t % 4, " y^", t / 4 % 4, " z^", t / 16, " over cell ", id, " is ", A[t], " expected ", W[t]); }
    }
    for (unsigned decimals : {0u, 1u, 2u}) { // distribution of the volume ratios
        if (decimals && c.flip()) continue; const auto r = g.cell_volume_ratio_distribution(decimals); std::vector<int> times((std::size_t) b.count()); for (auto & kv : r) for (auto id : kv.second) { VP_CHECK((int) id >= 0 && (int) id < b.count() && !times[(std::size_t) id]++, "cell ", id, " twice in the distribution"); const auto & cell = m.cells[(std::size_t) id]; const double f = cell.leaf() && cell.type != BOUNDARY ? cell.filled() : decimals ? std::round(cell.filled() * std::pow(10, decimals)) / std::pow(10, decimals) : cell.filled(); VP_CHECK(std::fabs(kv.first - f) <= 1e-12 || (decimals && std::fabs(std::fabs(cell.filled() - kv.first) - .5 * std::pow(10, -(int) decimals)) < 1e-12) || (ignored[(std::size_t) id] && kv.first == 0), "volume ratio of cell ", id, " is ", kv.first, " expected ", f); }
        for (int i = 0; i < b.count(); ++i) VP_CHECK(times[(std::size_t) i] == 1, "cell ", i, " (", KIND_NAMES[type[(std::size_t) i]], ") is not in the distribution");
    }
    for (int t = 0; t < 6; ++t) { // types of points: in cells, on faces, edges and nodes between them, outside
        Vd<D> p; Vi<D> lo, hi; bool outside = false; for (int d = 0; d < D; ++d) { const auto mode = c.draw(4); const int k = (int) c.draw((uint64_t) b.n[d]); if (mode < 2) { p[d] = b.o[d] + b.h[d] * (k + c.uniform(.01, .99)); lo[d] = hi[d] = k; } else if (mode == 2) { p[d] = b.o[d] + b.h[d] * k; lo[d] = std::max(k - 1, 0); hi[d] = k; if (k == 0) { p[d] += 1e-9 * b.h[d]; } } else if (c.draw(4) == 0) { p[d] = c.flip() ? b.o[d] - b.h[d] * c.uniform(.01, 2) : b.o[d] + b.h[d] * (b.n[d] + c.uniform(.01, 2)); outside = true; lo[d] = hi[d] = 0; } else { p[d] = b.o[d] + b.h[d] * (k + .5); lo[d] = hi[d] = k; } }
        std::set<Kind> around; bool any = false; for (int i = 0; i < b.count(); ++i) { const Vi<D> k = b.coordinates(i); if ((k.array() >= lo.array()).all() && (k.array() <= hi.array()).all()) { around.insert(type[(std::size_t) i]); any = any || ignored[(std::size_t) i]; } }
        const Kind a = kind<T>(g.get_type_at(p)); if (outside) VP_CHECK(a == OUTSIDE, "a point outside of the grid is ", KIND_NAMES[a]); else if (any) VP_CHECK(a == OUTSIDE || a == BOUNDARY || around.count(a), "type"); else if (around.size() == 1) VP_CHECK(around.count(a), "point ", show(p), " is ", KIND_NAMES[a], " expected ", KIND_NAMES[*around.begin()]); else VP_CHECK(a == BOUNDARY || around.count(a), "point ", show(p), " is ", KIND_NAMES[a]);
        if (!outside && lo != hi) c.label("point between cells");
    }
    for (auto & k : m.cells) if (!k.leaf()) { std::vector<Cell<D> *> L; Model<D>::leaves(const_cast<Cell<D> &>(k), L); for (auto * l : L) inner += l->type == INSIDE; } c.nontrivial(inner > 0 && border > 0); if (inner && border) c.label("inside and boundary leaves"); if (b.levels > 1 && border) c.label("two or more levels"); for (auto i : ignored) if (i) { c.label("ignored cells"); break; }
}
template <int D> Box<D> random_box(vp::Ctx & c, int most, int levels) { Box<D> b; for (int d = 0; d < D; ++d) { b.n[d] = 1 + (int) c.draw((uint64_t) most); b.o[d] = c.flip() ? -(double) c.draw(4) : c.real(-5, 5); b.h[d] = c.flip() ? 1 : std::pow(10., c.real(-2, 2)); } b.levels = (int) c.draw((uint64_t) levels + 1); return b; }
template <class T> void configure(vp::Ctx & c, FictitiousGrid<T> & g, const Box<T::spatial_dimensions> & b, double threshold, bool first_bound, bool second_bound) {
    constexpr int D = T::spatial_dimensions; SVI<T> n; SVF<T> lo, hi; const bool swap = first_bound && second_bound; for (int d = 0; d < D; ++d) { n[d] = (UNSIGNED_INTEGER_TYPE) b.n[d] + 1; lo[d] = b.o[d]; hi[d] = b.o[d] + b.h[d] * b.n[d]; if (swap && c.draw(4) == 0) std::swap(lo[d], hi[d]); }
    set<SVI<T>>(&g, "n", n); if (first_bound) set<SVF<T>>(&g, "min", lo); if (second_bound) set<SVF<T>>(&g, "max", hi); set<UNSIGNED_INTEGER_TYPE>(&g, "maximum_number_of_subdivision_levels", (UNSIGNED_INTEGER_TYPE) b.levels); set<FLOATING_POINT_TYPE>(&g, "volume_threshold", threshold);
}
const double THRESHOLDS[] = {0, 0, 0, .25, .3, .5, .75, 1};
template <class T> void implicit(vp::Ctx & c) {
    constexpr int D = T::spatial_dimensions; om::New<Node> node("node"); const int order = (int) c.draw(4); sofa::core::sptr<Table<T>> iso, other; auto add_iso = [&] { iso = node->template stub_add<Table<T>>(); };
    sofa::core::sptr<FictitiousGrid<T>> g; if (order == 0) { g = node->template stub_add<FictitiousGrid<T>>(); add_iso(); } else { add_iso(); g = node->template stub_add<FictitiousGrid<T>>(); }
    bool linked = false; if (order == 2) { other = iso; iso = node->template stub_add<Table<T>>(); g->findLink("iso_surface")->setTarget(iso.get()); linked = true; c.label("linked"); } else if (order == 3) { other = node->template stub_add<Table<T>>(); c.label("first of two"); }
    Model<D> * last = nullptr; std::unique_ptr<Model<D>> keep; (void) last; (void) linked;
    for (int round = 1 + (int) c.draw(3); round > 0; --round) {
        Box<D> b = random_box<D>(c, D == 2 ? 5 : 3, D == 2 ? 3 : 2); std::vector<double> v((std::size_t) b.lattice()); const auto shape = c.draw(5); const double w = c.flip() ? 0 : .1; Vd<D> q[2], nrm; double r[2]; const Vd<D> L = b.h.array() * b.n.template cast<double>().array();
        for (int k = 0; k < 2; ++k) { for (int d = 0; d < D; ++d) q[k][d] = b.o[d] + L[d] * c.uniform(0, 1); r[k] = c.uniform(.1, .8); } for (int d = 0; d < D; ++d) nrm[d] = c.uniform(-1, 1);
        for (int i = 0; i < b.lattice(); ++i) { const Vd<D> x = b.position(b.at(i)); auto sphere = [&](int k) { return ((x - q[k]).array() / L.array()).matrix().norm() - r[k]; }; double f = shape == 0 ? sphere(0) : shape == 1 ? std::min(sphere(0), sphere(1)) : shape == 2 ? std::max(sphere(0), -sphere(1)) : shape == 3 ? nrm.dot(Vd<D>((x - q[0]).array() / L.array())) : c.uniform(-1, 1); if (std::fabs(f) < w * .5) f = 0; v[(std::size_t) i] = f; }
        iso->box = b; iso->values = v; iso->astray = false; if (other) { other->box = b; for (auto & y : v) y = c.uniform(-1, 1); other->values = v; } const double threshold = THRESHOLDS[c.draw(8)]; configure<T>(c, *g, b, threshold, true, true);
        c.note([&](auto & o) { o << " grid o=" << show(b.o) << " h=" << show(b.h) << " n=" << show(b.n) << " levels=" << b.levels << " threshold=" << threshold << " shape=" << shape << " zeros=" << w; });
        Log::get().reset(); g->init(); VP_CHECK(Log::get().errors.empty(), "an error is reported: ", Log::get().errors[0]); VP_CHECK(!iso->astray, "the level set is evaluated somewhere else than at the nodes of the cells");
        const auto & t = iso->values; Model<D> m(b, [&](const Vi<D> & lo, int size) { int in = 0, out = 0; for (int j = 0; j < (1 << D); ++j) { Vi<D> k = lo; for (int d = 0; d < D; ++d) k[d] += ((j >> d) & 1) * size; const double f = t[(std::size_t) b.lattice(k)]; if (f < 0) ++in; else if (f > 0) ++out; } return in == (1 << D) ? INSIDE : out == (1 << D) ? OUTSIDE : BOUNDARY; });
        compare<T>(c, *g, m, threshold);
    }
}
// the gap of the separating-axis test, see P09
double gap(const V3 * t, const V3 & mid, const V3 & half) {
    V3 q[3]; for (int i = 0; i < 3; ++i) q[i] = (t[i] - mid).array() / half.array(); std::vector<V3> ax = {V3::UnitX(), V3::UnitY(), V3::UnitZ()}; V3 e[3]; double scale = 0; for (int i = 0; i < 3; ++i) { e[i] = q[(i + 1) % 3] - q[i]; scale = std::max(scale, e[i].norm()); } ax.push_back(e[0].cross(e[1])); for (auto & x : e) for (int d = 0; d < 3; ++d) ax.push_back(x.cross(V3::Unit(d)));
    double g = -1e300; for (auto a : ax) { const double l = a.norm(); if (l < 1e-9 * scale) continue; a /= l; double lo = 1e300, hi = -1e300; for (auto & p : q) { lo = std::min(lo, a.dot(p)); hi = std::max(hi, a.dot(p)); } const double r = a.cwiseAbs().sum(); g = std::max(g, std::max(lo - r, -r - hi)); } return g;
}
void tessellated(vp::Ctx & c) {
    using T = Vec3Types; using Tri = sofa::core::topology::BaseMeshTopology::Triangle; using MO = sofa::component::container::MechanicalObject<T>; using Points = sofa::type::vector<T::Coord>; om::New<Node> node("node"); const int source = (int) c.draw(5);
    // where the surface comes from: data; a container and a state; a mesh topology; one of several containers
    sofa::core::sptr<MO> mo; sofa::core::sptr<sofa::core::topology::BaseMeshTopology> topo; sofa::core::sptr<FictitiousGrid<T>> g; const bool early = c.flip(); if (early) g = node->stub_add<FictitiousGrid<T>>();
    if (source == 4) node->stub_add<ct::EdgeSetTopologyContainer>(); if (source == 1 || source == 2 || source == 4) { mo = node->stub_add<MO>(); if (source == 2) topo = node->stub_add<ct::MeshTopology>(); else topo = node->stub_add<ct::TriangleSetTopologyContainer>(); } if (!early) g = node->stub_add<FictitiousGrid<T>>(); static const char * names[] = {"data", "container and state", "mesh topology", "data", "two containers"}; c.label(names[source]);
    for (int round = (source == 0 || source == 3) ? 1 + (int) c.draw(3) : 1, first = 1; round > 0; --round, first = 0) {
        Box<3> b = random_box<3>(c, 6, 2); if (b.levels == 2 && b.count() > 60) b.levels = 1; const V3 size = b.h.array() * b.n.cast<double>().array(); std::vector<V3> X; std::vector<Tri> F; const int pieces = 1 + (int) c.draw(2);
        const bool voxels = c.draw(3) == 0; if (voxels) { // a body of blocks: notches, tunnels, cavities, slightly crooked faces
            c.label("body of blocks"); Vi<3> k; for (int d = 0; d < 3; ++d) k[d] = 1 + (int) c.draw(3); std::vector<double> at[3]; for (int d = 0; d < 3; ++d) { const double lo = c.uniform(.03, .3), hi = c.uniform(.7, .97); for (int i = 0; i <= k[d]; ++i) at[d].push_back(lo + (hi - lo) * (i + (i && i < k[d] ? c.uniform(-.3, .3) : 0)) / k[d]); }
            std::vector<bool> full((std::size_t) k.prod()); for (std::size_t i = 0; i < full.size(); ++i) full[i] = c.draw(4) != 3; full[c.draw(full.size())] = true; auto filled = [&](const Vi<3> & q) { for (int d = 0; d < 3; ++d) if (q[d] < 0 || q[d] >= k[d]) return false; return (bool) full[(std::size_t) (q[0] + k[0] * (q[1] + k[1] * q[2]))]; };
            std::map<int, unsigned> ids; auto vertex = [&](const Vi<3> & q) { const int key = q[0] + 8 * (q[1] + 8 * q[2]); auto it = ids.find(key); if (it != ids.end()) return it->second; V3 x; for (int d = 0; d < 3; ++d) x[d] = b.o[d] + size[d] * (at[d][(std::size_t) q[d]] + c.uniform(-.01, .01)); X.push_back(x); return ids[key] = (unsigned) X.size() - 1; };
            for (int i = 0; i < k.prod(); ++i) { const Vi<3> q(i % k[0], i / k[0] % k[1], i / k[0] / k[1]); if (filled(q)) for (int d = 0; d < 3; ++d) for (int side = 0; side < 2; ++side) { Vi<3> r = q; r[d] += side ? 1 : -1; if (filled(r)) continue; const int u = (d + 1) % 3, v = (d + 2) % 3; unsigned f[4]; for (int t = 0; t < 4; ++t) { Vi<3> w = q; w[d] += side; w[u] += t == 1 || t == 2; w[v] += t > 1; f[t] = vertex(w); } F.push_back(Tri(f[0], f[1], f[2])); F.push_back(Tri(f[0], f[2], f[3])); } }
        }
        for (int p = 0; p < pieces && !voxels; ++p) { // convex pieces strictly in the grid
            const V3 mid(c.uniform(.2, .8), c.uniform(.2, .8), c.uniform(.2, .8)); double room = 1; for (int d = 0; d < 3; ++d) room = std::min({room, mid[d], 1 - mid[d]}); const double r = room * c.uniform(.3, .99); const M3 R = rotation(c); const auto o = (unsigned) X.size(); auto put = [&](V3 q) { q = mid + r * (R * q); X.push_back(b.o + V3(q.array() * size.array())); };
            if (c.flip()) { for (int d = 0; d < 3; ++d) for (int s : {-1, 1}) put(V3::Unit(d) * s); for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j) for (unsigned k = 0; k < 2; ++k) F.push_back(Tri(o + i, o + 2 + j, o + 4 + k)); }
            else { put(V3(1, 1, 1) / 1.8); put(V3(1, -1, -1) / 1.8); put(V3(-1, 1, -1) / 1.8); put(V3(-1, -1, 1) / 1.8); for (unsigned i = 0; i < 4; ++i) F.push_back(Tri(o + i, o + (i + 1) % 4, o + (i + 2) % 4)); }
        }
        // bounds given, or those of the nodes of the surface
        const bool second_time = !first; bool lo_set = c.draw(3) != 0, hi_set = lo_set ? c.draw(4) != 0 : c.draw(3) == 0; if (second_time) lo_set = hi_set = true; if (!lo_set || !hi_set) { V3 lo = X[0], hi = X[0]; for (auto & p : X) { lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); } const V3 end = hi_set ? V3(b.o + size) : hi; if (!lo_set) b.o = lo; b.h = (end - b.o).array() / b.n.cast<double>().array(); c.label(lo_set || hi_set ? "one bound" : "no bounds"); }
        const double threshold = THRESHOLDS[c.draw(8)]; configure<T>(c, *g, b, threshold, lo_set, hi_set); Points P; for (auto & p : X) P.push_back(T::Coord(p[0], p[1], p[2])); sofa::type::vector<Tri> tri; for (auto & f : F) tri.push_back(f);
        // what is wrong with the input, if anything
        const int wrong = lo_set && hi_set && first ? (int) c.draw(24) : 99; if (wrong == 0) { tri[c.draw(tri.size())][c.draw(3)] = (unsigned) P.size() + (unsigned) c.draw(3); } else if (wrong == 1) { const auto k = (std::size_t) c.draw(P.size()); const int d = (int) c.draw(3); P[k][d] = b.o[d] + size[d] * (c.flip() ? 1.3 : -.3); } else if (wrong == 2) tri.clear();
        c.note([&](auto & o) { o << " grid o=" << show(b.o) << " h=" << show(b.h) << " n=" << show(b.n) << " levels=" << b.levels << " threshold=" << threshold << " source=" << source << " bounds " << lo_set << hi_set << " wrong=" << wrong << " points"; for (auto & p : X) o << " " << show(p.transpose()); });
        if (source == 0 || source == 3) { set<Points>(g.get(), "surface_positions", P); set<sofa::type::vector<Tri>>(g.get(), "surface_triangles", tri); } else { topo->d_triangles.setValue(tri); if (source == 2) topo->d_points.setValue(P); mo->x0.setValue(P); auto Q = P; if (c.flip()) for (auto & q : Q) q[0] += 10; mo->x.setValue(Q); }
        bool near = false; Model<3> m(b, [&](const Vi<3> & lo, int s) { const V3 half = b.h * (.5 * s / b.fine()); const V3 mid = b.position(lo) + half; bool hit = false; for (auto & f : F) { const V3 t[3] = {X[f[0]], X[f[1]], X[f[2]]}; const double q = gap(t, mid, half); if (std::fabs(q) < 1e-7 * (1 + (b.o.array().abs() / b.h.array()).maxCoeff())) near = true; hit = hit || q < 0; } return hit ? BOUNDARY : UNDEFINED; });
        if (near) c.discard(); Log::get().reset(); if (wrong <= 2) { g->init(); VP_CHECK(!Log::get().errors.empty() || (wrong == 2 && !Log::get().warnings.empty()), "nothing is reported about the invalid surface (", wrong, ")"); c.label("invalid surface"); return; }
        g->init(); VP_CHECK(Log::get().errors.empty(), "an error is reported: ", Log::get().errors[0]); compare<T>(c, *g, m, threshold);
    }
}
template <class S, class T> void level_set(vp::Ctx & c, bool cylinder) {
    constexpr int D = T::spatial_dimensions; S s; const double r = c.flip() ? c.uniform(.1, 5) : (double) (1 + c.draw(4)), len = c.uniform(.5, 10); Vd<D> q; typename T::Coord C; for (int d = 0; d < D; ++d) C[d] = q[d] = c.flip() ? 0 : c.uniform(-3, 3); const bool defaults = c.draw(8) == 7; const double R = defaults ? 1 : r, H = defaults ? 5 : len; if (defaults) q.setZero(); else { set<double>(&s, "radius", r); set<typename T::Coord>(&s, "center", C); if (cylinder) set<double>(&s, "length", len); }
    for (int k = 0; k < 8; ++k) { Vd<D> u; do { for (int d = 0; d < D; ++d) u[d] = c.uniform(-1, 1); } while ((cylinder ? u.head(2).norm() : u.norm()) < 1e-3); const auto where = c.draw(3); const double f = where == 0 ? c.uniform(0, .999) : where == 1 ? c.uniform(1.001, 3) : 1; Vd<D> x = q + u * (R * f / (cylinder ? u.head(2).norm() : u.norm())); double z = 0; if constexpr (D == 3) if (cylinder) { z = c.uniform(-1, 1) * H; x[2] = q[2] + z; }
        const double v = s.iso_value(x); const bool beyond = cylinder && std::fabs(z) > .5 * H; c.note([&](auto & o) { o << " r=" << R << " length=" << H << " center=" << show(q) << " x=" << show(x); });
        if (beyond) { if (!(v > 0)) c.known("F-CYLINDER-LENGTH", "a point beyond the ends of the cylinder is not outside (its length is ignored)"); if (!(v > 0)) VP_CHECK(where == 0 ? v < 0 : std::fabs(v) <= 1e-9 * (1 + R * R), "iso-value ", v, " beyond the ends of the cylinder"); continue; }
        if (cylinder && std::fabs(std::fabs(z) - .5 * H) < 1e-6) continue; if (where == 0) VP_CHECK(v < 0, "iso-value ", v, " inside"); else if (where == 1) VP_CHECK(v > 0, "iso-value ", v, " outside"); else VP_CHECK(std::fabs(v) <= 1e-9 * (1 + R * R + q.squaredNorm()), "iso-value ", v, " on the surface"); c.nontrivial(); }
}
#if VP_GROUP == 0
const vp::Reg r0("implicit 2D", 1, implicit<Vec2Types>), r3("circle", 1, [](vp::Ctx & c) { level_set<SofaCaribou::topology::CircleIsoSurface, Vec2Types>(c, false); }), r4("sphere", 1, [](vp::Ctx & c) { level_set<SofaCaribou::topology::SphereIsoSurface, Vec3Types>(c, false); }), r5("cylinder", 1, [](vp::Ctx & c) { level_set<SofaCaribou::topology::CylinderIsoSurface, Vec3Types>(c, true); });
#elif VP_GROUP == 1
const vp::Reg r1("implicit 3D", 1, implicit<Vec3Types>);
#else
const vp::Reg r2("tessellated", 1, tessellated);
#endif
}
