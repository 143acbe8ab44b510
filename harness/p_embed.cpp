// P14: embedding points in a domain (BarycentricContainer): location, local coordinates, outside points.
#include "meshes.h"
using namespace ms;
static const bool reg = [] {
    for_each_type(Solid{}, [](auto * p) {
        using E = std::remove_pointer_t<decltype(p)>;
        const std::string name = Info<E>::name();
        vp::Reg("locate/" + name, 1, [](vp::Ctx & c) { constexpr int D = DIM<E>;
            const double jit = c.flip() ? 0 : 0.15;
            const auto m = gen_mesh<E>(c, jit, D == 3 ? 2 : D == 2 ? 4 : 8, true);
            Mesh<D> mesh(m.X); const auto * dom = mesh.template add_domain<E>("container", m.T);
            const int n = 1 + (int) c.draw(6);
            Eigen::Matrix<double, Eigen::Dynamic, D> P(n, D); std::vector<int> kind(n), src(n, -1); std::vector<Local<E>> loc(n);
            for (int i = 0; i < n; ++i) {
                kind[i] = (int) c.draw(5); World<E> w; src[i] = (int) c.draw((uint64_t) m.T.rows());
                if (kind[i] == 3 && m.holes.rows() == 0) kind[i] = 2;
                if (kind[i] == 0) { loc[i] = shrink<E>(gen_local<E>(c), c.flip() ? 1 - 1e-6 : 0.95); w = oracle_map<E>(m.element(src[i]), loc[i]); } // inside of an element
                else if (kind[i] == 1) { // on a face, an edge or a node of an element
                    loc[i] = c.flip() ? gen_face_point<E>(c) : gen_local<E>(c);
                    if (!interior(m, carrier(m, src[i], loc[i]))) { loc[i] = shrink<E>(loc[i], 1 - 1e-6); kind[i] = 0; c.label("just inside of the boundary"); }
                    w = oracle_map<E>(m.element(src[i]), loc[i]);
                } else if (kind[i] == 2) { // outside of the hull of the mesh
                    Eigen::Matrix<double, D, 1> u; const int ax = (int) c.draw(D); for (int d = 0; d < D; ++d) u[d] = c.uniform(-1, m.n[d] + 1.); u[ax] = c.flip() ? -0.3 - c.uniform(0, 2) : m.n[ax] + 0.3 + c.uniform(0, 2); w = m.A * u + m.t;
                } else if (kind[i] == 3) w = oracle_map<E>(m.hole((int) c.draw((uint64_t) m.holes.rows())), shrink<E>(gen_local<E>(c), 0.95)); // in an element that is not part of the domain
                else { // just outside of the boundary of the domain
                    loc[i] = gen_face_point<E>(c); if (interior(m, carrier(m, src[i], loc[i]))) kind[i] = 1; else loc[i] = shrink<E>(loc[i], 1 + 1e-5);
                    w = oracle_map<E>(m.element(src[i]), loc[i]);
                }
                P.row(i) = w.transpose();
            }
            c.note([&](auto & o) { o << Info<E>::name() << " X=" << show(m.X) << " T=" << show(m.T) << " P=" << show(P); });
            c.nontrivial(m.T.rows() > 1); for (int k : kind) c.label(k == 0 ? "inside" : k == 1 ? "between elements" : k == 2 ? "outside hull" : k == 3 ? "in a hole" : "just outside of the boundary");
            const auto ct = dom->embed(P);
            const auto & bp = ct.barycentric_points();
            VP_CHECK((int) bp.size() == n, "number of barycentric points ", bp.size());
            const double cond = 1 + m.offset / m.scale, tol = (m.affine ? 1e-11 : 1e-8) * cond * 10;
            std::vector<unsigned long long> outside;
            for (int i = 0; i < n; ++i) {
                const World<E> w = P.row(i).transpose(); const auto e = bp[i].element_index;
                VP_CHECK(e >= -1 && e < (long long) m.T.rows(), "element index ", e);
                if (e < 0) outside.push_back((unsigned long long) i);
                if (kind[i] <= 1) {
                    VP_CHECK(e >= 0, "point ", show(w), " at ", show(loc[i]), " of element ", src[i], kind[i] == 1 ? " (between elements)" : "", " was not found");
                    const World<E> r = oracle_map<E>(m.element((int) e), bp[i].local_coordinates);
                    VP_CHECK((r - w).norm() <= tol * m.scale, "point ", show(w), " located at ", show(r));
                    double x[3] = {0, 0, 0}; for (int d = 0; d < D; ++d) x[d] = bp[i].local_coordinates[d];
                    VP_CHECK(inside(Info<E>::kind, x, 2e-5), "local coordinates ", show(bp[i].local_coordinates), " outside of the element");
                    if (kind[i] == 0) { VP_CHECK((int) e == src[i], "point ", show(w), " of element ", src[i], " found in element ", e); VP_CHECK((bp[i].local_coordinates - loc[i]).norm() <= 20 * tol, "local coordinates ", show(bp[i].local_coordinates), " expected ", show(loc[i])); }
                } else VP_CHECK(e == -1, "point ", show(w), kind[i] == 2 ? " outside of the mesh" : kind[i] == 3 ? " of a hole" : " just outside of the boundary", " found in element ", e);
                const auto one = ct.barycentric_point(w); VP_CHECK(one.element_index == e && (one.local_coordinates - bp[i].local_coordinates).norm() <= 1e-12, "a single query differs from the embedding");
                // every element listed as close comes once, with its own local coordinates; the containing element is among them
                const auto near = ct.closest_elements(w); std::set<long long> ids; bool found = false;
                for (const auto & q : near) { VP_CHECK(q.element_index >= 0 && q.element_index < (long long) m.T.rows() && ids.insert(q.element_index).second, "closest element ", q.element_index); found |= q.element_index == e;
                    if (m.affine && kind[i] <= 1) VP_CHECK((oracle_map<E>(m.element((int) q.element_index), q.local_coordinates) - w).norm() <= tol * m.scale * 100, "local coordinates of a close element"); }
                if (e >= 0) VP_CHECK(found, "the containing element ", e, " is not among the closest elements");
            }
            const auto & o = ct.outside_nodes();
            VP_CHECK(std::vector<unsigned long long>(o.begin(), o.end()) == outside, "the list of outside nodes does not match the barycentric points");
            // the answer for a point does not depend on the other points
            const int k = (int) c.draw((uint64_t) n); const auto alone = dom->embed(Eigen::Matrix<double, 1, D>(P.row(k)));
            VP_CHECK(alone.barycentric_points().size() == 1 && alone.barycentric_points()[0].element_index == bp[k].element_index, "embedding of a single point differs");
        });
    });
    return true;
}();
