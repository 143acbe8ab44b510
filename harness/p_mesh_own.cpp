// P17: copied, moved, swapped, assigned and destroyed meshes never share nor lose nodes and domains.
#include "mesh_model.h"
using namespace mm;
namespace {
template <int D> void history(vp::Ctx & c) {
    live() = 0; World_<D> w(c); w.create();
    const int n = 2 + (int) c.draw(14); int transfers = 0;
    c.note([&](auto & o) { o << "Mesh<" << D << ">"; });
    for (int i = 0; i < n; ++i) {
        if (w.slots.empty()) w.create();
        const auto k = c.draw(10);
        switch (k) {
            case 0: case 1: case 2: if (auto * s = w.any_valid()) { if (c.draw(3) == 0) w.add_orphan(*s); else w.add_any(*s); } break;
            case 3: w.copy(); break; case 4: w.move(); break; case 5: w.swap_(); break; case 6: w.destroy(); break; case 7: w.clone_into(); break;
            case 8: if (w.slots.size() < 4) w.create(); break;
            default: if (auto * s = w.any_valid()) w.remove(*s); break;
        }
        transfers += k >= 3 && k <= 7; w.check();
    }
    c.note([&](auto & o) { o << w.log.str(); });
    c.nontrivial(transfers > 0 && w.log.str().find("add#") != std::string::npos); w.finish();
}
// domains on their own: copies, moves and swaps keep the connectivity (owned or external, however it is laid out)
template <int D> void domain(vp::Ctx & c) {
    using E = std::conditional_t<D == 3, TetL, std::conditional_t<D == 2, Tri2L, Seg1L>>; using Dm = Domain<E, ull>;
    using Table = Eigen::Matrix<ull, Eigen::Dynamic, NN<E>, Eigen::RowMajor>;
    World_<D> w(c); w.create(); auto & s = w.slots[0]; std::ostringstream log;
    struct Held { std::unique_ptr<Dm> d; DomainModel m; };
    std::vector<Held> all; std::vector<std::unique_ptr<Table>> tables; std::deque<std::vector<ull>> raw; bool any = false;
    const int first = 1 + (int) c.draw(2);
    for (int i = 0; i < first; ++i) {
        auto [m, T] = w.template gen_conn<E, ull>(s); m.name = "d" + std::to_string(i); any |= T.rows() > 0; const auto how = c.draw(4); log << " " << (how == 0 ? "owned" : how == 1 ? "external" : how == 2 ? "raw" : "strided") << show(T);
        Dm * a = nullptr;
        if (how <= 1) {
            tables.push_back(std::make_unique<Table>(T)); auto & keep = tables.back();
            a = how == 1 ? new Dm(s.mesh.get(), const_cast<const Table *>(keep.get())) : c.flip() ? new Dm(s.mesh.get(), *keep) : new Dm(s.mesh.get(), const_cast<const Table &>(*keep));
            if (how == 0) { keep->setConstant(987654321ull); if (c.flip()) keep.reset(); }
        } else {
            const Eigen::Index inner = how == 2 ? 1 : 1 + (Eigen::Index) c.draw(3), outer = NN<E> * inner + (how == 2 ? 0 : (Eigen::Index) c.draw(4));
            raw.emplace_back((std::size_t) (T.rows() * outer + 1), 987654321ull); for (Eigen::Index r = 0; r < T.rows(); ++r) for (int k = 0; k < NN<E>; ++k) raw.back()[(std::size_t) (r * outer + k * inner)] = T(r, k);
            a = how == 2 ? new Dm(s.mesh.get(), raw.back().data(), T.rows(), (Eigen::Index) NN<E>) : new Dm(s.mesh.get(), raw.back().data(), T.rows(), (Eigen::Index) NN<E>, outer, inner); log << outer << "," << inner;
        }
        all.push_back({std::unique_ptr<Dm>(a), m}); check_domain<E, ull>(a, m, s.model.X);
    }
    c.nontrivial(any);
    auto conn = [&](const Dm & d, const DomainModel & m) { VP_CHECK(d.number_of_elements() == (ull) m.elements() && d.number_of_nodes_per_elements() == (ull) NN<E>, "size of the domain |", log.str()); for (int e = 0; e < m.elements(); ++e) { const auto i = d.element_indices((ull) e); for (int k = 0; k < NN<E>; ++k) VP_CHECK(i[k] == m.conn[(std::size_t) (e * NN<E> + k)], "connectivity of the domain |", log.str()); } };
    const int n = 1 + (int) c.draw(6);
    for (int i = 0; i < n; ++i) {
        const auto j = c.draw(all.size()); const auto op = c.draw(5); log << " " << op << "#" << j;
        switch (op) {
            case 0: { auto * p = new Dm(*all[j].d); all.push_back({std::unique_ptr<Dm>(p), all[j].m}); VP_CHECK(p->mesh() == nullptr, "the copy of a domain belongs to a mesh"); break; }
            case 1: { auto * p = all[j].d->clone(); auto * q = dynamic_cast<Dm *>(p); VP_CHECK(q && q->mesh() == nullptr, "clone"); all.push_back({std::unique_ptr<Dm>(q), all[j].m}); break; }
            case 2: { auto * p = new Dm(std::move(*all[j].d)); const auto m = all[j].m; all.erase(all.begin() + (long) j); all.push_back({std::unique_ptr<Dm>(p), m}); break; }
            case 3: { const auto q = c.draw(all.size()); log << "," << q; if (q != j) { swap(*all[j].d, *all[q].d); std::swap(all[j].m, all[q].m); } break; }
            default: if (all.size() > 1) all.erase(all.begin() + (long) j); break;
        }
        for (auto & h : all) conn(*h.d, h.m);
    }
    c.note([&](auto & o) { o << Info<E>::name() << log.str(); });
    auto & h = all[c.draw(all.size())]; auto & d = h.d;
    if (d->mesh() == nullptr) { d->attach_to(s.mesh.get()); VP_CHECK(d->mesh() == s.mesh.get(), "attach_to"); }
    check_domain<E, ull>(d.get(), h.m, s.model.X);
    Mesh<D> other(*s.mesh); bool refused = false; try { d->attach_to(&other); } catch (const std::logic_error &) { refused = true; } VP_CHECK(refused && d->mesh() == s.mesh.get(), "a domain was attached to two meshes");
    d->attach_to(s.mesh.get()); VP_CHECK(d->mesh() == s.mesh.get(), "attached twice to the same mesh");
}
const vp::Reg r1("meshes/1D", .5, history<1>), r2("meshes/2D", 1, history<2>), r3("meshes/3D", 1, history<3>), d1("domains/1D", .2, domain<1>), d2("domains/2D", .3, domain<2>), d3("domains/3D", .3, domain<3>);
}
