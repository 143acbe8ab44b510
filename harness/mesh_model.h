// Histories over several meshes: the library's meshes side by side with a plain model of what they must hold.
#pragma once
#include "elements.h"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
namespace mm {
using namespace el;
using namespace caribou::topology;
using ull = unsigned long long;
struct DomainModel {
    std::string name; const BaseDomain * ptr = nullptr; int canonical = 0, nodes = 0; std::vector<ull> conn; // conn: row by row
    void (*check)(const BaseDomain *, const DomainModel &, const std::vector<Eigen::Vector3d> &) = nullptr;
    bool counted = false;
    int elements() const { return nodes ? (int) conn.size() / nodes : 0; }
};
struct MeshModel { std::vector<Eigen::Vector3d> X; std::vector<DomainModel> domains; bool unspecified = false; };
template <class E, class NI> void check_domain(const BaseDomain * b, const DomainModel & m, const std::vector<Eigen::Vector3d> & X) {
    const auto * d = dynamic_cast<const Domain<E, NI> *>(b);
    VP_CHECK(d != nullptr, "domain '", m.name, "' changed its type");
    VP_CHECK(d->canonical_dimension() == (ull) CDIM<E> && d->number_of_nodes_per_elements() == (ull) m.nodes && d->number_of_elements() == (ull) m.elements(), "domain '", m.name, "' has ", d->number_of_elements(), " elements of ", d->number_of_nodes_per_elements(), " nodes, expected ", m.elements());
    for (int e = 0; e < m.elements(); ++e) {
        const auto idx = d->element_indices((ull) e); VP_CHECK(idx.size() == m.nodes, "element_indices size");
        for (int k = 0; k < m.nodes; ++k) VP_CHECK((ull) idx[k] == m.conn[e * m.nodes + k], "domain '", m.name, "' element ", e, " node ", k, " is ", (ull) idx[k], " expected ", m.conn[e * m.nodes + k]);
        if constexpr (!Info<E>::rect) {
            const E el = d->element((ull) e);
            for (int k = 0; k < m.nodes; ++k) for (int q = 0; q < DIM<E>; ++q) VP_CHECK(el.node(k)[q] == X[m.conn[e * m.nodes + k]][q], "element ", e, " of domain '", m.name, "' is not at the nodes of its mesh");
        }
    }
}
inline int & live() { static int n = 0; return n; } // number of Counted domains alive
template <class E, class NI> struct Counted : Domain<E, NI> {
    using Base = Domain<E, NI>; using Base::Base;
    template <class... A> explicit Counted(int, A &&... a) : Base(std::forward<A>(a)...) { ++live(); }
    Counted(const Counted & o) : Base(o) { ++live(); }
    ~Counted() override { --live(); }
    BaseDomain * clone() const override { return new Counted(*this); }
};
template <int D> struct World_ {
    using MeshT = Mesh<D>;
    struct Slot { std::unique_ptr<MeshT> mesh; MeshModel model; };
    std::vector<Slot> slots; vp::Ctx & c; std::ostringstream log; int base_live = live();
    std::deque<std::vector<ull>> ext; std::deque<std::vector<int>> exti; // external connectivity, kept alive
    explicit World_(vp::Ctx & ctx) : c(ctx) {}
    static Eigen::Vector3d pad(const Eigen::Matrix<double, 1, D> & r) { Eigen::Vector3d v = Eigen::Vector3d::Zero(); for (int d = 0; d < D; ++d) v[d] = r[d]; return v; }
    std::vector<Eigen::Matrix<double, 1, D>> gen_points() { std::vector<Eigen::Matrix<double, 1, D>> p(c.draw(7)); for (auto & r : p) for (int d = 0; d < D; ++d) r[d] = c.real(-4, 4); return p; }
    std::string gen_name() { return c.pick(std::vector<std::string>{"a", "b", "c", "", "surface"}); }
    Slot & any() { return slots[c.draw(slots.size())]; }
    int index(const Slot & s) const { return (int) (&s - slots.data()); }
    Slot * any_valid() { std::vector<int> v; for (auto & s : slots) if (!s.model.unspecified) v.push_back(index(s)); return v.empty() ? nullptr : &slots[v[c.draw(v.size())]]; }
    void create() {
        auto p = gen_points(); Slot s; for (auto & r : p) s.model.X.push_back(pad(r));
        if (c.flip()) s.mesh = std::make_unique<MeshT>(p);
        else { Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> M((Eigen::Index) p.size(), D); for (std::size_t i = 0; i < p.size(); ++i) M.row((Eigen::Index) i) = p[i]; s.mesh = std::make_unique<MeshT>(M); }
        log << " create#" << slots.size() << "(" << p.size() << " nodes)"; slots.push_back(std::move(s));
    }
    // connectivity of a random domain over the nodes of a mesh
    template <class E, class NI> std::pair<DomainModel, Eigen::Matrix<NI, Eigen::Dynamic, NN<E>, Eigen::RowMajor>> gen_conn(const Slot & s) {
        DomainModel m; m.canonical = CDIM<E>; m.nodes = NN<E>; m.check = &check_domain<E, NI>;
        const int n = s.model.X.empty() ? 0 : (int) c.draw(4); Eigen::Matrix<NI, Eigen::Dynamic, NN<E>, Eigen::RowMajor> T(n, NN<E>);
        for (int i = 0; i < n; ++i) for (int k = 0; k < NN<E>; ++k) { const ull v = c.draw(s.model.X.size()); T(i, k) = (NI) v; m.conn.push_back(v); }
        return {m, T};
    }
    bool has(const Slot & s, const std::string & n) const { return std::any_of(s.model.domains.begin(), s.model.domains.end(), [&](auto & d) { return d.name == n; }); }
    static std::string default_name(const BaseDomain * d) { std::ostringstream o; o << "domain_" << d; return o.str(); }
    template <class E, class NI> void add(Slot & s) {
        auto [m, T] = gen_conn<E, NI>(s); const auto how = c.draw(5); const std::string name = gen_name(); const bool dup = has(s, name);
        log << " add#" << index(s) << "(" << Info<E>::name() << (sizeof(NI) == 8 ? "" : ",int") << ",how " << how << ",'" << name << "'," << T.rows() << ")";
        if (how == 4) { // without a name
            BaseDomain * p = s.mesh->template add_domain<E, NI>(T); m.ptr = p; m.name = default_name(p); s.model.domains.push_back(m); return;
        }
        BaseDomain * p = nullptr; bool refused = false;
        try {
            if (how == 0) p = s.mesh->template add_domain<E, NI>(name, T);
            else if (how == 1) { if constexpr (std::is_same_v<NI, ull>) { if (c.flip()) p = s.mesh->template add_domain<E>(name, T); else p = s.mesh->template add_domain<E>(name.c_str(), T); } else p = s.mesh->template add_domain<E, NI>(name, T); }
            else { // external connectivity, possibly strided
                const NI * data; const Eigen::Index n = T.rows(), inner = how == 2 ? 1 : 2, outer = NN<E> * inner + (how == 2 ? 0 : 3);
                if constexpr (std::is_same_v<NI, ull>) { ext.emplace_back((std::size_t) (n * outer + 1), 987654321ull); data = ext.back().data(); for (Eigen::Index i = 0; i < n; ++i) for (int k = 0; k < NN<E>; ++k) ext.back()[(std::size_t) (i * outer + k * inner)] = T(i, k); }
                else { exti.emplace_back((std::size_t) (n * outer + 1), 987654321); data = exti.back().data(); for (Eigen::Index i = 0; i < n; ++i) for (int k = 0; k < NN<E>; ++k) exti.back()[(std::size_t) (i * outer + k * inner)] = T(i, k); }
                if (how == 2) p = s.mesh->template add_domain<E, NI>(name, data, n, (Eigen::Index) NN<E>);
                else p = s.mesh->template add_domain<E, NI>(name, data, n, (Eigen::Index) NN<E>, outer, inner);
            }
        } catch (const std::domain_error &) { refused = true; }
        VP_CHECK(refused == dup, "adding a domain named '", name, "' was ", refused ? "refused" : "accepted", " while the name was ", dup ? "taken" : "free", " |", log.str());
        if (!refused) { VP_CHECK(p != nullptr, "no domain returned"); m.ptr = p; m.name = name; s.model.domains.push_back(m); }
    }
    void add_any(Slot & s) {
        if constexpr (D == 3) switch (c.draw(6)) { case 0: return add<Tri3L, ull>(s); case 1: return add<TetL, ull>(s); case 2: return add<HexL, int>(s); case 3: return add<Seg3Q, ull>(s); case 4: return add<TetL, int>(s); default: return add<Quad3L, ull>(s); }
        else if constexpr (D == 2) switch (c.draw(4)) { case 0: return add<Tri2L, ull>(s); case 1: return add<Quad2L, int>(s); case 2: return add<Seg2L, ull>(s); default: return add<Quad2Q, ull>(s); }
        else { if (c.flip()) add<Seg1L, ull>(s); else add<Seg1Q, int>(s); }
    }
    using OE = std::conditional_t<D == 3, Tri3L, std::conditional_t<D == 2, Tri2L, Seg1L>>;
    void add_orphan(Slot & s) { // a domain built apart and handed over to the mesh
        auto [m, T] = gen_conn<OE, ull>(s); auto * p = new Counted<OE, ull>(0, nullptr, T); m.counted = true; m.ptr = p;
        VP_CHECK(p->mesh() == nullptr, "an orphan domain has a mesh");
        std::string name = gen_name(); const bool named = c.flip(); if (named && has(s, name)) name = "orphan" + std::to_string(s.model.domains.size()) + std::to_string(live());
        log << " orphan#" << index(s) << "('" << (named ? name : "") << "')";
        BaseDomain * r = named ? s.mesh->add_domain((BaseDomain *) p, name) : s.mesh->add_domain((BaseDomain *) p);
        VP_CHECK(r == p, "another domain was returned"); m.name = named ? name : default_name(p); s.model.domains.push_back(m);
    }
    void add_again(Slot & s) { // a domain that already belongs to a mesh
        Slot * o = any_valid(); if (!o || o->model.domains.empty()) return;
        const auto & d = o->model.domains[c.draw(o->model.domains.size())]; const bool same = o == &s, rename = c.flip(); bool refused = false; BaseDomain * r = nullptr;
        const std::string name = rename ? "other name" : d.name; log << " again#" << index(*o) << "->#" << index(s) << "('" << name << "')";
        try { r = s.mesh->add_domain(const_cast<BaseDomain *>(d.ptr), name); } catch (const std::logic_error &) { refused = true; }
        VP_CHECK(refused == (!same || rename), "adding a domain that is already part of ", same ? "this" : "another", " mesh was ", refused ? "refused" : "accepted", " |", log.str());
        if (!refused) VP_CHECK(r == d.ptr, "another domain was returned");
    }
    void remove(Slot & s) {
        const auto k = c.draw(4); auto & ds = s.model.domains; log << " remove#" << index(s) << "(" << k;
        if (k == 0) { // by name
            const std::string name = (!ds.empty() && c.flip()) ? ds[c.draw(ds.size())].name : gen_name(); log << ",'" << name << "')";
            auto it = std::find_if(ds.begin(), ds.end(), [&](auto & d) { return d.name == name; }); const bool there = it != ds.end();
            const bool r = s.mesh->remove_domain(name); VP_CHECK(r == there, "remove_domain('", name, "') returned ", r, " |", log.str()); if (there) ds.erase(it);
        } else if (k == 1 && !ds.empty()) { const auto i = c.draw(ds.size()); log << ",ptr " << i << ")"; VP_CHECK(s.mesh->remove(ds[i].ptr), "removing a domain of the mesh failed |", log.str()); ds.erase(ds.begin() + (long) i); }
        else { // a domain of another mesh
            log << ",foreign)"; const BaseDomain * p = nullptr; for (auto & o : slots) if (&o != &s && !o.model.unspecified && !o.model.domains.empty()) p = o.model.domains.front().ptr;
            VP_CHECK(!s.mesh->remove(p), "removed a domain that is not part of the mesh |", log.str());
        }
    }
    void reindex(Slot & s) { for (std::size_t i = 0; i < s.model.domains.size(); ++i) s.model.domains[i].ptr = s.mesh->domain((ull) i); } // after a copy: the clones
    void fresh(const Slot & s, const Slot & o) { for (auto & a : s.model.domains) for (auto & b : o.model.domains) VP_CHECK(a.ptr != b.ptr, "two meshes share a domain |", log.str()); }
    void copy() {
        Slot * o = any_valid(); if (!o) return; const int oi = index(*o);
        if (c.flip() && slots.size() < 5) { log << " copy#" << oi << "->#" << slots.size(); Slot s; s.mesh = std::make_unique<MeshT>(*o->mesh); s.model = o->model; slots.push_back(std::move(s)); VP_CHECK(slots.back().mesh->number_of_domains() == slots[oi].model.domains.size(), "number of copied domains"); reindex(slots.back()); fresh(slots.back(), slots[oi]); }
        else { Slot & s = any(); log << " #" << index(s) << "=#" << oi; *s.mesh = *o->mesh; s.model = o->model; VP_CHECK(s.mesh->number_of_domains() == s.model.domains.size(), "number of copied domains"); reindex(s); if (&s != o) fresh(s, *o); }
    }
    void move() {
        Slot * o = any_valid(); if (!o) return; const int oi = index(*o);
        if (c.flip() && slots.size() < 5) { log << " move#" << oi << "->#" << slots.size(); Slot s; s.mesh = std::make_unique<MeshT>(std::move(*o->mesh)); s.model = o->model; o->model = MeshModel{}; o->model.unspecified = true; slots.push_back(std::move(s)); }
        else { Slot & s = any(); if (&s == o) return; log << " #" << index(s) << "=move(#" << oi << ")"; *s.mesh = std::move(*o->mesh); s.model = o->model; o->model = MeshModel{}; o->model.unspecified = true; }
    }
    void swap_() { Slot & a = any(); Slot & b = any(); log << " swap#" << index(a) << "#" << index(b); using std::swap; swap(*a.mesh, *b.mesh); if (&a != &b) swap(a.model, b.model); }
    void destroy() { const auto i = c.draw(slots.size()); log << " destroy#" << i; slots.erase(slots.begin() + (long) i); }
    void clone_into() { // clone a domain of a mesh and give the clone to another mesh with at least as many nodes
        Slot * o = any_valid(); if (!o || o->model.domains.empty()) return; Slot * t = any_valid(); if (t->model.X.size() < o->model.X.size()) t = o;
        DomainModel m = o->model.domains[c.draw(o->model.domains.size())]; BaseDomain * p = m.ptr->clone(); log << " clone#" << index(*o) << ".'" << m.name << "'->#" << index(*t);
        VP_CHECK(p != m.ptr && p->mesh() == nullptr, "the clone of a domain belongs to a mesh |", log.str());
        m.ptr = p; m.name = "clone" + std::to_string(t->model.domains.size()) + "_" + std::to_string(slots.size()); while (has(*t, m.name)) m.name += "x";
        t->mesh->add_domain(p, m.name); t->model.domains.push_back(m);
    }
    void check() {
        int counted = 0;
        for (auto & s : slots) {
            if (s.model.unspecified) continue;
            const MeshT & M = *s.mesh; const auto & m = s.model; const std::string at = " | mesh " + std::to_string(index(s)) + " |" + log.str();
            VP_CHECK(M.dimension() == (ull) D && M.number_of_nodes() == m.X.size(), "number of nodes ", M.number_of_nodes(), " expected ", m.X.size(), at);
            for (std::size_t i = 0; i < m.X.size(); ++i) { VP_CHECK(M.node(i) == m.X[i], "node ", i, at); const auto p = M.position(i); for (int d = 0; d < D; ++d) VP_CHECK(p[d] == m.X[i][d], "position ", i, at); }
            const auto ds = M.domains(); VP_CHECK(ds.size() == m.domains.size() && M.number_of_domains() == m.domains.size(), "number of domains ", ds.size(), " expected ", m.domains.size(), at);
            for (std::size_t i = 0; i < ds.size(); ++i) {
                const auto & d = m.domains[i]; counted += d.counted;
                VP_CHECK(ds[i].first == d.name && ds[i].second == d.ptr && M.domain((ull) i) == d.ptr, "domain ", i, " is '", ds[i].first, "' expected '", d.name, "'", at);
                const auto first = std::find_if(m.domains.begin(), m.domains.end(), [&](auto & q) { return q.name == d.name; });
                VP_CHECK(M.domain(d.name) == first->ptr, "domain '", d.name, "' by name", at);
                VP_CHECK(d.ptr->mesh() == static_cast<const BaseMesh *>(&M), "domain '", d.name, "' does not belong to its mesh", at);
                VP_CHECK(d.ptr->canonical_dimension() == (ull) d.canonical, "canonical dimension", at);
                try { d.check(d.ptr, d, m.X); } catch (vp::Failure & f) { f.msg += at; throw; }
            }
            VP_CHECK(M.domain(std::string("no such domain")) == nullptr, "unknown name", at);
        }
        bool unspec = false; for (auto & s : slots) unspec |= s.model.unspecified;
        if (!unspec) VP_CHECK(live() - base_live == counted, "domains alive: ", live() - base_live, " expected ", counted, " |", log.str());
        else VP_CHECK(live() - base_live >= counted, "domains destroyed while in use |", log.str());
    }
    void finish() { slots.clear(); VP_CHECK(live() == base_live, live() - base_live, " domains outlive their meshes |", log.str()); }
};
} // namespace mm
