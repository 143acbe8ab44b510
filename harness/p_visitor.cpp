// P36: assigning a multi-vector to another one (MultiVecEqualVisitor of the SOFA plugin).
#include "sofa_util.h"
#include "minisofa_sim.h"
#include <SofaCaribou/Visitor/MultiVecEqualVisitor.h>
#include <memory>
namespace {
using Node = sofa::simulation::Node; using Values = std::vector<std::vector<double>>; using sofa::core::VecCoordId; using sofa::core::VecDerivId;
template <class T> class Map : public sofa::core::Mapping<T, T> { // does nothing: only its place in the scene matters
public:
    using B = sofa::core::Mapping<T, T>; SOFA_CLASS(SOFA_TEMPLATE(Map, T), SOFA_TEMPLATE2(sofa::core::Mapping, T, T)); using B::apply; using B::applyJ; using B::applyJT; using MP = sofa::core::MechanicalParams;
    void apply(const MP *, typename B::OutDataVecCoord &, const typename B::InDataVecCoord &) override {}
    void applyJ(const MP *, typename B::OutDataVecDeriv &, const typename B::InDataVecDeriv &) override {}
    void applyJT(const MP *, typename B::InDataVecDeriv &, const typename B::OutDataVecDeriv &) override {}
};
struct Id { bool coord; unsigned index; bool operator==(const Id & o) const { return coord == o.coord && index == o.index; } };
const std::vector<Id> ids = {{true, 1}, {true, 2}, {true, 20}, {true, 21}, {false, 1}, {false, 5}, {false, 20}, {false, 21}};
std::ostream & operator<<(std::ostream & o, const Id & i) { return o << (i.coord ? "coordinates " : "derivatives ") << i.index; }
// one state of the scene, with the values its vectors have to hold
struct Entry {
    bool mapped = false, reached = true; std::string name; std::vector<Values> model = std::vector<Values>(ids.size()); std::vector<bool> tail = std::vector<bool>(ids.size(), false); virtual ~Entry() = default;
    virtual void give(std::size_t i, const Values & v) = 0; virtual Values take(std::size_t i) = 0; virtual int dimension() const = 0;
};
template <class T> struct Of final : Entry {
    using MO = sofa::component::container::MechanicalObject<T>; MO * mo; static constexpr int D = T::spatial_dimensions;
    explicit Of(MO * m) : mo(m) {}
    int dimension() const override { return D; }
    template <class Data> static void put(Data * d, const Values & v) { auto & w = *d->beginEdit(); w.resize(v.size()); for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t k = 0; k < D; ++k) w[i][k] = v[i][k]; d->endEdit(); }
    template <class Data> static Values get(const Data * d) { const auto & w = d->getValue(); Values v(w.size(), std::vector<double>(D)); for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t k = 0; k < D; ++k) v[i][k] = w[i][k]; return v; }
    void give(std::size_t i, const Values & v) override { if (ids[i].coord) put(mo->write(VecCoordId(ids[i].index)), v); else put(mo->write(VecDerivId(ids[i].index)), v); }
    Values take(std::size_t i) override { return ids[i].coord ? get(mo->write(VecCoordId(ids[i].index))) : get(mo->write(VecDerivId(ids[i].index))); }
};
Values random_values(vp::Ctx & c, std::size_t n, int d) { Values v(n, std::vector<double>((std::size_t) d)); for (auto & p : v) for (auto & x : p) x = c.draw(8) == 0 ? 0 : c.uniform(-10, 10); return v; }
struct Scene {
    sofa::core::objectmodel::New<Node> root{"root"}; std::vector<std::unique_ptr<Entry>> all;
    template <class T> void state(vp::Ctx & c, Node * n, bool mapped, bool forces) {
        auto mo = n->stub_add<sofa::component::container::MechanicalObject<T>>(); if (mapped) { auto m = n->stub_add<Map<T>>(); m->f_mapForces.setValue(forces); }
        auto e = std::make_unique<Of<T>>(mo.get()); e->mapped = mapped; e->name = vp::cat("state ", all.size());
        const auto n0 = (std::size_t) c.integer(0, 5); for (std::size_t i = 0; i < ids.size(); ++i) { auto k = n0; if (c.draw(5) == 0) k = (std::size_t) c.integer(0, 6); e->model[i] = random_values(c, k, e->dimension()); e->give(i, e->model[i]); }
        all.push_back(std::move(e));
    }
};
struct Spot { Node * node; bool under_map; bool forces; }; // forces: every mapping above passes the forces on
void history(vp::Ctx & c) {
    Scene s; std::vector<Spot> spots{{s.root.get(), false, true}}; std::vector<bool> forces; const int n = (int) c.integer(1, 5);
    for (int k = 0; k < n; ++k) { // a tree of nodes, each with a state, mapped or not
        Spot at = spots[c.draw(spots.size())]; Node * node = k == 0 && c.flip() ? s.root.get() : at.node->createChild(vp::cat("n", k)).get(); const bool mapped = node != s.root.get() && c.draw(2) == 1, f = !mapped || c.draw(3) != 0;
        switch (c.draw(3)) { case 0: s.state<sofa::defaulttype::Vec3Types>(c, node, mapped, f); break; case 1: s.state<sofa::defaulttype::Vec2Types>(c, node, mapped, f); break; default: s.state<sofa::defaulttype::Vec1Types>(c, node, mapped, f); }
        forces.push_back(at.forces && f); spots.push_back({node, at.under_map || mapped, at.forces && f}); c.label(vp::cat(s.all.back()->dimension(), "D ", mapped ? "mapped" : "independent", f ? "" : " without forces"));
    }
    sofa::core::ExecParams params;
    for (int step = (int) c.integer(1, 6); step > 0; --step) {
        const auto ia = (std::size_t) c.draw(ids.size()), ib = (std::size_t) c.draw(ids.size()); const bool mapped = c.flip(), only = c.flip();
        sofa::core::MultiVecId a; sofa::core::ConstMultiVecId b; if (ids[ia].coord) a = sofa::core::MultiVecCoordId(VecCoordId(ids[ia].index)); else a = sofa::core::MultiVecDerivId(VecDerivId(ids[ia].index)); if (ids[ib].coord) b = sofa::core::MultiVecCoordId(VecCoordId(ids[ib].index)); else b = sofa::core::MultiVecDerivId(VecDerivId(ids[ib].index));
        c.note([&](auto & o) { o << ids[ia] << " := " << ids[ib] << (mapped ? ", mapped" : "") << (only ? ", only mapped" : "") << "\n"; });
        SofaCaribou::visitor::MultiVecEqualVisitor visitor(&params, a, b, mapped, only); visitor.execute(s.root.get());
        for (std::size_t k = 0; k < s.all.size(); ++k) {
            Entry & e = *s.all[k]; const bool reached = mapped || only || forces[k], copied = reached && (e.mapped ? mapped || only : !only); const Values b0 = e.model[ib];
            for (std::size_t i = 0; i < ids.size(); ++i) {
                const Values now = e.take(i);
                if (i == ia && copied) {
                    VP_CHECK(now.size() >= b0.size(), e.name, ": ", ids[ia], " holds ", now.size(), " values of the ", b0.size(), " of ", ids[ib]); for (std::size_t p = 0; p < b0.size(); ++p) VP_CHECK(now[p] == b0[p], e.name, ": value ", p, " of ", ids[ia], " is not that of ", ids[ib]);
                    if (b0.size() >= e.model[i].size()) VP_CHECK(now.size() == b0.size(), e.name, ": ", ids[ia], " holds ", now.size(), " values instead of ", b0.size());
                    e.model[i] = now; // (a longer vector may keep its last values or lose them)
                    if (!b0.empty() && !(ids[ia] == ids[ib])) c.nontrivial();
                } else VP_CHECK(now == e.model[i], e.name, ": ", ids[i], " changed while ", ids[ia], " := ", ids[ib]);
            }
        }
        if (c.draw(3) == 0) { Entry & e = *s.all[c.draw(s.all.size())]; const auto i = (std::size_t) c.draw(ids.size()); e.model[i] = random_values(c, (std::size_t) c.integer(0, 6), e.dimension()); e.give(i, e.model[i]); }
    }
}
// a state of a type that cannot be copied is refused, and keeps its values
struct Other : sofa::defaulttype::Vec3Types { static const char * Name() { return "Rigid3d"; } };
void unknown_type(vp::Ctx & c) {
    sofa::core::objectmodel::New<Node> root("root"); auto mo = root->stub_add<sofa::component::container::MechanicalObject<Other>>(); Of<Other> e(mo.get()); const auto n = (std::size_t) c.integer(1, 4);
    for (std::size_t i = 0; i < ids.size(); ++i) e.give(i, e.model[i] = random_values(c, n, 3));
    sofa::core::ExecParams params; bool refused = false; SofaCaribou::visitor::MultiVecEqualVisitor visitor(&params, sofa::core::MultiVecCoordId(VecCoordId(1)), sofa::core::MultiVecDerivId(VecDerivId(1)));
    try { visitor.execute(root.get()); } catch (const std::exception &) { refused = true; }
    VP_CHECK(refused, "a state of an unknown type is neither copied nor refused"); for (std::size_t i = 0; i < ids.size(); ++i) VP_CHECK(e.take(i) == e.model[i], "a refused copy changed ", ids[i]); c.nontrivial();
}
const vp::Reg r0("history", 1, history), r1("unknown type", .02, unknown_type);
}
