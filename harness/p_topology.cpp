// P30: topologies of the SOFA plugin and the way its force fields find, draw and bound them.
#include "sofa_any.h"
using namespace su;
namespace {
namespace om = sofa::core::objectmodel; namespace ct = sofa::component::topology;
using sofa::core::VecCoordId; using sofa::stub::Log;
// the topology holds exactly the elements T over the positions X
template <class E, class T> void check_elements(const T & topo, const Indices<E> & ind, const Pos<E> & X, const char * when) {
    VP_CHECK(topo.number_of_elements() == ind.size(), when, ": ", topo.number_of_elements(), " elements, expected ", ind.size());
    if (ind.empty()) return;
    VP_CHECK(topo.domain() && topo.domain()->number_of_elements() == ind.size(), when, ": domain");
    for (std::size_t e = 0; e < ind.size(); ++e) {
        const auto di = topo.domain()->element_indices(e); const auto el = topo.element(e);
        for (int i = 0; i < NN<E>; ++i) {
            VP_CHECK((PointID) di[i] == ind[e][(std::size_t) i], when, ": node ", i, " of element ", e, " is ", di[i], ", expected ", ind[e][(std::size_t) i]);
            for (int d = 0; d < DIM<E>; ++d) VP_CHECK(el.node(i)[d] == X((Eigen::Index) ind[e][(std::size_t) i], d), when, ": position of node ", i, " of element ", e, " is ", show(el.node(i)), ", expected ", show(X.row((Eigen::Index) ind[e][(std::size_t) i])));
        }
    }
}
template <class E> Indices<E> indices_of(CT<E> * t) { return dynamic_cast<om::Data<Indices<E>> *>(t->findData("indices"))->getValue(); }
template <class E> void topology(vp::Ctx & c) {
    const int n = 1 + (int) c.draw(12); om::New<Node> node("node"); Pos<E> rest = random_pos<E>(c, n), given = rest; const bool has_state = c.draw(4) != 3;
    sofa::core::sptr<State<E>> mo; sofa::core::sptr<CT<E>> topo; const bool state_first = true; (void) state_first;
    if (has_state) { mo = node->template stub_add<State<E>>(); set<typename TypesOf<E>::VecCoord>(mo.get(), "rest_position", coords<E>(rest)); set<typename TypesOf<E>::VecCoord>(mo.get(), "position", coords<E>(c.flip() ? rest : random_pos<E>(c, n))); }
    topo = node->template stub_add<CT<E>>(); VP_CHECK(topo->getTemplateName() == expected_name<E>() && CT<E>::templateName() == expected_name<E>(), "template name ", topo->getTemplateName());
    Indices<E> ind; bool has_indices = false, has_position = false; Pos<E> base; Indices<E> held; Pos<E> held_x; // what the domain must hold
    std::vector<std::unique_ptr<caribou::topology::Mesh<DIM<E>>>> meshes; const om::BaseData * dummy = nullptr; (void) dummy;
    auto assign = [&] { const int m = 1 + (int) c.draw(8); ind = random_indices<E>(c, n, m); if (c.draw(6) == 0) { ind[c.draw(ind.size())][c.draw(NN<E>)] = (PointID) (n + c.draw(3)); c.label("invalid indices"); } if (c.draw(10) == 0) ind.clear(); has_indices = true; set<Indices<E>>(topo.get(), "indices", ind); c.note([&](auto & o) { o << " indices=" << show_ind<E>(ind); }); };
    auto valid = [&] { for (const auto & f : ind) for (int i = 0; i < NN<E>; ++i) if (f[(std::size_t) i] >= (PointID) n) return false; return !ind.empty(); };
    if (c.draw(8) != 0) assign(); if (c.flip()) { given = random_pos<E>(c, n); has_position = true; set<typename TypesOf<E>::VecCoord>(topo.get(), "position", coords<E>(given)); c.note([&](auto & o) { o << " positions given"; }); }
    c.note([&](auto & o) { o << " rest=" << show(rest) << (has_state ? " with a state" : ""); }); bool linked = false, attached = false; const typename CT<E>::Domain * dom = nullptr;
    auto init = [&](bool from_scene) {
        Log::get().reset(); if (from_scene) node->stub_init(); else topo->init(); c.note([&](auto & o) { o << " init"; });
        if (!has_indices) return; if (!has_position && has_state && !ind.empty()) linked = true;
        const bool ok = valid() && (has_position || linked);
        if (ok) { held = ind; held_x = has_position ? given : rest; attached = false; c.nontrivial(ind.size() > 1); } else { VP_CHECK(!Log::get().warnings.empty(), "nothing is reported about indices or positions that cannot make a topology"); c.label("reported"); }
    };
    init(true); check_elements<E>(*topo, held, held_x, "after init");
    for (int s = (int) c.draw(8); s > 0; --s) {
        switch (c.draw(5)) {
            case 0: assign(); break; // without effect until the next initialization
            case 1: { // new positions
                const Pos<E> p = random_pos<E>(c, n); if (has_position) { given = p; set<typename TypesOf<E>::VecCoord>(topo.get(), "position", coords<E>(p)); } else if (has_state) { if (c.flip()) { rest = p; set<typename TypesOf<E>::VecCoord>(mo.get(), "rest_position", coords<E>(p)); } else set<typename TypesOf<E>::VecCoord>(mo.get(), "position", coords<E>(p)); } break; }
            case 2: { if (attached && !valid()) break; if (!has_indices) break; if (!valid()) break; init(false); c.label("initialized again"); break; }
            case 3: { // a domain given by its owner
                const Pos<E> p = random_pos<E>(c, n); const int m = 1 + (int) c.draw(6); const auto T = random_indices<E>(c, n, m); Eigen::Matrix<PointID, Eigen::Dynamic, NN<E>, Eigen::RowMajor> M(m, NN<E>); for (int e = 0; e < m; ++e) for (int i = 0; i < NN<E>; ++i) M(e, i) = T[(std::size_t) e][(std::size_t) i];
                meshes.emplace_back(new caribou::topology::Mesh<DIM<E>>(p)); dom = meshes.back()->template add_domain<E, PointID>(M); topo->attachDomain(dom); attached = true; held = ind = T; held_x = p; has_indices = true; c.note([&](auto & o) { o << " attach " << show_ind<E>(T); }); c.label("attached domain"); c.nontrivial(); break; }
            case 4: break;
        }
        check_elements<E>(*topo, held, held_x, "after a change"); if (attached) VP_CHECK(topo->domain() == dom, "the attached domain is not the one returned"); if (has_indices) VP_CHECK(show_ind<E>(indices_of<E>(topo.get())) == show_ind<E>(ind), "the indices attribute is ", show_ind<E>(indices_of<E>(topo.get())), ", expected ", show_ind<E>(ind));
    }
}
// -- force fields
template <class E> struct Field : SofaCaribou::forcefield::CaribouForcefield<E> {
    using Base = SofaCaribou::forcefield::CaribouForcefield<E>; using M = sofa::core::MechanicalParams; using DC = om::Data<typename Base::VecCoord>; using DD = om::Data<typename Base::VecDeriv>;
    void addForce(const M *, DD &, const DC &, const DD &) override {} void addDForce(const M *, DD &, const DD &) override {} SReal getPotentialEnergy(const M *, const DC &) const override { return 0; }
};
template <class E> using Other = std::conditional_t<Info<E>::kind == TRI, std::conditional_t<DIM<E> == 2, Quad2L, Quad3L>, std::conditional_t<Info<E>::kind == QUAD, std::conditional_t<DIM<E> == 2, Tri2L, Tri3L>, std::conditional_t<Info<E>::kind == TET, HexL, TetL>>>; // another element type
template <class E> using Container = std::conditional_t<Info<E>::kind == TRI, ct::TriangleSetTopologyContainer, std::conditional_t<Info<E>::kind == QUAD, ct::QuadSetTopologyContainer, std::conditional_t<Info<E>::kind == TET, ct::TetrahedronSetTopologyContainer, ct::HexahedronSetTopologyContainer>>>;
using P3 = V3; using Tri = std::array<P3, 3>;
bool same(const Tri & a, const Tri & b, double tol) { int p[3] = {0, 1, 2}; do { bool ok = true; for (int i = 0; i < 3 && ok; ++i) ok = (a[i] - b[p[i]]).norm() <= tol; if (ok) return true; } while (std::next_permutation(p, p + 3)); return false; }
template <class E> void forcefield(vp::Ctx & c) {
    using FF = Field<E>; using VC = typename TypesOf<E>::VecCoord; constexpr bool quadratic = Info<E>::order == 2;
    const int n = 1 + (int) c.draw(12); om::New<Node> root("root"); Node * node = c.flip() ? root->createChild("body").get() : root.get();
    Pos<E> rest = random_pos<E>(c, n), x = c.flip() ? rest : random_pos<E>(c, n); const int state = (int) c.draw(8); // 7: none, 6: of another dimension
    sofa::core::sptr<State<E>> mo; if (state < 6) { mo = node->template stub_add<State<E>>(); set<VC>(mo.get(), "rest_position", coords<E>(rest)); set<VC>(mo.get(), "position", coords<E>(x)); }
    using Wrong = std::conditional_t<DIM<E> == 2, Tri3L, Tri2L>; if (state == 6) node->template stub_add<State<Wrong>>();
    struct T { om::BaseObject * o; bool compatible, caribou; Indices<E> ind; }; std::vector<T> all; const int count = (int) c.draw(4);
    for (int i = 0; i < count; ++i) {
        const auto ind = random_indices<E>(c, n, 1 + (int) c.draw(6));
        switch (c.draw(4)) {
            case 0: { auto t = node->template stub_add<CT<E>>(); set<Indices<E>>(t.get(), "indices", ind); if (state >= 6) set<VC>(t.get(), "position", coords<E>(rest)); t->setName("caribou" + std::to_string(i)); all.push_back({t.get(), true, true, ind}); break; }
            case 1: { auto t = node->template stub_add<Container<E>>(); t->setName("container" + std::to_string(i)); if constexpr (!quadratic) { static const char * names[] = {"", "triangles", "quads", "tetrahedra", "hexahedra"}; (void) names; set<Indices<E>>(t.get(), Info<E>::kind == TRI ? "triangles" : Info<E>::kind == QUAD ? "quads" : Info<E>::kind == TET ? "tetrahedra" : "hexahedra", ind); } all.push_back({t.get(), !quadratic, false, ind}); break; }
            case 2: { auto t = node->template stub_add<CT<Other<E>>>(); t->setName("other" + std::to_string(i)); all.push_back({t.get(), false, true, {}}); break; }
            case 3: { auto t = node->template stub_add<Container<Other<E>>>(); t->setName("incompatible" + std::to_string(i)); all.push_back({t.get(), false, false, {}}); break; }
        }
        c.note([&](auto & o) { o << " " << all.back().o->getName() << show_ind<E>(all.back().ind); });
    }
    if (node != root.get() && c.flip()) { auto t = root->template stub_add<CT<E>>(); set<Indices<E>>(t.get(), "indices", random_indices<E>(c, n, 1)); set<VC>(t.get(), "position", coords<E>(rest)); t->setName("elsewhere"); } // not of this node
    std::vector<T *> comp; for (auto & t : all) if (t.compatible) comp.push_back(&t);
    { // creation by the factory
        om::BaseObjectDescription arg("ff", "CaribouForcefield"); std::string name = expected_name<E>(), tpl; const int k = (int) c.draw(4); T * target = nullptr; bool elsewhere = false;
        if (k == 1) tpl = name; if (k == 2) { tpl = name; for (auto & ch : tpl) if (c.flip()) ch = (char) (std::isupper((unsigned char) ch) ? std::tolower((unsigned char) ch) : std::toupper((unsigned char) ch)); } if (k == 3) tpl = c.flip() ? expected_name<Other<E>>() : name + "0";
        if (k || c.flip()) arg.setAttribute("template", tpl);
        if (!all.empty() && c.flip()) { target = &all[c.draw(all.size())]; arg.setAttribute("topology", (node == root.get() || c.flip()) ? "@" + target->o->getName() : "@/body/" + target->o->getName()); }
        else if (c.draw(6) == 0) { elsewhere = true; arg.setAttribute("topology", "@nowhere"); }
        const bool ok = state < 6 && (k == 3 ? false : k ? true : target ? target->compatible : elsewhere ? false : !comp.empty());
        const bool got = FF::Base::template canCreate<FF>((FF *) nullptr, node, &arg); c.note([&](auto & o) { o << " canCreate template='" << tpl << "' topology='" << arg.getAttribute("topology", "") << "'"; });
        VP_CHECK(got == ok, "creation ", got ? "accepted" : "refused", ", expected ", ok); VP_CHECK(ok || !arg.errors.empty(), "creation refused without a reason");
        if (ok && k == 0 && !target) { auto * o = node->template get<om::BaseObject>(std::string(arg.getAttribute("topology", "@")).substr(1)); VP_CHECK(o == comp[0]->o, "the topology deduced is '", arg.getAttribute("topology", ""), "'"); }
    }
    auto ff = node->template stub_add<FF>(); VP_CHECK(ff->getTemplateName() == expected_name<E>(), "template name ", ff->getTemplateName()); T * use = nullptr;
    if (!comp.empty() && c.flip()) { use = comp[c.draw(comp.size())]; ff->findLink("topology")->setTarget(use->o); } else if (comp.size() == 1) use = comp[0];
    if (state >= 6) use = nullptr; // without a state nothing is done
    Log::get().reset(); root->stub_init(); c.note([&](auto & o) { o << " rest=" << show(rest) << " x=" << show(x); });
    const Indices<E> none; VP_CHECK(ff->number_of_elements() == (use ? use->ind.size() : 0), ff->number_of_elements(), " elements in the force field, expected ", use ? use->ind.size() : 0);
    if (!use) { VP_CHECK(!Log::get().warnings.empty(), "nothing is reported about a force field without a topology or a state"); c.label("without a topology"); } else { check_elements<E>(*ff->topology(), use->ind, rest, "topology of the force field"); c.label(use->caribou ? "Caribou topology" : "SOFA container"); c.nontrivial(use->ind.size() > 1); }
    double scale = .85;
    if (state < 6) for (int s = 1 + (int) c.draw(2); s > 0; --s) { // the box and the drawing follow the current positions
        if (c.flip()) { x = random_pos<E>(c, n); mo->write(VecCoordId::position())->setValue(coords<E>(x)); }
        ff->computeBBox(nullptr, true); const auto & bb = ff->f_bbox.getValue();
        for (int d = 0; d < 3; ++d) { const double lo = d < DIM<E> ? x.col(std::min(d, DIM<E> - 1)).minCoeff() : 0, hi = d < DIM<E> ? x.col(std::min(d, DIM<E> - 1)).maxCoeff() : 0; VP_CHECK(bb.minBBox()[(unsigned) d] <= lo && bb.maxBBox()[(unsigned) d] >= hi && bb.minBBox()[(unsigned) d] >= lo - 1e-9 && bb.maxBBox()[(unsigned) d] <= hi + 1e-9, "bounding box along ", d, ": ", bb.minBBox()[(unsigned) d], " ", bb.maxBBox()[(unsigned) d], " expected ", lo, " ", hi); }
        if (c.flip()) { scale = c.real(0, 1); set<double>(ff.get(), "draw_scale", scale); }
        sofa::core::visual::VisualParams vp; ff->draw(&vp); std::vector<Tri> drawn; for (const auto & g : vp.drawTool()->triangles) { VP_CHECK(g.size() % 3 == 0, "incomplete triangle"); for (std::size_t i = 0; i < g.size(); i += 3) { Tri t; for (int k = 0; k < 3; ++k) for (int d = 0; d < 3; ++d) t[(std::size_t) k][d] = g[i + (std::size_t) k][(unsigned) d]; drawn.push_back(t); } }
        std::vector<bool> used(drawn.size(), false); std::size_t expected = 0; auto take = [&](const Tri & t) { for (std::size_t i = 0; i < drawn.size(); ++i) if (!used[i] && same(drawn[i], t, 1e-9)) { used[i] = true; return (int) i; } return -1; };
        static const std::vector<std::vector<int>> FT = {{0, 1, 2}}, FQ = {{0, 1, 2, 3}}, FTET = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {3, 1, 2}}, FHEX = {{0, 3, 2, 1}, {0, 4, 7, 3}, {1, 2, 6, 5}, {0, 1, 5, 4}, {2, 3, 7, 6}, {4, 5, 6, 7}};
        const auto & faces = Info<E>::kind == TRI ? FT : Info<E>::kind == QUAD ? FQ : Info<E>::kind == TET ? FTET : FHEX;
        if (use) for (std::size_t e = 0; e < use->ind.size(); ++e) {
            NodeMat<E> P; for (int i = 0; i < NN<E>; ++i) P.row(i) = x.row((Eigen::Index) use->ind[e][(std::size_t) i]); Local<E> ctr = Local<E>::Zero(); if (Info<E>::kind == TRI) ctr.setConstant(1. / 3); if (Info<E>::kind == TET) ctr.setConstant(.25);
            const World<E> m = oracle_map<E>(P, ctr); auto pt = [&](int i) { V3 r = V3::Zero(); for (int d = 0; d < DIM<E>; ++d) r[d] = m[d] + scale * (P(i, d) - m[d]); return r; };
            for (const auto & f : faces) { expected += f.size() - 2; if (f.size() == 3) VP_CHECK(take({pt(f[0]), pt(f[1]), pt(f[2])}) >= 0, "a face of element ", e, " is not drawn: ", show(pt(f[0])), show(pt(f[1])), show(pt(f[2])), " drawn ", drawn.empty() ? std::string() : show(drawn[0][0]) + show(drawn[0][1]) + show(drawn[0][2])); else { const int a = take({pt(f[0]), pt(f[1]), pt(f[2])}); bool ok = a >= 0 && take({pt(f[2]), pt(f[3]), pt(f[0])}) >= 0; if (!ok) { if (a >= 0) used[(std::size_t) a] = false; ok = take({pt(f[1]), pt(f[2]), pt(f[3])}) >= 0 && take({pt(f[3]), pt(f[0]), pt(f[1])}) >= 0; } VP_CHECK(ok, "a face of element ", e, " is not drawn"); } }
        }
        VP_CHECK(drawn.size() == expected, drawn.size(), " triangles drawn, expected ", expected);
    }
}
#define SUB(E) const vp::Reg t_##E("topology " + std::string(Info<E>::name()), 1, topology<E>), f_##E("force field " + std::string(Info<E>::name()), 1, forcefield<E>)
#if VP_GROUP == 0
SUB(Tri2L); SUB(Tri3L); SUB(Tri2Q);
#elif VP_GROUP == 1
SUB(Tri3Q); SUB(Quad2L); SUB(Quad3L);
#elif VP_GROUP == 2
SUB(Quad2Q); SUB(Quad3Q); SUB(TetL);
#else
SUB(TetQ); SUB(HexL); SUB(HexQ);
#endif
}
