// P32: barycentric mappings of the SOFA plugin.
#include "sofa_any.h"
#include <SofaCaribou/Mapping/CaribouBarycentricMapping.inl>
#include <SofaCaribou/Mapping/CaribouBarycentricMapping[Tetrahedron].h>
#include <SofaCaribou/Mapping/CaribouBarycentricMapping[Hexahedron].h>
using namespace su;
namespace {
namespace om = sofa::core::objectmodel; using sofa::core::MechanicalParams; using sofa::core::VecCoordId; using sofa::core::VecDerivId; using sofa::stub::Log;
template <class E> using Map = SofaCaribou::mapping::CaribouBarycentricMapping<E, Types>;
template <class E> using Other = std::conditional_t<Info<E>::kind == TET, HexL, TetL>;
template <class E> Indices<E> indices(const ms::M<E> & m) { Indices<E> r; for (int e = 0; e < m.T.rows(); ++e) { FA<E> f; for (int i = 0; i < NN<E>; ++i) f[(std::size_t) i] = (PointID) m.T(e, i); r.push_back(f); } return r; }
template <class E> void history(vp::Ctx & c) {
    auto m = ms::gen_mesh<E>(c, c.flip() ? .15 : 0, (int) (1 + c.draw(2)), true); if (m.X.rows() > 90) c.discard();
    const double h = smallest_edge<E>(m); const double cond = 1 + m.offset / m.scale, tol = (m.affine ? 1e-11 : 1e-8) * cond * 1000; const auto n = m.X.rows();
    om::New<Node> root("root"); Node * body = c.flip() ? root->createChild("body").get() : root.get(); const bool same_node = c.draw(8) == 7; Node * child = same_node ? body : body->createChild("mapped").get();
    auto parent = body->template stub_add<MO>(); PX x = m.X; if (c.flip()) x = deform(c, m, .3, .05, h); set<Vec>(parent.get(), "rest_position", vec(m.X)); set<Vec>(parent.get(), "position", vec(x));
    // the topology, somewhere the mapping can find it
    using CT_ = CT<E>; const int where = (int) c.draw(4); Node * tn = where == 0 ? body : where == 1 && !same_node ? child : where == 2 ? root.get() : body; const bool linked = where == 3 || same_node || c.draw(4) == 0;
    auto add = [&](Node * nd, const ms::M<E> & mesh) { auto t = nd->template stub_add<CT_>(); set<Indices<E>>(t.get(), "indices", indices<E>(mesh)); set<Vec>(t.get(), "position", vec(mesh.X)); return t; };
    const bool later = tn == child; sofa::core::sptr<CT_> topo; if (!later) topo = add(tn, m); if (c.draw(4) == 0) body->template stub_add<CT<Other<E>>>(); if (linked && c.flip()) add(body, ms::gen_mesh<E>(c, 0, 1, false)); // topologies that must not be used
    if (later) topo = add(child, m); if (!linked && !later && tn == body && body != root.get() && c.flip()) add(root.get(), ms::gen_mesh<E>(c, 0, 1, false)); if (!linked && tn != child && !same_node && c.draw(4) == 0) add(child, ms::gen_mesh<E>(c, 0, 1, false)); // the parent node comes first
    auto mapped = child->template stub_add<MO>(); auto map = child->template stub_add<Map<E>>(); map->setModels(parent.get(), mapped.get()); if (linked) map->findLink("topology")->setTarget(topo.get());
    MX J; int outside = 0, np = 0; PX P;
    auto points = [&](bool allow_outside) {
        np = 1 + (int) c.draw(6); P.resize(np, 3); J = MX::Zero(np, n); outside = 0;
        for (int i = 0; i < np; ++i) {
            const int e = (int) c.draw((uint64_t) m.T.rows()); Local<E> loc; World<E> w;
            if (allow_outside && c.draw(8) == 0) { loc = ms::gen_face_point<E>(c); if (!ms::interior(m, ms::carrier(m, e, loc))) { w = oracle_map<E>(m.element(e), ms::shrink<E>(loc, 1 + 1e-4)); ++outside; P.row(i) = w.transpose(); c.label("outside"); continue; } }
            if (c.draw(3) == 0) { loc = c.flip() ? ms::gen_face_point<E>(c) : gen_local<E>(c); if (!ms::interior(m, ms::carrier(m, e, loc))) loc = ms::shrink<E>(loc, 1 - 1e-6); else c.label("between elements"); } else loc = ms::shrink<E>(gen_local<E>(c), .95);
            w = oracle_map<E>(m.element(e), loc); P.row(i) = w.transpose(); double xi[3] = {loc[0], loc[1], loc[2]}; for (int k = 0; k < NN<E>; ++k) J(i, (Eigen::Index) m.T(e, k)) += basis<double>(Info<E>::kind, Info<E>::order, k, xi);
        }
        c.note([&](auto & o) { o << " points=" << show(P) << (outside ? " (some outside)" : ""); });
    };
    points(c.draw(4) == 0); const bool empty = c.draw(16) == 15; // nothing to map
    if (!empty) { set<Vec>(mapped.get(), c.flip() ? "rest_position" : "position", vec(P)); if (c.draw(4) == 0) { set<Vec>(mapped.get(), "rest_position", vec(P)); set<Vec>(mapped.get(), "position", vec(random_px(c, np, 1))); } }
    c.note([&](auto & o) { o << " X=" << show(m.X) << " T=" << show(m.T) << " x=" << show(x); });
    Log::get().reset(); root->stub_init(); bool ok = !empty && outside == 0; if (!ok) VP_CHECK(!Log::get().errors.empty(), "nothing is reported, though ", empty ? "there is nothing to map" : "nodes lie outside"); else VP_CHECK(Log::get().errors.empty(), "an error is reported: ", Log::get().errors[0]);
    if (empty) return; const double big = (m.X.cwiseAbs().maxCoeff() + x.cwiseAbs().maxCoeff());
    if (ok) { const PX y = mat_of(mapped, VecCoordId::position()); VP_CHECK(y.rows() == np && (y - J * x).cwiseAbs().maxCoeff() <= tol * big, "initial mapped positions ", show(y), " expected ", show(J * x)); }
    MechanicalParams mp; sofa::core::ConstraintParams cp; sofa::core::BaseMapping & base = *map; (void) base; int calls = 0;
    for (int s = 2 + (int) c.draw(6); s > 0; --s) switch (c.draw(6)) {
        case 0: case 1: { // positions
            if (c.flip()) x = deform(c, m, .5, .1, h); parent->write(VecCoordId::position())->setValue(vec(x)); const PX y0 = random_px(c, np, 1); mapped->write(VecCoordId::position())->setValue(vec(y0)); base.apply(&mp, VecCoordId::position(), VecCoordId::position()); const PX y = mat_of(mapped, VecCoordId::position()); ++calls;
            if (ok) VP_CHECK((y - J * x).cwiseAbs().maxCoeff() <= tol * (big + x.cwiseAbs().maxCoeff()), "mapped positions ", show(y), " expected ", show(J * x)); else VP_CHECK(y == y0, "positions are mapped by a mapping that has nodes outside");
            VP_CHECK(mat_of(parent, VecCoordId::position()) == x, "the parent positions changed"); break; }
        case 2: { const PX v = random_px(c, n, 1), y0 = random_px(c, np, 1); parent->write(VecDerivId::velocity())->setValue(vec(v)); mapped->write(VecDerivId::velocity())->setValue(vec(y0)); base.applyJ(&mp, VecDerivId::velocity(), VecDerivId::velocity()); const PX y = mat_of(mapped, VecDerivId::velocity()); if (ok) VP_CHECK((y - J * v).cwiseAbs().maxCoeff() <= tol, "mapped velocities ", show(y), " expected ", show(J * v)); else VP_CHECK(y == y0, "velocities are mapped by a mapping that has nodes outside"); ++calls; break; }
        case 3: { const PX f = random_px(c, np, 1), g0 = random_px(c, n, c.flip() ? 1 : 0); mapped->write(VecDerivId::force())->setValue(vec(f)); parent->write(VecDerivId::force())->setValue(vec(g0)); base.applyJT(&mp, VecDerivId::force(), VecDerivId::force()); const PX g = mat_of(parent, VecDerivId::force()); if (ok) { VP_CHECK((g - g0 - J.transpose() * f).cwiseAbs().maxCoeff() <= tol * np, "forces on the parent ", show(g), " expected ", show(g0 + J.transpose() * f)); VP_CHECK((g - g0).colwise().sum().isApprox(f.colwise().sum(), 1e-6) || ((g - g0).colwise().sum() - f.colwise().sum()).norm() <= tol * np * (double) n, "the net force changes"); } else VP_CHECK(g == g0, "forces are mapped by a mapping that has nodes outside"); ++calls; break; }
        case 4: { // lines of constraints
            using MD = Types::MatrixDeriv; om::Data<MD> in, out; const int lines = 1 + (int) c.draw(3); std::map<unsigned, PX> A, B; auto * pi = in.beginEdit(); auto * po = out.beginEdit();
            for (int l = 0; l < lines; ++l) { const unsigned id = (unsigned) c.draw(6); PX & a = A.emplace(id, PX::Zero(np, 3)).first->second; auto row = pi->writeLine(id); for (int k = (int) c.draw(4); k > 0; --k) { const int i = (int) c.draw((uint64_t) np); const V3 v(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)); a.row(i) += v.transpose(); row.addCol((unsigned) i, Types::Deriv(v[0], v[1], v[2])); } }
            if (c.flip()) { const unsigned id = (unsigned) c.draw(6); PX & b = B.emplace(id, PX::Zero(n, 3)).first->second; auto row = po->writeLine(id); const int i = (int) c.draw((uint64_t) n); b.row(i) << 1, 2, 3; row.addCol((unsigned) i, Types::Deriv(1, 2, 3)); }
            in.endEdit(); out.endEdit(); map->applyJT(&cp, out, in); for (unsigned id = 0; id < 6; ++id) { PX ref = B.count(id) ? B[id] : PX(PX::Zero(n, 3)); if (ok && A.count(id)) ref += J.transpose() * A[id]; PX got = PX::Zero(n, 3); const auto & st = out.getValue().stub(); auto it = st.find(id); if (it != st.end()) for (const auto & kv : it->second) { VP_CHECK((Eigen::Index) kv.first < n, "column ", kv.first); for (int d = 0; d < 3; ++d) got((Eigen::Index) kv.first, d) += kv.second[(unsigned) d]; } VP_CHECK((got - ref).cwiseAbs().maxCoeff() <= tol * np, "constraint line ", id, ": ", show(got), " expected ", show(ref)); } ++calls; break; }
        case 5: { // mapped again
            if (c.flip()) points(false); else points(c.flip()); set<Vec>(mapped.get(), "position", vec(P)); set<Vec>(mapped.get(), "rest_position", vec(P)); for (auto id : {VecDerivId::velocity(), VecDerivId::force()}) mapped->write(id)->setValue(vec(PX::Zero(np, 3))); Log::get().reset(); map->init(); ok = outside == 0; VP_CHECK(Log::get().errors.empty() == ok, "errors reported: ", Log::get().errors.size()); c.label("initialized again"); if (ok) { const PX y = mat_of(mapped, VecCoordId::position()); x = mat_of(parent, VecCoordId::position()); VP_CHECK((y - J * x).cwiseAbs().maxCoeff() <= tol * (big + x.cwiseAbs().maxCoeff()), "mapped positions after init ", show(y), " expected ", show(J * x)); } break; }
    }
    c.nontrivial(calls > 0 && ok && np > 1);
}
template <class E> void creation(vp::Ctx & c) {
    om::New<Node> root("root"); Node * body = root->createChild("body").get(); Node * child = body->createChild("mapped").get(); Node * nodes[] = {root.get(), body, child}; const char * abs[] = {"/", "/body/", "/body/mapped/"}; const char * rel[] = {"../../", "../", ""};
    int found = -1; bool any = false; std::vector<std::pair<int, bool>> all; for (int i = 0; i < 3; ++i) if (c.flip()) { const bool match = c.draw(3) != 2; if (match) nodes[i]->template stub_add<CT<E>>()->setName("t"); else nodes[i]->template stub_add<CT<Other<E>>>()->setName("t"); all.push_back({i, match}); if (match) any = true; } (void) found;
    om::BaseObjectDescription arg("map", "CaribouBarycentricMapping"); std::string name = expected_name<E>(), tpl; const int k = (int) c.draw(4); if (k == 1) tpl = name; if (k == 2) { tpl = name; for (auto & ch : tpl) if (c.flip()) ch = (char) (std::isupper((unsigned char) ch) ? std::tolower((unsigned char) ch) : std::toupper((unsigned char) ch)); } if (k == 3) tpl = c.flip() ? expected_name<Other<E>>() : name + "0"; if (k || c.flip()) arg.setAttribute("template", tpl);
    bool ok = k == 3 ? false : k ? true : any; std::string path; if (!all.empty() && c.flip()) { const auto t = all[c.draw(all.size())]; path = std::string("@") + (c.flip() ? abs[t.first] : rel[t.first]) + "t"; if (k == 0) ok = t.second; } else if (c.draw(4) == 0) { path = "@/body/nowhere"; if (k == 0) ok = false; } if (!path.empty()) arg.setAttribute("topology", path);
    const bool got = Map<E>::template canCreate<Map<E>>((Map<E> *) nullptr, child, &arg); c.note([&](auto & o) { o << "template='" << tpl << "' topology='" << path << "'"; for (auto & t : all) o << " " << abs[t.first] << (t.second ? " matching" : " other"); }); VP_CHECK(got == ok, "creation ", got ? "accepted" : "refused"); VP_CHECK(got || !arg.errors.empty(), "refused without a reason"); c.nontrivial(!all.empty());
}
#define SUB(E) const vp::Reg t_##E(Info<E>::name(), 1, history<E>), c_##E("creation " + std::string(Info<E>::name()), .5, creation<E>)
#if VP_GROUP == 0
SUB(TetL);
#elif VP_GROUP == 1
SUB(TetQ);
#elif VP_GROUP == 2
SUB(HexL);
#else
SUB(HexQ);
#endif
}
