// P19 / P20: importing VTK files: nodes, elements, mixed cell types, axes of 1D and 2D meshes, files that cannot be imported.
#include "elements.h"
#include <Caribou/Topology/IO/VTKReader.h>
#include <vtkObject.h>
#include <vtkCellType.h>
#include <fstream>
#include <unistd.h>
using namespace el;
using namespace caribou::topology;
using ull = unsigned long long;
namespace {
struct Cell { int type; std::vector<long long> ids; };
struct File { std::vector<std::array<double, 3>> P; std::vector<Cell> cells; bool binary = false, flt = false, celldata = false, pointdata = false, field = false; int order = 0; };
int nodes_of(int type) { switch (type) { case 1: return 1; case 3: return 2; case 21: return 3; case 5: return 3; case 22: return 6; case 9: return 4; case 23: return 8; case 10: return 4; case 24: return 10; case 12: return 8; case 25: return 20; case 8: return 4; case 11: return 8; case 13: return 6; case 14: return 5; case 26: return 15; case 28: return 9; default: return 0; } }
template <class T> void put(std::ostream & o, bool bin, T v) { if (!bin) { o << v << ' '; return; } unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); for (std::size_t i = sizeof(T); i-- > 0;) o.put((char) b[i]); }
void write(const std::string & path, const File & f) {
    std::ofstream o(path, std::ios::binary); o << std::setprecision(17) << "# vtk DataFile Version 3.0\ngenerated\n" << (f.binary ? "BINARY" : "ASCII") << "\nDATASET UNSTRUCTURED_GRID\n";
    o << "POINTS " << f.P.size() << (f.flt ? " float" : " double") << "\n"; for (auto & p : f.P) { for (double v : p) { if (f.flt) put(o, f.binary, (float) v); else put(o, f.binary, v); } if (!f.binary) o << "\n"; }
    std::size_t n = 0; for (auto & c : f.cells) n += c.ids.size() + 1;
    o << "\nCELLS " << f.cells.size() << " " << n << "\n"; for (auto & c : f.cells) { put(o, f.binary, (int) c.ids.size()); for (auto v : c.ids) put(o, f.binary, (int) v); if (!f.binary) o << "\n"; }
    o << "\nCELL_TYPES " << f.cells.size() << "\n"; for (auto & c : f.cells) { put(o, f.binary, c.type); if (!f.binary) o << "\n"; }
    if (f.celldata && !f.cells.empty()) { o << "\nCELL_DATA " << f.cells.size() << "\nSCALARS cellvalue int 1\nLOOKUP_TABLE default\n"; for (std::size_t i = 0; i < f.cells.size(); ++i) put(o, f.binary, (int) i); o << "\n"; }
    if (f.pointdata && !f.P.empty()) { o << "\nPOINT_DATA " << f.P.size() << "\nSCALARS nodevalue double 1\nLOOKUP_TABLE default\n"; for (std::size_t i = 0; i < f.P.size(); ++i) put(o, f.binary, (double) i); o << "\n"; }
}
struct Tmp { std::string path; Tmp() { const char * s = std::getenv("VP_SCRATCH"); path = std::string(s ? s : "/tmp") + "/vtk_" + std::to_string(::getpid()) + ".vtk"; ::unlink(path.c_str()); } ~Tmp() { ::unlink(path.c_str()); } };
template <int D> std::vector<int> supported() { if (D == 1) return {3, 21}; if (D == 2) return {3, 21, 5, 22, 9, 23}; return {3, 21, 5, 22, 9, 23, 10, 24, 12, 25}; }
// points in three dimensions, varying along exactly the axes `vary`
std::vector<std::array<double, 3>> gen_points(vp::Ctx & c, const std::vector<int> & vary, bool flt, int lo) {
    const int n = lo + (int) c.draw(12); std::vector<std::array<double, 3>> P((size_t) n); double base[3]; for (double & b : base) b = c.flip() ? 0 : c.real(-3, 3);
    const double sc = std::vector<double>{1, 1e-3, 1e-9, 1e6}[c.draw(4)];
    for (auto & p : P) for (int d = 0; d < 3; ++d) p[d] = base[d];
    for (int d : vary) for (auto & p : P) p[d] = c.real(-5, 5) * sc;
    for (int d : vary) if (n > 1) { const auto j = 1 + c.draw((uint64_t) n - 1); if (P[0][d] == P[j][d]) P[j][d] = P[0][d] + sc; } // really varying (the difference may be in any point)
    if (flt) for (auto & p : P) for (double & v : p) v = (double) (float) v;
    return P;
}
std::vector<int> gen_axes(vp::Ctx & c, int k) { static const std::vector<std::vector<int>> one = {{0}, {1}, {2}}, two = {{0, 1}, {0, 2}, {1, 2}}; if (k == 0) return {}; if (k == 1) return one[c.draw(3)]; if (k == 2) return two[c.draw(3)]; return {0, 1, 2}; }
File gen_file(vp::Ctx & c, const std::vector<int> & vary, const std::vector<int> & types) {
    File f; f.binary = c.flip(); f.flt = c.flip(); f.celldata = c.draw(3) == 2; f.pointdata = c.draw(3) == 2; f.P = gen_points(c, vary, f.flt, 2);
    const int n = (int) c.draw(10); for (int i = 0; i < n; ++i) { Cell q; q.type = types[c.draw(types.size())]; for (int k = 0; k < nodes_of(q.type); ++k) q.ids.push_back((long long) c.draw(f.P.size())); f.cells.push_back(q); }
    return f;
}
std::string describe(const File & f) { std::ostringstream o; o << std::setprecision(17) << (f.binary ? "binary " : "ascii ") << (f.flt ? "float" : "double") << " points:"; for (auto & p : f.P) o << " (" << p[0] << " " << p[1] << " " << p[2] << ")"; o << " cells:"; for (auto & q : f.cells) { o << " " << q.type << "["; for (auto v : q.ids) o << v << " "; o << "]"; } return o.str(); }
// the connectivity of a domain, if it is a domain of elements E
template <class E, class NI> bool rows(const BaseDomain * b, std::vector<std::vector<long long>> & r) { const auto * d = dynamic_cast<const Domain<E, NI> *>(b); if (!d) return false; for (ull i = 0; i < d->number_of_elements(); ++i) { const auto idx = d->element_indices(i); r.emplace_back(); for (int k = 0; k < (int) idx.size(); ++k) r.back().push_back((long long) idx[k]); } return true; }
template <int D, class NI> int type_of(const BaseDomain * b, std::vector<std::vector<long long>> & r) {
    if (rows<Segment<D, Linear>, NI>(b, r)) return 3; if (rows<Segment<D, Quadratic>, NI>(b, r)) return 21;
    if constexpr (D > 1) { if (rows<Triangle<D, Linear>, NI>(b, r)) return 5; if (rows<Triangle<D, Quadratic>, NI>(b, r)) return 22; if (rows<Quad<D, Linear>, NI>(b, r)) return 9; if (rows<Quad<D, Quadratic>, NI>(b, r)) return 23; }
    if constexpr (D > 2) { if (rows<TetL, NI>(b, r)) return 10; if (rows<TetQ, NI>(b, r)) return 24; if (rows<HexL, NI>(b, r)) return 12; if (rows<HexQ, NI>(b, r)) return 25; }
    return -1;
}
template <int D, class NI> void check_import(vp::Ctx & c, const File & f, const std::vector<int> & vary, const Mesh<D> & m) {
    VP_CHECK(m.number_of_nodes() == f.P.size(), "the mesh has ", m.number_of_nodes(), " nodes, the file ", f.P.size());
    for (std::size_t i = 0; i < f.P.size(); ++i) for (int d = 0; d < D; ++d) VP_CHECK(m.position(i)[d] == f.P[i][vary[d]], "node ", i, " component ", d, " is ", m.position(i)[d], " expected ", f.P[i][vary[d]]);
    const auto sup = supported<D>(); std::map<int, std::vector<std::vector<long long>>> expected; for (auto & q : f.cells) if (std::find(sup.begin(), sup.end(), q.type) != sup.end()) expected[q.type].push_back(q.ids);
    VP_CHECK(m.number_of_domains() == expected.size(), "the mesh has ", m.number_of_domains(), " domains for ", expected.size(), " element types");
    std::set<int> seen; int k = 0;
    for (auto & d : m.domains()) {
        VP_CHECK(d.first == "domain_" + std::to_string(++k), "name '", d.first, "' of domain ", k); VP_CHECK(d.second->mesh() == static_cast<const BaseMesh *>(&m), "a domain does not belong to the mesh");
        std::vector<std::vector<long long>> r; const int t = type_of<D, NI>(d.second, r);
        VP_CHECK(expected.count(t) && seen.insert(t).second, "unexpected domain of VTK type ", t);
        if (t == 25) { // finding F-VTKHEX20: VTK and Caribou number this element alike, but the reader permutes its mid-edge nodes
            if (r == expected[t]) continue;
            static const int perm[20] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 11, 10, 14, 15, 12, 13, 16, 19, 17};
            auto e = expected[t]; for (auto & row : e) { const auto src = row; for (int j = 0; j < 20; ++j) row[j] = src[perm[j]]; }
            if (r == e) { c.known("F-VTKHEX20", "the mid-edge nodes of VTK_QUADRATIC_HEXAHEDRON cells are permuted although VTK numbers them as Caribou does"); continue; }
        }
        VP_CHECK(r == expected[t], "connectivity of the elements of VTK type ", t);
    }
}
template <int D, class NI> void import(vp::Ctx & c) {
    vtkObject::GlobalWarningDisplayOff();
    auto types = supported<D>(); for (int t : {1, 8, 11, 13, 14, 26}) types.push_back(t); if (D < 3) { types.push_back(10); types.push_back(12); }
    std::vector<int> few; const int k = 1 + (int) c.draw(5); for (int i = 0; i < k; ++i) few.push_back(types[c.draw(types.size())]);
    std::vector<int> vary = gen_axes(c, D == 3 ? 1 + (int) c.draw(3) : D); const File f = gen_file(c, vary, few); Tmp t; write(t.path, f);
    c.note([&](auto & o) { o << D << "D " << describe(f); }); std::set<int> distinct; for (auto & q : f.cells) distinct.insert(q.type); c.nontrivial(!f.cells.empty()); if (distinct.size() > 1) c.label("mixed"); c.label(f.binary ? "binary" : "ascii");
    auto r = io::VTKReader<D, NI>::Read(t.path); const auto m = r.mesh();
    check_import<D, NI>(c, f, D == 3 ? std::vector<int>{0, 1, 2} : vary, m);
    const auto again = r.mesh(); check_import<D, NI>(c, f, D == 3 ? std::vector<int>{0, 1, 2} : vary, again); // the mesh can be built several times
    std::ostringstream o; r.print(o); const std::string s = o.str();
    VP_CHECK(s.find("input has " + std::to_string(f.P.size()) + " points.") != std::string::npos && s.find("input has " + std::to_string(f.cells.size()) + " cells.") != std::string::npos, "print: ", s);
}
// number of varying axes against the dimension of the mesh; empty, missing and foreign files
template <int D> void axes(vp::Ctx & c) {
    vtkObject::GlobalWarningDisplayOff(); using R = io::VTKReader<D, ull>; Tmp t; const auto k = c.draw(8);
    if (k == 7) { bool thrown = false; try { R::Read(t.path + ".missing"); } catch (const std::invalid_argument &) { thrown = true; } c.note([&](auto & o) { o << "missing file"; }); VP_CHECK(thrown, "a missing file was read"); return; }
    if (k == 6) { // not a VTK file, or a file without any point
        std::ofstream o(t.path); const auto w = c.draw(3); if (w == 0) o << ""; else if (w == 1) { const int n = (int) c.draw(60); for (int i = 0; i < n; ++i) o << (char) (32 + c.draw(95)); } else o << "# vtk DataFile Version 3.0\nempty\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 0 double\nCELLS 0 0\nCELL_TYPES 0\n"; o.close();
        c.note([&](auto & q) { q << "file without points, kind " << w; }); c.nontrivial(); const auto m = R::Read(t.path).mesh(); VP_CHECK(m.number_of_nodes() == 0 && m.number_of_domains() == 0, "a file without points gave ", m.number_of_nodes(), " nodes"); return;
    }
    const int nv = (int) c.draw(4); const auto vary = gen_axes(c, nv); auto types = supported<D>(); types.erase(std::remove(types.begin(), types.end(), 25), types.end()); File f = gen_file(c, vary, types); c.note([&](auto & o) { o << D << "D from " << nv << " axes " << describe(f); }); c.nontrivial(); c.label(std::to_string(nv) + " varying axes");
    write(t.path, f); bool thrown = false; std::vector<int> real; for (int d = 0; d < 3; ++d) { bool v = false; for (auto & p : f.P) v |= p[d] != f.P[0][d]; if (v) real.push_back(d); }
    const bool ok = D == 3 || (int) real.size() == D;
    try { const auto m = R::Read(t.path).mesh(); if (ok) check_import<D, ull>(c, f, D == 3 ? std::vector<int>{0, 1, 2} : real, m); } catch (const std::runtime_error &) { thrown = true; }
    VP_CHECK(thrown == !ok, "reading a file varying along ", real.size(), " axes as a ", D, "D mesh was ", thrown ? "refused" : "accepted");
}
// other builders can be registered for a cell type; unknown types are skipped
void registered(vp::Ctx & c) {
    vtkObject::GlobalWarningDisplayOff(); const File f = gen_file(c, {0, 1, 2}, {9, 10, 8, 28, 12}); Tmp t; write(t.path, f); c.note([&](auto & o) { o << describe(f); }); c.nontrivial(!f.cells.empty());
    auto r = io::VTKReader<3, ull>::Read(t.path); std::size_t got = 0; std::vector<std::vector<long long>> pix; long long called = 0;
    r.register_element_type(VTK_PIXEL, [&](Mesh<3> & m, const io::VTKReader<3, ull>::ElementsIndices & idx) -> BaseDomain * { ++called; for (Eigen::Index i = 0; i < idx.rows(); ++i) { pix.emplace_back(); for (Eigen::Index k = 0; k < idx.cols(); ++k) pix.back().push_back((long long) idx(i, k)); } (void) m; return nullptr; })
     .register_element_type<RHexL>(VTK_HEXAHEDRON);
    const auto m = r.mesh(); std::map<int, std::vector<std::vector<long long>>> ex; for (auto & q : f.cells) ex[q.type].push_back(q.ids);
    VP_CHECK(called == (ex.count(8) ? 1 : 0) && pix == ex[8], "registered builder");
    for (auto & d : m.domains()) { std::vector<std::vector<long long>> x; if (rows<RHexL, ull>(d.second, x)) { ++got; VP_CHECK(x == ex[12], "elements of the registered type"); } const bool old = dynamic_cast<const Domain<HexL, ull> *>(d.second) != nullptr; VP_CHECK(!old, "the previous type is still used"); }
    VP_CHECK(got == (ex[12].empty() ? 0u : 1u), "domain of the registered type");
}
}
static const bool reg = [] {
#if VP_GROUP == 0
    vp::Reg("import/1D", .5, import<1, ull>); vp::Reg("import/2D", 1, import<2, ull>); vp::Reg("import/3D", 1.5, import<3, ull>); vp::Reg("import/2D uint", .5, import<2, unsigned>); vp::Reg("import/3D uint", .7, import<3, unsigned>); vp::Reg("import/3D ulong", .5, import<3, unsigned long>); vp::Reg("registered", .5, registered);
#else
    vp::Reg("axes/1D", 1, axes<1>); vp::Reg("axes/2D", 1, axes<2>); vp::Reg("axes/3D", .5, axes<3>);
#endif
    return true;
}();
