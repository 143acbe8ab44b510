// Scenes (node, mechanical object, topology) over a generated mesh, for the checks of the SofaCaribou plugin.
#pragma once
#include "sofa_util.h"
#include "meshes.h"
#include "minisofa_sim.h"
#include <SofaCaribou/Topology/CaribouTopology[Tetrahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Hexahedron].h>
namespace su {
using namespace el;
using Types = sofa::defaulttype::Vec3Types;
using Vec = Types::VecCoord;
using MO = sofa::component::container::MechanicalObject<Types>;
using Node = sofa::simulation::Node;
using PX = Eigen::Matrix<double, Eigen::Dynamic, 3, Eigen::RowMajor>;
inline Vec vec(const PX & x) { Vec r; r.resize((std::size_t) x.rows()); for (Eigen::Index i = 0; i < x.rows(); ++i) for (int d = 0; d < 3; ++d) r[(std::size_t) i][d] = x(i, d); return r; }
inline PX mat(const Vec & v) { PX r((Eigen::Index) v.size(), 3); for (std::size_t i = 0; i < v.size(); ++i) for (int d = 0; d < 3; ++d) r((Eigen::Index) i, d) = v[i][d]; return r; }
template <class S, class Id> PX mat_of(const S & mo, Id id) { return mat(mo->write(id)->getValue()); }
inline VX flat(const PX & x) { return Eigen::Map<const VX>(x.data(), x.size()); }
inline PX unflat(const VX & x) { return Eigen::Map<const PX>(x.data(), x.size() / 3, 3); }
inline PX random_px(vp::Ctx & c, Eigen::Index n, double s) { PX r(n, 3); for (Eigen::Index i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) r(i, d) = c.uniform(-1, 1) * s; return r; }
// a matrix given by its entries, as force fields fill it
class DenseBase : public sofa::defaulttype::BaseMatrix {
public:
    MX m; explicit DenseBase(const MX & v) : m(v) {}
    using Index = sofa::defaulttype::BaseMatrix::Index;
    Index rowSize() const override { return (Index) m.rows(); }
    Index colSize() const override { return (Index) m.cols(); }
    double element(Index i, Index j) const override { return m(i, j); }
    void resize(Index i, Index j) override { m = MX::Zero(i, j); }
    void clear() override { m.setZero(); }
    void set(Index i, Index j, double v) override { if (i < 0 || j < 0 || i >= m.rows() || j >= m.cols()) vp_range(i, j); m(i, j) = v; }
    void add(Index i, Index j, double v) override { if (i < 0 || j < 0 || i >= m.rows() || j >= m.cols()) vp_range(i, j); m(i, j) += v; }
private:
    static void vp_range(long i, long j) { throw vp::Failure{"entry (" + std::to_string(i) + ", " + std::to_string(j) + ") is out of the matrix"}; }
};
// derivatives of the shape functions of an element with respect to the world coordinates, computed without the library
template <class E> Eigen::Matrix<double, NN<E>, 3> world_gradients(const NodeMat<E> & X, const double * xi, double & det) {
    Eigen::Matrix<double, NN<E>, 3> dL; for (int i = 0; i < NN<E>; ++i) { Dual x[3]; for (int d = 0; d < 3; ++d) x[d] = var(xi[d], d); const Dual b = basis<Dual>(Info<E>::kind, Info<E>::order, i, x); for (int d = 0; d < 3; ++d) dL(i, d) = b.d[d]; }
    const M3 J = X.transpose() * dL; det = J.determinant(); return dL * J.inverse();
}
// smooth random deformation of the nodes followed by a small perturbation of each, and a rigid motion
template <class Mesh> PX deform(vp::Ctx & c, const Mesh & m, double amount, double noise, double h) {
    M3 G = M3::Identity(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) G(i, j) += c.real(-1, 1) * amount;
    const PX X = m.X; PX x = ((X.rowwise() - X.row(0)) * G.transpose()).rowwise() + X.row(0); x += random_px(c, X.rows(), noise * h);
    return x;
}
template <class E> double smallest_edge(const ms::M<E> & m) { double h = 1e300; const int nc = corners(Info<E>::kind); for (int e = 0; e < m.T.rows(); ++e) { const auto X = m.element(e); for (int i = 0; i < nc; ++i) for (int j = 0; j < i; ++j) h = std::min(h, (X.row(i) - X.row(j)).norm()); } return h; }
// adds a topology holding the elements of the mesh, in one of the ways a scene does
template <class E> struct Topo {
    sofa::core::objectmodel::BaseObject * object = nullptr; const char * how = ""; std::unique_ptr<caribou::topology::Mesh<3>> mesh;
    using PointID = unsigned int;
    Eigen::Matrix<PointID, Eigen::Dynamic, NN<E>, Eigen::RowMajor> T;
    void add(vp::Ctx & c, Node * n, const ms::M<E> & m, bool allow_sofa = true) {
        T = m.T.template cast<PointID>();
        using CT = SofaCaribou::topology::CaribouTopology<E>; using FA = sofa::type::fixed_array<PointID, NN<E>>;
        sofa::type::vector<FA> ind; for (int e = 0; e < T.rows(); ++e) { FA f; for (int i = 0; i < NN<E>; ++i) f[(std::size_t) i] = T(e, i); ind.push_back(f); }
        const int k = (int) c.draw(Info<E>::order == 1 && allow_sofa ? 4 : 3);
        if (k < 3) {
            auto t = n->template stub_add<CT>(); object = t.get();
            if (k == 2) {
                mesh.reset(new caribou::topology::Mesh<3>(m.X)); t->attachDomain(mesh->template add_domain<E, PointID>(T)); how = "attached domain";
            } else { set<sofa::type::vector<FA>>(t.get(), "indices", ind); if (k == 1) set<Vec>(t.get(), "position", vec(m.X)); how = k ? "indices and positions" : "indices"; }
        } else if constexpr (Info<E>::order == 1) {
            using S = std::conditional_t<Info<E>::kind == TET, sofa::component::topology::TetrahedronSetTopologyContainer, sofa::component::topology::HexahedronSetTopologyContainer>;
            auto t = n->template stub_add<S>(); object = t.get(); set<sofa::type::vector<FA>>(t.get(), Info<E>::kind == TET ? "tetrahedra" : "hexahedra", ind); how = "SOFA container";
        }
        t_name = how;
    }
    std::string t_name;
};
}
