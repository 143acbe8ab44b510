// Scenes over any element type of the SOFA plugin (surfaces and solids, in two and three dimensions).
#pragma once
#include "sofa_scene.h"
#include <SofaCaribou/Topology/CaribouTopology[Triangle].h>
#include <SofaCaribou/Topology/CaribouTopology[Quad].h>
#include <SofaCaribou/Forcefield/CaribouForcefield.inl>
#include <SofaCaribou/Forcefield/CaribouForcefield[Triangle].h>
#include <SofaCaribou/Forcefield/CaribouForcefield[Quad].h>
#include <SofaCaribou/Forcefield/CaribouForcefield[Tetrahedron].h>
#include <SofaCaribou/Forcefield/CaribouForcefield[Hexahedron].h>
namespace su {
using PointID = unsigned int;
template <class E> using CT = SofaCaribou::topology::CaribouTopology<E>;
template <class E> using FA = sofa::type::fixed_array<PointID, NN<E>>;
template <class E> using Indices = sofa::type::vector<FA<E>>;
template <class E> using TypesOf = typename CT<E>::DataTypes;
template <class E> using State = sofa::component::container::MechanicalObject<TypesOf<E>>;
template <class E> using Pos = Eigen::Matrix<double, Eigen::Dynamic, DIM<E>, Eigen::RowMajor>;
template <class E> typename TypesOf<E>::VecCoord coords(const Pos<E> & x) { typename TypesOf<E>::VecCoord r; r.resize((std::size_t) x.rows()); for (Eigen::Index i = 0; i < x.rows(); ++i) for (int d = 0; d < DIM<E>; ++d) r[(std::size_t) i][d] = x(i, d); return r; }
template <class E> Pos<E> random_pos(vp::Ctx & c, int n) { Pos<E> r(n, DIM<E>); for (int i = 0; i < n; ++i) for (int d = 0; d < DIM<E>; ++d) r(i, d) = c.real(-4, 4); return r; }
template <class E> Indices<E> random_indices(vp::Ctx & c, int n, int k) { Indices<E> r; for (int e = 0; e < k; ++e) { FA<E> f; for (int i = 0; i < NN<E>; ++i) f[(std::size_t) i] = (PointID) c.draw((uint64_t) n); r.push_back(f); } return r; }
template <class E> std::string show_ind(const Indices<E> & T) { std::ostringstream o; for (const auto & f : T) { o << "("; for (int i = 0; i < NN<E>; ++i) o << (i ? " " : "") << f[(std::size_t) i]; o << ")"; } return o.str(); }
template <class E> const char * expected_name() {
    constexpr bool q = Info<E>::order == 2;
    switch (Info<E>::kind) { case TRI: return DIM<E> == 2 ? (q ? "Triangle6_2D" : "Triangle_2D") : (q ? "Triangle6" : "Triangle"); case QUAD: return DIM<E> == 2 ? (q ? "Quad8_2D" : "Quad_2D") : (q ? "Quad8" : "Quad"); case TET: return q ? "Tetrahedron10" : "Tetrahedron"; default: return q ? "Hexahedron20" : "Hexahedron"; }
}
}
