"""Which generators and oracles decide which property, how many cases, and how cases are counted."""
import glob, os, sys
_REPO = os.environ.get('VERIF_REPO', '/repo')
def _glob(*patterns):
    """the repository's sources of one library, as they are in the tree now"""
    return sorted(os.path.relpath(f, _REPO) for p in patterns for f in glob.glob(os.path.join(_REPO, p)))
ALL = [0, 1, 2, 3]
VTK_SRC = _glob('src/Caribou/Topology/IO/*.cpp')
VTK_FLAGS = ['-I/usr/include/vtk-9.1']
VTK_LINK = ['-lvtkIOLegacy-9.1', '-lvtkCommonDataModel-9.1', '-lvtkCommonExecutionModel-9.1', '-lvtkCommonCore-9.1']
PY_FLAGS = VTK_FLAGS + ['-I/usr/include/python%d.%d' % sys.version_info[:2], '-fvisibility=hidden']
PY_LINK = VTK_LINK + ['-lpython%d.%d' % sys.version_info[:2]]
PY_GEOMETRY = _glob('src/Caribou/Python/Config/*.cpp', 'src/Caribou/Python/Geometry/*.cpp')
PY_TOPOLOGY = _glob('src/Caribou/Python/Topology/*.cpp', 'src/Caribou/Python/Topology/IO/*.cpp')
SOFA_MATERIAL = _glob('src/SofaCaribou/Material/*.cpp')
SOFA_TOPOLOGY = _glob('src/SofaCaribou/Topology/CaribouTopology*.cpp')
SPEC = {
 'P01': dict(sources=[('p_shape.cpp', ALL)], quick=30000, thorough=1500000,
   rule='one element type, random non-degenerate nodes, random local point (inside / near / far); non-trivial: the point is not the origin'),
 'P02': dict(sources=[('p_map.cpp', ALL)], quick=25000, thorough=800000,
   rule='random element (affine, distorted, warped, rotated, scaled 1e-5..1e5, translated) and random local point; non-trivial: the point is not the origin / the offset does not vanish'),
 'P03': dict(sources=[('p_gauss.cpp', ALL)], quick=8000, thorough=200000,
   rule='random polynomial of the exact degree of the rule (non-trivial: not identically zero), or random physical element (always non-trivial)'),
 'P04': dict(sources=[('p_contains.cpp', ALL)], quick=40000, thorough=1500000,
   rule='random point, half of them within a few tolerances of a face; non-trivial: decided by the oracle (not within 0.1% of the tolerance from the limit)'),
 'P05': dict(sources=[('p_boundary.cpp', ALL)], quick=20000, thorough=600000,
   rule='index tables exhaustively per element type (single case each); random element + face + point on the face (always non-trivial)'),
 'P06': dict(sources=[('p_build.cpp', [0, 1, 2])], quick=20000, thorough=600000,
   rule='random (strongly distorted) node sets given to every constructor; always non-trivial'),
 'P07': dict(sources=[('p_rect.cpp', [3])], quick=40000, thorough=1500000,
   rule='random centre, size, rotation, constructor; non-trivial: not the default element'),
 'P08': dict(sources=[('p_frame.cpp', ALL)], quick=25000, thorough=800000,
   rule='random element and rigid motion / scaling; always non-trivial'),
 'P09': dict(sources=[('p_intersect.cpp', [-1])], quick=300000, thorough=6000000,
   rule='random hexahedron and random segment / triangle in its local frame (general, close to the surface, large and piercing); non-trivial: not touching within the rounding margin'),
 'P10': dict(sources=[('p_grid_index.cpp', [0])], quick=6000, thorough=200000,
   rule='random grid (1D-3D, 1 to 40 subdivisions per axis), every node, cell, edge and face of it enumerated; non-trivial: different number of subdivisions along each axis (any 1D grid)'),
 'P11': dict(sources=[('p_grid_geom.cpp', [0])], quick=40000, thorough=2000000,
   rule='random grid (anchors and sizes over 8 orders of magnitude, or exact binary fractions) and random nodes and cells of it; always non-trivial'),
 'P12': dict(sources=[('p_grid_locate.cpp', [0])], quick=80000, thorough=4000000,
   rule='random grid and points (half of them exactly on planes, edges or corners of the grid, or outside of it); non-trivial: at least one cell touches the points / the oracle decides'),
 'P13': dict(sources=[('p_hashgrid.cpp', ALL)], quick=25000, thorough=800000,
   rule='up to 7 random elements (smaller and larger than the cells, nodes often exactly on cell planes) and up to 5 points; non-trivial: a point is in the bounding box of an element'),
 'P14': dict(sources=[('p_embed.cpp', ALL)], quick=12000, thorough=400000,
   rule='random conforming mesh (scaled, sheared, rotated, jittered, with holes, shuffled numbering) and up to 6 points inside, between elements, just inside / outside of the boundary, in holes, far outside; non-trivial: more than one element'),
 'P15': dict(sources=[('p_interp.cpp', ALL)], quick=8000, thorough=300000,
   rule='random conforming mesh, random and linear nodal fields in six matrix forms, up to 5 points; non-trivial: at least one point'),
 'P16': dict(sources=[('p_mesh_hist.cpp', [-1])], quick=60000, thorough=2000000,
   rule='random history of up to 14 operations (add in every way, add again, remove) on one or two meshes, fully compared with the model after every step; non-trivial: two additions and one removal at least'),
 'P17': dict(sources=[('p_mesh_own.cpp', [-1])], quick=60000, thorough=2000000,
   rule='random history of up to 15 operations (copy, move, assign, swap, clone, destroy, add, remove) on up to 5 meshes under AddressSanitizer, fully compared with the model after every step; non-trivial: at least one transfer and one domain'),
 'P18': dict(sources=[('p_domain.cpp', ALL)], quick=20000, thorough=600000,
   rule='random nodes and connectivity in every storage form (copied, external matrix, external strided buffer) and index type; non-trivial: at least one element / node'),
 'P19': dict(sources=[('p_vtk.cpp', [0])], repo_sources=VTK_SRC, flags=VTK_FLAGS, link=VTK_LINK, quick=20000, thorough=600000,
   rule='random VTK file (ascii or binary, float or double, up to 13 points and 9 cells of up to 5 types in any order); non-trivial: at least one cell'),
 'P20': dict(sources=[('p_vtk.cpp', [1])], repo_sources=VTK_SRC, flags=VTK_FLAGS, link=VTK_LINK, quick=30000, thorough=800000,
   rule='random VTK file varying along 0 to 3 axes read as a mesh of dimension 1 to 3, file without points, text that is not VTK, missing file; non-trivial: the file exists'),
 'P21': dict(sources=[('p_mech.cpp', [0])], quick=20000, thorough=1500000,
   rule='random element, random local point, random displacement (general, rigid, affine) in every storage order; non-trivial: the displacement does not vanish'),
 'P22': dict(sources=[('p_mech.cpp', [1])], quick=200000, thorough=8000000,
   rule='random matrices and random symmetric tensors; non-trivial: no matrix vanishes'),
 'P23': dict(sources=[('p_python.cpp', [0])], repo_sources=PY_GEOMETRY, flags=PY_FLAGS, link=PY_LINK, quick=6000, thorough=60000,
   rule='random element of every type that has a python class, built in every way python offers, and random local points; always non-trivial'),
 'P24': dict(sources=[('p_python.cpp', [1])], repo_sources=PY_GEOMETRY + PY_TOPOLOGY + VTK_SRC, flags=PY_FLAGS, link=PY_LINK, quick=4000, thorough=40000,
   rule='random meshes, domains, embeddings, hash grids and grids driven through python and compared with the same calls in C++; always non-trivial'),
 'P25': dict(sources=[('p_material.cpp', [0])], sofa=True, repo_sources=_glob('src/SofaCaribou/Material/*.cpp'), quick=100000, thorough=5000000,
   rule='random history of parameter changes, updates and evaluations at random deformations (natural state, tiny, moderate, large, rotated); non-trivial: at least one deformed state'),
 'P26': dict(sources=[('p_algebra.cpp', [0])], sofa=True, repo_sources=_glob('src/SofaCaribou/Algebra/*.cpp'), quick=100000, thorough=4000000,
   rule='random history of additions (entries, blocks), writes, clearings, compressions and resizes on a wrapped dense or sparse matrix, fully compared with a dense model after every step; non-trivial: at least two changes and one clearing'),
 'P27': dict(sources=[('p_hyper.cpp', [0, 1])], sofa=True, repo_sources=SOFA_MATERIAL + SOFA_TOPOLOGY + _glob('src/SofaCaribou/Forcefield/CaribouForcefield*.cpp', 'src/SofaCaribou/Forcefield/HyperelasticForcefield*.cpp'), flags=['-fopenmp', '-DCARIBOU_WITH_OPENMP'], link=['-fopenmp'], quick=1500, thorough=200000,
   rule='random solid mesh, material and parameters, in a scene built in every way (topology from indices, positions, an attached domain or a SOFA container), then a random history of deformations, parameter changes and evaluations of forces, energy and stiffness; non-trivial: at least one evaluation in a deformed state'),
 'P28': dict(sources=[('p_corot.cpp', [0])], sofa=True, repo_sources=_glob('src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp', 'src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp'), quick=8000, thorough=500000,
   rule='random mesh of tetrahedra or hexahedra, parameters, integration method, then a random history of deformations, rigid motions, reinitializations and evaluations of forces and stiffness; non-trivial: at least one evaluation in a deformed state'),
 'P29': dict(sources=[('p_solver.cpp', ALL)], sofa=True, repo_sources=_glob('src/SofaCaribou/Solver/*.cpp', 'src/SofaCaribou/Algebra/*.cpp', 'src/SofaCaribou/Visitor/*.cpp'), quick=24000, thorough=1000000,
   rule='random sparse system (sizes 1-40, scales 1e-2 to 1e3) given through the Caribou interface or assembled from the force fields and constraints of a scene, then a random history of factorizations, changes of values and right-hand sides; non-trivial: a coupled system with a right-hand side that is not zero was solved'),
 'P30': dict(sources=[('p_topology.cpp', ALL)], sofa=True, repo_sources=SOFA_TOPOLOGY + _glob('src/SofaCaribou/Forcefield/CaribouForcefield*.cpp'), quick=6000, thorough=400000,
   rule='random history of index and position changes, initializations and attached domains on a topology; scenes with zero to three compatible and incompatible topologies, a state of the right or another dimension, an explicit or deduced topology; non-trivial: a topology of at least two elements is held'),
 'P31': dict(sources=[('p_traction.cpp', ALL)], sofa=True, repo_sources=SOFA_TOPOLOGY + _glob('src/SofaCaribou/Forcefield/CaribouForcefield*.cpp', 'src/SofaCaribou/Forcefield/TractionForcefield*.cpp'), quick=10000, thorough=600000,
   rule='surfaces of one to five elements of random shapes (shared, isolated and repeated nodes), a traction, slope and waiting time, then a random history of time steps, other events, resets, initializations and increments; non-trivial: some load was applied on a surface of positive area'),
 'P32': dict(sources=[('p_mapping.cpp', ALL)], sofa=True, repo_sources=SOFA_TOPOLOGY + _glob('src/SofaCaribou/Mapping/*.cpp'), quick=6000, thorough=400000,
   rule='random solid mesh (holes, distorted elements) in a scene where the topology is linked or found in the parent or current node, random points in, between and outside of the elements, then a random history of mapped positions, velocities, forces, constraint lines and initializations; non-trivial: at least two points are mapped'),
 'P33': dict(sources=[('p_ode.cpp', [0, 1, 2]), ('ode_solvers.cpp', [0, 1, 2])], sofa=True, repo_sources=_glob('src/SofaCaribou/Ode/*.cpp', 'src/SofaCaribou/Solver/*.cpp', 'src/SofaCaribou/Algebra/*.cpp', 'src/SofaCaribou/Visitor/*.cpp'), quick=10000, thorough=1000000,
   rule='random scene of one or two bodies (mass, damping, non-linear stiffness, fixed and mapped degrees of freedom), linear solver and parameters, then a random history of time steps, loads, velocities, parameter and scene changes, every step compared with a Newton-Raphson model; non-trivial: at least one iteration'),
 'P34': dict(sources=[('p_fictitious.cpp', [0, 1, 2])], sofa=True, repo_sources=_glob('src/SofaCaribou/Topology/FictitiousGrid.cpp', 'src/SofaCaribou/Topology/IsoSurface.cpp'), quick=4000, thorough=200000,
   rule='random grid, levels, threshold and surface (level sets given on the finest lattice: balls, unions, differences, planes, noise, exact zeros; closed triangulated surfaces given as data or found in the scene), re-initialised with other ones; the sparse grid, integration points, volume ratios and point types are compared with a model; non-trivial: both inside leaves and boundary cells'),
 'P35': dict(sources=[('p_sofapython.cpp', [0, 1, 2, 3])], sofa=True, flags=PY_FLAGS, link=PY_LINK, repo_sources=_glob('src/SofaCaribou/Python/*.cpp', 'src/SofaCaribou/Python/*/*.cpp', 'src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp', 'src/SofaCaribou/Forcefield/HyperelasticForcefield*.cpp', 'src/SofaCaribou/Forcefield/CaribouForcefield*.cpp', 'src/SofaCaribou/Material/*.cpp', 'src/SofaCaribou/Ode/*.cpp', 'src/SofaCaribou/Solver/ConjugateGradientSolver.cpp', 'src/SofaCaribou/Algebra/*.cpp', 'src/SofaCaribou/Visitor/*.cpp', 'src/SofaCaribou/Topology/*.cpp'), quick=2000, thorough=60000,
   rule='random scene whose components are asked through the Python module SofaCaribou and compared with the same questions in C++, between random changes; non-trivial: something was assembled, solved or built'),
 'P36': dict(sources=[('p_visitor.cpp', [0])], sofa=True, repo_sources=_glob('src/SofaCaribou/Visitor/*.cpp'), quick=20000, thorough=1000000,
   rule='random tree of nodes with independent and mapped states of one to three dimensions and vectors of different lengths, then a random history of assignments between coordinate and derivative vectors, with and without the mapped states; every vector of every state is compared with a model; non-trivial: a non-empty vector was copied to another one'),
}
