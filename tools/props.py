"""Texts of the properties (tools/gen.py turns them into properties.jsonl and MANIFEST.json)."""
G = 'src/Caribou/Geometry/'
ELS = [G + f for f in ('Element.h', 'Segment.h', 'Triangle.h', 'Quad.h', 'Tetrahedron.h', 'Hexahedron.h', 'RectangularQuad.h', 'RectangularHexahedron.h')]
BASES = [G + f for f in ('BaseSegment.h', 'BaseTriangle.h', 'BaseQuad.h', 'BaseTetrahedron.h', 'BaseHexahedron.h', 'BaseRectangularQuad.h', 'BaseRectangularHexahedron.h')]
T = 'src/Caribou/Topology/'
NOT_APPLICABLE = []
PROPS = [
 dict(id='P01', title='Shape functions are the nodal basis of the element and dL is their gradient',
  statement='For every element type, order and world dimension, the shape functions evaluated at any local point equal the Lagrange/serendipity nodal basis of the documented reference element: node i carries value 1 at its own local position and 0 at the others, they sum to 1, and the returned derivatives are their exact gradients. This holds at points inside, near and far outside of the element and does not depend on where the element lies in space.',
  over=['inputs'], text='every element type (segment 1D-3D, triangle and quad 2D-3D, tetrahedron, hexahedron, rectangular quad and hexahedron; linear and quadratic) and every local point',
  why='The tests evaluate a few sums at gauss points and nodes; a wrong coefficient that keeps the partition of unity, or shows only away from the sampled points, passes.',
  files=ELS, mech=[('get_L / get_dL of each element', G + '{Segment,Triangle,Quad,Tetrahedron,Hexahedron,RectangularQuad,RectangularHexahedron}.h')], observe=['L()', 'dL()', 'world_coordinates()'],
  tech='random local points against an independent basis oracle (dual numbers) and finite differences'),
 dict(id='P02', title='Isoparametric map, Jacobian, interpolation and inverse map are consistent',
  statement='World coordinates, centre, Jacobian and interpolated nodal values of an element are those of the isoparametric map of its nodes, at any local point and for any value type. The inverse map recovers the local coordinates of any point of the element (of its orthogonal projection for elements embedded in a higher dimension), independently of the size and position of the element: exactly for affine elements, to the requested tolerance otherwise.',
  over=['inputs'], text='every element type; affine, distorted and warped node sets, rotated, translated, scaled by 1e-5 to 1e5; every local point, starting guess and tolerance for which Newton converges',
  why='The tests invert the map at gauss points of a handful of unit-size elements; scale, distortion, starting point and embedding dimension are never varied.',
  files=ELS + BASES, mech=[('world_coordinates / jacobian / interpolate / local_coordinates', G + 'Element.h'), ('closed-form local coordinates of rectangular elements', G + 'BaseRectangularHexahedron.h')], observe=['world_coordinates()', 'jacobian()', 'interpolate()', 'local_coordinates()', 'center()'],
  tech='random elements and points; oracle map plus world/local round trip'),
 dict(id='P03', title='Gauss rules integrate the documented degree exactly and measure elements',
  statement='The integration points of every element type lie inside its reference element, have positive weights summing to the reference measure, are as many as announced, and integrate every polynomial of the degree of the rule exactly. Integrating over any affine element gives its length, area or volume and its first moments.',
  over=['inputs'], text='every element type; every polynomial of the degree of its rule (total degree for simplices, degree per variable otherwise); every affine physical element, and curved ones where the rule is exact',
  why='The tests integrate one or two fixed polynomials on fixed elements.',
  files=ELS, mech=[('get_gauss_nodes / NumberOfGaussNodes', G + '*.h')], observe=['gauss_nodes()', 'gauss_node()', 'number_of_gauss_nodes()'],
  tech='random polynomials with closed-form integrals; random elements against a high-order reference rule'),
 dict(id='P04', title='Containment test is exactly the closed reference element plus tolerance',
  statement='A local point is reported inside an element exactly when it lies in the closed reference element enlarged by the given tolerance, for every element type and every tolerance. A world point of an affine element is reported inside exactly when its local coordinates are.',
  over=['inputs'], text='every element type, local point (half of them within a few tolerances of a face, edge or corner) and tolerance',
  why='The tests probe a few points far from the boundary; the behaviour on each face and edge and the tolerance argument are not explored.',
  files=ELS + BASES, mech=[('get_contains_local / contains', G + 'Base*.h')], observe=['contains_local()', 'contains()'],
  tech='random points around every face against the analytic reference element'),
 dict(id='P05', title='Boundary elements, faces and edges are the restriction of the element',
  statement='Every face (edge in 2D) of an element appears exactly once among its boundary elements, with the nodes lying on it, each mid-edge node between its two end corners; the edges of an element are its actual edges, each listed once. A boundary element built from an element coincides with the restriction of that element to the face at every point, and is oriented outwards, so the boundary is closed.',
  over=['inputs'], text='every element type, every boundary index, every (curved) node set and every point of the face',
  why='The tests compare a few fixed tables for linear elements; quadratic faces and orientation are not checked.',
  files=ELS + BASES, mech=[('get_boundary_elements_nodes, edges(), faces()', G + '*.h'), ('boundary_element(i)', G + 'Element.h')], observe=['boundary_elements_node_indices()', 'boundary_element()', 'edges()', 'faces()'],
  tech='exhaustive table check against the reference topology plus random trace and divergence checks'),
 dict(id='P06', title='All constructors agree; quadratic elements built from linear ones coincide',
  statement='An element holds exactly the nodes it is given, whichever constructor is used (list of nodes, row- or column-major, strided or other scalar type matrix, copy), and the default element is the reference element. A quadratic element built from a linear element, or from its corners, describes the same map at every local point.',
  over=['inputs'], text='every non-rectangular element type, constructor and node set, including strongly distorted ones; every local point',
  why='The tests build quadratic elements from axis-aligned unit corners, where misplaced mid-edge nodes can go unnoticed.',
  files=ELS, mech=[('constructors of linear and quadratic elements', G + '*.h')], observe=['node()', 'nodes()', 'world_coordinates()'],
  tech='differential: every constructor against the node matrix, quadratic against linear map'),
 dict(id='P07', title='Rectangular elements behave as the general element with the same nodes',
  statement='A rectangular quad or hexahedron given by centre, size and rotation has its nodes at the rotated and scaled reference positions, and agrees with the general quad or hexahedron having these nodes in its map, Jacobian, inverse map, containment, quadrature and boundary. Rebuilding it from that general element or from its nodes gives back the same centre, size and rotation.',
  over=['inputs'], text='every centre, size, rotation, constructor, order and world dimension; every local point',
  why='The tests cover a couple of fixed rectangles, mostly axis-aligned.',
  files=[G + f for f in ('RectangularQuad.h', 'RectangularHexahedron.h', 'BaseRectangularQuad.h', 'BaseRectangularHexahedron.h')], mech=[('centre/size/rotation parametrisation', G + 'BaseRectangular*.h')], observe=['node()', 'size()', 'rotation()', 'jacobian()', 'local_coordinates()'],
  tech='differential against the general element over random rectangles'),
 dict(id='P08', title='Frames and normals follow the element under rigid motion and scaling',
  statement='Moving the nodes of an element by a rotation, translation and uniform scaling moves its map, Jacobian, centre, normal and frame accordingly. Triangle normals are unit, orthogonal and follow the right-hand rule; the frames of hexahedra and tetrahedra are right-handed and orthonormal with their first axis along the first local direction, and the frame of any rectangular (corner-orthogonal) element is its rotation.',
  over=['inputs'], text='every element type, node set, rigid motion and local point',
  why='The tests check the frame of one or two elements rotated about one axis.',
  files=[G + f for f in ('BaseTriangle.h', 'BaseQuad.h', 'BaseTetrahedron.h', 'BaseHexahedron.h')], mech=[('frame(), normal()', G + 'Base*.h')], observe=['frame()', 'normal()'],
  tech='metamorphic: random rigid motions and scalings; analytic frames'),
 dict(id='P09', title='Hexahedron-segment and hexahedron-triangle intersection is exact',
  statement='A rectangular or general affine hexahedron reports an intersection with a segment or a triangle exactly when the two share a point, including when the primitive pierces it without any vertex inside. The answer does not depend on the order of the vertices.',
  over=['inputs'], text='every affine hexahedron (linear, quadratic, rectangular, rotated), every segment and non-degenerate triangle not merely touching within rounding',
  why='The tests check a dozen hand-picked configurations.',
  files=[G + 'BaseHexahedron.h', G + 'BaseRectangularHexahedron.h'], mech=[('intersects, intersects_polygon, segment_intersects', G + 'BaseHexahedron.h')], observe=['intersects()'],
  tech='random primitives against a separating-axis oracle'),
 dict(id='P10', title='Grid nodes, cells, edges and faces are numbered consistently',
  statement='The nodes, cells, edges and faces of a regular grid are numbered from 0 without gaps (x running fastest for nodes and cells), index and grid coordinates are inverse of each other, and the nodes listed for a cell, an edge or a face are exactly the corners of that cell (in the order of the quad/hexahedron), the two ends of a grid line segment, and the four corners of a cell face. Every edge and face of the grid appears exactly once.',
  over=['inputs'], text='every 1D, 2D and 3D grid (any number of subdivisions per axis), every node, cell, edge and face index',
  why='The tests use one 2x2(x2) grid: with equal subdivisions an axis mix-up cannot be seen.',
  files=[T + 'Grid/Grid.h', T + 'Grid/Internal/BaseGrid.h', T + 'Grid/Internal/BaseUnidimensionalGrid.h', T + 'Grid/Internal/BaseMultidimensionalGrid.h'], mech=[('node/cell/edge/face index arithmetic', T + 'Grid/Grid.h and Internal/*.h')], observe=['node_index_at()', 'node_coordinates_at()', 'cell_index_at()', 'cell_coordinates_at()', 'node_indices_of()', 'edge()', 'face()', 'number_of_*()'],
  tech='random grids with distinct subdivisions, exhaustive enumeration against a brute-force numbering'),
 dict(id='P11', title='Grid nodes and cells lie where anchor, size and subdivisions put them',
  statement='Node (i,j,k) of a grid lies at anchor + (i,j,k) * size / subdivisions, a cell element has exactly the nodes listed for the cell, and the cells tile the box of the grid.',
  over=['inputs'], text='every grid anchor, size and subdivision; every node and cell, addressed by index or by grid coordinates',
  why='The tests use one grid with the same size and subdivision along every axis.',
  files=[T + 'Grid/Grid.h', T + 'Grid/Internal/BaseGrid.h'], mech=[('node(), cell_at(), H(), size()', T + 'Grid/Internal/BaseGrid.h')], observe=['node()', 'cell_at()', 'H()', 'N()', 'size()', 'anchor_position()'],
  tech='random grids against the closed-form positions'),
 dict(id='P12', title='Point location in a grid returns exactly the cells touching the point',
  statement='For a point of the grid, the cell containing it is one whose closed box holds the point (the last cell on the upper boundary when the boundary test is requested), cells_around lists each cell whose closed box holds the point exactly once (1, 2, 4 or 8 of them) and none for a point outside, contains() is the closed box of the grid enlarged by the relative tolerance, and cells_enclosing is the block of cells covering the bounding box of the points clipped to the grid.',
  over=['inputs'], text='every grid and point, in particular points exactly on planes, edges, corners and boundaries of the grid, and points outside',
  why='The tests look up a dozen points of one grid.',
  files=[T + 'Grid/Grid.h', T + 'Grid/Internal/BaseGrid.h'], mech=[('cells_around, cells_enclosing, cell_index_containing, contains', T + 'Grid/Internal/BaseGrid.h')], observe=['cells_around()', 'cells_enclosing()', 'cell_index_containing()', 'cell_coordinates_at()', 'contains()'],
  tech='random grids and points against a brute-force search over all cells'),
 dict(id='P13', title='Hash grid returns every element whose bounding box holds the point',
  statement='A query of the hash grid returns the identifiers of all elements whose closed nodal bounding box contains the point, whatever the cell size, sign of the coordinates, position relative to cell planes and order of insertion, and returns only inserted elements whose bounding box is within one cell of the point.',
  over=['inputs', 'histories'], text='every element type, every set of elements and identifiers, cell size and query point',
  why='The tests query one small grid of elements aligned with the cells.',
  files=[T + 'HashGrid.h'], mech=[('add / get / hashing of cells', T + 'HashGrid.h')], observe=['HashGrid::add()', 'HashGrid::get()'],
  tech='random elements and points against a brute-force bounding-box search'),
 dict(id='P14', title='Embedded points are located in the element that contains them',
  statement='Embedding points in a domain finds, for every point inside an element or on a face, edge or node between elements, an element that contains it together with the local coordinates at which that element maps to the point; a point strictly inside one element is found in that element. A point outside of all elements of the domain (including in a hole, just outside of the boundary, or beside a distorted element) is reported outside. The list of outside points is exactly the points without element, and the answer for a point does not depend on the other points.',
  over=['inputs'], text='every conforming domain of every solid element type (distorted, sheared, rotated, scaled, with holes, any numbering) and every point not within rounding of the boundary of the domain',
  why='The tests embed the nodes of one regular mesh in another one.',
  files=[T + 'BarycentricContainer.h', T + 'HashGrid.h', T + 'Domain.h'], mech=[('barycentric_point: candidates + inverse map + containment', T + 'BarycentricContainer.h')], observe=['Domain::embed()', 'barycentric_points()', 'barycentric_point()', 'closest_elements()', 'outside_nodes()'],
  tech='random conforming meshes and points placed by construction; oracle map'),
 dict(id='P15', title='Fields interpolated on embedded points are those of the container',
  statement='Interpolating nodal values on embedded points gives the shape-function combination of the values of the containing element, for scalar and vector fields in any matrix form; linear fields are reproduced exactly. Values of outside points are left untouched. Mismatched sizes (nodes, points, components, dimension) and empty domains are refused with an exception, without writing anything.',
  over=['inputs'], text='every conforming domain of every solid element type, every nodal field and matrix form (fixed or dynamic, row- or column-major), every set of points',
  why='The tests interpolate one field on one mesh.',
  files=[T + 'BarycentricContainer.h'], mech=[('interpolate()', T + 'BarycentricContainer.h')], observe=['BarycentricContainer::interpolate()', 'Domain::embed()'],
  tech='random fields against the oracle basis; linear-field metamorphic relation; size-mismatch generation'),
 dict(id='P16', title='A mesh holds exactly the domains added and not removed, under their names',
  statement='After any sequence of additions and removals, a mesh lists its domains in order of insertion, each under its name (or its default name), with its connectivity unchanged, pointing back to the mesh. A name already taken, a domain of another mesh, or a domain already present under another name is refused by an exception that changes nothing; removing a domain destroys it exactly once and reports whether it was there; looking up an unknown name gives null.',
  over=['histories'], text='every sequence of add (typed with or without name, copied or external connectivity, handed-over domain, again), remove by name or pointer, on one or more meshes of dimension 1 to 3',
  why='The tests add and remove one or two domains in one order.',
  files=[T + 'Mesh.h', T + 'Domain.h', T + 'BaseMesh.h'], mech=[('add_domain / remove_domain / remove / domain lookup', T + 'Mesh.h')], observe=['Mesh::domains()', 'domain(i)', 'domain(name)', 'number_of_domains()', 'Domain::mesh()'],
  tech='stateful model-based histories compared with a plain model after every step'),
 dict(id='P17', title='Copied, moved, swapped and cloned meshes and domains are independent',
  statement='Copying, assigning, moving or swapping meshes transfers the nodes and domains exactly: a copy holds its own clones of every domain, every domain points back to the mesh that owns it, and later changes or the destruction of one mesh never affect another. A copied, cloned or moved domain keeps its connectivity (owning it if the original did) and belongs to no mesh until attached; it can be attached to one mesh only. No domain is leaked, destroyed twice, or accessed after its destruction.',
  over=['histories'], text='every sequence of copy/move construction and assignment (including self-assignment), swap, clone, destruction, addition and removal over several meshes; domains with internal or external connectivity',
  why='The tests copy or move one mesh once, and cannot see dangling connectivity that still holds the old values.',
  files=[T + 'Mesh.h', T + 'Domain.h'], mech=[('copy/move/swap of Mesh and Domain, clone, attach_to', T + 'Mesh.h, ' + T + 'Domain.h')], observe=['Mesh(const Mesh&)', 'Mesh(Mesh&&)', 'operator=', 'swap', 'Domain::clone()', 'Domain::mesh()'],
  tech='stateful model-based histories under AddressSanitizer with instance counting'),
 dict(id='P18', title='Positions and connectivity are returned exactly as given, in any storage',
  statement='A mesh returns the node positions it was built from (missing components of 1D/2D nodes are zero), whichever constructor and index container are used. A domain returns for each element the node indices given, in order, whether they were copied or live in an external contiguous, strided or column-by-column buffer, for any integer index type, and builds the element of these nodes from the mesh positions or from any other positions.',
  over=['inputs'], text='every element type, index type, storage form, stride, position container and scalar type',
  why='The tests use a couple of storage forms with one element type.',
  files=[T + 'Mesh.h', T + 'Domain.h'], mech=[('Mesh constructors, position(s)(), node()', T + 'Mesh.h'), ('element_indices(), element()', T + 'Domain.h')], observe=['Mesh::position()', 'positions()', 'node()', 'Domain::element_indices()', 'element()'],
  tech='random positions and connectivity round-trip through every storage form'),
 dict(id='P19', title='A VTK file is imported with all its nodes and supported cells, in file order',
  statement='Reading an unstructured-grid VTK file gives a mesh with every point of the file, in order and unchanged, and one domain per supported cell type present in the file holding exactly the cells of that type, in file order and with the same node indices, whatever the mixture of cell types, the encoding (ascii, binary, float, double) and the node index type. Cell types without a registered element are skipped without affecting the others. Registering a builder for a cell type replaces the previous one. The mesh can be built several times from one reader.',
  over=['inputs'], text='every unstructured-grid file with any mixture and order of supported and unsupported cell types; mesh dimension 1 to 3 (points varying along as many axes); three index types',
  why='The tests read one file per element type; mixed cell types, several encodings and interleaved cells are not covered.',
  files=[T + 'IO/VTKReader.h', T + 'IO/VTKReader.cpp'], mech=[('mesh(): points and cells by type', T + 'IO/VTKReader.cpp'), ('register_element_type', T + 'IO/VTKReader.h')], observe=['VTKReader::Read()', 'mesh()', 'register_element_type()', 'print()'],
  tech='random files written by the generator, mesh compared with what was written (round trip)',
  note='recorded finding F-VTKHEX20: mid-edge nodes of quadratic hexahedra are permuted'),
 dict(id='P20', title='A file is read as a 1D or 2D mesh only if its points vary along 1 or 2 axes',
  statement='Reading a file as a 1D or 2D mesh keeps, in order, exactly the axes along which the points of the file differ (wherever in the file and however small the difference), and refuses the file with an exception when their number is not the dimension of the mesh; a 3D mesh keeps all three axes. A file that does not exist is refused; a file without any point gives an empty mesh of any dimension.',
  over=['inputs'], text='every set of points varying along any subset of the axes, with differences down to 1e-9 in any point; empty, foreign and missing files; dimension 1 to 3',
  why='The tests read one file per dimension, lying along the first axes.',
  files=[T + 'IO/VTKReader.cpp', T + 'IO/VTKReader.h'], mech=[('extract_axes_from_3D_vectors', T + 'IO/VTKReader.cpp')], observe=['VTKReader::Read()', 'mesh()'],
  tech='random files over all subsets of varying axes; accepted/refused oracle and round trip'),
 dict(id='P21', title='The deformation gradient is the identity plus the displacement gradient',
  statement='For any number of nodes, dimension and storage order, the deformation gradient computed from shape-function derivatives and nodal displacements is F_ab = delta_ab + sum_i U_ia dN_i/dx_b: exactly the identity without displacement, and exactly A, at every point of every element, when the nodes are moved by the affine map x -> A x + t.',
  over=['inputs'], text='every (nodes x dimension) size used by the elements, both storage orders, derivatives and displacements over 12 orders of magnitude; every volumetric element type, node set, local point and affine motion',
  why='The tests evaluate the strain of one or two deformed elements.',
  files=['src/Caribou/Mechanics/Elasticity/Strain.h', G + 'Element.h'], mech=[('strain::F', 'src/Caribou/Mechanics/Elasticity/Strain.h')], observe=['strain::F()', 'Element::dL()', 'Element::jacobian()'],
  tech='random derivatives and displacements against the defining sum; affine motions as metamorphic relation'),
 dict(id='P22', title='Voigt matrices of the symmetric dyads represent the fourth-order tensors',
  statement='For every symmetric 3x3 tensor a, symmetric_dyad_1(a) is the 6x6 Voigt matrix of a_ij a_kl and symmetric_dyad_2(a) that of (a_ik a_jl + a_il a_jk)/2, in the order xx, yy, zz, xy, yz, xz; both have the major symmetry.',
  over=['inputs'], text='every symmetric tensor (full, diagonal, singular, over 8 orders of magnitude), float or double, both storage orders',
  why='No test covers it; a wrong off-diagonal entry is invisible for diagonal tensors.',
  files=['src/Caribou/Algebra/Tensor.h'], mech=[('symmetric_dyad_1 / symmetric_dyad_2', 'src/Caribou/Algebra/Tensor.h')], observe=['symmetric_dyad_1()', 'symmetric_dyad_2()'],
  tech='random symmetric tensors against the index definition'),
 dict(id='P23', title='Python elements answer exactly as the C++ elements they stand for',
  statement='Every element class of the Python geometry module, built in any of the ways Python offers (default, dimension and order, matrix of nodes in any numpy layout, separate nodes, corners and order, centre/size/rotation), is of the requested type and order and has the same nodes, shape functions, derivatives, map, inverse map, Jacobian, containment and quadrature as the C++ element built from the same data.',
  over=['inputs'], text='every element type, dimension, order, construction and argument layout (list, tuple, C / Fortran / strided / reversed array); every local point and tolerance',
  why='The Python tests build one element of each type and check a few values.',
  files=['src/Caribou/Python/Geometry/' + f for f in ('Element.h', 'Segment.cpp', 'Triangle.cpp', 'Quad.cpp', 'Tetrahedron.cpp', 'Hexahedron.cpp', 'RectangularHexahedron.cpp')], mech=[('create_* factories and class declarations', 'src/Caribou/Python/Geometry/*.cpp'), ('declare_element', 'src/Caribou/Python/Geometry/Element.h')], observe=['Caribou.Geometry.Segment() ... RectangularHexahedron()', 'methods of the element classes'],
  tech='differential: embedded Python interpreter (ASan) against the C++ elements over random constructions'),
 dict(id='P24', title='Python meshes, domains, embeddings and grids behave as in C++ and stay valid',
  statement='A mesh, domain, embedding, hash grid or regular grid driven from Python gives the results of the C++ library on the same data: node positions, domain names and connectivity, elements, barycentric points, interpolated values, grid numbering and cell queries, whatever the numpy layout and integer type of the arguments; arrays given are copied. Elements of the wrong number of nodes are refused. Every object obtained from Python stays usable for as long as the program holds it, even when the mesh it came from is no longer referenced.',
  over=['inputs', 'histories'], text='every element type, mesh of dimension 1 to 3, connectivity, set of embedded points, nodal field, 2D/3D grid and query point; every order of releasing mesh, domain and embedding objects',
  why='The Python tests build one mesh and one grid; object lifetimes are never exercised.',
  files=['src/Caribou/Python/Topology/' + f for f in ('Mesh.cpp', 'Domain.h', 'Domain.cpp', 'BarycentricContainer.h', 'HashGrid.cpp', 'Grid.cpp')], mech=[('declare_mesh / declare_domain / declare_barycentric_container / grids', 'src/Caribou/Python/Topology/')], observe=['Caribou.Topology.Mesh', 'add_domain()', 'embed()', 'Grid2D/Grid3D', 'HashGrid()'],
  tech='differential and lifetime histories: embedded Python interpreter under AddressSanitizer against the C++ library'),
 dict(id='P25', title='Hyperelastic stress and elasticity are derivatives of the energy density',
  statement='For every material of the SOFA plugin and any Young modulus, Poisson ratio and right Cauchy-Green tensor C = F^T F, the energy density is that of the law (Neo-Hookean, Saint-Venant-Kirchhoff), the second Piola-Kirchhoff stress is 2 dPsi/dC and the jacobian is its exact 6x6 Voigt derivative 2 dS/dC; all vanish or reduce to linear elasticity at rest, and use the parameters in force at the last update, whatever was evaluated before.',
  over=['inputs', 'histories'], text='every E in 1e-3..1e9, nu in -0.45..0.495, deformation from none to 80% strain, rotated or not; every order of parameter changes and evaluations',
  why='The tests evaluate a material at a few deformations with one set of parameters.',
  files=['src/SofaCaribou/Material/NeoHookeanMaterial.h', 'src/SofaCaribou/Material/SaintVenantKirchhoffMaterial.h', 'src/SofaCaribou/Material/HyperelasticMaterial.h'], mech=[('density / PK2_stress / PK2_stress_jacobian / before_update', 'src/SofaCaribou/Material/*.h')], observe=['HyperelasticMaterial::density()', 'PK2_stress()', 'PK2_stress_jacobian()'],
  tech='random deformations and parameter histories against closed-form laws'),
 dict(id='P26', title='Eigen matrices and vectors used through SOFA behave as plain arrays',
  statement='After any sequence of operations through the SOFA matrix and vector interfaces (resize, set, add of scalars and 2x2/3x3 float or double blocks, clear of all, of rows, columns, or both, compress, reading), an Eigen matrix or vector, dense or sparse, row- or column-major, owned or referred to, holds exactly what the same sequence gives on a plain array; entries added at one place accumulate; dot, size and element access agree with it.',
  over=['histories'], text='every sequence of operations on matrices of 1x1 to 8x8 and vectors, every storage and scalar type, owning or referring wrapper',
  why='The tests perform each operation once on one matrix, never clearing after late insertions.',
  files=['src/SofaCaribou/Algebra/EigenMatrix.h', 'src/SofaCaribou/Algebra/EigenVector.h', 'src/SofaCaribou/Algebra/BaseVectorOperations.cpp'], mech=[('set / add / clear* / compress of the dense and sparse specialisations', 'src/SofaCaribou/Algebra/EigenMatrix.h')], observe=['EigenMatrix', 'EigenVector', 'Algebra::dot()'],
  tech='stateful model-based histories compared with a plain array after every step'),
 dict(id='P27', title='Hyperelastic forces and stiffness derive from the energy of the body',
  statement='For any conforming mesh of (linear or quadratic) tetrahedra or hexahedra, material and position of the nodes, the hyperelastic force field adds to the force vector minus the gradient of the potential energy (the integral of the energy density over the rest shape) and its stiffness, as a matrix, as added to a global matrix at any offset and factor, and as a product with an increment, is the Hessian of that energy at the last positions used; a rigid motion gives no force. Results do not depend on the number of threads nor on earlier evaluations, and K(), eigenvalues and addKToMatrix agree.',
  over=['inputs', 'histories'], text='every mesh up to 60 nodes, both laws, parameters changed between steps, positions up to 30% strain and any rotation; every order of forces, products and assemblies; topology from a Caribou or a SOFA container; 1 to 4 threads',
  why='The tests run one beam in one load case, and never the quadratic elements with a changed state.',
  files=['src/SofaCaribou/Forcefield/HyperelasticForcefield.inl', 'src/SofaCaribou/Forcefield/HyperelasticForcefield.h', 'src/SofaCaribou/Forcefield/CaribouForcefield.inl'], mech=[('addForce / addDForce / addKToMatrix / update_stiffness / getPotentialEnergy', 'src/SofaCaribou/Forcefield/HyperelasticForcefield.inl')], observe=['addForce()', 'addDForce()', 'addKToMatrix()', 'getPotentialEnergy()', 'K()'],
  tech='random meshes and histories against energy, gradient and Hessian assembled by an independent model'),
 dict(id='P28', title='Corotational elastic forces are linear elasticity in the rotated frame',
  statement='For any mesh of linear tetrahedra or hexahedra, each element of the elastic force fields contributes the forces R K0 (R^T x - X) of linear isotropic elasticity in the frame R that its nodes rotated by (R = identity when not corotated): zero at rest and under rigid motions, exactly linear without rotation. Stiffness products and matrices are R K0 R^T assembled over the elements, symmetric, at any factor and offset; with no topology or several of them in the node, and none given, an error is reported and no force is added; changed parameters apply after reinit exactly as for a fresh force field.',
  over=['inputs', 'histories'], text='every mesh up to 40 nodes, arbitrary orientation of the rest elements, parameters, integration method, corotated or not, positions from none to large strain and rotation; every order of forces, products, assemblies and reinits',
  why='The tests run one axis-aligned beam; rest shapes that are not aligned with the axes are never used.',
  files=['src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp', 'src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp'], mech=[('addForce / addDForce / addKToMatrix / reinit / compute_K', 'src/SofaCaribou/Forcefield/*ElasticForce.cpp')], observe=['addForce()', 'addDForce()', 'addKToMatrix()', 'K()'],
  tech='random meshes and histories against an independent element stiffness and frame; rigid-motion metamorphic relation'),
 dict(id='P29', title='A linear solver returns the solution of the system it was given, or failure',
  statement='The LDLT, LLT, LU and conjugate-gradient solvers of the SOFA plugin assemble A = m M + b B + k K of the scene with constraints projected, and solve A x = b for the matrix and right-hand side last given: a solve reported successful satisfies the system to the accuracy of the method (the stated tolerance for conjugate gradients), a zero right-hand side gives a zero solution, and a system that cannot be factorized or does not converge is reported as failed, never as solved with a stale factorization. No matrix, or a matrix of another kind than that of the solver, is never reported as factorized. This holds across any sequence of systems of different size, values and sparsity pattern.',
  over=['inputs', 'histories'], text='every sequence of random systems (definite, indefinite, singular, unsymmetric for LU, reducible), right-hand sides, factors, fixed nodes, preconditioners, tolerances and iteration limits',
  why='The tests solve one system per solver and never a singular or a changing one.',
  files=['src/SofaCaribou/Solver/EigenSolver.h', 'src/SofaCaribou/Solver/LDLTSolver.inl', 'src/SofaCaribou/Solver/LLTSolver.inl', 'src/SofaCaribou/Solver/LUSolver.inl', 'src/SofaCaribou/Solver/ConjugateGradientSolver.cpp'], mech=[('analyze_pattern / factorize / solve of each solver', 'src/SofaCaribou/Solver/')], observe=['LinearSolver::factorize()', 'solve()', 'setSystemMBKMatrix()', 'solveSystem()'],
  tech='random system histories; residual and reported status against a dense reference'),
 dict(id='P30', title='Topologies hold the given elements; force fields find and enclose their own',
  statement='A Caribou topology of any element type holds, after initialisation, exactly the elements of the given indices (its own copy) on the given positions or else the rest positions of the state of its context, or the domain attached to it, and reports indices or positions that make no topology. A force field takes the topology it is linked to or the only compatible one of its context, reports it otherwise, deduces its element type from it, and its bounding box encloses its nodes.',
  over=['inputs', 'histories'], text='all 12 element types, any indices (valid, out of range, empty) and positions; every order of initialisation, change of the data and attachment; any arrangement of Caribou and SOFA topologies in the context',
  why='The tests initialise a few topologies once, and no test covers the lookup.',
  files=['src/SofaCaribou/Topology/CaribouTopology.inl', 'src/SofaCaribou/Forcefield/CaribouForcefield.inl', 'src/SofaCaribou/Forcefield/CaribouForcefield.h'], mech=[('init / initializeFromIndices / attachDomain', 'src/SofaCaribou/Topology/CaribouTopology.inl'), ('init / canCreate / computeBBox', 'src/SofaCaribou/Forcefield/CaribouForcefield.inl')], observe=['CaribouTopology::domain()', 'CaribouForcefield::topology()', 'canCreate()', 'f_bbox'],
  tech='stateful scene histories against a plain model of the scene'),
 dict(id='P31', title='A traction adds to the nodes the load of the surface, increment by increment',
  statement='The traction force field adds to each node the traction times the integral of its shape function over the rest surface, so that the forces sum to traction x area. With a slope the load starts at zero and grows by slope x traction every given number of time steps until it is exactly the whole traction, which then stays; without a slope it is whole from the beginning. The reported total load agrees. Resetting or initialising again starts over; other forces in the vector are kept.',
  over=['inputs', 'histories'], text='every surface of linear or quadratic triangles or quads in 2D and 3D (shared nodes, distorted), traction, slope, waiting steps; every sequence of time steps, resets, re-initialisations and parameter changes',
  why='The tests load one planar surface at once; increments and resets are not covered.',
  files=['src/SofaCaribou/Forcefield/TractionForcefield.inl', 'src/SofaCaribou/Forcefield/TractionForcefield.h'], mech=[('init / reset / handleEvent / increment_load / addForce', 'src/SofaCaribou/Forcefield/TractionForcefield.inl')], observe=['addForce()', 'total_load', 'nodal_forces'],
  tech='stateful time-step histories against a model of the load; oracle basis for the surface integrals'),
 dict(id='P32', title='A barycentric mapping interpolates its parent and transposes forces back',
  statement='For any container mesh and mapped points inside it, mapped positions and velocities are the interpolation of those of the parent by the shape functions at the rest (or initial) place of the points, and forces and constraint lines are carried to the parent by exactly the transposed operator, added to what is there, so that power is conserved. Points outside are reported and the mapping then changes nothing. The topology used is the linked one or the compatible one found in the parent or the mapping context.',
  over=['inputs', 'histories'], text='every conforming mesh of linear or quadratic tetrahedra or hexahedra, points in elements, between elements, just outside; every sequence of apply, applyJ, applyJT (vectors and constraints); every place of the topology in the scene',
  why='The tests map one beam once.',
  files=['src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl', 'src/SofaCaribou/Mapping/CaribouBarycentricMapping.h'], mech=[('init / apply / applyJ / applyJT / canCreate', 'src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl')], observe=['apply()', 'applyJ()', 'applyJT()'],
  tech='random meshes and points placed by construction; transposition as metamorphic relation'),
 dict(id='P33', title='Time integration solves the documented static and backward Euler equations',
  statement='For any scene, a step of the static solver performs Newton-Raphson iterations on R(x) = P, and a step of the backward Euler solver on F(a) = M a + (C + r_m M + r_k K)(v + h a) + R(x + h v + h^2 a) - P = 0 starting from a = 0, with v_new = v + h a and x_new = x + h v_new. Fixed degrees of freedom do not move, forces of mapped objects count once, and mapped states follow their parent. At most newton_iterations iterations are made; converged, the residuals and the number of iterations follow the documented criteria; a failed linear solve stops the step unconverged. The linked or first compatible linear solver is used and always refers to a live system matrix.',
  over=['inputs', 'histories'], text='every scene of one or two bodies with mass, damping, non-linear stiffness, fixed and mapped degrees of freedom; every direct solver and conjugate gradients; every tolerance, iteration count, pattern-analysis strategy and time step; every sequence of steps, loads, velocities, parameter and scene changes and resets',
  why='The tests follow one beam from rest, with a direct solver and no mapping.',
  files=['src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp', 'src/SofaCaribou/Ode/BackwardEulerODESolver.cpp', 'src/SofaCaribou/Ode/StaticODESolver.cpp', 'src/SofaCaribou/Ode/LegacyStaticODESolver.cpp'], mech=[('NewtonRaphsonSolver::solve / init / reset', 'src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp'), ('assemble_rhs_vector / assemble_system_matrix / propagate_solution_increment', 'src/SofaCaribou/Ode/BackwardEulerODESolver.cpp'), ('assemble_rhs_vector / propagate_solution_increment', 'src/SofaCaribou/Ode/StaticODESolver.cpp'), ('solve', 'src/SofaCaribou/Ode/LegacyStaticODESolver.cpp')], observe=['positions and velocities', 'converged', 'squared_residuals()', 'squared_initial_residual()'],
  tech='stateful time-step histories against an independent dense Newton-Raphson model'),
 dict(id='P34', title='A fictitious grid keeps exactly the cells of the body and their share of it',
  statement='For any regular grid, number of subdivision levels, volume threshold and closed surface, a FictitiousGrid classifies the leaves of the cell trees as documented (implicit surface: inside / outside when every node has a negative / positive iso-value, else boundary; tessellated surface: boundary when a triangle meets the leaf, outside when connected to the border of the grid, else inside). The sparse grid holds each cell that is not outside and fills at least the threshold, once, with its nodes and no others. For every level, the integration points of a cell reproduce the quadrature of its leaves (weights at the given level summed from the leaves below). Volume ratios and the type of points agree with the cells. Given bounds are kept, missing ones are those of the surface, every initialisation depends only on the current data, and invalid surfaces are reported.',
  over=['inputs', 'histories'], text='every grid size, position and resolution in 2D and 3D, subdivision level and threshold; every level set (exact zeros included) and every closed triangulated surface, given as data or found in the scene; every sequence of re-initialisations; every query point, also between cells',
  why='The tests use one circle, one sphere and one cylinder on fixed grids, look at counts and total volumes, and query no point between cells.',
  files=['src/SofaCaribou/Topology/FictitiousGrid.inl', 'src/SofaCaribou/Topology/FictitiousGrid.cpp', 'src/SofaCaribou/Topology/FictitiousGrid.h', 'src/SofaCaribou/Topology/CylinderIsoSurface.h', 'src/SofaCaribou/Topology/SphereIsoSurface.h', 'src/SofaCaribou/Topology/CircleIsoSurface.h'], mech=[('init / create_grid / tag_* / create_sparse_grid / get_neighbors / get_gauss_nodes_of_cell / get_type_at / cell_volume_ratio_distribution', 'src/SofaCaribou/Topology/FictitiousGrid.inl'), ('tag_intersected_cells / subdivide_intersected_cells', 'src/SofaCaribou/Topology/FictitiousGrid.cpp'), ('iso_value', 'src/SofaCaribou/Topology/CylinderIsoSurface.h')], observe=['position, quads, hexahedrons', 'get_gauss_nodes_of_cell', 'cell_volume_ratio_distribution', 'get_type_at', 'iso_value'],
  tech='generated surfaces and re-initialisation histories against an independent tree model of the cells'),
 dict(id='P35', title='SOFA components answer from Python as they do in C++, and stay valid',
  statement='Every component that the Python module SofaCaribou exposes can be reached from Python, and each method answers with the values of the C++ component at that moment: stiffness matrices, condition numbers and eigenvalues of the hyperelastic and corotational force fields, Gauss nodes and element matrices, assembly from positions in double or single precision and any memory layout, the system matrix a conjugate gradient solver assembles with the given factors (all 1 by default), the residuals and times of the static solvers, the counts and volume ratios of fictitious grids, and the domain of a topology. Matrices got earlier do not change, asking has no side effect on the component, Python keeps a component it holds alive, and a solver that was given no system has no system matrix.',
  over=['inputs', 'histories'], text='every mesh, material, deformation and memory layout of the positions; every sequence of assemblies, solves, re-initialisations and queries; every order in which Python and the scene release a component',
  why='The only test of these bindings assembles one beam twice; most methods are never called from Python.',
  files=['src/SofaCaribou/Python/SofaCaribou.cpp', 'src/SofaCaribou/Python/Forcefield/HyperelasticForcefield.h', 'src/SofaCaribou/Python/Forcefield/HexahedronElasticForce.cpp', 'src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h', 'src/SofaCaribou/Python/Ode/StaticODESolver.cpp', 'src/SofaCaribou/Python/Ode/LegacyStaticODESolver.cpp', 'src/SofaCaribou/Python/Topology/FictitiousGrid.cpp', 'src/SofaCaribou/Python/Topology/CaribouTopology.h'], mech=[('bind_hyperelastic_forcefield', 'src/SofaCaribou/Python/Forcefield/HyperelasticForcefield.h'), ('bind_ConjugateGradientSolver', 'src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h'), ('create_fictitious_grid', 'src/SofaCaribou/Python/Topology/FictitiousGrid.cpp'), ('bind_caribou_topology', 'src/SofaCaribou/Python/Topology/CaribouTopology.h')], observe=['values returned in Python', 'values returned in C++', 'memory errors'],
  tech='differential testing of generated scenes, Python against C++, under AddressSanitizer'),
 dict(id='P36', title='A multi-vector is assigned to every state concerned, and only to them',
  statement='Assigning a multi-vector b to a (a := b) in a scene copies, in every independent state, and in the mapped ones too or in the mapped ones only when asked, all the values of b to a, whether each of them holds coordinates or derivatives, whatever the dimension of the state and the lengths of the two vectors (a grows when it is shorter). No other vector and no other state changes; states behind a mapping that does not pass forces on are left out unless mapped states are asked for. A state of a type that cannot be copied is refused with an exception.',
  over=['inputs', 'histories'], text='every tree of independent and mapped states of one to three dimensions, every pair of vectors and every sequence of assignments',
  why='No test runs this visitor.',
  files=['src/SofaCaribou/Visitor/MultiVecEqualVisitor.h', 'src/SofaCaribou/Visitor/MultiVecEqualVisitor.cpp'], mech=[('MultiVecEqualVisitor::copy', 'src/SofaCaribou/Visitor/MultiVecEqualVisitor.cpp')], observe=['vectors of the states'],
  tech='model-based testing of assignment histories'),
]
