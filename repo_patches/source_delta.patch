From a4201d45bbec36f800f06058522fcc89a40236e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:08 +0000
Subject: [PATCH 01/47] fix: quadratic rectangular quad reports 4 gauss nodes,
 as many as it has

---
 src/Caribou/Geometry/RectangularQuad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/RectangularQuad.h b/src/Caribou/Geometry/RectangularQuad.h
index 1207b1c..b9611d2 100644
--- a/src/Caribou/Geometry/RectangularQuad.h
+++ b/src/Caribou/Geometry/RectangularQuad.h
@@ -157,7 +157,7 @@ struct traits<RectangularQuad <_Dimension, Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 2;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = _Dimension;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 8;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
 
     using BoundaryElementType = Segment<_Dimension, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 4;
-- 
2.43.0


From 7d540224d50df0d545d96f942736ee865977fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:08 +0000
Subject: [PATCH 02/47] fix: quadratic rectangular hexahedron reports 8 gauss
 nodes, as many as it has

---
 src/Caribou/Geometry/RectangularHexahedron.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 316d1d0..8319783 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -193,7 +193,7 @@ struct traits<RectangularHexahedron <Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 3;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = 3;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 20;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
 
     using BoundaryElementType = RectangularQuad<3, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 6;
-- 
2.43.0


From 8e2a6f40b1f7f4f6fac0a36ecd1a3c53f804471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:30 +0000
Subject: [PATCH 03/47] fix: mid-edge nodes of the faces of a quadratic
 rectangular hexahedron follow its node numbering

---
 src/Caribou/Geometry/RectangularHexahedron.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 8319783..650763d 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -400,12 +400,12 @@ private:
 
     inline auto get_boundary_elements_nodes() const -> const auto & {
         static const std::array<std::array<UNSIGNED_INTEGER_TYPE, 8>, 6> indices = {{
-            {0, 3, 2, 1,  9, 13, 11,  8}, // Face 0
-            {0, 4, 7, 3, 10, 17, 15,  9}, // Face 1
-            {1, 2, 6, 5, 11, 14, 18, 12}, // Face 2
-            {0, 1, 5, 4,  8, 12, 16, 10}, // Face 3
-            {2, 3, 7, 6, 13, 15, 19, 14}, // Face 4
-            {4, 5, 6, 7, 16, 18, 19, 17}  // Face 5
+            {0, 3, 2, 1, 11, 10,  9,  8}, // Face 0
+            {0, 4, 7, 3, 16, 15, 19, 11}, // Face 1
+            {1, 2, 6, 5,  9, 18, 13, 17}, // Face 2
+            {0, 1, 5, 4,  8, 17, 12, 16}, // Face 3
+            {2, 3, 7, 6, 10, 19, 14, 18}, // Face 4
+            {4, 5, 6, 7, 12, 13, 14, 15}  // Face 5
         }};
         return indices;
     }
-- 
2.43.0


From 6c7120b029e2041a1b80e1e0587109b291146d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:30 +0000
Subject: [PATCH 04/47] fix: the frame of a hexahedron at its center can be
 instantiated

---
 src/Caribou/Geometry/BaseHexahedron.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/BaseHexahedron.h b/src/Caribou/Geometry/BaseHexahedron.h
index 52c2de5..d1fa0d6 100644
--- a/src/Caribou/Geometry/BaseHexahedron.h
+++ b/src/Caribou/Geometry/BaseHexahedron.h
@@ -80,7 +80,7 @@ struct BaseHexahedron : public Element<Derived> {
      */
     inline auto frame() const -> Matrix<3, 3>
     {
-        return frame(LocalCoordinates::Zeros());
+        return frame(LocalCoordinates::Zero());
     }
 
     /**
-- 
2.43.0


From 01f96af686884825228e2cfa7701a0c8b03d1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:30 +0000
Subject: [PATCH 05/47] fix: contains_local can be used on rectangular quads

---
 src/Caribou/Geometry/BaseRectangularQuad.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Caribou/Geometry/BaseRectangularQuad.h b/src/Caribou/Geometry/BaseRectangularQuad.h
index ef9987e..dd862a5 100644
--- a/src/Caribou/Geometry/BaseRectangularQuad.h
+++ b/src/Caribou/Geometry/BaseRectangularQuad.h
@@ -92,6 +92,12 @@ private:
     inline auto get_center() const {return p_center;};
     [[nodiscard]]
     inline auto get_number_of_boundary_elements() const -> UNSIGNED_INTEGER_TYPE {return 4;};
+    inline auto get_contains_local(const LocalCoordinates & xi, const FLOATING_POINT_TYPE & eps) const -> bool {
+        const auto & u = xi[0];
+        const auto & v = xi[1];
+        return IN_CLOSED_INTERVAL(-1-eps, u, 1+eps) and
+               IN_CLOSED_INTERVAL(-1-eps, v, 1+eps);
+    }
 
     auto self() -> Derived& { return *static_cast<Derived*>(this); }
     auto self() const -> const Derived& { return *static_cast<const Derived*>(this); }
-- 
2.43.0


From 14404be9ba2aadfabb968a2607adfd1557b4169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:30 +0000
Subject: [PATCH 06/47] fix: the inverse of the element map does not compare an
 absolute residual with its relative tolerance

---
 src/Caribou/Geometry/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/Element.h b/src/Caribou/Geometry/Element.h
index fdbd558..d333208 100644
--- a/src/Caribou/Geometry/Element.h
+++ b/src/Caribou/Geometry/Element.h
@@ -237,8 +237,8 @@ struct Element {
         FLOATING_POINT_TYPE r_norm_2 = residual.squaredNorm();
         FLOATING_POINT_TYPE r0_norm_2 = r_norm_2;
 
-        if (r_norm_2 < squared_threshold) {
-            // The initial guess is good enough
+        if (r_norm_2 == 0) {
+            // The initial guess is the solution
             return xi;
         }
 
-- 
2.43.0


From 1126bc08bbfcc0cbe381491ca2f94b6ffc317dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:27 +0000
Subject: [PATCH 07/47] fix: removing a domain that is not the first one of the
 mesh terminates

---
 src/Caribou/Topology/Mesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 1d40659..8b6115a 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -454,7 +454,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove_domain(const std::string & name) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->first != name);
+            while (it != p_domains.end() and it->first != name) ++it;
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
@@ -469,7 +469,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove(const BaseDomain * domain) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->second.get() != domain);
+            while (it != p_domains.end() and it->second.get() != domain) ++it;
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
-- 
2.43.0


From e514258d47689eddeb507096c07702629dba4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:27 +0000
Subject: [PATCH 08/47] fix: the missing coordinates of the nodes of 1D and 2D
 meshes are zero

---
 src/Caribou/Topology/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 8b6115a..34f2bf3 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -270,7 +270,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         [[nodiscard]]
         inline auto node(const UNSIGNED_INTEGER_TYPE & node_id) const -> Eigen::Vector3d override {
             const auto p = position(node_id);
-            Eigen::Vector3d n;
+            Eigen::Vector3d n = Eigen::Vector3d::Zero();
             n[0] = p[0];
             if constexpr (Dimension > 1) {
                 n[1] = p[1];
-- 
2.43.0


From 88513b929bb96b5ec41ce67666dac1c400bc183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:27 +0000
Subject: [PATCH 09/47] fix: positions can be queried from a std::array of
 indices

---
 src/Caribou/Topology/Mesh.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 34f2bf3..b60d5c9 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -529,7 +529,11 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         template <typename IntegerType, std::size_t N>
         inline auto positions(const std::array<IntegerType, N> & indices) const {
-            return positions<IntegerType, N>(indices.data());
+            Eigen::Matrix<Real, N, Dimension, (Dimension>1?Eigen::RowMajor:Eigen::ColMajor)> positions;
+            for (std::size_t i = 0; i < N; ++i) {
+                positions.row(i) = p_nodes.node(indices[i]);
+            }
+            return positions;
         }
 
         /*!
-- 
2.43.0


From c4cb8902aba605ebbfdf614c353a9a739e0d97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:27 +0000
Subject: [PATCH 10/47] fix: a copied or moved domain owns its connectivity and
 is not attached to any mesh

---
 src/Caribou/Topology/Domain.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index fd3948d..8fe1d14 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -97,10 +97,16 @@ namespace caribou::topology {
 
         /*! Copy constructor */
         Domain(const Domain & other) noexcept
-        : DomainStorage<Element>(other), p_buffer(other.p_buffer), p_elements(other.p_elements) {}
+        : DomainStorage<Element>(other), p_mesh(nullptr), p_buffer(other.p_buffer), p_elements(other.p_elements) {
+            // The copy of an internal buffer must be mapped instead of the buffer of the other domain
+            if (other.p_elements.data() == other.p_buffer.data()) {
+                using MapType = decltype(p_elements);
+                new (&p_elements) MapType (p_buffer.data(), other.p_elements.rows(), other.p_elements.cols(), {other.p_elements.outerStride(), other.p_elements.innerStride()});
+            }
+        }
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_elements {nullptr, 0, 0} {
+        Domain(Domain && other) noexcept : p_mesh(nullptr), p_elements {nullptr, 0, 0} {
             swap(*this, other);
         }
 
-- 
2.43.0


From 49b3ee0651d9ebd3eb49e37ef96bee66e2b88b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:27 +0000
Subject: [PATCH 11/47] fix: the domains of a copied, moved or swapped mesh
 belong to that mesh

---
 src/Caribou/Topology/BaseDomain.h | 2 +-
 src/Caribou/Topology/Domain.h     | 4 ++--
 src/Caribou/Topology/Mesh.h       | 9 +++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Topology/BaseDomain.h b/src/Caribou/Topology/BaseDomain.h
index eeea1ad..25af7e6 100644
--- a/src/Caribou/Topology/BaseDomain.h
+++ b/src/Caribou/Topology/BaseDomain.h
@@ -48,7 +48,7 @@ namespace caribou::topology {
         [[nodiscard]] virtual BaseDomain * clone() const = 0;
 
         /*!
-         * Attach this Domain to the given Mesh.
+         * Attach this Domain to the given Mesh, or detach it from its current Mesh if the given pointer is null.
          */
         virtual void attach_to(const BaseMesh * mesh) = 0;
     };
diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 8fe1d14..7654344 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -235,8 +235,8 @@ namespace caribou::topology {
             }
 
             // There is already a Mesh instance attached to this Domain, and this domain can still be found in the
-            // list of domains of the mesh, let's throw an exception
-            if (p_mesh != nullptr)  {
+            // list of domains of the mesh, let's throw an exception (a null mesh detaches the domain)
+            if (p_mesh != nullptr and mesh != nullptr)  {
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
             }
 
diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index b60d5c9..cf1744b 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -226,6 +226,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
                 const std::string & domain_name = p.first;
                 BaseDomain * cloned_domain_ptr  = p.second->clone();
                 p_domains.emplace_back(domain_name, cloned_domain_ptr);
+                cloned_domain_ptr->attach_to(this);
             }
         }
 
@@ -602,6 +603,14 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
 
             swap(first.p_nodes, second.p_nodes);
             swap(first.p_domains, second.p_domains);
+
+            // The domains follow the mesh they are now part of
+            for (Mesh * mesh : {&first, &second}) {
+                for (const auto & d : mesh->p_domains) {
+                    d.second->attach_to(nullptr);
+                    d.second->attach_to(mesh);
+                }
+            }
         }
 
     private:
-- 
2.43.0


From f1a9f3a7e06c62d88f462d3ae147b5a17c36e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:24 +0000
Subject: [PATCH 12/47] fix: there is no cell around a point outside of the
 grid

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 776b191..c08651d 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -153,7 +153,6 @@ struct BaseGrid
         std::vector<CellIndex> cells;
         cells.reserve((unsigned) 1<<Dimension);
 
-        const CellIndex ncells = number_of_cells();
         const VecFloat h = H();
 
         /// Absolute grid coordinates of the point, for example absolute(p) = [3.25, 3.25, 3.25]
@@ -177,9 +176,9 @@ struct BaseGrid
 
         if (close_to_axis.none()) {
             // We are not near any axis, which means we are well inside a cell's boundaries
-            const auto cell_index = Self().cell_index_at(absolute.unaryExpr(CwiseFloor()). template cast<Int>());
-            if (0 <= cell_index and cell_index <= ncells-1) { // Within the boundary of the grid
-                cells.emplace_back(cell_index);
+            const GridCoordinates cell_coordinates = absolute.unaryExpr(CwiseFloor()). template cast<Int>();
+            if ((cell_coordinates.array() >= 0).all() and (cell_coordinates.array() < N().array(). template cast<Int>()).all()) { // Within the boundary of the grid
+                cells.emplace_back(Self().cell_index_at(cell_coordinates));
             }
         } else {
             const VecFloat d = VecFloat::Constant(0.5);
@@ -194,13 +193,13 @@ struct BaseGrid
                 if (close_to_axis[axis]) {
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] - d[axis]));
-                        if (index >= 0) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] + d[axis]));
-                        if (index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
-- 
2.43.0


From d2eca0e98d341dd29d04375455aa05e0119c2f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:18 +0000
Subject: [PATCH 13/47] fix: cells enclosing positions are the clipped bounding
 box also when a position is outside of the grid

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 64 ++++++-------------
 1 file changed, 18 insertions(+), 46 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index c08651d..aa2ddab 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -324,63 +324,35 @@ struct BaseGrid
         GridCoordinates lower_grid_boundary = GridCoordinates::Zero();
         GridCoordinates upper_grid_boundary = N(). template cast<Int>() - GridCoordinates::Ones();
 
-        // Tool function that returns the minimum grid coordinates between two grid coordinates
-        auto min_between =
+        // Tool function that extends the given cells to include the ones around a position, clipped to the grid boundaries
+        auto extend =
                 [this, &lower_grid_boundary, &upper_grid_boundary]
-                (const std::vector<CellIndex> & cells_indices, const GridCoordinates & min_coordinates) -> GridCoordinates
+                (const WorldCoordinates & position, GridCoordinates & lower_bound, GridCoordinates & upper_bound)
                 {
-                    GridCoordinates lower_bound = min_coordinates;
-
-                    for (const auto & cell_index: cells_indices) {
-                        const GridCoordinates coordinates = Self().cell_coordinates_at(cell_index);
-                        for (size_t i = 0; i < Dimension; ++i) {
-                            lower_bound[i] = std::min(coordinates[i], lower_bound[i]);
-
-                            // Clip to grid boundaries if the coordinates lies outside of the grid
-                            lower_bound[i] = std::max(lower_bound[i], lower_grid_boundary[i]);
-                            lower_bound[i] = std::min(lower_bound[i], upper_grid_boundary[i]);
-                        }
-                    }
-                    return lower_bound;
-                };
-
-        // Tool function that returns the maximum grid coordinates between two grid coordinates
-        auto max_between =
-                [this, &lower_grid_boundary, &upper_grid_boundary]
-                (const std::vector<CellIndex> & cells_indices, const GridCoordinates & max_coordinates) -> GridCoordinates
-                {
-                    GridCoordinates upper_bound = max_coordinates;
-
-                    for (const auto & cell_index: cells_indices) {
-                        const GridCoordinates coordinates = Self().cell_coordinates_at(cell_index);
-                        for (size_t i = 0; i < Dimension; ++i) {
-
-                            upper_bound[i] = std::max(coordinates[i], upper_bound[i]);
-
-                            // Clip to grid boundaries if the coordinate lies outside of the grid
-                            upper_bound[i] = std::max(upper_bound[i], lower_grid_boundary[i]);
-                            upper_bound[i] = std::min(upper_bound[i], upper_grid_boundary[i]);
-                        }
+                    const VecFloat absolute = ((position - m_anchor_position).array() / H().array()).matrix();
+                    for (size_t i = 0; i < Dimension; ++i) {
+                        // When the position is outside of the grid, it is moved to the grid's boundary
+                        const Float clipped = std::min(std::max(absolute[i], static_cast<Float>(0)), static_cast<Float>(N()[i]));
+                        // When the position lies between two cells, both of them are included
+                        const Int lower = static_cast<Int>(std::ceil(clipped)) - 1;
+                        const Int upper = static_cast<Int>(std::floor(clipped));
+                        lower_bound[i] = std::min(lower_bound[i], std::max(lower, lower_grid_boundary[i]));
+                        upper_bound[i] = std::max(upper_bound[i], std::min(upper, upper_grid_boundary[i]));
                     }
-                    return upper_bound;
                 };
 
         // 1. Find the grid coordinates bounding box of the cells that contain each nodes
-        GridCoordinates lower_cell = min_between(cells_around(positions[0]), upper_grid_boundary);
-        GridCoordinates upper_cell = max_between(cells_around(positions[0]), lower_grid_boundary);
+        GridCoordinates lower_cell = upper_grid_boundary;
+        GridCoordinates upper_cell = lower_grid_boundary;
 
         // This is used to discard the bbox computation if all points are outside the grid
-        bool grid_contains_at_least_one_point = contains(WorldCoordinates(positions[0]));
-
-        for (size_t i = 1; i < positions.size(); ++ i) {
+        bool grid_contains_at_least_one_point = false;
 
-            if (not grid_contains_at_least_one_point and contains(WorldCoordinates(positions[i])))
+        for (const auto & position : positions) {
+            if (contains(position))
                 grid_contains_at_least_one_point = true;
 
-            const auto coordinates = cells_around(positions[i]);
-
-            lower_cell = min_between(coordinates, lower_cell);
-            upper_cell = max_between(coordinates, upper_cell);
+            extend(position, lower_cell, upper_cell);
         }
 
         if (not grid_contains_at_least_one_point)
-- 
2.43.0


From 8f8b3856bbe1b4bfe1f31e4d5588c60ed022fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:18 +0000
Subject: [PATCH 14/47] fix: reading a file without any points as a 1D or 2D
 mesh gives an empty mesh

---
 src/Caribou/Topology/IO/VTKReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Caribou/Topology/IO/VTKReader.cpp b/src/Caribou/Topology/IO/VTKReader.cpp
index 8c2666c..415bbf8 100644
--- a/src/Caribou/Topology/IO/VTKReader.cpp
+++ b/src/Caribou/Topology/IO/VTKReader.cpp
@@ -236,6 +236,11 @@ auto extract_axes_from_3D_vectors(vtkPoints * input_points, const vtkIdType & nu
       axes[0] = 0;
       axes[1] = 1;
       axes[2] = 2;
+    } else if (number_of_points == 0) {
+        // Nothing to extract the axes from
+        for (std::size_t axis = 0; axis < Dimension; ++axis) {
+            axes[axis] = axis;
+        }
     } else {
         double * v = input_points->GetPoint(0);
         std::bitset<3> is_all_the_same(0b111); // Set all to '1' at first
-- 
2.43.0


From 86c2e1d46aa2af8a68515062878f94a2ff88581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:30 +0000
Subject: [PATCH 15/47] fix: a point between two distorted elements is found in
 one of them

The local coordinates were computed with a relative tolerance of 1e-5 while the
containment test has a tolerance of 1e-10, so such a point could be rejected by
every element and was then ignored as if it was outside of the domain.
---
 src/Caribou/Topology/BarycentricContainer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/BarycentricContainer.h b/src/Caribou/Topology/BarycentricContainer.h
index aa38851..3f6de53 100644
--- a/src/Caribou/Topology/BarycentricContainer.h
+++ b/src/Caribou/Topology/BarycentricContainer.h
@@ -125,7 +125,11 @@ public:
 
         for (const auto & element_index : candidate_element_indices) {
             const ContainerElement e = p_container_domain->element(element_index);
-            const LocalCoordinates local_coordinates = e.local_coordinates(p);
+
+            // The local coordinates must be more accurate than the tolerance of contains_local. Otherwise, a point lying
+            // between two elements could be found slightly outside of both of them.
+            const LocalCoordinates local_coordinates = static_cast<const caribou::geometry::Element<ContainerElement> &>(e)
+                    .local_coordinates(p, LocalCoordinates::Zero(), 1e-12, 10);
             if (e.contains_local(local_coordinates)) {
                 // Found one, let's return it
                 return {static_cast<ElementIndex>(element_index), local_coordinates};
-- 
2.43.0


From 5b35ab173f2992b79966a58c0cf716efa05b4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:28 +0000
Subject: [PATCH 16/47] fix: a point outside of a distorted element is not
 found inside of it

When the search of the local coordinates does not converge, its last iterate may
happen to be inside the reference element.
---
 src/Caribou/Topology/BarycentricContainer.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Caribou/Topology/BarycentricContainer.h b/src/Caribou/Topology/BarycentricContainer.h
index 3f6de53..2181df8 100644
--- a/src/Caribou/Topology/BarycentricContainer.h
+++ b/src/Caribou/Topology/BarycentricContainer.h
@@ -131,6 +131,15 @@ public:
             const LocalCoordinates local_coordinates = static_cast<const caribou::geometry::Element<ContainerElement> &>(e)
                     .local_coordinates(p, LocalCoordinates::Zero(), 1e-12, 10);
             if (e.contains_local(local_coordinates)) {
+                if constexpr (ContainerElement::Dimension == ContainerElement::CanonicalDimension) {
+                    // Make sure that these really are the local coordinates of the point, and not an iterate of a
+                    // search that has not converged since the point is outside of this (distorted) element
+                    const WorldCoordinates center = e.center();
+                    if ((e.world_coordinates(local_coordinates) - p).norm() > 1e-5 * (e.node(0) - center).norm()) {
+                        continue;
+                    }
+                }
+
                 // Found one, let's return it
                 return {static_cast<ElementIndex>(element_index), local_coordinates};
             }
-- 
2.43.0


From a0c26a60baa1732babc7980905cd2046dc9a6386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:32 +0000
Subject: [PATCH 17/47] fix: moving a domain does not build a map with
 undefined strides

Eigen's assertion on them terminated debug builds.
---
 src/Caribou/Topology/Domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 7654344..b5ec83c 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -106,7 +106,7 @@ namespace caribou::topology {
         }
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_mesh(nullptr), p_elements {nullptr, 0, 0} {
+        Domain(Domain && other) noexcept : p_mesh(nullptr), p_elements(nullptr, 0, other.p_elements.cols(), {other.p_elements.cols(), 1}) {
             swap(*this, other);
         }
 
-- 
2.43.0


From 30b3ef4a46f5ccef6e24af0254f86e1a33c3fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:49 +0000
Subject: [PATCH 18/47] fix: the python RectangularHexahedron built from
 separate nodes is a rectangular hexahedron

---
 src/Caribou/Python/Geometry/RectangularHexahedron.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Python/Geometry/RectangularHexahedron.cpp b/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
index bf90499..68624b9 100644
--- a/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
+++ b/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
@@ -103,8 +103,8 @@ void create_rectangular_hexahedron(pybind11::module & m) {
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n6, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n7,
                                              const caribou::bindings::Order & order) {
         return (order == caribou::bindings::Order::Linear)
-               ? py::cast(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7))
-               : py::cast(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7));
+               ? py::cast(RectangularHexahedron<Linear>(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7)))
+               : py::cast(RectangularHexahedron<Quadratic>(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7)));
     }, py::arg("n0"), py::arg("n1"), py::arg("n2"), py::arg("n3"), py::arg("n4"), py::arg("n5"), py::arg("n6"), py::arg("n7"), py::arg("order") = caribou::bindings::Order::Linear);
 
     // Quadratic creation
@@ -122,7 +122,7 @@ void create_rectangular_hexahedron(pybind11::module & m) {
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n14, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n15,
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n16, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n17,
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n18, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n19) {
-        return py::cast(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19));
+        return py::cast(RectangularHexahedron<Quadratic>(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19)));
     }, py::arg("n0"), py::arg("n1"), py::arg("n2"), py::arg("n3"), py::arg("n4"), py::arg("n5"), py::arg("n6"), py::arg("n7"), py::arg("n8"), py::arg("n9"),
        py::arg("n10"), py::arg("n11"), py::arg("n12"), py::arg("n13"), py::arg("n14"), py::arg("n15"), py::arg("n16"), py::arg("n17"), py::arg("n18"), py::arg("n19"));
 
-- 
2.43.0


From 519a6e5cc2c3aee1c384cb3e1f6724c569970258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:49 +0000
Subject: [PATCH 19/47] fix: the python hash grids of linear and quadratic
 hexahedra have each other's name

---
 src/Caribou/Python/Topology/HashGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Python/Topology/HashGrid.cpp b/src/Caribou/Python/Topology/HashGrid.cpp
index 563e92d..2ff208b 100644
--- a/src/Caribou/Python/Topology/HashGrid.cpp
+++ b/src/Caribou/Python/Topology/HashGrid.cpp
@@ -30,8 +30,8 @@ auto grid(py::module & m, const std::string & name) {
 void create_hashgrid(pybind11::module & m) {
     grid<Tetrahedron<Linear>>(m, "Tetrahedron4HashGrid");
     grid<Tetrahedron<Quadratic>>(m, "Tetrahedron10HashGrid");
-    grid<Hexahedron<Linear>>(m, "Hexahedron20HashGrid");
-    grid<Hexahedron<Quadratic>>(m, "Hexahedron8HashGrid");
+    grid<Hexahedron<Linear>>(m, "Hexahedron8HashGrid");
+    grid<Hexahedron<Quadratic>>(m, "Hexahedron20HashGrid");
     grid<RectangularHexahedron<Linear>>(m, "RectangularHexahedron8HashGrid");
     grid<RectangularHexahedron<Quadratic>>(m, "RectangularHexahedron20HashGrid");
 
-- 
2.43.0


From 1db754a3e74434a73e22b15590711a1282f6803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:49 +0000
Subject: [PATCH 20/47] fix: python grids give access to their nodes by
 coordinates and their cells by position

---
 src/Caribou/Python/Topology/Grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Caribou/Python/Topology/Grid.cpp b/src/Caribou/Python/Topology/Grid.cpp
index 73ca02c..a1b703f 100644
--- a/src/Caribou/Python/Topology/Grid.cpp
+++ b/src/Caribou/Python/Topology/Grid.cpp
@@ -49,8 +49,12 @@ void declare_basegrid(py::module &m) {
     o1.def("node_index_at", &BaseDimensionalGrid::node_index_at, py::arg("node_coordinates"));
     o1.def("node_coordinates_at", &BaseDimensionalGrid::node_coordinates_at, py::arg("node_index"));
     o1.def("node", &BaseDimensionalGrid::node, py::arg("node_index"));
+    o1.def("node", &BaseGrid::node, py::arg("node_coordinates")); // Hidden by the previous overload otherwise
     o1.def("cell_index_at", &BaseDimensionalGrid::cell_index_at, py::arg("cell_coordinates"));
     o1.def("cell_coordinates_at", &BaseDimensionalGrid::cell_coordinates_at, py::arg("cell_index"));
+    // Hidden by the previous overload otherwise
+    o1.def("cell_coordinates_at", [](const BaseGrid & g, const WorldCoordinates & c) {return g.cell_coordinates_at(c);}, py::arg("world_coordinates"));
+    o1.def("cell_coordinates_at", [](const BaseGrid & g, const WorldCoordinates & c, bool t) {return g.cell_coordinates_at(c, t);}, py::arg("world_coordinates"), py::arg("test_for_boundary"));
 }
 
 template <size_t Dim>
-- 
2.43.0


From ee2f1ece1caf962e46e40dc793ef50ab3f83c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:18 +0000
Subject: [PATCH 21/47] fix: python domains and embeddings keep the mesh they
 refer to alive

---
 src/Caribou/Python/Topology/BarycentricContainer.h |  2 +-
 src/Caribou/Python/Topology/Domain.h               |  8 ++++----
 src/Caribou/Python/Topology/Mesh.cpp               | 14 +++++++++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Caribou/Python/Topology/BarycentricContainer.h b/src/Caribou/Python/Topology/BarycentricContainer.h
index fd9b00c..cf1369a 100644
--- a/src/Caribou/Python/Topology/BarycentricContainer.h
+++ b/src/Caribou/Python/Topology/BarycentricContainer.h
@@ -63,7 +63,7 @@ void declare_barycentric_container(py::class_<Domain, Holder> & m) {
 
     m.def("embed", [](const Domain & domain, const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> & embedded_points) {
        return domain.embed(embedded_points);
-    }, py::arg("embedded_points"));
+    }, py::arg("embedded_points"), py::keep_alive<0, 1>());
 }
 
 } // namespace caribou::topology::bindings
\ No newline at end of file
diff --git a/src/Caribou/Python/Topology/Domain.h b/src/Caribou/Python/Topology/Domain.h
index 1f5c981..bf73a82 100644
--- a/src/Caribou/Python/Topology/Domain.h
+++ b/src/Caribou/Python/Topology/Domain.h
@@ -29,12 +29,12 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d, domain_name);
         return d;
-    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, geometry::traits<Element>::NumberOfNodesAtCompileTime> & node_indices) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d);
         return d;
-    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const std::string & domain_name, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
         if (geometry::traits<Element>::NumberOfNodesAtCompileTime != caribou::Dynamic and node_indices.cols() != geometry::traits<Element>::NumberOfNodesAtCompileTime) {
@@ -48,7 +48,7 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d, domain_name);
         return d;
-    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
         if (geometry::traits<Element>::NumberOfNodesAtCompileTime != caribou::Dynamic and node_indices.cols() != geometry::traits<Element>::NumberOfNodesAtCompileTime) {
@@ -62,7 +62,7 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d);
         return d;
-    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     declare_barycentric_container(c);
 }
diff --git a/src/Caribou/Python/Topology/Mesh.cpp b/src/Caribou/Python/Topology/Mesh.cpp
index 6a27793..1d00da3 100644
--- a/src/Caribou/Python/Topology/Mesh.cpp
+++ b/src/Caribou/Python/Topology/Mesh.cpp
@@ -21,9 +21,17 @@ void declare_mesh(py::module & m) {
     c.def("number_of_domains", &M::number_of_domains);
     c.def("number_of_nodes", &M::number_of_nodes);
 
-    c.def("domains", &M::domains);
-    c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);});
-    c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);});
+    // The domains are owned by their mesh, hence it has to stay alive for as long as one of them is used
+    c.def("domains", [](py::object self) {
+        std::vector<std::pair<std::string, py::object>> domains;
+        for (const auto & d : self.cast<const M &>().domains()) {
+            domains.emplace_back(d.first, py::cast(d.second, py::return_value_policy::reference));
+            py::detail::keep_alive_impl(domains.back().second, self);
+        }
+        return domains;
+    });
+    c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);}, py::keep_alive<0, 1>());
+    c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);}, py::keep_alive<0, 1>());
 
     c.def("position", &M::position);
     c.def("positions", [](const M & m, const std::vector<UNSIGNED_INTEGER_TYPE> & indices) {
-- 
2.43.0


From 1711b76fee6210a979766b3a2908f818ed6f74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:47 +0000
Subject: [PATCH 22/47] fix: clearing rows and columns of a sparse matrix after
 new entries were inserted

The clearRow(s), clearCol(s) and clearRowCol methods of the sparse matrix
wrapper walk over the inner vectors up to the start of the next one, which
is only valid on a compressed matrix. After the insertion of new entries
by set or add, some of the coefficients were left untouched.
---
 src/SofaCaribou/Algebra/EigenMatrix.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index b60bd0c..0e74cf1 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -291,9 +291,8 @@ public:
 
     /** Sets the entire row i to zero */
     inline void clearRow(Index row_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // Initialize the matrix, or compress it since the following assumes contiguous entries in each inner vectors
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -315,9 +314,8 @@ public:
 
     /** Sets the rows from index imin to index imax (inclusively) to zero */
     inline void clearRows(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // Initialize the matrix, or compress it since the following assumes contiguous entries in each inner vectors
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -343,9 +341,8 @@ public:
 
     /** Sets the entire columns i to zero */
     inline void clearCol(Index col_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // Initialize the matrix, or compress it since the following assumes contiguous entries in each inner vectors
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -367,9 +364,8 @@ public:
 
     /** Sets the columns from index imin to index imax (inclusively) to zero */
     inline void clearCols(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // Initialize the matrix, or compress it since the following assumes contiguous entries in each inner vectors
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -395,9 +391,8 @@ public:
 
     /** Sets the entire row i and column i to zero */
     inline void clearRowCol(Index i) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // Initialize the matrix, or compress it since the following assumes contiguous entries in each inner vectors
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
-- 
2.43.0


From 08718e41fdc00879cebe9012da967fc8f2a05bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:47 +0000
Subject: [PATCH 23/47] fix: force fields built from a SOFA topology take the
 rest positions of the nodes

The elements of a SOFA topology container were created from the current
positions of the mechanical object. Its shape functions, volumes and stiffness
were hence relative to a deformed shape whenever the initial positions
differ from the rest ones, unlike with a CaribouTopology.
---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 2aaeac1..68845ad 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -89,7 +89,7 @@ void CaribouForcefield<Element>::init() {
             // Initialize a new caribou topology from the SOFA topology
             p_topology = sofa::core::objectmodel::New<SofaCaribou::topology::CaribouTopology<Element>>();
             p_topology->findData("indices")->setParent(this->get_indices_from(sofa_topology));
-            p_topology->findData("position")->setParent(this->getMState()->findData("position"));
+            p_topology->findData("position")->setParent(this->getMState()->findData("rest_position"));
             p_topology->init();
         } else {
             // A Caribou topology already exists in the scene
-- 
2.43.0


From e86ccefe6006a75378c4ba06a79f5063247174c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:47 +0000
Subject: [PATCH 24/47] fix: bounding boxes of force fields enclose their nodes

The lower corner was left at the largest number when the coordinates of the
nodes are increasing, and the third coordinate of two-dimensional nodes was
read.
---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl       | 7 +++++--
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 2 +-
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 68845ad..d06b5a2 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -116,10 +116,13 @@ void CaribouForcefield<Element>::computeBBox(const sofa::core::ExecParams *, boo
     static const Real min_real = std::numeric_limits<Real>::lowest();
     Real maxBBox[3] = {min_real, min_real, min_real};
     Real minBBox[3] = {max_real, max_real, max_real};
+    for (int c = Dimension; c < 3; c++) {
+        maxBBox[c] = minBBox[c] = 0;
+    }
     for (size_t i = 0; i < x.size(); i++) {
-        for (int c = 0; c < 3; c++) {
+        for (int c = 0; c < Dimension; c++) {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = static_cast<Real>(x[i][c]);
-            else if (x[i][c] < minBBox[c]) minBBox[c] = static_cast<Real>(x[i][c]);
+            if (x[i][c] < minBBox[c]) minBBox[c] = static_cast<Real>(x[i][c]);
         }
     }
 
diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 2a3633f..1994295 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -591,7 +591,7 @@ void HexahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool onl
         for (int c=0; c<3; c++)
         {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = (Real)x[i][c];
-            else if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
+            if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
         }
     }
 
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index 8a41dc0..74f36e1 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -363,7 +363,7 @@ void TetrahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool on
         for (int c=0; c<3; c++)
         {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = (Real)x[i][c];
-            else if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
+            if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
         }
     }
 
-- 
2.43.0


From 89bb0c9f26b0972f470b48654cf16725c255fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:40 +0000
Subject: [PATCH 25/47] fix: reinitializing the hexahedron force field replaces
 its integration points

They were added to the ones of the previous initialization, and the stiffness
was doubled each time.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 1994295..727ba63 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -166,6 +166,7 @@ void HexahedronElasticForce::reinit()
         // 2. At this point, we have all the gauss points of the hexa and their corrected weight.
         //    We now compute constant values required by the simulation for each of them
         auto &hexa_quadrature_nodes = p_quadrature_nodes[hexa_id];
+        hexa_quadrature_nodes.clear();
         for (const auto &gauss_point : gauss_points) {
             // Jacobian of the gauss node's transformation mapping from the elementary space to the world space
             const auto J = hexa.jacobian(gauss_point.first);
-- 
2.43.0


From 6a99d2f4e1e7d97bf15cce650d74345656e78c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:40 +0000
Subject: [PATCH 26/47] fix: the stiffness matrix returned by the hexahedron
 force field is the assembled one

It was made of the wrong blocks of the elementary matrices, had only one of
the two blocks of each pair of nodes, and was not updated with the rotation
of the elements.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 727ba63..d1fef64 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -285,6 +285,10 @@ void HexahedronElasticForce::addForce(
         }
     }
     sofa::helper::AdvancedTimer::stepEnd("HexahedronElasticForce::addForce");
+
+    // The rotation of the elements may have changed
+    K_is_up_to_date = false;
+    eigenvalues_are_up_to_date = false;
 }
 
 void HexahedronElasticForce::addDForce(
@@ -516,7 +520,7 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
                 // Blocks on the diagonal
                 for (Eigen::Index i = 0; i < NumberOfNodes; ++i) {
                     const auto x = static_cast<int>(node_indices[static_cast<sofa::Index>(i)]*3);
-                    const Mat33 Kii = -1 * R * Ke.block<3,3>(i,i) * Rt;
+                    const Mat33 Kii = -1 * R * Ke.block<3,3>(i*3,i*3) * Rt;
                     for (int m = 0; m < 3; ++m) {
                         for (int n = 0; n < 3; ++n) {
                             triplets.emplace_back(x+m, x+n, Kii(m,n));
@@ -530,11 +534,12 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
                         const auto x = static_cast<int>(node_indices[i]*3);
                         const auto y = static_cast<int>(node_indices[j]*3);
 
-                        const Mat33 Kij = -1 * R * Ke.block<3,3>(i,j) * Rt;
+                        const Mat33 Kij = -1 * R * Ke.block<3,3>(i*3,j*3) * Rt;
 
                         for (int m = 0; m < 3; ++m) {
                             for (int n = 0; n < 3; ++n) {
                                 triplets.emplace_back(x+m, y+n, Kij(m,n));
+                                triplets.emplace_back(y+n, x+m, Kij(m,n));
                             }
                         }
                     }
-- 
2.43.0


From 36792ffb6d17ce5a390f89e29cd4fe94e2d5f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:40 +0000
Subject: [PATCH 27/47] fix: corotational forces of elements whose rest frame
 is not aligned with the axes

The displacements were expressed in the frame of the rest element, but
multiplied by a stiffness matrix expressed in the world frame. The forces
were wrong for every element whose frame at rest is not the identity,
and their derivatives before the first evaluation too. The rotation of an
element is now the one from its rest shape to its current one.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 10 +++++-----
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index d1fef64..6f641d3 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -196,8 +196,8 @@ void HexahedronElasticForce::reinit()
 
     // Initialize the stiffness matrix of every hexahedrons
     p_stiffness_matrices.resize(topology->getNbHexahedra());
-    p_initial_rotation.resize(topology->getNbHexahedra(), Mat33::Identity());
-    p_current_rotation.resize(topology->getNbHexahedra(), Mat33::Identity());
+    p_initial_rotation.assign(topology->getNbHexahedra(), Mat33::Identity());
+    p_current_rotation.assign(topology->getNbHexahedra(), Mat33::Identity());
 
     // Initialize the initial frame of each hexahedron
     if (d_corotated.getValue()) {
@@ -248,9 +248,9 @@ void HexahedronElasticForce::addForce(
 
         Rotation & R = current_rotation[hexa_id];
 
-        // Extract the hexahedron's frame
+        // Rotation of the hexahedron's frame since the rest shape
         if (corotated)
-            R = hexa.frame({0, 0, 0});
+            R = hexa.frame({0, 0, 0}) * R0t;
 
         const Rotation Rt = R.transpose();
 
@@ -261,7 +261,7 @@ void HexahedronElasticForce::addForce(
             const Vec3 r0 {x0[node_id][0], x0[node_id][1],  x0[node_id][2]};
             const Vec3 r  {x [node_id][0],  x [node_id][1], x [node_id][2]};
 
-            const Vec3 u = Rt*r - R0t*r0;
+            const Vec3 u = Rt*r - r0;
 
             U[i++] = u[0];
             U[i++] = u[1];
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index 74f36e1..88e01ff 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -111,8 +111,8 @@ void TetrahedronElasticForce::reinit()
         }
     }
 
-    p_initial_rotation.resize(topology->getNbTetrahedra(), Rotation::Identity());
-    p_current_rotation.resize(topology->getNbTetrahedra(), Rotation::Identity());
+    p_initial_rotation.assign(topology->getNbTetrahedra(), Rotation::Identity());
+    p_current_rotation.assign(topology->getNbTetrahedra(), Rotation::Identity());
 
     // Initialize the initial frame of each tetrahedron
     if (d_corotated.getValue()) {
@@ -184,9 +184,9 @@ void TetrahedronElasticForce::addForce(
         Rotation &R = current_rotation[element_id];
 
 
-        // Extract the tetrahedron's frame
+        // Rotation of the tetrahedron's frame since the rest shape
         if (corotated)
-            R = tetra.frame();
+            R = tetra.frame() * R0t;
 
         const Rotation Rt = R.transpose();
 
@@ -197,7 +197,7 @@ void TetrahedronElasticForce::addForce(
             const Vec3 r0{x0[node_id][0], x0[node_id][1], x0[node_id][2]};
             const Vec3 r  {x[node_id][0],  x[node_id][1],  x[node_id][2]};
 
-            const Vec3 u = Rt * r - R0t * r0;
+            const Vec3 u = Rt * r - r0;
 
             U[i++] = u[0];
             U[i++] = u[1];
-- 
2.43.0


From 5385aded9cf51a392c6a651091389b756ffb6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:21 +0000
Subject: [PATCH 28/47] fix: the conjugate gradient reports systems already at
 equilibrium as solved

---
 src/SofaCaribou/Solver/ConjugateGradientSolver.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
index fe606d5..d94f43e 100644
--- a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
+++ b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
@@ -324,6 +324,7 @@ bool ConjugateGradientSolver<EigenMatrix_t>::solve(const Preconditioner & precon
     if (b_norm_2 < EPSILON) {
         msg_info() << "Right-hand side of the system is zero, hence x = 0.";
         x.setZero();
+        converged = true;
         goto end; // The goto is important to catch the last timer call before ending the function
     }
 
@@ -339,6 +340,7 @@ bool ConjugateGradientSolver<EigenMatrix_t>::solve(const Preconditioner & precon
     if (r_norm_2 < threshold) {
         msg_info() << "The linear system has already reached an equilibrium state";
         msg_info() << "|r|/|b| = " << sqrt(r_norm_2/b_norm_2) << ", threshold = " << residual_tolerance_threshold;
+        converged = true;
         goto end; // The goto is important to catch the last timer call before ending the function
     }
 
-- 
2.43.0


From 44f35afaaddce39221b2892f353868ee6b6568a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:21 +0000
Subject: [PATCH 29/47] fix: the pattern analysis of the LU solver does not
 return the status of another stage

---
 src/SofaCaribou/Solver/LUSolver.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Solver/LUSolver.inl b/src/SofaCaribou/Solver/LUSolver.inl
index 77bb85d..082dbf0 100644
--- a/src/SofaCaribou/Solver/LUSolver.inl
+++ b/src/SofaCaribou/Solver/LUSolver.inl
@@ -54,7 +54,12 @@ bool LUSolver<EigenSolver_t>::analyze_pattern() {
 
     p_solver.analyzePattern(A_->matrix());
 
-    return (p_solver.info() == Eigen::Success);
+    if constexpr (solver_traits<EigenSolver_t>::is_eigen()) {
+        // The analysis of Eigen::SparseLU cannot fail, and only its factorization sets the status returned by info()
+        return true;
+    } else {
+        return (p_solver.info() == Eigen::Success);
+    }
 }
 
 template<class EigenSolver_t>
-- 
2.43.0


From ba85ad1194d0a36adf48b93c8dfbd7403f06ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:21 +0000
Subject: [PATCH 30/47] fix: a system that could not be factorized is not
 solved

---
 src/SofaCaribou/Solver/EigenSolver.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Solver/EigenSolver.inl b/src/SofaCaribou/Solver/EigenSolver.inl
index 6632435..b5103da 100644
--- a/src/SofaCaribou/Solver/EigenSolver.inl
+++ b/src/SofaCaribou/Solver/EigenSolver.inl
@@ -195,7 +195,7 @@ void EigenSolver<EigenMatrix_t>::solveSystem() {
     sofa::simulation::common::MechanicalOperations mop( &p_mechanical_params, this->getContext() );
 
     Timer::stepBegin("EigenSolver::solve");
-    bool success = this->solve(&p_b, &p_x);
+    bool success = p_A_is_factorized and this->solve(&p_b, &p_x);
     if (success) {
         // Copy the solution into the mechanical objects of the current context sub-graph.
         mop.baseVector2MultiVector(&p_x, p_x_id, &p_accessor);
-- 
2.43.0


From 4b9fe3a4bd2ae551c7f036cf3a5e1cd54cbd1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:21 +0000
Subject: [PATCH 31/47] fix: the pattern of the system matrix is analyzed again
 when it changes

---
 src/SofaCaribou/Solver/EigenSolver.inl | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/SofaCaribou/Solver/EigenSolver.inl b/src/SofaCaribou/Solver/EigenSolver.inl
index b5103da..3c03f86 100644
--- a/src/SofaCaribou/Solver/EigenSolver.inl
+++ b/src/SofaCaribou/Solver/EigenSolver.inl
@@ -12,6 +12,8 @@ DISABLE_ALL_WARNINGS_BEGIN
 #include <SofaEigen2Solver/EigenVectorWrapper.h>
 DISABLE_ALL_WARNINGS_END
 
+#include <algorithm>
+
 #ifndef _WIN32
 #include <cxxabi.h>
 #define CARIBOU_HAS_CXXABI_H
@@ -123,12 +125,17 @@ void EigenSolver<EigenMatrix_t>::setSystemMBKMatrix(const sofa::core::Mechanical
     p_mechanical_params = *mparams;
 
     // Step 1. Assemble the system matrix
-    auto previous_dimension = p_A.rowSize();
+    const Matrix previous_A = p_A.matrix();
     p_accessor = assemble(mparams);
-    auto current_dimension = p_A.rowSize();
-
-    // Step 2. Let the solver analyse the matrix
-    bool matrix_shape_has_changed = previous_dimension != current_dimension;
+    const Matrix & current_A = p_A.matrix();
+
+    // Step 2. Let the solver analyse the matrix if its dimensions, or the position of its entries, have changed
+    const auto number_of_outers = current_A.outerSize();
+    const auto number_of_entries = current_A.nonZeros();
+    bool matrix_shape_has_changed =
+        previous_A.rows() != current_A.rows() or previous_A.cols() != current_A.cols() or previous_A.nonZeros() != number_of_entries or
+        not std::equal(current_A.outerIndexPtr(), current_A.outerIndexPtr() + number_of_outers + 1, previous_A.outerIndexPtr()) or
+        not std::equal(current_A.innerIndexPtr(), current_A.innerIndexPtr() + number_of_entries, previous_A.innerIndexPtr());
     if (matrix_shape_has_changed) {
         Timer::stepBegin("MatrixAnalysis");
         if (not this->analyze_pattern()) {
-- 
2.43.0


From 9385a539b79a64d79652d6ef8aada48eb9292d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:03 +0000
Subject: [PATCH 32/47] fix: a topology made from indices keeps its own copy of
 them

---
 src/SofaCaribou/Topology/CaribouTopology.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Topology/CaribouTopology.inl b/src/SofaCaribou/Topology/CaribouTopology.inl
index 6245683..b8551bd 100644
--- a/src/SofaCaribou/Topology/CaribouTopology.inl
+++ b/src/SofaCaribou/Topology/CaribouTopology.inl
@@ -95,8 +95,10 @@ void CaribouTopology<Element>::initializeFromIndices() {
 
 
     // Read the indices and create the internal Domain instance
-    const auto * indices_ptr = indices[0].data();
-    this->p_domain = this->p_mesh->template add_domain<Element, PointID>(indices_ptr, indices.size(), NumberOfNodes);
+    // The indices are copied, since the memory of the data attribute can be changed or released at any time
+    using ElementsIndices = Eigen::Matrix<PointID, Eigen::Dynamic, NumberOfNodes, Eigen::RowMajor>;
+    const ElementsIndices elements = Eigen::Map<const ElementsIndices>(indices[0].data(), static_cast<Eigen::Index>(indices.size()), NumberOfNodes);
+    this->p_domain = this->p_mesh->template add_domain<Element, PointID>(elements);
 }
 
 template<typename Element>
-- 
2.43.0


From 7e4904dadea2f823c4ad70adf59f4dc83cbc9cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:29 +0000
Subject: [PATCH 33/47] fix: the traction force field can be reset and
 initialized again

---
 .../Forcefield/TractionForcefield.inl         | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/TractionForcefield.inl b/src/SofaCaribou/Forcefield/TractionForcefield.inl
index cdb2845..9874827 100644
--- a/src/SofaCaribou/Forcefield/TractionForcefield.inl
+++ b/src/SofaCaribou/Forcefield/TractionForcefield.inl
@@ -51,38 +51,41 @@ void TractionForcefield<Element>::init()
 {
     Inherit::init();
 
+    if (!this->mstate)
+        return;
+
     // Initialization from the data inputs
     // @todo(jnbrunet2000@gmail.com) : this part should be moved to a real data update function
-    const auto rest_positions = this->getMState()->readRestPositions();
-    sofa::helper::WriteOnlyAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
-
-    if (d_slope.getValue() > -EPSILON && d_slope.getValue() < EPSILON)
-        m_traction_is_constant = true;
-
-    nodal_forces.resize(rest_positions.size());
-
-    // Do an increment on the first step of the simulation
-    m_number_of_steps_since_last_increment = d_number_of_steps_before_increment.getValue();
+    m_traction_is_constant = (d_slope.getValue() > -EPSILON && d_slope.getValue() < EPSILON);
 
     // Compute and store the shape functions and their derivatives for every integration points
     initialize_elements();
 
-    // If all the load is applied at once, increment now the load since it will be used for the computation of the first time step
-    if (m_traction_is_constant)
-        increment_load(d_traction.getValue());
+    // Start from an unloaded surface
+    reset();
 }
 
 template <typename Element>
 void TractionForcefield<Element>::reset()
 {
+    if (!this->mstate)
+        return;
+
     // Do an increment on the first step of the simulation
     m_number_of_steps_since_last_increment = d_number_of_steps_before_increment.getValue();
 
-    sofa::helper::WriteAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
+    {
+        sofa::helper::WriteOnlyAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
+        nodal_forces.clear();
+        nodal_forces.resize(this->getMState()->readRestPositions().size());
+    }
 
-    nodal_forces.clear();
     d_total_load.setValue(0.);
     m_current_traction = Deriv();
+
+    // If all the load is applied at once, increment now the load since it will be used for the computation of the first time step
+    if (m_traction_is_constant)
+        increment_load(d_traction.getValue());
 }
 
 template <typename Element>
-- 
2.43.0


From 87f9695ffba157b3538eff5d4b3643322bd2e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:36 +0000
Subject: [PATCH 34/47] fix: paths of the topology of a barycentric mapping are
 relative to its context

---
 src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl b/src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl
index 39ddc45..186bf0a 100644
--- a/src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl
+++ b/src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl
@@ -328,7 +328,7 @@ auto CaribouBarycentricMapping<Element, MappedDataTypes>::canCreate(Derived * o,
     std::string topology_path = arg->getAttribute("topology", "");
     if (not topology_path.empty()) {
         topology_path = topology_path.substr(1); // removes the "@"
-        auto topology = context->getRootContext()->get<CaribouTopology>(topology_path);
+        auto topology = context->get<CaribouTopology>(topology_path);
         if (not topology) {
             arg->logError("The element type of the given topology '" + topology_path + "' is not '"+this_element_type+"'.");
             return false;
-- 
2.43.0


From 4c364938916521320d1d4c6b86882b8f4be7553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 35/47] fix: backward Euler counted the forces of mapped
 mechanical objects three times

assemble_rhs_vector runs three visitors which all accumulate the force vector of the mapped mechanical objects into
their parents, without clearing it in between (sofa's MechanicalOperations::addMBKdx does clear it).
---
 src/SofaCaribou/Ode/BackwardEulerODESolver.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
index f88bb70..e7a5e67 100644
--- a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
+++ b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
@@ -121,6 +121,12 @@ void BackwardEulerODESolver::assemble_rhs_vector(const MechanicalParams &    mec
     // If another damping term is computed, it should be in the B matrix.
     m_params.setBFactor(-1);
 
+    // The forces of the mapped mechanical objects have already been accumulated into their parents, clear them such
+    // that they are not accumulated again.
+    MechanicalResetForceVisitor(&mechanical_parameters, f_id,
+                                true /* onlyMapped */)
+    .execute(this->getContext());
+
     // Compute MBK [dv] and store the result in f_id
     MechanicalAddMBKdxVisitor(&m_params, f_id,
                               true /* Accumulate the contribution of mapped mo */ )
@@ -138,6 +144,12 @@ void BackwardEulerODESolver::assemble_rhs_vector(const MechanicalParams &    mec
     // If another damping term is computed, it should be in the B matrix.
     m_params.setBFactor(-h);
 
+    // The forces of the mapped mechanical objects have already been accumulated into their parents, clear them such
+    // that they are not accumulated again.
+    MechanicalResetForceVisitor(&mechanical_parameters, f_id,
+                                true /* onlyMapped */)
+    .execute(this->getContext());
+
     // Compute MBK [dv] and store the result in f_id
     MechanicalAddMBKdxVisitor(&m_params, f_id,
                               true /* Accumulate the contribution of mapped mo */ )
-- 
2.43.0


From efb93cfd2437f0f58d68efce7726a363cea788c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 36/47] fix: linear solver kept a pointer to a deleted system
 matrix when no Newton iteration is needed

---
 src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp b/src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp
index d8b12e0..56edc31 100644
--- a/src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp
+++ b/src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp
@@ -206,6 +206,7 @@ void NewtonRaphsonSolver::solve(const ExecParams *params, SReal dt, MultiVecCoor
     //          using the previously computed system size n
     p_A.reset(linear_solver->create_new_matrix(n, n));
     p_A->clear();
+    linear_solver->set_system_matrix(p_A.get()); // The previous matrix, if any, has just been deleted
 
     p_DX.reset(linear_solver->create_new_vector(n));
     p_DX->clear();
-- 
2.43.0


From 205e7f3c3d479e91d5beb606e2f8cf15502bf439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 37/47] fix: backward Euler evaluated the first residual at the
 previous positions instead of those of a = 0

The documented residual F(a) is evaluated at x_n + h v_n + h^2 a, but the one of the first Newton iteration was evaluated
at x_n. A single iteration on a linear problem did not give the backward Euler solution, and a moving body without any
force was reported as already converged and stopped moving.
---
 src/SofaCaribou/Ode/BackwardEulerODESolver.cpp | 8 ++++++++
 src/SofaCaribou/Ode/NewtonRaphsonSolver.h      | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
index e7a5e67..bab4af7 100644
--- a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
+++ b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
@@ -67,6 +67,14 @@ void BackwardEulerODESolver::solve(const sofa::core::ExecParams *params, SReal d
     vop.v_realloc(p_a_id, false /* interactionForceField */, true /* propagate [to mapped MO] */);
     vop.v_clear(p_a_id);
 
+    // The Newton-Raphson starts from a = 0, hence from the positions x = x_0 + h v_0
+    if (has_valid_linear_solver()) {
+        mechanical_parameters.setX(x_id);
+        mechanical_parameters.setV(v_id);
+        MechanicalVOpVisitor(&mechanical_parameters, x_id, p_previous_x_id, p_previous_v_id, dt).execute(this->getContext());
+        MechanicalPropagateOnlyPositionAndVelocityVisitor(&mechanical_parameters).execute(this->getContext());
+    }
+
     // Let the NR do its job
     NewtonRaphsonSolver::solve(params, dt, x_id, v_id);
 }
diff --git a/src/SofaCaribou/Ode/NewtonRaphsonSolver.h b/src/SofaCaribou/Ode/NewtonRaphsonSolver.h
index 025d6f7..d133994 100644
--- a/src/SofaCaribou/Ode/NewtonRaphsonSolver.h
+++ b/src/SofaCaribou/Ode/NewtonRaphsonSolver.h
@@ -164,10 +164,13 @@ private:
                                               sofa::core::MultiVecDerivId & v_id,
                                               sofa::core::MultiVecDerivId & dx_id) = 0;
 
+protected:
     /** Check that the linked linear solver is not null and that it implements the SofaCaribou::solver::LinearSolver interface */
     CARIBOU_API
     bool has_valid_linear_solver () const;
 
+private:
+
     /// INPUTS
     Data<unsigned> d_newton_iterations;
     Data<double> d_correction_tolerance_threshold;
-- 
2.43.0


From d6490cf6cfad9d9f348dca837218215bdad304d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 38/47] fix: a node of a fictitious grid on the iso-surface was
 counted out of the bounds of an array

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index ab37f01..e565e0b 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -382,15 +382,20 @@ FictitiousGrid<DataTypes>::tag_intersected_cells_from_implicit_surface()
     // Once we got the type of the nodes, we compute the type of their cells
     for (UNSIGNED_INTEGER_TYPE cell_index = 0; cell_index < number_of_cells; ++cell_index) {
         const auto node_indices = p_grid->node_indices_of(cell_index);
-        UNSIGNED_INTEGER_TYPE types[3] = {0, 0, 0}; // Number of nodes that are Inside, Outside and Boundary, respectively
+        UNSIGNED_INTEGER_TYPE number_of_inside_nodes = 0;
+        UNSIGNED_INTEGER_TYPE number_of_outside_nodes = 0;
 
         for (const auto & node_index : node_indices) {
-            types[(UNSIGNED_INTEGER_TYPE) node_types[node_index]]++;
+            if (node_types[node_index] == Type::Inside) {
+                ++number_of_inside_nodes;
+            } else if (node_types[node_index] == Type::Outside) {
+                ++number_of_outside_nodes;
+            }
         }
 
-        if (types[(UNSIGNED_INTEGER_TYPE) Type::Inside] == CellElement::NumberOfNodesAtCompileTime) {
+        if (number_of_inside_nodes == CellElement::NumberOfNodesAtCompileTime) {
             p_cells_types[cell_index] = Type::Inside;
-        } else if (types[(UNSIGNED_INTEGER_TYPE) Type::Outside] == CellElement::NumberOfNodesAtCompileTime) {
+        } else if (number_of_outside_nodes == CellElement::NumberOfNodesAtCompileTime) {
             p_cells_types[cell_index] = Type::Outside;
         } else {
             p_cells_types[cell_index] = Type::Boundary;
-- 
2.43.0


From be1d97f618b6cf9ea9abf20472cf46ef4eac7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 39/47] fix: gauss nodes of subcells of a fictitious grid were
 mapped twice beyond the first subdivision level

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index e565e0b..decd12f 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -979,7 +979,8 @@ FictitiousGrid<DataTypes>::get_gauss_nodes_of_cell(const CellIndex & sparse_cell
                     const auto child_elements = get_subcells_elements(e);
                     const auto & child_cells = *(c.childs);
                     for (UNSIGNED_INTEGER_TYPE i = 0; i < child_cells.size(); ++i) {
-                        const auto child_gauss_nodes = ref(child_elements[i], child_cells[i], l+1, ref);
+                        // The gauss nodes of a child are given in the local frame of the child
+                        const auto child_gauss_nodes = ref(CellElement(), child_cells[i], l+1, ref);
                         for (const auto & child_gauss_node : child_gauss_nodes) {
                             gauss_nodes.emplace_back(child_elements[i].world_coordinates(child_gauss_node.first), child_gauss_node.second);
                         }
-- 
2.43.0


From a1692b3f24c48e6d1adc169787b0cfc1d1c3b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 40/47] fix: the type of a point between cells of the same type
 of a fictitious grid could not be queried

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index decd12f..e04a4cc 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -1025,6 +1025,9 @@ auto FictitiousGrid<DataTypes>::get_type_at(const WorldCoordinates & p) const ->
         } else if((types & static_cast<INTEGER_TYPE>(Type::Inside)) and (types & static_cast<INTEGER_TYPE>(Type::Outside))) {
             // If one of the cells around p is of type inside, and another one is of type outside, return the type boundary
             return Type::Boundary;
+        } else if (types == static_cast<INTEGER_TYPE>(Type::Inside) or types == static_cast<INTEGER_TYPE>(Type::Outside)) {
+            // All the cells around p share the same type
+            return static_cast<Type>(types);
         } else {
             // We cannot decide which type it is...this should never happen. Report it.
             std::ostringstream error;
-- 
2.43.0


From c5350bea59a4105e13fb0cd73234f7de2cdfc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 41/47] fix: cells inside and outside of a tessellated surface
 kept an undefined type in the fictitious grid

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index e04a4cc..12b3435 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -564,6 +564,13 @@ FictitiousGrid<DataTypes>::tag_inside_cells()
             cell->data->type = Type::Inside;
         }
     }
+
+    // Every regions are now typed, update the types of the full grid's cells that weren't subdivided
+    for (std::size_t i = 0; i < p_grid->number_of_cells(); ++i) {
+        if (p_cells[i].is_leaf()) {
+            p_cells_types[i] = p_cells[i].data->type;
+        }
+    }
     msg_info() << "Computing the inside regions types in " << std::setprecision(3)
                << TOCK / 1000. / 1000.
                << " [ms]";
-- 
2.43.0


From ec83c5bcc1e1ef4ace4f655b491da88a7b441d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 42/47] fix: a fictitious grid kept the cell types and
 triangles of its previous initialization

---
 src/SofaCaribou/Topology/FictitiousGrid.cpp | 1 -
 src/SofaCaribou/Topology/FictitiousGrid.inl | 3 ++-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.cpp b/src/SofaCaribou/Topology/FictitiousGrid.cpp
index c9c2b92..b12acb0 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.cpp
+++ b/src/SofaCaribou/Topology/FictitiousGrid.cpp
@@ -56,7 +56,6 @@ FictitiousGrid<Vec3Types>::tag_intersected_cells()
     int64_t time_to_find_bounding_boxes = 0;
     int64_t time_to_find_intersections = 0;
 
-    p_triangles_of_cell.resize(p_grid->number_of_cells());
     std::vector<UNSIGNED_INTEGER_TYPE> outside_triangles;
     for (std::size_t triangle_index = 0; triangle_index < triangles.size(); ++triangle_index) {
         const auto & triangle = triangles[triangle_index];
diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index 12b3435..8ad9721 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -308,7 +308,8 @@ void FictitiousGrid<DataTypes>::create_grid()
         anchor_position, grid_n, grid_size
     );
 
-    p_cells_types.resize(p_grid->number_of_cells(), Type::Undefined);
+    p_cells_types.assign(p_grid->number_of_cells(), Type::Undefined);
+    p_triangles_of_cell.assign(p_grid->number_of_cells(), {});
     p_cells.resize(p_grid->number_of_cells());
 
     // Initialize the full regular grid quadtree (resp. octree) with 0 subdivisions
-- 
2.43.0


From a1ba7b2783c4eecd4b32bcf996999121c1c8a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 43/47] fix: a fictitious grid ignored its only given corner
 when the other one has to be found

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index 8ad9721..8b43063 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -277,8 +277,12 @@ void FictitiousGrid<DataTypes>::init() {
                         min[c] = static_cast<SofaFloat>(p[c]);
                 }
             }
-            d_min.setValue(min);
-            d_max.setValue(max);
+            if (not d_min.isSet()) {
+                d_min.setValue(min);
+            }
+            if (not d_max.isSet()) {
+                d_max.setValue(max);
+            }
         }
     }
 
-- 
2.43.0


From b934b70f8a787b1a6fef91a9794fa25b53a5903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:37 +0000
Subject: [PATCH 44/47] fix: null pointer when a fictitious grid finds several
 iso-surfaces in its context

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index 8b43063..dc5b30c 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -99,7 +99,7 @@ void FictitiousGrid<DataTypes>::init() {
                 msg_warning() << "Multiple iso-surfaces were found in the context node. The first one, '"
                               << iso_surfaces[0]->getName()
                               << "' will be used. If this is not the one that was needed, please set the parameter '"
-                              << d_iso_surface->getPathName()
+                              << d_iso_surface.getName()
                               << "' with the path to the correct iso-surface to use.";
             }
             d_iso_surface.set(iso_surfaces[0]);
-- 
2.43.0


From 15f7395e2c0e1f5a9d55a0644a1cb5eacb182de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 45/47] fix: gauss nodes of a subdivided 2D cell of a
 fictitious grid took the weight of another subcell

---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index dc5b30c..7f2425f 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -984,7 +984,14 @@ FictitiousGrid<DataTypes>::get_gauss_nodes_of_cell(const CellIndex & sparse_cell
                     const auto & child_cells = *(c.childs);
                     for (UNSIGNED_INTEGER_TYPE i = 0; i < CellElement::NumberOfGaussNodesAtCompileTime; ++i) {
                         const auto gauss_node = e.gauss_node(i);
-                        const auto weight = CellElement::NumberOfGaussNodesAtCompileTime*get_cell_weight(child_cells[i]);
+                        // The gauss nodes of an element are not always in the same order as its subcells
+                        UNSIGNED_INTEGER_TYPE child_index = 0;
+                        for (UNSIGNED_INTEGER_TYPE axis = 0; axis < Dimension; ++axis) {
+                            if (gauss_node.position[axis] > 0) {
+                                child_index += (UNSIGNED_INTEGER_TYPE) 1 << axis;
+                            }
+                        }
+                        const auto weight = CellElement::NumberOfGaussNodesAtCompileTime*get_cell_weight(child_cells[child_index]);
                         gauss_nodes.emplace_back(LocalCoordinates(gauss_node.position), gauss_node.weight*weight);
                     }
                 } else {
-- 
2.43.0


From 79dbbf964dd876b78bcdd9e65224090c0981730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:35 +0000
Subject: [PATCH 46/47] fix: the system matrix of the conjugate gradient solver
 can be read from Python

---
 src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h b/src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h
index 3626053..5060a92 100644
--- a/src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h
+++ b/src/SofaCaribou/Python/Solver/ConjugateGradientSolver.h
@@ -15,7 +15,10 @@ void bind_ConjugateGradientSolver(pybind11::module & m) {
     namespace py = pybind11;
     py::class_<ConjugateGradientSolver<EigenMatrix>, sofa::core::objectmodel::BaseObject, sofapython3::py_shared_ptr<ConjugateGradientSolver<EigenMatrix>>> c(m, "ConjugateGradientSolver");
 
-    c.def("A", &ConjugateGradientSolver<EigenMatrix>::A);
+    c.def("A", [](const ConjugateGradientSolver<EigenMatrix> & solver) -> EigenMatrix {
+        const auto * A = solver.A();
+        return A ? EigenMatrix(A->matrix()) : EigenMatrix();
+    });
 
     c.def("assemble", [](ConjugateGradientSolver<EigenMatrix> & solver, double m, double b, double k) {
         sofa::core::MechanicalParams mparams;
-- 
2.43.0


From 7a95c10a2917a82c6ea6b9cf24d198c7dfa896b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:40 +0000
Subject: [PATCH 47/47] fix: a linear solver which was given no system has no
 system matrix

---
 src/SofaCaribou/Solver/EigenSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Solver/EigenSolver.h b/src/SofaCaribou/Solver/EigenSolver.h
index fa3f4d3..6f65a78 100644
--- a/src/SofaCaribou/Solver/EigenSolver.h
+++ b/src/SofaCaribou/Solver/EigenSolver.h
@@ -180,7 +180,7 @@ private:
     /// Pointer to the global system matrix. For legacy ODE solvers, it points to
     /// p_A which is assembled by this linear solver. For Caribou's ODE solvers, it
     /// points to the system matrix assembled by the ODE itself.
-    const SofaCaribou::Algebra::EigenMatrix<Matrix> * p_A_ptr;
+    const SofaCaribou::Algebra::EigenMatrix<Matrix> * p_A_ptr {nullptr};
 
     /// Global system solution vector (usually filled with an initial guess or the previous solution)
     SofaCaribou::Algebra::EigenVector<Vector> p_x;
-- 
2.43.0

