From f7683600779e51f8d2fe27d1fcf05329fdd3b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 01/30] fix: Patch derivatives honour the knot span chain rule
 on multi-span patches

---
 Bembel/src/Geometry/Patch.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/Bembel/src/Geometry/Patch.hpp b/Bembel/src/Geometry/Patch.hpp
index 4c0a121..7b69d01 100644
--- a/Bembel/src/Geometry/Patch.hpp
+++ b/Bembel/src/Geometry/Patch.hpp
@@ -221,11 +221,16 @@ class Patch {
     // Eigen::Vector3d out;
 
     double bot = 1. / (tmp[3] * tmp[3]);
+    // chain rule for the rescaling of the reference point to the knot span
+    const double botx = bot / (unique_knots_x_[x_location + 1] -
+                               unique_knots_x_[x_location]);
+    const double boty = bot / (unique_knots_y_[y_location + 1] -
+                               unique_knots_y_[y_location]);
 
 #pragma omp simd
     for (int k = 0; k < 3; k++) {
-      out(k, 0) = (tmpDx[k] * tmp[3] - tmp[k] * tmpDx[3]) * bot;
-      out(k, 1) = (tmpDy[k] * tmp[3] - tmp[k] * tmpDy[3]) * bot;
+      out(k, 0) = (tmpDx[k] * tmp[3] - tmp[k] * tmpDx[3]) * botx;
+      out(k, 1) = (tmpDy[k] * tmp[3] - tmp[k] * tmpDy[3]) * boty;
     }
 
     return out;
@@ -346,7 +351,11 @@ class Patch {
     }
 
     const double bot = 1. / tmp[3];
-    const double botsqr = bot * bot;
+    // chain rule for the rescaling of the reference point to the knot span
+    const double botsqrx = bot * bot / (unique_knots_x_[x_location + 1] -
+                                        unique_knots_x_[x_location]);
+    const double botsqry = bot * bot / (unique_knots_y_[y_location + 1] -
+                                        unique_knots_y_[y_location]);
 
     (*srf_pt)(0) = xi(0);
     (*srf_pt)(1) = xi(1);
@@ -354,12 +363,12 @@ class Patch {
     (*srf_pt)(3) = tmp[0] * bot;
     (*srf_pt)(4) = tmp[1] * bot;
     (*srf_pt)(5) = tmp[2] * bot;
-    (*srf_pt)(6) = (tmpDx[0] * tmp[3] - tmp[0] * tmpDx[3]) * botsqr;
-    (*srf_pt)(7) = (tmpDx[1] * tmp[3] - tmp[1] * tmpDx[3]) * botsqr;
-    (*srf_pt)(8) = (tmpDx[2] * tmp[3] - tmp[2] * tmpDx[3]) * botsqr;
-    (*srf_pt)(9) = (tmpDy[0] * tmp[3] - tmp[0] * tmpDy[3]) * botsqr;
-    (*srf_pt)(10) = (tmpDy[1] * tmp[3] - tmp[1] * tmpDy[3]) * botsqr;
-    (*srf_pt)(11) = (tmpDy[2] * tmp[3] - tmp[2] * tmpDy[3]) * botsqr;
+    (*srf_pt)(6) = (tmpDx[0] * tmp[3] - tmp[0] * tmpDx[3]) * botsqrx;
+    (*srf_pt)(7) = (tmpDx[1] * tmp[3] - tmp[1] * tmpDx[3]) * botsqrx;
+    (*srf_pt)(8) = (tmpDx[2] * tmp[3] - tmp[2] * tmpDx[3]) * botsqrx;
+    (*srf_pt)(9) = (tmpDy[0] * tmp[3] - tmp[0] * tmpDy[3]) * botsqry;
+    (*srf_pt)(10) = (tmpDy[1] * tmp[3] - tmp[1] * tmpDy[3]) * botsqry;
+    (*srf_pt)(11) = (tmpDy[2] * tmp[3] - tmp[2] * tmpDy[3]) * botsqry;
     delete[] buffer;
     return;
   }
-- 
2.43.0


From 4b6accf1049206c3e85913d5ce5f843a3cb85b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 02/30] fix: resolve the shared edge when two elements have
 several edges in common

---
 Bembel/src/ClusterTree/ElementTree.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/ClusterTree/ElementTree.hpp b/Bembel/src/ClusterTree/ElementTree.hpp
index 6c7bb1b..a069806 100644
--- a/Bembel/src/ClusterTree/ElementTree.hpp
+++ b/Bembel/src/ClusterTree/ElementTree.hpp
@@ -520,7 +520,8 @@ class ElementTree {
             int k = 0;
             for (; k < 4; ++k)
               if (cur_neighbour.adjcents_[k] != nullptr &&
-                  cur_neighbour.adjcents_[k]->id_ == it->id_)
+                  cur_neighbour.adjcents_[k]->id_ == it->id_ &&
+                  isSameEdge(*it, j, cur_neighbour, k))
                 break;
             retval.push_back({it->id_, cur_neighbour.id_, j, k});
           }
@@ -576,6 +577,19 @@ class ElementTree {
       return ((v1 - v2).norm() < Constants::pt_comp_tolerance);
     }
   };
+  /**
+   * \brief function to check if edge i of el1 is also edge j of el2. Two
+   *        elements may share more than one edge, such that the adjacency of
+   *        the elements alone does not identify the edge.
+   */
+  static bool isSameEdge(const ElementTreeNode &el1, int i,
+                         const ElementTreeNode &el2, int j) {
+    const int v1 = el1.vertices_[i];
+    const int v2 = el1.vertices_[(i + 1) % 4];
+    const int w1 = el2.vertices_[j];
+    const int w2 = el2.vertices_[(j + 1) % 4];
+    return (v1 == w1 && v2 == w2) || (v1 == w2 && v2 == w1);
+  }
   /**
    * \brief function to set up the local topology, i.e. the adjacents
    *        of a refined element
@@ -595,6 +609,8 @@ class ElementTree {
         auto it = edges.find(e1);
         // if so, identify the two neighbours
         if (it != edges.end()) {
+          // an element which is listed twice is not its own neighbour
+          if (it->second == elements[i]) continue;
           elements[i]->adjcents_[j] = it->second;
           // now find the edge also in the patch that added it to the set
           for (auto k = 0; k < 4; ++k) {
@@ -632,7 +648,8 @@ class ElementTree {
       // is there a neighbour?
       if (cur_el.adjcents_[i] != nullptr) {
         for (auto j = 0; j < 4; ++j)
-          if (cur_el.adjcents_[i]->adjcents_[j] == std::addressof(cur_el)) {
+          if (cur_el.adjcents_[i]->adjcents_[j] == std::addressof(cur_el) &&
+              isSameEdge(cur_el, i, *(cur_el.adjcents_[i]), j)) {
             refNeighbours[i] = j;
             break;
           }
-- 
2.43.0


From 83b00d6fc2d6adc0ee7da13b336d7f62d864198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 03/30] fix: initialising an ElementTree again discards the old
 refinement

---
 Bembel/src/ClusterTree/ElementTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Bembel/src/ClusterTree/ElementTree.hpp b/Bembel/src/ClusterTree/ElementTree.hpp
index a069806..3d2717b 100644
--- a/Bembel/src/ClusterTree/ElementTree.hpp
+++ b/Bembel/src/ClusterTree/ElementTree.hpp
@@ -115,6 +115,8 @@ class ElementTree {
       number_of_points_ = 0;
       number_of_elements_ = number_of_patches_;
       ElementTreeNode &root = root_;
+      // discard the refinement of a previous initialisation
+      root.sons_.clear();
       root.sons_.resize(number_of_patches_);
       for (auto i = 0; i < number_of_patches_; ++i) {
         root.sons_[i].adjcents_ = std::vector<ElementTreeNode *>(4, nullptr);
-- 
2.43.0


From 6509ea33a8ef1da003462ad6b1a36e14305b04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 04/30] fix: checkOrientation compares the traversal of the
 shared edge

The scalar product of the two edge vectors also accepts or rejects edges
by their curvature, and an edge that is not found indexed out of bounds.
---
 Bembel/src/ClusterTree/ClusterTree.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Bembel/src/ClusterTree/ClusterTree.hpp b/Bembel/src/ClusterTree/ClusterTree.hpp
index 6b59723..4bba110 100644
--- a/Bembel/src/ClusterTree/ClusterTree.hpp
+++ b/Bembel/src/ClusterTree/ClusterTree.hpp
@@ -144,14 +144,20 @@ class ClusterTree {
     };
     const PatchVector& geo = element_tree_.get_geometry();
     for (auto edge : edges) {
-      if (edge[2] > 0 && edge[3] > 0) {
+      if (edge[2] >= 0 && edge[3] >= 0) {
         Eigen::Vector3d a = geo[edge[0]].eval(edge_midpoints[edge[2]]);
         Eigen::Vector3d b = geo[edge[1]].eval(edge_midpoints[edge[3]]);
-        Eigen::Vector3d na = geo[edge[0]].evalNormal(edge_midpoints[edge[2]]);
-        Eigen::Vector3d nb = geo[edge[1]].evalNormal(edge_midpoints[edge[3]]);
+        // if the normals of both patches are oriented the same way, the common
+        // edge is traversed in opposite directions
+        const int ca = edge[2];
+        const int cb = (edge[3] + 1) % 4;
+        Eigen::Vector3d va = geo[edge[0]].eval(Constants::corners[0][ca],
+                                               Constants::corners[1][ca]);
+        Eigen::Vector3d vb = geo[edge[1]].eval(Constants::corners[0][cb],
+                                               Constants::corners[1][cb]);
         assert((a - b).norm() < Constants::pt_comp_tolerance &&
                "These points should coincide according to the element tree");
-        assert(a.dot(b) > 0 &&
+        assert((va - vb).norm() < Constants::pt_comp_tolerance &&
                "Normals across patches are oriented the same way");
       }
     }
-- 
2.43.0


From 15837bca955e579677ade4e08f7989ca72f95521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 05/30] fix: erase emptied identification groups without
 skipping or overrunning

Erasing inside the counting loop skips the group behind an emptied one and
steps past the end when the last group is empty.
---
 Bembel/src/AnsatzSpace/Glue.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Glue.hpp b/Bembel/src/AnsatzSpace/Glue.hpp
index a1c0d7a..0187fac 100644
--- a/Bembel/src/AnsatzSpace/Glue.hpp
+++ b/Bembel/src/AnsatzSpace/Glue.hpp
@@ -482,9 +482,11 @@ struct glue_identificationmaker_<Derived, DifferentialForm::Continuous> {
     }
     // Now we need to clean up the empty dofsets, since subsequent routines
     // assume there to be at least one element.
-    for (auto x = out.begin(); x != out.end(); ++x) {
+    for (auto x = out.begin(); x != out.end();) {
       if ((*x).dofs.size() == 0) {
-        out.erase(x);
+        x = out.erase(x);
+      } else {
+        ++x;
       }
     }
     return out;
-- 
2.43.0


From 0874e70c964fa441a878e8f3c4c7052bc37c8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 06/30] fix: assigning a FunctionEvaluator also assigns its
 element reordering

---
 Bembel/src/AnsatzSpace/FunctionEvaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp b/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
index 9f6f731..551bfca 100644
--- a/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
+++ b/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
@@ -27,6 +27,7 @@ class FunctionEvaluator {
   FunctionEvaluator(const FunctionEvaluator &other) = default;
   FunctionEvaluator(FunctionEvaluator &&other) = default;
   FunctionEvaluator &operator=(FunctionEvaluator other) {
+    reordering_vector_ = other.reordering_vector_;
     ansatz_space_ = other.ansatz_space_;
     fun_ = other.fun_;
     polynomial_degree_plus_one_squared_ =
-- 
2.43.0


From e7ee4bec37519d48587f69a01c666b3f8efc1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 07/30] fix: projector keeps all B-spline coefficients of
 high-degree spaces

From degree 5 on, tensor B-splines have Bernstein coefficients below 1e-4,
which were dropped from the projector.
---
 Bembel/src/util/Constants.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/util/Constants.hpp b/Bembel/src/util/Constants.hpp
index 8ff6a66..bb3226e 100644
--- a/Bembel/src/util/Constants.hpp
+++ b/Bembel/src/util/Constants.hpp
@@ -34,7 +34,7 @@ constexpr size_t Bembel_alloc_size = 100;
 // the interpolation problem solved during the assembly of the projector needs
 // to filter some almost-zero coefficients that might be introduced during the
 // solution of the linear system
-constexpr double projector_tolerance = 1e-4;
+constexpr double projector_tolerance = 1e-10;
 ////////////////////////////////////////////////////////////////////////////////
 /// methods
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a89ad794c15ec0664a55ff71249e6247016da9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 08/30] fix: H2Matrix::get_dense compiles for complex scalars

---
 Bembel/src/H2Matrix/H2Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/H2Matrix.hpp b/Bembel/src/H2Matrix/H2Matrix.hpp
index 92554b1..31197e5 100644
--- a/Bembel/src/H2Matrix/H2Matrix.hpp
+++ b/Bembel/src/H2Matrix/H2Matrix.hpp
@@ -255,7 +255,7 @@ class H2Matrix : public H2MatrixBase<H2Matrix<ScalarT>> {
     Eigen::Matrix<ScalarT, Eigen::Dynamic, Eigen::Dynamic> dense(rows(),
                                                                  cols());
     for (int i = 0; i < cols(); ++i) {
-      Eigen::VectorXd unit(cols());
+      Eigen::Matrix<ScalarT, Eigen::Dynamic, 1> unit(cols());
       unit.setZero();
       unit(i) = 1.;
       dense.col(i) = (*this) * unit;
-- 
2.43.0


From ae97acbe65e6c69e85b67b7c50a7ce72f560eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 09/30] fix: LinearForm and Potential module headers are
 self-contained

---
 Bembel/LinearForm | 2 ++
 Bembel/Potential  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/Bembel/LinearForm b/Bembel/LinearForm
index 836b657..ad9649e 100644
--- a/Bembel/LinearForm
+++ b/Bembel/LinearForm
@@ -19,6 +19,8 @@
  *the right hand side.
  **/
 
+#include "AnsatzSpace"
+#include "LinearOperator"
 #include "Quadrature"
 
 #include "src/LinearForm/LinearForm.hpp"
diff --git a/Bembel/Potential b/Bembel/Potential
index f71730d..1fa6566 100644
--- a/Bembel/Potential
+++ b/Bembel/Potential
@@ -21,6 +21,10 @@
  *LinearOperatorBase class.
  **/
 
+#include "AnsatzSpace"
+#include "LinearOperator"
+#include "Quadrature"
+
 #include "src/Potential/Potential.hpp"
 #include "src/Potential/DiscretePotential.hpp"
 
-- 
2.43.0


From 24d6d39752d3ac62261aa3b61a416e131e14bd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:19 +0000
Subject: [PATCH 10/30] fix: header functions are inline so that several
 translation units can include Bembel

---
 Bembel/src/AnsatzSpace/Glue.hpp               |  2 +-
 Bembel/src/DuffyTrick/compareElements.hpp     |  2 +-
 Bembel/src/DuffyTrick/tau.hpp                 |  2 +-
 Bembel/src/Geometry/GeometryIGS.hpp           | 20 +++++------
 Bembel/src/Geometry/GeometryIO.hpp            |  4 +--
 Bembel/src/H2Matrix/H2Multipole.hpp           |  2 +-
 .../src/HomogenisedLaplace/Coefficients.hpp   | 12 +++----
 .../SingleLayerOperator.hpp                   | 15 ++++----
 Bembel/src/util/GeometryHelper.hpp            |  2 +-
 Bembel/src/util/Sphericals.hpp                | 36 +++++++++----------
 10 files changed, 49 insertions(+), 48 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Glue.hpp b/Bembel/src/AnsatzSpace/Glue.hpp
index 0187fac..be7bf6a 100644
--- a/Bembel/src/AnsatzSpace/Glue.hpp
+++ b/Bembel/src/AnsatzSpace/Glue.hpp
@@ -246,7 +246,7 @@ namespace GlueRoutines {
  * \param dimYdir Number of DOFs in the y direction of the tensor product.
  * \param shift Offset of the DOFs.
  */
-std::vector<int> getEdgeDofIndices(int edgeCase, int dimXdir, int dimYdir,
+inline std::vector<int> getEdgeDofIndices(int edgeCase, int dimXdir, int dimYdir,
                                    int shift) {
   std::vector<int> out;
   switch (edgeCase) {
diff --git a/Bembel/src/DuffyTrick/compareElements.hpp b/Bembel/src/DuffyTrick/compareElements.hpp
index 23c1b2f..94d9f99 100644
--- a/Bembel/src/DuffyTrick/compareElements.hpp
+++ b/Bembel/src/DuffyTrick/compareElements.hpp
@@ -20,7 +20,7 @@ namespace DuffyTrick {
  *elements have to be rotated to move the similarity to the first vertices_ or
  *edge
  */
-Eigen::Vector3i compareElements(const ElementTreeNode &e1,
+inline Eigen::Vector3i compareElements(const ElementTreeNode &e1,
                                 const ElementTreeNode &e2, double *dist) {
   Eigen::Vector3i retval;
   retval.setZero();
diff --git a/Bembel/src/DuffyTrick/tau.hpp b/Bembel/src/DuffyTrick/tau.hpp
index f8d2c94..f1fcc84 100644
--- a/Bembel/src/DuffyTrick/tau.hpp
+++ b/Bembel/src/DuffyTrick/tau.hpp
@@ -23,7 +23,7 @@ namespace DuffyTrick {
  * \param thecase Edge case denoting how the element needs to be turned.
  * \return Point in rotated element.
  */
-Eigen::Vector2d tau(double x, double y, int thecase) {
+inline Eigen::Vector2d tau(double x, double y, int thecase) {
   Eigen::Vector2d retval;
   switch (thecase) {
     case 1:
diff --git a/Bembel/src/Geometry/GeometryIGS.hpp b/Bembel/src/Geometry/GeometryIGS.hpp
index f14b130..9a6f22f 100644
--- a/Bembel/src/Geometry/GeometryIGS.hpp
+++ b/Bembel/src/Geometry/GeometryIGS.hpp
@@ -22,7 +22,7 @@ namespace Bembel {
  * \param file_name path/filename pointing to the geometry file
  * \return std::vector of NURBS::Patch describing geometry
  */
-std::vector<Patch> LoadGeometryFileIGS(const std::string& file_name) noexcept {
+inline std::vector<Patch> LoadGeometryFileIGS(const std::string& file_name) noexcept {
   std::ifstream file;
   std::vector<int> patch_lines;
   file.open(file_name);
@@ -155,7 +155,7 @@ std::vector<Patch> LoadGeometryFileIGS(const std::string& file_name) noexcept {
  * \param section vector containing the lines to be written to the file
  * \param section_char char to describe the section. Use 'S', 'G' or 'D'
  */
-void writeSection(std::string file_name,
+inline void writeSection(std::string file_name,
                   const std::vector<std::string>& section,
                   const char section_char) {
   std::ofstream file(file_name, std::ios::app);
@@ -178,7 +178,7 @@ void writeSection(std::string file_name,
  * \param start_count Start counting the lines with this index
  * \return Last index of the line 
  */
-int writeParameterSection(std::string file_name,
+inline int writeParameterSection(std::string file_name,
                           const std::vector<std::string>& section,
                           const int patch_idx, const int start_count) {
   std::ofstream file(file_name, std::ios::app);
@@ -202,7 +202,7 @@ int writeParameterSection(std::string file_name,
  * \param linewidth Maximum length of the lines
  * \return Vector with strings of each line.
  */
-std::vector<std::string> makeSection(std::vector<std::string> data,
+inline std::vector<std::string> makeSection(std::vector<std::string> data,
                                      const int linewidth = 72) {
   std::vector<std::string> out;
   out.reserve(data.size());
@@ -233,7 +233,7 @@ std::vector<std::string> makeSection(std::vector<std::string> data,
  * 
  * \param file_name File name to write the header in.
  */
-void writeIGSHeader(std::string file_name) {
+inline void writeIGSHeader(std::string file_name) {
   std::vector<std::string> section(4);
   section[0] = "";
   section[1] = "IGES obtained from Bembel.";
@@ -250,7 +250,7 @@ void writeIGSHeader(std::string file_name) {
  * \param d double to be converted.
  * \param precision Precision of the conversion.
  */
-std::string double_to_string(double d, const int precision) {
+inline std::string double_to_string(double d, const int precision) {
   std::ostringstream stm;
   stm << std::setprecision(precision) << d;
   return stm.str();
@@ -262,7 +262,7 @@ std::string double_to_string(double d, const int precision) {
  * \param file_name File name to write the section in.
  * \return Number of lines of this section.
  */
-int writeGlobalSection(std::string file_name) {
+inline int writeGlobalSection(std::string file_name) {
   std::vector<std::string> out(24);
   std::time_t now = std::time(nullptr);
 
@@ -333,7 +333,7 @@ int writeGlobalSection(std::string file_name) {
  * \param number_of_lines Vector containing the lengths of the sections.
  * \return Number of lines of this section.
  */
-int writeDirectory(std::string file_name, std::vector<int> start_idx,
+inline int writeDirectory(std::string file_name, std::vector<int> start_idx,
                     std::vector<int> number_of_lines) {
   assert(start_idx.size() == number_of_lines.size());
 
@@ -382,7 +382,7 @@ int writeDirectory(std::string file_name, std::vector<int> start_idx,
  * \param precision Number of significant digits to save floats
  * \return Vector with patch data in IGES format.
  */
-std::vector<std::string> writePatchData(const Patch& patch,
+inline std::vector<std::string> writePatchData(const Patch& patch,
                                         const int precision) {
   const int degree_x = patch.polynomial_degree_x_;
   const int degree_y = patch.polynomial_degree_y_;
@@ -478,7 +478,7 @@ std::vector<std::string> writePatchData(const Patch& patch,
  * \param file_name File name to write to.
  * \param precision Significant number of digits for writing floats.
  */
-void writeIGSFile(const std::vector<Patch>& geometry, std::string file_name,
+inline void writeIGSFile(const std::vector<Patch>& geometry, std::string file_name,
                   const int precision = 6) {
   std::ofstream out(file_name);
   out.close();
diff --git a/Bembel/src/Geometry/GeometryIO.hpp b/Bembel/src/Geometry/GeometryIO.hpp
index c1eba6e..16a8ba4 100644
--- a/Bembel/src/Geometry/GeometryIO.hpp
+++ b/Bembel/src/Geometry/GeometryIO.hpp
@@ -151,7 +151,7 @@ inline void MakeFile(const std::string &file_name,
  * \param file_name filename
  * \param current_patch_number current patch number
  **/
-void WritePatch(const std::string &file_name, int current_patch_number,
+inline void WritePatch(const std::string &file_name, int current_patch_number,
                 const std::vector<Eigen::MatrixXd> &xyzw,
                 const std::vector<double> &knt1,
                 const std::vector<double> &knt2) noexcept {
@@ -201,7 +201,7 @@ void WritePatch(const std::string &file_name, int current_patch_number,
  * \param Geometry std::vector of NURBS::Patch describing geometry
  * \param file_name path/filename to be written to
  */
-void WriteDATFile(const std::vector<Patch> &Geometry,
+inline void WriteDATFile(const std::vector<Patch> &Geometry,
                   const std::string &file_name) {
   const int number_of_patches = Geometry.size();
   MakeFile(file_name, number_of_patches);
diff --git a/Bembel/src/H2Matrix/H2Multipole.hpp b/Bembel/src/H2Matrix/H2Multipole.hpp
index 3dc3c74..dbd6530 100644
--- a/Bembel/src/H2Matrix/H2Multipole.hpp
+++ b/Bembel/src/H2Matrix/H2Multipole.hpp
@@ -321,7 +321,7 @@ struct Moment2D {
  * \brief Compute tensor interpolation points on unit square from 1D
  * interpolation points.
  */
-Eigen::MatrixXd interpolationPoints2D(const Eigen::VectorXd &x) {
+inline Eigen::MatrixXd interpolationPoints2D(const Eigen::VectorXd &x) {
   Eigen::MatrixXd x2(x.size() * x.size(), 2);
   for (auto i = 0; i < x.size(); ++i)
     for (auto j = 0; j < x.size(); ++j) {
diff --git a/Bembel/src/HomogenisedLaplace/Coefficients.hpp b/Bembel/src/HomogenisedLaplace/Coefficients.hpp
index 5508846..43ec6ce 100644
--- a/Bembel/src/HomogenisedLaplace/Coefficients.hpp
+++ b/Bembel/src/HomogenisedLaplace/Coefficients.hpp
@@ -24,18 +24,18 @@
 
 namespace Bembel {
 
-Eigen::VectorXd getCoefficients(double precision);
+inline Eigen::VectorXd getCoefficients(double precision);
 
 inline unsigned int getDegree(double precision);
 
-Eigen::VectorXd getDisplacement(Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f,
+inline Eigen::VectorXd getDisplacement(Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f,
     Eigen::MatrixXd ps_b);
 
 inline double k_mod(Eigen::Vector3d in);
 
 inline Eigen::Vector3d Dk_mod(Eigen::Vector3d in);
 
-double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
+inline double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
     Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f, Eigen::MatrixXd ps_b);
 
 /**
@@ -57,7 +57,7 @@ double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
  * \see R. von Rickenbach. _Boundary Element Methods for Shape
  *  Optimisation in Homogenisation_. MSc thesis, Universität Basel, 2021.
  */
-Eigen::VectorXd getCoefficients(double precision) {
+inline Eigen::VectorXd getCoefficients(double precision) {
   Eigen::VectorXd diff;
   Eigen::RowVectorXd difft;
   Eigen::Vector3d v;
@@ -235,7 +235,7 @@ inline unsigned int getDegree(double precision) {
  * @param ps_f: Points on the front side, i.e. \f$ \subseteq [-0.5, 0.5] \times \{-0.5\} \times [-0.5, 0.5] \f$.
  * @param ps_b: Points on the bottom side, i.e. \f$ \subseteq [-0.5, 0.5] \times [-0.5, 0.5] \times \{-0.5\} \f$.
  */
-Eigen::VectorXd getDisplacement(Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f,
+inline Eigen::VectorXd getDisplacement(Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f,
     Eigen::MatrixXd ps_b) {
 
   std::function<double(Eigen::Vector3d)> u = [](Eigen::Vector3d in) {
@@ -343,7 +343,7 @@ inline Eigen::Vector3d Dk_mod(Eigen::Vector3d in) {
  * @param ps_f: Gauss quadrature points on the front side of the cube
  * @param ps_b: Gauss quadrature points on the bottom side of the cube
  */
-double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
+inline double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
     Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f, Eigen::MatrixXd ps_b) {
   double res = 0.0;
 
diff --git a/Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp b/Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp
index 0f528b4..d21ded1 100644
--- a/Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp
+++ b/Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp
@@ -46,9 +46,9 @@ class HomogenisedLaplaceSingleLayerOperator : public LinearOperatorBase<
    *  via the static variable precision.
    */
   HomogenisedLaplaceSingleLayerOperator() {
-    this->deg = getDegree(HomogenisedLaplaceSingleLayerOperator::precision);
+    this->deg = getDegree(HomogenisedLaplaceSingleLayerOperator::precision());
     this->cs = getCoefficients(
-        HomogenisedLaplaceSingleLayerOperator::precision);
+        HomogenisedLaplaceSingleLayerOperator::precision());
   }
 
   template<class T>
@@ -131,14 +131,14 @@ class HomogenisedLaplaceSingleLayerOperator : public LinearOperatorBase<
    * \brief sets the precision of the periodicity of the kernel
    */
   static void setPrecision(double p) {
-    HomogenisedLaplaceSingleLayerOperator::precision = p;
+    HomogenisedLaplaceSingleLayerOperator::precision() = p;
   }
 
   /**
    * \brief returns the precision of the periodicity of the kernel
    */
   static double getPrecision() {
-    return HomogenisedLaplaceSingleLayerOperator::precision;
+    return HomogenisedLaplaceSingleLayerOperator::precision();
   }
 
  private:
@@ -147,11 +147,12 @@ class HomogenisedLaplaceSingleLayerOperator : public LinearOperatorBase<
   /** The coefficients of the spherical harmonics expansion */
   Eigen::VectorXd cs;
   /** The precision of the periodicity of the kernel */
-  static double precision;
+  static double &precision() {
+    static double value = 0;
+    return value;
+  }
 };
 
-double HomogenisedLaplaceSingleLayerOperator::precision = 0;
-
 }  // namespace Bembel
 
 #endif  // BEMBEL_SRC_HOMOGENISEDLAPLACE_SINGLELAYEROPERATOR_HPP_
diff --git a/Bembel/src/util/GeometryHelper.hpp b/Bembel/src/util/GeometryHelper.hpp
index 92b71a1..0efa11f 100644
--- a/Bembel/src/util/GeometryHelper.hpp
+++ b/Bembel/src/util/GeometryHelper.hpp
@@ -29,7 +29,7 @@ namespace util {
  * \param midpoint2: Eigen::Vector3d midpoint of the second ball
  * \param radius2: double radius of the second ball
  */
-void computeEnclosingBall(Eigen::Vector3d *midpoint, double *radius,
+inline void computeEnclosingBall(Eigen::Vector3d *midpoint, double *radius,
                           const Eigen::Vector3d &midpoint1, double radius1,
                           const Eigen::Vector3d &midpoint2, double radius2) {
   // compute distance vector of the two spheres
diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index 1ba7438..3d94195 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -19,33 +19,33 @@
 
 namespace Bembel {
 
-double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg);
 
-double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg, bool grad);
 
-Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg);
 
-Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
+inline Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
     Eigen::VectorXd cs, unsigned int deg);
 
-Eigen::Matrix<double, Eigen::Dynamic, 2> spherical_harmonics_full(
+inline Eigen::Matrix<double, Eigen::Dynamic, 2> spherical_harmonics_full(
     Eigen::Vector3d x, unsigned int N);
 
 inline Eigen::Vector2d spherical_prev(Eigen::Vector3d x, int m, int n,
     Eigen::Vector2d y1, Eigen::Vector2d y2);
 
-Eigen::Matrix<double, 3, Eigen::Dynamic> Dsolid_harmonics_full(
+inline Eigen::Matrix<double, 3, Eigen::Dynamic> Dsolid_harmonics_full(
     Eigen::Vector3d x, unsigned int N, Eigen::MatrixXd spherical_val);
 
-Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y, int m,
+inline Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y, int m,
     unsigned int n, Eigen::VectorXd L, double y_re, double y_im);
 
-Eigen::VectorXd legendreFull(unsigned int N, double t);
+inline Eigen::VectorXd legendreFull(unsigned int N, double t);
 
-double constant(int m, unsigned int n);
+inline double constant(int m, unsigned int n);
 
 inline Eigen::Matrix3d functionalMatrix(Eigen::Vector3d z);
 
@@ -65,7 +65,7 @@ inline double pow_int(double x, int n);
  * 																			  (2, -2), (2, -1), ... (n, n)] \f$
  * @param deg:	The degree
  */
-double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg) {
   unsigned int m, n;
   double z1[2], z2[2], z3[2], z1_start[2];
@@ -125,7 +125,7 @@ double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
  * @param deg:	The degree
  * @param grad: distinguish the two cases.
  */
-double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg, bool grad) {
   unsigned int m, n;
   double z1[2], z2[2], z3[2], z1_start[2];
@@ -210,7 +210,7 @@ double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
  * 																			  (2, -2), (2, -1), ... (n, n)] \f$
  * @param deg:	The degree
  */
-Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg) {
   unsigned int m, n;
   double z1[2], z2[2], z3[2], z1_start[2];
@@ -299,7 +299,7 @@ Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
  * 																			  (2, -2), (2, -1), ... (n, n)] \f$
  * @param deg:	The degree
  */
-Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
+inline Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
     Eigen::VectorXd cs, unsigned int deg) {
   unsigned int m, n;
   double z1[2], z2[2], z3[2], z1_start[2];
@@ -385,7 +385,7 @@ Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
  *  @param  x:    the point of evaluation
  *  @param  N:    the maximal degree
  */
-Eigen::Matrix<double, Eigen::Dynamic, 2> spherical_harmonics_full(
+inline Eigen::Matrix<double, Eigen::Dynamic, 2> spherical_harmonics_full(
     Eigen::Vector3d x, unsigned int N) {
 
   Eigen::VectorXd real((N + 1) * (N + 1));
@@ -489,7 +489,7 @@ inline Eigen::Vector2d spherical_prev(Eigen::Vector3d x, int m, int n,
 /**
  * \brief Calculates all gradients of the solid harmonics, given the Legendre Coefficients L.
  */
-Eigen::Matrix<double, 3, Eigen::Dynamic> Dsolid_harmonics_full(
+inline Eigen::Matrix<double, 3, Eigen::Dynamic> Dsolid_harmonics_full(
     Eigen::Vector3d x, unsigned int N, Eigen::MatrixXd spherical_val) {
 
   Eigen::VectorXd L = legendreFull(N, x(2) / x.norm());
@@ -590,7 +590,7 @@ inline Eigen::Matrix<double, 3, 2> dspherical_prev(Eigen::Vector3d x, int m,
  * \brief Calculates the derivative of the solid harmonics function \f$ \phi_n^m \f$ at
  *  the point \f$ y \f$ with the spherical values.
  */
-Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y, int m,
+inline Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y, int m,
     unsigned int n, Eigen::VectorXd L, double y_re, double y_im) {
 
   //  normalise y
@@ -674,7 +674,7 @@ Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y, int m,
 /**
  * \brief Returns the values of the spherical polynomials \f$ P_n^m(t) \f$
  */
-Eigen::VectorXd legendreFull(unsigned int N, double t) {
+inline Eigen::VectorXd legendreFull(unsigned int N, double t) {
   Eigen::VectorXd L(((N + 1) * (N + 2)) / 2);
   int n, s, m;
 
@@ -706,7 +706,7 @@ Eigen::VectorXd legendreFull(unsigned int N, double t) {
 /**
  *  \brief gives the norming factor of the spherical polynomials
  */
-double constant(int m, unsigned int n) {
+inline double constant(int m, unsigned int n) {
   unsigned int i;
   double c = sqrt((2 * n + 1) / (4 * pi));
 
-- 
2.43.0


From f684bcb4d08670043f4b22c24e4bd8fcf4e1a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 11/30] fix: TangentialTrace of complex functions is no longer
 conjugated

---
 Bembel/src/LinearForm/TangentialTrace.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/LinearForm/TangentialTrace.hpp b/Bembel/src/LinearForm/TangentialTrace.hpp
index fc79f9e..72be65a 100644
--- a/Bembel/src/LinearForm/TangentialTrace.hpp
+++ b/Bembel/src/LinearForm/TangentialTrace.hpp
@@ -59,7 +59,9 @@ class TangentialTrace : public LinearFormBase<TangentialTrace<Scalar>, Scalar> {
 
     // tangential component + quadrature weights
     Eigen::Matrix<Scalar, 3, 1> fun_x_f = function_(x_f);
-    Eigen::Matrix<Scalar, 3, 1> tangential_component = fun_x_f.cross(x_n) * ws;
+    // cross: conjugates the result for complex scalars
+    Eigen::Matrix<Scalar, 3, 1> tangential_component =
+        fun_x_f.cross(x_n).conjugate() * ws;
 
     // extract tangential component
     Scalar component_x = x_f_dx.dot(tangential_component);
-- 
2.43.0


From 84a84849a27ab30c56f5f4021182b5db7bc76bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 12/30] fix: solid harmonics series of the homogenised kernel
 include the highest degree

---
 Bembel/src/util/Sphericals.hpp | 59 +++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index 3d94195..20ab883 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -75,11 +75,11 @@ inline double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
 
   r = z1[1] = 0;
   z1[0] = 0.5 / sqrt(pi);
-  if (deg <= 1) {
+  if (deg == 0) {
     return cs(0) * z1[0];
   }
 
-  for (m = 0; m < deg - 1; m++) {
+  for (m = 0; m < deg; m++) {
     if (m == 0) {
       fac = 1.0;
     } else {
@@ -93,7 +93,7 @@ inline double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     z2[1] = rootTimesZ * z1[1];
     r += fac * cs(m * (m + 1) + m) * z1[0];  // + k[ m   *(m+1)-m]*z1[1];
     r += fac * cs((m + 1) * (m + 2) + m) * z2[0];  // + k[(m+1)*(m+2)-m]*z2[1];
-    for (n = m + 2; n < deg; n++) {
+    for (n = m + 2; n <= deg; n++) {
       root_2 = sqrt((2 * n + 1.0) / ((n - m) * (n + m)));
       rootTimesZ = sqrt(2 * n - 1) * x(2);
       root_3 = sqrt(((n + m - 1.0) * (n - m - 1.0)) / (2 * n - 3));
@@ -109,7 +109,7 @@ inline double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     z1[0] = root_2 * (x(0) * z1_start[0] - x(1) * z1_start[1]);
     z1[1] = root_2 * (x(0) * z1_start[1] + x(1) * z1_start[0]);
   }
-  r += 2 * cs((deg - 1) * (deg + 1)) * z1[0];  // + k[(nk-1)*(nk-1)]*z1[1];
+  r += 2 * cs(deg * (deg + 2)) * z1[0];  // + k[nk*nk]*z1[1];
   return r;
 }
 
@@ -134,16 +134,16 @@ inline double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
 
   r = z1[1] = 0;
   z1[0] = 0.5 / sqrt(pi);
-  if (grad && deg <= 1) {
+  if (grad && deg == 0) {
     return 0.0;
-  } else if (!grad && deg <= 1) {
+  } else if (!grad && deg == 0) {
     return cs(0) * z1[0];
   }
 
   norm = x.norm();
   y = x / norm;
 
-  for (m = 0; m < deg - 1; m++) {
+  for (m = 0; m < deg; m++) {
     if (m == 0) {
       fac = 1.0;
     } else {
@@ -170,7 +170,7 @@ inline double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     }
     r += fac_tot * cs((m + 1) * (m + 2) + m) * z2[0];
 
-    for (n = m + 2; n < deg; n++) {
+    for (n = m + 2; n <= deg; n++) {
       if (grad) {
         fac_tot = fac * n * pow_int(norm, n - 1);
       } else {
@@ -193,11 +193,11 @@ inline double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
   }
 
   if (grad) {
-    fac_tot = fac * deg * pow_int(norm, deg - 1);
+    fac_tot = 2 * deg * pow_int(norm, deg - 1);
   } else {
-    fac_tot *= norm;
+    fac_tot = 2 * pow_int(norm, deg);
   }
-  r += fac_tot * cs((deg - 1) * (deg + 1)) * z1[0];
+  r += fac_tot * cs(deg * (deg + 2)) * z1[0];
   return r;
 }
 
@@ -224,11 +224,11 @@ inline Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd c
 
   dr = Eigen::Vector3d(0.0, 0.0, 0.0);
 
-  if (deg == 1) {
+  if (deg == 0) {
     return dr;
   }
 
-  for (m = 1; m < deg - 1; m++) {
+  for (m = 1; m < deg; m++) {
     z1_start[0] = z1[0];
     z1_start[1] = z1[1];
     rootTimesZ = sqrt(2 * m + 3) * x(2);
@@ -260,7 +260,7 @@ inline Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd c
       // + a[(m+1)*(m+2)-(m-1)]*z2[1]) for imaginary coefficients;
     }
 
-    for (n = m + 2; n < deg; n++) {
+    for (n = m + 2; n <= deg; n++) {
       root_2 = sqrt((2 * n + 1.0) / ((n - m) * (n + m)));
       rootTimesZ = sqrt(2 * n - 1) * x(2);
       root_3 = sqrt(((n + m - 1.0) * (n - m - 1.0)) / (2 * n - 3));
@@ -279,13 +279,12 @@ inline Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd c
     z1[0] = root_2 * (x(0) * z1_start[0] - x(1) * z1_start[1]);
     z1[1] = root_2 * (x(0) * z1_start[1] + x(1) * z1_start[0]);
   }
-  dr(0) += (deg - 1) * (2 * cs((deg - 1) * (deg + 1)) * z1[0]);
-  // + a[(na-1)*(na-1)]*z1[1]) for imaginary coefficients;
-  dr(1) -= (deg - 1) * (2 * cs((deg - 1) * (deg + 1)) * z1[1]);
-  // - a[(na-1)*(na-1)]*z1[0]) for imaginary coefficients;
-  dr(2) += 2 * sqrt(2 * (deg - 1))
-      * (cs(deg * (deg - 1) + (deg - 2)) * z1[0]
-          + cs(deg * (deg - 1) - (deg - 2)) * z1[1]);
+  fac = (deg == 1) ? 1.0 : 2.0;
+  dr(0) += deg * (2 * cs(deg * (deg + 2)) * z1[0]);
+  // + a[na*na]*z1[1]) for imaginary coefficients;
+  dr(1) -= deg * (2 * cs(deg * (deg + 2)) * z1[1]);
+  // - a[na*na]*z1[0]) for imaginary coefficients;
+  dr(2) += fac * sqrt(2 * deg) * (cs(deg * (deg + 1) + (deg - 1)) * z1[0]);
 
   return dr;
 }
@@ -313,11 +312,11 @@ inline Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
   norm = x.norm();
   y = x / norm;
 
-  if (deg == 1) {
+  if (deg == 0) {
     return dr;
   }
 
-  for (m = 1; m < deg - 1; m++) {
+  for (m = 1; m < deg; m++) {
     r_n3 = pow_int(norm, m - 3);
 
     z1_start[0] = z1[0];
@@ -347,7 +346,7 @@ inline Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
 
     r_n3 *= norm;
 
-    for (n = m + 2; n < deg; n++) {
+    for (n = m + 2; n <= deg; n++) {
       r_n3 *= norm;
       root_2 = sqrt((2 * n + 1.0) / ((n - m) * (n + m)));
       rootTimesZ = sqrt(2 * n - 1) * y(2);
@@ -367,12 +366,12 @@ inline Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
     z1[0] = root_2 * (y(0) * z1_start[0] - y(1) * z1_start[1]);
     z1[1] = root_2 * (y(0) * z1_start[1] + y(1) * z1_start[0]);
   }
-  r_n3 *= norm;
-  dr(0) += (deg - 1) * r_n3 * (2 * cs((deg - 1) * (deg + 1)) * z1[0]);
-  dr(1) -= (deg - 1) * r_n3 * (2 * cs((deg - 1) * (deg + 1)) * z1[1]);
-  dr(2) += 2 * r_n3 * sqrt(2 * (deg - 1))
-      * (cs(deg * (deg - 1) + (deg - 2)) * z1[0]
-          + cs(deg * (deg - 1) - (deg - 2)) * z1[1]);
+  fac = (deg == 1) ? 1.0 : 2.0;
+  r_n3 = pow_int(norm, deg - 3);
+  dr(0) += deg * r_n3 * (2 * cs(deg * (deg + 2)) * z1[0]);
+  dr(1) -= deg * r_n3 * (2 * cs(deg * (deg + 2)) * z1[1]);
+  dr(2) += fac * r_n3 * sqrt(2 * deg)
+      * (cs(deg * (deg + 1) + (deg - 1)) * z1[0]);
 
   return dr;
 }
-- 
2.43.0


From eac1895e0e2ac8de4afe8bff86fe7c0958aa25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 13/30] fix: legendreFull of degree zero writes only its one
 entry

---
 Bembel/src/util/Sphericals.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index 20ab883..b8f7df0 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -679,6 +679,9 @@ inline Eigen::VectorXd legendreFull(unsigned int N, double t) {
 
   /* n = 0 */
   L(0) = 1;
+  if (N == 0) {
+    return L;
+  }
 
   /* n = 1 */
   L(1) = t;
-- 
2.43.0


From 6a3a775b252ecaa7456b280c90ba4a3c6fee2032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:28 +0000
Subject: [PATCH 14/30] fix: const TreeLeaf::get_R returns a const reference

---
 Bembel/src/H2Matrix/TreeLeaf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/TreeLeaf.hpp b/Bembel/src/H2Matrix/TreeLeaf.hpp
index 1390e6d..a5e7878 100644
--- a/Bembel/src/H2Matrix/TreeLeaf.hpp
+++ b/Bembel/src/H2Matrix/TreeLeaf.hpp
@@ -95,7 +95,7 @@ class TreeLeaf {
       &get_L() const {
     return L_;
   }
-  Eigen::Matrix<typename Derived::Scalar, Eigen::Dynamic, Eigen::Dynamic>
+  const Eigen::Matrix<typename Derived::Scalar, Eigen::Dynamic, Eigen::Dynamic>
       &get_R() const {
     return R_;
   }
-- 
2.43.0


From eb7e9debdc10d1e28f00abf6e4241c5ee6b2b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:28 +0000
Subject: [PATCH 15/30] fix: pointer dispatch of shape functions resolves the
 overloaded Bernstein routines

---
 Bembel/src/Spline/ShapeFunctions.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/Spline/ShapeFunctions.hpp b/Bembel/src/Spline/ShapeFunctions.hpp
index abee62c..8fe9273 100644
--- a/Bembel/src/Spline/ShapeFunctions.hpp
+++ b/Bembel/src/Spline/ShapeFunctions.hpp
@@ -46,12 +46,14 @@ class PSpecificShapeFunctionHandler {
   }
   inline static constexpr funptr_doubleOut_doubleptrDoubleIn ptrEvalCoef(
       int p) {
-    return p == P ? &Bembel::Basis::EvalBernstein<double, P>
+    return p == P ? static_cast<funptr_doubleOut_doubleptrDoubleIn>(
+                        &Bembel::Basis::EvalBernstein<double, P>)
                   : PSpecificShapeFunctionHandler<P - 1>::ptrEvalCoef(p);
   }
   inline static constexpr funptr_doubleOut_doubleptrDoubleIn ptrEvalDerCoef(
       int p) {
-    return p == P ? &Bembel::Basis::EvalBernsteinDer<double, P>
+    return p == P ? static_cast<funptr_doubleOut_doubleptrDoubleIn>(
+                        &Bembel::Basis::EvalBernsteinDer<double, P>)
                   : PSpecificShapeFunctionHandler<P - 1>::ptrEvalDerCoef(p);
   }
   inline static constexpr funptr_voidOut_doubleptrDoubleIn ptrEvalBasis(int p) {
-- 
2.43.0


From 9e0d0423a0da771fd858e9716a374ac2805eff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:28 +0000
Subject: [PATCH 16/30] fix: LinearFormBase and PotentialBase forward to the
 derived evaluateIntegrand_impl

---
 Bembel/src/LinearForm/LinearForm.hpp |  8 ++++----
 Bembel/src/Potential/Potential.hpp   | 15 +++++----------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/Bembel/src/LinearForm/LinearForm.hpp b/Bembel/src/LinearForm/LinearForm.hpp
index 8eabb39..ee299a4 100644
--- a/Bembel/src/LinearForm/LinearForm.hpp
+++ b/Bembel/src/LinearForm/LinearForm.hpp
@@ -45,12 +45,12 @@ struct LinearFormBase {
   // pair
   // of quadrature points represented as a
   // Surface point [xi; w; Chi(xi); dsChi(xi); dtChi(xi)]
-  template <class T>
+  template <class T, int Columns>
   void evaluateIntegrand(
       const T &super_space, const SurfacePoint &p,
-      Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> *intval) const {
-    static_cast<const Derived *>(this)->evaluateLinearForm_impl(super_space, p,
-                                                                intval);
+      Eigen::Matrix<Scalar, Eigen::Dynamic, Columns> *intval) const {
+    static_cast<const Derived *>(this)->evaluateIntegrand_impl(super_space, p,
+                                                               intval);
     return;
   }
   // pointer to the derived object
diff --git a/Bembel/src/Potential/Potential.hpp b/Bembel/src/Potential/Potential.hpp
index 40184ba..d075d3f 100644
--- a/Bembel/src/Potential/Potential.hpp
+++ b/Bembel/src/Potential/Potential.hpp
@@ -88,20 +88,15 @@ struct PotentialBase {
   // pair
   // of quadrature points represented as a
   // Surface point [xi; w; Chi(xi); dsChi(xi); dtChi(xi)]
-  template <typename T>
   Eigen::Matrix<typename PotentialReturnScalar<
                     typename LinearOperatorTraits<LinOp>::Scalar,
                     typename PotentialTraits<Derived>::Scalar>::Scalar,
                 1, PotentialTraits<Derived>::OutputSpaceDimension>
-  evaluateIntegrand(
-      const AnsatzSpace<LinOp> &ansatz_space,
-      const Eigen::Matrix<
-          typename LinearOperatorTraits<LinOp>::Scalar, Eigen::Dynamic,
-          getFunctionSpaceVectorDimension<LinearOperatorTraits<LinOp>::Form>()>
-          &coeff,
-      const Eigen::VectorXd &point, const SurfacePoint &p) const {
-    return static_cast<const Derived *>(this)->evaluatePotential_impl(
-        ansatz_space, coeff, point, p);
+  evaluateIntegrand(const FunctionEvaluator<LinOp> &fun_ev,
+                    const ElementTreeNode &element,
+                    const Eigen::Vector3d &point, const SurfacePoint &p) const {
+    return static_cast<const Derived *>(this)->evaluateIntegrand_impl(
+        fun_ev, element, point, p);
   }
   // pointer to the derived object
   Derived &derived() { return *static_cast<Derived *>(this); }
-- 
2.43.0


From 8ae0a1ddac58e0e03ddfd3253a86e65d861f8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 17/30] fix: the default test function of DummyOperator has
 internal linkage

---
 Bembel/src/LinearOperator/Dummy/DummyOperator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/LinearOperator/Dummy/DummyOperator.hpp b/Bembel/src/LinearOperator/Dummy/DummyOperator.hpp
index f10f398..55fe202 100644
--- a/Bembel/src/LinearOperator/Dummy/DummyOperator.hpp
+++ b/Bembel/src/LinearOperator/Dummy/DummyOperator.hpp
@@ -30,7 +30,7 @@ struct LinearOperatorTraits<DummyOperator> {
 
 // forward declaration of class DummyOperator in order to define traits
 // define some default test functiom
-std::function<double(const Eigen::Vector2d &, const Eigen::Vector2d &)>
+static std::function<double(const Eigen::Vector2d &, const Eigen::Vector2d &)>
     DummyOperator_test_function =
         [](const Eigen::Vector2d &x, const Eigen::Vector2d &y) { return 1.; };
 
-- 
2.43.0


From a96ebf2de5d695336dbcb1bada85358aad7a880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 18/30] fix: take the suffix of a geometry file after the last
 dot of its path

---
 Bembel/src/Geometry/Geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/Geometry/Geometry.hpp b/Bembel/src/Geometry/Geometry.hpp
index 8cd6dc8..cb08bb4 100644
--- a/Bembel/src/Geometry/Geometry.hpp
+++ b/Bembel/src/Geometry/Geometry.hpp
@@ -87,7 +87,7 @@ class Geometry {
    * \param filename Filename of a .dat or .igs file.
    */
   inline void init_Geometry(const std::string &filename) {
-    std::string file_suffix = filename.substr(filename.find('.') + 1);
+    std::string file_suffix = filename.substr(filename.rfind('.') + 1);
     PatchVector tmp;
 
     if (file_suffix.compare("dat") == 0)
-- 
2.43.0


From 4f739ac175685a6fef99b5843b2a2488254d7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 19/30] fix: reset the stream between the header and the first
 patch of a dat file

---
 Bembel/src/Geometry/GeometryIO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Bembel/src/Geometry/GeometryIO.hpp b/Bembel/src/Geometry/GeometryIO.hpp
index 16a8ba4..e7c7256 100644
--- a/Bembel/src/Geometry/GeometryIO.hpp
+++ b/Bembel/src/Geometry/GeometryIO.hpp
@@ -57,6 +57,7 @@ inline std::vector<Patch> LoadGeometryFileDAT(
     getline(file, row);  // file_name
 
     getline(file, row);
+    iss.clear();
     iss.str(row);
     while (iss >> word) {
       info.push_back(stoi(word));
-- 
2.43.0


From 456a981c214dc5da9e74578675be1baad0b4cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 20/30] fix: do not write past the end of the knot vectors in
 writePatchData

---
 Bembel/src/Geometry/GeometryIGS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/Geometry/GeometryIGS.hpp b/Bembel/src/Geometry/GeometryIGS.hpp
index 9a6f22f..f2cccdc 100644
--- a/Bembel/src/Geometry/GeometryIGS.hpp
+++ b/Bembel/src/Geometry/GeometryIGS.hpp
@@ -393,9 +393,9 @@ inline std::vector<std::string> writePatchData(const Patch& patch,
          "We can not handle internal knots");
 
   std::vector<double> knots_x(2 * degree_x, 0);
-  for (auto i = 0; i <= degree_x; ++i) knots_x[degree_x + i] = 1;
+  for (auto i = 0; i < degree_x; ++i) knots_x[degree_x + i] = 1;
   std::vector<double> knots_y(2 * degree_y, 0);
-  for (auto i = 0; i <= degree_y; ++i) knots_y[degree_y + i] = 1;
+  for (auto i = 0; i < degree_y; ++i) knots_y[degree_y + i] = 1;
 
   const std::array<double, 2> span_x = {0, 1};
   const std::array<double, 2> span_y = {0, 1};
-- 
2.43.0


From 631aae93b8c7b9ae6c5dfc8af1254aa45bb9cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 21/30] fix: continue items longer than a line of an IGES
 section on the next line

---
 Bembel/src/Geometry/GeometryIGS.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Bembel/src/Geometry/GeometryIGS.hpp b/Bembel/src/Geometry/GeometryIGS.hpp
index f2cccdc..19d88e6 100644
--- a/Bembel/src/Geometry/GeometryIGS.hpp
+++ b/Bembel/src/Geometry/GeometryIGS.hpp
@@ -222,6 +222,11 @@ inline std::vector<std::string> makeSection(std::vector<std::string> data,
       line = "";
     }
     line += item;
+    // an item longer than a line, e.g. a file name, is continued
+    while (line.length() > linewidth) {
+      out.push_back(line.substr(0, linewidth));
+      line.erase(0, linewidth);
+    }
   }
   out.push_back(line);
   return out;
-- 
2.43.0


From a3b405bac507a7e9cd3718889ed94553437f18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 22/30] fix: Logger opens its file in the mode it was given

---
 Bembel/src/IO/Logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/IO/Logger.hpp b/Bembel/src/IO/Logger.hpp
index a1dcd3f..823ea7a 100644
--- a/Bembel/src/IO/Logger.hpp
+++ b/Bembel/src/IO/Logger.hpp
@@ -63,7 +63,7 @@ class Logger {
   template <typename T, typename... Args>
   void file(T t, Args... arg) {
     if (!(_file.is_open())) {
-      _file.open(name_, std::fstream::out | std::fstream::trunc);
+      _file.open(name_, std::fstream::out | _mode);
     }
     _file << std::setprecision(N - 4) << std::setw(N + _sep.size()) << std::left
           << t << _sep;
@@ -72,7 +72,7 @@ class Logger {
   template <typename T>
   void file(T t) {
     if (!(_file.is_open())) {
-      _file.open(name_, std::fstream::out | std::fstream::trunc);
+      _file.open(name_, std::fstream::out | _mode);
     }
     std::setprecision(N);
     _file << std::setprecision(N - 4) << std::setw(N + _sep.size()) << std::left
-- 
2.43.0


From 5dad6cfc907cac7c17d4f17cf082b93b58da6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 23/30] fix: Stopwatch::stop gives the overall time and allows
 to start again

---
 Bembel/src/IO/Stopwatch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/IO/Stopwatch.hpp b/Bembel/src/IO/Stopwatch.hpp
index 1095be9..ac9f5f0 100644
--- a/Bembel/src/IO/Stopwatch.hpp
+++ b/Bembel/src/IO/Stopwatch.hpp
@@ -65,10 +65,10 @@ class Stopwatch {
                      std::chrono::high_resolution_clock::now() - p_)
                      .count();
     assert(has_been_started_ == true && "Stopwatch must be started first!");
+    has_been_started_ = false;
     if (has_lapped_) {
       has_lapped_ = false;
-      has_been_started_ = false;
-      return std::accumulate(durations_.begin(), durations_.end(), 0.0);
+      return std::accumulate(durations_.begin(), durations_.end(), out);
     }
     return out;
   }
-- 
2.43.0


From 9c87216b6c3c58a6458a3d671798460062812bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 24/30] fix: VTKPointExport writes data with relative instead
 of absolute accuracy

---
 Bembel/src/IO/VTKPointExport.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/IO/VTKPointExport.hpp b/Bembel/src/IO/VTKPointExport.hpp
index 25eea8c..07680cb 100644
--- a/Bembel/src/IO/VTKPointExport.hpp
+++ b/Bembel/src/IO/VTKPointExport.hpp
@@ -45,12 +45,15 @@ class VTKPointExport {
                              "\" NumberOfComponents=\"" +
                              std::to_string(mat.cols()) +
                              "\" format=\"ascii\">\n";
+    std::ostringstream out;
+    out.precision(6);
     for (int i = 0; i < mat.rows(); ++i) {
       for (int j = 0; j < cols; ++j) {
-        data_ascii.append(std::to_string(mat(i, j)) + " ");
+        out << std::scientific << mat(i, j) << " ";
       }
-      data_ascii.append("\n");
+      out << "\n";
     }
+    data_ascii.append(out.str());
     data_ascii.append("</DataArray>\n");
     additionalData_.push_back(data_ascii);
   }
-- 
2.43.0


From d9ee739c3abef4f4f7568e6f73236e59744f83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 25/30] fix: print2m of a sparse matrix keeps its size and
 refuses unknown modes

---
 Bembel/src/IO/print2file.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/IO/print2file.hpp b/Bembel/src/IO/print2file.hpp
index 782babc..4d0bc2e 100644
--- a/Bembel/src/IO/print2file.hpp
+++ b/Bembel/src/IO/print2file.hpp
@@ -88,7 +88,7 @@ int print2m(const std::string &fileName, const std::string &varName,
       value(j) = it.value();
       ++j;
     }
-  print2m(fileName, "rows_" + varName, rowInd, writeMode);
+  if (print2m(fileName, "rows_" + varName, rowInd, writeMode)) return 1;
   print2m(fileName, "cols_" + varName, colInd, "a");
   print2m(fileName, "values_" + varName, value, "a");
   std::ofstream myfile;
@@ -98,7 +98,8 @@ int print2m(const std::string &fileName, const std::string &varName,
   myfile << varName << " = sparse("
          << "rows_" + varName << ","
          << "cols_" + varName << ","
-         << "values_" + varName << ");\n";
+         << "values_" + varName << "," << var.rows() << "," << var.cols()
+         << ");\n";
   myfile.close();
 
   return 0;
-- 
2.43.0


From e8f9f9ea5d97456664b2b62f0c364d038e23c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 26/30] fix: print2bin and bin2Mat count the bytes of large
 matrices in 64 bits

---
 Bembel/src/IO/print2file.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Bembel/src/IO/print2file.hpp b/Bembel/src/IO/print2file.hpp
index 4d0bc2e..8204b5a 100644
--- a/Bembel/src/IO/print2file.hpp
+++ b/Bembel/src/IO/print2file.hpp
@@ -136,7 +136,7 @@ int print2bin(const std::string &fileName,
         tmp = var;
 
     myfile.write(reinterpret_cast<const char *>(tmp.data()),
-                 rows * cols * dataSize);
+                 static_cast<std::streamsize>(rows) * cols * dataSize);
 
   } else {
     Eigen::Matrix<typename Derived::Scalar, Eigen::Dynamic, Eigen::Dynamic,
@@ -144,7 +144,7 @@ int print2bin(const std::string &fileName,
         tmp = var;
 
     myfile.write(reinterpret_cast<const char *>(tmp.data()),
-                 rows * cols * dataSize);
+                 static_cast<std::streamsize>(rows) * cols * dataSize);
   }
 
   myfile.close();
@@ -180,9 +180,10 @@ int bin2Mat(const std::string &fileName,
     return 1;
   }
 
-  data = new typename Derived::Scalar[rows * cols];
+  data = new typename Derived::Scalar[static_cast<std::size_t>(rows) * cols];
 
-  myfile.read((char *)data, rows * cols * dataSize);
+  myfile.read((char *)data,
+              static_cast<std::streamsize>(rows) * cols * dataSize);
 
   myfile.close();
 
-- 
2.43.0


From 01de39b679b5aae8c5ca1680fd9116f83bcabd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 27/30] fix: keep level and sibling links when an
 ElementTreeNode is moved

---
 Bembel/src/ClusterTree/ElementTreeNode.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Bembel/src/ClusterTree/ElementTreeNode.hpp b/Bembel/src/ClusterTree/ElementTreeNode.hpp
index a0fa80a..805fe27 100644
--- a/Bembel/src/ClusterTree/ElementTreeNode.hpp
+++ b/Bembel/src/ClusterTree/ElementTreeNode.hpp
@@ -104,7 +104,10 @@ class ElementTreeNode {
     vertices_ = std::move(other.vertices_);
     radius_ = other.radius_;
     id_ = other.id_;
+    level_ = other.level_;
     patch_ = other.patch_;
+    prev_ = other.prev_;
+    next_ = other.next_;
     sons_ = std::move(other.sons_);
     adjcents_ = std::move(other.adjcents_);
   }
-- 
2.43.0


From ccf75f8d58bde499a7de5114a33c430b92e8d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 28/30] fix: allow copying a default-constructed Geometry

---
 Bembel/src/Geometry/Geometry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/Geometry/Geometry.hpp b/Bembel/src/Geometry/Geometry.hpp
index cb08bb4..f63d1be 100644
--- a/Bembel/src/Geometry/Geometry.hpp
+++ b/Bembel/src/Geometry/Geometry.hpp
@@ -46,8 +46,9 @@ class Geometry {
    * might be useful if we want to modify the geometry object.
    */
   Geometry(const Geometry &other) {
-    geometry_ = std::make_shared<PatchVector>();
-    *geometry_ = *(other.geometry_);
+    // a default constructed geometry has nothing to copy
+    if (other.geometry_)
+      geometry_ = std::make_shared<PatchVector>(*(other.geometry_));
   }
   /**
    * \brief Copy constructor.
-- 
2.43.0


From d407cf8f9b3f372955c14a46f5031a18229f8ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 29/30] fix: allow copying and moving a default-constructed
 BlockClusterTree

---
 Bembel/src/H2Matrix/BlockClusterTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/BlockClusterTree.hpp b/Bembel/src/H2Matrix/BlockClusterTree.hpp
index bed3633..de2089e 100644
--- a/Bembel/src/H2Matrix/BlockClusterTree.hpp
+++ b/Bembel/src/H2Matrix/BlockClusterTree.hpp
@@ -278,7 +278,7 @@ class BlockClusterTree {
   }
   void updateLeafPointers() {
     // make sure we have the root of the block cluster tree calling this method
-    if (cluster1_->id_ != -1 || cluster1_ != cluster2_) {
+    if (cluster1_ == nullptr || cluster1_->id_ != -1 || cluster1_ != cluster2_) {
       return;
     } else {
       leaf_pointers_->clear();
-- 
2.43.0


From 3d0489819dcdd7dcdfa94ef1382b5fc436e24b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 30/30] fix: do not overwrite parameters shared with a copied
 BlockClusterTree

---
 Bembel/src/H2Matrix/BlockClusterTree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/BlockClusterTree.hpp b/Bembel/src/H2Matrix/BlockClusterTree.hpp
index de2089e..58d20e5 100644
--- a/Bembel/src/H2Matrix/BlockClusterTree.hpp
+++ b/Bembel/src/H2Matrix/BlockClusterTree.hpp
@@ -120,7 +120,11 @@ class BlockClusterTree {
   template <typename LinOp, typename AnsatzSpace>
   void init_BlockClusterTree(const LinOp &linOp,
                              const AnsatzSpace &ansatz_space) {
-    if (parameters_ == nullptr) set_parameters();
+    if (parameters_ == nullptr)
+      set_parameters();
+    else  // they may be shared with a copy of this block cluster tree
+      parameters_ = std::make_shared<BlockClusterTreeParameters<Scalar>>(
+          *parameters_);
     // get element tree from ansatz space
     const ElementTree &element_tree =
         ansatz_space.get_superspace().get_mesh().get_element_tree();
-- 
2.43.0

