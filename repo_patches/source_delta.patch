From 6d807778c66d91722aebf2227ebb8fe24d42ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 01/65] fix: add the missing semicolon after the defaulted
 VTKMeshReader destructor

Every translation unit including UnstructuredMesh.h failed to compile.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 5c0f017..d4e8a08 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -21,7 +21,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     VTKMeshReader(const MeshElements<MeshDimension, IndexType, Real, Reserve...>&){}
 
-    virtual ~VTKMeshReader() = default
+    virtual ~VTKMeshReader() = default;
 };
 
 
-- 
2.43.0


From 61cd69009b8c22735607d4873b3753adda98dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 02/65] fix: divide a Vertex by an integer scalar in the
 coordinate type

---
 src/GTMesh/NumericStaticArray/Vertex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 4d5f401..24f88d3 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -133,7 +133,7 @@ Vertex<Dim, Real> operator*(const Real& x, const Vertex<Dim, Real>& vert) {
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real> Vertex<Dim, Real>::operator/(const RealOP& x) const {
-    return this->operator*(RealOP(1.0)/x);
+    return this->operator*(Real(1.0)/x);
 }
 
 
-- 
2.43.0


From 216bd2949a7fc501ac065ca9fcf8cb6e7571dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 03/65] fix: let initializeCenters(centers) assign through the
 elements it iterates

The overload taking precomputed centers iterated over const references and so
could not be instantiated.
---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 7370697..6b90bfc 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -54,10 +54,10 @@ public:
                            ::Vertex<MeshDimension, Real>,
                            dimensionSeq> &centers)
     {
-        for (const auto &face : this->getFaces()) {
+        for (auto &face : this->getFaces()) {
             face.setCenter(centers[face]);
         }
-        for (const auto &cell : this->getCells()) {
+        for (auto &cell : this->getCells()) {
             cell.setCenter(centers[cell]);
         }
     }
-- 
2.43.0


From b0930485124dc1c3b30acb02e7d5fc40c8e2dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 04/65] fix: computeMeasures keeps the requested method through
 all dimensions

---
 .../MeshFunctions/ComputeMeasures.h              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
index 624b2a2..2078a88 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
@@ -111,7 +111,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, mesh);
     }
 
     template <typename IndexType, typename Real, unsigned int ...Reserve>
@@ -128,7 +128,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, centers, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, centers, mesh);
     }
 };
 
@@ -229,7 +229,7 @@ struct _ComputeMeasures<2, 3, Method>{
             }
             surfaceMeasures.at(faceIndex) = measure;
         }
-        _ComputeMeasures<3, 3>::compute(measures, mesh);
+        _ComputeMeasures<3, 3, Method>::compute(measures, mesh);
     }
 };
 
@@ -248,19 +248,19 @@ struct _ComputeMeasures<3, 3, METHOD_TESSELLATED>{
         auto& cellMeasures = measures.template getDataByDim<3>();
 
         for (IndexType cellIndex = 0; cellIndex < mesh.getCells().size(); cellIndex++) {
-            typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
-            Vertex<3,Real>& cellCenter = cell.getCenter();
+            const typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
+            const Vertex<3,Real>& cellCenter = cell.getCenter();
             Real measure = Real();
             MeshApply<3,2>::apply(
                         cellIndex,
                         mesh,
                 [&cellCenter, &cellMeasures, &mesh, &measure](IndexType , IndexType faceIndex){
 
-                Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
+                const Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
 
                 MeshApply<2,1>::apply(faceIndex, mesh, [&](IndexType , IndexType edgeIndex){
-                    Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
-                    Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
+                    const Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
+                    const Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
 
                     std::array<Vertex<3,Real>, 3> pyramidVec = {vertA - faceCenter, vertB - faceCenter, cellCenter - faceCenter};
                     std::array<Real, 3> norms;
-- 
2.43.0


From 2507bcab771fadc1ac79593d66bf2a79cc49e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 05/65] fix: center difference of a face with only a right cell
 points to that cell

---
 .../MeshFunctions/ComputeCellsCenterDifference.h                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
index ce8bbf0..ba6aa46 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
@@ -24,7 +24,7 @@ MeshDataContainer<Vector<Dimension, Real>, Dimension - 1> computeCellsCenterDiff
                 connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellLeftIndex()).getCenter();
 
             } else if (isInvalidIndex(face.getCellLeftIndex()) && !isInvalidIndex(face.getCellRightIndex())) {
-                connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellRightIndex()).getCenter();
+                connectingLines.at(face) = mesh.getCells().at(face.getCellRightIndex()).getCenter() - face.getCenter();
             }
         }
 
-- 
2.43.0


From 009291a0c465723834f9bc26667862cd3e9416b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 06/65] fix: initialise the boundary element index of a cell

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 8a74afb..bb9481b 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -251,7 +251,7 @@ public:
 //GetBoundaryElement
     MeshElement(IndexType index = INVALID_INDEX(IndexType))
         :MeshElementBase<IndexType>(index) {
-
+        boundaryElementIndex = INVALID_INDEX(IndexType);
     }
 
     IndexType getBoundaryElementIndex() const {
-- 
2.43.0


From ca83fca5db8ffec77d4cb7e2f84d6054d6743799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 07/65] fix: swapping the cells of a face also swaps their next
 boundary elements

---
 .../MeshElements/CellBoundaryConnection.h           | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
index 2d75d41..e7422d3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
@@ -39,6 +39,11 @@ public:
 
     IndexType getNextBElem(IndexType cellIndex) const;
 
+    /**
+     * @brief Swaps the left and right cell indexes together with
+     * the next boundary elements with respect to them.
+     */
+    void swapCellsLR();
 
 };
 
@@ -172,7 +177,15 @@ IndexType CellBoundaryConnection<IndexType>::getNextBElem(IndexType cellIndex) c
     }
 }
 
+template<typename IndexType>
+void CellBoundaryConnection<IndexType>::swapCellsLR() {
 
+    CellConnection<IndexType>::swapCellsLR();
 
+    IndexType nextLeft = getNextBElemWRTCR();
+    setNextBElemWRTCR(getNextBElemWRTCL());
+    setNextBElemWRTCL(nextLeft);
+
+}
 
 #endif // CELLBOUNDARYCONNECTION_H
-- 
2.43.0


From dbdd69686a64cd3602fc51df975571c28a8ace6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 08/65] fix: clearing a mesh also clears its boundary cells

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 69dcc8d..e475ca9 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -157,6 +157,7 @@ public:
      */
     void clear() {
         _ClearMesh<Dimension>::clear(*this);
+        BoundaryCells.clear();
     }
 
     void appendBoundaryCell(IndexType cellIndex, IndexType faceIndex){
-- 
2.43.0


From 1fc07c4088ebae45732fe8f093a37a394eb0b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 09/65] fix: initialise the signature of a mesh

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index e475ca9..53c7915 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -62,7 +62,7 @@ private:
      * @brief Hash signature of the mash elements.
      * Use to detect changes in mesh.
      */
-    size_t meshSignature;
+    size_t meshSignature = 0;
 
 
 public:
-- 
2.43.0


From f44de8972a664fd6171a895716d7ab443c734a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 10/65] fix: initialise the hash of the last written mesh in
 the writers

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h | 2 +-
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index a018999..43fa631 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -21,7 +21,7 @@ template<typename IndexType, typename Real>
 class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
 
      using writer = MeshWriter<3>;
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 1e1b92b..676dae1 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -36,7 +36,7 @@ private:
      * @brief lastHash<HR>
      * The hash of the last written mesh.
      */
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief cellVert<HR>
      * Vertices of all cells in correct order for vtk export.
-- 
2.43.0


From d50a53386c8c8666a0af6aa6e3df90822c60fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 11/65] fix: constant MeshElements::getElement compiles

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 53c7915..49b4195 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -86,7 +86,7 @@ public:
 
     template<unsigned int dim>
     const ElementType<dim>&  getElement(const ElementIndex<dim, IndexType>& elementIndex) const {
-        return getElements<dim>()[elementIndex];
+        return getElements<dim>()[elementIndex.index];
     }
 
     std::vector<Vertex>& getVertices(){
-- 
2.43.0


From 273817d9c5033c18523ab808c54a2f532bda67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 12/65] fix: assign a list to a vertex element of any
 coordinate type

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index bb9481b..522e452 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -187,7 +187,7 @@ public:
 
     }
     MeshElement<MeshDim, 0, IndexType, Real>& operator =(std::initializer_list<Real> l){
-        this->Vertex<MeshDim,double>::operator=(l);
+        this->Vertex<MeshDim,Real>::operator=(l);
         return *this;
     }
 };
-- 
2.43.0


From 19d3cc0e10a2a9a20241e03b99da84166f6b50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 13/65] fix: SubelementContainer::removeSubelement compiles and
 stays within the list

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 522e452..972f3cf 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -98,7 +98,7 @@ public:
             for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
-            this->at(numberOfElements) = {INVALID_INDEX(IndexType), false};
+            this->at(numberOfElements - 1) = INVALID_INDEX(IndexType);
             numberOfElements--;
         } else {
             throw(std::runtime_error(
@@ -135,7 +135,7 @@ public:
     }
 
     void removeSubelement(unsigned char atIndex){
-        this->erase(atIndex);
+        this->erase(this->begin() + atIndex);
     }
 };
 
-- 
2.43.0


From 9d4f70530c95c820f7a0e457f8f0a4a81b7872e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 14/65] fix: connections and neighborhoods in the original
 order compile

---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index c3795e9..a3edd6e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -16,7 +16,7 @@ struct ElementIndex {
         return *this;
     }
 
-    ElementIndex(const IndexType& oIndex){
+    ElementIndex(const IndexType& oIndex = IndexType()){
         index = oIndex;
     }
 
@@ -29,7 +29,7 @@ struct ElementIndex {
         return index == rhs.index;
     }
 
-    operator IndexType() {
+    operator IndexType() const {
         return index;
     }
 
-- 
2.43.0


From 3872574602d01ca76c0f634b47815c70d8e263e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 15/65] fix: random coloring releases the color an element
 gives up

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
index 9557cf2..ff00093 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
@@ -176,12 +176,12 @@ struct _MeshColoring <ColoredDim, ConnectingDim, METHOD_RANDOM, Descend> {
                     selectedColor++;
                 }
 
-                result.template getDataByPos<0>().at(elementIndex) = selectedColor;
-
                 for (IndexType element : connections.template getDataByPos<0>().at(elementIndex)){
                     DBGTRY(attachedColors.template getDataByPos<0>().at(element)[result.template getDataByPos<0>()[elementIndex]] = false;)
                     DBGTRY(attachedColors.template getDataByPos<0>().at(element)[selectedColor] = true;)
                 }
+
+                result.template getDataByPos<0>().at(elementIndex) = selectedColor;
             }
         }
         return result;
-- 
2.43.0


From 8f8b92c318a5b92717e98bde12121ebaeebcd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 16/65] fix: random coloring of a mesh without elements

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
index ff00093..f7202f6 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
@@ -126,6 +126,11 @@ struct _MeshColoring <ColoredDim, ConnectingDim, METHOD_RANDOM, Descend> {
         // calculating the reserve
         auto result = _MeshColoring<ColoredDim, ConnectingDim, METHOD_GREEDY>::color(mesh);
 
+        // there is nothing to recolor in an empty mesh
+        if (result.template getDataByPos<0>().empty()) {
+            return result;
+        }
+
         // get maximal color index
         auto max = std::max_element(result.template getDataByPos<0>().begin(), result.template getDataByPos<0>().end());
 
-- 
2.43.0


From 2fc9eaa5d8fbde4fcc68fd168fc936bb623a6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 17/65] fix: the mesh headers include what they use, also with
 debugging disabled

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 1 +
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 2 +-
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h                | 4 ++++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 44bccec..1ac5914 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -3,6 +3,7 @@
 #include "../../../Traits/Traits.h"
 #include "../../../Utils/ConstexprFor.h"
 #include "../../../Traits/CustomTypeTraits.h"
+#include "../../../Traits/TraitsBind/TraitsBind.h"
 #include "../MeshDataContainer.h"
 #include "../../../Debug/Debug.h"
 #include <istream>
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 4cb8086..c447676 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -5,7 +5,7 @@
 #include "../MeshDataContainer.h"
 #include "../../../Debug/Debug.h"
 #include "../../MeshIO/MeshWriter/VTKMeshWriter.h"
-#include <GTMesh/Debug/Printers/PrintTraitedClass.h>
+#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
 #include <GTMesh/Utils/ConstexprFor.h>
 
 #include <ostream>
diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 6b90bfc..7ea5ced 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -2,6 +2,10 @@
 #define UNSTRUCTUREDMESH_H
 #include "MeshElements/MeshElements.h"
 #include "vector"
+#include <fstream>
+#include <memory>
+#include <stdexcept>
+#include <string>
 #include <type_traits>
 #include "MeshFunctions/MeshFunctions.h"
 #include "MeshIO/MeshReader/FPMAMeshReader.h"
-- 
2.43.0


From 0828a6e315aacd1f8432d649bfcd11268684cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 18/65] fix: FPMAMeshWriter collects vertices and faces of the
 right dimension

---
 .../UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index 43fa631..90cdb57 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -26,13 +26,13 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
      */
-    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 2> faceVert;
+    MeshDataContainer<std::vector<ElementIndex<0, IndexType>>, 2> faceVert;
 
     /**
      * @brief cellFace<HR>
      * original order of faces
      */
-    MeshDataContainer<std::vector<ElementIndex<3, IndexType>>, 3> cellFace;
+    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 3> cellFace;
 
     /**
      * @brief This funcion return indexes of vertices of a face in correct order
@@ -47,7 +47,7 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
     template<unsigned int ...Reserve>
     void indexFace(MeshElements<3, IndexType, Real, Reserve...>& mesh,
                    typename MeshElements<3, IndexType, Real, Reserve...>::Face& face,
-                   std::vector<ElementIndex<3, IndexType>>& verticesIndexed){
+                   std::vector<ElementIndex<0, IndexType>>& verticesIndexed){
 
         // export the face in "left" direction see VTK export
         IndexType startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
-- 
2.43.0


From f7ac54e96dda06c3eab34a3f05a2a3e7d9457b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 19/65] fix: names of the arrays of a reflected
 MeshDataContainer (dimension 0, zeros, 3 digits)

---
 .../MeshDataContainerTraits/MeshDataContainerTraits.h        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
index 6bcd7d0..f4b64e3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
@@ -17,13 +17,14 @@ public:
             int i = 4;
             for (unsigned int mod = 100; mod > 0; mod /= 10){
                 int digit = dim / mod;
-                if (digit > 0) {
+                // skip the leading zeros only
+                if (digit > 0 || i > 4 || mod == 1) {
                     name[i] = '0' + char(digit);
                     i++;
                 }
                 dim -= digit * mod;
             }
-            name[i + 1] = '\0';
+            name[i] = '\0';
         }
     };
 
-- 
2.43.0


From 4251caec8c644cdd92c29a44a88d431d2e50329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 20/65] fix: MeshDataContainer allocation by another container
 and positional access with mixed types compile

---
 .../MeshDataContainer/MeshDataContainer.h            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 20e9588..13b3052 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -116,9 +116,9 @@ private:
         allocateMemory<pos + 1>(mesh, initialValue);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
@@ -531,9 +531,9 @@ private:
         allocateMemory<pos + 1>(mesh, values...);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
@@ -619,7 +619,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) {
         return getDataByPos<Pos>();
     }
@@ -635,7 +635,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    const DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    const DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) const {
         return getDataByPos<Pos>();
     }
-- 
2.43.0


From 97b62cbc31298abf79a6c579eb04ad316fbfe742 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 21/65] fix: functions and functors setting a reflected member
 accept a pointer to the object

---
 src/GTMesh/Traits/MemberAccess/GetSetAccess.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
index 8e2bb37..17a1495 100644
--- a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
+++ b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
@@ -150,7 +150,7 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c, val); }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c, val); }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c, val); }
 };
@@ -172,11 +172,11 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c) = val; }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c) = val; }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c) = val; }
 
-    inline auto &getAttr(_typeClass *c) const { return set(c); }
+    inline auto &getAttr(_typeClass *c) const { return set(*c); }
 
     inline auto &getAttr(_typeClass &c) const { return set(c); }
 };
-- 
2.43.0


From 190c860f95a9663ed522a112e6fa082fc358bd2e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 22/65] fix: difference with a temporary right operand of
 reflected classes returns the result

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index eb63aad..8181c13 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -207,6 +207,7 @@ operator-(const TraitT& op1, TraitT&& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<BinaryMinus>::evaluate(op2, op1, op2);
 
+    return op2;
 }
 
 
-- 
2.43.0


From 85f144c69e7afb507490f50c36c2afbd48a7636a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 23/65] fix: product of two temporary reflected objects is not
 ambiguous

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 8181c13..b3d25a4 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -324,6 +324,12 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
     return operator*=(op1, op2);
 }
 
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator*(TraitT&& op1, TraitT&& op2) noexcept {
+    return operator*=(op1, op2);
+}
+
 
 ///
 /// Division of traited class with a real number
-- 
2.43.0


From 356698c87b3aef52efbcccf78a5b581ae63bd9c3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 24/65] fix: power of a number to a reflected object uses the
 members as exponents

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index b3d25a4..1dde335 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -368,6 +368,15 @@ struct Pow
 
 
 
+template< typename T1, typename T2 >
+struct PowOfBase
+{
+   static auto evaluate( const T1& exponent, const T2& base ) -> decltype( pow(base, exponent) )
+   {
+      return pow(base, exponent);
+   }
+};
+
 ///
 /// Power of traited class to a real number
 ///
@@ -394,7 +403,10 @@ pow(const TraitT& op1, const Real& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, const TraitT& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitT res;
+    TraitsBinaryExpressionProcesor<PowOfBase>::evaluate(res, op2, op1);
+    return res;
 }
 
 
@@ -402,7 +414,9 @@ pow(const Real& op1, const TraitT& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, TraitT&& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitsBinaryExpressionProcesor<PowOfBase>::evaluate(op2, op2, op1);
+    return op2;
 }
 
 
-- 
2.43.0


From f1bf4f4735660a4439031d1b34fb06b8a87c6200 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 25/65] fix: division of a reflected object divides each member

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 1dde335..0e0297e 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -335,11 +335,22 @@ operator*(TraitT&& op1, TraitT&& op2) noexcept {
 /// Division of traited class with a real number
 ///
 
+template< typename T1, typename T2 >
+struct BinarySlash
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( a / b )
+   {
+      return a / b;
+   }
+};
+
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(const TraitT& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitT res;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(res, op1, op2);
+    return res;
 }
 
 
@@ -347,7 +358,8 @@ template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(TraitT&& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(op1, op1, op2);
+    return op1;
 }
 
 
-- 
2.43.0


From f93d43145c7dbf20fdc18a7529ec80adade305ef Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 26/65] fix: elementary functions accept members that are
 reflected classes

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 0e0297e..32c72a7 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -483,9 +483,10 @@ pow(const T& array, const Real& p) noexcept {
 template< typename T1 >
 struct Exp
 {
-   static auto evaluate( const T1& a ) -> decltype( std::exp(a) )
+   static auto evaluate( const T1& a ) -> T1
    {
-      return std::exp(a);
+      using std::exp;
+      return exp(a);
    }
 };
 
@@ -525,9 +526,10 @@ exp(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log(a) )
+   static auto evaluate( const T1& a ) -> T1
    {
-      return std::log(a);
+      using std::log;
+      return log(a);
    }
 };
 
@@ -565,9 +567,10 @@ log(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log2
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log2(a) )
+   static auto evaluate( const T1& a ) -> T1
    {
-      return std::log2(a);
+      using std::log2;
+      return log2(a);
    }
 };
 
@@ -606,9 +609,10 @@ log2(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log10
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log10(a) )
+   static auto evaluate( const T1& a ) -> T1
    {
-      return std::log10(a);
+      using std::log10;
+      return log10(a);
    }
 };
 
@@ -686,9 +690,10 @@ sqrt(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Cbrt
 {
-   static auto evaluate( const T1& a ) -> decltype( std::cbrt(a) )
+   static auto evaluate( const T1& a ) -> T1
    {
-      return std::cbrt(a);
+      using std::cbrt;
+      return cbrt(a);
    }
 };
 
-- 
2.43.0


From 533033c4f1fa10e2fa81dc1c74e7b69dfb90c99c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 27/65] fix: functions of a temporary reflected object return a
 value

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 32c72a7..3b2b16a 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -393,7 +393,7 @@ struct PowOfBase
 /// Power of traited class to a real number
 ///
 template <typename TraitT, typename Real>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(TraitT&& op1, const Real& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<Pow>::evaluate(op1, op1, op2);
@@ -497,7 +497,7 @@ struct Exp
 /// E to each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 exp(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Exp>::evaluate(op1, op1);
@@ -540,7 +540,7 @@ struct Log
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log>::evaluate(op1, op1);
@@ -581,7 +581,7 @@ struct Log2
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log2(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log2>::evaluate(op1, op1);
@@ -623,7 +623,7 @@ struct Log10
 /// Logarithm of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 log10(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Log10>::evaluate(op1, op1);
@@ -664,7 +664,7 @@ struct Sqrt
 /// Sqrt of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 sqrt(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Sqrt>::evaluate(op1, op1);
@@ -704,7 +704,7 @@ struct Cbrt
 /// Cbrt of each traited class member
 ///
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 cbrt(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<Cbrt>::evaluate(op1, op1);
@@ -745,7 +745,7 @@ operator-(const TraitT& op1) noexcept {
 }
 
 template <typename TraitT>
-typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator-(TraitT&& op1) noexcept {
 
     TraitsUnaryExpressionProcesor<UnaryMinus>::evaluate(op1, op1);
-- 
2.43.0


From cfa22165679c7948a788ff50a2841a0ea220ca21 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 28/65] fix: absolute value of members and elements keeps their
 type and does not recurse forever

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 3b2b16a..8331ee7 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -763,6 +763,7 @@ struct Abs
 {
 
     static auto evaluate( const T1& a ) -> T1 {
+        using std::abs;
         return abs(a);
     }
 
@@ -798,7 +799,7 @@ typename std::enable_if<
 >::type
 abs(const T& arg) noexcept {
 
-    return  abs(arg);
+    return  std::abs(arg);
 }
 
 template <typename T>
-- 
2.43.0


From ff3bff03457d9fc959b3164c4103a39e1ccb1b5d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 29/65] fix: aggregates of an array have the type of its
 elements

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 8331ee7..7a63da7 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -951,7 +951,7 @@ public:
 
             return  res;
         }
-        return 0.0;
+        return decltype (evaluate(array[0]))(0);
     }
 
 
-- 
2.43.0


From 8774eedfe17d2954b518c0e0e1b0bdf5eca6b8c5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 30/65] fix: Interface::Indexable::setElement compiles

---
 src/GTMesh/Traits/Interfaces/InterfaceIndexable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h b/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
index e50ab5b..dc592e1 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
@@ -27,7 +27,7 @@ struct Indexable<T, std::enable_if_t<::IsIndexable<T>::value>> : public std::tru
     }
 
     static void setElement(T& array, const sizeType& index, const valueType& newValue) {
-        return array[index] = newValue;
+        array[index] = newValue;
     }
 
     static valueType& getElementRef(T& array, const sizeType& index) {
@@ -65,7 +65,7 @@ struct Indexable<T, std::enable_if_t<::IsTNLIndexable<T>::value>> : public std::
     }
 
     static void setElement(T& array, const sizeType& index, const valueType& newValue) {
-        return array[index] = newValue;
+        array[index] = newValue;
     }
 
     static valueType& getElementRef(T& array, const sizeType& index) {
-- 
2.43.0


From 4f031208201175fb0561ba5a4e9d72ab2dca9f84 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 31/65] fix: Interface::CompactContainer::data does not access
 the first element of an empty container

---
 src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
index dfd96cd..d407ec7 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
@@ -37,9 +37,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return size(val) > 0 ? &val[0] : nullptr; }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return size(val) > 0 ? &val[0] : nullptr; }
 };
 
 /**
@@ -67,9 +67,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return size(val) > 0 ? &val[0] : nullptr; }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return size(val) > 0 ? &val[0] : nullptr; }
 };
 }
 
-- 
2.43.0


From 3171383616478acc3d58179197c1f8831eefecaf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 32/65] fix: classes and pointers convertible to bool are not
 serialized as bool

---
 src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index b289cf8..019d1e9 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -14,7 +14,7 @@ constexpr bool IsSimpleSerializable_v = std::is_arithmetic<T>::value || std::is_
  */
 struct SerializeSimple {
 
-    template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
+    template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T> && !std::is_same<T, bool>::value, bool> = true>
     static void serialize(std::vector<unsigned char>& dataContainer, const T& data){
         const unsigned char* pData = reinterpret_cast<const unsigned char*>(&data);
         dataContainer.insert(dataContainer.end(), pData, pData + sizeof (T));
@@ -29,7 +29,8 @@ struct SerializeSimple {
         }
     }
 
-    static void serialize(std::vector<unsigned char>& dataContainer, const bool data){
+    template <typename T, typename ..., std::enable_if_t<std::is_same<T, bool>::value, bool> = true>
+    static void serialize(std::vector<unsigned char>& dataContainer, const T& data){
         dataContainer.push_back(data ? 1 : 0);
     }
 
-- 
2.43.0


From 1418389b94c846760181b43be8a2260322879522 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 33/65] fix: deserialization of bool refuses a byte which is
 not a bool

---
 src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index 019d1e9..e6433ec 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -3,6 +3,7 @@
 #include <type_traits>
 #include <vector>
 #include <stdexcept>
+#include <string>
 
 namespace Impl {
 template<typename T>
@@ -34,7 +35,6 @@ struct SerializeSimple {
         dataContainer.push_back(data ? 1 : 0);
     }
 
-    template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, bool& data){
         switch (*dataIterator) {
         case 1: data = true;
@@ -44,6 +44,7 @@ struct SerializeSimple {
         default:
             throw std::runtime_error(std::to_string((int)*dataIterator & 0xff) + ": invalid data input for bool 1/0 expected");
         }
+        dataIterator++;
     }
 
 };
-- 
2.43.0


From efc3ad615e0752ffa0d05700af02597c5b6d40cf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 34/65] fix: containers with overloaded resize, e.g.,
 std::list, can be deserialized

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 884f637..36f1c45 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -15,7 +15,7 @@ struct SerializeIterable {
 
 
     template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
-    static Impl::void_t<decltype(T::resize)>
+    static Impl::void_t<decltype(std::declval<T&>().resize(std::declval<const T&>().size()))>
         deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
-- 
2.43.0


From be48c1770ba2fb3ba1a4c138843c8cfd22d48787 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 35/65] fix: deserialization of map or set replaces the
 previous content

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 36f1c45..f465f78 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -38,6 +38,7 @@ struct DeserializeAsociativeMap {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             std::pair<typename T::key_type,typename T::mapped_type> val;
             BinarySerializer::readNext(dataIterator, val);
@@ -53,6 +54,7 @@ struct DeserializeAsociativeSet {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             typename T::key_type val;
             BinarySerializer::readNext(dataIterator, val);
-- 
2.43.0


From e363a3bf46db7dbe84fdb8f91258c283f4a525b6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 36/65] fix: reading a sequence into a container of another
 fixed size is refused

---
 .../Serializers/SerializeCompactContainer.h                | 4 ++++
 .../BinarySerializer/Serializers/SerializeIndexable.h      | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
index c82d814..9a1421e 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
@@ -5,6 +5,7 @@
 #include "SerializeSimple.h"
 #include <GTMesh/Debug/Debug.h>
 #include <cstring> // memcpy
+#include <stdexcept>
 #include <GTMesh/Traits/Interfaces/InterfaceCompactContainer.h>
 //namespace Interface {
 ///**
@@ -117,6 +118,9 @@ struct SerializeCompactContainer {
 
         if (Interface::CompactContainer<T>::size(data) != size) {
             Interface::CompactContainer<T>::resize(data, size);
+            if (Interface::CompactContainer<T>::size(data) != size) {
+                throw std::runtime_error("the number of the stored elements does not match the size of the container");
+            }
         }
 
         std::memcpy(Interface::CompactContainer<T>::data(data),
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
index 101834f..321975c 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
@@ -1,5 +1,6 @@
 #ifndef SERIALIZEINDEXABLE_H
 #define SERIALIZEINDEXABLE_H
+#include <stdexcept>
 #include <GTMesh/Traits/CustomTypeTraits.h>
 #include <GTMesh/Traits/Interfaces/InterfaceIndexable.h>
 #include "../BinarySerializer.h"
@@ -36,6 +37,9 @@ struct SerializeIndexable {
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
+            if (Interface::Indexable<T>::size(data) != size) {
+                throw std::runtime_error("the number of the stored elements does not match the size of the container");
+            }
         }
 
         for (size_type i = 0; i < size; i++) {
@@ -52,6 +56,9 @@ struct SerializeIndexable {
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
+            if (Interface::Indexable<T>::size(data) != size) {
+                throw std::runtime_error("the number of the stored elements does not match the size of the container");
+            }
         }
 
         for (size_type i = 0; i < size; i++) {
-- 
2.43.0


From a7ea9d7ac2c537575f8a8e1e914ed37e106ba2e7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 37/65] fix: containers with getSize and setSize can be
 deserialized

---
 .../BinarySerializer/Serializers/SerializeIndexable.h     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
index 321975c..7e35d1c 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
@@ -32,8 +32,8 @@ struct SerializeIndexable {
 
     template <typename T, typename ..., std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
-        using size_type = decltype(data.size());
-        size_type size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+        using size_type = typename Interface::Indexable<T>::sizeType;
+        size_type size = BinarySerializer::readNext<size_type>(dataIterator);
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
@@ -51,8 +51,8 @@ struct SerializeIndexable {
     template <typename T, typename ... TupleTraits, std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
                             const std::tuple<TupleTraits...>& traits){
-        using size_type = decltype(data.size());
-        size_type size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+        using size_type = typename Interface::Indexable<T>::sizeType;
+        size_type size = BinarySerializer::readNext<size_type>(dataIterator);
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
-- 
2.43.0


From 65e55f963657143add801f8c00e43d69609266c6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 38/65] fix: BinarySerializer reports a file which cannot be
 opened, read or written

---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 38fc76c..cfec5c7 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -3,6 +3,8 @@
 #include <vector>
 #include <cstdint>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 // TODO možná změnit jméno
 /**
@@ -114,6 +116,9 @@ public:
         if (file) {
             file.write(reinterpret_cast<char *>(mData.data()), mData.size());
             file.close();
+            if (!file) {
+                throw std::runtime_error("unable to write file " + fileName);
+            }
         } else {
             throw std::runtime_error("unable to open file " + fileName);
         }
@@ -127,7 +132,12 @@ public:
             file.seekg(0, std::ios::beg);
             mData.resize(file_size);
             file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
+            if (!file) {
+                throw std::runtime_error("unable to read file " + fileName);
+            }
             file.close();
+        } else {
+            throw std::runtime_error("unable to open file " + fileName);
         }
     }
 
-- 
2.43.0


From 52d7791e9107b23cf982f1310d4cd540a930aaeb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 39/65] fix: the position of reading of BinarySerializer
 survives growth of its data, loading, copying and moving

---
 .../BinarySerializer/BinarySerializer.h       | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index cfec5c7..5281d79 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -17,6 +17,23 @@ public:
     using ByteContainer = std::vector<Byte>;
     using ByteContainerIterator = ByteContainer::const_iterator;
 
+    BinarySerializer() = default;
+    BinarySerializer(const BinarySerializer&) = default;
+    BinarySerializer& operator=(const BinarySerializer&) = default;
+
+    BinarySerializer(BinarySerializer&& other) noexcept
+        : mData(std::move(other.mData)), mDataPosition(other.mDataPosition) {
+        other.clear();
+    }
+
+    BinarySerializer& operator=(BinarySerializer&& other) noexcept {
+        mData = std::move(other.mData);
+        mDataPosition = other.mDataPosition;
+        if (this != &other) {
+            other.clear();
+        }
+        return *this;
+    }
 
     template<typename T>
     static void addNext(std::vector<Byte>& binaryDataContainer, const T& data);
@@ -67,13 +84,16 @@ public:
     template <typename T>
     void read(T& data) {
         resetIteratorIfNotValid();
-        readNext(mDataIterator, data);
+        ByteContainerIterator dataIterator = mData.cbegin() + mDataPosition;
+        readNext(dataIterator, data);
+        mDataPosition = dataIterator - mData.cbegin();
     }
 
     template <typename T>
     T read() {
-        resetIteratorIfNotValid();
-        return readNext<T>(mDataIterator);
+        T data;
+        read(data);
+        return data;
     }
 
     template <typename T>
@@ -83,11 +103,11 @@ public:
     }
 
     void resetIterator() {
-        mDataIterator = mData.cbegin();
+        mDataPosition = 0;
     }
 
     bool isIteratorValid() {
-        return mData.begin() <= mDataIterator && mData.end() > mDataIterator;
+        return mDataPosition < mData.size();
     }
 
     void resetIteratorIfNotValid() {
@@ -103,7 +123,7 @@ public:
      */
     void clear() {
         mData.clear();
-        mDataIterator = {};
+        mDataPosition = 0;
     }
 
     const ByteContainer& getData() {
@@ -131,6 +151,7 @@ public:
             auto file_size = file.tellg();
             file.seekg(0, std::ios::beg);
             mData.resize(file_size);
+            mDataPosition = 0;
             file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
             if (!file) {
                 throw std::runtime_error("unable to read file " + fileName);
@@ -143,7 +164,8 @@ public:
 
 private:
     ByteContainer mData;
-    ByteContainerIterator mDataIterator;
+    // position of the next byte to be read in mData
+    size_t mDataPosition = 0;
 };
 
 #include "Serializers/SerializeCustom.h"
-- 
2.43.0


From dba5502d1fe160f1d81a9024377c522df4ebe7be Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 40/65] fix: export of unsigned int to stdio does not append
 the letter d

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 941086e..b3c0644 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -42,7 +42,7 @@ struct PrintExportable {
 
     static void print(const unsigned int& d, ...)
     {
-        printf("%ud", d);
+        printf("%u", d);
     }
 
 
-- 
2.43.0


From 17042dfef7f17d50b5e4fdce525bae94a2adf44f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 41/65] fix: export to stdio of long, unsigned long, pointers,
 chars and types with operator<<

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 39 +++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index b3c0644..f537a06 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -1,6 +1,8 @@
 #ifndef PRINTEXPORTABLE_H
 #define PRINTEXPORTABLE_H
 #include <type_traits>
+#include <sstream>
+#include <cstdio>
 #include "../VariableExport.h"
 
 struct PrintExportable {
@@ -46,6 +48,16 @@ struct PrintExportable {
     }
 
 
+    static void print(const long& d, ...)
+    {
+        printf("%ld", d);
+    }
+
+    static void print(const unsigned long& d, ...)
+    {
+        printf("%lu", d);
+    }
+
     static void print(const long long& d, ...)
     {
         printf("%lld", d);
@@ -60,6 +72,33 @@ struct PrintExportable {
     {
         printf("%s", (b == true ? "true" : "false"));
     }
+
+    static void print(const signed char& c, ...)
+    {
+        printf("%c", c);
+    }
+
+    static void print(const unsigned char& c, ...)
+    {
+        printf("%c", c);
+    }
+
+    static void print(const void* p, ...)
+    {
+        printf("%p", p);
+    }
+
+    /**
+     * Prints the variable of user defined type with overloaded
+     * operator<< for ostream.
+     */
+    template <typename T, std::enable_if_t<IsExportable<T>::value && (std::is_class<T>::value || std::is_enum<T>::value), bool> = true>
+    static void print(const T& var, ...)
+    {
+        std::ostringstream ost;
+        ost << var;
+        printf("%s", ost.str().c_str());
+    }
 };
 
 #endif // PRINTEXPORTABLE_H
-- 
2.43.0


From 78b08b4baaf07eafab1c582181920471a3259d5c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 42/65] fix: character arrays are exported as text by both back
 ends

---
 src/GTMesh/Debug/Printers/PrintText.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index f143369..4882c42 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -6,8 +6,8 @@ struct PrintText {
 
     template<typename T>
     using isTextType = std::enable_if_t < std::is_same<T, std::string>::value ||
-                                          std::is_same<T, const char*>::value ||
-                                          std::is_same<T, char*>::value ||
+                                          std::is_same<std::decay_t<T>, const char*>::value ||
+                                          std::is_same<std::decay_t<T>, char*>::value ||
                                           std::is_same<T, char>::value,
                                           bool >;
 
-- 
2.43.0


From d7d336f765ce9ba7e5e9542a2e2bfb4b24fcc41e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 43/65] fix: both back ends export unknown types alike and
 leave the format of the stream as it was

---
 src/GTMesh/Debug/Printers/PrintAny.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/Printers/PrintAny.h b/src/GTMesh/Debug/Printers/PrintAny.h
index 25be8e9..45efbae 100644
--- a/src/GTMesh/Debug/Printers/PrintAny.h
+++ b/src/GTMesh/Debug/Printers/PrintAny.h
@@ -2,10 +2,15 @@
 #define PRINTANY_H
 
 #include <iomanip>
+#include <iostream>
+#include <cstdio>
+#include <typeinfo>
 struct PrintAny {
 
     template <typename T>
     static void print(std::ostream& ost, const T& var, ...) {
+        const auto flags = ost.flags();
+        const auto fill = ost.fill();
         ost << typeid (T).name() << "(";
         ost << std::hex;
         for (char* byte = (char*)&var; byte < (char*)&var + sizeof (T); byte++) {
@@ -14,18 +19,21 @@ struct PrintAny {
                 ost << ' ';
             }
         }
-        ost << std::dec;
+        ost.flags(flags);
+        ost.fill(fill);
         ost << ")";
     }
 
     template <typename T>
     static void print(const T& var, ...) {
+        printf("%s(", typeid (T).name());
         for (char* byte = (char*)&var; byte < (char*)&var + sizeof (T); byte++) {
-            printf("%02X",((int)(*byte) & 0xff));
+            printf("%02x",((unsigned int)(*byte) & 0xff));
             if (byte < (char*)&var + sizeof (T) - 1) {
                 printf(" ");
             }
         }
+        printf(")");
     }
 
 };
-- 
2.43.0


From 5e8ae094acb87d20243f1a5774bc8ce57c47d5fe Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 44/65] fix: ConsoleLogger::writeMessageC with more messages
 compiles

---
 src/GTMesh/Debug/ConsoleLogger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index da7eecc..26fd6f0 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -197,8 +197,8 @@ public:
 
     template<typename MSGTYPE, typename... MSGTYPES>
     static void writeMessageC(const char* prefix, int line, const char* funcName, const char* sourceFile, const MSGTYPE& message, const MSGTYPES&... rest) {
-        writeMessageC(prefix, funcName, line, sourceFile, message);
-        writeMessageC(prefix, funcName, line, sourceFile, rest...);
+        writeMessageC(prefix, line, funcName, sourceFile, message);
+        writeMessageC(prefix, line, funcName, sourceFile, rest...);
     }
 
 
-- 
2.43.0


From 958dc9fa7644175f66c86c216b87233f7623f055 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 45/65] fix: ConsoleLogger::reset restores the default
 identation

---
 src/GTMesh/Debug/ConsoleLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index 26fd6f0..0609dc1 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -52,7 +52,7 @@ public:
         mOnlyFilename = false; //!< If true then the filename is exported without its path.
         mPrintFunction = true; //!< If true then the name of the function the export is called from is printed.
         mPrintAggregated = true; //!< Prints the information about the origin of the message only once.
-        mIdentation = std::string("...     "); //!< The identation of the single exports when PrintAggregated is true.
+        mIdentation = std::string("||     "); //!< The identation of the single exports when PrintAggregated is true.
     }
 public:
 
-- 
2.43.0


From 1a150dcbb3929d01e49c23c96a4433632f2c33a8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 46/65] fix: DBGVAR_STDIO does not swap the names of the
 function and the file

---
 src/GTMesh/Debug/Debug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index a843112..682cd3b 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -33,7 +33,7 @@ namespace dbg {
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
 
-#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __FILE__, __func__, FOR_EACH(STRVAR, __VA_ARGS__))
+#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
-- 
2.43.0


From 00cb9a5bb9a4c8548015b7a3b512dda64848295c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 47/65] fix: all debug macros exist and are single statements
 when debugging is disabled

---
 src/GTMesh/Debug/Debug.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index 682cd3b..289b977 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -71,9 +71,15 @@ exit(1);}
 
 #define DBGMSG(...)
 
+#define DBGVAR_STDIO(...)
+
+#define DBGVARCOND_STDIO(condition, ...)
+
 #define DBGCHECK
 
-#define DBGTRY(code) code
+#define DBGCHECK_STDIO
+
+#define DBGTRY(code) {code;}
 
 #define DBGVAR_HTML(...)
 
-- 
2.43.0


From 82b9eca204f61e8c27e33e158bbc43595c05a29b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 48/65] fix: conditional debug macros do not capture the else
 of the statement around them

---
 src/GTMesh/Debug/Debug.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index 289b977..feb9a66 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -31,10 +31,10 @@ namespace dbg {
 
 
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
+#define DBGVARCOND(condition, ...) if(!(condition)) {} else DBGVAR(__VA_ARGS__)
 
 #define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
+#define DBGVARCOND_STDIO(condition, ...) if(!(condition)) {} else DBGVAR_STDIO(__VA_ARGS__)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
 
@@ -46,15 +46,15 @@ exit(1);}
 
 // Macros using html debug output
 #define DBGVAR_HTML(...) Singleton<dbg::DBGStatics>::getInstance().HDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_HTML(condition, ...) if(condition) DBGVAR_HTML(__VA_ARGS__)
+#define DBGVARCOND_HTML(condition, ...) if(!(condition)) {} else DBGVAR_HTML(__VA_ARGS__)
 
 // Macros using csv debug output
 #define DBGVAR_CSV(...) Singleton<dbg::DBGStatics>::getInstance().CSVDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_CSV(condition, ...) if(condition) DBGVAR_CSV(__VA_ARGS__)
+#define DBGVARCOND_CSV(condition, ...) if(!(condition)) {} else DBGVAR_CSV(__VA_ARGS__)
 
 // Macros using json debug output
 #define DBGVAR_JSON(...) Singleton<dbg::DBGStatics>::getInstance().JSONDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
-#define DBGVARCOND_JSON(condition, ...) if(condition) DBGVAR_JSON(__VA_ARGS__)
+#define DBGVARCOND_JSON(condition, ...) if(!(condition)) {} else DBGVAR_JSON(__VA_ARGS__)
 
 
 
-- 
2.43.0


From ed5c8261cba70977abf7446ff36e1d5e80cf9f35 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 49/65] fix: JSONLogger and HtmlLogger close and release each
 log exactly once

---
 src/GTMesh/Debug/HTMLLogger.h | 16 ++++++++--------
 src/GTMesh/Debug/JSONLogger.h | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index dc020f0..fd7c318 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -3,6 +3,7 @@
 #include "VariableExport.h"
 #include <iostream>
 #include <fstream>
+#include <memory>
 #include <string>
 
 /**
@@ -14,13 +15,15 @@
 class HtmlLogger {
 
     std::string logFileName = "";
-    std::ofstream* logFile;
+    std::unique_ptr<std::ofstream> logFile;
     int groupIndex = 0;
 
     inline void writeScript();
     inline void writeEndScritpt();
 public:
-    HtmlLogger(){logFile = nullptr;}
+    HtmlLogger() = default;
+
+    HtmlLogger(HtmlLogger&&) = default;
 
     /**
      * @brief HtmlLogger
@@ -43,11 +46,8 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
-        logFile = new std::ofstream(fileName);
+        destroy();
+        logFile = std::make_unique<std::ofstream>(fileName);
 
 
         writeScript();
@@ -57,7 +57,7 @@ public:
         if(logFile){
             writeEndScritpt();
             logFile->close();
-            delete logFile;
+            logFile.reset();
         }
     }
 
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 71c3ff8..48ea324 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -2,6 +2,7 @@
 #define JSONLOGGER_H
 #include <string>
 #include <fstream>
+#include <memory>
 #include "VariableExport.h"
 #include <iostream>
 #include <iomanip>
@@ -14,11 +15,13 @@
 class JSONLogger {
 
     std::string logFileName = "";
-    std::ofstream* logFile;
+    std::unique_ptr<std::ofstream> logFile;
     int groupIndex = 0;
     bool firstWrite = true;
 public:
-    JSONLogger(){logFile = nullptr;}
+    JSONLogger() = default;
+
+    JSONLogger(JSONLogger&&) = default;
 
     /**
      * @brief JSONLogger
@@ -41,12 +44,9 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         firstWrite = true;
-        logFile = new std::ofstream(fileName);
+        logFile = std::make_unique<std::ofstream>(fileName);
         (*logFile) << "{\n\"logs\":[\n";
     }
 
@@ -56,7 +56,7 @@ public:
             logFile->flush();
 
             logFile->close();
-            delete logFile;
+            logFile.reset();
         }
     }
 
-- 
2.43.0


From 9dd330baef802c2bb76246a192de8c4346d0298c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 50/65] fix: JSONLogger escapes the name of the source file

---
 src/GTMesh/Debug/JSONLogger.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 48ea324..08b0342 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -106,7 +106,7 @@ public:
         }
         (*logFile) << "\t{" <<
                       "\n\t\t\"gInd\" : " << groupIndex << "," <<
-                      "\n\t\t\"file\" : \"" << cppFile << "\"," <<
+                      "\n\t\t\"file\" : " << std::quoted( cppFile ) << "," <<
                       "\n\t\t\"line\" : " << line << "," <<
                       "\n\t\t\"expr\" : " << std::quoted( name ) << "," <<
                       "\n\t\t\"data\" : ";
@@ -130,7 +130,7 @@ public:
         }
         (*logFile) << "\t{" <<
                       "\n\t\t\"gInd\" : " << groupIndex << "," <<
-                      "\n\t\t\"file\" : \"" << cppFile << "\"," <<
+                      "\n\t\t\"file\" : " << std::quoted( cppFile ) << "," <<
                       "\n\t\t\"line\" : " << line << "," <<
                       "\n\t\t\"expr\" : " << std::quoted( name ) << "," <<
                       "\n\t\t\"data\" : ";
@@ -144,18 +144,7 @@ public:
 
     template< typename VAR, typename ... REST >
     void writeVar(int line, const char* cppFile, const char* name, const VAR& value,const REST& ... rest){
-        writeVar(line, doubleBackSlash(cppFile), name, value,  rest...);
-    }
-
-
-
-    std::string doubleBackSlash(const char * str){
-        std::string res = str;
-        size_t pos = 0;
-        while((pos = res.find("\\", pos + 2)) != res.npos){
-            res.replace(pos, 1, "\\\\");
-        }
-        return res;
+        writeVar(line, std::string(cppFile), name, value,  rest...);
     }
 };
 
-- 
2.43.0


From 338e16683e6bbd064fb63d7394ef1e1103477bf0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 51/65] fix: export with bound traits does not pass the traits
 through C variadic arguments

Passing a std::tuple through an ellipsis is only conditionally supported;
clang refuses to compile it.
---
 src/GTMesh/Debug/Printers/PrintAny.h          |  8 +--
 src/GTMesh/Debug/Printers/PrintCustom.h       |  8 +--
 src/GTMesh/Debug/Printers/PrintExportable.h   | 50 ++++++++++++-------
 src/GTMesh/Debug/Printers/PrintText.h         | 14 ++++--
 src/GTMesh/Debug/Printers/PrintTraitedClass.h | 16 +++---
 5 files changed, 57 insertions(+), 39 deletions(-)

diff --git a/src/GTMesh/Debug/Printers/PrintAny.h b/src/GTMesh/Debug/Printers/PrintAny.h
index 45efbae..fa9e274 100644
--- a/src/GTMesh/Debug/Printers/PrintAny.h
+++ b/src/GTMesh/Debug/Printers/PrintAny.h
@@ -7,8 +7,8 @@
 #include <typeinfo>
 struct PrintAny {
 
-    template <typename T>
-    static void print(std::ostream& ost, const T& var, ...) {
+    template <typename T, typename ... IgnoredTypes>
+    static void print(std::ostream& ost, const T& var, const IgnoredTypes&...) {
         const auto flags = ost.flags();
         const auto fill = ost.fill();
         ost << typeid (T).name() << "(";
@@ -24,8 +24,8 @@ struct PrintAny {
         ost << ")";
     }
 
-    template <typename T>
-    static void print(const T& var, ...) {
+    template <typename T, typename ... IgnoredTypes>
+    static void print(const T& var, const IgnoredTypes&...) {
         printf("%s(", typeid (T).name());
         for (char* byte = (char*)&var; byte < (char*)&var + sizeof (T); byte++) {
             printf("%02x",((unsigned int)(*byte) & 0xff));
diff --git a/src/GTMesh/Debug/Printers/PrintCustom.h b/src/GTMesh/Debug/Printers/PrintCustom.h
index febbd17..b9c8b97 100644
--- a/src/GTMesh/Debug/Printers/PrintCustom.h
+++ b/src/GTMesh/Debug/Printers/PrintCustom.h
@@ -17,17 +17,17 @@ struct PrintCustom {
     using IsPrintableToStdio = Impl::void_t<decltype(PrintTo(std::declval<const T&>()))>;
 
 
-    template <typename T>
+    template <typename T, typename ... IgnoredTypes>
     static
     IsPrintableToStream<T>
-    print(std::ostream& ost, const T& var, ...) {
+    print(std::ostream& ost, const T& var, const IgnoredTypes&...) {
         PrintTo(var, ost);
     }
 
-    template <typename T>
+    template <typename T, typename ... IgnoredTypes>
     static
     IsPrintableToStdio<T>
-    print(const T& var, ...) {
+    print(const T& var, const IgnoredTypes&...) {
         PrintTo(var);
     }
 };
diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index f537a06..242e25c 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -12,78 +12,92 @@ struct PrintExportable {
      * type T has overaloaded the operator<<
      * for ostream.
      */
-    template <typename T, std::enable_if_t<IsExportable<T>::value, bool> = true>
-    static void print(std::ostream& ost, const T& var, ...) {
+    template <typename T, std::enable_if_t<IsExportable<T>::value, bool> = true, typename ... IgnoredTypes>
+    static void print(std::ostream& ost, const T& var, const IgnoredTypes&...) {
         ost << var;
     }
 
-    static void print(std::ostream& ost, const bool& var, ...) {
+    template <typename ... IgnoredTypes>
+    static void print(std::ostream& ost, const bool& var, const IgnoredTypes&...) {
         ost << (var == true ? "true" : "false");
     }
 
-    static void print(const double& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const double& d, const IgnoredTypes&...)
     {
         printf("%g", d);
     }
 
-    static void print(const long double& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const long double& d, const IgnoredTypes&...)
     {
         printf("%Lg", d);
     }
 
-    static void print(const int& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const int& d, const IgnoredTypes&...)
     {
         printf("%d", d);
     }
 
 
-    static void print(const short& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const short& d, const IgnoredTypes&...)
     {
         printf("%hd", d);
     }
 
-    static void print(const unsigned int& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const unsigned int& d, const IgnoredTypes&...)
     {
         printf("%u", d);
     }
 
 
-    static void print(const long& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const long& d, const IgnoredTypes&...)
     {
         printf("%ld", d);
     }
 
-    static void print(const unsigned long& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const unsigned long& d, const IgnoredTypes&...)
     {
         printf("%lu", d);
     }
 
-    static void print(const long long& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const long long& d, const IgnoredTypes&...)
     {
         printf("%lld", d);
     }
 
-    static void print(const unsigned long long& d, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const unsigned long long& d, const IgnoredTypes&...)
     {
         printf("%llu", d);
     }
 
-    static void print(const bool& b, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const bool& b, const IgnoredTypes&...)
     {
         printf("%s", (b == true ? "true" : "false"));
     }
 
-    static void print(const signed char& c, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const signed char& c, const IgnoredTypes&...)
     {
         printf("%c", c);
     }
 
-    static void print(const unsigned char& c, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const unsigned char& c, const IgnoredTypes&...)
     {
         printf("%c", c);
     }
 
-    static void print(const void* p, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const void* p, const IgnoredTypes&...)
     {
         printf("%p", p);
     }
@@ -92,8 +106,8 @@ struct PrintExportable {
      * Prints the variable of user defined type with overloaded
      * operator<< for ostream.
      */
-    template <typename T, std::enable_if_t<IsExportable<T>::value && (std::is_class<T>::value || std::is_enum<T>::value), bool> = true>
-    static void print(const T& var, ...)
+    template <typename T, std::enable_if_t<IsExportable<T>::value && (std::is_class<T>::value || std::is_enum<T>::value), bool> = true, typename ... IgnoredTypes>
+    static void print(const T& var, const IgnoredTypes&...)
     {
         std::ostringstream ost;
         ost << var;
diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index 4882c42..729cfbe 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -12,24 +12,28 @@ struct PrintText {
                                           bool >;
 
     template< typename TextType,
-              isTextType<TextType> dummy = true >
-    static void print(std::ostream& ost, const TextType& str, ...) {
+              isTextType<TextType> dummy = true,
+              typename ... IgnoredTypes >
+    static void print(std::ostream& ost, const TextType& str, const IgnoredTypes&...) {
         ost << '"' << str << '"';
     }
 
-    static void print(const std::string& str, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const std::string& str, const IgnoredTypes&...)
     {
         printf("\"%s\"", str.c_str());
     }
 
 
-    static void print(const char* str, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const char* str, const IgnoredTypes&...)
     {
         printf("\"%s\"", str);
     }
 
 
-    static void print(const char str, ...)
+    template <typename ... IgnoredTypes>
+    static void print(const char str, const IgnoredTypes&...)
     {
         printf("\"%c\"", str);
     }
diff --git a/src/GTMesh/Debug/Printers/PrintTraitedClass.h b/src/GTMesh/Debug/Printers/PrintTraitedClass.h
index e4e128f..0d1ac20 100644
--- a/src/GTMesh/Debug/Printers/PrintTraitedClass.h
+++ b/src/GTMesh/Debug/Printers/PrintTraitedClass.h
@@ -60,8 +60,8 @@ struct PrintTraitedClass {
         }
     };
 
-    template<typename TraitedClass, std::enable_if_t<HasDefaultIOTraits<TraitedClass>::value, bool> = true>
-    static void print(std::ostream& ost, const TraitedClass& var, ...)
+    template<typename TraitedClass, std::enable_if_t<HasDefaultIOTraits<TraitedClass>::value, bool> = true, typename ... IgnoredTypes>
+    static void print(std::ostream& ost, const TraitedClass& var, const IgnoredTypes&...)
     {
         ost << "{ ";
         PrintClass<TraitedClass, typename DefaultIOTraits<TraitedClass>::traitsType>::print(ost, var, DefaultIOTraits<TraitedClass>::getTraits());
@@ -72,8 +72,8 @@ struct PrintTraitedClass {
     using IsValid = std::enable_if_t<SelectTraitsWithIODefault<Class, TraitsTypes...>::valid, bool>;
 
 
-    template< typename Class, typename PrimaryTraits,  typename ... SecondaryTraits>
-    static void print(std::ostream& ost, const TraitsBinder<Class, PrimaryTraits, SecondaryTraits...> &traitedClass, ...)
+    template< typename Class, typename PrimaryTraits,  typename ... SecondaryTraits, typename ... IgnoredTypes>
+    static void print(std::ostream& ost, const TraitsBinder<Class, PrimaryTraits, SecondaryTraits...> &traitedClass, const IgnoredTypes&...)
     {
         VariableExport::exportVariable(ost, traitedClass.object, traitedClass.tupTraits);
     }
@@ -89,16 +89,16 @@ struct PrintTraitedClass {
 
 
 
-    template<typename TraitedClass, std::enable_if_t<HasDefaultIOTraits<TraitedClass>::value, bool> = true>
-    static void print(const TraitedClass& var, ...)
+    template<typename TraitedClass, std::enable_if_t<HasDefaultIOTraits<TraitedClass>::value, bool> = true, typename ... IgnoredTypes>
+    static void print(const TraitedClass& var, const IgnoredTypes&...)
     {
         printf("{ ");
         PrintClass<TraitedClass, typename DefaultIOTraits<TraitedClass>::traitsType>::print(var, DefaultIOTraits<TraitedClass>::getTraits());
         printf(" }");
     }
 
-    template< typename Class, typename PrimaryTraits,  typename ... SecondaryTraits>
-    static void print(const TraitsBinder<Class, PrimaryTraits, SecondaryTraits...> &traitedClass, ...)
+    template< typename Class, typename PrimaryTraits,  typename ... SecondaryTraits, typename ... IgnoredTypes>
+    static void print(const TraitsBinder<Class, PrimaryTraits, SecondaryTraits...> &traitedClass, const IgnoredTypes&...)
     {
         VariableExport::exportVariable(traitedClass.object, traitedClass.tupTraits);
     }
-- 
2.43.0


From d6a5cd280537772d30b9e0c8a9b799ca102fb426 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 52/65] fix: DBG is available with debugging enabled, not only
 when it is disabled

---
 src/GTMesh/Debug/Debug.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index feb9a66..79d7b22 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -44,6 +44,8 @@ catch(const std::exception& e){ \
 dbg::getDebugConsoleLogger().writeMessage("!!", __LINE__, __func__, __FILE__, std::string("something went wrong in try block: ") + e.what()); \
 exit(1);}
 
+#define DBG(comment) DBGMSG(comment)
+
 // Macros using html debug output
 #define DBGVAR_HTML(...) Singleton<dbg::DBGStatics>::getInstance().HDBGLog.writeVar(__LINE__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND_HTML(condition, ...) if(!(condition)) {} else DBGVAR_HTML(__VA_ARGS__)
-- 
2.43.0


From d3c8a0e7bd2da0c7d95534b54e2772bd9a33bc08 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 53/65] fix: the first concurrent accesses to a Singleton
 construct one object

---
 src/GTMesh/Singleton/Singleton.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Singleton/Singleton.h b/src/GTMesh/Singleton/Singleton.h
index aa6e585..5be8609 100644
--- a/src/GTMesh/Singleton/Singleton.h
+++ b/src/GTMesh/Singleton/Singleton.h
@@ -12,10 +12,9 @@ class Singleton {
     //static_assert (std::is_trivially_constructible<Class>::value, "The class in singleton must be trivially constructible.");
 public:
     static Class& getInstance(){
-        if (p == nullptr) {
-            p = std::unique_ptr<Class>(new Class); // the class must be trivially constructible
-        }
-        return *p;
+        // the class must be default constructible, the initialization of a local static is thread safe
+        static Class& instance = *(p = std::unique_ptr<Class>(new Class));
+        return instance;
     }
 protected:
     static std::unique_ptr<Class> p;
-- 
2.43.0


From 3b0d7ebc963b53410731a101e6d96328fff9d61f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 54/65] fix: meshes of any index and coordinate type can be
 written by file name

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 7ea5ced..fe2fba7 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -377,13 +377,13 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
         if (checkExtension(filePath, ".fpma")){
             DBGMSG("file recognized as FPMA");
-            writer_ptr = std::make_unique<FPMAMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<FPMAMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
@@ -414,13 +414,13 @@ public:
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension>)){
+            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (!checkExtension(filePath, ".vtk")){
                     DBGMSG("The writer type and file name does not match!");
                     writer = write(filePath, cellTypes, dataHeader);
                 } else {
                     DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension>*>(writer.get());
+                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     writer_loc->writeHeader(file, dataHeader);
                     if (cellTypes.template getDataByPos<0>().size() == 0) {
                         MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
@@ -431,13 +431,13 @@ public:
                 }
             }
 
-            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension>).hash_code()){
+            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension, IndexType, Real>).hash_code()){
                 if (!checkExtension(filePath, ".fpma")){
                     DBGMSG("The writer type and file name does not match!");
                     writer = write(filePath, cellTypes, dataHeader);
                 } else {
                     DBGMSG("writer recognized as FPMA");
-                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension>*>(writer.get());
+                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     reader->writeToStream(file, *this);
                 }
             }
@@ -465,7 +465,7 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
@@ -491,10 +491,10 @@ public:
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension>)){
+            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (checkExtension(filePath, ".vtk")){
                     DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension>*>(writer.get());
+                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     writer_loc->writeHeader(file, dataHeader);
                     if (cellTypes.template getDataByPos<0>().size() == 0) {
                         MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
-- 
2.43.0


From 626a547bb748d5912d8b308943cc0b06819b87ac Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 55/65] fix: computeFaceNormals compiles for meshes with
 coordinates other than double

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
index 50f44e6..05afedd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
@@ -26,7 +26,7 @@ struct _ComputeNormals{
                         const MeshElements<MeshDimension, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
@@ -82,7 +82,7 @@ struct _ComputeNormals<3, Method>{
                         const MeshElements<3, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
-- 
2.43.0


From 3bf893aaa37f47a37b11e15ea0cd9066dda0ac69 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 56/65] fix: VTK data of a single array, of several arrays and
 with bound traits can be written and read

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h        | 6 +++---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h        | 1 -
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 1ac5914..d18a703 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -49,7 +49,7 @@ class VTKMeshDataReader {
                            std::map<std::string, std::istream::pos_type>& dataPositions,
                            const Traits<T, TraitsArgs...>& traits)
         -> typename std::enable_if<
-            IsIndexable<typename DefaultIOTraits<T>::traitsType::template type<Index>>::value &&
+            IsIndexable<typename Traits<T, TraitsArgs...>::template type<Index>>::value &&
             MeshDimension == 2
             >::type
     {
@@ -151,7 +151,7 @@ public:
 
         std::map<std::string, std::istream::pos_type> dataPositions = indexData(ist);
 
-        readData(ist, data, dataPositions);
+        constexprFor<ReadData, DefaultIOTraits<T>::size()>(ist, data, dataPositions, DefaultIOTraits<T>::getTraits());
     }
     // Search for importable containers
 
@@ -182,7 +182,7 @@ public:
             using type =
                 typename MeshDataContainer<T, Dimensions...>::template DataContainerType<Index>::type;
 
-            MeshDataIterator<Index - 1, true>::writeToStream(ist, data, dataPositions, tupTraits);
+            MeshDataIterator<Index - 1, true>::readFromStream(ist, data, dataPositions, tupTraits);
 
             constexprFor<ReadData, SelectTraitsWithIODefault<type, TraitsTuple...>::TypeTraits::size()>(
                 ist,
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index c447676..2803553 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -226,7 +226,6 @@ public:
         static_assert (HasDefaultIOTraits<type>::value, "The class T must have defined traits for example using macro MAKE_ATTRIBUTE_TRAIT in header Traits.h");
         ost << "CELL_DATA " << writer.getNumberOfCells() << std::endl;
         constexprFor<WriteData, DefaultIOTraits<T>::size()>(ost, data, writer, DefaultIOTraits<T>::getTraits());
-        writeData(ost, data, writer);
     }
 
 private:
-- 
2.43.0


From 6b4f40476339d5b9a36c477cbcba38c1db43e1c0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 57/65] fix: VTK files with an unsupported cell type or without
 a required section are refused

---
 .../MeshIO/MeshReader/VTKMeshReader.h         | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index d4e8a08..6605f40 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -9,6 +9,7 @@
 #include <unordered_map>
 #include <map>
 #include <algorithm>
+#include <stdexcept>
 
 /**
  *
@@ -141,7 +142,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type " + std::to_string(vtkType));
             }
         }
     }
@@ -174,19 +175,22 @@ public:
         mesh.clear();
 
         ist >> buf;
-        if (buf == "POINTS") {
-            loadVertices(ist, mesh);
+        if (buf != "POINTS") {
+            throw std::runtime_error("the keyword POINTS expected but got " + buf);
         }
+        loadVertices(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELLS") {
-            loadCells(ist, mesh);
+        if (buf != "CELLS") {
+            throw std::runtime_error("the keyword CELLS expected but got " + buf);
         }
+        loadCells(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELL_TYPES") {
-            loadCellTypes(ist, mesh);
+        if (buf != "CELL_TYPES") {
+            throw std::runtime_error("the keyword CELL_TYPES expected but got " + buf);
         }
+        loadCellTypes(ist, mesh);
 
     }
 
@@ -420,7 +424,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type " + std::to_string(vtkType));
             }
         }
     }
@@ -453,19 +457,22 @@ public:
         mesh.clear();
 
         ist >> buf;
-        if (buf == "POINTS") {
-            loadVertices(ist, mesh);
+        if (buf != "POINTS") {
+            throw std::runtime_error("the keyword POINTS expected but got " + buf);
         }
+        loadVertices(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELLS") {
-            loadCells(ist, mesh);
+        if (buf != "CELLS") {
+            throw std::runtime_error("the keyword CELLS expected but got " + buf);
         }
+        loadCells(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELL_TYPES") {
-            loadCellTypes(ist, mesh);
+        if (buf != "CELL_TYPES") {
+            throw std::runtime_error("the keyword CELL_TYPES expected but got " + buf);
         }
+        loadCellTypes(ist, mesh);
 
         mesh.updateSignature();
     }
-- 
2.43.0


From 1502984f74f88e13c8655809487ba0011b12fd16 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 58/65] fix: a 2D mesh loaded from a VTK file gets its own
 signature

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 6605f40..07c7de1 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -192,6 +192,7 @@ public:
         }
         loadCellTypes(ist, mesh);
 
+        mesh.updateSignature();
     }
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
-- 
2.43.0


From 14787e679c911f8494ba6e396b4d3cba1848552f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 59/65] fix: loading an FPMA file replaces the previous
 contents of the mesh

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 415ad17..0a3d861 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -156,6 +156,8 @@ public:
     void loadFromStream(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         ist.seekg(ist.beg);
 
+        mesh.clear();
+
         loadVertices(ist, mesh);
 
         loadFaces(ist, mesh);
-- 
2.43.0


From 243942ea1893aa77abb3d147ceee5af76a51fe06 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 60/65] fix: reading of an attribute missing in the VTK file is
 reported

---
 .../MeshDataIO/VTKMeshDataReader.h            | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index d18a703..d1a0345 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -9,12 +9,28 @@
 #include <istream>
 #include <map>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 
 template <unsigned int MeshDimension, typename IndexType>
 class VTKMeshDataReader {
 
     static_assert (MeshDimension == 2 || MeshDimension == 3, "The VTK file format can represent data only in 2D or 3D");
 
+    /**
+     * @brief dataPosition
+     * returns the position of the values of the attribute in the file
+     */
+    static std::istream::pos_type dataPosition( const std::map<std::string, std::istream::pos_type>& dataPositions,
+                                                const std::string& name )
+    {
+        auto it = dataPositions.find(name);
+        if (it == dataPositions.end()) {
+            throw std::runtime_error("the attribute \"" + name + "\" was not found in the file");
+        }
+        return it->second;
+    }
+
     /**
      * @brief readColumn
      * reads a single column of traited data
@@ -29,7 +45,7 @@ class VTKMeshDataReader {
                    const Traits<T, TraitsArgs...>& traits)
     {
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        ist.seekg(dataPosition(dataPositions, traits.template getName<Index>()));
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
@@ -54,7 +70,7 @@ class VTKMeshDataReader {
             >::type
     {
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        ist.seekg(dataPosition(dataPositions, traits.template getName<Index>()));
 
         typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
 
@@ -82,7 +98,7 @@ class VTKMeshDataReader {
     {
 
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        ist.seekg(dataPosition(dataPositions, traits.template getName<Index>()));
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
-- 
2.43.0


From b89f5a6b1d1475f0fa2f10540e14d7689a1c396b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 61/65] fix: load and write select the format by the extension
 and refuse unsupported ones

---
 .../UnstructuredMesh/UnstructuredMesh.h       | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index fe2fba7..0429413 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -253,22 +253,26 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            auto reader = new VTKMeshReader<MeshDimension>();
+            auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
-        if (filePath.find(".fpma") != filePath.npos){
+        if (checkExtension(filePath, ".fpma")){
             DBGMSG("file recognized as FPMA");
-            auto reader = new FPMAMeshReader<MeshDimension>();
+            auto reader = std::make_unique<FPMAMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         file.close();
 
+        if (!reader_ptr) {
+            throw std::runtime_error("unsupported format of the file: \"" + filePath + "\"");
+        }
+
         return reader_ptr;
     }
 
@@ -288,15 +292,19 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            auto reader = new VTKMeshReader<MeshDimension>();
+            auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         file.close();
 
+        if (!reader_ptr) {
+            throw std::runtime_error("unsupported format of the file: \"" + filePath + "\"");
+        }
+
         return reader_ptr;
     }
 
@@ -356,8 +364,7 @@ private:
      * @brief Returns true if the filePath string ends with the string ext
      */
     bool checkExtension(const std::string& filePath, const std::string& ext){
-        std::string fileExt = filePath.substr(filePath.find_last_of("."));
-        return fileExt == ext;
+        return filePath.size() >= ext.size() && filePath.substr(filePath.size() - ext.size()) == ext;
     }
 public:
     /**
@@ -387,6 +394,10 @@ public:
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
+        if (!writer_ptr) {
+            throw std::runtime_error("unsupported format of the file: \"" + filePath + "\"");
+        }
+
         return writer_ptr;
     }
 
@@ -469,6 +480,10 @@ public:
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
+        if (!writer_ptr) {
+            throw std::runtime_error("unsupported format of the file: \"" + filePath + "\"");
+        }
+
         return writer_ptr;
     }
 
-- 
2.43.0


From 3e10b36943f8660c5dbd9edd1a656a7d85b35822 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:46:15 +0000
Subject: [PATCH 62/65] fix: a writer that does not match the file is replaced
 before the file is touched

---
 .../UnstructuredMesh/UnstructuredMesh.h       | 98 ++++++++-----------
 1 file changed, 41 insertions(+), 57 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 0429413..5ef0c7b 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -416,44 +416,34 @@ public:
           std::unique_ptr<MeshWriter<MeshDimension>>& writer,
           const MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>& cellTypes = MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>(),
           const std::string& dataHeader = ""){
-        if (!writer) {
-            writer = write(filePath, cellTypes, dataHeader);
-        } else {
+        auto vtkWriter = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
+        auto fpmaWriter = dynamic_cast<FPMAMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
 
-            std::ofstream file(filePath, std::ios::binary);
-            if (!file.is_open()) {
-                throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
-            }
+        if (!(vtkWriter && checkExtension(filePath, ".vtk")) && !(fpmaWriter && checkExtension(filePath, ".fpma"))) {
+            DBGMSG("The writer type and file name does not match!");
+            writer = write(filePath, cellTypes, dataHeader);
+            return;
+        }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
-                if (!checkExtension(filePath, ".vtk")){
-                    DBGMSG("The writer type and file name does not match!");
-                    writer = write(filePath, cellTypes, dataHeader);
-                } else {
-                    DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
-                    writer_loc->writeHeader(file, dataHeader);
-                    if (cellTypes.template getDataByPos<0>().size() == 0) {
-                        MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
-                        writer_loc->writeToStream(file, *this, locCellTypes);
-                    } else {
-                        writer_loc->writeToStream(file, *this, cellTypes);
-                    }
-                }
-            }
+        std::ofstream file(filePath, std::ios::binary);
+        if (!file.is_open()) {
+            throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
+        }
 
-            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension, IndexType, Real>).hash_code()){
-                if (!checkExtension(filePath, ".fpma")){
-                    DBGMSG("The writer type and file name does not match!");
-                    writer = write(filePath, cellTypes, dataHeader);
-                } else {
-                    DBGMSG("writer recognized as FPMA");
-                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
-                    reader->writeToStream(file, *this);
-                }
+        if (vtkWriter) {
+            DBGMSG("writer recognized as VTK");
+            vtkWriter->writeHeader(file, dataHeader);
+            if (cellTypes.template getDataByPos<0>().size() == 0) {
+                MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
+                vtkWriter->writeToStream(file, *this, locCellTypes);
+            } else {
+                vtkWriter->writeToStream(file, *this, cellTypes);
             }
-            file.close();
+        } else {
+            DBGMSG("writer recognized as FPMA");
+            fpmaWriter->writeToStream(file, *this);
         }
+        file.close();
     }
 
 
@@ -497,35 +487,29 @@ public:
           std::unique_ptr<MeshWriter<MeshDimension>>& writer,
           const MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>& cellTypes = MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim>(),
           const std::string& dataHeader = ""){
-        if (!writer) {
-            writer = write(filePath, cellTypes, dataHeader);
-        } else {
+        auto vtkWriter = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
 
-            std::ofstream file(filePath, std::ios::binary);
-            if (!file.is_open()) {
-                throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
-            }
+        if (!vtkWriter || !checkExtension(filePath, ".vtk")) {
+            DBGMSG("The writer type and file name does not match!");
+            writer = write(filePath, cellTypes, dataHeader);
+            return;
+        }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
-                if (checkExtension(filePath, ".vtk")){
-                    DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
-                    writer_loc->writeHeader(file, dataHeader);
-                    if (cellTypes.template getDataByPos<0>().size() == 0) {
-                        MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
-                        writer_loc->writeToStream(file, *this, locCellTypes);
-                    } else {
-                        writer_loc->writeToStream(file, *this, cellTypes);
-                    }
-                } else {
-                    DBGMSG("The writer type and file name does not match!");
-                    writer = write(filePath, cellTypes, dataHeader);
-                }
-            }
+        std::ofstream file(filePath, std::ios::binary);
+        if (!file.is_open()) {
+            throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
+        }
 
-            file.close();
+        DBGMSG("writer recognized as VTK");
+        vtkWriter->writeHeader(file, dataHeader);
+        if (cellTypes.template getDataByPos<0>().size() == 0) {
+            MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
+            vtkWriter->writeToStream(file, *this, locCellTypes);
+        } else {
+            vtkWriter->writeToStream(file, *this, cellTypes);
         }
 
+        file.close();
     }
 
 
-- 
2.43.0


From 1f465f52676772cbbe292fc5474672f474cc7687 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 63/65] fix: VTK cells are written with the same orientation on
 both sides of a face

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 676dae1..041ed37 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -242,7 +242,7 @@ public:
 
         IndexType startVertex = INVALID_INDEX(IndexType);
         IndexType nextVertex = INVALID_INDEX(IndexType);
-        if (faceEdgeOri[face][0] == true && cell.getIndex() == face.getCellLeftIndex()){ // the edge is left to the face
+        if (faceEdgeOri[face][0] == (cell.getIndex() == face.getCellLeftIndex())){ // the edge is left to the face
             startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
             nextVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexAIndex();
         } else {
-- 
2.43.0


From ae9d323f0d9c4622fa9a7a43dcb3173b4f0586a8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 64/65] fix: tessellated VTK export does not merge centers
 closer than 1e-6

---
 .../MeshIO/MeshWriter/VTKMeshWriter.h         | 24 +++++--------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 041ed37..790cde1 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -421,7 +421,8 @@ DBGMSG("indexing mesh");
         // this is very expensive procedure
         auto faceEdgeOri = edgesOrientation(mesh);
 
-        std::map<std::string, IndexType> appendedVertPos;
+        // positions of the face centers in the output
+        std::map<IndexType, IndexType> appendedVertPos;
 
 
 
@@ -512,18 +513,8 @@ DBGMSG("indexing mesh");
                 //throw std::runtime_error("it is not possible yet to write generic object into VTK");
 
                 IndexType tmpFace = cell.getBoundaryElementIndex();
-                IndexType cellCenterIndex = INVALID_INDEX(IndexType);
-                std::string cellCenterKey = std::to_string(cell.getCenter()[0]) +
-                        ";" + std::to_string(cell.getCenter()[1]) +
-                        ";" + std::to_string(cell.getCenter()[2]);
-                auto it = appendedVertPos.find(cellCenterKey);
-                if (it == appendedVertPos.end()) {
-                    appendedVertPos[cellCenterKey] = appendedVertices.size() + mesh.getVertices().size();
-                    cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                    appendedVertices.push_back(cell.getCenter());
-                } else {
-                    cellCenterIndex = it->second;
-                }
+                IndexType cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
+                appendedVertices.push_back(cell.getCenter());
 
                 do {
                     auto& face = mesh.getFaces().at(tmpFace);
@@ -534,14 +525,11 @@ DBGMSG("indexing mesh");
                         vertWrit.reserve(4);
                         vertWrit.push_back(edge.getVertexAIndex());
                         vertWrit.push_back(edge.getVertexBIndex());
-                        std::string faceCenterKey = std::to_string(face.getCenter()[0]) +
-                                ";" + std::to_string(face.getCenter()[1]) +
-                                ";" + std::to_string(face.getCenter()[2]);
                         IndexType faceCenterIndex = INVALID_INDEX(IndexType);
-                        auto it = appendedVertPos.find(faceCenterKey);
+                        auto it = appendedVertPos.find(face.getIndex());
                         if (it == appendedVertPos.end()) {
                             faceCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                            appendedVertPos[faceCenterKey] = faceCenterIndex;
+                            appendedVertPos[face.getIndex()] = faceCenterIndex;
                             appendedVertices.push_back(face.getCenter());
                         } else {
                             faceCenterIndex = it->second;
-- 
2.43.0


From 2ac25232bb6468b7989c6f42ba0a8e279bd33157 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 65/65] fix: tensors are written under the VTK keyword and read
 back, other lengths are refused

---
 .../MeshDataIO/VTKMeshDataReader.h            | 26 ++++++++++++-------
 .../MeshDataIO/VTKMeshDataWriter.h            | 19 +++++++++++---
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index d1a0345..44ef0f2 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -47,10 +47,9 @@ class VTKMeshDataReader {
 
         ist.seekg(dataPosition(dataPositions, traits.template getName<Index>()));
 
-        typename Traits<T, TraitsArgs...>::template type<Index> value;
-
         for (IndexType i = 0; i < data.size(); i++) {
-            for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
+            typename Traits<T, TraitsArgs...>::template type<Index> value = traits.template getValue<Index>(data.at(i));
+            for (unsigned int j = 0; j < value.size(); j++){
                 ist >> value[j];
             }
             traits.template setValue<Index>(data.at(i), value);
@@ -72,14 +71,21 @@ class VTKMeshDataReader {
 
         ist.seekg(dataPosition(dataPositions, traits.template getName<Index>()));
 
-        typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
+        double dummy = 0;
 
         for (IndexType i = 0; i < data.size(); i++) {
-            for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
+            typename Traits<T, TraitsArgs...>::template type<Index> value = traits.template getValue<Index>(data.at(i));
+            for (unsigned int j = 0; j < value.size(); j++){
                 ist >> value[j];
+                // skip the third component
+                if (j % MeshDimension == MeshDimension - 1) {
+                    ist >> dummy;
+                }
+            }
+            // skip the third row of a tensor
+            if (value.size() == MeshDimension * MeshDimension) {
+                ist >> dummy >> dummy >> dummy;
             }
-
-            ist >> dummy[0];
 
             traits.template setValue<Index>(data.at(i), value);
         }
@@ -140,9 +146,9 @@ public:
         ist.seekg(ist.beg);
         while(std::getline(ist, line, '\n')) {
 
-            int flag = (line.find("SCALARS")!= line.npos ? 1
-                                                          : line.find("VECTORS") != line.npos ? 2
-                                                                                              : 0 );
+            int flag = (line.find("SCALARS ") == 0 ? 1
+                        : line.find("VECTORS ") == 0 || line.find("TENSORS ") == 0 ? 2
+                                                                                   : 0 );
             if (flag != 0){
                 std::string dataName;
                 std::stringstream sstream(line);
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 2803553..3e99e5f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -9,6 +9,8 @@
 #include <GTMesh/Utils/ConstexprFor.h>
 
 #include <ostream>
+#include <stdexcept>
+#include <string>
 /**
  * @brief The VTKMeshDataWriter utilizes the
  * class Traits to export the given MeshDataContainer
@@ -55,7 +57,9 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
+        else
+            throw std::runtime_error(std::string("the attribute \"") + traits.template getName<Index>() + "\" is neither a vector nor a tensor");
 
         ost << traits.template getName<Index>() << " double\n";
 
@@ -149,15 +153,24 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
+        else
+            throw std::runtime_error(std::string("the attribute \"") + traits.template getName<Index>() + "\" is neither a vector nor a tensor");
 
         ost << traits.template getName<Index>() << " double\n";
 
         for (const auto& d : data){
             for(unsigned int j = 0; j < traits.template getValue<Index>(data.at(0)).size(); j++){
                 ost << traits.template getValue<Index>(d)[j] << ' ';
+                // fill up the third component
+                if (j % MeshDimension == MeshDimension - 1) {
+                    ost << "0.0 ";
+                }
+            }
+            // fill up the third row of a tensor
+            if (traits.template getValue<Index>(d).size() == MeshDimension * MeshDimension) {
+                ost << "0.0 0.0 0.0 ";
             }
-            ost << "0.0 ";
         }
     }
 
-- 
2.43.0

